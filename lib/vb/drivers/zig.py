"""Zig driver glue for one generated file."""
from ..schema import View
ZT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64", "int64": "i64", "float": "f32", "double": "f64", "string": "[]const u8"}


def is_simple(v, sd): return all(not l and t != "string" and (t not in v.structs or is_simple(v, v.structs[t])) for _, t, l in sd["members"])


def glue(s, idx):
    v = View(s)
    o = ['const std = @import("std");', 'const c = @import("ctx.zig");', f'const g = @import("s{idx}.zig");']
    a = o.append

    def zt(t): return ZT.get(t) or "g." + t

    def rd(t):
        k = v.kind(t)
        if k == "struct": return f"b_{t}()"
        if k == "enum": return "@as(g." + t + ", switch (c.i()) { " + " ".join(f"{n} => g.{t}.{e}," for e, n in v.enums[t]["entries"]) + ' else => @panic("driver enum") })'
        return {"string": "@as([]const u8, c.hex())", "bool": "c.b()", "float": "c.f()", "double": "c.d()"}.get(k) or f"@as({ZT[k]}, @intCast({'c.i()' if k.startswith('int') else 'c.u()'}))"

    def pr(t, e):
        k = v.kind(t)
        if k == "struct": return f"p_{t}(&{e});"
        if k == "enum": return f"c.wn(@as(i64, @intFromEnum({e})));"
        return {"string": f"c.wh(\"s\", {e});", "bool": f"c.bi({e});", "float": f"c.pf({e});", "double": f"c.pd({e});"}.get(k) or f"c.wn({e});"

    for sd in [v.structs[n] for n in v.used_structs()] + v.messages:
        n = sd["name"]
        kw = "var" if sd["members"] else "const"
        a(f"fn b_{n}() g.{n} {{ {kw} m = g.{n}{{}};")
        for x, t, l in sd["members"]:
            if l: a(f"{{ const n = c.us(); const l = c.arena().alloc({zt(t)}, n) catch unreachable; for (l) |*e| e.* = {rd(t)}; m.{x} = l; }}")
            else: a(f"m.{x} = {rd(t)};")
        a("return m; }")
        a(f"fn p_{n}(m: *const g.{n}) void {{")
        if not sd["members"]: a("_ = m;")
        for x, t, l in sd["members"]:
            if l: a(f"c.wn(m.{x}.len); for (m.{x}) |*e| {{ {pr(t, 'e.*')} }}")
            else: a(pr(t, f"m.{x}"))
        a("}")
    ms = v.messages
    a("fn mk(mi: i64) g.Message { return switch (mi) {")
    for i, m in enumerate(ms): a(f"{i+1} => g.Message{{ .{m['name']} = b_{m['name']}() }},")
    a('else => @panic("driver mi") }; }')
    a("fn ty(m: *const g.Message) i64 { return switch (m.*) { " + " ".join(f".{m['name']} => {i+1}," for i, m in enumerate(ms)) + " }; }")
    a("fn pm(m: *const g.Message) void { c.wn(ty(m)); switch (m.*) { " + " ".join(f".{m['name']} => |*x| p_{m['name']}(x)," for m in ms) + " } }")
    a("fn dm(m: *g.Message) void { switch (m.*) { " + " ".join(f".{m['name']} => " + ("{}," if is_simple(v, m) else "|*x| x.deinit(c.tr.allocator()),") for m in ms) + " } }")
    a("fn en(e: anyerror) void { c.w(\"err\"); c.w(@errorName(e)); }")
    a("fn from(mi: i64, off: usize, buf: []const u8, pos: *usize) anyerror!g.Message { switch (mi) {")
    for i, m in enumerate(ms): a(f"{i+1} => {{ const r = try g.{m['name']}.fromBytes({'' if is_simple(v, m) else 'c.tr.allocator(), '}off, buf); pos.* = off + r.bytes_read; return g.Message{{ .{m['name']} = r.value }}; }},")
    a('else => @panic("driver mi") } }')
    a("fn wr(m: *const g.Message, off: usize, buf: []u8, tag: bool) usize { switch (m.*) { " + " ".join(f".{m['name']} => |*x| return x.writeBytes(off, buf, tag)," for m in ms) + " } }")
    a("fn sz(m: *const g.Message) usize { switch (m.*) { " + " ".join(f".{m['name']} => |*x| return x.getSizeInBytes()," for m in ms) + " } }")
    a("fn def(mi: i64) g.Message { return switch (mi) {")
    for i, m in enumerate(ms): a(f"{i+1} => g.Message{{ .{m['name']} = g.{m['name']}{{}} }},")
    a('else => @panic("driver mi") }; }')
    a(r"""
const View = struct { buf: []u8, off: usize };
fn view() View { const vo = c.us(); const off = c.us(); const trail = c.us(); const d = c.hex(); const u = c.raw(vo + off + d.len + trail); @memcpy(u[vo + off ..][0..d.len], d); return .{ .buf = u[vo..][0 .. off + d.len], .off = off }; }
fn plist(l: []g.Message) void { c.wn(l.len); for (l) |*m| pm(m); }
fn flist(l: []g.Message) void { for (l) |*m| dm(m); c.tr.allocator().free(l); }
pub fn op(o: u8) void { switch (o) {
 'W', 'G' => { const mi = c.i(); const tag = c.i() != 0; const total = c.us(); const vo = c.us(); const cap = c.us(); const off = c.us(); var m = mk(mi); const u = c.raw(total);
   const n = if (o == 'W') wr(&m, off, u[vo..][0..cap], tag) else (if (vo % 2 == 0) g.writeBytes(&m, off, u[vo..][0..cap], tag) else m.writeBytes(off, u[vo..][0..cap], tag));
   const end = off + n; const okk = end <= cap; c.w("ok"); c.wn(sz(&m)); c.wn(m.getSizeInBytes()); c.wn(end); c.bi(okk and c.intact(u[0 .. vo + off]) and c.intact(u[vo + end ..])); c.wh("x", if (okk) u[vo + off .. vo + end] else ""); },
 'R' => { const mi = c.i(); _ = c.i(); const v = view(); var pos: usize = 0; if (from(mi, v.off, v.buf, &pos)) |r| { var m = r; @memset(v.buf, 0xEE); c.w("ok"); c.wn(pos); pm(&m); dm(&m); } else |e| en(e); c.tr.report(); },
 'P' => { const max: i32 = @intCast(c.i()); const v = view(); if (g.processRawBytes(c.tr.allocator(), v.buf[v.off..], max)) |l| { @memset(v.buf, 0xEE); c.w("ok"); c.w("-"); plist(l); flist(l); } else |e| en(e); c.tr.report(); },
 'U' => { const v = view(); if (g.unpackMessages(c.tr.allocator(), v.buf[v.off..])) |l| { @memset(v.buf, 0xEE); c.w("ok"); c.w("-"); plist(l); flist(l); } else |e| en(e); c.tr.report(); },
 'K' => { const total = c.us(); const vo = c.us(); const cap = c.us(); const off = c.us(); const n = c.us(); const l = c.arena().alloc(g.Message, n) catch unreachable; for (l) |*m| m.* = mk(c.i()); const u = c.raw(total); const ps = g.getPackedSize(l); g.packMessages(l, u[vo + off .. vo + cap]);
   const end = off + ps; const okk = end <= cap; c.w("ok"); c.wn(ps); c.w("-"); c.bi(okk and c.intact(u[0 .. vo + off]) and c.intact(u[vo + end ..])); c.wh("x", if (okk) u[vo + off .. vo + end] else ""); },
 'Q' => { const vo = c.us(); const off = c.us(); const trail = c.us(); const cap = c.us(); const n = c.us(); const u = c.raw(vo + cap + trail); const buf = u[vo..][0..cap]; const mis = c.arena().alloc(i64, n) catch unreachable; const tags = c.arena().alloc(bool, n) catch unreachable; c.w("ok"); var p = off;
   for (0..n) |k| { mis[k] = c.i(); tags[k] = c.i() != 0; var m = mk(mis[k]); p += wr(&m, p, buf, tags[k]); c.w("w"); c.wn(p); }
   c.w("b"); c.bi(c.intact(u[0 .. vo + off]) and c.intact(u[vo + p ..])); c.wh("x", buf[off..p]); p = off;
   for (0..n) |k| { if (tags[k]) { if (g.processRawBytes(c.tr.allocator(), buf[p..], 1)) |l| { if (l.len > 0) p += 1 + l[0].getSizeInBytes(); c.w("t"); c.wn(p); plist(l); flist(l); } else |_| { c.w("rerr"); break; } }
     else { var np: usize = 0; if (from(mis[k], p, buf, &np)) |r| { var m = r; p = np; c.w("r"); c.wn(p); pm(&m); dm(&m); } else |_| { c.w("rerr"); break; } } } c.tr.report(); },
 'D' => { const mi = c.i(); _ = c.i(); var m = def(mi); const u = c.raw(1 << 16); const n = wr(&m, 0, u, true); c.w("ok"); c.wn(sz(&m)); c.wn(m.getSizeInBytes()); c.wn(ty(&m)); c.wh("x", u[0..n]); var save = c.out.clone() catch unreachable; defer save.deinit(); c.out.clearRetainingCapacity(); pm(&m);
   const t = c.arena().dupe(u8, c.out.items) catch unreachable; c.out.clearRetainingCapacity(); c.out.appendSlice(save.items) catch unreachable; if (std.mem.indexOfScalarPos(u8, t, 1, ' ')) |k| c.out.appendSlice(t[k..]) catch unreachable; dm(&m); c.tr.report(); },
 'T' => { c.w("ok"); const names = [_][]const u8{ NAMES }; for (names, 0..) |nm, k| { var m = def(@intCast(k + 1)); const u = c.raw(1 << 16); _ = m.writeBytes(0, u, true); c.w(nm); c.wn(u[0]); c.wn(ty(&m)); } },
 else => c.w("badop") } }
""".replace("NAMES", ", ".join('"%s"' % m["name"] for m in ms)))
    return "\n".join(o) + "\n"
