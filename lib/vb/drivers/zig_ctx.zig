const std = @import("std");
pub const gpa = std.heap.c_allocator;
pub var arena_state = std.heap.ArenaAllocator.init(std.heap.c_allocator);
pub var toks: [][]const u8 = undefined;
pub var pos: usize = 0;
pub var out: std.ArrayList(u8) = std.ArrayList(u8).init(std.heap.c_allocator);
pub fn arena() std.mem.Allocator { return arena_state.allocator(); }
pub fn tok() []const u8 { if (pos >= toks.len) @panic("driver underrun"); pos += 1; return toks[pos - 1]; }
pub fn i() i64 { return std.fmt.parseInt(i64, tok(), 10) catch @panic("driver int"); }
pub fn u() u64 { return std.fmt.parseInt(u64, tok(), 10) catch @panic("driver uint"); }
pub fn us() usize { return @intCast(u()); }
pub fn b() bool { return tok()[0] != '0'; }
pub fn f() f32 { return @bitCast(@as(u32, @intCast(u()))); }
pub fn d() f64 { return @bitCast(u()); }
pub fn hex() []u8 { const t = tok()[1..]; const r = arena().alloc(u8, t.len / 2) catch unreachable; for (r, 0..) |*x, k| x.* = std.fmt.parseInt(u8, t[2 * k ..][0..2], 16) catch @panic("driver hex"); return r; }
pub fn w(s: []const u8) void { out.append(' ') catch unreachable; out.appendSlice(s) catch unreachable; }
pub fn wn(n: anytype) void { out.writer().print(" {d}", .{n}) catch unreachable; }
pub fn wh(p: []const u8, s: []const u8) void { w(p); for (s) |x| out.writer().print("{x:0>2}", .{x}) catch unreachable; }
pub fn pf(x: f32) void { wn(@as(u32, @bitCast(x))); }
pub fn pd(x: f64) void { wn(@as(u64, @bitCast(x))); }
pub fn bi(x: bool) void { w(if (x) "1" else "0"); }
pub fn raw(n: usize) []u8 { const r = arena().alloc(u8, n) catch unreachable; @memset(r, 0xAA); return r; }
pub fn intact(x: []const u8) bool { for (x) |y| if (y != 0xAA) return false; return true; }
// allocator that counts, checks frees, and fails at a chosen allocation
pub const Tracker = struct {
    map: std.AutoHashMap(usize, usize) = std.AutoHashMap(usize, usize).init(std.heap.c_allocator),
    n: usize = 0, fail_at: usize = 0, bad: usize = 0,
    pub fn allocator(self: *Tracker) std.mem.Allocator { return .{ .ptr = self, .vtable = &.{ .alloc = alloc, .resize = resize, .free = free } }; }
    fn alloc(c: *anyopaque, len: usize, al: u8, ra: usize) ?[*]u8 { const self: *Tracker = @ptrCast(@alignCast(c)); self.n += 1; if (len > 1 << 28) return null; if (self.fail_at != 0 and self.n == self.fail_at) return null; const p = gpa.rawAlloc(len, al, ra) orelse return null; self.map.put(@intFromPtr(p), len) catch unreachable; return p; }
    fn resize(c: *anyopaque, m: []u8, al: u8, n: usize, ra: usize) bool { _ = c; _ = m; _ = al; _ = n; _ = ra; return false; }
    fn free(c: *anyopaque, m: []u8, al: u8, ra: usize) void { const self: *Tracker = @ptrCast(@alignCast(c)); if (self.map.get(@intFromPtr(m.ptr))) |l| { if (l != m.len) self.bad += 1; _ = self.map.remove(@intFromPtr(m.ptr)); gpa.rawFree(m.ptr[0..l], al, ra); } else self.bad += 1; }
    pub fn report(self: *Tracker) void { w("M"); wn(self.n); wn(self.map.count()); wn(self.bad); }
    pub fn reset(self: *Tracker, fail: usize) void { self.map.clearRetainingCapacity(); self.n = 0; self.bad = 0; self.fail_at = fail; }
};
pub var tr = Tracker{};
