const std = @import("std");
const c = @import("ctx.zig");
const table = @import("table.zig");
var cur: []const u8 = "";
pub fn panic(msg: []const u8, _: ?*std.builtin.StackTrace, _: ?usize) noreturn {
    const o = std.io.getStdOut().writer();
    o.print("{s} panic ", .{cur}) catch {};
    for (msg) |x| o.writeByte(if (x == ' ' or x == '\n') '_' else x) catch {};
    o.writeByte('\n') catch {};
    std.process.exit(66);
}
pub fn main() !void {
    var br = std.io.bufferedReader(std.io.getStdIn().reader());
    const so = std.io.getStdOut().writer();
    var buf = std.ArrayList(u8).init(c.gpa);
    var toks = std.ArrayList([]const u8).init(c.gpa);
    while (true) {
        buf.clearRetainingCapacity();
        br.reader().streamUntilDelimiter(buf.writer(), '\n', null) catch |e| { if (e == error.EndOfStream) { if (buf.items.len == 0) return; } else return e; };
        if (buf.items.len == 0) continue;
        _ = c.arena_state.reset(.retain_capacity);
        toks.clearRetainingCapacity();
        var it = std.mem.splitScalar(u8, buf.items, ' ');
        while (it.next()) |t| try toks.append(t);
        c.toks = toks.items; c.pos = 0; c.out.clearRetainingCapacity();
        cur = c.tok();
        const si = c.us(); const op = c.tok()[0]; const fail = c.us(); _ = c.tok();
        c.tr.reset(fail);
        if (op == 'F') {
            const in = c.tok()[0]; const at = c.pos;
            if (table.call(si, in)) { c.w("|"); c.tr.fail_at = 0; c.pos = at; _ = table.call(si, in); } else c.w("noschema");
        } else if (!table.call(si, op)) c.w("noschema");
        try so.print("{s}{s}\n", .{ cur, c.out.items });
    }
}
