"""Zig replay driver: allocator under our control, safety checks on (Debug)."""
from .base import *
from ..model import Protocol

RT = r'''
const std = @import("std");
pub const A = std.mem.Allocator;
var gpa_state = std.heap.GeneralPurposeAllocator(.{ .safety = true, .never_unmap = false }){};
pub const raw = std.heap.c_allocator;
pub threadlocal var live: i64 = 0;
pub threadlocal var allocs: i64 = 0;
pub threadlocal var fail_at: i64 = 0;
// a point at which the controlled scheduler may switch threads (conc.c)
const conc = false;
extern fn rt_pt() void;
pub inline fn pt() void { if (comptime conc) rt_pt(); }
pub const Track = struct {
    pub fn alloc(_: *anyopaque, len: usize, a: u8, ra: usize) ?[*]u8 {
        allocs += 1;
        if (fail_at != 0 and allocs == fail_at) return null;
        if (len > (1 << 28)) return null;
        const p = raw.rawAlloc(len, a, ra);
        if (p) |q| { live += 1; @memset(q[0..len], 0xCD); }
        return p;
    }
    pub fn resize(_: *anyopaque, buf: []u8, a: u8, n: usize, ra: usize) bool {
        _ = buf; _ = a; _ = n; _ = ra;
        return false;
    }
    pub fn free(_: *anyopaque, buf: []u8, a: u8, ra: usize) void {
        live -= 1;
        @memset(buf, 0xDD);
        raw.rawFree(buf, a, ra);
    }
};
const vt = A.VTable{ .alloc = Track.alloc, .resize = Track.resize, .free = Track.free };
var dummy: u8 = 0;
pub const tracked = A{ .ptr = @ptrCast(&dummy), .vtable = &vt };

pub const Cur = struct {
    it: std.mem.TokenIterator(u8, .scalar),
    o: std.ArrayList(u8),
    pub fn next(c: *Cur) []const u8 {
        return c.it.next() orelse { std.debug.print("harness: missing token\n", .{}); std.process.exit(9); };
    }
    pub fn int(c: *Cur) i64 { return std.fmt.parseInt(i64, c.next(), 10) catch { std.debug.print("harness: int\n", .{}); std.process.exit(9); }; }
    pub fn uint(c: *Cur) u64 { return std.fmt.parseInt(u64, c.next(), 10) catch { std.debug.print("harness: uint\n", .{}); std.process.exit(9); }; }
    pub fn hexTo(c: *Cur, al: A) []u8 {
        const t = c.next()[1..];
        const b = al.alloc(u8, t.len / 2) catch { std.debug.print("harness: oom\n", .{}); std.process.exit(9); };
        _ = std.fmt.hexToBytes(b, t) catch { std.debug.print("harness: hex\n", .{}); std.process.exit(9); };
        return b;
    }
    pub fn hex(c: *Cur) []u8 { return c.hexTo(raw); }
    pub fn str(c: *Cur) []u8 { return c.hexTo(tracked); }
    pub fn list(c: *Cur, comptime T: type) []T {
        const n = c.uint();
        return tracked.alloc(T, n) catch { std.debug.print("harness: oom\n", .{}); std.process.exit(9); };
    }
    pub fn p(c: *Cur, comptime f: []const u8, args: anytype) void { if (comptime std.mem.startsWith(u8, f, "ok")) pt(); c.o.writer().print(f, args) catch unreachable; }
    pub fn phex(c: *Cur, pre: []const u8, b: []const u8) void { c.p("{s}{s} ", .{ pre, std.fmt.fmtSliceHexLower(b) }); }
};
pub fn readOne(comptime T: type, offset: usize, buffer: []const u8) !struct { value: T, bytes_read: usize } {
    if (comptime @typeInfo(@TypeOf(T.fromBytes)).Fn.params.len == 3) {
        const r = try T.fromBytes(tracked, offset, buffer);
        return .{ .value = r.value, .bytes_read = r.bytes_read };
    } else {
        const r = try T.fromBytes(offset, buffer);
        return .{ .value = r.value, .bytes_read = r.bytes_read };
    }
}
pub fn deinitOne(comptime T: type, v: *T) void {
    if (comptime @hasDecl(T, "deinit")) v.deinit(tracked);
}
pub fn deinitMsg(m: anytype) void {
    switch (m.*) { inline else => |*inner| deinitOne(@TypeOf(inner.*), inner) }
}
threadlocal var ccur: ?Cur = null;
pub fn exec_c(line: [*:0]const u8, comptime dispatch: fn (c: *Cur, cmd: u8, pid: i64) void) [*:0]const u8 {
    if (ccur == null) ccur = Cur{ .it = undefined, .o = std.ArrayList(u8).init(raw) };
    const c = &ccur.?;
    c.it = std.mem.tokenizeScalar(u8, std.mem.span(line), ' ');
    c.o.clearRetainingCapacity();
    live = 0; allocs = 0; fail_at = 0; want_fail = 0;
    const cmd = c.next();
    const pid = c.int();
    dispatch(c, cmd[0], pid);
    if (std.mem.indexOf(u8, c.o.items, " #")) |i| c.o.shrinkRetainingCapacity(i);
    while (c.o.items.len > 0 and c.o.items[c.o.items.len - 1] == ' ') c.o.shrinkRetainingCapacity(c.o.items.len - 1);
    if (live != 0) c.p(" LEAK{d}", .{live});
    c.p("\x00", .{});
    return @ptrCast(c.o.items.ptr);
}
pub fn main_loop(comptime dispatch: fn (c: *Cur, cmd: u8, pid: i64) void) !void {
    var in = std.io.bufferedReader(std.io.getStdIn().reader());
    const out = std.io.getStdOut();
    var line = std.ArrayList(u8).init(raw);
    var c = Cur{ .it = undefined, .o = std.ArrayList(u8).init(raw) };
    while (true) {
        line.clearRetainingCapacity();
        in.reader().streamUntilDelimiter(line.writer(), '\n', null) catch |e| {
            if (e == error.EndOfStream and line.items.len == 0) return;
            if (e != error.EndOfStream) return e;
        };
        c.it = std.mem.tokenizeScalar(u8, line.items, ' ');
        c.o.clearRetainingCapacity();
        live = 0; allocs = 0; fail_at = 0; want_fail = 0;
        var cmd = c.next();
        if (cmd[0] == 'A') { want_fail = c.int(); _ = c.int(); cmd = c.next(); }
        const pid = c.int();
        dispatch(&c, cmd[0], pid);
        fail_at = 0;
        if (live != 0) c.p(" LEAK{d}", .{live});
        c.p(" #a{d}\n", .{allocs});
        try out.writeAll(c.o.items);
    }
}
pub threadlocal var want_fail: i64 = 0;
pub fn arm() void { allocs = 0; fail_at = want_fail; }
pub fn disarm() void { fail_at = 0; }
'''

ZT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32",
      "uint64": "u64", "int64": "i64", "float": "f32", "double": "f64", "string": "[]const u8"}


def _bld(p, t):
    k = p.kind(t)
    if k == "string": return "c.str()"
    if k == "enum": return "@enumFromInt(c.int())"
    if k == "struct": return f"bld_{t}(c)"
    if t == "float": return "@bitCast(@as(u32, @intCast(c.uint())))"
    if t == "double": return "@bitCast(c.uint())"
    if t == "bool": return "(c.int() != 0)"
    if t == "uint64": return "c.uint()"
    return "@intCast(c.int())"


def _dmp(p, t, lv):
    k = p.kind(t)
    if k == "string": return f'c.phex("s", {lv});'
    if k == "enum": return f'c.p("{{d}} ", .{{@intFromEnum({lv})}});'
    if k == "struct": return f"dmp_{t}(c, &{lv});"
    if t == "float": return f'c.p("{{d}} ", .{{@as(u32, @bitCast({lv}))}});'
    if t == "double": return f'c.p("{{d}} ", .{{@as(u64, @bitCast({lv}))}});'
    if t == "bool": return f'c.p("{{d}} ", .{{@intFromBool({lv})}});'
    return f'c.p("{{d}} ", .{{{lv}}});'


def driver_source(p: Protocol) -> str:
    o = [f'const std = @import("std");\nconst rt = @import("rt.zig");\nconst g = @import("p{p.pid}.zig");\nconst Cur = rt.Cur;\n']
    for s in p.structs + p.messages:
        o.append(f"fn bld_{s.name}(c: *Cur) g.{s.name} {{\n    var v = g.{s.name}{{}};\n    _ = &v; _ = &c;\n")
        for m in s.members:
            if m.is_list:
                ty = ZT.get(m.type) or f"g.{m.type}"
                o.append(f"    {{ const l = c.list({ty}); for (0..l.len) |i| l[i] = {_bld(p, m.type)}; v.{m.name} = l; }}\n")
            else:
                o.append(f"    v.{m.name} = {_bld(p, m.type)};\n")
        o.append(f"    return v;\n}}\nfn dmp_{s.name}(c: *Cur, v: *const g.{s.name}) void {{\n    _ = &v; _ = &c;\n")
        for m in s.members:
            if m.is_list:
                o.append(f'    c.p("{{d}} ", .{{v.{m.name}.len}}); for (v.{m.name}) |x| {{ {_dmp(p, m.type, "x")} }}\n')
            else:
                o.append(f"    {_dmp(p, m.type, 'v.' + m.name)}\n")
        o.append("}\n")
    o.append("fn mk(c: *Cur, mid: u64) g.Message {\n    switch (mid) {\n")
    o += [f"        {i} => return g.Message{{ .{m.name} = bld_{m.name}(c) }},\n" for i, m in enumerate(p.messages)]
    o.append("        else => std.process.exit(9),\n    }\n}\nfn dmp(c: *Cur, m: *const g.Message) void {\n    switch (m.*) {\n")
    o += [f'        .{m.name} => |*v| {{ c.p("{i} ", .{{}}); dmp_{m.name}(c, v); }},\n' for i, m in enumerate(p.messages)]
    o.append('    }\n    c.p("; ", .{});\n}\n')
    o.append("fn rd(mid: u64, off: usize, b: []const u8, n: *usize) !g.Message {\n    switch (mid) {\n")
    o += [f"        {i} => {{ const r = try rt.readOne(g.{m.name}, off, b); n.* = r.bytes_read; return g.Message{{ .{m.name} = r.value }}; }},\n" for i, m in enumerate(p.messages)]
    o.append("        else => std.process.exit(9),\n    }\n}\nfn dfl(mid: u64) g.Message {\n    switch (mid) {\n")
    o += [f"        {i} => return g.Message{{ .{m.name} = g.{m.name}{{}} }},\n" for i, m in enumerate(p.messages)]
    o.append(r'''        else => std.process.exit(9),
    }
}
fn dmplist(c: *Cur, l: []g.Message) void { rt.pt(); c.p("{d} ", .{l.len}); for (l) |*m| dmp(c, m); }
fn freelist(l: []g.Message) void { for (l) |*m| rt.deinitMsg(m); rt.tracked.free(l); }
fn fill(n: usize) []u8 { const b = rt.raw.alloc(u8, n) catch unreachable; @memset(b, 0xEE); return b; }
pub fn cmd(c: *Cur, cm: u8) void {
    switch (cm) {
        'E' => {
            const mid = c.uint(); const tag = c.int() != 0; const pre = c.uint(); const post = c.uint();
            var m = mk(c, mid);
            const sz = m.getSizeInBytes();
            const b = fill(pre + sz + @intFromBool(tag) + post); defer rt.raw.free(b);
            const n = m.writeBytes(pre, b, tag);
            const b2 = fill(b.len); defer rt.raw.free(b2);
            const n2 = g.writeBytes(&m, pre, b2, tag);
            const inner_sz = switch (m) { inline else => |*inner| inner.getSizeInBytes() };
            if (n != n2 or !std.mem.eql(u8, b, b2) or inner_sz != sz) c.p("mismatch ", .{});
            c.p("ok {d} {d} ", .{ sz, pre + n });
            c.phex("x", b);
            rt.deinitMsg(&m);
        },
        'D' => {
            const mid = c.uint(); const off = c.uint(); const b = c.hex(); defer rt.raw.free(b);
            var n: usize = 0;
            rt.arm();
            if (rd(mid, off, b, &n)) |mm| {
                rt.disarm();
                var m = mm;
                @memset(b, 0xAA);
                c.p("ok {d} ", .{off + n});
                dmp(c, &m);
                rt.deinitMsg(&m);
            } else |e| { rt.disarm(); c.p("err #{s}", .{@errorName(e)}); }
        },
        'Z' => {
            var m = dfl(c.uint()); c.p("ok ", .{}); dmp(c, &m); c.p("| {d} ", .{m.getSizeInBytes()}); rt.deinitMsg(&m);
        },
        'R' => {
            const off = c.uint(); const b = c.hex(); defer rt.raw.free(b); const k = c.uint();
            if (k != 1) std.process.exit(9);
            rt.arm();
            if (g.processRawBytes(rt.tracked, b[off..], @intCast(c.int()))) |l| { rt.disarm(); c.p("ok ", .{}); dmplist(c, l); freelist(l); }
            else |e| { rt.disarm(); c.p("err #{s}", .{@errorName(e)}); }
        },
        'U' => {
            const off = c.uint(); const b = c.hex(); defer rt.raw.free(b);
            rt.arm();
            if (g.unpackMessages(rt.tracked, b[off..])) |l| { rt.disarm(); @memset(b, 0xAA); c.p("ok ", .{}); dmplist(c, l); freelist(l); }
            else |e| { rt.disarm(); c.p("err #{s}", .{@errorName(e)}); }
        },
        'P', 'T' => {
            const pre = c.uint(); const post = c.uint(); const n = c.uint();
            const l = rt.raw.alloc(g.Message, n) catch unreachable; defer rt.raw.free(l);
            for (l) |*m| { const mid = c.uint(); m.* = mk(c, mid); }
            var sz: usize = 0; var endp: usize = pre;
            if (cm == 'P') { sz = g.getPackedSize(l); } else { for (l) |*m| sz += m.getSizeInBytes() + 1; }
            const b = fill(pre + sz + post); defer rt.raw.free(b);
            if (cm == 'P') { g.packMessages(l, b[pre..]); endp += sz; } else { for (l) |*m| endp += m.writeBytes(endp, b, true); }
            c.p("ok {d} {d} ", .{ sz, endp });
            c.phex("x", b);
            for (l) |*m| rt.deinitMsg(m);
        },
        'I' => {
            const n = c.uint();
            const bs = rt.raw.alloc([]u8, n) catch unreachable; defer rt.raw.free(bs);
            const at = rt.raw.alloc(usize, n) catch unreachable; defer rt.raw.free(at);
            const ws = rt.raw.alloc([]u8, n) catch unreachable; defer rt.raw.free(ws);
            const wat = rt.raw.alloc(usize, n) catch unreachable; defer rt.raw.free(wat);
            for (0..n) |i| { at[i] = c.uint(); bs[i] = c.hex(); ws[i] = fill(4 * bs[i].len + 64); wat[i] = 0; }
            const k = c.uint();
            const res = rt.raw.alloc(?[]g.Message, k) catch unreachable; defer rt.raw.free(res);
            for (0..k) |j| {
                const i = c.uint();
                if (g.processRawBytes(rt.tracked, bs[i][at[i]..], 1)) |l| {
                    for (l) |*m| { at[i] += 1 + m.getSizeInBytes(); wat[i] += m.writeBytes(wat[i], ws[i], true); }
                    if (l.len == 0 and at[i] < bs[i].len) at[i] += 1;
                    res[j] = l;
                } else |_| { res[j] = null; at[i] = bs[i].len; }
            }
            c.p("ok ", .{});
            for (res) |r| { if (r) |l| { dmplist(c, l); c.p("| ", .{}); } else c.p("err | ", .{}); }
            for (0..n) |i| { c.phex("x", ws[i][0..wat[i]]); rt.raw.free(ws[i]); rt.raw.free(bs[i]); }
            for (res) |r| { if (r) |l| freelist(l); }
        },
        else => c.p("?", .{}),
    }
}
''')
    return "".join(o)


class Zig(Lang):
    name, beschi, ext = "zig", "zig", ".zig"
    fixed_buffer = True
    resumable = False
    positioned_pack = False
    has_alloc = True

    def build_conc(self, protos, wd):
        """with a scheduling point at each memory access of the generated code, and the scheduler of conc.c"""
        rt = (wd / "rt.zig").read_text().replace("const conc = false;", "const conc = true;")
        (wd / "rt.zig").write_text(rt)
        m = (wd / "main.zig").read_text()
        (wd / "main.zig").write_text(m[:m.index("pub fn main()")] + "export fn rt_exec(line: [*:0]const u8) [*:0]const u8 { return rt.exec_c(line, dispatch); }\n")
        rc, out = sh(["zig", "build-obj", "main.zig", "-O", "Debug", "-lc", "-fno-emit-bin", "-femit-llvm-ir=main.ll", "--cache-dir", str(wd / "zc"), "--global-cache-dir", str(wd / "zg")], cwd=str(wd))
        if rc != 0:
            if "rt.zig:" in out and not re.search(r"^p\d+\.zig:", out, re.M):
                raise InfraError(out[-2500:])
            raise BuildFailure(self.name, "compile", out)
        ll = (wd / "main.ll").read_text()
        ll = re.sub(r'"(?:target-features|probe-stack)"="[^"]*"', "", ll)
        ll, n = re.subn(r'^(define [^\n]*@"?p\d+\.[^\n]*?)( #\d+)', r"\1 sanitize_thread\2", ll, flags=re.M)
        # and one at the start of each of its functions
        ll = re.sub(r'^(define [^\n]*@"?p\d+\.[^\n]*\{\n[^\n]*:\n)', r"\1  call void @rt_pt()\n", ll, flags=re.M)
        if n < 3:
            raise InfraError("zig: no functions to instrument found")
        (wd / "main.ll").write_text(ll)
        rc, out = sh(["clang", "-O0", "-w", "-fsanitize=thread", "-c", "main.ll", "-o", "main.o"], cwd=str(wd))
        if rc == 0:
            rc, out = sh(["clang", "-std=gnu11", "-w", "-O1", "-DRT_CONC", f"-I{HERE / 'rt'}", "-c", str(HERE / "rt/conc.c"), "-o", "conc.o"], cwd=str(wd))
        if rc == 0:
            rc, out = sh(["clang", "-o", "drv", "conc.o", "main.o", "-lpthread", "-lm"], cwd=str(wd))
        if rc != 0:
            raise InfraError(out[-2500:])
        return Runner(self.name, [str(wd / "drv")], cwd=str(wd))

    def build(self, protos, wd, opts=None, mode="Debug", points=False, **kw):
        wd = Path(wd)
        self.generate_all(protos, wd, opts)
        (wd / "rt.zig").write_text(RT)
        for p in protos:
            (wd / f"d{p.pid}.zig").write_text(driver_source(p))
        (wd / "main.zig").write_text('const rt = @import("rt.zig");\n' + "".join(f'const d{p.pid} = @import("d{p.pid}.zig");\n' for p in protos) +
            "fn dispatch(c: *rt.Cur, cmd: u8, pid: i64) void { switch (pid) {\n" + "".join(f"{p.pid} => d{p.pid}.cmd(c, cmd),\n" for p in protos) +
            'else => c.p("?pid", .{}) } }\npub fn main() !void { try rt.main_loop(dispatch); }\n')
        if points:
            return self.build_conc(protos, wd)
        rc, out = sh(["zig", "build-exe", "main.zig", "-lc", "-O", mode, "-fno-strip", "--cache-dir", str(wd / "zc"), "--global-cache-dir", str(wd / "zg"), "-femit-bin=" + str(wd / "drv")], cwd=str(wd))
        if rc != 0:
            if "rt.zig:" in out and not re.search(r"^p\d+\.zig:", out, re.M):
                raise InfraError(out[-2500:])
            raise BuildFailure(self.name, "compile", out)
        return Runner(self.name, [str(wd / "drv")], cwd=str(wd), parallel=4)
