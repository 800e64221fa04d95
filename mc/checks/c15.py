"""C15: the code generated for every valid protocol compiles in every language."""
import itertools, json, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
from ..langs import csharp, ts as tsmod
from ..langs.base import *
from ..plans import *

S, M = Struct, Member
KINDS = LEAVES + ["Sim", "Cpx", "Nil"]


def used(t, extra_enums=()):
    """the declarations a member type needs"""
    en = [e for e in ENUMS if e.name == t or e.name in extra_enums]
    st = {"Sim": [S("Sim", [M("x", "int16"), M("on", "bool")])], "Cpx": [S("Cpx", [M("name", "string"), M("ids", "uint32", True)])], "Nil": [S("Nil", [])]}.get(t, [])
    return en, st


def cp(enums):
    return [Enum(e.name, list(e.values), e.explicit) for e in enums]


def cps(sts):
    return [S(s.name, [M(m.name, m.type, m.is_list) for m in s.members]) for s in sts]


def universe(quick):
    ps = []

    def add(p):
        ps.append(p)
    # one kind of member alone in the whole protocol: in a message, and in a struct used plain / listed / not at all
    for t in KINDS:
        for l in (False, True):
            en, st = used(t)
            add(Protocol(f"KindA{len(ps)}", cp(en), cps(st), [S("Msg", [M("v", t, l)])]))
            for how in ((False,), (True,), ()) if not quick or t in ("byte", "bool", "uint64", "float", "string", "EnA", "EnC", "Sim", "Cpx", "Nil") else ((l,),):
                add(Protocol(f"KindB{len(ps)}", cp(en), cps(st) + [S("Holder", [M("v", t, l)])], [S("Msg", [M("b", "Holder", x) for x in how])]))
    # pairs of kinds, in both orders
    fam = ["bool", "int32", "uint64", "double", "string", "EnA", "EnE", "Sim", "Cpx"]
    for (t1, l1), (t2, l2) in itertools.product(itertools.product(fam, (False, True)), repeat=2):
        if quick and (fam.index(t1) * 5 + fam.index(t2) * 3 + l1 + 2 * l2) % 6:
            continue
        e1, s1 = used(t1)
        e2, s2 = used(t2)
        en = cp(e1 + [e for e in e2 if e not in e1])
        st = cps(s1 + [s for s in s2 if s.name not in [x.name for x in s1]])
        add(Protocol(f"Pair{len(ps)}", en, st, [S("Msg", [M("a", t1, l1), M("b", t2, l2)])]))
    # what is declared but not used, or absent
    add(Protocol("NoMsg", cp(ENUMS[:2]), [S("Pt", [M("x", "byte")])], []))
    add(Protocol("OnlyEnums", cp(ENUMS), [], []))
    add(Protocol("OnlyStructs", [], [S("Pt", [M("x", "byte"), M("s", "string", True)]), S("Nil", [])], []))
    add(Protocol("Nothing", [], [], []))
    add(Protocol("EmptyMsg", [], [], [S("Msg", [])]))
    add(Protocol("EmptyMsgs", [], [S("Nil", [])], [S("MsgA", []), S("MsgB", []), S("MsgC", [M("n", "Nil"), M("m", "Nil", True)])]))
    add(Protocol("Unused", cp(ENUMS), [S("Pt", [M("x", "EnC", True)]), S("Ln", [M("p", "Pt", True), M("q", "Pt")])], [S("Msg", [M("v", "byte")])]))
    # sizes of lists and strings: every combination
    for a in SIZE_TYPES:
        for b in SIZE_TYPES:
            if quick and (SIZE_TYPES.index(a) + 2 * SIZE_TYPES.index(b)) % 3 and a != b:
                add(Protocol(f"SzS{len(ps)}", [], [S("Mix", [M("s", "string"), M("l", "string", True)])], [S("Msg", [M("s", "string"), M("l", "Mix", True), M("v", "int16", True)])], list_size=a, string_size=b))
            else:
                add(mk_sized(a, b))
            if not quick:
                add(Protocol(f"SzL{len(ps)}", [], [], [S("Msg", [M("l", "byte", True)])], list_size=a, string_size=b))
                add(Protocol(f"SzT{len(ps)}", [], [], [S("Msg", [M("s", "string")])], list_size=a, string_size=b))
    # the names of things
    for ns in ("lower", "UPPER", "snake_case", "CamelCase", "x", "Ns9", "with_Mixed_Case2"):
        add(Protocol(ns, cp(ENUMS[:1]), [S("Pt", [M("x", "byte")])], [S("Msg", [M("p", "Pt", True), M("e", "EnA")])]))
    add(Protocol("NameForms", [Enum("HTTPCode", [("OKAY", 200), ("not_found", 404)]), Enum("lowerEnum", [("lowerVal", 0), ("UPPER_VAL", 1)], False), Enum("snake_enum", [("A1", -1)])],
                 [S("lowerStruct", [M("CamelMember", "byte"), M("snake_member", "string"), M("UPPER", "HTTPCode")]), S("Snake_Struct", [M("aB", "lowerStruct", True), M("x1", "snake_enum")]),
                  S("Z", [M("z", "byte")])],
                 [S("lowerMsg", [M("m", "lowerStruct")]), S("Snake_Msg", [M("m", "Snake_Struct", True), M("listOfThings", "lowerEnum", True)]), S("M", [M("Mm", "Z", True)])]))
    # shapes
    for p in (mk_kinds(), mk_structs(), mk_adjacent(), mk_nested(), mk_same(), mk_stream(), mk_enums(), mk_many(1, "ManyA"), mk_many(2, "ManyB"), mk_many(130, "ManyC")):
        add(p)
    # deep chains, diamonds
    for n in (12, 40):
        add(Protocol(f"Deep{n}", [], [S(f"L{i}", [M("v", "byte"), M("n", f"L{i + 1}", bool(i % 2))]) for i in range(n)] + [S(f"L{n}", [M("s", "string")])], [S("Msg", [M("d", "L0"), M("ds", "L0", True)])]))
    add(Protocol("Diamond", [], [S(f"D{i}", [M("a", f"D{i + 1}"), M("b", f"D{i + 1}", True), M("c", f"D{i + 1}")]) for i in range(4)] + [S("D4", [M("s", "string"), M("x", "byte", True)])],
                 [S("Msg", [M("d", "D0"), M("ds", "D0", True)])]))
    add(Protocol("Broad", cp(ENUMS), [], [S("Msg", [M(f"m{i}", LEAVES[i % len(LEAVES)], i % 3 == 1) for i in range(120)])]))
    names = set()
    for p in ps:
        assert p.ns not in names, p.ns
        names.add(p.ns)
    return number(ps)


def tail(out, n=2500):
    return out[:n]


def gen(lang, ps, wd, path, opts=()):
    """-> protocols that could be generated, [(protocol, diagnosis)]"""
    wd.mkdir(parents=True, exist_ok=True)
    argv = []
    for p in ps:
        t = wd / f"p{p.pid}.toml"
        t.write_text(p.to_toml())
        o = path(p)
        o.parent.mkdir(parents=True, exist_ok=True)
        argv.append(["--lang", lang, "--protocol", str(t), "--output", str(o), *opts])
    r = subprocess.run([sys.executable, "-B", str(MC / "gen.py")], input=json.dumps(argv), env={**ENV, "MC_REPO": REPO}, capture_output=True, text=True, timeout=900)
    if r.returncode != 0:
        return [], [(ps[0], r.stderr[-1500:])]
    res = json.loads(r.stdout)
    return [p for p, (c, _) in zip(ps, res) if c == 0], [(p, e) for p, (c, e) in zip(ps, res) if c != 0]


def infra(rc, out):
    if rc < 0 or "Killed" in out or "No space left" in out or "Cannot allocate memory" in out:
        raise InfraError(out[-800:])


def c_like(cmds, suffix):
    def build(ps, wd):
        ok, bad = gen("c", ps, wd, lambda p: wd / f"p{p.pid}.h")

        def one(p):
            up = p.ns.upper() if p.ns else "BESCHI"
            (wd / f"m{p.pid}{suffix}").write_text(f'#define {up}_IMPLEMENTATION\n#include "p{p.pid}.h"\nint dummy{p.pid}(void);\nint dummy{p.pid}(void) {{ return 0; }}\n')
            (wd / f"n{p.pid}{suffix}").write_text(f'#include "p{p.pid}.h"\n#include "p{p.pid}.h"\nint use{p.pid}(void);\nint use{p.pid}(void) {{ return (int)sizeof({p.ns or "beschi"}_DataAccess); }}\n')
            for cmd in cmds:
                for src in ("m", "n"):
                    rc, out = sh([*cmd, "-c", f"{src}{p.pid}{suffix}", "-o", f"{src}{p.pid}.o"], cwd=str(wd))
                    infra(rc, out)
                    if rc != 0:
                        return p, tail(out)
                rc, out = sh([cmd[0], "-shared", "-Wl,--no-undefined", "-o", f"l{p.pid}.so", f"m{p.pid}.o", f"n{p.pid}.o"], cwd=str(wd))
                infra(rc, out)
                if rc != 0:
                    return p, "linking two users of the header: " + tail(out)
                for f in (f"m{p.pid}.o", f"n{p.pid}.o", f"l{p.pid}.so"):
                    (wd / f).unlink()
        with ThreadPoolExecutor(4) as ex:
            return bad + [x for x in ex.map(one, ok) if x]
    return build


PED = ["-pedantic-errors", "-fPIC", "-O0", "-w"]


def go_build(ps, wd):
    ok, bad = gen("go", ps, wd, lambda p: wd / f"p{p.pid}" / "gen.go")
    (wd / "go.mod").write_text("module m\n\ngo 1.21\n")
    rc, out = sh(["go", "build", "-p", "6", "-gcflags=-e", "./..."], cwd=str(wd))
    infra(rc, out if "killed" in out else "")
    if rc != 0:
        hit = {int(x) for x in re.findall(r"^p(\d+)/gen\.go:", out, re.M)}
        if not hit:
            bad.append((ps[0], tail(out)))
        for i in hit:
            bad.append((ps[i], "\n".join(l for l in out.splitlines() if l.startswith(f"p{i}/"))[:1500]))
    return bad


def rust_build(ps, wd):
    ok, bad = gen("rust", ps, wd, lambda p: wd / f"p{p.pid}.rs")
    (wd / "lib.rs").write_text("#![allow(warnings)]\n" + "".join(f"pub mod p{p.pid};\n" for p in ok))
    rc, out = sh(["rustc", "--edition", "2021", "-A", "warnings", "--crate-type", "lib", "-C", "debuginfo=0", "-C", "codegen-units=8", "-o", "lib.rlib", "lib.rs"], cwd=str(wd))
    if rc != 0:
        if "SIGKILL" in out:
            raise InfraError(out[-500:])
        hit = sorted({int(x) for x in re.findall(r"--> (?:\./)?p(\d+)\.rs:", out)})
        bad += [(ps[i], tail(out)) for i in hit[:10]] or [(ps[0], tail(out))]
    return bad


def ts_build(ps, wd):
    ok, bad = gen("typescript", ps, wd, lambda p: wd / f"p{p.pid}.ts")
    (wd / "tsconfig.json").write_text(json.dumps({"compilerOptions": tsmod.TSC_OPTIONS, "files": [f"p{p.pid}.ts" for p in ok]}))
    rc, out = sh([f"{tsmod.NODE_MODULES}/.bin/tsc", "-p", str(wd / "tsconfig.json")], cwd=str(wd))
    if rc != 0:
        infra(rc, out)
        hit = sorted({int(x) for x in re.findall(r"^p(\d+)\.ts\(", out, re.M)})
        bad += [(ps[i], "\n".join(l for l in out.splitlines() if l.startswith(f"p{i}.ts"))[:1500]) for i in hit] or [(ps[0], tail(out))]
    return bad


def cs_build(ps, wd):
    ok, bad = gen("csharp", ps, wd, lambda p: wd / f"p{p.pid}.cs")

    def comp(group):
        if not group:
            return []
        rc, out = sh(csharp.csc_cmd() + ["-target:library", f"-out:{wd}/l{group[0].pid}.dll"] + [str(wd / f"p{p.pid}.cs") for p in group], cwd=str(wd))
        infra(rc, out)
        if rc == 0:
            return []
        if len(group) == 1:
            return [(group[0], tail(out))]
        hit = {int(x) for x in re.findall(r"p(\d+)\.cs\(", out)} or {p.pid for p in group}
        return [x for p in group if p.pid in hit for x in comp([p])][:20]
    named = [p for p in ok if p.ns]
    with ThreadPoolExecutor(3) as ex:
        res = list(ex.map(comp, [named[i::6] for i in range(6)] + [[p] for p in ok if not p.ns]))
    return bad + [x for r in res for x in r]


def zig_build(ps, wd):
    from ..langs import zig
    ok, bad = gen("zig", ps, wd, lambda p: wd / f"p{p.pid}.zig")
    (wd / "rt.zig").write_text(zig.RT)

    def comp(group):
        n = group[0].pid
        for p in group:
            (wd / f"d{p.pid}.zig").write_text(zig.driver_source(p) if p.messages else
                f'const std = @import("std");\nconst rt = @import("rt.zig");\nconst g = @import("p{p.pid}.zig");\ncomptime {{ @setEvalBranchQuota(100000); std.testing.refAllDecls(g); }}\n'
                'pub fn cmd(c: *rt.Cur, k: u8) void { _ = c; _ = k; _ = &g.processRawBytes; _ = &g.unpackMessages; }\n')
        (wd / f"main{n}.zig").write_text('const rt = @import("rt.zig");\n' + "".join(f'const d{p.pid} = @import("d{p.pid}.zig");\n' for p in group) +
            "fn dispatch(c: *rt.Cur, cmd: u8, pid: i64) void { switch (pid) {\n" + "".join(f"{p.pid} => d{p.pid}.cmd(c, cmd),\n" for p in group) +
            'else => c.p("?pid", .{}) } }\npub fn main() !void { try rt.main_loop(dispatch); }\n')
        rc, out = sh(["zig", "build-exe", f"main{n}.zig", "-lc", "-fno-emit-bin", "--cache-dir", str(wd / f"zc{n}"), "--global-cache-dir", str(wd / "zg")], cwd=str(wd))
        if rc == 0:
            return []
        infra(rc, out)
        hit = sorted({int(x) for x in re.findall(r"\bp(\d+)\.zig:", out)})
        if not hit and len(group) > 1:
            return [x for p in group for x in comp([p])][:5]
        return [(ps[i], tail(out)) for i in hit] or [(group[0], tail(out))]
    with ThreadPoolExecutor(3) as ex:
        res = list(ex.map(comp, [ok[i::6] for i in range(6) if ok[i::6]]))
    return bad + [x for r in res for x in r]


BUILDS = {"c": c_like([["gcc-13", "-std=c99", *PED]], ".c"), "cpp": c_like([["g++-13", "-std=c++20", "-x", "c++", *PED]], ".cpp"), "go": go_build, "rust": rust_build,
          "typescript": ts_build, "csharp": cs_build, "zig": zig_build}
CLANG = {"c-clang": c_like([["clang", "-std=c99", *PED]], ".c"), "cpp-clang": c_like([["clang++", "-std=c++20", "-x", "c++", *PED, "-Wno-c99-extensions"]], ".cpp")}


def compile_all(ctx, ps, builds, tag=""):
    import time

    def one(n):
        t = time.time()
        d = ctx.wd(f"{n}{tag}")
        for p, why in builds[n](ps, d):
            ctx.violation(f"{n}|{p.ns}", lang=n, what=f"generated code cannot be used: {why[:300]}", detail=why, protocol=p.to_toml()[:6000], cmd=p.ns)
        with ctx.lock:
            ctx.traces += len(ps)
            ctx.per_lang[n] = ctx.per_lang.get(n, 0) + len(ps)
        shutil.rmtree(d, ignore_errors=True)
        if os.environ.get("MC_TIMES"):
            print(f"  {n}: {time.time() - t:.1f} s", flush=True)
    ctx.parallel(one, list(builds))


def check(ctx):
    ps = universe(ctx.quick)
    for p in ps:
        ctx.state(p.to_toml())
        ctx.step()
    ctx.sample(protocol=ps[3].to_toml(), model="compiles")
    ctx.sample(protocol=ps[-1].to_toml()[:400], model="compiles")
    builds = dict(BUILDS)
    if not ctx.quick:
        builds.update(CLANG)
    compile_all(ctx, ps, builds)
    ctx.assumptions = ["ordinary identifiers: names that are keywords of a target language, or that become equal when renamed, are not covered",
                       "Swift and AssemblyScript cannot be compiled here: their compilers are not installed"]
