"""C16: options change how the generated code looks, not what it does."""
import itertools
from ..plans import *
from ..engine import SIX, SEVEN
from .c04 import zigify
from .c07 import P

S, M = Struct, Member
NASTY = ["*/", "/*", "/* */", "*//*", "*/*", "// nested", "//", "\\", "ends in backslash \\", "'''", '\\"\\"\\"', "${x} `y` {z} {{w}}", "{# STRING_SIZE_TYPE #}", "{# LIST_SIZE_TYPE #}",
         "{# ENUM_TYPES #}", "Beschi BESCHI_ beschi_", "#include <nope.h>", "#endif", "#region", "??/", "%s %d {0}", "<!-- -->", "-->", "*\\/", "ünïcödé ☃ 😀", "tab\there", "]]>", "@import", "__EOF__",
         "END DATA PROTOCOL", "-----------------", "= * /", "/ *", "****////****////", "/*/", "*/ int x; /*", "*", "/"]


class Opt(Protocol):
    """written under one namespace, used under another; with comments"""
    file_ns = "same"
    comments = ()

    def to_toml(self):
        ns, self.ns = self.ns, (self.ns if self.file_ns == "same" else self.file_ns)
        try:
            t = super().to_toml()
        finally:
            self.ns = ns
        if self.ns is None:
            t = t.replace('namespace = "None"\n', "")
        if self.comments:
            ls = t.split("\n")
            out = []
            for i, l in enumerate(ls):
                c = self.comments[i % len(self.comments)]
                out += [f"{l} # {c}" if l and not l.startswith("[meta") else l, f"#{self.comments[(i * 7 + 1) % len(self.comments)]}"]
            t = "\n".join(out) + "\n"
        return t


def body(kind):
    if kind == "small":
        p = mk_stream()
        return p.enums, p.structs + [S("CamelName", [M("someList", "string", True), M("innerPt", "Pt"), M("HTTPCode", "uint16")])], \
            p.messages + [S("Cml", [M("camelCase", "int32"), M("withList", "Pt", True), M("ABc", "string"), M("x1Y2", "EnB"), M("nestedThing", "CamelName"), M("moreThings", "CamelName", True)])]
    p = {"kinds": mk_kinds, "nested": mk_nested, "same": mk_same, "structs": mk_structs}[kind]()
    return p.enums, p.structs, p.messages


def make(kind, ns, file_ns="same", comments=()):
    en, st, ms = body(kind)
    p = Opt(ns, [Enum(e.name, list(e.values), e.explicit) for e in en], [S(s.name, list(s.members)) for s in st], [S(m.name, list(m.members)) for m in ms])
    p.file_ns, p.comments = file_ns, tuple(comments)
    return p


INDENTS = [None, "  ", "\t", " ", "        ", "   ", "\t\t", " \t"]


def plan(quick):
    """[(protocol, {lang: options})]"""
    out = []

    def add(kind, indent=None, embed=False, override=None, special=False, comments=(), file_ns="same"):
        n = f"Ns{len(out)}" if override is None else override
        p = make(kind, n, "Orig" if override and file_ns == "same" else file_ns, comments)
        o = []
        if indent is not None:
            o += [f"--indent={indent}"]
        if embed:
            o += ["--embed-protocol"]
        if override is not None:
            o += ["--namespace", override]
        per = {l: list(o) for l in ("c", "csharp", "go", "rust", "typescript", "zig")}
        if special:
            per["go"].append("--go-no-rename")
            per["rust"].append("--rust-no-rename")
            per["typescript"].append("--typescript-use-namespace")
            p.member = {"rust": lambda s: s}
            if p.ns is not None:
                p.ts_use = True
        out.append((p, per))
    add("small")
    # every combination of the options, on a small protocol
    combos = list(itertools.product(INDENTS[:3] if quick else INDENTS, (False, True), (False, True), (False, True)))
    for i, (ind, emb, ovr, spc) in enumerate(combos):
        if not (ind or emb or ovr or spc):
            continue
        add("small", ind, emb, f"Over{i}" if ovr else None, spc, NASTY[i % 5:] if emb else ())
    for ind in INDENTS[3:]:
        add("small", ind)
    # every hazard in an embedded comment, alone and at every line of the protocol
    for i in range(0, len(NASTY), 6 if quick else 1):
        add("small", None, True, None, False, NASTY[i:i + 6] if quick else NASTY[i:i + 1])
    # namespaces: none; overridden from none; case variants
    add("small", None, False, "FromNone", False, (), None)
    add("small", None, False, "FromNone2", True, (), None)
    add("small", None, True, "lowercase", False, NASTY)
    add("small", None, False, "MixedCase_With9", True)
    add("small", None, False, "UPPER", False)
    # names containing the words that stand for the namespace in the boilerplate
    for ns in ("FooBESCHI", "mybeschi", "BeschiBeschi") if quick else ("FooBESCHI", "mybeschi", "MyBeschi2", "BeschiBeschi", "BESCHIbeschi", "Beschi", "BESCHI"):
        add("small", None, False, ns, False)
    # richer protocols with everything at once, and with each alone
    for kind in ("kinds", "nested", "same") if quick else ("kinds", "nested", "same", "structs"):
        if kind == "same":                        # members named alike after renaming stay apart
            add(kind, "\t", True, None, False, NASTY)
            continue
        add(kind, "\t", True, f"Rich{kind}", True, NASTY)
        if not quick:
            add(kind, "  ")
            add(kind, None, False, None, True)
            add(kind, None, True, None, False, NASTY)
            add(kind, None, False, f"Ovr{kind}")
    for i, (p, _) in enumerate(out):
        p.pid = i
        if getattr(p, "ts_use", False):
            p.ts_import = f"import {{ {p.ns} as g }} from './m{i}';\n"
    return out


def check(ctx):
    pl = plan(ctx.quick)
    # without any namespace at all: one protocol, as C, C# ... use fixed names then
    none = make("small", None)
    none.pid = len(pl)
    pl.append((none, {}))
    ps = [p for p, _ in pl]

    # renaming to upper case is what makes Go members accessible: without it their names are capitalised here
    for p, per in pl:
        if "--go-no-rename" in per.get("go", []):
            p.go_upper = True
    go_ps = []
    for p, per in pl:
        if getattr(p, "go_upper", False):
            q = Opt(p.ns, p.enums, [S(s.name, [M(up(m.name), m.type, m.is_list) for m in s.members]) for s in p.structs],
                    [S(s.name, [M(up(m.name), m.type, m.is_list) for m in s.members]) for s in p.messages])
            q.file_ns, q.comments, q.pid = p.file_ns, p.comments, p.pid
            go_ps.append(q)
        else:
            go_ps.append(p)
    opts = lambda n: {p.pid: per.get("c" if n == "cpp" else n, []) for p, per in pl}
    for n in SEVEN:
        ctx.start([n], go_ps if n == "go" else ps, opts)
    cases = []

    def add(c):
        if c:
            ctx.step()
            cases.append(c)
    for p, per in pl:
        V = Values(p)
        small = len(p.messages) < 8
        note = f"options {per.get('rust')}"
        stream, pack = b"", []
        for m in p.messages:
            vs = list(Values(p).enum(m.name, 1)) if small else [V.base(m.name), p.default_message(m.name)]
            for v in vs[:40] if ctx.quick else vs:
                ctx.state(p.pid, m.name, repr(v))
                add(E(p, m.name, v, 1))
                add(D(p, m.name, v))
            b = V.base(m.name)
            e = p.encode(m.name, b)
            for k in range(len(e)):
                add(D_raw(p, m.name, e[:k], 0, note + f", cut at {k}"))
            for off, en in enum_fields(p, m.name, b)[:4]:
                for x in (-3, 77, 19999):
                    if RANGE[en.encoding][0] <= x <= RANGE[en.encoding][1]:
                        add(D_raw(p, m.name, put(e, off, en.encoding, x), 0, note + f", enum value {x}"))
            add(Case(f"Z {p.pid} {p.tag_of(m.name) - 1}", z_exp(p, m.name), p, note))
            stream += p.encode(m.name, b, True)
            pack.append((m.name, b))
        for mx in ((-1,), (2, -1), (1, 1, 1)):
            add(R_raw(p, stream + b"\0", mx, 0, note))
        add(R_raw(p, stream + bytes([len(p.messages) + 1]), (-1,), 0, note))
        add(P(p, pack))
        add(U_raw(p, p.pack(pack), 0, note))
        add(U_raw(p, p.pack(pack)[:-1 - len(stream) // 2], 0, note))
        add(U_raw(p, b"BSCX" + p.pack(pack)[4:], 0, note))
    for c in cases[:2] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=str(c.exp)[:300])
    ctx.extra["option_combinations"] = len(pl)
    zc = zigify([c for c in cases if c.cmd[0] != 'R' or c.cmd.split()[4] == '1'])

    def run(n):
        ctx.run([n], ps, (lambda L: zc) if n == "zig" else cases, opts)
    ctx.parallel(run, SEVEN)
    ctx.assumptions = ["indentations consist of blanks and tabs", "names stay distinct when renamed", "with --go-no-rename, members have upper-case names (others are not accessible from outside the package)",
                       "protocol texts contain no bidirectional control characters (Rust refuses them even in comments)"]


def up(s):
    return s[:1].upper() + s[1:]


def z_exp(p, name):
    v = p.default_message(name)
    d, s = f"{p.tag_of(name) - 1} {p.tokens(name, v)}", p.size(name, v)
    return (f"ok {d} | {s}", f"ok {d} | {d} | {s} {s}")
