"""C21: the order of declarations (except of messages and members) does not matter."""
import itertools, json
from ..plans import *
from ..engine import SIX, SEVEN
from .c04 import zigify
from .c07 import P
from .c12 import accept
from .c17 import Laid

S, M = Struct, Member
LAYOUTS = list(itertools.permutations(("enums", "structs", "messages"))) + ["interleaved"]
ENS = [Enum("Qa", [("Qa0", 7), ("Qa1", 0)]), Enum("Bz", [("Bz0", 300), ("Bz1", -1)]), Enum("Ma", [("Ma0", 0), ("Ma1", 1), ("Ma2", 2)], explicit=False)]

# graphs of which struct holds which, i: [(j, listed)]
GRAPHS = {
    "chain": {0: [(1, 0)], 1: [(2, 0)], 2: [(3, 0)], 3: []},
    "listchain": {0: [(1, 1)], 1: [(2, 1)], 2: [(3, 1)], 3: []},
    "diamond": {0: [(1, 0), (2, 1)], 1: [(3, 0)], 2: [(3, 0)], 3: []},
    "fan": {0: [(1, 0), (2, 0), (3, 1)], 1: [], 2: [], 3: []},
    "full": {0: [(1, 0), (2, 0), (3, 0)], 1: [(2, 1), (3, 0)], 2: [(3, 0)], 3: []},
}
SNAMES = ["Dd", "Aa", "Cc", "Bb"]


def make(ns, graph, sorder, eorder, layout, variant=0):
    g = GRAPHS[graph] if isinstance(graph, str) else graph
    n = len(g)
    names = (SNAMES + ["Ee", "Ff"])[:n]
    st = []
    for i in range(n):
        ms = [M(f"s{i}", names[j], bool(l)) for j, l in g[i]]
        own = M("own", ["byte", "Qa", "string", "Bz", "double", "Ma"][(i + variant) % 6], i == 1 + variant % 3)
        for k, m in enumerate(ms):
            m.name += f"k{k}"
        st.append(S(names[i], [own] + ms if (i + variant) % 2 else ms + [own]))
    msgs = [S("Root", [M("r", names[0]), M("l", names[0], True), M("e", "Ma")]), S("Each", [M(f"m{i}", names[i], i % 2 == variant % 2) for i in range(n)] + [M("q", "Qa", True), M("b", "Bz")]),
            S("Flat", [M("x", "string"), M("m", "Ma", True)])]
    p = Laid(ns, [Enum(ENS[i].name, list(ENS[i].values), ENS[i].explicit) for i in eorder], [st[i] for i in sorder], msgs)
    p.sections = layout
    return p


def dags(n):
    """every acyclic graph over n structs (edges from lower to higher number), edges plain or listed"""
    edges = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for kinds in itertools.product((None, 0, 1), repeat=len(edges)):
        yield {i: [(j, k) for (a, j), k in zip(edges, kinds) if a == i and k is not None] for i in range(n)}


def universe(quick):
    ps = []

    def add(*a):
        ps.append(make(f"Ord{len(ps)}", *a))
    perms4, perms3 = list(itertools.permutations(range(4))), list(itertools.permutations(range(3)))
    for gi, g in enumerate(GRAPHS):
        for i, o in enumerate(perms4):
            if quick and gi > 1 and i % 3 != gi % 3:
                continue
            add(g, o, perms3[i % 6], LAYOUTS[(i + gi) % 7], gi)
    for i, eo in enumerate(perms3):
        for j, lay in enumerate(LAYOUTS):
            if not quick or (i + j) % 3 == 0:
                add(list(GRAPHS)[(i + j) % 5], perms4[(5 * i + 3 * j) % 24], eo, lay, j)
    if not quick:
        for k, g in enumerate(dags(3)):
            for i, o in enumerate(perms3):
                add(g, o, perms3[(i + k) % 6], LAYOUTS[(i + k) % 7], k)
    return number(ps)


def check(ctx):
    ps = universe(ctx.quick)
    ctx.start(SEVEN, ps)
    # acceptance: the verdict on every order of a set of declarations is the verdict on the first
    jobs = []

    def judge(what, texts, good):
        for i, t in enumerate(texts):
            ctx.state(t)
            ctx.step()
            jobs.append((f"{what} order {i}", t, good))
    perms = {n: list(itertools.permutations(range(n))) for n in (3, 4, 5)}
    n = 4 if ctx.quick else 5
    for k, g in enumerate(dags(4)):
        if ctx.quick and k % 4:
            continue
        judge(f"graph {k}", [make("Acc", g, o, (0, 1, 2), LAYOUTS[i % 7], k).to_toml() for i, o in enumerate(perms[4])], True)
    for size in (5,) if ctx.quick else (5, 6):
        g = {i: [(j, j % 2) for j in range(i + 1, size)] for i in range(size)}
        judge(f"complete graph of {size}", [make("Acc", g, o, perms[3][i % 6], LAYOUTS[i % 7]).to_toml() for i, o in enumerate(itertools.permutations(range(size)))], True)
    for lay in LAYOUTS:
        for eo in perms[3]:
            judge("enums and sections", [make("Acc", "full", o, eo, lay).to_toml() for o in perms[4][::1 if not ctx.quick else 5]], True)
    # faults, in every order
    loops = {"self": {0: [(0, 0)], 1: [], 2: [], 3: []}, "pair": {0: [(1, 0)], 1: [(0, 1)], 2: [], 3: []}, "triangle below": {0: [(1, 0)], 1: [(2, 0)], 2: [(3, 1)], 3: [(1, 0)]},
             "whole": {0: [(1, 0)], 1: [(2, 0)], 2: [(3, 0)], 3: [(0, 1)]}, "list self deep": {0: [(1, 0)], 1: [(2, 0)], 2: [(3, 0)], 3: [(3, 1)]},
             "diamond loop": {0: [(1, 0), (2, 0)], 1: [(3, 0)], 2: [(3, 0)], 3: [(2, 1)]}}
    for what, g in loops.items():
        judge("loop " + what, [make("Acc", g, o, (0, 1, 2), lay).to_toml() for o in perms[4] for lay in (LAYOUTS if not ctx.quick else LAYOUTS[::3])], False)
    faults = {
        "unknown type": ("structs", '_name = "Xx"\nv = "Missing"'), "message inside": ("structs", '_name = "Xx"\nv = "Root"'), "message inside a list": ("structs", '_name = "Xx"\nv = "[Root]"'),
        "message inside a message": ("messages", '_name = "Xx"\nv = "Flat"'), "struct called like an enum": ("structs", '_name = "Qa"\nv = "byte"'), "struct called like a message": ("structs", '_name = "Flat"\nv = "byte"'),
        "struct twice": ("structs", '_name = "Aa"\nv = "byte"'), "enum called like a struct": ("enums", '_name = "Aa"\n_values = ["ttt"]'), "message called like a struct": ("messages", '_name = "Cc"\nv = "byte"'),
        "message called like an enum": ("messages", '_name = "Ma"\nv = "byte"'), "entry called like a struct": ("enums", '_name = "Xx"\n_values = ["one", "Bb"]'), "entry called like a message": ("enums", '_name = "Xx"\n_values = ["Root", "two"]'),
        "reserved": ("structs", '_name = "Xx"\nbyte = "byte"'), "values twice": ("enums", '_name = "Xx"\n_values = [{ _name = "a", _value = 1 }, { _name = "b", _value = 1 }]'),
        "value too large": ("enums", '_name = "Xx"\n_values = [{ _name = "a", _value = 2147483648 }]'),
    }
    for what, (kind, text) in faults.items():
        texts = []
        for lay in LAYOUTS:
            base = make("Acc", "diamond", perms[4][11], (1, 2, 0), lay).to_toml().rstrip("\n").split("\n\n")
            for at in range(1, len(base) + 1):            # at every place among the other declarations
                texts.append("\n\n".join(base[:at] + [f"[[{kind}]]\n{text}"] + base[at:]) + "\n")
        judge(what, texts, False)
    res = accept([("p", t, []) for _, t, _ in jobs])
    for (what, text, good), r in zip(jobs, res, strict=True):
        if (r == ["ok"]) if good else (r[0] == "refused" and r[2] > 0):
            continue
        ctx.violation(f"p|{what}", lang="acceptance", what=what, expected="accepted" if good else "refused with a diagnostic", got=json.dumps(r)[:500], protocol=text)
    ctx.traces += len(jobs)
    ctx.per_lang["protocol checks"] = len(jobs)

    # behaviour
    cases = []

    def add(c):
        if c:
            ctx.step()
            cases.append(c)
    for p in ps:
        V = Values(p)
        pack = []
        for m in p.messages:
            vs = list(Values(p, reduced=True).enum(m.name, 1))
            for i, v in enumerate(vs if not ctx.quick else vs[:60]):
                ctx.state(p.ns, m.name, repr(v))
                add(E(p, m.name, v, i & 1, i % 3, 1))
                add(D(p, m.name, v))
            b = V.base(m.name)
            e = p.encode(m.name, b)
            for k in range(0, len(e), 1 if not ctx.quick else 3):
                add(D_raw(p, m.name, e[:k], 0, f"cut at {k}"))
            for off, en in enum_fields(p, m.name, b):
                for x in (-3, 77, 5, 2, 3):
                    if RANGE[en.encoding][0] <= x <= RANGE[en.encoding][1]:
                        add(D_raw(p, m.name, put(e, off, en.encoding, x), 0, f"enum value {x}"))
            d, s = f"{p.tag_of(m.name) - 1} {p.tokens(m.name, p.default_message(m.name))}", p.size(m.name, p.default_message(m.name))
            add(Case(f"Z {p.pid} {p.tag_of(m.name) - 1}", (f"ok {d} | {s}", f"ok {d} | {d} | {s} {s}"), p, "default"))
            pack.append((m.name, b))
        stream = b"".join(p.encode(n, v, True) for n, v in pack)
        add(R_raw(p, stream + b"\0", (-1,), 0, "all messages"))
        add(R_raw(p, stream + b"\x04", (-1,), 0, "unknown tag"))
        add(P(p, pack))
        add(U_raw(p, p.pack(pack), 0, "all messages"))
    for c in cases[:2] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=str(c.exp)[:300])
    ctx.extra["declaration_orders_compiled"] = len(ps)
    zc = zigify(cases)
    ctx.run(SEVEN, ps, lambda L: zc if L.name == "zig" else cases)
    ctx.assumptions = ["the order of messages (tags), of members and of enum entries (default) is meaningful and kept"]
