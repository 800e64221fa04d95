"""C03: the size reported in advance is the size written (messages and packs)."""
import itertools
from ..plans import *
from ..engine import SEVEN, SIX

CH = ["a", "é", "€", "😀"]


def sizecase(p, name, v, tag):
    e = E(p, name, v, tag, 1, 1)
    pre = " ".join(e.exp.split(" ")[:3]) + " "
    n = len(e.exp)

    def ok(got, pre=pre, n=n):
        return got.startswith(pre) and len(got) == n
    ok.__doc__ = f"'{pre}...' (size, end position) and {(n - len(pre) - 1) // 2} bytes of buffer"
    return Case(e.cmd, ok, p, "size of " + name)


def packcase(p, ms, cmd="P"):
    toks = intoks(p, ms)
    n = len(p.pack(ms)) if cmd == "P" else sum(p.size(*m) + 1 for m in ms)

    def ok(got):
        return got.startswith(f"ok {n} {n + 2} ")
    ok.__doc__ = f"ok {n} {n + 2} ..."
    return Case(f"{cmd} {p.pid} 2 1 {toks}", ok, p, "size of a pack" if cmd == "P" else "sum of tagged sizes")


def resize(p, t, is_list, lens, d, ctr):
    """a value of type t whose lists at nesting depth i have lens[i] elements"""
    if is_list:
        return [resize(p, t, False, lens, d + 1, ctr) for _ in range(lens[min(d, len(lens) - 1)])]
    k = p.kind(t)
    if k == "struct":
        return [resize(p, m.type, m.is_list, lens, d, ctr) for m in p.s[t].members]
    ctr[0] += 1
    if k == "string":
        return [b"", b"x", "é".encode(), "€€".encode(), "😀".encode()][ctr[0] % 5]
    return p.default_of(t)


def check(ctx):
    ps = number(core() + sized(ctx.quick))
    ctx.start(SIX, ps)
    cases = []

    def add(p, name, v, i=[0]):
        i[0] += 1
        ctx.state(p.ns, name, repr(v))
        ctx.step()
        cases.append(sizecase(p, name, v, i[0] & 1))
    depth = 3 if ctx.quick else 4
    strs = ["".join(s).encode() for n in range(depth + 1) for s in itertools.product(CH, repeat=n)]
    for p in ps:
        if p.ns in ("Kinds", "Stream"):
            for m in p.messages:
                if any(x.type == "string" for x in m.members) or any(x.type == "CpxA" for x in m.members):
                    for s in strs:
                        def put(t, l):
                            if l: return [put(t, False), put(t, False)]
                            if t == "string": return s
                            if t in p.s: return [put(x.type, x.is_list) for x in p.s[t].members]
                            return p.default_of(t)
                        add(p, m.name, [put(x.type, x.is_list) for x in m.members])
        # every combination of list lengths by nesting depth
        top = 3 if ctx.quick else 5
        for m in p.messages:
            for lens in itertools.product(range(top), repeat=3):
                add(p, m.name, [resize(p, x.type, x.is_list, lens, 0, [0]) for x in m.members])
        if p.ns.startswith("Sz"):
            for name, v in length_values(p, ctx.quick):
                add(p, name, v)
        # packs: all sequences of base messages up to length 3 over a window of message types
        names = [m.name for m in p.messages]
        V = Values(p)
        if p.ns in ("Stream", "Nested"):
            alpha = [(n, V.base(n)) for n in names[:6]]
            alpha += [(n, p.default_message(n)) for n in names[:6]]
            seqs = [s for n in range(3 if ctx.quick else 4) for s in itertools.product(alpha, repeat=n)]
        else:
            seqs = [[(n, V.base(n))] for n in names] + [[(n, V.base(n)), (names[0], V.base(names[0]))] for n in names]
        for s in seqs:
            ctx.step(len(s) + 1)
            ctx.state(p.ns, "pack", repr(s))
            cases.append(packcase(p, s))
    ctx.sample(command=cases[0].cmd[:300], model=cases[0].expected())
    ctx.sample(command=cases[-1].cmd[:300], model=cases[-1].expected())
    ctx.run(SIX, ps, cases)
