"""C11: writing never leaves the destination: every room from none to one more than needed, for messages and packs."""
import itertools
from ..plans import *


def check(ctx):
    ps = number(core() + sized(ctx.quick))
    langs = ["c", "cpp", "typescript"]
    ctx.start(langs, ps)
    spec = []                     # (kind, p, pre, room, tokens, tag/mid, need, bytes)
    for p in ps:
        V = Values(p)
        for m in p.messages:
            name, mi = m.name, p.tag_of(m.name) - 1
            vals = [V.base(name), p.default_message(name)]
            if not ctx.quick:
                vals += list(Values(p, reduced=True).enum(name, 1))
            for v in vals:
                for tag in (0, 1):
                    e = p.encode(name, v, bool(tag))
                    for pre in ((0, 3) if ctx.quick else (0, 1, 3, 8)):
                        if pre and ctx.quick and p.ns not in ("Kinds", "Stream") and not tag:
                            continue
                        for room in range(len(e) + 2):
                            ctx.state(p.ns, name, len(e), room, tag, pre)
                            ctx.step()
                            spec.append(("W", p, pre, room, f"{mi} {tag}", p.tokens(name, v), e))
        names = [m.name for m in p.messages]
        if p.ns in ("Stream", "Nested") or not ctx.quick:
            al = [(n, V.base(n)) for n in names[:5]] + [(names[0], p.default_message(names[0]))]
            seqs = [s for n in range(3) for s in itertools.product(al, repeat=n)]
            if not ctx.quick:
                seqs += list(itertools.product(al, repeat=3))
        else:
            seqs = [[(n, V.base(n)), (names[0], V.base(names[0]))] for n in names[:12]]
        for s in seqs:
            b = p.pack(s)
            for pre in (0, 2):
                for room in range(len(b) + 2):
                    ctx.state(p.ns, "pack", repr(s), room, pre)
                    ctx.step(len(s) + 1)
                    spec.append(("V", p, pre, room, "", intoks(p, s), b))

    def cases(L):
        out = []
        c = L.name in ("c", "cpp")
        for kind, p, pre, room, head, toks, e in spec:
            cap = pre + room if c else room
            if kind == "W":
                cmd = f"W {p.pid} {head} {pre} {cap} {toks}"
                okx = f"ok {pre + len(e)} x"
            else:
                cmd = f"V {p.pid} {pre} {cap} {toks}"
                okx = f"ok {len(e)} {pre + len(e)} x" if c else f"ok {pre + len(e)} x"
            exp = "err" if room < len(e) else okx + (EE * pre + e + EE * (room - len(e))).hex()
            out.append(Case(cmd, exp, p, f"room {room} for {len(e)} bytes at {pre}"))
        return out
    cs = cases(type("X", (), {"name": "c"}))
    ctx.sample(command=cs[0].cmd[:300], model=cs[0].exp)
    ctx.sample(command=cs[-1].cmd[:300], model=cs[-1].exp[:300])
    ctx.assumptions = ["the position after a refused write is unspecified", "Go, C# and Rust grow their destination; Zig documents that the caller provides enough room"]
    ctx.run(langs, ps, cases)
