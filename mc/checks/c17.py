"""C17: tags number the messages in declaration order, from 1 to 255, in every language."""
import itertools
from ..plans import *
from ..engine import SIX, SEVEN
from .c04 import zigify

S, M = Struct, Member


class Laid(Protocol):
    """a protocol whose sections are written in another order, or interleaved"""
    sections = ("enums", "structs", "messages")

    def to_toml(self):
        text = super().to_toml()
        blocks = text.split("\n\n")
        by = {"meta": [blocks[0]], "enums": [], "structs": [], "messages": []}
        for b in blocks[1:]:
            by[b[2:b.index("]")]].append(b)
        if self.sections == "interleaved":
            cols = [by["messages"], by["structs"], by["enums"]]
            out = [x for row in itertools.zip_longest(*cols) for x in row if x]
        else:
            out = [x for k in self.sections for x in by[k]]
        return "\n\n".join([*by["meta"], *[o.rstrip("\n") for o in out]]) + "\n"


def name(i, style):
    # names whose alphabetical order, length order and hash order differ from the declaration order
    return [f"Msg{i}", f"Zz{999 - i}", "".join(chr(65 + (i * k + 3) % 26) for k in (7, 11, 17)) + f"x{i}", f"M{i:03}"[::-1] + "M"][style] if style != 3 else f"M{str(i)[::-1]}r{i}"


def many(n, ns, style=0, sections=("enums", "structs", "messages"), rich=False):
    en = [Enum(f"En{i}", [("Aa" + str(i), 3), ("Bb" + str(i), i)] if i != 3 else [("Aa3", 0), ("Bb3", 3)]) for i in range(4)] if rich else []
    st = [S("Aaa", [M("x", "byte"), M("e", "En0")]), S("Zzz", [M("a", "Aaa", True)]), S("Mmm", [M("v", "string")])] if rich else []
    kinds = ["byte", "int16", "string"] + (["Aaa", "En1", "Zzz"] if rich else [])
    p = Laid(ns, en, st, [S(name(i, style), [M("v", kinds[i % len(kinds)])] if i % 7 != 5 else []) for i in range(n)])
    p.sections = sections
    return p


def universe(quick):
    ps = [many(n, f"Many{n}") for n in ((1, 2, 3, 4, 5, 10, 11, 127, 128, 129, 254, 255) if quick else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130, 191, 192, 200, 253, 254, 255))]
    for style in (1, 2, 3):
        ps.append(many(40 if quick else 255, f"Style{style}", style, rich=True))
    for i, sec in enumerate(list(itertools.permutations(("enums", "structs", "messages"))) + ["interleaved"]):
        ps.append(many(9, f"Lay{i}", i % 4, sec, rich=True))
    # all orders of the same four messages
    for i, perm in enumerate(itertools.permutations(range(4))):
        p = Laid(f"Perm{i}", [], [], [S(f"P{'abcd'[j]}", [M("v", ["byte", "int32", "string", "bool"][j])]) for j in perm])
        ps.append(p)
    return number(ps)


def check(ctx):
    ps = universe(ctx.quick)
    ctx.start(SEVEN, ps)
    cases = []

    def add(c):
        if c:
            ctx.step()
            cases.append(c)
    for p in ps:
        V = Values(p)
        names = [m.name for m in p.messages]
        vals = {n: V.base(n) for n in names}
        for i, n in enumerate(names):
            ctx.state(p.ns, n)
            add(E(p, n, vals[n], 1, 0, 0))
            e = p.encode(n, vals[n], True)
            assert e[0] == i + 1
            add(R_raw(p, e, (-1,), 0, f"tag {i + 1} of {len(names)}"))
            o = names[(i * 5 + 2) % len(names)]
            add(R_raw(p, e + p.encode(o, vals[o], True) + b"\0", (-1,), 0, f"tags {i + 1} and {names.index(o) + 1}"))
            add(P_(p, [(n, vals[n]), (o, vals[o])]))
            add(U_raw(p, p.pack([(n, vals[n]), (o, vals[o])]), 0, f"pack with tags {i + 1} and {names.index(o) + 1}"))
            # the body of one message under every other tag: what that tag says counts
            if len(names) <= 12:
                for t in range(1, len(names) + 1):
                    add(R_raw(p, bytes([t]) + e[1:], (-1,), 0, f"body of tag {i + 1} under tag {t}"))
        for t in range(len(names) + 1, 256):
            ctx.state(p.ns, "unknown", t)
            add(R_raw(p, bytes([t]) + b"\1\2\3\4\5\6\7\x08", (-1,), 0, f"unknown tag {t}"))
            if t < len(names) + 4 or t > 253:
                add(U_raw(p, b"BSCI\1\0\0\0" + bytes([t]) + b"\0" * 8, 0, f"pack with unknown tag {t}"))
        allm = [(n, vals[n]) for n in names]
        add(R_raw(p, b"".join(p.encode(n, v, True) for n, v in allm), (-1,), 0, "all messages"))
        add(R_raw(p, b"".join(p.encode(n, v, True) for n, v in reversed(allm)) + b"\0", (-1,), 0, "all messages backwards"))
        add(P_(p, allm))
        add(U_raw(p, p.pack(allm[::-1]), 0, "all messages backwards"))
    for c in cases[:2] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=str(c.exp)[:300])
    zc = zigify(cases)
    ctx.run(SEVEN, ps, lambda L: zc if L.name == "zig" else cases)


def P_(p, ms):
    from .c07 import P
    return P(p, ms)
