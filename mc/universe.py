"""The bounded universe: protocols, values, streams.  Everything is enumerated in
a fixed order; nothing is sampled."""
from __future__ import annotations
import itertools
from .model import Protocol, Enum, Struct, Member, NUM, SIZE_TYPES, RANGE

F32 = {"0": 0, "-0": 0x80000000, "1": 0x3f800000, "pi": 0x40490fdb, "max": 0x7f7fffff, "inf": 0x7f800000,
       "-inf": 0xff800000, "nan": 0x7fc00000, "den": 1, "b": 0x44801234, "c": 0xc2f6e979}
F64 = {"0": 0, "-0": 1 << 63, "1": 0x3ff0000000000000, "e": 0x4005bf0a8b145769, "max": 0x7fefffffffffffff,
       "inf": 0x7ff0000000000000, "-inf": 0xfff0000000000000, "nan": 0x7ff8000000000000, "den": 1,
       "b": 0x40c3880123456789, "c": 0xc05ec6e978d4fdf4}
STRINGS = ["", "a", "Zz9", "é", "߿ࠀ", "€uro", "😀", "a😀é", "\ufeffbom", "nul\0mid", "\uffff\U0010ffff", "x" * 127, "日本語テキスト",
           "e\u0301A\u030a", " \t\r\n ", "\0", "end\0", "%s{}\\n\"'$`/*", "\u0080\u2028\ufffd", "é" * 70]

ALPHA = {
    "byte": [0, 1, 127, 128, 255], "bool": [0, 1],
    "uint16": [0, 1, 0x00ff, 0x0100, 0x7fff, 0x8000, 0xffff, 0x1234],
    "int16": [0, 1, -1, 0x00ff, 0x0100, 32767, -32768, 0x1234],
    "uint32": [0, 1, 0xff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678],
    "int32": [0, 1, -1, 0x10000, 2**31 - 1, -2**31, 0x12345678],
    "uint64": [0, 1, 0xffffffff, 1 << 32, 2**53 + 1, 2**63, 2**64 - 1, 0x123456789abcdef0],
    "int64": [0, 1, -1, 1 << 32, -(1 << 32), 2**53 + 1, 2**63 - 1, -2**63, 0x123456789abcdef0],
    "float": list(F32.values()), "double": list(F64.values()),
    "string": [s.encode() for s in STRINGS],
}
# distinct, recognisable base values so that swapped or shifted members show
BASES = {
    "byte": lambda i: 0x11 + 7 * i % 0x60, "bool": lambda i: (i + 1) % 2,
    "uint16": lambda i: 0x2102 + 0x0101 * (i % 60), "int16": lambda i: -0x1203 + 0x0101 * (i % 60),
    "uint32": lambda i: 0x31020304 + 0x01010101 * (i % 60), "int32": lambda i: -0x21020304 + 0x01010101 * (i % 60),
    "uint64": lambda i: 0x8102030405060708 + 0x0101010101010101 * (i % 60),
    "int64": lambda i: -0x7102030405060708 + 0x0101010101010101 * (i % 60),
    "float": lambda i: 0x41100000 + 0x8000 * (i % 60), "double": lambda i: 0x4122000012340000 + 0x10000000001 * (i % 60),
    "string": lambda i: ["ab", "cdé", "f", "gh😀i"][i % 4].encode() + str(i % 60).encode(),
}

ENUMS = [
    Enum("EnA", [("Alpha", 0), ("Beta", 1), ("Gamma", 2)], explicit=False),
    Enum("EnB", [("Five", 5), ("Zero", 0), ("Top", 255)]),
    Enum("EnC", [("Hi", 256), ("Neg", -1), ("Mid", 512), ("Low", -32768)]),
    Enum("EnD", [("Big", 300), ("Bigger", 32767)]),
    Enum("EnE", [("Large", 70000), ("NegL", -70000), ("Nil", 0), ("MaxI", 2**31 - 1), ("MinI", -2**31)]),
    Enum("EnF", [("Solo", 9)]),
]
ETYPES = [e.name for e in ENUMS]
LEAVES = list(NUM) + ["string"] + ETYPES


def _cp(enums):
    return [Enum(e.name, list(e.values), e.explicit) for e in enums]


def mk_kinds(ns="Kinds", **kw):
    """every member kind, plain and listed, alone / after a byte / before a uint16"""
    msgs = []
    for t in LEAVES + ["SimA", "CpxA"]:
        for l in (False, True):
            n = f"{t.capitalize()}{'L' if l else 'P'}"
            msgs.append(Struct(f"M{n}", [Member("v", t, l)]))
            msgs.append(Struct(f"W{n}", [Member("lead", "byte"), Member("v", t, l), Member("trail", "uint16")]))
    structs = [
        Struct("SimA", [Member("x", "int16"), Member("e", "EnB"), Member("f", "float"), Member("b", "bool")]),
        Struct("CpxA", [Member("s", "string"), Member("l", "SimA", True), Member("k", "uint32")]),
    ]
    return Protocol(ns, _cp(ENUMS), structs, msgs, **kw)


S1_LEAVES = ["byte", "bool", "int16", "uint32", "int64", "uint64", "float", "double", "string", "EnA", "EnC", "EnE"]


def mk_structs(ns="Structs", leaves=S1_LEAVES, **kw):
    """one-member structs of every kind, wrapped plain and listed to depth 2, used plain and listed"""
    structs, msgs = [], []
    for t in leaves:
        for l in (False, True):
            tag = f"{t.capitalize()}{'L' if l else 'P'}"
            s1 = f"Sa{tag}"
            structs.append(Struct(s1, [Member("v", t, l)]))
            sp, sl = f"Sb{tag}", f"Sc{tag}"
            structs.append(Struct(sp, [Member("a", s1), Member("z", "byte")]))
            structs.append(Struct(sl, [Member("y", "uint16"), Member("a", s1, True)]))
            for s in (s1, sp, sl):
                msgs.append(Struct(f"Mp{s}", [Member("x", s), Member("t", "byte")]))
                msgs.append(Struct(f"Ml{s}", [Member("h", "int16"), Member("x", s, True)]))
    return Protocol(ns, _cp(ENUMS), structs, msgs, **kw)


def mk_adjacent(ns="Adjacent", **kw):
    """members in an order that contains every ordered pair of member kinds next to each other
    (an Eulerian circuit of the complete digraph with loops, cut into messages)"""
    kinds = [(t, l) for t in ["byte", "bool", "int16", "int32", "uint64", "float", "double", "string", "EnB", "EnC", "EnE", "SimA", "CpxA"]
             for l in (False, True)]
    n = len(kinds)
    nxt = [list(range(n)) for _ in range(n)]
    stack, path = [0], []
    while stack:                      # Hierholzer
        v = stack[-1]
        if nxt[v]:
            stack.append(nxt[v].pop())
        else:
            path.append(stack.pop())
    path.reverse()
    msgs, step = [], 24
    for i in range(0, len(path) - 1, step):
        seg = path[i:i + step + 1]
        msgs.append(Struct(f"Adj{len(msgs)}", [Member(f"m{j}", *kinds[k]) for j, k in enumerate(seg)]))
    structs = mk_kinds().structs
    return Protocol(ns, _cp(ENUMS), structs, msgs, **kw)


def mk_nested(ns="Nested", **kw):
    """deep nesting, structs declared before and after use, empty structs and messages"""
    S, M = Struct, Member
    structs = [
        S("Outer", [M("inner", "Middle"), M("inners", "Middle", True), M("tag", "byte")]),      # forward reference
        S("Middle", [M("leaf", "Leaf"), M("leaves", "Leaf", True)]),
        S("Leaf", [M("id", "int32"), M("name", "string"), M("col", "Color")]),
        S("Color", [M("r", "byte"), M("g", "byte"), M("b", "byte"), M("kind", "EnC")]),
        S("Line", [M("start", "Color"), M("end", "Color"), M("w", "double"), M("on", "bool")]),
        S("Poly", [M("lines", "Line", True), M("fill", "Line")]),
        S("Nothing", []),
        S("HasNothing", [M("n", "Nothing"), M("k", "uint16")]),
        S("Wide", [M("a", "string"), M("b", "string", True), M("c", "EnE", True), M("d", "double", True), M("e", "Line", True), M("f", "Leaf", True)]),
    ]
    msgs = [
        S("Empty", []),
        S("MsgOuter", [M("o", "Outer")]), S("MsgOuters", [M("o", "Outer", True)]),
        S("MsgLine", [M("l", "Line"), M("z", "byte")]), S("MsgLines", [M("l", "Line", True)]),
        S("MsgPoly", [M("p", "Poly"), M("ps", "Poly", True)]),
        S("MsgNothing", [M("n", "Nothing"), M("z", "byte")]), S("MsgNothings", [M("n", "Nothing", True), M("z", "byte")]),
        S("MsgHasNothing", [M("h", "HasNothing"), M("hs", "HasNothing", True)]),
        S("OnlyNothing", [M("n", "Nothing")]),
        S("MsgWide", [M("w", "Wide"), M("ws", "Wide", True), M("q", "EnA")]),
        S("TwoLeaf", [M("a", "Leaf"), M("b", "Leaf"), M("c", "Leaf", True), M("d", "Leaf", True)]),
        S("Scalars", [M("b", "byte"), M("tf", "bool"), M("i16", "int16"), M("u16", "uint16"), M("i32", "int32"), M("u32", "uint32"),
                      M("i64", "int64"), M("u64", "uint64"), M("f", "float"), M("d", "double"), M("ea", "EnA"), M("ec", "EnC"), M("ee", "EnE")]),
    ]
    return Protocol(ns, _cp(ENUMS), structs, msgs, **kw)


def mk_sized(ls, ss, ns=None, **kw):
    S, M = Struct, Member
    structs = [S("Tup", [M("a", "byte"), M("b", "int16")]),
               S("Mix", [M("s", "string"), M("l", "byte", True)])]
    msgs = [S("Str", [M("s", "string"), M("z", "byte")]), S("Strs", [M("s", "string", True), M("z", "byte")]),
            S("Ints", [M("v", "int16", True), M("z", "byte")]), S("Tups", [M("v", "Tup", True), M("z", "byte")]),
            S("Mixes", [M("v", "Mix", True), M("m", "Mix"), M("z", "byte")]), S("Enums", [M("v", "EnC", True), M("s", "string")]),
            S("Bools", [M("v", "bool", True), M("w", "byte", True)])]
    ab = {t: c for t, c in zip(SIZE_TYPES, "BUIVJWK")}
    return Protocol(ns or f"Sz{ab[ls]}{ab[ss]}", _cp([ENUMS[2]]), structs, msgs, list_size=ls, string_size=ss, **kw)


def mk_stream(ns="Stream", **kw):
    """small alphabet used by the stream and packed-message explorations"""
    S, M = Struct, Member
    return Protocol(ns, _cp([ENUMS[1]]), [S("Pt", [M("x", "byte"), M("e", "EnB")])], [
        S("Aa", [M("v", "byte")]),
        S("Nil", []),
        S("Txt", [M("s", "string")]),
        S("Lst", [M("l", "Pt", True), M("e", "EnB")]),
    ], **kw)


def mk_many(n=255, ns="Many", **kw):
    return Protocol(ns, [], [], [Struct(f"Msg{i}", [Member("v", ["byte", "int16", "string"][i % 3])]) for i in range(n)], **kw)


def number(protos):
    for i, p in enumerate(protos):
        p.pid = i
    return protos


# ------------------------------------------------------------------ values

class Values:
    """deviation-bounded enumeration of the values of a message"""

    def __init__(self, p: Protocol, alpha=None, list_lens=(0, 1, 3), reduced=False):
        self.p, self.alpha, self.list_lens = p, alpha or ALPHA, list_lens
        self.ctr = 0
        self.reduced = reduced

    def base_type(self, t):
        self.ctr += 1
        k = self.p.kind(t)
        if k == "enum":
            vs = self.p.e[t].values
            return vs[self.ctr % len(vs)][1]
        if k == "struct":
            return [self.base_member(m) for m in self.p.s[t].members]
        return BASES[t](self.ctr)

    def base_member(self, m):
        return [self.base_type(m.type) for _ in range(2)] if m.is_list else self.base_type(m.type)

    def base(self, name):
        self.ctr = 0
        return [self.base_member(m) for m in self.p.m[name].members]

    # var_*: {cost: [values]} for cost 0..k
    def var_type(self, t, b, k):
        kind = self.p.kind(t)
        if kind == "struct":
            return self.var_seq([(m.type, m.is_list) for m in self.p.s[t].members], b, k)
        if k == 0:
            return {0: [b]}
        al = [v for _, v in self.p.e[t].values] if kind == "enum" else self.alpha[t]
        if self.reduced:
            al = al[:4]
        return {0: [b], 1: [v for v in al if v != b]}

    def var_member(self, t, is_list, b, k):
        if not is_list:
            return self.var_type(t, b, k)
        out = self.var_seq([(t, False)] * len(b), b, k)
        if k >= 1:
            seen = {repr(x) for vs in out.values() for x in vs}
            for n in self.list_lens:
                save = self.ctr
                v = [self.base_type(t) for _ in range(n)]
                self.ctr = save
                if repr(v) not in seen:
                    out.setdefault(1, []).append(v)
        return out

    def var_seq(self, types, b, k):
        acc = {0: [[]]}
        for (t, l), bv in zip(types, b, strict=True):
            vs = self.var_member(t, l, bv, k)
            new = {}
            for c1, pre in acc.items():
                for c2, xs in vs.items():
                    if c1 + c2 <= k:
                        new.setdefault(c1 + c2, []).extend(p + [x] for p in pre for x in xs)
            acc = new
        return acc

    def enum(self, name, k):
        b = self.base(name)
        out = self.var_seq([(m.type, m.is_list) for m in self.p.m[name].members], b, k)
        for c in sorted(out):
            yield from out[c]


def mk_same(ns="Same", **kw):
    """the same member names at every nesting depth; names that resemble generated locals"""
    S, M = Struct, Member
    structs = [
        S("Deep", [M("v", "string"), M("l", "string", True), M("n", "byte", True)]),
        S("Inner", [M("l", "Deep", True), M("v", "string"), M("n", "Deep")]),
        S("Upper", [M("l", "Inner", True), M("n", "Inner"), M("v", "Deep", True)]),
    ]
    msgs = [
        S("SameA", [M("l", "Upper", True), M("v", "string"), M("n", "byte", True)]),
        S("SameB", [M("v", "Upper"), M("n", "Inner", True), M("l", "Deep", True)]),
        S("SameC", [M("l", "Inner", True), M("n", "Deep", True), M("v", "string", True)]),
        S("Locals", [M("names", "string", True), M("names_count", "uint16"), M("count", "int32"), M("size", "uint32"), M("index", "byte"),
                     M("offset", "int64"), M("buffer", "string"), M("position", "float"), M("value", "EnC"), M("items", "EnA", True), M("idx", "byte", True)]),
        S("Letters", [M("a", "byte"), M("b", "string"), M("c", "EnC"), M("e", "EnE"), M("i", "int16", True), M("n", "Deep"), M("s", "Deep", True), M("t", "EnA", True)]),
    ]
    return Protocol(ns, _cp(ENUMS), structs, msgs, **kw)


def mk_names(ns="Names", names=(), **kw):
    """members of one message each called like an identifier of some generated code"""
    S, M = Struct, Member
    msgs = []
    ts = ["byte", "string", "EnC", "Pt"]
    for i, n in enumerate(names):
        msgs.append(S(f"N{i}", [M(n, ts[i % 4]), M("zz", "uint16")]))
        msgs.append(S(f"L{i}", [M(n, ts[i % 4], True), M("zz", "uint16")]))
    return Protocol(ns, _cp(ENUMS), [S("Pt", [M("x", "byte"), M("s", "string")])], msgs, **kw)


def mk_enums(ns="Enums", **kw):
    """enums whose extremes sit on every side of every encoding boundary"""
    S, M = Struct, Member
    sets = [[0], [255], [0, 255], [255, 0, 7], [0, 256], [256], [-1], [-1, 0], [3, -32768], [-32769, 3], [32767, 0], [32768, 0], [32767, -32768],
            [2**31 - 1, 0], [-2**31, 0], [65535, 1], [65536, 2], [1, 2, 4, 8, 16, 32, 64, 128], [128, 127], [-128, 127], [250, 300, 5], [40000, -3], [100, 50, 75]]
    enums = [Enum(f"Eb{i}", [(f"Val{i}x{j}", v) for j, v in enumerate(s)]) for i, s in enumerate(sets)]
    msgs = [S(f"Me{i}", [M("a", e.name), M("z", "byte"), M("l", e.name, True), M("y", "int16"), M("q", e.name)]) for i, e in enumerate(enums)]
    return Protocol(ns, enums, [], msgs, **kw)
