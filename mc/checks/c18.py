"""C18: operations do not influence each other: all sequences of operations in one process, all interleavings of several streams."""
import itertools
from ..plans import *
from ..engine import SEVEN, norm
from .c04 import zigify
from .c07 import P
from .c16 import z_exp

S, M = Struct, Member


def de_bruijn(k, n):
    """a cyclic sequence over range(k) in which every word of length n occurs (standard FKM algorithm)"""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


def mk():
    en = [Enum("Col", [("Red", 5), ("Blue", 0), ("Green", 255)])]
    st = [S("Pt", [M("x", "byte"), M("e", "Col")]), S("Rec", [M("name", "string"), M("tags", "string", True), M("pts", "Pt", True)])]
    ms = [S("Aa", [M("v", "byte")]), S("Nil", []), S("Txt", [M("s", "string")]), S("Lst", [M("l", "Rec", True), M("e", "Col")]), S("One", [M("r", "Rec"), M("p", "Pt")])]
    return Protocol("Indep", en, st, ms, string_size="uint16", list_size="byte")


def ops(p):
    """the alphabet of operations: successful, failing early, failing late, large, empty"""
    long = [[b"nm" * 40, [b"t%d" % i for i in range(9)], [[i, 0] for i in range(12)]], [b"", [], []], ["é😀".encode(), [b""], [[1, 5]]]]
    one = [[b"only", [b"p", b"q"], [[3, 255]]], [9, 5]]
    L, O, T = p.encode("Lst", [long, 0]), p.encode("One", one), p.encode("Txt", [b"hello"])
    bad = bytearray(O)
    bad[-1] = 77
    st = b"".join([p.encode("Lst", [long, 0], True), p.encode("One", one, True), p.encode("Nil", [], True)])
    z = lambda n: Case(f"Z {p.pid} {p.tag_of(n) - 1}", z_exp(p, n), p, "defaults of " + n)
    out = [E(p, "Lst", [long, 0]), E(p, "One", one), E(p, "Txt", [b""]), D(p, "Lst", [long, 0]), D(p, "One", one), D(p, "Nil", []),
           D_raw(p, "Lst", L[:-3], 0, "read cut"), D_raw(p, "One", bytes(bad), 0, "read with a bad enum at the end"), D_raw(p, "Txt", T[:1], 0, "read cut in a length"),
           R_raw(p, st + b"\0", (-1,), 0, "stream"), R_raw(p, st + b"\x04\x02", (-1,), 0, "stream cut in the third message"), R_raw(p, st + b"\x09", (-1,), 0, "stream with an unknown tag"),
           P(p, [("Lst", [long, 0]), ("Txt", [b"x"])]), P(p, []), U_raw(p, p.pack([("One", one), ("Lst", [long, 0])]), 0, "unpack"),
           U_raw(p, p.pack([("One", one), ("Lst", [long, 0])])[:-4], 0, "unpack cut"), U_raw(p, b"BSCJ" + b"\0" * 9, 0, "unpack of a bad header"), z("Lst"), z("One"), z("Txt")]
    # text that is not UTF-8, above all breaking off inside of a character: what it is read as is up to the language, but it is always the same
    for b in (b"\x03\x00ab\xe2", b"\x02\x00\x82\xac"):
        out.append(Case(f"D {p.pid} {p.tag_of('Txt') - 1} 0 x{b.hex()}", alive, p, "read malformed text"))
    out.append(Case(f"R {p.pid} 0 x{(p.encode('Txt', [b'1st'], True) + p.encode('One', [[b'on' + bytes([0xf0, 0x9f]), [b'p', bytes([0xc3])], []], [9, 5]], True)).hex()} 1 -1", alive, p, "stream with malformed text"))
    return out


def alive(got):
    """an answer, the same every time"""
    return not any(x in got for x in ("crash", "hang", "LEAK"))


def more_ops(p, lang):
    """operations that only some languages have: writing without enough room, allocations that fail"""
    one = [[b"only", [b"p", b"q"], [[3, 255]]], [9, 5]]
    e = p.encode("One", one)
    out = []
    if lang in ("c", "cpp", "typescript"):
        for room in (len(e) - 1, 3):
            out.append(Case(f"W {p.pid} {p.tag_of('One') - 1} 0 0 {room} {p.tokens('One', one)}", "err", p, f"write with room {room} for {len(e)}"))
    if lang in ("c", "cpp", "zig"):
        st = (p.encode("Txt", [b"hello"], True) + p.encode("One", one, True)).hex()
        for k in (1, 3):
            out.append(Case(f"A {k} 0 R {p.pid} 0 x{st} 1 -1", alive, p, f"stream while allocation {k} fails"))
    return out


def inter(p, streams, sched, note, zig):
    """several readers, stepped in the order of the schedule; what was read is written again and kept until the end"""
    pos = [0] * len(streams)
    res, dead, outs = [], set(), [b""] * len(streams)
    for i in sched:
        if i in dead:
            return None                       # a stream that failed is not used again
        try:
            ms, pos[i] = p.process(streams[i], pos[i], 1)
        except ModelError:
            res.append("err |")
            dead.add(i)
            continue
        res.append(listtok(p, ms) + " |")
        for n, v in ms:
            outs[i] += p.encode(n, v, True)
    return Case(f"I {p.pid} {len(streams)} " + " ".join(f"0 x{s.hex()}" for s in streams) + f" {len(sched)} " + " ".join(map(str, sched)),
                "ok " + " ".join(res) + " " + " ".join("x" + o.hex() for o in outs), p, note)


def schedules(counts):
    """all interleavings of that many steps of each session"""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            for r in schedules(counts[:i] + (c - 1,) + counts[i + 1:]):
                yield (i,) + r


def check(ctx):
    p, q = mk(), mk_nested()
    ps = number([p, q])
    al = ops(p)
    # operations of two protocols mixed
    V = Values(q)
    mixed = []
    for m in q.messages:
        b = V.base(m.name)
        e = q.encode(m.name, b)
        mixed += [al[0], D(q, m.name, b), al[10], D_raw(q, m.name, e[:-1], 0, "read cut") if e else None, al[3], E(q, m.name, b), Case(f"Z {q.pid} {q.tag_of(m.name) - 1}", z_exp(q, m.name), q, "defaults")]
    mixed = [c for c in mixed if c]
    seqs = {}

    def sequence(n):
        full = al + more_ops(p, n)
        if len(full) not in seqs:
            seqs[len(full)] = de_bruijn(len(full), 3 if ctx.quick else 4)
            for a, b, c in zip(seqs[len(full)], seqs[len(full)][1:], seqs[len(full)][2:]):
                ctx.state(len(full), a, b, c)
        out = [full[i] for i in seqs[len(full)]] + mixed
        ctx.step(len(out))
        return out
    # interleavings
    one = [[b"only", [b"p", b"q"], [[3, 255]]], [9, 5]]
    A, N, T, T2, O = (p.encode("Aa", [7], True), p.encode("Nil", [], True), p.encode("Txt", [b"first string"], True), p.encode("Txt", [b"2nd"], True), p.encode("One", one, True))
    L = p.encode("Lst", [[[b"n", [b"a", b"bb"], [[1, 0], [2, 5]]]], 255], True)
    bad = O[:-1] + b"\x4d"
    streams = {"mixed": A + T + L + O, "same": T + T2 + T + T2, "ends": L + L, "fails": O + T + bad, "cut": T + L[:-2], "stops": T2 + b"\0" + A + L, "unknown": A + b"\x63", "empty": b""}
    ic = []

    def add(c):
        if c:
            ctx.step(int(c.cmd.split()[3 + 2 * int(c.cmd.split()[2])]))
            ic.append(c)
    names = list(streams)
    for a, b in itertools.product(names, repeat=2):
        for s in schedules((4, 4)):
            ctx.state("2", a, b, s)
            add(inter(p, [streams[a], streams[b]], s, f"streams {a}, {b} interleaved as {s}", False))
    trip = [("mixed", "same", "fails"), ("ends", "mixed", "stops"), ("same", "same", "same")] if ctx.quick else list(itertools.product(names[:6:2], repeat=3)) + [("mixed", "same", "fails")]
    for t in trip:
        for s in schedules((3, 3, 2) if ctx.quick else (3, 3, 3)):
            ctx.state("3", t, s)
            add(inter(p, [streams[x] for x in t], s, f"streams {t} interleaved as {s}", False))
    if not ctx.quick:
        for s in schedules((2, 2, 2, 2)):
            add(inter(p, [streams[x] for x in ("mixed", "ends", "same", "stops")], s, f"four streams interleaved as {s}", False))
    # every message of the richer protocol, two readers in step and crosswise
    vs = {m.name: q.encode(m.name, V.base(m.name), True) for m in q.messages}
    ns = list(vs)
    for i, a in enumerate(ns):
        for b in ns if not ctx.quick else [ns[(i + 1) % len(ns)], ns[(i * 5 + 3) % len(ns)], a]:
            for s in schedules((2, 2)):
                add(inter(q, [vs[a] + vs[b], vs[b] + vs[a]], s, f"{a} and {b} interleaved as {s}", False))
    ctx.sample(sequence=[c.note for c in sequence("c")[100:103]], model="each as on its own")
    ctx.sample(command=ic[50].cmd[:300], model=str(ic[50].exp)[:300])
    ctx.extra["interleavings"] = len(ic)

    zi = [c for c in ic if "err" not in c.exp]

    def one_(n):
        L, r = ctx.build(n, ps)
        if r is None:
            return
        r.parallel = 1                      # one process sees them all, in this order
        cs, iv, leaks = sequence(n), ic, n in ("c", "cpp", "zig")
        if n == "zig":
            cs, iv = zigify(cs), zi
        first = {}
        for part, lk in ((cs, leaks), (iv, leaks), (iv[::-7] + cs[::-3], False)):
            for c, o in zip(part, ctx.replay(n, r, part, leaks=lk)):
                if c.exp is alive:          # the model leaves the answer to the language; it has to be the same each time
                    o = norm(o, False)
                    if first.setdefault(c.cmd, o) != o and o != "skipped":
                        ctx.violation(f"{n}|{c.p.ns}|{c.cmd}", lang=n, cmd=c.cmd, expected=f"{first[c.cmd][:500]} as the first time", got=o[:500], note=c.note, protocol=c.p.to_toml())
    ctx.parallel(one_, SEVEN)
    ctx.assumptions = ["operations interleave at the granularity of library calls", "a stream that reported an error is not used again"]
