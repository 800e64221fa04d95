"""C22: generated AssemblyScript follows the same format, under its own documented error conventions."""
import itertools
from ..plans import *
from .c05 import candidates
from .c06 import units, PLANS


class Lenient(Protocol):
    """undeclared enum values become _Unknown, as documented for AssemblyScript"""
    def dec_type(self, t, buf, pos):
        if t in self.e:
            v, pos = self.dec_num(self.e[t].encoding, buf, pos)
            return v, pos
        return super().dec_type(t, buf, pos)

    def tok_type(self, t, v, out):
        if t in self.e and v not in [x for _, x in self.e[t].values]:
            out.append("?")
        else:
            super().tok_type(t, v, out)


def lenient(p):
    q = Lenient(p.ns, p.enums, p.structs, p.messages, p.list_size, p.string_size)
    q.pid = p.pid
    return q


def R(p, buf, maxes, off=0, note="process"):
    """the complete messages before what cannot be read; nothing more is asked after an error"""
    out, at, prefix = [], off, None
    for mx in maxes:
        try:
            ms, at = p.process(buf, at, mx)
        except ModelError as e:
            if e.kind == "neglen":
                return None
            ms = e.partial
            if not all(is_utf8(v) for _, v in ms):
                return None
            lead = "".join(x + " " for x in out)

            def ok(got, lead="ok " + lead + "@", tail=" " + listtok(p, ms) + " |"):
                if not got.startswith(lead):
                    return False
                n, _, rest = got[len(lead):].partition(" ")
                return n.isdigit() and (" " + rest + " ").startswith(tail + " ")
            ok.__doc__ = f"ok {lead}@(any position) {listtok(p, ms)} | ..."
            return Case(f"R {p.pid} {off} x{buf.hex()} {len(maxes)} " + " ".join(map(str, maxes)), ok, p, note)
        if not all(is_utf8(v) for _, v in ms):
            return None
        out.append(f"@{at} {listtok(p, ms)} |")
    return Case(f"R {p.pid} {off} x{buf.hex()} {len(maxes)} " + " ".join(map(str, maxes)), "ok " + " ".join(out), p, note)


def check(ctx):
    small = ["byte", "uint16", "int16", "uint32", "int32"]
    szs = [mk_sized(small[i], small[(i + k) % 5]) for i in range(5) for k in ((2,) if ctx.quick else range(5))]
    ps = [lenient(p) for p in number(core() + szs + [mk_enums(), mk_many(255 if not ctx.quick else 40, "Many")])]
    ctx.start(["assemblyscript"], ps)
    cases = []

    def add(c):
        if c:
            ctx.step()
            cases.append(c)

    # ---- writing, announcing, reading every value
    for p in ps:
        vals = list(values(p, 1))
        if not ctx.quick and p.ns in ("Kinds", "Nested", "Stream", "Same"):
            vals += list(values(p, 2, reduced=True))
        if p.ns.startswith("Sz"):
            vals += list(length_values(p, ctx.quick))
        for i, (name, v) in enumerate(vals):
            ctx.state(p.ns, name, repr(v))
            add(E(p, name, v, i & 1, (0, 3, 1)[i % 3], (2, 0)[(i >> 1) & 1]))
            add(D(p, name, v, (b"", b"zz", b"\x00\x01\xff")[i % 3], (b"", b"q", b"\xff" * 9)[i % 3]))
        for mi, m in enumerate(p.messages):
            v = p.default_message(m.name)
            add(Case(f"Z {p.pid} {mi}", f"ok {mi} {p.tokens(m.name, v)} | {p.size(m.name, v)}", p, "default of " + m.name))

    # ---- every room, every cut, over-announced lengths, undeclared enum values, Message.fromBytes
    for p in ps:
        V = Values(p)
        for mi, m in enumerate(p.messages):
            name, b = m.name, V.base(m.name)
            e = p.encode(name, b)
            for tag in (0, 1):
                t = bytes([mi + 1]) * tag + e
                for pre in (0, 3):
                    if pre and ctx.quick and p.ns not in ("Kinds", "Stream"):
                        continue
                    for room in range(len(t) + 2):
                        ctx.state(p.ns, name, "room", tag, pre, room)
                        add(Case(f"W {p.pid} {mi} {tag} {pre} {room} {p.tokens(name, b)}",
                                 "err" if room < len(t) else f"ok {pre + len(t)} x" + (EE * pre + t + EE * (room - len(t))).hex(), p, f"room {room} for {len(t)} at {pre}"))
            for k in range(len(e)):
                ctx.state(p.ns, name, "cut", k)
                add(D_raw(p, name, e[:k], 0, f"cut at {k}"))
                add(D_raw(p, name, b"zz" + e[:k], 2, f"cut at {k}"))
                add(R(p, bytes([mi + 1]) + e + bytes([mi + 1]) + e[:k], (-1,), 0, f"2nd of 2 cut at {k}"))
                add(Case(f"M {p.pid} 0 x{(bytes([mi + 1]) + e[:k]).hex()}", "err", p, f"Message.fromBytes, {name} cut at {k}"))
            for off, t, n in length_fields(p, name, b):
                for x in {n + 1, n + 2, n + 100, RANGE[t][1]}:
                    if n < x <= RANGE[t][1] and x < 100000:
                        ctx.state(p.ns, name, "len", off, x)
                        c = D_raw(p, name, put(e, off, t, x), 0, f"length {x} at {off}")
                        if c and c.exp != "err":
                            continue
                        add(c)
            for off, en in enum_fields(p, name, b):
                for x in candidates(en, not ctx.quick and en.name in ("Eb4", "Eb7")):
                    ctx.state(p.ns, name, "enum", off, x)
                    add(D_raw(p, name, put(e, off, en.encoding, x), 0, f"{en.name} = {x} at {off}"))
            for off in (0, 2):
                add(Case(f"M {p.pid} {off} x{(b'zz'[:off] + bytes([mi + 1]) + e + b'q').hex()}", f"ok {off + 1 + len(e)} {mi} {p.tokens(name, b)}", p, f"Message.fromBytes of {name}"))
        for t in [0] + list(range(len(p.messages) + 1, 256)):
            add(Case(f"M {p.pid} 0 x{bytes([t]).hex()}00000000", "err", p, f"Message.fromBytes with tag {t}"))

    # ---- streams
    p = ps[4]
    U = units(p)
    for n in range(4 if ctx.quick else 5):
        for seq in itertools.product(U, repeat=n):
            if sum(1 for u in seq if u in "?!t") > 1 or "t" in seq[:-1]:
                continue
            buf = b"".join(U[u] for u in seq)
            ctx.state(seq)
            for mx in (PLANS if n < 3 else PLANS[:9]):
                off = 2 if n & 1 else 0
                add(R(p, b"\x01\x00"[:off] + buf, mx, off, f"stream {''.join(seq)} limits {mx}"))
    for n in (16, 17, 64, 255, 256, 257, 4096, 65536):
        buf = b"".join(U["ANT"[i % 3]] for i in range(n))
        for mx in ((-1,), (n,), (n - 1, -1), (n // 2, n)):
            add(R(p, buf, mx, 0, f"{n} messages limits {mx}"))
            add(R(p, buf + b"\0" + U["A"], mx, 0, f"{n} messages, terminator, one more; limits {mx}"))
    for t in range(256):
        add(R(p, U["A"] + bytes([t]) + U["T"], (-1, -1), 0, f"tag {t}"))

    # ---- packs
    for p in ps[:5] + ps[-1:]:
        V = Values(p)
        al = [(m.name, V.base(m.name)) for m in p.messages]
        seqs = [[x] for x in al] + [[]]
        if p.ns == "Stream":
            seqs = [list(s) for n in range(4 if ctx.quick else 5) for s in itertools.product(al, repeat=n)]
        else:
            seqs += [[al[0], x, al[-1]] for x in al]
        for s in seqs:
            b = p.pack(s)
            ctx.state(p.ns, "pack", repr(s))
            add(Case(f"P {p.pid} 1 {intoks(p, s)}", f"ok {len(b)} x{b.hex()}ee", p, f"pack of {len(s)}"))
            add(U_raw(p, b))
            add(U_raw(p, b + b"\x01"))
            if p.ns == "Stream" and len(s) < 3 or not ctx.quick:
                for k in range(len(b) if s else 9):
                    if s and k == len(b) - 1:
                        continue                   # whether the terminating zero may be missing is not specified
                    add(U_raw(p, b[:k], 0, f"pack cut at {k}"))
                    add(Case(f"V {p.pid} {k} {intoks(p, s)}", f"ok {len(b)}", p, f"packing into {k} bytes of {len(b)}"))
        for s in seqs[:3]:
            b = p.pack(s)
            for i in range(8):
                for x in range(256):
                    add(U_raw(p, b[:i] + bytes([x]) + b[i + 1:], 0, f"header byte {i} = {x}"))
    # an unreadable pack aborts, as documented
    for c in cases:
        if c.cmd[0] == "U" and c.exp == "err":
            c.exp = "abort"
    for c in cases[:2] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=str(c.expected())[:300])
    ctx.assumptions = ["no AssemblyScript compiler is installed: the code is type-checked by tsc and run by node with AssemblyScript's truncating casts and library functions emulated; overflow of 32-bit arithmetic is not",
                       "64-bit size types are not covered", "what follows an error in the same stream is unspecified"]
    ctx.run(["assemblyscript"], ps, cases)
