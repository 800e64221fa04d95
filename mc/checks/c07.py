"""C07: packed messages: exact layout, restored in order, anything malformed is refused."""
import itertools
from ..plans import *
from ..engine import SIX


def P(p, ms, pre=0, post=0):
    b = p.pack(ms)
    return Case(f"P {p.pid} {pre} {post} {intoks(p, ms)}", f"ok {len(b)} {pre + len(b)} x" + (EE * pre + b + EE * post).hex(), p, f"pack of {len(ms)} at {pre}")


def check(ctx):
    ps = number([mk_stream(), mk_nested(), mk_kinds()])
    ctx.start(SIX, ps)
    cases = []

    def add(c):
        if c:
            ctx.step()
            cases.append(c)

    def both(p, ms, note="pack"):
        ctx.state(p.ns, repr(ms))
        b = p.pack(ms)
        add(P(p, ms))
        add(P(p, ms, 3, 2))
        add(U_raw(p, b, 0, note))
        add(U_raw(p, b + b"\x01\x02\x03", 0, note + " with bytes behind"))
        add(U_raw(p, b"BSCI" + b, 4, note + " behind a prefix"))
    p = ps[0]
    alpha = [("Aa", [7]), ("Aa", [0]), ("Nil", []), ("Txt", ["a😀".encode()]), ("Txt", [b""]), ("Lst", [[[1, 5], [2, 255]], 0])]
    depth = 3 if ctx.quick else 5
    for n in range(depth + 1):
        for ms in itertools.product(alpha, repeat=n):
            both(p, list(ms), f"pack of {n}")
    for n in (15, 16, 17, 32, 33, 127, 128, 254, 255, 256, 257, 300, 1000):
        both(p, [alpha[i % len(alpha)] for i in range(n)], f"pack of {n}")
    for n in (4096, 32768, 65535, 65536, 65537) if ctx.quick else (4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100001):
        ms = [("Nil", []) if i % 3 else ("Aa", [i & 255]) for i in range(n)]
        ctx.state("long", n)
        add(P(p, ms))
        add(U_raw(p, p.pack(ms), 0, f"pack of {n}"))
        add(U_raw(p, put(p.pack(ms), 4, "uint32", n & 0xffff), 0, f"pack of {n} announced as {n & 0xffff}"))
    for q in ps[1:]:
        V = Values(q)
        names = [m.name for m in q.messages]
        for i, n in enumerate(names):
            both(q, [(n, V.base(n))])
            for k in (1, 7):
                o = names[(i + k) % len(names)]
                both(q, [(n, V.base(n)), (o, q.default_message(o)), (n, V.base(n))])
    # malformed packs
    for ms in (alpha[:1], alpha[:3], [alpha[3], alpha[5]], [], [alpha[2]] * 2, [alpha[5]]):
        b = p.pack(ms)
        for i in range(4):
            for x in range(256):
                if x != b[i]:
                    ctx.state("header", i, x, len(ms))
                    add(U_raw(p, b[:i] + bytes([x]) + b[i + 1:], 0, f"header byte {i} = {x}"))
        n = len(ms)
        for x in {0, n + 1, n + 2, n - 1, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, n << 8, n << 24, n + 256, n + 2**31, n + 2**16} | set(range(12)):
            if 0 <= x < 2**32:
                ctx.state("count", x, len(ms), repr(ms))
                add(U_raw(p, put(b, 4, "uint32", x), 0, f"count {n} announced as {x}"))
        for k in range(len(b)):
            ctx.state("cut", k, repr(ms))
            add(U_raw(p, b[:k], 0, f"pack cut at {k}"))
            add(U_raw(p, b"zz" + b[:k], 2, f"pack behind a prefix cut at {k}"))
        # every single byte of the body changed to every tag-like value
        for i in range(8, len(b)):
            for x in (0, 1, 2, 3, 4, 5, 127, 128, 255) if ctx.quick else range(256):
                ctx.state("body", i, x, repr(ms))
                add(U_raw(p, b[:i] + bytes([x]) + b[i + 1:], 0, f"body byte {i} = {x}"))
    for c in cases[5:7] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=str(c.exp)[:300])
    ctx.assumptions = ["the position after unpacking is unspecified", "Zig packs and unpacks whole buffers only"]
    ctx.run(SIX, ps, cases, filt=lambda L, c: L.name != "zig" or c.cmd.split(" ")[2] == "0")
