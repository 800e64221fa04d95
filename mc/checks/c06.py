"""C06: stream processing returns the messages up to the limit, the terminator or the end, and can be resumed."""
import itertools
from ..plans import *
from ..engine import SIX
from .c04 import zigify


def units(p):
    V = Values(p)
    b = {m.name: p.encode(m.name, V.base(m.name), True) for m in p.messages}
    lst = b["Lst"]
    bad = put(lst, len(lst) - 1, "byte", 77)
    return {"A": b["Aa"], "N": b["Nil"], "T": b["Txt"], "L": lst, "0": b"\0", "?": bytes([len(p.messages) + 1]), "!": b"\xff", "e": bad, "t": lst[:-2]}


PLANS = [(-1,), (0,), (1,), (2,), (3,), (-1, -1), (1, -1), (0, -1), (2, -1), (1, 1, 1, 1, 1, 1), (2, 1, 2, 1), (3, 0, 3), (1, 0, -1, -1), (-1, 1, 1, -1),
         (2147483647,), (256,), (-2147483648,), (-2, 1)]


def check(ctx):
    ps = number([mk_stream(), mk_kinds(), mk_nested()])
    ctx.start(SIX, ps)
    p = ps[0]
    U = units(p)
    cases, zig = [], []
    depth = 4 if ctx.quick else 5
    plans = PLANS if ctx.quick else PLANS + [x for n in (2, 3) for x in itertools.product((-1, 0, 1, 2), repeat=n)]

    def add(buf, mx, off, note):
        c = R_raw(p_, buf, mx, off, note)
        if c:
            ctx.step(len(mx))
            cases.append(c)
            if len(mx) == 1:
                zig.append(c)
    p_ = p
    for n in range(depth + 1):
        for seq in itertools.product(U, repeat=n):
            if sum(1 for u in seq if u in "?!et") > 2 or "t" in seq[:-1] and n > 3:
                continue
            buf = b"".join(U[u] for u in seq)
            ctx.state(seq)
            for mx in (plans if n < 4 else plans[:9] if n < 5 else plans[:6]):
                if ctx.quick and n == 4 and mx[0] not in (-1, 1, 3):
                    continue
                off = 2 if n & 1 else 0
                add(b"\x01\x00"[:off] + buf, mx, off, f"stream {''.join(seq)} limits {mx}")
    # every cut of a longer stream
    for seq in ("ATL", "LTA", "NLN", "AL0TA", "TT0"):
        buf = b"".join(U[u] for u in seq)
        for k in range(len(buf) + 1):
            for mx in ((-1,), (1, -1), (1, 1, 1), (2, 1, -1)):
                ctx.state(seq, k)
                add(buf[:k], mx, 0, f"stream {seq} cut at {k} limits {mx}")
    # long streams (list growth inside the implementation) and all tags
    for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300):
        seq = "".join("AANTL"[i % 5] for i in range(n))
        buf = b"".join(U[u] for u in seq)
        for mx in ((-1,), (n,), (n - 1, -1), (n + 1,), (n // 2, n, 1)):
            ctx.state(n)
            add(buf, mx, 0, f"{n} messages limits {mx}")
            add(buf + b"\0" + U["A"], mx, 0, f"{n} messages, terminator, one more; limits {mx}")
    for n in (4096, 32768, 65535, 65536, 65537) if ctx.quick else (4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100001):
        buf = b"".join(U["N"] if i % 3 else U["A"] for i in range(n))
        for mx in ((-1,), (n,), (n - 1, -1), (n // 2, n)):
            ctx.state(n)
            add(buf + b"\0" + U["A"], mx, 0, f"{n} messages, limits {mx}")
    for t in range(256):
        ctx.state("tag", t)
        add(U["A"] + bytes([t]) + U["T"], (-1, -1), 0, f"tag {t}")
    # every pair of message types of the richer protocols
    for p_ in ps[1:]:
        V = Values(p_)
        b = {m.name: p_.encode(m.name, V.base(m.name), True) for m in p_.messages}
        names = list(b)
        for i, x in enumerate(names):
            for y in (names if not ctx.quick else [names[(i + 1) % len(names)], names[(i * 7 + 3) % len(names)], x]):
                ctx.state(p_.ns, x, y)
                add(b[x] + b[y] + b"\0" + b[x], (-1, -1), 0, f"{x} then {y}")
                add(b[x] + b[y], (1, 1), 0, f"{x} then {y}, one at a time")
    for c in cases[5:7] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=str(c.exp)[:300])
    zc = zigify(zig)
    ctx.extra["note"] = "Zig processes a whole buffer per call and reports no position, so only single calls are replayed there"
    ctx.run(SIX, ps, lambda L: zc if L.name == "zig" else cases)
