"""C05: an enum value is accepted exactly when it is one of the declared ones, wherever it occurs."""
from ..plans import *
from ..engine import SIX
from .c04 import zigify


def candidates(e, wide):
    lo, hi = RANGE[e.encoding]
    if e.encoding == "byte" or (wide and e.encoding == "int16"):
        return range(lo, hi + 1)
    out = set()
    for _, v in e.values:
        out |= {v - 1, v, v + 1, v ^ 1, -v, ~v, v & 0xff, v & 0xffff, v + 256, v - 256, v + 65536, v - 65536, v << 8, v >> 8, v - 2**32, v + 2**31}
        out |= {v ^ (1 << b) for b in range(32 if e.encoding == "int32" else 16)}
        out.add(int.from_bytes((v & (2**32 - 1)).to_bytes(4, "little"), "big"))
    out |= {lo, lo + 1, hi, hi - 1, 0, 1, -1, len(e.values), len(e.values) - 1, 127, 128, 255, 256, 32767, -32768}
    vs = sorted(v for _, v in e.values)
    out |= {(a + b) // 2 for a, b in zip(vs, vs[1:])}
    return sorted(x for x in out if lo <= x <= hi)


def check(ctx):
    ps = number([mk_kinds(), mk_structs(), mk_nested(), mk_stream(), mk_enums()])
    ctx.start(SIX, ps)
    cases = []

    def add(c):
        if c:
            ctx.step()
            cases.append(c)
    widened = set()
    for p in ps:
        V = Values(p)
        for m in p.messages:
            name, mi = m.name, p.tag_of(m.name)
            b = V.base(name)
            e = p.encode(name, b)
            for off, en in enum_fields(p, name, b):
                wide = (p.ns, en.name) not in widened and (not ctx.quick or p.ns == "Enums" and en.name in ("Eb4", "Eb7", "Eb12"))
                if wide:
                    widened.add((p.ns, en.name))
                for x in candidates(en, wide):
                    buf = put(e, off, en.encoding, x)
                    ctx.state(p.ns, name, off, x)
                    add(D_raw(p, name, buf, 0, f"{en.name} = {x} at {off}"))
                    if not wide and (x < 8 or not ctx.quick or p.ns == "Stream"):
                        add(R_raw(p, bytes([mi]) + e + bytes([mi]) + buf + bytes([mi]) + e, note=f"{en.name} = {x} in the 2nd of 3 messages"))
                        add(U_raw(p, p.pack([(name, b)])[:8] + bytes([mi]) + buf + b"\0", note=f"{en.name} = {x} in a pack"))
        # declared values also have to be written
        for m in p.messages:
            for v in Values(p).enum(m.name, 1):
                if p.ns in ("Enums", "Stream"):
                    add(E(p, m.name, v))
    for c in cases[:2] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], model=str(c.exp)[:300])
    ctx.extra["enums"] = sum(len(p.enums) for p in ps)
    ctx.run(SIX, ps, lambda L: zigify(cases) if L.name == "zig" else cases)
