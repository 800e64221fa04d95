"""C20: what any language writes, any other language reads as the same value.

The bytes exchanged are those that the implementations produce; the model only enumerates
the values and says how they are named in the answer."""
import itertools
from ..plans import *
from ..engine import SEVEN, norm
from .c04 import zigify


def universe(quick):
    ps = [mk_kinds(), mk_structs(), mk_nested(), mk_same(), mk_enums(), mk_adjacent()]
    pairs = [("byte", "uint64"), ("int16", "byte"), ("uint64", "int32"), ("int64", "uint16"), ("int32", "int64"), ("uint16", "int16")]
    ps += [mk_sized(a, b) for a, b in (pairs if quick else itertools.product(SIZE_TYPES, SIZE_TYPES))]
    return number(ps)


def check(ctx):
    ps = universe(ctx.quick)
    pool = {}

    def build(n):
        pool[n] = ctx.build(n, ps)[1]
    ctx.parallel(build, SEVEN)
    langs = [n for n in SEVEN if pool.get(n)]

    # what is exchanged: (kind, protocol, messages, write command)
    items = []
    for p in ps:
        V = Values(p)
        vals = list(values(p, 1))
        if p.ns in ("Nested", "Same") and not ctx.quick:
            vals += list(values(p, 2, reduced=True))
        if p.ns.startswith("Sz"):
            vals += list(length_values(p, ctx.quick))
        for i, (n, v) in enumerate(vals):
            ctx.state(p.ns, n, repr(v))
            items.append(("D", p, [(n, v)], f"E {p.pid} {p.tag_of(n) - 1} {i & 1} {i % 3} {i % 2} {p.tokens(n, v)}", i % 3 + (i & 1)))
        base = [(m.name, V.base(m.name)) for m in p.messages]
        dflt = [(m.name, p.default_message(m.name)) for m in p.messages]
        few = [base, dflt, base[::-1], [], base[:1], base[:2], [x for ab in zip(base, dflt) for x in ab]]
        few += [[a, b] for a, b in itertools.product(base[:6 if ctx.quick else 20], repeat=2)]
        for ms in few:
            ctx.state(p.ns, "sequence", repr(ms))
            items.append(("U", p, ms, f"P {p.pid} 0 0 {intoks(p, ms)}", 0))
            items.append(("R", p, ms, f"T {p.pid} 0 0 {intoks(p, ms)}", 0))
    wrote = {}

    def write(n):
        outs = pool[n].run([it[3] for it in items], 400)
        wrote[n] = [norm(o) for o in outs]
        with ctx.lock:
            ctx.traces += len(outs)
            ctx.per_lang[n] = ctx.per_lang.get(n, 0) + len(outs)
    ctx.parallel(write, langs)

    cases = []
    distinct = 0
    for i, (kind, p, ms, cmd, off) in enumerate(items):
        by = {}
        for n in langs:
            o = wrote[n][i]
            f = o.split(" ")
            if f[0] != "ok" or not f[-1].startswith("x"):
                if not ms and kind == "R":           # nothing written
                    by.setdefault("", []).append(n)
                    continue
                ctx.violation(f"{n}|write|{cmd}", lang=n, cmd=cmd, got=o[:500], expected="ok ... (written)", note="writing what is to be exchanged", protocol=p.to_toml())
                continue
            by.setdefault(f[-1][1:], []).append(n)
        distinct += len(by)
        for hx, writers in by.items():
            ctx.step(len(writers) * len(langs))
            note = "written by " + ", ".join(writers)
            size = len(hx) // 2
            if kind == "D":
                n, v = ms[0]
                # every language was asked to leave the same room around the message
                end = size - int(cmd.split(" ")[5])
                cases.append(Case(f"D {p.pid} {p.tag_of(n) - 1} {off} x{hx}", f"ok {end} {p.tag_of(n) - 1} {p.tokens(n, v)}", p, note))
            elif kind == "U":
                cases.append(Case(f"U {p.pid} 0 x{hx}", "ok " + listtok(p, ms), p, note))
            else:
                cases.append(Case(f"R {p.pid} 0 x{hx} 1 -1", f"ok {size} {listtok(p, ms)} |", p, note))
    for c in cases[:2] + cases[-2:]:
        ctx.sample(command=c.cmd[:300], expected=str(c.exp)[:300], note=c.note)
    ctx.extra["items_exchanged"] = len(items)
    ctx.extra["distinct_encodings"] = distinct
    ctx.extra["ordered_pairs_of_languages"] = len(langs) ** 2

    zig = zigify(cases)
    ctx.parallel(lambda n: ctx.replay(n, pool[n], zig if n == "zig" else cases), langs)
    ctx.assumptions = ["list and string lengths representable in the declared size type", "strings are valid UTF-8", "NaN payloads other than the quiet NaN are not compared"]
