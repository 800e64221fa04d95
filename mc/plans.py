"""Enumerations shared by the checks."""
from __future__ import annotations
import itertools
from .model import ModelError, SIZE_TYPES, RANGE, NUM, Protocol
from .universe import *
from .engine import Case

EE = b"\xee"


def core(same=True):
    return number([mk_kinds(), mk_structs(), mk_adjacent(), mk_nested(), mk_stream()] + ([mk_same()] if same else []))


def sized(quick, start=0):
    """quick: 7 protocols in which every list size type and every string size type occurs; thorough: all 49"""
    if quick:
        n = len(SIZE_TYPES)
        ps = [mk_sized(SIZE_TYPES[i], SIZE_TYPES[(i + 3) % n]) for i in range(n)]
    else:
        ps = [mk_sized(a, b) for a in SIZE_TYPES for b in SIZE_TYPES]
    return number(ps)


LENS = [0, 1, 2, 3, 126, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 70001]


def lens_for(size_type, quick):
    hi = RANGE[size_type][1]
    ls = [n for n in LENS if n <= hi]
    if quick:
        ls = [n for n in ls if n not in (2, 126, 1023, 4095, 32768) or n == hi]
    return ls


def text(n):
    """n bytes of valid UTF-8 whose multi-byte characters straddle power-of-two offsets"""
    s = b"\xe2\x82\xac"                       # 3 bytes: never aligned with 2^k
    return s * (n // 3) + b"abc"[:n % 3]


def length_values(p, quick):
    """(message, value) for every interesting list / string length the size types can hold"""
    for n in lens_for(p.string_size, quick):
        yield "Str", [text(n), 0x7A]
        if n > 300:
            yield "Strs", [[text(n), b"x"][:min(2, RANGE[p.list_size][1])], 0x7A]
        else:
            yield "Strs", [[text(n), b"x", text(n)][:min(3, RANGE[p.list_size][1])], 0x7A]
            yield "Mixes", [[[text(n), [1, 2]], [b"", []]], [text(n), [n % 256]], 0x7A]
            yield "Enums", [[512, -1], text(n)]
    for n in lens_for(p.list_size, quick):
        yield "Bools", [[(i * 7 % 5) & 1 for i in range(n)], [(i * 31 + 7) & 255 for i in range(n if n < 5000 else 3)]]
        if n < 5000:
            yield "Ints", [[(i * 977 % 65536) - 32768 for i in range(n)], 0x7A]
            yield "Tups", [[[i & 255, i * 3 % 30000 - 15000] for i in range(n)], 0x7A]
            yield "Enums", [[[256, -1, 512, -32768][i % 4] for i in range(n)], b"end"]
            yield "Strs", [[text(i % 4) for i in range(n)], 0x7A]
        if n <= 300:
            yield "Mixes", [[[text(i % 3), [i & 255] * (i % 3)] for i in range(n)], [b"m", [9] * n], 0x7A]


def values(p, k, **kw):
    for m in p.messages:
        for v in Values(p, **kw).enum(m.name, k):
            yield m.name, v


def E(p, name, v, tag=1, pre=3, post=2):
    e = p.encode(name, v)
    mi = p.tag_of(name) - 1
    t = bytes([mi + 1]) if tag else b""
    return Case(f"E {p.pid} {mi} {tag} {pre} {post} {p.tokens(name, v)}",
                f"ok {len(e)} {pre + tag + len(e)} x" + (EE * pre + t + e + EE * post).hex(), p, f"write {name} tag={tag} at {pre}")


def D(p, name, v, pre=b"zz", post=b"q", enc=None):
    e = p.encode(name, v) if enc is None else enc
    mi = p.tag_of(name) - 1
    return Case(f"D {p.pid} {mi} {len(pre)} x{(pre + e + post).hex()}", f"ok {len(pre) + len(e)} {mi} {p.tokens(name, v)}", p,
                f"read {name} at {len(pre)} with {len(post)} bytes behind")


def is_utf8(v):
    if isinstance(v, bytes):
        try:
            v.decode("utf-8")
            return True
        except UnicodeDecodeError:
            return False
    if isinstance(v, list):
        return all(is_utf8(x) for x in v)
    return True


def mtok(p, name, v):
    return f"{p.tag_of(name) - 1} {p.tokens(name, v)}"


def intoks(p, ms):
    """a message sequence as command input"""
    return " ".join([str(len(ms))] + [mtok(p, n, v)[:-2] for n, v in ms])


def listtok(p, ms):
    return " ".join([str(len(ms))] + [mtok(p, n, v) for n, v in ms])


def size_of(p, ms):
    return len(p.pack(ms))


# ----------------------------------------------------------- malformed input
def length_fields(p, name, v):
    """[(offset, size type, announced)] of every list / string length in the encoding"""
    out, pos = [], 0

    def typ(t, x):
        nonlocal pos
        k = p.kind(t)
        if k == "string":
            out.append((pos, p.string_size, len(x)))
            pos += _sz(p.string_size) + len(x)
        elif k == "struct":
            for m, y in zip(p.s[t].members, x):
                mem(m, y)
        else:
            pos += _sz(p.e[t].encoding if k == "enum" else t)

    def mem(m, x):
        nonlocal pos
        if m.is_list:
            out.append((pos, p.list_size, len(x)))
            pos += _sz(p.list_size)
            for y in x:
                typ(m.type, y)
        else:
            typ(m.type, x)
    for m, x in zip(p.m[name].members, v):
        mem(m, x)
    return out


def enum_fields(p, name, v):
    """[(offset, enum)] of every enum value in the encoding"""
    out, pos = [], 0

    def typ(t, x):
        nonlocal pos
        k = p.kind(t)
        if k == "string":
            pos += _sz(p.string_size) + len(x)
        elif k == "struct":
            for m, y in zip(p.s[t].members, x):
                mem(m, y)
        elif k == "enum":
            out.append((pos, p.e[t]))
            pos += _sz(p.e[t].encoding)
        else:
            pos += _sz(t)

    def mem(m, x):
        nonlocal pos
        if m.is_list:
            pos += _sz(p.list_size)
            for y in x:
                typ(m.type, y)
        else:
            typ(m.type, x)
    for m, x in zip(p.m[name].members, v):
        mem(m, x)
    return out


import struct as _st


def _sz(t):
    return _st.calcsize(NUM[t])


def put(buf, off, t, n):
    b = bytearray(buf)
    _st.pack_into(NUM[t], b, off, n)
    return bytes(b)


BIG = "err "       # an error, of a string announced with more than a megabyte


def model_D(p, name, buf, off=0):
    """expectation of reading one message at off; None when unspecified"""
    mi = p.tag_of(name) - 1
    try:
        v, pos = p.decode(name, buf, off)
    except ModelError as e:
        return None if e.kind == "neglen" else BIG if e.kind == "bigeof" else "err"
    return f"ok {pos} {mi} {p.tokens(name, v)}" if is_utf8(v) else None


def D_raw(p, name, buf, off=0, note="read"):
    e = model_D(p, name, buf, off)
    return e and Case(f"D {p.pid} {p.tag_of(name) - 1} {off} x{buf.hex()}", e.strip(), p, f"{note} ({name})", e is BIG)


def R_raw(p, buf, maxes=(-1,), off=0, note="process", pos=True):
    """pos=False: the language does not report a position"""
    out, at, big = [], off, False
    for mx in maxes:
        try:
            ms, at = p.process(buf, at, mx)
        except ModelError as e:
            if e.kind == "neglen":
                return None
            big = e.kind == "bigeof"
            out.append("err")
            break
        if not all(is_utf8(v) for _, v in ms):
            return None
        out.append(((f"{at} ") if pos else "") + listtok(p, ms) + " |")
    exp = "ok " + " ".join(out)
    if exp == "ok err":
        exp = ("ok err", "err")
    return Case(f"R {p.pid} {off} x{buf.hex()} {len(maxes)} " + " ".join(map(str, maxes)), exp, p, note, big)


def U_raw(p, buf, off=0, note="unpack"):
    try:
        ms, _ = p.unpack(buf, off)
    except ModelError as e:
        return None if e.kind == "neglen" else Case(f"U {p.pid} {off} x{buf.hex()}", "err", p, note, e.kind == "bigeof")
    if not all(is_utf8(v) for _, v in ms):
        return None
    return Case(f"U {p.pid} {off} x{buf.hex()}", "ok " + listtok(p, ms), p, note)
