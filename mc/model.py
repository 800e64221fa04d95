"""Reference model of the Beschi wire protocol.

Deliberately boring: nothing here imports beschi.  A protocol is plain data, a
value is plain Python data, and the codec is a direct transcription of
docs/protocols.md and README.md.

Values:  ints / bools -> int, float -> u32 bit pattern, double -> u64 bit
pattern, string -> bytes (UTF-8), enum -> its integer value, list -> list,
struct -> list of member values in declaration order.
"""
from __future__ import annotations
import struct as _st
from dataclasses import dataclass, field

NUM = {"byte": "<B", "bool": "<B", "uint16": "<H", "int16": "<h", "uint32": "<I",
       "int32": "<i", "uint64": "<Q", "int64": "<q", "float": "<I", "double": "<Q"}
RANGE = {"byte": (0, 255), "int16": (-2**15, 2**15 - 1), "uint16": (0, 2**16 - 1),
         "int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1),
         "int64": (-2**63, 2**63 - 1), "uint64": (0, 2**64 - 1)}
SIZE_TYPES = ["byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"]


class ModelError(Exception):
    """what a conforming reader must report: kind in {'eof','enum','tag','header','count'}"""
    def __init__(self, kind, pos):
        super().__init__(f"{kind}@{pos}")
        self.kind, self.pos = kind, pos


@dataclass
class Enum:
    name: str
    values: list            # [(name, int)]
    explicit: bool = True   # write table form

    @property
    def encoding(self):
        lo, hi = min(v for _, v in self.values), max(v for _, v in self.values)
        for t in ("byte", "int16", "int32"):
            if RANGE[t][0] <= lo and hi <= RANGE[t][1]:
                return t
        raise ValueError("unencodable enum")


@dataclass
class Member:
    name: str
    type: str
    is_list: bool = False

    @property
    def spec(self):
        return f"[{self.type}]" if self.is_list else self.type


@dataclass
class Struct:
    name: str
    members: list
    is_message: bool = False


@dataclass
class Protocol:
    ns: str
    enums: list = field(default_factory=list)
    structs: list = field(default_factory=list)
    messages: list = field(default_factory=list)
    list_size: str = "uint32"
    string_size: str = "uint32"
    explicit_meta: bool = True
    pid: int = 0

    def __post_init__(self):
        self.reindex()

    def reindex(self):
        self.e = {e.name: e for e in self.enums}
        self.s = {s.name: s for s in self.structs}
        self.m = {m.name: m for m in self.messages}
        for m in self.messages:
            m.is_message = True

    # ---------------------------------------------------------------- TOML
    def to_toml(self) -> str:
        o = ["[meta]"]
        if self.ns is not None:
            o.append(f'namespace = "{self.ns}"')
        if self.explicit_meta or self.list_size != "uint32":
            o.append(f'list_size_type = "{self.list_size}"')
        if self.explicit_meta or self.string_size != "uint32":
            o.append(f'string_size_type = "{self.string_size}"')
        for e in self.enums:
            o += ["", "[[enums]]", f'_name = "{e.name}"']
            if e.explicit:
                o.append("_values = [" + ", ".join(
                    '{ _name = "%s", _value = %d }' % (n, v) for n, v in e.values) + "]")
            else:
                assert [v for _, v in e.values] == list(range(len(e.values)))
                o.append("_values = [" + ", ".join(f'"{n}"' for n, _ in e.values) + "]")
        for kind, lst in (("structs", self.structs), ("messages", self.messages)):
            for s in lst:
                o += ["", f"[[{kind}]]", f'_name = "{s.name}"']
                o += [f'{m.name} = "{m.spec}"' for m in s.members]
        return "\n".join(o) + "\n"

    # ------------------------------------------------------------- helpers
    def kind(self, t):
        if t in NUM: return "num"
        if t == "string": return "string"
        if t in self.e: return "enum"
        return "struct"

    def is_simple_struct(self, name) -> bool:
        st = self.s.get(name) or self.m[name]
        return all(not m.is_list and m.type != "string" and
                   (m.type not in self.s or self.is_simple_struct(m.type)) for m in st.members)

    def default_of(self, t):
        k = self.kind(t)
        if k == "num": return 0
        if k == "string": return b""
        if k == "enum": return self.e[t].values[0][1]
        return [self.default_member(m) for m in self.s[t].members]

    def default_member(self, m):
        return [] if m.is_list else self.default_of(m.type)

    def default_message(self, name):
        return [self.default_member(m) for m in self.m[name].members]

    def reachable(self, name):
        """struct names used by a struct/message"""
        st = self.s.get(name) or self.m[name]
        out = set()
        for m in st.members:
            if m.type in self.s:
                out |= {m.type} | self.reachable(m.type)
        return out

    # --------------------------------------------------------------- codec
    def enc_type(self, t, v, out: bytearray):
        k = self.kind(t)
        if k == "num":
            out += _st.pack(NUM[t], v)
        elif k == "string":
            out += _st.pack(NUM[self.string_size], len(v))
            out += v
        elif k == "enum":
            out += _st.pack(NUM[self.e[t].encoding], v)
        else:
            for m, mv in zip(self.s[t].members, v, strict=True):
                self.enc_member(m, mv, out)

    def enc_member(self, m, v, out):
        if m.is_list:
            out += _st.pack(NUM[self.list_size], len(v))
            for x in v:
                self.enc_type(m.type, x, out)
        else:
            self.enc_type(m.type, v, out)

    def encode(self, name, v, tag=False) -> bytes:
        out = bytearray()
        if tag:
            out.append(self.tag_of(name))
        for m, mv in zip(self.m[name].members, v, strict=True):
            self.enc_member(m, mv, out)
        return bytes(out)

    def tag_of(self, name):
        return [m.name for m in self.messages].index(name) + 1

    def size(self, name, v) -> int:
        return len(self.encode(name, v))

    def min_size(self, t):
        k = self.kind(t)
        if k == "struct":
            return sum(_st.calcsize(NUM[self.list_size]) if m.is_list else self.min_size(m.type) for m in self.s[t].members)
        return 1

    def _need(self, buf, pos, n):
        if pos + n > len(buf):
            raise ModelError("eof", pos)

    def dec_num(self, t, buf, pos):
        n = _st.calcsize(NUM[t])
        self._need(buf, pos, n)
        return _st.unpack_from(NUM[t], buf, pos)[0], pos + n

    def dec_type(self, t, buf, pos):
        k = self.kind(t)
        if k == "num":
            v, pos = self.dec_num(t, buf, pos)
            if t == "bool":
                v = 1 if v else 0
            return v, pos
        if k == "string":
            n, pos = self.dec_num(self.string_size, buf, pos)
            if n < 0:
                raise ModelError("eof", pos)
            if 1 << 20 < n < 1 << 31 and pos + n > len(buf):
                raise ModelError("bigeof", pos)
            self._need(buf, pos, n)
            return bytes(buf[pos:pos + n]), pos + n
        if k == "enum":
            e = self.e[t]
            v, pos = self.dec_num(e.encoding, buf, pos)
            if v not in [x for _, x in e.values]:
                raise ModelError("enum", pos)
            return v, pos
        out = []
        for m in self.s[t].members:
            v, pos = self.dec_member(m, buf, pos)
            out.append(v)
        return out, pos

    def dec_member(self, m, buf, pos):
        if not m.is_list:
            return self.dec_type(m.type, buf, pos)
        n, pos = self.dec_num(self.list_size, buf, pos)
        if n < 0:
            raise ModelError("neglen", pos)
        if n > 100000 and self.min_size(m.type) == 0:
            raise ModelError("neglen", pos)      # unspecified
        out = []
        for _ in range(n):
            v, pos = self.dec_type(m.type, buf, pos)
            out.append(v)
        return out, pos

    def decode(self, name, buf, pos=0):
        out = []
        for m in self.m[name].members:
            v, pos = self.dec_member(m, buf, pos)
            out.append(v)
        return out, pos

    # --------------------------------------------------- streams and packs
    def process(self, buf, pos, mx):
        """ProcessRawBytes: returns ([(name, value)], newpos) or raises ModelError
        (with .partial = messages completely read before the error)"""
        got = []
        try:
            while pos < len(buf) and (mx < 0 or len(got) < mx):
                t = buf[pos]
                pos += 1
                if t == 0:
                    break
                if t > len(self.messages):
                    raise ModelError("tag", pos)
                name = self.messages[t - 1].name
                v, pos = self.decode(name, buf, pos)
                got.append((name, v))
        except ModelError as e:
            e.partial = got
            raise
        return got, pos

    def pack(self, msgs) -> bytes:
        out = bytearray(b"BSCI" + _st.pack("<I", len(msgs)))
        for name, v in msgs:
            out += self.encode(name, v, True)
        out.append(0)
        return bytes(out)

    def unpack(self, buf, pos=0):
        self._need(buf, pos, 4)
        if bytes(buf[pos:pos + 4]) != b"BSCI":
            raise ModelError("header", pos)
        n, pos = self.dec_num("uint32", buf, pos + 4)
        if n == 0:
            return [], None          # position after an empty pack is not specified
        got, pos = self.process(buf, pos, n)
        if len(got) != n:
            raise ModelError("count", pos)
        return got, None

    # -------------------------------------------------------------- tokens
    def tok_type(self, t, v, out):
        k = self.kind(t)
        if k == "string":
            out.append("s" + v.hex())
        elif k == "struct":
            for m, mv in zip(self.s[t].members, v, strict=True):
                self.tok_member(m, mv, out)
        else:
            out.append(str(v))

    def tok_member(self, m, v, out):
        if m.is_list:
            out.append(str(len(v)))
            for x in v:
                self.tok_type(m.type, x, out)
        else:
            self.tok_type(m.type, v, out)

    def tokens(self, name, v) -> str:
        """always ends in ';' so that an empty message still has a token"""
        out = []
        for m, mv in zip(self.m[name].members, v, strict=True):
            self.tok_member(m, mv, out)
        out.append(";")
        return " ".join(out)

    # boundaries of the encoding: offsets at which a member/element/length ends
    def boundaries(self, name, v):
        outs = [0]
        buf = bytearray()

        def typ(t, v):
            k = self.kind(t)
            if k == "string":
                buf.extend(_st.pack(NUM[self.string_size], len(v))); outs.append(len(buf))
                buf.extend(v); outs.append(len(buf))
            elif k == "struct":
                for m, mv in zip(self.s[t].members, v):
                    mem(m, mv)
            else:
                self.enc_type(t, v, buf); outs.append(len(buf))

        def mem(m, v):
            if m.is_list:
                buf.extend(_st.pack(NUM[self.list_size], len(v))); outs.append(len(buf))
                for x in v:
                    typ(m.type, x)
            else:
                typ(m.type, v)
        for m, mv in zip(self.m[name].members, v):
            mem(m, mv)
        return sorted(set(outs))
