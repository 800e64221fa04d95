"""C12: exactly the valid protocols are accepted; the check of a protocol always terminates."""
import itertools, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from ..langs.base import ENV, MC, REPO, InfraError
from ..model import RANGE, SIZE_TYPES, NUM

RESERVED = list(NUM) + ["string", "list"]
WS = " \t\n\r\v\f"


# ------------------------------------------------------------- specification
def cyclic(structs):
    """structs: {name: [member type names]}"""
    state = {}

    def visit(n):
        state[n] = 1
        for t in structs[n]:
            if t in structs and (state.get(t) == 1 or t not in state and visit(t)):
                return True
        state[n] = 2
        return False
    return any(n not in state and visit(n) for n in structs)


def bad_name(n, typename):
    if not isinstance(n, str) or not n or any(c in n for c in WS):
        return True
    return (n.lower() if typename else n) in RESERVED


def elem(t):
    return t[1:-1] if len(t) >= 2 and t[0] == "[" and t[-1] == "]" else t


def valid(p):
    """p: {'meta': {...}, 'structs': [(name, [(member, type)])], 'messages': ..., 'enums': [(name, entries)]}; the documented rules"""
    meta = p.get("meta", {})
    ns = meta.get("namespace", "x")
    if not isinstance(ns, str) or any(c in ns for c in WS):
        return False
    for k in ("list_size_type", "string_size_type"):
        if meta.get(k, "byte") not in SIZE_TYPES:
            return False
    types = [s[0] for k in ("structs", "messages", "enums") for s in p.get(k, [])]
    if any(bad_name(t, True) for t in types) or len(set(types)) != len(types):
        return False
    sn = {s[0] for s in p.get("structs", [])}
    mn = {s[0] for s in p.get("messages", [])}
    en = {s[0] for s in p.get("enums", [])}
    for name, members in p.get("structs", []) + p.get("messages", []):
        for m, t in members:
            if bad_name(m, False) or not isinstance(t, str):
                return False
            if elem(t) not in sn | en | set(NUM) | {"string"}:
                return False
        if len({m for m, _ in members}) != len(members):
            return False
    for name, entries in p.get("enums", []):
        if not isinstance(entries, list) or not entries:
            return False
        if all(isinstance(e, str) for e in entries):
            entries = [(e, i) for i, e in enumerate(entries)]
        elif not all(isinstance(e, tuple) for e in entries):
            return False
        for e in entries:
            if len(e) != 2 or not isinstance(e[0], str) or type(e[1]) is not int:
                return False
        ns_, vs = [e[0] for e in entries], [e[1] for e in entries]
        if len(set(ns_)) != len(ns_) or len(set(vs)) != len(vs):
            return False
        if any(not n or any(c in n for c in WS) or n in sn or n in mn for n in ns_):
            return False
        if min(vs) < RANGE["int32"][0] or max(vs) > RANGE["int32"][1]:
            return False
    if len(mn) > 255:
        return False
    return not cyclic({n: [elem(t) for _, t in ms] for n, ms in p.get("structs", [])})


# ---------------------------------------------------------------------- TOML
def tv(v):
    if isinstance(v, Raw):
        return v.text
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, tuple):
        return "{ " + ", ".join(f"{k} = {tv(x)}" for k, x in zip(("_name", "_value"), v) if x is not None) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(tv(x) for x in v) + "]"
    return str(v)


class Raw:
    """a value written as it stands; no valid name or type"""
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return f"<{self.text}>"


def toml(p):
    o = []
    if "meta" in p:
        o.append("[meta]")
        o += [f"{k} = {tv(v)}" for k, v in p["meta"].items()]
    for k in ("enums", "structs", "messages"):
        for name, body in p.get(k, []):
            o.append(f"[[{k}]]")
            if name is not None:
                o.append(f"_name = {tv(name)}")
            if k == "enums":
                if body is not None:
                    o.append(f"_values = {tv(body)}")
            else:
                o += [f"{json.dumps(m)} = {tv(t)}" for m, t in body]
    return "\n".join(o) + "\n"


# --------------------------------------------------------------- enumeration
def base():
    return {"meta": {"namespace": "Ns", "list_size_type": "uint16", "string_size_type": "byte"},
            "enums": [("Color", ["Red", "Green"]), ("Level", [("Low", -1), ("High", 300)])],
            "structs": [("Pt", [("x", "int16"), ("c", "Color")]), ("Line", [("a", "Pt"), ("bs", "[Pt]"), ("s", "string")]), ("Nil", [])],
            "messages": [("MsgA", [("v", "byte"), ("l", "[Line]"), ("q", "Level")]), ("MsgB", [("t", "[string]"), ("p", "Pt")])]}


BAD_NAMES = ["", " ", "a b", " a", "a ", "\t", "a\tb", "a\nb", "a\rb", "a\x0bb", "a\x0cb", "a\n"] + RESERVED + [r.upper() for r in RESERVED] + \
            [r.capitalize() for r in RESERVED] + [5, True, 1.5, ["a"], Raw("{}"), Raw("1979-05-27")]
OK_NAMES = ["a", "Z", "lists", "strin", "bytes", "myByte", "b_", "x1", "Color2", "color", "pt", "RED", "msga", "uint", "uint17", "int", "Mt"]
BAD_TYPES = ["", "[]", "nope", "[nope]", "[[byte]]", "[[Pt]]", "list", "[list]", "Byte", "BOOL", "String", "[Byte]", " byte", "byte ", "[ byte ]", "MsgA", "MsgB", "[MsgA]",
             "[MsgB]", "[byte", "byte]", "[[byte]", "[byte]]", "Red", "Low", "Color.Red", "pt", "uint8", "int8", "char", "float32", "_name", "Ns", "x",
             5, True, 1.5, Raw("{}"), Raw('{ a = "byte" }'), Raw("[]"), Raw('["byte"]'), Raw('["[", "byte", "]"]'), Raw("[1]")]
OK_TYPES = [f % t for t in list(NUM) + ["string", "Color", "Level"] for f in ("%s", "[%s]")]
# everything that may come before and after the name of a type, except for what makes a valid type
_PRE, _SUF = ["", "[", "[[", "]", "x", "(", "<", "{", "[ ", "*"], ["", "]", "]]", "[", "x", ")", ">", "}", " ]", "[]", "?"]
BAD_TYPES += [t for t in dict.fromkeys(a + b + c for a in _PRE for b in ("byte", "string", "Pt", "Color") for c in _SUF) if t not in BAD_TYPES and
              (t.startswith(("[", "x", "]", "(", "<", "{", "*")) or not t[-1].isalpha()) and t not in [x + b + y for b in ("byte", "string", "Pt", "Color") for x, y in (("", ""), ("[", "]"))]]
BAD_VALUES = [[], Raw('""'), Raw('"Red"'), 5, True, Raw("{}"), ["A", "A"], ["A", 1], ["A", ("B", 1)], [("A", 1), "B"], [("A", 1), ("A", 2)], [("A", 1), ("B", 1)],
              [("A", None)], [(None, 1)], [("A", 1), ("B", None)], [("A", True)], [("A", 1.0)], [("A", "1")], [(5, 1)], [1, 2], [["A"]], ["A", "B", "C", "A"],
              [("A", 5), ("B", 6), ("C", 5)], ["A b"], [" "], [""], [("", 1)], [("a\tb", 1)], ["Pt"], ["A", "MsgA"], [("Line", 4)], [("A", 1), ("MsgB", 2)], Raw("[true, false]")]
RANGES = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, -1, -128, -129, -32768, -32769, -2**31, -2**31 - 1, -2**32, -2**63]


def edits():
    """(description, function applied to a base protocol), every one a single change"""
    def setname(k, i):
        def f(p, n):
            p[k][i] = (n, p[k][i][1])
        return f
    out = []
    b = base()
    for k in ("enums", "structs", "messages"):
        for i in range(len(b[k])):
            for n in [None] + BAD_NAMES + OK_NAMES:
                out.append((f"{k}[{i}] named {n!r}", lambda p, k=k, i=i, n=n: setname(k, i)(p, n)))
    for k in ("structs", "messages"):
        for i, (_, ms) in enumerate(b[k]):
            for j in range(len(ms) + 1):
                for n in [x for x in BAD_NAMES if isinstance(x, str)] + OK_NAMES + ["Pt", "Color", "MsgA", "Red", "Ns", "MsgB"]:
                    for t in ("byte", "[string]"):
                        out.append((f"member {n!r} at {k}[{i}][{j}]", lambda p, k=k, i=i, j=j, n=n, t=t: p[k][i][1].insert(j, (n, t))))
                for t in BAD_TYPES + OK_TYPES + (["Nil", "[Nil]"] if (k, i) != ("structs", 2) else ["Line", "[Line]", "Pt", "[Pt]"]):
                    out.append((f"member of type {t!r} at {k}[{i}][{j}]", lambda p, k=k, i=i, j=j, t=t: p[k][i][1].insert(j, ("extra", t))))
                if j < len(ms):
                    out.append((f"member twice at {k}[{i}][{j}]", lambda p, k=k, i=i, j=j: p[k][i][1].append((p[k][i][1][j][0], "byte"))))
    for i in range(2):
        for v in [None] + BAD_VALUES:
            out.append((f"enum {i} values {v!r}", lambda p, i=i, v=v: p["enums"].__setitem__(i, (p["enums"][i][0], v))))
        for a, c in itertools.product(RANGES, repeat=2):
            if a != c:
                out.append((f"enum {i} range {a},{c}", lambda p, i=i, a=a, c=c: p["enums"].__setitem__(i, (p["enums"][i][0], [("A", a), ("B", c)]))))
        for a in RANGES:
            out.append((f"enum {i} single {a}", lambda p, i=i, a=a: p["enums"].__setitem__(i, (p["enums"][i][0], [("A", a)]))))
    for k in ("list_size_type", "string_size_type"):
        for t in SIZE_TYPES + ["bool", "float", "double", "string", "list", "", "uint8", "int8", "Byte", "UINT16", "Color", "Pt", " byte", "byte ", "[byte]", 4, True, Raw("[]"), Raw('["byte"]'), Raw("{}")]:
            out.append((f"{k} {t!r}", lambda p, k=k, t=t: p["meta"].__setitem__(k, t)))
    for n in ["a b", " ", "a\tb", "a\nb", "\x0b", "x\x0c", "b\r", "Ok", "ok_2", 5, True, Raw("{}"), Raw("[]"), Raw("[\"ab\"]")]:
        out.append((f"namespace {n!r}", lambda p, n=n: p["meta"].__setitem__("namespace", n)))
    for k in ("enums", "structs", "messages"):
        out.append((f"no {k}", lambda p, k=k: p.pop(k)))
    out.append(("no meta", lambda p: p.pop("meta")))
    # one more declaration of every kind with the name of every existing one, in front and behind
    names = ["Color", "Level", "Pt", "Line", "Nil", "MsgA", "MsgB", "Red", "Low", "Ns", "x", "Fresh"]
    for n in names:
        for k in ("enums", "structs", "messages"):
            for at in (0, 99):
                body = ["E1", "E2"] if k == "enums" else [("m", "byte")]
                out.append((f"another {k} {n} at {at}", lambda p, k=k, n=n, at=at, body=body: p[k].insert(at, (n, body))))
        for i, at in ((0, 0), (0, 99), (1, 0), (1, 99)):
            out.append((f"enum {i} entry {n} at {at}", lambda p, i=i, n=n, at=at: p["enums"][i][1].insert(at, n if i == 0 else (n, 77))))
    return out


def unspecified(p):
    """enum entries called like an enum: no rule says anything about that"""
    en = {e[0] for e in p.get("enums", []) if isinstance(e[0], str)}
    for _, vs in p.get("enums", []):
        if isinstance(vs, list):
            for e in vs:
                if (e[0] if isinstance(e, tuple) else e) in en if isinstance(e, (str, tuple)) and not isinstance(e[0] if isinstance(e, tuple) else e, (list, dict)) else False:
                    return True
    return False


def graph(n, edge, kinds="TL", names=None, msg=None):
    """structs S0..; edge(i, j) -> '' | 'T' plain | 'L' list | 'R' reversed member order"""
    names = names or [f"S{i}" for i in range(n)]
    st = []
    for i in range(n):
        ms = [("k", "byte")]
        for j in range(n):
            e = edge(i, j)
            if e:
                ms.append((f"m{j}", f"[{names[j]}]" if e == "L" else names[j]))
        st.append((names[i], ms))
    p = {"structs": st, "messages": [("M", [("v", names[j]) for j in range(n) if msg and msg[j]][:1] + [(f"w{j}", f"[{names[j]}]") for j in range(n) if msg and msg[j]])]}
    return p


def graphs(quick):
    for n in (1, 2, 3):
        for es in itertools.product(("", "T", "L"), repeat=n * n):
            yield f"{n} structs, edges {''.join(e or '-' for e in es)}", graph(n, lambda i, j: es[i * n + j], msg=[1] * n)
    n = 4
    for bits in range(1 << 16):
        if quick and any(bits >> (i * 4 + i) & 1 for i in range(4)):
            continue
        yield f"4 structs, edges {bits:016b}", graph(n, lambda i, j: "T" if bits >> (i * 4 + j) & 1 and (i + j) & 1 else "L" if bits >> (i * 4 + j) & 1 else "")
    # reversed member order, all acyclic and cyclic graphs on 3 structs
    for bits in range(1 << 9):
        p = graph(3, lambda i, j: "T" if bits >> (i * 3 + j) & 1 else "")
        p["structs"] = [(a, ms[::-1]) for a, ms in p["structs"]]
        yield f"3 structs reversed {bits:09b}", p
    # one cycle of length c in a set of n, entered by a tail, in every order of declaration
    for n in (5,) if quick else (5, 6):
        for c in range(2, n + 1):
            for perm in itertools.permutations(range(n)):
                names = [f"S{k}" for k in perm]
                nxt = {i: (i + 1 if i + 1 < n else n - c) for i in range(n)}
                p = graph(n, lambda i, j: "T" if nxt[i] == j else "", names=[f"S{i}" for i in range(n)])
                yield f"tail {n - c} cycle {c} order {perm}", {**p, "structs": [p["structs"][k] for k in perm]}
                p = graph(n, lambda i, j: "T" if nxt[i] == j and i != n - 1 else "", names=[f"S{i}" for i in range(n)])
                yield f"chain {n} order {perm}", {**p, "structs": [p["structs"][k] for k in perm]}
    for n in (10, 50, 200, 1500):
        for close in (None, 0, n // 2, n - 1):
            p = graph(n, lambda i, j: "T" if j == i + 1 or (i == n - 1 and close == j) else "") if n <= 200 else \
                {"structs": [(f"S{i}", [("m", f"S{i + 1}")] if i < n - 1 else [("m", f"S{close}" if close is not None else "byte")]) for i in range(n)]}
            yield f"chain of {n} closed at {close}", p
    for n in (10, 40, 200):                   # a ladder: 2^n paths
        for close in (False, True):
            p = {"structs": [(f"S{i}", ([("a", f"S{i + 1}"), ("b", f"[S{i + 1}]")] if i < n - 1 else [("a", "S0" if close else "byte")])) for i in range(n)],
                 "messages": [("M", [("v", "S0")])]}
            yield f"ladder of {n} closed {close}", p
            yield f"ladder of {n} closed {close}, reversed", {**p, "structs": p["structs"][::-1]}


def counts():
    for n in (0, 1, 2, 127, 128, 254, 255, 256, 257, 300, 1000):
        for members in (0, 1):
            yield f"{n} messages", {"messages": [(f"M{i}", [("v", "byte")] * members) for i in range(n)]}, n <= 300
        yield f"{n} structs, 2 messages", {"structs": [(f"S{i}", [("v", "byte")]) for i in range(n)], "messages": [("A", []), ("B", [])]}, False
        yield f"{n} enums, 254 messages", {"enums": [(f"E{i}", ["A"]) for i in range(n)], "messages": [(f"M{i}", []) for i in range(254)]}, False


RAW = ["x", "[[structs]", "[[messages]]\n_name = \"A\"\nv = byte\n", "[meta]\n[meta]\n", "\udcff\udcfe", "[[messages]]\n_name = \"A\udcff\"\n", "[[structs]]\n_name = 'A'\n_name = 'B'\n",
       "structs = 5\n", "messages = true\n", "enums = 1.5\n", "structs = \"abc\"\n", "enums = [5]\n", "structs = [\"A\"]\n", "messages = [[]]\n", "meta = 5\n", "meta = []\n[[x]]\n y = ]\n",
       "[structs]\n_name = \"A\"\n", "[structs]\nfoo = \"byte\"\n", "[messages]\n_name = \"A\"\nv = \"byte\"\n", "[enums]\n_name = \"A\"\n_values = [\"B\"]\n", "[[messages]]\nv = \"byte\"\n",
       "[[messages]]\n_name = \"A\n\"\n", "\0", "[[messages]]\n_name = \"A\"\n\"x", "a = \n"]


def accept(jobs, workers=8):
    """jobs: [(mode, text, argv)] -> results in order"""
    n = min(workers, max(1, len(jobs) // 50))
    chunks = [jobs[i::n] for i in range(n)]

    def run(ch):
        p = subprocess.run([sys.executable, "-B", str(MC / "accept.py")], input="\n".join(json.dumps(j) for j in ch) + "\n", env={**ENV, "MC_REPO": REPO},
                           capture_output=True, text=True, timeout=850)
        out = [json.loads(l) for l in p.stdout.splitlines()]
        if len(out) != len(ch):
            return out + [["crash", p.returncode, p.stderr[-800:]]] * (len(ch) - len(out))
        return out
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(run, chunks))
    out = [None] * len(jobs)
    for i, r in enumerate(rs):
        out[i::n] = r
    return out


LANGS = ["c", "csharp", "go", "rust", "typescript", "zig", "swift", "assemblyscript"]


def check(ctx):
    jobs = []                                        # (description, mode, text, argv, valid)

    def add(what, p, cli=None, text=None):
        v = valid(p) if text is None else False
        t = toml(p) if text is None else text
        ctx.state(t)
        ctx.step()
        jobs.append((what, "p", t, [], v))
        if cli is not None:
            jobs.append((what, "g", t, ["--lang", cli], v))
    es = edits()
    turn = itertools.count()
    for what, f in es:
        p = base()
        f(p)
        if not unspecified(p):
            add(what, p, LANGS[next(turn) % 8])
    # two changes at once: names and types spread over the positions
    step = 29 if ctx.quick else 7
    sub = es[::step]
    for (w1, f1), (w2, f2) in itertools.combinations(sub, 2):
        p = base()
        try:
            f1(p)
            f2(p)
        except (KeyError, IndexError, AttributeError, TypeError):
            continue
        try:
            if not unspecified(p):
                add(f"{w1}; {w2}", p)
        except (TypeError, AttributeError):
            continue
    for i, (what, p) in enumerate(graphs(ctx.quick)):
        add(what, p, LANGS[i % 8] if i % 97 == 0 and "ladder" not in what and "1500" not in what else None)
    for i, (what, p, gen) in enumerate(counts()):
        add(what, p, LANGS[i % 8] if gen else None)
    for t in RAW:
        add(f"text {t!r}", {}, "c", text=t)
    nv = sum(j[4] for j in jobs)
    ctx.extra.update(protocols_valid=nv, protocols_invalid=len(jobs) - nv)
    for j in jobs[:1] + jobs[9000:9001] + jobs[-2:]:
        ctx.sample(what=j[0], protocol=j[2][:400], model="accepted" if j[4] else "refused")
    ctx.assumptions = ["enum entries called like an enum, empty namespaces, keys starting with an underscore and unknown tables are not covered by any documented rule and left out",
                       "type names are reserved regardless of case, member names exactly"]
    res = accept([(j[1], j[2], j[3]) for j in jobs])
    for (what, mode, text, argv, v), r in zip(jobs, res, strict=True):
        if mode == "p":
            good = r == ["ok"] if v else r[0] == "refused" and r[2] > 0
        elif v:
            good = r[0] == "exit" and r[1] == 0 and r[2] > 0
        else:
            good = r[0] == "exit" and r[1] != 0 and r[2] == 0 and r[3] > 0
        if not good:
            ctx.violation(f"{mode}|{what}", lang=mode, what=what, expected="accepted" if v else "refused with a diagnostic, no code", got=json.dumps(r), protocol=text[:5000],
                          cmd=" ".join(argv))
    ctx.traces += len(jobs)
    ctx.per_lang["protocol checks"] = sum(1 for j in jobs if j[1] == "p")
    ctx.per_lang["command runs"] = sum(1 for j in jobs if j[1] == "g")
