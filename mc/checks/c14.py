"""C14: the generated text depends on the protocol and the options alone."""
import itertools, json, os, shutil, subprocess, sys
from ..langs.base import ENV, MC, REPO, InfraError
from ..universe import *
from . import c12
from .c13 import launch

LANGS = c12.LANGS
OPTS = {"go": [["--go-no-rename"]], "rust": [["--rust-no-rename"]], "typescript": [["--typescript-use-namespace"]]}


def ask(mode, protocols, jobs):
    p = subprocess.run([sys.executable, "-B", str(MC / "purity.py")], input=json.dumps({"mode": mode, "protocols": protocols, "jobs": jobs}),
                       env={**ENV, "MC_REPO": REPO}, capture_output=True, text=True, timeout=850)
    try:
        return json.loads(p.stdout)
    except ValueError:
        raise InfraError(f"purity.py: {p.returncode} {p.stderr[-2000:]}")


def check(ctx):
    S, M = Struct, Member
    small = Protocol("SmallNs", [ENUMS[0], ENUMS[2]], [S("Pt", [M("x", "byte"), M("myName", "string")]), S("Line", [M("a", "Pt"), M("bs", "Pt", True)])],
                     [S("MsgA", [M("l", "Line", True), M("e", "EnC")]), S("MsgB", [M("someList", "string", True)])], list_size="uint16", string_size="byte")
    other = Protocol("OtherNs", [ENUMS[4], Enum("EnA", [("Alpha", 7), ("Zed", -3)])], [S("Pt", [M("z", "double"), M("e", "EnA", True)]), S("Extra", [M("p", "Pt", True)])],
                     [S("MsgB", [M("x", "Pt"), M("y", "Extra")]), S("MsgZ", [M("v", "EnE", True)]), S("MsgA", [])], list_size="int64", string_size="int16")
    bare = Protocol(None, [], [], [S("Only", [M("v", "byte")])], explicit_meta=False)
    texts = [small.to_toml(), other.to_toml(), bare.to_toml(), mk_nested().to_toml(), mk_same().to_toml(), "# nothing\n"]
    variants = []
    for l in LANGS:
        for extra in [[]] + OPTS.get(l, []) + [["--embed-protocol"], ["--namespace", "Over"], ["--indent", "\t"]]:
            variants.append(["--lang", l] + extra)
    items = [(p, a) for p in range(len(texts)) for a in variants]

    # every item in a process of its own
    ref = {}

    def fresh(it):
        r = ask("seq", texts, [[it]])
        ref[json.dumps(it)] = r[0][0] if r[0] != "protocol file changed" else r[1][0]
    ctx.parallel(fresh, items, 10)
    ctx.extra["distinct_outputs"] = len(set(ref.values()))

    def compare(it, out, what, **kw):
        if out != ref[json.dumps(it)]:
            ctx.violation(f"{what}|{it[0]}|{it[1]}", lang=it[1][1], what=f"different output {what}", cmd=" ".join(it[1]), protocol=texts[it[0]], **kw)

    # all ordered pairs (triples) of items in one process
    plain = [(p, ["--lang", l]) for p in (0, 1, 2, 3) for l in LANGS]
    opt = [(p, a) for p in (0, 1) for a in variants]
    seqs = list(itertools.product(plain, repeat=2)) + list(itertools.product(opt, repeat=2))
    if not ctx.quick:
        seqs = list(itertools.product(items, repeat=2)) + list(itertools.product(plain[:16], repeat=3))
    # consecutive pairs share a run: an Eulerian order visits each ordered pair once; independent runs of 40 pairs each
    chunks = [seqs[i::64] for i in range(64)]

    def pairs(ch):
        ans = ask("seq", texts, [list(s) for s in ch])
        if ans and ans[0] == "protocol file changed":
            ctx.violation("file", lang="", what="the protocol file was changed by generating from it")
            ans = ans[1:]
        for s, outs in zip(ch, ans):
            ctx.state(repr(s))
            ctx.step(len(s))
            for it, o in zip(s, outs):
                compare(it, o, f"after other runs in the same process ({s[0]})")
    ctx.parallel(pairs, chunks, 8)
    ctx.traces += len(seqs)
    ctx.per_lang["sequences"] = len(seqs)

    # one run preempted by another at every call site of the package
    nests = []
    for i, l in enumerate(LANGS):
        for m in (LANGS if not ctx.quick else [l, LANGS[(i + 1) % 8], LANGS[(i + 3) % 8]]):
            nests.append([[0, ["--lang", l]], [1, ["--lang", m]]])
            if not ctx.quick or l == m:
                nests.append([[3, ["--lang", l, "--embed-protocol"]], [0, ["--lang", m, "--indent", "\t"]]])
                nests.append([[1, ["--lang", l]], [2, ["--lang", m, "--namespace", "Over"]]])

    def nest(j):
        k, bad, ra, rb = ask("nest", texts, [j])[0]
        ctx.step(k)
        ctx.state(repr(j))
        ctx.extra["preemption_points"] = ctx.extra.get("preemption_points", 0) + k
        compare_nest = [(j[0], ra), (j[1], rb)]
        for it, o in compare_nest:
            if json.dumps(it) in ref or json.dumps(tuple(it)) in ref:
                compare(it, o, "under a preempting scheduler (run alone)")
        if bad:
            ctx.violation(f"nest|{j}", lang=j[0][1][1], what=f"different output when {j[1][1]} runs in the middle (at call {bad[0]})", cmd=json.dumps(j), protocol=texts[j[0][0]])
        ctx.traces += k
    ctx.parallel(nest, nests, 8)
    ctx.per_lang["preempted runs"] = ctx.extra.get("preemption_points", 0)

    # one protocol object, several writers
    shares = [[p, list(ls)] for p in range(len(texts)) for n in (1, 2, 3) for ls in (itertools.product(LANGS, repeat=n) if n < 3 or not ctx.quick else [(a, b, a) for a in LANGS for b in LANGS])]

    def share(ch):
        for (p, ls), r in zip(ch, ask("share", texts, ch)):
            ctx.state("share", p, *ls)
            ctx.step(len(ls))
            outs, changed = r
            if changed:
                ctx.violation(f"share|{p}|{ls}", lang=changed, what="generating changed the protocol object", cmd=str(ls), protocol=texts[p])
            for l, o in zip(ls, outs):
                compare((p, ["--lang", l]), o, f"from a protocol object used before ({ls})")
    ctx.parallel(share, [shares[i::8] for i in range(8)], 8)
    ctx.traces += len(shares)
    ctx.per_lang["shared protocol objects"] = len(shares)

    # another process, hash seed, directory, name of the protocol file, locale
    d = ctx.wd("env")
    runs = []
    for i in range(8 if ctx.quick else 48):
        runs.append(({"PYTHONHASHSEED": str(i * 7919 + 1)}, None))
    runs += [({"LC_ALL": "C"}, None), ({"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, None), ({"TZ": "Asia/Tokyo", "HOME": "/nonexistent", "USER": "x"}, None),
             ({"COLUMNS": "20"}, None), ({"PYTHONOPTIMIZE": "1"}, None), ({}, "deep/down/in"), ({}, "with space"), ({"NO_COLOR": "1", "SOURCE_DATE_EPOCH": "1"}, "äö")]
    todo = [(i, env, sub, p, l) for i, (env, sub) in enumerate(runs) for p in ((0, 1, 3) if ctx.quick else range(len(texts))) for l in LANGS]

    def envrun(j):
        import hashlib
        i, env, sub, p, l = j
        w = d / f"e{i}_{p}_{l}" / (sub or ".")
        w.mkdir(parents=True)
        pf = (w / "oddly named.file" if sub else w / f"proto{i}.toml")
        pf.write_text(texts[p])
        os.utime(pf, (i * 10000, i * 100000))
        os.chmod(pf, 0o444)
        arg = str(pf) if i % 2 else pf.name
        r = launch(["--lang", l, "--protocol", arg, "--output", "o.x"], str(w), env=env)
        out = (w / "o.x").read_text() if (w / "o.x").exists() else ""
        got = hashlib.sha256(f"{r.code if r.code else 0}\n{out}\n".encode()).hexdigest()[:24]
        ctx.state("env", i, p, l)
        ctx.step()
        compare((p, ["--lang", l]), got, f"in another process with {env} in directory {sub}", got=r.err[-300:].decode("utf-8", "replace"))
        if pf.read_text() != texts[p]:
            ctx.violation(f"file|{l}", lang=l, what="the protocol file was changed")
        shutil.rmtree(d / f"e{i}_{p}_{l}")
    ctx.parallel(envrun, todo, 10)
    ctx.traces += len(todo)
    ctx.per_lang["processes"] = len(todo)
    ctx.sample(sequence=str(seqs[100]), model="both outputs as in a process of their own")
    ctx.sample(nested=json.dumps(nests[0]), model="both outputs as in a process of their own")
    ctx.assumptions = ["a preempting run executes completely (one preemption); preemption points are the first and last visit of every call site inside the package"]
