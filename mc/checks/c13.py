"""C13: a run that cannot generate code fails visibly and touches nothing; a run that succeeds leaves the complete output."""
import itertools, os, resource, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
from ..langs.base import ENV, REPO
from ..universe import mk_kinds, mk_nested
from . import c12

LANGS = c12.LANGS
OLD = b"// precious old content \xff\n" * 40
STEM = {"c": "h", "csharp": "cs", "go": "go", "rust": "rs", "typescript": "ts", "zig": "zig", "swift": "swift", "assemblyscript": "ts"}


class Run:
    __slots__ = ("code", "out", "err")


def launch(argv, cwd, fsize=None, stdout=None, env=None, close=False):
    def pre():
        os.umask(0o022)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    p = subprocess.run([sys.executable, "-B", "-m", "beschi", *argv], cwd=cwd, env={**ENV, "PYTHONPATH": REPO, **(env or {})}, preexec_fn=pre,
                       stdin=subprocess.DEVNULL, stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    r = Run()
    r.code, r.out, r.err = p.returncode, p.stdout or b"", p.stderr
    return r


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in dirs + files:
            p = os.path.join(root, f)
            k = os.path.relpath(p, d)
            out[k] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",) if os.path.isdir(p) else ("file", open(p, "rb").read())
    return out


# destinations: name -> (preparation, usable?, file that receives the output)
def d_none(d): pass
def d_old(d): open(d + "/out.x", "wb").write(OLD)
def d_empty(d): open(d + "/out.x", "wb").close()
def d_dir(d): os.mkdir(d + "/out.x")
def d_link(d):
    open(d + "/target.x", "wb").write(OLD)
    os.symlink("target.x", d + "/out.x")
def d_dangling(d): os.symlink("missing/dir/file.x", d + "/out.x")
def d_loop(d): os.symlink("out.x", d + "/out.x")
def d_file_parent(d): open(d + "/sub", "wb").write(OLD)


DESTS = [("new file", "out.x", d_none, True, "out.x"), ("existing file", "out.x", d_old, True, "out.x"), ("empty file", "out.x", d_empty, True, "out.x"),
         ("link to a file", "out.x", d_link, True, "target.x"), ("standard output", None, d_none, True, None),
         ("directory", "out.x", d_dir, False, None), ("missing parent", "sub/out.x", d_none, False, None), ("file as parent", "sub/out.x", d_file_parent, False, None),
         ("dangling link", "out.x", d_dangling, False, None), ("link to itself", "out.x", d_loop, False, None), ("empty name", "", d_none, False, None),
         ("device that is full", "/dev/full", d_none, False, None), ("trailing slash", "new/", d_none, False, None), ("name too long", "n" * 300, d_none, False, None)]

GOOD = {"kinds": mk_kinds().to_toml(), "nested": mk_nested().to_toml(), "empty": "", "one": '[[messages]]\n_name = "Msg"\nv = "[string]"\n',
        "unicode": '# ünïcödé ☃\n[meta]\nnamespace = "Uni"\n[[messages]]\n_name = "Msg"\nv = "byte"\n'}


def bad_protocols(quick):
    yield from ((f"text {t!r}", t) for t in c12.RAW)
    es = c12.edits()
    seen = {}
    for what, f in es:
        p = c12.base()
        f(p)
        try:
            if c12.unspecified(p) or c12.valid(p):
                continue
        except Exception:
            continue
        # one representative per rule and kind of declaration in the quick tier
        key = what.split(" ")[0][:6] + what.split("'")[-2][:3] if "'" in what else what[:9]
        seen.setdefault(key, []).append((what, c12.toml(p)))
    for k, v in seen.items():
        yield from v[:1] if quick else v[:6]
    for n in (1, 2, 3):
        yield f"cycle of {n}", c12.toml({"structs": [(f"S{i}", [("m", f"S{(i + 1) % n}")]) for i in range(n)]})
    yield "256 messages", c12.toml({"messages": [(f"M{i}", []) for i in range(256)]})


def check(ctx):
    jobs = []                     # (what, lang, dest, argv, files, good?)
    goodkeys = list(GOOD)
    for i, (lang, dest) in enumerate(itertools.product(LANGS, DESTS)):
        for g in goodkeys if dest[3] or not ctx.quick else [goodkeys[i % 5]]:
            for extra in ([], ["--embed-protocol"]) if dest[3] else ([],):
                jobs.append((f"protocol '{g}' {extra}", lang, dest, ["--lang", lang, "--protocol", "p.toml", *extra], GOOD[g].encode(), dest[3]))
    usable = [d for d in DESTS if d[3]][:5]
    bads = list(bad_protocols(ctx.quick))
    for i, (what, text) in enumerate(bads):
        for j, lang in enumerate(LANGS):
            if ctx.quick and (i + j) % 4:
                continue
            for k, dest in enumerate(usable):
                if ctx.quick and k not in (0, 1, 4) or (ctx.quick and k != (i + j // 4) % 3 + (2 if (i + j // 4) % 3 == 2 else 0)):
                    continue
                jobs.append((what, lang, dest, ["--lang", lang, "--protocol", "p.toml"], text.encode("utf-8", "surrogateescape"), False))
    one = GOOD["one"].encode()
    args = []
    for lang in LANGS:
        b = ["--lang", lang, "--protocol", "p.toml"]
        for ns in ("a b", " ", "\t", "x\n", "a\u00a0b", "\u2003", "a\u3000b"):
            args.append((f"namespace {ns!r}", lang, b + ["--namespace", ns]))
        args.append(("namespace that is no text", lang, [x.encode() for x in b] + [b"--namespace", b"N\xffs"]))
        args.append(("indentation that is no text", lang, [x.encode() for x in b] + [b"--indent", b"\xff"]))
        args.append(("unknown option", lang, b + ["--no-such-option"]))
        args.append(("stray argument", lang, b + ["stray"]))
        args.append(("option without its value", lang, b + ["--indent"]))
        args.append(("missing protocol file", lang, ["--lang", lang, "--protocol", "nope.toml"]))
        args.append(("protocol is a directory", lang, ["--lang", lang, "--protocol", "."]))
        args.append(("empty protocol name", lang, ["--lang", lang, "--protocol", ""]))
        args.append(("no protocol", lang, ["--lang", lang]))
    for l in ("", " ", "C ", "cpp", "C++", "Java", "all", "base", "Writer", "c,go", "boilerplate", "__init__", "writers.c"):
        args.append((f"language {l!r}", "c", ["--lang", l, "--protocol", "p.toml"]))
    args.append(("no language", "c", ["--protocol", "p.toml"]))
    args.append(("nothing", "c", []))
    for what, lang, argv in args:
        for dest in usable if not ctx.quick else [usable[0], usable[1], usable[4]]:
            if dest[1] is None and "no text" in what:
                continue                            # whether that can be printed depends on the terminal
            jobs.append((what, lang, dest, argv, one, None if "no text" in what else False))
    ref, lock = {}, threading.Lock()
    ctr = itertools.count()

    def judge(job):
        what, lang, dest, argv, text, good = job
        d = str(ctx.wd(f"r{next(ctr)}"))
        try:
            open(d + "/p.toml", "wb").write(text)
            dest[2](d)
            before = snapshot(d)
            a = list(argv)
            if dest[1] is not None:
                a += ([b"--output", dest[1].encode()] if a and isinstance(a[0], bytes) else ["--output", dest[1]])
            r = launch(a, d)
            after = snapshot(d)
            bad = None
            if good is None:              # whether it can be done is up to the language, but not by halves
                good = r.code == 0
            if good:
                if r.code != 0:
                    bad = f"exit status {r.code}"
                else:
                    got = after.pop(dest[4], ("nothing",)) if dest[4] else ("file", r.out)
                    if dest[4]:
                        before.pop(dest[4], None)
                        if r.out:
                            bad = "wrote to standard output as well"
                    elif got[1].endswith(b"\n"):
                        got = ("file", got[1][:-1])
                    with lock:
                        want = ref.setdefault((lang, text, str(argv)), got)
                    if got != want:
                        bad = f"output differs from the one to another destination ({len(got[-1])} and {len(want[-1])} bytes)"
                    elif got[0] != "file" or len(got[1]) < 300:
                        bad = f"no complete output: {str(got)[:200]}"
                    elif after != before:
                        bad = "other files changed"
            elif r.code == 0:
                bad = "exit status 0"
            elif not r.err.strip():
                bad = "no diagnostic"
            elif r.out.strip() and dest[1] is None:
                bad = f"wrote to standard output: {r.out[:200]!r}"
            elif after != before:
                ch = [k for k in set(after) | set(before) if after.get(k) != before.get(k)]
                bad = "changed " + ", ".join(f"{k}: {str(before.get(k))[:60]} -> {str(after.get(k))[:60]}" for k in ch)
            if bad:
                ctx.violation(f"{what}|{lang}|{dest[0]}", lang=lang, what=f"{what}, destination: {dest[0]}: {bad}", cmd=" ".join(map(str, a)),
                              expected="complete output, status 0" if good else "diagnostic, status not 0, nothing touched", got=f"{bad}; stderr {r.err[-300:]!r}",
                              protocol=text.decode("utf-8", "replace")[:2000])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    # the successful runs to a new file first: they are the reference
    for j in jobs:
        ctx.state(j[0], j[1], j[2][0])
        ctx.step()
    with ThreadPoolExecutor(10) as ex:
        list(ex.map(judge, jobs))
    ctx.traces += len(jobs)
    ctx.per_lang["runs"] = len(jobs)

    # a device that fails after n bytes, for every block of the output: never a success
    faults = []
    for lang in LANGS:
        key = next((k for k in ref if k[0] == lang and k[1] == one and "embed" not in k[2]), None)
        if key is None or ref[key][0] != "file":
            continue
        n = len(ref[key][1])
        step = 1024 if ctx.quick else 128
        for lim in sorted({0, 1, n - 1, n, n + 1, *range(0, n, step)}):
            for to_file in (True, False):
                faults.append((lang, lim, n, to_file, ref[key][1]))

    def fault(f):
        lang, lim, n, to_file, want = f
        d = str(ctx.wd(f"f{next(ctr)}"))
        try:
            open(d + "/p.toml", "wb").write(one)
            a = ["--lang", lang, "--protocol", "p.toml"] + (["--output", "out.x"] if to_file else [])
            with open(d + "/std", "wb") as so:
                r = launch(a, d, fsize=lim, stdout=so)
            full = n if to_file else n + 1
            got = open(d + ("/out.x" if to_file else "/std"), "rb").read() if os.path.exists(d + ("/out.x" if to_file else "/std")) else b""
            bad = None
            if lim < full and r.code == 0:
                bad = "reported success although the output could not be written"
            elif lim < full and not r.err.strip():
                bad = "no diagnostic"
            elif lim >= full and (r.code != 0 or got.rstrip(b"\n") != want.rstrip(b"\n")):
                bad = f"failed ({r.code}) although there was room"
            if bad:
                ctx.violation(f"fault|{lang}|{lim}|{to_file}", lang=lang, what=f"output device fails after {lim} of {full} bytes: {bad}", cmd=" ".join(a), got=r.err[-300:].decode("utf-8", "replace"))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for f in faults:
        ctx.state("fault", f[0], f[1], f[3])
        ctx.step()
    with ThreadPoolExecutor(10) as ex:
        list(ex.map(fault, faults))
    ctx.traces += len(faults)
    ctx.per_lang["write faults"] = len(faults)
    ctx.sample(run=str(jobs[0][0]), lang=jobs[0][1], destination=jobs[0][2][0], model="complete output, status 0")
    ctx.sample(run=str(jobs[-1][0]), lang=jobs[-1][1], destination=jobs[-1][2][0], model="diagnostic, status not 0, nothing touched")
    ctx.assumptions = ["what is left of an output file whose device fails in the middle of writing is not specified, only that the failure is reported",
                       "file size limits stand for a full device"]
