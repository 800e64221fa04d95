"""Runs the command of beschi (from $MC_REPO) several times in one process.

stdin: one JSON object {"protocols": [text, ...], "mode": ..., "jobs": ...}; stdout: one JSON object.
mode 'seq':   jobs = lists of [protocol index, argv]; answer: for every list the hashes of the outputs
mode 'nest':  jobs = [[A, B], ...]; A is preempted at every distinct call site (first and last time it is reached), B runs to
              completion, A goes on; answer: per job the number of preemptions and the first outputs that differ
mode 'share': jobs = lists of languages; all generate from one protocol object; answer: hashes of outputs, and whether the object changed
"""
import contextlib, hashlib, io, json, os, sys, tempfile
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)


def h(s):
    return hashlib.sha256(s.encode("utf-8", "surrogatepass")).hexdigest()[:24]


def cli_run(path, argv):
    from beschi import cli
    out, err = io.StringIO(), io.StringIO()
    keep, so, se = sys.argv, sys.stdout, sys.stderr
    sys.argv = ["beschi", "--protocol", path] + argv
    sys.stdout, sys.stderr = out, err
    try:
        cli.main()
        code = 0
    except SystemExit as e:
        code = e.code
    except Exception as e:
        code = f"{type(e).__name__}: {e}"
    finally:
        sys.argv, sys.stdout, sys.stderr = keep, so, se
    return f"{code}\n{out.getvalue()}"


class Nester:
    """one preemption of A at the n-th call inside the package"""

    def __init__(self, base):
        self.base = base

    def sites(self, run):
        seen, n = {}, 0
        events = []

        def prof(frame, ev, arg):
            nonlocal n
            if ev == "call" and frame.f_code.co_filename.startswith(self.base):
                b = frame.f_back
                site = (frame.f_code.co_filename, frame.f_code.co_firstlineno, b.f_code.co_filename if b else "", b.f_lineno if b else 0)
                events.append(site)
                n += 1
        sys.setprofile(prof)
        try:
            out = run()
        finally:
            sys.setprofile(None)
        for i, s in enumerate(events):
            seen.setdefault(s, [i, i])[1] = i
        return out, sorted({i for s in seen.values() for i in s})

    def at(self, k, run, other):
        n = -1
        done = []

        def prof(frame, ev, arg):
            nonlocal n
            if ev == "call" and frame.f_code.co_filename.startswith(self.base):
                n += 1
                if n == k:
                    sys.setprofile(None)
                    done.append(other())
        sys.setprofile(prof)
        try:
            out = run()
        finally:
            sys.setprofile(None)
        return out, done[0] if done else None


def dump(o, depth=0, seen=None):
    seen = seen or set()
    if isinstance(o, (str, int, float, bool, type(None), bytes)):
        return repr(o)
    if id(o) in seen or depth > 12:
        return "..."
    seen = seen | {id(o)}
    if isinstance(o, dict):
        return "{" + ",".join(f"{dump(k, depth + 1, seen)}:{dump(v, depth + 1, seen)}" for k, v in o.items()) + "}"
    if isinstance(o, (list, tuple, set, frozenset)):
        return "[" + ",".join(dump(x, depth + 1, seen) for x in o) + "]"
    if hasattr(o, "__dict__"):
        return type(o).__name__ + dump(vars(o), depth + 1, seen)
    return type(o).__name__


def main():
    import beschi
    assert os.path.realpath(beschi.__file__).startswith(os.path.realpath(REPO)), beschi.__file__
    q = json.load(sys.stdin)
    ans = []
    with tempfile.TemporaryDirectory(prefix="mc_pur_") as d:
        paths = []
        for i, t in enumerate(q["protocols"]):
            paths.append(os.path.join(d, f"p{i}.toml"))
            with open(paths[-1], "w", encoding="utf-8") as f:
                f.write(t)
        if q["mode"] == "seq":
            for seq in q["jobs"]:
                ans.append([h(cli_run(paths[p], a)) for p, a in seq])
        elif q["mode"] == "nest":
            N = Nester(os.path.join(os.path.realpath(REPO), "beschi") + os.sep)
            N.base = os.path.join(os.path.dirname(os.path.abspath(beschi.__file__)), "")
            for (pa, aa), (pb, ab) in q["jobs"]:
                refb = cli_run(paths[pb], ab)
                ref, ks = N.sites(lambda: cli_run(paths[pa], aa))
                bad = []
                for k in ks:
                    a, b = N.at(k, lambda: cli_run(paths[pa], aa), lambda: cli_run(paths[pb], ab))
                    if a != ref or b != refb:
                        bad.append(k)
                ans.append([len(ks), bad[:5], h(ref), h(refb)])
        else:
            import argparse
            from beschi.protocol import Protocol
            from beschi.writers import all_writers, experimental_writers
            W = {**all_writers, **experimental_writers}
            parser = argparse.ArgumentParser()
            for w in W.values():
                w.get_additional_args(parser)
            extra = {"embed_protocol": False, **vars(parser.parse_args([]))}
            for pi, langs in q["jobs"]:
                p = Protocol(paths[pi])
                before = dump(p)
                outs, changed = [], None
                for l in langs:
                    outs.append(h("0\n" + W[l](p, extra_args=dict(extra)).generate() + "\n"))
                    if changed is None and dump(p) != before:
                        changed = l
                ans.append([outs, changed])
        for p, t in zip(paths, q["protocols"]):
            if open(p, encoding="utf-8").read() != t:
                ans = ["protocol file changed"] + ans
    json.dump(ans, sys.stdout)


if __name__ == "__main__":
    main()
