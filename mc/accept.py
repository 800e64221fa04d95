"""Feeds protocol texts to beschi (from $MC_REPO) and reports what becomes of each.

stdin: JSON lines [mode, toml text (surrogate-escaped bytes), extra argv]; stdout: JSON lines
mode 'p' (protocol only): ["ok"] / ["refused", diagnostic] / ["hang"]
mode 'g' (whole command): ["exit", code, stdout length, stderr length, traceback?] / ["hang"]
A watchdog on CPU time ends whatever does not terminate.
"""
import contextlib, io, json, os, resource, signal, sys, tempfile
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
LIMIT = float(os.environ.get("MC_CPU_LIMIT", "8"))


class Hang(BaseException):
    pass


def alarm(*_):
    raise Hang()


def one(mode, path, extra):
    from beschi.protocol import Protocol
    from beschi import cli
    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
    try:
        if mode == "p":
            try:
                p = Protocol(path)
            except Hang:
                raise
            except Exception as e:
                return ["refused", f"{type(e).__name__}: {e}", len(str(e))]
            return ["ok"]
        err, out = io.StringIO(), io.StringIO()
        sys.argv = ["beschi", "--protocol", path] + extra
        code, tb = 0, False
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
                cli.main()
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Hang:
            raise
        except BaseException as e:
            code, tb = 1, True                  # the interpreter would print the traceback and exit with 1
            err.write(f"{type(e).__name__}: {e}")
        return ["exit", code, len(out.getvalue()), len(err.getvalue()), err.getvalue()[-300:] if code else ""]
    except Hang:
        return ["hang"]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def main():
    signal.signal(signal.SIGVTALRM, alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import beschi
    assert os.path.realpath(beschi.__file__).startswith(os.path.realpath(REPO)), beschi.__file__
    with tempfile.TemporaryDirectory(prefix="mc_acc_") as d:
        path = os.path.join(d, "p.toml")
        for line in sys.stdin:
            mode, text, extra = json.loads(line)
            with open(path, "wb") as f:
                f.write(text.encode("utf-8", "surrogateescape"))
            print(json.dumps(one(mode, path, extra)), flush=False)
    sys.stdout.flush()


if __name__ == "__main__":
    main()
