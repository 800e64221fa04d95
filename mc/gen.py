"""Run the beschi CLI (from $MC_REPO, default /repo) for a list of jobs, in process.

stdin: JSON list of argv lists; stdout: JSON list of [exit_code, stderr_text].
"""
import io, json, os, sys, contextlib
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def run(argv):
    from beschi import cli
    err, out = io.StringIO(), io.StringIO()
    sys.argv = ["beschi"] + argv
    code = 0
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
            cli.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException as e:      # what the user would see as a traceback
        code = 70
        err.write(f"{type(e).__name__}: {e}")
    return [code, err.getvalue()]


if __name__ == "__main__":
    jobs = json.load(sys.stdin)
    import beschi
    assert os.path.realpath(beschi.__file__).startswith(os.path.realpath(REPO)), beschi.__file__
    json.dump([run(j) for j in jobs], sys.stdout)
