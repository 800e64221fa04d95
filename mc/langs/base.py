"""Common machinery of the per-language replay drivers."""
from __future__ import annotations
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from pathlib import Path

HERE = Path(__file__).resolve().parent
MC = HERE.parent
REPO = os.environ.get("MC_REPO", "/repo")

ENV = dict(os.environ)
ENV.update({
    "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "-mod=mod",
    "CARGO_NET_OFFLINE": "true",
    "DOTNET_CLI_TELEMETRY_OPTOUT": "1", "DOTNET_NOLOGO": "1",
    "DOTNET_SKIP_FIRST_TIME_EXPERIENCE": "1", "DOTNET_gcServer": "0",
    "DOTNET_TieredPGO": "0",
})
ENV["PATH"] = ENV.get("PATH", "/usr/bin:/bin") + ":/usr/local/bin:/opt/venv/bin"      # zig lives in the venv
for k in ("CFLAGS", "CPPFLAGS", "RUSTFLAGS", "PYTHONPATH"):
    ENV.pop(k, None)


class InfraError(Exception):
    """the toolchain or the harness itself failed: no verdict"""


class BuildFailure(Exception):
    """generated code does not compile / generator refused a valid protocol"""
    def __init__(self, lang, what, detail, pid=None):
        super().__init__(f"{lang}: {what}: {detail[-1500:]}")
        self.lang, self.what, self.detail, self.pid = lang, what, detail, pid


def sh(cmd, cwd=None, timeout=600, env=None, input=None, infra_retry=2):
    """run; returns (rc, output).  A signal death (OOM, ...) is retried."""
    for attempt in range(infra_retry + 1):
        try:
            p = subprocess.run(cmd, cwd=cwd, env=env or ENV, input=input, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            if attempt == infra_retry:
                raise InfraError(f"timeout: {cmd[:6]}")
            continue
        if p.returncode < 0 and attempt < infra_retry:
            time.sleep(1)
            continue
        return p.returncode, p.stdout
    return p.returncode, p.stdout


def generate(lang, jobs):
    """jobs: list of (toml_path, out_path, extra args).  Raises BuildFailure."""
    if not jobs:
        return
    argv = [["--lang", lang, "--protocol", str(a), "--output", str(b)] + list(x) for a, b, x in jobs]
    p = subprocess.run([sys.executable, "-B", str(MC / "gen.py")], input=json.dumps(argv), env={**ENV, "MC_REPO": REPO},
                       capture_output=True, text=True, timeout=900)
    if p.returncode != 0:
        # the package itself does not import / crashes
        raise BuildFailure(lang, "generator", p.stderr)
    for job, (code, err) in zip(jobs, json.loads(p.stdout)):
        if code != 0:
            raise BuildFailure(lang, "generator refused a valid protocol", f"{job[0]}: {err}")


class Runner:
    """feeds command lines to a built driver, one response line per command.
    A driver that dies answers 'crash <signal> <text>' for the command it died on
    and is restarted after it."""

    def __init__(self, lang, argv, cwd=None, env=None, max_crashes=12, parallel=1):
        self.lang, self.argv, self.cwd = lang, argv, cwd
        self.env = {**ENV, **(env or {})}
        self.max_crashes = max_crashes
        self.parallel = parallel
        self.commands = 0

    def run(self, lines, timeout=800):
        lines = list(lines)
        self.commands += len(lines)
        if self.parallel > 1 and len(lines) > 2000:
            n = self.parallel
            chunks = [lines[i::n] for i in range(n)]
            res = [None] * n
            errs = []

            def w(i):
                try:
                    res[i] = self._run(chunks[i], timeout)
                except BaseException as e:
                    errs.append(e)
            ts = [threading.Thread(target=w, args=(i,)) for i in range(n)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            if errs:
                raise errs[0]
            out = [None] * len(lines)
            for i in range(n):
                out[i::n] = res[i]
            return out
        return self._run(lines, timeout)

    def _run(self, lines, timeout):
        out = []
        crashes = 0
        deadline = time.time() + timeout
        pos = 0
        while pos < len(lines):
            with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
                fi.write(("\n".join(lines[pos:]) + "\n").encode())
                fi.seek(0)
                p = subprocess.Popen(self.argv, cwd=self.cwd, env=self.env, stdin=fi, stdout=fo, stderr=fe)
                hung = False
                try:
                    # a driver that stops making progress for 60 s is hung on its current command
                    last, last_t = -1, time.time()
                    while True:
                        try:
                            rc = p.wait(timeout=1.0)
                            break
                        except subprocess.TimeoutExpired:
                            size = os.fstat(fo.fileno()).st_size
                            now = time.time()
                            if size != last:
                                last, last_t = size, now
                            if now > deadline:
                                p.kill()
                                raise InfraError(f"{self.lang}: driver ran out of time")
                            if now - last_t > 60:
                                hung = True
                                p.kill()
                                rc = p.wait()
                                break
                finally:
                    if p.poll() is None:
                        p.kill()
                fo.seek(0)
                raw = fo.read().decode("utf-8", "replace")
                got = raw.split("\n")
                tail = got.pop()          # unterminated tail: the crashing command
                fe.seek(0, 2)
                n = fe.tell()
                fe.seek(max(0, n - 6000))
                err = fe.read().decode("utf-8", "replace")
            want = len(lines) - pos
            if len(got) > want:
                raise InfraError(f"{self.lang}: driver answered {len(got)} lines for {want} commands: {got[-1][:200]}")
            out += got
            pos += len(got)
            if len(got) == want:
                if rc != 0:
                    raise InfraError(f"{self.lang}: driver exit {rc} after the last command: {err[-800:]}")
                break
            if rc == 0 and not hung:
                raise InfraError(f"{self.lang}: driver stopped early: {err[-800:]}")
            if rc == -9 and not hung:
                raise InfraError(f"{self.lang}: driver was killed (memory?)")
            if "harness:" in err:
                raise InfraError(f"{self.lang}: {err[-300:]} on {lines[pos][:200]}")
            crashes += 1
            key = [l for l in err.splitlines() if re.search(r"ERROR: |runtime error|panic|Unhandled|fatal|error", l)]
            out.append(("hang " if hung else f"crash {rc} ") + (key[0] if key else err[:200].replace("\n", " ")))
            pos += 1
            if hung or crashes >= self.max_crashes:
                out += ["skipped"] * (len(lines) - pos)
                break
        return out


class Lang:
    name = "?"
    beschi = "?"
    ext = ""
    fixed_buffer = False     # caller supplies the output buffer (and its bound)
    positioned_pack = True   # pack/unpack/process honour a position in the buffer
    resumable = True         # process_raw_bytes advances a reader
    bounded = False          # writes past the end of the buffer are reported

    def generate_all(self, protos, wd, opts=None):
        wd = Path(wd)
        jobs = []
        for p in protos:
            t = wd / f"p{p.pid}.toml"
            t.write_text(p.to_toml())
            o = self.out_path(wd, p)
            o.parent.mkdir(parents=True, exist_ok=True)
            jobs.append((t, o, (opts or {}).get(p.pid, [])))
        generate(self.beschi, jobs)

    def out_path(self, wd, p):
        return wd / f"p{p.pid}{self.ext}"

    def build(self, protos, wd, opts=None, **kw) -> Runner:
        raise NotImplementedError
