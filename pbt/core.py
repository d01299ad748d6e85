"""Driver pieces: sub-checks, forked case execution, Hypothesis search with bounded shrinking.

A property module defines PID, TITLE-free metadata and SUBS = [Sub(...)].  A case is a JSON value; everything random
in it comes from Hypothesis.  `run(case)` is executed in a forked child (serial subs) or on an mpirun server (mpi subs),
returns {"nontrivial": bool, "classes": [...]} or raises Violation.
"""
import sys, os, json, time, hashlib, signal, traceback, pickle, select

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from .util import Violation, Reject

CASE_TIMEOUT = 120.0


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, shards=1, nps=None, timeout=CASE_TIMEOUT, rule="", fork=True,
                 min_nontrivial=1):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 8
        self.shards, self.nps, self.timeout, self.rule, self.fork = shards, nps, timeout, rule, fork
        self.min_nontrivial = min_nontrivial


class Failure(Exception):
    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


PATTERNS = (0xFF, 0x7F, 0x01, 0xA5, 0x00, 0xFE, 0x3F, 0x80)


def use_asan():
    """everything started from now on uses the library built with AddressSanitizer"""
    os.environ["PYTHONPATH"] = "/verif:/verif/build/pkgasan"
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0:exitcode=77"
    os.environ["PBT_ASAN"] = "1"


def preload():
    if not os.environ.get("PBT_ASAN"): return "/verif/build/perturb.so"
    import subprocess
    return " ".join(subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE).stdout.decode().strip() for n in ("libasan.so", "libstdc++.so"))


def _summary():
    """what AddressSanitizer said about the case that just ended"""
    try:
        for l in open(os.environ["PBT_ERR"], errors="replace"):
            if l.startswith("SUMMARY: "): return ": " + l[9:].strip()[:300]
    except (KeyError, OSError):
        pass
    return ""


def _perturb(v):
    """fill pattern of small heap blocks from now on (csrc/perturb.c, preloaded)"""
    import ctypes
    try:
        ctypes.CDLL(None).pbt_set_pattern(int(PATTERNS[v % len(PATTERNS)]))
    except AttributeError:
        pass


def _child(sub, case, wfd):
    try:
        dn = os.open(os.devnull, os.O_WRONLY)
        ef = os.open(os.environ.get("PBT_ERR", os.devnull), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(dn, 1)
        os.dup2(ef, 2)
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        except Exception:
            pass
        sys.stdout = open(os.devnull, "w")
        h = int(hashlib.sha1(canon(case).encode()).hexdigest()[:4], 16)
        _perturb(h)
        try:
            r = sub.run(case)
            out = ("ok", r or {})
        except Violation as e:
            out = ("violation", str(e))
        except Reject as e:
            out = ("reject", str(e))
        except BaseException as e:
            out = ("exception", "%s: %s\n%s" % (type(e).__name__, str(e)[:1500], "".join(traceback.format_tb(e.__traceback__)[-3:])))
        data = json.dumps(out, default=lambda o: o.item()).encode()
        os.write(wfd, b"")
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:off + 65536])
    finally:
        os._exit(0)


def run_forked(sub, case):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        _child(sub, case, w)
    os.close(w)
    buf = b""
    t0 = time.time()
    hang = False
    while True:
        left = sub.timeout - (time.time() - t0)
        if left <= 0:
            hang = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            hang = True
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    if hang:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise Failure("hang", "no result after %gs" % sub.timeout)
    _, st = os.waitpid(pid, 0)
    if not buf:
        if os.WIFSIGNALED(st):
            raise Failure("crash", "killed by signal %d (%s)" % (os.WTERMSIG(st), signal.Signals(os.WTERMSIG(st)).name))
        raise Failure("crash", "process ended with code %d without a result" % os.WEXITSTATUS(st) + _summary())
    kind, val = json.loads(buf.decode())
    return judge(kind, val)


def judge(kind, val):
    if kind == "ok":
        return val
    if kind == "reject":
        return {"nontrivial": False, "classes": ["rejected:" + val[:60]]}
    raise Failure(kind, val)


# ---------------------------------------------------------------- MPI server
class MPIServer:
    """mpirun -np N of pbt.mpiworker; one JSON case per line in, one JSON result per line out"""
    def __init__(self, np, mod):
        import subprocess
        self.np, self.mod = np, mod
        self.err = open(os.environ.get("PBT_ERR", os.devnull), "w")
        self.p = subprocess.Popen(["mpirun", "-np", str(np), sys.executable, "-m", "pbt.mpiworker", mod],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, start_new_session=True)

    def call(self, subname, case, timeout):
        try:
            self.p.stdin.write((json.dumps({"sub": subname, "case": case}) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.close()
            raise Failure("crash", "np=%d: mpi job ended" % self.np)
        t0 = time.time()
        buf = b""
        fd = self.p.stdout.fileno()
        while True:
            left = timeout - (time.time() - t0)
            rd = select.select([fd], [], [], max(left, 0))[0] if left > 0 else []
            if not rd:
                self.close()
                raise Failure("hang", "np=%d: no result after %gs" % (self.np, timeout))
            d = os.read(fd, 1 << 16)
            if not d:
                self.close()
                raise Failure("crash", "np=%d: mpi job ended without a result" % self.np)
            buf += d
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                if line.startswith(b"@@PBT@@"):
                    return tuple(json.loads(line[7:].decode()))

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGTERM)
            try:
                self.p.wait(5)
            except Exception:
                pass
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            self.p.wait(5)
        except Exception:
            pass


class MPIRunner:
    """runs a case on every process count of the sub and hands all results to sub.run(case, {np: result})"""
    def __init__(self, sub, mod):
        self.sub, self.mod, self.srv = sub, mod, {}

    def __call__(self, case):
        nps = self.sub.nps(case) if callable(self.sub.nps) else self.sub.nps
        res = {}
        for n in nps:
            if n not in self.srv:
                self.srv[n] = MPIServer(n, self.mod)
            try:
                kind, val = self.srv[n].call(self.sub.name, case, self.sub.timeout)
            except Failure:
                del self.srv[n]
                raise
            if kind == "reject":
                return {"nontrivial": False, "classes": ["rejected:" + val[:60]]}
            if kind != "ok":
                self.srv.pop(n).close()        # ranks may be out of step after an exception
                raise Failure(kind, "np=%d: %s" % (n, val))
            res[n] = val
        try:
            return self.sub.run(case, res) or {}
        except Violation as e:
            raise Failure("violation", str(e))
        except Reject as e:
            return {"nontrivial": False, "classes": ["rejected"]}

    def close(self):
        for s in self.srv.values():
            s.close()


class StopSearch(BaseException):
    pass


def search(sub, modname, seed, n, deadline, shrink_s=45.0):
    """Hypothesis search over sub.strategy. Returns a report dict (possibly with 'failure')."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    hypothesis.configuration.set_hypothesis_home_dir("/tmp/.hyp-none")
    rep = dict(evaluations=0, nontrivial=0, distinct=[], classes={}, samples=[], rejected=0, stopped=False, wall=0.0)
    seen = {}
    keys = set()
    best = {}
    runner = MPIRunner(sub, modname) if sub.nps else (lambda c: run_forked(sub, c))
    t_start = time.time()

    def one(case):
        k = canon(case)
        if k in seen:
            if seen[k]:
                raise seen[k]
            return
        if not best and time.time() > deadline:
            rep["stopped"] = True
            raise StopSearch()
        if best and time.time() > best["t"] + shrink_s:
            raise StopSearch()
        try:
            r = runner(case)
        except Failure as f:
            if f.kind == "hang" and best and best["f"].kind != "hang":
                raise StopSearch()
            seen[k] = f
            if not best:
                best["t"] = time.time()
            if "case" not in best or len(k) <= len(canon(best["case"])):
                best["case"], best["f"] = case, f
            if f.kind == "hang":
                raise StopSearch()
            raise
        seen[k] = None
        rep["evaluations"] += 1
        if r.get("nontrivial"):
            rep["nontrivial"] += 1
            h = hashlib.sha1(k.encode()).hexdigest()[:16]
            if h not in keys:
                keys.add(h)
                if len(rep["samples"]) < 3:
                    rep["samples"].append(case)
        for c in r.get("classes", []):
            rep["classes"][c] = rep["classes"].get(c, 0) + 1
            if c.startswith("rejected"):
                rep["rejected"] += 1

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False, report_multiple_bugs=False,
              phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))
    @given(sub.strategy)
    def t(case):
        one(case)

    try:
        t()
    except StopSearch:
        pass
    except Failure:
        pass
    except BaseException as e:
        if not best:
            rep["error"] = "".join(traceback.format_exception(e))[-3000:]
    if hasattr(runner, "close"):
        runner.close()
    rep["distinct"] = sorted(keys)
    rep["wall"] = time.time() - t_start
    if best:
        rep["failure"] = dict(case=best["case"], kind=best["f"].kind, msg=best["f"].msg)
    return rep


def rerun(sub, modname, case):
    """one execution of a case from scratch; returns None or a Failure"""
    runner = MPIRunner(sub, modname) if sub.nps else (lambda c: run_forked(sub, c))
    try:
        runner(case)
        return None
    except Failure as f:
        return f
    finally:
        if hasattr(runner, "close"):
            runner.close()
