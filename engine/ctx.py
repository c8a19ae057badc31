"""One verification run: extraction of the translation units, the obligations of a property and their verdicts."""
import sys, os, json, time, subprocess, signal, traceback, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

INC = ["-I" + os.path.join(VERIF, "props", "compat"), "-I%s/rct_optimizations/include" % REPO, "-I%s/rct_common/include" % REPO, "-I%s/rct_image_tools/include" % REPO, "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opencv4"]
STD = ["-std=gnu++17", "-DNDEBUG"]
SRC = {"opt": REPO + "/rct_optimizations/src/rct_optimizations/", "img": REPO + "/rct_image_tools/src/rct_image_tools/"}


class Timeout(BaseException):
    pass


def build_extractor():
    b = os.path.join(VERIF, "build")
    exe = os.path.join(b, "extract")
    src = os.path.join(HERE, "extract", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = exe + ".sha"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    os.makedirs(b, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    subprocess.run(["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"], check=True)
    os.replace(tmp, exe)
    open(stamp, "w").write(h)
    return exe


def resolve_src(s):
    if os.path.isabs(s):
        return s
    k, r = s.split(":", 1)
    if k == "drv":
        return os.path.join(VERIF, "props", "drivers", r)
    return SRC[k] + r


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.obs = []       # dicts
        self.functions = {}  # functions symbolically executed / used by contract
        self.notes = []
        self.assumptions = []
        self.t_extract = 0.0
        self.samples = 24 if tier == "quick" else 120
        self.only = os.environ.get("VERIF_OB")
        self.ob_timeout = 60 if tier == "quick" else 150

    # -------------------------------------------------------------------------------------------------- programs
    def program(self, *srcs):
        from interp import Program

        t0 = time.time()
        exe = build_extractor()
        roots = REPO + ":" + os.path.join(VERIF, "props", "drivers")

        def one(s):
            p = resolve_src(s)
            out = os.path.join(self.work, "ast-" + s.replace("/", "_").replace(":", "_") + ".json")
            r = subprocess.run([exe, out, roots, p, "--", "-O2"] + STD + INC, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=240)
            if r.returncode != 0 or not os.path.exists(out):
                raise RuntimeError("extraction of %s failed: %s" % (s, r.stderr.decode(errors="replace")[-800:]))
            return out

        with ThreadPoolExecutor(8) as ex:
            js = list(ex.map(one, srcs))
        p = Program(js)
        self.t_extract += time.time() - t0
        return p

    def interp(self, prog, contracts=None):
        from interp import Interp

        ip = Interp(prog, dict(contracts or {}))
        self.ips = getattr(self, "ips", []) + [ip]
        return ip

    # -------------------------------------------------------------------------------------------------- obligations
    def _record(self, name, verdict, detail, where, dt):
        self.obs.append({"name": name, "verdict": verdict, "detail": detail, "where": where, "time": round(dt, 3)})
        if os.environ.get("VERIF_TRACE"):
            print("  [%s] %s %.1fs %s" % (verdict, name, dt, "" if verdict == "proved" else str(detail)[:700]), flush=True)

    def undecided(self, name, why, where=""):
        self._record(name, "undecided", why, where, 0.0)

    def ob(self, name, pc, kind, x, y, where=""):
        return self.ob_alt(name, pc, [(kind, x, y)], where)

    def ob_alt(self, name, pc, alts, where=""):
        """an obligation that holds if one of the alternatives does"""
        from spec import prove_one

        if self.only and self.only not in name:
            return
        t0 = time.time()
        first = None
        for kind, x, y in alts:
            try:
                with time_limit(self.ob_timeout):
                    v, d = prove_one(tuple(pc), kind, x, y, samples=self.samples, seed=self.seed)
            except Timeout:
                v, d = "undecided", "time limit of the obligation"
            except RecursionError:
                v, d = "undecided", "term too deep"
            except Exception as e:  # a defect of the tool is never an alarm
                v, d = "undecided", "%s: %s" % (type(e).__name__, e)
                if os.environ.get("VERIF_TRACE"):
                    traceback.print_exc()
            if v == "proved":
                self._record(name, v, d, where, time.time() - t0)
                return v
            if first is None or first[0] == "refuted":
                first = (v, d)
        self._record(name, first[0], first[1], where, time.time() - t0)
        return first[0]

    def obs_eq(self, name, a, b, pc=(), where=""):
        from spec import val_eqs

        l = val_eqs(a, b, name, pc)
        if not l:
            self._record(name, "proved", "nf", where, 0.0)
        for n, f, kind, x, y in l:
            self.ob(n, f, kind, x, y, where)

    def run(self, label, fn):
        """run one part of the specification; a construct outside the verifier's reach leaves that part undecided"""
        from terms import Unsupported

        t0 = time.time()
        try:
            with time_limit(240 if self.tier == "quick" else 400):
                fn()
        except Timeout:
            self.undecided(label, "time limit while executing the function")
        except Unsupported as e:
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc(limit=-int(os.environ.get("TB", "4")))
            self.undecided(label, "unsupported: %s" % e)
        except Exception as e:
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc(limit=-6)
            self.undecided(label, "%s: %s" % (type(e).__name__, str(e)[:500]))

    def used(self):
        d = {}
        for ip in getattr(self, "ips", []):
            for q, h in ip.used.items():
                if d.get(q) != "body":
                    d[q] = h
        return d


class time_limit:
    """nested SIGALRM limits"""

    stack = []

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        now = time.time()
        self.end = now + self.s
        time_limit.stack.append(self)
        self.arm()
        return self

    @staticmethod
    def arm():
        if not time_limit.stack:
            signal.setitimer(signal.ITIMER_REAL, 0)
            return
        end = min(t.end for t in time_limit.stack)
        signal.setitimer(signal.ITIMER_REAL, max(0.01, end - time.time()))

    def __exit__(self, *a):
        time_limit.stack.pop()
        self.arm()
        return False


def _alarm(*a):
    now = time.time()
    if any(t.end <= now + 0.02 for t in time_limit.stack):
        raise Timeout()
    time_limit.arm()


signal.signal(signal.SIGALRM, _alarm)
