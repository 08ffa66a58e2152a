"""Shared frame of all rules: the report of one run, and helpers over interpreter results."""
import sys, os, re
import absint as A
from absint import is_t, T, walk, show


class Report:
    """What one rule run analysed and found."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.viol = []          # (key, text)
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.floors = []
        self.functions = set()

    def v(self, key, text):
        if (key, text) not in self.viol:
            self.viol.append((key, text))

    def n(self, what, k=1):
        self.counts[what] = self.counts.get(what, 0) + k

    def sample(self, s):
        if len(self.samples) < 60:
            self.samples.append(s)

    def undec(self, what, why):
        self.undecided.append("%s: %s" % (what, why))

    def floor(self, what, least):
        self.floors.append((what, least))

    def saw(self, fn):
        self.functions.add(fn if isinstance(fn, str) else fn.id)

    def finish(self):
        for what, least in self.floors:
            got = self.counts.get(what, 0)
            if got < least and not self.undecided:
                self.v("floor:" + what, "only %d instances of '%s' could be analysed (at least %d expected): the rule lost its anchors" % (got, what, least))


def loc(fn):
    return "%s:%s" % (fn.file, fn.line)


def root(v):
    """The base object of a place-like term (strips mutation versions, loop phis, reborrows)."""
    while is_t(v):
        if v[1] == "mut":
            v = v[2]
        elif v[1] == "phi":
            v = v[4]
        elif v[1] == "deref":
            v = v[2]
        else:
            break
    return v


def rewrite(v, f, memo=None):
    """Bottom-up rewriting."""
    if memo is None:
        memo = {}
    if not isinstance(v, tuple):
        return v
    k = id(v)
    r = memo.get(k)
    if r is not None:
        return r[0]
    out = tuple(rewrite(x, f, memo) if isinstance(x, tuple) else x for x in v)
    if out == v:
        out = v
    if out and isinstance(out[0], str):
        out = f(out)
    memo[k] = (out, v)
    return out


# calls that only re-view the same data
VIEWS = re.compile(r"(::as_bytes|::as_str|::as_slice|::as_ref|::deref|::borrow|::as_mut_slice|::to_vec|::to_owned|::clone|::into_boxed_slice|::into_boxed_str|::into_bytes|::into_vec|::to_string|::as_deref|::get)$")


def callname(v):
    n = v[2]
    return n if isinstance(n, str) else n[0]


def strip_views(v):
    while is_t(v, "call") and isinstance(v[2], str) and VIEWS.search(v[2]) and len(v[3]) == 1:
        v = v[3][0]
    return v


class OutOfTime(BaseException):
    """a piece of the analysis ran into its limit"""


def limit(seconds):
    """raise OutOfTime after that many seconds; 0 ends the limit"""
    import signal

    def late(*_):
        signal.setitimer(signal.ITIMER_REAL, 5)     # in case something swallows it
        raise OutOfTime()
    if seconds:
        signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def spread(f, n, seconds=60, total=400, memory=2500 << 20):
    """[f(0), …, f(n - 1)], worked out by several processes; None where a piece did not end within its time and memory"""
    import multiprocessing as mp, pickle, resource, tempfile, time
    end = time.time() + total
    nxt = mp.get_context("fork").Value("i", 0)
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(min(8, os.cpu_count() or 1)):
        out = tempfile.TemporaryFile()
        pid = os.fork()
        if pid:
            pids.append((pid, out))
            continue
        code = 1
        try:
            resource.setrlimit(resource.RLIMIT_AS, (memory + _vm(), resource.RLIM_INFINITY))
            while True:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= n:
                    break
                left = min(seconds, end - time.time())
                r = None
                if left > 0:
                    try:
                        limit(left)
                        try:
                            r = f(i)
                        finally:
                            limit(0)
                    except (OutOfTime, MemoryError, RecursionError):
                        r = None
                    except Exception:
                        import traceback
                        traceback.print_exc()
                        r = None
                pickle.dump((i, r), out)
                out.flush()
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        os._exit(code)
    res, bad = [None] * n, False
    for pid, out in pids:
        _, status = os.waitpid(pid, 0)
        if os.WIFEXITED(status) and os.WEXITSTATUS(status):
            bad = True
        out.seek(0)
        while True:
            try:
                i, r = pickle.load(out)
            except (EOFError, pickle.UnpicklingError):
                break
            res[i] = r
    if bad:
        raise RuntimeError("a part of the analysis failed")
    return res


def _vm():
    for l in open("/proc/self/status"):
        if l.startswith("VmSize"):
            return int(l.split()[1]) << 10
    return 0
