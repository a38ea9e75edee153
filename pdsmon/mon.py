"""The monitor object handed to every scenario, plus the logical step budget.

A scenario drives the real code; the monitor observes it.  `check` is the
deciding step: it evaluates one oracle judgement over what was observed."""
import os
import ctypes
import hashlib
import json
import sys
from collections import Counter


# With PDS_TRACE=FILE the operations are written down before they happen.
TRACE = open(os.environ['PDS_TRACE'], 'a') if os.environ.get('PDS_TRACE') else None

class Violation(Exception):
    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


class StepBudgetExceeded(BaseException):
    """The code under test executed more loop iterations than any terminating
    run of the operation could need."""


class Skip(Exception):
    """The case cannot be judged (it is counted, never reported as held)."""


def _h(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'replace'),
                                          digest_size=8).digest(), 'big')


class Mon(object):
    STATE_CAP = 60000

    def __init__(self):
        self.events = Counter()
        self.evaluations = 0
        self.checks = 0
        self.cases = set()
        self.states = set()
        self.samples = {}
        self.log = []
        self.scenario = ''

    # ---- bookkeeping -----------------------------------------------------
    def case(self, sig, nontrivial=True):
        """One evaluated case; counted as distinct and non-trivial by `sig`."""
        self.evaluations += 1
        if nontrivial and len(self.cases) < self.STATE_CAP:
            self.cases.add(_h((self.scenario, sig)))
        lst = self.samples.setdefault(self.scenario, [])
        if len(lst) < 1 and nontrivial:
            lst.append(repr(sig)[:400])

    def ev(self, kind, n=1):
        self.events[kind] += n

    def state(self, obj):
        if len(self.states) < self.STATE_CAP:
            self.states.add(_h((self.scenario, obj)))

    def op(self, *entry):
        """Appends to the operation history of the current case."""
        self.log.append(entry)
        if TRACE is not None:
            print(entry, file=TRACE, flush=True)
        if len(self.log) > 4000:
            del self.log[:1000]
        self.events['op:' + str(entry[0])] += 1

    # ---- judgements ------------------------------------------------------
    def check(self, cond, what, **detail):
        self.checks += 1
        if not cond:
            raise Violation(what, **detail)

    def eq(self, got, want, what, **detail):
        self.checks += 1
        if not (got == want):
            raise Violation(what, got=short(got), want=short(want), **detail)

    def raises(self, exc, fn, what, **detail):
        """fn() has to raise one of exc."""
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            self.ev('rejected')
            return e
        except Exception as e:
            raise Violation(what + ': raised %s instead of %s'
                            % (type(e).__name__, exc), error=short(e), **detail)
        raise Violation(what + ': accepted, returned %s' % short(r), **detail)

    def fails(self, fn, what, **detail):
        """fn() has to raise an ordinary exception (any type)."""
        return self.raises(Exception, fn, what, **detail)


def short(x, n=600):
    try:
        s = repr(x)
    except Exception as e:
        s = '<repr failed: %s>' % e
    return s if len(s) <= n else s[:n] + '...'


# ---- logical step budget ---------------------------------------------------
class Steps(object):
    """Counts backward jumps (loop iterations) and function entries executed
    by the package's own Python code, via sys.monitoring."""
    TOOL = 4

    def __init__(self, pkgdir):
        self.pkgdir = pkgdir
        self.count = 0
        self.limit = None
        self.peak = 0
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'pdsmon')
        mon.register_callback(self.TOOL, mon.events.JUMP, self._jump)
        mon.register_callback(self.TOOL, mon.events.PY_START, self._start)
        self.on = False
        self._blocks = None
        lib = os.environ.get('PDS_COUNT')
        if lib:
            self._blocks = ctypes.c_ulonglong.in_dll(ctypes.CDLL(lib), 'pds_blocks')

    @property
    def blocks(self):
        """Basic blocks of the compiled extensions executed so far (flavour 'count')."""
        return self._blocks.value

    def _jump(self, code, off, dest):
        if not code.co_filename.startswith(self.pkgdir):
            return sys.monitoring.DISABLE
        if dest >= off:
            return sys.monitoring.DISABLE
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            self.limit += 20000     # let handlers run, then fire again
            raise StepBudgetExceeded('more than %d loop iterations' % self.count)

    def _start(self, code, off):
        if not code.co_filename.startswith(self.pkgdir):
            return sys.monitoring.DISABLE
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            self.limit += 20000
            raise StepBudgetExceeded('more than %d steps' % self.count)

    def start(self, limit):
        self.count = 0
        self.limit = limit
        if not self.on:
            ev = sys.monitoring.events
            sys.monitoring.set_events(self.TOOL, ev.JUMP | ev.PY_START)
            self.on = True

    def stop(self):
        self.peak = max(self.peak, self.count)
        self.limit = None
