"""Runs a list of jobs in one process: worker.py PROP JOBS.json OUT.json PROGRESS"""
import ctypes
import importlib
import json
import os
import random
import resource
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from pdsmon.mon import Mon, Violation, Skip, StepBudgetExceeded, Steps, short  # noqa

CPU_PER_JOB = 60


def derive(*parts):
    import hashlib
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:7], 'big')


def limit_cpu():
    used = resource.getrusage(resource.RUSAGE_SELF)
    soft = int(used.ru_utime + used.ru_stime) + CPU_PER_JOB
    resource.setrlimit(resource.RLIMIT_CPU, (soft, resource.RLIM_INFINITY))


def describe_exc(e, pkgdir):
    frames = traceback.extract_tb(e.__traceback__)
    inside = [f for f in frames if f.filename.startswith(pkgdir)]
    where = ''
    if inside:
        f = inside[-1]
        where = '%s:%s' % (os.path.relpath(f.filename, pkgdir), f.name)
    return where, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]


def run_job(module, job, mon, steps, libc, pkgdir):
    """Returns None, or a violation dict."""
    name, seed = job['scenario'], job['seed']
    sc = module.SCENARIOS[name]
    mon.scenario = name
    mon.steps = steps
    mon.log = []
    rng = random.Random(seed)
    random.seed(seed ^ 0x5DEECE66D)
    libc.srand(seed & 0x7fffffff)
    limit_cpu()
    fn = sc['fn']
    try:
        steps.start(sc.get('steps', 15000000))
        try:
            fn(mon, rng, job.get('params'))
        finally:
            steps.stop()
        return None
    except Skip as e:
        mon.ev('skipped: %s' % e)
        return None
    except StepBudgetExceeded as e:
        return dict(what='no termination: %s' % e, detail={}, log=mon.log[-60:],
                    trace=describe_exc(e, pkgdir)[1])
    except Violation as e:
        return dict(what=e.what, detail={k: short(v) for k, v in e.detail.items()},
                    log=mon.log[-60:], trace='')
    except (Exception, RecursionError) as e:
        where, trace = describe_exc(e, pkgdir)
        # A monitor that reaches for a private name which is not there any more
        # is a monitor that cannot observe, not a violation.
        if isinstance(e, (AttributeError, ImportError)) and not where:
            nm = getattr(e, 'name', '') or ''
            if nm.startswith('_') or isinstance(e, ImportError):
                mon.ev('monitor-unavailable: %s' % nm)
                return None
        what = 'unexpected %s' % type(e).__name__
        if where:
            what += ' out of ' + where
        return dict(what=what, detail={'error': short(e)}, log=mon.log[-60:], trace=trace)


def main():
    prop, jobs_path, out_path, progress_path = sys.argv[1:5]
    module = importlib.import_module('props.' + prop.lower())
    import pydatastructs
    pkgdir = os.path.dirname(os.path.abspath(pydatastructs.__file__))
    steps = Steps(pkgdir)
    libc = ctypes.CDLL(None)
    if os.environ.get('PDS_ASAN') != '1':
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    with open(jobs_path) as f:
        jobs = json.load(f)
    mon = Mon()
    out = {'violations': [], 'done': 0}
    fd = os.open(progress_path, os.O_CREAT | os.O_WRONLY, 0o644)
    maxv = 3

    def dump():
        out.update(events=dict(mon.events), evaluations=mon.evaluations,
                   checks=mon.checks, cases=list(mon.cases), states=list(mon.states),
                   samples=mon.samples, peak_steps=steps.peak)
        tmp = out_path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(out, f, default=short)
        os.replace(tmp, out_path)

    for i, job in enumerate(jobs):
        os.pwrite(fd, b'%10d' % i, 0)
        v = run_job(module, job, mon, steps, libc, pkgdir)
        out['done'] = i + 1
        if v is not None:
            v['job'] = job
            out['violations'].append(v)
            if len(out['violations']) >= maxv:
                break
        if i % 200 == 199 and os.environ.get('PDS_DUMP') == '1':
            dump()
    os.pwrite(fd, b'%10d' % len(jobs), 0)
    dump()


def probe():
    """worker.py --probe PROP ID OUT"""
    prop, pid, out_path = sys.argv[2:5]
    module = importlib.import_module('props.' + prop.lower())
    import pydatastructs
    pkgdir = os.path.dirname(os.path.abspath(pydatastructs.__file__))
    steps = Steps(pkgdir)
    steps.start(3000000)
    limit_cpu()
    random.seed(1)
    mon = Mon()
    mon.scenario = 'probe'
    try:
        r = 'present' if module.PROBES[pid](mon) else 'absent'
        d = ''
    except StepBudgetExceeded as e:
        r, d = 'nontermination', str(e)
    except Violation as e:
        r, d = 'other', e.what
    except Exception as e:
        r, d = 'other', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    with open(out_path, 'w') as f:
        json.dump({'result': r, 'detail': d}, f)


if __name__ == '__main__':
    if sys.argv[1] == '--probe':
        probe()
    else:
        main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)     # skip interpreter teardown: it is not what is being judged
