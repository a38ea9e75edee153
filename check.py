#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]     decide one property on /repo's tree
   check.py PROPERTY --replay FILE        run one recorded violating case again

exit 0  the property held on everything explored
exit 1  violated; prints  VIOLATION property=<id> replay=<path>
exit 2  inconclusive (the tree does not build, a monitor was never reached ...)"""
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pdsmon import build                      # noqa: E402
from pdsmon.registry import load_specs        # noqa: E402
from pdsmon.worker import derive              # noqa: E402

WORKER = os.path.join(HERE, 'pdsmon', 'worker.py')
# checks whose cases are cheap run more of them in the quick tier
PACE = dict.fromkeys(('P04 P05 P08 P09 P11 P12 P13 P14 P15 P18 P19 P20 P24 P29 P32 P35 P36').split(), 3)
PACE.update(dict.fromkeys('P01 P06 P10 P16 P17 P22 P33'.split(), 1.7))

NPROC = int(os.environ.get('PDS_JOBS', '8'))
WATCHDOG = 600          # wall-clock seconds for one worker; firing is inconclusive


def known_findings(prop):
    """{id: (mode, text)} of the findings listed for this property."""
    found = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if not os.path.exists(path):
        return found
    with open(path) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) id=(\S+) expect=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                found[m.group(2)] = (m.group(3), m.group(4).strip())
    return found


class Run(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix='pdsmon-%s-' % prop)
        self.dirs = {}
        self.violations = []
        self.inconclusive = []
        self.events, self.samples = {}, {}
        self.evaluations = self.checks = self.workers = self.peak = 0
        self.cases, self.states = set(), set()
        self.known = []
        self.lock = threading.Lock()
        self.n = 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def build(self, flavour):
        if flavour not in self.dirs:
            d = os.path.join(self.scratch, flavour)
            os.makedirs(d)
            build.build(d, flavour)
            self.dirs[flavour] = d
        return self.dirs[flavour]

    def env(self, flavour):
        d = self.dirs[flavour]
        keep = {k: os.environ[k] for k in ('PATH', 'HOME', 'LANG', 'TMPDIR', 'PDS_TRACE') if k in os.environ}
        env = dict(keep, PYTHONPATH=d, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                   PDS_TIER=self.tier, PYTHONFAULTHANDLER='1')
        if flavour == 'asan':
            env.update(build.san_env(), PDS_ASAN='1')
        elif flavour == 'count':
            env.update(PDS_COUNT=os.path.join(d, 'libpdscount.so'))
        elif flavour == 'debugmalloc':
            env.update(PYTHONMALLOC='debug')
        return env

    def spawn(self, flavour, argv, stderr):
        # an empty working directory: nothing may depend on where one starts
        env, cwd = self.env(flavour), os.path.join(self.scratch, 'cwd')
        os.makedirs(cwd, exist_ok=True)
        return subprocess.Popen([build.PYTHON, WORKER] + argv, env=env, cwd=cwd,
                                stdout=subprocess.DEVNULL, stderr=stderr,
                                stdin=subprocess.DEVNULL, start_new_session=True)

    def run_chunk(self, flavour, jobs):
        """Runs jobs; restarts after a crash with the jobs that are left."""
        crashes = 0
        while jobs:
            with self.lock:
                self.n += 1
                base = os.path.join(self.scratch, 'w%d' % self.n)
                self.workers += 1
            with open(base + '.jobs', 'w') as f:
                json.dump(jobs, f)
            with open(base + '.err', 'wb') as err:
                p = self.spawn(flavour, [self.prop, base + '.jobs', base + '.out', base + '.prog'], err)
                try:
                    rc = p.wait(WATCHDOG)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = 'watchdog'
            if os.path.exists(base + '.out'):
                with open(base + '.out') as f:
                    self.merge(json.load(f))
            if rc == 0:
                return
            with open(base + '.err', errors='replace') as f:
                text = f.read()
            try:
                with open(base + '.prog') as f:
                    at = int(f.read())
            except (OSError, ValueError):
                with self.lock:
                    self.inconclusive.append('worker did not start (%s): %s' % (rc, text[-1500:]))
                return
            if rc == 'watchdog' or rc == -signal.SIGKILL:
                with self.lock:
                    self.inconclusive.append('worker stopped from outside (%s) at job %s'
                                             % (rc, jobs[min(at, len(jobs) - 1)]))
                return
            if at >= len(jobs):
                with self.lock:
                    self.inconclusive.append('worker failed after its jobs (%s): %s' % (rc, text[-1500:]))
                return
            job = jobs[at]
            with self.lock:
                self.violations.append(dict(
                    what=crash_text(rc, text), detail={'exit': str(rc)}, log=[],
                    trace=clip(text), job=job, flavour=flavour))
            crashes += 1
            jobs = jobs[at + 1:]
            if crashes >= 3:
                return

    def merge(self, out):
        with self.lock:
            self.evaluations += out['evaluations']
            self.checks += out['checks']
            self.peak = max(self.peak, out['peak_steps'])
            self.cases.update(out['cases'])
            self.states.update(out['states'])
            for k, v in out['events'].items():
                self.events[k] = self.events.get(k, 0) + v
            for k, v in out['samples'].items():
                self.samples.setdefault(k, v)
            self.violations.extend(out['violations'])

    def explore(self, spec):
        chunks = []
        for flavour in sorted({s.get('flavour', 'plain') for s in spec['scenarios'].values()}):
            jobs = []
            for name, sc in spec['scenarios'].items():
                if sc.get('flavour', 'plain') != flavour:
                    continue
                n = sc[self.tier]
                scale = float(os.environ.get('PDS_SCALE', '1')) * (PACE.get(self.prop, 1) if self.tier == 'quick' else 1)
                for i in range(max(1, int(n * scale))):
                    jobs.append({'scenario': name, 'index': i, 'flavour': flavour,
                                 'seed': derive(self.seed, self.prop, name, i)})
            self.build(flavour)
            k = min(len(jobs), NPROC * (3 if self.tier == 'quick' else 8))
            for c in range(k):
                chunks.append((flavour, jobs[c::k]))
        queue = list(reversed(chunks))

        def work():
            while True:
                with self.lock:
                    if not queue or len(self.violations) >= 12:
                        return
                    flavour, jobs = queue.pop()
                self.run_chunk(flavour, jobs)
        threads = [threading.Thread(target=work) for _ in range(NPROC)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()

    def probes(self, spec):
        for pid, (expect, text) in sorted(known_findings(self.prop).items()):
            flavour = 'plain'
            self.build(flavour)
            base = os.path.join(self.scratch, 'probe-' + pid)
            with open(base + '.err', 'wb') as err:
                p = self.spawn(flavour, ['--probe', self.prop, pid, base + '.out'], err)
                try:
                    rc = p.wait(WATCHDOG)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = 'watchdog'
            res, detail = 'crash', str(rc)
            if os.path.exists(base + '.out'):
                with open(base + '.out') as f:
                    d = json.load(f)
                res, detail = d['result'], d['detail']
            elif rc == 'watchdog':
                res = 'watchdog'
            if res == expect or (expect == 'present' and res == 'present'):
                self.known.append((pid, text))
                print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, pid, text))
            elif res == 'absent' or (expect in ('crash', 'nontermination') and res == 'present'):
                self.known.append((pid, 'not reproduced on this tree'))
            elif res == 'watchdog':
                self.inconclusive.append('probe %s: %s' % (pid, detail))
            else:
                self.violations.append(dict(
                    what='the input of known finding %s now fails in a different way (%s)' % (pid, res),
                    detail={'detail': detail}, log=[], trace='',
                    job={'probe': pid, 'scenario': 'probe', 'seed': 0}))


def crash_text(rc, text):
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', text)
    if m:
        where = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+)[^\n]*/pydatastructs/', text)
        return 'AddressSanitizer: %s in %s' % (m.group(1), where[0] if where else '?')
    m = re.search(r'/(pydatastructs/\S+): runtime error: ([^\n]*)', text)
    if m:
        return 'UndefinedBehaviorSanitizer: %s at %s' % (m.group(2), m.group(1))
    if isinstance(rc, int) and rc < 0:
        if -rc == signal.SIGXCPU:
            return 'no termination: native code used up the CPU budget of the case'
        return 'interpreter killed by %s' % signal.Signals(-rc).name
    return 'interpreter exited with %s' % rc


def clip(text):
    return text if len(text) < 8000 else text[:5000] + '\n[...]\n' + text[-3000:]


def main():
    prop = sys.argv[1]
    replay = None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        with open(sys.argv[3]) as f:
            replay = json.load(f)
    elif len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = load_specs()[prop]
    run = Run(prop, tier, seed)
    code = 2
    try:
        try:
            if replay:
                job = replay['job']
                run.build(job.get('flavour', 'plain'))
                run.run_chunk(job.get('flavour', 'plain'), [job])
                for v in run.violations:
                    print(json.dumps(v, indent=1))
                    print('VIOLATION property=%s replay=%s' % (prop, sys.argv[3]))
                sys.exit(1 if run.violations else 2 if run.inconclusive else 0)
            run.explore(spec)
            run.probes(spec)
        except build.BuildError as e:
            run.inconclusive.append('the tree does not build: %s' % e)
        code = conclude(run, spec, t0)
    finally:
        run.cleanup()
    sys.exit(code)


def conclude(run, spec, t0):
    prop = run.prop
    evdir = os.path.join(HERE, 'evidence')
    rdir = os.path.join(evdir, 'replays')
    os.makedirs(rdir, exist_ok=True)
    if not run.violations:
        for kind in spec.get('required', []):
            if not run.events.get(kind):
                run.inconclusive.append('no event of kind %r was observed' % kind)
        for kind in run.events:
            if kind.startswith('monitor-unavailable'):
                print('note: %s (%d)' % (kind, run.events[kind]))
        if run.evaluations == 0:
            run.inconclusive.append('nothing was evaluated')
    seen, lines = set(), []
    for v in run.violations:
        key = (v['job']['scenario'], re.sub(r'\d+', 'N', v['what']))
        if key in seen or len(seen) >= 5:
            continue
        seen.add(key)
        path = os.path.join(rdir, '%s-%s-%d.json' % (prop, v['job']['scenario'].replace(' ', '_'), v['job']['seed'] % 10**8))
        with open(path, 'w') as f:
            json.dump(dict(v, property=prop), f, indent=1, default=str)
        print('%s: scenario %s: %s' % (prop, v['job']['scenario'], v['what']))
        for k, d in list(v['detail'].items())[:8]:
            print('    %s = %s' % (k, str(d)[:300]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    ops = {k: v for k, v in run.events.items()}
    ev = {
        'property': prop, 'tier': run.tier, 'seed': run.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': run.evaluations,
            'distinct_nontrivial': len(run.cases),
            'rule': spec['rule'],
            'samples': [{'scenario': k, 'case': s} for k, v in sorted(run.samples.items()) for s in v],
            'oracle_judgements': run.checks,
            'distinct_observed_states': len(run.states),
            'events_observed': dict(sorted(ops.items())),
            'worker_processes': run.workers,
            'peak_loop_iterations_in_one_case': run.peak,
            'known_findings': ['%s: %s' % k for k in run.known],
            'inconclusive': run.inconclusive[:10],
            'violations': [v['what'] for v in run.violations][:10],
        },
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if lines:
        print('\n'.join(lines))
        return 1
    if run.inconclusive:
        for s in run.inconclusive[:3]:
            print('INCONCLUSIVE property=%s %s' % (prop, s[-600:]))
        return 2
    print('%s held: %d cases (%d distinct), %d judgements, %d observed states, %.1fs'
          % (prop, run.evaluations, len(run.cases), run.checks, len(run.states), time.time() - t0))
    return 0


if __name__ == '__main__':
    main()
