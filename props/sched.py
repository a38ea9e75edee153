"""Perturbs the threads the package starts and records how they ran.

Works on whatever starts threads: tasks handed to a ThreadPoolExecutor start
late and end late by random amounts, and every thread gives way at random lines
of the package.  Nothing about the code under test is assumed."""
import contextlib
import random
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor


@contextlib.contextmanager
def schedule(mon, rng, strength=None):
    """mode 0 leaves the threads alone but for the switch interval"""
    mode = rng.choice([0, 1, 1, 2, 3]) if strength is None else strength
    own = random.Random(rng.randrange(10 ** 9))
    lock = threading.Lock()
    started, ended, live, overlap = [], [], [0], [0]
    span = own.choice([0.00005, 0.0003, 0.001])
    budget = [0.15]         # seconds of injected delay, over all threads

    def nap(seconds):
        with lock:
            budget[0] -= seconds
            left = budget[0]
        time.sleep(seconds if left > 0 else 0)

    def draw(p):
        with lock:
            return own.random() * span if own.random() < p else None

    submit = ThreadPoolExecutor.submit

    def late(self, fn, *args, **kwargs):
        with lock:
            me = len(started)
            started.append(me)

        def task(*a, **k):
            with lock:
                live[0] += 1
                overlap[0] += live[0] > 1
            if mode & 1:
                s = draw(0.5)
                if s is not None:
                    nap(s)
            try:
                return fn(*a, **k)
            finally:
                if mode & 1:
                    s = draw(0.3)
                    if s is not None:
                        nap(s)
                with lock:
                    live[0] -= 1
                    ended.append(me)
        return submit(self, task, *args, **kwargs)

    def lines(frame, event, arg):
        if 'pydatastructs' not in frame.f_code.co_filename:
            return None
        if event == 'line':
            s = draw(0.05)
            if s is not None:
                nap(s / 4 if s > span / 2 else 0)
        return lines

    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-5, 1e-4, 5e-3]))
    ThreadPoolExecutor.submit = late
    if mode & 2:
        threading.settrace(lines)
        sys.settrace(lines)
    try:
        yield
    finally:
        if mode & 2:
            sys.settrace(None)
            threading.settrace(None)
        ThreadPoolExecutor.submit = submit
        sys.setswitchinterval(old)
    mon.ev('tasks run', len(ended))
    mon.ev('tasks that overlapped', overlap[0])
    if ended != sorted(ended):
        mon.ev('tasks overtaken')
        mon.state(('order', tuple(ended[:12])))
    if mode:
        mon.ev('perturbed schedules')
