"""Runs programs in concurrent threads, with switches injected inside the library."""
import random
import sys
import threading
import time

from estmon.core import REPO, Inconclusive


def concurrent(programs, rate=None):
    """programs: functions making one step, returning False when done. With a `rate`, the
    thread is yielded at that rate of the lines executed in the library. Returns the order in
    which steps ended and the number of yields."""
    root = REPO.rstrip("/") + "/estrade/"
    problems, order = [], []
    barrier = threading.Barrier(len(programs))
    counts = [0] * len(programs)

    def program(k):
        rng = random.Random(k)

        def tracer(frame, event, arg):
            if event == "call":
                return tracer if frame.f_code.co_filename.startswith(root) else None
            if event == "line" and rng.random() < rate:
                counts[k] += 1
                time.sleep(0)
            return tracer

        try:
            barrier.wait(30)
            if rate:
                sys.settrace(tracer)
            while programs[k]():
                order.append(k)
        except BaseException as x:  # noqa: judged by the caller
            problems.append(x)
        finally:
            sys.settrace(None)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5 if rate else 1e-6)
    try:
        threads = [threading.Thread(target=program, args=(k,)) for k in range(len(programs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(180)
            if t.is_alive():
                raise Inconclusive("a program did not end")
    finally:
        sys.setswitchinterval(interval)
    if problems:
        raise problems[0]
    return order, sum(counts)
