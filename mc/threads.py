"""Two or more threads under a controlled scheduler: exactly one runs at a time, and where
it hands over is part of the case.  A point is a line event of the code in /repo."""
import sys
import threading

REPO = '/repo/metadetect'
WAIT = 30.0


class Threads(object):
    """bodies: callables; plan: list of (thread, n): the thread runs until it has passed n
    points, at most once per thread.  What is not finished then runs to its end, beginning
    with the thread after the last of the plan."""

    def __init__(self, bodies, plan, record=False):
        self.bodies, self.plan = bodies, plan
        self.left = [None]*len(bodies)
        self.go = [threading.Event() for _ in bodies]
        self.back = threading.Event()
        self.done = [False]*len(bodies)
        self.result = [None]*len(bodies)
        self.error = [None]*len(bodies)
        self.trace = [] if record else None
        self.points = [0]*len(bodies)
        self.switches = 0
        self.free = False

    def point(self, k, frame):
        self.points[k] += 1
        if self.trace is not None:
            self.trace.append((frame.f_code.co_filename[len(REPO):], frame.f_lineno))
        n = self.left[k]
        if n is None or self.free:
            return
        if n > 1:
            self.left[k] = n - 1
            return
        self.left[k] = None
        self.go[k].clear()
        self.back.set()
        self.go[k].wait()

    def tracer(self, k):
        def local(frame, event, arg):
            if event == 'line':
                self.point(k, frame)
                if self.left[k] is None and self.trace is None:
                    # no further point for this thread: not observed any more
                    sys.settrace(None)
                    return None
            return local

        def start(frame, event, arg):
            if frame.f_code.co_filename.startswith(REPO):
                return local
            return None
        return start

    def thread(self, k):
        self.go[k].wait()
        if self.left[k] is not None or self.trace is not None:
            sys.settrace(self.tracer(k))
        try:
            self.result[k] = self.bodies[k]()
        except BaseException as e:
            self.error[k] = e
        finally:
            sys.settrace(None)
            self.done[k] = True
            self.back.set()

    def run(self):
        ts = [threading.Thread(target=self.thread, args=(k,), daemon=True)
              for k in range(len(self.bodies))]
        for t in ts:
            t.start()
        first = self.plan[-1][0] + 1 if self.plan else 0
        rest = [((first + k) % len(ts), None) for k in range(len(ts))]
        for k, n in list(self.plan) + rest:
            if self.done[k]:
                continue
            self.left[k] = n
            self.back.clear()
            self.switches += 1
            self.go[k].set()
            if not self.back.wait(WAIT):
                # it waits for a thread that does not run (a lock): no more control
                self.free = True
                for g in self.go:
                    g.set()
                break
        for t in ts:
            t.join(WAIT)
        return not any(t.is_alive() for t in ts)


def trace_of(body):
    t = Threads([body], [], record=True)
    t.run()
    return t
