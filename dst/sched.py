"""Deterministic thread scheduler.

Threads are real, but only the holder of the baton runs.  At every line (or
bytecode instruction) of library code the scheduler may hand the baton to
another thread; which one is a pure function of the schedule, so one schedule is
one exactly repeatable interleaving.
"""
import random
import sys
import threading

from . import seams

TOOL = 4
_mon = sys.monitoring


class Deadlock(BaseException):
    pass


class Sched:
    """plan: {'mode': 'line'|'instr', 'switches': [[step, tid], ...]}  (replay)
    or      {'mode': ..., 'seed': s, 'p': probability}                 (random)
    or      {'mode': ..., 'seed': s, 'points': [step, ...]}            (PCT-like)
    """

    def __init__(self, plan, max_steps=30_000_000):
        self.plan = plan
        self.rng = random.Random(plan.get('seed', 0))
        self.p = plan.get('p', 0.0)
        self.points = set(plan.get('points', ()))
        self.switches = {}
        for x in plan.get('switches', []):
            if len(x) == 2:
                self.switches[x[0]] = x[1]
        self.explicit = 'switches' in plan
        self.steps = 0
        self.taken = []            # the schedule that was executed
        self.max_steps = max_steps
        self.cur = None
        self.alive = []
        self.sems = []
        self.local = threading.local()
        self.overrun = False
        self.idle_spins = 0

    # called from library code in the thread that owns the baton
    def _hook(self, *_a):
        tid = getattr(self.local, 'tid', None)
        if tid is None or self.cur != tid or seams.WORLD is None or seams.WORLD.muted:
            return
        self.steps += 1
        n = self.steps
        self.idle_spins = 0
        if n > self.max_steps:
            self.overrun = True
            raise seams.StepBudget('more than %d scheduler steps' % self.max_steps)
        if self.explicit:
            t = self.switches.get(n)
            if t is None or t == tid or t not in self.alive:
                return
        elif n in self.points or (self.p and self.rng.random() < self.p):
            others = [x for x in self.alive if x != tid]
            if not others:
                return
            t = self.rng.choice(others)
        else:
            return
        self.taken.append([n, t])
        self._switch(tid, t)

    def yield_blocked(self):
        """The running thread waits for a lock held by another thread."""
        tid = self.local.tid
        others = [x for x in self.alive if x != tid]
        self.idle_spins += 1
        if not others or self.idle_spins > 100:
            raise Deadlock('all threads wait for locks')
        # round robin: deterministic, lets the owner make progress
        t = others[(others.index(min(others, key=lambda x: (x <= tid, x))))]
        self._switch(tid, t)

    def _switch(self, me, to):
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()

    def run(self, fns):
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        results = [None] * n
        done = threading.Semaphore(0)

        def body(i, fn):
            self.sems[i].acquire()
            self.local.tid = i
            try:
                results[i] = ('ok', fn())
            except BaseException as e:  # noqa
                results[i] = ('err', e)
            finally:
                self.local.tid = None
                self.alive.remove(i)
                if self.alive:
                    if self.explicit:
                        t = self.plan.get('ends', {}).get(str(i))
                        if t not in self.alive:
                            t = self.alive[0]
                    else:
                        t = self.rng.choice(self.alive)
                    self.ends[str(i)] = t
                    self.cur = t
                    self.sems[t].release()
                else:
                    done.release()
        self.ends = {}
        ths = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        _mon.use_tool_id(TOOL, 'dst-sched')
        ev = _mon.events.INSTRUCTION if self.plan.get('mode') == 'instr' else _mon.events.LINE
        codes = seams.codes()
        if self.plan.get('!scope'):
            codes = [c for c in codes if c.co_filename.endswith(tuple('/%s.py' % m for m in self.plan['!scope']))]
        try:
            _mon.register_callback(TOOL, ev, self._hook)
            for c in codes:
                _mon.set_local_events(TOOL, c, ev)
            if seams.WORLD is not None:
                seams.WORLD.sched = self
            for t in ths:
                t.start()
            start = self.plan.get('start', 0)
            self.cur = start
            self.sems[start].release()
            done.acquire()
            for t in ths:
                t.join()
        finally:
            if seams.WORLD is not None:
                seams.WORLD.sched = None
            for c in codes:
                _mon.set_local_events(TOOL, c, 0)
            _mon.register_callback(TOOL, ev, None)
            _mon.free_tool_id(TOOL)
        return results

    def replay_plan(self):
        res = {'mode': self.plan.get('mode', 'line'), 'start': self.plan.get('start', 0),
               'switches': self.taken, 'ends': self.ends}
        if self.plan.get('!scope'):
            res['!scope'] = self.plan['!scope']
        return res


class Budget:
    """Deterministic step budget for single-threaded runs (termination checks); budgets can be nested."""
    active = []

    def __init__(self, limit):
        self.limit = limit
        self.steps = 0

    @staticmethod
    def _hook(*_a):
        for b in Budget.active:
            b.steps += 1
            if b.steps > b.limit:
                raise seams.StepBudget('more than %d library lines executed' % b.limit)

    def __enter__(self):
        self.active.append(self)
        if len(self.active) > 1:
            return self
        _mon.use_tool_id(TOOL, 'dst-budget')
        _mon.register_callback(TOOL, _mon.events.LINE, self._hook)
        self.codes = seams.codes()
        for c in self.codes:
            _mon.set_local_events(TOOL, c, _mon.events.LINE)
        return self

    def __exit__(self, *a):
        self.active.pop()
        if self.active:
            return False
        for c in self.codes:
            _mon.set_local_events(TOOL, c, 0)
        _mon.register_callback(TOOL, _mon.events.LINE, None)
        _mon.free_tool_id(TOOL)
        return False


class LineFault:
    """Raises an exception when the nth line of the library modules given is reached; with nth=0 it counts only."""

    def __init__(self, nth, exc=None, modules=('parser', 'cls_item', 'rpl_regex', 'inlinerep')):
        self.nth = nth
        self.exc = exc
        self.steps = 0
        self.fired = False
        self.codes = [c for c in seams.codes() if c.co_filename.endswith(tuple('/%s.py' % m for m in modules))]

    def _hook(self, *_a):
        self.steps += 1
        if self.steps == self.nth and not self.fired:
            self.fired = True
            raise self.exc

    def __enter__(self):
        _mon.use_tool_id(TOOL, 'dst-linefault')
        _mon.register_callback(TOOL, _mon.events.LINE, self._hook)
        for c in self.codes:
            _mon.set_local_events(TOOL, c, _mon.events.LINE)
        return self

    def __exit__(self, *a):
        for c in self.codes:
            _mon.set_local_events(TOOL, c, 0)
        _mon.register_callback(TOOL, _mon.events.LINE, None)
        _mon.free_tool_id(TOOL)
        return False
