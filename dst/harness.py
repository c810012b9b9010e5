"""Shared vocabulary of the property checks."""
import hashlib
import json
import random
import traceback

from . import seams


class Violation(Exception):
    def __init__(self, kind, message, **detail):
        super().__init__('%s: %s' % (kind, message))
        self.kind = kind
        self.message = message
        self.detail = detail


class Invalid(Exception):
    """The scenario is outside what the property quantifies over."""


def h64(*parts):
    d = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(d[:8], 'big')


def canon(x):
    """JSON-able canonical form; sets are sorted, order of lists is kept."""
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, (set, frozenset)):
        return {'set': sorted((canon(y) for y in x), key=repr)}
    if isinstance(x, dict):
        return {'dict': [[canon(k), canon(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)) or hasattr(x, 'data'):
        return [canon(y) for y in x]
    return '<%s>' % type(x).__name__


def short(x, n=300):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    """One execution of one scenario."""

    def __init__(self):
        self.worlds = []
        self.nontrivial = False
        self.key = None
        self.extra = {}
        self.schedules = []
        self.plan_override = None

    def world(self, **kw):
        w = seams.World(**kw)
        self.worlds.append(w)
        seams.set_world(w)
        return w

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def lib(self):
        return seams.Lib()

    def digest(self):
        return hashlib.sha256('|'.join(w.digest() for w in self.worlds).encode()).hexdigest()[:16]

    def stats(self):
        faults, simt, reads, rx = {}, 0.0, 0, 0
        for w in self.worlds:
            for k, v in w.fired_kinds.items():
                faults[k] = faults.get(k, 0) + v
            simt += w.now
            reads += w.counters.get('short_reads', 0)
            rx += w.regex_calls
        return {'faults': faults, 'sim_s': simt, 'short_reads': reads, 'regex_ops': rx,
                'opens': sum(w.opens for w in self.worlds), 'extra': self.extra}


def fail(kind, message, **detail):
    raise Violation(kind, message, **detail)


def expect_equal(kind, got, want, what):
    if got != want:
        raise Violation(kind, '%s: got %s, expected %s' % (what, short(got), short(want)))


def execute(prop, scenario):
    """Run one scenario.  Returns a JSON-able result."""
    ctx = Ctx()
    res = {}
    try:
        prop.run(scenario, ctx)
        res['ok'] = True
    except Invalid as e:
        res.update(ok=True, invalid=str(e))
    except Violation as e:
        res.update(ok=False, kind=e.kind, message=e.message, detail=canon(e.detail))
    except (KeyboardInterrupt, Exception, seams.SimHang, seams.StepBudget) as e:
        seams.set_world(None)
        tb = traceback.format_exc(limit=-12)
        res.update(ok=False, kind='exception:%s' % type(e).__name__,
                   message='unexpected %s: %s' % (type(e).__name__, short(str(e))), detail=tb)
        if isinstance(e, (ImportError, SyntaxError)):
            res['harness'] = True
    finally:
        seams.set_world(None)
    if ctx.plan_override is not None:
        res['plan'] = ctx.plan_override
    res['digest'] = ctx.digest()
    res['key'] = ctx.key or res['digest']
    res['nontrivial'] = bool(ctx.nontrivial) and 'invalid' not in res
    res['stats'] = ctx.stats()
    if ctx.schedules:
        res['schedules'] = ctx.schedules
    return res


def generate(prop, seed, index, tier):
    rng = random.Random(h64(seed, prop.ID, index))
    seams.set_world(None)
    try:
        return prop.gen(rng, tier)
    finally:
        seams.set_world(None)
