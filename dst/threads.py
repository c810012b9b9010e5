"""Several threads on simulated worlds: scripts, schedules and their bookkeeping."""
import hashlib

from . import query as Q, sched as S
from .harness import Invalid

SCOPES = [None, None, ['cls_stash', 'constants'], ['cls_stash', 'constants', 'cls_item'], ['parser', 'cls_stash']]


def gen_plan(rng, n):
    """which points of the execution are switched; the number of steps is not known yet"""
    plan = {'seed': rng.randrange(1 << 30), 'start': rng.randrange(n), 'mode': 'instr' if rng.random() < 0.25 else 'line'}
    sc = rng.choice(SCOPES)
    if sc:
        plan['!scope'] = sc
    r = rng.random()
    if r < 0.6:
        plan['p'] = rng.choice([0.5, 0.2, 0.05, 0.01, 0.002])
    else:
        # few preemptions, anywhere
        plan['fracs'] = sorted(round(rng.random(), 6) for _ in range(rng.choice([1, 1, 2, 3, 5, 8])))
    return plan


def gen_duel(rng, n):
    """many switches within few modules"""
    return {'seed': rng.randrange(1 << 30), 'start': rng.randrange(n), 'mode': 'instr' if rng.random() < 0.25 else 'line',
            '!scope': rng.choice([['cls_stash'], ['cls_stash', 'cls_item'], ['cls_stash', 'constants', 'rpl_regex'], ['parser', 'inlinerep', 'cls_item'], ['cls_stash', 'parser', 'inlinerep', 'cls_item', 'constants', 'rpl_regex']]),
            'p': rng.choice([0.5, 0.3, 0.1])}


def check_plan(plan, n):
    if not isinstance(plan, dict) or not 0 <= plan.get('start', 0) < n:
        raise Invalid('plan')
    for x in plan.get('switches', []):
        if len(x) != 2 or not all(isinstance(y, int) for y in x) or not 0 <= x[1] < n:
            raise Invalid('plan')


def measure(plan, fn):
    """executes fn under the scheduler without any switch; -> (result, steps)"""
    s = S.Sched({'switches': [], 'mode': plan.get('mode', 'line'), '!scope': plan.get('!scope')})
    r = s.run([fn])
    return r[0], s.steps


def execute(plan, fns, steps, ctx):
    """executes the functions concurrently; -> list of ('ok', value) or ('err', exception)"""
    p = dict(plan)
    if 'fracs' in p:
        p['points'] = [max(1, int(f * steps)) for f in p.pop('fracs')]
    s = S.Sched(p, max_steps=20 * steps + 100000)
    try:
        return s.run(fns)
    finally:
        rp = s.replay_plan()
        ctx.plan_override = rp
        ctx.count('schedule_steps', s.steps)
        ctx.count('thread_switches', len(s.taken))
        key = hashlib.sha256(repr((rp['start'], rp['switches'], sorted(rp['ends'].items()))).encode()).hexdigest()[:16]
        if s.taken:
            ctx.nontrivial = True
            ctx.schedules.append(key)
        ctx.key = (ctx.key or '') + key
        if ctx.worlds:
            ctx.worlds[-1].event('schedule', key, s.steps)


def ask(lib, s, q, spoil=False):
    """-> comparable answer, also of failing queries"""
    r = Q.raw(lib, s, q)
    v = Q.view(r)
    if spoil:
        Q.spoil(r)
    return v
