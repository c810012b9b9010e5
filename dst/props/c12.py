"""C12 stashes on different threads do not influence each other."""
from .. import query as Q, threads as T, world as W
from ..harness import fail, Invalid, short
from .c02 import KINDS, Player as Base

ID = 'C12'
QUICK = {'runs': 600}
THOROUGH = {'runs': 60000, 'secs': 780}
RULE = ('two to four threads, each with its own stash (and own parsing options), load, finalise, change and query files of the same layer, including files that cannot be read; '
        'a seeded scheduler owns every switch (line or bytecode granularity, random or few-preemption schedules). Every answer of every thread is compared with the same script run alone '
        'in a fresh library; in the end each machine and distribution of the layer is known exactly once. Non-trivial: at least one preemption took place.')
BAD = '/sim/meta-x/recipes-a/bad/bad_1.0.bb'


class Player(Base):
    """a script on one stash; items by their number, so that it is the same in any schedule"""

    def __init__(self, lib, th):
        self.lib = lib
        self.s = lib.Stash(quiet=True, new_style_override_syntax=th['new'], negative_inline=th['neg'])
        self.items, self.removed, self.others = [], [], []

    def play(self, ops, final):
        res = []
        for op in ops:
            try:
                if op[0] in ('ask', 'spoil'):
                    res.append(T.ask(self.lib, self.s, op[1], op[0] == 'spoil'))
                else:
                    self.change(op)
            except UnicodeDecodeError:
                res.append('unreadable')
        for q in final:
            res.append(T.ask(self.lib, self.s, q))
        return res


def own(q, path):
    """the question about the thread's own file"""
    if isinstance(q[1], str) and q[1].startswith('/'):
        return [q[0], path] + q[2:]
    if isinstance(q[1], dict):
        return [q[0], dict(q[1], filename=path)] + q[2:]
    return q


def gen(rng, tier):
    sc = W.gen_layer(rng, depth=rng.choice([1, 2]), shared=rng.choice([0.0, 0.5]), size=(1, 2, 3), kinds=KINDS, inline=0.15)
    W.add_twins(rng, sc)
    files = [f['path'] for f in sc['files'] if 'blocks' in f]
    sc['files'].append({'path': BAD, 'hex': 'ff41203d202231220a'})
    for x in ('machine/ma', 'machine/mb', 'distro/da'):
        if rng.random() < 0.7:
            sc['files'].append({'path': '/sim/meta-x/conf/%s.conf' % x, 'raw': 'M = "1"\n'})
    pool = [Q.gen_query(rng, files) for _ in range(4)]
    sc['threads'] = []
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        ops = []
        todo = list(sc['loads'])
        rng.shuffle(todo)
        todo = todo[:rng.choice([1, 1, 2, 3])]
        while todo or rng.random() < 0.3:
            r = rng.random()
            if todo and r < 0.55:
                ops.append(['load', todo.pop(0)])
            elif r < 0.65:
                ops.append(['final'])
            elif r < 0.7:
                ops.append(['remove', rng.randrange(1000), 1])
            elif r < 0.74:
                ops.append(['append', rng.randrange(1000), rng.choice([1, 1, 2, 50])])
            elif r < 0.76:
                ops.append(['removefile', rng.randrange(1000)])
            elif r < 0.8:
                ops.append(['set', rng.randrange(1000), '"xx"'])
            elif r < 0.85:
                ops.append(['load', BAD])
            else:
                ops.append([rng.choice(['ask', 'ask', 'spoil']), rng.choice(pool)])
        if rng.random() < 0.6:
            ops.append(['final'])
        sc['threads'].append({'ops': ops, 'new': rng.random() < 0.3 or sc['d'] == ':', 'neg': rng.random() < 0.3,
                              'final': [['items', {}]] + [rng.choice(pool) for _ in range(2)] + [Q.gen_query(rng, files)]})
    sc['plan'] = T.gen_plan(rng, len(sc['threads']))
    if rng.random() < 0.25:
        # the same kind of call on each stash, with other arguments
        k = rng.choice(sorted(set(Q.KINDS)) + ['load'] * 3 + ['var', 'term', 'pkgs', 'items'] * 2)
        for th in sc['threads']:
            th['ops'] = [['load', rng.choice(sc['loads'])]] + ([['final']] if rng.random() < 0.5 else [])
            th['final'] = [Q.gen_query(rng, files, [k]) for _ in range(rng.choice([1, 2, 3, 6]))] if k != 'load' else [['items', {}]]
        if k != 'load' and rng.random() < 0.7:
            # the loads are over when the threads start: the calls meet right away
            sc['warm'] = 1
            for th in sc['threads']:
                th['final'] = [q if len(q) < 2 or rng.random() < 0.3 else own(q, th['ops'][0][1]) for q in th['final']]
        sc['plan'] = T.gen_duel(rng, len(sc['threads']))
    sc['chunk_seed'] = rng.randrange(1 << 30)
    sc['salt'] = rng.randrange(1 << 30)
    return sc


def run(sc, ctx):
    n = len(sc['threads'])
    if n < 2:
        raise Invalid('one thread')
    T.check_plan(sc['plan'], n)
    if not all(op for th in sc['threads'] for op in th['ops'] + th['final']):
        raise Invalid('empty operation')
    W.check_layer(sc)
    want, steps = [], 0
    for th in sc['threads']:
        w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
        W.put(w, sc['files'])
        p = Player(ctx.lib(), th)
        pre = p.play(th['ops'], []) if sc.get('warm') else []
        ops = [] if sc.get('warm') else th['ops']
        (st, r), k = T.measure(sc['plan'], lambda: p.play(ops, th['final']))
        if st != 'ok':
            raise r
        want.append(pre + r)
        steps += k
    # what is known about the layer afterwards
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    W.put(w, sc['files'])
    ref = ctx.lib()
    for th in sc['threads']:
        Player(ref, th).play(th['ops'], [])
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    W.put(w, sc['files'])
    lib = ctx.lib()
    ps = [Player(lib, th) for th in sc['threads']]
    pre = [p.play(th['ops'], []) if sc.get('warm') else [] for p, th in zip(ps, sc['threads'])]
    got = T.execute(sc['plan'], [lambda p=p, th=th: p.play([] if sc.get('warm') else th['ops'], th['final']) for p, th in zip(ps, sc['threads'])], steps, ctx)
    got = [(st, x + r if st == 'ok' else r) for x, (st, r) in zip(pre, got)]
    for i, ((st, r), b) in enumerate(zip(got, want)):
        if st != 'ok':
            fail('error', 'thread %d: %s: %s' % (i, type(r).__name__, short(str(r))))
        asked = [op for op in sc['threads'][i]['ops'] if op[0] in ('ask', 'spoil') or op[1:] == [BAD]] + sc['threads'][i]['final']
        for q, x, y in zip(asked, r, b):
            if x != y:
                fail('interference', 'thread %d: %s answers %s, alone %s' % (i, short(q), short(x), short(y)))
    for path in ('replacements/machines', 'replacements/distros'):
        a, b = sorted(lib.CONSTANTS.GetByPath(path)), sorted(ref.CONSTANTS.GetByPath(path))
        if a != b:
            extra = [x for x in a if a.count(x) != b.count(x)]
            lost = [x for x in b if a.count(x) != b.count(x)]
            fail('constants', '%s after concurrent loads: %s, one after the other: %s' % (path, short(extra), short(lost)))
