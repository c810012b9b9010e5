"""C13 concurrent readers of one stash see consistent answers."""
from .. import query as Q, threads as T, world as W
from ..harness import fail, Invalid, short
from .c02 import KINDS

ID = 'C13'
QUICK = {'runs': 1800}
THOROUGH = {'runs': 60000, 'secs': 780}
RULE = ('one stash is loaded and finalised, partly queried already; then two to four threads query it and modify the collections they got, under a seeded scheduler that owns every switch '
        '(line or bytecode granularity). Every answer, and a panel of answers asked afterwards, is compared with a single reader of a fresh library. Non-trivial: at least one preemption took place.')


def gen(rng, tier):
    sc = W.gen_layer(rng, depth=rng.choice([1, 2]), shared=rng.choice([0.0, 0.5]), size=(1, 2, 3), kinds=KINDS, inline=0.1)
    W.add_twins(rng, sc)
    files = [f['path'] for f in sc['files'] if 'blocks' in f]
    sc['files'].append({'path': '/sim/meta-x/recipes-a/foo/files/a.patch', 'raw': 'x'})
    pool = [Q.gen_query(rng, files) for _ in range(rng.choice([2, 4, 8]))]
    sc['warm'] = [rng.choice(pool) for _ in range(rng.choice([0, 0, 1, 3]))]
    sc['threads'] = [[[rng.choice(['ask', 'ask', 'ask', 'spoil']), rng.choice(pool) if rng.random() < 0.7 else Q.gen_query(rng, files)]
                      for _ in range(rng.choice([1, 2, 3, 6]))] for _ in range(rng.choice([2, 2, 3, 4]))]
    sc['plan'] = T.gen_plan(rng, len(sc['threads']))
    if rng.random() < 0.45:
        # everyone asks the same kind of question, about something else
        k = rng.choice(sorted(set(Q.KINDS)))
        sc['warm'] = []
        sc['threads'] = [[['ask', Q.gen_query(rng, files, [k])] for _ in range(rng.choice([1, 2, 3]))] for _ in sc['threads']]
        sc['plan'] = T.gen_duel(rng, len(sc['threads']))
    sc['chunk_seed'] = rng.randrange(1 << 30)
    sc['salt'] = rng.randrange(1 << 30)
    return sc


def run(sc, ctx):
    n = len(sc['threads'])
    if n < 2:
        raise Invalid('one thread')
    T.check_plan(sc['plan'], n)
    W.check_layer(sc)
    files = [f['path'] for f in sc['files'] if 'blocks' in f]
    panel = Q.panel(files)

    def start():
        w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
        W.put(w, sc['files'])
        lib = ctx.lib()
        return lib, W.load_all(lib, sc)
    lib, s = start()
    scripts = [[(q, op == 'spoil') for op, q in th] for th in sc['threads']]
    (st, r), steps = T.measure(sc['plan'], lambda: [[T.ask(lib, s, q) for q, _ in th] for th in scripts])
    if st != 'ok':
        raise r
    after = [Q.ask(lib, s, q) for q in panel]
    lib, s = start()
    for q in sc['warm']:
        Q.ask(lib, s, q)
    got = T.execute(sc['plan'], [lambda th=th: [T.ask(lib, s, q, sp) for q, sp in th] for th in scripts], steps, ctx)
    for i, ((st, a), b) in enumerate(zip(got, r)):
        if st != 'ok':
            fail('error', 'thread %d: %s: %s' % (i, type(a).__name__, short(str(a))))
        for (q, _), x, y in zip(scripts[i], a, b):
            if x != y:
                fail('inconsistent', 'thread %d: %s answers %s, a single reader gets %s' % (i, short(q), short(x), short(y)))
    for q, y in zip(panel, after):
        x = Q.ask(lib, s, q)
        if x != y:
            fail('damaged', 'afterwards %s answers %s, without the concurrent readers %s' % (short(q), short(x), short(y)))
