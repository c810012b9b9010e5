"""C09 appends are matched to recipes exactly, whatever the load order."""
from .. import world as W
from ..harness import fail, expect_equal, Invalid

ID = 'C09'
QUICK = {'runs': 24000}
THOROUGH = {'runs': 80000, 'secs': 780}
RULE = ('seeded sets of recipe and append names (prefixes of each other, regex meta characters, %, versions) are loaded from seeded directories in a '
        'seeded order with seeded short reads, includes, repeated loads and queries in between; links and lone appends are compared with an exact %-wildcard match. '
        'Non-trivial: at least one append matches one recipe and not another.')
NAMES = ['foo', 'foo-bar', 'foobar', 'fo', 'gtk+', 'gtk', 'c++', 'x.y', 'xzy', 'a-b', 'foo+', 'libfoo', 'f.o', 'foo.bb', 'foo.bbx', 'foo.bbappend', 'foo.inc']
VERS = ['1.0', '1.0.1', '1', '10', '1.00', '1x0', 'git', '1.0+git', '2.0', '1.0-r1', '1_2']


def gen(rng, tier):
    recs, aps = [], []
    pool = rng.sample(NAMES, rng.choice([1, 2, 3]))
    vers = rng.sample(VERS, rng.choice([1, 2, 3]))
    if rng.random() < 0.2:
        # upper and lower case are different names
        pool.append(rng.choice([pool[0].upper(), pool[0].capitalize()]))
        if rng.random() < 0.5:
            vers += [vers[0] + 'a', vers[0] + 'A']
    for _ in range(rng.choice([1, 2, 3, 4])):
        n = rng.choice(pool)
        recs.append(n + ('_' + rng.choice(vers) if rng.random() < 0.9 else ''))
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.6:
            base = rng.choice(recs)
        else:
            base = rng.choice(pool) + '_' + rng.choice(vers)
        k = rng.random()
        if k < 0.4:
            a = base
        elif k < 0.6:
            a = base.split('_')[0] + '_%'
        elif k < 0.75:
            a = base + '%'
        elif k < 0.85:
            a = base[:rng.randrange(1, len(base) + 1)] + '%'
        elif k < 0.9:
            # several of them
            a = ''.join(x if rng.random() < 0.7 else '%' for x in base)
        elif k < 0.95:
            a = base[:-1]
        elif k < 0.97:
            a = rng.choice(['%_%', '%_1%', '%%', '_%', '%-%_%', '%o%'])
        else:
            a = '%'
        aps.append(a or 'z')
    loads = []
    for kind, xs in (('bb', recs), ('bbappend', aps)):
        for x in dict.fromkeys(xs):
            for d in rng.sample(['', '2', 'same'], rng.choice([1, 1, 1, 1, 2])):
                # a directory of its own kind, another one, or one that recipes and appends share
                loads.append([kind, x, d, rng.choice([None, None, 'a', 'b', 'c', 'missing'])])
    rng.shuffle(loads)
    if rng.random() < 0.15:
        loads.insert(rng.randrange(len(loads) + 1), rng.choice(loads))
    asks = [[rng.randrange(len(loads) + 1), rng.choice(['links', 'lone', 'recipes', 'items'])] for _ in range(rng.choice([0, 0, 1, 3]))]
    return {'loads': loads, 'finalize_between': int(rng.random() < 0.3), 'final': rng.choice([1, 1, 1, 2, 0]), 'asks': asks,
            'empty': rng.choice([0] * 7 + [1, 2, 3]), 'chunk_seed': rng.randrange(1 << 30)}


def run(sc, ctx):
    w = ctx.world(chunk_seed=sc['chunk_seed'])
    lib = ctx.lib()
    s = lib.Stash(quiet=True)
    w.fs.write('/sim/meta-x/conf/layer.conf', '')
    for x in 'abc':
        w.fs.write('/sim/meta-x/inc/%s.inc' % x, 'I = "%s"\n' % x)
    paths, incs = [], {}

    def ask(n):
        for at, what in sc['asks']:
            if at == n:
                for p in paths:
                    if what == 'links':
                        s.GetLinksForFile(p)
                    elif what == 'items':
                        s.GetItemsFor(filename=p)
                if what == 'lone':
                    s.GetLoneAppends()
                elif what == 'recipes':
                    s.GetRecipes()
    for n, (kind, x, d, inc) in enumerate(sc['loads']):
        ask(n)
        p = '/sim/meta-x/recipes-%s/%s.%s' % (d if d == 'same' else kind + d, x, kind)
        text = 'A%s = "1"\n' % ('' if kind == 'bb' else '_append')
        if sc['empty'] & (1 if kind == 'bb' else 2):
            text = ''
        if inc:
            text += 'require inc/%s.inc\n' % inc
        if p in incs and incs[p] != inc:
            raise Invalid('two contents')
        if p not in paths:
            paths.append(p)
        incs[p] = inc
        w.fs.write(p, text)
        s.AddFile(p)
        if sc['finalize_between']:
            s.Finalize()
    ask(len(sc['loads']))
    for _ in range(sc['final']):
        s.Finalize()
    recs = [p for p in paths if p.endswith('.bb')]
    aps = [p for p in paths if p.endswith('.bbappend')]
    linked = set()
    done = sc['final'] or sc['finalize_between']

    def inc_of(p):
        return {'/sim/meta-x/inc/%s.inc' % incs[p]} if incs[p] not in (None, 'missing') else set()
    for r in recs:
        mine = {a for a in aps if W.append_matches(a, r)}
        linked |= mine
        # nothing can come from an append without any items
        want = {a for a in mine if incs[a] or not sc['empty'] & 2} | inc_of(r)
        if done:
            for a in mine:
                want |= inc_of(a)
        got = set(s.GetLinksForFile(r))
        if got != want:
            fail('match', 'links of %s in load order %s: missing %s, unexpected %s' % (
                r, [x[:3] for x in sc['loads']], sorted(want - got), sorted(got - want)))
        if mine and len(mine) < len(aps):
            ctx.nontrivial = True
    for a in aps:
        got = set(s.GetLinksForFile(a))
        if got != inc_of(a):
            fail('append-links', 'append %s is linked to %s' % (a, sorted(got)))
    expect_equal('lone', s.GetLoneAppends(), sorted(set(aps) - linked), 'lone appends')
    expect_equal('recipes', s.GetRecipes(), sorted(recs), 'recipes')
