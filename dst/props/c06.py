"""C06 loading and querying terminate."""
import random

from .. import sched, seams, world as W
from ..harness import fail, Invalid

ID = 'C06'
QUICK = {'runs': 2500}
THOROUGH = {'runs': 50000, 'secs': 780}
RULE = ('seeded file graphs with include/require/inherit cycles (self, mutual, through the layer root, through classes), cyclic and '
        'deep variable references, and worlds in which every regex operation is slow in simulated time; each run has a '
        'deterministic step budget, linear in the statements of a file graph and cubic in the number of variables, twice as many variables that refer to each other in many ways take at most 24 times the steps, and simulated time is bounded by the per-operation limit. '
        'Non-trivial: the graph or the variables contain a cycle, or regex operations timed out.')
STEPS_PER_STATEMENT = 100_000


def var_budget(n):
    # each of n references is looked up among n items for each of n values, without any caching; cycles and
    # diamonds which are followed again and again need a number of steps exponential in n
    return 200_000 + 100_000 * n + 500 * n ** 3


def gen(rng, tier):
    mode = rng.choice(['graph', 'graph', 'graph', 'vars', 'vars', 'dag', 'slow', 'paths'])
    if mode == 'graph':
        for _ in range(50):
            sc = gen_graph(rng)
            if expansions(sc) <= 40:
                break
        else:
            sc['files'] = sc['files'][:3]
        return sc
    if mode == 'dag':
        # every variable refers to the next one in several ways, all of them are empty in the end
        n = rng.choice([6, 7, 8, 9])
        ways = [[rng.choice(['${%(e)s}', '${%(c)sL}', '${%(c)sR}', "${@d.getVar('%(e)s')}", "${@d.getVar('%(c)sL')}",
                             "${@oe.utils.read_file('${%(c)sL}${%(e)s}')}"][:6 if rng.random() < 0.1 else 4])
                 for _ in range(rng.choice([2, 2, 3]))] for _ in range(n)]
        return {'mode': 'dag', 'ways': ways, 'shuffle': rng.choice([0, rng.randrange(1, 1000)])}
    if mode == 'vars':
        names = ['V%s' % c for c in 'ABCDEFGH']
        n = rng.choice([1, 2, 3, 5, 8])
        sub = names[:n]
        blocks = []
        for v in sub:
            k = rng.choice([0, 1, 1, 2])
            val = ' '.join(rng.choice(['${%s}' % rng.choice(sub), 'x', '${PN}', "${@d.getVar('%s')}" % rng.choice(sub),
                                       '${@oe.utils.read_file(\'%s\')}' % rng.choice(['/sim/none', '/sim/f', '${%s}' % rng.choice(sub)])])
                           for _ in range(k))
            # a variable may be used in another variable's name as well
            nm = v if rng.random() < 0.85 else v + '_${%s}' % rng.choice(sub)
            blocks.append({'k': 'item', 't': '%s = "%s"' % (nm, val)})
        if rng.random() < 0.3:
            depth = rng.choice([5, 20, 40])
            for i in range(depth):
                blocks.append({'k': 'item', 't': 'CH%s = "${CH%s}"' % (chr(97 + i % 26) * (i // 26 + 1), chr(97 + (i + 1) % 26) * ((i + 1) // 26 + 1))})
        base = {}
        if rng.random() < 0.4:
            # constants refer to each other and to variables as well
            bases = ['KA', 'KB', 'KC'][:rng.choice([1, 2, 3])]
            base = {x: ' '.join(rng.choice(['${%s}' % rng.choice(bases), '${%s}' % rng.choice(sub), 'x', "${@d.getVar('%s')}" % rng.choice(bases)])
                                for _ in range(rng.choice([0, 1, 2]))) for x in bases}
            blocks.append({'k': 'item', 't': '%s = "${%s} ${%s}"' % (rng.choice(sub + ['Z']), rng.choice(bases), rng.choice(sub))})
        return {'mode': 'vars', 'blocks': blocks, 'base': base}
    if mode == 'slow':
        return {'mode': 'slow', 'blocks': W.gen_doc(rng, rng.choice([2, 5, 10]), inline=0.4), 'secs': rng.choice([4.9, 5.5, 1e4])}
    return {'mode': 'paths', 'paths': [rng.choice(['/', '/sim', '', 'rel/x.bb', '/sim/none/deep/x.bb', '/sim/meta-x/a.bb', '/sim/meta-x/', '.',
                                                  '/sim/meta-x/conf/layer.conf', '//sim/meta-x', '/sim/meta-x/../meta-x/a.bb']) for _ in range(3)]}


def gen_graph(rng):
    base = '/sim/meta-x/recipes-a/foo/'
    paths = [base + 'foo_1.0.bb']
    paths += [base + 'i%d.inc' % i for i in range(rng.choice([0, 1, 2, 3]))]
    paths += ['/sim/meta-x/classes/c%d.bbclass' % i for i in range(rng.choice([0, 0, 1, 2, 3]))]
    paths += ['/sim/meta-x/conf/d%d.conf' % i for i in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < 0.3:
        paths.append(base + 'foo_%.bbappend')
    if rng.random() < 0.3:
        # appends and recipes of several versions are placed behind each other
        paths += [base + x for x in rng.sample(['foo_2.0.bb', 'foo_2.1.bb', 'foo_git.bb', 'foo_2.%.bbappend', 'foo_2.0.bbappend', 'fo%_%.bbappend', '%.bbappend'], rng.choice([2, 3, 5]))]
    files = [{'path': '/sim/meta-x/conf/layer.conf', 'raw': ''}]
    for p in paths:
        blocks = [{'k': 'var', 'n': 'A', 'sub': [], 'd': '_', 'op': ' = ', 'v': ['x']}]
        for _ in range(rng.choice([0, 1, 1, 2])):
            t = rng.choice(paths)
            if t.endswith('.bbclass'):
                c = t.split('/')[-1][:-8]
                blocks.append({'k': 'inherit', 'st': 'inherit', 'cls': [c]} if rng.random() < 0.8 else
                              {'k': 'iglob', 'op': ' += ', 'cls': [c]})
            else:
                nm = rng.choice([t.split('/')[-1], t[len('/sim/meta-x/'):]])
                blocks.append({'k': 'include', 'st': rng.choice(['include', 'require']), 'name': nm})
        rng.shuffle(blocks)
        files.append({'path': p, 'blocks': blocks})
    loads = [base + 'foo_1.0.bb'] + [p for p in paths[1:] if p.endswith(('.bb', '.bbappend'))]
    if rng.random() < 0.3:
        loads.append(rng.choice(paths))
    rng.shuffle(loads)
    return {'mode': 'graph', 'files': files, 'loads': loads}


def dag_blocks(sc, times):
    blocks = []
    ways = sc['ways'] * times
    for i, x in enumerate(ways):
        c, e = 'D' + chr(65 + i), 'D' + chr(66 + i)
        blocks.append({'k': 'item', 't': '%s = "%s"' % (c, ''.join(y % {'c': c, 'e': e} for y in x))})
        blocks.append({'k': 'item', 't': '%sL = "${%s}"' % (c, e)})
        blocks.append({'k': 'item', 't': '%sR = "${%sL}${%s}"' % (c, c, e)})
    if sc['shuffle']:
        random.Random(sc['shuffle']).shuffle(blocks)
    blocks.append({'k': 'item', 't': 'D%s = ""' % chr(65 + len(ways))})
    return blocks


def run_dag(sc, ctx):
    """twice as many variables need no more than a polynomial of low degree more steps"""
    if not sc['ways']:
        raise Invalid('empty')
    steps = []
    for times in (1, 2):
        w = ctx.world()
        lib = ctx.lib()
        path = '/sim/meta-x/recipes-a/foo/foo_1.0.bb'
        w.fs.write(path, W.render(dag_blocks(sc, times)))
        with sched.Budget(24 * steps[0] if steps else 30_000_000) as bud:
            s = lib.Stash(quiet=True)
            s.AddFile(path)
            s.Finalize()
            s.ExpandVar(filename=path)
            s.ExpandTerm(path, '${DA}')
            s.GetValidPackageNames(path)
        steps.append(bud.steps)
        ctx.count('steps', bud.steps)
    ctx.count('doublings')
    ctx.nontrivial = True


def expansions(sc):
    """statements processed when every include is followed, a file never inside itself, classes once"""
    tree = W.Tree(sc['files'])
    n = [0]
    classes = set()

    def go(p, stack):
        if n[0] > 400:
            return
        if p.endswith('.bbclass'):
            if p in classes:
                return
            classes.add(p)
        for b in tree.files[p].get('blocks', ()):
            n[0] += 1
            for r in tree.refs(p, b):
                if r not in stack:
                    go(r, stack | {r})
    for p in sc['loads']:
        if p not in tree.files:
            raise Invalid('load')
        go(p, {p})
    return n[0]


def cyclic(tree, paths):
    def find(p, stack):
        for r in tree.edges(p):
            if r in stack or find(r, stack | {r}):
                return True
        return False
    return any(find(p, {p}) for p in paths)


def run(sc, ctx):
    mode = sc['mode']
    if mode == 'dag':
        return run_dag(sc, ctx)
    w = ctx.world()
    lib = ctx.lib()
    if mode == 'graph':
        W.put(w, sc['files'])
        n = expansions(sc)
        tree = W.Tree(sc['files'])
        ctx.nontrivial = cyclic(tree, sc['loads'])
        with sched.Budget(300_000 + STEPS_PER_STATEMENT * n) as bud:
            s = lib.Stash(quiet=True)
            for p in sc['loads']:
                s.AddFile(p)
            s.Finalize()
            for p in sc['loads']:
                s.GetLinksForFile(p)
                s.ExpandVar(filename=p)
                s.GetItemsFor(filename=p)
        ctx.count('steps', bud.steps)
        ctx.count('budget', 300_000 + STEPS_PER_STATEMENT * n)
        have = {(i.Origin, i.InFileLine) for i in s.GetItemsFor()}
        reach = set()
        for p in sc['loads']:
            reach |= tree.reach(p)
        for p in reach:
            line = 1
            for b in tree.files[p].get('blocks', ()):
                if (p, line) not in have:
                    fail('item-missing', 'statement at %s:%d of a cyclic include graph was never loaded' % (p, line))
                line += W.text(b).count('\n')
        return
    if mode == 'vars':
        path = '/sim/meta-x/recipes-a/foo/foo_1.0.bb'
        w.fs.write('/sim/f', 'content ${VA}')
        w.fs.write(path, W.render(sc['blocks']))
        ctx.nontrivial = True
        base = sc.get('base', {})
        lib.CONSTANTS.AddConstants({'sets': {'base': base}})
        n = len(sc['blocks']) + len(base)
        with sched.Budget(var_budget(n)) as bud:
            s = lib.Stash(quiet=True)
            s.AddFile(path)
            s.Finalize()
            s.ExpandVar(filename=path)
            for c in 'ABCDEFGH':
                s.ExpandTerm(path, '${V%s}' % c)
            for x in base:
                s.ExpandTerm(path, '${%s}' % x)
            s.ExpandTerm(path, '${CHa}')
            s.GetValidPackageNames(path)
        ctx.count('steps', bud.steps)
        ctx.count('budget', var_budget(n))
        return
    if mode == 'slow':
        path = '/sim/meta-x/recipes-a/foo/foo_1.0.bb'
        w.fs.write(path, W.render(sc['blocks']))
        w.slow_regex = sc['secs']
        ctx.nontrivial = True
        lines = W.render(sc['blocks']).count('\n')
        with sched.Budget(300_000 + STEPS_PER_STATEMENT * lines):
            s = lib.Stash(quiet=True)
            s.AddFile(path)
            s.Finalize()
            s.ExpandVar(filename=path)
            s.GetValidPackageNames(path)
            s.GetPackagesDynamic(path)
            s.IsDynamicPackage(path, 'foo')
            s.GuessBaseRecipeName(path)
            s.SafeLineSplit('a b')
        if w.now > 5.0 * w.regex_calls + 1:
            fail('no-time-limit', '%d operations took %.1f simulated seconds' % (w.regex_calls, w.now))
        return
    w.fs.write('/sim/meta-x/conf/layer.conf', '')
    w.fs.write('/sim/meta-x/a.bb', 'inherit foo\nrequire x.inc\n')
    with sched.Budget(300_000):
        s = lib.Stash(quiet=True)
        for p in sc['paths']:
            s.GetLayerRoot(p)
            s.FindLocalOrLayer('x.inc', p)
            s.GetFiles(p, '*')
            s.GuessRecipeName(p)
            if p.startswith('/sim') and p.endswith('.bb'):
                s.AddFile(p)
    ctx.nontrivial = True
