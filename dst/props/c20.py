"""C20 a recipe is parsed the same way regardless of what else is in the stash."""
import os

from .. import query as Q, world as W
from ..harness import fail, Invalid, short

ID = 'C20'
QUICK = {'runs': 3000}
THOROUGH = {'runs': 60000, 'secs': 780}
KINDS = ['special'] * 4 + ['var'] * 6 + ['func', 'comment', 'flag', 'export', 'addtask', 'item', 'def', 'unset']
RULE = ('seeded layers with several recipes (versions of the same recipe, appends applying to several of them, classes and includes, machines and distributions, files that cannot be read) are loaded in seeded '
        'orders; the items, links, expansions and package names of one recipe are compared with a stash that loaded only this recipe and its appends. '
        'Non-trivial: at least one other recipe was loaded before it.')
BAD = '/sim/meta-x/recipes-b/bad/bad_1.0.bb'


def gen(rng, tier):
    weak = rng.random() < 0.35
    sc = W.gen_complete(rng, recipes=rng.choice([2, 2, 3, 4]), depth=2, shared=0.6 if weak else 0.0, size=(1, 2, 4), kinds=KINDS, inline=0.05,
                        same_name=0.5, multi_append=rng.choice([0.2, 0.6]), layer=rng.choice(['/sim/meta-x', '/sim/meta-x']))
    for x in ('machine/qemux', 'machine/arm', 'distro/poky', 'distro/x'):
        if rng.random() < 0.6:
            sc['files'].append({'path': '/sim/meta-x/conf/%s.conf' % x, 'raw': 'M = "1"\n'})
    recs = [p for p in sc['loads'] if p.endswith('.bb')]
    sc['target'] = rng.choice(recs)
    # names of machines and distributions as overrides
    for f in sc['files']:
        if 'blocks' in f and rng.random() < 0.4:
            W.insert(rng, f['blocks'], {'k': 'var', 'n': 'A', 'sub': [rng.choice(['arm', 'x', 'qemux', 'poky'])], 'd': sc['d'], 'op': ' = ', 'v': ['1']})
    # a task of one recipe, a part of the name of a function in another one
    for n in rng.sample(['do_al', 'do_be', 'do_al_be', 'my', 'do_x'], rng.choice([0, 1, 2])):
        for f in [f for f in sc['files'] if 'blocks' in f and f['path'] in sc['loads']]:
            r = rng.random()
            if r < 0.3:
                W.insert(rng, f['blocks'], {'k': 'addtask', 'n': n, 'before': [], 'after': [], 'rev': 0})
            elif r < 0.6:
                W.insert(rng, f['blocks'], {'k': 'func', 'n': n + rng.choice(['_be', '_ga', '_arm']), 'sub': rng.choice([[], ['append'], ['arm']]), 'd': sc['d'], 'body': ['    :']})
    # classes with names of their own, inherited by many
    for c in rng.sample(['shareda', 'sharedb', 'sharedc'], rng.choice([0, 1, 1, 2])):
        u = c[-1].upper()
        body = [{'k': 'var', 'n': 'SHV' + u, 'sub': [], 'd': '_', 'op': rng.choice([' = ', ' ?= ', ' ??= ']), 'v': [rng.choice('123')]},
                {'k': 'func', 'n': 'do_shared' + c[-1], 'sub': [], 'd': '_', 'body': ['    :']}]
        inc = '/sim/meta-x/classes/sharedi%s.inc' % c[-1]
        if rng.random() < 0.4:
            sc['files'].append({'path': inc, 'blocks': [{'k': 'var', 'n': 'SHI' + u, 'sub': [], 'd': '_', 'op': ' = ', 'v': ['2']}]})
            body.append({'k': 'include', 'st': 'require', 'name': os.path.basename(inc)})
        hosts = [f for f in sc['files'] if 'blocks' in f and f['path'] in sc['loads'] and rng.random() < 0.7]
        for f in hosts:
            W.insert(rng, f['blocks'], {'k': 'inherit', 'st': 'inherit', 'cls': [c]})
        sc['files'].append({'path': '/sim/meta-x/classes/%s.bbclass' % c, 'blocks': body})
    sc['weak'] = weak
    sc['pre'] = []
    if weak and rng.random() < 0.5:
        sc['pre'] = [f['path'] for f in sc['files'] if 'blocks' in f and f['path'] not in sc['loads'] and rng.random() < 0.3]
    sc['files'].append({'path': BAD, 'hex': 'ff41203d202231220a'})
    sc['bad'] = [rng.randrange(6) for _ in range(rng.choice([0, 0, 1]))]
    sc['early'] = rng.random() < 0.3         # finalise in between, too
    sc['other_stash'] = rng.random() < 0.3
    sc['chunk_seed'] = rng.randrange(1 << 30)
    sc['salt'] = rng.randrange(1 << 30)
    return sc


def item(i, moved):
    v = Q.item_view(i, lines=False)
    if not moved:
        v.append(i.Line)
    if i.CLASSIFIER in ('Variable', 'Function'):
        v += [i.GetMachineEntry(), i.GetDistroEntry()]
    if i.CLASSIFIER == 'Variable':
        v.append(i.GetClassOverride())
    return v


def view(lib, s, t, moved):
    its = s.GetItemsFor(filename=t)
    res = [[['items', {'filename': t}], [item(i, i.Origin in moved) for i in its if '/shared' not in i.Origin]],
           # shared classes are placed where the first one inheriting them wants them
           [['shared'], sorted(repr(item(i, True)) for i in its if '/shared' in i.Origin)]]
    qs = [['links', t], ['items', {'filename': t, 'nolink': True}]] + \
        [q for q in Q.panel([t]) if q[0] not in ('items', 'recipes', 'lone', 'confs', 'classes', 'finger', 'files', 'links')]
    for q in qs:
        if q[0] == 'items':
            a = [item(i, i.Origin in moved) for i in Q.raw(lib, s, q)]
        else:
            a = Q.ask(lib, s, q)
        res.append([q, a])
    return res


def single(m, t):
    """variables that are set once, and to a plain value"""
    n = {}
    for p in m.closure(t):
        for b in m.files[p].get('blocks', ()):
            if b['k'] in ('var', 'unset'):
                n.setdefault(b['n'], []).append(b)
    return sorted(k for k, v in n.items() if len(v) == 1 and v[0]['k'] == 'var' and not v[0]['sub'] and v[0]['op'].strip() in ('=', '?=', ':=')
                  and '$' not in ''.join(v[0]['v']))


def loose(lib, s, t, plain, moved, first):
    """what is known about a recipe whose includes are shared: neither how often nor in which order their items are returned"""
    res = [[['items', {'filename': t}], sorted({repr(item(i, True)) for i in s.GetItemsFor(filename=t)})],
           [['items', {'filename': t, 'nolink': True}], [item(i, first or i.Origin in moved) for i in s.GetItemsFor(filename=t, nolink=True)]]]
    for q in [['links', t], ['image', t], ['group', t]] + [['term', t, '${%s}' % n] for n in plain] + \
            [['var', {'filename': t, 'attribute': 'VarName', 'attributeValue': n}] for n in plain]:
        a = Q.ask(lib, s, q)
        if q[0] == 'var' and isinstance(a, dict) and 'dict' in a:
            # the defaults of the others follow from variables that need not be plain
            a = [x for x in a['dict'] if x[0] == q[1]['attributeValue']]
        res.append([q, a])
    return res


def run(sc, ctx, probe=False):
    W.check_layer(sc)
    t = sc['target']
    if t not in sc['loads']:
        raise Invalid('no target')
    m = W.Model(sc)
    own = [t] + m.appends_of(t)
    alone = dict(sc, loads=[p for p in sc['loads'] if p in own])
    if not probe:
        W.check_complete(sc)
        W.check_complete(alone)
        n = {}
        for p in m.loaded:
            for r in m.edges(p):
                n[r] = n.get(r, 0) + 1
        if not sc['weak'] and (sc['pre'] or any(v > 1 and not k.endswith('.bbclass') for k, v in n.items())):
            raise Invalid('includes are shared')
        if sc['weak'] and any(p in sc['loads'] or p not in m.files for p in sc['pre']):
            raise Invalid('loaded beforehand')

    def load(loads, bad):
        w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
        W.put(w, sc['files'])
        lib = ctx.lib()
        if bad and sc['other_stash']:
            o = lib.Stash(quiet=True)
            o.AddFile(sc['loads'][0])
            o.Finalize()
        s = lib.Stash(quiet=True, new_style_override_syntax=sc['d'] == ':')
        names = [{os.path.basename(f['path'])[:-5] for f in sc['files'] if '/conf/%s/' % k in f['path']} for k in ('machine', 'distro')]
        for n, p in enumerate((sc.get('pre', []) if bad else []) + loads):
            if bad and n in sc['bad']:
                try:
                    s.AddFile(BAD)
                except UnicodeDecodeError:
                    ctx.count('failed loads')
            s.AddFile(p)
            for k, want, known in zip(('machines', 'distributions'), names, (lib.CONSTANTS.MachinesKnown, lib.CONSTANTS.DistrosKnown)):
                if not want <= set(known):
                    fail('layer', '%s %s of the layer are not known after %s was loaded' % (k, sorted(want - set(known)), p))
            if bad and sc['early']:
                s.Finalize()
        s.Finalize()
        return lib, s
    # appends are moved behind the longest recipe they apply to
    moved = {f for a in m.appends_of(t) for f in m.closure(a)}
    if any('/shared' in p for p in m.loaded) and not probe:
        moved = set(m.loaded)       # what follows a shared class is moved
    look = view
    if sc.get('weak'):
        plain = single(m, t)
        # a class is parsed for the first one that inherits it, and only this one leaves room for it
        cls = any(p.endswith('.bbclass') for p in m.closure(t))

        def look(lib, s, t, moved):
            return loose(lib, s, t, plain, moved, cls)
    lib, s = load(alone['loads'], False)
    want = look(lib, s, t, moved)
    lib, s = load(sc['loads'], True)
    got = look(lib, s, t, moved)
    ctx.nontrivial = any(p.endswith('.bb') for p in sc['loads'][:sc['loads'].index(t)])
    for (q, a), (_, b) in zip(got, want):
        if a != b:
            if q[0] == 'items':
                x = next((k for k in range(max(len(a), len(b))) if a[k:k + 1] != b[k:k + 1]))
                a, b = a[x:x + 1] or 'nothing', b[x:x + 1] or 'nothing'
            fail(q[0], '%s answers %s, with %s alone %s' % (short(q), short(a, 500), os.path.basename(t), short(b, 500)))


def run_probe(sc, ctx):
    """Known findings: files shared between recipes."""
    run(sc, ctx, probe=True)


def _var(n, v, op=' = '):
    return {'k': 'var', 'n': n, 'sub': [], 'd': '_', 'op': op, 'v': [v]}


def _probe(shared, block, content):
    a, b = '/sim/meta-x/r/a_1.bb', '/sim/meta-x/r/b_1.bb'
    return {'loads': [b, a], 'd': '_', 'target': a, 'bad': [], 'early': False, 'other_stash': False, 'chunk_seed': 1, 'salt': 1, 'files': [
        {'path': '/sim/meta-x/conf/layer.conf', 'raw': ''},
        {'path': a, 'blocks': [_var('A', '1'), block, _var('B', '1')]}, {'path': b, 'blocks': [block]},
        {'path': shared, 'blocks': content}]}


PROBES = [
    # an include is loaded for each recipe and its items are found for all of them
    ('shared-include', _probe('/sim/meta-x/r/x.inc', {'k': 'include', 'st': 'require', 'name': 'x.inc'}, [_var('A', '2', ' += ')])),
    # a class is loaded for the first recipe only and keeps the line numbers it got there
    ('shared-class', _probe('/sim/meta-x/classes/c.bbclass', {'k': 'inherit', 'st': 'inherit', 'cls': ['c']}, [_var('A', '2', ' += ')])),
]
