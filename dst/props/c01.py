"""C01 reproducible across processes, platforms and runs."""
import json

from .. import persona, query as Q, seams, world as W
from ..harness import canon, fail, short

ID = 'C01'
QUICK = {'runs': 1200}
THOROUGH = {'runs': 40000, 'secs': 780}
RULE = ('one seeded layer and history of loads, finalisations and questions is executed by three personas: this interpreter and two others with other hash seeds, each with its '
        'own directory enumeration order, read chunk sizes, locale, wall clock and identity hashes; the complete transcripts (answers in order, item attributes, '
        'constants, output, fingerprint) must be equal. Non-trivial: at least two interpreters with different hash seeds took part.')
KINDS = ['special'] * 6 + W.PLAIN
HASHSEEDS = [0, 1, 77, 12345]


def gen(rng, tier):
    sc = W.gen_layer(rng, depth=2, shared=rng.choice([0.0, 0.4]), size=(1, 3, 5), kinds=KINDS, inline=0.15, multi_append=0.6)
    W.add_twins(rng, sc)
    for i in range(rng.choice([0, 2, 5])):
        sc['files'].append({'path': '/sim/meta-x/conf/%s/%s%d.conf' % (rng.choice(['machine', 'distro']), rng.choice(['m', 'zz', 'a-']), i), 'raw': ''})
    for i in range(rng.choice([0, 3, 6])):
        sc['files'].append({'path': '/sim/meta-x/recipes-%s/%s/files/%s%d.patch' % (
            rng.choice('abc'), rng.choice(['foo', 'bar', 'libx', 'zed']), rng.choice(['z', 'a', 'm', 'é']), i), 'raw': 'x'})
    for f in list(sc['files']):
        if f['path'].endswith('.bb') and rng.random() < 0.5:
            d, n = f['path'].rsplit('/', 1)
            for sub in rng.sample(['files', n.split('_')[0], n[:-3]], rng.choice([1, 2])):
                for x in rng.sample(['b.patch', 'a.patch', 'sub/c.patch', 'defconfig', 'z.patch'], rng.choice([1, 3])):
                    sc['files'].append({'path': '%s/%s/%s' % (d, sub, x), 'raw': 'x'})
    files = [f['path'] for f in sc['files'] if 'blocks' in f]
    ops = []
    for p in sc['loads']:
        ops.append(['load', p])
        if rng.random() < 0.2:
            ops.append(['final'])
        if rng.random() < 0.3:
            ops.append(['ask', Q.gen_query(rng, files)])
    ops.append(['final'])
    pan = Q.panel(files)
    ops += [['ask', q] for q in pan[:6] + rng.sample(pan[6:], min(len(pan) - 6, 8))]
    ops += [['ask', Q.gen_query(rng, files)] for _ in range(8)]
    sc['ops'] = ops
    sc['opt'] = {'quiet': rng.random() < 0.5, 'negative_inline': rng.random() < 0.3}
    ps = []
    for hs in [0] + rng.sample(HASHSEEDS[1:], 2):
        ps.append({'hs': hs, 'salt': rng.randrange(1 << 30), 'chunk_seed': rng.randrange(1 << 30), 'chunk_max': rng.choice([1, 3, 16, 64, 4096]),
                   'dir_order': rng.choice(['sorted', 'reversed', str(rng.randrange(1000))]),
                   'locale': rng.choice(['utf-8', 'ascii', 'latin-1', 'cp1252']), 'clock': rng.choice([0.0, 1.7e9, 4.1e9])})
    sc['personas'] = ps
    return sc


def transcript(sc, p, w):
    w.clock_base = p['clock']
    W.put(w, sc['files'])
    lib = seams.Lib()
    s = lib.Stash(new_style_override_syntax=sc['d'] == ':', **sc['opt'])
    res = []
    for op in sc['ops']:
        if op[0] == 'load':
            items = s.AddFile(op[1])
            res.append(['load', op[1], [Q.item_view(i) for i in items]])
        elif op[0] == 'final':
            s.Finalize()
        else:
            res.append(['ask:' + op[1][0], op[1], Q.ask(lib, s, op[1])])
    c = lib.CONSTANTS
    res.append(['constants', '', [c.MachinesKnown, c.DistrosKnown]])
    res.append(['attributes', '', [canon([i.GetMachineEntry(), i.GetDistroEntry(), i.GetClassOverride()]) for i in s.GetItemsFor(classifier='Variable')]])
    res.append(['repr', '', [repr(i) for i in s.GetItemsFor()]])
    res.append(['output', '', ''.join(w.stdout)])
    return json.loads(json.dumps(res))


def make_world(p, factory):
    return factory(**{k: p[k] for k in ('salt', 'chunk_seed', 'chunk_max', 'dir_order', 'locale')})


def remote(payload):
    w = make_world(payload['p'], seams.World)
    seams.set_world(w)
    return transcript(payload['sc'], payload['p'], w)


def run(sc, ctx):
    W.check_layer(sc)
    paths = {f['path'] for f in sc['files']}
    for op in sc['ops']:
        if op[0] == 'load' and op[1] not in paths:
            raise W.Invalid('missing')
    ref = None
    for p in sc['personas']:
        if p['hs'] == 0:
            t = transcript(sc, p, make_world(p, ctx.world))
        else:
            bare = {k: sc[k] for k in ('files', 'd', 'opt', 'ops')}
            t = persona.Helper.ask('c01', p['hs'], {'sc': bare, 'p': p})
            if isinstance(t, dict):
                raise RuntimeError('in the interpreter with hash seed %s: %s' % (p['hs'], t['error']))
            ctx.nontrivial = True
            ctx.count('foreign interpreters')
        if ref is None:
            ref = (p, t)
            continue
        for a, b in zip(ref[1], t):
            if a != b:
                d = next(((x, y) for x, y in zip(a[2], b[2]) if x != y), (a[2], b[2])) if isinstance(a[2], list) and isinstance(b[2], list) else (a[2], b[2])
                fail('differs:' + a[0], '%s: %s under %s, %s under %s' % (short(a[1]), short(d[0]), ref[0], short(d[1]), p))
