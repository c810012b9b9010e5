"""C27 ignored includes and classes are left out, and nothing else."""
import json

from .. import query as Q, world as W
from ..harness import fail, h64, Invalid, short

ID = 'C27'
QUICK = {'runs': 1300}
THOROUGH = {'runs': 60000, 'secs': 780}
RULE = ('seeded layers are loaded while the constants that name ignored includes and classes change between the loads and loads fail; after each load the stash is compared with a second one that loaded the same files '
        'from a file system on which the files ignored at that moment did not exist. Non-trivial: at least one file was ignored by name and at least one was not.')
ASSUMPTIONS = ['the file an ignored statement resolved to is not compared (the ignoring stash may name it)']
KINDS = ['var'] * 4 + ['func', 'comment', 'flag', 'export', 'item', 'def']


def gen(rng, tier):
    sc = W.gen_complete(rng, depth=2, shared=0.0, recipes=rng.choice([1, 2, 3]), size=(0, 1, 3), kinds=KINDS, inline=0.05, multi_append=0.4)
    files = [f for f in sc['files'] if 'blocks' in f]
    # a class and an include of many
    for c in rng.sample(['shareda', 'sharedb'], rng.choice([0, 1, 2])):
        for f in files:
            if f['path'] in sc['loads'] and rng.random() < 0.6:
                W.insert(rng, f['blocks'], {'k': 'inherit', 'st': 'inherit', 'cls': rng.sample([c, 'unresolvable'], rng.choice([1, 2]))})
        sc['files'].append({'path': '/sim/meta-x/classes/%s.bbclass' % c, 'blocks': [{'k': 'var', 'n': 'SHV', 'sub': [], 'd': '_', 'op': ' = ', 'v': ['1']}]})
    inc, cls = names(sc)
    ops = []

    def change():
        while rng.random() < 0.55:
            k = rng.choice(['include', 'classes'])
            pool = (inc if k == 'include' else cls) + ['none.inc', 'other', '']
            # names that are only nearly those of files
            near = rng.choice(pool)
            pool += [near.rpartition('/')[2], near[:-1], near[1:], 'x/' + near, './' + near, near + '.bbclass', near.upper(), near.partition('.')[0], near + ' ']
            # paths are no names
            pool += rng.sample([f['path'] for f in sc['files'] if f['path'].endswith(('.inc', '.bbclass', '.bb'))] or [''], 1) * 2
            ops.append([rng.choice(['AddConstants', 'AddConstants', 'RemoveConstants', 'OverrideConstants']), k, rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3])))])
            if rng.random() < 0.3:
                ops.append(['ask'])
    for p in sc['loads']:
        change()
        if rng.random() < 0.1:
            ops.append(['fail', p, rng.choice(['EIO', 'INTR', 'NOMEM'])])
        ops.append(['load', p])
    change()
    sc.update(ops=ops, chunk_seed=rng.randrange(1 << 30), salt=rng.randrange(1 << 30))
    return sc


def names(sc):
    inc, cls = [], []
    for f in sc['files']:
        for b in f.get('blocks', ()):
            if b['k'] == 'include':
                inc.append(W.expand_name(b['name'], f['path']))
            elif b['k'] in ('inherit', 'iglob'):
                cls += [W.class_name(c, f['path']) for c in b['cls']]
    return sorted(set(inc)), sorted(set(cls))


def view(s, files):
    res = []
    for q in [{}] + [{'filename': f} for f in files] + [{'filename': f, 'nolink': True} for f in files]:
        for i in s.GetItemsFor(**q):
            a = dict(i.GetAttributes())
            a.pop('FileIncluded', None)
            a.pop('FilePaths', None)
            res.append([str(q), i.CLASSIFIER, Q.canon(dict(sorted(a.items())))])
    for f in files:
        res.append(['links', f, s.GetLinksForFile(f)])
    res += [['recipes', s.GetRecipes()], ['lone', s.GetLoneAppends()], ['classes', s.GetBBClasses()], ['confs', s.GetConfFiles()]]
    for f in files:
        if f.endswith('.bb'):
            res.append(['var', f, Q.canon(s.ExpandVar(filename=f))])
    return res


def run(sc, ctx):
    W.check_layer(sc)
    m = W.Model(sc)
    todo = list(sc['loads'])
    for op in sc['ops']:
        if op[0] == 'load' and (not todo or todo.pop(0) != op[1]):
            raise Invalid('order')
    if todo:
        raise Invalid('not loaded completely')
    inc, cls = names(sc)
    # a file that is found by name has one name
    by = {}
    for f in sc['files']:
        for b in f.get('blocks', ()):
            if b['k'] == 'include':
                n = ('include', W.expand_name(b['name'], f['path']))
                by.setdefault(n, set()).update(m.named(f['path'], n[1]))
            elif b['k'] in ('inherit', 'iglob'):
                for c in b['cls']:
                    c = W.class_name(c, f['path'])
                    by.setdefault(('classes', c), set()).update(
                        p for loc in ('classes', 'classes-recipe', 'classes-global') for p in m.named(f['path'], '%s/%s.bbclass' % (loc, c)))
    owner = {}
    for n, ps in by.items():
        for p in ps:
            if owner.setdefault(p, n) != n:
                raise Invalid('file with two names')
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    ctx.key = '%x' % h64(json.dumps(sc, sort_keys=True))
    W.put(w, sc['files'])
    lib = ctx.lib()
    new = sc['d'] == ':'
    a, b = lib.Stash(quiet=True, new_style_override_syntax=new), lib.Stash(quiet=True, new_style_override_syntax=new)
    files = [f['path'] for f in sc['files'] if 'blocks' in f]
    text = {f['path']: W.render(f['blocks']) for f in sc['files'] if 'blocks' in f}
    ign = {'include': [], 'classes': []}
    hit = miss = 0
    have = set()

    def compare(op):
        x, y = view(a, files), view(b, files)
        if x != y:
            for i in range(max(len(x), len(y))):
                if i >= len(x) or i >= len(y) or x[i] != y[i]:
                    fail('differs', 'after %s, ignoring %s: %s, but without the ignored files %s' % (
                        short(op), ign, short(x[i] if i < len(x) else None), short(y[i] if i < len(y) else None)))

    def const(op, kind, vals):
        getattr(lib.CONSTANTS, op)({'ignore': {kind: list(vals)}})

    for op in sc['ops']:
        if op[0] in ('load', 'fail'):
            if op[0] == 'fail':
                w.arm([{'op': 'open', 'path': op[1], 'kind': op[2]}])
            try:
                a.AddFile(op[1])
            except (OSError, KeyboardInterrupt, MemoryError):
                if op[0] == 'load':
                    raise
            else:
                if op[0] == 'fail':
                    raise Invalid('did not fail')
            w.disarm()
            if op[0] == 'fail':
                compare(op)
                continue
            gone = [p for p, (k, n) in owner.items() if n in ign[k]]
            for p in gone:
                w.fs.remove(p)
            for k in ign:
                const('OverrideConstants', k, [])
            b.AddFile(op[1])
            for p in gone:
                w.fs.write(p, text[p])
            for k in ign:
                const('OverrideConstants', k, ign[k])
            have |= W.Model(dict(sc, files=[x for x in sc['files'] if x['path'] not in gone], loads=[op[1]])).reach(op[1])
            got = {i.Origin for i in a.GetItemsFor()}
            want = {p for p in have if m.nonempty(p)}
            if got != want:
                fail('left-out' if want - got else 'drawn-in', 'after %s, ignoring %s: %s' % (
                    short(op), ign, short(sorted(want - got) or sorted(got - want))))
            r = m.reach(op[1])
            hit += len(r & set(gone))
            miss += len(r) - 1 - len(r & set(gone))
        elif op[0] == 'ask':
            compare(op)
            continue
        else:
            k = op[1]
            ign[k] = ign[k] + op[2] if op[0] == 'AddConstants' else [x for x in ign[k] if x not in op[2]] if op[0] == 'RemoveConstants' else list(op[2])
            const(op[0], k, op[2])
            if lib.CONSTANTS.GetByPath('ignore/' + k) != ign[k]:
                fail('constants', 'after %s: %s' % (short(op), lib.CONSTANTS.GetByPath('ignore/' + k)))
            continue
        compare(op)
    a.Finalize()
    b.Finalize()
    compare('everything')
    ctx.nontrivial = hit > 0 and miss > 0
