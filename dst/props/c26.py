"""C26 what a recipe is and provides follows from its content and the constants."""
import json
import re

from .. import query as Q, world as W
from ..harness import fail, h64, Invalid, short
from .c11 import Eval

ID = 'C26'
QUICK = {'runs': 10000}
THOROUGH = {'runs': 80000, 'secs': 780}
RULE = ('seeded layers whose recipes, includes, classes and appends inherit image and package group classes and set package, dynamic package and source variables are loaded between seeded changes of the constants '
        '(image classes and variables, mirrors), failing loads, finalisations, removed and added items and earlier questions whose answers are spoiled; kinds, package names, patterns and named resources are compared '
        'with functions of the statements that are in the stash. Non-trivial: a question had a positive answer and the stash or the constants changed after a question.')
ASSUMPTIONS = ['references are made to variables assigned once and to built-in ones; no removals of words']
NAMES = ['foo', 'bar', 'libx', 'a-b', 'zed', 'foo-native']
ICLS = ['image', 'core-image', 'my-image', 'image-x', 'packagegroup', 'pkgconfig', 'packagegroup-x', 'native']
IVAR = ['IMAGE_INSTALL', 'MY_IMAGE', 'IMAGE_FEATURES', 'A']
DYN = ['^${PN}-dyn-.*', 'dyn.*', '^lib[a-z]+-x$', '^foo-(a|b)', '${REF}-.*', '^${BPN}-locale-.*', '.*-extra$']
PKGN = ['x-${PN}-y', 'pre-${PN}', '${PN}-${PN}', '${BPN}-z', 'python3-${PN}', '${PN}', '${PN}-extra', 'standalone', '${REF}-pkg', '${PN}-${REF}', 'foo-dev']
SRC = ['file://a.patch', 'git://ex.org/r.git;name=${PN}-src;branch=b', 'https://ex.org/f.tgz;name=tar', '${GNU_MIRROR}/x.tgz;name=gnu', '${M1}', 'file://x;name=', 'git://h/r;branch=a=b;name=c=d', 'http://[bad;name=no']
ASKED = ['dyn-1', '${PN}-dyn-x', 'foo-a', 'foo-c', 'libabc-x', 'ref-1', '${REF}-2', 'zzz', 'bar-locale-de', '${PN}-extra', 'foo-native-dyn-1', '']


def matches(pattern, name):
    try:
        return re.match(pattern, name)
    except re.error:
        return None


def gen_stmt(rng, d):
    k = rng.choice(['inherit', 'inherit', 'dyn', 'dyn', 'pkgs', 'before', 'src', 'ivar', 'group'])
    if k == 'inherit':
        r = rng.random()
        cl = rng.sample(ICLS, rng.choice([1, 1, 2]))
        b = {'k': 'inherit', 'st': rng.choice(['inherit', 'inherit', 'inherit_defer']), 'cls': cl} if r < 0.8 else {'k': 'iglob', 'op': rng.choice([' += ', ' = ', '+=']), 'cls': cl}
        if rng.random() < 0.3:
            b['sep'] = rng.choice(['  ', '\t', ' \\\n    '])
        return b
    if k == 'group':
        return {'k': 'inherit', 'st': 'inherit', 'cls': ['packagegroup']}
    n, vals = {'dyn': ('PACKAGES_DYNAMIC', DYN), 'pkgs': ('PACKAGES', PKGN), 'before': ('PACKAGE_BEFORE_PN', PKGN), 'src': ('SRC_URI', SRC), 'ivar': (rng.choice(IVAR), ['x', 'y'])}[k]
    sub = rng.choice([[], [], [], ['append'], ['prepend'], ['append', 'arm']])
    v = rng.sample(vals, rng.choice([0, 1, 1, 2]))
    if k != 'ivar' and rng.random() < 0.4:
        x = '-'.join(W.rword(rng, W.LOW, W.LOW + W.NUM) for _ in range(rng.choice([1, 2, 3])))
        v.append({'dyn': rng.choice(['^%s-', '%s-(a|b)$', '(%s', '[%s', '*%s', '%s)', '${PN}-%s.*', '%s.?']) % x,
                  'src': rng.choice(['git://h/r.git;name=%s', 'https://h/f;name=%s;x=1', 'file://%s.patch', 'git://h/r;x=1;name=${PN}-%s', 'http://h/f;name=%s;name=' + rng.choice(['b', 'default'])]) % rng.choice([x, x, 'default', 'PN', 'name']),
                  }.get(k, rng.choice(['%s', '${PN}-%s', '%s-${PN}', '%s-dev']) % x))
    lines = [' '.join(v)]
    if len(v) > 1 and rng.random() < 0.4:
        lines = v[:1] + [rng.choice(['', ' ']) + x for x in v[1:]]
    if rng.random() < 0.4:
        lines[0] = ' ' + lines[0]
    if rng.random() < 0.2:
        lines[-1] += ' '
    return {'k': 'var', 'n': n, 'sub': sub, 'd': d, 'op': rng.choice([' = ', ' = ', ' += ', ' ?= ', ' .= ', '=']) if not sub else ' = ', 'v': lines}


def gen(rng, tier):
    sc = W.gen_complete(rng, depth=2, shared=0.0, recipes=rng.choice([1, 1, 2]), size=(0, 1), kinds=['comment', 'func', 'item', 'flag', 'addtask'], inline=0.0, multi_append=0.5, names=NAMES)
    files = [f for f in sc['files'] if 'blocks' in f]
    for f in files:
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            W.insert(rng, f['blocks'], gen_stmt(rng, sc['d']))
        if f['path'].endswith('.bb'):
            W.insert(rng, f['blocks'], {'k': 'var', 'n': 'REF', 'sub': [], 'd': sc['d'], 'op': ' = ', 'v': [rng.choice(['ref', 'ref${BPN}'])]})
    recs = [f['path'] for f in files if f['path'].endswith('.bb')]
    ops = []
    # names close to the patterns
    asked = ASKED + [re.sub(r'[][()^$*?|.{}]', '', x) + y for f in files for b in f['blocks'] if b['k'] == 'var' and b['n'] == 'PACKAGES_DYNAMIC'
                     for x in W.tokens(' '.join(b['v'])) for y in ('', '-a', 'x')]

    def noise():
        while rng.random() < 0.5:
            r = rng.random()
            if r < 0.5:
                ops.append([rng.choice(['ask', 'ask', 'spoil']), rng.choice(recs), rng.choice(asked)])
            elif r < 0.9:
                ops.append([rng.choice(['AddConstants', 'AddConstants', 'RemoveConstants', 'OverrideConstants']), rng.choice(['known-classes', 'known-classes', 'known-variables']),
                            rng.sample(ICLS if rng.random() < 0.5 else IVAR, rng.choice([1, 2]))])
            else:
                ops.append(['mirror', rng.choice(['${M1}', '${GNU_MIRROR}']), rng.choice(['git://m.org/r;name=m1', 'https://m.org/x', '${M1}'])])
    noise()
    for p in sc['loads']:
        if rng.random() < 0.1:
            ops.append(['fail', p, rng.choice(['EIO', 'INTR', 'NOMEM'])])
        ops.append(['load', p])
        noise()
    ops.append(['final'])
    noise()
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append([rng.choice(['Remove', 'Remove', 'Append']), rng.randrange(1000)])
        noise()
    sc.update(ops=ops, chunk_seed=rng.randrange(1 << 30), salt=rng.randrange(1 << 30))
    return sc


def run(sc, ctx):
    m = W.check_complete(sc)
    if not m.forest():
        raise Invalid('not a forest')
    todo = list(sc['loads'])
    final = False
    for op in sc['ops']:
        if op[0] == 'load' and (final or not todo or todo.pop(0) != op[1]) or op[0] in ('Remove', 'Append') and not final or op[0] == 'fail' and final:
            raise Invalid('order')
        final |= op[0] == 'final'
    if todo or not final:
        raise Invalid('not loaded completely')
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    ctx.key = '%x' % h64(json.dumps(sc, sort_keys=True))
    W.put(w, sc['files'])
    lib = ctx.lib()
    cst = {k: list(lib.CONSTANTS.GetByPath('images/' + k)) for k in ('known-classes', 'known-variables')}
    mirrors = dict(lib.CONSTANTS.MirrorsKnown)
    base = dict(lib.CONSTANTS.SetsBase)
    s = lib.Stash(quiet=True, new_style_override_syntax=sc['d'] == ':')
    final = False
    gone, extra = set(), []
    asked = changed = positive = False
    every = {r: [(p, n, b) for p, n, b in m.order(r)] for r in m.recipes}

    def compare(r, name, op, spoil=False):
        nonlocal positive
        e = Eval(r, every[r], base, sc['d'], strict=False)
        here = [(p, n, b) for p, n, b in every[r] if (p, n) not in gone]
        blocks = [b for _, _, b in here] + [b for p, b in extra if any(p == x for x, _, _ in every[r])]
        inh = {c for b in blocks if b['k'] in ('inherit', 'iglob') for c in b['cls']}
        var = [b for b in blocks if b['k'] == 'var']

        def words(n):
            return [b for b in var if b['n'] == n]
        dyn = set()
        for b in words('PACKAGES_DYNAMIC'):
            dyn |= set(W.tokens(e.term(' '.join(b['v']))))
        pn = e.builtin['PN']
        pk = set()
        for x in ('${PN}', pn):
            pk |= {x} | {x + '-' + y for y in ('ptest', 'src', 'dbg', 'staticdev', 'dev', 'doc', 'locale')}
        strip = set(pk)
        for b in words('PACKAGES') + words('PACKAGE_BEFORE_PN'):
            for x in W.tokens(e.term(' '.join(b['v']), ['PN'])):
                pk |= {x, x.replace('${PN}', pn)}
                strip.add(x.replace('${PN}', ''))
        names = {pn}
        for b in words('SRC_URI'):
            for u in W.tokens(' '.join(b['v'])):
                if '[' in u:
                    continue
                for k, v in mirrors.items():
                    u = u.replace(k, v)
                opt = dict(o.split('=', 1) for o in u.split(';')[1:] if '=' in o)
                if 'name' in opt:
                    names.add(opt['name'].replace('${PN}', pn))
        want = {'IsImage': bool(inh & set(cst['known-classes'])) or any(b['n'] in cst['known-variables'] for b in var),
                'IsPackageGroup': 'packagegroup' in inh, 'GetPackagesDynamic': dyn, 'GetValidPackageNames': pk, 'stripped': strip,
                'GetValidNamedResources': names,
                'IsDynamicPackage': any(matches(x, e.term(name)) for x in dyn)}
        positive |= want['IsImage'] or want['IsDynamicPackage'] or want['IsPackageGroup'] or len(names) > 1
        for q, v in want.items():
            if q == 'IsDynamicPackage':
                got = s.IsDynamicPackage(r, name)
            elif q == 'stripped':
                got = s.GetValidPackageNames(r, True)
            else:
                got = getattr(s, q)(r)
            if isinstance(v, set):
                if set(got) != v or len(got) != len(v):
                    fail(q, 'after %s, %s of %s: %s too many, %s missing' % (short(op), q, r, sorted(set(got) - v), sorted(v - set(got))))
                if spoil:
                    Q.spoil(got)
            elif bool(got) != v:
                fail(q, 'after %s, %s of %s%s is %s, expected %s' % (short(op), q, r, ' for %r' % name if 'Dyn' in q else '', got, v))

    for op in sc['ops']:
        k = op[0]
        if k == 'fail':
            w.arm([{'op': 'open', 'path': op[1], 'kind': op[2]}])
            try:
                s.AddFile(op[1])
            except (OSError, KeyboardInterrupt, MemoryError):
                pass
            else:
                raise Invalid('did not fail')
            w.disarm()
        elif k == 'load':
            s.AddFile(op[1])
            changed |= asked
        elif k == 'final':
            s.Finalize()
            final = True
            changed |= asked
        elif k in ('ask', 'spoil'):
            if final:
                asked = True
                compare(op[1], op[2], op, k == 'spoil')
            else:       # links are not complete yet: only the question counts
                asked = True
                for q in ('IsImage', 'IsPackageGroup', 'GetPackagesDynamic', 'GetValidPackageNames', 'GetValidNamedResources'):
                    x = getattr(s, q)(op[1])
                    if k == 'spoil' and not isinstance(x, bool):
                        Q.spoil(x)
                s.IsDynamicPackage(op[1], op[2])
        elif k == 'mirror':
            mirrors[op[1]] = op[2]
            lib.CONSTANTS.OverrideConstants({'replacements': {'mirrors': {op[1]: op[2]}}})
            changed |= asked
        elif k in ('Remove', 'Append'):
            its = [i for i in s.GetItemsFor() if i.CLASSIFIER in ('Inherit', 'Variable') and getattr(i, 'VarName', '') != 'REF']
            if not its:
                continue
            it = its[op[1] % len(its)]
            if k == 'Append':
                b = next(b for n, b in m.lines(it.Origin) if n == it.InFileLine)
                extra.append((it.Origin, b))
                s.Append(it)
            else:
                j = next((j for j, (p, b) in enumerate(extra) if p == it.Origin and any(n == it.InFileLine and x is b for n, x in m.lines(p))), None)
                if j is not None:
                    del extra[j]
                else:
                    gone.add((it.Origin, it.InFileLine))
                s.Remove(it)
            changed |= asked
        else:
            cur = cst[op[1]]
            if k == 'AddConstants':
                cst[op[1]] = cur + op[2]
            elif k == 'RemoveConstants':
                cst[op[1]] = [x for x in cur if x not in op[2]]
            else:
                cst[op[1]] = list(op[2])
            getattr(lib.CONSTANTS, k)({'images': {op[1]: list(op[2])}})
            changed |= asked
    for r in m.recipes:
        for n in ASKED:
            compare(r, n, 'everything')
    ctx.nontrivial = positive and changed
