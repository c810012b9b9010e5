"""C25 names are decomposed into base name, class, machine and distribution overrides."""
import json

from .. import world as W
from ..harness import fail, h64, Invalid, short
from .c14 import Model

ID = 'C25'
QUICK = {'runs': 24000}
THOROUGH = {'runs': 150000, 'secs': 780}
RULE = ('seeded variables and functions with overrides of all kinds in both syntaxes are loaded into two stashes, between changes of the constants, machine and distribution files appearing in their layers, failing loads and '
        'earlier questions; after each step the names and overrides of all items are compared with the parts they were composed of and the constants of that moment (functions: of the moment of loading). '
        'Non-trivial: an override was composed and the constants changed after a load.')
ASSUMPTIONS = ['base names are upper case (variables) or do_*/pkg_* (functions), overrides lower case; other spellings are ambiguous in the old syntax']
LAYERS = ['/sim/l1', '/sim/meta-x']
MACH = ['m1', 'qemux86', 'arm', 'a-b', 'zz9']
DIST = ['poky', 'm1', 'nodistro', 'd-x', 'mydistro', 'poky-tiny']
CLS = ['class-native', 'class-nativesdk', 'class-cross', 'class-target']
MODS = ['append', 'prepend', 'remove']
PKG = ['${PN}', '${PN}-dev', 'foo', 'libc6', 'foo-doc']
VARN = ['A', 'SRC_URI', 'FILES', 'RDEPENDS', 'EXTRA-X.Y', 'CFLAGS', 'A_X86', 'pkg_postinst', 'S']
FUNN = ['do_install', 'do_compile', 'do_mine', 'do_new_task', 'pkg_postinst', 'base_do_x', 'mine']


def gen_sub(rng, func=False):
    pool = MODS * 2 + CLS * 2 + MACH + DIST + ([] if func else PKG) + ['machine']
    return rng.sample(pool, rng.choice([0, 1, 1, 2, 2, 3]))


def gen(rng, tier):
    files = []
    for i in range(rng.choice([1, 2, 3])):
        d = rng.choice(['_', ':'])
        blocks = []
        for _ in range(rng.choice([1, 3, 6])):
            if rng.random() < 0.6:
                n = rng.choice(VARN)
                sub = gen_sub(rng)
                if n == 'pkg_postinst':
                    sub = [x for x in sub if x.startswith('${')][:1] if d == '_' else sub
                blocks.append({'k': 'var', 'n': n, 'sub': list(dict.fromkeys(sub)), 'd': d, 'op': ' = ', 'v': ['1']})
            else:
                n = rng.choice(FUNN)
                sub = list(dict.fromkeys(gen_sub(rng, True)))
                blocks.append({'k': 'func', 'n': n, 'sub': sub, 'd': d, 'py': int(rng.random() < 0.3), 'body': ['    :']})
        layer = rng.choice(LAYERS)
        files.append({'path': '%s/r/f%d_1.%s' % (layer, i, rng.choice(['bb', 'bb', 'inc', 'bbappend'])), 'blocks': blocks, 'd': d})
    ops = []
    order = list(range(len(files)))
    rng.shuffle(order)
    for i in order:
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(gen_op(rng))
        ops.append(['load', i, rng.randrange(2), rng.choice([None, None, None, 'EIO', 'INTR'])])
    for _ in range(rng.choice([0, 1, 2, 4])):
        ops.append(gen_op(rng))
    return {'files': files, 'ops': ops, 'chunk_seed': rng.randrange(1 << 30), 'option': int(all(f['d'] == ':' for f in files) and rng.random() < 0.5)}


def gen_op(rng):
    r = rng.random()
    if r < 0.25:
        return ['conf', rng.choice(LAYERS), rng.choice(['machine', 'distro']), rng.choice(MACH + DIST)]
    if r < 0.35:
        return ['final', rng.randrange(2)]
    ch = {}
    if rng.random() < 0.6:
        ch['replacements'] = {rng.choice(['distros', 'distros', 'machines']): rng.sample(DIST + MACH, rng.choice([1, 2, 3]))}
    if rng.random() < 0.6:
        ch['functions'] = {'known': rng.sample(FUNN, rng.choice([1, 2]))}
    return [rng.choice(['AddConstants', 'AddConstants', 'RemoveConstants', 'OverrideConstants']), ch]


def split_func(n, sub, delim, known):
    """which part of a function name is its base name"""
    chunks = n.split(delim) + list(sub)
    base = [chunks[0]]
    for j, c in enumerate(chunks[1:], 1):
        if c in MODS + CLS or delim.join(base) in known:
            return delim.join(base), chunks[j:]
        base.append(c)
    return delim.join(base), []


def run(sc, ctx):
    w = ctx.world(chunk_seed=sc['chunk_seed'])
    ctx.key = '%x' % h64(json.dumps(sc, sort_keys=True))
    lib = ctx.lib()
    for la in LAYERS:
        w.fs.write(la + '/conf/layer.conf', '')
    for f in sc['files']:
        W.check_valid(f['blocks'])
        if sc['option'] and any(b['d'] != ':' for b in f['blocks']) or len({b['d'] for b in f['blocks']}) > 1:
            raise Invalid('syntax')
        for b in f['blocks']:
            if b['k'] not in ('var', 'func') or len(set(b['sub'])) != len(b['sub']) or b['n'] not in VARN + FUNN or \
                    any(x not in MODS + CLS + MACH + DIST + PKG + ['machine'] for x in b['sub']):
                raise Invalid('name')
            if b['k'] == 'func' and set(b['n'].split('_')) & set(b['sub']):
                raise Invalid('ambiguous')
        w.fs.write(f['path'], W.render(f['blocks']))
    with open(lib.constants.DEFAULT_DB, encoding='utf-8') as i:
        m = Model(json.load(i))
    st = [lib.Stash(quiet=True, new_style_override_syntax=bool(sc['option'])) for _ in range(2)]
    confs = {}
    want = [[], []]
    changed = composed = False

    def check(op):
        distros = m.get('replacements/distros')
        for s, exp in zip(st, want):
            got = {(i.Origin, i.InFileLine): i for i in s.GetItemsFor()}
            for e in exp:
                it = got.get((e['Origin'], e['InFileLine']))
                if it is None:
                    fail('missing', 'no item for %s' % short(e['RealRaw']))
                subs = e['SubItems']
                e = dict(e, GetDistroEntry=([x for x in subs if x in distros] or [''])[0])
                d = W.diff_attrs(W.attrs(it), e)
                if d:
                    fail('decomposition', 'after %s: %s: %s' % (short(op), short(e['RealRaw']), d))
                if it.CLASSIFIER == 'Variable':
                    q = [('VarName', e['VarName']), ('SubItem', e['SubItem'])]
                else:
                    q = [('FuncName', e['FuncName']), ('SubItem', e['SubItem'])]
                for a, v in q:
                    if not any(x is it for x in s.GetItemsFor(classifier=it.CLASSIFIER, attribute=a, attributeValue=v)):
                        fail('lookup', 'after %s: %s is not found by %s = %r' % (short(op), short(e['RealRaw']), a, v))

    for op in sc['ops']:
        if op[0] == 'conf':
            w.fs.write('%s/conf/%s/%s.conf' % tuple(op[1:]), '')
            confs.setdefault((op[1], op[2]), set()).add(op[3])
            continue
        if op[0] == 'final':
            st[op[1]].Finalize()
            check(op)
            continue
        if op[0] == 'load':
            f = sc['files'][op[1] % len(sc['files'])]
            p = f['path']
            if any(e['Origin'] == p for e in want[op[2]]):
                raise Invalid('loaded twice')
            if op[3]:
                w.arm([{'op': 'open', 'path': p, 'kind': op[3]}])
                try:
                    st[op[2]].AddFile(p)
                except (OSError, KeyboardInterrupt):
                    pass
                w.disarm()
                check(op + ['failed'])
            st[op[2]].AddFile(p)
            layer = next(x for x in LAYERS if p.startswith(x + '/'))
            for k in ('distro', 'machine'):
                for n in sorted(confs.get((layer, k), ())):
                    if n not in m.get('replacements/%ss' % k):
                        m.apply('AddConstants', {'replacements': {k + 's': [n]}})
            known = m.get('functions/known')
            for e, b in zip(W.expect_doc(f['blocks'], p, bool(sc['option'])), f['blocks']):
                if b['k'] == 'func':
                    delim = e['OverrideDelimiter']
                    base, sub = split_func(b['n'], b['sub'], delim, known)
                    e.update(FuncName=base, SubItems=sub, SubItem=delim.join(sub), IsAppend=bool(set(sub) & {'append', 'prepend'}),
                             GetMachineEntry=([x for x in sub if x not in CLS + MODS + ['machine']] or [''])[0])
                    e.pop('FuncNameComplete') if not sub else e.update(FuncNameComplete=delim.join([base] + sub))
                composed |= bool(b['sub'])
                want[op[2]].append(e)
        else:
            m.apply(op[0], op[1])
            getattr(lib.CONSTANTS, op[0])(json.loads(json.dumps(op[1])))
            changed |= any(want)
        check(op)
    ctx.nontrivial = changed and composed
    for x in ('distros', 'machines'):
        if sorted(lib.CONSTANTS.GetByPath('replacements/' + x)) != sorted(m.get('replacements/' + x)):    # names of a layer come in any order
            fail('constants', '%s are %s, expected %s' % (x, lib.CONSTANTS.GetByPath('replacements/' + x), m.get('replacements/' + x)))
