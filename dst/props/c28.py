"""C28 whatever files contain, loading and asking give answers."""
import inspect
import json
import random

from .. import query as Q, world as W
from ..harness import fail, h64, Invalid, short
from . import c05

ID = 'C28'
QUICK = {'runs': 3400}
THOROUGH = {'runs': 100000, 'secs': 780}
RULE = ('seeded layers and junk documents are damaged on the simulated disk (flipped bits, zeroed, lost, repeated, exchanged and misdirected blocks, lost ends, foreign text), loaded, and every query is made for every file, '
        'every accessor of every item is read, and every value is expanded and split; the only error allowed is that of a damaged file that is no text any more, which then must be the one that is reported. '
        'Non-trivial: damage was done to a file that is loaded as text.')
ASSUMPTIONS = ['the answers themselves are judged by the other properties; here they only have to be of their type']
FOREIGN = ['\0', '\x1b', '\x7f', '\ufeff', '\u2028', '\x85', '\x0c', '\x0b', '\U0001f600', '\u0301', '"', "'", '\\', '\\\n', '\n', '\r', '\r\n', '${', '}', '${@', '${}', '${@}', '!!!inlineblock!!!', '{', '[', ']', '(', ')', '=', ':', '::', ';', '@', '#', '%',
           ' ', '\t', '_append', ':append', ':', '_', '.', '/', '../', 'file://', 'http://[', 'name=', '(?P<x>', '*', '+', '?', '|', '^', '$', 'inherit', 'include ', 'unset ', 'addtask ', 'deltask ', 'python ', '() {', 'def ', 'EXPORT_FUNCTIONS ',
           'PACKAGES_DYNAMIC = "', 'PACKAGES = "', 'SRC_URI = "', 'A[x] = "', 'export ', '${A}', '${PN}', '${${A}}', 'addpylib ', 'addfragments ', 'include_all ', 'require', 'before', ' after ', 'oe.utils.read_file(', "${@oe.utils.read_file('a')}", '~', '9' * 30, '?' * 30]


SPECIAL = ['PACKAGES_DYNAMIC', 'PACKAGES', 'PACKAGE_BEFORE_PN', 'SRC_URI', 'PN', 'BPN', 'PV', 'A', 'X', 'INHERIT', 'IMAGE_INSTALL', 'THISDIR', 'FILE', 'S', 'A:append', 'A_append', 'A:remove', 'A_prepend', 'FILES:${PN}', 'do_install[depends]', 'BBCLASSEXTEND',
           '${PN}', '${X}', 'FILES_${PN}-dev', 'A:arm:append', 'EXTRA_OEMAKE', 'DEPENDS', 'REF']
OPS = [' = ', ' += ', ' ?= ', ' ??= ', ' := ', ' .= ', ' =. ', ' =+ ', '=', '  =\t', ' ===', ' ?? ']


STARTS = ['inherit ', 'include ', 'require ', 'unset ', 'addtask ', 'deltask ', 'addhandler ', 'EXPORT_FUNCTIONS ', 'export ', 'addpylib ', 'addfragments ', 'include_all ', 'inherit_defer ', 'def ', 'python ', '# ']


def junk(rng, pal=FOREIGN):
    return ''.join(rng.choice([rng.choice(pal), rng.choice(pal), W.rword(rng, W.LOW + W.UP, W.LOW + W.NUM)]) for _ in range(rng.choice([0, 1, 2, 4, 8])))


def line(rng, pal=FOREIGN, starts=STARTS, special=SPECIAL):
    r = rng.random()
    if r < 0.6:
        q = rng.choice(['"', '"', "'", ''])
        return '%s%s%s%s%s\n' % (rng.choice(special), rng.choice(OPS), q, junk(rng, pal), q)
    if r < 0.9:
        return '%s%s\n' % (rng.choice(starts), junk(rng, pal))
    return '%s() {\n%s\n}\n' % (rng.choice(['do_install', 'do_x:append', 'python do_y', 'fakeroot do_z', 'do_${X}', 'python ', 'pkg_postinst:${PN}', 'do_a_append_b']), junk(rng, pal))


def gen(rng, tier):
    if rng.random() < 0.3:
        sc = {'d': rng.choice(['_', ':']), 'loads': ['/sim/meta-x/recipes-a/foo/foo_1.0.bb'],
              'files': [{'path': '/sim/meta-x/conf/layer.conf', 'raw': ''},
                        {'path': '/sim/meta-x/recipes-a/foo/foo_1.0.bb', 'lines': [rng.choice(c05.FRAG) for _ in range(rng.choice([2, 5, 12]))]}]}
    else:
        sc = W.gen_layer(rng, recipes=rng.choice([1, 1, 2]), depth=rng.choice([0, 1, 2]), size=(1, 3, 5), inline=0.2)
    paths = [f['path'] for f in sc['files'] if not f['path'].endswith('layer.conf')]
    dmg = []
    # few things at a time meet each other more often
    few = [rng.sample(x, rng.choice([2, 4, 8])) if rng.random() < 0.5 else x for x in (FOREIGN, STARTS, SPECIAL)]
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        k = rng.choice(['flip', 'zero', 'lose', 'repeat', 'swap', 'from', 'cut', 'text', 'text', 'line', 'line', 'line'])
        size = rng.choice([1, 2, 4, 16, 64, 512])
        dmg.append([k, rng.choice(paths), round(rng.random(), 4), size,
                    rng.choice(few[0]) if k == 'text' else line(rng, *few) if k == 'line' else rng.choice(paths) if k == 'from' else rng.randrange(8) if k == 'flip' else round(rng.random(), 4)])
    sc.update(damage=dmg, chunk_seed=rng.randrange(1 << 30), salt=rng.randrange(1 << 30), qseed=rng.randrange(1 << 30), neg=int(rng.random() < 0.3), queries=rng.choice([3, 10]))
    return sc


def damaged(data, others, op):
    k, _, at, size, x = op
    n = len(data)
    i = min(int(at * (n + 1)), n)
    j = min(i + size, n)
    if k == 'flip':
        return data[:i] + bytes([data[i] ^ (1 << x)]) + data[i + 1:] if i < n else data
    if k == 'zero':
        return data[:i] + b'\0' * (j - i) + data[j:]
    if k == 'lose':
        return data[:i] + data[j:]
    if k == 'repeat':
        return data[:j] + data[i:j] + data[j:]
    if k == 'cut':
        return data[:i]
    if k == 'swap':
        a = min(int(x * (n + 1)), n)
        lo, hi = sorted((i, a))
        b = data[lo:lo + size]
        if lo + size > hi:
            return data
        c = data[hi:hi + size]
        return data[:lo] + c + data[lo + size:hi] + b + data[hi + size:]
    if k == 'line':
        i = data.rfind(b'\n', 0, i) + 1
    if k == 'from':
        src = others[x]
        at2 = min(int(at * (len(src) + 1)), len(src))
        return data[:i] + src[at2:at2 + size] + data[j:]
    return data[:i] + x.encode() + data[i:]


def is_list(x):
    return isinstance(x, list) and all(isinstance(y, str) for y in x)


TYPES = {'links': is_list, 'recipes': is_list, 'lone': is_list, 'confs': is_list, 'classes': is_list, 'files': is_list,
         'term': lambda x: isinstance(x, str), 'finger': lambda x: isinstance(x, str), 'image': lambda x: isinstance(x, bool), 'group': lambda x: isinstance(x, bool),
         'isdyn': lambda x: isinstance(x, bool), 'dyn': lambda x: all(isinstance(y, str) for y in x), 'pkgs': lambda x: all(isinstance(y, str) for y in x),
         'named': lambda x: all(isinstance(y, str) for y in x), 'scr': lambda x: isinstance(x, dict) and isinstance(x['options'], dict) and isinstance(x['scheme'], str) and isinstance(x['src'], str),
         'var': lambda x: isinstance(x, dict) and all(isinstance(k, str) and is_list(v) for k, v in x.items()), 'split': is_list,
         'items': lambda x: all(hasattr(y, 'CLASSIFIER') for y in x), 'reduce': lambda x: all(hasattr(y, 'CLASSIFIER') for y in x),
         'name': lambda x: isinstance(x, str), 'base': lambda x: isinstance(x, str)}


def run(sc, ctx):
    paths = {f['path'] for f in sc['files']}
    for op in sc['damage']:
        if op[1] not in paths or op[0] == 'from' and op[4] not in paths:
            raise Invalid('file')
    if any(p not in paths for p in sc['loads']):
        raise Invalid('file')
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    ctx.key = '%x' % h64(json.dumps(sc, sort_keys=True))
    data = {}
    for f in sc['files']:
        data[f['path']] = ('\n'.join(f['lines']) + '\n' if 'lines' in f else f['raw'] if 'raw' in f else W.render(f['blocks'])).encode()
    intact = dict(data)
    for op in sc['damage']:
        data[op[1]] = damaged(data[op[1]], data, op)
        if data[op[1]] != intact[op[1]]:
            w.fired('disk:' + {'flip': 'FLIPPED-BIT', 'zero': 'ZEROED', 'lose': 'LOST', 'repeat': 'REPEATED', 'swap': 'EXCHANGED', 'from': 'MISDIRECTED', 'cut': 'TORN', 'text': 'FOREIGN-TEXT', 'line': 'FOREIGN-LINE'}[op[0]])
    bad = set()
    for p, d in data.items():
        w.fs.write(p, d)
        try:
            d.decode()
        except UnicodeDecodeError:
            bad.add(p)
    lib = ctx.lib()
    s = lib.Stash(quiet=True, new_style_override_syntax=sc['d'] == ':', negative_inline=bool(sc['neg']))
    loaded = []
    for p in sc['loads']:
        before = s.FingerPrint, len(s.GetItemsFor())
        try:
            s.AddFile(p)
        except UnicodeDecodeError as e:
            if not any(e.object and (d.startswith(e.object) or e.object in d) for d in (data[b] for b in bad)):
                fail('decoding', 'loading %s reports %s, which no damaged file explains' % (p, short(str(e))))
            if (s.FingerPrint, len(s.GetItemsFor())) != before:
                fail('trace', 'loading %s failed and left items behind' % p)
        else:
            if p in bad:
                fail('text', '%s is no text but was loaded' % p)
            loaded.append(p)
    s.Finalize()
    its = s.GetItemsFor()
    ctx.nontrivial = any(i.Origin in data and data[i.Origin] != intact[i.Origin] for i in its)
    rng = random.Random(sc['qseed'])
    files = sorted({i.Origin for i in its} | set(loaded) | {'/sim/meta-x/none.bb'})

    def ask(q):
        x = Q.raw(lib, s, q)
        t = TYPES.get(q[0])
        if t and not t(x):
            fail('type', '%s is answered with %s' % (short(q), short(repr(x))))
        return x
    for q in Q.panel(files):
        ask(q)
    for _ in range(sc['queries']):
        q = Q.gen_query(rng, files)
        ask(q)
    for i in its:
        for n in dir(type(i)):
            if n.startswith('_'):
                continue
            v = getattr(i, n)
            if callable(v) and n != 'safe_linesplit':
                sig = inspect.signature(v)
                if all(a.default is not a.empty or a.kind in (a.VAR_POSITIONAL, a.VAR_KEYWORD) for a in sig.parameters.values()):
                    v()
        str(i), repr(i), hash(i)
        Q.item_view(i)
        i.extract_sub(i.Raw)
        i.extract_sub_func(i.Raw)
        i.safe_linesplit(i.Raw)
        texts = [i.Raw] + [getattr(i, n) for n in ('VarValue', 'VarValueStripped', 'Value', 'FuncBody', 'VarName', 'FuncName') if isinstance(getattr(i, n, None), str)]
        for t in texts:
            ask(['term', i.Origin, t])
            ask(['split', t])
            ask(['scr', t])
            ask(['isdyn', i.Origin, t])
            for u in t.split()[:6]:
                ask(['scr', u])
            ask(['items', {'filename': i.Origin, 'attribute': 'VarName', 'attributeValue': t}])
        if i.CLASSIFIER == 'Variable':
            x = s.ExpandTerm(i.Origin, i.VarValue, objref=i)
            if not isinstance(x, str):
                fail('type', 'the expansion of %s is %r' % (short(i.Raw), x))
            ask(['var', {'filename': i.Origin, 'attribute': 'VarName', 'attributeValue': i.VarName}])
            ask(['name', '/sim/' + i.VarValueStripped + '.bb'])
            ask(['base', '/sim/' + i.VarValueStripped + '.bb'])
            ask(['version', '/sim/' + i.VarValueStripped + '.bb'])
            if '/' not in i.VarValueStripped:
                ask(['files', i.Origin, i.VarValueStripped])
                ask(['find', i.VarValueStripped, '/sim/meta-x/recipes-a'])
