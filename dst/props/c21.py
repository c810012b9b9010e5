"""C21 inline expressions are replaced by the branch asked for."""
from ..harness import fail, Invalid, short

ID = 'C21'
QUICK = {'runs': 20000}
THOROUGH = {'runs': 200000, 'secs': 780}
RULE = ('seeded recipes whose statements of every kind hold known forms (all functions, quotings, spacings, values with blanks, commas, parentheses, references) and unknown expressions, parsed in both modes, '
        'with time-outs at seeded operations of the evaluation and short reads; the texts and attributes of all items are compared with a composition from the parts. '
        'Non-trivial: at least two expressions, or a time-out during the evaluation of one.')
IB = '!!!inlineblock!!!'
DIR = '/sim/meta-x/recipes-a/foo'

# (function, arguments before the branches, has a false branch, arguments behind)
FORMS = [
    ('bb.utils.contains', 2, 'tf', 'd'), ('bb.utils.contains_any', 2, 'tf', 'd'), ('bb.utils.filter', 0, 't', '%s d'),
    ('oe.utils.conditional', 2, 'tf', 'd'), ('oe.utils.ifelse', 1, 'tf', ''), ('oe.utils.any_distro_features', 2, 'tf', ''),
    ('oe.utils.all_distro_features', 2, 'tf', ''), ('oe.utils.any_distro_features', 2, 't', ''), ('oe.utils.all_distro_features', 2, 't', ''),
    ('oe.utils.any_distro_features', 2, '', ''), ('oe.utils.all_distro_features', 2, '', ''),
    ('oe.utils.vartrue', 1, 'tf', 'd'), ('oe.utils.less_or_equal', 2, 'tf', 'd'),
    ('oe.utils.version_less_or_equal', 2, 'tf', 'd'), ('oe.utils.both_contain', 2, 't', 'd'), ('d.getVar', 0, 'v', '')]
UNKNOWN = ['myfunc(d)', "'a' if d.getVar('M') == {'k': 1}['k'] else 'b'", "int('3') + 4", 'bb.utils.contains(d)', 'bb.data.inherits_class("a", d)',
           "','.join(x for x in [1, 2])", "oe.utils.str_filter_out('a', 'b', d)", "bb.utils.to_boolean(1)", "{'a': {'b': '1'}}['a']['b']", '', 'x']
VALUES = ['withx', 'x ', ' x', ' ', "'y'", "a 'b'", '"', '', 'a b', '--enable-x=y', 'file://a.patch;x=1', '${S}/x', '1.2', '-Wl,-rpath', 'a, b', 'f(x)', 'g(h(1, 2), 3)', 'é', '#c', '[x]', 'a=b', '{z}']
ARGS = ['DISTRO_FEATURES', 'x11', 'a b', '3', 'x,y', '${PN}']
CALLS = ["d.getVar('Q')", "d.getVar('Q') == 'all'", "d.getVar('Q', True)", "len([1, 2])", "d.getVar('A') in ('x', 'y')"]
NAMES = ['inca', 'incb', 'incc']


def expression(rng, values):
    """-> [text, true, false]"""
    if rng.random() < 0.2:
        e = rng.choice(UNKNOWN)
        return ['${@%s}' % e, IB, IB]
    fn, pre, branches, post = rng.choice(FORMS)
    q = rng.choice(["'", "'", '"'])
    sep = rng.choice([', ', ', ', ', ', ',', ',  ', ' , '])

    def quoted(x):
        o = q if q not in x else "'" if q == '"' else '"'
        return o + x + o
    args = [quoted(rng.choice(ARGS)) for _ in range(pre)]
    if fn == 'oe.utils.ifelse':
        args = [rng.choice(CALLS)]
    if 'distro_features' in fn:
        args[0] = 'd'
    elif fn in ('oe.utils.conditional',) and rng.random() < 0.3:
        args[1] = rng.choice(CALLS[:1])
    t, f = rng.choice(values), rng.choice(values)
    if fn == 'd.getVar':
        v = rng.choice(['ZVAR', 'PN', 'A'])
        args = [quoted(v)] + (['True'] if rng.random() < 0.2 else [])
        t = f = '${%s}' % v
    elif fn == 'bb.utils.filter':
        args, f = [quoted(t), quoted(rng.choice(ARGS)), 'd'], ''
        post = ''
    else:
        if 't' in branches:
            args.append(quoted(t))
        if 'f' in branches:
            args.append(quoted(f))
        else:
            f = ''
        if not branches:
            t = '1'
        if not t and 'distro_features' in fn:
            t = t if 't' not in branches else ''
        if post:
            args.append(post)
    pad = rng.choice(['', '', ' '])
    return ['${@%s%s(%s)%s}' % (pad, fn, sep.join(args), rng.choice(['', '', ' '])), t, f]


def statement(rng):
    """-> {'k': kind, 'p': [parts], ...}: a part is a string or an expression"""
    k = rng.choice(['var', 'var', 'var', 'multi', 'func', 'flag', 'export', 'comment', 'item', 'python', 'include', 'inherit', 'plain'])

    def parts(words, values, n):
        res = []
        for _ in range(n):
            if rng.random() < 0.7:
                res.append(rng.choice(words))
            res.append(expression(rng, values))
        if rng.random() < 0.7:
            res.append(rng.choice(words))
        return res
    words = ['x ', ' file://b.patch ', ' ${A} ', '-', ' é', ' {b} ']
    n = rng.choice([1, 1, 2, 3])
    if k == 'var':
        return {'k': k, 'p': [rng.choice(['A = ', 'SRC_URI += ', 'FOO ?= ']), '"'] + parts(words, VALUES, n) + ['"\n']}
    if k == 'multi':
        p = ['B = "a \\\n']
        for _ in range(n):
            p += ['    '] + parts(words, VALUES, 1) + [' \\\n']
        return {'k': k, 'p': p + ['"\n']}
    if k == 'func':
        p = ['do_install() {\n']
        for _ in range(n):
            p += ['    install '] + parts(words, [v for v in VALUES if '#' not in v], 1) + ['\n']
        return {'k': k, 'p': p + ['}\n']}
    if k == 'python':
        return {'k': k, 'p': ['def foo(d):\n', '    return '] + parts(words, VALUES, n) + ['\n']}
    if k == 'flag':
        return {'k': k, 'p': ['do_x[depends] = "'] + parts(words, VALUES, n) + ['"\n']}
    if k == 'export':
        return {'k': k, 'p': ['export E = "'] + parts(words, VALUES, n) + ['"\n']}
    if k == 'comment':
        return {'k': k, 'p': ['# '] + parts(words, VALUES, n) + ['\n']}
    if k == 'item':
        return {'k': k, 'p': ['addhandler '] + parts(['h '], ['hx', 'hy'], n) + ['\n']}
    if k == 'include':
        return {'k': k, 'p': [rng.choice(['include ', 'require ']), expression(rng, [x + '.inc' for x in NAMES]), '\n']}
    if k == 'inherit':
        return {'k': k, 'p': ['inherit ', rng.choice(['', 'clsz ']), expression(rng, ['clsa', 'clsb']), rng.choice(['', ' clsz']), '\n']}
    return {'k': 'plain', 'p': ['PLAIN = "1"\n']}


def gen(rng, tier):
    sc = {'st': [statement(rng) for _ in range(rng.choice([1, 2, 4, 6]))]}
    if rng.random() < 0.3:
        # the same expression again
        es = [p for s in sc['st'] for p in s['p'] if isinstance(p, list)]
        if es:
            e = rng.choice(es)
            sc['st'].append({'k': 'var', 'p': ['A = ', '"', e, ' and ', e, '"\n']})
    sc['timeouts'] = [rng.randrange(1, 60) for _ in range(rng.choice([0, 0, 1, 1, 2, 5]))]
    sc['neg'] = rng.random() < 0.5
    sc['chunk_seed'] = rng.randrange(1 << 30)
    return sc


def real(s):
    return ''.join(p if isinstance(p, str) else p[0] for p in s['p'])


def exprs(s):
    return [p for p in s['p'] if isinstance(p, list)]


KIND = {'var': 'Variable', 'multi': 'Variable', 'plain': 'Variable', 'func': 'Function', 'python': 'PythonBlock', 'flag': 'FlagAssignment',
        'export': 'Export', 'comment': 'Comment', 'item': 'Item', 'include': 'Include', 'inherit': 'Inherit'}
MAIN = DIR + '/foo_1.0.bb'


def put(w, sc):
    w.fs.write('/sim/meta-x/conf/layer.conf', '')
    for n in NAMES:
        w.fs.write('%s/%s.inc' % (DIR, n), 'FROM_%s = "1"\n' % n.upper())
    for n in ('clsa', 'clsb', 'clsz'):
        w.fs.write('/sim/meta-x/classes/%s.bbclass' % n, 'FROM_%s = "1"\n' % n.upper())
    w.fs.write(MAIN, ''.join(real(s) for s in sc['st']))


def load(lib, sc):
    s = lib.Stash(quiet=True, negative_inline=sc['neg'])
    return s, s.AddFile(MAIN)


def valid(sc):
    prev = None
    for s in sc['st']:
        if s['k'] not in KIND or not s['p'] or not all(isinstance(p, str) or (len(p) == 3 and all(isinstance(x, str) for x in p)) for p in s['p']):
            raise Invalid('statement')
        t = real(s)
        head = {'var': ('A = "', 'SRC_URI += "', 'FOO ?= "'), 'multi': ('B = "a \\\n',), 'func': ('do_install() {\n',), 'python': ('def foo(d):\n    return ',),
                'flag': ('do_x[depends] = "',), 'export': ('export E = "',), 'comment': ('# ',), 'item': ('addhandler ',), 'include': ('include ', 'require '),
                'inherit': ('inherit ',), 'plain': ('PLAIN = "1"\n',)}[s['k']]
        tail = {'multi': '"\n', 'var': '"\n', 'flag': '"\n', 'export': '"\n', 'func': '\n}\n'}.get(s['k'], '\n')
        if not t.startswith(head) or not t.endswith(tail) or s['k'] in ('include', 'inherit', 'item') and not exprs(s):
            raise Invalid('statement')
        if s['k'] not in ('multi', 'func', 'python') and t.count('\n') != 1:
            raise Invalid('statement')
        if s['k'] == 'multi' and (t.replace('\\\n', '').count('\n') != 1 or '\\\n"' not in t):
            raise Invalid('statement')
        if s['k'] == 'comment' and prev == 'comment':
            raise Invalid('adjacent comments are one item')
        if s['k'] == 'python' and t.count('\n') != 2:
            raise Invalid('statement')
        prev = s['k']


def run(sc, ctx):
    valid(sc)
    col = 2 if sc['neg'] else 1
    known = {}
    for s in sc['st']:
        for e in exprs(s):
            known[e[0]] = e[col]
    # which operations evaluate expressions: those that see nothing else
    w = ctx.world(chunk_seed=sc['chunk_seed'])
    put(w, sc)
    w.regex_log = []
    load(ctx.lib(), sc)
    ops = [(n, t) for n, _, t in w.regex_log if t.strip() and any(t in e and len(t.strip()) >= len(e[3:-1].strip()) for e in known)]
    w = ctx.world(chunk_seed=sc['chunk_seed'])
    put(w, sc)
    chosen = sorted({ops[x % len(ops)] for x in sc['timeouts']}) if ops else []
    w.arm([{'op': 'regex', 'kind': 'TIMEOUT', 'nth': n} for n, _ in chosen])
    lib = ctx.lib()
    s, items = load(lib, sc)
    hit = list(w.timeout_strings)
    ctx.nontrivial = bool(hit) or len(known) > 1
    ctx.key = repr(sc)
    if [i.RealRaw for i in items] != [real(x) for x in sc['st']]:
        fail('original', 'original texts %s of %s' % (short([i.RealRaw for i in items]), short([real(x) for x in sc['st']])))
    included = set()
    for i, st in zip(items, sc['st']):
        blocks = [tuple(b) for b in i.InlineBlocks]
        every = [e[0] for e in exprs(st)]
        if [b[0] for b in blocks] != every:
            fail('blocks', '%s lists the expressions %s' % (short(real(st)), short(blocks)))
        for e, val in blocks:
            ok = [known[e]]
            if any(t in e for t in hit):
                ok.append(IB)
            if val not in ok:
                fail('branch', '%s is replaced by %r, expected %s (%s mode)' % (e, val, ' or '.join(map(repr, ok)), 'negative' if sc['neg'] else 'positive'))
        todo = [b[1] for b in blocks]
        raw = ''.join(p if isinstance(p, str) else todo.pop(0) for p in st['p'])
        if i.Raw != raw:
            fail('text', '%s becomes %s, expected %s' % (short(real(st)), short(i.Raw), short(raw)))
        k = st['k']
        flat = raw.replace('\n', '')
        one = '"' not in flat[flat.find('"') + 1:-1] if k in ('var', 'flag', 'export') else True
        if k in ('include', 'inherit') and len(flat.split()) < 2:
            continue            # nothing to pull in is left
        if i.CLASSIFIER != KIND[k]:
            fail('kind', '%s is taken as %s' % (short(real(st)), i.CLASSIFIER))
        if k == 'var' and one and i.VarValue != flat[flat.index('"'):]:
            fail('value', '%s has the value %s' % (short(real(st)), i.VarValue))
        if k == 'flag' and i.Value != flat[flat.index('"'):]:
            fail('value', '%s has the value %s' % (short(real(st)), i.Value))
        if k == 'export' and one and i.Value != flat[flat.index('"') + 1:-1]:
            fail('value', '%s has the value %s' % (short(real(st)), i.Value))
        if k == 'func' and not i.FuncBody.strip() == ' '.join(raw[raw.index('{') + 1:raw.rindex('}')].split()) and \
                ''.join(i.FuncBody.split()) != ''.join(raw[raw.index('{') + 1:raw.rindex('}')].split()):
            fail('body', '%s has the body %s' % (short(real(st)), short(i.FuncBody)))
        if k == 'include':
            n = flat.split(None, 1)[1:]
            if n and i.IncName != n[0].split()[0]:
                fail('include', '%s includes %s' % (short(real(st)), i.IncName))
            if n and n[0].split()[0][:-4] in NAMES and n[0].split()[0].endswith('.inc'):
                included.add('FROM_' + n[0].split()[0][:-4].upper())
        if k == 'inherit':
            for c in flat.split()[1:]:
                if c in ('clsa', 'clsb', 'clsz'):
                    included.add('FROM_' + c.upper())
    got = {i.VarName for i in s.GetItemsFor(classifier='Variable') if i.VarName.startswith('FROM_')}
    if got != included:
        fail('pulled-in', 'the files pulled in define %s, expected %s' % (sorted(got), sorted(included)))
