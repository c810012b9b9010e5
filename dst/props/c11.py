"""C11 variable expansion follows bitbake operator semantics."""
import re

from .. import query as Q, world as W
from ..harness import fail, Invalid, short

ID = 'C11'
QUICK = {'runs': 8000}
THOROUGH = {'runs': 80000, 'secs': 780}
RULE = ('seeded statements on a handful of variables (all operators, override-style append/prepend/remove, overrides, weak defaults, unsets, references to singly assigned '
        'variables and to built-in ones, inline expressions, continued lines) spread over recipe, includes, classes and appends of a seeded layer, loaded in a seeded order with failing '
        'attempts, early finalisations and earlier (and spoiled) expansions in between; expansions are compared with an evaluator over the statements in evaluation order. '
        'Non-trivial: a variable is modified by at least two statements.')
ASSUMPTIONS = ['references are made to variables assigned once; unsets are not combined with override-style modifiers of the same variable (an existing test keeps these)']
OPVARS = ['A', 'B', 'C_X', 'LICENSE', 'DEPENDS', 'PACKAGES', 'P', 'SOLIBS', 'EXTRA-x.y']
REFVARS = ['R1', 'R2', 'R_C', 'MYR']
WORDS = ['a', 't', 'b', 'c', 'dd', 'e-1', 'file://x.patch', 'é', 'a=b', "it's", 'x:y', 'git://h/p;name=${PN}-n', '(>=1)', '#', '\\"', '-DX=\\"q\\"']
RWORDS = ['r1', 'r2', '/usr/r', 'r-ü']
BUILTIN = ['${PN}', '${PV}', '${BPN}', '${P}', '${SOLIBSDEV}', '${nope}', '${THISDIR}', '${FILE}']
INL = ["${@myfunc(d)}", "${@int('3')+4}", "${@bb.utils.contains('F','x','t','f',d)}"]
OPS = [' = ', ' += ', ' ?= ', ' := ', ' .= ', ' =+ ', ' =. ', ' ??= ', '=', '+=', '?=', ' =  ', '\t.=\t', '??=', '=.', '=+ ']


def gen(rng, tier):
    sc = W.gen_complete(rng, depth=2, shared=0.0, recipes=rng.choice([1, 1, 2]), size=(0, 1, 2),
                        kinds=['comment', 'func', 'item', 'flag', 'export', 'addtask', 'def'], inline=0.0, multi_append=0.5)
    files = [f for f in sc['files'] if 'blocks' in f]
    recipes = [f for f in files if f['path'].endswith('.bb')]
    d = sc['d']

    def place(b, where=None):
        W.insert(rng, rng.choice(where or files)['blocks'], b)
    refs = rng.sample(REFVARS, rng.choice([0, 1, 2, 3]))
    for i, r in enumerate(refs):
        v = [rng.choice(RWORDS) for _ in range(rng.choice([0, 1, 2]))]
        if i and rng.random() < 0.5:
            v.append('${%s}' % refs[i - 1])
        if rng.random() < 0.3:
            v.append(rng.choice(BUILTIN))
        # every recipe has to have exactly one: place it in one recipe only
        for f in recipes:
            W.insert(rng, f['blocks'], {'k': 'var', 'n': r, 'sub': [], 'd': d, 'op': rng.choice([' = ', ' := ', '=']), 'v': [' '.join(v)]})
    plain = [x for x in (f['path'].rsplit('/', 1)[1].split('_')[0] for f in recipes) if re.fullmatch('[a-z]+', x)]
    pool = rng.sample(OPVARS, rng.choice([1, 1, 2, 3]))
    unsets = [v for v in pool if rng.random() < 0.35]
    for _ in range(rng.choice([2, 4, 7, 12])):
        n = rng.choice(pool)
        if n in unsets and rng.random() < 0.2:
            place({'k': 'unset', 'n': n, 'f': rng.choice([None, None, None, 'doc'])})
            continue
        sub = []
        if n != 'EXTRA-x.y':
            sub = rng.choice([[], [], [], [], ['append'], ['prepend'], ['remove'], ['arm'], ['append', 'arm'], ['arm', 'append'], ['remove', 'arm'], ['prepend', 'arm', 'x86'], ['${PN}'], ['${PN}', 'append'], ['append', '${PN}-dev'], ['${PN}', 'arm'], ['${PN}', 'remove'], ['${PN}-dev', 'remove'], ['${PN}', 'prepend']])
        if n in unsets:
            sub = [x for x in sub if x in ('arm', '${PN}')]
        elif '${PN}' in sub and 'remove' not in sub and plain and rng.random() < 0.5:
            # the same name, spelled out
            sub = [rng.choice(plain) if x == '${PN}' else x for x in sub]
        op = rng.choice(OPS) if not [x for x in sub if x in ('append', 'prepend', 'remove')] else rng.choice([' = ', '=', ' += '] if rng.random() < 0.1 else [' = ', '='])
        v = [rng.choice(WORDS) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if refs and rng.random() < 0.4:
            v.append('${%s}' % rng.choice(refs))
        if rng.random() < 0.2:
            v.append(rng.choice(BUILTIN))
        if 'remove' in sub:
            v += rng.sample(RWORDS, rng.choice([0, 0, 1]))
        else:
            while rng.random() < 0.12 and n != 'PACKAGES':
                v.append(rng.choice(INL))
        rng.shuffle(v)
        lines = [' '.join(v)]
        if len(v) > 1 and rng.random() < 0.25:
            c = rng.randrange(1, len(v))
            lines = [' '.join(v[:c]), ' '.join(v[c:])]
        if rng.random() < (0.5 if 'append' in sub or 'remove' in sub else 0.15):
            lines[0] = ' ' + lines[0]
        if rng.random() < (0.5 if 'prepend' in sub else 0.15):
            lines[-1] += rng.choice([' ', '  '])
        b = {'k': 'var', 'n': n, 'sub': sub, 'd': d, 'op': op, 'v': lines}
        place(b)
    if rng.random() < 0.6:
        # a dense history of one variable, in one file or over several ones
        n = rng.choice(pool)
        whole = rng.random() < 0.5
        f = rng.choice(files)
        at = rng.randrange(len(f['blocks']) + 1)
        sub = rng.choice([[], [], ['arm']]) if n != 'EXTRA-x.y' else []
        # a few kinds of statements at a time, so that unlikely sequences of them are not unlikely
        dops = rng.choice([OPS[:8], rng.sample(OPS[:8], 2), rng.sample(OPS[:8], 3)])
        gone = rng.choice([0.2, 0.5])
        sizes = rng.choice([[0, 0, 1, 1, 2], [0, 1], [0, 0, 0, 1]])
        # one name in two spellings
        twice = plain and n not in unsets and n != 'EXTRA-x.y' and rng.random() < 0.3
        for _ in range(rng.choice([3, 4, 6])):
            if twice:
                sub = [rng.choice(['${PN}', plain[0]])] + rng.choice([[], [], ['append']])
                b = {'k': 'var', 'n': n, 'sub': sub, 'd': d, 'op': ' = ' if sub[1:] else rng.choice([' = ', ' = ', ' += ', ' ?= ']), 'v': [' '.join(rng.sample(WORDS[:5], rng.choice([1, 2, 2, 3])))]}
            elif n in unsets and not sub and rng.random() < gone:
                b = {'k': 'unset', 'n': n, 'f': rng.choice([None, None, None, 'doc'])}
            else:
                b = {'k': 'var', 'n': n, 'sub': sub, 'd': d, 'op': rng.choice(dops), 'v': [' '.join(rng.choice(WORDS) for _ in range(rng.choice(sizes)))]}
            if whole:
                f['blocks'].insert(at, b)
            else:
                place(b)
    ops = []
    qf = [f['path'] for f in files]
    for p in sc['loads']:
        if rng.random() < 0.12:
            ops.append(['fail', p, rng.choice(['EIO', 'INTR', 'NOMEM']), rng.randrange(1000)])
        ops.append(['load', p])
        while rng.random() < 0.3:
            ops.append([rng.choice(['ask', 'spoil']), Q.gen_query(rng, qf, ['var', 'var', 'term', 'pkgs', 'items', 'named'])])
        if rng.random() < 0.2:
            ops.append(['final'])
    ops.append(['final'])
    while rng.random() < 0.5:
        ops.append([rng.choice(['ask', 'spoil']), Q.gen_query(rng, qf, ['var', 'var', 'term', 'pkgs', 'items', 'named'])])
    sc['ops'] = ops
    sc['spare'] = rng.sample(['PN', 'PV', 'R1', 'P'], rng.choice([0, 1, 2]))
    sc['terms'] = [' '.join(rng.sample(['${%s}' % r for r in refs] + BUILTIN + ['plain', '${PN}-${PV}'], 3)) for _ in range(2)]
    sc['chunk_seed'] = rng.randrange(1 << 30)
    sc['salt'] = rng.randrange(1 << 30)
    return sc


class Eval:
    """Reference evaluator for one recipe."""

    def __init__(self, path, order, base, d, strict=True, own=None):
        name = path.rsplit('/', 1)[1][:-3]
        self.path = path
        self.base = base
        pn = name.split('_')[0]
        self.builtin = {'PN': pn, 'PV': (name.split('_')[1:] or ['1.0'])[0], 'BPN': re.sub(r'-(native|cross)$', '', pn), 'FILE': path, 'THISDIR': path.rsplit('/', 1)[0]}
        self.assigned = {}
        self.touched = {}
        self.names = {}
        self.mods = set()
        self.unset = set()
        val = {'PN': pn, 'PV': self.builtin['PV'], 'BPN': self.builtin['BPN'], **base}
        weak, app, pre, rem = {}, [], [], []
        for p, _, b in order:
            if own and p != own:
                continue
            if b['k'] == 'unset' and not b.get('f'):
                val.pop(b['n'], None)
                weak.pop(b['n'], None)
                self.unset.add(b['n'])
            if b['k'] != 'var':
                continue
            key = d.join([b['n']] + [x for x in b['sub'] if x not in ('append', 'prepend', 'remove')])
            self.touched[key] = self.touched.get(key, 0) + 1
            self.names[key] = b['n']
            text = ''.join(b['v']) if len(b['v']) == 1 else ' '.join(b['v'])
            text = W.joined(text.replace(INL[2], 't'))
            v = text
            kind = [x for x in b['sub'] if x in ('append', 'prepend', 'remove')]
            if kind:
                self.mods.add(key)
                {'append': app, 'prepend': pre, 'remove': rem}[kind[0]].append((key, v, kind[0]))
                if b['op'].strip() not in ('=',):
                    if strict:
                        raise Invalid('two operators')
                continue
            op = b['op'].strip()
            if not b['sub'] and op in ('=', ':='):
                self.assigned.setdefault(b['n'], []).append(v)
            else:
                self.assigned.setdefault(b['n'], []).append(None)
            if op in ('=', ':='):
                val[key] = v
            elif op == '?=':
                if val.get(key) is None:
                    val[key] = v
            elif op == '??=':
                weak[key] = v
            elif op == '+=':
                val[key] = (val.get(key) or '') + ' ' + v
            elif op == '=+':
                val[key] = v + ' ' + (val.get(key) or '')
            elif op == '.=':
                val[key] = (val.get(key) or '') + v
            elif op == '=.':
                val[key] = v + (val.get(key) or '')
            else:
                raise Invalid('operator')
        for k, v in weak.items():
            if val.get(k) is None:
                val[k] = v
        # appends and prepends do not get into each other's way
        for k, v, _ in app:
            val[k] = (val.get(k) or '') + v
        for k, v, _ in pre:
            val[k] = v + (val.get(k) or '')
        for k, v, _ in rem:
            val.setdefault(k, None)
        self.removed = {}
        for k, v, _ in rem:
            self.removed.setdefault(k, []).append(v)
        self.val = val
        if strict and self.mods & self.unset:
            raise Invalid('unset with modifiers')

    def term(self, t, spare=(), seen=()):
        def sub(m):
            n = m.group(1)
            if n in spare:
                return m.group(0)
            if n in seen:
                raise Invalid('cycle')
            vals = self.assigned.get(n)
            if vals or n in self.touched:
                if not vals or len(vals) != 1 or vals[0] is None or n in self.mods or n in self.unset:
                    raise Invalid('reference to a modified variable')
                return self.term(vals[0], spare, tuple(seen) + (n,))
            if n in self.unset:
                raise Invalid('reference to an unset variable')
            if n in self.base:
                return self.term(self.base[n], spare, tuple(seen) + (n,))
            if n in self.builtin:
                return self.builtin[n]
            return m.group(0)
        return re.sub(r'\$\{([^@}][^}]*)\}', sub, t)


def run(sc, ctx):
    m = W.check_complete(sc)
    if not m.forest():
        raise Invalid('not a forest')
    todo = list(sc['loads'])
    for op in sc['ops']:
        if op[0] == 'load':
            if not todo or todo.pop(0) != op[1]:
                raise Invalid('loads')
    if todo or ['final'] not in sc['ops'] or any(o[0] in ('load', 'fail') for o in sc['ops'][len(sc['ops']) - sc['ops'][::-1].index(['final']):]):
        raise Invalid('not loaded completely')
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    W.put(w, sc['files'])
    lib = ctx.lib()
    base = dict(lib.CONSTANTS.SetsBase)
    d = sc['d']
    evs = []
    for r in m.recipes:
        e = Eval(r, m.order(r), base, d)
        own = Eval(r, m.order(r), base, d, own=r)
        want, nolink = {}, {}
        # names that are the same once expanded give their values in no particular order
        full = [e.term(k) for k in e.val]
        both = {k for k in full if full.count(k) > 1}
        if any(e.term(k) in both for k in e.removed):
            raise Invalid('removal from one of two spellings')
        for src, dst in ((e, want), (own, nolink)):
            for k, v in src.val.items():
                gone = W.tokens(e.term(' '.join(src.removed.get(k, []))))
                dst.setdefault(e.term(k), [])
                dst[e.term(k)] += [x for x in W.tokens(e.term(v or '')) if x not in gone]
        terms = [(t, e.term(t), e.term(t, sc['spare'])) for t in sc['terms']]
        ctx.nontrivial |= any(n > 1 for n in e.touched.values())
        evs.append((r, e, want, nolink, both, terms))
    s = lib.Stash(quiet=True, new_style_override_syntax=d == ':')
    for op in sc['ops']:
        if op[0] == 'fail':
            if op[1] not in m.files:
                raise Invalid('missing')
            w.arm([{'op': 'read' if op[3] % 2 else 'open', 'path': op[1], 'kind': op[2], 'offset': op[3]}])
            try:
                s.AddFile(op[1])
            except (OSError, KeyboardInterrupt, MemoryError):
                pass
            else:
                raise Invalid('did not fail')
            w.disarm()
        elif op[0] == 'load':
            s.AddFile(op[1])
        elif op[0] == 'final':
            s.Finalize()
        elif op[0] == 'ask':
            Q.ask(lib, s, op[1])
        else:
            Q.spoil(Q.raw(lib, s, op[1]))
    for r, e, want, nolink, both, terms in evs:
        compare('expand', 'ExpandVar of %s' % r, s.ExpandVar(filename=r), want, both)
        compare('nolink', 'ExpandVar of %s without links' % r, s.ExpandVar(filename=r, nolink=True), nolink, both)
        for k in sorted(e.touched)[:3]:
            n, k = e.names[k], e.term(k)
            got = s.ExpandVar(filename=r, attribute='VarName', attributeValue=n)
            compare('filtered', 'ExpandVar of %s for %s' % (r, n), {k: got.get(k, [])}, {k: want.get(k, [])}, both)
        for t, full, spared in terms:
            got, full = joined(s.ExpandTerm(r, t), full)
            if got != full:
                fail('term', 'ExpandTerm of %r in %s: %r, expected %r' % (t, r, got, full))
            got, spared = joined(s.ExpandTerm(r, t, spare=list(sc['spare'])), spared)
            if got != spared:
                fail('spare', 'ExpandTerm of %r in %s, sparing %s: %r, expected %r' % (t, r, sc['spare'], got, spared))
        pk = set()
        for pn in ('${PN}', e.builtin['PN']):
            pk |= {pn} | {pn + '-' + x for x in ('ptest', 'src', 'dbg', 'staticdev', 'dev', 'doc', 'locale')}
        for p, _, b in m.order(r):
            if b['k'] == 'var' and b['n'] in ('PACKAGES', 'PACKAGE_BEFORE_PN'):
                for x in W.tokens(e.term(W.joined(' '.join(b['v'])), ['PN'])):
                    pk |= {x, x.replace('${PN}', e.builtin['PN'])}
        got = s.GetValidPackageNames(r)
        if set(got) != pk:
            fail('packages', 'package names of %s: %s too many, %s missing' % (r, sorted(set(got) - pk), sorted(pk - set(got))))


def joined(s, want):
    # a continued line is kept as an escape character between any number of blanks
    if '\x1b' not in s:
        return s, want
    return re.sub(r'[\x1b\s]+', ' ', s), re.sub(r'[\x1b\s]+', ' ', want)


def compare(kind, what, got, want, both=()):
    for k in sorted(set(got) | set(want)):
        if k in both and sorted(got.get(k, [])) == sorted(want.get(k, [])):
            continue
        if got.get(k, []) != want.get(k, []):
            fail(kind, '%s: %s is %s, expected %s' % (what, k, short(got.get(k)), short(want.get(k))))


PROBES = [('reference-to-modified', {'d': '_', 'probe_want': ['2'], 'files': [
    {'path': '/sim/meta-x/conf/layer.conf', 'raw': ''},
    {'path': '/sim/meta-x/r/a_1.bb', 'blocks': [
        {'k': 'var', 'n': 'X', 'sub': [], 'd': '_', 'op': ' = ', 'v': ['1']},
        {'k': 'var', 'n': 'X', 'sub': [], 'd': '_', 'op': ' = ', 'v': ['2']},
        {'k': 'var', 'n': 'A', 'sub': [], 'd': '_', 'op': ' = ', 'v': ['${X}']}]}]})]


def run_probe(sc, ctx):
    w = ctx.world()
    W.put(w, sc['files'])
    lib = ctx.lib()
    s = lib.Stash(quiet=True)
    s.AddFile('/sim/meta-x/r/a_1.bb')
    s.Finalize()
    got = s.ExpandVar(filename='/sim/meta-x/r/a_1.bb')['A']
    if got != sc['probe_want']:
        fail('first-assignment', 'A = "${X}" expands to %s, expected %s: of several assignments to X the first one is used' % (got, sc['probe_want']))
