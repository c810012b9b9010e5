"""Documents and layers: generator, renderer and reference model.

A document is a list of blocks; a block is one statement together with everything
the grammar says belongs to it.  The model predicts, from the blocks alone, which
item the library has to produce for each of them.
"""
import os
import re
import textwrap

from .harness import Invalid

IB = '!!!inlineblock!!!'

# expression text, value of the true branch, value of the false branch (None: kept verbatim)
INLINES = [
    ("${@bb.utils.contains('DISTRO_FEATURES', 'x11', 'withx', 'nox', d)}", 'withx', 'nox'),
    ("${@bb.utils.contains_any('DISTRO_FEATURES', 'a b', 'anyt', 'anyf', d)}", 'anyt', 'anyf'),
    ("${@bb.utils.filter('pam', 'DISTRO_FEATURES', d)}", 'pam', ''),
    ("${@oe.utils.conditional('MODE', 'dbg', 'ct', 'cf', d)}", 'ct', 'cf'),
    ("${@oe.utils.ifelse(d.getVar('Q'), 'it', 'if_')}", 'it', 'if_'),
    ("${@oe.utils.any_distro_features(d, 'f1', 'dt', 'df')}", 'dt', 'df'),
    ("${@oe.utils.all_distro_features(d, 'f2', 'at', 'af')}", 'at', 'af'),
    ("${@oe.utils.vartrue('K', 'vt', 'vf', d)}", 'vt', 'vf'),
    ("${@oe.utils.less_or_equal('K', '3', 'lt', 'lf', d)}", 'lt', 'lf'),
    ("${@oe.utils.version_less_or_equal('K', '3', 'wt', 'wf', d)}", 'wt', 'wf'),
    ("${@oe.utils.both_contain('K', 'L', 'bothv', d)}", 'bothv', ''),
    ("${@d.getVar('ZVAR')}", '${ZVAR}', '${ZVAR}'),
    ("${@myfunc(d)}", None, None),
    ("${@'a' if d.getVar('M') == {'k': 1}['k'] else 'b'}", None, None),
    ("${@int('3') + 4}", None, None),
]

WORDS = ['alpha', 'beta', 'gamma', 'delta', 'foo', 'bar', 'lib', 'x86', '1.2.3', 'file://a.patch',
         'git://ex.org/r.git;name=main;branch=b', 'https://ex.org/f-${PV}.tgz', '${PN}-doc', '-O2',
         '--with-x=y', 'é', '日本', '${S}/src', "it's", 'a=b', '#hash', '[br]', '(p)', '(>= 1.0)', 'bar (= 2)', 'x:y', 'fn(){x}', 'f() {', 'p\x0cq', 'p\u2028q', 'p\x85q']
VARS = ['SRC_URI', 'DEPENDS', 'A', 'B', 'LICENSE', 'FILES', 'RDEPENDS', 'EXTRA_OECONF', 'PACKAGECONFIG',
        'S', 'FOO_BAR', 'PACKAGES', 'CVE_STATUS', 'HOMEPAGE', 'do-x.y', 'BBCLASSEXTEND']
OVR = ["append", "prepend", "remove", "class-native", "class-target", 'qemux86', 'mydistro', 'foo', '${PN}', 'arm']
OPS = [' = ', ' += ', ' ?= ', ' := ', ' .= ', ' =+ ', ' =. ', ' ??= ']
TIGHT = ['=', '+=', '?=', ':=', '.=', '=+', '=.', '??=', '  =  ', '\t=\t', '= ', ' =']
TASKS = ['do_install', 'do_compile', 'do_configure', 'do_fetch', 'do_deploy_x', 'pkg_postinst', 'my-task.x']
TASKN = ['do_install', 'do_compile', 'do_configure', 'do_deploy_x', 'do_a-b']
UP, LOW, NUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'abcdefghijklmnopqrstuvwxyz', '0123456789'
MODS = ('append', 'prepend', 'remove', 'class-native', 'class-nativesdk', 'class-cross', 'class-target')


def rword(rng, first, rest, most=6):
    return rng.choice(first) + ''.join(rng.choice(rest) for _ in range(rng.randrange(most)))


def r_var(rng, d):
    """a variable name without overrides"""
    chunks = [rng.choice([rword(rng, UP, UP + NUM), rword(rng, UP, UP + NUM + '.-' + LOW), rword(rng, LOW + UP + NUM, LOW + UP + NUM), 'INHERIT', 'EXPORT', 'X'])]
    for _ in range(rng.choice([0, 0, 1, 2])):
        chunks.append(rword(rng, UP, rng.choice([UP + NUM, UP + NUM + LOW + '.-'])))
    if chunks[0] in ('pkg', 'python', 'fakeroot', 'INHERIT', 'export') and len(chunks) == 1:
        chunks[0] += 'X'
    if chunks[0] in ('PN', 'PV', 'BPN', 'BP', 'P'):
        chunks[0] += 'X'        # names of files refer to these
    return '_'.join(x.rstrip('.-') for x in chunks)


def r_override(rng, d):
    o = rng.choice([rword(rng, LOW, LOW + NUM), rword(rng, LOW + NUM, LOW + NUM + '-'), 'pn-' + rword(rng, LOW, LOW + NUM + '-'), 'libc-musl', 'forcevariable', 'mx8mp', '${PN}-dev', '${PN}-x.y',
                    'machine', 'class', 'native', 'target', 'appends', 'removed', 'class-nativesdk', 'class-cross'])
    return o if o not in MODS or o.startswith('class-') else o + 'x'


def r_func(rng, d):
    """a function name without overrides"""
    n = '_'.join(x for x in [rng.choice(['do', 'do', 'pkg', 'python', 'python3', 'fakeroot', 'def', 'export', 'addtask', 'inherit', rword(rng, LOW + UP, LOW + UP + NUM)])]
                 + [rng.choice([rword(rng, LOW, LOW + NUM), rword(rng, LOW + UP, LOW + UP + NUM + '.-+'), 'install', 'postinst', 'ontarget', 'pep517']) for _ in range(rng.choice([1, 1, 2, 3]))]
                 if x not in MODS)
    if '_' not in n:
        n += '_x'
    if rng.random() < 0.1:
        n += rng.choice(['-${PN}', '${PV}', '_${BPN}-x'])
    return n


def r_task(rng):
    return rng.choice(['do', 'do', 'pkg', 'before', 'x']) + '_' + rword(rng, LOW + UP, LOW + UP + NUM + '_-')


def r_flag(rng):
    return rword(rng, LOW + UP, LOW + UP + NUM + '._-/@')


def r_class(rng):
    return 'no' + rword(rng, LOW + NUM, LOW + NUM + '.-_+') + rng.choice(['', '', '', '-${PN}', 'X', 'é'])


def r_file(rng):
    return rng.choice(['', '', 'none/', '../none/', '${BPN}-']) + rword(rng, LOW + UP, LOW + UP + NUM + '.-_+#@~,é=', 8) + rng.choice(['-none.inc', '-none.inc', '-none.conf', '-none.bb', '-none'])


# ---------------------------------------------------------------------------
# rendering
def text(b):
    return b.get('pre', '') + _text(b)


def _text(b):
    k = b['k']
    sep = b.get('sep', ' ')
    if k == 'var':
        name = b['d'].join([b['n']] + b['sub'])
        q = b.get('q', '"')
        return name + b['op'] + q + (b.get('cont', ' \\\n') + b.get('ind', '    ')).join(b['v']) + q + b.get('tr', '') + '\n'
    if k == 'flag':
        q = b.get('q', '"')
        return '%s[%s]%s%s%s%s\n' % (b['n'], b['f'], b['op'], q, b['v'], q)
    if k == 'func':
        name = b['d'].join([b['n']] + b['sub'])
        ps = b.get('ps', ' ')
        pre = ['python' + ps if b.get('py') else '', 'fakeroot' + ps if b.get('fr') else '']
        if b.get('rev'):
            pre.reverse()
        return '%s%s%s\n%s}\n' % (''.join(pre), name, b.get('hd', ' () {' if b.get('sp') else '() {'),
                                  ''.join(x + '\n' for x in b['body']))
    if k == 'def':
        return 'def%s%s%s(%s):%s\n%s' % (sep, b['n'], b.get('sep2', ''), b.get('a', 'd'), b.get('com', ''), ''.join(x + '\n' for x in b['body']))
    if k in ('comment',):
        return ''.join(x + '\n' for x in b['lines'])
    if k == 'icomment':
        return b['t'] + '\n'
    if k == 'include':
        return '%s%s%s\n' % (b['st'], sep, b['name'])
    if k == 'inherit':
        return '%s %s\n' % (b['st'], sep.join(b['cls']))
    if k == 'iglob':
        q = b.get('q', '"')
        return 'INHERIT%s%s%s%s\n' % (b['op'], q, sep.join(b['cls']), q)
    if k == 'export':
        q = b.get('q', '"')
        return 'export%s%s%s\n' % (sep, b['n'], '' if b.get('v') is None else b.get('op', ' = ') + q + b['v'] + q)
    if k == 'addtask':
        s = 'addtask ' + b['n']
        parts = []
        if b['before']:
            parts.append('before ' + b.get('sep2', ' ').join(b['before']))
        if b['after']:
            parts.append('after ' + b.get('sep2', ' ').join(b['after']))
        if b.get('rev'):
            parts.reverse()
        return sep.join([s] + parts) + b.get('com', '') + '\n'
    if k == 'deltask':
        return 'deltask%s%s%s\n' % (sep, b['n'], b.get('com', ''))
    if k == 'expfunc':
        return 'EXPORT_FUNCTIONS %s\n' % sep.join(b['f'])
    if k == 'unset':
        return 'unset%s%s%s\n' % (sep, b['n'], '[%s]' % b['f'] if b.get('f') else '')
    if k == 'pylib':
        return 'addpylib%s${LAYERDIR}/%s%s%s\n' % (sep, b['p'], sep, b['ns'])
    if k == 'frag':
        return sep.join(['addfragments', b['p'], b['var'], b['fl']]) + '\n'
    if k == 'incall':
        return 'include_all%s%s\n' % (sep, b['f'])
    if k == 'item':
        return b['t'] + '\n'
    raise AssertionError(k)


def render(blocks, tail=True):
    s = ''.join(text(b) for b in blocks)
    if not tail and s.endswith('\n'):
        s = s[:-1]
    return s


def valid(blocks):
    """Constraints of the grammar that make one block exactly one item."""
    prev = None
    for b in blocks:
        t = text(b)
        if prev is not None:
            if prev['k'] == 'comment' and b['k'] == 'comment':
                return False
            if prev['k'] == 'def' and not re.match(r'[A-Za-z0-9#_$]', t):
                return False
        if b['k'] == 'var' and not b['v']:
            return False
        if b['k'] in ('comment',) and not b['lines']:
            return False
        if b['k'] in ('inherit', 'iglob') and not b['cls']:
            return False
        if b['k'] == 'expfunc' and not b['f']:
            return False
        if b['k'] == 'func':
            lvl = 0
            for ln in b['body']:
                lvl += ln.count('{') - ln.count('}')
                if lvl < 0:
                    return False
            if lvl != 0:
                return False
        prev = b
    return True


def check_valid(blocks):
    if not valid(blocks):
        raise Invalid('blocks do not form one item each')


# ---------------------------------------------------------------------------
# expectation of a single block
def inline_of(t, negative=False):
    """-> (text with inline expressions replaced, [(expr, replacement)...])"""
    blocks = []
    while True:
        i = t.find('${@')
        if i < 0:
            return t, blocks
        for e, tv, fv in INLINES:
            if t.startswith(e, i):
                rep = fv if negative else tv
                if rep is None:
                    rep = IB
                t = t.replace(e, rep)
                blocks.append((e, rep))
                break
        else:
            raise Invalid('unknown inline expression')


def joined(t):
    return t.replace('\\\nx', '\\ x').replace('\n', '').replace('\\', '\x1b')


def tokens(s):
    # an x directly behind an escape character belongs to a hex escape, as continued lines are set apart by a blank
    return [x for x in re.split(r'\s|\x1b(?!x)', s) if x]


def unversioned(v):
    """without anything in brackets and the blanks in front"""
    res, i = '', 0
    while i < len(v):
        if v[i] == '(' and ')' in v[i:] and '\n' not in v[i:v.index(')', i)]:
            res = res.rstrip()
            i = v.index(')', i) + 1
        else:
            res += v[i]
            i += 1
    return res


def names_of(b):
    """names that switch the override syntax when they contain ':'"""
    if b['k'] in ('var', 'func'):
        return b['d'].join([b['n']] + b['sub'])
    return ''


def delims(blocks, option=False):
    """override delimiter in force for every block"""
    res, new = [], bool(option)
    for b in blocks:
        if b['k'] == 'var' and ':' in names_of(b):
            new = True
        if b['k'] == 'func' and ':' in names_of(b):
            new = True
        res.append(':' if new else '_')
    return res


CLSOVR = ('class-native', 'class-nativesdk', 'class-cross', 'class-target')
CLS = {'var': 'Variable', 'flag': 'FlagAssignment', 'func': 'Function', 'def': 'PythonBlock',
       'comment': 'Comment', 'icomment': 'Comment', 'include': 'Include', 'inherit': 'Inherit',
       'iglob': 'Inherit', 'export': 'Export', 'addtask': 'TaskAdd', 'deltask': 'TaskDel',
       'expfunc': 'FunctionExports', 'unset': 'Unset', 'pylib': 'AddPylib', 'frag': 'AddFragements',
       'incall': 'IncludeAll', 'item': 'Item'}


def expect(b, origin, line, delim, negative=False, realraw=None):
    """Predicted public attributes (without Line/IncludedFrom and resolved paths)."""
    t = realraw if realraw is not None else text(b)
    raw, ibs = inline_of(t, negative)
    a = {'Origin': origin, 'InFileLine': line, 'RealRaw': t, 'Raw': raw, 'InlineBlocks': ibs,
         'IsFromClass': origin.endswith('.bbclass'), 'OverrideDelimiter': delim,
         'IsNewStyleOverrideSyntax': delim == ':', 'CLASSIFIER': CLS[b['k']]}
    k = b['k']
    a['IsFromAppend'] = origin.endswith('.bbappend')
    cnt = joined(raw)
    if k == 'var':
        q = b.get('q', '"')
        val = cnt[len(b['d'].join([b['n']] + b['sub']) + b['op']):]
        sub = list(b['sub'])
        a.update(VarName=b['n'], SubItem=delim.join(sub), SubItems=sub, VarValue=val, VarOp=b['op'],
                 RawVarName=b['n'], VarNameComplete=delim.join([b['n']] + sub),
                 VarNameCompleteNoModifiers=delim.join(
                     [b['n']] + [x for x in sub if x not in ('append', 'prepend', 'remove')]),
                 VarValueStripped=val.strip()[1:-1])
        a['get_items'] = tokens(val.strip()[1:-1])
        a['get_items_versioned'] = tokens(unversioned(val.strip()[1:-1]))
        a['AppendOperation'] = [x for x in [b['op']] if x.strip() in ('+=', '=+', '.=', '=.')] + \
            [x for x in ('append', 'prepend', 'remove') if x in sub]
        a['IsImmediateModify'] = not set(sub) & {'append', 'prepend', 'remove'}
        a['GetClassOverride'] = ([x for x in sub if x in CLSOVR] or [''])[0]
        a['GetMachineEntry'] = ([x for x in sub if x not in CLSOVR + ('append', 'prepend', 'remove', 'machine')] or [''])[0]
        a['IsMultiLine'] = '\\\n' in raw
        a['IsAppend'] = b['op'].strip() in ('+=', '=+', '.=', '=.') or 'append' in sub or 'prepend' in sub
    elif k == 'flag':
        a.update(VarName=b['n'], Flag=b['f'], VarOp=b['op'], Value=b.get('q', '"') + joined(b['v']) + b.get('q', '"'),
                 ValueStripped=joined(b['v']))
        a['get_items'] = [b['n'], b['f'], b['op'], a['ValueStripped']]
    elif k == 'func':
        sub = list(b['sub'])
        body = cnt[cnt.index('{', cnt.index('(')) + 1:cnt.rindex('}')]
        a['FuncBodyRaw'] = textwrap.dedent('\n' + ''.join(x + '\n' for x in b['body']))
        a['get_items'] = a['FuncBodyRaw'].split('\n')
        a['IsAppend'] = bool(set(sub) & {'append', 'prepend'})
        a['GetMachineEntry'] = ([x for x in sub if x not in CLSOVR + ('append', 'prepend', 'remove', 'machine')] or [''])[0]
        a.update(IsPython=bool(b.get('py')), IsFakeroot=bool(b.get('fr')), FuncName=b['n'],
                 FuncNameComplete=delim.join([b['n']] + sub), SubItem=delim.join(sub), SubItems=sub,
                 FuncBody=body,
                 FuncBodyStripped=body.replace('{', '').replace('}', '').strip())
    elif k == 'def':
        a.update(FuncName=b['n'])
        a['get_items'] = raw.split('\n')
    elif k in ('comment', 'icomment'):
        a['get_items'] = raw.split('\n')
    elif k == 'include':
        a.update(IncName=b['name'], Statement=b['st'])
        a['get_items'] = [b['name'], b['st']]
    elif k == 'inherit':
        a.update(Class=joined(b.get('sep', ' ').join(b['cls'])), Statement=b['st'])
        a['get_items'] = list(b['cls'])
    elif k == 'iglob':
        a.update(Class=joined(b.get('sep', ' ').join(b['cls'])), Statement='INHERIT')
        a['get_items'] = list(b['cls'])
    elif k == 'export':
        a.update(Name=b['n'], Value=b.get('v') or '')
        a['get_items'] = [b['n'], b.get('v') or '']
    elif k == 'addtask':
        a.update(FuncName=b['n'], Before=list(b['before']), After=list(b['after']), Comment=b.get('com', '').strip())
        a['get_items'] = [b['n']] + b['before'] + b['after']
    elif k == 'deltask':
        a.update(FuncName=b['n'], Comment=b.get('com', '').strip())
        a['get_items'] = [b['n']]
    elif k == 'expfunc':
        a.update(FuncNames=joined(b.get('sep', ' ').join(b['f'])))
        a['get_items'] = list(b['f'])
        a['get_items_unaliased'] = [os.path.splitext(os.path.basename(origin))[0] + '-' + x for x in b['f']]
    elif k == 'unset':
        a.update(VarName=b['n'], Flag=b.get('f') or '')
        a['get_items'] = [b['n'], b.get('f') or '']
    elif k == 'pylib':
        a.update(Path='${LAYERDIR}/' + b['p'], Namespace=b['ns'])
        a['get_items'] = ['${LAYERDIR}/' + b['p'], b['ns']]
    elif k == 'frag':
        a.update(Path=b['p'], Variable=b['var'], Flagged=b['fl'])
        a['get_items'] = [b['p'], b['var'], b['fl']]
    elif k == 'incall':
        a.update(File=b['f'])
        a['get_items'] = [b['f']]
    elif k == 'item':
        a['get_items'] = tokens(raw)
    return a


def expect_doc(blocks, origin, option=False, negative=False, tail=True):
    res, line = [], 1
    ds = delims(blocks, option)
    for i, (b, d) in enumerate(zip(blocks, ds)):
        t = text(b)
        if not tail and i == len(blocks) - 1 and t.endswith('\n'):
            t = t[:-1]
            if not t:
                continue
        res.append(expect(b, origin, line, d, negative, t))
        line += text(b).count('\n')
    return res


def attrs(item):
    """Public attributes of a library item, in comparable form."""
    a = dict(item.GetAttributes())
    a['CLASSIFIER'] = item.CLASSIFIER
    a['get_items'] = item.get_items()
    if item.CLASSIFIER == 'Variable':
        a['get_items_versioned'] = item.get_items(versioned=True)
    for m in ('IsMultiLine', 'IsAppend', 'GetMachineEntry', 'GetDistroEntry', 'GetClassOverride',
              'IsImmediateModify', 'AppendOperation', 'IsFromAppend', 'get_items_unaliased'):
        f = getattr(item, m, None)
        if f is not None:
            a[m] = f()
    return a


def diff_attrs(got, want):
    """first attribute on which the item differs from the prediction"""
    for k, v in want.items():
        g = got.get(k, '<missing>')
        if k == 'InlineBlocks':
            g = [tuple(x) for x in g]
        if g != v:
            return '%s is %r, expected %r' % (k, g, v)
    return None


# ---------------------------------------------------------------------------
# generator
def _val(rng, inline=0.15, words=None):
    words = words or WORDS
    n = rng.choice([0, 1, 1, 2, 3, 5])
    out = [rng.choice(words) for _ in range(n)]
    return out


def gen_var(rng, d='_', inline=0.15, names=None, multi=True):
    lines = rng.choice([1, 1, 1, 2, 3, 5]) if multi else 1
    v = [' '.join(_val(rng)) for _ in range(lines)]
    used = set()
    if rng.random() < inline:
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 12])):
            j = rng.randrange(len(INLINES))
            if j not in used:
                used.add(j)
                i = rng.randrange(len(v))
                v[i] = (v[i] + ' ' + INLINES[j][0]).strip()
    n = rng.choice(names or VARS)
    if not names and rng.random() < 0.05:
        n = rng.choice(['${X}VAR', '${X}', '${MLPREFIX}A'])
    elif not names and rng.random() < 0.3:
        n = r_var(rng, d)
    sub = []
    if rng.random() < 0.4:
        sub = rng.sample(OVR, rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.3:
            sub[rng.randrange(len(sub))] = r_override(rng, d)
        if n in ('do-x.y',):
            sub = []
    op = rng.choice(OPS) if rng.random() < 0.8 else rng.choice(TIGHT)
    b = {'k': 'var', 'n': n, 'sub': sub, 'd': d, 'op': op, 'v': v,
         'ind': rng.choice(['    ', '\t', ' ', '']) if lines > 1 else '    '}
    if rng.random() < 0.08:
        b['q'] = "'"
    if rng.random() < 0.1:
        # quotes within the value
        i = rng.choice([0, -1])
        b['v'][i] = (b['v'][i] + ' ' + rng.choice(['\\"y\\"', '-DX=\\"y\\"', '\\"'] if b.get('q') != "'" else ['"y"', '-DX="y"', '"'])).strip()
    if lines > 1 and rng.random() < 0.3:
        b['cont'] = rng.choice(['\\\n', '\t\\\n', '  \\\n', ' \\ \n', ' \\\t \n'])
    if rng.random() < 0.08:
        b['tr'] = rng.choice([' ', '\t', '  '])
    return b


# statements the specialised queries look at
SPECIAL = [
    ('PACKAGES', ['${PN}', '${PN}-extra', '${PN}-${X}', 'standalone']),
    ('PACKAGE_BEFORE_PN', ['${PN}-early', '${X}-early']),
    ('PACKAGES_DYNAMIC', ['^${PN}-dyn-.*', 'dyn.*', '${X}.*']),
    ('SRC_URI', ['file://a.patch', 'git://ex.org/r.git;name=${PN}-src;branch=b', 'https://ex.org/f.tgz;name=tar', '${GNU_MIRROR}/x.tgz']),
    ('IMAGE_INSTALL', ['base-files']), ('X', ['xx', 'yy', '${Y}']), ('Y', ['q', '${PN}']), ('A', ['1', '2', '${X}']),
    ('inherit', ['image', 'core-image', 'packagegroup', 'pkgconfig']), ('unset', ['X', 'A', 'PACKAGES']),
]
BODY = ['    install -d ${D}${bindir}', '\tif [ -f x ]; then', '\tfi', '    echo "${FOO}" | sed s/a/b/',
        '', '    # comment in body', '    x=${y#*.}', '    for i in a b; do foo $i; done', '  awk -F: \'{print $1}\' f',
        '    foo \\', '    d.setVar("A", "b")', '    return', 'unindented_line foo', 'A = "not a variable"',
        '    case "$x" in', '    esac', '    oe_runmake é', '  fn() { echo; }', '    echo "a\x0cb\x85c"']
PYB = ['    return d.getVar("A")', '    x = {"a": 1}', '', '    if x:', '        pass', '    """doc"""',
       '\treturn 1', '    # c', '    foo \\', '    l = [a for a in b]', "    x = 'a\x0bb\u2028c'"]
COM = ['# plain comment', '#', '## double', '# SPDX: MIT', '# inherit nothing', '#FOO = "bar"', '# é ü 日本',
       '# include foo.inc', '#\ttabbed', '# do_x', '# calls fn() {', '# page\x0cbreak A = "1"', '# para\u2029graph', '#do_x () {', '# A = "1" \\"']
ITEMS = ['', 'addhandler my_handler', '   ', 'SOMETHING unparsed', '??? junk', '}', '\t', 'require', 'inherit']


def gen_func(rng, d='_'):
    n = rng.choice(TASKS)
    py = rng.random() < 0.25
    body = [rng.choice(BODY) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
    if rng.random() < 0.3:
        body = ['    if true {'] + body + ['    }']
    sub = []
    if d == ':' or n in ('do_install', 'do_compile', 'do_configure', 'do_fetch', 'do_deploy_x', 'pkg_postinst'):
        if rng.random() < 0.35:
            sub = [rng.choice(['append', 'prepend'])]
            if rng.random() < 0.4:
                sub.append(rng.choice(['qemux86', 'foo', 'class-native']))
    if n == 'my-task.x':
        sub = []
    if rng.random() < 0.3:
        n = r_func(rng, d)
        sub = [rng.choice(MODS)] + ([r_override(rng, d)] if rng.random() < 0.4 else []) if rng.random() < 0.5 else []
    if n == 'pkg_postinst' and rng.random() < 0.4:
        n += d + '${PN}'
    if rng.random() < 0.06:
        n, sub, py = '__anonymous', [], True
    return {'k': 'func', 'n': n, 'sub': sub, 'd': d, 'py': int(py), 'fr': int(rng.random() < 0.15), 'rev': int(rng.random() < 0.7),
            'body': body, **({'hd': rng.choice([' () {', '(){', '()\t{', '( ) {', '()  {', ' ( ){'])} if rng.random() < 0.3 else {}),
            **({'ps': rng.choice(['  ', '\t', ' \t'])} if rng.random() < 0.1 else {})}


def gen_block(rng, d='_', kinds=None, inline=0.15):
    b = _gen_block(rng, d, kinds, inline)
    if rng.random() < 0.3:
        _rename(rng, b, d)
    if b['k'] in PRE and rng.random() < 0.15:
        b['pre'] = rng.choice([' ', '\t', '    ', '\t\t ', ' \t'])
    if b['k'] in ('inherit', 'iglob', 'expfunc', 'addtask', 'include') and rng.random() < 0.25:
        b['sep'] = rng.choice(['  ', '\t', ' \\\n    ', ' \\\n', ' \t', '\t\\\n\t'])
    if b['k'] in ('export', 'deltask', 'unset', 'pylib', 'frag', 'incall', 'def') and rng.random() < 0.2:
        b['sep'] = rng.choice(['  ', '\t', ' \t', '\t\t'])
    if b['k'] == 'def' and rng.random() < 0.2:
        b['sep2'] = rng.choice([' ', '\t', '  '])
    if b['k'] == 'addtask' and rng.random() < 0.2:
        b['sep2'] = rng.choice(['  ', '\t', ' \\\n  '])
    if b['k'] in ('addtask', 'deltask') and '\\' not in b.get('sep', '') and rng.random() < 0.2:
        b['com'] = rng.choice([' # comment', '  # before do_x', '\t#c'])
    if b['k'] == 'export' and rng.random() < 0.3:
        b['op'] = rng.choice(OPS + TIGHT)
    if b['k'] in ('export', 'flag', 'iglob') and rng.random() < 0.15:
        b['q'] = "'"
    if b['k'] in ('export', 'flag', 'var') and b['v'] is not None and rng.random() < 0.12:
        # blanks within the quotes
        l, r = rng.choice(['', ' ', '\t', '  ']), rng.choice(['', ' ', '  ', '\t'])
        if b['k'] != 'var':
            b['v'] = l + b['v'] + r
        else:
            b['v'] = [l + b['v'][0], *b['v'][1:]]
            b['v'][-1] += r
    return b


def _rename(rng, b, d):
    k = b['k']
    if k == 'flag':
        b['f'] = r_flag(rng)
        if rng.random() < 0.4:
            b['n'] = r_task(rng)
    elif k == 'unset':
        if b['f']:
            b['f'] = r_flag(rng)
    elif k == 'include' and 'none' in b['name'] or k == 'include' and b['name'] == 'missing.inc':
        b['name'] = r_file(rng)
    elif k in ('inherit', 'iglob') and set(b['cls']) <= set(MISSCLS):
        b['cls'] = [r_class(rng) for _ in b['cls']]
    elif k == 'export':
        b['n'] = rng.choice([r_var(rng, d), r_var(rng, d) + d + r_override(rng, d), rword(rng, LOW + UP + '_', LOW + UP + NUM + '_')])
    elif k in ('addtask', 'deltask'):
        b['n'] = r_task(rng)
        for x in ('before', 'after'):
            if x in b:
                b[x] = [r_task(rng) for _ in b[x]]
    elif k == 'expfunc':
        b['f'] = [r_task(rng) for _ in b['f']]
    elif k == 'def':
        b['n'] = rword(rng, LOW + '_', LOW + NUM + '_')
    elif k == 'pylib':
        b['p'], b['ns'] = rword(rng, LOW, LOW + NUM + '-_/.', 8) + 'x', rword(rng, LOW, LOW + '_.')
    elif k == 'frag':
        b['p'], b['var'], b['fl'] = rword(rng, LOW, LOW + NUM + '-_/.', 8), r_var(rng, '_'), r_var(rng, '_')
    elif k == 'incall':
        b['f'] = r_file(rng)


MISSCLS = ['nocls', 'other', 'third', 'pkgconfig', 'a-b', 'x.y', 'c+d', '${PN}-cls']
PRE = ('flag', 'include', 'inherit', 'export', 'addtask', 'deltask', 'unset', 'pylib')


def _gen_block(rng, d='_', kinds=None, inline=0.15):
    k = rng.choice(kinds or ['var'] * 6 + ['flag', 'func', 'func', 'def', 'comment', 'comment', 'icomment', 'export',
                                          'addtask', 'deltask', 'expfunc', 'unset', 'pylib', 'frag', 'incall',
                                          'item', 'item', 'include', 'inherit', 'iglob'])
    r = rng
    if k == 'var':
        return gen_var(r, d, inline)
    if k == 'special':
        n, vals = r.choice(SPECIAL)
        if n == 'inherit':
            return {'k': 'inherit', 'st': 'inherit', 'cls': [r.choice(vals)]}
        if n == 'unset':
            return {'k': 'unset', 'n': r.choice(vals), 'f': None}
        sub = r.choice([[], [], [], ['append'], ['prepend'], ['remove'], ['append', 'arm']])
        return {'k': 'var', 'n': n, 'sub': sub, 'd': d, 'op': r.choice([' = ', ' = ', ' += ', ' ?= ', ' .= ', ' ??= ', ' =+ ']) if not sub else ' = ',
                'v': [' '.join(r.sample(vals, min(len(vals), r.choice([1, 2]))))]}
    if k == 'flag':
        return {'k': 'flag', 'n': r.choice(['do_compile', 'A', 'SRC_URI', 'PACKAGECONFIG']),
                'f': r.choice(['depends', 'noexec', 'md5sum', 'vardeps', 'a-b.c']),
                'op': r.choice([' = ', ' += ', '=', ' .= ']), 'v': ' '.join(_val(r) + r.choice([[], [], [], ['\\"y\\"'], ['-DX=\\"y\\"']]))}
    if k == 'func':
        return gen_func(r, d)
    if k == 'def':
        return {'k': 'def', 'n': r.choice(['foo', 'get_x', 'a-b', 'z9']), 'a': r.choice(['d', 'a, b=1', '']),
                'body': [r.choice(PYB) for _ in range(r.choice([1, 2, 4]))]}
    if k == 'comment':
        return {'k': 'comment', 'lines': [r.choice(COM) for _ in range(r.choice([1, 1, 2, 4]))]}
    if k == 'icomment':
        return {'k': 'icomment', 't': r.choice(['  ', '\t', '    ']) + r.choice(COM)}
    if k == 'export':
        return {'k': 'export', 'n': r.choice(['FOO', 'CC', 'lower', 'A_B']),
                'v': r.choice([None, 'x', '${CC} -O2', ''])}
    if k == 'addtask':
        return {'k': 'addtask', 'n': r.choice(TASKN), 'before': r.sample(TASKN, r.choice([0, 1, 2])),
                'after': r.sample(TASKN, r.choice([0, 1, 2])), 'rev': int(r.random() < 0.3)}
    if k == 'deltask':
        return {'k': 'deltask', 'n': r.choice(TASKN)}
    if k == 'expfunc':
        return {'k': 'expfunc', 'f': r.sample(TASKN, r.choice([1, 2, 3]))}
    if k == 'unset':
        return {'k': 'unset', 'n': r.choice(['A', 'FOO_BAR', 'DEPENDS', 'do_x', 'A:arm', 'A_append', 'DEPENDS:append:x86', 'FILES:${PN}', 'X-y.z']), 'f': r.choice([None, None, 'noexec', 'a-b'])}
    if k == 'pylib':
        return {'k': 'pylib', 'p': r.choice(['lib', 'x/y']), 'ns': r.choice(['oe', 'mine'])}
    if k == 'frag':
        return {'k': 'frag', 'p': 'conf/fr', 'var': 'OE_FR', 'fl': r.choice(['OE_M', 'X_Y'])}
    if k == 'incall':
        return {'k': 'incall', 'f': r.choice(['conf/a.conf', 'x.inc'])}
    if k == 'item':
        return {'k': 'item', 't': r.choice(ITEMS)}
    if k == 'include':
        return {'k': 'include', 'st': r.choice(['include', 'require']),
                'name': r.choice(['missing.inc', 'recipes-none/m.inc', '${BPN}-none.inc'])}
    if k == 'inherit':
        return {'k': 'inherit', 'st': r.choice(['inherit', 'inherit_defer']),
                'cls': r.sample(['nocls', 'other', 'pkgconfig', 'a-b', 'x.y', 'c+d', '${PN}-cls'], r.choice([1, 2, 3, 5]))}
    if k == 'iglob':
        return {'k': 'iglob', 'op': r.choice(OPS + ['+=', '=', ':=']), 'cls': r.sample(['nocls', 'other', 'third'], r.choice([1, 2]))}
    raise AssertionError(k)


def gen_doc(rng, n, d=None, kinds=None, inline=0.15):
    if d is None:
        d = rng.choice(['_', '_', ':'])
    res = []
    while len(res) < n:
        b = gen_block(rng, d, kinds, inline)
        if valid(res[-1:] + [b]):
            res.append(b)
    return res


# ---------------------------------------------------------------------------
# layers: files referring to each other
def put(world, files):
    for f in files:
        if 'raw' in f:
            world.fs.write(f['path'], f['raw'])
        elif 'hex' in f:
            world.fs.write(f['path'], bytes.fromhex(f['hex']))
        else:
            world.fs.write(f['path'], render(f['blocks'], f.get('tail', True)))


class Tree:
    """Reference model of include/inherit resolution (over file existence)."""

    def __init__(self, files):
        self.files = {f['path']: f for f in files}

    def layer_root(self, d):
        while d != '/':
            if d + '/conf/layer.conf' in self.files:
                return d
            d = os.path.dirname(d)
        return None

    def find(self, name, localdir):
        p = os.path.normpath(os.path.join(localdir, name))
        if p in self.files:
            return p
        root = self.layer_root(localdir)
        if root:
            p = os.path.normpath(os.path.join(root, name))
            if p in self.files:
                return p
        return None

    def named(self, path, name):
        """every file a name could stand for in path"""
        d = os.path.dirname(path)
        return sorted({q for q in (os.path.normpath(os.path.join(x, name)) for x in (d, self.layer_root(d)) if x) if q in self.files})

    def refs(self, path, block):
        """files a block pulls in, in order"""
        d = os.path.dirname(path)
        if block['k'] == 'include':
            p = self.find(block['name'], d)
            return [p] if p else []
        if block['k'] in ('inherit', 'iglob'):
            locs = ['classes', 'classes-recipe', 'classes-global'] if block['k'] == 'inherit' \
                else ['classes', 'classes-global']
            res = []
            for c in block['cls']:
                c = class_name(c, path)
                for loc in locs:
                    p = self.find('%s/%s.bbclass' % (loc, c), d)
                    if p:
                        res.append(p)
                        break
            return res
        return []

    def edges(self, path):
        res = []
        for b in self.files[path].get('blocks', ()):
            res += self.refs(path, b)
        return res

    def reach(self, path, append_of=None):
        """every file reachable from path, including itself"""
        seen, todo = [], [path]
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.append(p)
            todo += self.edges(p)
            if append_of:
                todo += append_of.get(p, [])
        return set(seen)


def append_matches(append, recipe):
    """bitbake: '%' matches any string, nothing else is special"""
    a = os.path.basename(append)[:-len('.bbappend')]
    r = os.path.basename(recipe)[:-len('.bb')]
    return re.fullmatch('.*'.join(re.escape(x) for x in a.split('%')), r) is not None


# ---------------------------------------------------------------------------
PLAIN = ['var'] * 6 + ['flag', 'func', 'func', 'def', 'comment', 'comment', 'icomment', 'export', 'addtask', 'deltask',
                       'expfunc', 'item', 'item', 'pylib', 'frag', 'incall']
NAMES = ['foo', 'bar', 'libx', 'gtk+', 'a-b', 'c++util', 'foo-native', 'foobar', 'x.y', 'zed']
VERS = ['1.0', '2', '1.0.1', 'git', '1.0+git', '10']


def expand_name(name, path):
    """${PN}, ${BPN}, ${PV} in an include name"""
    if '$' not in name:
        return name
    base = os.path.splitext(os.path.basename(path))[0]
    pn = base.split('_')[0]
    pv = (base.split('_')[1:] or ['1.0'])[0]
    return name.replace('${PN}', pn).replace('${PV}', pv)


def class_name(c, path):
    """the class a word of an inherit statement stands for"""
    return expand_name(c, path).removesuffix('.bbclass')


def insert(rng, doc, b):
    for _ in range(8):
        pos = rng.randrange(len(doc) + 1)
        if valid(doc[:pos] + [b] + doc[pos:]):
            doc.insert(pos, b)
            return True
    return False


def gen_layer(rng, recipes=None, depth=2, appends=True, private=True, shared=0.0, size=(1, 2, 4), kinds=None,
              layer='/sim/meta-x', d=None, same_name=0.3, inline=0.1, names=None, multi_append=0.4):
    """A layer of recipes with include trees, classes and appends.

    private: no file is pulled in from two places (a forest), unless shared > 0,
    in which case classes/includes are shared between recipes with that probability.
    """
    kinds = kinds or PLAIN
    d = d or rng.choice(['_', ':'])
    nrec = recipes or rng.choice([1, 1, 2, 3])
    files = [{'path': layer + '/conf/layer.conf', 'raw': ''}]
    recs, loads, uid = [], [], [0]
    pool_inc, pool_cls = [], []

    def doc():
        return gen_doc(rng, rng.choice(size), d, kinds, inline)

    def add_refs(path, blocks, level, name):
        if level > depth:
            return
        for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 5]) if level == 0 else rng.choice([0, 0, 1, 2])):
            uid[0] += 1
            pdir = os.path.dirname(path)
            what = rng.choice(['inc', 'inc', 'inc', 'cls', 'cls', 'glob', 'conf'])
            if what in ('inc', 'conf'):
                if pool_inc and rng.random() < shared:
                    tgt = rng.choice(pool_inc)
                    if tgt != path:
                        insert(rng, blocks, {'k': 'include', 'st': rng.choice(['include', 'require']),
                                             'name': tgt[len(layer) + 1:]})
                    continue
                if what == 'conf':
                    tgt = '%s/conf/extra/e%d.conf' % (layer, uid[0])
                    nm = tgt[len(layer) + 1:]
                else:
                    form = rng.choice(['local', 'sub', 'layer', 'pn'])
                    suf = 'inc' if rng.random() < 0.8 else rng.choice(['bb.inc', 'conf.inc', 'bbclass.inc', 'bbappend.inc', 'inc.bak'])
                    tgt = {'local': '%s/%s-%d.%s' % (pdir, name, uid[0], suf), 'sub': '%s/sub/s%d.%s' % (pdir, uid[0], suf),
                           'layer': '%s/recipes-inc/l%d.%s' % (layer, uid[0], suf),
                           'pn': '%s/%s-p%d.%s' % (pdir, expand_name('${PN}', path), uid[0], suf)}[form]
                    nm = {'local': os.path.basename(tgt), 'sub': 'sub/s%d.%s' % (uid[0], suf),
                          'layer': 'recipes-inc/l%d.%s' % (uid[0], suf), 'pn': '${PN}-p%d.%s' % (uid[0], suf)}[form]
                sub = doc()
                add_refs(tgt, sub, level + 1, name)
                files.append({'path': tgt, 'blocks': sub})
                pool_inc.append(tgt)
                insert(rng, blocks, {'k': 'include', 'st': rng.choice(['include', 'require']), 'name': nm})
            else:
                n = rng.choice([1, 1, 2, 2, 3, 4])
                cl = []
                for j in range(n):
                    if pool_cls and rng.random() < shared:
                        c = rng.choice(pool_cls)
                        if c not in cl:
                            cl.append(c)
                        continue
                    c = word = 'c%d%s' % (uid[0], 'abcd'[j]) if rng.random() < 0.75 else rng.choice(
                        ['c%d%s-x', 'c%d%s.y', 'C%d%s', 'c%d.%s.z', 'c%d_%s', 'c%d+%s', 'c%d%s.bb', 'c%d%s-native']) % (uid[0], 'abcd'[j])
                    r = rng.random()
                    if r < 0.1:
                        word = c + '.bbclass'
                    elif r < 0.2:
                        word = '${PN}-' + c
                        c = expand_name(word, path)
                    loc = rng.choice(['classes', 'classes-recipe', 'classes-global'] if what == 'cls' else ['classes', 'classes-global'])
                    tgt = '%s/%s/%s.bbclass' % (layer, loc, c)
                    sub = doc()
                    add_refs(tgt, sub, level + 1, name)
                    files.append({'path': tgt, 'blocks': sub})
                    if loc != 'classes-recipe':
                        pool_cls.append(c)
                    cl.append(word)
                if cl and rng.random() < 0.2:
                    cl.insert(rng.randrange(len(cl) + 1), 'unresolvable')
                if cl:
                    insert(rng, blocks, {'k': 'inherit', 'st': rng.choice(['inherit', 'inherit_defer']), 'cls': cl} if what == 'cls'
                           else {'k': 'iglob', 'op': rng.choice([' += ', ' = ']), 'cls': cl})

    used = set()
    for i in range(nrec):
        if recs and rng.random() < same_name:
            name = os.path.basename(recs[-1]).split('_')[0]
        else:
            name = rng.choice(names or NAMES)
        ver = rng.choice(VERS)
        path = '%s/recipes-%s/%s/%s_%s.bb' % (layer, 'abc'[i % 3], name, name, ver)
        if path in used or any(os.path.basename(path) == os.path.basename(x) for x in used):
            continue
        used.add(path)
        blocks = doc()
        add_refs(path, blocks, 0, name)
        files.append({'path': path, 'blocks': blocks})
        recs.append(path)
        loads.append(path)
    if appends:
        for r in list(recs):
            while rng.random() < multi_append:
                name, ver = os.path.basename(r)[:-3].split('_', 1)
                uid[0] += 1
                pat = rng.choice([name + '_' + ver, name + '_%', name + '_' + ver[0] + '%', name + '_' + ver + '%'])
                ap = '%s/recipes-ap/a%d/%s.bbappend' % (layer, uid[0], pat)
                if rng.random() < 0.35:
                    # next to the recipe
                    near = '%s/%s.bbappend' % (os.path.dirname(r), pat)
                    if not any(f['path'] == near for f in files):
                        ap = near
                blocks = doc()
                add_refs(ap, blocks, 1, name)
                files.append({'path': ap, 'blocks': blocks})
                loads.append(ap)
    rng.shuffle(loads)
    return {'files': files, 'loads': loads, 'd': d}


def add_twins(rng, sc):
    """recipes, appends and includes of the same names in other directories, and recipes that pull in other ones"""
    for p in list(sc['loads']):
        if rng.random() < 0.15:
            d = '/sim/meta-x/recipes-%s' % rng.choice(['d/same', 'e/same', 'f/same', 'a/zz'])
            q = d + '/' + os.path.basename(p)
            if not any(f['path'] == q for f in sc['files']):
                sc['files'].append({'path': q, 'blocks': gen_doc(rng, rng.choice([1, 2, 4]), sc['d'], PLAIN, 0.0)})
                sc['loads'].insert(rng.randrange(len(sc['loads']) + 1), q)
    recs = [f for f in sc['files'] if f['path'].endswith('.bb') and 'blocks' in f]
    for f in recs:
        if len(recs) > 1 and rng.random() < 0.15:
            o = rng.choice([x for x in recs if x is not f])
            insert(rng, f['blocks'], {'k': 'include', 'st': rng.choice(['include', 'require']), 'name': o['path'][len('/sim/meta-x/'):]})


def gen_complete(rng, **kw):
    """a layer for which the single pass of Finalize reaches the transitive closure"""
    for i in range(12):
        if i > 4:
            kw['depth'] = 1 if i > 8 else 2
        sc = gen_layer(rng, **kw)
        if Model(sc).complete():
            return sc
    kw.update(depth=0, shared=0.0, appends=False)
    return gen_layer(rng, **kw)


def check_complete(sc):
    check_layer(sc)
    m = Model(sc)
    if not m.complete():
        raise Invalid('links beyond the single pass')
    return m


def check_layer(sc):
    paths = {f['path'] for f in sc['files']}
    for f in sc['files']:
        if 'blocks' in f:
            check_valid(f['blocks'])
    for p in sc['loads']:
        if p not in paths:
            raise Invalid('load of a missing file')
    if len(set(sc['loads'])) != len(sc['loads']):
        raise Invalid('double load')


def load_all(lib, sc, stash=None, quiet=True, finalize=True, **kw):
    s = stash or lib.Stash(quiet=quiet, new_style_override_syntax=sc.get('d') == ':', **kw)
    for p in sc['loads']:
        s.AddFile(p)
    if finalize:
        s.Finalize()
    return s


class Model(Tree):
    """Expected content of a stash after loading `loads` in order and finalising."""

    def __init__(self, sc):
        super().__init__(sc['files'])
        self.loads = sc['loads']
        self.loaded = []
        self.load_counts = {}
        for p in self.loads:
            self._load(p, ())

    def refs(self, path, block):
        if block['k'] == 'include':
            block = dict(block, name=expand_name(block['name'], path))
        return super().refs(path, block)

    def _load(self, p, stack):
        if p in stack:
            return
        if p.endswith('.bbclass') and p in self.load_counts:
            return
        self.load_counts[p] = self.load_counts.get(p, 0) + 1
        for r in self.edges(p):
            self._load(r, stack + (p,))
        if p not in self.loaded:
            self.loaded.append(p)

    @property
    def recipes(self):
        return [p for p in self.loads if p.endswith('.bb')]

    @property
    def append_list(self):
        return [p for p in self.loads if p.endswith('.bbappend')]

    def appends_of(self, recipe):
        return [a for a in self.append_list if append_matches(a, recipe)]

    def closure(self, path):
        """files linked to path (including itself)"""
        m = {r: self.appends_of(r) for r in self.loaded if r.endswith('.bb')}
        return self.reach(path, m)

    def one_pass(self):
        """links as a single pass over the files in the order they were added finds them: the guaranteed minimum"""
        m = {}
        for p in self.loads:
            self._edges_in_order(p, (), m, set())
        for k in m:
            for item in list(m[k]):
                m[k] = m[k] + m[item]
            m[k] = m[k] + [k]
            m[k] = list(dict.fromkeys(m[k]))
        return {k: set(v) for k, v in m.items()}

    def _edges_in_order(self, p, stack, m, classes):
        if p in stack or (p.endswith('.bbclass') and p in m):
            return
        for r in self.edges(p):
            self._edges_in_order(r, stack + (p,), m, classes)
            m.setdefault(p, [])
            m[p].append(r)
        m.setdefault(p, [])
        if p.endswith('.bbappend'):
            for k in m:
                if k.endswith('.bb') and append_matches(p, k):
                    m[k].append(p)
        elif p.endswith('.bb'):
            for k in m:
                if k.endswith('.bbappend') and append_matches(k, p):
                    m[p].append(k)

    def complete(self):
        """the single pass finds every link"""
        m = self.one_pass()
        return all(m[p] == self.closure(p) for p in m)

    def forest(self):
        """every file is pulled in from at most one place"""
        n = {}
        for p in self.loaded:
            for r in self.edges(p):
                n[r] = n.get(r, 0) + 1
        return all(v == 1 for v in n.values()) and not any(p in n for p in self.loads)

    def nonempty(self, p):
        return bool(self.files[p].get('blocks')) or bool(self.files[p].get('raw'))

    def lines(self, p):
        """[(infileline, block)]"""
        res, n = [], 1
        for b in self.files[p].get('blocks', ()):
            res.append((n, b))
            n += text(b).count('\n')
        return res

    def flat(self, p, stack=()):
        """evaluation order of a file tree: [(path, infileline, block)]"""
        if p in stack:
            raise Invalid('circular inclusion')
        res = []
        for n, b in self.lines(p):
            res.append((p, n, b))
            for r in self.refs(p, b):
                res += self.flat(r, stack + (p,))
        return res

    def order(self, recipe):
        """evaluation order of a recipe with its appends (load order)"""
        res = self.flat(recipe)
        for a in self.appends_of(recipe):
            res += self.flat(a)
        return res
