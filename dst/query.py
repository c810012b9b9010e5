"""Every question one can ask a stash, as data; answers in comparable form."""
from .harness import canon

CLASSIFIERS = ['Variable', 'Function', 'Include', 'Inherit', 'Comment', 'Item', 'Unset', 'PythonBlock', 'FlagAssignment',
               'TaskAdd', 'Export']
ATTRS = [('VarName', ['A', 'X', 'SRC_URI', 'PACKAGES', 'B', 'DEPENDS', 'nope']), ('Origin', None), ('FuncName', ['do_install', 'do_compile']),
         ('VarValue', ['"1"', '"xx"', '""']), ('Class', ['image', 'pkgconfig']), ('SubItem', ['append', 'arm']),
         ('InFileLine', [1, 2]), ('IsFromClass', [True, False]), ('VarValueStripped', ['1', '2', 'xx', '', '']), ('Comment', ['']), ('SubItem', ['']), ('IsPython', [False, 0]),
         ('Value', ['', '"x"']), ('Flag', ['', 'noexec']), ('Line', [1, 2, 3, 4, 5]), ('Raw', ['xx']), ('RealRaw', ['xx']), ('FuncBody', ['xx', ''])]
TERMS = ['${X}-${PN}', '${A}', '${BPN}/${PV}', 'plain', '${nope} ${P}', '${FILE}', '${PACKAGES}', "${@d.getVar('X')}"]
PKGS = ['${PN}-dyn-1', 'dynamic', 'xx1', 'foo-dyn-x', 'zzz']
URIS = ['git://ex.org/r.git;name=a;branch=b', '${GNU_MIRROR}/x.tgz', 'file://x', 'http://[bad', 'a=b;c;d=e=f']
NAMES = ['nativesdk-foo_1.0.bb', 'foo-native_2.bb', 'foo-cross_git.bb', 'bar.bb', 'x_1_2.bbappend', 'a_1_2+git.bb', 'a_1_+git.bb', '_.bb', 'a__1.bb', '%_%.bbappend', 'x_1_git+.bb', 'noext', '.bb', 'a+b_1+.bb']


def gen_filter(rng, files):
    q = {}
    if rng.random() < 0.6:
        q['filename'] = rng.choice(files)
    if rng.random() < 0.6:
        q['classifier'] = rng.choice(CLASSIFIERS) if rng.random() < 0.8 else rng.sample(CLASSIFIERS, 2)
    if rng.random() < 0.5:
        a, v = rng.choice(ATTRS)
        q['attribute'] = a if rng.random() < 0.8 else [a, 'VarName']
        v = v or files
        if rng.random() < 0.8:
            q['attributeValue'] = rng.choice(v) if rng.random() < 0.7 else [rng.choice(v) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.2:
        q['nolink'] = True
    return q


KINDS = ['items'] * 4 + ['reduce', 'links', 'links', 'recipes', 'lone', 'confs', 'classes', 'var', 'var', 'term', 'term',
                         'pkgs', 'pkgs', 'named', 'image', 'group', 'dyn', 'dyn', 'isdyn', 'isdyn', 'scr', 'split',
                         'name', 'base', 'version', 'files', 'root', 'find', 'finger']


def gen_query(rng, files, kinds=None):
    k = rng.choice(kinds or KINDS)
    f = rng.choice(files)
    if k == 'items':
        return [k, gen_filter(rng, files)]
    if k == 'reduce':
        return [k, gen_filter(rng, files), gen_filter(rng, files)]
    if k in ('links', 'named', 'image', 'group', 'dyn', 'root'):
        return [k, f]
    if k == 'var':
        q = {'filename': f} if rng.random() < 0.9 else {}
        if rng.random() < 0.5:
            q.update(attribute='VarName', attributeValue=rng.choice(ATTRS[0][1]))
        if rng.random() < 0.2:
            q['nolink'] = True
        return [k, q]
    if k == 'term':
        return [k, f, rng.choice(TERMS)]
    if k == 'pkgs':
        return [k, f, rng.random() < 0.4]
    if k == 'isdyn':
        return [k, f, rng.choice(PKGS)]
    if k == 'scr':
        return [k, rng.choice(URIS)]
    if k == 'split':
        return [k, rng.choice(['a b\tc', 'x', '', 'a  b'])]
    if k in ('name', 'base', 'version'):
        return [k, rng.choice(NAMES + [f])]
    if k == 'files':
        return [k, f, rng.choice(['*', '*.patch', 'a*'])]
    if k == 'find':
        return [k, rng.choice(['classes/c1a.bbclass', 'conf/layer.conf', 'x.inc', 'sub/s1.inc', 'recipes-inc/l1.inc']), f.rsplit('/', 1)[0]]
    return [k]


def raw(lib, s, q):
    """the answer itself"""
    k = q[0]
    a = q[1:]
    if k == 'items':
        return s.GetItemsFor(**a[0])
    if k == 'reduce':
        return s.GetItemsFor(**a[0]).reduce(**a[1])
    if k == 'var':
        return s.ExpandVar(**a[0])
    if k == 'finger':
        return s.FingerPrint
    return getattr(s, {
        'links': 'GetLinksForFile', 'recipes': 'GetRecipes', 'lone': 'GetLoneAppends', 'confs': 'GetConfFiles',
        'classes': 'GetBBClasses', 'term': 'ExpandTerm', 'pkgs': 'GetValidPackageNames', 'named': 'GetValidNamedResources',
        'image': 'IsImage', 'group': 'IsPackageGroup', 'dyn': 'GetPackagesDynamic', 'isdyn': 'IsDynamicPackage',
        'scr': 'GetScrComponents', 'split': 'SafeLineSplit', 'name': 'GuessRecipeName', 'base': 'GuessBaseRecipeName',
        'version': 'GuessRecipeVersion', 'files': 'GetFiles', 'root': 'GetLayerRoot', 'find': 'FindLocalOrLayer'}[k])(*a)


def item_view(i, lines=True):
    a = dict(i.GetAttributes())
    if not lines:
        a.pop('Line', None)
        a.pop('IncludedFrom', None)
    return [i.CLASSIFIER, canon(dict(sorted(a.items()))), canon(i.get_items())]


def view(x, order=False):
    if order and isinstance(x, (set, frozenset)):
        # not documented as a set: callers see the order
        return {'set in the order of': [canon(i) for i in x]}
    if hasattr(x, 'data') or isinstance(x, (list, tuple)):
        return [item_view(i) if hasattr(i, 'CLASSIFIER') else canon(i) for i in x]
    if isinstance(x, dict):
        return {'dict': sorted([k, canon(v)] for k, v in x.items())}
    return canon(x)


def ask(lib, s, q):
    return view(raw(lib, s, q), q[0] != 'dyn')


def panel(files):
    """a fixed set of questions that covers the whole interface"""
    res = [['items', {}], ['recipes'], ['lone'], ['confs'], ['classes'], ['finger']]
    res += [['items', {'attribute': a, 'attributeValue': v}] for a, v in (('Line', 1), ('Line', 2), ('Line', [3, 4, 5]), ('VarValue', '"1"'), ('VarValue', '"3"'), ('VarValueStripped', ['', 'xx']), ('Raw', 'xx'), ('RealRaw', 'xx'), ('Origin', files[0]))]
    for f in files:
        res += [['items', {'filename': f}], ['items', {'filename': f, 'nolink': True}], ['links', f]]
        if f.endswith(('.bb', '.bbappend')):
            res += [['var', {'filename': f}], ['pkgs', f, False], ['pkgs', f, True], ['named', f], ['image', f], ['group', f],
                    ['dyn', f], ['isdyn', f, '${PN}-dyn-1'], ['files', f, '*'], ['term', f, '${A} ${X}'],
                    ['items', {'filename': f, 'classifier': 'Variable', 'attribute': 'VarName', 'attributeValue': ['X', 'A', 'PACKAGES']}]]
    return res


def spoil(x):
    """modify a returned collection as a careless caller might"""
    if hasattr(x, 'data') and hasattr(x, 'reduce'):
        if len(x) > 1:
            x.reverse()
        if len(x):
            x.pop()
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            if isinstance(v, (dict, list, set)):
                spoil(v)
        for k in list(x)[:1]:
            del x[k]
        x['spoiled'] = 'spoiled'
    elif isinstance(x, list):
        x.reverse()
        if x:
            x.pop()
        x.append('spoiled')
    elif isinstance(x, set):
        if x:
            x.discard(sorted(x)[0])
        x.add('spoiled')
