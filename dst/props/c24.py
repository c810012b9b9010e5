"""C24 source URIs are split into scheme, location and options."""
import json

from ..harness import canon, fail, Invalid, short

ID = 'C24'
QUICK = {'runs': 32000}
THOROUGH = {'runs': 300000, 'secs': 780}
RULE = ('seeded URIs composed of scheme, user, host, port, path, query, fragment, options (values with =, /, @, #, ?, blanks left out, empty ones) and mirror names are split, repeatedly, between seeded changes of the '
        'known mirrors (added, replaced, removed, as a whole and one by one), loads and modifications of returned answers; the answers and the named resources of recipes using these URIs are compared with the parts. '
        'Malformed URIs must give an answer of the usual shape. Non-trivial: the mirrors were changed or a URI has options.')
SCHEME = ['https', 'git', 'file', 'svn', 'gitsm', 'npm', 'crate', 'ftp', 'git+ssh', 'az']
USER = ['', '', '', 'git@', 'u:p@', '${USER}@']
HOST = ['ex.org', 'h', '10.0.0.1', 'ex.org:8080', '${HOST}', 'é.org', 'EX.org', 'h:', 'h..', '-h', '%68', 'a:b']
PATH = ['', '/r.git', '/a/b/c.tgz', '/${BPN}-${PV}.tar.gz', '/a%20b', '/~u/x', '/a//b', '/x+y', '/é', '/a:b', '/', '//x/y', '///z', '/r.git ', '/a b', ' ']
QUERY = ['', '', '', '?file=x.tgz', '?a=1&b=2', '?x']
FRAG = ['', '', '', '', '#frag']
OPTK = ['name', 'branch', 'protocol', 'subpath', 'a-b', 'striplevel', 'sha256sum', 'x']
OPTV = ['x', 'main', 'a=b', 'a=b=c', '', '${PN}', '${PN}-src', 'v/1', '@x/y', 'a#b', 'q?r', '=', 'a:b', 'http', 'é', '[x]', "it's", ' x', 'x ', 'a b', '\t']
BARE = ['flag', 'nobranch', '']
JUNK = ['http://[bad', 'http://[bad;name=x', 'http://a]b/c', '', ';', ';;', ';name=x', 'a;b=c', 'abc', '://', 'x://', '//h/x', 'file://', "file://${@'.'.join(d.getVar('A').split('.')[0:2])};a=1",
        'http://h:99999999/x', 'http://h\u2100.org/x', '=', 'name=x', '%', 'http://%zz', '\x00', 'http://[::1]/x', 'git://h/r;name', 'git://h/r;=x']
MKEYS = ['${GNU_MIRROR}', '${M1}', '${M2}', '${M1}/sub', '${KERNELORG_MIRROR}']
MVALS = ['https://mirror.one/pub', 'ftp://two.org', 'http://three.org:80/x/y', 'https://four.org/${M2}']


def gen_uri(rng):
    if rng.random() < 0.15:
        return {'junk': rng.choice(JUNK)}
    opts = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        opts.append([rng.choice(OPTK), rng.choice(OPTV)] if rng.random() < 0.9 else [rng.choice(BARE)])
    u = {'opts': opts, 'path': rng.choice(PATH), 'query': rng.choice(QUERY), 'frag': rng.choice(FRAG)}
    if rng.random() < 0.35:
        u['mirror'] = rng.choice(MKEYS)
    else:
        u.update(scheme=rng.choice(SCHEME), user=rng.choice(USER), host=rng.choice(HOST))
        if rng.random() < 0.15:
            u.update(scheme='file', user='', host='', path=rng.choice([x for x in PATH if x]))
    return u


def gen(rng, tier):
    uris = [gen_uri(rng) for _ in range(rng.choice([1, 2, 4, 8]))]
    ops = []
    for _ in range(rng.choice([2, 4, 8, 16])):
        k = rng.choice(['ask', 'ask', 'ask', 'ask', 'named', 'named', 'add', 'override', 'remove', 'spoil', 'load'])
        if k in ('ask', 'spoil'):
            ops.append([k, rng.randrange(len(uris)), rng.randrange(2)])
        elif k == 'named':
            ops.append([k, rng.randrange(2)])
        elif k == 'load':
            ops.append([k])
        elif k == 'remove':
            ops.append([k, rng.sample(MKEYS, rng.choice([1, 1, 2, 5]))])
        else:
            ops.append([k, {m: rng.choice(MVALS) for m in rng.sample(MKEYS, rng.choice([1, 1, 2]))}])
    return {'uris': uris, 'ops': ops, 'chunk_seed': rng.randrange(1 << 30)}


def text(u):
    if 'junk' in u:
        return u['junk']
    head = u['mirror'] if 'mirror' in u else '%s://%s%s' % (u['scheme'], u['user'], u['host'])
    return head + u['path'] + u['query'] + u['frag'] + ''.join(';' + '='.join(o) for o in u['opts'])


def split(u, mirrors):
    """expected components, from the parts"""
    head = u['mirror'] if 'mirror' in u else '%s://%s%s' % (u['scheme'], u['user'], u['host'])
    loc = head + u['path']
    opts = [list(o) for o in u['opts']]

    def fold(x):
        for k, v in mirrors.items():
            x = x.replace(k, v)
        return x
    loc = fold(loc)
    rest = fold(u['query']) + fold(u['frag'])
    scheme = ''
    if '://' in loc and not loc.startswith('${'):
        scheme, loc = loc.split('://', 1)
        host, slash, p = loc.partition('/')
        loc = host + slash + p.lstrip('/')
    else:
        loc = None              # an unknown mirror: the location is not one
    return {'scheme': scheme, 'src': None if loc is None else loc + rest, 'options': {o[0]: fold(o[1]) for o in opts if len(o) == 2}}


def check(what, u, got, mirrors):
    t = text(u)
    if not isinstance(got, dict) or sorted(got) != ['options', 'scheme', 'src'] or not isinstance(got['options'], dict) or \
            not isinstance(got['src'], str) or not isinstance(got['scheme'], str):
        fail('shape', '%s of %r is %s' % (what, t, short(canon(got))))
    if 'junk' in u:
        return
    want = split(u, mirrors)
    for k, v in want.items():
        if v is not None and got[k] != v:
            fail(k, '%s: %s of %r is %r, expected %r' % (what, k, t, got[k], v))


def run(sc, ctx):
    for u in sc['uris']:
        if 'junk' not in u:
            for o in u['opts']:
                if not o or any(';' in x for x in o) or len(o) == 2 and '=' in o[0] or len(o) > 2:
                    raise Invalid('option')
            if any(x in u.get('host', '') for x in '[]') or not u.get('host', 'x') and (u.get('user') or not u['path'].startswith('/')) or not u.get('scheme', 'x'):
                raise Invalid('host')
    w = ctx.world(chunk_seed=sc['chunk_seed'])
    ctx.key = json.dumps(sc, sort_keys=True)
    lib = ctx.lib()
    w.fs.write('/sim/meta-x/conf/layer.conf', '')
    rec = '/sim/meta-x/r/foo_1.bb'
    # the URIs of a variable are divided by blanks
    good = [u for u in sc['uris'] if 'junk' not in u and not set(' \t') & set(text(u))]
    w.fs.write(rec, ''.join('SRC_URI%s"%s"\n' % (' = ' if i == 0 else ' += ', text(u)) for i, u in enumerate(good)))
    st = [lib.Stash(quiet=True), lib.Stash(quiet=True)]
    for s in st:
        s.AddFile(rec)
        s.Finalize()
    mirrors = dict(lib.CONSTANTS.MirrorsKnown)
    n = 0
    ctx.nontrivial = any(u.get('opts') for u in sc['uris'])
    for op in sc['ops']:
        if op[0] == 'add' or op[0] == 'override':
            new = op[1]
            if op[0] == 'add' and any(k in mirrors for k in new):
                new = {k: v for k, v in new.items() if k not in mirrors}
            getattr(lib.CONSTANTS, 'AddConstants' if op[0] == 'add' else 'OverrideConstants')({'replacements': {'mirrors': dict(new)}})
            mirrors.update(new)
            ctx.nontrivial = True
        elif op[0] == 'remove':
            lib.CONSTANTS.RemoveConstants({'replacements': {'mirrors': {k: '' for k in op[1]}}})
            for k in op[1]:
                mirrors.pop(k, None)
            ctx.nontrivial = True
        elif op[0] == 'load':
            n += 1
            p = '/sim/meta-x/r/bar%d_1.bb' % n
            w.fs.write(p, 'SRC_URI = "file://x;name=bar"\n')
            st[n % 2].AddFile(p)
        elif op[0] == 'named':
            names = {'foo'} | {split(u, mirrors)['options']['name'].replace('${PN}', 'foo') for u in good if 'name' in split(u, mirrors)['options']}
            got = st[op[1]].GetValidNamedResources(rec)
            if not isinstance(got, set) and len(got) != len(set(got)) or set(got) != names:
                fail('named', 'named resources of %s: %s, expected %s' % (short([text(u) for u in good]), sorted(got), sorted(names)))
        else:
            u = sc['uris'][op[1] % len(sc['uris'])]
            got = st[op[2]].GetScrComponents(text(u))
            check('splitting', u, got, mirrors)
            if op[0] == 'spoil':
                got['options']['spoiled'] = '1'
                got['src'] = got.pop('scheme')
    for u in sc['uris']:
        check('splitting at the end', u, st[0].GetScrComponents(text(u)), mirrors)
