"""C18 inline file reads tolerate every I/O failure."""
import json
import os

from .. import world as W
from ..harness import fail, h64, Invalid

ID = 'C18'
QUICK = {'runs': 2800}
THOROUGH = {'runs': 300000, 'secs': 780}
RULE = ('recipes with several variables that read files, directly, through references to each other and through path variables, expanded repeatedly while the files are created, '
        'changed, deleted, replaced by directories, made unreadable or undecodable, and opens and reads fail or end early at any byte; every expansion is compared with the content '
        'that can be read at that moment. Non-trivial: at least one read failed or changed its answer.')
PATHS = ['${THISDIR}/a.txt', '${THISDIR}/sub/b.txt', '/sim/data/c.txt', '${MYDIR}/d.txt', '${THISDIR}/${PN}.txt', '${FILE}', '/sim/data', '${nope}/x', 'rel.txt', '/sim/meta-x/r/foo_1.0.bb/x',
         '/sim/data/\x00', 'x\x00y', '/sim/data/' + 'n' * 300, '/sim/data/e é.txt', '/sim/data/a b.txt', '/sim/data/[x].txt', '/sim/data/../data/c.txt', '/sim/data//c.txt', '/sim/data/t.txt ', '/sim/data/ t.txt', '${THISDIR}/a.txt ', '/sim/data/t.txt,', '/sim/data/(t).txt',
         '/sim/data/t.txt\\', '/sim/data/#t.txt', '/sim/data/t=1.txt', '/sim/data/T.TXT', '/sim/data/-t', '/sim/data/.t']
CONTENT = ['', 'plain', 'two words\n', 'a\nb\nc\n', 'é ü 日本\n', '${PN} ${X}', '"quoted"', 'crlf\r\nend', '   \n', "x='y'", '!!!inlineblock!!!', '\ufeffmark', 'two\x0clines\x85 \u2028', 'long ' * 40, 'w0rd \n' * 1500, 'é' * 9000, 'y' * 70000 + 'end']
BAD = ['EIO', 'EACCES', 'ENOENT', 'EMFILE', 'ENOMEM', 'ELOOP', 'ENOTDIR', 'EISDIR', 'ESTALE', 'ETIMEDOUT', 'VANISH']


def gen(rng, tier):
    n = rng.choice([1, 2, 3])
    paths = [rng.choice(PATHS) for _ in range(n)]
    vs = [[rng.choice(['A', 'B', 'LICENSE', 'SUMMARY']) + str(i), p, rng.choice(['${@oe.utils.read_file(%s)}', '${@ oe.utils.read_file(%s)}', '${@d.expand(x) or oe.utils.read_file(%s)}'][:2]),
           rng.choice(["'%s'", '"%s"'][:1])] for i, p in enumerate(paths)]
    refs = [['REF%d' % i, rng.choice(vs)[0]] for i in range(rng.choice([0, 1, 2]))]
    ops = []
    for _ in range(rng.choice([2, 4, 8])):
        k = rng.choice(['write', 'write', 'remove', 'dir', 'deny', 'bytes', 'ask', 'fault', 'fault', 'rfault', 'rfault', 'torn'])
        op = [k, rng.randrange(n)]
        if k in ('write', 'deny'):
            op.append(rng.choice(CONTENT))
        elif k == 'bytes':
            op += [rng.choice(CONTENT), rng.randrange(1000)]
        elif k == 'fault':
            op += [rng.choice(BAD)]
        elif k in ('rfault', 'torn'):
            op += [rng.choice(['EIO', 'ESTALE', 'ETIMEDOUT', 'ENOMEM', 'EISDIR']), rng.randrange(1000)]
        ops.append(op)
        if k not in ('fault', 'rfault', 'torn') and rng.random() < 0.6:
            ops.append(['ask', rng.randrange(n)])
    ops.append(['ask', 0])
    big = any(len(str(x)) > 5000 for o in ops for x in o)
    return {'vars': vs, 'refs': refs, 'ops': ops, 'chunk_seed': rng.randrange(1 << 30), 'chunk_max': 8192 if big else rng.choice([1, 7, 64, 4096]),
            'locale': rng.choice(['utf-8', 'ascii', 'cp1252']), 'initial': [rng.choice(CONTENT[:-3] + [None]) for _ in range(n)]}


R = '/sim/meta-x/r/foo_1.0.bb'


def resolve(p):
    for k, v in (('${THISDIR}', '/sim/meta-x/r'), ('${MYDIR}', '/sim/data/my'), ('${PN}', 'foo'), ('${FILE}', R)):
        p = p.replace(k, v)
    return os.path.normpath(p) if p.startswith('/sim/') and '/foo_1.0.bb/' not in p else p


def run(sc, ctx):
    w = ctx.world(chunk_seed=sc['chunk_seed'], chunk_max=sc['chunk_max'], locale=sc['locale'])
    ctx.key = '%x' % h64(json.dumps(sc, sort_keys=True))
    if not sc['vars'] or len(sc['initial']) != len(sc['vars']) or any(o[1] >= len(sc['vars']) for o in sc['ops']):
        raise Invalid('no variables')
    names = {v[0] for v in sc['vars']}
    if any(r not in names for _, r in sc['refs']):
        raise Invalid('reference')
    text = 'MYDIR = "/sim/data/my"\n'
    for name, path, form, quote in sc['vars']:
        text += '%s = "%s"\n' % (name, form % (quote % path))
    for name, ref in sc['refs']:
        text += '%s = "x ${%s} y"\n' % (name, ref)
    text += 'OTHER = "untouched"\n'
    w.fs.write('/sim/meta-x/conf/layer.conf', '')
    w.fs.write(R, text)
    w.fs.mkdir('/sim/data/my')
    lib = ctx.lib()
    s = lib.Stash(quiet=True)
    s.AddFile(R)
    s.Finalize()
    state = {}          # path -> bytes | None
    state[R] = text.encode()

    def settable(i):
        p = resolve(sc['vars'][i][1])
        return p if p.startswith('/sim/') and not p.startswith(R) and p != '/sim/data' and '\0' not in p and len(p) < 200 else None

    def put(i, data, deny=False):
        p = settable(i)
        if p:
            w.fs.remove(p)
            if data is None:
                state.pop(p, None)
            else:
                w.fs.write(p, data, deny)
                state[p] = None if deny else data
    for i, c in enumerate(sc['initial']):
        put(i, None if c is None else c.encode())

    def content(path, fault=None):
        """what reading the file gives"""
        d = state.get(path)
        if d is None or (fault and fault[0] != 'torn' and path == fault[1]):
            return ''
        if fault and fault[0] == 'torn' and path == fault[1]:
            d = d[:fault[2]]
        try:
            return d.decode().replace('\r\n', '\n').replace('\r', '\n')
        except UnicodeDecodeError:
            return ''

    def ask(fault=None, only=None):
        """expand every variable; the fault hits each first use of the file"""
        for i, (name, path, form, quote) in enumerate(sc['vars']):
            p = resolve(path)
            want = content(p, fault)
            item = s.GetItemsFor(filename=R, classifier='Variable', attribute='VarName', attributeValue=name)[0]
            arm(fault)
            got = s.ExpandTerm(R, item.VarValue, objref=item)
            if got.strip('"') != want.strip('"') and got != want:
                fail('content', '%s reads %s (%s): %r, expected %r' % (name, p, fault, got, want))
            arm(fault)
            ev = s.ExpandVar(filename=R, attribute='VarName', attributeValue=name)
            if ev.get(name) != W.tokens(want):
                fail('expandvar', '%s reads %s (%s): %r, expected %r' % (name, p, fault, ev.get(name), W.tokens(want)))
        for name, ref in sc['refs']:
            p = resolve(next(v[1] for v in sc['vars'] if v[0] == ref))
            want = 'x %s y' % content(p, fault)
            arm(fault)
            got = s.ExpandTerm(R, 'x ${%s} y' % ref)
            if got != want:
                fail('reference', '%s in %s: %r, expected %r' % (name, fault, got, want))
        if not fault:
            full = s.ExpandVar(filename=R)
            for name, path, _, _ in sc['vars']:
                if full.get(name) != W.tokens(content(resolve(path))):
                    fail('expandvar', 'all variables: %s is %r, expected %r' % (name, full.get(name), W.tokens(content(resolve(path)))))
        else:
            arm(fault)
            full = s.ExpandVar(filename=R)
        if full.get('OTHER') != ['untouched'] or full.get('MYDIR') != ['/sim/data/my'] or full.get('PN') != ['foo']:
            fail('other', 'other variables are %s %s %s' % (full.get('OTHER'), full.get('MYDIR'), full.get('PN')))
        w.disarm()

    def arm(fault):
        if fault and fault[0] == 'open':
            w.arm([{'op': 'open', 'path': fault[1], 'kind': fault[2]}])
        elif fault and fault[0] == 'read':
            w.arm([{'op': 'read', 'path': fault[1], 'kind': fault[3], 'offset': fault[2]}])
        elif fault:
            w.arm([{'op': 'read', 'path': fault[1], 'kind': 'TORN', 'offset': fault[2]}])
    ask()
    for op in sc['ops']:
        k, i = op[:2]
        p = resolve(sc['vars'][i][1])
        if k == 'ask':
            ask()
        elif k == 'write':
            put(i, op[2].encode())
        elif k == 'deny':
            put(i, op[2].encode(), True)
        elif k == 'bytes':
            d = op[2].encode()
            at = op[3] % (len(d) + 1)
            put(i, d[:at] + b'\xff' + d[at:])
        elif k == 'remove':
            put(i, None)
        elif k == 'dir':
            if settable(i):
                put(i, None)
                w.fs.mkdir(settable(i))
        elif k == 'fault':
            if op[2] == 'VANISH':
                if not settable(i):
                    continue
                state.pop(p, None)
                w.arm([{'op': 'open', 'path': p, 'kind': 'VANISH'}])
                got = s.ExpandTerm(R, '${%s}' % sc['vars'][i][0])
                w.fs.remove(p)
                if got != '':
                    fail('vanish', '%s vanishes at the open: %r' % (p, got))
                ask()
            else:
                ask(['open', p, op[2]])
            ctx.nontrivial = True
        elif state.get(p) is not None:
            at = op[3] % (len(state[p]) + 1)
            ask(['read' if k == 'rfault' else 'torn', p, at, op[2]])
            ctx.nontrivial = True
