"""C04 a torn file loads, and everything that was complete before the tear is unaffected."""
from .. import world as W
from ..harness import fail, Invalid

ID = 'C04'
QUICK = {'runs': 20000}
THOROUGH = {'runs': 60000, 'secs': 780}
RULE = ('a small layer (recipe, include, class, append) is generated; one file is cut at a seeded byte position (writer '
        'crashed, or the read ends early); the load must complete and every statement complete before the tear, in this and every other '
        'file, must be the same as predicted from its text. Non-trivial: the tear falls strictly inside the file.')


def gen(rng, tier):
    d = rng.choice(['_', ':'])
    base = '/sim/meta-x/recipes-a/foo/'
    kinds = None
    files = [{'path': '/sim/meta-x/conf/layer.conf', 'raw': ''}]
    rec = W.gen_doc(rng, rng.choice([2, 4, 7]), d)
    top = [rec]

    def ins(b):
        pos = rng.randrange(len(rec) + 1)
        cand = rec[:pos] + [b] + rec[pos:]
        if W.valid(cand):
            rec[:] = cand
    has = []
    if rng.random() < 0.5:
        ins({'k': 'include', 'st': 'require', 'name': 'foo.inc'})
        files.append({'path': base + 'foo.inc', 'blocks': W.gen_doc(rng, rng.choice([1, 3, 5]), d)})
    if rng.random() < 0.5:
        ins({'k': 'inherit', 'st': 'inherit', 'cls': ['mycls']})
        files.append({'path': '/sim/meta-x/classes/mycls.bbclass', 'blocks': W.gen_doc(rng, rng.choice([1, 3, 5]), d)})
    files.append({'path': base + 'foo_1.0.bb', 'blocks': rec})
    loads = [base + 'foo_1.0.bb']
    if rng.random() < 0.4:
        files.append({'path': base + 'foo_%.bbappend', 'blocks': W.gen_doc(rng, rng.choice([1, 3]), d)})
        loads.insert(rng.randrange(2), base + 'foo_%.bbappend')
    victim = rng.choice([f['path'] for f in files if 'blocks' in f])
    return {'files': files, 'loads': loads, 'victim': victim, 'tear': round(rng.random(), 5),
            'at_rest': int(rng.random() < 0.5), 'newstyle': int(d == ':'),
            'chunk_seed': rng.randrange(1 << 30), 'chunk_max': rng.choice([1, 5, 64, 4096])}


def run(sc, ctx):
    files = {f['path']: f for f in sc['files']}
    if sc['victim'] not in files:
        raise Invalid('no victim')
    for f in sc['files']:
        if 'blocks' in f:
            W.check_valid(f['blocks'])
    w = ctx.world(chunk_seed=sc['chunk_seed'], chunk_max=sc['chunk_max'])
    W.put(w, sc['files'])
    text = W.render(files[sc['victim']]['blocks'])
    k = int(sc['tear'] * (len(text) + 1))
    off = len(text[:k].encode())
    ctx.nontrivial = 0 < k < len(text)
    if sc['at_rest']:
        w.fs.write(sc['victim'], text[:k])
        w.fired('at-rest:TORN')
    else:
        w.arm([{'op': 'read', 'path': sc['victim'], 'kind': 'TORN', 'offset': off}])
    lib = ctx.lib()
    s = lib.Stash(quiet=True, new_style_override_syntax=bool(sc['newstyle']))
    for p in sc['loads']:
        s.AddFile(p)
    s.Finalize()
    tree = W.Tree(sc['files'])
    reachable = set()

    def reach(p):
        if p in reachable:
            return
        reachable.add(p)
        pos = 0
        for b in files[p].get('blocks', ()):
            pos += len(W.text(b))
            if p == sc['victim'] and pos > k:
                break
            for r in tree.refs(p, b):
                reach(r)
    for p in sc['loads']:
        if p not in files:
            raise Invalid('load of a missing file')
        reach(p)
    by = {}
    for it in s.GetItemsFor():
        by.setdefault(it.Origin, []).append(it)
    for p in reachable:
        if 'blocks' not in files[p]:
            continue
        got = sorted(by.get(p, []), key=lambda x: x.InFileLine)
        pos = 0
        want = W.expect_doc(files[p]['blocks'], p, bool(sc['newstyle']))
        for i, e in enumerate(want):
            pos += len(e['RealRaw'])
            if p == sc['victim'] and pos > k:
                break
            if i >= len(got):
                fail('item-missing', '%s: statement %r, complete before the tear, has no item' % (p, e['RealRaw']))
            d = W.diff_attrs(W.attrs(got[i]), e)
            if d:
                fail('item-differs', '%s: statement %r, complete before the tear: %s' % (p, e['RealRaw'], d))
        got_text = ''.join(x.RealRaw for x in got)
        full = W.render(files[p]['blocks'])
        want_text = full[:k] if p == sc['victim'] else full
        if got_text != want_text:
            fail('text-differs', '%s: items cover %r, delivered was %r' % (p, got_text[-60:], want_text[-60:]))
