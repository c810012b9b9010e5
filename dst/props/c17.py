"""C17 a missing or vanishing include is skipped, and nothing else."""
import json
import os

from .. import world as W
from ..harness import fail, h64, Invalid, short

ID = 'C17'
QUICK = {'runs': 32000}
THOROUGH = {'runs': 80000, 'secs': 780}
RULE = ('seeded include/class trees in which files are missing, directories, vanish while they are looked up or between lookup and open, appear at the open of the file that needs '
        'them, or have namesakes further up in the layer; items (all attributes, order), resolved names and links are compared with a model of the files that remain. '
        'Non-trivial: at least one file was missing, vanished or appeared.')
STATES = ['there'] * 4 + ['missing', 'missing', 'dir', 'stat', 'open', 'open', 'appear']


def gen(rng, tier):
    sc = W.gen_complete(rng, depth=3, shared=0.0, recipes=rng.choice([1, 1, 2]), size=(0, 1, 2), kinds=W.PLAIN + ['include', 'inherit', 'iglob'],
                        multi_append=rng.choice([0.0, 0.4]))
    # namesakes at the layer root of files found next to the including file
    for f in list(sc['files']):
        p = f['path']
        if p.endswith('.inc') and '/recipes-inc/' not in p and rng.random() < 0.4:
            rel = p.split('/sub/')[-1] if False else p.rsplit('/', 1)[1]
            if '/sub/' in p:
                rel = 'sub/' + rel
            n = '/sim/meta-x/' + rel
            if not any(x['path'] == n for x in sc['files']):
                sc['files'].append({'path': n, 'blocks': W.gen_doc(rng, 1, sc['d'], W.PLAIN, 0.0)})
    r = rng.random()
    if r < 0.3:
        # a layer around the layer: what is found there only is missing
        sc['files'].append({'path': '/sim/conf/layer.conf', 'raw': ''})
        for f in list(sc['files']):
            if 'blocks' in f and f['path'] not in sc['loads'] and rng.random() < 0.4:
                sc['files'].append({'path': '/sim' + f['path'][len('/sim/meta-x'):], 'blocks': W.gen_doc(rng, 1, sc['d'], W.PLAIN, 0.0)})
    elif r < 0.4:
        # a layer within the layer
        sc['files'].append({'path': os.path.dirname(rng.choice([f['path'] for f in sc['files'] if 'blocks' in f])) + '/conf/layer.conf', 'raw': ''})
    st = {}
    for f in sc['files']:
        if 'blocks' in f and f['path'] not in sc['loads']:
            s = rng.choice(STATES)
            if s != 'there':
                st[f['path']] = s
    sc['states'] = sorted([k, v] for k, v in st.items())
    # a file that cannot be read is no missing one
    sc['broken'] = [rng.choice([f['path'] for f in sc['files'] if 'blocks' in f]), rng.choice(['open', 'read']), rng.choice(['EACCES', 'EIO', 'EMFILE', 'ENOMEM', 'ESTALE', 'ETIMEDOUT'])] \
        if rng.random() < 0.35 else None
    sc['dirs'] = int(rng.random() < 0.3)
    sc['chunk_seed'] = rng.randrange(1 << 30)
    sc['salt'] = rng.randrange(1 << 30)
    sc['quiet'] = rng.random() < 0.8
    return sc


class Remaining(W.Model):
    """the files as the loads find them"""

    def __init__(self, sc, states):
        self.opened_empty = {p for p, s in states.items() if s == 'open'}
        files = []
        for f in sc['files']:
            s = states.get(f['path'], 'there')
            if s in ('missing', 'dir', 'stat'):
                continue
            if s == 'open':
                f = {'path': f['path'], 'blocks': []}
            files.append(f)
        super().__init__(dict(sc, files=files))


def run(sc, ctx):
    W.check_layer(sc)
    states = dict(sc['states'])
    if any(p in sc['loads'] for p in states):
        raise Invalid('state of a loaded file')
    full = {f['path'] for f in sc['files']}
    states = {p: s for p, s in states.items() if p in full}
    m = Remaining(sc, states)
    if not m.forest() or not m.complete():
        raise Invalid('not a forest')
    # a file that appears does so when the file that needs it is opened
    parent = {}
    for p in m.loaded:
        for r in m.edges(p):
            parent[r] = p
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    ctx.key = '%x' % h64(json.dumps(sc, sort_keys=True))
    faults, appear = [], {}
    W.put(w, [f for f in sc['files']])
    for p, s in states.items():
        if s == 'missing':
            w.fs.remove(p)
        elif s == 'dir':
            w.fs.remove(p)
            w.fs.mkdir(p)
        elif s == 'appear':
            if p not in parent:
                continue
            appear.setdefault(parent[p], []).append((p, w.fs.read_bytes(p)))
            w.fs.remove(p)
        else:
            faults.append({'op': s, 'path': p, 'kind': 'VANISH', 'dirs': sc.get('dirs')})
        ctx.nontrivial = True
    w.arm(faults)
    real_open = w.fs.open_raw

    def open_raw(path):
        for p, data in appear.pop(path, ()):
            w.fs.write(p, data)
            w.fired('open:APPEAR')
            w.event('appear', p)
        return real_open(path)
    w.fs.open_raw = open_raw
    lib = ctx.lib()
    s = W.load_all(lib, sc, quiet=sc['quiet'])
    w.disarm()
    for p in m.loaded:
        blocks = m.files[p].get('blocks', ())
        want = W.expect_doc(blocks, p, sc['d'] == ':', False, m.files[p].get('tail', True)) if blocks else []
        got = sorted((i for i in s.GetItemsFor(filename=p, nolink=True)), key=lambda i: i.InFileLine)
        if len(got) != len(want):
            fail('items', '%s has %d items, expected %d: %s' % (p, len(got), len(want), short([i.RealRaw for i in got])))
        for g, e, b in zip(got, want, blocks):
            d = W.diff_attrs(W.attrs(g), e)
            if d:
                fail('attribute', '%s:%d: %s' % (p, g.InFileLine, d))
            refs = m.refs(p, b)
            if b['k'] == 'include' and g.FileIncluded != (refs[0] if refs else ''):
                fail('resolved', '%s:%d: FileIncluded is %r, expected %r' % (p, g.InFileLine, g.FileIncluded, refs[0] if refs else ''))
            if b['k'] in ('inherit', 'iglob') and set(g.FilePaths) != set(refs):
                fail('resolved', '%s:%d: FilePaths is %s, expected %s' % (p, g.InFileLine, sorted(g.FilePaths), sorted(refs)))
    if sc['broken'] and sc['broken'][0] in full and not appear and 'open' not in states.values() and 'stat' not in states.values():
        p, op, kind = sc['broken']
        w.arm([{'op': op, 'path': p, 'kind': kind, 'offset': 0}])
        before = sum(w.fired_kinds.values())
        err = None
        try:
            W.load_all(ctx.lib(), sc, quiet=True)
        except OSError as e:
            err = e
        w.disarm()
        if sum(w.fired_kinds.values()) != before and err is None:
            fail('swallowed', 'the failure (%s) to %s %s goes unnoticed' % (kind, op, p))
        if sum(w.fired_kinds.values()) == before and err is not None:
            fail('error', 'loading raises %r without a failure' % err)
    known = {i.Origin for i in s.GetItemsFor()}
    if known - set(m.loaded):
        fail('loaded', 'items of %s, which was not there to be loaded' % sorted(known - set(m.loaded)))
    for r in m.loads:
        want = [(p, n) for p, n, _ in (m.order(r) if r.endswith('.bb') else m.flat(r))]
        got = [(i.Origin, i.InFileLine) for i in s.GetItemsFor(filename=r)]
        if got != want:
            fail('order', 'items of %s: %s, expected %s' % (r, short(got), short(want)))
        links = sorted({p for p, _ in want} - {r})
        if s.GetLinksForFile(r) != links:
            fail('links', 'links of %s: %s, expected %s' % (r, s.GetLinksForFile(r), links))
