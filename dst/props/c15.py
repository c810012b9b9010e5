"""C15 the fingerprint identifies what was loaded."""
import copy
import json

from .. import persona, query as Q, seams, world as W
from ..harness import fail, h64, Invalid, short
from ..simfs import make_error  # noqa: F401

ID = 'C15'
QUICK = {'runs': 2200}
THOROUGH = {'runs': 80000, 'secs': 780}
RULE = ('one seeded layer is loaded by a plain stash, by one in an interpreter with another hash seed, directory order and chunking, and by one that is queried, finalised, bothered by '
        'failing loads and by other stashes in between: all must have the same fingerprint after every load. Then one character of one loaded file, the order of two files, a torn '
        'read or an option is changed, which has to change it. Non-trivial: a variant that differs was compared.')
HASHSEEDS = [1, 77, 12345]
CHARS = ['Z', '#', '"', '1', ' ', '\n', 'é', '\\', ':', '=', '{']


def gen(rng, tier):
    sc = W.gen_layer(rng, depth=2, shared=rng.choice([0.0, 0.3]), size=(1, 2, 4), kinds=W.PLAIN + ['special', 'special', 'unset', 'inherit', 'include'], inline=0.2, multi_append=0.5)
    W.add_twins(rng, sc)
    files = [f['path'] for f in sc['files'] if 'blocks' in f]
    sc['opt'] = {'negative_inline': rng.random() < 0.3, 'new_style_override_syntax': rng.random() < 0.5}
    ops = []
    for i, p in enumerate(sc['loads']):
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append([i, rng.choice(['final', 'ask', 'ask', 'other', 'fail', 'const']), Q.gen_query(rng, files), rng.choice(sc['loads']), rng.randrange(1000)])
    sc['between'] = ops
    sc['hs'] = rng.choice(HASHSEEDS)
    sc['env'] = {'salt': rng.randrange(1 << 30), 'chunk_seed': rng.randrange(1 << 30), 'chunk_max': rng.choice([1, 5, 64, 4096]),
                 'dir_order': rng.choice(['sorted', 'reversed', '7']), 'locale': rng.choice(['utf-8', 'ascii', 'latin-1'])}
    sc['variants'] = [[rng.choice(['insert', 'insert', 'delete', 'change', 'swap', 'torn', 'negative_inline', 'new_style_override_syntax', 'drop', 'path']),
                       rng.randrange(1 << 20), rng.randrange(1 << 20), rng.choice(CHARS)] for _ in range(rng.choice([2, 3, 4]))]
    return sc


def series(lib, texts, loads, opt, between=None):
    s = lib.Stash(quiet=True, **opt)
    res = [s.FingerPrint]
    for i, p in enumerate(loads):
        if between:
            between(i, s)
        s.AddFile(p)
        res.append(s.FingerPrint)
    if between:
        between(None, s)
        res.append(s.FingerPrint)
    return res


def texts_of(sc):
    return {f['path']: f['raw'] if 'raw' in f else W.render(f['blocks'], f.get('tail', True)) for f in sc['files']}


def write(w, texts):
    for p, t in texts.items():
        w.fs.write(p, t)


def remote(payload):
    w = seams.World(**payload['env'])
    seams.set_world(w)
    write(w, payload['texts'])
    return series(seams.Lib(), payload['texts'], payload['loads'], payload['opt'])


def run(sc, ctx):
    W.check_layer(sc)
    if not sc['loads']:
        raise Invalid('nothing to load')
    texts = texts_of(sc)
    ctx.key = '%x' % h64(json.dumps(sc, sort_keys=True))
    m = W.Model(sc)
    w = ctx.world()
    write(w, texts)
    lib = ctx.lib()
    ref = series(lib, texts, sc['loads'], sc['opt'])
    t = persona.Helper.ask('c15', sc['hs'], {'env': sc['env'], 'texts': texts, 'loads': sc['loads'], 'opt': sc['opt']})
    if isinstance(t, dict):
        raise RuntimeError('other interpreter: %s' % t['error'])
    if t != ref:
        fail('process', 'an interpreter with hash seed %s computes %s instead of %s' % (sc['hs'], t, ref))
    ctx.count('foreign interpreters')
    # the same with life in between
    w = ctx.world(**sc['env'])
    write(w, texts)
    lib = ctx.lib()
    keep = []

    def between(i, s):
        for n, what, q, p, at in sc['between']:
            if n != i or p not in m.files:
                continue
            if what == 'final':
                s.Finalize()
            elif what == 'ask':
                Q.ask(lib, s, q)
            elif what == 'other':
                o = lib.Stash(quiet=True, negative_inline=bool(at % 2))
                o.AddFile(p)
                o.Finalize()
                keep.append((o, s.FingerPrint))
            elif what == 'const':
                lib.CONSTANTS.AddConstants({'replacements': {'machines': ['arm%d' % at]}})
            else:
                w.arm([{'op': 'open', 'path': sc['loads'][i], 'kind': 'EIO'}])
                try:
                    s.AddFile(sc['loads'][i])
                except OSError:
                    pass
                w.disarm()
        if i is None:
            s.Finalize()
            s.GetItemsFor()
            s.Finalize()
    got = series(lib, texts, sc['loads'], sc['opt'], between)
    if got[:-1] != ref or got[-1] != ref[-1]:
        fail('history', 'with other operations in between the fingerprints are %s instead of %s' % (got, ref))
    involved = [p for p in m.loaded if texts[p]]
    for what, a, b, c in sc['variants']:
        t2, loads, opt = dict(texts), list(sc['loads']), dict(sc['opt'])
        faults = []
        if what in ('insert', 'delete', 'change', 'torn', 'drop', 'path') and not involved:
            continue
        p = involved[a % len(involved)] if involved else None
        if what == 'insert':
            k = b % (len(texts[p]) + 1)
            t2[p] = texts[p][:k] + c + texts[p][k:]
        elif what == 'delete':
            k = b % len(texts[p])
            t2[p] = texts[p][:k] + texts[p][k + 1:]
        elif what == 'change':
            k = b % len(texts[p])
            if texts[p][k] == c:
                continue
            t2[p] = texts[p][:k] + c + texts[p][k + 1:]
        elif what == 'torn':
            raw = texts[p].encode()
            k = b % len(raw)
            try:
                t2[p] = raw[:k].decode()
            except UnicodeDecodeError:
                continue
            faults = [{'op': 'read', 'path': p, 'kind': 'TORN', 'offset': k}]
            try:
                if sum(1 for q in m.loads for x in m.flat(q) if p in m.refs(x[0], x[2])) + (p in m.loads) != 1:
                    continue
            except Invalid:
                continue
        elif what == 'swap':
            i, j = a % len(loads), b % len(loads)
            loads[i], loads[j] = loads[j], loads[i]
            if i == j or not texts[loads[i]] or not texts[loads[j]]:
                continue
        elif what == 'drop':
            i = a % len(loads)
            if not texts[loads[i]]:
                continue
            del loads[i]
        elif what == 'path':
            if p not in loads:
                continue
            q = p.replace('/sim/meta-x/', '/sim/meta-x/moved/')
            t2[q] = t2.pop(p)
            loads[loads.index(p)] = q
        else:
            opt[what] = not opt[what]
        w = ctx.world(**sc['env'])
        write(w, t2)
        got = series(ctx.lib(), t2, loads, opt)
        if got[-1] == ref[-1]:
            fail('same:' + what, '%s of %s: the fingerprint stays %s' % (what, p if what not in ('swap', 'drop') else short(loads), got[-1]))
        if faults and t2[p]:
            # a read that ends early is the same as a file that ends early
            w = ctx.world(**dict(sc['env'], faults=faults))
            write(w, texts)
            cut = series(ctx.lib(), texts, loads, opt)
            if cut != got:
                fail('torn', 'reading only %d bytes of %s gives %s, a file of that size %s' % (faults[0]['offset'], p, cut, got))
        ctx.nontrivial = True
