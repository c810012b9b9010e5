"""C22 statement recognition does not depend on context or byte arrival."""
from .. import world as W
from ..harness import fail, expect_equal

ID = 'C22'
QUICK = {'runs': 32000}
THOROUGH = {'runs': 60000, 'secs': 780}
RULE = ('a seeded document of 1-40 statements of all kinds is rendered, delivered through a raw stream with '
        'seeded short reads (1..64 bytes, splitting multi-byte characters) and parsed; every item is compared '
        'with a prediction made from its own statement alone. Non-trivial: at least 3 statements and at least one short read.')


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 5, 8, 12, 20, 30, 40])
    d = rng.choice(['_', ':'])
    return {'blocks': W.gen_doc(rng, n, d, inline=0.25), 'tail': int(rng.random() < 0.8),
            'ext': rng.choice(['bb', 'inc', 'conf', 'bbclass', 'bbappend', 'bb']),
            'newstyle': int(d == ':' and rng.random() < 0.5), 'negative': int(rng.random() < 0.4),
            'chunk_seed': rng.randrange(1 << 30), 'chunk_max': rng.choice([1, 2, 7, 64, 4096])}


def run(sc, ctx):
    blocks = sc['blocks']
    W.check_valid(blocks)
    w = ctx.world(chunk_seed=sc['chunk_seed'], chunk_max=sc['chunk_max'])
    path = '/sim/meta-x/recipes-a/foo/foo_1.0.%s' % sc['ext']
    w.fs.write(path, W.render(blocks, sc['tail']))
    lib = ctx.lib()
    s = lib.Stash(quiet=True, new_style_override_syntax=bool(sc['newstyle']), negative_inline=bool(sc['negative']))
    s.AddFile(path)
    s.Finalize()
    got = s.GetItemsFor(filename=path)
    got = sorted(got, key=lambda x: x.InFileLine)
    want = W.expect_doc(blocks, path, bool(sc['newstyle']), bool(sc['negative']), sc['tail'])
    ctx.nontrivial = len(blocks) >= 3 and w.counters.get('short_reads', 0) > 0
    for i, e in enumerate(want):
        if i >= len(got):
            fail('item-missing', 'statement %d (%r) produced no item' % (i, e['RealRaw']))
        d = W.diff_attrs(W.attrs(got[i]), e)
        if d:
            fail('item-differs', 'statement %d %r: %s' % (i, e['RealRaw'], d))
    if len(got) > len(want):
        fail('item-extra', 'unexpected item %r' % got[len(want)].RealRaw)
