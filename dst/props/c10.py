"""C10 evaluation order: includes at their statement, appends after the recipe."""
from .. import world as W
from ..harness import fail, Invalid

ID = 'C10'
QUICK = {'runs': 16000}
THOROUGH = {'runs': 60000, 'secs': 780}
RULE = ('seeded layers whose files form a forest (includes and classes nested three deep, several includes per file, several appends per recipe with '
        'includes of their own) are loaded in a seeded order under short reads; the items of a recipe, in the order returned, must be the textual expansion: '
        'included items directly after the statement, appends in load order after the recipe. '
        'Non-trivial: at least one include/class or append is involved.')


def gen(rng, tier):
    sc = W.gen_complete(rng, depth=3, shared=0.0, size=rng.choice([(0, 1, 2), (1, 2, 4)]), recipes=rng.choice([1, 1, 2]),
                     same_name=0.5, multi_append=rng.choice([0.0, 0.4, 0.6]))
    sc['chunk_seed'] = rng.randrange(1 << 30)
    sc['salt'] = rng.randrange(1 << 30)
    sc['early_finalize'] = int(rng.random() < 0.2)
    return sc


def run(sc, ctx):
    m = W.check_complete(sc)
    if not m.forest():
        raise Invalid('not a forest')
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    W.put(w, sc['files'])
    lib = ctx.lib()
    s = lib.Stash(quiet=True, new_style_override_syntax=sc['d'] == ':')
    for p in sc['loads']:
        s.AddFile(p)
        if sc['early_finalize']:
            s.Finalize()
    s.Finalize()
    whole = [('everything', s.GetItemsFor()), ('all variables', s.GetItemsFor(classifier='Variable'))]
    for r in m.loads:
        want = [(p, n) for p, n, _ in (m.order(r) if r.endswith('.bb') else m.flat(r))]
        items = s.GetItemsFor(filename=r)
        got = [(i.Origin, i.InFileLine) for i in items]
        ctx.nontrivial |= len({p for p, _ in want}) > 1
        if sorted(got) != sorted(want):
            fail('content', 'items for %s: got %s, expected %s' % (r, got, want))
        if got != want:
            i = next(i for i, (a, b) in enumerate(zip(got, want)) if a != b)
            fail('order', 'items of %s: position %d is %s:%d (Line %d), expected %s:%d' % (
                (r, i) + got[i] + (items[i].Line,) + want[i]))
        # within all the items the ones of a file keep their order
        place = {x: i for i, x in enumerate(want)}
        for what, alle in whole:
            at = [place[(i.Origin, i.InFileLine)] for i in alle if (i.Origin, i.InFileLine) in place]
            if at != sorted(at):
                fail('whole', 'asked for %s, the items of %s come as %s' % (what, r, [want[i] for i in at]))
        lines = [i.Line for i in items]
        if any(a >= b for a, b in zip(lines, lines[1:])):
            fail('ties', 'overall line numbers of %s do not increase: %s' % (r, lines))
