"""C08 links stay within the include/inherit/append closure and miss nothing the single pass must find."""

from .. import world as W
from ..harness import fail, expect_equal

ID = 'C08'
QUICK = {'runs': 2600}
THOROUGH = {'runs': 50000, 'secs': 780}
RULE = ('seeded layers (include trees three deep, diamonds and files shared between recipes, classes, appends in any load order, '
        'seeded directory order and short reads) are loaded and finalised one to three times; the links of every file are '
        'compared with reachability in a reference graph. Non-trivial: some file has at least two links.')


def gen(rng, tier):
    sc = W.gen_layer(rng, depth=3, shared=rng.choice([0.0, 0.3, 0.6]), size=(1, 1, 2))
    recs = [f for f in sc['files'] if f['path'].endswith('.bb')]
    for i, f in enumerate(recs[1:], 1):
        if rng.random() < 0.15:
            # a recipe based on another one, which need not be loaded itself
            b = rng.choice(recs[:i])['path']
            W.insert(rng, f['blocks'], {'k': 'include', 'st': 'require', 'name': b[len('/sim/meta-x/'):]})
            if b in sc['loads'] and rng.random() < 0.4:
                sc['loads'].remove(b)
    sc['finalize'] = rng.choice([1, 1, 2, 3])
    sc['incremental'] = int(rng.random() < 0.3)
    sc['chunk_seed'] = rng.randrange(1 << 30)
    sc['salt'] = rng.randrange(1 << 30)
    return sc


def check_bounds(kind, what, got, lower, upper):
    got = set(got)
    if not lower <= got:
        fail(kind + '-missing', '%s: missing %s' % (what, sorted(lower - got)))
    if not got <= upper:
        fail(kind + '-unrelated', '%s: unexpected %s' % (what, sorted(got - upper)))


def run_probe(sc, ctx):
    """Known finding: the single pass of Finalize is not a transitive closure."""
    w = ctx.world()
    W.put(w, sc['files'])
    s = W.load_all(ctx.lib(), sc)
    m = W.Model(sc)
    first = s.GetLinksForFile(sc['loads'][0])
    want = m.closure(sc['loads'][0]) - {sc['loads'][0]}
    if set(first) != want:
        fail('links-incomplete', 'links of %s miss %s, which an included file includes' % (sc['loads'][0], sorted(want - set(first))))
    s.Finalize()
    expect_equal('finalize-again', s.GetLinksForFile(sc['loads'][0]), first, 'links after a second Finalize')


def _inc(*names):
    return [{'k': 'include', 'st': 'include', 'name': n} for n in names] or \
        [{'k': 'var', 'n': 'B', 'sub': [], 'd': '_', 'op': ' = ', 'v': ['1']}]


# a.bb -> b.inc -> x.inc, c.inc -> y.inc -> z.inc: b.inc is complete before c.inc is
PROBES = [('third-level', {'loads': ['/sim/meta-x/r/a_1.bb'], 'd': '_', 'files': [
    {'path': '/sim/meta-x/conf/layer.conf', 'raw': ''},
    {'path': '/sim/meta-x/r/a_1.bb', 'blocks': _inc('b.inc')},
    {'path': '/sim/meta-x/r/b.inc', 'blocks': _inc('x.inc', 'c.inc')},
    {'path': '/sim/meta-x/r/c.inc', 'blocks': _inc('y.inc')},
    {'path': '/sim/meta-x/r/y.inc', 'blocks': _inc('z.inc')},
    {'path': '/sim/meta-x/r/x.inc', 'blocks': _inc()},
    {'path': '/sim/meta-x/r/z.inc', 'blocks': _inc()},
]})]


def run(sc, ctx):
    W.check_layer(sc)
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    W.put(w, sc['files'])
    lib = ctx.lib()
    s = lib.Stash(quiet=True, new_style_override_syntax=sc['d'] == ':')
    for p in sc['loads']:
        s.AddFile(p)
        if sc['incremental']:
            s.Finalize()
    for _ in range(sc['finalize']):
        s.Finalize()
    m = W.Model(sc)
    low = m.one_pass()
    for f in m.loaded:
        upper = {x for x in m.closure(f) if m.nonempty(x)}
        lower = {x for x in low[f] if m.nonempty(x)}
        if lower != upper:
            ctx.count('beyond_single_pass')
        ctx.nontrivial |= len(upper) > 2
        got = s.GetLinksForFile(f)
        check_bounds('links', 'links of %s' % f, got, lower - {f}, upper - {f})
        if len(got) != len(set(got)):
            fail('links-duplicated', 'links of %s contain duplicates: %s' % (f, got))
        own = {i.Origin for i in s.GetItemsFor(filename=f, nolink=True)}
        if own - {f}:
            fail('nolink', 'nolink query for %s returned items of %s' % (f, sorted(own - {f})))
        lin = {i.Origin for i in s.GetItemsFor(filename=f)}
        expect_equal('items-origin', sorted(lin - {f}), got, 'origins of the items for %s against its links' % f)
    for i in s.GetItemsFor():
        inc = set(i.IncludedFrom)
        want = {k for k in m.loaded if i.Origin in low[k]}
        # every entry belongs to the link group of a file that links this one
        allowed = set()
        for k in m.loaded:
            c = m.closure(k)
            if i.Origin in c:
                allowed |= c
        check_bounds('includedfrom', 'IncludedFrom of an item of %s' % i.Origin, inc, want, allowed)
    recipes = [p for p in m.loaded if p.endswith('.bb') and m.nonempty(p)]
    expect_equal('recipes', s.GetRecipes(), sorted(recipes), 'GetRecipes')
    expect_equal('never-loaded', s.GetLinksForFile('/sim/meta-x/none.bb'), [], 'links of a file never loaded')
    linked = {a for r in m.loaded if r.endswith('.bb') for a in m.appends_of(r)}
    expect_equal('lone', s.GetLoneAppends(), sorted(a for a in m.append_list if a not in linked), 'GetLoneAppends')
    expect_equal('classes', s.GetBBClasses(), sorted(p for p in m.loaded if p.endswith('.bbclass') and m.nonempty(p)), 'GetBBClasses')
    expect_equal('confs', s.GetConfFiles(), sorted(p for p in m.loaded if p.endswith('.conf') and m.nonempty(p)), 'GetConfFiles')
