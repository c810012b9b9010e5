"""C02 answers never depend on what was asked before."""
from .. import query as Q, world as W
from ..harness import fail, Invalid, short

ID = 'C02'
QUICK = {'runs': 1600}
THOROUGH = {'runs': 60000, 'secs': 780}
RULE = ('seeded histories of loads, finalisations, Append/Remove, changed item values and constants, interleaved with queries, modified answers and a second '
        'stash; at seeded checkpoints and at the end the warm stash is compared, on a batch of queries, with a freshly imported library that executed only the changes. '
        'Non-trivial: at least one query precedes a change and follows another one.')
KINDS = ['special'] * 8 + ['var', 'var', 'func', 'comment', 'flag', 'export', 'addtask', 'item', 'def']


def gen(rng, tier):
    sc = W.gen_layer(rng, depth=2, shared=rng.choice([0.0, 0.4]), size=(2, 3, 5), kinds=KINDS, inline=0.05)
    W.add_twins(rng, sc)
    files = [f['path'] for f in sc['files'] if 'blocks' in f]
    empty = None
    if rng.random() < 0.2:
        # files that hold nothing
        empty = rng.choice(sc['loads'])
        for f in sc['files']:
            if 'blocks' in f and (f['path'] == empty or rng.random() < 0.15):
                f['blocks'] = []
    sc['files'].append({'path': '/sim/meta-x/recipes-a/foo/files/a.patch', 'raw': 'x'})
    ops = []
    todo = list(sc['loads'])
    pool = [Q.gen_query(rng, files) for _ in range(rng.choice([3, 6, 10]))]

    def qs(n):
        for _ in range(n):
            q = rng.choice(pool) if rng.random() < 0.7 else Q.gen_query(rng, files)
            ops.append(['spoil' if rng.random() < 0.15 else 'ask', q])
    while todo or rng.random() < 0.4:
        r = rng.random()
        qs(rng.choice([0, 1, 2, 4]))
        if todo and r < 0.5:
            if empty in todo and len(todo) > 1 and rng.random() < 0.5:
                todo.append(todo.pop(todo.index(empty)))
            ops.append(['load', todo.pop(0)])
        elif r < 0.62:
            ops.append(['final'])
        elif r < 0.7:
            ops.append(['remove', rng.randrange(1000), rng.choice([1, 1, 2])])
        elif r < 0.74:
            ops.append(['removefile', rng.randrange(1000)])
        elif r < 0.78:
            ops.append(['append', rng.randrange(1000), rng.choice([1, 1, 2, 50])])
        elif r < 0.81:
            ops.append(['foreign', rng.choice(sc['loads']), rng.randrange(2)])
        elif r < 0.84:
            ops.append(['attr', rng.randrange(1000), rng.choice(['Raw', 'RealRaw', 'FuncBody', 'IncludedFrom']), rng.choice(['xx', '"1"', files[0]])])
        elif r < 0.89:
            ops.append(['set', rng.randrange(1000), rng.choice(['"1"', '"2"', '"xx"', '"git://h/p;name=new"', '"${PN}-dyn-.*"'])])
        elif r < 0.93:
            ops.append(['line', rng.randrange(1000), rng.randrange(1, 60)])
        elif r < 0.97:
            ops.append(['const', rng.choice(['AddConstants', 'OverrideConstants']), rng.choice([
                {'images': {'known-classes': ['pkgconfig', 'packagegroup']}}, {'sets': {'base': {'NEWX': 'newx'}}},
                {'replacements': {'mirrors': {'${NEW}': 'n'}}}, {'images': {'known-variables': ['A', 'X']}}])])
        else:
            ops.append(['other', rng.choice(sc['loads'])])
    if rng.random() < 0.35:
        # everything is asked right before the last change, and again behind it
        kind = rng.choice(['any', 'append', 'append', 'foreign', 'foreign', 'remove', 'remove', 'removefile', 'set', 'attr', 'attrs', 'line', 'line', 'const', 'final'])
        n = rng.randrange(1000)
        if kind == 'any':
            last = max([i for i, o in enumerate(ops) if o[0] not in ('ask', 'spoil', 'other')] or [0])
            del ops[last + 1:]
            ops.insert(last, ['panel'])
        else:
            if kind == 'append':
                ops.append(['removefile', n])
            ops += [['panel'], {'append': ['append', n, rng.choice([1, 50, 50])], 'foreign': ['foreign', rng.choice(files), n % 2], 'remove': ['remove', n, rng.choice([1, 1, 2])], 'line': ['line', n, rng.randrange(1, 60)], 'removefile': ['removefile', n],
                                'set': ['set', n, '"3"'], 'attr': ['attr', n, rng.choice(['Raw', 'IncludedFrom']), files[0]], 'final': ['final'], 'attrs': ['attr', n, rng.choice(['Raw', 'RealRaw', 'FuncBody']), 'xx'],
                                'const': ['const', 'AddConstants', {'images': {'known-classes': ['pkgconfig', 'packagegroup'], 'known-variables': ['A', 'X']}}]}[kind]]
        sc['panel'] = True
    sc['ops'] = ops
    sc['final'] = [rng.choice(pool) for _ in range(3)] + [Q.gen_query(rng, files) for _ in range(4)]
    sc['mid'] = rng.randrange(len(ops) + 1)
    sc['chunk_seed'] = rng.randrange(1 << 30)
    sc['salt'] = rng.randrange(1 << 30)
    return sc


class Player:
    def __init__(self, lib, sc):
        self.lib = lib
        self.sc = sc
        self.s = lib.Stash(quiet=True, new_style_override_syntax=sc['d'] == ':')
        self.items = []
        self.removed = []
        self.others = []

    def change(self, op):
        k = op[0]
        s = self.s
        if k == 'load':
            self.items += list(s.AddFile(op[1]))
        elif k == 'final':
            s.Finalize()
        elif k == 'remove':
            sel = []
            for j in range(op[2]):
                if self.items:
                    sel.append(self.items.pop((op[1] + j) % len(self.items)))
            if sel:
                s.Remove(sel if len(sel) > 1 else sel[0])
                self.removed += sel
        elif k == 'append':
            new = []
            for _ in range(op[2]):
                if self.removed:
                    new.append(self.removed.pop(op[1] % len(self.removed)))
            if new:
                s.Append(new if op[2] > 1 else new[0])
                self.items += new
        elif k == 'removefile':
            if self.items:
                o = self.items[op[1] % len(self.items)].Origin
                sel = [i for i in self.items if i.Origin == o]
                self.items = [i for i in self.items if i.Origin != o]
                s.Remove(sel)
                self.removed += sel
        elif k == 'foreign':
            # items another stash created
            o = self.lib.Stash(quiet=True, new_style_override_syntax=self.sc['d'] == ':')
            new = list(o.AddFile(op[1]))
            for i in new if op[2] else [new] if new else []:
                s.Append(i)
            self.items += new
        elif k == 'attr':
            vs = [i for i in self.items if hasattr(i, op[2])]
            if vs:
                setattr(vs[op[1] % len(vs)], op[2], {op[3]} if op[2] == 'IncludedFrom' else op[3])
        elif k == 'set':
            vs = [i for i in self.items if i.CLASSIFIER == 'Variable']
            if vs:
                vs[op[1] % len(vs)].VarValue = op[2]
        elif k == 'line':
            if self.items:
                self.items[op[1] % len(self.items)].Line = op[2]
        elif k == 'const':
            getattr(self.lib.CONSTANTS, op[1])(op[2])
        else:
            return False
        return True

    def other(self, op):
        o = self.lib.Stash(quiet=True)
        o.AddFile(op[1])
        o.Finalize()
        o.GetItemsFor(filename=op[1], classifier='Variable')
        o.GetLinksForFile(op[1])
        o.IsImage(op[1])
        o.GetValidPackageNames(op[1])
        self.others.append(o)


def compare(sc, warm, upto, qs, where):
    cold = Player(warm.lib.__class__(), sc)
    for op in sc['ops'][:upto]:
        cold.change(op)
    for q in qs:
        a = Q.ask(warm.lib, warm.s, q)
        b = Q.ask(cold.lib, cold.s, q)
        if a != b:
            fail('stale:' + q[0], '%s: %s answers %s, a stash that was not asked before answers %s' % (where, short(q), short(a), short(b)))


def run(sc, ctx):
    W.check_layer(sc)
    if len([o for o in sc['ops'] if o[0] == 'load']) != len({o[1] for o in sc['ops'] if o[0] == 'load'}):
        raise Invalid('double load')
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    W.put(w, sc['files'])
    warm = Player(ctx.lib(), sc)
    asked, hit = False, False
    panel = Q.panel([f['path'] for f in sc['files'] if 'blocks' in f])
    for n, op in enumerate(sc['ops']):
        if n == sc['mid']:
            compare(sc, warm, n, sc['final'], 'after %d of %d operations' % (n, len(sc['ops'])))
        if op[0] == 'ask':
            Q.ask(warm.lib, warm.s, op[1])
            asked = True
        elif op[0] == 'panel':
            for q in panel:
                Q.ask(warm.lib, warm.s, q)
            asked = True
        elif op[0] == 'spoil':
            Q.spoil(Q.raw(warm.lib, warm.s, op[1]))
            asked = True
        elif op[0] == 'other':
            warm.other(op)
        else:
            hit |= asked
            warm.change(op)
    ctx.nontrivial = hit
    compare(sc, warm, len(sc['ops']), panel if sc.get('panel') else sc['final'], 'at the end')
