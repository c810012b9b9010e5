"""C16 added and removed items and result lists behave as lists."""
import json

from .. import query as Q, world as W
from ..harness import Invalid, fail, h64, short
from ..simfs import make_error

ID = 'C16'
QUICK = {'runs': 6400}
THOROUGH = {'runs': 120000, 'secs': 780}
RULE = ('seeded histories of Append, Remove, queries, Reduce and all list operations over several result lists and two stashes, with single items, lists, tuples, sets, '
        'generators and result lists as arguments, absent items and arguments that fail (I/O error, interruption, allocation failure) while they are iterated; after every '
        'step the stashes and all lists are compared with plain Python lists and a reference filter. Non-trivial: at least one list was modified or item moved.')
KINDS = W.PLAIN + ['special'] * 4
FORMS = ['list', 'tuple', 'gen', 'stashlist', 'set1', 'dictkeys']


def gen(rng, tier):
    sc = W.gen_layer(rng, depth=1, recipes=rng.choice([1, 2]), size=(1, 3, 5), kinds=KINDS, inline=0.05)
    files = [f['path'] for f in sc['files'] if 'blocks' in f]
    r = lambda: rng.randrange(100000)      # noqa: E731
    ops = []
    for _ in range(rng.choice([2, 5, 10, 18])):
        k = rng.choice(['query', 'query', 'Append', 'Append', 'Remove', 'Remove', 'Reduce', 'reduce', 'slice', 'copy', 'add', 'radd', 'iadd', 'mul',
                        'append', 'append', 'extend', 'extend', 'insert', 'remove', 'pop', 'reverse', 'sort', 'set', 'setslice', 'del', 'delslice', 'clear', 'look'])
        op = [k, r(), r()]
        if k in ('query', 'Reduce', 'reduce'):
            op.append(Q.gen_filter(rng, files))
        elif k in ('Append', 'Remove', 'append', 'extend', 'remove', 'add', 'radd', 'iadd', 'setslice'):
            sel = [r() for _ in range(rng.choice([1, 1, 2, 3]))]
            form = rng.choice(FORMS)
            if k in ('Append', 'Remove', 'append', 'remove') and rng.random() < 0.35:
                form, sel = 'item', sel[:1]
            if form == 'set1':
                sel = sel[:1]
            flt = None
            if form == 'gen' and k in ('Append', 'Remove', 'append', 'extend', 'remove') and rng.random() < 0.4:
                flt = [rng.choice(['EIO', 'INTR', 'NOMEM']), rng.randrange(len(sel) + 1)]
            op += [form, sel, rng.choice(['pool', 'pool', 'in', 'self']), flt]
        elif k in ('slice', 'delslice'):
            op.append([rng.choice([None, 0, 1, 2, -1, 50]), rng.choice([None, 1, 3, -1, 50]), rng.choice([None, None, 1, 2, -1])])
        elif k == 'mul':
            op.append(rng.choice([0, 1, 2, 3]))
        ops.append(op)
    sc['ops'] = ops
    sc['chunk_seed'] = rng.randrange(1 << 30)
    sc['salt'] = rng.randrange(1 << 30)
    return sc


def reference(items, links, q):
    """the items a filter selects, by line, each once, in their order on equal lines"""
    def aslist(x):
        return list(x) if isinstance(x, (list, tuple, set)) else ([x] if x else [])
    cl, at, av = (aslist(q.get(k)) for k in ('classifier', 'attribute', 'attributeValue'))
    fn = q.get('filename')
    res = []
    for i in items:
        if any(i is x for x in res):
            continue
        if fn and i.Origin != fn and (q.get('nolink') or i.Origin not in links.get(fn, ())):
            continue
        if cl and i.CLASSIFIER not in cl:
            continue
        if at:
            a = i.GetAttributes()
            if not any(n in a and (not av or a[n] in av) for n in at):
                continue
        res.append(i)
    return sorted(res, key=lambda i: i.Line)


def ids(x):
    return ['%s:%d:%s' % (i.Origin, i.InFileLine, i.CLASSIFIER) for i in x]


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def run(sc, ctx):
    W.check_layer(sc)
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    W.put(w, sc['files'])
    ctx.key = '%x' % h64(json.dumps(sc, sort_keys=True))
    lib = ctx.lib()
    SL = lib.Stash.StashList
    files = [f['path'] for f in sc['files'] if 'blocks' in f]
    stashes, content, links = [], [], []
    for _ in range(2):
        s = W.load_all(lib, sc)
        stashes.append(s)
        content.append(list(s.GetItemsFor()))
        # items of GetItemsFor come by line; the order on equal lines is that of loading
        links.append({f: s.GetLinksForFile(f) for f in files})
    if not content[0]:
        return
    pool = content[0] + content[1]
    removed = []
    lists = [(SL(stashes[0], []), [])]

    def check(what, deep=False):
        for n, (a, b) in enumerate(lists):
            if not same(a, b):
                fail('list', 'after %s: list %d has %s, expected %s' % (short(what), n, short(ids(a)), short(ids(b))))
        for n in (0, 1):
            got = stashes[n].GetItemsFor()
            want = reference(content[n], links[n], {})
            if not same(got, want):
                fail('stash', 'after %s: stash %d has %s, expected %s' % (short(what), n, short(ids(got)), short(ids(want))))

    def argument(op, model, si, within):
        _, _, _, form, sel, src, flt = op
        base = {'pool': pool, 'in': within or pool, 'self': pool}[src]
        chosen = [base[x % len(base)] for x in sel]
        if form == 'item':
            return chosen[0], chosen
        if form == 'set1':
            return {chosen[0]}, chosen
        if form == 'dictkeys':
            chosen = list(dict.fromkeys(chosen))
            return dict.fromkeys(chosen).keys(), chosen
        if form == 'tuple':
            return tuple(chosen), chosen
        if form == 'stashlist':
            return SL(stashes[1 - si], chosen), chosen
        if form == 'gen':
            def g():
                for j, c in enumerate(chosen):
                    if flt and flt[1] == j:
                        w.fired('iterator:' + flt[0])
                        raise make_error(flt[0])
                    yield c
                if flt and flt[1] >= len(chosen):
                    w.fired('iterator:' + flt[0])
                    raise make_error(flt[0])
            return g(), chosen
        return list(chosen), chosen

    def outcome(f):
        try:
            return ('ok', f())
        except (ValueError, IndexError, OSError, KeyboardInterrupt, MemoryError) as e:
            return (type(e).__name__, None)

    for op in sc['ops']:
        k, x, y = op[:3]
        if len(op) > 6 and op[6] and (len(op[6]) != 2 or not isinstance(op[6][0], str)):
            raise Invalid('fault')
        si = x % 2
        li = y % len(lists)
        real, model = lists[li]
        flt = op[6] if len(op) > 6 else None
        newlist = None
        if k == 'query':
            got = stashes[si].GetItemsFor(**op[3])
            want = reference(content[si], links[si], op[3])
            if not same(got, want):
                fail('query', '%s: got %s, expected %s' % (short(op[3]), short(ids(got)), short(ids(want))))
            newlist = (got, want)
        elif k in ('Append', 'Remove'):
            arg, chosen = argument(op, None, si, content[si])
            want = list(content[si])
            werr = 'ok'
            if flt:
                werr = type(make_error(flt[0])).__name__
            elif k == 'Append':
                want += chosen
            else:
                for c in chosen:
                    j = next((j for j, z in enumerate(want) if z is c), None)
                    if j is None:
                        werr, want = 'ValueError', list(content[si])
                        break
                    del want[j]
            got = outcome(lambda: getattr(stashes[si], k)(arg))     # noqa: B023
            if got[0] != werr:
                fail('error', '%s of %s (%s): %s, expected %s' % (k, short(ids(chosen)), op[3], got[0], werr))
            content[si] = want
            ctx.nontrivial = True
        elif k in ('append', 'extend', 'remove', 'iadd'):
            arg, chosen = argument(op, model, si, model)
            whole = op[5] == 'self' and k in ('extend', 'iadd') and len(model) < 40
            if whole:
                arg, chosen = real, list(model)
            want = list(model)
            werr = 'ok'
            if flt and not whole:
                werr = type(make_error(flt[0])).__name__
            elif k == 'remove':
                for c in chosen:
                    j = next((j for j, z in enumerate(want) if z is c), None)
                    if j is None:
                        werr, want = 'ValueError', list(model)
                        break
                    del want[j]
            else:
                want += chosen
            if werr not in ('ok', 'ValueError') and k in ('extend',):
                pass
            if k == 'iadd':
                def f():
                    nonlocal real
                    real += arg             # noqa: B023
                    return real
            else:
                def f():
                    return getattr(real, k)(arg)      # noqa: B023
            got = outcome(f)
            if got[0] != werr:
                fail('error', '%s of %s (%s): %s, expected %s' % (k, short(ids(chosen)), op[3], got[0], werr))
            if werr not in ('ok', 'ValueError') and k == 'extend':
                # a plain list keeps what it got before the failure, or nothing: both are fine
                if not same(real, want) and not same(real, want + chosen[:flt[1]]):
                    fail('list', 'extend with an argument that fails leaves %s' % short(ids(real)))
                want = list(real)
            lists[li] = (real, want)
            ctx.nontrivial = True
        elif k in ('add', 'radd'):
            arg, chosen = argument(op, model, si, model)
            if op[3] in ('item', 'set1', 'dictkeys', 'gen', 'tuple'):
                arg = list(chosen)
            newlist = (real + arg, model + chosen) if k == 'add' else (arg + real, chosen + model)
        elif k == 'slice':
            newlist = (real[slice(*op[3])], model[slice(*op[3])])
        elif k == 'copy':
            newlist = (real.copy(), list(model))
        elif k == 'mul':
            if len(model) < 60:
                newlist = (real * op[3] if x % 3 else op[3] * real, model * op[3])
        elif k == 'Reduce':
            got = stashes[si].Reduce(real if x % 3 else list(real), **op[3])
            want = reference(model, links[si], op[3])
            if not same(got, want):
                fail('Reduce', '%s of %s: got %s, expected %s' % (short(op[3]), short(ids(model)), short(ids(got)), short(ids(want))))
        elif k == 'reduce':
            want = reference(model, links[0], op[3])        # both stashes know the same links
            got = real.reduce(**op[3])
            if got is not real:
                fail('reduce', 'reduce does not return the list itself')
            lists[li] = (real, want)
            ctx.nontrivial = True
        else:
            want = list(model)
            item = pool[x % len(pool)]

            def do(lst, native):
                if k == 'insert':
                    lst.insert(y % 7 - 2, item)
                elif k == 'pop':
                    return lst.pop(*([] if x % 2 else [y % 5 - 2]))
                elif k == 'reverse':
                    lst.reverse()
                elif k == 'sort':
                    lst.sort(key=lambda i: (i.CLASSIFIER, -i.Line, i.Origin))
                elif k == 'set':
                    lst[y % 5 - 2] = item
                elif k == 'del':
                    del lst[y % 5 - 2]
                elif k == 'delslice':
                    del lst[slice(*op[3])]
                elif k == 'setslice':
                    lst[y % 3:y % 3 + x % 3] = [pool[z % len(pool)] for z in op[4]]
                elif k == 'clear':
                    lst.clear()
                elif k == 'look':
                    return [len(lst), item in lst, lst.count(item), bool(lst), [z.Line for z in lst], [z.Line for z in reversed(lst)],
                            lst.index(item) if item in lst else None]
            g, e = outcome(lambda: do(real, False)), outcome(lambda: do(want, True))       # noqa: B023
            if g != e:
                fail('result', '%s on %s: %s, expected %s' % (short(op), short(ids(model)), short(str(g)), short(str(e))))
            lists[li] = (real, want)
            ctx.nontrivial = True
        if newlist is not None:
            if not isinstance(newlist[0], SL):
                fail('type', '%s gives %s' % (k, type(newlist[0]).__name__))
            if any(newlist[0] is a for a, _ in lists):
                fail('alias', '%s gives a list that was handed out before' % k)
            lists.append(newlist)
            if len(lists) > 6:
                lists.pop(0)
        check(op)
    for n in (0, 1):
        for f in files:
            for nolink in (False, True):
                q = {'filename': f, 'nolink': nolink}
                got, want = stashes[n].GetItemsFor(**q), reference(content[n], links[n], q)
                if not same(got, want):
                    fail('query', 'at the end, %s: got %s, expected %s' % (q, short(ids(got)), short(ids(want))))
