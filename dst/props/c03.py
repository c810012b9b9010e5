"""C03 a failed load leaves no trace and can be repeated."""
from .. import query as Q, sched, world as W
from ..harness import fail, Invalid, short
from ..simfs import make_error

ID = 'C03'
QUICK = {'runs': 2400}
THOROUGH = {'runs': 50000, 'secs': 780}
RULE = ('seeded layers are loaded in a seeded order; one to three attempts fail: an I/O error at the open or at any byte of the file or of a file it pulls in, '
        'an interruption or allocation failure at any system call, regex operation, output or executed library line. After each failure the stash is compared, on a '
        'seeded set of questions, with a freshly imported library that never saw the attempt; after the retry with one that loaded without faults. '
        'Non-trivial: at least one fault fired.')
KINDS = W.PLAIN + ['special'] * 4
IO = ['EIO', 'EACCES', 'ENOMEM', 'EMFILE', 'ESTALE', 'ETIMEDOUT', 'INTR', 'NOMEM']


def gen(rng, tier):
    sc = W.gen_layer(rng, depth=rng.choice([1, 2, 2]), shared=rng.choice([0.0, 0.3]), size=(1, 2, 4), kinds=KINDS, inline=0.1,
                     multi_append=0.6)
    W.add_twins(rng, sc)
    sc['ops'] = []
    fails = rng.choice([1, 1, 2, 3])
    at = [rng.randrange(len(sc['loads'])) for _ in range(fails)]
    for i, p in enumerate(sc['loads']):
        for _ in range(at.count(i)):
            k = rng.choice(['open', 'read', 'read', 'seam', 'seam', 'line', 'line', 'line', 'late'])
            f = {'op': k, 'at': rng.randrange(10000), 'which': rng.randrange(1000)}
            f['kind'] = rng.choice(IO if k in ('open', 'read') else ['INTR', 'NOMEM'])
            if k == 'late':
                # when everything is done but for the last few steps
                f.update(op=rng.choice(['seam', 'line']), at=rng.randrange(9900, 10000))
            sc['ops'].append(['fail', p, f])
        if rng.random() < 0.1 and len(sc['loads']) > 1:
            continue                    # given up
        if i and rng.random() < 0.25:
            sc['ops'].append(['load', rng.choice(sc['loads'][:i])])     # loaded again, or for the first time
        sc['ops'].append(['load', p])
        if rng.random() < 0.15:
            sc['ops'].append(['final'])
    if rng.random() < 0.6:
        sc['ops'].append(['final'])
    sc['chunk_seed'] = rng.randrange(1 << 30)
    sc['salt'] = rng.randrange(1 << 30)
    sc['quiet'] = int(rng.random() < 0.7)
    sc['ask'] = rng.randrange(1 << 30)
    return sc


def play(sc, lib, ops):
    s = lib.Stash(quiet=True, new_style_override_syntax=sc['d'] == ':')
    for op in ops:
        if op[0] == 'load':
            s.AddFile(op[1])
        elif op[0] == 'final':
            s.Finalize()
    return s


def run(sc, ctx):
    import random
    W.check_layer(sc)
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    W.put(w, sc['files'])
    tree = W.Model(dict(sc, loads=[]))
    files = [f['path'] for f in sc['files'] if 'blocks' in f]
    if not files:
        raise Invalid('no files')
    pan = Q.panel(files)
    rng = random.Random(sc['ask'])
    lib = ctx.lib()
    s = lib.Stash(quiet=bool(sc['quiet']), new_style_override_syntax=sc['d'] == ':')
    done = []

    def compare(kind, what, n=10):
        twin = play(sc, lib.__class__(), done)
        for q in [['items', {}], ['finger']] + rng.sample(pan, min(n, len(pan))):
            a, b = Q.ask(lib, s, q), Q.ask(lib, twin, q)
            if a != b:
                fail(kind + ':' + q[0], '%s: %s answers %s, expected %s' % (what, short(q), short(a), short(b)))
    for op in sc['ops']:
        if op[0] != 'fail':
            if op[0] == 'load' and op[1] not in tree.files:
                raise Invalid('missing')
            (s.AddFile(op[1]) if op[0] == 'load' else s.Finalize())
            done.append(op)
            continue
        _, p, f = op
        if p not in tree.files:
            raise Invalid('missing')
        for _ in range(rng.choice([0, 0, 2])):
            Q.ask(lib, s, rng.choice(pan))
        involved = sorted(tree.reach(p))
        tgt = involved[f['which'] % len(involved)]
        before = dict(w.fired_kinds)
        lf = None
        if f['op'] == 'open':
            w.arm([{'op': 'open', 'path': tgt, 'kind': f['kind']}])
        elif f['op'] == 'read':
            w.arm([{'op': 'read', 'path': tgt, 'kind': f['kind'], 'offset': f['at'] * len(w.fs.read_bytes(tgt)) // 10000}])
        else:
            # how long is the way this load takes?
            twin = play(sc, lib.__class__(), done)
            ops0 = w.seam_ops
            with sched.LineFault(0) as c:
                twin.AddFile(p)
            if f['op'] == 'seam':
                w.arm([{'op': 'seam', 'nth': w.seam_ops + 1 + f['at'] * (w.seam_ops - ops0) // 10000, 'kind': f['kind']}])
            else:
                lf = sched.LineFault(1 + f['at'] * c.steps // 10000, make_error(f['kind']))
        err = None
        try:
            if lf:
                with lf:
                    s.AddFile(p)
            else:
                s.AddFile(p)
        except (OSError, KeyboardInterrupt, MemoryError) as e:
            err = e
        w.disarm()
        fired = w.fired_kinds != before or bool(lf and lf.fired)
        if lf and lf.fired:
            w.fired('line:' + f['kind'])
        if fired:
            ctx.nontrivial = True
            ctx.count('failed loads')
            if err is None:
                fail('swallowed', 'loading %s succeeds although %s %s happened at %s' % (p, f['op'], f['kind'], tgt))
            if type(err) is not type(make_error(f['kind'], p)):
                fail('other-error', 'loading %s: %r instead of %s' % (p, err, f['kind']))
            compare('trace', 'after the failed attempt to load %s (%s %s)' % (p, f['op'], f['kind']))
        elif err is not None:
            fail('error', 'loading %s: %r without a fault' % (p, err))
        else:
            done.append(['load', p])
    compare('retry', 'after all attempts', 16)
