"""C29 loading and asking only read, and leave nothing behind in the process."""
import atexit
import builtins
import copy
import decimal
import gc
import json
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import warnings

from .. import query as Q, sched, seams, world as W
from ..harness import fail, h64, Invalid, short
from ..simfs import make_error

ID = 'C29'
QUICK = {'runs': 4000}
THOROUGH = {'runs': 100000, 'secs': 780}
RULE = ('seeded histories of loads (by absolute and relative names, from seeded working directories, quiet or not), queries, finalisations, changed constants, added and removed items run while opens, reads, listings, output and '
        'regex operations fail or are interrupted at seeded points; after every call, with its error still in hand, the streams it opened must be closed, nothing may have been written, created or removed, the state of the process '
        '(directory, environment, locale, limits, handlers, filters, random numbers, threads, ...) and the arguments must be as before, and the output must be one line for each file parsed, or none. '
        'Non-trivial: a call failed by a fault, or files were loaded by relative names.')
ASSUMPTIONS = ['an interruption at an arbitrary line may leave a stream to the reference counter: it must be closed once the error is gone']
CWD = ['/sim/meta-x/recipes-a', '/sim/meta-x', '/sim', '/sim/meta-x/conf']
DATA = '/sim/meta-x/recipes-a/x.txt'
IO = ['EIO', 'EACCES', 'ENOMEM', 'EMFILE', 'ENOENT', 'ESTALE', 'INTR', 'NOMEM']


def gen(rng, tier):
    sc = W.gen_layer(rng, depth=rng.choice([1, 2]), shared=rng.choice([0.0, 0.3]), size=(0, 1, 2), inline=0.15)
    files = [f for f in sc['files'] if 'blocks' in f]
    readers = []
    for f in files:
        if rng.random() < 0.2:
            t = rng.choice(['${THISDIR}/x.txt', '${FILE}', '/sim/meta-x/conf/layer.conf', DATA, DATA, 'none'])
            if W.insert(rng, f['blocks'], {'k': 'var', 'n': 'RF', 'sub': [], 'd': sc['d'], 'op': ' = ', 'v': ["${@oe.utils.read_file('%s')}" % t]}):
                readers.append((f['path'], f['path'] if t == '${FILE}' else t))
    if rng.random() < 0.3:
        # references to references, possibly in a circle
        n = rng.choice([2, 4, 8, 20])
        for i in range(n):
            W.insert(rng, rng.choice(files)['blocks'], {'k': 'var', 'n': 'CH%d' % i, 'sub': [], 'd': sc['d'], 'op': rng.choice([' = ', ' = ', ' += ', ' ?= ']),
                                                        'v': ['${CH%d}' % ((i + 1) % n if rng.random() < 0.9 else i)]})
    paths = [f['path'] for f in files]
    for p in paths + ['/sim/meta-x/x']:
        # what else lies around in a layer
        if rng.random() < 0.15:
            sc['files'].append({'path': p.rsplit('/', 1)[0] + rng.choice(['/lib/mod%d.py', '/lib/oe/mod%d.py', '/site%d.cfg', '/.env%d', '/pyvenv%d.cfg', '/files/mod%d.py']) % rng.randrange(9), 'raw': 'X = 1\n'})
    ops = []

    def fault():
        k = rng.choice(['open', 'open', 'read', 'read', 'seam', 'seam', 'line', 'list', 'stat', 'stdout'])
        return [k, rng.choice(IO) if k not in ('seam', 'line') else rng.choice(['INTR', 'NOMEM']), rng.randrange(1000), rng.choice(paths)]

    def noise():
        while rng.random() < 0.5:
            k = rng.choice(['ask'] * 6 + ['const', 'chdir', 'append', 'remove', 'final', 'layer', 'reduce'])
            if k == 'ask' and readers and rng.random() < 0.3:
                p, t = rng.choice(readers)
                ops.append([k, ['var', {'filename': p}], [rng.choice(['open', 'read', 'read']), rng.choice(IO), rng.randrange(1000), t if t.startswith('/') else DATA]])
            elif k == 'ask':
                q = Q.gen_query(rng, paths)
                ops.append([k, q, fault() if rng.random() < 0.4 else None])
            elif k == 'chdir':
                ops.append([k, rng.choice(CWD)])
            elif k == 'reduce':
                ops.append([k, rng.randrange(1 << 30), Q.gen_filter(rng, paths) if rng.random() < 0.7 else {}, rng.randrange(2)])
            elif k == 'const':
                ops.append([k, rng.choice(['AddConstants', 'RemoveConstants', 'OverrideConstants']), rng.choice(['known', 'other']), [rng.choice(['do_a', 'do_b'])]])
            elif k == 'layer':
                ops.append([k, rng.choice(paths), fault() if rng.random() < 0.4 else None])
            else:
                ops.append([k, rng.randrange(1000)])
    for p in sc['loads']:
        noise()
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(['load', p, rng.choice(['abs', 'rel', 'dot']), fault()])
        ops.append(['load', p, rng.choice(['abs', 'rel', 'rel', 'dot', 'up', 'slash']), None])
    noise()
    ops.append(['final', 0])
    noise()
    sc.update(ops=ops, chunk_seed=rng.randrange(1 << 30), salt=rng.randrange(1 << 30), quiet=int(rng.random() < 0.5), cwd=rng.choice(CWD), own=int(rng.random() < 0.5))
    return sc


def process():
    """everything a library might change behind the back of its caller"""
    return {
        'environment': dict(os.environ), 'directory': os.getcwd(), 'locale': locale.setlocale(locale.LC_ALL), 'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(), 'module path': list(sys.path), 'import hooks': [id(x) for x in sys.meta_path], 'arguments': list(sys.argv),
        'streams': [id(sys.stdout), id(sys.stderr), id(sys.stdin)], 'exception hook': [id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook)], 'warning filters': list(warnings.filters), 'warning display': id(warnings.showwarning),
        'random numbers': hash(random.getstate()), 'threads': [t.name for t in threading.enumerate()], 'collector': [gc.isenabled(), gc.get_threshold(), gc.get_debug()],
        'signals': [str(signal.getsignal(x)) for x in sorted(signal.valid_signals()) if x not in (9, 19)], 'alarm': signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        'limits': [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CPU)],
        'builtins': sorted((k, id(v)) for k, v in vars(builtins).items() if k != '_'), 'logging': [logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
        'sockets': socket.getdefaulttimeout(), 'numbers': str(decimal.getcontext()), 'exit handlers': atexit._ncallbacks(), 'tracing': [sys.gettrace() is None, sys.getprofile() is None],
        'descriptors': len(seams._real['listdir']('/proc/self/fd')), 'priority': os.getpriority(os.PRIO_PROCESS, 0), 'int digits': sys.get_int_max_str_digits(),
    }


def restore(state):
    """leave the process to the next run as this one found it"""
    seams.WORLD.guard = False
    if dict(os.environ) != state['environment']:
        os.environ.clear()
        os.environ.update(state['environment'])
    locale.setlocale(locale.LC_ALL, state['locale'])
    sys.setrecursionlimit(state['recursion limit'])
    sys.setswitchinterval(state['switch interval'])
    sys.path[:], sys.argv[:], warnings.filters[:] = state['module path'], state['arguments'], state['warning filters']
    gc.set_threshold(*state['collector'][1])
    (gc.enable if state['collector'][0] else gc.disable)()
    gc.set_debug(state['collector'][2])
    socket.setdefaulttimeout(state['sockets'])
    signal.setitimer(signal.ITIMER_REAL, 0)
    logging.root.setLevel(state['logging'][0])
    logging.disable(state['logging'][2])
    sys.set_int_max_str_digits(state['int digits'])


class Printed:
    """which files are reported as parsed, in order"""

    def __init__(self, m):
        self.m, self.seen, self.out = m, set(), []

    def load(self, p, stack=()):
        if p in self.seen and (p.endswith('.bbclass') or not stack and not p.endswith(('.inc', '.bb', '.conf'))) or p in stack:
            return
        self.out.append(p)
        self.seen.add(p)
        for r in self.m.edges(p):
            self.load(r, stack + (p,))


def arm(w, f, files):
    k, kind, n, path = f
    if k in ('open', 'list', 'stat'):
        w.arm([{'op': k, 'path': path if k == 'open' else os.path.dirname(path) if k == 'list' else path, 'kind': kind}])
    elif k == 'read':
        w.arm([{'op': 'read', 'path': path, 'kind': kind, 'offset': n * len(w.fs.read_bytes(path)) // 1000}])
    elif k == 'stdout':
        w.arm([{'op': 'stdout', 'kind': kind, 'nth': 1 + n % 12}])
    elif k == 'seam':
        w.arm([{'op': 'seam', 'nth': w.seam_ops + 1 + n % 200, 'kind': kind}])
    else:
        return sched.LineFault(1 + n * 3, make_error(kind))
    return None


def run(sc, ctx):
    W.check_layer(sc)
    state = process()
    try:
        play(sc, ctx)
    finally:
        restore(state)


def play(sc, ctx):
    m = W.Model(sc)
    w = ctx.world(chunk_seed=sc['chunk_seed'], salt=sc['salt'])
    seams.guard(w)
    ctx.key = '%x' % h64(json.dumps(sc, sort_keys=True))
    w.cwd = sc['cwd']
    W.put(w, sc['files'])
    w.fs.write(DATA, 'x')
    for d in CWD:
        w.fs.mkdir(d)
    state = process()
    new = sc['d'] == ':'
    lib = ctx.lib()
    s = lib.Stash(quiet=bool(sc['quiet']), new_style_override_syntax=new)
    done = []
    printed = Printed(m)
    fuzzy = False

    def settle(what, err, weak=False):
        if w.effects:
            fail('effect', '%s: %s' % (what, w.effects[0]))
        now = process()
        if weak:
            # a stream on its way to be closed
            now['descriptors'] = state['descriptors']
        if now != state:
            k = next(k for k in state if now.get(k) != state[k])
            fail('process', '%s (%r) left the %s as %s, was %s' % (what, err, k, short(repr(now[k])), short(repr(state[k]))))
        if not weak:
            if w.forgotten:
                fail('open', '%s (%r) did not close %s' % (what, err, w.forgotten[0]))
            left = [h() for h in w.handles if h() is not None and not h().closed]
            if left:
                fail('open', '%s (%r) left %s open' % (what, err, left[0].name))


    def call(what, fn, f=None, args=()):
        w.forgotten.clear()
        before = copy.deepcopy(args)
        lf = arm(w, f, sc['files']) if f else None
        fired = dict(w.fired_kinds)
        err = res = None
        try:
            if lf:
                with lf:
                    res = fn()
            else:
                res = fn()
        except (OSError, KeyboardInterrupt, MemoryError) as e:
            err = e
        w.disarm()
        if lf and lf.fired:
            w.fired('line:' + f[1])
        hit = w.fired_kinds != fired
        ctx.nontrivial |= hit
        settle(what, err, bool(lf and lf.fired))
        if args != before:
            fail('argument', '%s changed its argument %s into %s' % (what, short(repr(before)), short(repr(args))))
        failed = err is not None
        del err
        if lf and lf.fired:
            lf.exc.__traceback__ = None
            gc.collect()
            left = [h() for h in w.handles if h() is not None and not h().closed]
            if left:
                fail('open', '%s left %s open for good' % (what, left[0].name))
        w.handles = [h for h in w.handles if h() is not None]
        if failed and not hit:
            fail('error', '%s raises without a fault' % what)
        return failed, hit
    known = {'functions': {'known': []}}
    for op in sc['ops']:
        k = op[0]
        n0 = len(w.stdout)
        if k == 'load':
            p = op[1]
            if p not in m.files:
                raise Invalid('missing')
            rel = os.path.relpath(p, w.cwd)
            name = {'abs': p, 'rel': rel, 'dot': './' + rel, 'up': 'none/../' + rel, 'slash': p.replace('/', '//')}[op[2]]
            if op[2] == 'slash':
                name = '/' + name.lstrip('/')
            if op[2] in ('rel', 'dot', 'up'):
                ctx.nontrivial = True
            failed, hit = call('loading %s in %s' % (name, w.cwd), lambda: s.AddFile(name), op[3])
            text = ''.join(w.stdout[n0:])
            want = copy.deepcopy(printed.seen)
            printed.out = []
            printed.load(p)
            lines = '' if sc['quiet'] else ''.join('Parsing %s\n' % x for x in printed.out)
            if hit and not failed:
                fuzzy = True        # a file that vanished is skipped (C17)
            if fuzzy:
                continue
            if failed:
                printed.seen = want
                if not lines.startswith(text) and 'stdout' not in op[3][0]:
                    fail('output', 'loading %s printed %r, expected the start of %r' % (name, text, lines))
            else:
                done.append(['load', p])
                if text != lines:
                    fail('output', 'loading %s printed %r, expected %r' % (name, text, lines))
            continue
        if k == 'chdir':
            if op[1] not in CWD:
                raise Invalid('directory')
            os.chdir(op[1])
            state['directory'] = op[1]
        elif k == 'ask':
            call('asking for %s' % short(op[1]), lambda: Q.raw(lib, s, op[1]), op[2], op[1])
        elif k == 'reduce':
            own = list(s.GetItemsFor())
            random.Random(op[1]).shuffle(own)
            was = [id(i) for i in own]
            lst = lib.Stash.StashList(s, own) if op[3] else own
            if op[3]:
                lst.data = own
            call('Reduce', lambda: s.Reduce(lst, **op[2]), None, op[2])
            if [id(i) for i in own] != was:
                fail('argument', 'Reduce(%s) changed the list handed in' % short(op[2]))
        elif k == 'layer':
            call('AddDistroMachineFromLayer(%s)' % op[1], lambda: s.AddDistroMachineFromLayer(op[1]), op[2])
        elif k == 'const':
            d = {'functions': {op[2]: list(op[3])}}
            call(op[1], lambda: getattr(lib.CONSTANTS, op[1])(d), None, d)
            known['functions'].setdefault(op[2], [])
        elif k == 'final':
            call('Finalize', s.Finalize)
            done.append(['final'])
        else:
            its = s.GetItemsFor()
            if len(its) < 2:
                continue
            i = its[op[1] % len(its)]
            x = [i]
            call(k, lambda: (s.Append if k == 'append' else s.Remove)(x), None, [])
            if len(x) != 1 or x[0] is not i:
                fail('argument', '%s changed its argument' % k)
            # and back
            call(k, lambda: (s.Remove if k == 'append' else s.Append)(i))
        if ''.join(w.stdout[n0:]):
            fail('output', '%s printed %r' % (short(op), ''.join(w.stdout[n0:])))
    # names and working directories do not matter
    t = lib.Stash(quiet=True, new_style_override_syntax=new)
    for op in done:
        if op[0] == 'load':
            t.AddFile(op[1])
        else:
            t.Finalize()
    if not fuzzy and not any(op[0] in ('append', 'remove') for op in sc['ops']):
        for q in [['items', {}], ['finger'], ['recipes'], ['lone'], ['classes'], ['confs']] + [['links', p] for _, p in (o for o in done if o[0] == 'load')]:
            a, b = Q.ask(lib, s, q), Q.ask(lib, t, q)
            if a != b:
                fail('names', '%s is answered with %s, but %s when loaded by absolute names' % (short(q), short(a), short(b)))
