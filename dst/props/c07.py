"""C07 a regex time-out is contained to the statement it hits."""
import re

import regex as _rx

from .. import seams, world as W
from ..harness import fail, Invalid, canon

ID = 'C07'
QUICK = {'runs': 20000}
THOROUGH = {'runs': 60000, 'secs': 780}
RULE = ('parse: a document is loaded once to count its regex operations and once more with 1-4 of them timing out in simulated '
        'time; the load must finish, stay lossless, and every statement that no timed-out operation looked at (nor its direct neighbours) '
        'must be as predicted. api: the five wrapper operations are called with seeded patterns, flags and defaults, '
        'with and without a time-out, against the engine itself. Non-trivial: a time-out fired.')

PATS = [r'a', r'(?P<x>b+)c?', r'\s|\t', r'^FOO', r'[A-Z]+', r'o', r'', r'(a|b)*c', r'é', r'.*']
STR = ['', 'abc', 'aaa bbb', 'FOO bar\nfoo', 'xéy', 'b c\tb', 'AbC', 'a b\tc\nd  e f', 'boo foo oooooooo', 'b' * 40, 'FOO\nFOO\nfoo\nFOO']


def gen(rng, tier):
    if rng.random() < 0.25:
        calls = []
        for _ in range(rng.choice([3, 8])):
            f = rng.choice(['search', 'split', 'match', 'sub', 'finditer'])
            c = {'f': f, 'p': rng.randrange(len(PATS)), 's': rng.randrange(len(STR)), 'compiled': int(rng.random() < 0.4),
                 'flags': rng.choice([0, 0, 2, 8, 16, 10]), 'n': rng.choice([None, None, 0, 1, 2, 3, 5, -1]), 'kw': int(rng.random() < 0.4),
                 'more': rng.choice([None, None, None, ['pos', 1], ['endpos', 2], ['pos', 4], ['concurrent', True], ['overlapped', True], ['partial', True]]),
                 'to': rng.choice([None, None, 'now', 'short', 'within']), 'timeout': rng.choice([None, 1, 3]),
                 'default': rng.choice([None, None, 'D', ['L'], '', 0, [], False])}
            calls.append(c)
        return {'mode': 'api', 'calls': calls}
    d = rng.choice(['_', ':'])
    return {'mode': 'parse', 'blocks': W.gen_doc(rng, rng.choice([3, 6, 10, 16]), d, inline=0.3), 'newstyle': int(d == ':'),
            'faults': [{'op': 'regex', 'kind': 'TIMEOUT', 'frac': round(rng.random(), 4), 'secs': rng.choice([5.001, 60, 1e5])}
                       for _ in range(rng.choice([1, 1, 2, 4]))],
            'negative': int(rng.random() < 0.3),
            'ext': rng.choice(['bb', 'inc', 'bbclass', 'conf']), 'chunk_max': rng.choice([7, 4096])}


MORE = {'search': ('pos', 'endpos', 'partial', 'concurrent'), 'match': ('pos', 'endpos', 'partial', 'concurrent'), 'split': ('concurrent',),
        'sub': ('pos', 'endpos', 'concurrent'), 'finditer': ('pos', 'endpos', 'overlapped', 'concurrent')}


def norm(s):
    return re.sub(r'[\s\\\x1b]+', '', s)


def run(sc, ctx):
    if sc['mode'] == 'api':
        return run_api(sc, ctx)
    blocks = sc['blocks']
    W.check_valid(blocks)
    for b in blocks:
        if b['k'] == 'func' and any('() {' in x for x in b['body']):
            raise Invalid('one-line functions in bodies')
    path = '/sim/meta-x/recipes-a/foo/foo_1.0.%s' % sc['ext']
    opt = bool(sc['newstyle'])
    total = 0
    for rnd in (0, 1):
        w = ctx.world(chunk_max=sc['chunk_max'])
        w.fs.write(path, W.render(blocks))
        if rnd:
            w.arm([dict(f, nth=1 + int(f['frac'] * total)) for f in sc['faults']])
        lib = ctx.lib()
        s = lib.Stash(quiet=True, new_style_override_syntax=opt, negative_inline=bool(sc['negative']))
        s.AddFile(path)
        s.Finalize()
        total = w.regex_calls
        w.disarm()
        got = sorted(s.GetItemsFor(), key=lambda x: x.InFileLine)
        want = W.expect_doc(blocks, path, opt, bool(sc['negative']))
        if rnd:
            ctx.nontrivial = bool(w.timeout_strings)
            n = len([f for f in w.timeout_strings])
            if w.now > n * 5.0 + 1.0:
                fail('no-time-limit', 'the load took %.1f simulated seconds with %d slow operations' % (w.now, n))
        text = W.render(blocks)
        if ''.join(i.RealRaw for i in got) != text:
            fail('text-lost', 'items do not cover the file after a regex time-out')
        hit = touched(blocks, want, w.timeout_strings)
        by = {i.InFileLine: i for i in got}
        for i, e in enumerate(want):
            if hit[i]:
                continue
            ctx.count('untouched_items_checked')
            it = by.get(e['InFileLine'])
            if it is None:
                fail('neighbour-missing', 'statement %r was not touched by a time-out but has no item' % e['RealRaw'])
            d = W.diff_attrs(W.attrs(it), e)
            if d:
                fail('neighbour-differs', 'statement %r was not touched by a time-out: %s' % (e['RealRaw'], d))


def touched(blocks, want, strings):
    n = len(blocks)
    base = [False] * n
    for s in strings:
        if not isinstance(s, str):
            s = repr(s)
        ns = norm(s)
        for i, e in enumerate(want):
            a, b = norm(e['RealRaw']), norm(e['Raw'])
            c = norm(''.join(x for x, _ in e['InlineBlocks']))
            if ns == '':
                h = any(norm(x) == '' for x in e['RealRaw'].split('\n')[:-1] or [''])
            else:
                h = ns in a or ns in b or (a and a in ns) or (b and b in ns) or (c and (ns in c or norm(ns.strip('${@}')) in c))
            if h:
                base[i] = True
    ext = list(base)
    for i in range(n):
        if base[i]:
            j = i + 1
            while j < n and not re.match(r'[A-Za-z0-9#]', want[j]['RealRaw']):
                ext[j] = True
                j += 1
            # the remaining lines of a statement cut by a time-out stand alone: if one of
            # them opens a function, it rightfully ends with the next closing brace
            if any(re.match(r'\s*[\w.+${}:-]*\s*\(\s*\)\s*\{', x) for x in want[i]['RealRaw'].split('\n')[1:]):
                ext[i:] = [True] * (n - i)
    res = list(ext)
    for i in range(n):
        if ext[i]:
            if i:
                res[i - 1] = True
            if i + 1 < n:
                res[i + 1] = True
    return res


def run_api(sc, ctx):
    w = ctx.world()
    R = ctx.lib().rpl.RegexRpl
    for c in sc['calls']:
        pat, st = PATS[c['p']], STR[c['s']]
        flags = c['flags']
        if c['compiled']:
            pat_l, flags = _rx.compile(pat), 0
        else:
            pat_l = pat
        kw = {}
        limit = c['timeout'] or 5
        if c['timeout']:
            kw['timeout'] = c['timeout']
        if c['default'] is not None and c['f'] != 'sub':
            kw['default'] = c['default']
        elif c['default'] in ('D', ''):
            kw['default'] = c['default']
        if flags:
            kw['flags'] = flags
        if c['n'] is not None and c['f'] in ('split', 'sub'):
            kw['maxsplit' if c['f'] == 'split' else 'count'] = c['n']
        args = [pat_l] + (['<\\g<0>>'] if c['f'] == 'sub' else []) + [st]
        if c['more'] and c['more'][0] in MORE[c['f']]:
            kw[c['more'][0]] = c['more'][1]
        if c['to']:
            secs = {'now': 1e6, 'short': limit + 0.001, 'within': limit - 0.5}[c['to']]
            w.arm([{'op': 'regex', 'kind': 'TIMEOUT', 'nth': w.regex_calls + 1, 'secs': secs}])
        res = getattr(R, c['f'])(*args, **kw)
        if c['f'] == 'finditer':
            res = [] if res is None else [m.span() if hasattr(m, 'span') else m for m in res]
        w.disarm()
        with seams.muted():
            kw.pop('timeout', None)
            kw.pop('default', None)
            if c['to'] in ('now', 'short'):
                ctx.nontrivial = True
                d = c['default']
                want = {'search': d, 'match': d, 'sub': 'D' if d == 'D' else '', 'split': d or [],
                        'finditer': list(d) if d else []}[c['f']]
            else:
                want = getattr(_rx, c['f'])(*args, **kw)
                if c['f'] == 'finditer':
                    want = [m.span() for m in want]
            if hasattr(res, 'span'):
                res = ('match', res.span(), res.groupdict())
            if hasattr(want, 'span'):
                want = ('match', want.span(), want.groupdict())
        if res != want:
            fail('api-' + c['f'], '%s(%r, %r, %s) with%s time-out: got %r, expected %r'
                 % (c['f'], PATS[c['p']], st, kw, '' if c['to'] in ('now', 'short') else 'out', res, want))
