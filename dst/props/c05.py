"""C05 lossless: the raw text of the items, in file order, is the file."""
from .. import seams, sched, world as W
from ..harness import fail, expect_equal

ID = 'C05'
QUICK = {'runs': 24000}
THOROUGH = {'runs': 80000, 'secs': 780}
RULE = ('seeded junk documents (statement fragments, unbalanced braces, dangling continuations, half comments) are '
        'delivered in short reads, optionally with regex time-outs at seeded operations and a read that ends early; '
        'the concatenated raw texts must be the delivered text and line numbers must follow from it. '
        'Non-trivial: at least 3 lines and a short read, time-out or tear happened.')

FRAG = ['A = "x"', 'A = "x \\', '    y \\', '    z"', 'do_foo() {', '}', '    foo', '{', '}}', '# c', '#', '  # ic', '',
        '   ', '\\', 'x \\', 'python do_a() {', 'python () {', 'def f(d):', '    return 1', 'def ', 'inherit foo',
        'include x.inc', 'require', 'unset A', 'addtask x before y', 'B = "${@foo()}"', 'C = "${@bb.utils.contains(\'a\',\'b\',\'t\',\'f\',d)}"',
        'D[x] = "1"', 'fakeroot do_b () {', 'x() { a; }', '# x() {', 'é = "ü"', 'FOO:append = "1"', 'FOO_append = "1"',
        '\tif {', '\t}', 'addhandler x', 'export A = "1"', 'export B', '\x0c', 'a\x1cb', 'A="1"', 'EXPORT_FUNCTIONS a',
        '# c \\', 'def g(x):', 'K = "\\x1b"', '"', "'", 'T = "${T}"', '${X} = "1"', 'A = "}"', 'Z = "{"', '\u2028', 'a\x85b']


def gen(rng, tier):
    mode = rng.random()
    if mode < 0.6:
        n = rng.choice([1, 2, 3, 5, 8, 13, 25])
        lines = [rng.choice(FRAG) for _ in range(n)]
    else:
        lines = W.render(W.gen_doc(rng, rng.choice([2, 4, 8]), inline=0.2)).split('\n')
        for _ in range(rng.choice([0, 1, 2])):
            lines.insert(rng.randrange(len(lines) + 1), rng.choice(FRAG))
    faults = []
    for _ in range(rng.choice([0, 0, 1, 2, 6])):
        faults.append({'op': 'regex', 'kind': 'TIMEOUT', 'frac': round(rng.random(), 4)})
    if rng.random() < 0.08:
        lines[0] = '\ufeff' + lines[0]
    return {'lines': lines, 'nl': rng.choice(['\n', '\n', '\n', '\r\n']), 'tail': int(rng.random() < 0.6), 'faults': faults,
            'tear': round(rng.random(), 4) if rng.random() < 0.25 else None,
            'chunk_seed': rng.randrange(1 << 30), 'chunk_max': rng.choice([1, 3, 16, 64, 4096]),
            'ext': rng.choice(['bb', 'inc', 'conf', 'bbclass', 'bbappend']), 'negative': int(rng.random() < 0.3)}


def run(sc, ctx):
    text = sc['nl'].join(sc['lines']) + (sc['nl'] if sc['tail'] else '')
    path = '/sim/meta-x/recipes-a/foo/foo_1.0.%s' % sc['ext']

    def once(faults, text, tear=None):
        w = ctx.world(chunk_seed=sc['chunk_seed'], chunk_max=sc['chunk_max'])
        w.fs.write(path, text)
        if tear is not None:
            faults = faults + [{'op': 'read', 'path': path, 'kind': 'TORN', 'offset': tear}]
        w.arm(faults)
        lib = ctx.lib()
        s = lib.Stash(quiet=True, negative_inline=bool(sc['negative']))
        s.AddFile(path)
        s.Finalize()
        w.disarm()
        return w, sorted(s.GetItemsFor(), key=lambda x: x.InFileLine)

    tear = None
    if sc['tear'] is not None:
        # at a character boundary and not inside a CR LF pair
        k = int(sc['tear'] * len(text))
        while 0 < k < len(text) and text[k - 1] == '\r' and text[k] == '\n':
            k -= 1
        tear = len(text[:k].encode())
    w, items = once([], text, tear)
    seen = text if tear is None else text[:k]
    judge(items, seen)
    ctx.nontrivial = len(sc['lines']) >= 3 and w.counters.get('short_reads', 0) > 0
    if sc['faults']:
        total = w.regex_calls
        fl = [{'op': 'regex', 'kind': 'TIMEOUT', 'secs': 60, 'nth': 1 + int(f['frac'] * total)} for f in sc['faults']]
        w, items = once(fl, text, tear)
        judge(items, seen, 'with regex time-outs: ')


def judge(items, text, pre=''):
    want = text.replace('\r\n', '\n').replace('\r', '\n')
    got = ''.join(i.RealRaw for i in items)
    if got != want:
        n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        fail('text-lost', '%sraw texts do not add up to the file, first difference at %d: got %r, expected %r'
             % (pre, n, got[max(0, n - 20):n + 20], want[max(0, n - 20):n + 20]))
    line = 1
    for i in items:
        if i.InFileLine != line:
            fail('line-number', '%sitem %r is at line %d, reported %d' % (pre, i.RealRaw, line, i.InFileLine))
        if i is not items[-1] and not i.RealRaw.endswith('\n'):
            fail('line-split', '%sitem %r ends within line %d' % (pre, i.RealRaw, line))
        line += i.RealRaw.count('\n')
