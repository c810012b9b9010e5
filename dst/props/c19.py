"""C19 file lookups reflect the file system as it is."""
import fnmatch
import posixpath

from .. import sched
from ..harness import fail, Invalid, short
from ..simfs import Dir, File

ID = 'C19'
QUICK = {'runs': 36000}
THOROUGH = {'runs': 400000, 'secs': 780}
RULE = ('seeded histories of creating, deleting and replacing files, directories and layer roots, interleaved with lookups, some of which fail with injected I/O errors, and with loads of recipes that '
        'pull in one of the files; every undisturbed answer is compared with a direct search of the simulated tree at that moment. Non-trivial: the same question was asked before and after a change.')
TOPS = ['/sim/meta-x', '/sim/meta-x', '/sim/meta-[y]', '/sim/me.ta+z', '/sim/meta-x/nested']
DIRS = ['', '/recipes-a/foo', '/recipes-a/foo/files', '/recipes-a/foo/foo', '/recipes-a', '/classes', '/recipes-a/foo/.git', '/recipes-b/a b', '/conf', '/conf/x', '/recipes-a/conf', '/recipes-a/foo/files/sub']
FILES = ['x.inc', 'a.patch', 'b.patch', 'defconfig', '.hidden', 'foo.bbclass', 'classes', 'ab.cfg', '[a].patch']
NAMES = ['x.inc', 'recipes-a/foo/x.inc', 'classes/foo.bbclass', 'files/a.patch', '../x.inc', 'classes', './x.inc', 'foo', 'recipes-a']
PATTERNS = ['*', '*', '*.patch', 'a*', '?.patch', '[ab]*', 'defconfig', '.*', 'x.inc', '[!a]*', '*.[cp]*', '**', '**.patch']


def gen(rng, tier):
    tops = rng.sample(sorted(set(TOPS)), rng.choice([1, 2, 2, 3]))

    def d():
        return rng.choice(tops) + rng.choice(DIRS)
    dirs = [d() for _ in range(rng.choice([2, 4, 6]))]

    def change():
        r = rng.random()
        p = (rng.choice(dirs) if rng.random() < 0.8 else d())
        if r < 0.45:
            return ['write', p + '/' + rng.choice(FILES)]
        if r < 0.6:
            return ['delete', p + '/' + rng.choice(FILES)]
        if r < 0.66:
            return ['mkdir', p]
        if r < 0.72:
            return ['delete', p]
        if r < 0.9:
            return ['write', rng.choice(tops + ['/sim'] + dirs[:1]) + '/conf/layer.conf']
        return ['delete', rng.choice(tops + ['/sim'] + dirs[:1]) + '/conf/layer.conf']

    def question():
        p = rng.choice(dirs) if rng.random() < 0.8 else d()
        r = rng.random()
        if r < 0.35:
            return ['root', p if rng.random() < 0.6 else p + '/' + rng.choice(FILES)]
        if r < 0.7:
            return ['find', rng.choice(NAMES), p]
        return ['files', rng.choice(tops) + '/recipes-a/foo/foo_1.0.bb' if rng.random() < 0.8 else rng.choice(tops) + '/recipes-a/foo/x.inc', rng.choice(PATTERNS)]
    sc = {'ops': [change() for _ in range(rng.choice([2, 5, 10]))]}
    pool = [question() for _ in range(rng.choice([1, 2, 3]))]
    for t in tops:
        if rng.random() < 0.7:
            sc['ops'].append(['recipe', t + '/recipes-a/foo/foo_1.0.bb', rng.choice(['x.inc', 'recipes-a/foo/x.inc', None])])
    for _ in range(rng.choice([4, 8, 16, 30])):
        r = rng.random()
        if r < 0.4:
            sc['ops'].append(change())
        elif r < 0.9:
            q = rng.choice(pool) if rng.random() < 0.75 else question()
            if rng.random() < 0.15:
                sc['ops'].append(['disturbed', q, rng.choice(['stat', 'list']), rng.choice(['EIO', 'EACCES', 'ESTALE', 'ENOENT']), rng.randrange(1, 5)])
            else:
                sc['ops'].append(['ask', q])
        elif r < 0.95:
            sc['ops'].append(['final'])
        else:
            sc['ops'].append(['recipe', '%s/recipes-a/foo/bar_%d.bb' % (rng.choice(tops), rng.randrange(9)), rng.choice(['x.inc', 'recipes-a/foo/x.inc'])])
    sc['slashes'] = rng.random() < 0.05
    sc['dir_order'] = rng.choice(['sorted', 'reversed', 'r%d' % rng.randrange(99)])
    return sc


class Direct:
    """the answers by searching the tree itself"""

    def __init__(self, fs):
        self.fs = fs

    def node(self, p):
        n = self.fs.root
        comps = []
        for c in p[len('/sim'):].split('/'):
            if c == '..':
                # the directory left must exist
                if not isinstance(n, Dir):
                    return None
                comps = comps[:-1]
                n = self.fs.root
                for x in comps:
                    n = n.kids.get(x)
            elif c not in ('', '.'):
                n = n.kids.get(c) if isinstance(n, Dir) else None
                if n is None:
                    return None
                comps.append(c)
        return n

    def roots(self, d):
        """enclosing layers, the nearest first"""
        while d.startswith('/sim'):
            if self.node(d + '/conf/layer.conf') is not None:
                yield d
            d = posixpath.dirname(d)

    def root(self, name):
        n = self.node(name)
        if n is None:
            return None
        return next(self.roots(posixpath.dirname(name) if isinstance(n, File) else name), '')

    def find(self, name, d):
        if not isinstance(self.node(d), Dir):
            return None
        for x in [d] + list(self.roots(d))[:1]:
            if isinstance(self.node(x + '/' + name), File):
                return x + '/' + name
        return ''

    def files(self, dirs, pattern):
        res = set()
        for d in dirs:
            n = self.node(d)
            for k, sub in (n.kids.items() if isinstance(n, Dir) else ()):
                if k.startswith('.') or not isinstance(sub, Dir):
                    continue
                for f in sub.kids:
                    if f.startswith('.') and not pattern.startswith('.'):
                        continue
                    if fnmatch.fnmatchcase(f, pattern):
                        res.add('%s/%s/%s' % (d, k, f))
        return sorted(res)


def run(sc, ctx):
    w = ctx.world(dir_order=sc['dir_order'])
    lib = ctx.lib()
    s = lib.Stash(quiet=True)
    direct = Direct(w.fs)
    pre = '/' if sc['slashes'] else ''
    loaded = {}             # recipe -> its included file or None
    asked, changed = {}, 0
    with sched.Budget(400_000):
        for op in sc['ops']:
            k = op[0]
            if k == 'write':
                w.fs.write(op[1], 'X = "1"\n')
                changed += 1
            elif k == 'mkdir':
                w.fs.mkdir(op[1])
                changed += 1
            elif k == 'delete':
                w.fs.remove(op[1])
                changed += 1
            elif k == 'final':
                s.Finalize()
            elif k == 'recipe':
                if op[1] in loaded:
                    raise Invalid('recipe loaded twice')
                w.fs.write(op[1], 'SRC_URI = "file://a.patch"\n' + ('require %s\n' % op[2] if op[2] else ''))
                changed += 1
                want = direct.find(op[2], posixpath.dirname(op[1])) if op[2] else ''
                res = s.AddFile(pre + op[1])
                loaded[op[1]] = want
                inc = [i for i in res if i.CLASSIFIER == 'Include']
                if op[2] and (len(inc) != 1 or unslash(inc[0].FileIncluded) != want):
                    fail('include', '%s: %s is resolved to %s, it is at %s' % (op[1], op[2], [i.FileIncluded for i in inc], want or 'no place'))
            elif k == 'disturbed':
                disturbed(w, op)
                try:
                    ask(s, op[1], pre)
                except OSError:
                    fail('error', '%s raises an error when the file system fails' % short(op[1]))
                finally:
                    w.disarm()
            elif k == 'ask':
                q = op[1]
                got = ask(s, q, pre)
                if q[0] == 'files':
                    if q[1] not in loaded or not s.GetItemsFor(filename=pre + q[1], classifier='Variable', attribute='VarName', attributeValue='SRC_URI'):
                        want = []
                    else:
                        # next to the recipe and to what it includes
                        dirs = {posixpath.dirname(x) for x in (q[1], loaded[q[1]]) if x}
                        want = direct.files(dirs, q[2])
                    got = [unslash(x) for x in got]
                else:
                    want = getattr(direct, q[0])(*q[1:])
                    if want is None:
                        continue        # not a place to start from
                    got = unslash(got)
                key = repr(q)
                ctx.nontrivial |= key in asked and asked[key] != changed
                asked[key] = changed
                if got != want:
                    fail(q[0], '%s answers %s, the file system says %s' % (short(q), short(got), short(want)))


def unslash(p):
    return p[1:] if p and p.startswith('//') else p


def disturbed(w, op):
    # the nth operation of this kind from now on fails
    w.arm([{'op': op[2] + '#', 'kind': op[3], 'nth': op[4]}])


def ask(s, q, pre):
    if q[0] == 'root':
        return s.GetLayerRoot(pre + q[1])
    if q[0] == 'find':
        return s.FindLocalOrLayer(q[1], pre + q[2])
    return s.GetFiles(pre + q[1], q[2])
