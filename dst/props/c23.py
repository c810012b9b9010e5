"""C23 recipe names and versions follow from the file name alone."""
import os

from .. import query as Q, world as W
from ..harness import fail, Invalid, short

ID = 'C23'
QUICK = {'runs': 32000}
THOROUGH = {'runs': 300000, 'secs': 780}
RULE = ('seeded file names (with and without version, class prefixes and suffixes, dots, dashes, several underscores) in seeded directories are asked for in a seeded order, repeatedly, '
        'between loads, failing loads, finalisations, changes of the constants and questions to a second stash; names, versions, built-in variables and package names are compared with functions of the '
        'file name, however the questions before were asked. Non-trivial: at least three questions and a load.')
STEMS = ['foo', 'gtk+', 'a-b', 'libx11', 'x.y', 'python3-foo', 'c++util', 'native', 'cross', 'foo-bar-baz', 'Foo', 'é', 'linux-yocto-rt', 'n-native-x', 'nativesdkx', 'my-crossbow', 'foo-git', 'foo-svn', 'x-1', 'a-r5', 'foo-1.0', '7zip', 'git', 'lib32-foo', 'foo-dev', 'a.bb', 'native-foo', 'cross-native-x', 'foo-native2',
         'A-Native', 'x-CROSS', 'foo-crosssdk', 'packagegroup-x', 'foo-cross-canadian', 'foo.inc', 'foo.bbappend', 'a.conf', 'x.bbclass', 'foo.inc.bb', 'bb', '.bb']
PREFIX = ['', '', '', 'nativesdk-']
SUFFIX = ['', '', '', '-native', '-cross', '-cross-native', '-initial']
VERS = [None, None, '1.0', '2', 'git', '1.0+git', '%', '1.2.3-rc1', '10.%', '', '1.0_r2', 'svn_x_y']
EXT = ['bb', 'bb', 'bb', 'bbappend', 'bbappend', 'inc', 'bbclass']
DIRS = ['/sim/meta-x/recipes-a/foo', '/sim/meta-x/recipes_b/bar_2.0', '/sim/other-native/x.y', '/sim/meta-x/nativesdk-z']


def gen(rng, tier):
    files = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        pre, stem, suf = rng.choice(PREFIX), rng.choice(STEMS), rng.choice(SUFFIX)
        v = rng.choice(VERS)
        r = rng.random()
        if r < 0.3:
            stem = '-'.join(W.rword(rng, W.LOW + W.UP, W.LOW + W.NUM + '+.') for _ in range(rng.choice([1, 1, 2, 3])))
        elif r < 0.4:
            pre = suf = stem = ''
        if v and rng.random() < 0.3:
            v = '.'.join(str(rng.randrange(30)) for _ in range(rng.choice([1, 2, 3, 4]))) + rng.choice(['', '', '+git', '-rc1', '_r%d' % rng.randrange(4), '~beta', '.%'])
        files.append([rng.choice(DIRS), pre, stem, suf, v, rng.choice(EXT)])
    ops = []
    for _ in range(rng.choice([3, 6, 12, 25])):
        k = rng.choice(['name', 'base', 'version', 'name', 'base', 'version', 'term', 'pkgs', 'load', 'load', 'fail', 'final', 'const', 'spoil'])
        ops.append([k, rng.randrange(len(files)), rng.randrange(2), rng.randrange(1000)])
    return {'files': files, 'ops': ops, 'chunk_seed': rng.randrange(1 << 30)}


def path(f):
    d, pre, stem, suf, v, ext = f
    return '%s/%s%s%s%s.%s' % (d, pre, stem, suf, '' if v is None else '_' + v, ext)


def facts(f):
    d, pre, stem, suf, v, ext = f
    name = pre + stem + suf
    base = name
    if base.startswith('nativesdk-') and len(base) > len('nativesdk-'):
        base = base[len('nativesdk-'):]
    for s in ('-native', '-cross'):
        if base.endswith(s) and len(base) > len(s):
            base = base[:-len(s)]
    return name, base, None if v is None else v.split('_')[0]


def run(sc, ctx):
    for f in sc['files']:
        if len(f) != 6 or '_' in f[1] + f[2] + f[3] or '/' in path(f)[len(f[0]) + 1:] or not (f[2] or f[4]) or f[5] not in EXT or f[0] not in DIRS:
            raise Invalid('name')
    w = ctx.world(chunk_seed=sc['chunk_seed'])
    ctx.key = repr(sc)
    w.fs.write('/sim/meta-x/conf/layer.conf', '')
    for f in sc['files']:
        w.fs.write(path(f), '# a file\nA = "${PN} ${PV}"\n')
    lib = ctx.lib()
    st = [lib.Stash(quiet=True), lib.Stash(quiet=True)]
    asked = loads = 0
    for k, i, si, r in sc['ops']:
        f = sc['files'][i % len(sc['files'])]
        p, s = path(f), st[si]
        name, base, ver = facts(f)
        if k in ('load', 'fail'):
            if k == 'fail':
                w.arm([{'op': 'open', 'path': p, 'kind': ('EIO', 'NOMEM', 'INTR')[r % 3]}])
            try:
                s.AddFile(p)
            except (OSError, MemoryError, KeyboardInterrupt):
                if k == 'load':
                    raise
            w.disarm()
            loads += 1
            continue
        if k == 'final':
            s.Finalize()
            continue
        if k == 'const':
            op = ('AddConstants', 'RemoveConstants', 'OverrideConstants')[r % 3]
            getattr(lib.CONSTANTS, op)({'functions': {'known': ['do_%d' % r]}, 'replacements': {'distros': ['native', 'cross', name]}})
            continue
        if k == 'spoil':
            Q.spoil(Q.raw(lib, s, ['pkgs', p, False]))
            continue
        asked += 1
        if k == 'name':
            got, want = s.GuessRecipeName(p), name
        elif k == 'base':
            got, want = s.GuessBaseRecipeName(p), base
        elif k == 'version':
            got, want = s.GuessRecipeVersion(p), ver
        elif k == 'term':
            got, want = s.ExpandTerm(p, '${PN}|${BPN}|${PV}|${FILE}|${THISDIR}'), '|'.join([name, base, ver or '1.0', p, f[0]])
        else:
            pns = ['${PN}', name]
            got = set(s.GetValidPackageNames(p))
            want = {x + y for x in pns for y in ('', '-ptest', '-src', '-dbg', '-staticdev', '-dev', '-doc', '-locale')}
        if got != want or type(got) is not type(want) and not isinstance(want, set):
            fail(k, '%s of %s is %s, expected %s' % (k, p, short(repr(got)), short(repr(want))))
    ctx.nontrivial = asked >= 3 and loads > 0
