"""C14 the constants database follows its history of changes exactly."""
import copy
import json

from ..harness import canon, fail, h64, Invalid, short

ID = 'C14'
QUICK = {'runs': 36000}
THOROUGH = {'runs': 400000, 'secs': 780}
RULE = ('seeded histories of changes (add, remove, override, layers loaded whose machine and distribution files appear over time, failing loads) on two or three databases read from '
        'simulated files or dictionaries, the files being missing, unreadable, torn at any byte, not text or failing while being read; every lookup is compared with a flat '
        'map from path to value that is folded over the history. Non-trivial: at least two changes were applied, or a file fault fired.')
ASSUMPTIONS = ['changes have the shape of the database (lists over lists, dictionaries over dictionaries); existing single values are not added to']
ACC = {'FunctionsKnown': 'functions/known', 'FunctionsOrder': 'functions/order', 'MirrorsKnown': 'replacements/mirrors',
       'VariablesKnown': 'variables/known', 'DistrosKnown': 'replacements/distros', 'MachinesKnown': 'replacements/machines',
       'ImagesClasses': 'images/known-classes', 'ImagesVariables': 'images/known-variables', 'SetsBase': 'sets/base',
       'ClassIgnore': 'ignore/classes', 'IncludeIgnore': 'ignore/include'}
LEAF = ['functions/known', 'functions/order', 'replacements/distros', 'replacements/machines', 'images/known-classes', 'images/known-variables',
        'variables/known', 'ignore/classes', 'l1', 'd/l2', 'd/e/l3', 'd/e/f/l4']
SCAL = ['replacements/mirrors/${M1}', 'replacements/mirrors/${M2}', 'sets/base/V1', 'sets/base/V2', 's1', 'd/s2', 'd/e/s3']
VALS = ['a', 'b', 'c', 'do_x', 'qemux86', 'zz', 'é', '']
LAYERS = ['/sim/l1', '/sim/l2', '/sim/l[12]', '/sim/meta-*']


def nest(pairs):
    res = {}
    for p, v in pairs:
        d = res
        ks = p.split('/')
        for k in ks[:-1]:
            d = d.setdefault(k, {})
        d[ks[-1]] = v
    return res


def gen_dict(rng, n=(1, 2, 3, 6)):
    pairs = {}
    for _ in range(rng.choice(n)):
        if rng.random() < 0.65:
            pairs[rng.choice(LEAF)] = [rng.choice(VALS) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        else:
            pairs[rng.choice(SCAL)] = rng.choice(VALS + [1, 2, True, None])
    if rng.random() < 0.2:
        # nothing to change below a node
        p = rng.choice(['d', 'd/e', 'd/e/f', 'functions', 'replacements', 'replacements/mirrors', 'sets', 'sets/base', 'd/n', 'n/m'])
        if not any(k.startswith(p + '/') for k in pairs):
            pairs[p] = {}
    return nest(sorted(pairs.items(), key=lambda x: rng.random()))


def gen(rng, tier):
    dbs = []
    for i in range(rng.choice([1, 2, 2, 3])):
        src = rng.choice(['file', 'file', 'dict', 'default'])
        d = {'src': src, 'data': gen_dict(rng, (0, 2, 5, 9))}
        if src == 'file':
            d['indent'] = rng.choice([None, 1, 4])
            d['ascii'] = rng.random() < 0.5
            d['fault'] = rng.choice([None, None, 'EIO', 'EACCES', 'ENOENT', 'EMFILE', 'EISDIR', 'read:EIO', 'read:ESTALE', 'TORN', 'TORN', 'BYTES', 'INTR', 'NOMEM', 'OTHER'])
            d['at'] = rng.randrange(10000)
        dbs.append(d)
    ops = []
    for _ in range(rng.choice([1, 3, 6, 12])):
        r = rng.random()
        i = rng.randrange(len(dbs))
        if r < 0.65:
            ops.append([rng.choice(['AddConstants', 'AddConstants', 'RemoveConstants', 'OverrideConstants']), i, gen_dict(rng), int(rng.random() < 0.3)])
        elif r < 0.75:
            ops.append(['conf', rng.choice(LAYERS), rng.choice(['machine', 'distro']), rng.choice(['m1', 'm1-x', 'm2', 'a.b', 'qemux86', 'zz'])])
        elif r < 0.9:
            ops.append(['load', rng.choice(LAYERS), rng.choice([None, None, None, 'EIO']), rng.choice(['bb', 'bb', 'inc', 'conf', 'bbappend', 'bbclass'])])
        else:
            ops.append(['look', i, rng.choice(LEAF + SCAL + ['d', 'd/e', 'nope', 'd/nope/x', 'd/n', 'n', 'n/m', 'sets', 'replacements/mirrors', 'l1/x', 's1/x', 'functions', 'replacements/', '/functions/known', '/l1', '/d', 'functions//known', 'd//l2', '', '/', '//', ' l1', 'L1', 'd/e/', 'd/e/l3//'])])
    return {'dbs': dbs, 'ops': ops, 'chunk_seed': rng.randrange(1 << 30), 'dir_order': rng.choice(['sorted', 'reversed', str(rng.randrange(99))])}


class Model:
    """flat: path -> leaf; nodes: every dictionary that exists (in order of creation)"""

    def __init__(self, data):
        self.root = {}
        self.apply('AddConstants', data)

    @staticmethod
    def flat(d, pre=()):
        for k, v in d.items():
            if isinstance(v, dict):
                yield pre + (k,), {}
                yield from Model.flat(v, pre + (k,))
            else:
                yield pre + (k,), v

    def parent(self, p, make):
        d = self.root
        for k in p[:-1]:
            if k not in d:
                if not make:
                    return None
                d[k] = {}
            d = d[k]
            if not isinstance(d, dict):
                raise Invalid('shape')
        return d

    def apply(self, op, change):
        for p, v in list(self.flat(copy.deepcopy(change))):
            d = self.parent(p, op != 'RemoveConstants')
            if d is None:
                continue
            have = d.get(p[-1])
            known = p[-1] in d
            if isinstance(v, dict):
                if known and not isinstance(have, dict):
                    raise Invalid('shape')
                if not known and op != 'RemoveConstants':
                    d[p[-1]] = {}
                continue
            if known and (isinstance(have, dict) or isinstance(have, list) != isinstance(v, list)):
                raise Invalid('shape')
            if op == 'AddConstants':
                if known and not isinstance(v, list):
                    raise Invalid('adding to a single value')
                d[p[-1]] = (have + v) if known else v
            elif op == 'OverrideConstants':
                d[p[-1]] = v
            elif known and isinstance(v, list):
                d[p[-1]] = [x for x in have if not any(type(x) is type(y) and x == y for y in v)]
            elif known:
                del d[p[-1]]

    def get(self, path):
        d = self.root
        for k in path.rstrip('/').split('/'):
            if not isinstance(d, dict) or k not in d:
                return {}
            d = d[k]
        return d


def same(a, b):
    return plain(a) == plain(b)


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return (type(x).__name__, x)


def run(sc, ctx):
    w = ctx.world(chunk_seed=sc['chunk_seed'], dir_order=sc['dir_order'])
    lib = ctx.lib()
    C = lib.constants.Constants
    ctx.key = '%x' % h64(json.dumps(sc, sort_keys=True))
    dbs, models = [], []
    handed = []
    for n, d in enumerate(sc['dbs']):
        if d['src'] == 'dict':
            data = copy.deepcopy(d['data'])
            handed.append((data, copy.deepcopy(data)))
            dbs.append(C(data))
            models.append(Model(d['data']))
        elif d['src'] == 'default':
            with open(lib.constants.DEFAULT_DB, encoding='utf-8') as i:
                default = json.load(i)
            dbs.append(lib.CONSTANTS if n == 0 else C())
            models.append(Model(default))
        else:
            p = '/sim/const-%d.json' % n
            raw = json.dumps(d['data'], indent=d['indent'], ensure_ascii=d['ascii']).encode()
            f = d['fault']
            want = d['data']
            at = d['at'] * len(raw) // 10000
            if f == 'TORN':
                raw, want = raw[:at], {}
            elif f == 'BYTES':
                raw, want = raw[:at] + b'\xff\xfe' + raw[at:], {}
            elif f == 'OTHER':
                raw, want = b'{"a": [1,, 2]}', {}
            w.fs.write(p, raw)
            if f in ('EIO', 'EACCES', 'ENOENT', 'EMFILE', 'EISDIR'):
                w.arm([{'op': 'open', 'path': p, 'kind': f}])
                want = {}
            elif f in ('INTR', 'NOMEM'):
                w.arm([{'op': 'open', 'path': p, 'kind': f}])
            elif f and f.startswith('read:'):
                w.arm([{'op': 'read', 'path': p, 'kind': f[5:], 'offset': at}])
                want = {}
            if f:
                w.fired('const:' + f)
                ctx.nontrivial = True
            try:
                dbs.append(C(p))
            except (KeyboardInterrupt, MemoryError):
                if f not in ('INTR', 'NOMEM'):
                    raise
                dbs.append(C(p))        # asked again
            w.disarm()
            models.append(Model(want))
    master = Model(json.load(open(lib.constants.DEFAULT_DB, encoding='utf-8')))
    own = next((i for i, d in enumerate(dbs) if d is lib.CONSTANTS), None)
    if own is not None:
        models[own] = master
    confs = {}
    for la in LAYERS:
        w.fs.write(la + '/conf/layer.conf', '')
    changes = 0
    s = lib.Stash(quiet=True)
    for op in sc['ops']:
        if op[0] == 'look':
            a, b = dbs[op[1]].GetByPath(op[2]), models[op[1]].get(op[2])
            if not same(a, b):
                fail('lookup', 'database %d: %s is %s, expected %s' % (op[1], op[2], short(canon(a)), short(canon(b))))
            continue
        if op[0] == 'conf':
            w.fs.write('%s/conf/%s/%s.conf' % tuple(op[1:]), '')
            confs.setdefault((op[1], op[2]), set()).add(op[3])
            continue
        changes += 1
        if op[0] == 'load':
            path = '%s/recipes/x%d_1.%s' % (op[1], changes, op[3] if len(op) > 3 else 'bb')
            w.fs.write(path, 'A = "1"\n')
            if op[2]:
                w.arm([{'op': 'open', 'path': path, 'kind': op[2]}])
            try:
                s.AddFile(path)
            except OSError:
                if not op[2]:
                    raise
            else:
                for k in ('distro', 'machine'):
                    known = master.get('replacements/%ss' % k)
                    new = sorted(n for n in confs.get((op[1], k), ()) if n not in known)
                    now = lib.CONSTANTS.GetByPath('replacements/%ss' % k)
                    if isinstance(now, list) and sorted(map(str, now[len(known):])) == new:
                        new = now[len(known):]          # the order among the names of a layer is not specified
                    for n in new:
                        master.apply('AddConstants', {'replacements': {k + 's': [n]}})
            w.disarm()
            continue
        m = Model({})
        m.root = copy.deepcopy(models[op[1]].root)
        m.apply(op[0], op[2])       # raises Invalid where the outcome is not specified
        models[op[1]].root = m.root
        arg = copy.deepcopy(op[2])
        getattr(dbs[op[1]], op[0])(arg)
        if arg != op[2]:
            fail('argument', '%s changes the dictionary given to it: %s' % (op[0], short(arg)))
        handed.append((arg, copy.deepcopy(op[2])))
        if op[3]:                   # the caller goes on using its dictionary
            spoil(arg)
            handed.pop()
        check(dbs, models, op, sc)
    ctx.nontrivial |= changes >= 2
    for a, b in handed:
        if a != b:
            fail('argument', 'a dictionary given to the database earlier was changed to %s from %s' % (short(a), short(b)))
    check(dbs, models, ['end'], sc)
    if not same(lib.CONSTANTS.GetByPath('replacements'), master.get('replacements')):
        fail('content', 'process-wide constants: replacements %s, expected %s' % (
            short(canon(lib.CONSTANTS.GetByPath('replacements'))), short(canon(master.get('replacements')))))


def spoil(d):
    for v in list(d.values()):
        if isinstance(v, dict):
            spoil(v)
        elif isinstance(v, list):
            v.append('spoiled')
    d['spoiled'] = ['spoiled']


def check(dbs, models, op, sc):
    for i, (d, m) in enumerate(zip(dbs, models)):
        for path in ['d', 'l1', 's1', 'functions', 'replacements', 'sets', 'images', 'variables', 'ignore']:
            a, b = d.GetByPath(path), m.get(path)
            if not same(a, b):
                fail('content', 'after %s, database %d: %s is %s, expected %s' % (short(op), i, path, short(canon(a)), short(canon(b))))
        for acc, path in ACC.items():
            a, b = getattr(d, acc), m.get(path)
            if not same(a, b):
                fail('accessor', '%s of database %d is %s, expected %s' % (acc, i, short(canon(a)), short(canon(b))))
