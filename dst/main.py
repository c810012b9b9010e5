"""Runner:  python -m dst check C05 | replay FILE | selfcheck C05 | list"""
import importlib
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
REAL = ['oelint_parser (all modules, imported fresh from the working tree for every run)',
        'the regex engine', 'CPython file decoding (io.TextIOWrapper/BufferedReader)']
STUB = ['file system below /sim (in memory)', 'regex timeout clock', 'stdout/stderr sinks',
        'thread scheduler (baton passing; real threads)', 'identity hash of items (seeded)']


def env(hashseed='0'):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE,
             PYTHONNOUSERSITE='1')
    for k in ('PYTHONSTARTUP', 'PYTHONWARNINGS', 'PYTHONUTF8', 'PYTHONIOENCODING'):
        e.pop(k, None)
    return e


def known():
    """-> {finding id: text} of open findings in known_findings.txt"""
    res = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('open: '):
                    d = dict(x.split('=', 1) for x in line[6:].split(' ', 2)[:2])
                    res[d['id']] = (d['property'], line[6:].split(' ', 2)[2])
    return res


def write_replay(pid, seed, index, scenario, result, note, before=None):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%d-run%s.json' % (pid, seed, index))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'run': index, 'violation': {
            'kind': result['kind'], 'message': result['message'], 'detail': result.get('detail')},
            'before': before, 'digest': result['digest'], 'minimised': note, 'scenario': scenario}, f, indent=1)
    return path


def check(pid, tier, seed):
    t0 = time.monotonic()
    sys.path.insert(0, HERE)
    cfg = props_config()[pid]
    runs = cfg[tier]['runs']
    deadline = cfg[tier].get('secs', 0)
    nw = min(8, os.cpu_count() or 1)
    if os.environ.get('DST_WORKERS'):
        nw = int(os.environ['DST_WORKERS'])
    nw = max(1, min(nw, runs))
    procs, outs = [], [[] for _ in range(nw)]
    stop = threading.Event()

    def pump(i, p):
        for line in p.stdout:
            try:
                o = json.loads(line)
            except ValueError:
                continue
            outs[i].append(o)
            if o['t'] in ('violation', 'hang'):
                stop.set()
    errs = []
    ths = []
    import tempfile
    for i in range(nw):
        ef = tempfile.TemporaryFile()
        cmd = [PY, '-B', '-m', 'dst.worker', '--prop', pid, '--seed', str(seed), '--tier', tier,
               '--start', str(i), '--stride', str(nw), '--count', str(runs),
               '--deadline', str(deadline)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=ef, env=env(), cwd=HERE, text=True)
        procs.append(p)
        errs.append(ef)
        th = threading.Thread(target=pump, args=(i, p), daemon=True)
        th.start()
        ths.append(th)
    grace = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if stop.is_set():
            grace = grace or time.monotonic()
            if time.monotonic() - grace > 1.0:
                for p in procs:
                    if p.poll() is None:
                        p.kill()
    for th in ths:
        th.join(5)
    violations, hangs, dones = [], [], []
    for o in outs:
        for x in o:
            {'violation': violations, 'hang': hangs, 'done': dones}[x['t']].append(x)
    code = 0
    harness_err = None
    if not violations and not hangs and len(dones) < nw:
        msgs = []
        for p, ef in zip(procs, errs):
            ef.seek(0)
            m = ef.read().decode('utf-8', 'replace')[-2000:]
            if m:
                msgs.append('worker exit %s: %s' % (p.returncode, m))
        harness_err = 'a worker ended without a result\n' + '\n'.join(msgs[:2])
    # -- known-finding probes ---------------------------------------------------
    kf = known()
    probe_res = []
    nprobe = 0
    if not violations and not hangs and not harness_err and cfg.get('probes'):
        out = one_shot('probes', pid, {})
        if out is None:
            harness_err = 'probe process failed'
        else:
            for name, r in out:
                nprobe += 1
                if r['ok']:
                    continue
                fid = '%s/%s/%s' % (pid, name, r['kind'])
                hit = [k for k, (p, _) in kf.items() if p == pid and k == fid]
                if hit:
                    print('KNOWN-FINDING: property=%s %s' % (pid, kf[hit[0]][1]))
                    probe_res.append(fid)
                else:
                    violations.append({'index': 'probe-' + name, 'scenario': {'probe': name}, 'result': r})
    before = []
    if violations:
        v = min(violations, key=lambda x: str(x['index']).rjust(12))
        r = v['result']
        if r.get('harness'):
            print('ERROR: cannot load the library\n%s' % r.get('detail'))
            return 2
        sc, note = v['scenario'], 'not minimised'
        if 'probe' not in sc:
            m = one_shot('shrink', pid, {'scenario': sc, 'kind': r['kind'], 'secs': 15})
            if m and m['result'].get('ok') is None:
                # state of the process that outlives a run: execute the runs before, as well
                m = one_shot('history', pid, {'scenario': sc, 'kind': r['kind'], 'index': v['index'], 'stride': nw, 'seed': seed, 'tier': tier}, timeout=600)
                if m:
                    before, r, note = m['before'], m['result'], 'not minimised, runs %s before it in the same process matter' % m['before']
            elif m:
                sc, r, note = m['scenario'], m['result'], '%d executions' % m['execs']
        path = write_replay(pid, seed, v['index'], sc, r, note, before and [tier, before])
        print('violation: %s: %s' % (r['kind'], r['message']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        code = 1
    elif hangs:
        v = min(hangs, key=lambda x: x['index'])
        m = one_shot('budget', pid, {'scenario': v['scenario'], 'index': v['index'], 'seed': seed, 'tier': tier},
                     timeout=400)
        if m and not m['result']['ok']:
            r = m['result']
            path = write_replay(pid, seed, v['index'], m['scenario'], r, 'not minimised')
            print('violation: does not terminate: %s' % r['message'])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            code = 1
        else:
            harness_err = 'run %s made no progress for two minutes of real time' % v['index']
    agg = {'runs': 0, 'nontrivial': 0, 'faults': {}, 'sim_s': 0.0, 'short_reads': 0,
           'regex_ops': 0, 'opens': 0, 'extra': {}, 'invalid': 0}
    keys, scheds, samples = set(), set(), []
    for d in dones:
        for k, v in d['agg'].items():
            if isinstance(v, dict):
                for k2, v2 in v.items():
                    agg[k][k2] = agg[k].get(k2, 0) + v2
            else:
                agg[k] += v
        keys.update(d['keys'])
        scheds.update(d['scheds'])
        samples += d['samples']
    wall = time.monotonic() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 3),
        'violations': 1 if code == 1 else 0,
        'coverage': {
            'evaluations': agg['runs'] + nprobe, 'distinct_nontrivial': len(keys), 'rule': cfg['rule'],
            'samples': samples[:2],
            'simulated_runs_per_hour': int(agg['runs'] / max(wall, 1e-9) * 3600),
            'seeds_per_hour': int(agg['runs'] / max(wall, 1e-9) * 3600),
            'simulated_seconds': round(agg['sim_s'], 3),
            'faults_injected': agg['faults'],
            'short_reads': agg['short_reads'], 'regex_operations': agg['regex_ops'],
            'simulated_opens': agg['opens'],
            'distinct_interleavings': len(scheds),
            'distinct_states_measure': 'distinct_nontrivial counts distinct digests of the complete '
            'event log of a run (file-system, regex, clock, output events and faults in order)',
            'scenarios_outside_property': agg['invalid'],
            'other_counts': agg['extra'], 'known_findings_reproduced': probe_res,
            'workers': nw, 'completed_all_planned_runs': all(d['complete'] for d in dones),
            'ran_real': REAL, 'ran_stub': STUB,
        },
        'assumptions': cfg.get('assumptions', []) + [
            'single-process CPython 3.12; faults enter only through the seams listed in DESIGN.md'],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if harness_err:
        print('ERROR: ' + harness_err)
        return 2
    if code == 0:
        print('%s: held on %d simulated runs (%d distinct non-trivial), faults %s, %.1fs'
              % (pid, agg['runs'], len(keys), agg['faults'], wall))
    return code


def props_config():
    with open(os.path.join(HERE, 'dst', 'config.json')) as f:
        return json.load(f)


def one_shot(what, pid, payload, timeout=120):
    p = subprocess.Popen([PY, '-B', '-m', 'dst.oneshot', what, pid], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, env=env(), cwd=HERE, text=True)
    try:
        out, _ = p.communicate(json.dumps(payload), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    try:
        return json.loads(out.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return None


def replay(path):
    with open(path) as f:
        rp = json.load(f)
    out = one_shot('exec', rp['property'], {'scenario': rp['scenario'], 'seed': rp['seed'], 'before': rp.get('before')}, timeout=600)
    if out is None:
        print('ERROR: replay failed to run')
        return 2
    r = out['result']
    if r['ok']:
        print('replay: the property holds on this scenario')
        return 0
    same = r['kind'] == rp['violation']['kind'] and r['digest'] == rp['digest']
    print('violation: %s: %s' % (r['kind'], r['message']))
    print('replay: %s' % ('identical execution (digest %s)' % r['digest'] if same
                          else 'differs from the recorded execution'))
    print('VIOLATION property=%s replay=%s' % (rp['property'], path))
    return 1


def selfcheck(pid, n=40):
    """Same seed, separate processes: the event digests must agree."""
    a = one_shot('digests', pid, {'n': n, 'seed': 1}, timeout=600)
    b = one_shot('digests', pid, {'n': n, 'seed': 1, 'pad': 1}, timeout=600)
    ok = a is not None and a == b
    print('%s: %s (%d runs executed twice in separate processes)' % (pid, 'deterministic' if ok else 'NOT DETERMINISTIC', n))
    if not ok and a and b:
        for x, y in zip(a, b):
            if x != y:
                print(x, y)
                break
    return 0 if ok else 2


def main():
    cmd = sys.argv[1]
    if cmd == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in sys.argv:
            tier = sys.argv[sys.argv.index('--tier') + 1]
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        sys.exit(check(sys.argv[2], tier, seed))
    if cmd == 'replay':
        sys.exit(replay(sys.argv[2]))
    if cmd == 'selfcheck':
        ids = sys.argv[2:] or sorted(props_config())
        sys.exit(max(selfcheck(i) for i in ids))
    if cmd == 'config':
        cfg = {}
        sys.path.insert(0, HERE)
        for f in sorted(os.listdir(os.path.join(HERE, 'dst', 'props'))):
            if f.startswith('c') and f.endswith('.py'):
                m = importlib.import_module('dst.props.' + f[:-3])
                cfg[m.ID] = {'quick': m.QUICK, 'thorough': m.THOROUGH, 'rule': m.RULE,
                             'probes': bool(getattr(m, 'PROBES', None)),
                             'assumptions': getattr(m, 'ASSUMPTIONS', [])}
        with open(os.path.join(HERE, 'dst', 'config.json'), 'w') as o:
            json.dump(cfg, o, indent=1, sort_keys=True)
        return
    sys.exit('unknown command')


if __name__ == '__main__':
    main()
