"""Executes runs of one property; JSON lines on stdout."""
import argparse
import importlib
import json
import os
import signal
import sys
import time

from . import seams


class _Hang(BaseException):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--seed', type=int, required=True)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--stride', type=int, default=1)
    ap.add_argument('--count', type=int, default=0)
    ap.add_argument('--hang', type=float, default=120)
    ap.add_argument('--deadline', type=float, default=0)
    a = ap.parse_args()
    sys.setrecursionlimit(1000)
    seams.install()
    from . import harness
    prop = importlib.import_module('dst.props.' + a.prop.lower())
    out = os.fdopen(os.dup(1), 'w')

    def emit(o):
        out.write(json.dumps(o) + '\n')
        out.flush()

    def on_alarm(*_):
        raise _Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    agg = {'runs': 0, 'nontrivial': 0, 'faults': {}, 'sim_s': 0.0, 'short_reads': 0, 'regex_ops': 0,
           'opens': 0, 'extra': {}, 'invalid': 0}
    keys, sched_keys = set(), set()
    samples = []
    t0 = time.monotonic()
    if hasattr(prop, 'setup'):
        prop.setup()
    done = True
    for i in range(a.start, a.count, a.stride):
        if a.deadline and time.monotonic() - t0 > a.deadline:
            done = False
            break
        sc = None
        try:
            signal.setitimer(signal.ITIMER_REAL, a.hang)
            sc = harness.generate(prop, a.seed, i, a.tier)
            r = harness.execute(prop, sc)
            signal.setitimer(signal.ITIMER_REAL, 0)
        except _Hang:
            signal.setitimer(signal.ITIMER_REAL, 0)
            seams.set_world(None)
            emit({'t': 'hang', 'index': i, 'scenario': sc})
            break
        agg['runs'] += 1
        agg['invalid'] += 'invalid' in r
        st = r['stats']
        for k, v in st['faults'].items():
            agg['faults'][k] = agg['faults'].get(k, 0) + v
        for k, v in st['extra'].items():
            agg['extra'][k] = agg['extra'].get(k, 0) + v
        for k in ('sim_s', 'short_reads', 'regex_ops', 'opens'):
            agg[k] += st[k]
        if r['nontrivial'] and r['key'] not in keys:
            keys.add(r['key'])
            if len(samples) < 2 and a.start == 0:
                samples.append({'run': i, 'scenario': sc, 'digest': r['digest'],
                                'faults_fired': st['faults']})
        agg['nontrivial'] += r['nontrivial']
        for s in r.get('schedules', ()):
            sched_keys.add(s)
        if not r['ok']:
            if 'plan' in r:
                # from here on the schedule is an explicit list of switches
                sc = dict(sc, plan=r.pop('plan'))
            emit({'t': 'violation', 'index': i, 'scenario': sc, 'result': r})
            if r.get('harness'):
                break
            break
    emit({'t': 'done', 'agg': agg, 'keys': sorted(keys), 'scheds': sorted(sched_keys),
          'samples': samples, 'complete': done, 'secs': time.monotonic() - t0})
    out.close()
    os._exit(0)


if __name__ == '__main__':
    main()
