"""Helper process: executes, minimises or budgets a single scenario (stdin JSON)."""
import importlib
import json
import os
import sys

from . import seams


def main():
    what, pid = sys.argv[1], sys.argv[2]
    payload = json.loads(sys.stdin.read())
    seams.install()
    from . import harness, shrink, sched
    prop = importlib.import_module('dst.props.' + pid.lower())
    if hasattr(prop, 'setup'):
        prop.setup()
    real = seams._real['stdout']

    def run(sc):
        if 'probe' in sc:
            return harness.execute(_Probe(prop), dict(prop.PROBES)[sc['probe']])
        return harness.execute(prop, sc)

    def again(indices, tier):
        for i in indices:
            harness.execute(prop, harness.generate(prop, payload['seed'], i, tier))

    if what == 'exec':
        if payload.get('before'):
            again(payload['before'][1], payload['before'][0])
        out = {'result': run(payload['scenario'])}
    elif what == 'probes':
        out = [[n, run({'probe': n})] for n, _ in prop.PROBES]
    elif what == 'shrink':
        kind = payload['kind']

        def fails(sc):
            r = harness.execute(prop, sc)
            return not r['ok'] and r['kind'] == kind
        base = run(payload['scenario'])
        if base['ok'] or base['kind'] != kind:
            out = {'scenario': payload['scenario'], 'result': base if not base['ok'] else
                   {'kind': kind, 'message': 'did not reproduce', 'digest': base['digest']}, 'execs': 1}
        else:
            best, n = shrink.shrink(payload['scenario'], fails, secs=payload.get('secs', 15))
            out = {'scenario': best, 'result': run(best), 'execs': n}
    elif what == 'history':
        # all runs of the worker before this one; fewer do if the state they leave is a simple one
        i, n = payload['index'], payload['stride']
        runs = list(range(i % n, i, n))
        out = None
        for k in sorted({1, 4, 16, len(runs)}):
            pid_ = os.fork()
            if pid_ == 0:
                again(runs[-k:], payload['tier'])
                r = run(payload['scenario'])
                if not r['ok'] and r['kind'] == payload['kind']:
                    real.write('\n' + json.dumps({'before': runs[-k:], 'result': r}) + '\n')
                    real.flush()
                    os._exit(7)
                os._exit(0)
            if os.waitstatus_to_exitcode(os.waitpid(pid_, 0)[1]) == 7:
                os._exit(0)
    elif what == 'budget':
        sc = payload['scenario']
        if sc is None:
            sc = harness.generate(prop, payload['seed'], payload['index'], payload['tier'])
        seams.Lib()
        with sched.Budget(100_000_000):
            r = run(sc)
        out = {'scenario': sc, 'result': r}
    elif what == 'digests':
        keep = [object() for _ in range(1000 * payload.get('pad', 0))]
        out = []
        for i in range(payload['n']):
            sc = harness.generate(prop, payload['seed'], i, 'quick')
            r = run(sc)
            out.append([i, r['digest'], r['ok'], r.get('kind'), harness.h64(json.dumps(sc, sort_keys=True))])
        del keep
    real.write('\n' + json.dumps(out) + '\n')
    real.flush()
    os._exit(0)


class _Probe:
    def __init__(self, prop):
        self.run = getattr(prop, 'run_probe', None) or prop.run


if __name__ == '__main__':
    main()
