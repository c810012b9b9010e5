"""A second interpreter with another hash seed that executes scenarios on request.

Protocol: one JSON document per line on stdin, one per line on stdout.
"""
import importlib
import json
import os
import subprocess
import sys


class Helper:
    pool = {}

    def __init__(self, prop, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, '-B', '-m', 'dst.persona', prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, cwd=here, text=True)

    @classmethod
    def ask(cls, prop, hashseed, payload):
        h = cls.pool.get((prop, hashseed))
        if h is None:
            h = cls.pool[(prop, hashseed)] = cls(prop, hashseed)
        h.p.stdin.write(json.dumps(payload) + '\n')
        h.p.stdin.flush()
        line = h.p.stdout.readline()
        if not line:
            raise RuntimeError('helper process ended')
        return json.loads(line)


def main():
    from . import seams
    out = os.fdopen(os.dup(1), 'w')
    seams.install()
    prop = importlib.import_module('dst.props.' + sys.argv[1])
    for line in sys.stdin:
        payload = json.loads(line)
        try:
            res = prop.remote(payload)
        except Exception as e:  # noqa
            res = {'error': '%s: %s' % (type(e).__name__, e)}
        seams.set_world(None)
        out.write(json.dumps(res) + '\n')
        out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
