"""Minimise a failing scenario: drop list elements (files, blocks, operations,
faults, schedule switches), then simplify numbers, while the same kind of violation
still occurs."""
import copy
import time


def _lists(node, path=()):
    if isinstance(node, list):
        yield path
        for i, x in enumerate(node):
            yield from _lists(x, path + (i,))
    elif isinstance(node, dict):
        for k, x in node.items():
            if k.startswith('!'):
                continue            # marked atomic by the generator
            yield from _lists(x, path + (k,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def shrink(scenario, fails, secs=20.0, max_exec=1500):
    best = copy.deepcopy(scenario)
    t0 = time.monotonic()
    n = [0]

    def attempt(c):
        n[0] += 1
        return fails(c)

    def left():
        return time.monotonic() - t0 < secs and n[0] < max_exec

    changed = True
    while changed and left():
        changed = False
        paths = sorted(_lists(best), key=len)
        for path in paths:
            try:
                cur = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list) or not cur:
                continue
            size = len(cur)
            while size >= 1 and left():
                i = 0
                while left():
                    cur = _get(best, path)
                    if i >= len(cur):
                        break
                    cand = copy.deepcopy(best)
                    lst = _get(cand, path)
                    del lst[i:i + size]
                    if attempt(cand):
                        best = cand
                        changed = True
                    else:
                        i += size
                size //= 2
    return best, n[0]
