'''Reduce the loop invariants in vp/loop_invariants.json to sets that still suffice, per argument choice of a contract.

Only saves time (see tools/infer.py). Usage: minimise.py CONTRACT; writes the result under "modes" of that contract.
'''
import copy
import json
import multiprocessing as mp
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import proofs as P, contracts as C, deduce as D      # noqa: E402


def one(job):
    name, mode, starts, hints = job
    con = C.REGISTRY[name]
    limit = [900]

    def test(h):
        t = time.time()
        for st in starts:
            r = P.verify(con, time.time() + limit[0], only=lambda x: tuple(x) == tuple(st), hints=h)
            if not D.good(r):
                return None, None
        return time.time() - t, r['loops']
    best = copy.deepcopy(hints)
    secs, used = test(best)
    if secs is None:
        return name, mode, None, 0
    best = {l: dict(h, labels=used[l]['labels']) for l, h in best.items() if l in used}
    items = [(l, x) for l, h in best.items() for x in h['labels']]
    n0, t0 = len(items), secs
    size = max(1, len(items) // 6)
    while size >= 1:
        i = 0
        while i < len(items):
            rest = items[:i] + items[i+size:]
            h = {l: dict(d, labels=[x for l2, x in rest if l2 == l]) for l, d in best.items()}
            limit[0] = secs * 2 + 5
            s, _ = test(h)
            if s is not None and s < secs * 1.3:
                items, secs = rest, s
            else:
                i += size
        print(mode, 'chunks of', size, n0, '->', len(items), round(t0, 1), '->', round(secs, 1), flush=True)
        if size == 1:
            break
        size = max(1, size // 3)
    return name, mode, {l: dict(d, labels=sorted(x for l2, x in items if l2 == l)) for l, d in best.items()}, secs


def main():
    name = sys.argv[1]
    path = D.HINTS
    hints = json.load(open(path))[name]
    hints = {l: h for l, h in hints.items() if l != 'modes'}
    modes = {}
    for t, m in P.starts_of(C.REGISTRY[name]):
        modes.setdefault(m, []).append(t)
    jobs = [(name, m, [ts[-1]], hints) for m, ts in modes.items()]
    with mp.Pool(6) as pool:
        for n, m, h, secs in pool.imap_unordered(one, jobs, chunksize=1):
            if h:
                out = json.load(open(path))
                out[n].setdefault('modes', {})[repr(m)] = h
                json.dump(out, open(path, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    main()
