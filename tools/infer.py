'''Infer the loop invariants of every contract from scratch and write vp/loop_invariants.json.

The file only saves time: it restricts the candidates the verifier starts from. Every invariant in it is checked again
on every run, and where it does not suffice (the code has changed) the verifier infers from all candidates again.
'''
import json
import multiprocessing as mp
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import proofs as P, contracts as C, deduce as D, lists      # noqa: E402


def one(job):
    name, st = job
    r = P.verify(C.REGISTRY[name], time.time() + 1800, only=lambda x: x == st)
    bad = [x for x in r['results'] if x[1] != 'proved']
    loops = r['loops']
    if per_start(name):
        # worth it?
        h = P.verify(C.REGISTRY[name], time.time() + r['secs'], only=lambda x: x == st, hints=merged({}, loops))
        if not D.good(h) or h['secs'] > r['secs']:
            loops = {}
    return name, st, r['status'], r.get('reason'), len(bad), loops, r['secs']


def per_start(name):
    return D.CHUNK.get(name) == 1 and C.REGISTRY[name].heap


def merged(out, loops):
    for lid, d in loops.items():
        o = out.setdefault(lid, dict(labels=[], kinds={}, lists=[], measures=[], glists=[], heads=[]))
        for k in ('labels', 'lists', 'measures', 'glists', 'heads'):
            o[k] = sorted(set(o[k]) | set(d[k]))
        for v, ks in d['kinds'].items():
            o['kinds'][v] = sorted(set(o['kinds'].get(v, [])) | set(ks))
    return out


def main():
    names = sys.argv[1:] or [n for n, c in C.REGISTRY.items() if c.sym]
    jobs = []
    for n in names:
        jobs += [(n, list(s)) for s, _ in P.starts_of(C.REGISTRY[n])]
    path = os.path.join(os.path.dirname(P.__file__), 'loop_invariants.json')
    out = json.load(open(path)) if os.path.exists(path) and sys.argv[1:] else {}
    for n in names:
        out.pop(n, None)
    with mp.Pool(8) as pool:
        for name, st, status, reason, bad, loops, secs in pool.imap_unordered(one, jobs, chunksize=1):
            if status != 'done' or bad:
                print(name, st, status, reason, bad, round(secs, 1))
            o = out.setdefault(name, {})
            if per_start(name):
                o = o.setdefault('starts', {}).setdefault(repr(st), {})
            merged(o, loops)
    json.dump(out, open(path, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    main()
