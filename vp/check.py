'''Decide one property: python3-vt -m vp.check <id> [quick|thorough]

1. The proof: every obligation of the property is generated from /repo's current source and given to the solver
   (vp.proofs).
2. The falsifier: the same contracts, and the oracles of what is not proved, run on the real code under CPython over
   small Bibles and the default one (vp.concrete, vp.oracles). It supplies the failing input when an obligation fails
   and is the bounded stand-in for what is outside the verifier's reach.

Exit 0: the property held. Exit 1: VIOLATION lines. Exit 2: error of the check itself.
'''
import json
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
CONFIGS = ['A', 'B', 'C', 'D', 'E', 'default']
CHUNKS = {'quick': 8, 'thorough': 24}


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def concrete_tasks(prop, tier):
    from . import contracts as C, oracles as O
    out = [('contract', n) for n, c in C.REGISTRY.items() if prop in c.props and not c.heap]
    for n in O.ORACLES.get(prop, {}):
        k = CHUNKS[tier]
        out += [('oracle', n, i, k) for i in range(k)]
    return out


def run_concrete(args):
    prop, task, tier, seed = args
    from . import concrete as K, contracts as C, oracles as O
    K.init()
    t0 = time.time()
    st = {'evaluations': 0}
    distinct, samples, bad = 0, [], []
    if task[0] == 'contract':
        con = C.REGISTRY[task[1]]
        lim, big = (2500, 100) if tier == 'quick' else (40000, 1500)
        if con.few:
            lim, big = (con.few, 20) if tier == 'quick' else (con.few * 10, 200)
        bad = K.run_contract(con, CONFIGS, seed, lim, big, st)
        for b in bad:
            b['property'] = prop
        distinct = st['evaluations']
    else:
        _, name, i, k = task
        orc = O.ORACLES[prop][name]
        seen = set()
        for j, case in enumerate(orc.gen(random.Random(f'{seed}/{prop}/{name}'), tier)):
            if j % k != i:
                continue
            key = json.dumps(case, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            st['evaluations'] += 1
            try:
                msg = orc.check(case)
            except Exception as e:
                msg = f'the result cannot be evaluated: {e!r}'
            if len(samples) < 2:
                samples.append({'oracle': name, 'case': case})
            if msg:
                bad.append(dict(kind='oracle', property=prop, oracle=name, case=case, message=msg))
                break
        distinct = len(seen)
    return task, st['evaluations'], distinct, samples, bad, time.time() - t0


GRACE = 60      # seconds


def _worker(q_in, q_out):
    _limits()
    while True:
        item = q_in.get()
        if item is None:
            return
        i, fn, args = item
        try:
            q_out.put((i, True, fn(args)))
        except BaseException:
            q_out.put((i, False, traceback.format_exc()))


def parallel(jobs, workers=8):
    '''Run [(fn, args)] in worker processes; yields (index, ok, result). A dead worker is an error.'''
    ctx = mp.get_context('fork')
    q_in, q_out = ctx.Queue(), ctx.Queue()
    n = min(workers, max(1, len(jobs)))
    ps = [ctx.Process(target=_worker, args=(q_in, q_out), daemon=True) for _ in range(n)]
    for i, (fn, args) in enumerate(jobs):
        q_in.put((i, fn, args))
    for _ in ps:
        q_in.put(None)
    for p in ps:
        p.start()
    left = len(jobs)
    import queue
    try:
        while left:
            try:
                r = q_out.get(timeout=2)
            except queue.Empty:
                if all(not p.is_alive() for p in ps):
                    raise RuntimeError('worker processes died')
                yield None
                continue
            left -= 1
            yield r
    finally:
        for p in ps:
            p.terminate()


def known_findings(prop):
    path = os.path.join(HERE, 'known-findings.txt')
    out = []
    with open(path) as fh:
        for line in fh:
            line = line.strip()
            if line.startswith(f'known: property={prop} '):
                out.append(line[len('known: '):])
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from . import concrete as K
    K.init()
    from . import deduce as D
    mine = D.own(prop)
    deadline = t0 + D.LIMIT[tier]
    verdict = D.Verdict(prop)
    todo = [(run_concrete, (prop, t, tier, seed)) for t in concrete_tasks(prop, tier)]
    todo += [(D.run, j) for n in mine if verdict.ask(n) is None for j in D.jobs(n, deadline)]

    evals = distinct = 0
    samples, bad, per = [], [], {}
    errors = []
    while todo:
        pending, found = set(range(len(todo))), None
        for res in parallel(todo):
            if bad and found is None:
                found = time.time()
            if found and time.time() > found + GRACE and all(todo[i][0] is D.run for i in pending):
                # a failing input is known: no need to wait for the rest of the proofs
                for i in pending:
                    verdict.add(D.broken(todo[i][1], 'given up, since a failing input was found'))
                break
            if res is None:
                continue
            i, ok, r = res
            pending.discard(i)
            if not ok and todo[i][0] is D.run:
                # an error of the verifier decides nothing; the falsifier may still find a failing input
                print(r, file=sys.stderr)
                verdict.add(D.broken(todo[i][1], r))
            elif not ok:
                errors.append(r)
            elif todo[i][0] is D.run:
                verdict.add(r)
            else:
                task, ev, di, sa, ba, secs = r
                evals += ev
                distinct += di
                samples += sa
                bad += ba
                key = f'{task[0]} {task[1]}'
                per[key] = per.get(key, 0) + ev
        if errors and not bad:
            print(errors[0], file=sys.stderr)
            return 2
        if bad or not mine:
            break       # (the property is refuted on the real code)
        todo = [(D.run, j) for n, modes in verdict.needed().items() for j in D.jobs(n, deadline, modes=modes)]
        if not todo:
            todo = [(D.run, j) for n, wo in verdict.to_rerun(mine) for j in D.jobs(n, deadline, wo)]

    rdir = os.path.join(EVID, 'replays')
    os.makedirs(rdir, exist_ok=True)
    nviol = 0

    def violation(rec, suffix=''):
        nonlocal nviol
        nviol += 1
        path = os.path.join(rdir, f'{prop}-{nviol}.json')
        with open(path, 'w') as fh:
            json.dump(rec, fh, indent=1, default=str)
        what = rec.get('contract') or rec.get('oracle') or rec.get('obligation')
        print(f'{prop}: {what}: {rec.get("failed_clauses") or rec.get("message")}')
        print(f'VIOLATION property={prop} replay={path}{suffix}')

    summary = D.summary(verdict, mine, prop, tier) if mine else None
    failed = summary['failed'] if summary else []
    for b in bad[:5]:
        b['failed_obligations'] = [f['obligation'] for f in failed][:20]
        violation(b)
    if failed and not bad:
        shown = set()
        for f in sorted(failed, key=lambda f: f['replay'] is None):
            if f['unit'] in shown or len(shown) >= 5:
                continue
            if f['replay'] is None and shown:
                continue
            shown.add(f['unit'])
            rec = dict(f['replay'] or {})
            rec.update(property=prop, failed_obligations=[f['obligation']], verifier_output=f['verifier_output'])
            if f['replay'] is None:
                rec.update(kind='obligation', obligation=f['obligation'], message=f['message'])
            violation(rec, '' if f['replay'] else ' no-failing-input-found')
    for k in known_findings(prop):
        print(f'KNOWN-FINDING: {k}')

    level, coverage, assumptions = evidence(prop, tier, seed, summary, evals, distinct, samples, per)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if evals == 0:
        print('nothing was evaluated', file=sys.stderr)
        return 2
    if summary and not failed and summary['obligations'] == 0:
        print('no obligations were generated', file=sys.stderr)
        return 2
    if summary:
        print(f'{prop}: {summary["discharged"]}/{summary["obligations"]} obligations discharged, '
              f'{len(summary["undecided"])} undecided; {evals} concrete evaluations; {time.time()-t0:.1f} s')
        for u in summary['undecided']:
            print(f'{prop}: not decided by the verifier (bounded check only): {u}')
    else:
        print(f'{prop}: {evals} concrete evaluations; {time.time()-t0:.1f} s')
    return 1 if nviol else 0


def evidence(prop, tier, seed, summary, evals, distinct, samples, per):
    with open(os.path.join(HERE, 'MANIFEST.json')) as fh:
        man = json.load(fh)
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'exploration')
    cov = dict(evaluations=evals, distinct_nontrivial=distinct,
               rule='cases generated from VERIF_SEED over the small Bibles A-D and the default Bible; duplicates are not '
                    'evaluated twice; a case is non-trivial when it satisfies the precondition of its contract',
               samples=samples[:6] or [{'contracts': sorted(per)}], per_contract=per)
    assumptions = []
    if summary:
        cov.update(obligations=summary['obligations'], discharged=summary['discharged'],
                   checker_cmd=f'python3-vt -m vp.check {prop} {tier}', trusted_base=summary['trusted_base'],
                   proof=summary['detail'])
        assumptions = summary['assumptions']
    return level, cov, assumptions


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
