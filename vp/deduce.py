'''Which obligations decide a property, and what follows from their fate.

A unit is a contract (vp.contracts, discharged by vp.proofs.verify) or a special proof (vp.units). The units of a
property are those that state it, and, transitively, the contracts assumed for the functions they call: a caller is
checked against its callees' contracts, and these are checked too. If the contract of a callee fails which does not
itself state the property, the units that assumed it are verified again with the callee's real body.
'''
import json
import os
import time

from . import contracts as C, proofs as P, config, names, sorting, textloop, walk     # noqa: F401

# Contracts assumed at call sites that are discharged by special proofs
PROVED_BY = {'GroupedList.sort': ('GroupedList._split', 'GroupedList._merge_sublists', 'GroupedList._merge_sort and sort')}
HINTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'loop_invariants.json')
LIMIT = {'quick': 540, 'thorough': 1500}
CHUNK = {'BibleRange(range.str())': 8, 'BibleRangeList(list.str()) of two ranges': 1, 'BibleRange.split': 1, 'BibleRange.__init__(positional)': 16}
CHUNK.update({f'BibleRangeList.{n}': 1 for n in ('regroup', 'merge', 'intersection', 'difference_update', 'contains',
                                                 '__contains__', 'verse_0_to_1', 'verse_1_to_0')})


def hints():
    try:
        with open(HINTS) as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {}


def hints_for(name, start=None, mode=None):
    h = dict(hints().get(name) or {})
    modes, starts = h.pop('modes', {}), h.pop('starts', {})
    return starts.get(repr(start)) or modes.get(repr(mode)) or h


def own(prop):
    from . import units
    return [n for n, c in C.REGISTRY.items() if prop in c.props and c.sym] + \
        [n for n, u in units.UNITS.items() if prop in u.props]


def jobs(name, deadline, without=(), modes=None):
    if name in C.REGISTRY:
        k = CHUNK.get(name)
        if k is None:
            return [dict(unit=name, starts=None, without=list(without), deadline=deadline)]
        st = [(t, m) for t, m in P.starts_of(C.REGISTRY[name]) if modes is None or m in modes]
        return [dict(unit=name, starts=[t for t, _ in st[i:i+k]], mode=st[i][1] if k == 1 else None,
                     without=list(without), deadline=deadline) for i in range(0, len(st), k)]
    return [dict(unit=name, starts=None, without=list(without), deadline=deadline)]


def good(rep):
    return rep['status'] == 'done' and all(s == 'proved' for _, s, _ in rep['results']) \
        and not rep.get('termination_unproved')


def run(job):
    '''Discharge one job (in a worker process).'''
    from . import units
    name = job['unit']
    if name in units.UNITS:
        rep = units.UNITS[name].prove(job['deadline'])
        rep['unit'], rep['without'] = name, job['without']
        rep['counts'] = {}
        for _, s, _ in rep['results']:
            rep['counts'][s] = rep['counts'].get(s, 0) + 1
        rep['clauses'] = sorted({l for l, _, _ in rep['results']})
        rep.pop('learnt', None)
        del rep['results']
        return rep
    con = C.REGISTRY[name]
    only = None
    if job['starts'] is not None:
        st = [tuple(x) for x in job['starts']]
        only = lambda x: tuple(x) in st     # noqa: E731
    st = job['starts']
    h = hints_for(name, list(st[0]) if st and len(st) == 1 else None, job.get('mode'))
    rep = None
    if h and not job['without']:
        rep = P.verify(con, min(job['deadline'], time.time() + 200), only=only, hints=h)
        rep['invariants'] = 'given (vp/loop_invariants.json), checked'
    if rep is None or not good(rep):
        first = rep
        rep = P.verify(con, job['deadline'], without=job['without'], only=only)
        rep['invariants'] = 'inferred'
        if first is not None and not good(rep) and sum(s == 'proved' for _, s, _ in first['results']) > \
                sum(s == 'proved' for _, s, _ in rep['results']) and first['status'] == 'done':
            rep = first
    rep['unit'] = name
    rep['without'] = job['without']
    rep['failed'] = []
    for label, status, info in rep['results']:
        if status == 'refuted' and len(rep['failed']) < 12:
            rec = None
            if info and con.heap:
                rec = replay_list(info)
            elif info:
                from . import concrete as K
                rec = K.replay_model(con, info)
            if rec is None and any(f['clause'] == label and not f['replay'] for f in rep['failed']):
                continue
            rep['failed'].append(dict(clause=label, model=info, replay=rec))
    rep['counts'] = {}
    for _, s, _ in rep['results']:
        rep['counts'][s] = rep['counts'].get(s, 0) + 1
    rep['clauses'] = sorted({l for l, _, _ in rep['results']})
    del rep['results']
    return rep


def broken(job, text):
    '''The report of a job that ended with an error of the verifier.'''
    return dict(unit=job['unit'], without=job['without'], status='undecided', failed=[], counts={}, clauses=[], stubs=[],
                reason=('' if text.startswith('given up') else 'error of the verifier: ') +
                text.strip().splitlines()[-1][:200])


def replay_list(info):
    '''Run the operation of a counterexample on the real list code.'''
    if 'op' not in info or info['op'][0] is None:
        return None
    from . import concrete as K, oracles as O
    K.init()
    for kind in ('ranges', 'grouped'):
        case = dict(kind=kind, init=info['groups'], ops=[info['op']])
        try:
            msg = O.ORACLES['C11']['histories'].check(case)
        except Exception:
            continue
        if msg:
            return dict(kind='oracle', oracle='histories', case=case, message=msg)


class Verdict:
    def __init__(self, prop):
        self.prop = prop
        self.asked = {}         # unit -> the argument choices it was verified for; None: all of them
        self.reports = {}       # unit -> list of job reports
        self.rerun = {}         # unit -> reports with the bodies of failing callees

    def add(self, rep):
        d = self.rerun if rep.get('without') else self.reports
        d.setdefault(rep['unit'], []).append(rep)

    def ask(self, name, modes=None):
        '''The modes of a unit that were not asked for before; False if there are none.'''
        if name in self.asked and self.asked[name] is None:
            return False
        if modes is None or name not in CHUNK:
            self.asked[name] = None
            return None
        new = set(modes) - self.asked.setdefault(name, set())
        self.asked[name] |= new
        return new or False

    def needed(self):
        '''Contracts assumed but not verified yet: {unit: argument choices (None: all)}.'''
        used = {}
        for reps in list(self.reports.values()) + list(self.rerun.values()):
            for r in reps:
                for u in r.get('stubs', ()):
                    m = r.get('modes', {}).get(u)
                    if m is None:
                        used[u] = None
                    elif used.get(u, ()) is not None:
                        used.setdefault(u, set()).update(map(tuple, m))
        out = {}
        for u, m in sorted(used.items()):
            for w in PROVED_BY.get(u, (u,) if u in C.REGISTRY else ()):
                new = self.ask(w, None if u in PROVED_BY else m)
                if new is not False:
                    out[w] = new
        return out

    def failing(self):
        return {u for u, reps in self.reports.items() if any(r['failed'] for r in reps)}

    def to_rerun(self, mine):
        bad = self.failing() - set(mine)
        out = []
        if bad:
            for u in mine:
                if u in C.REGISTRY and u not in self.rerun and u not in self.failing():
                    used = set()
                    for r in self.reports.get(u, []):
                        used |= set(r.get('stubs', ()))
                    if self._reach(used) & bad:
                        out.append((u, sorted(self._wo(bad))))
        return out

    def _wo(self, bad):
        '''What must be executed for real: the failing contracts and those which assume them.'''
        out = set(bad)
        while True:
            more = {u for u, reps in self.reports.items() if u not in out
                    and any(set(r.get('stubs', ())) & out for r in reps)}
            if not more:
                return {('comparisons' if _is_comparison(u) else u) for u in out} | out
            out |= more

    def _reach(self, used):
        seen = set()
        todo = list(used)
        while todo:
            u = todo.pop()
            if u in seen:
                continue
            seen.add(u)
            for r in self.reports.get(u, []):
                todo += list(r.get('stubs', ()))
        return seen

    def failures(self, mine):
        '''The failed obligations that break this property: [(unit, failure, report)].'''
        out = []
        for u in mine:
            reps = self.rerun.get(u) or self.reports.get(u, [])
            for r in reps:
                for f in r['failed']:
                    out.append((u, f, r))
        return out

    def undecided(self, mine):
        out = []
        for u, reps in self.reports.items():
            reps = self.rerun.get(u) or reps
            for r in reps:
                if r['status'] != 'done':
                    out.append(f'{u}: {r.get("reason")}')
                elif r['counts'].get('unknown'):
                    out.append(f'{u}: {r["counts"]["unknown"]} obligations on which the solvers gave up')
                elif r.get('termination_unproved'):
                    out.append(f'{u}: termination of {", ".join(sorted(set(map(str, r["termination_unproved"]))))}')
        return sorted(set(out))

    def totals(self):
        n = d = q = paths = 0
        solver = wall = 0.0
        for reps in list(self.reports.values()) + list(self.rerun.values()):
            for r in reps:
                n += sum(r['counts'].values())
                d += r['counts'].get('proved', 0)
                # an undecided unit has at least one obligation that was not discharged
                if r['status'] != 'done' or r.get('termination_unproved'):
                    n += 1
                solver += r.get('solver_s', 0)
                wall += r.get('secs', 0)
                q += r.get('queries', 0)
                paths += r.get('paths', 0)
        return dict(obligations=n, discharged=d, queries=q, paths=paths, solver_s=round(solver, 1),
                    cpu_s=round(wall, 1))

    def detail(self, mine):
        out = []
        for u, reps in sorted(self.reports.items()):
            c = {}
            reached = {}
            loops = {}
            for r in reps:
                for k, v in r['counts'].items():
                    c[k] = c.get(k, 0) + v
                for k, v in r.get('reached', {}).items():
                    reached[k] = reached.get(k, 0) + v
                for l, d in r.get('loops', {}).items():
                    loops.setdefault(l, set()).update(d['labels'])
            out.append(dict(function=u, role='states the property' if u in mine else 'callee', obligations=c,
                            outcomes=reached, clauses=reps[0]['clauses'][:20],
                            loop_invariants={l: len(v) for l, v in loops.items()},
                            assumes=sorted({s for r in reps for s in r.get('stubs', ())})))
        return out


def _is_comparison(u):
    return u.split('.')[-1] in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__') and not u.startswith('BibleBook')


TRUSTED = ['CPython 3.12 executes the rewritten functions as it executes the originals (vp.transform lists what is rewritten)',
           'vp.symex: the stand-ins for books, verse counts, verse-0 sets, the book order, flags, ranges, lists and the '
           'builtins len, range, isinstance, sum, any, all, min, max, list, int',
           'vp.engine: exploration of all paths, path conditions, the axioms of a well-formed Bible',
           'vp.invariants: cutting of loops (havoc of the assigned variables and changed lists, then assumption of the '
           'invariants that are checked on entry and after an arbitrary iteration)',
           'vp.heap, vp.lists: lists as chains of known nodes and gaps, and the effect of the list contracts on them',
           'z3 4.x (Python bindings) and, for queries it gives up on, cvc5 1.1.2']
ASSUMED = ['the configured Bible is well formed: at least one book, every book at least one chapter, every chapter at least '
           'one verse, verse-0 chapters are chapters of the book; C19 is about the setters that establish this',
           'arguments are objects of the documented types, and books belong to the configured order',
           'Python integers are mathematical integers (exact: Python has no overflow)',
           'hash(), str() and string formatting of symbolic values are not interpreted (messages of exceptions)',
           'recursion among contracts is not checked for termination; loops are (a ranking measure per loop)']
LISTS = ['the lists a function is given satisfy the representation invariant of vp.heap (links, counts and groups), which '
         'every contract of a list operation proves again of the lists it leaves',
         'at the range level, BibleRangeList(...) of ranges holds those ranges in order and regroup() keeps them (proved '
         'for lists of any length as contracts of C11 and C12)',
         'vp.sorting: the items of a list that is sorted are totally ordered by <= (C02 for ranges); the contract of sort is '
         'proved by induction on the length (a call of _merge_sort on a shorter chain meets its contract)']
STRINGS = ['vp.strings: text as a sequence of pieces (a book name, the digits of a number, fixed text); the tree the Lark '
           'grammar makes of a text depends only on the kinds of its tokens (the real grammar parses several '
           'representatives of each shape, and their trees are compared)',
           'BibleBook.from_str recognises the full titles and abbreviations of books, with or without spaces (C15)',
           'the separators of the printed form are those of bible_data, and pairwise distinct']
NAMES = ['vp.names: an expression of the module re matches in full the strings of the regular language of its syntax tree; '
         'what a one-character expression matches is found by running it on every code point; str.strip() removes the '
         'characters of str.isspace(); the name data is the default one and one other (names with special characters)',
         'z3: theory of strings and regular expressions']
CONFIG = ['vp.config: what the setters do to one arbitrary book, for arbitrary data, holds of every book (they treat books '
          'alike); orders have no book twice; name data: the entry of the book is one of those of C15, that the '
          'operations follow the attributes of the books is C01-C03; _recreate_parser itself is checked within bounds']


def summary(v, mine, prop, tier):
    t = v.totals()
    assumed = ASSUMED + LISTS + (STRINGS if prop in ('C13', 'C14', 'C16') else []) + \
        (NAMES if prop == 'C15' else []) + (CONFIG if prop == 'C19' else [])
    return dict(failed=[dict(obligation=f'{u}: {f["clause"]}', unit=u, clause=f['clause'], replay=f['replay'],
                             message=f'the obligation "{f["clause"]}" of {u} is not discharged',
                             verifier_output=dict(model=f['model'], status='sat: the negated obligation is satisfiable',
                                                  invariants=r.get('invariants')))
                        for u, f, r in v.failures(mine)],
                undecided=v.undecided(mine), obligations=t['obligations'], discharged=t['discharged'],
                trusted_base=TRUSTED, assumptions=assumed,
                detail=dict(back_ends=['z3', 'cvc5 (second opinion)'], totals=t, functions=v.detail(mine),
                            undecided=v.undecided(mine)))
