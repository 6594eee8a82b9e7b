'''Concrete evaluation of the contracts on the real code, run by CPython: the falsifier that looks for a failing
input when an obligation is not discharged, the replayer, and the bounded stand-in for what is not proved.
'''
import importlib
import os
import itertools
import random
import signal
import sys
import types

from .spec import World, And
from . import contracts as C

SRC = os.path.join(os.environ.get('VP_REPO', '/repo'), 'src')


class Hang(BaseException):
    pass


def _on_alarm(*_):
    raise Hang()


def load_real():
    '''Import the real bibleref from /repo's working tree.'''
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import bibleref
    assert bibleref.__file__.startswith(SRC), bibleref.__file__
    import bibleref.ref, bibleref.util, bibleref.data, bibleref.parser
    return bibleref


B = None    # the real package
R = None    # namespace for contract calls


def text(*xs):
    '''The text made of books (their titles), numbers and literals.'''
    return ''.join(x.title if isinstance(x, B.BibleBook) else str(x) for x in xs)


def init():
    global B, R
    if B is None:
        B = load_real()
        R = types.SimpleNamespace(BibleVerse=B.BibleVerse, BibleRange=B.BibleRange, BibleRangeList=B.BibleRangeList,
                                  BibleBook=B.BibleBook, BibleFlag=B.BibleFlag, truth=bool, text=text)
        signal.signal(signal.SIGALRM, _on_alarm)
    return B


# Small Bibles: (book, verses per chapter, verse-0 chapters). They include single-chapter books (with and without a
# verse 0), verse 0 in first, middle and last chapters, one-verse chapters, and orders that differ from the enum's.
CONFIGS = {
    'A': [('Gen', [2, 3], [2]), ('Obad', [2], []), ('Psa', [1, 2, 1], [1, 3])],
    'B': [('Jude', [2], [1]), ('Gen', [1, 2], [1, 2])],
    'C': [('Rev', [3], [])],
    'E': [('Rev', [3, 2, 4], [3]), ('Gen', [2, 3, 1, 2], [1]), ('Matt', [2], [])],
    'D': [('Song', [1, 1, 1], [2]), ('ICor', [2], [1]), ('Phlm', [1], []), ('Joel', [3, 1], [])],
}


_current = [None, None]


def set_config(name, force=False):
    '''Configure the real code with a Bible and return its theory (nothing is reassigned if it already has it).'''
    init()
    if _current[0] == name and not force:
        B.flags = B.BibleFlag.NONE
        return _current[1]
    W = _set_config(name)
    _current[:] = [name, W]
    return W


def _set_config(name):
    d = B.bible_data()
    D = B.data
    if name == 'default':
        d.book_order = list(D.default_book_order)
        d.max_verses = D.default_max_verses
        d.verse_0s = D.default_verse_0s
        order, mx, zs = D.default_book_order, D.default_max_verses, D.default_verse_0s
    else:
        BB = B.BibleBook
        if isinstance(name, str):
            conf = CONFIGS[name]
        else:       # a Bible given as [[verse counts, verse-0 chapters] per book] (from a counterexample)
            conf = [(b.name, m, z) for b, (m, z) in zip(D.default_book_order, name)]
        order = [BB[n] for n, _, _ in conf]
        mx = {BB[n]: list(m) for n, m, _ in conf}
        zs = {BB[n]: set(z) for n, _, z in conf if z}
        d.book_order, d.max_verses, d.verse_0s = list(order), mx, zs
    B.flags = B.BibleFlag.NONE
    return ConcreteWorld(order, mx, zs)


class ConcreteWorld(World):
    def __init__(self, *a):
        super().__init__(*a)
        self._crank = {}
        n = 0
        for o in range(self.N):
            for c in range(1, self.nch(o) + 1):
                self._crank[o, c] = n
                n += 1
        self._cache = {}

    def crank(self, o, c):
        return self._crank[o, c]

    def items(self, x):
        return list(x)

    def is_list(self, x):
        return isinstance(x, B.BibleRangeList)

    def forall_pos(self, f, fn, bounds=()):
        n = len(self.seq[f])
        if n > 1000:    # membership only changes next to the bounds
            return all(fn(p) for p in sorted({q for b in bounds for q in (b-1, b, b+1) if 0 <= q < n}))
        return all(fn(p) for p in range(n))

    def tiling(self, x, f, lo, hi, preds, n):
        '''The ranges of x are consecutive from position lo to hi (exclusive), satisfy preds, and are n in number.'''
        pos = lo
        rs = list(x)
        if n is not None:
            yield 'has the expected number of pieces', len(rs) == n
        yield 'has pieces', len(rs) > 0
        for i, r in enumerate(rs):
            yield f'piece {i} is a valid range', isinstance(r, B.BibleRange) and self.valid_range(f, r)
            s, e = self.span(f, r)
            yield f'piece {i} follows on', s == pos
            pos = e + 1
            for label, fn in preds.items():
                yield f'piece {i} {label}', fn(r)
        yield 'the pieces end where the range ends', pos == hi

    def mkv(self, t):
        '''A verse made without the code under test.'''
        v = object.__new__(B.BibleVerse)
        object.__setattr__(v, 'book', self.books[t[0]])
        object.__setattr__(v, 'chap_num', t[1])
        object.__setattr__(v, 'verse_num', t[2])
        return v

    def mkr(self, s, e):
        r = object.__new__(B.BibleRange)
        object.__setattr__(r, 'start', self.mkv(s))
        object.__setattr__(r, 'end', self.mkv(e))
        return r

    def verses(self, f):
        return self.seq[f]

    def ranges(self, f):
        k = ('r', f)
        if k not in self._cache:
            q = self.seq[f]
            self._cache[k] = [(q[i], q[j]) for i in range(len(q)) for j in range(i, len(q))]
        return self._cache[k]


# Encoded arguments (JSON-able): ['b',o] book, ['v',o,c,v] verse, ['r',[..],[..]] range, ints, bools, None
def decode(W, x):
    if isinstance(x, (list, tuple)):
        if x[0] == 'b':
            return W.books[x[1]]
        if x[0] == 'v':
            return W.mkv(tuple(x[1:]))
        if x[0] == 'r':
            return W.mkr(tuple(x[1]), tuple(x[2]))
    return x


def show(W, x):
    if isinstance(x, (list, tuple)) and x and x[0] == 'b':
        return f'BibleBook.{W.books[x[1]].name}'
    if isinstance(x, (list, tuple)) and x and x[0] == 'v':
        return f'{W.books[x[1]].name} {x[2]}:{x[3]}'
    if isinstance(x, (list, tuple)) and x and x[0] == 'r':
        return show(W, ['v', *x[1]]) + ' - ' + show(W, ['v', *x[2]])
    return repr(x)


def shown(v):
    '''A result for people.'''
    try:
        if isinstance(v, B.BibleVerse):
            return f'{v.book.name} {v.chap_num}:{v.verse_num}'
        if isinstance(v, B.BibleRange):
            return f'[{shown(v.start)} - {shown(v.end)}]'
        if isinstance(v, B.BibleRangeList):
            return '[' + ', '.join('{' + ', '.join(shown(r) for r in g) + '}' for g in v.groups) + ']'
    except Exception as e:
        return f'<unprintable {type(v).__name__}: {e!r}>'
    return repr(v)


def flag_combos(contract):
    F = B.BibleFlag
    vals = [F.NONE, F.MULTIBOOK, F.VERSE_0, F.ALL]
    kinds = [k for _, k in contract.params]
    if 'flags' in kinds:
        out = [(None, g) for g in vals]
        for x in vals:
            out.append((x, ~x & F.ALL))
        return out
    if 'noflags' in kinds:
        return [(None, g) for g in vals]
    return [(None, F.NONE), (None, F.ALL)]


def candidates(W, kind, f, rng, big):
    if kind == 'book':
        return [['b', o] for o in range(W.N)]
    if kind == 'optbook':
        return [None] + [['b', o] for o in range(W.N)]
    if kind in ('int', 'optint'):
        if big:
            xs = list(range(-1, 4)) + [5, 9, 21, 28, 66, 100, 118, 119, 120, 150, 151, 175, 176, 177, 10**6]
        else:
            top = max([W.nch(o) for o in range(W.N)] + [W.mx(o, c) for o in range(W.N) for c in range(1, W.nch(o)+1)])
            xs = list(range(-1, top + 2))
        return ([None] if kind == 'optint' else []) + xs
    if kind == 'nat':
        n = len(W.seq[True])
        return list(range(0, n + 2)) if not big else [0, 1, 1, 2, 3, 17, 30, 31, 100, 1000, 31101, 31102, 31218, 40000]
    if kind in ('pos', 'optpos'):
        n = len(W.seq[True])
        return ([None] if kind == 'optpos' else []) + ([1, 2, 3, 7, 30, 50, 2000] if big else [1, 2, 3, 4, n, n + 3])
    if kind in ('bool', 'lazybool'):
        return [False, True]
    if kind in ('verse', 'anyverse'):
        g = True if kind == 'anyverse' else f
        q = W.seq[g]
        if big:
            return [['v', *t] for t in _big_verses(W, g, rng)]
        return [['v', *t] for t in q]
    if kind in ('range', 'anyrange'):
        g = True if kind == 'anyrange' else f
        if big:
            return [['r', list(s), list(e)] for s, e in _big_ranges(W, g, rng)]
        return [['r', list(s), list(e)] for s, e in W.ranges(g)]
    if kind == 'ref':
        return candidates(W, 'range', f, rng, big) + candidates(W, 'verse', f, rng, big)
    raise KeyError(kind)


def _big_verses(W, f, rng):
    q = W.seq[f]
    n = len(q)
    out = []
    for _ in range(60):
        out.append(q[rng.randrange(n)])
        o = rng.randrange(W.N)
        c = rng.choice([1, W.nch(o), rng.randint(1, W.nch(o))])
        v = rng.choice([0 if (f and W.hasz(o, c)) else 1, W.mx(o, c), rng.randint(1, W.mx(o, c))])
        out.append((o, c, v))
    return out


def _big_ranges(W, f, rng):
    q, pos = W.seq[f], W.pos[f]
    out = []
    for s in _big_verses(W, f, rng):
        i = pos[s]
        k = rng.random()
        if k < .75:
            j = min(len(q) - 1, i + rng.choice([0, 0, 1, 2, 5, 20, 40, 80]))
        elif k < .97:
            o = s[0]
            c = rng.choice([s[1], W.nch(o)])
            j = max(i, pos[(o, c, W.mx(o, c))] + rng.choice([-1, 0, 0, 0, 1]))
            j = min(j, len(q) - 1)
        else:
            j = min(len(q) - 1, i + rng.randrange(3000))
        out.append((s, q[j]))
    return out


class Outcome:
    __slots__ = ('ok', 'val', 'exc', 'err')

    def __init__(self, ok, val=None, exc=None, err=None):
        self.ok, self.val, self.exc, self.err = ok, val, exc, err

    def __str__(self):
        return shown(self.val) if self.ok else f'raised {self.exc}({self.err})'


def guarded(fn, seconds=5):
    '''Run fn(); the outcome, with hangs and crashes as outcomes too.'''
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return Outcome(True, fn())
    except Hang:
        return Outcome(False, exc='Hang', err=f'no result in {seconds} s')
    except Exception as e:
        return Outcome(False, exc=type(e).__name__, err=str(e)[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def eval_case(W, con, flags, glob, args):
    '''Evaluate one contract on one concrete case; returns (list of failed clauses, outcome) or None if pre fails.'''
    F = B.BibleFlag
    a = types.SimpleNamespace(**{n: decode(W, x) for n, x in args.items()})
    eff = glob if flags is None else flags
    a.flags, a.f, a.m = flags, F.VERSE_0 in eff, F.MULTIBOOK in eff
    if con.pre is not None and not con.pre(W, a):
        return None
    B.flags = glob
    try:
        o = guarded(lambda: con.call(R, a))
    finally:
        B.flags = F.NONE
    try:
        bad = [label for label, ok in con.post(W, a, o) if not ok]
    except Exception as e:      # the outcome is too malformed to evaluate (e.g. a corrupt list)
        bad = [f'postcondition cannot be evaluated: {e!r}']
    return bad, o


def contract_cases(W, con, rng, limit, big):
    F = B.BibleFlag
    names = [n for n, k in con.params if k not in ('flags', 'noflags')]
    kinds = [k for n, k in con.params if k not in ('flags', 'noflags')]
    for flags, glob in flag_combos(con):
        eff = glob if flags is None else flags
        pools = [candidates(W, k, F.VERSE_0 in eff, rng, big) for k in kinds]
        size = 1
        for p in pools:
            size *= len(p)
        if size <= limit:
            combos = itertools.product(*pools)
        else:
            combos = (tuple(rng.choice(p) for p in pools) for _ in range(limit))
        for combo in combos:
            yield flags, glob, dict(zip(names, combo))


def flagname(x):
    return None if x is None else {0: 'NONE', 1: 'MULTIBOOK', 2: 'VERSE_0', 3: 'ALL'}[x.value]


def run_contract(con, configs, seed, limit, biglimit, stats, stop=1):
    '''Search for violations of one contract. Returns a list of replay records.'''
    out = []
    for cfg in configs:
        W = set_config(cfg)
        rng = random.Random(f'{seed}/{con.name}/{cfg}')
        big = cfg == 'default'
        for flags, glob, args in contract_cases(W, con, rng, biglimit if big else limit, big):
            r = eval_case(W, con, flags, glob, args)
            if r is None:
                continue
            stats['evaluations'] = stats.get('evaluations', 0) + 1
            bad, o = r
            if bad:
                out.append(record(W, con, cfg, flags, glob, args, bad, o))
                if len(out) >= stop:
                    return out
    return out


def replay_model(con, info):
    '''Run the real code on the counterexample of a failed obligation; a replay record if the contract fails there.'''
    init()
    F = B.BibleFlag
    try:
        W = set_config(info['bible'])
        flags = None if info['flags'] is None else F(info['flags'])
        r = eval_case(W, con, flags, F(info['glob']), info['args'])
        if r is None or not r[0]:
            return None
        return record(W, con, info['bible'], flags, F(info['glob']), info['args'], r[0], r[1])
    except Exception:
        return None


def record(W, con, cfg, flags, glob, args, bad, o):
    return dict(kind='contract', contract=con.name, config=cfg, flags=flagname(flags), global_flags=flagname(glob),
                args=args, readable={n: show(W, x) for n, x in args.items()}, failed_clauses=bad, observed=str(o))


def replay_contract(rec):
    init()
    W = set_config(rec['config'])
    F = B.BibleFlag
    con = C.REGISTRY[rec['contract']]
    flags = None if rec['flags'] is None else F[rec['flags']]
    return eval_case(W, con, flags, F[rec['global_flags']], rec['args'])
