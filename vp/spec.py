'''Shared specification vocabulary.

Every contract in vp.contracts is written once, over the operators below, and is evaluated in two domains:

 - concretely (ints and bools, World), by the falsifier/replayer running the real code under CPython;
 - symbolically (SymInt/SymBool, SymWorld in vp.engine), by the verifier, where each clause becomes a proof
   obligation that z3 must discharge for all inputs.

The helpers And/Or/Not/Implies/Iff/Ite accept both kinds of value.
'''


class SymValue:
    '''Base class of symbolic scalars (implemented in vp.engine).'''
    __slots__ = ()


_sym = None     # set by vp.engine: object with And, Or, Not, Ite over symbolic values


def _set_sym(ops):
    global _sym
    _sym = ops


def _is_sym(x):
    return isinstance(x, SymValue)


def And(*xs):
    syms = []
    for x in xs:
        if _is_sym(x):
            syms.append(x)
        elif not x:
            return False
    if not syms:
        return True
    return _sym.And(syms)


def Or(*xs):
    syms = []
    for x in xs:
        if _is_sym(x):
            syms.append(x)
        elif x:
            return True
    if not syms:
        return False
    return _sym.Or(syms)


def Not(x):
    return _sym.Not(x) if _is_sym(x) else (not x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if _is_sym(a) or _is_sym(b):
        return _sym.Iff(a, b)
    return bool(a) == bool(b)


def Ite(c, a, b):
    if _is_sym(c):
        return _sym.Ite(c, a, b)
    return a if c else b


def Max(a, b):
    return Ite(a >= b, a, b)


def Min(a, b):
    return Ite(a <= b, a, b)


def lexlt(a, b):
    '''Lexicographic less-than on equal-length tuples of ints.'''
    r = a[-1] < b[-1]
    for x, y in zip(reversed(a[:-1]), reversed(b[:-1])):
        r = Or(x < y, And(x == y, r))
    return r


def eqt(a, b):
    return And(*[x == y for x, y in zip(a, b)])


class Theory:
    '''Derived notions over an arbitrary well-formed Bible: N books, nch(o) chapters in book o, verses
    minv(f,o,c)..mx(o,c) in chapter c, where f says whether verse 0s are enabled. base(f,o,c) is the number of
    verses before chapter c of book o, so idx(f,t) is the position of verse t in the canonical sequence.'''

    # Primitives, per domain: N, nch(o), mx(o,c), hasz(o,c), base(f,o,c)

    def minv(self, f, o, c):
        return Ite(self.hasz(o, c), 0, 1) if f else 1

    def cnt(self, f, o, c):
        return self.mx(o, c) - self.minv(f, o, c) + 1

    def validb(self, o):
        return And(o >= 0, o < self.N)

    def validc(self, o, c):
        return And(self.validb(o), c >= 1, c <= self.nch(o))

    def valid(self, f, t):
        o, c, v = t
        return And(self.validc(o, c), v >= self.minv(f, o, c), v <= self.mx(o, c))

    def idx(self, f, t):
        o, c, v = t
        return self.base(f, o, c) + v - self.minv(f, o, c)

    def cstart(self, f, o, c):
        return self.base(f, o, c)

    def cend(self, f, o, c):
        return self.base(f, o, c) + self.cnt(f, o, c) - 1

    def bstart(self, f, o):
        return self.base(f, o, 1)

    def bend(self, f, o):
        return self.cend(f, o, self.nch(o))

    def total(self, f):
        return self.bend(f, self.N - 1) + 1

    def firstc(self, f, o, c):
        return (o, c, self.minv(f, o, c))

    def lastc(self, f, o, c):
        return (o, c, self.mx(o, c))

    def firstb(self, f, o):
        return self.firstc(f, o, 1)

    def lastb(self, f, o):
        return self.lastc(f, o, self.nch(o))

    # Reading the real objects

    def t(self, verse):
        return (verse.book.order, verse.chap_num, verse.verse_num)

    def neighbours(self, f, t):
        '''(Symbolically: make the chapters next to that of t known.)'''

    def valid_range(self, f, r):
        s, e = self.t(r.start), self.t(r.end)
        return And(self.valid(f, s), self.valid(f, e), Not(lexlt(e, s)))

    def span(self, f, r):
        return self.idx(f, self.t(r.start)), self.idx(f, self.t(r.end))


class World(Theory):
    '''The concrete theory of the currently configured Bible data.'''

    def __init__(self, order, max_verses, verse_0s):
        self.books = list(order)
        self.N = len(self.books)
        self._mx = [list(max_verses[b]) for b in self.books]
        self._z = [set(verse_0s.get(b, ())) for b in self.books]
        self._base = {}
        self.seq = {}
        self.pos = {}
        for f in (False, True):
            seq = []
            for o in range(self.N):
                for c in range(1, len(self._mx[o]) + 1):
                    self._base[f, o, c] = len(seq)
                    for v in range(0 if (f and c in self._z[o]) else 1, self._mx[o][c-1] + 1):
                        seq.append((o, c, v))
            self.seq[f] = seq
            self.pos[f] = {t: i for i, t in enumerate(seq)}

    def nch(self, o):
        return len(self._mx[o]) if 0 <= o < self.N else 0

    def mx(self, o, c):
        return self._mx[o][c-1] if (0 <= o < self.N and 1 <= c <= len(self._mx[o])) else 1

    def hasz(self, o, c):
        return 0 <= o < self.N and c in self._z[o]

    def base(self, f, o, c):
        return self._base.get((f, o, c), -10**9)
