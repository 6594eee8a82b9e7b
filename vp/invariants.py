'''Cut points of loops: invariants are inferred (Houdini) from typed templates over the abstraction - positions in the
canonical sequence, validity, chapter ranks, tilings - and are then checked like any other obligation: they must hold
on entry and be preserved by an arbitrary iteration. No invariant mentions how a function is written; the variables
are whatever the loop assigns.
'''
import z3

from . import engine as G, symex as S, heap as H
from .engine import SymInt, SymBool, Unsupported, PathEnd, Restart
from .spec import And, Or, Not, Implies, Iff, Ite, eqt, lexlt
from .symex import SymBook, VList, W, mkverse, mkrange, Loop


def kind(x):
    if x is None:
        return 'none'
    if isinstance(x, (bool, SymBool)):
        return 'bool'
    if isinstance(x, (int, SymInt)):
        return 'int'
    if isinstance(x, SymBook):
        return 'book'
    if isinstance(x, S.ref.BibleVerse):
        return 'verse'
    if isinstance(x, S.ref.BibleRange):
        return 'range'
    if isinstance(x, VList):
        return 'list'
    if H.issym(x):
        return 'lost' if x._L is None and '_last' in x.__dict__ else 'node'
    if x is H.POISON:
        return 'lost'
    return 'obj'


class Ghost:
    '''What a contract offers to the invariants of the loops below it.'''

    def __init__(self, f=False, positions=None, start=None, preds=None):
        self.f = f                          # whether verse 0s count
        self.positions = positions or {}    # label -> position term
        self.start = start                  # the verse at which tilings start
        self.preds = preds or {}            # label -> predicate on the ranges of a tiling
        self.plain = False                  # no invariants about books, chapters and verses
        self.values = {}                    # mutable ghost integers (label -> term)
        self.m = False
        self.list = None                    # the list a contract is about
        self.keys = []                      # quantities of its items (heap.Quantity)
        self.q = None                       # an arbitrary position, and
        self.expect = None                  # (value, head) that the result must have there; None: no item
        self.lpreds = {}                    # what may hold of all items of a list: name -> fn(value)
        self.lrels = {}                     # what may hold of items in their order: name -> fn(value, value)
        self.cov = self.size = None         # quantities: whether p* is in a range; how many verses are
        self.bounds = {}                    # name -> (quantity, fn): whether a verse bounds what it counts
        self.wanted = None                  # what a loop over the list makes of its items: value -> value

    def lo(self):
        return W.idx(self.f, W.t(self.start))


# ---------------------------------------------------------------------------------------------------------------
# Tilings: a list of unknown length whose ranges are consecutive from position lo to position hi (exclusive)
# ---------------------------------------------------------------------------------------------------------------

class Tile:
    def __init__(self, n, hi, preds, ok=True):
        self.n, self.hi, self.preds, self.ok = n, hi, set(preds), ok

    def copy(self):
        return Tile(self.n, self.hi, self.preds, self.ok)

    def lo(self):
        return G.E.ghost.lo()

    def facts(self):
        lo = self.lo()
        if not self.ok:
            return And(self.n >= 0)
        return And(self.n >= 0, self.hi >= lo, Iff(self.n == 0, self.hi == lo), self.n <= self.hi - lo)

    def element(self, hint):
        r = S.fresh_range(hint)
        g = G.E.ghost
        if self.ok:
            e = G.E
            e.assume(W.valid_range(g.f, r))
            for p in sorted(self.preds):
                e.assume(g.preds[p](r))
        return r

    def iterator(self, vlist):
        t = summary(vlist).tile()
        return TileIter(t)

    def first(self):
        r = self.element('first')
        s, e = W.span(G.E.ghost.f, r)
        if self.ok:
            G.E.assume(And(s == self.lo(), Ite(self.n == 1, e + 1 == self.hi, e + 1 < self.hi)))
        return r

    def last(self):
        r = self.element('last')
        s, e = W.span(G.E.ghost.f, r)
        if self.ok:
            G.E.assume(And(e + 1 == self.hi, Ite(self.n == 1, s == self.lo(), s > self.lo())))
        return r


class Summary:
    '''A list seen as a tiling: which facts hold of it is to be proved.'''

    def __init__(self, n, hi, contiguous, preds, is_ranges):
        self.n, self.hi, self.contiguous, self.preds, self.is_ranges = n, hi, contiguous, preds, is_ranges

    def tile(self):
        e = G.E
        if not self.is_ranges or not e.known_rec(self.contiguous):
            return Tile(self.n, None, (), ok=False)
        return Tile(self.n, self.hi, [p for p, x in self.preds.items() if e.known_rec(x)])


def summary(vl):
    g = G.E.ghost
    if g is None or g.start is None:
        raise Unsupported('a list of unknown length')
    items = vl.explicit()
    if vl.prefix is not None:
        t = vl.prefix
        if not t.ok:
            return Summary(t.n + len(items), None, False, {}, False)
        n, hi = t.n, t.hi
        preds = {p: (p in t.preds) for p in g.preds}
    else:
        n, hi = 0, g.lo()
        preds = {p: True for p in g.preds}
    cont = []
    if not all(S.isrange(x) for x in items):
        return Summary(n + len(items), None, False, {}, False)
    for r in items:
        s, e = W.span(g.f, r)
        cont += [W.valid_range(g.f, r), s == hi]
        hi = e + 1
        n = n + 1
        for p in preds:
            preds[p] = And(preds[p], g.preds[p](r))
    return Summary(n, hi, And(*cont) if cont else True, preds, True)


class TileIter(Loop):
    def __init__(self, tile):
        self.tile = tile

    def start(self, lid):
        super().__init__(lid)
        self.pos = self.tile.lo()
        self.k = 0
        return self

    def must_cut(self):
        return True

    def iter_values(self):
        return {'<pos>': self.pos, '<k>': self.k}

    def set_iter(self, d):
        self.pos, self.k = d['<pos>'], d['<k>']

    def iter_facts(self):
        t = self.tile
        if not t.ok:
            return [('k', And(self.k >= 0, self.k <= t.n))]
        return [('pos', And(self.pos >= t.lo(), self.pos <= t.hi, self.k >= 0, self.k <= t.n,
                            Iff(self.pos == t.hi, self.k == t.n), Iff(self.pos == t.lo(), self.k == 0)))]

    def next(self):
        t = self.tile
        if self.k < t.n:
            r = t.element('item')
            if t.ok:
                s, e = W.span(G.E.ghost.f, r)
                G.E.assume(And(s == self.pos, e < t.hi, Iff(e + 1 == t.hi, self.k + 1 == t.n)))
                self.pos = e + 1
            self.value = r
            self.k = self.k + 1
            return True
        return False


_absclass = None


def abs_class():
    '''BibleRangeList of unknown length. Its items are a tiling; what is not known about it is refused.'''
    global _absclass
    if _absclass is not None:
        return _absclass
    base = S.ref.BibleRangeList

    def refuse(name):
        def fn(self, *a, **k):
            raise Unsupported(f'{name} of a list of unknown length')
        return fn
    d = {}
    for n in dir(base):
        if n.startswith('__') and n not in ('__iter__', '__getitem__', '__setitem__', '__delitem__', '__contains__',
                                            '__reversed__', '__eq__', '__or__', '__and__', '__sub__', '__xor__',
                                            '__len__', '__iadd__'):
            continue
        if callable(getattr(base, n, None)) or isinstance(getattr(base, n, None), property):
            d[n] = refuse(n)

    def getitem(self, i):
        t = self._tile
        if isinstance(i, int) and i in (0, -1):
            if not t.n > 0:
                raise IndexError('list index out of range')
            if i not in self._memo:
                self._memo[i] = t.first() if i == 0 else t.last()
            return self._memo[i]
        raise Unsupported('index of a list of unknown length')
    d['__getitem__'] = getitem
    d['sym_len'] = lambda self: self._tile.n
    d['sym_iter'] = lambda self: TileIter(self._tile)
    d['__bool__'] = lambda self: bool(self._tile.n > 0)
    d['regroup'] = lambda self, flags=None: None        # contract: regrouping leaves the items as they are (C12)
    del d['__len__']
    _absclass = type('BibleRangeList', (base,), d)
    return _absclass


def mklist(tile):
    c = abs_class()
    x = object.__new__(c)
    x.__dict__['_tile'] = tile
    x.__dict__['_memo'] = {}
    return x


# ---------------------------------------------------------------------------------------------------------------
# Candidates
# ---------------------------------------------------------------------------------------------------------------

class View:
    '''The values of the loop's variables at one moment, with what does not change in the loop.'''

    def __init__(self, vals, lists):
        self.vals = vals
        self.lists = lists      # name -> Summary


class Cand:
    __slots__ = ('label', 'fn', 'assume')

    def __init__(self, label, fn, assume=None):
        self.label, self.fn, self.assume = label, fn, assume


def _terms(kinds, const):
    '''Accessors (label, fn(vals) -> value or None) by type, for the changing variables and the constants.'''
    books, ints, verses = [], [], []
    cbooks, cints, cverses = [], [], []
    for n, ks in kinds.items():
        if 'book' in ks:
            books.append((n, lambda v, n=n: v[n].order if isinstance(v[n], SymBook) else None))
        if 'int' in ks:
            ints.append((n, lambda v, n=n: v[n] if isinstance(v[n], (int, SymInt)) and not isinstance(v[n], bool)
                         else None))
        if 'verse' in ks:
            verses.append((n, lambda v, n=n: v[n] if S.isverse(v[n]) else None))
        if 'range' in ks:
            verses.append((n + '.start', lambda v, n=n: v[n].start if S.isrange(v[n]) else None))
            verses.append((n + '.end', lambda v, n=n: v[n].end if S.isrange(v[n]) else None))
    for n, x in const.items():
        if isinstance(x, SymBook):
            cbooks.append((n, lambda v, x=x: x.order))
        elif isinstance(x, SymInt):
            cints.append((n, lambda v, x=x: x))
        elif S.isverse(x):
            cverses.append((n, lambda v, x=x: x))
        elif S.isrange(x):
            cverses.append((n + '.start', lambda v, x=x: x.start))
            cverses.append((n + '.end', lambda v, x=x: x.end))
    return books, ints, verses, cbooks, cints, cverses


def _lift(fn, *accs):
    '''A candidate over the accessed values: true when one of them is None (not applicable).'''
    def f(view):
        xs = [a(view.vals) for a in accs]
        if any(x is None for x in xs):
            return True
        return fn(*xs)
    return f


def candidates(kinds, const, entry, lists, g, loop, changing=None):
    f = g.f
    books, ints, verses, cbooks, cints, cverses = _terms(kinds, const)
    if g.plain:
        books, verses, cbooks, cverses = [], [], [], []
    out = []

    def add(label, fn, assume=None):
        out.append(Cand(label, fn, assume))

    for n, L in (changing or {}).items():
        _list_candidates(n, L, kinds, entry, g, add)
        if g.cov is not None:
            _set_candidates(n, L, kinds, entry, const, changing, g, add, loop)
    for n, b in books:
        add(f'{n} is a book', _lift(lambda b: W.validb(b), b))
    for n, i in ints:
        add(f'{n} >= 0', _lift(lambda i: i >= 0, i))
        for n2, j in ints + cints:
            if n2 != n:
                add(f'{n} <= {n2}', _lift(lambda i, j: i <= j, i, j))
                add(f'{n} >= {n2}', _lift(lambda i, j: i >= j, i, j))
        for gn, gp in g.positions.items():
            add(f'{n} == {gn}', _lift(lambda i, gp=gp: i == gp, i))
    for n, x in entry.items():
        ks = kinds.get(n, ())
        if ks == {'int'}:
            add(f'{n} unchanged', lambda v, n=n, x=x: v.vals[n] == x)
        elif ks == {'book'}:
            add(f'{n} unchanged', lambda v, n=n, x=x: v.vals[n].order == x.order)
        elif ks == {'verse'}:
            add(f'{n} unchanged', lambda v, n=n, x=x: eqt(W.t(v.vals[n]), W.t(x)))
        elif ks == {'bool'}:
            add(f'{n} unchanged', lambda v, n=n, x=x: Iff(v.vals[n], x))
    for bn, b in books + cbooks:
        for cn, c in ints:
            add(f'({bn},{cn}) is a chapter', _lift(lambda b, c: W.validc(b, c), b, c))
            for vn, v in ints:
                if vn == cn:
                    continue
                add(f'{vn} == mx({bn},{cn})', _lift(lambda b, c, v: v == W.mx(b, c), b, c, v))
                add(f'{vn} == minv({bn},{cn})', _lift(lambda b, c, v: v == W.minv(f, b, c), b, c, v))
                add(f'{vn} >= minv({bn},{cn})', _lift(lambda b, c, v: v >= W.minv(f, b, c), b, c, v))
                add(f'{vn} <= mx({bn},{cn})', _lift(lambda b, c, v: v <= W.mx(b, c), b, c, v))
                for gn, gp in g.positions.items():
                    add(f'idx({bn},{cn},{vn}) == {gn}', _lift(lambda b, c, v, gp=gp: W.idx(f, (b, c, v)) == gp, b, c, v))
                    for rn, r in ints:
                        if rn in (vn, cn):
                            continue
                        add(f'idx({bn},{cn},{vn}) + {rn} == {gn}',
                            _lift(lambda b, c, v, r, gp=gp: W.idx(f, (b, c, v)) + r == gp, b, c, v, r))
                        add(f'idx({bn},{cn},{vn}) - {rn} == {gn}',
                            _lift(lambda b, c, v, r, gp=gp: W.idx(f, (b, c, v)) - r == gp, b, c, v, r))
            for xn, x in ints:
                if xn == cn:
                    continue
                if bn in [n for n, _ in cbooks] or True:
                    for k in (0, 1):
                        add(f'{xn} == base({bn},{cn}+{k}) - base({bn},1)',
                            _lift(lambda b, c, x, k=k: x == W.base(f, b, c + k) - W.base(f, b, 1), b, c, x))
    for n, v in verses:
        add(f'{n} is valid', _lift(lambda v: W.valid(f, W.t(v)), v))
        for gn, gp in list(g.positions.items()):
            add(f'idx({n}) == {gn}', _lift(lambda v, gp=gp: W.idx(f, W.t(v)) == gp, v))
        for gn in g.values:
            add(f'idx({n}) == ghost {gn}',
                lambda view, v=v, gn=gn: True if v(view.vals) is None
                else W.idx(f, W.t(v(view.vals))) == view.vals['<' + gn + '>'])
            add(f'{n} is None at the end',
                lambda view, v=v, gn=gn: view.vals['<' + gn + '>'] == g.positions['after']
                if v(view.vals) is None and 'after' in g.positions else True)
            add(f'ghost {gn} in bounds',
                lambda view, gn=gn: view.vals['<' + gn + '>'] <= g.positions['after'] if 'after' in g.positions else True)
        for n2, w in cverses:
            add(f'{n} is {n2} or the first of its chapter',
                _lift(lambda v, w: Or(eqt(W.t(v), W.t(w)), eqt(W.t(v), W.firstc(f, v.book.order, v.chap_num))), v, w))
            add(f'{n} is {n2} or the first of its book',
                _lift(lambda v, w: Or(eqt(W.t(v), W.t(w)), eqt(W.t(v), W.firstb(f, v.book.order))), v, w))
        for n2, w in verses + cverses:
            if n2 == n:
                continue
            add(f'{n} <= {n2}', _lift(lambda v, w: W.idx(f, W.t(v)) <= W.idx(f, W.t(w)), v, w))
            add(f'{n} >= {n2}', _lift(lambda v, w: W.idx(f, W.t(v)) >= W.idx(f, W.t(w)), v, w))
            add(f'{n} in the book of {n2}', _lift(lambda v, w: v.book.order == w.book.order, v, w))
            add(f'{n} in the chapter of {n2}', _lift(lambda v, w: And(v.book.order == w.book.order,
                                                                      v.chap_num == w.chap_num), v, w))
            add(f'{n} is the last of the chapter of {n2}',
                _lift(lambda v, w: eqt(W.t(v), W.lastc(f, w.book.order, w.chap_num)), v, w))
            add(f'{n} is the last of the book of {n2}',
                _lift(lambda v, w: eqt(W.t(v), W.lastb(f, w.book.order)), v, w))
            for kn, k in ints + cints:
                for d in (0, -1):
                    add(f'idx({n}) == idx({n2}) + {kn}{d:+d}',
                        _lift(lambda v, w, k, d=d: W.idx(f, W.t(v)) == W.idx(f, W.t(w)) + k + d, v, w, k))
                    if 'none' in kinds.get(n, ()):
                        for m in (False, True):
                            def past(view, v=v, w=w, k=k, d=d, m=m):
                                if v(view.vals) is not None or w(view.vals) is None or k(view.vals) is None:
                                    return True
                                x = w(view.vals)
                                lim = W.total(f) - 1 if m else W.bend(f, x.book.order)
                                return W.idx(f, W.t(x)) + k(view.vals) + d > lim
                            add(f'{n} is None only when idx({n2}) + {kn}{d:+d} is past the {"Bible" if m else "book"}', past)
    # iterator over a tiling, and lists that are tilings
    if '<pos>' in kinds:
        for n, i in ints:
            if n not in ('<pos>', '<k>'):
                add(f'{n} == pos - lo', lambda v, n=n, i=i: i(v.vals) == v.vals['<pos>'] - g.lo())
                add(f'{n} == k', lambda v, n=n, i=i: i(v.vals) == v.vals['<k>'])
    for L in lists:
        add(f'{L} is a tiling', lambda v, L=L: v.lists[L].contiguous if v.lists[L].is_ranges else False)
        t = f'{L} is a tiling'
        for p in g.preds:
            add(f'{L} all {p}', lambda v, L=L, p=p: v.lists[L].preds.get(p, False))
        if '<pos>' in kinds:
            add(f'{L} up to pos', lambda v, L=L: v.lists[L].is_ranges and v.lists[L].hi == v.vals['<pos>'])
            add(f'{L} one per item', lambda v, L=L: v.lists[L].n == v.vals['<k>'])
            s0 = W.t(g.start)

            def rank(v, L=L):       # as many ranges as chapters before pos; and as books
                return True
        for n, x in verses + cverses:
            add(f'{L} up to {n}', lambda v, L=L, x=x: True if x(v.vals) is None else
                (v.lists[L].is_ranges and v.lists[L].hi == W.idx(f, W.t(x(v.vals)))))
            add(f'{L} one per chapter to {n}', lambda v, L=L, x=x: True if x(v.vals) is None else
                v.lists[L].n == W.crank(x(v.vals).book.order, x(v.vals).chap_num)
                - W.crank(g.start.book.order, g.start.chap_num))
            add(f'{L} one per book to {n}', lambda v, L=L, x=x: True if x(v.vals) is None else
                v.lists[L].n == x(v.vals).book.order - g.start.book.order)
    for n, ks in kinds.items():
        if 'node' in ks and 'lost' not in ks:
            _node_candidates(n, entry, ints, g, add, loop)
            if g.cov is not None:
                _search_candidates(n, entry, const, changing or {}, g, add, loop)
    _item_candidates(entry, g, add)
    return out


def _list_candidates(n, L, kinds, entry, g, add):
    '''About a list that the loop changes.'''
    for k in g.keys:
        m = f'<{n}.{k.name}>'
        add(f'{m} is positive exactly as before', lambda v, m=m: Iff(v.vals[m] > 0, entry[m] > 0))
    for name, p in g.lpreds.items():
        add(f'{n}: all {name}', lambda v, name=name, p=p: H.holds_all(L._chain, name, p),
            lambda v, name=name, p=p: H.Region(L._chain, name, pred=p))
    for name, r in g.lrels.items():
        add(f'{n}: {name}', lambda v, name=name, r=r: H.holds_order(L._chain, name, r),
            lambda v, name=name, r=r: H.Region(L._chain, name, rel=r))
        for x, ks in kinds.items():
            if 'node' not in ks or 'lost' in ks:
                continue

            def part(v, x, to):
                ch, y = L._chain, v.vals[x]
                if y is None or y._L is not L or not ch.has(y):
                    return H.Chain(L, ch.cells if to else [])
                i = ch.index(y)
                c = H.Chain(L, ch.cells[:i+1] if to else ch.cells[i:])
                c.vals = ch.vals
                return c
            for to in (True, False):
                add(f'{n}: {name} {"to" if to else "from"} {x}',
                    lambda v, x=x, to=to, name=name, r=r: H.holds_order(L._chain, name, r, part(v, x, to).cells),
                    lambda v, x=x, to=to, name=name, r=r: H.Region(part(v, x, to), name, rel=r))


def _set_candidates(n, L, kinds, entry, const, changing, g, add, loop):
    """About the verses of a list that the loop changes; T: whether p* is in some other range or list."""
    m = f'<{n}.{g.cov.name}>'
    atoms = atoms_of(const, changing, g)

    def changed(v):
        return Iff(v.vals[m] > 0, entry[m] > 0)
    nodes = [x for x, ks in kinds.items() if 'node' in ks and 'lost' not in ks and (x != '<cur>' or getattr(loop, 'L', None) is L)]

    def mine(v, x):
        y = v.vals[x]
        return y is None or y._L is L
    for t, T in atoms.items():
        add(f'{m} is positive exactly as before unless {t}', lambda v, T=T: Implies(Not(T), changed(v)))
        for x in nodes:
            add(f'no {m} before {x} if {t}', lambda v, x=x, T=T:
                Implies(T, L._chain.before(v.vals[x], g.cov) == 0) if mine(v, x) else False)
    for x in nodes:
        if entry.get(x) is None or entry[x]._L is not L:
            continue
        s0 = L._chain.total(g.size) - L._chain.before(entry[x], g.size)
        add(f'not more verses from {x} on', lambda v, x=x, s0=s0:
            L._chain.total(g.size) - L._chain.before(v.vals[x], g.size) <= s0 if mine(v, x) else False)
    if '<cur>' in kinds and getattr(loop, 'L', L) is not L:
        def joint(v):
            # this list, and then what is left of the list the loop goes through
            src, x = loop.chain, v.vals['<cur>']
            rest = [] if x is None else src.cells[src.index(x):] if loop.d == 1 else []
            c = H.Chain(L, L._chain.cells + rest)
            c.vals = {**src.vals, **L._chain.vals}
            return c
        for name, r in g.lrels.items():
            add(f'{n} and from <cur> on: {name}', lambda v, name=name, r=r: H.holds_order(joint(v), name, r),
                lambda v, name=name, r=r: H.Region(joint(v), name, rel=r))
        for t, T in list(atoms.items()) + [('', True)]:
            add(f'{m} as before, and <cur>{" and " + t if t else ""}', lambda v, T=T: Iff(v.vals[m] > 0, Or(
                entry[m] > 0, And(loop.chain.before(v.vals['<cur>'], g.cov) > 0, T))))
        for x in nodes:
            add(f'not {x} if <cur>', lambda v, x=x: True if v.vals[x] is None else False if not mine(v, x) else
                Implies(loop.chain.before(v.vals['<cur>'], g.cov) > 0, L._chain.amount(v.vals[x], g.cov) == 0))


def chain_of(n, x, g, loop):
    """The chain that a node variable moves along."""
    if n == '<cur>' and hasattr(loop, 'chain'):
        return loop.chain
    if x is not None:
        return x._L._chain if x._L is not None else None
    return g.list._chain if g.list is not None else None


def _node_candidates(n, entry, ints, g, add, loop):
    e0 = entry.get(n)
    ch = chain_of(n, e0, g, loop)
    if ch is None:
        return

    def chain():        # (a loop that changes the list gets another one)
        return loop.chain if n == '<cur>' and hasattr(loop, 'chain') else ch.L._chain

    def P(x, *a):
        if x is None and n == '<cur>' and getattr(loop, 'stop', None) is not None:
            x = loop.stop       # (the end of the group)
            return chain().before(x, *a[:1])
        return chain().before(x, *a)

    def both(fn):
        return lambda v: True if v.vals[n] is None or e0 is None else fn(v.vals[n])
    keys = ['n', 'g'] + sorted(g.keys)
    p0 = {k: P(e0, k) for k in keys}
    a0 = {k: ch.after(e0, k) for k in keys}
    i0g = P(e0, 'g', True)
    add(f'{n} at or after its start', lambda v: P(v.vals[n]) >= p0['n'])
    add(f'{n} at or before its start', both(lambda x: P(x) <= p0['n']))
    add(f'no group starts after {n}, to its start', both(lambda x: i0g - P(x, 'g', True) == 0))
    add(f'no group starts after the start of {n}, to it', both(lambda x: P(x, 'g', True) - i0g == 0))
    add(f'{n} starts a group', lambda v: True if v.vals[n] is None else chain().hd(v.vals[n]))
    for i, acc in ints:
        i0 = entry.get(i)
        if i0 is None:
            continue
        for key in keys:
            kn = key if isinstance(key, str) else key.name
            add(f'{i} changes as the {kn} after {n}',
                # (going backwards, the end of the list is before its first node)
                lambda v, key=key, i=i, i0=i0: True if v.vals[i] is None else
                v.vals[i] - i0 == chain().after(v.vals[n], key) - a0[key])
            for d in (1, -1):
                add(f'{i} changes as {n} by {kn} {d:+d}',
                    lambda v, d=d, key=key, i=i, i0=i0: True if v.vals[i] is None else
                    (v.vals[i] - i0) == (P(v.vals[n], key) - p0[key]) * d)
    for b, x in entry.items():
        if kind(x) == 'bool':
            add(f'{b} exactly when {n} is at its start', lambda v, b=b: Iff(v.vals[b], P(v.vals[n]) == p0['n']))
            add(f'not {b} exactly when {n} is at its start', lambda v, b=b: Iff(Not(v.vals[b]), P(v.vals[n]) == p0['n']))
    for x, ks in loop.kinds.items():
        if 'none' in ks and len(ks) > 1 and x != n:
            def none(v, x=x):
                return Iff(v.vals[x] is None, P(v.vals[n]) == p0['n'])
            add(f'{x} is None exactly when {n} is at its start', none, lambda v, none=none: G.E.assume(none(v)))
        for y, get in (('', lambda z: z), ('.start', lambda z: z.start), ('.end', lambda z: z.end)):
            if ('range' if y else 'verse') not in ks:
                continue

            def verse(v, x=x, get=get, y=y):
                z = v.vals[x]
                return get(z) if (S.isrange(z) if y else S.isverse(z)) else None
            if g.bounds:
                add(f'{x}{y} is a verse', lambda v, verse=verse: verse(v) is None or W.valid(g.f, W.t(verse(v))))
            for name, (key, fn) in g.bounds.items():
                add(f'{x}{y} is {name} exactly when {key.name} to {n}', lambda v, verse=verse, key=key, fn=fn:
                    verse(v) is None or Iff(fn(verse(v)), P(v.vals[n], key) > 0))
            if g.bounds and e0 is not None and S.isrange(ch.val(e0)):
                r = ch.val(e0)
                add(f'{x}{y} not after the first start', lambda v, verse=verse, r=r: verse(v) is None or
                    W.idx(g.f, W.t(verse(v))) <= W.idx(g.f, W.t(r.start)))
                add(f'{x}{y} not before the first end', lambda v, verse=verse, r=r: verse(v) is None or
                    W.idx(g.f, W.t(verse(v))) >= W.idx(g.f, W.t(r.end)))
    for key in sorted(g.keys):
        add(f'no {key.name} from its start back to {n}',
            lambda v, key=key: chain().after(v.vals[n], key) == a0[key])
        add(f'no {key.name} from its start to {n}', lambda v, key=key: P(v.vals[n], key) == p0[key])
    if g.wanted is not None and '<item>' in entry:
        old = entry['<item>']
        if old is not None:
            def done(v):
                x = v.vals['<item>']
                if x is None:
                    return False
                ok = And(Iff(x[1], old[1]), Ite(P(v.vals[n]) > g.q, H.same(x[0], g.expect[0]), H.same(x[0], old[0])))
                return ok
            add(f'the item at q* is as wanted once {n} is past it', done)


def atoms_of(const, changing, g):
    '''Whether p* is in a range or list that does not change.'''
    atoms = {}
    for c, x in const.items():
        if H.issymlist(x):
            if not any(x is y for y in changing.values()):
                atoms[c] = x._chain.total(g.cov) > 0
        elif S.isrange(x):
            atoms[c] = g.cov.fn(x) > 0
    return atoms


def _search_candidates(n, entry, const, changing, g, add, loop):
    '''About a loop that looks for ranges in a list.'''
    ch = chain_of(n, entry.get(n), g, loop)
    if ch is None or any(ch.L is L for L in changing.values()):
        return
    for t, T in atoms_of(const, changing, g).items():
        add(f'no cover before {n} if {t}', lambda v, T=T: Implies(T, ch.before(v.vals[n], g.cov) == 0))
        add(f'{t} if cover before {n}', lambda v, T=T: Implies(ch.before(v.vals[n], g.cov) > 0, T))
    for t, r in const.items():
        if not S.isrange(r):
            continue
        name = f'outside {t} {id(r)}'
        G.E.notes.append(r)     # (so that the id remains its own)

        def outside(v, r=r):
            (s, e), (s2, e2) = W.span(g.f, v), W.span(g.f, r)
            return Not(And(s <= s2, e2 <= e))

        def part(v):
            c = H.Chain(ch.L, ch.cells if v.vals[n] is None else ch.cells[:ch.index(v.vals[n])])
            c.vals = ch.vals
            return c
        add(f'none before {n} includes {t}', lambda v, name=name, outside=outside: H.holds_all(part(v), name, outside),
            lambda v, name=name, outside=outside: H.Region(part(v), name, pred=outside))


def _item_candidates(entry, g, add):
    """About the item at the arbitrary position q*, if there is one: (value, head)."""
    if '<item>' not in entry:
        return
    old = entry['<item>']

    def unchanged(v, k):
        x = v.vals['<item>']
        if x is None or old is None:
            return x is old
        return H.same(x[0], old[0]) if k == 0 else Iff(x[1], old[1])

    def expected(v, k):
        x = v.vals['<item>']
        if x is None:
            return True
        if g.expect is None:
            return False
        return H.same(x[0], g.expect[0]) if k == 0 else False if g.expect[1] is None else Iff(x[1], g.expect[1])
    for k, what in enumerate(('value', 'group')):
        add(f'the {what} of the item at q* is unchanged', lambda v, k=k: unchanged(v, k))
        add(f'the {what} of the item at q* is as expected', lambda v, k=k: expected(v, k))


def measures(kinds, const, g, loop):
    '''Candidates (label, value fn, whether the value is bounded fn): must grow strictly on every iteration.'''
    f = g.f
    books, ints, verses, cbooks, cints, cverses = _terms(kinds, const)
    if g.plain:
        books, verses, cbooks, cverses = [], [], [], []
    out = []
    for bn, b in books + cbooks:
        for cn, c in ints:
            for s in (1, -1):
                out.append((f'{"" if s == 1 else "-"}rank({bn},{cn})',
                            lambda v, b=b, c=c, s=s: W.crank(b(v), c(v)) * s if b(v) is not None and c(v) is not None else None,
                            lambda v, b=b, c=c: W.validc(b(v), c(v)) if b(v) is not None and c(v) is not None else False))
    for n, x in verses:
        for s in (1, -1):
            out.append((f'{"" if s == 1 else "-"}idx({n})',
                        lambda v, x=x, s=s: W.idx(f, W.t(x(v))) * s if x(v) is not None else None,
                        lambda v, x=x: W.valid(f, W.t(x(v))) if x(v) is not None else False))
    for n, i in ints:
        out.append((f'-{n}', lambda v, i=i: -i(v) if i(v) is not None else None,
                    lambda v, i=i: i(v) >= 0 if i(v) is not None else False))
    for n, ks in kinds.items():
        if 'node' in ks and 'lost' not in ks:
            def left(v, n=n, d=1):
                x = v[n]
                if x is None:
                    return None
                if n == '<cur>' and hasattr(loop, 'chain'):
                    ch = loop.chain
                elif x._L is None:
                    return None
                else:
                    ch = x._L._chain
                return -ch.after(x) if d == 1 else -ch.before(x)
            if g.size is not None and n != '<cur>':
                def verses_left(v, n=n):
                    x = v[n]
                    if x is None or x._L is None:
                        return None
                    ch = x._L._chain
                    return ch.before(x, g.size) - ch.total(g.size)
                out.append((f'verses from {n} on', verses_left, lambda v, n=n: v[n] is not None))
            for d in (1, -1):
                out.append((f'nodes {"after" if d == 1 else "before"} {n}', lambda v, left=left, d=d: left(v, d=d),
                            lambda v, n=n: v[n] is not None))
    return out


class Invariants:
    def head(self, loop, info, names, env):
        e = G.E
        g = e.ghost
        if g is None:
            raise Unsupported(f'loop without a bound: {loop.lid}')
        vals = {n: env[n] for n in names if n in env}
        vals.update(loop.iter_values())
        glists = {}
        for n, x in env.items():
            if H.issymlist(x) and not any(y is x for y in glists.values()):
                glists[n] = x
        for n in glists:
            if n in info.glists:
                self._totals(n, glists[n], g, vals)
                if g.lrels:
                    # what is next to a node matters
                    for x in list(vals.values()):
                        if H.issym(x) and x._L is glists[n] and x._L._chain.has(x):
                            x._L._chain.nbr(x, 1)
                            x._L._chain.nbr(x, -1)
        for k, x in g.values.items():
            vals[f'<{k}>'] = x
        lists = {n: x for n, x in env.items() if isinstance(x, VList)}
        if loop.state is None:
            return self._enter(loop, info, names, vals, lists, env, glists)
        self._back(loop, info, vals, lists, env, glists)

    def _totals(self, n, L, g, vals):
        '''What a changing list looks like from outside.'''
        if not H.clean(L):
            raise Unsupported('a loop that goes on with changed links')
        ch = L._chain
        for k in ['n', 'g'] + g.keys:
            vals[f'<{n}.{k if isinstance(k, str) else k.name}>'] = ch.total(k)
        if g.q is not None and L is g.list:
            vals['<item>'] = None
            if g.q < ch.n:
                x = ch.at(g.q)
                vals['<item>'] = (ch.val(x), ch.hd(x))

    def _hold(self, info, cands, view, when):
        '''Drop the candidates that do not hold now.'''
        e = G.E
        alive = [c for c in cands if c.label not in info.dropped]
        if e.replaying:
            return alive
        exprs = []
        for c in alive:
            try:
                x = c.fn(view)
            except KeyError:
                x = False
            exprs.append(x if isinstance(x, (bool, SymBool)) else bool(x))
        bad = [alive[i] for i in e.falsified(exprs)]
        for c in bad:
            info.dropped.add(c.label)
            e.changed = True
        return [c for c in alive if c.label not in info.dropped]

    def _enter(self, loop, info, names, vals, lists, env, glists):
        e = G.E
        g = e.ghost
        entry = dict(vals)
        vals.pop('<item>', None)
        for n, x in vals.items():
            ks = info.kinds.setdefault(n, set())
            if kind(x) not in ks:
                ks.add(kind(x))
                info.learn(n, kind(x))
                if len(ks) > 1:
                    raise Restart(f'{loop.lid}: {n} can be {kind(x)}')
        mutated = {n: x for n, x in lists.items() if n in info.lists and n not in vals}
        const = {n: x for n, x in env.items() if n not in vals and n not in info.lists}
        view = View(vals, {n: summary(x) for n, x in mutated.items()})
        view.vals = entry
        changing = {n: L for n, L in glists.items() if n in info.glists}
        loop.kinds = info.kinds
        cands = candidates(info.kinds, const, entry, mutated, g, loop, changing)
        if info.only is not None:
            for c in cands:
                if c.label not in info.only:
                    info.dropped.add(c.label)
            cands = [c for c in cands if c.label in info.only]
        alive = self._hold(info, cands, view, 'entry')
        # havoc
        new = {}
        for n, L in changing.items():
            if any(H.issym(x) and x._L is L for x in const.values()):
                raise Unsupported('a node is remembered while its list changes')
            hint = n + "'"
            e.touched.append(L)     # (for the loops around this one)
            if n in info.heads:
                # the same items, in any groups
                L._chain.regroup()
                for k in ['n', 'g'] + g.keys:
                    new[f'<{n}.{k if isinstance(k, str) else k.name}>'] = L._chain.total(k)
                continue
            ch = H.Chain.arbitrary(L, hint)
            gap = ch.cells[0]
            for k in ['n', 'g'] + g.keys:
                new[f'<{n}.{k if isinstance(k, str) else k.name}>'] = gap.sum(k)
            L.__dict__['_chain'] = ch
            L.__dict__['_reabs'] = True
        for n, x in vals.items():
            if n in new:
                continue
            ks = sorted(info.kinds[n])
            k = ks[e.choose(len(ks))]
            if k == 'int':
                new[n] = e.int(n)
            elif k == 'bool':
                new[n] = e.bool(n)
            elif k == 'none':
                new[n] = None
            elif k == 'lost':
                new[n] = H.POISON       # (a node that has left its list: nothing is known of it)
            elif k == 'book':
                new[n] = SymBook(e.int(n))
            elif k == 'verse':
                new[n] = S.fresh_verse(n)
            elif k == 'range':
                new[n] = S.fresh_range(n)
            elif k == 'node':
                ch = chain_of(n, x, g, loop)
                if ch is None:
                    raise Unsupported('a node of an unknown list')
                if n != '<cur>' or loop.frozen is None:
                    ch = ch.L._chain
                new[n] = ch.any(e.choose(len(ch.cells))) if len(ch.cells) else e.assume(False)
            else:
                new[n] = x
        for n, vl in mutated.items():
            ok = f'{n} is a tiling' not in info.dropped
            t = Tile(e.int(n + '.n'), e.int(n + '.hi') if ok else None,
                     [p for p in g.preds if f'{n} all {p}' not in info.dropped] if ok else (), ok)
            vl.prefix = t
            list.clear(vl)
            e.assume(t.facts())
        for k in g.values:
            g.values[k] = new[f'<{k}>']
        if loop.iter_values():
            loop.set_iter(new)
            for _, x in loop.iter_facts():
                e.assume(x)
        self._override(loop, info, entry, new, g)
        full = dict(new)
        for n, L in changing.items():
            if L is g.list and g.q is not None:
                t = {}
                self._totals(n, L, g, t)
                full['<item>'] = t['<item>']
        view2 = View(full, {n: summary(x) for n, x in mutated.items()})
        unknown = []
        for c in alive:
            if c.assume is not None:
                c.assume(view2)
                continue
            x = c.fn(view2)
            if x is False:
                unknown.append(c)
            elif x is not True:
                e.assume(x)
        if unknown:
            e.feasible()        # (the others may exclude this case)
            # not false but unknown: it is about a summary that the other candidates left no longer describe
            info.dropped.update(c.label for c in unknown)
            r = Restart(f'{loop.lid}: {unknown[0].label} cannot be assumed')
            r.structural = False
            raise r
        e.feasible()
        snap = {n: (x.prefix, list.__len__(x)) for n, x in lists.items()}
        loop.state = (cands, new, mutated, const, snap, dict(lists))
        loop.wmark, loop.tmark = len(e.wlog), len(e.touched)
        loop.glists = glists
        loop.gsnap = {n: (L._chain, list(L._chain.cells), dict(L._chain.vals)) for n, L in glists.items()}
        loop.m0 = [] if e.replaying and False else \
            [(label, fn, bounded, fn(new), bounded(new)) for label, fn, bounded in measures(info.kinds, const, g, loop)]
        info.used |= {c.label for c in alive}
        return {n: new[n] for n in names if n in new}

    def _override(self, loop, info, entry, new, g):
        '''The nodes that the loop has passed have the attributes it sets.'''
        if not info.over:
            return
        e = G.E
        n, d, over = info.over
        e0, x = entry.get(n), new.get(n)
        ch = chain_of(n, e0, g, loop)
        if ch is not None and e0 is None and ch.end(d) is None:
            return
        if e0 is None or n not in new or e0 is not ch.end(d):
            raise Unsupported(f'{loop.lid}: nodes are changed, from the middle of a list')
        cs = ch.cells if d == 1 else ch.cells[::-1]
        for c in cs:
            if c is x:
                break
            H.override(c, over)
            e.wlog += [(c, k) for k in over]
        e.touched.append(ch.L)
        ch.L.__dict__['_dirty'] = True

    def _written(self, loop, info, new, vals, g):
        '''Whether the links written in an iteration are those of the nodes it passed.'''
        e = G.E
        log = [(x, k) for x, k in e.wlog[loop.wmark:]
               if not (H.issymlist(x) and x._born >= loop.tmark or H.issym(x) and x._L is not None and x._L._born >= loop.tmark)]
        if not log:
            return
        for n in new:
            if kind(new[n]) != 'node':
                continue
            x = new[n]
            ch = chain_of(n, x, g, loop)
            for d in (1, -1):
                cs = ch.cells if d == 1 else ch.cells[::-1]
                i = next(k for k, c in enumerate(cs) if c is x)
                y = vals.get(n)
                passed = []
                for c in cs[i:]:
                    if c is y:
                        break
                    passed.append(c)
                if y is None:
                    # (the rest of the list is passed; gaps in it are empty)
                    for c in passed:
                        if isinstance(c, H.Gap) and not e.known_rec(c.n == 0):
                            break
                    passed = [c for c in passed if not isinstance(c, H.Gap)]
                elif not any(c is y for c in cs[i:]):
                    continue
                if any(isinstance(c, H.Gap) for c in passed) or not all(any(c is z for c in passed) for z, _ in log):
                    continue
                over = {}
                ok = True
                for k in sorted({k for _, k in log}):
                    descs = None
                    for c in passed:
                        v = getattr(c, k)
                        ds = {s for s, w in H.CONST.items() if v is w} | \
                            {s for s in ('prev', 'next') if ch.get(c, s) is v}
                        descs = ds if descs is None else descs & ds
                    if info.over and info.over[2].get(k) in descs:
                        over[k] = info.over[2][k]
                    elif descs and not info.over:
                        # (an end of the list is None)
                        over[k] = sorted(descs, key=lambda s: (s in H.CONST) == (k in ('prev', 'next')))[0]
                    else:
                        ok = False
                if not ok:
                    continue
                if not info.over:
                    info.over = info.shared['over'] = (n, d, over)
                    raise Restart(f'{loop.lid}: sets {over}')
                if info.over == (n, d, over):
                    return
        raise Unsupported(f'{loop.lid}: nodes are changed')

    def _back(self, loop, info, vals, lists, env, glists):
        e = G.E
        g = e.ghost
        cands, new, mutated, const, snap, oldlists = loop.state
        info.backedges += 1
        entry = vals
        vals = dict(vals)
        vals.pop('<item>', None)
        self._written(loop, info, new, vals, g)
        for L in e.touched[loop.tmark:]:
            if info.over and not H.clean(L) or L is None or L._born >= loop.tmark:
                continue
            names = [n for n, x in loop.glists.items() if x is L]
            if not names:
                raise Unsupported(f'{loop.lid}: a list without a name is changed')
            same = self._only_heads(L, loop.gsnap[names[0]])
            if names[0] in info.heads and not same:
                info.shared['heads'].discard(names[0])
                info.heads.discard(names[0])
                raise Restart(f'{loop.lid}: items of {names[0]} are changed')
            if names[0] not in info.glists:
                info.glists.add(names[0])
                info.shared['glists'].add(names[0])
                if same:
                    info.shared['heads'].add(names[0])
                    info.heads.add(names[0])
                raise Restart(f'{loop.lid}: {names[0]} is changed')
        for n, (pre, k) in snap.items():
            x = oldlists[n]
            if n not in mutated and (x.prefix is not pre or list.__len__(x) != k):
                info.lists.add(n)
                info.shared['lists'].add(n)
                raise Restart(f'{loop.lid}: {n} is changed')
        for n in new:
            k = kind(vals[n])
            if k not in info.kinds[n]:
                info.kinds[n].add(k)
                info.learn(n, k)
                raise Restart(f'{loop.lid}: {n} can be {k}')
            if k == 'obj' and not (vals[n] is new[n] or vals[n] == new[n]):
                raise Unsupported(f'{loop.lid}: {n} takes unknown values')
            if k == 'list' and vals[n] is not new[n]:
                raise Unsupported(f'{loop.lid}: {n} takes unknown lists')
        view = View(entry, {n: summary(x) for n, x in mutated.items()})
        self._hold(info, cands, view, 'back')
        if not e.replaying:
            if loop.iter_values() and not (isinstance(loop, H.ChainIter) and loop.frozen is None):
                info.measure = ['the iterator']
            else:
                self._measure(loop, info, vals)
        raise PathEnd

    def _only_heads(self, L, snap):
        ch, cells, vals = snap
        return H.clean(L) and L._chain is ch and [id(c) for c in H.flatten(cells)] == [id(c) for c in ch.cells] and \
            {k: id(v[1]) for k, v in vals.items()} == {k: id(v[1]) for k, v in ch.vals.items()}

    def _measure(self, loop, info, vals):
        e = G.E
        alive = []
        for label, fn, bounded, a, b0 in loop.m0:
            if label in info.measures_dropped:
                continue
            b = fn(vals)
            if a is None or b is None:
                # None counts as the largest value
                ok = a is not None and e.known(b0)
            else:
                ok = e.known(And(a < b, b0))
            if not ok:
                info.measures_dropped.add(label)
            else:
                alive.append(label)
        info.measure = alive


S.set_invariants(Invariants())
