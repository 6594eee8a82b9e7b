'''The verifier's driver: which obligations a property has, and how each contract is discharged.

jobs(prop, tier) -> list of jobs; run((prop, job, tier)) -> report; summarise(prop, tier, reports) -> dict
'''
import linecache
import os
import time
import traceback
import types

import z3

from . import engine as G, symex as S, contracts as C, invariants as INV, heap as H, lists, strings as T, texts
from .engine import Engine, SymInt, SymBool, Unsupported, Restart, Budget, PathEnd, Infeasible, zi, zb
from .spec import And, Or, Not, Implies, Iff, Ite, lexlt, eqt
from .symex import W, SymBook, mkverse, mkrange

GROUPS = {}


class Outcome:
    __slots__ = ('ok', 'val', 'exc', 'err')

    def __init__(self, ok, val=None, exc=None, err=None):
        self.ok, self.val, self.exc, self.err = ok, val, exc, err


def truth(x):
    return x if isinstance(x, (bool, SymBool)) else bool(x)


def namespace():
    r = S.ref
    return types.SimpleNamespace(BibleVerse=r.BibleVerse, BibleRange=r.BibleRange, BibleRangeList=r.BibleRangeList,
                                 BibleBook=r.BibleBook, BibleFlag=r.BibleFlag, truth=truth, text=T.text)


# ---------------------------------------------------------------------------------------------------------------
# Arguments
# ---------------------------------------------------------------------------------------------------------------

class Args:
    '''The arguments of a call; f and m say whether verse 0s and multi-book ranges are enabled by the flags in effect.'''

    def __init__(_s, **kw):
        _s.__dict__.update(kw)

    @property
    def m(self):
        return False if self.eff is None else self.eff.has('MULTIBOOK')


def pick_flags(con, a):
    '''Choose the flags argument and the global flags. What need not be known of them is not decided.'''
    e = G.E
    kinds = [k for _, k in con.params]
    S.GLOBAL.reset()
    a.flags = a.eff = None
    a.f = False
    if 'flags' in kinds or 'noflags' in kinds:
        explicit = 'flags' in kinds and (con.explicit or not e.choose(2))
        a.f = bool(e.choose(2))
        a.eff = S.LazyFlag.make(VERSE_0=a.f)
        if explicit:
            a.flags = a.eff
        else:
            S.GLOBAL.value = a.eff


def make(kind, name, a):
    e = G.E
    f = a.f
    if kind == 'book':
        b = SymBook(e.int(name))
        e.assume(W.validb(b.order))
        return b
    if kind == 'optbook':
        return None if e.choose(2) else make('book', name, a)
    if kind == 'int':
        return e.int(name)
    if kind == 'optint':
        return None if e.choose(2) else e.int(name)
    if kind in ('nat', 'pos'):
        n = e.int(name)
        e.assume(n >= (1 if kind == 'pos' else 0))
        return n
    if kind == 'optpos':
        return None if e.choose(2) else make('pos', name, a)
    if kind == 'bool':
        return bool(e.choose(2))
    if kind == 'lazybool':
        return e.bool(name)
    if kind in ('verse', 'anyverse'):
        v = S.fresh_verse(name)
        e.assume(W.valid(True if kind == 'anyverse' else f, W.t(v)))
        touch(v, f, kind)
        return v
    if kind in ('range', 'anyrange'):
        r = S.fresh_range(name)
        e.assume(W.valid_range(True if kind == 'anyrange' else f, r))
        touch(r.start, f, kind)
        touch(r.end, f, kind)
        return r
    if kind == 'ref':
        return make('verse' if e.choose(2) else 'range', name, a)
    if kind == 'glist':
        return H.mklist(name)
    if kind in ('rlist', 'anylist'):
        L = H.mklist(name)
        any_ = kind == 'anylist'

        def valid(v):
            touch(v.start, f, kind)
            touch(v.end, f, kind)
            return W.valid_range(True if any_ else f, v)
        L.__dict__['_pred'] = valid
        H.Region(L._chain, 'valid', pred=valid)
        L.__dict__['_chain0'] = L._chain.copy()
        return L
    if kind == 'bref':
        # a verse, a range, another list or this very list
        k = e.choose(4)
        if k == 3:
            return a.self
        return make(('verse', 'range', 'rlist')[k], name, a)
    if kind == 'newlist':
        return H.unmade()
    if kind == 'pylist':
        return H.SymSeq(H.Chain.arbitrary(None, name))
    if kind in ('headof', 'staleof', 'viewof'):
        k = e.choose({'headof': 1, 'staleof': 2, 'viewof': 3}[kind])
        if kind == 'staleof':
            k += 1
        a.stale = k > 0
        if k == 2:
            x = H.classes()['SymNode'](None, False)
            x.__dict__['_last'] = S.fresh_range('removed')
            return x
        x = a.self._chain.any(0)
        e.assume(x._hd if k == 0 else Not(x._hd))
        return x
    if kind == 'items':
        k = e.choose(3)
        return a.self if k == 0 else H.mklist(name) if k == 1 else H.SymSeq(H.Chain.arbitrary(None, name))
    if kind == 'nodeof':
        return a.self._chain.any(0)
    if kind == 'badvalue':
        return [5, 'text', None, S.fresh_verse(name)][e.choose(4)]
    if kind == 'value':
        return S.fresh_range(name)
    raise Unsupported(f'argument kind {kind}')


def touch(v, f, kind):
    '''Make the position of an argument known to the theory.'''
    W.idx(f, W.t(v))
    if kind.startswith('any') and not f:
        W.idx(True, W.t(v))


def holds(kind, x, a):
    '''Whether x is known to satisfy the precondition its kind carries; None if it is of another type.'''
    e = G.E
    if kind == 'bool':
        return isinstance(x, bool)
    if kind == 'lazybool':
        return isinstance(x, (bool, SymBool))
    if kind in ('int', 'optint', 'nat', 'pos', 'optpos'):
        if x is None:
            return kind in ('optint', 'optpos')
        if not isinstance(x, (int, SymInt)):
            return False
        return True if kind in ('int', 'optint') else e.known_rec(x >= (0 if kind == 'nat' else 1))
    if kind in ('book', 'optbook'):
        if x is None:
            return kind == 'optbook'
        return isinstance(x, SymBook) and e.known_rec(W.validb(x.order))
    if kind == 'ref':
        kind = 'verse' if S.isverse(x) else 'range'
    if kind in ('verse', 'anyverse'):
        return S.isverse(x) and e.known_rec(W.valid(True if kind == 'anyverse' else a.f, W.t(x)))
    if kind in ('range', 'anyrange'):
        return S.isrange(x) and e.known_rec(W.valid_range(True if kind == 'anyrange' else a.f, x))
    return False


# ---------------------------------------------------------------------------------------------------------------
# Contracts in place of callees
# ---------------------------------------------------------------------------------------------------------------

def _arith(n, self, other, flags=None):
    return dict(self=self, n=other, flags=flags) if n else dict(self=self, other=other, flags=flags)


def _split_bind(self, *, by_book=False, by_chap=False, num_verses=None, regroup=True, flags=None):
    return dict(self=self, by_book=by_book, by_chap=by_chap, num=num_verses, regroup=regroup, flags=flags)


# (class, method) -> list of (contract name, binder of the public signature)
STUBS = {
    ('BibleVerse', 'add'): [('BibleVerse.add', lambda self, num_verses, flags=None:
                             dict(self=self, n=num_verses, flags=flags))],
    ('BibleVerse', 'subtract'): [('BibleVerse.subtract(n)', lambda self, other, flags=None:
                                  dict(self=self, n=other, flags=flags)),
                                 ('BibleVerse.subtract(verse)', lambda self, other, flags=None:
                                  dict(self=self, other=other, flags=flags))],
    ('BibleRange', 'split'): [('BibleRange.split', _split_bind)],
    ('BibleRange', 'verse_count'): [('BibleRange.verse_count', lambda self, flags=None: dict(self=self, flags=flags))],
    ('BibleRange', 'chap_count'): [('BibleRange.chap_count', lambda self, whole=False, flags=None:
                                    dict(self=self, whole=whole, flags=flags))],
}
# for lists only: the operations on their ranges
STUBS_LISTS = {('BibleRange', n): [(f'BibleRange.{n}', lambda self, other_ref, flags=None:
                                   dict(self=self, other=other_ref, flags=flags))]
               for n in ('union', 'intersection', 'difference')}
STUBS_LISTS.update({('BibleRange', n): [(f'BibleRange.{n}', lambda self, other_ref:
                                         dict(self=self, other=other_ref))] for n in ('is_disjoint', 'contains')})
STUBS_LISTS.update({('BibleRange', n): [(f'BibleRange.{n}', lambda self, flags=None: dict(self=self, flags=flags))]
                    for n in ('is_whole_chap', 'spans_start_chap', 'spans_end_chap', 'is_whole_book',
                              'spans_start_book', 'spans_end_book')})
STUBS_LISTS.update({('BibleRange', n): [(f'BibleRange.{n}', lambda self: dict(self=self))]
                    for n in ('verse_0_to_1', 'verse_1_to_0')})
STUBS_LISTS['BibleRange', 'book_count'] = [('BibleRange.book_count', lambda self, whole=False, flags=None:
                                            dict(self=self, whole=whole, flags=flags))]
COMPARISONS = ['__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__']


def _flags_in_effect(flags):
    if flags is None:
        flags = S.GLOBAL.read()
    if isinstance(flags, S.ref.BibleFlag):
        flags = S.LazyFlag.make(**{b.name: b in flags for b in S.ref.BibleFlag})
    return flags if isinstance(flags, S.LazyFlag) else None


def _isint(x):
    return isinstance(x, (int, SymInt)) and not isinstance(x, bool)


def _d_min_verse_num(self, chap_num, flags=None):
    fl = _flags_in_effect(flags)
    if not _isint(chap_num) or fl is None or not G.E.known_rec(W.validc(self.order, chap_num)):
        return NotImplemented
    return W.minv(fl.has('VERSE_0'), self.order, chap_num)


def _d_max_verse_num(self, chap_num):
    if not _isint(chap_num) or not G.E.known_rec(W.validc(self.order, chap_num)):
        return NotImplemented
    return W.mx(self.order, chap_num)


def _d_first_verse(self, chap_num=None, flags=None):
    fl = _flags_in_effect(flags)
    c = 1 if chap_num is None else chap_num
    if not _isint(c) or fl is None or not G.E.known_rec(W.validc(self.order, c)):
        return NotImplemented
    return mkverse(*W.firstc(fl.has('VERSE_0'), self.order, c))


def _d_last_verse(self, chap_num=None):
    c = W.nch(self.order) if chap_num is None else chap_num
    if not _isint(c) or not G.E.known_rec(W.validc(self.order, c)):
        return NotImplemented
    return mkverse(*W.lastc(False, self.order, c))


def _d_verse(self, *args, flags=None):
    if len(args) != 3 or not isinstance(args[0], SymBook) or not _isint(args[1]) or not _isint(args[2]):
        return NotImplemented
    t = (args[0].order, args[1], args[2])
    if not G.E.known_rec(W.valid(False, t)):
        fl = _flags_in_effect(flags)
        if fl is None or not fl.has('VERSE_0') or not G.E.known_rec(W.valid(True, t)):
            return NotImplemented
    for k, v in zip(('book', 'chap_num', 'verse_num'), args):
        object.__setattr__(self, k, v)


def _d_range(self, *args, start=None, end=None, flags=None):
    if args or not S.isverse(start) or not S.isverse(end):
        return NotImplemented
    e = G.E
    if not e.known_rec(Not(lexlt(W.t(end), W.t(start)))):
        return NotImplemented
    if not e.known_rec(start.book.order == end.book.order):
        fl = _flags_in_effect(flags)
        if fl is None or not fl.has('MULTIBOOK'):
            return NotImplemented
    object.__setattr__(self, 'start', start)
    object.__setattr__(self, 'end', end)


def _d_node_at(self, index):
    if not H.clean(self) or not _isint(index):
        return NotImplemented
    ch = self._chain
    if And(index >= -ch.n, index < ch.n):
        return ch.at(Ite(index < 0, index + ch.n, index))
    raise IndexError('list index out of range')


def _d_find_group_head(self, node):
    if not H.issymlist(self) or not H.issym(node) or node._L is not self:
        return NotImplemented
    ch = self._chain

    def fresh(x):
        return not ({'prev', 'is_group_head'} & x._written)
    if not fresh(node):
        return NotImplemented
    if ch.hd(node):
        return node
    h = ch.head_from(node, -1)
    if not all(fresh(c) for c in ch.cells[ch.index(h):ch.index(node)] if H.issym(c)):
        return NotImplemented
    return h


def _child(L, x):
    return H.clean(L) and H.issym(x) and x._L is L


def _truth(x):
    return isinstance(x, (bool, SymBool))


def _d_insert_before(self, node, value, new_group=False):
    if not _child(self, node) or not S.isrange(value) or not _truth(new_group):
        return NotImplemented
    ch = self._chain
    h = ch.hd(node)
    ch.insert(node, -1, value, Or(new_group, h))
    ch.set_head(node, And(h, new_group))


def _d_insert_after(self, node, value, new_group=False):
    if not _child(self, node) or not S.isrange(value) or not _truth(new_group):
        return NotImplemented
    self._chain.insert(node, 1, value, new_group)


def _d_insert_first(self, value):
    if not H.clean(self) or not S.isrange(value) or not G.E.known_rec(self._chain.n == 0):
        return NotImplemented
    for c in self._chain.cells:
        c.drop()
    self._chain.insert(None, 1, value, True)


def _d_pop_node(self, node):
    if not _child(self, node):
        return NotImplemented
    return self._chain.remove(node)


def _d_new_group_at(self, node):
    if not _child(self, node):
        return NotImplemented
    self._chain.set_head(node, True)


def _d_clear(self):
    if not H.clean(self):
        return NotImplemented
    self._chain.clear()


def _d_clear_groups(self):
    if not H.clean(self):
        return NotImplemented
    self._chain.clear_groups()


def _items(x):
    '''The items that iterating over an argument gives, if that is known.'''
    if hasattr(x, 'sym_list'):
        x = x.sym_list()
    if isinstance(x, H.SymSeq):
        return x.chain
    return None


def _d_extend(self, iterable):
    ch = _items(iterable) if H.clean(self) else None
    if ch is None:
        return NotImplemented
    self._chain.extend(ch.copy(), False)


def _d_append_group(self, iterable):
    ch = _items(iterable) if H.clean(self) else None
    if ch is None:
        return NotImplemented
    self._chain.extend(ch.copy(), True)


def _d_sort(self):
    if not H.clean(self) or G.E.ghost is None or 'sorted' not in G.E.ghost.lrels:
        return NotImplemented
    self._chain.sort(G.E.ghost, G.E.ghost.lrels['sorted'])


def _d_regroup(self, flags=None):
    if not H.clean(self):
        return NotImplemented
    self._chain.regroup()


def _d_merge(self, flags=None):
    g, a = G.E.ghost, G.E.args
    fl = _flags_in_effect(flags)
    if not H.clean(self) or fl is None or g is None or 'apart' not in g.lrels or fl.has('VERSE_0') is not a.f or \
            not G.E.known_rec(H.holds_all(self._chain, 'valid', g.lpreds['valid'])):
        return NotImplemented
    m = fl.has('MULTIBOOK')
    rels = {'apart': g.lrels['apart']} if m is a.m else {f'apart {m}': lambda v, w: g.lrels['apart'](v, w, m)}
    self._chain.merge(a.cov, {'valid': g.lpreds['valid']}, rels)


def _d_setop(name, inplace):
    def effect(self, other_ref, flags=None):
        from . import lists
        g, a = G.E.ghost, G.E.args
        fl = _flags_in_effect(flags)
        if not H.clean(self) or fl is None or g is None or g.cov is None or fl.has('VERSE_0') is not a.f:
            return NotImplemented

        def valid(L):
            return H.clean(L) and G.E.known_rec(H.holds_all(L._chain, 'valid', g.lpreds['valid']))

        def inside(x):
            if H.issymlist(x):
                old = x._chain.copy()
                return lambda key: old.total(key) > 0
            return lambda key: key.fn(mkrange(x, x) if S.isverse(x) else x) > 0
        if not valid(self) or not (valid(other_ref) or holds('verse', other_ref, a) or holds('range', other_ref, a)):
            return NotImplemented
        m = fl.has('MULTIBOOK')
        rels = {'apart': g.lrels['apart']} if m is a.m else {f'apart {m}': lambda v, w: g.lrels['apart'](v, w, m)}
        x, y = inside(self), inside(other_ref)
        c = lambda key: lists._OPS[name](x(key), y(key))        # noqa: E731
        L = self if inplace else H.mklist(name)
        L._chain.arrange(g.cov, c, {'valid': g.lpreds['valid']}, rels)
        return None if inplace else L
    return effect


# (class, method) -> (contract name, the value the contract gives, or NotImplemented where the real code is run instead)
VALUES = {
    ('BibleBook', 'min_verse_num'): ('BibleBook.min_verse_num', _d_min_verse_num),
    ('BibleBook', 'max_verse_num'): ('BibleBook.max_verse_num', _d_max_verse_num),
    ('BibleBook', 'first_verse'): ('BibleBook.first_verse', _d_first_verse),
    ('BibleBook', 'last_verse'): ('BibleBook.last_verse', _d_last_verse),
    ('BibleVerse', '__init__'): ('BibleVerse.__init__(book,chap,verse)', _d_verse),
    ('BibleRange', '__init__'): ('BibleRange.__init__(start,end)', _d_range),
    ('GroupedList', 'sort'): ('GroupedList.sort', _d_sort),
    ('BibleRangeList', 'regroup'): ('BibleRangeList.regroup', _d_regroup),
    ('BibleRangeList', 'merge'): ('BibleRangeList.merge', _d_merge),
    ('GroupedList', 'clear'): ('GroupedList.clear', _d_clear),
    ('GroupedList', 'clear_groups'): ('GroupedList.clear_groups', _d_clear_groups),
    ('GroupedList', 'extend'): ('GroupedList.extend', _d_extend),
    ('GroupedList', 'append_group'): ('GroupedList.append_group', _d_append_group),
    ('GroupedList', '_node_at'): ('GroupedList._node_at', _d_node_at),
    ('GroupedList', '_find_group_head'): ('GroupedList._find_group_head', _d_find_group_head),
    ('GroupedList', '_insert_before'): ('GroupedList._insert_before', _d_insert_before),
    ('GroupedList', '_insert_after'): ('GroupedList._insert_after', _d_insert_after),
    ('GroupedList', '_insert_first'): ('GroupedList._insert_first', _d_insert_first),
    ('GroupedList', '_pop_node'): ('GroupedList._pop_node', _d_pop_node),
    ('GroupedList', '_insert_new_group_at_node'): ('GroupedList._insert_new_group_at_node', _d_new_group_at),
}

for _n in ('union', 'intersection', 'difference', 'sym_difference'):
    VALUES['BibleRangeList', _n] = (f'BibleRangeList.{_n}', _d_setop(_n, False))
    VALUES['BibleRangeList', _n + '_update'] = (f'BibleRangeList.{_n}_update', _d_setop(_n, True))


def call_stub(con, args, sets):
    '''The outcome of a call according to the callee's contract; NotImplemented if the contract does not cover it.'''
    e = G.E
    a = Args(**args)
    kinds = dict(con.params)
    a.f, a.eff = False, None
    if 'flags' in kinds:
        fl = getattr(a, 'flags', None)
        if fl is None:
            fl = S.GLOBAL.read()
        if isinstance(fl, S.ref.BibleFlag):
            fl = S.LazyFlag.make(**{b.name: b in fl for b in S.ref.BibleFlag})
        if not isinstance(fl, S.LazyFlag):
            return NotImplemented
        a.f, a.eff = fl.has('VERSE_0'), fl
    for n, k in con.params:
        if k in ('flags', 'noflags'):
            continue
        if not holds(k, getattr(a, n), a):
            return NotImplemented
    e.stubs_used.add(con.name)
    e.modes_used.setdefault(con.name, set()).add(mode(con, a))
    kind = con.outs[e.choose(len(con.outs))]
    if kind == 'bool' and e.loose:
        return bool(e.choose(2))
    o = Outcome(True)
    if kind == 'verse':
        o.val = S.fresh_verse(con.name)
    elif kind == 'range':
        o.val = S.fresh_range(con.name)
    elif kind == 'none':
        o.val = None
    elif kind == 'int':
        o.val = e.int(con.name)
    elif kind == 'bool':
        o.val = e.bool(con.name)
    elif kind == 'list':
        o.val = con.stub(W, a)
    elif kind.startswith('list'):
        o.val = S.ref.BibleRangeList([S.fresh_range(con.name) for _ in range(int(kind[4:]))],
                                     flags=S.ref.BibleFlag.ALL)
    elif kind.startswith('exc:'):
        o.ok, o.exc = False, kind[4:]
    else:
        raise Unsupported(kind)
    if kind != 'list':
        W.assuming = con.bounds
        try:
            for label, x in con.post(W, a, o):
                e.assume(x if isinstance(x, (bool, SymBool)) else bool(x))
        finally:
            W.assuming = False
    e.feasible()
    if not o.ok:
        raise getattr(S.ref, o.exc)('according to the contract')
    return o.val


def mode(con, a):
    '''Which of the argument choices of a contract a call belongs to.'''
    return tuple(getattr(a, n) if k == 'bool' else getattr(a, n) is None for n, k in con.params
                 if k in ('bool', 'optpos', 'optint', 'optbook'))


class Installed:
    '''Replaces methods by their contracts for the duration of a proof, except those being proved.'''

    def __init__(self, without=()):
        self.without = set(without)
        self.saved = []

    def _set(self, cls, name, fn):
        self.saved.append((cls, name, cls.__dict__.get(name, _missing)))
        setattr(cls, name, fn)

    def __enter__(self):
        r = S.ref
        self.lists = 'list init' in self.without
        for (cn, mn), options in ({**STUBS, **STUBS_LISTS} if self.lists else STUBS).items():
            options = [(C.REGISTRY[n], b) for n, b in options if n not in self.without and n in C.REGISTRY]
            if not options:
                continue
            cls = getattr(r, cn)
            real = cls.__dict__.get(mn)
            if real is None:
                continue

            def stub(*args, _real=real, _options=options, **kw):
                if G.E is not None:
                    for con, bind in _options:
                        try:
                            d = bind(*args, **kw)
                        except TypeError:
                            continue
                        v = call_stub(con, d, None)
                        if v is not NotImplemented:
                            return v
                return _real(*args, **kw)
            self._set(cls, mn, stub)
        for (cn, mn), (name, fn) in VALUES.items():
            if name in self.without or name not in C.REGISTRY:
                continue
            cls = getattr(S.util if cn == 'GroupedList' else r, cn)
            real = cls.__dict__.get(mn)
            if real is None:
                continue

            def value(self, *args, _real=real, _fn=fn, _name=name, **kw):
                if G.E is not None and (isinstance(self, SymBook) or _name.split('.')[0] != 'BibleBook'):
                    try:
                        v = _fn(self, *args, **kw)
                    except TypeError:
                        v = NotImplemented
                    if v is not NotImplemented:
                        G.E.stubs_used.add(_name)
                        return v
                return _real(self, *args, **kw)
            self._set(cls, mn, value)
        if 'comparisons' not in self.without:
            for cn in ('BibleVerse', 'BibleRange'):
                cls = getattr(r, cn)
                for op in COMPARISONS:
                    self._set(cls, op, _comparison(cls, op, cls.__dict__.get(op)))
        if 'regroup' not in self.without and not self.lists:
            # contract: regrouping leaves the items as they are (C12)
            self._set(r.BibleRangeList, 'regroup', lambda self, flags=None: None)
        if 'strings' not in self.without:
            for cls in (r.BibleVerse, r.BibleRange, r.BibleRangeList, S.util.GroupedList._Node):
                for n in ('__str__', '__repr__', 'str'):
                    if n in cls.__dict__:
                        self._set(cls, n, lambda self, *a, **k: '<text>')
        else:
            T.ON[0] = True
            ps = S.loaded.parser if hasattr(S.loaded, 'parser') else S.ref.parser
            if '_parser' in ps.__dict__:
                self._set(ps, '_parser', lambda: T.Parser())
            self._set(r.BibleBook, 'from_str', classmethod(_from_str(r.BibleBook.__dict__['from_str'])))
        for n, d, what in (('__iter__', 1, 'value'), ('_node_iter', 1, 'node'), ('__reversed__', -1, 'value')):
            name = f'GroupedList.{n}'
            if name in self.without or n not in S.util.GroupedList.__dict__:
                continue

            def iterate(self, _real=S.util.GroupedList.__dict__[n], _d=d, _what=what, _name=name):
                if not H.issymlist(self):
                    return _real(self)
                G.E.stubs_used.add(_name)
                return H.Iterable_(self, _what, _d)
            self._set(S.util.GroupedList, n, iterate)
        GL = S.util.GroupedList
        if 'GroupedList.groups.__iter__' not in self.without and '__iter__' in GL.GroupViews.__dict__:
            def groups(self, _real=GL.GroupViews.__dict__['__iter__']):
                if not H.issymlist(self.parent):
                    return _real(self)
                G.E.stubs_used.add('GroupedList.groups.__iter__')
                return H.Iterable_(self.parent, 'group', 1)
            self._set(GL.GroupViews, '__iter__', groups)
            self._set(GL.GroupViews, 'sym_iter', lambda self: self.__iter__().sym_iter() if H.issymlist(self.parent) else None)
        if 'GroupView.__iter__' not in self.without and '__iter__' in GL.GroupView.__dict__:
            def group(self, _real=GL.GroupView.__dict__['__iter__']):
                x = self.group_head
                if not H.issym(x) or x._L is None or not H.issymlist(x._L):
                    return _real(self)
                G.E.stubs_used.add('GroupView.__iter__')
                return H.Iterable_(x._L, 'item of group', 1, x)

            def known(self):
                return H.issym(self.group_head) and self.group_head._L is not None
            self._set(GL.GroupView, '__iter__', group)
            self._set(GL.GroupView, 'sym_iter', lambda self: self.__iter__().sym_iter() if known(self) else None)
            self._set(GL.GroupView, 'sym_list', lambda self: self.__iter__().sym_list() if known(self) else None)
        if 'list init' in self.without:
            real, wo = r.BibleRangeList.__dict__['__init__'], self.without

            def make(self, *args, **kw):
                if G.E is not None and not H.issymlist(self):
                    H.morph(self, cells=[])
                    if len(args) == 1 and H.clean(args[0]) and isinstance(args[0], r.BibleRangeList) and \
                            'BibleRangeList.__init__(copy)' not in wo:
                        G.E.stubs_used.add('BibleRangeList.__init__(copy)')
                        self._chain.mirror(args[0]._chain)
                        return
                    self.__dict__['_unset'] = set(H.LATTRS)
                real(self, *args, **kw)
            self._set(r.BibleRangeList, '__init__', make)
            return self
        real = r.BibleRangeList.__dict__['__init__']

        def init(self, *args, **kw):
            if len(args) == 1 and isinstance(args[0], S.VList) and args[0].prefix is not None:
                t = INV.summary(args[0]).tile()
                self.__class__ = INV.abs_class()
                self.__dict__.update(_tile=t, _memo={})
                return
            real(self, *args, **kw)
        self._set(r.BibleRangeList, '__init__', init)
        return self

    def __exit__(self, *a):
        T.ON[0] = False
        for cls, name, old in reversed(self.saved):
            if old is _missing:
                delattr(cls, name)
            else:
                setattr(cls, name, old)


_missing = object()


def _from_str(real):
    def fn(cls, string, raise_error=False):
        v = T.from_str(cls, string, raise_error)
        return real.__func__(cls, string, raise_error) if v is NotImplemented else v
    return fn


def _comparison(cls, op, real):
    rng = cls is S.ref.BibleRange

    def key(x):
        return W.t(x.start) + W.t(x.end) if rng else W.t(x)

    def fn(self, other):
        if type(other) is not cls or G.E is None:
            if op == '__ne__' and real is None:
                r = self == other
                return r if r is NotImplemented else not r
            return real(self, other) if real is not None else NotImplemented
        x, y = key(self), key(other)
        G.E.stubs_used.add(f'{cls.__name__}.{op}')
        if op == '__eq__':
            return eqt(x, y)
        if op == '__ne__':
            return Not(eqt(x, y))
        if op == '__lt__':
            return lexlt(x, y)
        if op == '__ge__':
            return Not(lexlt(x, y))
        if op == '__gt__':
            return lexlt(y, x)
        return Not(lexlt(y, x))
    if op == '__eq__':
        cls_hash = cls.__hash__
    return fn


# ---------------------------------------------------------------------------------------------------------------
# Ghost state offered to loop invariants, per contract
# ---------------------------------------------------------------------------------------------------------------

def ghost_for(con, a):
    n = con.name
    if con.ghost is not None:
        return con.ghost(W, a, INV)
    return INV.Ghost(f=a.f)


# ---------------------------------------------------------------------------------------------------------------
# Verifying one contract
# ---------------------------------------------------------------------------------------------------------------

ODD = (TypeError, AttributeError, NameError, NotImplementedError, RecursionError, AssertionError, KeyError)


def _raised(ex):
    '''Whether an exception comes from a raise statement of the code, rather than from what the verifier cannot do.'''
    tb = ex.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    return os.path.dirname(f) == S.SRC and linecache.getline(f, tb.tb_lineno).strip().startswith('raise ')


def run_call(fn):
    '''The outcome of a call of the code under verification.'''
    try:
        return Outcome(True, fn())
    except ODD as ex:
        if _raised(ex):
            return Outcome(False, exc=type(ex).__name__, err=str(ex)[:100])
        raise Unsupported(f'{type(ex).__name__}: {ex}')
    except Exception as ex:
        return Outcome(False, exc=type(ex).__name__, err=str(ex)[:100])


def verify(con, deadline, without=None, only=None, hints=None):
    '''Discharge every clause of a contract on every path. Returns a report.'''
    S.load()
    S.loaded._bible_data = SYMDATA
    e = Engine(deadline=deadline)
    G._set(e)
    e.stubs_used = set()
    e.loose = con.loose
    e.modes_used = {}
    e.on_start = [W.reset]
    R = namespace()
    wo = set(without if without is not None else ()) | {con.name} | set(con.without)
    reached = {}
    rep = dict(contract=con.name, restarts=0)
    collecting, starts, finished = [True], [], {}
    e.cutlids = {}
    for lid, h in (hints or {}).items():
        e.cutlids[lid] = dict(kinds={n: set(k) for n, k in h['kinds'].items()}, lists=set(h['lists']),
                              labels=set(h['labels']), glists=set(h.get('glists', ())),
                              heads=set(h.get('heads', ())), over=None)
    t0 = time.time()

    def run():
        a = Args()
        pick_flags(con, a)
        for n, k in con.params:
            if k not in ('flags', 'noflags'):
                setattr(a, n, make(k, n, a))
        e.args = a
        if con.pre is not None:
            e.assume(con.pre(W, a))
        e.feasible()
        if collecting:
            starts.append(list(e.trace))
            rep.setdefault('starts', []).append((tuple(e.trace), mode(con, a)))
            return
        e.ghost = ghost_for(con, a)
        e.args = a
        o = run_call(lambda: con.call(R, a))
        e.feasible()
        e.after = True
        for label, x in con.post(W, a, o):
            if not isinstance(x, (bool, SymBool)):
                x = bool(x)
            ok = e.prove(label, x)
            if not ok and e.results[-1].status == 'refuted' and label in con.soft:
                e.results[-1].status = 'unknown'
            elif not ok and e.results[-1].status == 'refuted':
                e.results[-1].info = counterexample(e, con, a, x)
        k = 'returns' if o.ok else f'raises {o.exc}'
        reached[k] = reached.get(k, 0) + 1

    try:
        with Installed(wo):
            e.explore(run)
            collecting.clear()
            for st in (starts if only is None else [x for x in starts if only(x)]):
                t1 = time.time()
                done = sum(reached.values())
                for _ in range(S.MAXROUNDS):
                    keep = len(e.results)
                    e.changed = False
                    for i in e.loops.values():
                        i.backedges, i.used = 0, set()
                    before = dict(reached)
                    try:
                        e.explore(run, st)
                        if not e.changed:
                            break
                    except Restart as r:
                        if getattr(r, 'structural', True):
                            # what was refuted may have been about something else
                            e.loops = {}
                    del e.results[keep:]
                    reached.clear()
                    reached.update(before)
                    rep['restarts'] += 1
                else:
                    raise Unsupported('invariants do not stabilise')
                if sum(reached.values()) == done:
                    raise Unsupported('no path reaches the end of the function')
                if os.environ.get('VP_DEBUG'):
                    print(st, round(time.time() - t1, 2), e.paths, e.queries, round(e.solver_time, 1), rep['restarts'], len(e.loops), flush=True)
                finished.update(e.loops)
                e.loops = {}
        rep['status'] = 'done'
    except Unsupported as u:
        rep['status'], rep['reason'] = 'undecided', f'outside the verifier: {u}'
        if os.environ.get('VP_DEBUG'):
            traceback.print_exc()
    except Budget as b:
        rep['status'], rep['reason'] = 'undecided', f'budget: {b}'
    finally:
        G._set(None)
    if rep['status'] == 'done':
        for l in finished.values():
            if l.backedges and not getattr(l, 'measure', None):
                rep.setdefault('termination_unproved', []).append(l.lid)
    rep.update(results=[(r.label, r.status, r.info) for r in e.results], paths=e.paths, secs=time.time() - t0,
               solver_s=e.solver_time, queries=e.queries, stubs=sorted(e.stubs_used),
               modes={n: sorted(m) for n, m in e.modes_used.items()}, reached=dict(reached),
               loops=_loops(e, finished))
    return rep


def _loops(e, finished):
    '''What was inferred, per loop: the union over the contexts in which the loop is reached.'''
    out = {}
    for l in finished.values():
        d = out.setdefault(l.lid, dict(labels=set(), measures=set(),
                                       kinds={n: sorted(k) for n, k in sorted(e.cutlids[l.lid]['kinds'].items())},
                                       lists=sorted(e.cutlids[l.lid]['lists']),
                                       glists=sorted(e.cutlids[l.lid]['glists']),
                                       heads=sorted(e.cutlids[l.lid]['heads'])))
        if l.backedges:
            d['labels'] |= l.used - l.dropped
            d['measures'] |= set(getattr(l, 'measure', ()) or ())
    for d in out.values():
        d['labels'], d['measures'] = sorted(d['labels']), sorted(d['measures'])
    return out


def starts_of(con):
    '''The argument choices (decision prefixes) into which the verification of a contract is divided.'''
    return verify(con, time.time() + 60, only=lambda x: False)['starts']


SYMDATA = S.SymData()


# ---------------------------------------------------------------------------------------------------------------
# Counterexamples
# ---------------------------------------------------------------------------------------------------------------

def list_counterexample(e, con, a, neg):
    '''A small list on which the obligation fails, and the operation, for vp.oracles.Histories.'''
    L = a.self
    s = z3.Solver()
    s.set('timeout', 5000)
    for p in e.pc:
        s.add(p)
    s.add(neg)
    for lim in (3, 5, 8):
        s.push()
        s.add(zi(L._chain0.n) <= lim)
        if s.check() == z3.sat:
            break
        s.pop()
    else:
        return None
    m = s.model()

    def ev(t):
        return m.eval(zi(t), model_completion=True).as_long() if not isinstance(t, bool) else t

    def evb(t):
        return t if isinstance(t, bool) else z3.is_true(m.eval(zb(t), model_completion=True))
    vals, groups = [], []

    def code(v):
        t = tuple(ev(x) for x in W.t(v.start) + W.t(v.end))
        if t not in vals:
            vals.append(t)
        return vals.index(t)
    other = [1000]
    for c in L._chain0.cells:
        if isinstance(c, H.Gap):
            heads = ev(c.g)
            eqs = next((ev(q) for k, q in c.q.items() if k.name == 'equal items'), 0)
            for i in range(ev(c.n)):
                if i < heads or not groups:
                    groups.append([])
                if i < eqs:
                    groups[-1].append(code(a.value))
                else:
                    other[0] += 1
                    groups[-1].append(other[0])
        else:
            if evb(c._hd) or not groups:
                groups.append([])
            groups[-1].append(code(H.initial(c, 'value')))
    extra = [n for n, k in con.params if n != 'self']
    op = [con.op]
    for n in extra:
        v = getattr(a, n)
        if v is not None:
            op.append(code(v) if S.isrange(v) else ev(v) if not isinstance(v, (bool, SymBool)) else evb(v))
    names = {v: i % 6 for i, v in enumerate(sorted({x for g in groups for x in g} | set(op[1:]) & set(range(len(vals)))))}
    groups = [[names[x] for x in g] for g in groups]
    for j, n in enumerate(extra):
        if j + 1 < len(op) and S.isrange(getattr(a, n)):
            op[j+1] = names[op[j+1]]
    if con.op == 'insert':
        op = [op[0], op[1], op[2]]
    return dict(groups=groups, op=op)


def counterexample(e, con, a, x):
    '''A small model of the failed obligation, as a concrete Bible and arguments for the real code.'''
    try:
        neg = z3.Not(zb(x)) if not isinstance(x, bool) else z3.BoolVal(True)
        if con.heap:
            return list_counterexample(e, con, a, neg)
        o, c = z3.Ints('o! c!')
        best = None
        for lim in (3, 5, 9):
            extra = [G._N <= lim]
            s = z3.Solver()
            s.set('timeout', 3000)
            for p in e.pc:
                s.add(p)
            s.add(neg)
            s.add(*extra)
            for t in W._books.values():
                s.add(G._nch(t) <= lim)
            for t in W._terms.values():
                s.add(G._mx(*t) <= lim + 2)
            if s.check() == z3.sat:
                best = s.model()
                break
        if best is None:
            return None
        m = best

        def ev(t):
            return m.eval(zi(t), model_completion=True).as_long()
        N = ev(W.N)
        bible = []
        for i in range(N):
            n = max(1, min(ev(SymInt(G._nch(z3.IntVal(i)))), 12))
            mxs, zs = [], []
            for k in range(1, n + 1):
                mxs.append(max(1, min(m.eval(G._mx(z3.IntVal(i), z3.IntVal(k)), model_completion=True).as_long(), 40)))
                if z3.is_true(m.eval(G._z(z3.IntVal(i), z3.IntVal(k)), model_completion=True)):
                    zs.append(k)
            bible.append([mxs, zs])

        def enc(v):
            if isinstance(v, SymBook):
                return ['b', ev(v.order)]
            if S.isverse(v):
                return ['v', ev(v.book.order), ev(v.chap_num), ev(v.verse_num)]
            if S.isrange(v):
                return ['r', enc(v.start)[1:], enc(v.end)[1:]]
            if isinstance(v, SymInt):
                return ev(v)
            if isinstance(v, SymBool):
                return z3.is_true(m.eval(v.e, model_completion=True))
            return v
        args = {n: enc(getattr(a, n)) for n, k in con.params if k not in ('flags', 'noflags')}
        g = S.GLOBAL.value
        return dict(bible=bible, args=args, flags=None if a.flags is None else a.flags.known(),
                    glob=(g.known() if g is not None else 0))
    except (Exception, Unsupported):
        return None
