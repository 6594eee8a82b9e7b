'''Contracts of the list layer (util.GroupedList, ref.BibleRangeList) for lists of any length; see vp.heap.'''
from . import contracts as C, engine as G, heap as H, symex as S
from .heap import New, Del, Seq, conform, unchanged
from .spec import And, Or, Not, Implies, Iff, Ite, lexlt, eqt


def contract(name, props, params, call, **kw):
    op = kw.pop('op', None)
    counting = kw.pop('counting', False)
    item = kw.pop('item', None)
    over = kw.pop('over', None)
    without = kw.pop('without', ())
    sets = kw.pop('sets', False)
    wanted = kw.pop('wanted', False)
    amount = kw.pop('amount', None)
    hull = kw.pop('hull', False)
    loose = kw.pop('loose', False)
    soft = kw.pop('soft', ())

    def deco(post):
        C.contract(name, props, params, call, ghost=lambda W, a, INV: _ghost(W, a, INV, counting, item, over, sets, wanted, amount, hull), without=('regroup', 'list init') + without, **kw)(post)
        con = C.REGISTRY[name]
        con.heap = True
        con.soft = soft     # clauses whose proof attempt is incomplete: a failure refutes nothing
        con.loose = loose   # any truth value of a predicate is considered: what is proved does not depend on it
        con.op = op         # the operation, for replaying a counterexample (vp.oracles.Histories)
        return post
    return deco


def _ghost(W, a, INV, counting, item, over, sets, wanted, amount=None, hull=False):
    '''item: the (value, group start) that the list must have at position q, or None; over: the list it is about.'''
    g = INV.Ghost(f=a.f)
    g.plain = True
    g.list = a.self
    a.ch = a.self._chain0
    g.lpreds = {}
    for n in ('self', 'other'):
        L = getattr(a, n, None)
        if H.issymlist(L) and '_pred' in L.__dict__:
            g.lpreds['valid'] = L._pred
    g.lrels = {'sorted': lambda v, w: ascending(W, v, w)}
    if sets:
        p = W.pstar(a.f)
        G.E.assume(And(p >= 0, p < W.total(a.f)))
        a.cov = H.Quantity('cover', lambda v: covers(W, a.f, v, p))
        a.size = H.Quantity('verses', lambda v: W.idx(a.f, W.t(v.end)) - W.idx(a.f, W.t(v.start)) + 1, unit=False, low=True)
        g.keys += [a.cov, a.size]
        g.cov, g.size = a.cov, a.size
        H.cover_key(a.cov)
        g.lrels['apart'] = lambda v, w, m=None: apart(W, a, v, w, m)
    if hull:
        # ranges that begin at an arbitrary position p* or before, and that end there or after
        p = W.pstar(a.f)
        a.begun = H.Quantity('begun', lambda v: W.idx(a.f, W.t(v.start)) <= p)
        a.unended = H.Quantity('unended', lambda v: W.idx(a.f, W.t(v.end)) >= p)
        g.keys += [a.begun, a.unended]
        g.bounds = {'at or before p*': (a.begun, lambda v: W.idx(a.f, W.t(v)) <= p),
                    'at or after p*': (a.unended, lambda v: W.idx(a.f, W.t(v)) >= p)}
    if amount is not None:
        a.amount = H.Quantity('amount', lambda v: amount(W, a, v), unit=False)
        g.keys.append(a.amount)
    if item is not None:
        g.list = over(a) if over else a.self
        g.q = a.q = G.E.int('q')
        G.E.assume(g.q >= 0)
        g.expect = a.expect = item(a, g.q)
        g.wanted = wanted or None
    a.ch = a.self._chain0
    a.eq = None
    if hasattr(a, 'value'):
        a.eq = H.Quantity('equal items', lambda v: H.same(v, a.value))
        if counting:
            g.keys.append(a.eq)
            a.ch.total(a.eq)
    return g


def ascending(W, v, w):
    return Not(lexlt(W.t(w.start) + W.t(w.end), W.t(v.start) + W.t(v.end)))


def covers(W, f, v, p):
    s, e = W.span(f, v)
    return And(s <= p, p <= e)


def apart(W, a, v, w, m=None):
    '''v is before w, not overlapping nor adjacent.'''
    (_, e), (s, _) = W.span(a.f, v), W.span(a.f, w)
    return And(e < s, Not(C.adjacent(W, a.f, a.m if m is None else m, v, w)))


def norm(a):
    return Ite(a.i < 0, a.i + a.self._chain0.n, a.i)


def inside(a):
    n = a.self._chain0.n
    return And(a.i >= -n, a.i < n)


def returns(o, L):
    yield 'returns', o.ok


def refused(L, o, exc):
    yield f'raises {exc}', (not o.ok) and o.exc == exc
    yield from unchanged(L)


def built(a, L, n):
    '''Clauses: L is a well-formed list of n items, those that are expected.'''
    yield 'is a list', H.clean(L)
    if H.clean(L):
        ch = L._chain
        yield 'length', ch.n == n
        x = ch.at(a.q) if a.q < ch.n else None
        yield 'has the items expected', (x is None) == (a.expect is None)
        if x is not None and a.expect is not None:
            yield 'has the items expected, in order', H.same(ch.val(x), a.expect[0])
            yield 'groups start where they should', Iff(ch.hd(x), a.expect[1])


def at(ch, q):
    return ch.at(q) if And(q >= 0, q < ch.n) else None


@contract('GroupedList._node_at', '', 'self:glist i:int', lambda R, a: a.self._node_at(a.i), op='get')
def _(W, a, o):
    L, ch = a.self, a.self._chain0
    if inside(a):
        yield 'returns the node', o.ok and o.val is ch.at(norm(a))
        yield from unchanged(L)
    else:
        yield from refused(L, o, 'IndexError')


@contract('GroupedList._find_group_head', '', 'self:glist node:nodeof', lambda R, a: a.self._find_group_head(a.node))
def _(W, a, o):
    ch = a.self._chain0
    h = a.node if ch.hd(a.node) else ch.head_from(a.node, -1)
    yield 'returns the node that starts the group', o.ok and o.val is h
    yield from unchanged(a.self)


@contract('GroupedList._insert_before', '', 'self:glist node:nodeof value:value new_group:bool',
          lambda R, a: a.self._insert_before(a.node, a.value, a.new_group))
def _(W, a, o):
    L, ch, x = a.self, a.ch, a.node
    yield 'returns', o.ok
    yield from conform(L, Seq(L, before(ch, x, New(a.value, Or(a.new_group, ch.hd(x)))),
                              heads=[(x, And(ch.hd(x), a.new_group))]))


@contract('GroupedList._insert_after', '', 'self:glist node:nodeof value:value new_group:bool',
          lambda R, a: a.self._insert_after(a.node, a.value, a.new_group))
def _(W, a, o):
    L, ch, x = a.self, a.ch, a.node
    yield 'returns', o.ok
    cs = []
    for c in ch.cells:
        cs += [c, New(a.value, a.new_group)] if c is x else [c]
    yield from conform(L, Seq(L, cs))


@contract('GroupedList._insert_first', '', 'self:glist value:value', lambda R, a: a.self._insert_first(a.value),
          pre=lambda W, a: a.self._chain.n == 0)
def _(W, a, o):
    yield 'returns', o.ok
    yield from conform(a.self, Seq(a.self, [New(a.value, True)]))


@contract('GroupedList._pop_node', '', 'self:glist node:nodeof', lambda R, a: a.self._pop_node(a.node))
def _(W, a, o):
    L, x = a.self, a.node
    yield 'returns the item', o.ok and H.same(o.val, a.ch.val(x))
    yield from conform(L, removed(L, x))


@contract('GroupedList._insert_new_group_at_node', '', 'self:glist node:nodeof',
          lambda R, a: a.self._insert_new_group_at_node(a.node))
def _(W, a, o):
    yield 'returns', o.ok
    yield from conform(a.self, Seq(a.self, a.ch.cells, heads=[(a.node, True)]))


@contract('GroupedList.append', 'C11 C12', 'self:glist value:value new_group:bool',
          lambda R, a: a.self.append(a.value, a.new_group), op='append')
def _(W, a, o):
    L, ch = a.self, a.self._chain0
    yield 'returns', o.ok
    yield from conform(L, Seq(L, ch.cells + [New(a.value, Or(a.new_group, ch.n == 0))]))


def prepended(L, value, new_group):
    ch = L._chain0
    first = ch.end(1)
    return Seq(L, [New(value, True)] + ch.cells, heads=[] if first is None or new_group else [(first, False)])


@contract('GroupedList.prepend', 'C11 C12', 'self:glist value:value new_group:bool',
          lambda R, a: a.self.prepend(a.value, a.new_group), op='prepend')
def _(W, a, o):
    yield 'returns', o.ok
    yield from conform(a.self, prepended(a.self, a.value, a.new_group))


def before(ch, x, new):
    out = []
    for c in ch.cells:
        if c is x:
            out.append(new)
        out.append(c)
    return out


@contract('GroupedList.insert', 'C11 C12', 'self:glist i:int value:value', lambda R, a: a.self.insert(a.i, a.value),
          pre=lambda W, a: And(a.i >= -a.self._chain0.n, a.i <= a.self._chain0.n), op='insert')
def _(W, a, o):
    L, ch = a.self, a.self._chain0
    yield 'returns', o.ok
    if a.i == ch.n:
        yield from conform(L, Seq(L, ch.cells + [New(a.value, ch.n == 0)]))
    else:
        x = ch.at(norm(a))
        yield from conform(L, Seq(L, before(ch, x, New(a.value, ch.hd(x))), heads=[(x, False)]))


def removed(L, x):
    ch = L._chain0
    heads = []
    if ch.hd(x):
        y = ch.nbr(x, 1)
        if y is not None:
            heads = [(y, True)]
    return Seq(L, [Del(c) if c is x else c for c in ch.cells], heads=heads)


@contract('GroupedList.pop', 'C11 C12', 'self:glist i:optint', lambda R, a: a.self.pop() if a.i is None else a.self.pop(a.i),
          op='pop')
def _(W, a, o):
    L, ch = a.self, a.self._chain0
    if a.i is None:
        a.i = -1
    if inside(a):
        x = ch.at(norm(a))
        yield 'returns the item', o.ok and H.same(o.val, ch.val(x))
        yield from conform(L, removed(L, x))
    else:
        yield from refused(L, o, 'IndexError')


@contract('GroupedList.__delitem__', 'C11 C12', 'self:glist i:int', lambda R, a: a.self.__delitem__(a.i), op='del')
def _(W, a, o):
    L, ch = a.self, a.self._chain0
    if inside(a):
        yield 'returns', o.ok
        yield from conform(L, removed(L, ch.at(norm(a))))
    else:
        yield from refused(L, o, 'IndexError')


@contract('GroupedList.__getitem__', 'C11', 'self:glist i:int', lambda R, a: a.self[a.i], op='get')
def _(W, a, o):
    L, ch = a.self, a.self._chain0
    if inside(a):
        yield 'returns the item', o.ok and H.same(o.val, ch.val(ch.at(norm(a))))
        yield from unchanged(L)
    else:
        yield from refused(L, o, 'IndexError')


@contract('GroupedList.__setitem__', 'C11 C12', 'self:glist i:int value:value',
          lambda R, a: a.self.__setitem__(a.i, a.value), op='set')
def _(W, a, o):
    L, ch = a.self, a.self._chain0
    if inside(a):
        yield 'returns', o.ok
        x = ch.at(norm(a))
        yield from conform(L, Seq(L, ch.cells, values=[(x, a.value)], heads=[(x, ch.hd(x))]))
    else:
        yield from refused(L, o, 'IndexError')


@contract('GroupedList.insert_group_at', 'C12', 'self:glist i:int', lambda R, a: a.self.insert_group_at(a.i), op='group_at')
def _(W, a, o):
    L, ch = a.self, a.self._chain0
    if inside(a):
        yield 'returns', o.ok
        yield from conform(L, Seq(L, ch.cells, heads=[(ch.at(norm(a)), True)]))
    else:
        yield from refused(L, o, 'IndexError')


@contract('GroupedList.__len__', 'C11', 'self:glist', lambda R, a: a.self.__len__())
def _(W, a, o):
    yield 'returns the number of items', o.ok and o.val == a.self._chain0.n
    yield from unchanged(a.self)


@contract('GroupedList.remove', 'C11 C12', 'self:glist value:value', lambda R, a: a.self.remove(a.value),
          counting=True, op='remove')
def _(W, a, o):
    L, ch = a.self, a.self._chain0
    if ch.total(a.eq) == 0:
        yield from refused(L, o, 'ValueError')
        return
    yield 'returns', o.ok
    gone = [c for c in ch.cells if H.issym(c) and c.parent is not L]
    yield 'one item leaves the list', len(gone) == 1
    if len(gone) == 1:
        x = gone[0]
        yield 'it is the first equal item', And(H.same(ch.val(x), a.value), ch.before(x, a.eq) == 0)
        yield from conform(L, removed(L, x))


@contract('GroupedList.index', 'C11', 'self:glist value:value', lambda R, a: a.self.index(a.value),
          counting=True, op='index')
def _(W, a, o):
    L, ch = a.self, a.self._chain0
    if ch.total(a.eq) == 0:
        yield from refused(L, o, 'ValueError')
        return
    yield 'returns', o.ok
    if o.ok:
        yield 'is a position', And(o.val >= 0, o.val < ch.n)
        x = ch.at(o.val)
        yield 'is that of the first equal item', And(H.same(ch.val(x), a.value), ch.before(x, a.eq) == 0)
        yield from unchanged(L)


@contract('GroupedList.count', 'C11', 'self:glist value:value', lambda R, a: a.self.count(a.value),
          counting=True, op='count')
def _(W, a, o):
    yield 'is the number of equal items', o.ok and o.val == a.ch.total(a.eq)
    yield from unchanged(a.self)


def _iteration(name, what, d, start):
    @contract(f'GroupedList.{name}', {'value': 'C11', 'group': 'C12'}.get(what, ''), 'self:glist',
              lambda R, a: H.drive(a.self, start(a.self), what, d))
    def _(W, a, o):
        yield 'yields every item', o.ok and o.val[0] == o.val[1]


_iteration('__iter__', 'value', 1, lambda L: type(L).__iter__(L))
_iteration('__reversed__', 'value', -1, lambda L: type(L).__reversed__(L))
_iteration('_node_iter', 'node', 1, lambda L: L._node_iter())
_iteration('groups.__iter__', 'group', 1, lambda L: type(L.groups).__iter__(L.groups))


@contract('GroupedList.__contains__', 'C11', 'self:glist value:value', lambda R, a: S.util.GroupedList.__contains__(a.self, a.value),
          counting=True, op='contains')
def _(W, a, o):
    yield 'tells whether an item is equal', o.ok and Iff(o.val, a.ch.total(a.eq) > 0)
    yield from unchanged(a.self)


@contract('GroupedList.clear', 'C11 C12', 'self:glist', lambda R, a: a.self.clear(), op='clear')
def _(W, a, o):
    yield 'returns', o.ok
    yield from conform(a.self, Seq(a.self, [Del(c) for c in a.ch.cells]))


@contract('GroupedList.clear_groups', 'C11 C12', 'self:glist', lambda R, a: a.self.clear_groups(), op='clear_groups')
def _(W, a, o):
    yield 'returns', o.ok
    yield from conform(a.self, Seq(a.self, a.ch.cells, single=True))


@contract('GroupedList.reverse', 'C11 C12', 'self:glist', lambda R, a: a.self.reverse(), op='reverse')
def _(W, a, o):
    yield 'returns', o.ok
    yield from conform(a.self, Seq(a.self, a.ch.cells, single=True, reverse=True))


def items_of(x):
    """The items of an argument that is iterated."""
    return x.chain if isinstance(x, H.SymSeq) else x._chain0


def extended(new_group):
    def item(a, q):
        ch, ot = a.self._chain0, items_of(a.other)
        x = at(ch, q)
        if x is not None:
            return ch.val(x), ch.hd(x)
        y = at(ot, q - ch.n)
        return None if y is None else (ot.val(y), And(q == ch.n, Or(ch.n == 0, new_group)))
    return item


@contract('GroupedList.extend', 'C11 C12', 'self:glist other:items', lambda R, a: a.self.extend(a.other),
          item=extended(False))
def _(W, a, o):
    yield 'returns', o.ok
    yield from built(a, a.self, a.self._chain0.n + items_of(a.other).n)


@contract('GroupedList.append_group', 'C11 C12', 'self:glist other:items', lambda R, a: a.self.append_group(a.other),
          item=extended(True))
def _(W, a, o):
    yield 'returns', o.ok
    yield from built(a, a.self, a.self._chain0.n + items_of(a.other).n)


@contract('GroupedList.__iadd__', 'C11 C12', 'self:glist other:items', lambda R, a: a.self.__iadd__(a.other),
          item=extended(False))
def _(W, a, o):
    yield 'returns the list', o.ok and o.val is a.self
    yield from built(a, a.self, a.self._chain0.n + items_of(a.other).n)


@contract('GroupedList.groups.__len__', 'C12', 'self:glist', lambda R, a: a.self.groups.__len__())
def _(W, a, o):
    yield 'returns the number of groups', o.ok and o.val == a.ch.g
    yield from unchanged(a.self)


@contract('GroupedList.groups.__getitem__', 'C12', 'self:glist i:int', lambda R, a: a.self.groups[a.i], op='getgroup')
def _(W, a, o):
    ch = a.ch
    if And(a.i >= -ch.g, a.i < ch.g):
        yield 'returns a view', o.ok and isinstance(o.val, S.util.GroupedList.GroupView)
        if o.ok:
            yield 'is the group asked for', o.val.group_head is ch.head_at(Ite(a.i < 0, a.i + ch.g, a.i))
        yield from unchanged(a.self)
    else:
        yield from refused(a.self, o, 'IndexError')


def stale(a):
    """Whether a view of the group at a node can no longer be used."""
    return a.stale


def group_size(ch, x):
    return ch.before(ch.head_from(x, 1)) - ch.before(x)


def view(a):
    return S.util.GroupedList.GroupView(a.node)


@contract('GroupView.__iter__', 'C12', 'self:glist node:headof',
          lambda R, a: H.drive(a.self, type(view(a)).__iter__(view(a)), 'value', 1, a.node))
def _(W, a, o):
    yield 'yields every item', o.ok and o.val[0] == o.val[1]


@contract('GroupView.__iter__(stale)', 'C12', 'self:glist node:staleof', lambda R, a: next(type(view(a)).__iter__(view(a))),
          without=('GroupView.__iter__',))
def _(W, a, o):
    yield from refused(a.self, o, 'GroupViewError')


@contract('GroupView.__len__', 'C12', 'self:glist node:viewof', lambda R, a: view(a).__len__())
def _(W, a, o):
    if stale(a):
        yield from refused(a.self, o, 'GroupViewError')
    else:
        yield 'is the number of items', o.ok and o.val == group_size(a.ch, a.node)
        yield from unchanged(a.self)


@contract('GroupView._node_at', '', 'self:glist node:headof i:int', lambda R, a: view(a)._node_at(a.i))
def _(W, a, o):
    ch = a.ch
    if And(a.i >= 0, a.i < group_size(ch, a.node)):
        yield 'returns the node', o.ok and o.val is ch.at(ch.before(a.node) + a.i)
    else:
        yield from refused(a.self, o, 'IndexError')


@contract('GroupView.__getitem__', 'C12', 'self:glist node:viewof i:int', lambda R, a: view(a)[a.i])
def _(W, a, o):
    ch = a.ch
    if stale(a):
        yield from refused(a.self, o, 'GroupViewError')
    elif And(a.i >= 0, a.i < group_size(ch, a.node)):
        yield 'returns the item', o.ok and H.same(o.val, ch.val(ch.at(ch.before(a.node) + a.i)))
        yield from unchanged(a.self)
    else:
        yield from refused(a.self, o, 'IndexError')


@contract('GroupView.__setitem__', 'C11 C12', 'self:glist node:viewof i:int value:value',
          lambda R, a: view(a).__setitem__(a.i, a.value))
def _(W, a, o):
    ch = a.ch
    if stale(a):
        yield from refused(a.self, o, 'GroupViewError')
    elif And(a.i >= 0, a.i < group_size(ch, a.node)):
        yield 'returns', o.ok
        x = ch.at(ch.before(a.node) + a.i)
        yield from conform(a.self, Seq(a.self, ch.cells, values=[(x, a.value)], heads=[(x, ch.hd(x))]))
    else:
        yield from refused(a.self, o, 'IndexError')


@contract('GroupView.__delitem__', 'C11 C12', 'self:glist node:viewof i:int', lambda R, a: view(a).__delitem__(a.i))
def _(W, a, o):
    ch = a.ch
    if stale(a):
        yield from refused(a.self, o, 'GroupViewError')
    elif And(a.i >= 0, a.i < group_size(ch, a.node)):
        yield 'returns', o.ok
        yield from conform(a.self, removed(a.self, ch.at(ch.before(a.node) + a.i)))
    else:
        yield from refused(a.self, o, 'IndexError')


def copied(a, q):
    ch = items_of(a.other)
    x = at(ch, q)
    if x is None:
        return None
    return ch.val(x), (ch.hd(x) if H.issymlist(a.other) else q == 0)


@contract('BibleRangeList.__init__(copy)', 'C11 C12', 'self:newlist other:glist',
          lambda R, a: R.BibleRangeList.__init__(a.self, a.other), item=copied)
def _(W, a, o):
    yield 'returns', o.ok
    yield from built(a, a.self, a.other._chain0.n)
    yield from unchanged(a.other, 'the other list')


@contract('BibleRangeList.__init__(items)', 'C11 C12', 'self:newlist other:pylist',
          lambda R, a: R.BibleRangeList.__init__(a.self, a.other), item=copied)
def _(W, a, o):
    yield 'returns', o.ok
    yield from built(a, a.self, a.other.chain.n)


# An item that is not a range is refused, and the list left as it was

def _refuses(name, params, call):
    @contract(f'{name}(not a range)', 'C11', params + ' value:badvalue', call)
    def _(W, a, o):
        yield from refused(a.self, o, 'TypeError')


_refuses('BibleRangeList.append', 'self:glist new_group:bool', lambda R, a: a.self.append(a.value, a.new_group))
_refuses('BibleRangeList.prepend', 'self:glist new_group:bool', lambda R, a: a.self.prepend(a.value, a.new_group))
_refuses('BibleRangeList.insert', 'self:glist i:int', lambda R, a: a.self.insert(a.i, a.value))
_refuses('BibleRangeList.__setitem__', 'self:glist i:int', lambda R, a: a.self.__setitem__(a.i, a.value))
_refuses('BibleRangeList.index', 'self:glist', lambda R, a: a.self.index(a.value))
_refuses('BibleRangeList.count', 'self:glist', lambda R, a: a.self.count(a.value))
_refuses('BibleRangeList.remove', 'self:glist', lambda R, a: a.self.remove(a.value))
_refuses('GroupView.__setitem__', 'self:glist node:headof i:int', lambda R, a: view(a).__setitem__(a.i, a.value))


# ---------------------------------------------------------------------------------------------------------------
# Lists as sets of verses
# ---------------------------------------------------------------------------------------------------------------

for _n in ('union', 'intersection', 'difference'):
    C.REGISTRY[f'BibleRange.{_n}'].bounds = True


def consolidated(W, a, L):
    """Clauses: the ranges of L are valid, ascending, and pairwise neither overlapping nor adjacent."""
    yield 'is a list', H.clean(L)
    ch = L._chain
    g = G.E.ghost
    yield 'its ranges are valid', H.holds_all(ch, 'valid', g.lpreds['valid'])
    yield 'its ranges are ascending, disjoint and not adjacent', H.holds_order(ch, 'apart', g.lrels['apart'])


@contract('BibleRangeList.merge', 'C10', 'self:rlist flags:flags', lambda R, a: a.self.merge(flags=a.flags), sets=True)
def _(W, a, o):
    yield 'returns', o.ok
    yield from consolidated(W, a, a.self)
    yield 'has exactly the same verses', Iff(a.self._chain.total(a.cov) > 0, a.ch.total(a.cov) > 0)


def covered(W, a, x):
    """Whether the arbitrary verse p* is in a reference."""
    if H.issymlist(x):
        return x._chain0.total(a.cov) > 0
    return covers(W, a.f, S.mkrange(x, x) if S.isverse(x) else x, W.pstar(a.f))


def _kept(a, *names):
    for n in names:
        L = getattr(a, n)
        if H.issymlist(L):
            yield from unchanged(L, 'the list' if n == 'self' else 'the other list')


_OPS = {'union': lambda x, y: Or(x, y), 'intersection': lambda x, y: And(x, y), 'difference': lambda x, y: And(x, Not(y)),
        'sym_difference': lambda x, y: Or(And(x, Not(y)), And(y, Not(x)))}


def _setop(name, method, call, op, inplace, flags='flags', returns_self=False):
    @contract(f'BibleRangeList.{method}', 'C09', f'self:rlist other:bref flags:{flags}', call, sets=True)
    def _(W, a, o):
        yield 'returns', o.ok
        if not o.ok:
            return
        if returns_self:
            yield 'returns the list itself', o.val is a.self
        x, y = covered(W, a, a.self), covered(W, a, a.other)
        L = a.self if inplace else o.val
        yield 'the result is a list', H.issymlist(L)
        if not inplace:
            yield 'the result is another list', L is not a.self and L is not a.other
            yield from _kept(a, 'self')
        if a.other is not a.self:
            yield from _kept(a, 'other')
        yield from consolidated(W, a, L)
        yield f'its verses are exactly those of the {name}', Iff(L._chain.total(a.cov) > 0, op(x, y))


for _n, _op in _OPS.items():
    _setop(_n, _n, lambda R, a, n=_n: getattr(a.self, n)(a.other, flags=a.flags), _op, False)
    _setop(_n, _n + '_update', lambda R, a, n=_n: getattr(a.self, n + '_update')(a.other, flags=a.flags), _op, True)

for _n, _dunder in (('union', 'or'), ('intersection', 'and'), ('difference', 'sub'), ('sym_difference', 'xor')):
    _setop(_n, f'__{_dunder}__', lambda R, a, n=_dunder: getattr(a.self, f'__{n}__')(a.other), _OPS[_n], False, 'noflags')
    _setop(_n, f'__i{_dunder}__', lambda R, a, n=_dunder: getattr(a.self, f'__i{n}__')(a.other), _OPS[_n], True, 'noflags',
           True)


@contract('GroupedList.sort', '', 'self:glist', lambda R, a: a.self.sort())
def _(W, a, o):
    yield 'returns', o.ok


def same_items(L, ch):
    """Clauses: the items of a list are those of a chain, in order."""
    yield 'is a list', H.clean(L)
    yield 'length', L._chain.n == ch.n
    yield 'has the same items, in order', H.same_items(L._chain, ch)


@contract('BibleRangeList.regroup', 'C12', 'self:rlist flags:flags', lambda R, a: a.self.regroup(flags=a.flags), loose=True)
def _(W, a, o):
    yield 'returns', o.ok
    yield from same_items(a.self, a.ch)


# ---------------------------------------------------------------------------------------------------------------
# Verse-0 conversions
# ---------------------------------------------------------------------------------------------------------------

def _converted(to_one):
    def want(a, q):
        x = at(a.ch, q)
        if x is None:
            return None
        v = a.ch.val(x)

        def conv(t):
            b, c, n = t
            return (b, c, Ite(n == 0, 1, n) if to_one else Ite(And(n == 1, H.W.hasz(b, c)), 0, n))
        s, e = conv(H.W.t(v.start)), conv(H.W.t(v.end))
        return S.mkrange(S.mkverse(*s), S.mkverse(*e)), a.ch.hd(x)
    return want


for _n, _to_one in (('verse_0_to_1', True), ('verse_1_to_0', False)):
    @contract(f'BibleRangeList.{_n}', 'C17', 'self:anylist flags:noflags', lambda R, a, n=_n: getattr(a.self, n)(),
              item=_converted(_to_one), wanted=True)
    def _(W, a, o):
        yield 'returns', o.ok
        yield from built(a, a.self, a.ch.n)


# ---------------------------------------------------------------------------------------------------------------
# Counts
# ---------------------------------------------------------------------------------------------------------------

def _verses(W, a, v):
    s, e = W.span(a.f, v)
    return e - s + 1


def _whole(a, n, first, last):
    """How many of n consecutive chapters or books are whole."""
    return Ite(n == 1, Ite(And(first, last), 1, 0), n - Ite(first, 0, 1) - Ite(last, 0, 1)) if a.whole else n


def _chaps(W, a, v):
    s, e = W.t(v.start), W.t(v.end)
    return _whole(a, W.crank(e[0], e[1]) - W.crank(s[0], s[1]) + 1, eqt(s, W.firstc(a.f, s[0], s[1])),
                  eqt(e, W.lastc(a.f, e[0], e[1])))


def _books(W, a, v):
    s, e = W.t(v.start), W.t(v.end)
    return _whole(a, e[0] - s[0] + 1, eqt(s, W.firstb(a.f, s[0])), eqt(e, W.lastb(a.f, e[0])))


def _counting(name, params, call, amount):
    @contract(f'BibleRangeList.{name}', 'C07 C16', params, call, amount=amount)
    def _(W, a, o):
        yield 'is the sum over the ranges', o.ok and o.val == a.ch.total(a.amount)
        yield from unchanged(a.self)


_counting('verse_count', 'self:rlist flags:flags', lambda R, a: a.self.verse_count(flags=a.flags), _verses)
_counting('chap_count', 'self:rlist whole:bool flags:flags',
          lambda R, a: a.self.chap_count(whole=a.whole, flags=a.flags), _chaps)
_counting('book_count', 'self:rlist whole:bool flags:flags',
          lambda R, a: a.self.book_count(whole=a.whole, flags=a.flags), _books)


# ---------------------------------------------------------------------------------------------------------------
# The smallest range around a list
# ---------------------------------------------------------------------------------------------------------------

def _hull(name, params, call, first, last):
    """first, last: the bounds of what the result is made of (verse, chapter or book) around a verse."""
    @contract(f'BibleRangeList.{name}', 'C18 C16' if 'flags:flags' in params else 'C18', params, call, hull=True)
    def _(W, a, o):
        ch = a.ch
        if ch.n == 0:
            yield from refused(a.self, o, 'ValueError')
            return
        yield 'returns a range', o.ok and S.isrange(o.val)
        if not o.ok or not S.isrange(o.val):
            return
        p = W.pstar(a.f)
        s, e = W.t(o.val.start), W.t(o.val.end)
        yield 'is a valid range', W.valid_range(a.f, o.val)
        yield 'starts at a boundary', eqt(s, first(W, a, s))
        yield 'ends at a boundary', eqt(e, last(W, a, e))
        (si, ei), (s2, e2) = W.span(a.f, o.val), (W.idx(a.f, last(W, a, s)), W.idx(a.f, first(W, a, e)))
        # (for every p*: so all ranges begin at s or after, and one of them begins no later than s2)
        yield 'no range begins before it', Implies(ch.total(a.begun) > 0, si <= p)
        yield 'some range begins in its first part', Implies(p >= s2, ch.total(a.begun) > 0)
        yield 'no range ends after it', Implies(ch.total(a.unended) > 0, ei >= p)
        yield 'some range ends in its last part', Implies(p <= e2, ch.total(a.unended) > 0)
        yield from unchanged(a.self)


_hull('chap_range', 'self:rlist flags:flags', lambda R, a: a.self.chap_range(flags=a.flags),
      lambda W, a, t: W.firstc(a.f, t[0], t[1]), lambda W, a, t: W.lastc(a.f, t[0], t[1]))
_hull('book_range', 'self:rlist flags:flags', lambda R, a: a.self.book_range(flags=a.flags),
      lambda W, a, t: W.firstb(a.f, t[0]), lambda W, a, t: W.lastb(a.f, t[0]))
_hull('range', 'self:rlist flags:noflags', lambda R, a: a.self.range(), lambda W, a, t: t, lambda W, a, t: t)


# ---------------------------------------------------------------------------------------------------------------
# Lists as sets of verses: predicates
# ---------------------------------------------------------------------------------------------------------------

def exists(W, a, label, points, otherwise):
    """Clause: not (for every position: otherwise). That is assumed at the bounds of known ranges, and where the ranges
    that include these end, and must be contradictory. (This may fail although there is such a position.)"""
    e = G.E

    def absurd():
        return not e.replaying and str(e.check()) == 'unsat'
    for again in (True, False):
        more = []
        for p in points:
            key = H.cover_key(H.Quantity(f'cover{len(e.covers)}', lambda v, p=p: covers(W, a.f, v, p)))
            e.assume(otherwise(key))
            if absurd():
                yield label, True
                return
            for ch in e.arranged:
                if e.known_rec(ch.total(key) > 0):
                    x = ch.witness(key)
                    if absurd():
                        yield label, True
                        return
                    more.append(W.idx(a.f, W.t(ch.val(x).end)) + 1)
        points = more
    yield label, False


def known_ranges(x):
    if H.issymlist(x):
        return [x._chain0.val(c) for c in x._chain0.cells if H.issym(c)]
    return [S.mkrange(x, x) if S.isverse(x) else x]


def starts(W, a, *refs):
    return [W.idx(a.f, W.t(r.start)) for x in refs for r in known_ranges(x)]


def total_of(x, key):
    return x._chain0.total(key) if H.issymlist(x) else key.fn(S.mkrange(x, x) if S.isverse(x) else x)


def _predicate(name, params, call, props, rule, some, where):
    """rule: what holds of every position when it is true; some: why it is false, otherwise."""
    @contract(f'BibleRangeList.{name}', props, params, call, sets=True, soft=(some,))
    def _(W, a, o):
        yield 'returns a truth value', o.ok and isinstance(o.val, (bool, G.SymBool))
        if not o.ok:
            return
        for n in ('self', 'other'):
            if H.issymlist(getattr(a, n)):
                yield from unchanged(getattr(a, n), f'the {n} list')
        if o.val:
            yield 'when true, so it is of every verse', rule(total_of(a.self, a.cov) > 0, total_of(a.other, a.cov) > 0)
        else:
            yield from exists(W, a, some, where(W, a), lambda key: rule(total_of(a.self, key) > 0, total_of(a.other, key) > 0))


_predicate('is_disjoint', 'self:rlist other:bref flags:noflags', lambda R, a: a.self.is_disjoint(a.other), 'C05 C09',
           lambda x, y: Not(And(x, y)), 'when false, there is a verse in both',
           lambda W, a: starts(W, a, a.self, a.other))
_predicate('contains', 'self:rlist other:bref flags:flags', lambda R, a: a.self.contains(a.other, flags=a.flags), 'C05 C09',
           lambda x, y: Implies(y, x), 'when false, there is a verse of the other that it lacks',
           lambda W, a: starts(W, a, a.other))
_predicate('__contains__', 'self:rlist other:bref flags:noflags', lambda R, a: a.self.__contains__(a.other), 'C05 C09',
           lambda x, y: Implies(y, x), 'when false, there is a verse of the other that it lacks',
           lambda W, a: starts(W, a, a.other))
