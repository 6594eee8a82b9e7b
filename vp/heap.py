'''Lists of any length: the doubly linked nodes of a GroupedList, of which only those that are looked at become known.

A list is a chain of cells: nodes, and gaps that stand for any number of nodes. Of the lists a function is given nothing
is assumed but the representation invariant:

  - the nodes form one chain through next/prev, from list._first to list._last, and list._node_count is their number;
  - the first node starts a group; the nodes that start a group form one chain through next_head/prev_head, from
    list._first_head to list._last_head, and list._group_count is their number; such links of other nodes mean nothing;
  - every node's parent is the list.

When the code looks at a node it has not seen, the gap it is in is split (an empty gap and a node in it are both
explored), so every shape of list is covered, whatever its length. Nodes that are not looked at are as they were.

The primitive operations (those that write links: _insert_before, _pop_node, ...) are executed on the links, and
conform() checks that the invariant holds again, of the sequence their contract asks for. Everything else is verified
against the contracts of the primitives, which then act on the cells ("clean" lists). A loop that changes a clean list
is cut by replacing its chain by an arbitrary one, of which only what the loop invariant says is known (vp.invariants).
'''
from . import engine as G, symex as S
from .engine import SymInt, SymBool, Unsupported, PathEnd, Restart, zb
from .spec import And, Or, Not, Implies, Iff, Ite, eqt
from .symex import W, Loop

ATTRS = ('value', 'parent', 'prev', 'next', 'is_group_head', 'prev_head', 'next_head')
LATTRS = ('_first', '_last', '_node_count', '_first_head', '_last_head', '_group_count')


class Gap:
    '''Any number (n) of nodes, g of which start a group.'''

    def __init__(self, L, n, g, first, hint):
        self.L, self.n, self.g, self.first, self.hint = L, n, g, first, hint
        self.parts = None       # what it was split into
        self.q = {}             # quantities (see Quantity): key -> their sum over the nodes
        self.over = {}          # attributes that a loop has set in all of its nodes: name -> value
        self.regions = []       # what holds of all of its nodes (see Region)
        self.src, self.mode = None, None        # a gap that has the same items (see mirror)

    def facts(self):
        xs = [self.n >= 0, self.g >= 0, self.g <= self.n]
        if self.first:
            xs.append(Implies(self.n >= 1, self.g >= 1))
        return And(*xs)

    def mirror(self, L, mode):
        '''As many other nodes with the same values. mode: the groups start at the same ones, at none or at any.'''
        e = G.E
        g = self.g if mode == 'same' else 0 if mode == 'none' else e.int(self.hint + '.g')
        m = Gap(L, self.n, g, self.first and mode == 'same', self.hint + '~')
        m.src, m.mode = self, mode
        if mode == 'any':
            e.assume(And(g >= 0, g <= self.n))
        return m

    def parted(self):
        return self.parts is not None or self.src is not None and self.src.parted()

    def derive(self):
        if self.parts is not None or self.src is None:
            return
        e = G.E
        if self.src.parts is None:
            self.src.derive()
        parts, g = [], 0
        for p in self.src.parts:
            if isinstance(p, Gap):
                p = p.mirror(self.L, self.mode)
                g = g + p.g
            else:
                hd = p._hd if self.mode == 'same' else False if self.mode == 'none' else e.bool(self.hint + '.head')
                x = classes()['SymNode'](self.L, hd)
                x.__dict__['_src'] = p
                g = g + Ite(hd, 1, 0)
                p = x
            parts.append(p)
        if self.mode == 'any':
            e.assume(g == self.g)
        self.parts = parts

    def sum(self, key):
        if key == 'n':
            return self.n
        if key == 'g':
            return self.g
        if self.src is not None:
            return self.src.sum(key)
        if key not in self.q:
            e = G.E
            self.q[key] = e.int(key.name)
            e.assume(And(self.q[key] >= 0, *([self.q[key] <= self.n] if key.unit else []),
                         *([Implies(self.n >= 1, self.q[key] >= 1)] if key.low else [])))
        return self.q[key]

    def split(self, how, off=None):
        '''Split a non-empty gap at a node, which is returned.'''
        e = G.E
        if self.parted():
            raise Unsupported('a gap that was split')
        if self.src is not None:
            heads = how in ('first_head', 'last_head', 'head_at')
            y = self.src.split('any' if heads and self.mode != 'same' else how, off)
            self.derive()
            x = next(p for p in self.parts if issym(p) and p._src is y)
            if heads and self.mode != 'same':
                i = next(k for k, p in enumerate(self.parts) if p is x)
                g = [sum((p.g for p in ps), 0) for ps in (self.parts[:i], self.parts[i+1:])]
                e.assume(And(x._hd, {'first_head': g[0] == 0, 'last_head': g[1] == 0}.get(how, g[0] == off)))
            return x
        for k in self.q:
            self.sum(k)
        a = Gap(self.L, e.int(self.hint + '.n'), e.int(self.hint + '.g'), self.first, self.hint)
        b = Gap(self.L, e.int(self.hint + '.n'), e.int(self.hint + '.g'), False, self.hint)
        hd = e.bool(self.hint + '.head')
        if how in ('first_head', 'last_head', 'head_at') or (how == 'first' and self.first):
            hd = True
        x = classes()['SymNode'](self.L, hd)
        parts = [a, x, b]
        xs = [self.n == a.n + 1 + b.n, self.g == a.g + Ite(hd, 1, 0) + b.g]
        if self.first and hd is not True:
            xs.append(Implies(a.n == 0, hd))
        if how == 'first':
            xs += [a.n == 0, a.g == 0]
            parts = [x, b]
        elif how == 'last':
            xs += [b.n == 0, b.g == 0]
            parts = [a, x]
        elif how == 'first_head':
            xs.append(a.g == 0)
        elif how == 'last_head':
            xs.append(b.g == 0)
        elif how == 'at':
            xs.append(a.n == off)
        elif how == 'head_at':
            xs.append(a.g == off)
        for p in (a, b):
            xs.append(p.facts())
            p.over, p.regions = dict(self.over), list(self.regions)
        e.assume(And(*xs))
        for k in list(self.q):
            t = self.q[k]
            s = k.fn(x._v())
            for p in parts:
                if isinstance(p, Gap):
                    s = s + p.sum(k)
            e.assume(t == s)
        override(x, self.over)
        self.parts = parts
        for r in self.regions:
            r.joined(x)
        return x

    def drop(self):
        self.parts = []
        if self.src is not None:
            self.src.drop()


class Region:
    '''Something that holds of every item of a chain (pred), or of any two items in their order (rel, transitive).'''

    def __init__(self, chain, name, pred=None, rel=None):
        self.chain, self.name, self.pred, self.rel = chain.copy(), name, pred, rel
        for c in self.chain.cells:
            if isinstance(c, Gap):
                base(c).regions.append(self)
        known = [c for c in self.chain.cells if not isinstance(c, Gap)]
        for i, c in enumerate(known):
            self._assume(c, known[:i])

    def _assume(self, x, earlier, later=()):
        e, v = G.E, self.chain.val
        if self.pred is not None:
            e.assume(self.pred(v(x)))
        else:
            for y in earlier:
                e.assume(self.rel(v(y), v(x)))
            for y in later:
                e.assume(self.rel(v(x), v(y)))

    def joined(self, x):
        '''A node of the chain (or one of which it has a mirror) becomes known.'''
        cs = [c for c in self.chain.cells if not isinstance(c, Gap)]
        for i, c in enumerate(cs):
            if origin(c) is x:
                self._assume(c, cs[:i], cs[i+1:])

    def order(self, c):
        '''The place of a cell, or of one with the same items, in the chain; None if it is not in it.'''
        for i, y in enumerate(self.chain.cells):
            if origin(y) is origin(c):
                return i
        return None


def base(c):
    return c if c.src is None else base(c.src)


def origin(c):
    '''The cell whose items a cell has.'''
    if isinstance(c, Gap):
        return base(c)
    while c._src is not None:
        c = c._src
    return c


def holds_all(ch, name, pred):
    '''Whether pred holds of every item.'''
    xs = []
    for c in ch.cells:
        if isinstance(c, Gap):
            if not any(r.name == name for r in base(c).regions):
                xs.append(c.n == 0)
        else:
            xs.append(pred(ch.val(c)))
    return And(*xs) if xs else True


def holds_order(ch, name, rel, cells=None):
    '''Whether rel holds of any two items in their order (between neighbours, as it is transitive).'''
    cs = ch.cells if cells is None else cells
    regs = []
    for c in cs:
        if isinstance(c, Gap):
            regs += [r for r in base(c).regions if r.name == name and r not in regs]

    def common(x, y):
        for c in (x, y):
            if not isinstance(c, Gap) and id(c) in ch.vals:
                return False
        for r in regs:
            i, j = r.order(x), r.order(y)
            if i is not None and j is not None and i < j:
                return True
        return False
    xs = []
    for i, c in enumerate(cs):
        if isinstance(c, Gap) and not any(r.name == name for r in base(c).regions):
            xs.append(c.n <= 1)
        for j in range(i + 1, len(cs)):
            d = cs[j]
            if not common(c, d):
                if isinstance(c, Gap):
                    if isinstance(d, Gap):
                        xs.append(Or(c.n == 0, d.n == 0))
                    else:
                        xs.append(c.n == 0)
                elif isinstance(d, Gap):
                    xs.append(d.n == 0)
                else:
                    xs.append(rel(ch.val(c), ch.val(d)))
            if not isinstance(d, Gap):
                break       # (the rest follows)
    return And(*xs) if xs else True


def flatten(cells):
    out = []

    def add(x):
        if isinstance(x, Gap) and x.parted():
            x.derive()
            for p in x.parts:
                add(p)
        else:
            out.append(x)
    for c in cells:
        add(c)
    return out


class Quantity:
    """A non-negative amount per item, of which the sum over parts of a list is known."""

    def __init__(self, name, fn, unit=True, low=False):
        self.name, self.unit, self.low = name, unit, low      # unit: 0 or 1 per item; low: at least 1 per item
        self.fn = (lambda v: Ite(fn(v), 1, 0)) if unit else fn

    def __lt__(self, o):
        return self.name < o.name


def cover_key(key):
    '''A quantity of positions, to which what was proved for every position applies.'''
    e = G.E
    if key not in e.covers:
        e.covers.append(key)
        for fn in e.covfacts:
            e.assume(fn(key))
    return key


def cover_fact(fn):
    e = G.E
    e.covfacts.append(fn)
    for key in e.covers:
        e.assume(fn(key))


def override(c, over):
    """Let attributes of a node, or of all nodes of a gap, have the values that a loop has set."""
    if isinstance(c, Gap):
        c.over.update(over)
    elif over:
        c._over.update(over)
        c._written.update(over)
        for k in over:
            c.__dict__.pop(k, None)


CONST = {'None': None, 'True': True, 'False': False}


_cls = {}


def classes():
    '''SymNode and SymGL, subclasses of the real node and list classes.'''
    if _cls.get('ref') is S.ref:
        return _cls
    Node = S.util.GroupedList._Node

    class SymNode(Node):
        def __init__(self, L, hd, value=None):
            d = self.__dict__
            d['_L'], d['_hd'], d['_written'], d['_v0'], d['_over'], d['_src'] = L, hd, set(), value, {}, None

        def _v(self):
            '''The value this node came with.'''
            if self._v0 is None:
                self.__dict__['_v0'] = S.fresh_range('item') if self._src is None else self._src._v()
            return self._v0

        def __getattr__(self, k):
            if k.startswith('__') or k not in ATTRS:
                raise AttributeError(k)
            L = self._L
            if k in self._over:
                d = self._over[k]
                return CONST[d] if d in CONST else L._chain.get(self, d)
            if L is None:
                if k == 'parent':
                    return None
                if k == 'value':
                    return self.__dict__['_last']
                if k == 'is_group_head':
                    self.__dict__[k] = v = G.E.bool('removed.head')
                    return v
                raise Unsupported(f'{k} of a node that was removed')
            return L._chain.get(self, k)

        def __setattr__(self, k, v):
            L = self._L
            G.E.touched.append(L)
            if k == 'value' and L is not None:
                L._chain.vals[id(self)] = (self, v)
                self._written.add('value')
                return
            self._over.pop(k, None)
            self.__dict__[k] = v
            self._written.add(k)
            G.E.wlog.append((self, k))
            if L is not None:
                L.__dict__['_dirty'] = True

    def list_getattr(self, k):
        c = self.__dict__.get('_chain')
        if c is None or k not in LATTRS or k in self.__dict__['_unset']:
            raise AttributeError(k)
        return c.field(k)

    def list_setattr(self, k, v):
        self.__dict__.setdefault('_written', set()).add(k)
        self.__dict__[k] = v
        if '_chain' in self.__dict__:
            G.E.touched.append(self)
            self._unset.discard(k)
            if not self._chain.cells and not self._unset and all(a in self.__dict__ for a in LATTRS) and \
                    [self.__dict__[a] for a in LATTRS] == [None, None, 0, None, None, 0]:
                # (a list that has just been made, and is empty)
                for a in LATTRS:
                    del self.__dict__[a]
                self.__dict__['_dirty'] = False
                return
            self.__dict__['_dirty'] = True
            G.E.wlog.append((self, k))

    def sym_iter(self):
        it = iter(self)
        return it.sym_iter() if isinstance(it, Iterable_) else None

    def sym_list(self):
        it = iter(self)
        return it.sym_list() if isinstance(it, Iterable_) else None

    d = dict(__getattr__=list_getattr, __setattr__=list_setattr, sym_iter=sym_iter, sym_list=sym_list)
    _cls.update(ref=S.ref, SymNode=SymNode, SymGL=type('BibleRangeList', (S.ref.BibleRangeList,), dict(d)), Node=Node)
    return _cls


def isnode(x):
    return isinstance(x, classes()['Node'])


def issym(x):
    return isinstance(x, classes()['SymNode'])


def issymlist(x):
    return isinstance(x, classes()['SymGL']) and '_chain' in x.__dict__


def clean(L):
    '''Whether a list is what its chain says (no links have been written).'''
    return issymlist(L) and not L.__dict__.get('_dirty')


def initial(x, k):
    '''The value of an attribute of a node before the operation.'''
    return x._v() if k == 'value' else x._L._chain.get(x, k)


class Chain:
    '''The sequence of cells of a list at one moment.'''

    def __init__(self, L, cells=(), hint='list'):
        self.L, self.hint, self._cells = L, hint, list(cells)
        self.heads, self.vals = {}, {}      # where they differ from what the nodes came with: id -> (node, value)
        self.version = 0
        self.links = {}

    @staticmethod
    def arbitrary(L, hint='list', n=None, g=None):
        e = G.E
        gap = Gap(L, e.int(f'{hint}.n') if n is None else n, e.int(f'{hint}.g') if g is None else g, True, hint)
        e.assume(gap.facts())
        return Chain(L, [gap], hint)

    def copy(self):
        c = Chain(self.L, self._cells, self.hint)
        c.heads, c.vals = dict(self.heads), dict(self.vals)
        return c

    @property
    def cells(self):
        if any(isinstance(c, Gap) and c.parted() for c in self._cells):
            self._cells = flatten(self._cells)
        return self._cells

    def hd(self, x):
        r = self.heads.get(id(x))
        return x._hd if r is None else r[1]

    def val(self, x):
        r = self.vals.get(id(x))
        return x._v() if r is None else r[1]

    @property
    def n(self):
        return self.total('n')

    @property
    def g(self):
        return self.total('g')

    def amount(self, c, key):
        if isinstance(c, Gap):
            return c.sum(key)
        return 1 if key == 'n' else Ite(self.hd(c), 1, 0) if key == 'g' else key.fn(self.val(c))

    def total(self, key):
        t = 0
        for c in self.cells:
            t = t + self.amount(c, key)
        return t

    def before(self, x, key='n', inclusive=False):
        '''The amount before x (all of it if x is None).'''
        t = 0
        for c in self.cells:
            if c is x and not inclusive:
                return t
            t = t + self.amount(c, key)
            if c is x:
                return t
        if x is not None:
            raise Unsupported('a node of another list')
        return t

    def after(self, x, key='n'):
        '''The amount after x; all of it if x is None, the end reached by going backwards.'''
        if x is None:
            return self.total(key)
        return self.total(key) - self.before(x, key, True)

    def index(self, cell):
        for i, c in enumerate(self.cells):
            if c is cell:
                return i
        raise Unsupported('a node of another list')

    def has(self, x):
        return any(c is x for c in self.cells)

    def end(self, d):
        '''The first (d = 1) or last (d = -1) node.'''
        while True:
            cs = self.cells
            if not cs:
                return None
            c = cs[0 if d == 1 else -1]
            if not isinstance(c, Gap):
                return c
            if c.n > 0:
                return c.split('first' if d == 1 else 'last')
            c.drop()

    def nbr(self, x, d):
        while True:
            j = self.index(x) + d
            if not 0 <= j < len(self.cells):
                return None
            c = self.cells[j]
            if not isinstance(c, Gap):
                return c
            if c.n > 0:
                return c.split('first' if d == 1 else 'last')
            c.drop()

    def head_from(self, x, d):
        '''The nearest group head after (before) x, which may be None for the end of the list.'''
        j = (-1 if d == 1 else len(self.cells)) if x is None else self.index(x)
        while True:
            j += d
            cs = self.cells
            if not 0 <= j < len(cs):
                return None
            c = cs[j]
            if isinstance(c, Gap):
                if c.g > 0:
                    return c.split('first_head' if d == 1 else 'last_head')
            elif self.hd(c):
                return c

    def at(self, i):
        '''The node at position i, which is within the list.'''
        p = 0
        for c in list(self.cells):
            if isinstance(c, Gap):
                if i < p + c.n:
                    return c.split('at', i - p)
                p = p + c.n
            else:
                if i == p:
                    return c
                p = p + 1
        raise Unsupported('position outside the list')

    def head_at(self, i):
        '''The node that starts group i, which exists.'''
        p = 0
        for c in list(self.cells):
            if isinstance(c, Gap):
                if i < p + c.g:
                    return c.split('head_at', i - p)
                p = p + c.g
            elif self.hd(c):
                if i == p:
                    return c
                p = p + 1
        raise Unsupported('position outside the groups')

    def any(self, k):
        '''An arbitrary node: the k-th cell, or one in it.'''
        c = self.cells[k]
        if isinstance(c, Gap):
            G.E.assume(c.n > 0)
            return c.split('any')
        return c

    def witness(self, key):
        '''A node that adds to a positive quantity.'''
        x = self.any(G.E.choose(len(self.cells)))
        G.E.assume(key.fn(self.val(x)) > 0)
        return x

    # -- what the code sees --

    def get(self, x, k):
        if k == 'value':
            return self.val(x)
        if k == 'parent':
            return self.L
        if k == 'is_group_head':
            return self.hd(x)
        key = (id(x), k)
        if key not in self.links:
            if k in ('prev', 'next'):
                v = self.nbr(x, 1 if k == 'next' else -1)
            else:
                if bool(self.hd(x)):
                    v = self.head_from(x, 1 if k == 'next_head' else -1)
                else:
                    v = POISON if G.E.choose(2) else None
            self.links[key] = v
        return self.links[key]

    def field(self, k):
        if k == '_node_count':
            return self.total('n')
        if k == '_group_count':
            return self.total('g')
        if k not in self.links:
            self.links[k] = (self.head_from(None, -1) if k == '_last_head' else self.end(-1 if k == '_last' else 1))
        return self.links[k]

    # -- operations on the sequence (the contracts of the primitives) --

    def _changed(self):
        self.links = {}
        G.E.touched.append(self.L)

    def insert(self, ref, d, value, head):
        '''A new node before (d = -1) or after (d = 1) a node; the only one if that is None.'''
        x = classes()['SymNode'](self.L, head, value)
        cs = self.cells
        i = 0 if ref is None else self.index(ref) + (1 if d == 1 else 0)
        self._cells = cs[:i] + [x] + cs[i:]
        self._changed()
        return x

    def set_head(self, x, h):
        self.heads[id(x)] = (x, h)
        self._changed()

    def remove(self, x):
        h = self.hd(x)
        if bool(h):
            y = self.nbr(x, 1)
            if y is not None:
                self.set_head(y, True)
        v = self.val(x)
        i = self.index(x)
        self._cells = self.cells[:i] + self.cells[i+1:]
        x.__dict__['_L'], x.__dict__['_last'] = None, v
        self._changed()
        return v


    def clear(self):
        for c in self.cells:
            if issym(c):
                c.__dict__['_L'], c.__dict__['_last'] = None, self.val(c)
        self._cells, self.heads, self.vals = [], {}, {}
        self._changed()

    def clear_groups(self):
        first = self.end(1)
        cs = []
        for c in self.cells:
            if isinstance(c, Gap):
                c = c.mirror(self.L, 'none')
            else:
                self.heads[id(c)] = (c, c is first)
            cs.append(c)
        self._cells = cs
        self._changed()

    def extend(self, other, new_group):
        '''Other nodes with the items of a chain at the end; they start a group if asked, or if there were none.'''
        first = other.end(1)
        head = Or(new_group, self.n == 0)
        cs = []
        for c in other.cells:
            if isinstance(c, Gap):
                cs.append(c.mirror(self.L, 'none'))
            else:
                x = classes()['SymNode'](self.L, head if c is first else False, other.val(c))
                if id(c) not in other.vals:
                    x.__dict__['_src'] = c
                cs.append(x)
        self._cells = self.cells + cs
        self._changed()

    def mirror(self, other):
        '''The same items in the same groups.'''
        cs = []
        for c in other.cells:
            if isinstance(c, Gap):
                c = c.mirror(self.L, 'same')
            else:
                x = classes()['SymNode'](self.L, other.hd(c), other.val(c))
                if id(c) not in other.vals:
                    x.__dict__['_src'] = c
                c = x
            cs.append(c)
        self._cells, self.heads, self.vals = cs, {}, {}
        self._changed()

    def sort(self, g, rel):
        '''An arbitrary arrangement of the same items in ascending order, in one group.'''
        n = self.n
        new = Gap(self.L, n, Ite(n > 0, 1, 0), True, self.hint + '^')
        for k in g.keys:
            new.q[k] = self.total(k)
        preds = [k for k, p in g.lpreds.items() if G.E.known_rec(holds_all(self, k, p))]
        self._cells, self.heads, self.vals = [new], {}, {}
        for k in preds:
            Region(self, k, pred=g.lpreds[k])
        Region(self, 'sorted', rel=rel)
        self._changed()

    def merge(self, cov, preds, rels):
        '''An arbitrary list with the same verses, in which the predicates and relations hold.'''
        n, old = self.n, self.copy()
        new = self.arrange(cov, lambda key: old.total(key) > 0, preds, rels)
        G.E.assume(And(Iff(new.n > 0, n > 0), new.n <= n))

    def arrange(self, cov, covered, preds, rels):
        '''An arbitrary list in which the predicates and relations hold; covered: quantity -> whether it includes it.'''
        e = G.E
        covered(cov)
        new = Gap(self.L, e.int('merged.n'), e.int('merged.g'), True, self.hint + '~')
        e.assume(new.facts())
        for c in self.cells:
            if issym(c):
                c.__dict__['_L'], c.__dict__['_last'] = None, self.val(c)
        self._cells, self.heads, self.vals = [new], {}, {}
        snap = self.copy()
        e.arranged.append(snap)
        cover_fact(lambda key: Iff(snap.total(key) > 0, covered(key)))
        for k, p in preds.items():
            Region(self, k, pred=p)
        for k, r in rels.items():
            Region(self, k, rel=r)
        self._changed()
        return new

    def regroup(self):
        '''Other nodes with the same items, and any groups.'''
        first = self.end(1)
        cs = []
        for c in self.cells:
            if isinstance(c, Gap):
                c = c.mirror(self.L, 'any')
            else:
                x = classes()['SymNode'](self.L, True if c is first else G.E.bool('head'), self.val(c))
                if id(c) not in self.vals:
                    x.__dict__['_src'] = c
                c = x
            cs.append(c)
        self._cells, self.heads, self.vals = cs, {}, {}
        self._changed()

    def part(self, x, y):
        '''The nodes from x to before y (None: to the end).'''
        i = self.index(x)
        c = Chain(self.L, self.cells[i:] if y is None else self.cells[i:self.index(y)], self.hint)
        c.heads, c.vals = dict(self.heads), dict(self.vals)
        return c


def mklist(hint='list', cells=None):
    '''An arbitrary list; or one with given (value, head) items.'''
    L = object.__new__(classes()['SymGL'])
    morph(L, hint, cells)
    return L


def morph(L, hint='list', cells=None):
    L.__class__ = classes()['SymGL']
    L.__dict__.clear()
    L.__dict__['_written'] = set()
    L.__dict__['_unset'] = set()
    L.__dict__['_born'] = len(G.E.touched)
    G.E.touched.append(None)        # (so that what was there before a loop is older than it)
    if cells is None:
        ch = Chain.arbitrary(L, hint)
    else:
        ch = Chain(L, [classes()['SymNode'](L, h, v) for v, h in cells], hint)
    L.__dict__['_chain'] = ch
    L.__dict__['_chain0'] = ch.copy()


def unmade():
    '''A list that is about to be initialised.'''
    L = mklist(cells=[])
    L.__dict__['_unset'] = set(LATTRS)
    return L


# ---------------------------------------------------------------------------------------------------------------
# What an operation must leave behind
# ---------------------------------------------------------------------------------------------------------------

class New:
    def __init__(self, value, head=False):
        self.value, self.head, self.obj = value, head, None


class Del:
    def __init__(self, node):
        self.node = node


class Seq:
    '''The expected sequence: cells of the chain before the operation, New and Del entries.'''

    def __init__(self, L, entries, heads=None, values=None, single=False, reverse=False):
        self.L, self.entries = L, list(entries)
        self.ch = L._chain0
        self.heads = heads or []        # [(node, expected head)]
        self.values = values or []      # [(node, expected value)]
        self.single = single            # one group
        self.reverse = reverse

    def flat(self):
        self.entries = flatten(self.entries)
        return self.entries

    def find(self, x):
        for i, y in enumerate(self.flat()):
            if y is x:
                return i
        raise KeyError

    def head(self, x):
        if self.single:
            return self.nbr(x, -1) is None
        for y, h in self.heads:
            if y is x:
                return h
        return x.head if isinstance(x, New) else self.ch.hd(x)

    def value(self, x):
        for y, v in self.values:
            if y is x:
                return v
        return x.value if isinstance(x, New) else self.ch.val(x)

    def nbr(self, x, d):
        '''The entry next to x (None: the end of the list).'''
        d = -d if self.reverse else d
        while True:
            es = self.flat()
            j = ((-1 if d == 1 else len(es)) if x is None else self.find(x)) + d
            while 0 <= j < len(es) and isinstance(es[j], Del):
                j += d
            if not 0 <= j < len(es):
                return None
            c = es[j]
            if not isinstance(c, Gap):
                return c
            if c.n > 0:
                return c.split('first' if d == 1 else 'last')
            c.drop()

    def headnbr(self, x, d):
        if self.single:
            if d == 1:
                return self.nbr(None, 1) if x is None else None
            y = self.nbr(None, 1)
            return None if y is x else y
        es = self.flat()
        j = (-1 if d == 1 else len(es)) if x is None else self.find(x)
        while True:
            j += d
            es = self.flat()
            if not 0 <= j < len(es):
                return None
            c = es[j]
            if isinstance(c, Del):
                continue
            if isinstance(c, Gap):
                if c.g > 0:
                    return c.split('first_head' if d == 1 else 'last_head')
            elif self.head(c):
                return c

    def total(self, key):
        if self.single and key == 'g':
            return Ite(self.total('n') > 0, 1, 0)
        t = 0
        for c in self.flat():
            if isinstance(c, Del):
                continue
            if isinstance(c, Gap):
                t = t + c.sum(key)
            else:
                t = t + (1 if key == 'n' else Ite(self.head(c), 1, 0))
        return t


def obj(x):
    return x.obj if isinstance(x, New) else x


def same(v, w):
    if v is w:
        return True
    if S.isrange(v) and S.isrange(w):
        return And(eqt(W.t(v.start), W.t(w.start)), eqt(W.t(v.end), W.t(w.end)))
    return False


def refused_view(x):
    '''Whether a view of the group that a node used to start is refused.'''
    try:
        S.util.GroupedList.GroupView(x)[0]
    except Exception as ex:
        return type(ex).__name__ == 'GroupViewError'
    return False


def conform(L, seq, what='list'):
    '''Clauses: L is a well-formed list of the expected sequence.'''
    if L.__dict__.get('_reabs'):
        raise Unsupported('the list was changed by a loop')
    if clean(L):
        yield from conform_cells(L, seq, what)
        return
    if L._chain.heads or [id(c) for c in L._chain.cells] != [id(c) for c in L._chain0.cells]:
        raise Unsupported('links are written after other changes')
    # nodes that a loop has changed, wherever they are
    gaps = [c for c in seq.flat() if isinstance(c, Gap) and c.over] + \
        [c.node for c in seq.flat() if isinstance(c, Del) and isinstance(c.node, Gap)]
    if gaps:
        k = G.E.choose(len(gaps) + 1)
        if k:
            c = gaps[k-1]
            G.E.assume(c.n > 0)
            c.split('any')
    dels = []
    for c in seq.flat():
        if isinstance(c, Del):
            dels += [y for y in (Chain(L, [c.node]).cells) if not isinstance(y, Gap)]
    for x in dels:
        yield f'{what}: a removed item leaves the list', x.parent is not L
        yield f'{what}: a view of a removed group is refused', refused_view(x)
    yield f'{what}: length', L._node_count == seq.total('n')
    yield f'{what}: number of groups', L._group_count == seq.total('g')
    # the objects of new entries
    for x in list(seq.flat()):
        if isinstance(x, New):
            left = seq.nbr(x, -1)
            x.obj = L._first if left is None else obj(left).next
            ok = isnode(x.obj) and not any(y is x.obj for y in seq.flat())
            yield f'{what}: the new item is in its place', ok
            if not ok:
                return
    touched = []
    for x in seq.flat():
        if isinstance(x, New) or isinstance(x, Del) and not isinstance(x.node, Gap) or \
                (issym(x) and x._written) or any(y is x for y, _ in seq.heads):
            touched.append(x)
    for x in touched:
        p = None if isinstance(x, Del) else obj(x)
        left, right = seq.nbr(x, -1), seq.nbr(x, 1)
        lo, ro = obj(left) if left is not None else None, obj(right) if right is not None else None
        if p is not None:
            yield f'{what}: links of an item', p.prev is lo and p.next is ro
            yield f'{what}: an item belongs to the list', p.parent is L
            yield f'{what}: an item has its value', same(p.value, seq.value(x))
        t1, t2 = (p, p) if p is not None else (ro, lo)
        yield f'{what}: links to an item', (L._first if left is None else lo.next) is t1
        yield f'{what}: links back to an item', (L._last if right is None else ro.prev) is t2
        ph, nh = seq.headnbr(x, -1), seq.headnbr(x, 1)
        pho, nho = obj(ph) if ph is not None else None, obj(nh) if nh is not None else None
        if p is not None and bool(seq.head(x)):
            yield f'{what}: a group starts where it should', Iff(p.is_group_head, True)
            yield f'{what}: links of a group', p.prev_head is pho and p.next_head is nho
            q1 = q2 = p
        else:
            if p is not None:
                yield f'{what}: a group does not start elsewhere', Not(p.is_group_head)
            q1, q2 = nho, pho
        yield f'{what}: links to a group', (L._first_head if ph is None else pho.next_head) is q1
        yield f'{what}: links back to a group', (L._last_head if nh is None else nho.prev_head) is q2
    w = L._written
    if '_first' in w:
        x = seq.nbr(None, 1)
        yield f'{what}: first item', L._first is (None if x is None else obj(x))
    if '_last' in w:
        x = seq.nbr(None, -1)
        yield f'{what}: last item', L._last is (None if x is None else obj(x))
    if '_first_head' in w:
        x = seq.headnbr(None, 1)
        yield f'{what}: first group', L._first_head is (None if x is None else obj(x))
    if '_last_head' in w:
        x = seq.headnbr(None, -1)
        yield f'{what}: last group', L._last_head is (None if x is None else obj(x))


def conform_cells(L, seq, what):
    '''The same for a list that was changed by its primitives only.'''
    ch = L._chain
    if seq.reverse:
        for c in seq.flat():
            if isinstance(c, Gap):
                if not G.E.known_rec(c.n == 0):
                    raise Unsupported('reversed cells')
                c.drop()
        seq = Seq(L, seq.flat()[::-1], seq.heads, seq.values, seq.single)
    old = {id(c) for c in seq.flat()}
    es = seq.flat()
    for x in [c.node for c in es if isinstance(c, Del)]:
        for y in Chain(L, [x]).cells:
            if not isinstance(y, Gap):
                yield f'{what}: a removed item leaves the list', y.parent is not L
    es = [c for c in es if not isinstance(c, Del)]
    cs = list(ch.cells)
    yield f'{what}: length', ch.total('n') == seq.total('n')
    if len(es) != len(cs):
        # an empty gap may be known only to one side
        for c in es + cs:
            if isinstance(c, Gap) and c.parts is None and G.E.known_rec(c.n == 0):
                c.drop()
        es = [c for c in seq.flat() if not isinstance(c, Del)]
        cs = list(ch.cells)
    yield f'{what}: items in order', len(es) == len(cs)
    for x, c in zip(es, cs):
        if isinstance(x, New):
            ok = issym(c) and id(c) not in old
            yield f'{what}: the new item is in its place', ok
        else:
            ok = x is c
            yield f'{what}: items in order', ok
        if ok and not isinstance(c, Gap):
            yield f'{what}: an item has its value', same(ch.val(c), seq.value(x))
            yield f'{what}: groups start where they should', Iff(ch.hd(c), seq.head(x))
        elif ok and seq.single:
            yield f'{what}: groups start where they should', c.g == 0
        elif not ok:
            return


def same_items(ch, old):
    """Whether two chains have the same items in the same order."""
    def tidy(c):
        return [x for x in c.cells if not (isinstance(x, Gap) and G.E.known_rec(x.n == 0))]
    cs, ds = tidy(ch), tidy(old)
    if len(cs) != len(ds):
        return False
    out = []
    for c, d in zip(cs, ds):
        if isinstance(c, Gap) or isinstance(d, Gap):
            if not (isinstance(c, Gap) and isinstance(d, Gap) and origin(c) is origin(d)):
                return False
        else:
            out.append(same(ch.val(c), old.val(d)))
    return And(*out) if out else True


def unchanged(L, what='list'):
    if L.__dict__.get('_reabs'):
        raise Unsupported('the list was changed by a loop')
    yield from conform(L, Seq(L, L._chain0.cells), what)


# ---------------------------------------------------------------------------------------------------------------
# Iteration, according to the contracts of the generators
# ---------------------------------------------------------------------------------------------------------------

class ChainIter(Loop):
    """The items or nodes of a list in order: after an item, the one its node's link leads to when it is asked for."""

    def __init__(self, L, what, d=1, frozen=None, first=None):
        self.L, self.what, self.d, self.frozen, self.first, self.stop = L, what, d, frozen, first, None

    def start(self, lid):
        super().__init__(lid)
        if self.frozen is not None:
            self.cur = self.frozen.end(self.d)
        elif self.what == 'group':
            self.cur = self.L._first_head
        elif self.what == 'item of group':
            S.util.GroupedList.GroupView(self.first)._check_group_head()
            self.cur = self.first
            self.stop = self.L._chain.head_from(self.first, 1) if clean(self.L) else None
        else:
            self.cur = self.L._first if self.d == 1 else self.L._last
        self.last = None
        return self

    @property
    def chain(self):
        return self.L._chain if self.frozen is None else self.frozen

    def must_cut(self):
        return any(isinstance(c, Gap) for c in self.chain.cells)

    def _advance(self):
        if self.last is not None:
            x = self.last
            if self.frozen is not None:
                self.cur = self.frozen.nbr(x, self.d)
            elif self.what == 'group':
                self.cur = x.next_head
            elif self.what == 'item of group':
                y = x.next
                self.cur = None if y is None or y.is_group_head else y
            else:
                self.cur = x.next if self.d == 1 else x.prev
            self.last = None

    def head(self, names, env):
        self._advance()
        return super().head(names, env)

    def iter_values(self):
        return {'<cur>': self.cur}

    def set_iter(self, d):
        self.cur = d['<cur>']

    def iter_facts(self):
        return []

    def next(self):
        self._advance()
        if self.cur is None:
            return False
        self.last = self.cur
        self.value = self.cur if self.what == 'node' else \
            S.util.GroupedList.GroupView(self.cur) if self.what == 'group' else \
            self.cur.value if self.frozen is None else self.frozen.val(self.cur)
        return True


class Iterable_:
    """What __iter__, __reversed__ and _node_iter return."""

    def __init__(self, L, what, d, first=None):
        self.L, self.what, self.d, self.first = L, what, d, first

    def sym_iter(self):
        return ChainIter(self.L, self.what, self.d, first=self.first)

    def __iter__(self):
        return self

    def __next__(self):
        raise Unsupported('a list is iterated by other means than a loop')

    def sym_list(self):
        if not clean(self.L) or self.d != 1:
            raise Unsupported('a list is copied')
        ch = self.L._chain
        if self.what == 'value':
            return SymSeq(ch.copy())
        if self.what == 'item of group':
            S.util.GroupedList.GroupView(self.first)._check_group_head()
            return SymSeq(ch.part(self.first, ch.head_from(self.first, 1)))
        raise Unsupported('a list is copied')


class SymSeq:
    """A Python list with the items of a list at one moment."""

    def __init__(self, chain):
        self.chain = chain

    def sym_iter(self):
        return ChainIter(None, 'value', 1, self.chain)

    def sym_len(self):
        return self.chain.n

    def sym_list(self):
        return self

    def __bool__(self):
        return bool(self.chain.n > 0)

    def __getitem__(self, i):
        raise Unsupported('index of a copied list')

    def __iter__(self):
        raise Unsupported('a copied list is iterated by other means than a loop')


S.LISTLIKE.append(SymSeq)


def drive(L, gen, what, d, first=None):
    """Consume a generator over a list and state what it must yield: the items (nodes, groups) in order, each once."""
    e = G.E
    ch = L._chain
    g = e.ghost
    g.values['yielded'] = 0
    e.driving = True
    if what == 'group':
        n, nth = ch.g, ch.head_at
    elif first is not None:
        y = ch.head_from(first, 1)
        n, off = ch.before(y) - ch.before(first), ch.before(first)

        def nth(k):
            return ch.at(off + k)
    else:
        n, nth = ch.n, ch.at
    while True:
        try:
            x = next(gen)
        except StopIteration:
            break
        k = g.values['yielded']
        if not e.replaying:
            e.prove('stops at the end', k < n)
        e.assume(k < n)
        c = nth(k if d == 1 else n - 1 - k)
        if what == 'group':
            ok = isinstance(x, S.util.GroupedList.GroupView) and x.group_head is c
        else:
            ok = x is c if what == 'node' else same(x, ch.val(c))
        if not e.replaying:
            e.prove('yields the items in order', ok)
        if what in ('node', 'value') and first is None:
            # the consumer may change what the iteration must not depend on
            for k2 in ('parent', 'is_group_head', 'prev_head', 'next_head'):
                c.__dict__[k2] = POISON
        g.values['yielded'] = k + 1
    e.driving = False
    return g.values['yielded'], n


class _Poison:
    def _no(self, *a):
        raise Unsupported('the iteration depends on what may change meanwhile')
    __bool__ = __eq__ = __getattr__ = _no
    __hash__ = object.__hash__


POISON = _Poison()
