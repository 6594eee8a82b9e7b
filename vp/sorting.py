'''GroupedList.sort (a merge sort on the links of the nodes) under contract, for lists of any length.

  _split(first)        of a chain of two or more nodes: cuts it in two non-empty chains, and (if asked) clears the group
                       marks of all the nodes
  _merge_sublists(...) of two ascending chains: one ascending chain of the nodes of both
  _merge_sort(first)   by induction on the length: one ascending chain of the same nodes, given the contracts of the
                       other two and its own for shorter chains
  sort()               the nodes of the list in ascending order, in one group

A chain is a sequence of nodes of symbolic length, a node is a position in a chain; the real functions run on such nodes.
Their loops are cut. The state of the loop in _split is the positions its variables point at, with invariants from
templates. The state of the loop in _merge_sublists is what is left of both chains and the chain merged so far; which
variable plays which part in it is found out. What cannot be shown here is undecided, never an alarm.
'''
import time

import z3

from . import engine as G, symex as S, units
from .engine import Engine, Unsupported, Budget, PathEnd, Restart, SymInt, SymBool, zi, zb
from .spec import And, Or, Not, Implies

HEADS = {'is_group_head': False, 'prev_head': None, 'next_head': None}
LINKS = ('next', 'prev')
ST = None       # the state of the path


class State:
    def __init__(self, parent=None):
        self.writes = []        # (node, attribute, value)
        self.regions = []       # (attribute, value, position): so are all nodes of the chain before the position
        self.parent = parent
        self.base = None
        self.clear = None


class Chain:
    def __init__(self, name, n, ascending=False, atoms=None):
        self.name, self.n, self.ascending = name, n, ascending
        self.lo = 0             # (nodes before this position have left the chain)
        self.tail = True        # whether the last node's next is None; otherwise it is not known
        self.dead = False
        self.atoms = atoms if atoms is not None else {self}
        self.key = z3.Function(G.E.fresh(name + '.key'), z3.IntSort(), z3.IntSort())

    def k(self, i):
        '''The sort key of a node, with what ascending order says of it and its neighbours.'''
        e, i = G.E, zi(i)
        if self.ascending:
            e.add(z3.Implies(z3.And(i >= zi(self.lo), i + 1 < zi(self.n)), self.key(i) <= self.key(i + 1)))
        return SymInt(self.key(i))


class Val:
    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return self.k < o.k

    def __le__(self, o):
        return self.k <= o.k

    def __gt__(self, o):
        return self.k > o.k

    def __ge__(self, o):
        return self.k >= o.k

    def __eq__(self, o):
        return self.k == o.k

    def __ne__(self, o):
        return self.k != o.k

    __hash__ = None


class Poison:
    def _no(self, *a):
        raise Unsupported('a variable that is not known here')
    __getattr__ = __bool__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __sub__ = __call__ = __iter__ = _no
    __hash__ = None


def same(a, b):
    '''Whether two nodes (or None) are the same one.'''
    if a is None or b is None:
        return a is b
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('a variable that is not known here')
    if a._c is not b._c:
        return False
    return bool(a._i == b._i)


def is_same(a, b):
    '''same(), as something known.'''
    if a is None or b is None or isinstance(a, Poison) or isinstance(b, Poison):
        return a is b
    return a._c is b._c and G.E.known(a._i == b._i)


def node_class():
    if node_class.made is None:
        real = {k: v for k, v in vars(S.util.GroupedList._Node).items()
                if callable(v) and k not in ('__init__', '__repr__', '__str__', '__new__')}

        class Node:
            def __init__(self, c, i):
                self.__dict__.update(_c=c, _i=i)

            def _check(self):
                if self._c.dead or not bool(And(self._i >= self._c.lo, self._i < self._c.n)):
                    raise Unsupported('a node that has left its chain')

            def __getattr__(self, k):
                if k.startswith('__'):
                    raise AttributeError(k)
                c, i = self._c, self._i
                self._check()
                if k == 'value':
                    return Val(c.k(i))
                if k == 'parent':
                    return ST.parent
                if k not in LINKS and k not in HEADS:
                    raise Unsupported(f'{k} of a node')
                for x, a, v in reversed(ST.writes):
                    if a == k and same(x, self):
                        return v
                if k == 'next':
                    if bool(i + 1 < c.n):
                        return Node(c, i + 1)
                    return None if c.tail else Poison()
                if k == 'prev':
                    if bool(i > c.lo):
                        return Node(c, i - 1)
                    return None if isinstance(c.lo, int) and c.lo == 0 else Poison()
                raise Unsupported(f'{k} of a node that was not looked at')

            def __setattr__(self, k, v):
                self._check()
                if k not in LINKS and k not in HEADS:
                    raise Unsupported(f'writing {k} of a node')
                ST.writes.append((self, k, v))

            __hash__ = None

        for k, f in real.items():
            if k not in ('__getattr__', '__setattr__', '__hash__', '__dict__', '__weakref__'):
                setattr(Node, k, f)
        node_class.made = Node
    return node_class.made


node_class.made = None


def isnode(x):
    return isinstance(x, node_class())


class _Loop:
    '''Hooks of a cut loop.'''
    native = False
    value = None

    def __init__(self, run, lid):
        self.run, self.lid, self.inside = run, (lid, ST.clear), None

    def head(self, names, env):
        if self.inside is None:
            self.inside = True
            return self.enter(names, env)
        self.back(names, env)
        raise PathEnd


# ---------------------------------------------------------------------------------------------------------------
# _split
# ---------------------------------------------------------------------------------------------------------------

class SplitLoop(_Loop):
    def pos(self, v, X):
        '''A variable as a position (None: the end).'''
        if v is None:
            return X.n
        if isnode(v):
            return v._i if v._c is X else None
        if isinstance(v, (int, SymInt)) and not isinstance(v, bool):
            return v
        return None

    def facts(self, p, X):
        out = {}
        for v, x in p.items():
            out[f'{v} < n'] = x < X.n
            out[f'{v} >= 1'] = x >= 1
            for w, y in list(p.items()):
                if v != w:
                    for c in (0, 1):
                        out[f'{v} + {c} <= {w}'] = x + c <= y
                        out[f'2 {v} + {c} <= {w}'] = x + x + c <= y
            for a in HEADS:
                out[f'{a} before {v}'] = None
        return out

    def holds(self, label, fact, p, X):
        if fact is not None:
            return G.E.known(fact)
        a, v = label.split(' before ')
        return cleared(a, X, p[v])

    def enter(self, names, env):
        e, X, run = G.E, ST.chain, self.run
        vals = {n: env[n] for n in names if n in env}
        p = {n: self.pos(v, X) for n, v in vals.items()}
        kinds = {n: 'dead' if p.get(n) is None else 'int' if isinstance(vals[n], (int, SymInt)) else 'node' for n in names}
        for n, k in kinds.items():
            if run.kinds.get(self.lid, {}).get(n, k) != k:
                kinds[n] = 'dead'
        run.kinds[self.lid] = self.kinds = kinds
        if any(a in LINKS for _, a, _ in ST.writes):
            raise Unsupported('links are changed before the loop')
        p = {n: x for n, x in p.items() if kinds[n] != 'dead'}
        alive = run.alive.get(self.lid)
        facts = self.facts(p, X)
        if alive is None:
            alive = run.alive[self.lid] = set(facts)
        for l in sorted(alive & set(facts)):
            if not e.replaying and not self.holds(l, facts[l], p, X):
                alive.discard(l)
                run.changed = True
        alive &= set(facts)
        new, self.p = {}, {}
        for n in names:
            if kinds[n] == 'dead':
                new[n] = Poison()
                continue
            x = self.p[n] = e.int(n)
            if kinds[n] == 'node':
                e.assume(And(x >= 0, x <= X.n))
        ST.writes, old = [], ST.regions
        facts = self.facts(self.p, X)
        ST.regions = [(l.split(' before ')[0], HEADS[l.split(' before ')[0]], self.p[l.split(' before ')[1]])
                      for l in alive if facts[l] is None]
        for l in sorted(alive):
            if facts[l] is not None:
                e.assume(facts[l])
        for n, x in self.p.items():
            new[n] = x if kinds[n] == 'int' else node_class()(X, x) if bool(x < X.n) else None
        return new

    def back(self, names, env):
        e, X, run = G.E, ST.chain, self.run
        if any(a in LINKS for _, a, _ in ST.writes):
            raise Unsupported('links are changed in the loop')
        p = {}
        for n, x in self.p.items():
            y = self.pos(env.get(n, Poison()), X)
            if y is None:
                run.kinds[self.lid][n] = 'dead'
                run.changed = True
                raise PathEnd
            p[n] = y
        facts = self.facts(p, X)
        alive = run.alive[self.lid]
        for l in sorted(alive):
            if not self.holds(l, facts[l], p, X):
                alive.discard(l)
                run.changed = True
        m = run.meas.setdefault(self.lid, set(p))
        for n in sorted(m):
            if not e.known(And(p[n] > self.p[n], self.p[n] < X.n)):
                m.discard(n)
        if not m:
            raise Unsupported('the loop may not end')
        run.backs += 1


def cleared(a, X, upto):
    '''Whether the attribute a has its cleared value in all nodes of X before the position.'''
    e = G.E
    k = e.int('k')
    xs = [k < r for b, v, r in ST.regions if b == a]
    for x, b, v in ST.writes:
        if b == a:
            if v is not HEADS[a]:
                return False
            if x._c is X:
                xs.append(k == x._i)
    return e.known(Implies(And(k >= 0, k < upto), Or(*xs) if xs else False))


def prove_split(run, e):
    global ST
    clear = bool(e.choose(2))
    n = e.int('n')
    e.assume(n >= 2)
    ST = State()
    ST.clear = clear
    X = ST.chain = Chain('X', n)
    Node = node_class()
    got = run.call('_split', Stub({}), Node(X, 0), clear)
    e.feasible()
    if run.changed:
        return
    e.prove('_split returns a node of the list', isnode(got) and got._c is X)
    k = got._i
    e.prove('both parts have nodes', And(k >= 1, k <= X.n - 1))
    for x, a, v in ST.writes:
        if a in LINKS:
            e.prove('only the links between both parts are changed',
                    x._c is X and e.known(x._i == k - 1 if a == 'next' else x._i == k))
    e.prove('the first part ends before the second', Node(X, k - 1).next is None)
    e.prove('the second part has no previous node', Node(X, k).prev is None)
    for a, v in HEADS.items():
        if clear:
            e.prove(f'{a} is cleared in every node', cleared(a, X, X.n))
        e.prove(f'{a} is set to nothing else', all(w is v for x, b, w in ST.writes if b == a))
    run.ends += 1


# ---------------------------------------------------------------------------------------------------------------
# _merge_sublists
# ---------------------------------------------------------------------------------------------------------------

class MergeLoop(_Loop):
    def enter(self, names, env):
        e, run, Node = G.E, self.run, node_class()
        A, B = ST.A, ST.B
        if ST.writes or ST.base is not None:
            raise Unsupported('links are changed before the loop')
        roles = run.roles
        for n in names:
            v = env.get(n, Poison())
            ok = {'dead'}
            if v is None:
                ok = {'first', 'last', 'dead'}
            elif isnode(v) and v._c in (A, B) and e.known(v._i == 0):
                ok = {'A' if v._c is A else 'B', 'dead'}
            roles[n] = roles.get(n, ok) & ok
        i, j = e.int('i'), e.int('j')
        e.assume(And(i >= 0, i <= A.n, j >= 0, j <= B.n))
        if run.left:
            e.assume(Or(i < A.n, j < B.n))
        m = i + j
        M = Chain('M', m, True, set())
        M.tail = False
        A.lo, B.lo = i, j
        ST.base = (i, j, M)
        e.assume(Implies(And(m > 0, i < A.n), M.k(m - 1) <= A.k(i)))
        e.assume(Implies(And(m > 0, j < B.n), M.k(m - 1) <= B.k(j)))
        new = {}
        for n in names:
            r = next(r for r in ('A', 'B', 'first', 'last', 'dead') if r in roles[n])
            if r == 'A':
                new[n] = Node(A, i) if bool(i < A.n) else None
            elif r == 'B':
                new[n] = Node(B, j) if bool(j < B.n) else None
            elif r == 'first':
                new[n] = Node(M, 0) if bool(m > 0) else None
            elif r == 'last':
                new[n] = Node(M, m - 1) if bool(m > 0) else None
            else:
                new[n] = Poison()
        self.role = {n: next(r for r in ('A', 'B', 'first', 'last', 'dead') if r in roles[n]) for n in names}
        return new

    def back(self, names, env):
        e, run, Node = G.E, self.run, node_class()
        A, B = ST.A, ST.B
        i, j, M = ST.base
        m = M.n
        at = {'A': i, 'B': j}
        for c, X in (('A', A), ('B', B)):
            for n in names:
                if self.role[n] == c:
                    v = env[n]
                    if v is not None and not (isnode(v) and v._c is X):
                        raise Unsupported(f'{n} leaves its chain')
                    at[c] = X.n if v is None else v._i
        i2, j2 = at['A'], at['B']
        if e.known(And(i2 == i + 1, j2 == j)):
            x = Node(A, i)
        elif e.known(And(i2 == i, j2 == j + 1)):
            x = Node(B, j)
        else:
            raise Unsupported('the loop does not move one node on')
        last = Node(M, m - 1) if bool(m > 0) else None
        for n in names:
            r = self.role[n]
            want = x if r == 'last' or r == 'first' and last is None else Node(M, 0)
            if r in ('first', 'last') and not is_same(env[n], want):
                run.roles[n].discard(r)
                run.changed = True
        if run.left and not e.known(Or(i2 < A.n, j2 < B.n)):
            run.left, run.changed = False, True
        if run.changed:
            raise PathEnd
        for y, a, v in ST.writes:
            ok = a in LINKS and (is_same(y, x) or last is not None and a == 'next' and is_same(y, last) or
                                 a == 'prev' and (y._c is A and e.known(y._i == i2) or y._c is B and e.known(y._i == j2)))
            if not ok:
                raise Unsupported('the loop changes other links')
        e.prove('merging: the node is linked to what is merged before it', is_same(x.prev, last))
        if last is not None:
            e.prove('merging: what is merged is linked to the node', is_same(last.next, x))
            e.prove('merging: ascending', last.value <= x.value)
        # invariant of the next iteration
        if bool(i2 < A.n):
            e.prove('merging: the node is not above what is left of the first list', x.value <= Node(A, i2).value)
        if bool(j2 < B.n):
            e.prove('merging: the node is not above what is left of the second list', x.value <= Node(B, j2).value)
        run.backs += 1


def prove_merge(run, e):
    global ST
    a, b = e.int('a'), e.int('b')
    e.assume(And(a >= 1, b >= 1))
    ST = State()
    A, B = ST.A, ST.B = Chain('A', a, True), Chain('B', b, True)
    Node = node_class()
    got = run.call('_merge_sublists', Stub({}), Node(A, 0), Node(A, a - 1), Node(B, 0), Node(B, b - 1))
    e.feasible()
    if run.changed:
        return
    if ST.base is None:
        raise Unsupported('the lists are not merged in a loop')
    i, j, M = ST.base
    m = M.n
    ra, rb = bool(i < A.n), bool(j < B.n)
    e.prove('merging ends when one of the lists does', not (ra and rb))
    if ra and rb:
        return
    rest = (A, i) if ra else (B, j) if rb else None
    last = Node(M, m - 1) if bool(m > 0) else None
    e.prove('merging: a pair is returned', isinstance(got, tuple) and len(got) == 2)
    end = Node(rest[0], rest[0].n - 1) if rest else last
    start = Node(M, 0) if last is not None else Node(*rest)
    for y, w, v in ST.writes:
        ok = (last is not None and w == 'next' and is_same(y, last)) or \
            (rest is not None and w == 'prev' and is_same(y, Node(*rest))) or \
            (w == 'next' and is_same(y, end)) or (w == 'prev' and is_same(y, start))
        if not ok:
            raise Unsupported('other links are changed')
    e.prove('merging: the first node is returned', is_same(got[0], start))
    e.prove('merging: the last node is returned', is_same(got[1], end))
    if rest and last is not None:
        e.prove('merging: what is left follows what is merged', is_same(last.next, Node(*rest)))
        e.prove('merging: what is left is linked back', is_same(Node(*rest).prev, last))
        e.prove('merging: what is left is not below', last.value <= Node(*rest).value)
    e.prove('merging: nothing before the first node', start.prev is None)
    e.prove('merging: nothing after the last node', end.next is None)
    run.ends += 1


# ---------------------------------------------------------------------------------------------------------------
# _merge_sort, sort
# ---------------------------------------------------------------------------------------------------------------

class Stub:
    '''The list whose method is executed, with contracts for the other methods.'''

    def __init__(self, methods, **attrs):
        self.__dict__.update(_methods=methods, _attrs=attrs)

    def __getattr__(self, k):
        if k in self._methods:
            return self._methods[k]
        if k in self._attrs:
            return self._attrs[k]
        f = S.util.GroupedList.__dict__.get(k)
        if callable(f) and k not in ('_split', '_merge_sort', '_merge_sublists', 'sort'):
            return lambda *a, **kw: f(self, *a, **kw)
        raise Unsupported(f'{k} of the list')

    def __setattr__(self, k, v):
        if k not in self._attrs:
            raise Unsupported(f'writing {k} of the list')
        self._attrs[k] = v

    def sym_len(self):
        return self._attrs['_node_count']


def whole(x, what):
    '''The chain of which x is the first node.'''
    e = G.E
    e.prove(f'{what} is given the first node of a list', isnode(x) and not x._c.dead and x._c.tail and e.known(x._i == 0))
    if not isnode(x) or x._c.dead:
        raise PathEnd
    return x._c


def contracts(size):
    Node = node_class()

    def _split(first_node, clear_group_heads=False):
        e = G.E
        X = whole(first_node, '_split')
        e.prove('_split is given two or more nodes', X.n >= 2)
        k = e.int('k')
        e.assume(And(k >= 1, k < X.n))
        B = Chain('B', X.n - k)
        X.n = k
        p, q = object(), object()
        if len(X.atoms) != 1:
            raise Unsupported('splitting a merged list')
        old = next(iter(X.atoms))
        ST.parts[old] = (p, q)
        X.atoms, B.atoms = {p}, {q}
        if clear_group_heads is True:
            ST.cleared.add(old)
        elif clear_group_heads is not False:
            raise Unsupported('clear_group_heads')
        return Node(B, 0)

    def _merge_sort(first_node, clear_group_heads=False):
        e = G.E
        if first_node is None:
            return (None, None)
        X = whole(first_node, '_merge_sort')
        e.prove('_merge_sort calls itself for shorter lists', Implies(X.n >= 2, X.n < size) if size is not None else True)
        if clear_group_heads not in (True, False):
            raise Unsupported('clear_group_heads')
        if clear_group_heads:       # (a single node is left as it is)
            ST.cleared |= X.atoms
        Y = Chain('S', X.n, True, set(X.atoms))
        X.dead = True
        return (Node(Y, 0), Node(Y, Y.n - 1))

    def _merge_sublists(fa, la, fb, lb):
        e = G.E
        if fa is None or fb is None:
            return (fb, lb) if fa is None else (fa, la)
        A, B = whole(fa, '_merge_sublists'), whole(fb, '_merge_sublists')
        e.prove('_merge_sublists is given ascending lists', A.ascending and B.ascending and A is not B)
        e.prove('_merge_sublists is given their last nodes', isnode(la) and isnode(lb) and la._c is A and lb._c is B and
                e.known(And(la._i == A.n - 1, lb._i == B.n - 1)))
        Y = Chain('Y', A.n + B.n, True, A.atoms | B.atoms)
        A.dead = B.dead = True
        return (Node(Y, 0), Node(Y, Y.n - 1))

    return dict(_split=_split, _merge_sort=_merge_sort, _merge_sublists=_merge_sublists)


def leaves(atom):
    if atom in ST.parts:
        return leaves(ST.parts[atom][0]) | leaves(ST.parts[atom][1])
    return {atom}


def ascending(e, X, got, what):
    e.prove(f'{what}: a list in ascending order', isinstance(got, tuple) and len(got) == 2 and isnode(got[0]) and
            isnode(got[1]) and got[0]._c is got[1]._c and not got[0]._c.dead)
    if not (isinstance(got, tuple) and len(got) == 2 and isnode(got[0])):
        raise PathEnd
    Y = got[0]._c
    e.prove(f'{what}: of all the nodes', {a for x in Y.atoms for a in leaves(x)} == leaves(X))
    e.prove(f'{what}: ascending', True if Y.ascending else Y.n <= 1)
    e.prove(f'{what}: first and last node', And(got[0]._i == 0, got[1]._i == Y.n - 1))


def prove_sort(run, e):
    global ST
    ST = State()
    ST.parts, ST.cleared = {}, set()
    Node = node_class()
    n = e.int('n')
    e.assume(n >= 0)
    which = e.choose(2)
    if which == 0:
        clear = bool(e.choose(2))
        lst = Stub(contracts(n))
        X = Chain('X', n)
        some = bool(n > 0)
        got = run.call('_merge_sort', lst, Node(X, 0) if some else None, clear)
        e.feasible()
        if not some:
            e.prove('_merge_sort of nothing', got == (None, None))
        else:
            ascending(e, X, got, '_merge_sort')
            if clear:
                e.prove('_merge_sort clears the groups', X in ST.cleared or e.known(n <= 1))
            e.prove('_merge_sort changes nothing else', not ST.writes)
    else:
        X = Chain('X', n)
        some = bool(n > 0)
        end = [Node(X, 0), Node(X, n - 1)] if some else [None, None]
        before = dict(_first=end[0], _last=end[1], _node_count=n, _first_head=end[0], _last_head=Poison() if some else None,
                      _group_count=e.int('g') if some else 0)
        lst = Stub(contracts(None), **before)
        got = run.call('sort', lst)
        e.feasible()
        a = lst._attrs
        e.prove('sort returns nothing', got is None)
        e.prove('sort keeps the number of items', a['_node_count'] == n)
        if not some:
            e.prove('sort of an empty list', all(a[k] is None for k in ('_first', '_last', '_first_head', '_last_head')) and
                    e.known(a['_group_count'] == 0))
        else:
            ascending(e, X, (a['_first'], a['_last']), 'sort')
            f = a['_first']
            e.prove('sort leaves one group', a['_group_count'] == 1)
            e.prove('the group starts at the first item', is_same(a['_first_head'], f) and is_same(a['_last_head'], f))
            e.prove('the other items start no group', X in ST.cleared or e.known(n <= 1))
            now = {}
            for x, k, v in ST.writes:
                e.prove('sort changes no other node', is_same(x, f) and k in HEADS)
                now[k] = v
            e.prove('the first item starts the group', now.get('is_group_head') is True and
                    (now.get('prev_head', 0) is None) and (now.get('next_head', 0) is None))
    run.ends += 1


# ---------------------------------------------------------------------------------------------------------------

class Run:
    def __init__(self, loop):
        self.loop = loop
        self.kinds, self.alive, self.meas, self.roles = {}, {}, {}, {}
        self.left = True        # whether some node is left at the head of the merging loop

    @property
    def changed(self):
        '''A candidate fell in this round, which is repeated.'''
        return G.E.changed

    @changed.setter
    def changed(self, x):
        G.E.changed = x

    def call(self, name, lst, *args):
        f = S.util.GroupedList.__dict__[name]
        try:
            return f(lst, *args)
        except (AttributeError, TypeError, IndexError, ValueError, KeyError) as x:
            G.E.feasible()
            raise Unsupported(f'{name} raises {x!r}')


def prove(deadline, what, loop, body):
    global ST
    S.load()
    e = Engine(deadline=deadline, max_paths=20000)
    G._set(e)
    e.stubs_used, e.loose, e.modes_used, e.on_start, e.cutlids = set(), False, {}, [], {}
    t0 = time.time()
    run = Run(loop)
    rep = dict(status='done', results=[])
    d = S.util.__dict__
    saved = {k: d.get(k) for k in ('_vp_loop', '_vp_is')}
    d['_vp_loop'] = lambda lid: loop(run, lid) if loop else _none(lid)
    d['_vp_is'] = lambda a, b: same(a, b) if isnode(a) and isnode(b) else S.vp_is(a, b)
    try:
        if any(name not in S.util.GroupedList.__dict__ for name in ('_split', '_merge_sort', '_merge_sublists', 'sort')):
            raise Unsupported('sort is made of other functions')
        for _ in range(60):
            run.changed, run.backs, run.ends, run.meas = False, 0, 0, {}
            del e.results[:]
            e.explore(lambda: body(run, e))
            if not run.changed:
                break
        else:
            raise Unsupported('the invariants do not stabilise')
        if not run.ends or loop and not run.backs:
            raise Unsupported('no path reaches the end of the function')
    except Unsupported as u:
        rep.update(status='undecided', reason=f'outside the verifier: {u}')
    except Budget as b:
        rep.update(status='undecided', reason=f'budget: {b}')
    except Restart as r:
        rep.update(status='undecided', reason=f'outside the verifier: {r}')
    finally:
        for k, v in saved.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        G._set(None)
        ST = None
    # (what fails may be due to the templates, so it is not a refutation)
    res = [(r.label, 'proved' if r.status == 'proved' else 'unknown', None) for r in e.results]
    rep.update(results=res, failed=[], paths=e.paths, secs=time.time() - t0, solver_s=e.solver_time, queries=e.queries,
               stubs=[], modes={}, loops={what: dict(labels=sorted(x for s in run.alive.values() for x in s) +
                                                     [f'{n} is {r}' for n, rs in run.roles.items() for r in sorted(rs)][:20],
                                                     measures=sorted(x for s in run.meas.values() for x in s))})
    return rep


def _none(lid):
    raise Unsupported(f'a loop: {lid}')


PROPS = 'C10 C11 C12'
for _n, _l, _b in (('GroupedList._split', SplitLoop, prove_split), ('GroupedList._merge_sublists', MergeLoop, prove_merge),
                   ('GroupedList._merge_sort and sort', None, prove_sort)):
    units.unit(_n, PROPS)(lambda deadline, n=_n, l=_l, b=_b: prove(deadline, n, l, b))
