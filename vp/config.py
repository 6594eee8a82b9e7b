'''Assigning the Bible data (C19): the setters of BibleData, for every well-formed data.

One arbitrary book b is watched, and the data is arbitrary: it may or may not speak of b (an order of any length has b at
an arbitrary place or not at all), and of any number of other books. A loop over books, over the order or over a set is
cut: it runs through any number of other books, then b (if it is there), then any number of others; an iteration on
another book must leave what is known of b as it was, and the loop's variables are unknown at its head. As b is arbitrary,
what is proved of b holds of all books. What cannot be shown here is undecided, never an alarm.
'''
import time

from . import engine as G, symex as S, units
from .engine import Engine, Unsupported, Budget, PathEnd, Restart
from .walk import Poison

SEPS = ('range_sep', 'major_list_sep', 'minor_list_sep', 'verse_sep_std', 'verse_sep_alt')


class Book:
    '''The watched book.'''
    name = '<name>'


class Other:
    '''Some other book: what is done to it does not matter.'''

    def __setattr__(self, k, v):
        pass

    def __getattr__(self, k):
        raise Unsupported(f'{k} of another book')


class Token:
    '''An arbitrary value.'''

    def __init__(self, what):
        self.__dict__['what'] = what

    def __getattr__(self, k):
        raise Unsupported(f'{k} of {self.what}')

    def _no(self, *a):
        raise Unsupported(f'a look into {self.what}')
    __bool__ = __iter__ = __len__ = __getitem__ = __contains__ = __lt__ = __add__ = _no


class Through:
    '''A loop through books: others, then b if it is there, then others.'''
    native = False

    def __init__(self, run, there, value):
        self.run, self.there, self.value_of = run, there, value
        self.stage, self.before, self.value = 0, None, None

    def start(self, lid):
        return self

    def head(self, names, env):
        e, run = G.E, self.run
        if self.stage == 'other':
            if run.state() != self.before:
                raise Unsupported('an iteration on another book changes what is known of the book')
            raise PathEnd
        poison = {n: Poison() for n in names}
        run.loops += 1
        self.before = run.state()
        if e.choose(2):                         # one of the others comes next
            self.when = 'any' if not self.there else 'before' if self.stage == 0 else 'after'
            self.stage = 'other'
        elif self.stage == 0 and self.there:
            self.stage = 'b'
        else:
            self.stage = 'end'
        return poison

    def next(self):
        if self.stage == 'end':
            return False
        if self.stage == 'b':
            self.value = self.value_of('b')
            self.stage = 1
        else:
            self.value = self.value_of(self.when)
        return True


class Books:
    '''Stands for the class BibleBook.'''

    def __init__(self, run):
        self.run = run

    def sym_iter(self):
        return Through(self.run, True, lambda w: self.run.b if w == 'b' else Other())

    def __contains__(self, x):
        return True

    def __getattr__(self, k):
        raise Unsupported(f'BibleBook.{k}')

    def __iter__(self):
        raise Unsupported('an iteration over the books')


class Group:
    '''A set (or the keys) of books: whether b is in it is known.'''

    def __init__(self, run, has):
        self.run, self.has = run, has
        run.groups.append(self)

    def sym_iter(self):
        return Through(self.run, self.has, lambda w: self.run.b if w == 'b' else Other())

    def __iter__(self):
        raise Unsupported('an iteration over a set')

    def __contains__(self, x):
        return self.run.has(x, self.has)

    def remove(self, x, strict=True):
        if x is self.run.b:
            if strict and not self.has:
                raise KeyError(x)
            self.has = False
        elif not isinstance(x, Other):
            raise Unsupported('what is removed from a set of books')

    def discard(self, x):
        self.remove(x, False)

    def add(self, x):
        if x is self.run.b:
            self.has = True
        elif not isinstance(x, Other):
            raise Unsupported('what is added to a set of books')

    def copy(self):
        return Group(self.run, self.has)

    def _other(self, o):
        if isinstance(o, Group):
            return o.has
        if isinstance(o, (Order, Data)):
            return o.there
        if isinstance(o, Books):
            return True
        raise Unsupported('a set with something else')

    def __sub__(self, o):
        return Group(self.run, self.has and not self._other(o))

    def __and__(self, o):
        return Group(self.run, self.has and self._other(o))

    def __or__(self, o):
        return Group(self.run, self.has or self._other(o))
    difference, intersection, union = __sub__, __and__, __or__

    def difference_update(self, o):
        self.has = self.has and not self._other(o)

    def __isub__(self, o):
        self.difference_update(o)
        return self


class Order:
    '''An order: n books, b at place p or not among them.'''

    def __init__(self, run, there):
        e = G.E
        self.run, self.there = run, there
        self.n = e.int('n')
        e.assume(self.n >= (1 if there else 0))
        if there:
            self.p = e.int('p')
            e.assume(self.p >= 0)
            e.assume(self.p < self.n)

    def sym_len(self):
        return self.n

    def place(self, when):
        e = G.E
        if when == 'b':
            return self.p
        i = e.int('i')
        e.assume(i >= 0)
        e.assume(i < self.n)
        if when == 'before':
            e.assume(i < self.p)
        elif when == 'after':
            e.assume(i > self.p)
        e.feasible()
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('a slice of the order')
        if not bool(i >= 0):
            raise Unsupported('a negative index')
        if not bool(i < self.n):
            raise IndexError(i)
        if self.there and bool(i == self.p):
            return self.run.b
        return Other()

    def index(self, x):
        if x is self.run.b and self.there:
            return self.p
        if x is self.run.b:
            raise ValueError(x)
        raise Unsupported('the index of another book')

    def __contains__(self, x):
        return self.run.has(x, self.there)

    def sym_iter(self):
        def value(when):
            self.place(when)
            return self.run.b if when == 'b' else Other()
        return Through(self.run, self.there, value)

    def __iter__(self):
        raise Unsupported('an iteration over the order')

    def copy(self):
        return self


class Places:
    def __init__(self, order, books):
        self.order, self.books = order, books

    def sym_iter(self):
        def value(when):
            i = self.order.place(when)
            return (i, self.order.run.b if when == 'b' else Other()) if self.books else i
        return Through(self.order.run, self.order.there, value)

    def __iter__(self):
        raise Unsupported('an iteration over places')


class Data:
    '''A dictionary from books: b has an entry or not.'''

    def __init__(self, run, there, entry, others):
        self.run, self.there, self.entry, self.others = run, there, entry, others

    def __contains__(self, x):
        return self.run.has(x, self.there)

    def __getitem__(self, x):
        if x is self.run.b:
            if not self.there:
                raise KeyError(x)
            return self.entry
        if isinstance(x, Other):
            return self.others()
        raise Unsupported('a key that is no book')

    def get(self, x, default=None):
        return self[x] if x in self else default

    def keys(self):
        return Group(self.run, self.there)

    def items(self):
        it = Through(self.run, self.there, lambda w: (self.run.b, self.entry) if w == 'b' else (Other(), self.others()))
        return type('Items', (), dict(sym_iter=lambda s: it))()

    def sym_iter(self):
        return Through(self.run, self.there, lambda w: self.run.b if w == 'b' else Other())

    def __iter__(self):
        raise Unsupported('an iteration over the data')

    def copy(self):
        return self


class Run:
    def __init__(self):
        self.b = Book()
        self.groups = []
        self.loops = 0
        self.said = {}
        self.watched = ()

    def has(self, x, there):
        if x is self.b:
            return there
        if isinstance(x, Other):
            k = id(x)
            if k not in self.said:
                self.said[k] = (bool(G.E.choose(2)), x)
            return self.said[k][0]
        raise Unsupported('membership of something that is no book')

    def state(self):
        return ({k: _key(v) for k, v in self.b.__dict__.items()}, [g.has for g in self.groups],
                [{k: _key(v) for k, v in w.__dict__.items()} for w in self.watched])


def _key(v):
    if isinstance(v, Token):
        return id(v)
    return v if v is None or isinstance(v, (str, int)) or hasattr(v, 'pattern') else \
        ('set', frozenset(v)) if isinstance(v, (set, frozenset)) else id(v)


class Parser:
    '''Stands for the module parser: what the separators are when the parser is made.'''

    def __init__(self, data):
        self.data, self.made = data, None

    def _recreate_parser(self):
        self.made = {n: getattr(self.data, n) for n in SEPS}

    def __getattr__(self, k):
        raise Unsupported(f'parser.{k}')


class Names:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, k):
        raise Unsupported(f'{k} of a module')


def same(e, label, ok):
    e.prove(label, ok)


def setter(attr):
    '''The obligations of one setter.'''
    from . import oracles

    def body(e, data):
        run = Run()
        D = data.BibleData
        obj = object.__new__(D)
        D.__init__(obj)
        run.watched = (obj,)
        prs = Parser(obj)
        data.__dict__['ref'] = Names(BibleBook=Books(run))
        data.__dict__['parser'] = prs
        b = run.b
        # what the book had before is arbitrary
        before = {k: Token(f'the old {k}') for k in ('order', 'abbrev', 'title', 'regex', '_max_verses', '_verse_0s')}
        b.__dict__.update(before)
        for k in ('_book_order', '_name_data', '_max_verses', '_verse_0s'):
            obj.__dict__[k] = Token(f'the old {k}')
        for k in SEPS:
            obj.__dict__['_' + k] = Token(f'the old {k}')
        if attr in SEPS:
            old = {n: getattr(obj, n) for n in SEPS}
            value = Token('the new separator')
            setattr(obj, attr, value)
            for n in SEPS:
                same(e, f'{n} reads as it should', getattr(obj, n) is (value if n == attr else old[n]))
                same(e, f'the parser is made anew with {n}', prs.made is not None and prs.made[n] is getattr(obj, n))
            for k, v in before.items():
                same(e, f'{k} stays', getattr(b, k) is v)
            return
        there = bool(e.choose(2))
        changed = {}
        if attr == 'book_order':
            value = Order(run, there)
            changed['order'] = None
        elif attr == 'name_data':
            rows = [tuple(r[1:]) for w in ('default', 'other') for r in oracles.name_data(w)]
            entry = rows[e.choose(len(rows))] if there else None
            value = Data(run, there, entry, lambda: rows[(0, 40, -1)[e.choose(3)]])
        elif attr == 'max_verses':
            value = Data(run, there, Token('the chapters'), lambda: Token('chapters'))
        else:
            value = Data(run, there, Token('the chapters with a verse 0'), lambda: Token('chapters'))
        setattr(obj, attr, value)
        e.feasible()
        same(e, f'{attr} reads back', getattr(obj, attr) is value)
        if attr == 'book_order':
            if there:
                same(e, 'the order of a book is its place', b.order == value.p
                     if b.order is not None and not isinstance(b.order, Token) else False)
            else:
                same(e, 'a book left out has no order', b.order is None)
            changed = {'order'}
        elif attr == 'name_data':
            if there:
                same(e, 'abbreviation and title of a book are its own', (b.abbrev, b.title) == entry[:2])
                same(e, 'the names of a book are its own', _pattern(b.regex) == alone(data, entry))
            else:
                same(e, 'a book left out has no names', b.abbrev is None and b.title is None and b.regex is None)
            changed = {'abbrev', 'title', 'regex'}
        elif attr == 'max_verses':
            same(e, 'the chapters of a book are its own', b._max_verses is (value.entry if there else None))
            changed = {'_max_verses'}
        else:
            z = b._verse_0s
            same(e, 'the chapters with a verse 0 are its own', z is value.entry if there else
                 isinstance(z, (set, frozenset, tuple, dict)) and not z)
            changed = {'_verse_0s'}
        for k, v in before.items():
            if k not in changed:
                same(e, f'{k} stays', getattr(b, k) is v)
        for k in ('book_order', 'name_data', 'max_verses', 'verse_0s', *SEPS):
            if k != attr:
                same(e, f'{k} of the data stays', isinstance(getattr(obj, k), Token))
    return body


ALONE = {}


def _pattern(p):
    return (getattr(p, 'pattern', None), getattr(p, 'flags', None))


def alone(data, entry):
    '''The expression for the names when the book is the only one.'''
    key = repr(entry)
    if key not in ALONE:
        saved = {k: data.__dict__[k] for k in ('ref', '_vp_iter')}
        b = Book()
        try:
            data.__dict__['ref'] = Names(BibleBook=[b])
            data.__dict__['_vp_iter'] = S.vp_iter
            data.BibleData._set_regexes(object.__new__(data.BibleData), {b: entry})
        finally:
            data.__dict__.update(saved)
        ALONE[key] = _pattern(b.regex)
    return ALONE[key]


def prove(deadline, attr):
    from . import proofs as P
    S.load()
    data = S.loaded.data
    e = Engine(deadline=deadline, max_paths=20000)
    G._set(e)
    e.stubs_used, e.loose, e.modes_used, e.on_start, e.cutlids = set(), False, {}, [], {}
    t0 = time.time()
    rep = dict(status='done', results=[], failed=[])
    ends = [0]
    ALONE.clear()

    def run():
        try:
            setter(attr)(e, data)
        except (Unsupported, Budget, PathEnd, Restart):
            raise
        except Exception as x:
            e.feasible()
            raise Unsupported(f'the setter of {attr} raises {x!r}')
        ends[0] += 1
    d = data.__dict__
    patch = dict(ref=None, parser=None, set=make_set, range=make_range, enumerate=make_enumerate,
                 _vp_iter=through_iter, _vp_loop=no_loop, list=make_list, sorted=nothing, dict=make_dict)
    saved = {k: d.get(k, Engine) for k in patch}
    try:
        d.update(patch)
        e.explore(run)
        if not ends[0]:
            raise Unsupported('no path ends')
    except (Unsupported, Restart) as u:
        rep.update(status='undecided', reason=f'outside the verifier: {u}')
    except Budget as b:
        rep.update(status='undecided', reason=f'budget: {b}')
    finally:
        for k, v in saved.items():
            if v is Engine:
                d.pop(k, None)
            else:
                d[k] = v
        G._set(None)
    res = [(r.label, 'proved' if r.status == 'proved' else 'unknown', None) for r in e.results]
    rep.update(results=res, paths=e.paths, secs=time.time() - t0, solver_s=e.solver_time, queries=e.queries,
               stubs=[], modes={}, loops={})
    return rep


def nothing(*a, **k):
    raise Unsupported('sorting of books')


def make_set(x=()):
    if isinstance(x, Books):
        return Group(x.run, True)
    if isinstance(x, Group):
        return x.copy()
    if isinstance(x, (Order, Data)):
        return Group(x.run, x.there)
    return set(x)


def make_list(x=()):
    if isinstance(x, Books):
        return Group(x.run, True)
    if isinstance(x, (Group, Order)):
        return x
    return list(x)


def make_dict(x=()):
    return x if isinstance(x, Data) else dict(x)


def make_range(*a):
    if len(a) == 1:
        o = next((o for o in ORDERS if a[0] is o.n), None)
        if o:
            return Places(o, False)
    return S.vp_range(*a)


ORDERS = []


def make_enumerate(x, start=0):
    if isinstance(x, Order):
        if start != 0:
            raise Unsupported('enumerate from elsewhere')
        return Places(x, True)
    return enumerate(x, start)


_init = Order.__init__


def _remember(self, run, there):
    _init(self, run, there)
    ORDERS[:] = [self]


Order.__init__ = _remember


def through_iter(lid, x):
    if hasattr(x, 'sym_iter'):
        return x.sym_iter().start(lid)
    return S.vp_iter(lid, x)


def no_loop(lid):
    raise Unsupported(f'{lid}')


for _a in ('book_order', 'name_data', 'max_verses', 'verse_0s') + SEPS:
    units.unit(f'BibleData.{_a} = any data', 'C19')(lambda deadline, _a=_a: prove(deadline, _a))
