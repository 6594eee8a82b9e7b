'''Contracts of the book, verse and range level of bibleref (ref.py).

Each contract names a function of the real code, the kinds of its parameters (which carry the precondition that the
argument is a valid object under the flags in effect), and a postcondition: a generator of (clause name, expression)
pairs over the outcome. The outcome `o` has o.ok (returned), o.val (value) and o.exc (name of the exception raised).

The postconditions are written from the property statements, over positions in the canonical verse sequence
(vp.spec.Theory), never over the way the code computes its result.
'''
from .spec import And, Or, Not, Implies, Iff, Ite, Max, Min, lexlt, eqt

REGISTRY = {}


class Contract:
    def __init__(self, name, props, params, call, post, pre=None, outs=None, target=None, world=None, flagged=None,
                 note=None, sym=True, ghost=None, without=()):
        self.name = name
        self.ghost = ghost        # ghost state offered to loop invariants
        self.without = without    # callees that are executed rather than replaced by their contracts
        self.props = props
        self.params = params
        self.call = call
        self.post = post
        self.pre = pre
        self.outs = outs          # outcome kinds, when the contract is used as a stub for callers
        self.target = target      # dotted name of the function (in ref.py) replaced by the stub
        self.flagged = any(k == 'flags' for _, k in params)
        self.note = note
        self.loose = False
        self.soft = ()            # clauses whose refutation may be due to the abstraction
        self.explicit = False     # the flags are always given
        self.few = None           # how many concrete evaluations at most
        self.bounds = False       # as an assumption, also instantiate what holds everywhere at the bounds
        self.heap = False         # about lists of any length (vp.lists): no concrete counterpart
        self.sym = sym            # decided symbolically by the generic driver


def contract(name, props, params, call, outs=None, target=None, pre=None, note=None, sym=True, ghost=None, without=()):
    def deco(post):
        assert name not in REGISTRY, name
        REGISTRY[name] = Contract(name, props.split(), [p.split(':') for p in params.split()], call, post, pre=pre,
                                  outs=outs, target=target, note=note, sym=sym, ghost=ghost, without=without)
        return post
    return deco


INV = 'InvalidReferenceError'
MULTI = 'MultibookRangeNotAllowedError'


def isinst(x, name):
    return type(x).__name__ == name


def ranges(W, x):
    '''The ranges of a BibleRangeList result, as a plain list.'''
    return W.items(x)


def verse_is(W, o, t):
    '''Clauses: the outcome is the verse t.'''
    yield 'returns a verse', o.ok and isinst(o.val, 'BibleVerse')
    if o.ok and isinst(o.val, 'BibleVerse'):
        yield 'is the expected verse', eqt(W.t(o.val), t)


def range_is(W, o, s, e):
    yield 'returns a range', o.ok and isinst(o.val, 'BibleRange')
    if o.ok and isinst(o.val, 'BibleRange'):
        yield 'starts at the expected verse', eqt(W.t(o.val.start), s)
        yield 'ends at the expected verse', eqt(W.t(o.val.end), e)


def value_is(W, o, x):
    yield 'returns', o.ok
    if o.ok:
        yield 'has the expected value', (o.val is None) if x is None else And(o.val is not None, o.val == x)


def bool_is(W, o, x):
    yield 'returns', o.ok
    if o.ok:
        yield 'is true exactly when specified', Iff(o.val, x)


def rejects(o, exc):
    yield f'raises {exc}', o.exc == exc


# ---------------------------------------------------------------------------------------------------------------
# Books
# ---------------------------------------------------------------------------------------------------------------

@contract('BibleBook.min_chap_num', 'C01', 'self:book', lambda R, a: a.self.min_chap_num())
def _(W, a, o):
    yield from value_is(W, o, 1)


@contract('BibleBook.max_chap_num', 'C01', 'self:book', lambda R, a: a.self.max_chap_num())
def _(W, a, o):
    yield from value_is(W, o, W.nch(a.self.order))


@contract('BibleBook.chap_count', 'C07', 'self:book', lambda R, a: a.self.chap_count())
def _(W, a, o):
    yield from value_is(W, o, W.nch(a.self.order))


@contract('BibleBook.min_verse_num', 'C01 C16', 'self:book chap:int flags:flags',
          lambda R, a: a.self.min_verse_num(a.chap, flags=a.flags),
          target='BibleBook.min_verse_num', outs=['int', 'exc:' + INV])
def _(W, a, o):
    b = a.self.order
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, a.chap))
    if o.ok:
        yield 'is the lowest verse number', o.val == W.minv(a.f, b, a.chap)
    else:
        yield from rejects(o, INV)


@contract('BibleBook.max_verse_num', 'C01', 'self:book chap:int', lambda R, a: a.self.max_verse_num(a.chap),
          target='BibleBook.max_verse_num', outs=['int', 'exc:' + INV])
def _(W, a, o):
    b = a.self.order
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, a.chap))
    if o.ok:
        yield 'is the highest verse number', o.val == W.mx(b, a.chap)
    else:
        yield from rejects(o, INV)


@contract('BibleBook.first_verse', 'C01 C16', 'self:book chap:optint flags:flags',
          lambda R, a: a.self.first_verse(a.chap, flags=a.flags),
          target='BibleBook.first_verse', outs=['verse', 'exc:' + INV])
def _(W, a, o):
    b = a.self.order
    c = 1 if a.chap is None else a.chap
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, c))
    if o.ok:
        yield from verse_is(W, o, W.firstc(a.f, b, c))
    else:
        yield from rejects(o, INV)


@contract('BibleBook.last_verse', 'C01', 'self:book chap:optint', lambda R, a: a.self.last_verse(a.chap),
          target='BibleBook.last_verse', outs=['verse', 'exc:' + INV])
def _(W, a, o):
    b = a.self.order
    c = W.nch(b) if a.chap is None else a.chap
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, c))
    if o.ok:
        yield from verse_is(W, o, W.lastc(a.f, b, c))
    else:
        yield from rejects(o, INV)


@contract('BibleBook.next', 'C02', 'self:book', lambda R, a: a.self.next())
def _(W, a, o):
    yield 'returns', o.ok
    if o.ok:
        yield 'is nothing exactly at the last book', Iff(o.val is None, a.self.order == W.N - 1)
        if o.val is not None:
            yield 'is the next book', o.val.order == a.self.order + 1


@contract('BibleBook.prev', 'C02', 'self:book', lambda R, a: a.self.prev())
def _(W, a, o):
    yield 'returns', o.ok
    if o.ok:
        yield 'is nothing exactly at the first book', Iff(o.val is None, a.self.order == 0)
        if o.val is not None:
            yield 'is the previous book', o.val.order == a.self.order - 1


def _cmp(kind, key, props):
    ops = {'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y,
           'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y}
    cls = {'book': 'BibleBook', 'anyverse': 'BibleVerse', 'anyrange': 'BibleRange'}[kind]
    for op, fn in ops.items():
        def post(W, a, o, op=op):
            x, y = key(W, a.self), key(W, a.other)
            lt, eq = lexlt(x, y), eqt(x, y)
            spec = {'lt': lt, 'le': Or(lt, eq), 'gt': Not(Or(lt, eq)), 'ge': Not(lt), 'eq': eq, 'ne': Not(eq)}[op]
            yield from bool_is(W, o, spec)
        contract(f'{cls}.__{op}__', props, f'self:{kind} other:{kind}',
                 lambda R, a, fn=fn: R.truth(fn(a.self, a.other)), without=('comparisons',))(post)


_cmp('book', lambda W, x: (x.order,), 'C02')
_cmp('anyverse', lambda W, x: W.t(x), 'C02')
_cmp('anyrange', lambda W, x: W.t(x.start) + W.t(x.end), 'C02')


@contract('BibleBook.verse_count', 'C07 C16', 'self:book flags:flags', lambda R, a: a.self.verse_count(flags=a.flags))
def _(W, a, o):
    b = a.self.order
    yield from value_is(W, o, W.bend(a.f, b) - W.bstart(a.f, b) + 1)


@contract('BibleBook.range', 'C04 C16', 'self:book flags:flags', lambda R, a: a.self.range(flags=a.flags))
def _(W, a, o):
    b = a.self.order
    yield from range_is(W, o, W.firstb(a.f, b), W.lastb(a.f, b))


@contract('BibleBook.chap_range', 'C04 C16', 'self:book chap:int flags:flags',
          lambda R, a: a.self.chap_range(a.chap, flags=a.flags))
def _(W, a, o):
    b = a.self.order
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, a.chap))
    if o.ok:
        yield from range_is(W, o, W.firstc(a.f, b, a.chap), W.lastc(a.f, b, a.chap))
    else:
        yield from rejects(o, INV)


# ---------------------------------------------------------------------------------------------------------------
# Verses
# ---------------------------------------------------------------------------------------------------------------

@contract('BibleVerse.__init__(book,chap,verse)', 'C01 C16', 'book:book chap:int verse:int flags:flags',
          lambda R, a: R.BibleVerse(a.book, a.chap, a.verse, flags=a.flags),
          target='BibleVerse', outs=['verse', 'exc:' + INV])
def _(W, a, o):
    t = (a.book.order, a.chap, a.verse)
    yield 'accepts exactly the verses of the Bible data', Iff(o.ok, W.valid(a.f, t))
    if o.ok:
        yield from verse_is(W, o, t)
    else:
        yield from rejects(o, INV)


@contract('BibleVerse.__init__(verse)', 'C01', 'other:anyverse flags:flags',
          lambda R, a: R.BibleVerse(a.other, flags=a.flags))
def _(W, a, o):
    yield from verse_is(W, o, W.t(a.other))


@contract('BibleVerse.min_chap_num', 'C01', 'self:anyverse', lambda R, a: a.self.min_chap_num())
def _(W, a, o):
    yield from value_is(W, o, 1)


@contract('BibleVerse.max_chap_num', 'C01', 'self:anyverse', lambda R, a: a.self.max_chap_num())
def _(W, a, o):
    yield from value_is(W, o, W.nch(a.self.book.order))


@contract('BibleVerse.min_verse_num', 'C01 C16', 'self:verse chap:optint flags:flags',
          lambda R, a: a.self.min_verse_num(a.chap, flags=a.flags))
def _(W, a, o):
    b, c = a.self.book.order, (a.self.chap_num if a.chap is None else a.chap)
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, c))
    if o.ok:
        yield from value_is(W, o, W.minv(a.f, b, c))
    else:
        yield from rejects(o, INV)


@contract('BibleVerse.max_verse_num', 'C01', 'self:anyverse chap:optint',
          lambda R, a: a.self.max_verse_num(*([] if a.chap is None else [a.chap])))
def _(W, a, o):
    b, c = a.self.book.order, (a.self.chap_num if a.chap is None else a.chap)
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, c))
    if o.ok:
        yield from value_is(W, o, W.mx(b, c))
    else:
        yield from rejects(o, INV)


@contract('BibleVerse.first_verse', 'C01 C16', 'self:verse chap:optint flags:flags',
          lambda R, a: a.self.first_verse(a.chap, flags=a.flags))
def _(W, a, o):
    b, c = a.self.book.order, (a.self.chap_num if a.chap is None else a.chap)
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, c))
    if o.ok:
        yield from verse_is(W, o, W.firstc(a.f, b, c))
    else:
        yield from rejects(o, INV)


@contract('BibleVerse.last_verse', 'C01', 'self:anyverse chap:optint', lambda R, a: a.self.last_verse(a.chap))
def _(W, a, o):
    b, c = a.self.book.order, (a.self.chap_num if a.chap is None else a.chap)
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, c))
    if o.ok:
        yield from verse_is(W, o, W.lastc(a.f, b, c))
    else:
        yield from rejects(o, INV)


@contract('BibleVerse.is_first_in_chap', 'C01 C16', 'self:verse chap:optint flags:flags',
          lambda R, a: R.truth(a.self.is_first_in_chap(a.chap, flags=a.flags)))
def _(W, a, o):
    b, c = a.self.book.order, (a.self.chap_num if a.chap is None else a.chap)
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, c))
    if o.ok:
        yield from bool_is(W, o, eqt(W.t(a.self), W.firstc(a.f, b, c)))
    else:
        yield from rejects(o, INV)


@contract('BibleVerse.is_last_in_chap', 'C01', 'self:anyverse chap:optint',
          lambda R, a: R.truth(a.self.is_last_in_chap(a.chap)))
def _(W, a, o):
    b, c = a.self.book.order, (a.self.chap_num if a.chap is None else a.chap)
    yield 'accepts exactly the chapters of the book', Iff(o.ok, W.validc(b, c))
    if o.ok:
        yield from bool_is(W, o, eqt(W.t(a.self), W.lastc(a.f, b, c)))
    else:
        yield from rejects(o, INV)


@contract('BibleVerse.is_first_in_book', 'C01 C16', 'self:verse book:optbook flags:flags',
          lambda R, a: R.truth(a.self.is_first_in_book(a.book, flags=a.flags)))
def _(W, a, o):
    b = a.self.book.order if a.book is None else a.book.order
    yield from bool_is(W, o, eqt(W.t(a.self), W.firstb(a.f, b)))


@contract('BibleVerse.is_last_in_book', 'C01', 'self:anyverse book:optbook',
          lambda R, a: R.truth(a.self.is_last_in_book(a.book)))
def _(W, a, o):
    b = a.self.book.order if a.book is None else a.book.order
    yield from bool_is(W, o, eqt(W.t(a.self), W.lastb(a.f, b)))


@contract('BibleVerse.chap_range', 'C18 C16', 'self:verse flags:flags', lambda R, a: a.self.chap_range(flags=a.flags))
def _(W, a, o):
    b, c = a.self.book.order, a.self.chap_num
    yield from range_is(W, o, W.firstc(a.f, b, c), W.lastc(a.f, b, c))


@contract('BibleVerse.book_range', 'C18 C16', 'self:verse flags:flags', lambda R, a: a.self.book_range(flags=a.flags))
def _(W, a, o):
    b = a.self.book.order
    yield from range_is(W, o, W.firstb(a.f, b), W.lastb(a.f, b))


def _moved(W, a, o, n):
    '''The outcome is the verse n positions on from a.self, or nothing if there is none.'''
    f = a.f or bool(a.self.verse_num == 0)
    b = a.self.book.order
    target = W.idx(f, W.t(a.self)) + n
    lo, hi = (0, W.total(f) - 1) if a.m else (W.bstart(f, b), W.bend(f, b))
    yield 'returns', o.ok
    if o.ok:
        yield 'is nothing exactly when there is no such verse', Iff(o.val is None, Or(target < lo, target > hi))
        if o.val is not None:
            yield 'returns a verse', isinst(o.val, 'BibleVerse')
            yield 'is a valid verse', W.valid(f, W.t(o.val))
            yield 'is exactly n positions away', W.idx(f, W.t(o.val)) == target
            if isinstance(n, int) and abs(n) == 1:
                W.neighbours(f, W.t(a.self))


def _move_ghost(sign):
    def ghost(W, a, INV):
        f = a.f or bool(a.self.verse_num == 0)
        a.m     # (decide whether multi-book is set before the loop)
        return INV.Ghost(f=f, positions={'target': W.idx(f, W.t(a.self)) + a.n * sign})
    return ghost


@contract('BibleVerse.add', 'C03 C16', 'self:anyverse n:nat flags:flags',
          lambda R, a: a.self.add(a.n, flags=a.flags), target='BibleVerse.add', outs=['verse', 'none'],
          ghost=_move_ghost(1))
def _(W, a, o):
    yield from _moved(W, a, o, a.n)


@contract('BibleVerse.subtract(n)', 'C03 C16', 'self:anyverse n:nat flags:flags',
          lambda R, a: a.self.subtract(a.n, flags=a.flags), target='BibleVerse.subtract', outs=['verse', 'none'],
          ghost=_move_ghost(-1))
def _(W, a, o):
    yield from _moved(W, a, o, -a.n)


@contract('BibleVerse.__add__', 'C03', 'self:anyverse n:nat flags:noflags', lambda R, a: a.self + a.n)
def _(W, a, o):
    yield from _moved(W, a, o, a.n)


@contract('BibleVerse.__sub__(n)', 'C03', 'self:anyverse n:nat flags:noflags', lambda R, a: a.self - a.n)
def _(W, a, o):
    yield from _moved(W, a, o, -a.n)


def _distance(W, a, o):
    f = a.f or bool(a.self.verse_num == 0) or bool(a.other.verse_num == 0)
    s, t = W.t(a.self), W.t(a.other)
    yield 'is refused exactly across books without multi-book', Iff(o.ok, Or(a.m, s[0] == t[0]))
    if o.ok:
        yield 'is the signed distance', o.val == W.idx(f, s) - W.idx(f, t)
    else:
        yield from rejects(o, MULTI)


@contract('BibleVerse.subtract(verse)', 'C03 C16', 'self:anyverse other:anyverse flags:flags',
          lambda R, a: a.self.subtract(a.other, flags=a.flags), outs=['int', 'exc:' + MULTI])
def _(W, a, o):
    yield from _distance(W, a, o)


@contract('BibleVerse.__sub__(verse)', 'C03', 'self:anyverse other:anyverse flags:noflags',
          lambda R, a: a.self - a.other)
def _(W, a, o):
    yield from _distance(W, a, o)


@contract('BibleVerse.verse_0_to_1', 'C17', 'self:anyverse flags:noflags', lambda R, a: a.self.verse_0_to_1())
def _(W, a, o):
    b, c, v = W.t(a.self)
    yield from verse_is(W, o, (b, c, Ite(v == 0, 1, v)))


@contract('BibleVerse.verse_1_to_0', 'C17', 'self:anyverse flags:noflags', lambda R, a: a.self.verse_1_to_0())
def _(W, a, o):
    b, c, v = W.t(a.self)
    yield from verse_is(W, o, (b, c, Ite(And(v == 1, W.hasz(b, c)), 0, v)))


# ---------------------------------------------------------------------------------------------------------------
# Ranges: construction
# ---------------------------------------------------------------------------------------------------------------

@contract('BibleRange.__init__(start,end)', 'C04 C16', 'start:anyverse end:anyverse flags:flags',
          lambda R, a: R.BibleRange(start=a.start, end=a.end, flags=a.flags))
def _(W, a, o):
    s, e = W.t(a.start), W.t(a.end)
    yield 'is refused exactly across books without multi-book', Iff(o.ok, Or(a.m, s[0] == e[0]))
    if o.ok:
        swap = lexlt(e, s)
        yield from range_is(W, o, tuple(Ite(swap, y, x) for x, y in zip(s, e)),
                            tuple(Ite(swap, x, y) for x, y in zip(s, e)))
    else:
        yield from rejects(o, MULTI)


@contract('BibleRange.__init__(range)', 'C04', 'other:anyrange flags:flags',
          lambda R, a: R.BibleRange(a.other, flags=a.flags))
def _(W, a, o):
    yield from range_is(W, o, W.t(a.other.start), W.t(a.other.end))


def _positional(W, a, o):
    f = a.f
    sb, sc, sv, eb, ec, ev = a.sb.order, a.sc, a.sv, (None if a.eb is None else a.eb.order), a.ec, a.ev
    # Bounds given in reverse are swapped, part by part as far as both are given
    if eb is not None and sb > eb:
        sb, eb, sc, ec, sv, ev = eb, sb, ec, sc, ev, sv
    elif (eb is None or eb == sb) and sc is not None:
        if ec is not None and sc > ec:
            sc, ec, sv, ev = ec, sc, ev, sv
        elif (ec is None or ec == sc) and sv is not None and ev is not None and sv > ev:
            sv, ev = ev, sv
    # What the start denotes
    if sc is None:
        start = None if sv is not None else W.firstb(f, sb)
    elif sv is None:
        start = W.firstc(f, sb, sc)
    else:
        start = (sb, sc, sv)
    # What the end denotes
    if eb is None and ec is None and ev is None:
        end = W.lastb(f, sb) if sc is None else W.lastc(f, sb, sc) if sv is None else (sb, sc, sv)
    else:
        same = eb is None or eb == sb
        if eb is None:
            eb = sb
        if ec is None and ev is None:
            end = W.lastb(f, eb)
        elif ev is None:
            end = W.lastc(f, eb, ec)
        elif ec is None:
            end = None if (not same or start is None) else (eb, start[1], ev)
        else:
            end = (eb, ec, ev)
    denotes = And(start is not None and end is not None,
                  W.valid(f, start) if start is not None else False, W.valid(f, end) if end is not None else False)
    onebook = True if (start is None or end is None) else start[0] == end[0]
    yield 'accepts exactly arguments that denote verses', Implies(o.ok, denotes)
    yield 'accepts several books exactly with multi-book', Iff(o.ok, And(denotes, Or(a.m, onebook)))
    if o.ok:
        if start is not None and end is not None:
            yield from range_is(W, o, start, end)
        if isinst(o.val, 'BibleRange'):
            yield 'start <= end', Not(lexlt(W.t(o.val.end), W.t(o.val.start)))
    else:
        yield 'error kind', Or(And(denotes, o.exc == MULTI), And(Not(denotes), o.exc == INV))


contract('BibleRange.__init__(positional)', 'C04 C16',
         'sb:book sc:optint sv:optint eb:optbook ec:optint ev:optint flags:flags',
         lambda R, a: R.BibleRange(a.sb, a.sc, a.sv, a.eb, a.ec, a.ev, flags=a.flags))(_positional)


@contract('BibleRange.whole_bible', 'C18 C16', 'flags:flags', lambda R, a: R.BibleRange.whole_bible(flags=a.flags))
def _(W, a, o):
    yield from range_is(W, o, W.firstb(a.f, 0), W.lastb(a.f, W.N - 1))


def _conv(zero_to_one):
    def post(W, a, o):
        def conv(t):
            b, c, v = t
            return (b, c, Ite(v == 0, 1, v)) if zero_to_one else (b, c, Ite(And(v == 1, W.hasz(b, c)), 0, v))
        s, e = conv(W.t(a.self.start)), conv(W.t(a.self.end))
        yield from range_is(W, o, s, e)
        if o.ok:
            yield 'is a valid range', W.valid_range(True, o.val)
    return post


contract('BibleRange.verse_0_to_1', 'C17', 'self:anyrange flags:noflags',
         lambda R, a: a.self.verse_0_to_1(), outs=['range'])(_conv(True))
contract('BibleRange.verse_1_to_0', 'C17', 'self:anyrange flags:noflags',
         lambda R, a: a.self.verse_1_to_0(), outs=['range'])(_conv(False))


@contract('BibleRange.chap_range', 'C18 C16', 'self:range flags:flags', lambda R, a: a.self.chap_range(flags=a.flags))
def _(W, a, o):
    s, e = W.t(a.self.start), W.t(a.self.end)
    yield from range_is(W, o, W.firstc(a.f, s[0], s[1]), W.lastc(a.f, e[0], e[1]))


@contract('BibleRange.book_range', 'C18 C16', 'self:range flags:flags', lambda R, a: a.self.book_range(flags=a.flags))
def _(W, a, o):
    s, e = W.t(a.self.start), W.t(a.self.end)
    yield from range_is(W, o, W.firstb(a.f, s[0]), W.lastb(a.f, e[0]))


# ---------------------------------------------------------------------------------------------------------------
# Ranges: predicates
# ---------------------------------------------------------------------------------------------------------------

def _pred(name, spec, props='C05 C16'):
    def post(W, a, o):
        s, e = W.span(a.f, a.self)
        yield from bool_is(W, o, spec(W, a, s, e))
    contract(f'BibleRange.{name}', props, 'self:range flags:flags',
             lambda R, a: R.truth(getattr(a.self, name)(flags=a.flags)), target=f'BibleRange.{name}',
             outs=['bool'])(post)


def _sc(W, a):
    t = W.t(a.self.start)
    return W.cstart(a.f, t[0], t[1]), W.cend(a.f, t[0], t[1])


def _ec(W, a):
    t = W.t(a.self.end)
    return W.cstart(a.f, t[0], t[1]), W.cend(a.f, t[0], t[1])


def _sb(W, a):
    b = W.t(a.self.start)[0]
    return W.bstart(a.f, b), W.bend(a.f, b)


def _eb(W, a):
    b = W.t(a.self.end)[0]
    return W.bstart(a.f, b), W.bend(a.f, b)


_pred('is_whole_chap', lambda W, a, s, e: eqt((s, e), _sc(W, a)))
_pred('spans_start_chap', lambda W, a, s, e: And(s <= _sc(W, a)[0], e >= _sc(W, a)[1]))
_pred('spans_end_chap', lambda W, a, s, e: And(s <= _ec(W, a)[0], e >= _ec(W, a)[1]))
_pred('is_whole_book', lambda W, a, s, e: eqt((s, e), _sb(W, a)))
_pred('spans_start_book', lambda W, a, s, e: And(s <= _sb(W, a)[0], e >= _sb(W, a)[1]))
_pred('spans_end_book', lambda W, a, s, e: And(s <= _eb(W, a)[0], e >= _eb(W, a)[1]))


@contract('BibleRange.is_single_verse', 'C05', 'self:range flags:noflags',
          lambda R, a: R.truth(a.self.is_single_verse()), target='BibleRange.is_single_verse', outs=['bool'])
def _(W, a, o):
    s, e = W.span(a.f, a.self)
    yield from bool_is(W, o, s == e)


def refspan(W, f, r):
    if isinst(r, 'BibleVerse'):
        i = W.idx(f, W.t(r))
        return i, i
    return W.span(f, r)


def reft(W, r):
    if isinst(r, 'BibleVerse'):
        return W.t(r), W.t(r)
    return W.t(r.start), W.t(r.end)


@contract('BibleRange.is_disjoint', 'C05', 'self:range other:ref flags:noflags',
          lambda R, a: R.truth(a.self.is_disjoint(a.other)), target='BibleRange.is_disjoint', outs=['bool'])
def _(W, a, o):
    (s, e), (s2, e2) = W.span(a.f, a.self), refspan(W, a.f, a.other)
    yield from bool_is(W, o, Or(e < s2, e2 < s))


def adjacent(W, f, m, x, y):
    '''Nothing between the two, in either order; a book boundary between them counts only with multi-book.'''
    (s, e), (s2, e2) = refspan(W, f, x), refspan(W, f, y)
    (ts, te), (ts2, te2) = reft(W, x), reft(W, y)
    return Or(And(e + 1 == s2, Or(m, te[0] == ts2[0])), And(e2 + 1 == s, Or(m, te2[0] == ts[0])))


@contract('BibleRange.is_adjacent', 'C05 C16', 'self:range other:ref flags:flags',
          lambda R, a: R.truth(a.self.is_adjacent(a.other, flags=a.flags)), target='BibleRange.is_adjacent',
          outs=['bool'])
def _(W, a, o):
    yield from bool_is(W, o, adjacent(W, a.f, a.m, a.self, a.other))


@contract('BibleRange.contains', 'C05', 'self:range other:ref flags:noflags',
          lambda R, a: R.truth(a.self.contains(a.other)), target='BibleRange.contains', outs=['bool'])
def _(W, a, o):
    (s, e), (s2, e2) = W.span(a.f, a.self), refspan(W, a.f, a.other)
    yield from bool_is(W, o, And(s <= s2, e2 <= e))


@contract('BibleRange.__contains__', 'C05', 'self:range other:ref flags:noflags',
          lambda R, a: R.truth(a.other in a.self))
def _(W, a, o):
    (s, e), (s2, e2) = W.span(a.f, a.self), refspan(W, a.f, a.other)
    yield from bool_is(W, o, And(s <= s2, e2 <= e))


@contract('BibleRange.surrounds', 'C05', 'self:range other:ref flags:noflags',
          lambda R, a: R.truth(a.self.surrounds(a.other)))
def _(W, a, o):
    (s, e), (s2, e2) = W.span(a.f, a.self), refspan(W, a.f, a.other)
    yield from bool_is(W, o, And(s < s2, e2 < e))


# ---------------------------------------------------------------------------------------------------------------
# Ranges: set operations
# ---------------------------------------------------------------------------------------------------------------

def _setop_clauses(W, a, o, member, maxlen):
    yield 'returns a list', o.ok and W.is_list(o.val)
    if not (o.ok and W.is_list(o.val)):
        return
    rs = ranges(W, o.val)
    yield f'has at most {maxlen} ranges', len(rs) <= maxlen
    yield 'holds ranges', all(isinst(r, 'BibleRange') for r in rs)
    for i, r in enumerate(rs):
        yield f'range {i} is valid', W.valid_range(a.f, r)
    spans = [W.span(a.f, r) for r in rs]
    for i in range(len(rs) - 1):
        yield f'ranges {i} and {i+1} ascend and are disjoint', spans[i][1] < spans[i+1][0]
    (s, e), (s2, e2) = W.span(a.f, a.self), refspan(W, a.f, a.other)

    def at(p):
        return Iff(Or(*[And(x <= p, p <= y) for x, y in spans]),
                   member(And(s <= p, p <= e), And(s2 <= p, p <= e2)))
    yield 'has exactly the verses', W.forall_pos(a.f, at, [x for sp in spans + [(s, e), (s2, e2)] for x in sp])


def _setop(name, op, member, maxlen, extra=None):
    def post(W, a, o):
        yield from _setop_clauses(W, a, o, member, maxlen)
        if extra and o.ok and W.is_list(o.val):
            yield from extra(W, a, o)
    contract(f'BibleRange.{name}', 'C06 C16', 'self:range other:ref flags:flags',
             lambda R, a: getattr(a.self, name)(a.other, flags=a.flags), target=f'BibleRange.{name}',
             outs=['list%d' % i for i in range(maxlen + 1)])(post)

    def post2(W, a, o):
        yield from _setop_clauses(W, a, o, member, maxlen)
        if extra and o.ok and W.is_list(o.val):
            yield from extra(W, a, o)
    contract(f'BibleRange.__{op}__', 'C06', 'self:range other:ref flags:noflags',
             lambda R, a: {'or': lambda x, y: x | y, 'and': lambda x, y: x & y, 'sub': lambda x, y: x - y,
                           'xor': lambda x, y: x ^ y}[op](a.self, a.other))(post2)


def _union_extra(W, a, o):
    (s, e), (s2, e2) = W.span(a.f, a.self), refspan(W, a.f, a.other)
    joined = Or(And(s <= e2, s2 <= e), adjacent(W, a.f, a.m, a.self, a.other))
    yield 'is one range exactly when they overlap or are adjacent', Iff(len(ranges(W, o.val)) == 1, joined)


_setop('union', 'or', lambda x, y: Or(x, y), 2, _union_extra)
_setop('intersection', 'and', lambda x, y: And(x, y), 1)
_setop('difference', 'sub', lambda x, y: And(x, Not(y)), 2)
_setop('sym_difference', 'xor', lambda x, y: Not(Iff(x, y)), 2)


# ---------------------------------------------------------------------------------------------------------------
# Ranges: counts (split, iteration and list-level contracts are in vp.listproofs / vp.oracles)
# ---------------------------------------------------------------------------------------------------------------

def effective_f(a):
    return a.f or bool(a.self.start.verse_num == 0) or bool(a.self.end.verse_num == 0)


def split_preds(W, a, f, aux=False):
    '''What must hold of every piece of a split. (aux: an auxiliary predicate for invariants is included.)'''
    end = W.t(a.self.end)

    def one_book(r):
        return r.start.book.order == r.end.book.order

    def one_chap(r):
        return And(one_book(r), r.start.chap_num == r.end.chap_num)

    def size(r):
        x, y = W.span(f, r)
        return y - x + 1

    def at_boundary(r):
        t = W.t(r.end)
        yes = [eqt(t, end)]
        if a.by_book:
            yes.append(eqt(t, W.lastb(f, t[0])))
        if a.by_chap:
            yes.append(eqt(t, W.lastc(f, t[0], t[1])))
        return Or(*yes)

    def from_boundary(r):
        t = W.t(r.start)
        yes = [eqt(t, W.t(a.self.start))]
        if a.by_book:
            yes.append(eqt(t, W.firstb(f, t[0])))
        if a.by_chap:
            yes.append(eqt(t, W.firstc(f, t[0], t[1])))
        return Or(*yes)

    def needed(r):
        if a.num is None:
            return at_boundary(r)
        return Or(at_boundary(r), size(r) == a.num)
    d = {'is valid and cut only where needed': needed}
    if a.by_book:
        d['is in one book'] = one_book
    if a.by_chap:
        d['is in one chapter'] = one_chap
    if a.num is not None:
        d['has at most the number of verses'] = lambda r: size(r) <= a.num
        if aux:
            d['ends at a boundary'] = at_boundary
    else:
        d['starts at the start or at a boundary'] = from_boundary
    return d


def split_len(W, a):
    '''The number of pieces, where it does not depend on a verse limit.'''
    s, e = W.t(a.self.start), W.t(a.self.end)
    if a.num is not None or (a.by_chap and a.by_book):
        return None
    if a.by_chap:
        return W.crank(e[0], e[1]) - W.crank(s[0], s[1]) + 1
    if a.by_book:
        return e[0] - s[0] + 1
    return 1


def split_f(a):
    return a.f or bool(a.self.start.verse_num == 0) or bool(a.self.end.verse_num == 0)


def _split_ghost(W, a, INV):
    f = split_f(a)
    return INV.Ghost(f=f, start=a.self.start, preds=split_preds(W, a, f, aux=True))


def _split_post(W, a, o):
    f = split_f(a)
    yield 'returns a list', o.ok and W.is_list(o.val)
    if o.ok and W.is_list(o.val):
        s, e = W.span(f, a.self)
        yield from W.tiling(o.val, f, s, e + 1, split_preds(W, a, f), split_len(W, a))


def _split_stub(W, a):
    return W.tiling_result(a, split_f(a), split_preds, split_len(W, a))


contract('BibleRange.split', 'C08 C16', 'self:anyrange by_book:bool by_chap:bool num:optpos regroup:lazybool flags:flags',
         lambda R, a: a.self.split(by_book=a.by_book, by_chap=a.by_chap, num_verses=a.num, regroup=a.regroup,
                                   flags=a.flags), outs=['list'], ghost=_split_ghost)(_split_post)
REGISTRY['BibleRange.split'].stub = _split_stub


def _count_ghost(W, a, INV):
    return INV.Ghost(f=split_f(a), start=a.self.start)


@contract('BibleRange.verse_count', 'C07 C16', 'self:anyrange flags:flags',
          lambda R, a: a.self.verse_count(flags=a.flags), target='BibleRange.verse_count', outs=['int'],
          ghost=_count_ghost)
def _(W, a, o):
    s, e = W.span(split_f(a), a.self)
    yield from value_is(W, o, e - s + 1)


@contract('BibleRange.chap_count', 'C07 C16', 'self:range whole:bool flags:flags',
          lambda R, a: a.self.chap_count(whole=a.whole, flags=a.flags), target='BibleRange.chap_count', outs=['int'],
          ghost=_count_ghost)
def _(W, a, o):
    s, e = W.t(a.self.start), W.t(a.self.end)
    n = W.crank(e[0], e[1]) - W.crank(s[0], s[1]) + 1
    first, last = eqt(s, W.firstc(a.f, s[0], s[1])), eqt(e, W.lastc(a.f, e[0], e[1]))
    if a.whole:
        n = Ite(n == 1, Ite(And(first, last), 1, 0), n - Ite(first, 0, 1) - Ite(last, 0, 1))
    yield from value_is(W, o, n)


@contract('BibleRange.book_count', 'C07 C16', 'self:range whole:bool flags:flags',
          lambda R, a: a.self.book_count(whole=a.whole, flags=a.flags), target='BibleRange.book_count', outs=['int'],
          ghost=_count_ghost)
def _(W, a, o):
    s, e = W.t(a.self.start), W.t(a.self.end)
    n = e[0] - s[0] + 1
    first, last = eqt(s, W.firstb(a.f, s[0])), eqt(e, W.lastb(a.f, e[0]))
    if a.whole:
        n = Ite(n == 1, Ite(And(first, last), 1, 0), n - Ite(first, 0, 1) - Ite(last, 0, 1))
    yield from value_is(W, o, n)
