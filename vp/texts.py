'''Contracts about strings: what a reference's string parses back to, and what the parser makes of each form (C13, C14).'''
from .contracts import contract, REGISTRY, verse_is, range_is, value_is, rejects, INV
from .spec import And, Or, Not, Implies, Iff, Ite, eqt, lexlt

OPTS = 'abbrev:bool alt:bool nospace:bool'


def one_book(W, a):
    '''Ranges over several books are only parsed when these are enabled.'''
    s, e = a.self.start.book.order, a.self.end.book.order
    return Or(s == e, a.m)


@contract('BibleVerse(verse.str())', 'C13 C16', 'self:verse flags:flags ' + OPTS,
          lambda R, a: R.BibleVerse(a.self.str(a.abbrev, a.alt, a.nospace), flags=a.flags), without=('strings',))
def _(W, a, o):
    yield from verse_is(W, o, W.t(a.self))


@contract('BibleRange(range.str())', 'C13 C16', 'self:range flags:flags force:bool ' + OPTS,
          lambda R, a: R.BibleRange(a.self.str(a.abbrev, a.alt, a.nospace, a.force, a.flags), flags=a.flags),
          pre=one_book, without=('strings',))
def _(W, a, o):
    yield from range_is(W, o, W.t(a.self.start), W.t(a.self.end))


# ---------------------------------------------------------------------------------------------------------------
# Lists of two ranges (values unbounded; for lists of any length see the unit below)
# ---------------------------------------------------------------------------------------------------------------

def two(W, a):
    return And(Or(a.r.start.book.order == a.r.end.book.order, a.m), Or(a.s.start.book.order == a.s.end.book.order, a.m))


def _two(R, a):
    L = R.BibleRangeList([[a.r], [a.s]] if a.apart else [[a.r, a.s]], flags=a.flags)
    t = L.str(False, False, False, a.preserve, a.force, a.flags)
    return R.BibleRangeList(t, flags=a.flags)


@contract('BibleRangeList(list.str()) of two ranges', 'C13',
          'r:range s:range flags:flags apart:bool preserve:bool force:bool', _two, pre=two,
          without=('strings', 'regroup'))
def _(W, a, o):
    yield 'parses', o.ok
    if o.ok:
        rs = W.items(o.val)
        yield 'has two ranges', len(rs) == 2
        if len(rs) == 2:
            for n, x, y in (('first', rs[0], a.r), ('second', rs[1], a.s)):
                yield f'the {n} range is restored', And(eqt(W.t(x.start), W.t(y.start)), eqt(W.t(x.end), W.t(y.end)))
        if a.preserve:
            yield 'has the same groups', [len(g) for g in o.val.groups] == ([1, 1] if a.apart else [2])


# ---------------------------------------------------------------------------------------------------------------
# What each form of reference means, after another one (C14)
# ---------------------------------------------------------------------------------------------------------------

for _n in ('BibleVerse(verse.str())', 'BibleRange(range.str())', 'BibleRangeList(list.str()) of two ranges'):
    REGISTRY[_n].few = 700
REGISTRY['BibleRangeList(list.str()) of two ranges'].explicit = True

PARSE = 'BibleRefParsingError'


class Meaning:
    '''The reading of a reference, from the text of C14: (valid, start, end) and what the next bare number is.'''

    def __init__(self, W, f):
        self.W, self.f = W, f
        self.book = self.chap = None
        self.verses = False             # whether a bare number is a verse

    def verse(self, b, c, v):
        t = (b.order, c, v)
        return And(self.W.valid(self.f, t)), t, t

    def chapter(self, b, c):
        W, o = self.W, b.order
        ok = And(c >= 1, c <= W.nch(o))
        c1 = Ite(ok, c, 1)
        return ok, (o, c1, W.minv(self.f, o, c1)), (o, c1, W.mx(o, c1))

    def whole(self, b):
        W, o = self.W, b.order
        n = W.nch(o)
        return True, (o, 1, W.minv(self.f, o, 1)), (o, n, W.mx(o, n))

    def read(self, form, b, n, v):
        if form[0] == 'B':
            self.book, self.chap, self.verses = b, None, False
        b = self.book
        if form == 'B':
            return self.whole(b)
        if form in ('B n:v', 'n:v'):
            self.chap, self.verses = n, True
            return self.verse(b, n, v)
        single = bool(self.W.nch(b.order) == 1)
        if single:
            self.chap, self.verses = 1, True
        elif form == 'B n':
            self.chap = n
        if self.verses:
            return self.verse(b, self.chap, n)
        return self.chapter(b, n)


def pieces(form, b, n, v):
    return {'B': [b], 'B n': [b, ' ', n], 'B n:v': [b, ' ', n, ':', v], 'n:v': [n, ':', v], 'n': [n]}[form]


def parsing(forms, seps):
    '''The contract of the constructor for texts of the given forms of references and separators between (and after).'''
    vs = [('b', 'n', 'v'), ('c', 'p', 'w'), ('d', 'q', 'x')]
    used = [(form, v) for form, v in zip(forms, vs)]
    params = ' '.join(p for form, (b, n, v) in used
                      for p in ([f'{b}:book'] if 'B' in form else []) + ([f'{n}:nat'] if 'n' in form else [])
                      + ([f'{v}:nat'] if 'v' in form else [])) + ' flags:flags'
    text = ''
    for i, form in enumerate(forms):
        text += form + (seps[i] + (' ' if i + 1 < len(forms) else '') if i < len(seps) else '')

    def arg(a, i):
        return [getattr(a, k, None) for k in vs[i]]

    def call(R, a):
        xs = []
        for i, form in enumerate(forms):
            xs = xs + ([' '] if i else []) + pieces(form, *arg(a, i)) + ([seps[i]] if i < len(seps) else [])
        return R.BibleRangeList(R.text(*xs), flags=a.flags)

    @contract(f'BibleRangeList("{text}")', 'C14 C16' if len(forms) < 3 else 'C14', params, call, without=('strings',))
    def _(W, a, o):
        m = Meaning(W, a.f)
        ok, groups, dash = True, [[]], False
        for i, form in enumerate(forms):
            v, s, e = m.read(form, *arg(a, i))
            ok = And(ok, v)
            if dash:
                s = groups[-1].pop()[0]
                ok = And(ok, Or(s[0] == e[0], a.m))
                if bool(lexlt(e, s)):
                    s, e = e, s
            groups[-1].append((s, e))
            if not bool(ok):
                yield from rejects(o, PARSE)
                return
            sep = seps[i] if i < len(seps) else ''
            dash = sep == '-'
            if sep == ';':
                m.verses = False
                if i + 1 < len(forms):
                    groups.append([])
        yield 'parses', o.ok
        if not o.ok:
            return
        want = [x for g in groups for x in g]
        rs = W.items(o.val)
        yield 'has the expected number of ranges', len(rs) == len(want)
        if len(rs) == len(want):
            for i, (x, (s, e)) in enumerate(zip(rs, want)):
                yield f'range {i+1} is the expected one', And(eqt(W.t(x.start), s), eqt(W.t(x.end), e))
        yield 'has the expected groups', [len(g) for g in o.val.groups] == [len(g) for g in groups]
    c = REGISTRY[f'BibleRangeList("{text}")']
    c.few = 120 if len(forms) < 3 else 60
    c.explicit = len(forms) == 3


FIRST, NEXT = ('B', 'B n', 'B n:v'), ('B', 'B n', 'B n:v', 'n:v', 'n')
for _f1 in FIRST:
    for _s in ('', ',', ';'):
        parsing([_f1], [_s] if _s else [])
    for _s in (',', ';', '-'):
        for _f2 in NEXT:
            parsing([_f1, _f2], [_s])
    for _s in (',', ';', '-'):
        for _t in (',', ';', '-'):
            for _f2 in ('n:v', 'n'):
                for _f3 in ('n:v', 'n'):
                    if (_s, _t) != ('-', '-'):
                        parsing([_f1, _f2, _f3], [_s, _t])
