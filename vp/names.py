'''Names of books (C15): the accepted strings as regular languages, for every string.

What the code accepts is taken from the code: the regular expressions that BibleData's name_data setter compiled for the
books are translated, node by node, into regular expressions of z3, and BibleBook.from_str is executed on an arbitrary
string. What it should accept is built from the reference names. Unicode is partitioned into classes of characters that
no expression and no specification tells apart (a character stands for its class), which are computed by running each
one-character expression of the code on every code point.
'''
import re
import time

import z3

from . import engine as G, units
from .engine import Engine, Unsupported, Budget

try:
    from re import _parser as sre_parse, _compiler as sre_compile, _constants as sc
except ImportError:                     # Python < 3.11
    import sre_parse
    import sre_compile
    import sre_constants as sc

ALL, SPACE, FOLD = None, None, {}


def tables():
    global ALL, SPACE
    if ALL is None:
        ALL = ''.join(map(chr, [c for c in range(0x110000) if not 0xD800 <= c < 0xE000]))
        SPACE = frozenset(c for c in ALL if c.isspace())
        for c in ALL:
            FOLD.setdefault(c.casefold(), []).append(c)


ROMAN = {'1': 'I', '2': 'II', '3': 'III'}
REPS = 50           # (a counted repetition is written out up to this length)


class Language:
    '''Character classes collected from expressions, then z3 expressions over one representative per class.'''

    def __init__(self):
        self.sets = {}          # key -> frozenset of characters
        self.reps = None

    # trees: ('set', key) ('seq', [..]) ('alt', [..]) ('rep', lo, hi|None, tree)
    def chars(self, key, cs):
        if key not in self.sets:
            self.sets[key] = frozenset(cs)
        return ('set', key)

    def of_pattern(self, pattern):
        '''The tree of a compiled pattern (the strings it matches in full).'''
        p = sre_parse.parse(pattern.pattern, pattern.flags)
        return self._sub(p, pattern.flags)

    def _sub(self, p, flags):
        return ('seq', [self._node(op, av, flags, p) for op, av in p])

    def _one(self, op, av, flags, p):
        key = (str(op), repr(av), int(flags))
        if key not in self.sets:
            state = sre_parse.State()
            state.flags, state.str = flags, ''
            self.sets[key] = frozenset(sre_compile.compile(sre_parse.SubPattern(state, [(op, av)]), flags).findall(ALL))
        return ('set', key)

    def _node(self, op, av, flags, p):
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
            return self._one(op, av, flags, p)
        if op is sc.SUBPATTERN:
            group, add, rem, sub = av
            return self._sub(sub, (flags | add) & ~rem)
        if op is sc.BRANCH:
            return ('alt', [self._sub(x, flags) for x in av[1]])
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            hi = None if hi is sc.MAXREPEAT or hi == sc.MAXREPEAT else int(hi)
            if lo > REPS or (hi or 0) > REPS:
                raise Unsupported('a long repetition in a regular expression')
            return ('rep', lo, hi, self._sub(sub, flags))
        raise Unsupported(f'{op} in a regular expression')

    # names as the specification reads them
    def letter(self, c, loose):
        if loose:       # characters that Python takes for the same letter when it ignores case
            cs = () if ('loose', c) in self.sets else \
                {*re.compile(re.escape(c), re.IGNORECASE).findall(ALL), *FOLD.get(c.casefold(), ())}
            return self.chars(('loose', c), cs)
        return self.chars(('tight', c), {c, c.lower(), c.upper()} if not c.isspace() else c)

    def space(self, least):
        return ('rep', least, None, self.chars('space', SPACE))

    def word(self, text, loose, least):
        return ('seq', [self.space(least) if c == ' ' else self.letter(c, loose) for c in text])

    def of_names(self, abbrev, title, minc, extra, loose):
        num = ('seq', [])
        stem = title
        if title[:2] in ('1 ', '2 ', '3 '):
            n, stem = title[0], title[2:]
            num = ('alt', [('seq', [self.letter(n, loose), self.space(0)]),
                           ('seq', [self.letter(c, loose) for c in ROMAN[n]] + [self.space(1)])])
        tail = ('seq', [])
        for c in reversed(stem[minc:]):
            x = self.space(1) if c == ' ' else self.letter(c, loose)
            tail = ('rep', 0, 1, ('seq', [x, tail]))
        forms = [('seq', [num, self.word(stem[:minc], loose, 1), tail]), self.word(abbrev, loose, 0)]
        return ('alt', forms + [self.word(x, loose, 0) for x in extra])

    # z3
    def close(self):
        sig = {}
        keys = list(self.sets)
        member = {}
        for i, k in enumerate(keys):
            cs = self.sets[k]
            if len(cs) > 0x80000:
                cs = None
            if cs is None:
                for c in ALL:
                    if c in self.sets[k]:
                        member[c] = member.get(c, 0) | 1 << i
            else:
                for c in cs:
                    member[c] = member.get(c, 0) | 1 << i
        rest = next(c for c in '#' + ALL if c not in member) if len(member) < len(ALL) else None
        if rest is not None:
            sig[0] = rest
        for c in sorted(member, key=lambda c: (not (c.isascii() and c.isprintable()), ord(c))):
            sig.setdefault(member[c], c)
        self.reps = sorted(sig.values())
        self.rset = {k: [c for c in self.reps if c in cs] for k, cs in self.sets.items()}
        self.any = self._set(self.reps)
        self._z = {}

    def _lit(self, c):
        return z3.Re(z3.StringVal('\\u{%x}' % ord(c)))

    def _set(self, cs):
        xs = [self._lit(c) for c in cs]
        return z3.Empty(z3.ReSort(z3.StringSort())) if not xs else xs[0] if len(xs) == 1 else z3.Union(*xs)

    def z(self, t):
        k = t[0]
        if k == 'set':
            if t[1] not in self._z:
                self._z[t[1]] = self._set(self.rset[t[1]])
            return self._z[t[1]]
        if k in ('seq', 'alt'):
            xs = [self.z(x) for x in t[1]]
            if not xs:
                return z3.Re(z3.StringVal('')) if k == 'seq' else z3.Empty(z3.ReSort(z3.StringSort()))
            return xs[0] if len(xs) == 1 else (z3.Concat if k == 'seq' else z3.Union)(*xs)
        _, lo, hi, sub = t
        x = self.z(sub)
        if hi is None:
            return z3.Star(x) if lo == 0 else z3.Plus(x) if lo == 1 else z3.Concat(z3.Loop(x, lo, lo), z3.Star(x))
        return z3.Option(x) if (lo, hi) == (0, 1) else z3.Loop(x, lo, hi)


class Match:
    '''What a successful match returns.'''

    def __getattr__(self, n):
        raise Unsupported(f'{n} of a match')


class Pattern:
    '''A compiled regular expression, applied to an arbitrary string.'''

    def __init__(self, lang, real, tree):
        self.lang, self.real, self.tree = lang, real, tree
        self.pattern, self.flags = real.pattern, real.flags

    def _try(self, s, before, after):
        if not isinstance(s, Text):
            return getattr(self.real, 'search' if before else 'match' if after else 'fullmatch')(s)
        L = self.lang
        rx = [z3.Star(L.any)] * before + [L.z(self.tree)] + [z3.Star(L.any)] * after
        r = rx[0] if len(rx) == 1 else z3.Concat(*rx)
        return Match() if G.E.branch(z3.InRe(s.z, r)) else None

    def fullmatch(self, s):
        return self._try(s, 0, 0)

    def match(self, s):
        return self._try(s, 0, 1)

    def search(self, s):
        return self._try(s, 1, 1)


class Text:
    '''An arbitrary string: white space, a core that neither begins nor ends with white space, white space.'''

    def __init__(self, z, core=None):
        self.z, self.core = z, core

    def strip(self, *a):
        if a or self.core is None:
            raise Unsupported('strip() of a part')
        return Text(self.core, self.core)

    def __getattr__(self, n):
        raise Unsupported(f'{n} of an arbitrary string')

    def __str__(self):
        return '<string>'

    def __format__(self, s):
        return '<string>'

    def __eq__(self, o):
        if isinstance(o, str) and o == '':
            return bool(G.E.branch(self.z == z3.StringVal('')))
        raise Unsupported('comparison of an arbitrary string')

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return bool(G.E.branch(self.z != z3.StringVal('')))

    def __len__(self):
        raise Unsupported('length of an arbitrary string')

    __hash__ = None


def decode(z):
    s = z.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def failing(data, text, book):
    '''Replay a string on the real code: it should name the book (None: no book).'''
    from . import oracles as O
    case = dict(data=data, text=text, book=book)
    msg = O.ORACLES['C15']['names'].check(case)
    if msg is None:
        return None
    return dict(kind='oracle', property='C15', oracle='names', case=case, message=msg)


def prove(deadline, data, raising):
    from . import concrete as K, oracles as O
    t0 = time.time()
    tables()
    K.init()
    O.assign_names(data)
    B = K.B
    books = list(B.BibleBook)
    results, failed = [], []
    rep = dict(status='done', results=results, failed=failed, stubs=[], loops={}, modes={}, paths=0, queries=0,
               solver_s=0.0, secs=0.0)
    L = Language()
    spec = {}
    for name, abbrev, title, minc, extra in O.name_data(data):
        spec[name] = tuple(L.of_names(abbrev, title, minc, extra, loose) for loose in (False, True))
    L.chars('space', SPACE)
    saved = []
    e = Engine(deadline=deadline, max_paths=10**5)
    e.stubs_used, e.loose, e.modes_used, e.on_start, e.cutlids = set(), False, {}, [], {}
    nq = [0]

    def solve(*cs):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*cs)
        nq[0] += 1
        t = time.time()
        r = s.check()
        rep['solver_s'] += time.time() - t
        return r, (s.model() if r == z3.sat else None)

    def finish():
        for b, k, v in saved:
            setattr(b, k, v)
        G._set(None)
        O.assign_names('default')
        for f in failed:
            f['replay'] = failing(data, f['model']['text'], f['replay'])
        rep.update(paths=e.paths, queries=nq[0] + e.queries, secs=time.time() - t0,
                   solver_s=rep['solver_s'] + e.solver_time, classes=len(L.reps or ()))
        return rep

    def oblige(label, text, wanted, *cs):
        '''No string satisfies cs.'''
        r, m = solve(*cs)
        if r == z3.unsat:
            results.append((label, 'proved', None))
        elif r == z3.sat:
            s = decode(m.eval(text, model_completion=True))
            results.append((label, 'refuted', dict(text=s)))
            failed.append(dict(clause=label, model=dict(text=s), replay=wanted(s)))
        else:
            results.append((label, 'unknown', None))

    try:
        real = {}
        for b in books:
            for k, v in list(vars(b).items()):
                if isinstance(v, re.Pattern):
                    real.setdefault(b, {})[k] = (v, L.of_pattern(v))
        L.close()
        core = z3.String('core')
        whole = [z3.InRe(core, z3.Star(L.any))]
        sp = L.z(('set', 'space'))
        anyc = z3.Star(L.any)
        for x in (z3.Concat(sp, anyc), z3.Concat(anyc, sp)):
            whole.append(z3.Not(z3.InRe(core, x)))
        tight = {n: z3.InRe(core, L.z(t[0])) for n, t in spec.items()}
        loose = {n: z3.InRe(core, L.z(t[1])) for n, t in spec.items()}

        def owner(s):
            for n, (t, lo) in spec.items():
                if solve(core == z3.StringVal(s), loose[n])[0] == z3.sat:
                    return n

        names = list(spec)
        if raising is None:
            # no string is a name of two books, and the public expressions are those of the names
            for i, n in enumerate(names):
                oblige(f'the specified names of {n} are not names of a later book', core, lambda s: n, *whole, loose[n],
                       z3.Or([loose[m] for m in names[i+1:]] + [z3.BoolVal(False)]))
            rx = {b: L.z(real[b]['regex'][1]) for b in books if 'regex' in real.get(b, {})}
            for b, r in rx.items():
                if b.name in loose:
                    oblige(f'the expression of {b.name} matches only its names', core, lambda s: owner(s), *whole,
                           z3.InRe(core, r), z3.Not(loose[b.name]))
            return finish()
        # from_str on an arbitrary string
        lead, trail = z3.String('lead'), z3.String('trail')
        for b in books:
            for k, (v, tree) in real.get(b, {}).items():
                saved.append((b, k, v))
                setattr(b, k, Pattern(L, v, tree))
        from_str = B.BibleBook.from_str
        G._set(e)
        reached = set()

        def run():
            for c in whole:
                e.add(c)
            e.add(z3.InRe(lead, z3.Star(sp)))
            e.add(z3.InRe(trail, z3.Star(sp)))
            e.add(z3.Implies(core == z3.StringVal(''), trail == z3.StringVal('')))
            s = Text(z3.Concat(lead, core, trail), core)
            try:
                got, exc = from_str(s, raise_error=raising), None
            except Exception as x:
                got, exc = None, x
            path = list(e.pc) if hasattr(e, 'pc') else list(e.solver.assertions())
            reached.add(got)
            text = z3.Concat(lead, core, trail)
            if exc is not None and (not raising or type(exc).__name__ != 'InvalidReferenceError'):
                oblige('from_str raises InvalidReferenceError, and only when asked to', text, owner, *path)
            if got is None:
                if raising and exc is None:
                    oblige('from_str raises when asked to and no book is found', text, owner, *path)
                for n in names:
                    oblige(f'every name of {n} is recognised', text, lambda s: n, *path, tight[n])
            elif not isinstance(got, B.BibleBook):
                oblige('from_str returns a book', text, owner, *path)
            elif got.name not in spec:
                oblige('a book without names is not recognised', text, owner, *path)
            else:
                oblige(f'what is recognised as {got.name} is one of its names', text, lambda s: owner(s.strip()),
                       *path, z3.Not(loose[got.name]))
        e.explore(run)
        if reached != {x for x in books if x.name in spec} | {None}:
            raise Unsupported('a book is never recognised')
    except Unsupported as u:
        rep.update(status='undecided', reason=f'outside the verifier: {u}')
    except Budget as b:
        rep.update(status='undecided', reason=f'budget: {b}')
    return finish()


def _register(data, raising):
    what = 'names of the books' if raising is None else f'BibleBook.from_str(any string, raise_error={raising})'
    units.unit(f'{what} ({data} name data)', 'C15')(lambda deadline: prove(deadline, data, raising))


for _d in ('default', 'other'):
    for _r in (None, False, True):
        _register(_d, _r)
