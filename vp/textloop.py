'''BibleRangeList.str() of lists of any length parses back to the list (C13).

The real str() runs on a list of which only the next range is known. The loop over the ranges is cut at its head: the
string so far is replaced by an unknown beginning (a "prefix" piece), what the loop assigns by arbitrary values, and the
state of the transformer that has parsed the beginning by an arbitrary one. What relates the two is inferred (Houdini
over guarded equalities between the variables of str() and the fields of the transformer, whatever either are called),
and proved on entry and after one more range. The obligations: the text appended for a range, parsed by the real grammar
and the real transformer from that state, gives exactly that range, in a new group exactly if it starts one.
'''
import time

import lark

from . import engine as G, symex as S, strings as T, units
from .engine import Engine, SymInt, SymBool, Unsupported, Budget, PathEnd, zb
from .spec import And, Or, Not, Implies, Iff, eqt
from .symex import W, SymBook, LazyFlag


class Poison:
    '''The value of a variable that is not known and must not be read.'''

    def _no(self, *a, **k):
        raise Unsupported('a variable of the loop is read that is not related to the text so far')
    __bool__ = __eq__ = __ne__ = __add__ = __radd__ = __getitem__ = __iter__ = __len__ = __contains__ = _no
    __or__ = __and__ = __ror__ = __rand__ = __lt__ = __gt__ = __le__ = __ge__ = __call__ = __format__ = __str__ = _no
    __hash__ = None

    def __getattr__(self, k):
        raise Unsupported(f'{k} of an unknown value')


DUMMY = object()


def kind(x):
    if x is None:
        return ('none',)
    if isinstance(x, (bool, SymBool)):
        return ('bool',)
    if isinstance(x, SymBook):
        return ('book',)
    if isinstance(x, (int, SymInt)):
        return ('int',)
    if isinstance(x, str):
        return ('str', x)
    if isinstance(x, T.SymStr) and len(x.ps) == 1 and x.ps[0].kind == 'sep':
        return ('sep', x.ps[0].val)
    return ('other',)


def fresh(ks, hint):
    e = G.E
    ks = sorted(ks)
    k = ks[e.choose(len(ks))]
    if k[0] == 'none':
        return None
    if k[0] == 'bool':
        return e.bool(hint)
    if k[0] == 'book':
        b = SymBook(e.int(hint))
        e.assume(W.validb(b.order))
        return b
    if k[0] == 'int':
        return e.int(hint)
    if k[0] == 'str':
        return k[1]
    if k[0] == 'sep':
        return T.SymStr([T.Piece('sep', k[1])])
    return Poison()


def equal(x, y):
    k, l = kind(x), kind(y)
    if k[0] != l[0] or k == ('other',):
        return False
    if k[0] == 'none':
        return True
    if k[0] == 'bool':
        return Iff(x, y)
    if k[0] == 'book':
        return x.order == y.order
    if k[0] == 'int':
        return x == y
    return k == l


class Run:
    '''What is known across the rounds.'''

    def __init__(self, hint=None):
        self.local, self.field = {}, {}     # name -> kinds seen
        self.dropped = set()
        if hint:
            self.local = {n: {tuple(k) for k in ks} for n, ks in hint['local'].items()}
            self.field = {n: {tuple(k) for k in ks} for n, ks in hint['field'].items()}
            self.dropped = set(hint['dropped'])
        self.changed = False
        self.kept = set()


class Path:
    def __init__(self, run, flags, f, m, preserve):
        self.run, self.flags, self.f, self.m, self.preserve = run, flags, f, m, preserve
        self.arrived = 0
        self.started = False        # whether there is text before
        self.g = True               # whether the next range starts a group
        self.item = None
        self.item_g = None
        self.fields = {}            # of the transformer
        self.outer = ()

    # -- the iterables --

    @property
    def groups(self):
        return self._Groups(self)

    class _Groups:
        def __init__(self, p):
            self.p = p

        def sym_iter(self):
            return _Outer(self.p)

    # -- the cut --

    def cut(self, names, env):
        e = G.E
        self.arrived += 1
        if self.arrived > 1:
            self.arrive(names, env)
            raise PathEnd()
        if not e.choose(2):
            return {}               # the first range of the list
        self.started = True
        self.g = e.bool('new group')
        run = self.run
        new = {}
        self.text = None
        for n in names:
            if n not in env and n not in run.local:
                continue
            ks = set(run.local.get(n, ()))
            if n in env:
                ks.add(kind(env[n]))
            if ('text',) in ks:
                if self.text is not None:
                    raise Unsupported('two variables hold the text')
                self.text = n
                new[n] = T.SymStr([T.Piece('prefix', 0)])
            else:
                new[n] = fresh(ks, n)
        if self.text is None:
            raise PathEnd()         # (in the first round: what holds the text is not known yet)
        self.fields = {n: fresh(ks, 'parser.' + n) for n, ks in run.field.items()}
        if not run.field:
            raise PathEnd()
        self.names = names
        cands = self.candidates({**env, **new}, names, self.fields, self.g)
        e.assume(And(*[x for l, x in cands if l not in run.dropped]))
        e.feasible()
        return new

    def candidates(self, env, names, fields, g):
        loc = {n: env[n] for n in names if n in env}
        lits = [('', True), ('new group', g), ('same group', Not(g))]
        vals = [(f'{n}', x) for n, x in sorted(loc.items())] + [(f'parser.{n}', x) for n, x in sorted(fields.items())]
        for n, x in vals:
            k = kind(x)
            if k[0] == 'bool':
                lits += [(n, x), (f'not {n}', Not(x))]
            if k[0] in ('str', 'sep'):
                for y in sorted(self.run.local.get(n, ())):
                    if y[0] in ('str', 'sep'):
                        lits.append((f'{n} is {y[1]!r}', k == y))
            else:
                for y in sorted(self.run.local.get(n, self.run.field.get(n[7:], ()))):
                    if y[0] in ('str', 'sep'):
                        lits.append((f'{n} is {y[1]!r}', False))
        for n, x in sorted(fields.items()):
            if ('book',) in self.run.field.get(n, ()):
                many = W.nch(x.order) > 1 if kind(x) == ('book',) else False
                lits += [(f'same group and parser.{n} has several chapters', And(Not(g), many)),
                         (f'parser.{n} has several chapters', many)]
        # (a literal about a variable is there whatever the variable's kind is on this path)
        atoms = []
        for n, x in sorted(loc.items()):
            for m, y in sorted(fields.items()):
                if self.run.local.get(n, set()) & self.run.field.get(m, set()) - {('none',)}:
                    atoms.append((f'{n} == parser.{m}', equal(x, y)))
        for n, x in vals:
            ks = self.run.local.get(n) if not n.startswith('parser.') else self.run.field.get(n[7:])
            if ks and ('none',) in ks:
                atoms.append((f'{n} is not None', x is not None))
                atoms.append((f'{n} is None', x is None))
            if ks and ('bool',) in ks and len(ks) == 1:
                atoms += [(n, x), (f'not {n}', Not(x))]
            if ks:
                atoms += [(f'{n} is {y[1]!r}', kind(x) == y) for y in sorted(ks) if y[0] in ('str', 'sep')]
        return [(f'{l} -> {t}' if l else t, Implies(c, x)) for l, c in lits for t, x in atoms if l != t]

    def arrive(self, names, env):
        e = G.E
        run = self.run
        for n in self.outer:
            if n not in names and n in env and not isinstance(env[n], _Group):
                raise Unsupported(f'{n} is set outside the inner loop')
        text = [n for n in names if isinstance(env.get(n), T.SymStr) and
                (any(p.kind == 'prefix' for p in env[n].ps) or self.started is False)]
        if self.started:
            text = [n for n in text if n == self.text]
        else:
            known = [n for n, ks in run.local.items() if ('text',) in ks]
            if known:
                text = known
            else:
                # the variable that held '' at the entry and is never anything else but the text
                text = [n for n in names if n in self.entry and self.entry[n] == '' and kind(env.get(n)) == ('other',)
                        and isinstance(env[n], T.SymStr)]
        if len(text) != 1:
            raise Unsupported(f'the variable that holds the text: {text}')
        text = text[0]
        fields = self.parse(env[text])
        for n in names:
            if n in env:
                self.learn(run.local, n, ('text',) if n == text else kind(env[n]))
        for n, x in fields.items():
            self.learn(run.field, n, kind(x))
        if run.changed:
            return
        loc = dict(env)
        loc.pop(text)
        cands = [(l, x) for l, x in self.candidates({n: x for n, x in loc.items()}, [n for n in names if n != text],
                                                    fields, self.g) if l not in run.dropped]
        bad = e.falsified([x for _, x in cands])
        for i in bad:
            run.dropped.add(cands[i][0])
            run.changed = True
        self.check.arrivals += 1
        run.kept = {l for l, _ in cands} - run.dropped

    def learn(self, d, n, k):
        if k not in d.setdefault(n, set()):
            d[n].add(k)
            self.run.changed = True
            self.run.dropped.clear()

    def parse(self, s):
        '''Parse what was appended; the transformer's state afterwards.'''
        e = G.E
        ps = T.pieces(s)
        if self.started:
            if not ps or ps[0].kind != 'prefix' or any(p.kind == 'prefix' for p in ps[1:]):
                raise Unsupported('the text so far is changed')
            if len(ps) == 1:
                self.claim('a range is written as some text', self.item is None)
                return self.fields
        elif self.item is None:
            raise Unsupported('no range')
        try:
            got, fields = parse_from(s, self.fields, self.flags, self.started)
        except Stopped as ex:
            self.claim('the text written for a range is parsed', False)
            raise PathEnd()
        self.claim('there is a range for the text', self.item is not None)
        flat = [x for g in got for x in g]
        if self.started:
            self.claim('the groups before are kept', bool(flat) and flat[0] is DUMMY)
            flat = flat[1:]
        self.claim('the text is one range', len(flat) == 1)
        if len(flat) == 1 and self.item is not None:
            x, y = flat[0], self.item
            self.claim('the text is parsed as the range it was written for',
                       And(eqt(W.t(x.start), W.t(y.start)), eqt(W.t(x.end), W.t(y.end))))
            if self.preserve and self.started:
                self.claim('the range is in a new group exactly if it was', Iff(self.item_g, len(got) == 2))
        return fields

    def claim(self, label, x):
        if not self.run.changed:
            G.E.prove(label, x)


class Stopped(Exception):
    pass


def parse_from(s, fields, flags, started):
    got = {}
    base = lark.Transformer
    real = base.transform

    def transform(self, tree):
        if started:
            self.__dict__.update(fields)
        r = real(self, tree)
        got.update({k: v for k, v in self.__dict__.items() if not k.startswith('__') and not isinstance(v, LazyFlag)})
        return r
    base.transform = transform
    parser = S.ref.parser
    try:
        try:
            out = parser._parse(s, flags)
        finally:
            base.transform = real
    except AttributeError as ex:
        raise Unsupported(f'the parser: {ex}')
    except Exception as ex:
        raise Stopped(repr(ex))
    return out, got


class _Group:
    def __init__(self, p):
        self.p = p

    def sym_iter(self):
        return _Inner(self.p)


class _Outer(S.Loop):
    def __init__(self, p):
        super().__init__(None)
        self.p = p
        self.first = True

    def start(self, lid):
        self.lid = lid
        return self

    def head(self, names, env):
        self.p.outer = names
        if self.first:
            self.p.entry = dict(env)
        return {}

    def next(self):
        e = G.E
        if not self.first and not e.choose(2):
            return False
        self.first = False
        self.p.g = True
        self.value = _Group(self.p)
        return True


class _Inner(S.Loop):
    def __init__(self, p):
        super().__init__(None)
        self.p = p

    def start(self, lid):
        self.lid = lid
        return self

    def head(self, names, env):
        return self.p.cut(names, env)

    def next(self):
        e, p = G.E, self.p
        if not bool(p.g):
            if not e.choose(2):
                return False
        x = S.fresh_range('item')
        e.assume(W.valid_range(p.f, x))
        if not p.m:
            e.assume(x.start.book.order == x.end.book.order)
        e.feasible()
        p.item, p.item_g, p.g = x, p.g, False
        self.value = x
        return True


class _Check:
    def __init__(self):
        self.arrivals = 0


def prove(deadline, preserve, force, multi, hint=None, rounds=60):
    from . import proofs as P
    S.load()
    S.loaded._bible_data = P.SYMDATA
    e = Engine(deadline=deadline, max_paths=10**6)
    G._set(e)
    e.stubs_used, e.loose, e.modes_used, e.on_start, e.cutlids = set(), False, {}, [W.reset], {}
    t0 = time.time()
    run_, check = Run(hint), _Check()
    reached = {}
    rep = dict(status='done', results=[])

    def run():
        S.GLOBAL.reset()
        f, m = bool(e.choose(2)), multi
        flags = S.LazyFlag.make(VERSE_0=f, MULTIBOOK=m)
        look = bool(e.choose(2))
        p = Path(run_, flags, f, m, preserve)
        p.check = check
        e.args = None
        o = P.run_call(lambda: S.ref.BibleRangeList.__dict__['str'](p, look, look, look, preserve, force, flags))
        e.feasible()
        if not o.ok:
            e.prove('str() returns', False)
            return
        # the list has ended
        if not run_.changed:
            x = o.val
            e.prove('what is returned is the text of all the ranges',
                    isinstance(x, T.SymStr) and len(x.ps) == 1 and x.ps[0].kind == 'prefix')
            reached['returns'] = reached.get('returns', 0) + 1
    try:
        with P.Installed({'strings', 'regroup', 'BibleRangeList.str'}):
            for _ in range(rounds):
                run_.changed = False
                check.arrivals = 0
                del e.results[:]
                reached.clear()
                e.explore(run)
                if not run_.changed:
                    break
                if hint:
                    return prove(deadline, preserve, force, multi)
            else:
                raise Unsupported('the relation between str() and the parser does not stabilise')
            if not reached.get('returns') or not check.arrivals:
                raise Unsupported('no path reaches the end of the function')
    except Unsupported as u:
        rep.update(status='undecided', reason=f'outside the verifier: {u}')
        import os
        if os.environ.get('VP_DEBUG'):
            import traceback
            traceback.print_exc()
    except Budget as b:
        rep.update(status='undecided', reason=f'budget: {b}')
    finally:
        G._set(None)
    # the inferred relation may be too weak for other right code, so what is refuted here is only not proved
    res = [(r.label, 'proved' if r.status == 'proved' else 'unknown', None) for r in e.results]
    if hint and (rep['status'] != 'done' or any(x != 'proved' for _, x, _ in res)):
        return prove(deadline, preserve, force, multi)
    rep['learnt'] = dict(local={n: sorted(map(list, ks)) for n, ks in sorted(run_.local.items())},
                         field={n: sorted(map(list, ks)) for n, ks in sorted(run_.field.items())},
                         dropped=sorted(run_.dropped))
    rep.update(results=res, paths=e.paths, secs=time.time() - t0, solver_s=e.solver_time, queries=e.queries,
               stubs=sorted(e.stubs_used), modes={}, reached=dict(reached),
               loops={'BibleRangeList.str: loop over the ranges': dict(labels=sorted(run_.kept), measures=['the ranges left'])})
    return rep


def unit_name(p, f, m):
    return f'BibleRangeList.str of any length (preserve_groups={p}, force_start_verses={f}, multi-book={m})'


def _register(p, f, m):
    def run(deadline):
        from . import deduce
        return prove(deadline, p, f, m, deduce.hints().get(unit_name(p, f, m)))
    units.unit(unit_name(p, f, m), 'C13')(run)


for _p in (True, False):
    for _f in (True, False):
        for _m in (True, False):
            _register(_p, _f, _m)
