'''Iteration over a range (C07): the generator BibleRange.__iter__, for every range.

The generator runs against a consumer that asks for the next verse again and again. Its loop is cut: q is the position of
the verse that has to be yielded next, and of the loop's variables it is found out which hold the verse at q (or, when q
is past the end, the one after the end or None) and which the verse before q. From any such state the generator must
yield the verse at q, or stop if q is past the end; it must come back to the head with q moved on. What cannot be shown
here is undecided, never an alarm.
'''
import time

from . import engine as G, symex as S, units
from .engine import Engine, Unsupported, Budget, PathEnd, Restart
from .spec import And
from .symex import W


class Poison:
    def _no(self, *a):
        raise Unsupported('a variable that is not known here')
    __getattr__ = __bool__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __sub__ = __call__ = __iter__ = _no
    __hash__ = None


class Walk:
    def __init__(self):
        self.roles = {}
        self.within = True
        self.backs = self.ends = 0

    def start(self, f, r):
        self.f, self.r = f, r
        self.s, self.t = W.idx(f, W.t(r.start)), W.idx(f, W.t(r.end))
        self.q, self.inside = self.s, False

    def at(self, hint, q):
        e = G.E
        v = S.fresh_verse(hint)
        e.assume(And(W.valid(self.f, W.t(v)), W.idx(self.f, W.t(v)) == q))
        return v

    def fits(self, role, v, q):
        e = G.E
        if role == 'dead':
            return True
        if v is None:
            return role == 'next' and e.known(q == self.t + 1)
        return S.isverse(v) and e.known(And(W.valid(self.f, W.t(v)),
                                            W.idx(self.f, W.t(v)) == (q if role == 'next' else q - 1)))

    def head(self, names, env):
        e = G.E
        if self.inside:
            self.back(names, env)
            raise PathEnd
        self.inside = True
        role = {}
        for n in names:
            ok = self.roles.setdefault(n, ['next', 'last', 'dead'])
            while not self.fits(ok[0], env.get(n, Poison()), self.q):
                ok.pop(0)
                e.changed = True
            role[n] = ok[0]
        self.role = role
        first = self.q
        q = self.q = self.q0 = e.int('q')
        if self.within and not e.known(first <= self.t):
            self.within, e.changed = False, True
        e.assume(And(q >= first, q <= (self.t if self.within else self.t + 1)))
        new = {}
        for n in names:
            if role[n] == 'dead':
                new[n] = Poison()
            elif role[n] == 'last':
                e.assume(q >= self.s + 1)
                new[n] = self.at(n, q - 1)
            elif bool(q <= self.t):
                new[n] = self.at(n, q)
            elif e.choose(2):
                new[n] = None
            elif bool(q < W.total(self.f)):
                new[n] = self.at(n, q)
            else:
                raise PathEnd
        return new

    def back(self, names, env):
        e = G.E
        if not e.known(And(self.q > self.q0, self.q <= self.t + 1)):
            e.prove('iteration moves on', False)
            return
        if self.within and not e.known(self.q <= self.t):
            self.within, e.changed = False, True
        for n in names:
            ok = self.roles[n]
            while not self.fits(ok[0], env.get(n, Poison()), self.q):
                ok.pop(0)
                e.changed = True
        self.backs += 1


class _Loop:
    native = False
    value = None

    def __init__(self, walk):
        self.walk = walk

    def head(self, names, env):
        return self.walk.head(names, env)


def prove(deadline):
    from . import proofs as P
    S.load()
    S.loaded._bible_data = P.SYMDATA
    e = Engine(deadline=deadline, max_paths=20000)
    G._set(e)
    e.stubs_used, e.loose, e.modes_used, e.on_start, e.cutlids = set(), False, {}, [W.reset], {}
    t0 = time.time()
    walk = Walk()
    rep = dict(status='done', results=[], failed=[])

    def run():
        S.GLOBAL.reset()
        a = P.Args()
        a.f = bool(e.choose(2))
        a.eff = S.GLOBAL.value = S.LazyFlag.make(VERSE_0=a.f)
        e.args = a
        r = P.make('anyrange', 'self', a)
        f = a.f or bool(r.start.verse_num == 0) or bool(r.end.verse_num == 0)
        walk.start(f, r)
        gen = S.ref.BibleRange.__dict__['__iter__'](r)
        for k in range(6):
            try:
                v = next(gen)
            except StopIteration:
                e.feasible()
                e.prove('iteration ends after the last verse', walk.q == walk.t + 1)
                walk.ends += 1
                return
            except (AttributeError, TypeError, ValueError) as x:
                e.feasible()
                raise Unsupported(f'iteration raises {x!r}')
            e.feasible()
            e.prove('iteration yields verses', S.isverse(v))
            if not S.isverse(v):
                return
            e.prove('iteration yields valid verses', W.valid(f, W.t(v)))
            e.prove('iteration ends at the last verse', walk.q <= walk.t)
            e.prove('iteration yields the next verse', W.idx(f, W.t(v)) == walk.q)
            walk.q = walk.q + 1
        raise Unsupported('the loop is not cut')
    d = S.ref.__dict__
    saved = d.get('_vp_loop')

    def loop(lid):
        return _Loop(walk) if lid.startswith(mine_prefix) else S.vp_loop(lid)
    mine_prefix = next((l.rsplit(' loop', 1)[0] for l in S.transform.GENERATORS if 'BibleRange.__iter__' in l), None)
    d['_vp_loop'] = loop
    try:
        if mine_prefix is None:
            raise Unsupported('BibleRange.__iter__ is not a generator with a loop')
        with P.Installed(set()):
            for _ in range(20):
                e.changed = False
                walk.backs = walk.ends = 0
                del e.results[:]
                e.explore(run)
                if not e.changed:
                    break
            else:
                raise Unsupported('the roles of the variables do not stabilise')
        if not walk.backs or not walk.ends:
            raise Unsupported('no path reaches the end of the iteration')
    except (Unsupported, Restart) as u:
        rep.update(status='undecided', reason=f'outside the verifier: {u}')
    except Budget as b:
        rep.update(status='undecided', reason=f'budget: {b}')
    finally:
        if saved is None:
            d.pop('_vp_loop', None)
        else:
            d['_vp_loop'] = saved
        G._set(None)
    res = [(r.label, 'proved' if r.status == 'proved' else 'unknown', None) for r in e.results]
    rep.update(results=res, paths=e.paths, secs=time.time() - t0, solver_s=e.solver_time, queries=e.queries,
               stubs=sorted(e.stubs_used), modes={},
               loops={'BibleRange.__iter__': dict(labels=[f'{n}: {r[0]}' for n, r in walk.roles.items()],
                                                  measures=['the verses left'])})
    return rep


units.unit('BibleRange.__iter__', 'C07')(prove)
