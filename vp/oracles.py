'''Concrete oracles for the properties of lists, histories, strings, names and configuration.

Each oracle has gen(rng, tier), which yields JSON-able cases, and check(case), which runs the real code and returns
None or a message saying what is wrong. They serve as falsifier and replayer for failed obligations, and as the
bounded stand-in for the parts that are not proved (which ones is said in DESIGN.md and in the evidence).
'''
import itertools
import json
import os
import random
import string as _string
import subprocess
import sys

from . import concrete as K, contracts as C
from .concrete import guarded, set_config, shown

ORACLES = {}
FLAGS = ['NONE', 'MULTIBOOK', 'VERSE_0', 'ALL']


def oracle(prop, name):
    def deco(cls):
        ORACLES.setdefault(prop, {})[name] = cls()
        return cls
    return deco


_wcache = {}


def world(cfg):
    '''Configure the real code with cfg and return its theory.'''
    W = set_config(cfg)
    return W


def F(name):
    return None if name is None else K.B.BibleFlag[name]


def has0(name):
    return name in ('VERSE_0', 'ALL')


def hasm(name):
    return name in ('MULTIBOOK', 'ALL')


def rnd_range(W, f, rng, multi=True, near=None):
    q = W.seq[f]
    n = len(q)
    for _ in range(50):
        i = rng.randrange(n) if near is None else min(n - 1, max(0, near + rng.randint(-6, 6)))
        j = min(n - 1, i + rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9]))
        if multi or q[i][0] == q[j][0]:
            return [list(q[i]), list(q[j])]
    return [list(q[0]), list(q[0])]


def rnd_groups(W, f, rng, maxlen, multi=True, minlen=0):
    n = rng.randint(minlen, maxlen)
    groups = []
    near = None
    for _ in range(n):
        r = rnd_range(W, f, rng, multi, near if rng.random() < .5 else None)
        near = W.pos[f][tuple(r[0])]
        if groups and rng.random() < .6:
            groups[-1].append(r)
        else:
            groups.append([r])
    return groups


def mklist(W, groups):
    '''A BibleRangeList with the given groups.'''
    return K.B.BibleRangeList([[W.mkr(tuple(s), tuple(e)) for s, e in g] for g in groups])


def enc(W, L):
    '''The groups of a list, as triples. Uses the public interface only.'''
    return [[[list(W.t(r.start)), list(W.t(r.end))] for r in g] for g in L.groups]


def pos_set(W, f, rs):
    out = set()
    for s, e in rs:
        a, b = W.pos[f].get(tuple(s)), W.pos[f].get(tuple(e))
        if a is None or b is None:
            return None
        out.update(range(a, b + 1))
    return out


def flat(groups):
    return [r for g in groups for r in g]


def consistent(W, L, model_groups=None):
    '''The list's public observations agree with each other (and with the model): None or a message.'''
    n = len(L)
    items = []
    it = iter(L)
    for x in it:
        items.append(x)
        if len(items) > n + 5:
            return f'iteration does not end after len()={n} items'
    if len(items) != n:
        return f'len() is {n} but iteration gives {len(items)} items'
    back = list(itertools.islice(reversed(L), n + 5))
    if len(back) != n or any(x is not y for x, y in zip(back, reversed(items))):
        return 'reversed iteration differs from forward iteration'
    for i in range(n):
        if L[i] is not items[i] or L[i - n] is not items[i]:
            return f'indexing differs from iteration at {i}'
    gs = []
    for g in itertools.islice(iter(L.groups), n + 5):
        gs.append(list(itertools.islice(iter(g), n + 5)))
    if len(gs) != len(L.groups):
        return f'len(groups) is {len(L.groups)} but iteration gives {len(gs)} groups'
    if any(len(g) == 0 for g in gs):
        return 'there is an empty group'
    if [id(x) for g in gs for x in g] != [id(x) for x in items]:
        return 'the groups do not partition the list in order'
    for i in range(len(gs)):
        for j in (i, i - len(gs)):
            g = L.groups[j]
            if len(g) != len(gs[i]) or any(g[k] is not gs[i][k] for k in range(len(gs[i]))):
                return f'indexing group {j} differs from iteration'
    if L.to_nested_lists() != gs:
        return 'to_nested_lists() differs from the groups'
    if model_groups is not None and gs != model_groups:
        return f'groups are {gs}, expected {model_groups}'
    return None


# ---------------------------------------------------------------------------------------------------------------
# C01, C04 books given by name
# ---------------------------------------------------------------------------------------------------------------

def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return type(e)


class BookNames:
    bound = 'titles and abbreviations of the default Bible with chapters and verses about the ends of the book, and unknown names'

    def gen(self, rng, tier):
        W = world('default')
        for i, b in enumerate(W.books):
            if not b.title:
                continue
            last = b.max_chap_num()
            for name in (b.title, b.abbrev):
                for c, v in ((1, 1), (0, 1), (last, b.max_verse_num(last)), (last, b.max_verse_num(last) + 1), (last + 1, 1)):
                    yield dict(config='default', book=i, name=name, chap=c, verse=v)
        for name in ('Hezekiah', '', '4 John', 'Gen 1', 'NotABook'):
            yield dict(config='default', book=None, name=name, chap=1, verse=1)


@oracle('C01', 'books given by name')
class VerseByName(BookNames):
    def check(self, case):
        W = world(case['config'])
        B, c, v = K.B, case['chap'], case['verse']
        got = outcome(lambda: B.BibleVerse(case['name'], c, v))
        want = K.B.ref.InvalidReferenceError if case['book'] is None else outcome(lambda: B.BibleVerse(W.books[case['book']], c, v))
        if got != want:
            return f'BibleVerse({case["name"]!r}, {c}, {v}) gives {got!r}, expected {want!r}'


@oracle('C04', 'books given by name')
class RangeByName(BookNames):
    def check(self, case):
        W = world(case['config'])
        B, c, v = K.B, case['chap'], case['verse']
        for args in ((c, v), (c,), (c, v, None, c, v)):
            got = outcome(lambda: B.BibleRange(case['name'], *args))
            want = K.B.ref.InvalidReferenceError if case['book'] is None else outcome(lambda: B.BibleRange(W.books[case['book']], *args))
            if got != want:
                return f'BibleRange({(case["name"],) + args!r}) gives {got!r}, expected {want!r}'
        if case['book'] is None:
            got = outcome(lambda: B.BibleRange(W.books[0], 1, 1, case['name'], c, v, flags=F('ALL')))
            if got != K.B.ref.InvalidReferenceError:
                return f'a range to the unknown book {case["name"]!r} gives {got!r}'


# ---------------------------------------------------------------------------------------------------------------
# C02 hashes
# ---------------------------------------------------------------------------------------------------------------

@oracle('C02', 'hash')
class Hash:
    bound = 'verses and ranges of the small Bibles, sampled pairs'

    def gen(self, rng, tier):
        for cfg in 'AB':
            W = world(cfg)
            for t in W.seq[True]:
                yield dict(config=cfg, v=list(t))

    def check(self, case):
        W = world(case['config'])
        t = tuple(case['v'])
        a, b = W.mkv(t), W.mkv(t)
        if not (a == b and hash(a) == hash(b)):
            return 'equal verses have different hashes'
        r, s = W.mkr(t, t), W.mkr(t, t)
        if not (r == s and hash(r) == hash(s)):
            return 'equal ranges have different hashes'
        if len({a, b, W.books[t[0]], W.books[t[0]]}) != 2:
            return 'equal references are distinct in a set'


# ---------------------------------------------------------------------------------------------------------------
# C03 inverse
# ---------------------------------------------------------------------------------------------------------------

@oracle('C03', 'inverse')
class Inverse:
    bound = 'all verses and n of the small Bibles'

    def gen(self, rng, tier):
        for cfg in 'AB':
            W = world(cfg)
            for fl in FLAGS:
                for t in W.seq[has0(fl)]:
                    for n in range(len(W.seq[True]) + 1):
                        yield dict(config=cfg, flags=fl, v=list(t), n=n)

    def check(self, case):
        W = world(case['config'])
        v, fl = W.mkv(tuple(case['v'])), F(case['flags'])
        w = v.add(case['n'], flags=fl)
        if w is not None and (w.subtract(case['n'], flags=fl) != v or w.subtract(v, flags=fl) != case['n']):
            return f'{shown(v)} + {case["n"]} = {shown(w)}, but subtracting does not give it back'


# ---------------------------------------------------------------------------------------------------------------
# C07 iteration, C08 split
# ---------------------------------------------------------------------------------------------------------------

def _ranges_cases(rng, tier, default_n, flags=FLAGS):
    for cfg in K.CONFIGS:
        W = world(cfg)
        for fl in flags:
            for s, e in W.ranges(True):
                if has0(fl) or s[2] == 0 or e[2] == 0 or (s in W.pos[False] and e in W.pos[False]):
                    yield W, cfg, fl, [list(s), list(e)]
    W = world('default')
    for fl in flags:
        for s, e in K._big_ranges(W, has0(fl), rng)[:default_n]:
            yield W, 'default', fl, [list(s), list(e)]


@oracle('C07', 'iteration')
class Iteration:
    bound = 'all ranges of the small Bibles, sampled ranges of the default Bible'

    def gen(self, rng, tier):
        for W, cfg, fl, r in _ranges_cases(rng, tier, 40):
            yield dict(config=cfg, flags=fl, r=r)

    def check(self, case):
        W = world(case['config'])
        f = has0(case['flags']) or case['r'][0][2] == 0 or case['r'][1][2] == 0     # existing verse 0s are honoured
        r = W.mkr(*map(tuple, case['r']))
        K.B.flags = F(case['flags'])
        i, j = W.pos[f][tuple(case['r'][0])], W.pos[f][tuple(case['r'][1])]
        o = guarded(lambda: [W.t(v) for v in itertools.islice(iter(r), j - i + 10)])
        K.B.flags = F('NONE')
        if not o.ok or o.val != W.seq[f][i:j+1]:
            return f'iterating {shown(r)} gives {o if not o.ok else o.val[:12]}'


@oracle('C07', 'list counts')
class ListCounts:
    bound = 'sampled lists'

    def gen(self, rng, tier):
        for k in range(1000 if tier == 'quick' else 20000):
            cfg = rng.choice('ABDE')
            W = world(cfg)
            fl = rng.choice(FLAGS)
            yield dict(config=cfg, flags=fl, groups=rnd_groups(W, has0(fl), rng, 4), explicit=rng.random() < .5)

    def check(self, case):
        W = world(case['config'])
        f = has0(case['flags'])
        L = mklist(W, case['groups'])
        rs = flat(case['groups'])
        if not case['explicit']:
            K.B.flags = F(case['flags'])
        fl = F(case['flags']) if case['explicit'] else None
        try:
            n = sum(W.pos[f][tuple(e)] - W.pos[f][tuple(s)] + 1 for s, e in rs)
            if L.verse_count(flags=fl) != n:
                return f'verse_count() of {shown(L)} is {L.verse_count(flags=fl)}, expected {n}'
            for whole in (False, True):
                for name in ('chap_count', 'book_count'):
                    exp = 0
                    for s, e in rs:
                        s, e = tuple(s), tuple(e)
                        units = {}
                        for t in W.seq[f][W.pos[f][s]:W.pos[f][e]+1]:
                            u = t[:2] if name == 'chap_count' else t[:1]
                            units[u] = units.get(u, 0) + 1
                        for u, k in units.items():
                            size = sum(1 for t in W.seq[f] if t[:len(u)] == u)
                            exp += (k == size) if whole else 1
                    got = getattr(L, name)(whole=whole, flags=fl)
                    if got != exp:
                        return f'{name}(whole={whole}) of {shown(L)} is {got}, expected {exp}'
        finally:
            K.B.flags = F('NONE')


def expected_split(W, f, s, e, by_book, by_chap, n):
    i, j = W.pos[f][s], W.pos[f][e]
    out, cur = [], []
    for p in range(i, j + 1):
        cur.append(p)
        t = W.seq[f][p]
        nxt = W.seq[f][p+1] if p + 1 < len(W.seq[f]) else None
        cut = p == j or (by_book and nxt[0] != t[0]) or (by_chap and nxt[:2] != t[:2]) or (n is not None and len(cur) == n)
        if cut:
            out.append((W.seq[f][cur[0]], W.seq[f][cur[-1]]))
            cur = []
    return out


@oracle('C08', 'split')
class Split:
    bound = 'all ranges of the small Bibles x all options x limits 1..4, sampled ranges of the default Bible'

    def gen(self, rng, tier):
        for cfg in K.CONFIGS:
            W = world(cfg)
            for fl in FLAGS:
                rs = [(s, e) for s, e in W.ranges(True)
                      if has0(fl) or s[2] == 0 or e[2] == 0 or (s in W.pos[False] and e in W.pos[False])]
                for s, e in rs:
                    for by_book in (False, True):
                        for by_chap in (False, True):
                            for n in (None, 1, 2, 3, 4):
                                if tier == 'quick' and cfg in 'ADE' and rng.random() > .25:
                                    continue
                                yield dict(config=cfg, flags=fl, r=[list(s), list(e)], by_book=by_book,
                                           by_chap=by_chap, n=n)
        W = world('default')
        for fl in FLAGS:
            for s, e in K._big_ranges(W, has0(fl), rng)[:30 if tier == 'quick' else 200]:
                yield dict(config='default', flags=fl, r=[list(s), list(e)], by_book=rng.random() < .5,
                           by_chap=rng.random() < .5, n=rng.choice([None, None, 1, 2, 7, 31, 100]))
            b = rng.randrange(66)
            yield dict(config='default', flags=fl, book=b)

    def check(self, case):
        W = world(case['config'])
        f = has0(case['flags'])
        if 'book' in case:
            b = case['book']
            o = guarded(lambda: W.books[b].chap_ranges(flags=F(case['flags'])))
            exp = expected_split(W, f, W.firstb(f, b), W.lastb(f, b), False, True, None)
        else:
            s, e = map(tuple, case['r'])
            f = f or s[2] == 0 or e[2] == 0     # existing verse 0s are honoured
            r = W.mkr(s, e)
            kw = dict(by_book=case['by_book'], by_chap=case['by_chap'], num_verses=case['n'])
            o = guarded(lambda: r.split(flags=F(case['flags']), **kw))
            exp = expected_split(W, f, s, e, case['by_book'], case['by_chap'], case['n'])
        if not o.ok:
            return f'split failed: {o}'
        got = [(W.t(x.start), W.t(x.end)) for x in o.val]
        if got != exp:
            return f'pieces are {got}, expected {exp}'
        return consistent(W, o.val)


# ---------------------------------------------------------------------------------------------------------------
# C05 with lists, C09, C10: lists as sets of verses
# ---------------------------------------------------------------------------------------------------------------

def rnd_ref(W, f, rng, multi=True):
    k = rng.random()
    if k < .2:
        return ['v', *rng.choice(W.seq[f])]
    if k < .45:
        return ['r', *rnd_range(W, f, rng, multi)]
    return ['l', rnd_groups(W, f, rng, 4, multi)]


def ref_ranges(ref):
    if ref[0] == 'v':
        return [[ref[1:], ref[1:]]]
    if ref[0] == 'r':
        return [ref[1:]]
    return flat(ref[1])


def mkref(W, ref):
    if ref[0] == 'v':
        return W.mkv(tuple(ref[1:]))
    if ref[0] == 'r':
        return W.mkr(*map(tuple, ref[1:]))
    return mklist(W, ref[1])


def snap(W, x):
    if isinstance(x, K.B.BibleRangeList):
        return enc(W, x)
    return shown(x)


@oracle('C05', 'predicates with lists')
class ListPreds:
    bound = 'sampled ranges and lists of at most 4 ranges over the small Bibles'

    def gen(self, rng, tier):
        for k in range(700 if tier == 'quick' else 6000):
            cfg = rng.choice('ABDE')
            W = world(cfg)
            fl = rng.choice(FLAGS)
            f = has0(fl)
            yield dict(config=cfg, flags=fl, r=rnd_range(W, f, rng), groups=rnd_groups(W, f, rng, 4))

    def check(self, case):
        W = world(case['config'])
        fl, f, m = case['flags'], has0(case['flags']), hasm(case['flags'])
        r = W.mkr(*map(tuple, case['r']))
        L = mklist(W, case['groups'])
        rs = flat(case['groups'])
        S, T = pos_set(W, f, [case['r']]), pos_set(W, f, rs)
        K.B.flags = F(fl)
        try:
            i, j = min(S), max(S)

            def adj(x):
                a, b = W.pos[f][tuple(x[0])], W.pos[f][tuple(x[1])]
                return (b + 1 == i and (m or x[1][0] == case['r'][0][0])) or \
                       (j + 1 == a and (m or x[0][0] == case['r'][1][0]))
            exp = dict(is_disjoint=not (S & T), contains=T <= S, surrounds=all(i < p < j for p in T),
                       is_adjacent=not (S & T) and any(adj(x) for x in rs))
            for name, want in exp.items():
                o = guarded(lambda: bool(getattr(r, name)(L)))
                if not o.ok or o.val != want:
                    return f'{shown(r)}.{name}({shown(L)}) is {o}, expected {want}'
        finally:
            K.B.flags = F('NONE')


OPS = {'union': ('or', lambda a, b: a | b), 'intersection': ('and', lambda a, b: a & b),
       'difference': ('sub', lambda a, b: a - b), 'sym_difference': ('xor', lambda a, b: a ^ b)}


def canonical(W, f, m, rs):
    '''None, or why the ranges are not ascending, disjoint and non-adjacent.'''
    for s, e in rs:
        if tuple(s) not in W.pos[f] or tuple(e) not in W.pos[f] or tuple(s) > tuple(e):
            return f'{s}-{e} is not a valid range'
    for (s, e), (s2, e2) in zip(rs, rs[1:]):
        a, b = W.pos[f][tuple(e)], W.pos[f][tuple(s2)]
        if b <= a:
            return f'{s}-{e} and {s2}-{e2} overlap or are out of order'
        if b == a + 1 and (m or e[0] == s2[0]):
            return f'{s}-{e} and {s2}-{e2} are adjacent'
    return None


@oracle('C09', 'list algebra')
class ListAlgebra:
    bound = 'all lists of at most 2 short ranges of one small Bible, sampled lists of at most 6 ranges'

    def gen(self, rng, tier):
        W = world('C')
        rs = [[list(s), list(e)] for s, e in W.ranges(False)]
        small = [[]] + [[[r]] for r in rs] + [[[r, s]] for r in rs for s in rs]
        for op in OPS:
            for a in small:
                for b in small:
                    if tier != 'quick' or rng.random() < .3:
                        yield dict(config='C', flags='NONE', op=op, A=a, B=['l', b], explicit=True)
        for k in range(9000 if tier == 'quick' else 150000):
            cfg = rng.choice('ABBDDE')
            W = world(cfg)
            fl = rng.choice(FLAGS)
            f = has0(fl)
            yield dict(config=cfg, flags=fl, op=rng.choice(list(OPS)), A=rnd_groups(W, f, rng, 5),
                       B=rnd_ref(W, f, rng), explicit=rng.random() < .5)
        W = world('default')
        for k in range(60 if tier == 'quick' else 600):
            fl = rng.choice(FLAGS)
            f = has0(fl)
            yield dict(config='default', flags=fl, op=rng.choice(list(OPS)), A=rnd_groups(W, f, rng, 6),
                       B=rnd_ref(W, f, rng), explicit=True)

    def check(self, case):
        W = world(case['config'])
        fl, f, m, op = case['flags'], has0(case['flags']), hasm(case['flags']), case['op']
        A, Bx = mklist(W, case['A']), mkref(W, case['B'])
        S, T = pos_set(W, f, flat(case['A'])), pos_set(W, f, ref_ranges(case['B']))
        want = OPS[op][1](S, T)
        sa, sb = snap(W, A), snap(W, Bx)
        kw = {}
        if case['explicit']:
            kw = dict(flags=F(fl))
        else:
            K.B.flags = F(fl)

        def judge(o, what):
            if not o.ok:
                return f'{what}: {o}'
            if not isinstance(o.val, K.B.BibleRangeList):
                return f'{what} gives {o}'
            msg = consistent(W, o.val)
            if msg:
                return f'{what}: {msg}'
            rs = [[list(W.t(r.start)), list(W.t(r.end))] for r in o.val]
            got = pos_set(W, f, rs)
            if got != want:
                return f'{what} of {shown(A)} and {shown(Bx)} is {o}'
            msg = canonical(W, f, m, rs)
            if msg:
                return f'{what} of {shown(A)} and {shown(Bx)} is {o}: {msg}'
        try:
            o = guarded(lambda: getattr(A, op)(Bx, **kw))
            msg = judge(o, op)
            if msg:
                return msg
            if snap(W, A) != sa or snap(W, Bx) != sb:
                return f'{op} changed an operand'
            named = enc(W, o.val)
            if case['B'][0] == 'r':
                msg = judge(guarded(lambda: getattr(Bx, op)(A, **kw)) if op != 'difference' else o,
                            f'{op} (range with list)')
                if msg:
                    return msg
                if op == 'difference':
                    o2 = guarded(lambda: Bx.difference(A, **kw))
                    if not o2.ok or pos_set(W, f, flat(enc(W, o2.val))) != T - S:
                        return f'{shown(Bx)}.difference({shown(A)}) is {o2}'
            if not case['explicit']:
                o = guarded(lambda: OPS[op][1](A, Bx))
                msg = judge(o, f'operator for {op}')
                if msg or enc(W, o.val) != named:
                    return msg or f'the operator for {op} differs from the method'
                C = mklist(W, case['A'])

                def inplace():
                    x = C
                    if op == 'union':
                        x |= Bx
                    elif op == 'intersection':
                        x &= Bx
                    elif op == 'difference':
                        x -= Bx
                    else:
                        x ^= Bx
                    return x
                o = guarded(inplace)
                msg = judge(o, f'in-place operator for {op}')
                if msg:
                    return msg
                if o.val is not C or enc(W, C) != named:
                    return f'the in-place operator for {op} differs from the method'
            C = mklist(W, case['A'])
            o = guarded(lambda: (getattr(C, op + '_update')(Bx, **kw), C)[1])
            msg = judge(o, op + '_update')
            if msg:
                return msg
            if enc(W, C) != named:
                return f'{op}_update leaves {shown(C)}, unlike {op}'
            if snap(W, Bx) != sb:
                return f'{op}_update changed its argument'
            C = mklist(W, case['A'])
            o = guarded(lambda: (getattr(C, op + '_update')(C, **kw), C)[1])
            if not o.ok or pos_set(W, f, flat(enc(W, C))) != OPS[op][1](S, S):
                return f'{op}_update of a list with itself gives {o}'
            o = guarded(lambda: bool(A.is_disjoint(Bx)))
            if not o.ok or o.val != (not (S & T)):
                return f'{shown(A)}.is_disjoint({shown(Bx)}) is {o}'
            o = guarded(lambda: bool(A.contains(Bx, **kw)))
            if not o.ok or o.val != (T <= S):
                return f'{shown(A)}.contains({shown(Bx)}) is {o}'
            if not case['explicit']:
                o = guarded(lambda: Bx in A)
                if not o.ok or o.val != (T <= S):
                    return f'{shown(Bx)} in {shown(A)} is {o}'
            if snap(W, A) != sa or snap(W, Bx) != sb:
                return 'a predicate changed an operand'
        finally:
            K.B.flags = F('NONE')


@oracle('C10', 'sort and merge')
class SortMerge:
    bound = 'all lists of at most 3 ranges of one small Bible, sampled lists of at most 8 ranges, one list of 3,000'

    def gen(self, rng, tier):
        W = world('C')
        rs = [[list(s), list(e)] for s, e in W.ranges(False)]
        for k in (0, 1, 2, 3):
            for c in itertools.product(rs, repeat=k):
                yield dict(config='C', flags='NONE', groups=[list(c)] if c else [], explicit=True)
        for k in range(9000 if tier == 'quick' else 100000):
            cfg = rng.choice('ABBDDE')
            W = world(cfg)
            fl = rng.choice(FLAGS)
            yield dict(config=cfg, flags=fl, groups=rnd_groups(W, has0(fl), rng, 8), explicit=rng.random() < .5)
        W = world('default')
        q = W.seq[False]
        for n in (1200,) if tier == 'quick' else (3000,):
            idx = [rng.randrange(len(q)) for _ in range(n)]
            yield dict(config='default', flags='NONE', groups=[[[list(q[i]), list(q[i])] for i in idx]], explicit=True)

    def check(self, case):
        W = world(case['config'])
        fl, f, m = case['flags'], has0(case['flags']), hasm(case['flags'])
        rs = flat(case['groups'])
        kw = {}
        if case['explicit']:
            kw = dict(flags=F(fl))
        else:
            K.B.flags = F(fl)
        try:
            L = mklist(W, case['groups'])
            o = guarded(lambda: L.sort(regroup=False), 20)
            if not o.ok:
                return f'sort: {o}'
            msg = consistent(W, L) if len(rs) < 100 else None
            if msg:
                return f'after sort: {msg}'
            got = [[list(W.t(r.start)), list(W.t(r.end))] for r in L]
            if got != sorted(rs):
                return f'sorting {case["groups"]} gives {got}'
            if len(L.groups) != (1 if rs else 0):
                return f'after sorting without regrouping there are {len(L.groups)} groups'
            if len(rs) < 100:
                L = mklist(W, case['groups'])
                o = guarded(lambda: L.sort())
                if not o.ok or [[list(W.t(r.start)), list(W.t(r.end))] for r in L] != sorted(rs):
                    return f'sorting with regroup: {o}'
            L = mklist(W, case['groups'])
            o = guarded(lambda: L.merge(**kw), 20)
            if not o.ok:
                return f'merge: {o}'
            msg = consistent(W, L) if len(rs) < 100 else None
            if msg:
                return f'after merge: {msg}'
            got = [[list(W.t(r.start)), list(W.t(r.end))] for r in L]
            if pos_set(W, f, got) != pos_set(W, f, rs):
                return f'merging {case["groups"]} gives {got}: different verses'
            msg = canonical(W, f, m, got)
            if msg:
                return f'merging {case["groups"]} gives {got}: {msg}'
            L.merge(**kw)
            if [[list(W.t(r.start)), list(W.t(r.end))] for r in L] != got:
                return 'merging again changes the list'
        finally:
            K.B.flags = F('NONE')


# ---------------------------------------------------------------------------------------------------------------
# C11, C12: histories
# ---------------------------------------------------------------------------------------------------------------

class Histories:
    '''Random histories of list operations against a model: a list of groups (lists). Values are small ints for a
    plain grouped list, or ranges for a BibleRangeList.'''
    bound = 'sampled histories of at most 14 operations'
    focus = None

    def gen(self, rng, tier):
        n = 6000 if tier == 'quick' else 120000
        for k in range(n):
            kind = rng.choice(['grouped', 'ranges'])
            init = [[rng.randrange(4) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(0, 3))]
            ops = [self.rnd_op(rng) for _ in range(rng.randint(1, 14))]
            yield dict(kind=kind, init=init, ops=ops)
        # Exhaustive short histories: every operation from every small shape
        shapes = [[], [[0]], [[0, 1]], [[0], [1]], [[0, 1, 2]], [[0], [1, 2]], [[0, 1], [2]], [[0], [1], [2]],
                  [[1, 0], [2, 0], [3]]]
        for kind in ('grouped', 'ranges'):
            for sh in shapes:
                for op in self.all_ops(sum(map(len, sh)), len(sh)):
                    yield dict(kind=kind, init=sh, ops=[op])

    def all_ops(self, n, g):
        for ng in (False, True):
            yield ['append', 5, ng]
            yield ['prepend', 5, ng]
        for i in range(-n - 2, n + 2):
            yield ['pop', i]
            yield ['del', i]
            yield ['set', i, 5]
            yield ['group_at', i]
            yield ['get', i]
            if -n <= i <= n:
                yield ['insert', i, 5]
        for v in range(5):
            yield ['remove', v]
            yield ['index', v]
            yield ['count', v]
        for i in range(-g - 1, g + 1):
            yield ['getgroup', i]
            for j in range(0, 4):
                yield ['gdel', i, j]
                yield ['gset', i, j, 5]
                yield ['view', i, 'pop', j]
                yield ['view', i, 'sort', j]
                yield ['view', i, 'clear', j]
                yield ['view', i, 'reverse', j]
                yield ['view', i, 'clear_groups', j]
                yield ['view', i, 'prepend', j]
                yield ['view', i, 'popfirst', j]
        for lo in range(0, n):
            for hi in range(lo + 1, n + 1):
                for v in range(3):
                    yield ['indexin', v, lo, hi]
        yield ['pop']
        for name in ('reverse', 'sort', 'clear', 'clear_groups', 'extend_self', 'append_group_self', 'copy', 'badtype'):
            yield [name]
        yield ['extend', [5, 6]]
        yield ['extend', []]
        yield ['iadd', [5, 6]]
        yield ['append_group', [5, 6]]
        yield ['append_group', []]
        yield ['eq']
        yield ['dup']

    def rnd_op(self, rng):
        n, g = rng.randint(0, 6), rng.randint(0, 3)
        ops = list(self.all_ops(3, 2))
        op = list(rng.choice(ops))
        if rng.random() < .35:
            op = rng.choice([['append', rng.randrange(5), rng.random() < .5], ['prepend', rng.randrange(5), rng.random() < .5],
                             ['append_group', [rng.randrange(5) for _ in range(rng.randint(0, 3))]],
                             ['insert', rng.randint(-2, 6), rng.randrange(5)],
                             ['group_at', rng.randint(0, 6)], ['pop', rng.randint(-3, 6)]])
        return op

    def check(self, case):
        B = K.init()
        W = world('D')
        ranges = [W.mkr(t, t) for t in W.seq[False]]
        if case['kind'] == 'ranges':
            val = lambda i: ranges[i]
            make = lambda groups: B.BibleRangeList([[val(x) for x in g] for g in groups])
        else:
            val = lambda i: (i, 'x')      # a tuple is never a group when passed through append
            make = lambda groups: B.util.GroupedList([[val(x) for x in g] for g in groups])
        M = [[val(x) for x in g] for g in case['init']]
        o = guarded(lambda: make(case['init']))
        if not o.ok:
            return f'constructing {case["init"]}: {o}'
        L = o.val
        try:
            msg = self.observe(W, L, M)
        except Exception as e:
            msg = f'{e!r}'
        if msg:
            return f'after construction from {case["init"]}: {msg}'
        for k, op in enumerate(case['ops']):
            try:
                r = guarded(lambda: self.step(B, W, L, M, op, val, make))
                if not r.ok:
                    return f'operation {k} {op} failed: {r}'
                if r.val[0]:
                    return f'operation {k} {op}: {r.val[0]}'
                L, M = r.val[1], r.val[2]
                r = guarded(lambda: self.observe(W, L, M))
                if not r.ok or r.val:
                    return f'after operation {k} {op}: {r.val if r.ok else r}'
            except RecursionError as e:
                return f'operation {k} {op}: {e!r}'

    def observe(self, W, L, M):
        flatM = [x for g in M for x in g]
        if len(L) != len(flatM):
            return f'len() is {len(L)}, expected {len(flatM)}'
        if list(itertools.islice(iter(L), len(flatM) + 5)) != flatM:
            return f'items are {list(itertools.islice(iter(L), len(flatM) + 5))}, expected {flatM}'
        msg = consistent(W, L)
        if msg:
            return msg
        gs = [list(itertools.islice(iter(g), len(flatM) + 5)) for g in L.groups]
        if gs != M:
            return f'groups are {gs}, expected {M}'

    def step(self, B, W, L, M, op, val, make):
        '''Returns (message, list, model).'''
        GVE = B.util.GroupViewError
        n = sum(map(len, M))
        flatM = [x for g in M for x in g]

        def locate(i):
            for gi, g in enumerate(M):
                if i < len(g):
                    return gi, i
                i -= len(g)

        def norm(i):
            return i + n if i < 0 else i

        def expect(exc, fn):
            try:
                r = fn()
            except exc:
                return None
            except Exception as e:
                return f'raised {e!r}, expected {exc.__name__}'
            return f'returned {r!r}, expected {exc.__name__}'

        def remove_at(i):
            gi, j = locate(i)
            x = M[gi].pop(j)
            if not M[gi]:
                M.pop(gi)
            return x

        def insert_at(i, x):
            gi, j = locate(i)
            M[gi].insert(j, x)

        name = op[0]
        if name == 'append':
            L.append(val(op[1]), new_group=op[2])
            if op[2] or not M:
                M.append([val(op[1])])
            else:
                M[-1].append(val(op[1]))
        elif name == 'prepend':
            L.prepend(val(op[1]), new_group=op[2])
            if op[2] or not M:
                M.insert(0, [val(op[1])])
            else:
                M[0].insert(0, val(op[1]))
        elif name == 'insert':
            i, x = op[1], val(op[2])
            if not -n <= i <= n:
                return None, L, M
            L.insert(i, x)
            if n == 0:
                M.append([x])
            elif i == n:
                M[-1].append(x)
            else:
                insert_at(norm(i), x)
        elif name in ('pop', 'del'):
            i = op[1] if len(op) > 1 else -1
            fn = (lambda: L.pop(*op[1:])) if name == 'pop' else (lambda: L.__delitem__(i))
            if not -n <= i < n:
                return expect(IndexError, fn), L, M
            x = fn()
            y = remove_at(norm(i))
            if name == 'pop' and x is not y and x != y:
                return f'returned {x}, expected {y}', L, M
        elif name == 'set':
            if not -n <= op[1] < n:
                return expect(IndexError, lambda: L.__setitem__(op[1], val(op[2]))), L, M
            L[op[1]] = val(op[2])
            gi, j = locate(norm(op[1]))
            M[gi][j] = val(op[2])
        elif name == 'get':
            if not -n <= op[1] < n:
                return expect(IndexError, lambda: L[op[1]]), L, M
            if L[op[1]] != flatM[op[1]]:
                return f'is {L[op[1]]}', L, M
        elif name == 'group_at':
            if not -n <= op[1] < n:
                return expect(IndexError, lambda: L.insert_group_at(op[1])), L, M
            L.insert_group_at(op[1])
            gi, j = locate(norm(op[1]))
            if j > 0:
                M[gi:gi+1] = [M[gi][:j], M[gi][j:]]
        elif name == 'remove':
            x = val(op[1])
            if x not in flatM:
                return expect(ValueError, lambda: L.remove(x)), L, M
            L.remove(x)
            remove_at(flatM.index(x))
        elif name == 'index':
            x = val(op[1])
            if x not in flatM:
                return expect(ValueError, lambda: L.index(x)), L, M
            if L.index(x) != flatM.index(x):
                return f'is {L.index(x)}', L, M
            if L.__class__ is B.util.GroupedList and not (x in L):
                return 'in is false', L, M
        elif name == 'indexin':
            x, lo, hi = val(op[1]), op[2], op[3]
            if not 0 <= lo < hi <= n:
                return None, L, M
            if x not in flatM[lo:hi]:
                return expect(ValueError, lambda: L.index(x, lo, hi)), L, M
            if L.index(x, lo, hi) != flatM.index(x, lo, hi):
                return f'is {L.index(x, lo, hi)}', L, M
        elif name == 'count':
            x = val(op[1])
            if L.count(x) != flatM.count(x):
                return f'is {L.count(x)}', L, M
            if (x in L) != (x in flatM):
                return f'membership is {x in L}', L, M
        elif name == 'getgroup':
            if not -len(M) <= op[1] < len(M):
                return expect(IndexError, lambda: L.groups[op[1]]), L, M
            if list(L.groups[op[1]]) != M[op[1]]:
                return f'is {list(L.groups[op[1]])}', L, M
            return expect(IndexError, lambda: L.groups[op[1]][len(M[op[1]])]), L, M
        elif name in ('gdel', 'gset'):
            gi, j = op[1], op[2]
            if not -len(M) <= gi < len(M):
                return None, L, M
            fn = (lambda: L.groups[gi].__delitem__(j)) if name == 'gdel' else \
                 (lambda: L.groups[gi].__setitem__(j, val(op[3])))
            if j >= len(M[gi]):
                return expect(IndexError, fn), L, M
            fn()
            if name == 'gset':
                M[gi][j] = val(op[3])
            else:
                gi %= len(M)
                M[gi].pop(j)
                if not M[gi]:
                    M.pop(gi)
        elif name == 'view':    # Hold a view over another operation, then read and delete through it
            gi, act, j = op[1], op[2], op[3]
            if not -len(M) <= gi < len(M):
                return None, L, M
            view = L.groups[gi]
            start = sum(len(g) for g in M[:gi % len(M)])
            gone = False
            if act == 'pop':
                L.pop()
                remove_at(n - 1)
                gone = start == n - 1
            elif act == 'popfirst':
                L.pop(start)
                remove_at(start)
                gone = True     # the item that headed the view has left the list
            elif act == 'sort':
                B.util.GroupedList.sort(L)
                M = [sorted(flatM)]
            elif act == 'clear':
                L.clear()
                M = []
                gone = True
            elif act == 'reverse':
                L.reverse()
                M = [flatM[::-1]]
            elif act == 'clear_groups':
                L.clear_groups()
                M = [flatM]
            elif act == 'prepend':
                L.prepend(val(4))
                M[0].insert(0, val(4))
            try:
                got = list(itertools.islice(iter(view), n + 5))
            except GVE:
                got = None
            if gone and got is not None:
                return f'a view of a group that is gone gives {got}', L, M
            if got is not None and got not in M:
                return f'the view gives {got}, which is not a group of {M}', L, M
            try:
                del view[j]
            except GVE:
                return None, L, M
            except IndexError:
                if got is None or j < len(got):
                    return 'deleting through the view raised IndexError', L, M
                return None, L, M
            if gone:
                return 'deleting through a view of a group that is gone raised no error', L, M
            if got is None or j >= len(got):
                return 'deleting through an invalid view or index raised no error', L, M
            # Which group it was is ambiguous if equal groups exist; accept any consistent result
            res = [list(itertools.islice(iter(g), n + 5)) for g in L.groups]
            for k, g in enumerate(M):
                if g == got:
                    N = [list(x) for x in M]
                    N[k].pop(j)
                    N = [x for x in N if x]
                    if N == res:
                        return None, L, N
            return f'deleting item {j} through the view gives {res} from {M}', L, M
        elif name == 'reverse':
            L.reverse()
            M = [flatM[::-1]] if flatM else []
        elif name == 'sort':
            B.util.GroupedList.sort(L)
            M = [sorted(flatM)] if flatM else []
        elif name == 'clear':
            L.clear()
            M = []
        elif name == 'clear_groups':
            L.clear_groups()
            M = [flatM] if flatM else []
        elif name in ('extend', 'iadd', 'extend_self'):
            xs = list(flatM) if name == 'extend_self' else [val(x) for x in op[1]]
            if name == 'extend':
                L.extend(xs)
            elif name == 'extend_self':
                L.extend(L)
            else:
                K0 = L
                L += xs
                if L is not K0:
                    return '+= made another list', L, M
            if xs:
                if M:
                    M[-1].extend(xs)
                else:
                    M.append(xs)
        elif name in ('append_group', 'append_group_self'):
            xs = list(flatM) if name == 'append_group_self' else [val(x) for x in op[1]]
            L.append_group(L if name == 'append_group_self' else iter(xs))
            if xs:
                M.append(xs)
        elif name == 'copy':
            old = L
            if L.__class__ is B.util.GroupedList:
                L = B.util.GroupedList([list(g) for g in old.groups])
            else:
                L = B.BibleRangeList(old)
            if not (L == old and old == L and L.equals(old) and L.equals(list(flatM), compare_groups=False)):
                return 'the copy is not equal to the original', L, M
            if n:
                old.pop(0)
                if L == old:
                    return 'lists of different length are equal', L, M
        elif name == 'dup':     # a list of equal items in the same groups
            M = [[val(0)] * len(g) for g in M]
            L = make([])
            for g in M:
                L.append_group(g)
            return self.step(B, W, L, M, ['eq'], val, make)
        elif name == 'eq':
            other = make([])
            for g in M:
                other.append_group(g)
            if not (L == other):
                return 'is not equal to a list with the same groups', L, M
            if 1 < n <= 5:
                for cuts in itertools.product([False, True], repeat=n - 1):
                    N = [[flatM[0]]]
                    for x, cut in zip(flatM[1:], cuts):
                        if cut:
                            N.append([x])
                        else:
                            N[-1].append(x)
                    other = make([])
                    for g in N:
                        other.append_group(g)
                    if (L == other) != (N == M) or (other == L) != (N == M):
                        return f'equality with the grouping {N} is {L == other}', L, M
                other = make([])
                for g in M:
                    other.append_group(g)
            if n > 1:
                other.clear_groups()
                if len(M) > 1:
                    if L == other:
                        return 'is equal to a list with other groups', L, M
                    if not L.equals(other, compare_groups=False):
                        return 'is not equal ignoring groups', L, M
                else:
                    other.insert_group_at(n - 1)
                    if L == other:
                        return 'is equal to a list with other groups', L, M
                other.clear_groups()
                x = other.pop()
                other.append(val(7))
                if L.equals(other, compare_groups=False) and x != val(7):
                    return 'is equal to a list with another item', L, M
        elif name == 'badtype':
            if L.__class__ is not B.util.GroupedList:
                for fn in (lambda: L.append(5), lambda: L.prepend('x'), lambda: L.insert(0, None),
                           lambda: L.index(5), lambda: L.count(5), lambda: L.remove(5),
                           lambda: L.append(W.mkv(W.seq[False][0]))):
                    msg = expect(TypeError, fn)
                    if msg:
                        return msg, L, M
                if n:
                    for fn in (lambda: L.__setitem__(0, 5), lambda: L.groups[0].__setitem__(0, 5)):
                        msg = expect(TypeError, fn)
                        if msg:
                            return msg, L, M
        return None, L, M


@oracle('C11', 'histories')
class SeqHistories(Histories):
    pass


@oracle('C12', 'histories')
class GroupHistories(Histories):
    def gen(self, rng, tier):
        yield from super().gen(random.Random(rng.random()), tier)


@oracle('C12', 'regroup')
class Regroup:
    bound = 'sampled lists'

    def gen(self, rng, tier):
        for k in range(4000 if tier == 'quick' else 40000):
            cfg = rng.choice('ABDE')
            W = world(cfg)
            fl = rng.choice(FLAGS)
            yield dict(config=cfg, flags=fl, groups=rnd_groups(W, has0(fl), rng, 6))

    def check(self, case):
        W = world(case['config'])
        L = mklist(W, case['groups'])
        items = list(L)
        o = guarded(lambda: L.regroup(flags=F(case['flags'])))
        if not o.ok:
            return f'regroup: {o}'
        if [id(x) for x in L] != [id(x) for x in items]:
            return f'regroup changed the items of {case["groups"]}'
        return consistent(W, L)


# ---------------------------------------------------------------------------------------------------------------
# C13: strings round trip
# ---------------------------------------------------------------------------------------------------------------

OPT = ['abbrev', 'alt_sep', 'nospace', 'force_start_verses']


@oracle('C13', 'round trip')
class RoundTrip:
    bound = 'sampled ranges and lists of at most 5 ranges over the small Bibles and the default Bible'

    def gen(self, rng, tier):
        quick = tier == 'quick'
        for cfg in 'ABDE':
            W = world(cfg)
            for fl in FLAGS:
                f, m = has0(fl), hasm(fl)
                for t in W.seq[f]:
                    yield dict(config=cfg, flags=fl, what='verse', v=list(t), opt=[rng.random() < .5 for _ in OPT])
                rs = [r for r in W.ranges(f) if m or r[0][0] == r[1][0]]
                for s, e in rs:
                    if not quick or rng.random() < .5:
                        yield dict(config=cfg, flags=fl, what='range', r=[list(s), list(e)],
                                   opt=[rng.random() < .5 for _ in OPT])
                for k in range(500 if quick else 8000):
                    groups = []
                    book = None
                    for _ in range(rng.randint(1, 5)):
                        pool = [r for r in rs if r[0][0] == book] if book is not None and rng.random() < .7 else rs
                        s, e = rng.choice(pool or rs)
                        book = e[0]
                        if groups and rng.random() < .6:
                            groups[-1].append([list(s), list(e)])
                        else:
                            groups.append([[list(s), list(e)]])
                    yield dict(config=cfg, flags=fl, what='list', groups=groups, opt=[rng.random() < .5 for _ in OPT],
                               preserve=rng.random() < .7)
        W = world('default')
        for o in range(66):
            for opt in itertools.product([False, True], [False], [False, True], [False]):
                yield dict(config='default', flags='NONE', what='verse', v=[o, 1, 1], opt=list(opt))
        for k in range(250 if quick else 4000):
            fl = rng.choice(FLAGS)
            f, m = has0(fl), hasm(fl)
            groups = []
            i = rng.randrange(len(W.seq[f]))
            for _ in range(rng.randint(1, 4)):
                for _ in range(30):
                    o = rng.randrange(66)
                    c = rng.choice([1, W.nch(o), rng.randint(1, W.nch(o))])
                    lo = W.base(f, o, c)
                    i = rng.choice([lo, lo + 1, i, i + 3, min(len(W.seq[f]) - 1, W.cend(f, o, c))])
                    i = min(i, len(W.seq[f]) - 1)
                    t = W.seq[f][i]
                    j = rng.choice([i, i + 1, i + 5, W.cend(f, t[0], t[1]), W.bend(f, t[0]), i + 40])
                    j = max(i, min(j, len(W.seq[f]) - 1))
                    if m or W.seq[f][j][0] == t[0]:
                        break
                else:
                    j = i
                r = [list(W.seq[f][i]), list(W.seq[f][j])]
                if groups and rng.random() < .6:
                    groups[-1].append(r)
                else:
                    groups.append([r])
            yield dict(config='default', flags=fl, what='list', groups=groups, opt=[rng.random() < .5 for _ in OPT],
                       preserve=rng.random() < .7)

    def check(self, case):
        W = world(case['config'])
        fl = F(case['flags'])
        kw = dict(zip(OPT, case['opt']))
        B = K.B
        if case['what'] == 'verse':
            v = W.mkv(tuple(case['v']))
            kw.pop('force_start_verses')
            o = guarded(lambda: v.str(**kw))
            if not o.ok:
                return f'str: {o}'
            p = guarded(lambda: B.BibleVerse(o.val, flags=fl))
            # A verse that is a whole chapter or book may read back as that chapter, never as another verse
            if not p.ok or p.val != v:
                return f'{shown(v)} is {o.val!r}, which parses as {p}'
            return
        if case['what'] == 'range':
            r = W.mkr(*map(tuple, case['r']))
            o = guarded(lambda: r.str(flags=fl, **kw))
            if not o.ok:
                return f'str: {o}'
            p = guarded(lambda: B.BibleRange(o.val, flags=fl))
            if not p.ok or p.val != r:
                return f'{shown(r)} is {o.val!r}, which parses as {p}'
            if kw['nospace'] and ' ' in o.val:
                return f'{o.val!r} has spaces'
            return
        L = mklist(W, case['groups'])
        o = guarded(lambda: L.str(flags=fl, preserve_groups=case['preserve'], **kw))
        if not o.ok:
            return f'str: {o}'
        if kw['nospace'] and ' ' in o.val:
            return f'{o.val!r} has spaces'
        p = guarded(lambda: B.BibleRangeList(o.val, flags=fl))
        if not p.ok:
            return f'{shown(L)} is {o.val!r}, which parses as {p}'
        got = enc(W, p.val)
        if (got if case['preserve'] else flat(got)) != (case['groups'] if case['preserve'] else flat(case['groups'])):
            return f'{shown(L)} is {o.val!r}, which parses as {p}'


# ---------------------------------------------------------------------------------------------------------------
# C14: parsing
# ---------------------------------------------------------------------------------------------------------------

class RefError(Exception):
    pass


def reference_parse(W, toks, f, m):
    '''Independent reading of a token list: ('book', o), ('num', n), ':', '-', ',', ';'. Groups of range triples,
    or RefError.'''
    groups, cur = [], []
    book = chap = None
    verse_level = False
    i, n = 0, len(toks)

    def single():
        nonlocal i, book, chap, verse_level
        def at(k):
            return toks[k] if k < n else None
        t = at(i)
        if isinstance(t, tuple) and t[0] == 'book':
            book = t[1]
            i += 1
            one = W.nch(book) == 1
            if isinstance(at(i), tuple) and at(i)[0] == 'num':
                a = at(i)[1]
                i += 1
                if at(i) == ':':
                    if not (isinstance(at(i+1), tuple) and at(i+1)[0] == 'num'):
                        raise RefError
                    v = at(i+1)[1]
                    i += 2
                    chap, verse_level = a, True
                    return point(book, a, v)
                if one:
                    chap, verse_level = 1, True
                    return point(book, 1, a)
                chap, verse_level = a, False
                return whole(book, a)
            verse_level = False
            return W.firstb(f, book), W.lastb(f, book)
        if isinstance(t, tuple) and t[0] == 'num':
            a = t[1]
            i += 1
            if book is None:
                raise RefError
            if at(i) == ':':
                if not (isinstance(at(i+1), tuple) and at(i+1)[0] == 'num'):
                    raise RefError
                v = at(i+1)[1]
                i += 2
                chap, verse_level = a, True
                return point(book, a, v)
            if W.nch(book) == 1:
                chap = 1
                return point(book, 1, a)
            if verse_level:
                return point(book, chap, a)
            return whole(book, a)
        raise RefError

    def point(b, c, v):
        if not W.valid(f, (b, c, v)):
            raise RefError
        return (b, c, v), (b, c, v)

    def whole(b, c):
        if not W.validc(b, c):
            raise RefError
        return W.firstc(f, b, c), W.lastc(f, b, c)

    while True:
        s, e = single()
        if i < n and toks[i] == '-':
            i += 1
            _, e = single()
            if s > e:
                s, e = e, s
            if s[0] != e[0] and not m:
                raise RefError
        cur.append([list(s), list(e)])
        if i >= n:
            break
        if toks[i] not in (',', ';'):
            raise RefError
        if toks[i] == ';':
            groups.append(cur)
            cur = []
            verse_level = False
        i += 1
        if i >= n:
            break
    if cur:
        groups.append(cur)
    return groups


@oracle('C14', 'parsing')
class Parsing:
    bound = 'sampled strings, each parsed after a history of other strings'

    def gen(self, rng, tier):
        for k in range(2500 if tier == 'quick' else 30000):
            cfg = rng.choice('ABDE')
            W = world(cfg)
            n = rng.choice([1, 1, 2, 2, 3, 4])
            toks = []
            for i in range(n):
                toks += self.single(W, rng)
                if rng.random() < .35:
                    toks += ['-'] + self.single(W, rng, .75)
                if i < n - 1:
                    toks.append(rng.choice([',', ',', ';']))
            if rng.random() < .1:
                toks.append(rng.choice([',', ';']))
            if rng.random() < .12 and toks:
                toks.insert(rng.randrange(len(toks)), rng.choice([',', ';', '-', ':', ['num', 1], ['book', 0]]))
            hist = [rng.choice(['Gen 2:1', 'Jude 1', 'Song 1:1, 1', 'Gen 1; 2', 'xx', 'Gen 99', 'Joel 1:2; 2']) for _ in
                    range(rng.randint(0, 2))]
            yield dict(config=cfg, flags=rng.choice(FLAGS), toks=toks, history=hist)
        forms = ['b', 'bn', 'bnv', 'n', 'nv']

        def form(W, k):
            num = lambda: ['num', rng.choice([0, 1, 1, 1, 2, 2, 3, 4])]
            out = [['book', rng.randrange(W.N)]] if k[0] == 'b' else []
            return out + ([num()] if 'n' in k else []) + ([':', num()] if 'v' in k else [])
        for rep in range(4 if tier == 'quick' else 40):
            for a, b, c in itertools.product(forms[:3], forms, forms):
                for s1 in ',;-':
                    for s2 in ',;-':
                        if s1 == s2 == '-':
                            continue
                        cfg = rng.choice('AEDE')
                        W = world(cfg)
                        yield dict(config=cfg, flags=rng.choice(FLAGS), history=[],
                                   toks=form(W, a) + [s1] + form(W, b) + [s2] + form(W, c))
        chars = _string.ascii_letters[:8] + '0123456789 :;,.-\t\n!()éא١²'
        for k in range(400 if tier == 'quick' else 5000):
            base = rng.choice(['', 'Gen 1:2', 'Jude 3-', 'Psa 1:', 'Song of Songs 1', 'Gen 1-2:3; 4, ', '1 Cor'])
            s = base + ''.join(rng.choice(chars) for _ in range(rng.randint(0, 5)))
            if rng.random() < .3:
                i = rng.randrange(len(s) + 1)
                s = s[:i] + rng.choice(chars) + s[i:]
            yield dict(config=rng.choice('AD'), flags=rng.choice(FLAGS), text=s)
        yield dict(config='A', flags='NONE', text='Gen ' + '9' * 6000)

    def single(self, W, rng, bare=.5):
        o = rng.randrange(W.N)
        k = rng.random()
        num = lambda: ['num', rng.choice([0, 1, 1, 1, 2, 2, 3, 4])]
        if k < bare:
            return [num()] if rng.random() < .6 else [num(), ':', num()]
        r = rng.random()
        if r < .2:
            return [['book', o]]
        if r < .55:
            return [['book', o], num()]
        return [['book', o], num(), ':', num()]

    def check(self, case):
        W = world(case['config'])
        B = K.B
        fl = F(case['flags'])
        f, m = has0(case['flags']), hasm(case['flags'])
        PE = B.ref.BibleRefParsingError
        for h in case.get('history', []):
            guarded(lambda: B.BibleRangeList(h))
        if 'text' in case:
            s = case['text']
            o = guarded(lambda: B.BibleRangeList(s, flags=fl))
        else:
            toks = [tuple(t) if isinstance(t, list) else t for t in case['toks']]
            s = ''
            prev = None
            for t in toks:
                w = t if isinstance(t, str) else (W.books[t[1]].title if t[0] == 'book' else str(t[1]))
                word = not isinstance(t, str)
                if word and prev:
                    s += ' '
                s += w
                prev = word
            o = guarded(lambda: B.BibleRangeList(s, flags=fl))
            # Adjacent words would lex as one: skip those as expectations, keep the error discipline
            clean = not any(not isinstance(a, str) and not isinstance(b, str) and
                            not (a[0] == 'book' and b[0] == 'num') for a, b in zip(toks, toks[1:]))
            if clean:
                try:
                    want = reference_parse(W, toks, f, m)
                except RefError:
                    want = None
                if want is None:
                    if o.ok:
                        return f'{s!r} parses as {o}, but is not a valid reference'
                elif not o.ok or enc(W, o.val) != want:
                    return f'{s!r} (after {case.get("history")}) parses as {o}, expected {want}'
        if not o.ok:
            if o.exc != 'BibleRefParsingError':
                return f'{s[:60]!r}: {o}'
            try:
                B.BibleRangeList(s, flags=fl)
            except PE as e:
                if not (isinstance(e.start_pos, int) and isinstance(e.end_pos, int) and
                        0 <= e.start_pos <= e.end_pos <= len(s)):
                    return f'{s[:60]!r}: error position {e.start_pos}..{e.end_pos} is outside the string'
            except Exception as e:
                return f'{s[:60]!r}: parsing again raised {e!r}'
            else:
                return f'{s[:60]!r}: parsing again succeeded'
        else:
            again = guarded(lambda: B.BibleRangeList(s, flags=fl))
            if not again.ok or enc(W, again.val) != enc(W, o.val):
                return f'{s!r}: parsing again gives {again}, not {o}'


# ---------------------------------------------------------------------------------------------------------------
# C15: names
# ---------------------------------------------------------------------------------------------------------------

REF = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'reference', 'default_data.json')


def reference_data():
    with open(REF) as fh:
        return json.load(fh)


# Other name data: books without names, titles of several words with and without a number, names with punctuation
# (as in the default data, an abbreviation that is no prefix of the title is listed among the extra ones)
OTHER_NAMES = [['Gen', 'Ge', 'Genesis', 2, ['Gn', 'First. Book']], ['Psa', 'Ps', 'Psalms', 6, ['Ps']],
               ['Song', 'Sg', 'Song of Songs', 4, ['Sg']],
               ['Matt', 'St.M', 'St. Matthew', 5, ['Mat Thew', 'St.M', 'M*t', 'M+']],
               ['ISam', '1S', '1 Book of Samuel', 9, ['1S']], ['IJn', '1J', '1 John', 1, ['First John', '1st John']],
               ['IIIJn', '3J', '3 John', 2, ['(3) J', '3?J', '3J']],
               ['Rev', 'Apoc', 'Apocalypse', 1, ['a|b', 'The [Last]']]]


def name_data(which):
    return reference_data()['names'] if which == 'default' else OTHER_NAMES


def assign_names(which):
    world('default')
    if which == 'default':
        if K.B.bible_data().name_data is not K.B.data.default_name_data:
            K.B.bible_data().name_data = K.B.data.default_name_data
    else:
        K.B.bible_data().name_data = {K.B.BibleBook[n]: (a, t, m, e) for n, a, t, m, e in OTHER_NAMES}


@oracle('C15', 'names')
class Names:
    bound = 'every title, abbreviation, title prefix and numeral form, sampled case/space variants and near misses'

    def gen(self, rng, tier):
        for data in ('default', 'other'):
            for case in self.texts(rng, name_data(data)):
                yield dict(case, data=data)

    def texts(self, rng, names):
        for o, (name, abbrev, title, minc, extra) in enumerate(names):
            nums = {'1 ': ('1', '1 ', 'I '), '2 ': ('2', '2 ', 'II '), '3 ': ('3', '3 ', 'III ')}.get(title[:2], ('',))
            stem = title[2:] if title[:2] in ('1 ', '2 ', '3 ') else title
            forms = {abbrev, title} | set(extra) | {x.replace(' ', '') for x in extra}
            for k in range(minc, len(stem) + 1):
                for p in nums:
                    forms.add(p + stem[:k])
            for s in sorted(forms):
                if s.strip() != s:
                    continue
                variants = {s, s.upper(), s.lower(), ''.join(rng.choice([c.upper(), c.lower()]) for c in s),
                            '  ' + s + '\t', s.replace(' ', '   ')}
                for v in sorted(variants):
                    yield dict(text=v, book=name)
            for k in range(1, minc):
                if (nums[0] + stem[:k]).lower() not in {x.lower() for x in forms}:
                    yield dict(text=nums[0] + stem[:k], notbook=name)
            for s in [x.replace(c, 'x', 1) for x in [title, abbrev, *extra] for c in x if not c.isalnum() and c != ' ']:
                yield dict(text=s, book=None)
            for s in (title + 'x', 'x' + title, title + ' 1', title[:-1] + '#', '4 ' + stem, ''):
                yield dict(text=s, book=None)

    def check(self, case):
        try:
            assign_names(case['data'])
            return self.check1(case)
        finally:
            assign_names('default')

    def check1(self, case):
        BB = K.B.BibleBook
        o = guarded(lambda: BB.from_str(case['text']))
        if not o.ok:
            return f'{case["text"]!r}: {o}'
        got = None if o.val is None else o.val.name
        if 'notbook' in case:
            return f'{case["text"]!r} is recognised as {got}' if got == case['notbook'] else None
        if got != case['book']:
            return f'{case["text"]!r} is recognised as {got}, expected {case["book"]}'
        if got is not None:
            hits = [b.name for b in BB if b.regex is not None and b.regex.fullmatch(case['text'].strip())]
            if hits != [got]:
                return f'{case["text"]!r} names {hits}'
        else:
            o = guarded(lambda: BB.from_str(case['text'], raise_error=True))
            if o.exc != 'InvalidReferenceError':
                return f'{case["text"]!r} with raise_error: {o}'


# ---------------------------------------------------------------------------------------------------------------
# C16: flags
# ---------------------------------------------------------------------------------------------------------------

LIST_OPS = {
    'union': lambda L, x, fl: L.union(x, flags=fl), 'intersection': lambda L, x, fl: L.intersection(x, flags=fl),
    'difference': lambda L, x, fl: L.difference(x, flags=fl),
    'sym_difference': lambda L, x, fl: L.sym_difference(x, flags=fl),
    'union_update': lambda L, x, fl: (L.union_update(x, flags=fl), L)[1],
    'intersection_update': lambda L, x, fl: (L.intersection_update(x, flags=fl), L)[1],
    'difference_update': lambda L, x, fl: (L.difference_update(x, flags=fl), L)[1],
    'sym_difference_update': lambda L, x, fl: (L.sym_difference_update(x, flags=fl), L)[1],
    'contains': lambda L, x, fl: L.contains(x, flags=fl),
    'merge': lambda L, x, fl: (L.merge(flags=fl), L)[1],
    'regroup': lambda L, x, fl: (L.regroup(flags=fl), L)[1],
    'str': lambda L, x, fl: L.str(flags=fl),
    'str2': lambda L, x, fl: L.str(flags=fl, preserve_groups=False, force_start_verses=True),
    'range str': lambda L, x, fl: [r.str(flags=fl) for r in L],
    'range str2': lambda L, x, fl: [r.str(flags=fl, force_start_verses=True) for r in L],
    'verse_count': lambda L, x, fl: L.verse_count(flags=fl),
    'chap_count': lambda L, x, fl: [L.chap_count(whole=w, flags=fl) for w in (False, True)],
    'book_count': lambda L, x, fl: [L.book_count(whole=w, flags=fl) for w in (False, True)],
    'chap_range': lambda L, x, fl: L.chap_range(flags=fl), 'book_range': lambda L, x, fl: L.book_range(flags=fl),
    'split': lambda L, x, fl: [enc(W0[0], r.split(by_chap=True, num_verses=2, flags=fl)) for r in L],
    'range verse_count': lambda L, x, fl: [r.verse_count(flags=fl) for r in L],
    'range chap_count': lambda L, x, fl: [r.chap_count(whole=True, flags=fl) for r in L],
    'is_adjacent': lambda L, x, fl: [r.is_adjacent(x, flags=fl) for r in L],
    'range ops': lambda L, x, fl: [[enc(W0[0], getattr(r, op)(x, flags=fl)) for op in OPS] for r in L],
    'subtract': lambda L, x, fl: [str(L[0].start.subtract(r.end, flags=fl)) for r in L],
    'book': lambda L, x, fl: [enc(W0[0], L[0].start.book.chap_ranges(flags=fl)), L[0].start.book.verse_count(flags=fl)],
}
W0 = [None]


@oracle('C16', 'non-interference')
class Flags:
    bound = 'sampled lists of at most 4 ranges x every operation with a flags argument x all pairs of flags'

    def gen(self, rng, tier):
        for k in range(120 if tier == 'quick' else 2000):
            for op in LIST_OPS:
                cfg = rng.choice('ABDE')
                W = world(cfg)
                fl = rng.choice(FLAGS)
                f = has0(fl)
                yield dict(config=cfg, flags=fl, op=op, A=rnd_groups(W, f, rng, 4, minlen=1), B=rnd_ref(W, f, rng))
        for k in range(1000 if tier == 'quick' else 20000):
            cfg = rng.choice('AB')
            yield dict(config=cfg, flags=rng.choice(FLAGS), op='parse',
                       text=rng.choice(['Gen 2:0', 'Gen-Obad', 'Gen 1:1-Psa 2', 'Gen 2', 'Psa', 'Psa 1:0-3:1', 'Jude 0',
                                        'Gen 1:0', 'Gen 2:0-1', 'Jude-Gen', 'Psa 3-Obad 1']))

    def outcome(self, W, case, flags, glob):
        W0[0] = W
        K.B.flags = F(glob)
        try:
            if case['op'] == 'parse':
                o = guarded(lambda: K.B.BibleRangeList(case['text'], flags=F(flags)))
            else:
                L, x = mklist(W, case['A']), mkref(W, case['B'])
                o = guarded(lambda: LIST_OPS[case['op']](L, x, F(flags)))
        finally:
            K.B.flags = F('NONE')
        if not o.ok:
            return o.exc
        return json.dumps(enc(W, o.val)) if isinstance(o.val, K.B.BibleRangeList) else shown(o.val)

    def check(self, case):
        W = world(case['config'])
        fl = case['flags']
        want = self.outcome(W, case, fl, fl)
        for g in FLAGS:
            got = self.outcome(W, case, fl, g)
            if got != want:
                return f'{case["op"]} with flags {fl}: {want} when the global flags are {fl}, but {got} when they are {g}'
        got = self.outcome(W, case, None, fl)
        if got != want:
            return f'{case["op"]} with global flags {fl}: {got}, but {want} with the same flags as argument'


# ---------------------------------------------------------------------------------------------------------------
# C17, C18: lists
# ---------------------------------------------------------------------------------------------------------------

@oracle('C17', 'list conversion')
class ListConv:
    bound = 'sampled lists'

    def gen(self, rng, tier):
        for k in range(3000 if tier == 'quick' else 30000):
            cfg = rng.choice('ABDE')
            W = world(cfg)
            yield dict(config=cfg, flags=rng.choice(FLAGS), groups=rnd_groups(W, True, rng, 5))

    def check(self, case):
        W = world(case['config'])
        K.B.flags = F(case['flags'])
        try:
            for name in ('verse_0_to_1', 'verse_1_to_0'):
                L = mklist(W, case['groups'])
                o = guarded(lambda: getattr(L, name)())
                if not o.ok or o.val is not None:
                    return f'{name}: {o}'

                def conv(t):
                    b, c, v = t
                    if name == 'verse_0_to_1':
                        return [b, c, 1 if v == 0 else v]
                    return [b, c, 0 if v == 1 and W.hasz(b, c) else v]
                want = [[[conv(s), conv(e)] for s, e in g] for g in case['groups']]
                if enc(W, L) != want:
                    return f'{name} of {case["groups"]} gives {enc(W, L)}'
                msg = consistent(W, L)
                if msg:
                    return msg
        finally:
            K.B.flags = F('NONE')


@oracle('C18', 'covering ranges of lists')
class Covering:
    bound = 'all lists of at most 2 ranges of one small Bible, sampled lists'

    def gen(self, rng, tier):
        W = world('B')
        rs = [[list(s), list(e)] for s, e in W.ranges(False)]
        for c in itertools.product(rs, repeat=2):
            yield dict(config='B', flags='NONE', groups=[list(c)])
        for k in range(5000 if tier == 'quick' else 50000):
            cfg = rng.choice('ABDE')
            W = world(cfg)
            fl = rng.choice(FLAGS)
            yield dict(config=cfg, flags=fl, groups=rnd_groups(W, has0(fl), rng, 5, minlen=1))

    def check(self, case):
        W = world(case['config'])
        f, fl = has0(case['flags']), F(case['flags'])
        L = mklist(W, case['groups'])
        rs = flat(case['groups'])
        s, e = min(tuple(r[0]) for r in rs), max(tuple(r[1]) for r in rs)
        want = {'range': (s, e), 'chap_range': (W.firstc(f, s[0], s[1]), W.lastc(f, e[0], e[1])),
                'book_range': (W.firstb(f, s[0]), W.lastb(f, e[0]))}
        for name, (a, b) in want.items():
            o = guarded(lambda: L.range() if name == 'range' else getattr(L, name)(flags=fl))
            if not o.ok or (W.t(o.val.start), W.t(o.val.end)) != (a, b):
                return f'{name} of {case["groups"]} is {o}, expected {a}-{b}'
        if enc(W, L) != case['groups']:
            return 'the list was changed'


# ---------------------------------------------------------------------------------------------------------------
# C19: configuration
# ---------------------------------------------------------------------------------------------------------------

def fails_afresh(rec):
    '''Does the contract fail in a new process, too?'''
    code = 'import json, sys; from vp import concrete; r = concrete.replay_contract(json.load(sys.stdin)); ' \
           'sys.exit(3 if r and r[0] else 0)'
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], input=json.dumps(rec), text=True,
                       cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True)
    return p.returncode != 0


@oracle('C19', 'configuration')
class Config:
    bound = 'the default data exactly; sampled sequences of assignments'

    def gen(self, rng, tier):
        yield dict(default=True)
        for k in range(60 if tier == 'quick' else 600):
            yield dict(seed=rng.randrange(10**9), steps=rng.randint(1, 5))

    def check_default(self):
        W = set_config('default', force=True)
        ref = reference_data()
        B = K.B
        got = [b.name for b in B.bible_data().book_order]
        if got != [n[0] for n in ref['names']]:
            return 'the default book order differs from the canon'
        for o, (name, abbrev, title, minc, extra) in enumerate(ref['names']):
            b = B.BibleBook[name]
            if b.order != o or (b.abbrev, b.title) != (abbrev, title):
                return f'{name}: order/abbrev/title are {b.order}, {b.abbrev}, {b.title}'
            got = [b.max_verse_num(c) for c in range(1, b.max_chap_num() + 1)]
            if got != ref['max_verses'][o]:
                return f'{name}: last verses are {got}'
            z = [c for c in range(1, b.max_chap_num() + 1)
                 if b.min_verse_num(c, flags=B.BibleFlag.VERSE_0) == 0]
            if z != ref['verse_0s'].get(name, []):
                return f'{name}: chapters with a verse 0 are {z}'
        if sum(b.chap_count() for b in B.BibleBook) != 1189:
            return 'there are not 1,189 chapters'
        d = B.bible_data()
        if (d.range_sep, d.major_list_sep, d.minor_list_sep, d.verse_sep_std, d.verse_sep_alt) != ('-', ';', ',', ':', '.'):
            return 'the default separators have changed'
        if B.flags != B.BibleFlag.NONE:
            return 'the default global flags are not NONE'

    def operations(self, rng):
        '''Operations follow the Bible of the moment: contracts of all operations after assigning one Bible after another.'''
        cons = [c for c in C.REGISTRY.values() if set(c.props) & {'C01', 'C02', 'C03', 'C05', 'C07', 'C18'} and
                not any('list' in k for _, k in c.params)]
        for _ in range(3):
            bible = []
            for _ in range(rng.randint(1, 4)):
                mx = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
                bible.append([mx, rng.sample(range(1, len(mx) + 1), rng.randint(0, len(mx)))])
            W = set_config(bible, force=True)
            for con in cons:
                for flags, glob, args in itertools.islice(K.contract_cases(W, con, rng, 4, False), 24):
                    r = K.eval_case(W, con, flags, glob, args)
                    if r and r[0]:
                        rec = K.record(W, con, bible, flags, glob, args, *r)
                        if not fails_afresh(rec):
                            return f'after assigning the Bible {bible}: {con.name} {rec["readable"]}: ' \
                                   f'{rec["failed_clauses"]}, which holds if this Bible is the first one'
                        return None             # (not a matter of what was assigned before)
        return None

    def check(self, case):
        B = K.init()
        if case.get('default'):
            return self.check_default()
        rng = random.Random(case['seed'])
        d, BB, D = B.bible_data(), B.BibleBook, B.data
        books = list(BB)
        names0 = dict(d.name_data)
        try:
            for _ in range(case['steps']):
                k = rng.randrange(6)
                sub = rng.sample(books, rng.randint(1, 6))
                if k == 0:
                    d.book_order = list(sub)
                    if d.book_order != sub:
                        return 'book_order does not read back'
                    for b in books:
                        if b.order != (sub.index(b) if b in sub else None):
                            return f'order of {b.name} is {b.order} after assigning {[x.name for x in sub]}'
                    for i, b in enumerate(sub):
                        if b.next() is not (sub[i+1] if i + 1 < len(sub) else None) or \
                           b.prev() is not (sub[i-1] if i else None):
                            return f'neighbours of {b.name} are wrong after assigning the order'
                    for b in books:
                        if b not in sub and (b.next() is not None or b.prev() is not None):
                            return f'{b.name} is not in the order but has neighbours'
                elif k == 1:
                    mx = {b: [rng.randint(1, 5) for _ in range(rng.randint(1, 3))] for b in sub}
                    d.max_verses = mx
                    for b in books:
                        if b in mx:
                            if b.max_chap_num() != len(mx[b]) or b.chap_count() != len(mx[b]) or \
                               [b.max_verse_num(c+1) for c in range(len(mx[b]))] != mx[b]:
                                return f'verse counts of {b.name} are wrong after assigning them'
                        elif b.max_chap_num() != 0:
                            return f'{b.name} has {b.max_chap_num()} chapters but none were assigned'
                elif k == 2:
                    d.max_verses = {b: [2, 2, 2] for b in books}
                    zs = {b: set(rng.sample([1, 2, 3], rng.randint(1, 3))) for b in sub}
                    d.verse_0s = zs
                    for b in books:
                        for c in (1, 2, 3):
                            if b.min_verse_num(c, flags=B.BibleFlag.VERSE_0) != (0 if c in zs.get(b, ()) else 1):
                                return f'verse 0 of {b.name} {c} is wrong after assigning them'
                elif k == 3:
                    nd = {b: ('T' + b.abbrev if b.abbrev else 'Tx', 'Title ' + b.name, 8, []) for b in sub}
                    d.name_data = nd
                    for b in books:
                        if b in nd:
                            if (b.abbrev, b.title) != nd[b][:2]:
                                return f'names of {b.name} are wrong after assigning them'
                            if BB.from_str(nd[b][1]) is None:
                                return f'{nd[b][1]!r} is not recognised after assigning it'
                        elif b.abbrev is not None or b.title is not None or b.regex is not None:
                            return f'{b.name} has names but none were assigned'
                    d.name_data = names0
                elif k == 5:
                    bad = self.operations(rng)
                    if bad:
                        return bad
                else:
                    seps = rng.sample(['~', '/', '|', '=', '_'][:4] + ['-', ';', ',', ':', '.'], 5)
                    set_config('A', force=True)
                    B.BibleRangeList('Gen 1')       # (there is a parser already)
                    todo = list(zip(('range_sep', 'major_list_sep', 'minor_list_sep', 'verse_sep_std', 'verse_sep_alt'),
                                    seps))
                    rng.shuffle(todo)
                    for n, x in todo:
                        setattr(d, n, x)
                    r, M, m, v, w = seps
                    s = f'Gen 1{v}1{r}2{w}1{m} 3{M} Obad 2'
                    o = guarded(lambda: B.BibleRangeList(s))
                    W = set_config('A', force=True)
                    if not o.ok or enc(W, o.val) != [[[[0, 1, 1], [0, 2, 1]], [[0, 2, 3], [0, 2, 3]]],
                                                     [[[1, 1, 2], [1, 1, 2]]]]:
                        return f'with separators {seps}, {s!r} parses as {o}'
                    texts = [(o.val.str(), o.val.str(alt_sep=True), o.val.str(nospace=True))]
                    d.range_sep, d.major_list_sep, d.minor_list_sep, d.verse_sep_std, d.verse_sep_alt = '-;,:.'
                    texts.append((o.val.str(), o.val.str(alt_sep=True), o.val.str(nospace=True)))
                    for got, std in zip(*texts):
                        if got != std.translate(dict(zip(map(ord, '-;,:.'), seps))):
                            return f'with separators {seps}, the string is {got!r}, with the default ones {std!r}'
        finally:
            d.range_sep, d.major_list_sep, d.minor_list_sep, d.verse_sep_std, d.verse_sep_alt = '-;,:.'
            d.name_data = D.default_name_data
            set_config('default', force=True)
        return self.check_default()
