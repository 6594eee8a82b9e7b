'''Strings as sequences of pieces, and parsing by the real grammar.

A string is a sequence of pieces: literal text, the decimal of a symbolic number, the name of a symbolic book, one of
the configured separators. Formatting, concatenation, strip() and replace(' ', '') work on the pieces.

Parsing a string of pieces: a representative is rendered (numbers and book names of the default data in the place of the
symbolic ones, default separators) and given to the Lark parser that the repository's own unchanged parser module makes.
The tree's tokens must then be exactly the pieces, for each of several representatives, with the same tree; the tokens
are replaced by the pieces and the tree is given to the transformer under verification. What is assumed is that the
tree depends on the kinds of the tokens and not on which book or number they are (checked within bounds: C13, C14).
'''
import importlib
import sys

from . import engine as G, symex as S
from .engine import SymInt, SymBool, Unsupported
from .spec import And, Or, Not, eqt

SEPS = ('range_sep', 'major_list_sep', 'minor_list_sep', 'verse_sep_std', 'verse_sep_alt')
TEXT = dict(range_sep='-', major_list_sep=';', minor_list_sep=',', verse_sep_std=':', verse_sep_alt='.')
ON = [False]


class Piece:
    __slots__ = ('kind', 'val', 'extra')

    def __init__(self, kind, val, extra=None):
        self.kind, self.val, self.extra = kind, val, extra

    def same(self, o):
        if self.kind != o.kind:
            return None
        if self.kind in ('sep', 'lit'):
            return self.val == o.val
        if self.kind == 'num':
            return self.val == o.val
        return None

    def __repr__(self):
        return f'{self.kind}:{self.val!r}{self.extra or ""}'


def pieces(x):
    if isinstance(x, SymStr):
        return x.ps
    if isinstance(x, SymToken):
        return (x.piece,)
    if isinstance(x, str):
        return (Piece('lit', x),) if x else ()
    raise Unsupported(f'{type(x).__name__} in a string')


class SymStr:
    def __init__(self, ps):
        out = []
        for p in ps:
            if p.kind == 'lit' and not p.val:
                continue
            if p.kind == 'lit' and out and out[-1].kind == 'lit':
                out[-1] = Piece('lit', out[-1].val + p.val)
            else:
                out.append(p)
        self.ps = tuple(out)

    @staticmethod
    def join(*xs):
        ps = [p for x in xs for p in pieces(x)]
        if all(p.kind == 'lit' for p in ps):
            return ''.join(p.val for p in ps)
        return SymStr(ps)

    def __add__(self, o):
        return SymStr.join(self, o)

    def __radd__(self, o):
        return SymStr.join(o, self)

    def _ends(self, left, right, chars):
        if chars is not None:
            raise Unsupported('strip(chars)')
        ps = list(self.ps)
        if left and ps and ps[0].kind == 'lit':
            ps[0] = Piece('lit', ps[0].val.lstrip())
        if right and ps and ps[-1].kind == 'lit':
            ps[-1] = Piece('lit', ps[-1].val.rstrip())
        return SymStr(ps)

    def strip(self, chars=None):
        return self._ends(True, True, chars)

    def lstrip(self, chars=None):
        return self._ends(True, False, chars)

    def rstrip(self, chars=None):
        return self._ends(False, True, chars)

    def replace(self, a, b, n=-1):
        if a != ' ' or b != '' or n != -1:
            raise Unsupported('replace')
        ps = []
        for p in self.ps:
            if p.kind == 'lit':
                p = Piece('lit', p.val.replace(' ', ''))
            elif p.kind == 'name':
                p = Piece('name', p.val, (p.extra[0], True))
            elif p.kind == 'prefix':
                p = Piece('prefix', p.val, True)
            ps.append(p)
        return SymStr(ps)

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        a, b = self.ps, pieces(o)
        solid = ('sep', 'num', 'name')
        if not b or not a:
            if any(p.kind in solid for p in a or b):
                return False
            raise Unsupported('comparison of strings')
        if len(a) == len(b) == 1 and a[0].kind == b[0].kind == 'sep':
            return a[0].val == b[0].val
        raise Unsupported('comparison of strings')

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        raise Unsupported('hash of a string')

    def __bool__(self):
        return any(p.kind in ('sep', 'num', 'name') or p.kind == 'lit' for p in self.ps)

    def sym_len(self):
        return len(render(self, 0)[0])

    def __len__(self):
        return len(render(self, 0)[0])

    def __getitem__(self, i):
        return '<text>'

    def __str__(self):
        return '<text>'
    __repr__ = __str__

    def __format__(self, spec):
        return '<text>'

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'string method {k}')

    @staticmethod
    def format_join(*parts):
        return SymStr.join(*parts)


class SymToken:
    pass


def num(n):
    return SymStr([Piece('num', n)])


def tostr(x=''):
    '''str(x)'''
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymToken):
        return SymStr([x.piece])
    if ON[0]:
        if isinstance(x, SymInt) or type(x) is int:
            return num(x)
        if type(x).__module__ == 'bibleref.ref' and not isinstance(x, Exception) and hasattr(type(x), 'str'):
            return type(x).__str__(x)
    return str(x)


def fmt(*parts):
    '''An f-string without conversions and format specifications.'''
    if not ON[0]:
        return ''.join(p if type(p) is str else format(p) for p in parts)
    out = []
    for p in parts:
        if isinstance(p, (SymInt, SymStr, SymToken)) or type(p) in (str, int) or hasattr(type(p), 'str'):
            out.append(tostr(p))
        else:
            out.append(format(p))
    return SymStr.join(*out)


def join(sep, xs):
    '''sep.join(xs)'''
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return SymStr.join(*out)


def book_name(book, kind):
    return SymStr([Piece('name', book, (kind, False))])


# ---------------------------------------------------------------------------------------------------------------
# Parsing
# ---------------------------------------------------------------------------------------------------------------

# (title, abbreviation) and numbers of the representatives
REPS = [([('Genesis', 'Gen'), ('2 Samuel', '2Sam')], [7, 23, 5, 119, 42]),
        ([('Song of Songs', 'Song'), ('Jude', 'Jude')], [150, 0, 3, 1, 88]),
        ([('1 John', '1Jn'), ('Obadiah', 'Obad')], [1, 11, 111, 2, 20])]


PREFIX = ['Jude 5', 'Genesis 1:1; Ruth', 'Obadiah, 2 Samuel 3-5:1']


def render(s, k):
    names, nums = REPS[k % len(REPS)]
    text, spans, i, j = '', [], 0, 0
    for p in pieces(s):
        if p.kind == 'lit':
            t = p.val
        elif p.kind == 'sep':
            t = TEXT[p.val]
        elif p.kind == 'num':
            t = str(nums[i % len(nums)])
            i += 1
        elif p.kind == 'prefix' and not spans:
            t = PREFIX[k % len(PREFIX)]
        elif p.kind == 'name':
            t = names[j % len(names)][0 if p.extra[0] == 'title' else 1]
            if p.extra[1]:
                t = t.replace(' ', '')
            j += 1
        else:
            raise Unsupported('parsing of a string whose beginning is not known')
        spans.append((len(text), len(text) + len(t), p))
        text += t
    return text, spans


_real = []


def real_parser():
    '''The Lark object made by the repository's parser module, unchanged and with the default data.'''
    if not _real:
        saved = {k: v for k, v in sys.modules.items() if k == 'bibleref' or k.startswith('bibleref.')}
        for k in saved:
            del sys.modules[k]
        path = S.SRC.rsplit('/', 1)[0]
        sys.path.insert(0, path)
        try:
            mod = importlib.import_module('bibleref.parser')
            _real.append(mod._parser())
        except AttributeError as ex:
            raise Unsupported(f'the parser: {ex}')
        finally:
            sys.path.remove(path)
            for k in [k for k in sys.modules if k == 'bibleref' or k.startswith('bibleref.')]:
                del sys.modules[k]
            sys.modules.update(saved)
    return _real[0]


_cls = []


def token_class():
    if not _cls:
        from lark import Token

        class Tok(Token, SymToken):
            pass
        _cls.append(Tok)
    return _cls[0]


_cache = {}


def shape(s):
    return tuple((p.kind, p.val if p.kind in ('lit', 'sep') else p.extra if p.kind == 'name' else None)
                 for p in pieces(s))


def skeleton(s, k):
    '''The tree of a representative, its tokens replaced by the indices of the pieces; or the exception.'''
    from lark import Tree, Token, UnexpectedInput
    text, spans = render(s, k)
    at = {(a, b): i for i, (a, b, p) in enumerate(spans) if p.kind != 'lit'}
    try:
        tree = real_parser().parse(text)
    except UnexpectedInput as ex:
        return ex

    def conv(x):
        if isinstance(x, Tree):
            return ('tree', str(x.data), tuple(conv(c) for c in x.children))
        if not isinstance(x, Token):
            raise Unsupported('a parse tree with other leaves')
        i = at.get((x.start_pos, x.end_pos))
        if i is None:
            return ('other', x.type, str(x))
        return ('token', x.type, i)
    if pieces(s)[0].kind == 'prefix':
        # the children that are not of the unknown beginning
        n = spans[0][1]
        ch = [c for c in tree.children if (c.start_pos if isinstance(c, Token) else c.meta.start_pos) >= n]
        if len(real_parser().parse(PREFIX[k % len(PREFIX)]).children) + len(ch) != len(tree.children):
            raise Unsupported('the tree of a longer string is not that of its beginning and more')
        return ('tree', str(tree.data), (('dummy',),) + tuple(conv(c) for c in ch))
    return conv(tree)


class Parser:
    '''In the place of the Lark object of the parser module.'''

    def parse(self, s, *a, **kw):
        from lark import Tree
        from lark.tree import Meta
        if a or kw:
            raise Unsupported('parse() with options')
        if not isinstance(s, SymStr):
            raise Unsupported('parsing of a concrete string')
        key = shape(s)
        if key not in _cache:
            sk = [skeleton(s, k) for k in range(len(REPS))]
            if any(isinstance(x, Exception) for x in sk):
                if not all(isinstance(x, Exception) for x in sk):
                    raise Unsupported('only some strings of this form parse')
                _cache[key] = sk[0]
            else:
                if any(x != sk[0] for x in sk):
                    raise Unsupported('the parse tree depends on the names or numbers')
                if 'other' in repr(sk[0]):
                    raise Unsupported('the tokens are not the pieces of the string')
                _cache[key] = sk[0]
        sk = _cache[key]
        if isinstance(sk, Exception):
            raise sk
        ps = pieces(s)
        Tok = token_class()
        _, spans = render(s, 0)

        def build(x):
            if x[0] == 'dummy':
                from .textloop import DUMMY
                return DUMMY
            if x[0] == 'tree':
                ch = [build(c) for c in x[2]]
                m = Meta()
                m.empty = False
                m.start_pos, m.end_pos = 0, 1
                return Tree(x[1], ch, m)
            a, b, p = spans[x[2]]
            t = Tok(x[1], 'token', start_pos=a, end_pos=b)
            t.piece = p
            return t
        return build(sk)


def from_str(book_cls, string, raise_error=False):
    '''BibleBook.from_str() of a book's title or abbreviation, with or without its spaces (C15).'''
    if isinstance(string, SymStr):
        ps = string.strip().ps
        if len(ps) == 1 and ps[0].kind == 'name':
            return ps[0].val
        raise Unsupported('the book named by a string')
    return NotImplemented


def text(*xs):
    '''The text made of books (their titles), numbers and literals.'''
    back = {v: k for k, v in TEXT.items()}
    out = []
    for x in xs:
        if isinstance(x, S.SymBook):
            out.append(book_name(x, 'title'))
        elif x in back if isinstance(x, str) else False:
            out.append(SymStr([Piece('sep', back[x])]))
        else:
            out.append(x if isinstance(x, str) else num(x))
    return SymStr.join(*out)
