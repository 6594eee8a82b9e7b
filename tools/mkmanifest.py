'''Regenerates MANIFEST.json. Levels and notes per property.'''
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: contracts on the real functions, obligations by path-complete symbolic ' \
       'execution of the code in /repo with inferred and checked loop invariants, discharged by z3 and cvc5'
BASE = 'All obligations are discharged for every configured Bible, every flag setting and every argument; loops by ' \
       'invariants, callees by their contracts, which are verified too. Trusted: vp.transform, vp.engine, vp.symex, ' \
       'vp.invariants, z3/cvc5. Assumed: a well-formed Bible, arguments of the documented types. '
LISTS = 'Lists of any length: the representation invariant of the linked list is assumed on entry and proved on exit ' \
        '(vp.heap is trusted for the abstraction). '
STR = 'Text is a sequence of pieces (book names, numbers, separators). Assumed: the tree of the Lark grammar depends only ' \
      'on the kinds of the tokens (compared on representatives), BibleBook.from_str knows the names it printed (C15). '
PROOF = {
 'C01': ('proof', TECH, BASE),
 'C02': ('proof', TECH, BASE + 'Hashes only by the bounded check.'),
 'C03': ('proof', TECH, BASE),
 'C04': ('proof', TECH, BASE + 'Construction from strings is C13/C14.'),
 'C05': ('proof', TECH, BASE + LISTS + 'Range-against-list predicates other than those of the list itself: bounded.'),
 'C06': ('proof', TECH, BASE),
 'C07': ('proof', TECH, BASE + LISTS + 'Iteration over a range of any length by an '
         'invariant of the generator.'),
 'C08': ('proof', TECH, BASE),
 'C09': ('proof', TECH, BASE + LISTS),
 'C10': ('proof', TECH, BASE + LISTS + 'Sorting (a merge sort on the links) and consolidating are proved for lists of any '
         'length. Bounded only: idempotence and canonicity as statements about two calls (what one call leaves is '
         'proved to be ascending, disjoint and not adjacent, with the same verses).'),
 'C11': ('proof', TECH, BASE + LISTS + 'Every operation is proved from an arbitrary list, hence any history; bounded '
         'only: equality with other iterables, the nested constructor.'),
 'C12': ('proof', TECH, BASE + LISTS + 'Bounded only: the string/nested constructors.'),
 'C13': ('proof', TECH, BASE + LISTS + STR + 'The text of a list of any length is proved piece by piece: an invariant of '
         'the printing loop relates it to what the parser remembers. Bounded only: separators changed by the user, '
         'combinations of the layout options other than all or none of abbrev, alt_sep and nospace.'),
 'C14': ('proof', TECH, BASE + STR + 'Proved: texts of up to three references in every combination of forms and '
         'separators, with arbitrary books and numbers. Bounded only: longer texts and malformed ones.'),
 'C15': ('proof', TECH + ' (theory of strings and regular expressions)',
         'For every string: the expressions that the setter of the name data compiled are translated to regular languages '
         'and compared with those of the documented forms; BibleBook.from_str is executed on an arbitrary string. For the '
         'default name data and for another one with special characters; further name data only by the bounded check. '
         'Trusted: vp.names, vp.engine, z3.'),
 'C16': ('proof', TECH, BASE + 'The global flags are arbitrary and unrelated to the flags argument in every '
         'obligation, those of list counts and covering ranges included; other list operations: bounded comparison '
         'of both ways of giving the flags.'),
 'C17': ('proof', TECH, BASE + LISTS),
 'C18': ('proof', TECH, BASE + LISTS),
 'C19': ('proof', TECH, 'The setters are proved for arbitrary data, by what they do to one arbitrary book; the default '
         'data is compared with the canon entry by entry (complete). That operations follow the attributes of the books '
         'is proved with C01-C03. Bounded only: sequences of assignments and operations (no state kept elsewhere), the '
         'parser made for new separators. Trusted: vp.config, vp.transform, vp.engine, z3.'),
}
DEFAULT = ('exploration', 'contracts and reference oracles evaluated on the real code (bounded stand-in)',
           'Bounded: oracles evaluated on the real code over small and default Bibles; strings, regular expressions and '
           'the parser generator are outside the verifier.')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    level, tech, note = PROOF.get(p['id'], DEFAULT)
    checks.append(dict(property=p['id'], quick_cmd=f'python3-vt -m vp.check {p["id"]} quick',
                       thorough_cmd=f'python3-vt -m vp.check {p["id"]} thorough', technique=tech, level=level,
                       level_note=note.strip()))
man = dict(version=1, setup_cmd='python3-vt -c "import z3, lark, sys; sys.path.insert(0, \'.\'); import vp.check"',
           checks=checks, not_applicable=[])
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
