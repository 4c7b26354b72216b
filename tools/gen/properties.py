import json
def anchor(files, mech, observe=None): return dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or ['result of parse / parse_be / parse_le'], hook_needed=None)
G = ['nom-derive-impl/src/structs.rs', 'nom-derive-impl/src/parsertree.rs', 'nom-derive-impl/src/gen/structs.rs', 'nom-derive-impl/src/gen/generator.rs']
P = []
def p(id, title, st, over, q, why, anc): P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=anc))
p('C01', 'Primitive numbers are decoded byte-exactly in both byte orders',
  'For every integer and float type, the big-endian parser (and the default one) returns exactly the big-endian value of the first size-of-type bytes, and the little-endian parser their little-endian value, with the rest of the input untouched; on fewer bytes the result is Incomplete and never an error or a value. A type that only defines the default parser uses it for both byte orders.',
  ['inputs'], 'every byte string, every primitive type, the three parsing functions, every error type', 'tests decode a few constants with a few types; a swapped or narrowed decoder of an untested type, mode or value passes them',
  anchor(['src/traits.rs'], [('Parse trait and its default methods', 'src/traits.rs'), ('impl_primitive_type', 'src/traits.rs')]))
p('C02', 'Optional, list, pair and array containers follow their element parser',
  'An optional value is the element when it parses and absent, consuming nothing, when it is incomplete or fails recoverably; a list is the longest run of elements, ending where an element is incomplete or fails recoverably; a pair is its two members in order; an array is exactly N elements in order and fails otherwise. Each container uses the same byte order for its elements as it was asked to use, an unrecoverable failure is always passed on, and what is left of the input starts right after the last element kept.',
  ['inputs', 'configurations'], 'every input, every element type and every outcome of its parser, the three parsing functions, builds with and without allocation', 'tests parse three short constant inputs with u8 elements; error propagation, byte order inside containers and partial elements are not sampled',
  anchor(['src/traits.rs'], [('Parse for Option, Vec, (A, B), [T; N]', 'src/traits.rs')]))
p('C03', 'Length-prefixed strings and data take exactly the announced bytes',
  'A string is a big-endian 32-bit length followed by that many bytes of valid UTF-8, in every parsing mode; invalid UTF-8 is a recoverable error. Length-prefixed data is the length in the requested byte order followed by exactly that many bytes. When the announced length exceeds what is left the result is Incomplete: no panic, no truncated value.',
  ['inputs'], 'every byte string including every announced length up to the maximum of the length type', 'tests use one well-formed input each; over-long lengths (which panicked) and invalid UTF-8 are not exercised',
  anchor(['src/traits.rs', 'src/helpers.rs'], [('Parse for String', 'src/traits.rs'), ('LengthData', 'src/helpers.rs')]))
p('C04', 'Derived structures parse their fields in declaration order',
  'The parser derived for a structure runs the parser of each field, in declaration order, each on what the previous one left, stores every value in its own field and returns what the last one left. The first failure of a field is returned unchanged and no later field is parsed. This holds for named, tuple, unit, nested, generic and borrowed structures and for any field names.',
  ['inputs', 'programs'], 'every input; every structure declaration over any field types', 'tests sample a few structures and one input each',
  anchor(G, [('parse_fields', 'nom-derive-impl/src/structs.rs'), ('gen_fn_body / gen_parse', 'nom-derive-impl/src/gen/structs.rs')]))
p('C05', 'Byte order: field over earlier dynamic over structure over caller',
  'The byte order of each field is the one written on the field; otherwise the one set dynamically by the closest earlier field of the same structure; otherwise the one of the structure (attribute, dynamic expression or NomBE/NomLE derive); otherwise the one requested by the caller, where the default entry point is big-endian. It reaches through optional values, lists, arrays, pairs, counted and conditional fields and nested types. When the structure fixes a byte order the three entry points are equivalent.',
  ['inputs', 'programs', 'configurations'], 'every input, every placement of byte order attributes, every caller mode, every value of the dynamic expression', 'tests fix one placement and one value per attribute; combinations of levels, containers and modes are not enumerable by examples',
  anchor(['nom-derive-impl/src/endian.rs'] + G + ['nom-derive-impl/src/enums.rs'], [('get_local_endianness, set_object_endianness', 'nom-derive-impl/src/endian.rs'), ('get_type_parser', 'nom-derive-impl/src/structs.rs'), ('with_endianness', 'nom-derive-impl/src/parsertree.rs')]))
p('C06', 'Counted fields parse exactly the requested number of elements',
  'A counted list evaluates its count once over the earlier fields and parses exactly that many elements in order, or fails as its first failing element does; a length-counted list first runs the given length parser, whose byte order is its own, then that many elements. Expressions of any integer type and any operator precedence mean what they mean in Rust, zero gives an empty list without consuming anything, and counts too large for the input are Incomplete or an error, never a panic or an allocation failure.',
  ['inputs', 'programs'], 'every input, every count expression and element parser, nested counts', 'tests use constant small counts',
  anchor(['nom-derive-impl/src/structs.rs', 'nom-derive-impl/src/parsertree.rs'], [('Count, LengthCount in get_parser', 'nom-derive-impl/src/structs.rs'), ('ParserExpr::Count, LengthCount', 'nom-derive-impl/src/parsertree.rs')]))
p('C07', 'Conditions and verifications decide exactly as written',
  'A conditional field is parsed and present exactly when its condition on the earlier fields holds, and otherwise absent without consuming input. A verified field is accepted exactly when its predicate holds for the parsed value, a field marked with an error condition fails before the field is parsed exactly when the condition holds, and an exact type fails exactly when input is left over; these failures are recoverable verification errors located at the input where the field (or the left-over input) starts.',
  ['inputs', 'programs'], 'every input, every predicate expression and sub-parser', 'tests evaluate each attribute on one accepted and at most one rejected input',
  anchor(['nom-derive-impl/src/structs.rs', 'nom-derive-impl/src/parsertree.rs', 'nom-derive-impl/src/gen/generator.rs'], [('Cond, Verify in get_parser; ErrorIf in get_pre_post_exec', 'nom-derive-impl/src/structs.rs'), ('Exact', 'nom-derive-impl/src/gen/structs.rs')]))
p('C08', 'Value attributes: map, into, value, ignore, parse, tag, take, debug',
  'A mapped or converted field is the function applied to what its parser returned, at the same position; a value or ignored field is the expression or the default and consumes nothing; a custom parser is called once at the current position; a tag matches exactly its bytes; take returns exactly the requested bytes, or Incomplete. Attributes compose in the order they are written, and the debug attribute changes no result.',
  ['inputs', 'programs'], 'every input, every function, expression and parser, every legal combination', 'tests use single attributes on single inputs',
  anchor(['nom-derive-impl/src/structs.rs', 'nom-derive-impl/src/parsertree.rs'], [('get_parser, get_type_default', 'nom-derive-impl/src/structs.rs'), ('ParserExpr to tokens', 'nom-derive-impl/src/parsertree.rs')]))
p('C09', 'Skip, align and move reach exactly the documented position',
  'Skipping advances by exactly the given number of bytes; aligning advances to the nearest position at or after the current one that is a multiple of the alignment, counted from the start of the object being parsed; moving goes to the position given relative to the current one or from the start of that object. A position past the end is Incomplete and one before the start is a recoverable error; nothing else is consumed, and no operand that fits a machine word (signed for a relative move), however large or negative, causes a panic or wraps around.',
  ['inputs', 'programs'], 'every input and position, every operand value of every integer type that fits a machine word (alignments of at least one), before and after fields, repeated and combined', 'tests use one small operand on one input; extreme operands (which panicked) and combinations are not sampled',
  anchor(['nom-derive-impl/src/structs.rs'], [('quote_align, quote_skip, quote_move, quote_move_abs, get_pre_post_exec', 'nom-derive-impl/src/structs.rs')]))
p('C10', 'Selector enums: the first matching variant decides, others are errors',
  'The parser derived for an enum with a selector tries the patterns in declaration order, the default one last wherever it is written, and returns the first matching variant with its fields parsed as a structure would. A selector that matches nothing is a recoverable Switch error at the start of the input. A variant without fields consumes nothing unless it is given a parser.',
  ['inputs', 'programs'], 'every selector value and input; every set of patterns (literals, alternatives, ranges, strings, bindings, guards) in every order', 'tests use disjoint literal patterns; overlapping patterns with a default in the middle (which were reordered) are not sampled',
  anchor(['nom-derive-impl/src/enums.rs', 'nom-derive-impl/src/gen/enums.rs'], [('parse_variant', 'nom-derive-impl/src/enums.rs'), ('gen_variants', 'nom-derive-impl/src/gen/enums.rs')]))
p('C11', 'Fieldless enums map exactly their discriminants',
  'The parser derived for a fieldless enum reads one value of its representation type in the applicable byte order and returns the variant with that discriminant, consuming exactly that value. A value that is no discriminant is a recoverable Switch error located at the start of the input, and a short input is Incomplete.',
  ['inputs', 'programs'], 'every input; every representation type and set of explicit, implicit and negative discriminants', 'tests read two or three values of u8 enums',
  anchor(['nom-derive-impl/src/gen/fieldless_enums.rs', 'nom-derive-impl/src/enums.rs'], [('GenFieldlessEnum', 'nom-derive-impl/src/gen/fieldless_enums.rs')]))
p('C12', 'Complete turns Incomplete into an error, and changes nothing else',
  'With the attribute on a field, an Incomplete of what follows it in that field becomes a recoverable Complete error at the position where the field starts; with the attribute on a type, this holds for each of its fields, the parsers of its variants and its discriminant. Every other result is exactly that of the declaration without the attribute.',
  ['inputs', 'programs'], 'every input and every truncation of it; every field parser', 'tests truncate one input at one place; unit variants and fieldless enums (which ignored it) are not covered',
  anchor(['nom-derive-impl/src/structs.rs', 'nom-derive-impl/src/parsertree.rs', 'nom-derive-impl/src/enums.rs', 'nom-derive-impl/src/gen/fieldless_enums.rs'], [('ParserExpr::complete', 'nom-derive-impl/src/parsertree.rs'), ('config.complete', 'nom-derive-impl/src/structs.rs')]))
p('C13', 'Derived parsers are total and return a part of their input',
  'On every input a derived parser terminates with a value, Incomplete, or an error: it never panics, overflows or reads outside its input, whatever the input and whatever the values of earlier fields used in its attributes, provided the expressions and parsers supplied by the user do not. On success what is left is a suffix of the input given (or, after a move, of the part of it that the move reaches), and parsing the same input again gives the same result.',
  ['inputs', 'programs'], 'every input, in builds that check arithmetic; every kind of declaration', 'tests use well-formed inputs',
  anchor(G + ['src/traits.rs', 'src/helpers.rs'], [('generated arithmetic on positions', 'nom-derive-impl/src/structs.rs'), ('generated bodies', 'nom-derive-impl/src/gen/structs.rs')]))
p('C14', 'Hooks, extra arguments and entry points behave as documented',
  'Code given before and after a field or a type runs exactly once at that place, with the fields parsed so far (and the value, after a type) in scope, and may replace the current input, under the name chosen for it. Extra arguments and the selector are passed unchanged and visible to every expression. The literal-string and the parenthesised form of an attribute, and one attribute list or several, mean the same; the default entry point behaves as the big-endian one where no byte order is fixed.',
  ['inputs', 'programs'], 'every input and argument value; every place, form and combination', 'tests use one hook at a time on one input',
  anchor(['nom-derive-impl/src/structs.rs', 'nom-derive-impl/src/gen/generator.rs', 'nom-derive-impl/src/meta/attr.rs', 'nom-derive-impl/src/config.rs'], [('get_pre_post_exec', 'nom-derive-impl/src/structs.rs'), ('gen_fn_decl, gen_impl', 'nom-derive-impl/src/gen/generator.rs'), ('parse_meta_content', 'nom-derive-impl/src/meta/attr.rs')]))
p('C15', 'Contradictory or misplaced declarations are rejected at compile time',
  'A declaration that asks for two byte orders at the same level, puts a field attribute on a type or a type attribute on a field or variant, uses an unknown attribute or omits a required argument, counts something that is not a list or conditions something that is not optional, or derives an enum without selector, pattern or integer representation, does not compile. The corresponding well-formed declarations compile.',
  ['programs'], 'every attribute at every kind of position, every pair of byte orders', 'compile-fail tests list a handful of combinations and are sensitive to message text',
  anchor(['nom-derive-impl/src/meta/attr.rs', 'nom-derive-impl/src/meta/mod.rs', 'nom-derive-impl/src/endian.rs', 'nom-derive-impl/src/gen.rs', 'nom-derive-impl/src/config.rs'], [('acceptable_tla, acceptable_fla', 'nom-derive-impl/src/meta/attr.rs'), ('validate_endianness', 'nom-derive-impl/src/endian.rs')], ['rustc diagnostics']))
p('C16', 'Generic errors, type parameters and lifetimes do not change the meaning',
  'With generic errors the derived parser works with every error type and reports the same kinds at the same positions as with the default one. Type and const parameters, where clauses, trait bounds and lifetimes of the declaration are carried over, and the parser of a generic type, for every instance, does what the same declaration with the concrete types does.',
  ['inputs', 'programs'], 'every input, error type and instance', 'tests instantiate one error type and one parameter',
  anchor(['nom-derive-impl/src/gen/generator.rs', 'nom-derive-impl/src/gen/structs.rs', 'nom-derive-impl/src/gen/enums.rs', 'nom-derive-impl/src/gen/fieldless_enums.rs'], [('gen_impl: generics, lifetimes, error type', 'nom-derive-impl/src/gen/generator.rs')]))
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
import jsonschema
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x, S); assert len(x['title']) <= 80
import re
for x in P: 
    n=len(re.findall(r'[.;] |\.$', x['statement'])); print(x['id'], len(re.findall(r'\. |\.$', x['statement'])))
