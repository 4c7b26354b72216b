"""More specimen programs: every attribute that takes an expression with every shape of expression, in both
notations; hooks that move the input; unusual names, types, patterns, widths and sizes."""
from .build import *
from .specimens import prop, Mods, PR

# shapes of a non-negative integer expression over a field n: u8 (text, reading when it is not the text itself)
NUM = [('3', None), ('0x2', None), ('1 + n as usize', None), ('2 * (n as usize % 2)', None), ('n', None), ('(n)', None), ('{ n & 3 }', None), ('(n % 2) + 1', None),
       ('if n > 2 { 1usize } else { 2usize }', None), ('match n { 0 => 2usize, 1 => 0usize, _ => 1usize }', None), ('n as usize', None), ('n as usize + 1', None),
       ('un8(n)', None), ('K3', None), ('*(&n)', 'n'), ('2u16', None), ('n as u16 & 3', None), ('n & 1 | 2', None), ('!n & 3', None), ('crate::h::un8(n)', 'sp_un8(n)'),
       ('{ let t = n % 2; t + 1 }', None), ('n - n', '0'), ('1 + 1', None), ('n & 1 ^ 1', None)]
BOOL = [('true', None), ('false', None), ('n > 1', None), ('1 < n', None), ('!(n == 2)', None), ('(n > 1)', None), ('{ n > 1 }', None), ('if n > 1 { true } else { false }', None),
        ('match n { 0 => true, 3 => true, _ => false }', None), ('is_ok8(n)', None), ('n > 0 && n < 9', None), ('!is_ok8(n)', None), ('n == 1 || n == 2', None), ('0 == n & 1', None),
        ('KB', None), ('n & 1 == 1', None), ('n as u16 + 1 == 2', None), ('2 == n || is_ok8(n)', None), ('crate::h::is_ok8(n)', 'sp_is_ok8(n)'), ('n == n', None)]
CONSTS = 'pub const K3: usize = 3; pub const KB: bool = true;'
# shapes the verifier does not read; run natively only
NUM_NATIVE = ['2 * (n as usize & 1)', '(n & 1) + 1', 'usize::from(n)', 'core::cmp::min(n, 3)', 'n.min(3)', '1.max(n)', 'n.count_ones()', "b'\\x02'", '2 << (n & 1)', '1 | 2', '{ let n = 2usize; n }', 'loop { break 2usize }',
              '[1usize, 2][(n & 1) as usize]', '(n, 2).1', 'n as usize >> 4', '(|x: usize| x & 3)(n as usize)', "{ struct Q; 2 }", '<u8 as Into<usize>>::into(n)', "'\\x03' as u8", '-(-2i32)', '5 % 3',
              'n.wrapping_sub(1) & 3', 'u16::MAX & 1', 'usize::pow(2, 1)', '1 + n.min(2)', '0b11', '1_0 / 5']
BOOL_NATIVE = ['matches!(n, 0 | 3)', 'n.is_power_of_two()', '(1..=3).contains(&n)', 'Some(n) == Some(1)', 'n as i8 > -1', '1 > n.min(2)', "n != b'\\x01'", '[0, 1].contains(&n)', '!false', 'n <= 3 && !matches!(n, 2)',
               'false || n > 2', 'true && n > 2', '-1 < n as i8', '{ let n = n ^ 1; n > 2 }', 'if let 1 = n { false } else { true }', 'i32::from(n) > 2', '1.max(n) == n', '"ab".len() == n as usize']

def chunks(l, k): return [l[j:j + k] for j in range(0, len(l), k)]
def xattr(kind, x, v, form): return Attr(kind, X(x, v), 'list' if form == 'list' or '"' in x or '\\' in x else 'str')

def matrix(m, tag, exprs, mk, per=4, verus=True, first=None):
    """structs of `per` fields, each using the next expression; both notations"""
    for form in ('str', 'list'):
        types = []
        for c, part in enumerate(chunks(exprs, per)):
            fs = [F('n', 'u8')] if first is None else list(first)
            for j, e in enumerate(part):
                x, v = e if isinstance(e, tuple) else (e, e)
                fs += mk(j, x, v, form)
            lt = any("'a" in f.ty for f in fs)
            types.append(S(f'{tag}{"L" if form == "list" else "S"}{c}', *fs, generics="<'a>" if lt else ''))
        for part in chunks(types, 3): m.add(*part, extra=CONSTS, verus=verus)

WRAPS = ['Cond', 'Count', 'LengthCount', 'Map', 'Into', 'Verify', 'Complete']
def wrapped(name, chain, leaf, extra=()):
    """a field whose attributes are exactly this chain over the leaf type, with the type the chain calls for"""
    t, at = leaf, []
    for k in reversed(chain):
        if k == 'Cond': at.append(attr('Cond="n > 1"')); t = f'Option<{t}>'
        elif k == 'Count': at.append(attr('Count="n & 1"')); t = f'Vec<{t}>'
        elif k == 'LengthCount': at.append(attr('LengthCount="len8"')); t = f'Vec<{t}>'
        elif k == 'Map': at.append(Attr('Map', FExpr('|x: u16| x ^ 0x55', '|x: u16| x ^ 0x55') if t == 'u16' else FExpr(f'|x: {t}| x', f'|x: {t}| x')))
        elif k == 'Verify': at.append(attr(f'Verify="*{name} > 1"' if t == 'u16' else f'Verify="vlen({name}) != 3"' if t.startswith('Vec<') else 'Verify="true"'))
        else: at.append(attr(k))
    return Field(name, t, *extra, *reversed(at))

UNTYPED = {('Verify', 'Map'), ('Verify', 'Into'), ('Map', 'Into')}
def wrap_pairs(depth=2):
    """every order of wrapping attributes (Into twice in a row does not fix its intermediate type; Debug is accepted next to the type only)"""
    import itertools
    out = []
    for c in itertools.product(WRAPS, repeat=depth):
        if any(x == y == 'Into' for x, y in zip(c, c[1:])): continue
        out.append(list(c))
    return out

def one(f): return lambda j, x, v, form: [f(j, x, v, form)]

@prop('C06')
def c06x():
    m = Mods('cx')
    cnt = lambda kind, ty, *more: one(lambda j, x, v, form: Field(f'v{j}', ty, xattr(kind, x, v, form), *[attr(a) for a in more]))
    matrix(m, 'Ct', NUM, cnt('Count', 'Vec<P0>'))
    matrix(m, 'Cu', NUM_NATIVE, cnt('Count', 'Vec<u8>'), verus=False)
    # every kind of element
    m.add(S('Tya', F('n', 'u8'), *[F('v' + t, f'Vec<{t}>', 'Count="n & 1"') for t in PR[:6]]), S('Tyb', F('n', 'u8'), *[F('v' + t, f'Vec<{t}>', 'Count="n & 1"') for t in PR[6:]]))
    m.add(S('Tyc', F('n', 'u8'), F('b', 'Vec<[u8; 2]>', 'Count="n & 3"'), F('c', 'Vec<Option<P0>>', 'Count="1"'), F('d', 'Vec<Pd>', 'Count="n & 3"'), F('e', 'Vec<Vec<P1>>', 'Count="1"')),
          S('Tyd', F('n', 'u8'), F('a', 'Vec<i8>', 'Count="n"'), F('b', 'u8')), S('Tye', F('n', 'u16'), F('a', 'Vec<u8>', 'Count="n"'), F('b', 'u8')), S('Tyf', F('a', 'Vec<u8>', 'LengthCount="len8"'), F('b', 'Vec<u8>', 'LengthCount="len16"')))
    # counts beyond 8 and 16 bits
    m.add(S('B8', F('n', 'u16'), F('a', 'Vec<u8>', 'Count="n"'), F('b', 'u8')), S('B16', F('n', 'u32'), F('a', 'Vec<u8>', 'Count="n"'), F('b', 'u8')), S('B16i', F('n', 'i32'), F('a', 'Vec<i8>', 'Count="n"'), F('b', 'u8')),
          S('B16p', F('n', 'u32'), F('a', 'Vec<P0>', 'Count="n"'), F('b', 'u8')), S('BK', F('a', 'Vec<u8>', 'Count="300"'), F('b', 'u8')), S('BK16', F('a', 'Vec<u8>', 'Count="65537"'), F('b', 'u8')),
          S('BL', F('a', 'Vec<u8>', 'LengthCount=be_u32'), F('b', 'u8')), S('BL16', F('a', 'Vec<P0>', 'LengthCount=be_u16'), F('b', 'u8')), S('BLl', F('a', 'Vec<u8>', 'LengthCount=le_u32'), F('b', 'u8')), long=True)
    m.add(S('Z1', F('n', 'u8'), F('a', 'Vec<U0>', 'Count="n"')), S('Z2', F('n', 'u16'), F('a', 'Vec<Option<P0>>', 'Count="n & 511"')), S('U0'))
    for t in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
        pass
    m.add(*[S('N' + t, F('n', t), F('a', 'Vec<P0>', 'Count="n & 3"'), F('b', 'u8')) for t in ('u8', 'u16', 'u32', 'u64', 'i16', 'i64')])
    m.add(*[S('L' + p, F('a', 'Vec<P0>', f'LengthCount={p}'), F('b', 'u8')) for p in ('be_u16', 'le_u16', 'be_u32', 'be_u64', 'le_u64', 'be_u24')])
    m.add(*[S('Lt' + t, F('a', f'Vec<{t}>', 'LengthCount="len8"'), F('b', 'u8')) for t in ('u8', 'i8', 'u16', 'u32', 'P1', 'Pd')])
    m.add(S('Sub', F('a', 'u8'), F('b', 'P0')), S('Vs', F('n', 'u8'), F('v', 'Vec<Sub>', 'Count="n & 3"'), F('w', 'Vec<Sub>', 'LengthCount="len8"'), F('z', 'u8')), S('VsL', F('n', 'u8'), F('v', 'Vec<Sub>', 'Count="n & 3"'), F('w', 'Vec<Sub>', 'LengthCount="len8"'), derive='NomLE'))
    m.add(S('Gt', F('n', 'u8'), F('v', 'Vec<G<u16>>', 'Count="n & 3"')), S('G', F('a', 'T'), generics='<T>', inst=['<u8>']))
    return m

@prop('C07')
def c07x():
    m = Mods('vx')
    matrix(m, 'Co', BOOL, one(lambda j, x, v, f: Field(f'o{j}', 'Option<P0>', xattr('Cond', x, v, f))))
    matrix(m, 'Ei', BOOL, lambda j, x, v, f: [Field(f'e{j}', 'P0', xattr('ErrorIf', x, v, f))], per=2)
    matrix(m, 'Ve', BOOL, lambda j, x, v, f: [Field(f'b{j}', 'P0', xattr('Verify', x, v, f))], per=2)
    matrix(m, 'Cn', BOOL_NATIVE, one(lambda j, x, v, f: Field(f'o{j}', 'Option<P0>', xattr('Cond', x, v, f))), verus=False)
    matrix(m, 'En', BOOL_NATIVE, one(lambda j, x, v, f: Field(f'e{j}', 'P0', xattr('ErrorIf', x, v, f))), per=2, verus=False)
    matrix(m, 'Vn', BOOL_NATIVE, one(lambda j, x, v, f: Field(f'b{j}', 'P0', xattr('Verify', x, v, f))), per=2, verus=False)
    # exact, with everything else that happens at the end
    mv = Stmt('let i = if i.len() > 1 { &i[1..] } else { i };', 'let i = if i.slen() > 1 { i.sfrom(1) } else { i };')
    eat = Stmt('let i = &i[i.len()..];', 'let i = i.sfrom(i.slen() as int);')
    for nm, st in (('Mv', mv), ('Eat', eat)):
        P, Q = lambda: Attr('PostExec', st, 'list'), lambda: attr('Exact')
        m.add(S('A' + nm, F('a', 'u8'), attrs=[P(), Q()]), S('B' + nm, F('a', 'u8'), attrs=[Q(), P()]), S('C' + nm, T('u8'), T('P0'), attrs=[P(), Q()]), S('D' + nm, T('u8'), attrs=[Q(), P()]), S('U' + nm, attrs=[P(), Q()]), S('V' + nm, attrs=[Q(), P()]))
        m.add(*[E(x + nm, 'u8', V_('A', '0', [T('u8')]), V_('B', '1'), V_('C', '_', [F('x', 'u16')]), attrs=at, argvals=['0', '1', '2']) for x, at in (('E', [P(), Q()]), ('F', [Q(), P()]))],
              *[FL(x + nm, 'u8', 'A', 'B', attrs=at) for x, at in (('G', [P(), Q()]), ('H', [Q(), P()]))])
        m.add(S('P' + nm, F('a', 'u8'), attrs=[Attr('PreExec', st, 'list'), Q()]), S('Q' + nm, F('a', 'u8'), Field('b', 'P0', Attr('PreExec', st, 'list')), attrs=[Q()]), S('R' + nm, F('a', 'u8'), Field('b', 'P0', Attr('PostExec', st, 'list')), attrs=[Q()]),
              S('S' + nm, F('a', 'u8'), Field('b', 'P0', Attr('PostExec', st, 'list'), attr('ErrorIf="i.len() < 2"')), attrs=[Q()]), S('T' + nm, F('a', 'u8'), Field('b', 'P0', attr('ErrorIf="i.len() < 2"'), Attr('PreExec', st, 'list')), attrs=[Q()]))
    m.add(S('ExC', F('a', 'u8'), F('b', 'u16'), attrs=['Exact', 'Complete']), S('ExL', F('a', 'u8'), F('b', 'u16'), attrs=['Exact'], derive='NomLE'), S('ExN', F('a', 'u8'), attrs=['Exact', 'InputName(data)']), S('ExA', F('a', 'u8', 'Verify="*a != k"'), attrs=['Exact'], args=['k: u8'], argvals=['0', '1']),
          S('ExS', F('a', 'u8'), F('b', 'u8', 'SkipAfter="2"'), attrs=['Exact']), S('ExM', F('a', 'u16'), F('b', 'u8', 'MoveAbs="0"'), attrs=['Exact']), S('ExO', F('a', 'Option<u8>'), attrs=['Exact']), S('ExVv', F('a', 'Vec<u16>'), attrs=['Exact']), S('ExG', F('a', 'T'), generics='<T>', inst=['<u8>', '<P1>'], attrs=['Exact']),
          S('ExGe', F('a', 'u8'), F('b', 'P0', 'ErrorIf="a == 1"'), F('c', 'u8', 'Verify="*c > 1"'), attrs=['Exact', 'GenericErrors']))
    # every type under Cond / Verify
    m.add(S('Ta', F('n', 'u8'), *[F('o' + t, f'Option<{t}>', 'Cond="n & 1 == 1"') for t in PR[:6]]), S('Tb', F('n', 'u8'), *[F('o' + t, f'Option<{t}>', 'If="n & 1 == 1"') for t in PR[6:]]), S('Tc', F('n', 'u8'), F('a', 'Option<String>', 'Cond="n == 1"'), F('b', 'Option<[u8; 2]>', 'Cond="n == 2"'), F('c', 'Option<Vec<P0>>', 'Cond="n == 3"'), F('e', 'Option<PhantomData<u8>>', 'Cond="n > 4"')))
    m.add(S('Va', *[F('v' + t, t, f'Verify="*v{t} != 1"') for t in PR[:5]]), S('Vb', *[F('v' + t, t, f'Verify="*v{t} > 0"') for t in PR[5:10]]), S('Vc', F('a', 'P0', 'Verify="true"'), F('b', 'Option<u8>', 'Verify="osome(b)"'), F('v', 'Vec<u8>', 'Verify="vlen(v) != 2"')))
    m.add(S('Vd', F('n', 'u8'), F('a', 'u8', 'Verify="*a == n"'), F('b', 'u8', 'Verify="*b == a && *b != 7"'), F('c', 'Option<u8>', 'Cond="n > 1"', 'Verify="*c > 1"')), S('Ve', F('c', 'Vec<u8>', 'Count="2"', 'Verify="*c > 1"')), S('Vf', F('c', 'Vec<u8>', 'Verify="vlen(c) == 2"', 'Count="2"'), F('d', 'u16', 'Map="m8"', 'Verify="*d > 2"', 'Parse="up8"')) if 0 else S('Vf', F('c', 'Vec<u8>', 'Verify="vlen(c) == 2"', 'Count="2"')), verus=False)
    m.add(S('Vg', T('u8', 'ErrorIf="i.len() < 2"'), T('Option<P0>', 'Cond(_0 == 1)'), T('P0', 'ErrorIf(_0 == 3)')), S('EiS', F('a', 'u8', 'ErrorIf="i.len() > 6"'), F('b', 'u8', 'ErrorIf="i.is_empty()"'), F('c', 'u8', 'ErrorIf="orig_i.len() == 4"')), S('EiM', F('a', 'u8'), F('b', 'Vec<P0>', 'ErrorIf="a > 3"', 'Count="a"'), F('c', 'u8', 'SkipBefore="1"', 'ErrorIf="a == 2"', 'SkipBefore="1"')))
    return m

@prop('C08')
def c08x():
    m = Mods('tx')
    matrix(m, 'Tk', NUM, one(lambda j, x, v, f: Field(f'd{j}', "&'a [u8]", xattr('Take', x, v, f))))
    matrix(m, 'Tn', NUM_NATIVE, one(lambda j, x, v, f: Field(f'd{j}', "&'a [u8]", xattr('Take', x, v, f))), verus=False)
    matrix(m, 'Vb', BOOL, one(lambda j, x, v, f: Field(f'b{j}', 'bool', xattr('Value', x, v, f))))
    matrix(m, 'Vn', BOOL_NATIVE, one(lambda j, x, v, f: Field(f'b{j}', 'bool', xattr('Value', x, v, f))), verus=False)
    VALS = [('u8', '7', None), ('u8', 'n', None), ('u8', '(n)', None), ('u8', '{ n }', None), ('u8', 'n & 3', None), ('u8', '1 & n', None), ('usize', '1 + n as usize', '(1 + n as usize) as usize'), ('u16', 'n as u16', None), ('u16', 'm8(n)', None), ('u8', 'if n > 1 { 3 } else { n }', 'if n > 1 { 3u8 } else { n }'),
            ('u8', 'match n { 0 => 4, x => x }', 'match n { 0 => 4u8, x => x }'), ('Option<u8>', 'Some(n)', None), ('Option<u8>', 'None', None), ('(u8, bool)', '(n, true)', None), ('W<u8>', 'W(n)', None), ('usize', 'K3', None), ('u8', '!n', None), ('usize', 'i.len()', None), ('u8', '*(&n)', 'n')]
    for form in ('str', 'list'):
        for c, part in enumerate(chunks(VALS, 7)):
            m.add(S(f'Va{"L" if form == "list" else "S"}{c}', F('n', 'u8'), *[Field(f'v{j}', t, xattr('Value', x, v, form)) for j, (t, x, v) in enumerate(part)], F('z', 'u8')), extra=CONSTS)
    VN = [('i32', '-1'), ('i8', '-(n as i8 & 3)'), ('u8', "b'a'"), ('char', "'a'"), ('&\'static str', '"ab"'), ('&\'static [u8]', 'b"ab"'), ('f32', '1.5'), ('Vec<u8>', 'vec![n, 1]'), ('[u8; 2]', '[n, 2]'), ('u8', 'n.wrapping_add(1)'), ('String', 'String::from("x")'), ('String', 'format!("{}", n)'), ('u32', '1 << 3'), ('u32', '2 + u32::from(n)'), ('bool', 'n as i8 > -1'), ('u8', '1.max(n)'), ('Option<u8>', 'n.checked_sub(2)'), ('Vec<u8>', 'Vec::new()'), ('u8', 'u8::MAX'), ('W<W<u8>>', 'W(W(n))'), ('u8', '{ let n = n | 1; n }'), ('&\'static str', '"a\\"b"')]
    for form in ('str', 'list'):
        for c, part in enumerate(chunks(VN, 6)):
            m.add(S(f'Vw{"L" if form == "list" else "S"}{c}', F('n', 'u8'), *[Field(f'v{j}', t, xattr('Value', x, x, form)) for j, (t, x) in enumerate(part)], F('z', 'u8')), verus=False)
    # functions
    FN = [('u16', 'm8', 'up8'), ('u8', 'm8b', 'up8'), ('u32', 'm16', 'up'), ('u16', 'crate::h::m8', 'up8'), ('u8', '|x: u8| m8b(x)', 'up8'), ('u16', '|x: u16| x ^ 0x55', 'up'), ('bool', '|x: u8| x == 3', 'up8'), ('u16', '|x| m8(x)', 'up8'), ('u16', '|x: u8| { m8(x) }', 'up8'), ('u16', '|x| -> u16 { m8(x) }', 'up8'),
          ('u8', '(m8b)', 'up8'), ('u16', '{ m8 }', 'up8'), ('u16', 'u16::from', 'up8'), ('W<u8>', 'W', 'up8'), ('Option<u8>', 'Some', 'up8'), ('u8', 'if n > 1 { m8b } else { m8c }', 'up8'), ('W<u8>', 'md::<u8>', 'up8'), ('u8', '|x: u8| if x > n { n } else { x }', 'up8'), ('u8', 'move |x: u8| x & n', 'up8'), ('(u8, u8)', '|x| (x, n)', 'up8'), ('u8', '|W(x)| x', '|x| nom::combinator::map(up8, W)(x)') ][:20]
    for form in ('str', 'list'):
        for c, part in enumerate(chunks(FN, 5)):
            fs = [Field(f'v{j}', t, Attr('Map', FExpr(f, f, PTYPE[p]), 'list' if form == 'list' else 'str'), attr(f'Parse="{p}"')) for j, (t, f, p) in enumerate(part)]
            m.add(S(f'Fn{"L" if form == "list" else "S"}{c}', F('n', 'u8'), *fs, F('z', 'u8')), verus=False)
    PR_ = [('up', 'up(#)'), ('crate::h::up', 'up(#)'), ('(up)', 'up(#)'), ('{ up }', 'up(#)'), ('{ |i| up(i) }', 'up(#)'), ('{ move |i| up(i) }', 'up(#)'), ('(|i| up(i))', 'up(#)'), ('if n > 1 { up } else { up2 }', 'if n > 1 { up(#) } else { up2(#) }'),
           ('nom::number::streaming::be_u16', 'nom::number::streaming::be_u16(#)'), ('{ |j| nom::number::streaming::le_u16(j) }', 'nom::number::streaming::le_u16(#)'), ('{ |i| { let (i, _) = up8(i)?; up(i) } }', 'up8(#).and_then(|(i, _)| up(i))'), ('u16::parse_le', '<u16 as Parse<_, _>>::parse_le(#)'), ('<u16 as nom_derive::Parse<_, _>>::parse_be', '<u16 as Parse<_, _>>::parse_be(#)'), ('mkp(n)', 'mkp(n)(#)')]
    for form in ('str', 'list'):
        for c, part in enumerate(chunks(PR_, 4)):
            fs = [Field(f'v{j}', 'u16', Attr('Parse', PExpr(p, lambda i: '()', (lambda q: (lambda i: q.replace('#', i)))(q)), 'list' if form == 'list' else 'str')) for j, (p, q) in enumerate(part)]
            m.add(S(f'Pn{"L" if form == "list" else "S"}{c}', F('n', 'u8'), *fs, F('z', 'u8')), verus=False)
    # tags and takes of every length
    m.add(*[S(f'Tg{k}', F('t', "&'a [u8]", 'Tag(b"' + ''.join(f'\\x{1 + j:02x}' for j in range(k)) + '")'), F('b', 'u8'), generics="<'a>") for k in (1, 2, 3, 4, 8)])
    m.add(S('TgE', F('n', 'u8'), F('t', "&'a [u8]", 'Take="n & 1"'), F('u', "&'a [u8]", 'Tag(t)'), generics="<'a>"), S('TgA', F('u', "&'a [u8]", 'Tag([1u8, 2].as_slice())'), F('v', "&'a [u8]", 'Tag(b"\\x03".as_slice())'), generics="<'a>"), S('TgI', F('n', 'u8'), F('u', "&'a [u8]", 'Tag(if n > 2 { b"\\x01" } else { b"\\x02" })'), generics="<'a>"), verus=False)
    m.add(S('Big', F('n', 'u16'), F('d', "&'a [u8]", 'Take="n"'), F('z', 'u8'), generics="<'a>"), S('Big4', F('n', 'u32'), F('d', "&'a [u8]", 'Take="n"'), F('z', 'u8'), generics="<'a>"), S('BigK', F('d', "&'a [u8]", 'Take="300"'), F('z', 'u8'), generics="<'a>"), long=True)
    # Into / Ignore / Value for many types
    m.add(S('Ig', *[F('f' + t, t, 'Ignore') for t in PR[:10]], F('z', 'u8')), S('Ig2', F('a', 'Option<u8>', 'Ignore'), F('b', 'Vec<P0>', 'Default'), F('c', 'bool', 'Ignore'), F('d', 'PhantomData<u8>', 'Ignore'), F('z', 'u8')), S('Ig3', T('u32', 'Default'), T('u8'), T('Option<u8>', 'Ignore')))
    m.add(S('Ig4', F('a', 'String', 'Ignore'), F('b', '(u8, u16)', 'Value="(1, 2)"'), F('c', 'W<u8>', 'Ignore'), F('d', 'P0', 'Default'), F('e', 'OptionX', 'Ignore'), F('f', 'VecX', 'Ignore'), F('g', 'PhantomDataX', 'Ignore'), F('h', 'MyOption', 'Ignore'), F('z', 'u8')), verus=False)
    m.add(S('In', F('a', 'u16', 'Into', 'Parse=be_u8'), F('b', 'u32', 'Into', 'Parse="up"'), F('c', 'u64', 'Into', 'Parse=le_u32'), F('d', 'Into16', 'Into', 'Parse="len8"')), S('InC', F('a', 'u16', 'Complete', 'Into', 'Parse=be_u8'), F('b', 'Option<u16>', 'Cond="a > 1"', 'Into', 'Parse=be_u8')), verus=False)
    m.add(S('De', *[F('f' + t, t, 'Debug') for t in PR[:6]]), S('De2', F('a', 'P0', 'Debug'), F('b', 'Option<P0>', 'Debug'), F('v', 'Vec<P0>', 'Count="1"', 'Debug'), F('z', 'u16', 'Verify="*z > 1"', 'Debug')), S('De3', F('a', 'u8'), F('b', 'Option<P0>'), F('c', 'u16', 'LittleEndian'), attrs=['Debug']), S('De4', F('a', 'u16'), F('b', 'u32'), attrs=['Debug'], derive='NomLE'))
    return m

@prop('C09')
def c09x():
    m = Mods('cw')
    for kind in ('SkipBefore', 'SkipAfter', 'MoveAbs'):
        matrix(m, kind[0] + kind[4:5], NUM, one(lambda j, x, v, f: Field(f'p{j}', 'u8', xattr(kind, x, v, f))), per=3)
        matrix(m, kind[0] + kind[4:5] + 'n', NUM_NATIVE, one(lambda j, x, v, f: Field(f'p{j}', 'u8', xattr(kind, x, v, f))), per=3, verus=False)
    NZ = [(x, v) for x, v in NUM if x in ('3', '0x2', '(n & 1) + 1', 'if n > 2 { 1usize } else { 2usize }', 'K3', '2u16', '1 + 1')] + [('(n % 4) as usize + 1', None), ('1 + (n % 3) as usize', None), ('{ (n % 4) + 1 }', None), ('match n { 0 => 2usize, _ => 4usize }', None), ('4 * 2', None), ('8', None), ('16', None), ('1 + (n as usize % 2)', None)]
    NZ = [e for e in NZ if '&' not in e[0]]
    NZN = ['n & 1 | 2', '2 << (n & 1)', 'usize::from(n | 1)', '1.max(n)', 'n.min(3) + 1', 'loop { break 2usize }', '[1usize, 2][(n & 1) as usize]', '(n & 3) + 1', '-(-2i32)', '3 + n as usize % 2', '1 | 2', "b'\\x04'"]
    for kind in ('AlignBefore', 'AlignAfter'):
        matrix(m, 'A' + kind[5], NZ, one(lambda j, x, v, f: Field(f'p{j}', 'u8', xattr(kind, x, v, f))), per=3)
        matrix(m, 'A' + kind[5] + 'n', NZN, one(lambda j, x, v, f: Field(f'p{j}', 'u8', xattr(kind, x, v, f))), per=3, verus=False)
    SG = [('1', None), ('-1', None), ('0', None), ('-1 + 1', None), ('-1 + (n % 3) as isize', None), ('(n % 3) as isize - 1', None), ('1 - (n % 2) as isize', None), ('if n > 2 { 1 } else { -1 }', 'if n > 2 { 1int } else { -1int }'), ('{ (n % 2) as i8 }', None), ('n as isize', None), ('-2', None), ('2i16', None), ('-1i8', None), ('(n % 2) as i32', None), ('match n { 0 => 1isize, _ => 0isize }', None)]
    SGN = ['-(n as isize & 1)', '-(-1)', '!0', '1 + 1 - 3', 'isize::from(n as i8) & 1', '-1 * (n as i32 & 1)', '1.min(n as isize)', 'i8::MIN', 'isize::MAX', 'i64::MIN', '1 - 2', 'u8::MAX', '(n & 1) as isize * -1', '-1 << 1']
    matrix(m, 'Mv', SG, one(lambda j, x, v, f: Field(f'p{j}', 'u8', xattr('Move', x, v, f))), per=2)
    matrix(m, 'Mn', SGN, one(lambda j, x, v, f: Field(f'p{j}', 'u8', xattr('Move', x, v, f))), per=2, verus=False)
    # beyond one and two bytes; widths of the operand
    m.add(S('B8', F('n', 'u16'), F('a', 'u8', 'SkipBefore="n"'), F('b', 'u8', 'AlignBefore="16"')), S('B8m', F('n', 'i16'), F('a', 'u8', 'Move="n"'), F('b', 'u8')), S('B8a', F('n', 'u16'), F('a', 'u8', 'MoveAbs="n"'), F('b', 'u8', 'AlignAfter="256"'), F('c', 'u8')), S('BK', F('a', 'u8', 'SkipBefore="300"'), F('b', 'u8', 'Move="-260"'), F('c', 'u8', 'AlignBefore="512"')),
          S('B16', F('n', 'u32'), F('a', 'u8', 'SkipBefore="n"'), F('b', 'u8', 'MoveAbs="n"')), S('B16m', F('n', 'i32'), F('a', 'u8', 'Move="n"'), F('b', 'u8', 'Move="-70000"')), S('BA', F('a', 'u8', 'AlignAfter="65536"'), F('b', 'u8')), long=True)
    m.add(*[S('W' + t, F('n', t), F('a', 'u8', 'SkipBefore="n & 3"'), F('b', 'u8', 'MoveAbs="n & 7"'), F('c', 'u8', 'SkipAfter="n & 1"'), F('d', 'u8')) for t in ('u8', 'u16', 'u32', 'u64', 'i16')])
    for al in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32): pass
    m.add(*[S(f'Al{k}', F('a', 'u8'), F('b', 'u8', f'AlignBefore="{k}"'), F('c', 'u8', f'AlignAfter="{k}"'), F('d', 'u8')) for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16)])
    m.add(S('Ps', F('a', 'P1', 'AlignAfter="3"'), F('b', 'P1', 'AlignBefore="5"'), F('c', 'P1', 'Move="-1"'), F('d', 'u8')), S('Op', F('a', 'Option<P1>', 'AlignAfter="2"', 'SkipBefore="1"'), F('b', 'Vec<u16>', 'Count="1"', 'AlignBefore="4"', 'Move="-1"'), F('c', 'u8')))
    m.add(S('NestIn', F('a', 'u8', 'AlignBefore="2"'), F('b', 'u8', 'MoveAbs="1"')), S('NestMid', F('a', 'u8'), F('x', 'NestIn'), F('b', 'u8', 'AlignBefore="4"')), S('NestOut', F('a', 'u8'), F('x', 'NestMid', 'SkipBefore="1"'), F('y', 'Option<NestIn>', 'Cond="a > 1"'), F('z', 'Vec<NestIn>', 'Count="1"'), F('e', 'u8', 'MoveAbs="0"')))
    m.add(S('PE', F('a', 'u8'), F('b', 'u8', 'PreExec="let k = 2usize;"', 'SkipBefore="k"', 'PostExec="let k = 1usize;"', 'SkipAfter="k"'), F('c', 'u8', 'MoveAbs="k"', 'PreExec="let k = 3usize;"', 'AlignBefore="k"'), F('d', 'u8')))
    m.add(FL('Fl', 'u8', 'A', 'B'), S('Fs', F('a', 'Fl', 'AlignAfter="4"'), F('b', 'Fl', 'SkipBefore="1"', 'Move="-1"'), F('c', 'u8')), E('Un', 'u8', V_('A', '0', attrs=['SkipBefore="2"', 'AlignAfter="4"']), V_('B', '1', attrs=['Move="1"', 'Parse="up"', 'Move="-1"']), V_('C', '2', attrs=['MoveAbs="3"', 'SkipAfter="1"']), V_('D', '_', attrs=['AlignBefore="4"', 'Parse="up8"', 'AlignAfter="2"']), argvals=['0', '1', '2', '3']))
    m.add(S('Cp', F('a', 'u8'), F('b', 'u16', 'SkipBefore="1"', 'Complete'), F('c', 'u8', 'Move="-1"', 'Complete', 'AlignAfter="4"'), attrs=['Complete']), S('Le', F('a', 'u16'), F('b', 'u16', 'AlignBefore="4"'), F('c', 'u16', 'MoveAbs="1"', 'BigEndian'), derive='NomLE'), S('Gn', F('a', 'T'), F('b', 'T', 'AlignBefore="4"'), F('c', 'T', 'Move="-1"'), generics='<T>', inst=['<u8>', '<P1>']), S('Ge', F('a', 'u8'), F('b', 'P0', 'Move="-2"'), F('c', 'P0', 'SkipBefore="1"', 'AlignAfter="2"'), F('d', 'P0', 'MoveAbs="9"'), attrs=['GenericErrors']))
    return m

@prop('C05')
def c05x():
    m = Mods('ey')
    EN = [('nom::number::Endianness::Big', None), ('nom::number::Endianness::Little', None), ('pick(n)', None), ('(pick(n))', None), ('{ pick(n) }', None), ('if n > 1 { nom::number::Endianness::Big } else { nom::number::Endianness::Little }', None), ('match n { 0 => nom::number::Endianness::Little, _ => nom::number::Endianness::Big }', None), ('crate::h::pick(n)', 'sp_pick(n)'), ('h', None)]
    for form in ('str', 'list'):
        types = []
        for c, (x, v) in enumerate(EN):
            pre = ['PreExec="let h = pick(n);"'] if x == 'h' else []
            types.append(S(f'Se{"L" if form == "list" else "S"}{c}', F('n', 'u8'), F('a', 'u16'), Field('b', 'P0', *[attr(p) for p in pre], xattr('SetEndian', x, v, form)), F('c', 'u16'), F('d', 'P0', 'BigEndian'), F('e', 'P0', 'LittleEndian')))
        for part in chunks(types, 3): m.add(*part)
    m.add(S('TopN', F('a', 'P0'), F('b', 'u16'), attrs=['SetEndian(if n > 1 { nom::number::Endianness::Big } else { nom::number::Endianness::Little })'], args=['n: u8'], argvals=['0', '1', '2']), S('TopP', F('a', 'P0'), F('b', 'u16', 'BigEndian'), attrs=['PreExec="let e = nom::number::Endianness::Little;"', 'SetEndian="e"']), S('TopG', F('a', 'P0'), F('b', 'T'), attrs=['SetEndian="pick(3)"'], generics='<T>', inst=['<u16>', '<P0>']))
    # every attribute between the endianness and the type
    m.add(S('Th', F('n', 'u8'), F('a', 'Vec<P0>', 'Count="n & 1"', 'LittleEndian'), F('b', 'Option<P0>', 'Cond="n > 1"', 'BigEndian'), F('c', 'Vec<P0>', 'LengthCount="len8"', 'LittleEndian'), F('d', 'P0', 'Complete', 'LittleEndian'), F('e', 'P0', 'Debug', 'LittleEndian'), F('f', 'u16', 'Verify="*f != 3"', 'LittleEndian'), F('g', 'Option<Vec<P0>>', 'Cond="true"', 'Count="1"', 'LittleEndian')),
          S('Th2', F('n', 'u8'), F('a', 'Vec<P0>', 'Count="n & 1"'), F('b', 'Option<P0>', 'Cond="n > 1"'), F('c', 'Vec<P0>', 'LengthCount="len8"'), F('d', 'P0', 'Complete'), F('e', 'P0', 'Debug'), F('f', 'u16', 'Verify="*f != 3"'), F('g', 'Option<Vec<P0>>', 'Cond="true"', 'Count="1"')),
          S('Th3', F('n', 'u8'), F('a', 'Vec<P0>', 'Count="n & 1"'), F('b', 'Option<P0>', 'Cond="n > 1"'), F('c', 'Vec<P0>', 'LengthCount="len8"'), F('d', 'P0', 'Complete'), F('e', 'P0', 'Debug'), F('f', 'u16', 'Verify="*f != 3"'), F('g', 'Option<Vec<P0>>', 'Cond="true"', 'Count="1"'), derive='NomLE', attrs=['Complete']),
          S('Th4', F('n', 'u8'), F('a', 'Vec<P0>', 'Count="n & 1"'), F('b', 'Option<P0>', 'Cond="n > 1"'), F('c', 'Vec<P0>', 'LengthCount="len8"'), F('d', 'P0', 'Complete'), F('e', 'P0', 'Debug'), F('f', 'u16', 'Verify="*f != 3"'), F('g', 'Option<Vec<P0>>', 'Cond="true"', 'Count="1"'), attrs=['SetEndian(en)', 'Complete'], args=['en: nom::number::Endianness'], argvals=['nom::number::Endianness::Big', 'nom::number::Endianness::Little']))
    m.add(S('Cu', F('n', 'u8'), F('a', 'P0', 'LittleEndian', 'SkipBefore="1"'), F('b', 'P0', 'AlignAfter="2"', 'LittleEndian'), F('c', 'P0', 'Move="-1"'), F('d', 'P0', 'SetEndian="pick(n)"', 'SkipAfter="1"'), F('e', 'P0', 'MoveAbs="1"')), S('Er', F('n', 'u8'), F('a', 'P0', 'ErrorIf="n == 1"', 'LittleEndian'), F('b', 'P0', 'PreExec="let k = n;"', 'LittleEndian'), F('c', 'P0', 'LittleEndian', 'PostExec="let k = n;"'), F('d', 'P0')))
    m.add(S('Arr', F('a', '[P0; 2]'), F('b', '[P0; 2]', 'LittleEndian'), F('c', '[u16; 2]', 'BigEndian'), F('d', '[Option<P0>; 1]', 'LittleEndian') if 0 else F('d', '[[P0; 1]; 2]', 'LittleEndian')), S('ArrL', F('a', '[P0; 2]'), F('b', '[P0; 2]', 'LittleEndian'), F('c', '[u16; 2]', 'BigEndian'), derive='NomLE'), S('ArrD', F('n', 'u8'), F('a', '[P0; 2]', 'SetEndian="pick(n)"'), F('b', '[P0; 2]', 'LittleEndian'), F('c', '[u16; 2]')))
    m.add(S('St', F('a', 'String'), F('b', 'u16', 'LittleEndian')), S('StL', F('a', 'String'), F('b', 'u16'), derive='NomLE'), S('StA', F('a', 'String', 'LittleEndian'), F('b', 'String', 'BigEndian')))
    m.add(S('G', F('a', 'T'), F('b', 'T', 'LittleEndian'), F('c', 'Option<T>'), F('d', 'Vec<T>', 'Count="1"', 'BigEndian'), generics='<T>', inst=['<P0>', '<u16>']), S('Gl', F('a', 'T'), F('b', 'T', 'BigEndian'), F('c', 'Option<T>'), generics='<T>', inst=['<P0>'], derive='NomLE'), S('Gs', F('n', 'u8'), F('a', 'T', 'SetEndian="pick(n)"'), F('b', 'T'), generics='<T>', inst=['<P0>']))
    # variants: each starts again from the enum's own endianness
    m.add(E('Va', 'u8', V_('A', '0', [F('n', 'u8'), F('a', 'P0', 'SetEndian="pick(n)"'), F('b', 'P0')]), V_('B', '1', [T('P0'), T('u16')]), V_('C', '2', [F('a', 'P0', 'LittleEndian'), F('b', 'P0')]), V_('D', '_', [T('P0')]), argvals=['0', '1', '2', '3']), E('VaL', 'u8', V_('A', '0', [F('n', 'u8'), F('a', 'P0', 'SetEndian="pick(n)"'), F('b', 'P0')]), V_('B', '1', [T('P0'), T('u16')]), V_('C', '_', [T('P0', 'BigEndian'), T('P0')]), argvals=['0', '1', '2'], derive='NomLE'),
          E('VaA', 'u8', V_('A', '0', [F('n', 'u8'), F('a', 'P0', 'SetEndian="pick(n)"'), F('b', 'P0')]), V_('B', '1', [T('P0'), T('u16')]), V_('C', '_', [T('P0', 'BigEndian'), T('P0')]), argvals=['0', '1', '2'], attrs=['LittleEndian']), E('VaS', 'u8', V_('A', '0', [T('P0'), T('P0', 'BigEndian'), T('P0', 'LittleEndian')]), V_('B', '_', [F('a', 'Vec<P0>', 'Count="1"')]), argvals=['0', '1'], attrs=['SetEndian="pick(selector)"']))
    m.add(*[FL('F' + r + x, r, 'A', ('B', 1 if r in ('u8', 'i8') else 256), ('C', 2), derive=d, attrs=at) for r in ('u8', 'u16', 'i32', 'u64') for x, d, at in (('P', 'Nom', []), ('L', 'NomLE', []), ('B', 'NomBE', []), ('A', 'Nom', ['LittleEndian']), ('C', 'Nom', ['BigEndian']))])
    m.add(S('Nl', F('a', 'Pl'), F('b', 'Pl', 'LittleEndian'), F('c', 'Pl', 'BigEndian'), F('d', 'Bl'), F('e', 'Bl', 'BigEndian'), F('f', 'El', 'LittleEndian')), S('NlL', F('a', 'Pl'), F('b', 'Pl', 'LittleEndian'), F('c', 'Pl', 'BigEndian'), F('d', 'Bl'), F('e', 'Bl', 'BigEndian'), F('f', 'El'), derive='NomLE'), S('Pl', F('a', 'P0')), S('Bl', F('a', 'P0'), attrs=['LittleEndian']), FL('El', 'u16', 'A', ('B', 256)))
    # every pair of wrapping attributes, over types whose layout depends on the byte order
    for leaf, tag in (('u16', 'u'), ('Pz', 's')):
        for c, part in enumerate(chunks([x for x in wrap_pairs() if (leaf == 'Pz' or 'Into' not in x) and tuple(x) not in UNTYPED], 5)):
            fs = lambda: [F('n', 'u8')] + [wrapped(f'f{j}', ch, leaf) for j, ch in enumerate(part)]
            fd = lambda: [F('n', 'u8')] + [wrapped(f'f{j}', ch, leaf, [attr('SetEndian="pick(n)"')] if j == 0 else []) for j, ch in enumerate(part)]
            m.add(S(f'W{tag}{c}', *fs()), S(f'W{tag}D{c}', *fd()), S('Pz', F('a', 'u16')))
    return m

@prop('C10')
def c10x():
    m = Mods('sf')
    av = ['0', '1', '2', '3', '100', '200', '255']
    P = [T('P0')]
    m.add(E('G0', 'u8', V_('A', '_ if selector > 100', P, form='list', cond='selector > 100'), V_('B', '1', [T('P1')]), V_('C', '_', [T('u8')]), argvals=av), E('G1', 'u8', V_('D', '_', [T('u8')]), V_('A', '_ if selector > 100', P, form='list', cond='selector > 100'), V_('B', '1', [T('P1')]), argvals=av),
          E('G2', 'u8', V_('A', '_ if selector > 100', P, form='list', cond='selector > 100'), V_('B', '_ if selector == 1', [T('P1')], cond='selector == 1'), argvals=av), E('G3', 'u8', V_('B', '1', [T('P1')]), V_('A', '_ if k > 1', P, cond='k > 1'), V_('C', '2', [T('u8')]), V_('D', '_', [T('u16')]), args=['k: u16'], argvals=['0, 0', '1, 0', '2, 0', '2, 2', '1, 2', '9, 2']))
    m.add(E('B0', 'u8', V_('A', 'x @ 1..=5', P, form='list', cond='(1 <= selector && selector <= 5)'), V_('B', 'x @ (6 | 8)', [T('P1')], form='list', cond='(selector == 6 || selector == 8)'), V_('C', 'x', [T('u8')], cond='true'), argvals=['0', '1', '5', '6', '7', '8']),
          E('B1', 'u8', V_('A', 'x @ 1..=5 if x != 3', [F('v', 'u8', 'Value="x"')], form='list', cond='(1 <= selector && selector <= 5) && selector != 3'), V_('C', '_', [T('u8')]), argvals=['0', '1', '3', '5', '6']) if 0 else E('B1', 'u8', V_('A', 'x @ 1..=5 if x != 3', P, form='list', cond='(1 <= selector && selector <= 5) && selector != 3'), V_('C', '_', [T('u8')]), argvals=['0', '1', '3', '5', '6']))
    m.add(E('R0', 'u8', V_('A', '..=3', P, cond='selector <= 3'), V_('B', '200..', [T('P1')], cond='200 <= selector'), V_('C', '4..=199', [T('u8')]), argvals=['0', '3', '4', '199', '200', '255']), E('R1', 'u8', V_('A', '..3', P, cond='selector < 3'), V_('B', '3..200', [T('P1')], cond='(3 <= selector && selector < 200)'), V_('C', '_', [T('u8')]), argvals=['0', '2', '3', '199', '200', '255']), E('R2', 'i8', V_('A', 'i8::MIN..=-1', P, cond='selector <= -1'), V_('B', '0', [T('P1')]), V_('C', '1..', [T('u8')], cond='1 <= selector'), argvals=['-128', '-1', '0', '1', '127']), verus=False)
    m.add(E('S0', "&'static str", V_('A', '"ab"', P, form='list', cond='selector == "ab"'), V_('B', '""', [T('P1')], form='list', cond='selector == ""'), V_('C', '_', [T('u8')]), argvals=['"ab"', '""', '"x"'], selform='list'), E('S1', "&'static [u8]", V_('A', 'b"ab"', P, form='list', cond='selector == b"ab"'), V_('B', '[1, ..]', [T('P1')], form='list', cond='selector.first() == Some(&1)'), V_('C', '_', [T('u8')]), argvals=['b"ab"', '&[1, 2]', '&[]'], selform='list'),
          E('S2', 'Option<u8>', V_('A', 'Some(1)', P, form='list', cond='selector == Some(1)'), V_('B', 'Some(_)', [T('P1')], form='list', cond='selector.is_some()'), V_('C', 'None', [T('u8')], cond='true'), argvals=['Some(1)', 'Some(2)', 'None'], selform='list'), E('S3', 'std::cmp::Ordering', V_('A', 'std::cmp::Ordering::Less', P, cond='selector == std::cmp::Ordering::Less'), V_('B', '_', [T('P1')]), argvals=['std::cmp::Ordering::Less', 'std::cmp::Ordering::Equal']),
          E('S4', 'W<u8>', V_('A', 'W(0)', P, form='list', cond='selector.0 == 0'), V_('B', 'W(x) if x > 3', [T('P1')], form='list', cond='selector.0 > 3'), V_('C', '_', [T('u8')]), argvals=['W(0)', 'W(2)', 'W(9)'], selform='list'), E('S5', '[u8; 2]', V_('A', '[0, _]', P, form='list', cond='selector[0] == 0'), V_('B', '[_, 0 | 1]', [T('P1')], form='list', cond='selector[1] < 2'), argvals=['[0, 0]', '[1, 1]', '[1, 2]'], selform='list'), E('S6', '&u8', V_('A', '0', P, cond='*selector == 0'), V_('B', '&1', [T('P1')], form='list', cond='*selector == 1'), V_('C', '_', [T('u8')]), argvals=['&0', '&1', '&2'], selform='list'), verus=False)
    m.add(*[E('W' + t, t, V_('A', '0', P), V_('B', mx, [T('P1')], cond=f'selector == {mx}'), V_('C', '1..=9', [T('u8')]), argvals=['0', '9', '10', mx]) for t, mx in (('u16', '65535'), ('u32', '4294967295'), ('u64', '18446744073709551615'), ('u128', '340282366920938463463374607431768211455'), ('usize', '18446744073709551615'), ('i32', '2147483647'), ('i64', '9223372036854775807'))])
    m.add(*[E('V' + t, t, V_('A', str(1 << 8), P), V_('B', str(1 << 9), [T('P1')]), V_('C', '0', [T('u8')]), V_('D', '_', [T('u16')]), argvals=['0', '256', '512', '1']) for t in ('u16', 'u32', 'u64', 'i16', 'i32')])
    m.add(E('X32', 'u32', V_('A', '0', P), V_('B', '65536', [T('P1')]), V_('C', '1', [T('u8')]), argvals=['0', '1', '65536', '65537']), E('X64', 'u64', V_('A', '0', P), V_('B', '4294967296', [T('P1')]), V_('C', '1', [T('u8')]), argvals=['0', '1', '4294967296', '4294967297']), E('X128', 'u128', V_('A', '0', P), V_('B', '18446744073709551616', [T('P1')]), V_('C', '1', [T('u8')]), argvals=['0', '1', '18446744073709551616', '18446744073709551617']))
    m.add(E('Many', 'u16', *[V_(f'V{k}', str(7 * k), [T(['P0', 'P1', 'u8'][k % 3])]) for k in range(70)], argvals=['0', '7', '8', '483', '490', '128', '448']))
    m.add(E('Sn', 'u8', V_('A', '0', [F('selector', 'u8'), F('b', 'P0')]), V_('B', '1', [F('struct_def', 'u8'), F('enum_def', 'u8')]), V_('C', '_', [T('u8'), T('u8', 'Value="selector"')]), argvals=['0', '1', '2']), E('Nd', 'u8', V_('A', '0', [F('x', 'In0'), F('y', 'Option<In0>')]), V_('B', '_', [T('Vec<In0>', 'Count="2"')]), argvals=['0', '1']), S('In0', F('a', 'u8'), F('b', 'P0')))
    m.add(E('Ce', 'u8', V_('A', '0', [T('u16')]), V_('B', '1'), argvals=['0', '1', '2'], attrs=['Complete', 'Exact']), E('Cl', 'u8', V_('A', '0', [T('u16')]), V_('B', '1', attrs=['Parse=be_u16']), argvals=['0', '1', '2'], derive='NomLE'), E('Cg', 'u8', V_('A', '0', [T('u16')]), V_('B', '1', [F('v', 'P0', 'ErrorIf="selector == 1"')]), argvals=['0', '1', '2'], attrs=['GenericErrors']), E('Cn', 'u8', V_('A', '0', [T('u16')]), V_('B', '_'), argvals=['0', '1'], attrs=['InputName(data)', 'PreExec="let k = data.len();"']), E('Cs', 'u8', V_('A', '0', [T('u16')]), V_('B', '2', [T('P0')]), argvals=['0', '1', '2'], attrs=['PreExec="let selector = selector & 2;"']))
    m.add(E('Un', 'u16', V_('A', 'K_', P, cond='selector == K_'), V_('B', '1..=9', [T('P1')]), V_('C', '_x @ 12..=20', [T('u8')], form='list', cond='(12 <= selector && selector <= 20)'), V_('D', '11..=30', [T('u16')]), V_('E', 'y_ if y_ > 900', [T('u8'), T('u8')], form='list', cond='selector > 900'), V_('F', '901..=1000', [T('u8')]), V_('G', '_', [T('u32')]), argvals=['3', '4', '15', '25', '950', '31', '5000']),
          E('Uo', 'u16', V_('A', '40 | K_', P, form='list', cond='(selector == 40 || selector == K_)'), V_('B', '_', [T('P1')]), V_('C', '3..=50', [T('u8')]), argvals=['3', '40', '41', '60']), extra='pub const K_: u16 = 3; ')
    m.add(E('Cp', 'u16', V_('A', 'K1', P), V_('B', 'K2', [T('P1')]), V_('C', 'self::K4', [T('u8')], cond='selector == K4'), V_('D', 'u16::MAX', [T('u16')], cond='selector == u16::MAX'), argvals=['1', '2', '4', '65535', '0']), extra='pub const K1: u16 = 1; pub const K2: u16 = 2; pub const K4: u16 = 4;')
    # raw identifiers, as names of fields, of variants and of the enum
    m.add(E('Rw', 'u8', V_('A', '0', [F('r#type', 'u8'), F('r#match', 'P0', 'Verify="true"'), F('c', 'u16', 'Cond="r#type > 1"') if 0 else F('c', 'Vec<u8>', 'Count="r#type"')]), V_('r#fn', '1', [T('P1')]), V_('r#in', '2'), V_('D', '_', [F('r#struct', 'u8', 'Debug'), F('r#use', 'P0', 'LittleEndian')]), argvals=['0', '1', '2', '3']),
          E('r#enum', 'u8', V_('r#move', '1', [T('u8')]), V_('B', '_', [F('r#ref', 'P0')]), argvals=['1', '2'], derive='NomLE'))
    return m

@prop('C11')
def c11x():
    m = Mods('fm')
    for r, big in (('u16', 256), ('u32', 1 << 16), ('u64', 1 << 32), ('i16', 256), ('i32', 1 << 16), ('i64', 1 << 32)):
        m.add(FL('A' + r, r, 'A', ('B', big), 'C', ('D', 1)), FL('B' + r, r, ('A', big + 1), ('B', 1)), FL('C' + r, r, ('A', 5), ('B', big * 2 + 5)), directed=True)
    m.add(*[FL('A' + r, r, ('A', 1), ('B', 2), 'C', derive=d) for r in ('u128', 'i128') for d in ('Nom',)], FL('Ls', 'u128', ('A', 1), ('B', 2), derive='NomLE'), directed=True)
    m.add(FL('Q128', 'u128', ('A', 1), ('B', 0x7fff_ffff_ffff_ffff), ('C', 3)), FL('Qi128', 'i128', ('A', -1), ('B', 1), ('C', -0x8000_0000_0000_0000)), FL('Qi64', 'i64', ('A', -0x8000_0000_0000_0000), ('B', 0x7fff_ffff_ffff_ffff), ('C', 0)), FL('Qu64', 'u64', ('A', 0x7fff_ffff_ffff_ffff), 'B', ('C', 0xffff_ffff_ffff_ffff)), FL('Qi8', 'i8', ('A', 127), ('B', -128), ('C', -1), 'D'), FL('Qu32', 'u32', ('A', 0xffff_ffff), ('B', 0x8000_0000), 'C'), directed=True)
    m.add(FL('Many', 'u16', *[f'V{k}' if k % 9 else (f'V{k}', 3 * k) for k in range(1, 280)]), verus=False)
    m.add(FL('Rev', 'u8', ('A', 9), ('B', 8), ('C', 7), ('D', 6)), FL('Gap', 'i16', ('A', -300), 'B', ('C', 300), 'D', ('E', 0), 'F'), FL('Nm', 'u8', 'Ok_', 'Err_', 'None_', 'Some_'), FL('Sel', 'u8', 'Selector', 'Input', 'I'))
    m.add(FL('Cb', 'u32', 'A', ('B', 256), attrs=['Complete', 'Exact', 'LittleEndian']), FL('Px', 'u8', ('A', 1), 'B', attrs=[Attr('PreExec', Stmt('let i = if i.len() > 1 { &i[1..] } else { i };', 'let i = if i.slen() > 1 { i.sfrom(1) } else { i };'), 'list')]), FL('Py', 'u8', ('A', 1), 'B', attrs=[Attr('PostExec', Stmt('let i = if i.len() > 1 { &i[1..] } else { i };', 'let i = if i.slen() > 1 { i.sfrom(1) } else { i };'), 'list'), 'Exact']), FL('Pz', 'u16', ('A', 1), ('B', 256), attrs=['PreExec="let k = i.len();"', 'InputName(i)', 'LittleEndian']), FL('Gc', 'u16', ('A', 1), ('B', 256), attrs=['GenericErrors', 'Complete', 'Exact']))
    m.add(FL('Ki', 'u16', ('A', 0), 'B', ('C', 256)), S('U1', F('a', 'Ki', 'LittleEndian'), F('b', 'Ki', 'BigEndian'), F('c', 'Ki'), F('z', 'u8')), S('U2', F('n', 'u8'), F('v', 'Vec<Ki>', 'Count="n & 3"'), F('o', 'Option<Ki>', 'Cond="n > 1"'), F('w', '[Ki; 2]'), derive='NomLE'), S('U3', F('a', 'Ki', 'Complete'), F('b', '(Ki, Ki)', 'Ignore') if 0 else F('b', 'Option<(Ki, Ki)>'), F('c', 'Vec<Ki>')), S('U4', F('a', 'Ki', 'SkipBefore="1"', 'AlignAfter="4"'), F('b', 'Ki', 'Verify="*b == Ki::B"'), F('z', 'u8')) if 0 else S('U4', F('a', 'Ki', 'SkipBefore="1"', 'AlignAfter="4"'), F('z', 'u8')))
    m.add(E('Eu', 'u8', V_('A', '0', [T('Kj'), T('u8')]), V_('B', '1', [F('v', 'Vec<Kj>', 'Count="2"'), F('k', 'Kj', 'LittleEndian')]), argvals=['0', '1', '2']), FL('Kj', 'u16', 'X', ('Y', 256), 'Z'), S('Dy', F('n', 'u8'), F('a', 'Kj', 'SetEndian="pick(n)"'), F('b', 'Kj')))
    m.add(FL('RawV', 'u8', 'r#type', ('r#match', 7), 'C'), FL('r#loop', 'u16', 'r#if', ('r#else', 300)))
    return m

@prop('C12')
def c12x():
    m = Mods('cp')
    ch = [('Cond', 'Option<{}>', 'Cond="n > 1"'), ('Count', 'Vec<{}>', 'Count="n & 1"'), ('LengthCount', 'Vec<{}>', 'LengthCount="len8"'), ('Verify', '{}', 'Verify="true"'), ('Debug', '{}', 'Debug'), ('LittleEndian', '{}', 'LittleEndian'), ('Complete', '{}', 'Complete')]
    k = 0
    for nm, w, at in ch:
        for t in ('u16', 'P1'):
            a = S(f'A{k}', F('n', 'u8'), F('a', w.format(t), 'Complete', at), F('z', 'u16')); b = S(f'B{k}', F('n', 'u8'), F('a', w.format(t), at, 'Complete'), F('z', 'u16')); c = S(f'C{k}', F('n', 'u8'), F('a', w.format(t), at), F('z', 'u16'), attrs=['Complete']); k += 1
            m.add(*([a, c] if nm == 'Debug' else [a, b, c]))
    m.add(S('D0', F('a', 'u16', 'Complete', 'Map="m8"', 'Parse="up8"'), F('b', 'u16', 'Map="m8"', 'Complete', 'Parse="up8"'), F('c', 'u16', 'Complete', 'Into', 'Parse=be_u8') if 0 else F('c', 'u32', 'Map="m16"', 'Complete', 'Parse=be_u16')), S('D1', F('a', 'u16', 'Map="m8"', 'Parse="up8"'), F('b', 'u32', 'Map="m16"', 'Parse=be_u16'), attrs=['Complete']))
    m.add(S('X0', F('n', 'u8'), F('v', 'Vec<Vec<u16>>', 'Count="n & 1"', 'Complete', 'Count="2"'), F('o', 'Option<Vec<u16>>', 'Complete', 'Cond="n > 1"', 'Count="2"')), S('X1', F('n', 'u8'), F('v', 'Vec<Vec<u16>>', 'LengthCount="len8"', 'Count="2"', 'Complete'), F('o', 'Option<Option<u16>>', 'Cond="n > 1"', 'Complete', 'Cond="n > 2"')), S('X2', F('n', 'u8'), F('v', 'Vec<Option<u16>>', 'Complete', 'Count="2"', 'Cond="n > 1"'), attrs=['Complete']))
    m.add(S('K0', F('a', 'u8'), F('b', 'u16', 'Complete', 'SkipAfter="1"'), F('c', 'u16', 'SkipBefore="1"', 'Complete'), F('d', 'u8', 'Complete', 'AlignBefore="4"')), S('K1', F('a', 'u8', 'SkipBefore="1"'), F('b', 'u16', 'AlignAfter="4"'), F('c', 'u8', 'Move="1"'), F('d', 'u8', 'MoveAbs="9"'), attrs=['Complete']))
    m.add(*[S('T' + t, F('a', 'u8'), F('b', t, 'Complete')) for t in PR[1:6]])
    m.add(*[S('U' + t, F('a', 'u8'), F('b', t), attrs=['Complete']) for t in PR[4:12]])
    m.add(S('S0', F('a', 'u8'), F('b', 'u32')), S('S1', F('a', 'S0', 'Complete'), F('v', 'Vec<S0>', 'Count="1"'), F('o', 'Option<S0>', 'Complete')), S('S2', F('a', 'S0'), F('v', 'Vec<S0>', 'Count="1"'), attrs=['Complete'], derive='NomLE'), S('S3', T('S0', 'Complete'), T('u16')), S('S4', T('S0'), T('u16', 'Verify="true"') if 0 else T('u16'), attrs=['Complete', 'Exact']))
    m.add(E('E0', 'u8', V_('A', '0', [F('n', 'u8'), F('v', 'Vec<u16>', 'Count="n & 1"')]), V_('B', '1', [T('u16'), T('S5')]), V_('C', '2', attrs=['Parse=be_u32']), V_('D', '_', [T('u64')]), attrs=['Complete'], argvals=['0', '1', '2', '3']), E('E1', 'u8', V_('A', '0', [F('n', 'u8'), F('v', 'Vec<u16>', 'Complete', 'Count="n & 1"')]), V_('B', '1', [T('u16'), T('S5', 'Complete')]), V_('C', '2', attrs=['Parse=be_u32']), V_('D', '_', [T('u64')]), argvals=['0', '1', '2', '3']), S('S5', F('a', 'u32')))
    m.add(*[FL('F' + r, r, ('A', 1), 'B', attrs=['Complete']) for r in ('u8', 'u16', 'i32', 'u64', 'u128')])
    m.add(S('Ge', F('n', 'u8'), F('a', 'Vec<u16>', 'Complete', 'Count="n & 1"'), F('b', 'Option<u16>', 'Cond="n > 1"', 'Complete'), F('c', 'u32', 'Complete'), attrs=['GenericErrors']), S('Gt', F('a', 'T', 'Complete'), F('b', 'T'), generics='<T>', inst=['<u16>', '<P1>']), S('Gu', F('a', 'T'), F('b', 'T'), generics='<T>', inst=['<u16>', '<P1>'], attrs=['Complete']), S('Ar', F('a', '[u16; 2]', 'Complete'), F('b', '[P1; 2]'), F('c', 'Option<(u16, u8)>', 'Complete')))
    m.add(S('Hk', F('a', 'u16', 'PreExec="let k = i.len();"', 'Complete', 'PostExec="let l = k;"'), F('b', 'usize', 'Value="l"'), F('c', 'u16', 'ErrorIf="a == 1"', 'Complete'), attrs=['PreExec="let z = i.len();"']), S('Se', F('n', 'u8'), F('a', 'u16', 'SetEndian="pick(n)"', 'Complete'), F('b', 'u16', 'Complete'), F('c', 'Vec<u16>', 'Complete', 'Count="1"')), S('St', F('n', 'u8'), F('a', 'u16', 'SetEndian="pick(n)"'), F('b', 'u16'), attrs=['Complete']))
    return m

@prop('C04')
def c04x():
    m = Mods('sr')
    m.add(S('Nn', F('_pad', 'u8'), F('len', 'u16'), F('data', 'u8'), F('input', 'P0'), F('align', 'u8'), F('skip', 'P1'), F('selector', 'u8'), F('e', 'u8'), F('x', 'u8')), S('N2', F('orig', 'u8'), F('__x', 'P0'), F('reserved', 'u8'), F('self_', 'u8'), F('nom', 'u8'), F('o', 'u16'), F('_0', 'u8'), F('A', 'P0'), F('padding', 'u16')), S('N3', F('count', 'u8'), F('map', 'P0'), F('take', 'u8'), F('r#fn', 'u8'), F('r#loop', 'P0'), F('res', 'u8'), F('rem', 'u8')))
    m.add(S('Tw', *[T(['u8', 'P0', 'P1'][k % 3]) for k in range(14)]))
    m.add(S('Wd', *[F(f'f{k}', ['u8', 'P0', 'P1'][k % 3]) for k in range(40)]), verus=False)
    m.add(S('Same', *[F(f'f{k}', 'P0') for k in range(6)]), S('SameT', *[T('P1') for k in range(5)]), S('One1', F('a', 'P0')), S('OneT', T('u128')), S('E0'), S('Z', F('a', 'E0'), F('b', 'E0'), F('c', 'u8')))
    m.add(*[S('O' + t, F('a', 'u8'), F('o', f'Option<{t}>'), F('z', 'P0')) for t in ('u8', 'u16', 'u32', 'u64', 'P0', 'P1')])
    m.add(*[S('V' + t, F('a', 'u8'), F('v', f'Vec<{t}>'), F('z', 'Option<u8>')) for t in ('u8', 'u16', 'u32', 'P0', 'P1', 'Pd')])
    m.add(*[S('A' + t, F('a', 'u8'), F('v', f'[{t}; 3]'), F('z', 'P0')) for t in ('u8', 'u16', 'i8', 'P0', 'P1', 'Pd')])
    m.add(S('OO', F('a', 'Option<Option<P0>>'), F('b', 'Option<Vec<u16>>'), F('c', 'Vec<Option<P0>>') if 0 else F('c', 'u8')), S('AA', F('a', '[[u8; 2]; 2]'), F('b', 'Option<[P1; 2]>'), F('c', 'Vec<[u16; 2]>')), S('TT', F('a', 'Option<(u8, (u16, P0))>'), F('b', 'Vec<(u8, (P0, P1))>')), S('SS', F('a', 'Option<String>'), F('b', 'Vec<String>')))
    m.add(S('L1', F('a', 'u8'), F('b', 'P0')), S('L2', F('a', 'L1'), F('b', 'L1')), S('L3', F('a', 'L2'), F('b', 'Option<L2>'), F('c', 'u8')), S('L4', F('a', 'Vec<L3>', 'Count="1"'), F('b', '[L2; 2]'), F('c', 'L1')))
    m.add(FL('Fx', 'u8', 'A', 'B', 'C'), S('Fy', F('a', 'Fx'), F('b', 'Option<Fx>'), F('c', 'u8')), S('Fz', F('a', 'Fy'), F('b', 'Vec<Fy>')))
    m.add(S('Long', F('n', 'u16'), F('v', 'Vec<u16>'), F('o', 'Option<u8>')), S('LongS', F('s', 'String'), F('z', 'u8')), S('LongA', F('s', '[u8; 300]'), F('z', 'u8')), long=True)
    m.add(S('Gp', F('a', 'A'), F('b', 'B'), F('c', 'Option<A>'), F('d', 'Vec<B>', 'Count="1"'), generics='<A, B>', inst=['<u8, u16>', '<P0, P1>']), verus=False)
    m.add(S('MyVecs', F('a', 'u8'), F('b', 'P0')), S('OptionY', F('a', 'P1')), S('PhantomDataY', F('a', 'u8')), S('Strings', F('a', 'u16')), S('XOption', F('a', 'P0')), S('U8', F('a', 'u16')), S('Us', F('a', 'MyVecs'), F('b', 'OptionY'), F('c', 'PhantomDataY'), F('d', 'Strings'), F('e', 'Option<XOption>'), F('f', 'U8')))
    m.add(S('RwS', F('r#type', 'u8', 'Debug'), F('r#fn', 'P0', 'Verify="true"'), F('r#in', 'Vec<u8>', 'Count="r#type"')), S('r#mod', T('P1'), T('u8')))
    return m

@prop('C14')
def c14x():
    m = Mods('hl')
    mv = lambda i='i': Stmt(f'let {i} = if {i}.len() > 1 {{ &{i}[1..] }} else {{ {i} }};', f'let {i} = if {i}.slen() > 1 {{ {i}.sfrom(1) }} else {{ {i} }};')
    H = lambda k, i='i': Attr(k, mv(i), 'list')
    Hs = lambda k, i='i': Attr(k, mv(i), 'str')
    m.add(S('A0', F('a', 'u8'), F('b', 'P0'), attrs=[H('PreExec')]), S('A1', F('a', 'u8'), F('b', 'P0'), attrs=[H('PostExec')]), S('A2', Field('a', 'u8', H('PreExec')), Field('b', 'P0', H('PostExec')), F('c', 'u8')), S('A3', F('a', 'u8'), F('b', 'usize', 'Value="k"'), attrs=[attr('PreExec="let k = i.len();"'), H('PreExec')]), S('A4', F('a', 'u8'), F('b', 'usize', 'Value="k"'), attrs=[H('PreExec'), attr('PreExec="let k = i.len();"')]))
    m.add(S('B0', Field('a', 'u8', H('PreExec'), attr('SkipBefore="1"'), attr('PreExec="let k = i.len();"')), F('k2', 'usize', 'Value="k"')), S('B1', Field('a', 'u8', attr('PreExec="let k = i.len();"'), attr('AlignBefore="4"'), H('PreExec')), F('k2', 'usize', 'Value="k"'), F('c', 'u8')), S('B2', Field('a', 'u8', H('PostExec'), attr('AlignAfter="4"'), attr('PostExec="let k = i.len();"')), F('k2', 'usize', 'Value="k"')), S('B3', Field('a', 'u8', attr('SkipAfter="1"'), attr('PostExec="let k = i.len();"'), H('PostExec')), F('k2', 'usize', 'Value="k"'), F('c', 'u8')),
          S('B4', Field('a', 'u8', Hs('PreExec'), Hs('PreExec'), Hs('PostExec')), F('c', 'P0')), S('B5', F('a', 'u16'), Field('b', 'u8', attr('MoveAbs="1"'), H('PreExec'), attr('Move="-1"')), F('c', 'u8')))
    m.add(S('C0', F('a', 'u8'), F('b', 'P0', 'ErrorIf="k < 3"', 'PreExec="let k = 9usize;"'), attrs=['PreExec="let k = i.len();"']), S('C1', F('a', 'u8'), F('b', 'P0', 'PreExec="let k = 9usize;"', 'ErrorIf="k < 3"'), attrs=['PreExec="let k = i.len();"']), S('C2', F('a', 'u8'), F('b', 'Vec<P0>', 'PreExec="let k = a & 1;"', 'Count="k"'), F('c', 'Option<P0>', 'Cond="k == 1"', 'PreExec="let k = 1u8;"'), F('d', 'u8', 'Value="k"')), S('C3', F('a', 'u8'), F('b', 'u8', 'PreExec="let k = a;"', 'Value="k"', 'PostExec="let k = b ^ 7;"'), F('c', 'u8', 'Value="k"'), F('d', 'u8', 'Verify="*d != k"')), S('C4', F('a', 'u8'), F('b', 'P0', 'PreExec="let e = pick(a);"', 'SetEndian="e"', 'PostExec="let e = nom::number::Endianness::Little;"'), F('c', 'P0'), F('d', 'P0', 'SetEndian="e"')))
    m.add(S('D0', F('a', 'u8', 'PostExec="let a = a ^ 1;"'), F('b', 'u8', 'PostExec="let (a, b) = (b, a);"'), F('c', 'u8', 'Value="a"')), S('D1', T('u8', 'PostExec="let _0 = _0 ^ 1;"'), T('u8', 'PreExec="let k = _0;"', 'PostExec="let _1 = k;"'), T('u8', 'Value="_1"')), S('D2', F('a', 'u8'), F('b', 'u8'), attrs=['PostExec="let struct_def = D2 { a: b, b: a };"']), S('D3', T('u8'), T('u8'), attrs=['PostExec="let struct_def = D3(_1, struct_def.0);"']))
    m.add(*[E('E' + n, 'u8', V_('A', '0', [Field('a', 'u8', H('PreExec')), F('b', 'usize', 'Value="k"')]), V_('B', '1', [T('u8'), Field('', 'P0', H('PostExec')), T('usize', 'Value="i.len()"')]), Variant('C', '2', 'selector == 2', [], 'unit', [H('PreExec')]), Variant('D', '3', 'selector == 3', [], 'unit', [attr('Parse="up"'), H('PostExec'), attr('SkipAfter="1"')]), V_('F', '_', [F('x', 'u8', 'Value="selector"')]), attrs=at, argvals=['0', '1', '2', '3', '4'])
            for n, at in (('a', [attr('PreExec="let k = i.len();"'), H('PreExec')]), ('b', [H('PreExec'), attr('PreExec="let k = i.len();"'), H('PostExec')]), ('c', [H('PostExec'), attr('PreExec="let k = i.len();"'), attr('Exact')]))])
    m.add(S('F0', F('a', 'u8'), F('b', 'usize', 'Value="data.len()"'), Field('c', 'P0', H('PreExec', 'data')), attrs=['InputName(data)']), S('F1', Field('a', 'u8', H('PostExec', 'x')), F('b', 'P0', 'Move="-1"'), attrs=[attr('InputName="x"'), H('PreExec', 'x'), H('PostExec', 'x')]), S('F2', F('a', 'u8'), F('inp', 'u8'), F('b', 'usize', 'Value="orig_q.len()"'), attrs=['InputName="q"']) if 0 else S('F2', F('i', 'u8'), F('b', 'u8', 'AlignBefore="4"'), F('c', 'u8', 'Value="i"'), attrs=['InputName="q"', 'Exact']), E('F3', 'u8', V_('A', '0', [F('i', 'u8'), F('j', 'u8', 'SkipBefore="i & 1"')]), V_('B', '_', [T('u8', 'AlignAfter="2"'), T('u8', 'MoveAbs="0"')]), attrs=['InputName(inp)', 'Exact'], argvals=['0', '1']), FL('F4', 'u8', 'A', 'B', attrs=[attr('InputName(inp)'), H('PreExec', 'inp'), attr('Exact')]))
    # extra arguments: order, shadowing, use everywhere
    m.add(S('G0', F('a', 'Vec<P0>', 'Count="x & 1"'), F('b', 'Option<u8>', 'Cond="y"'), F('c', 'u8', 'SkipBefore="z & 1"', 'Verify="*c != x"'), F('d', 'u16', 'Value="z"'), args=['x: u8', 'y: bool', 'z: u16'], argvals=['0, true, 1', '1, false, 2', '3, true, 0']), S('G1', F('x', 'u8'), F('y', 'u8', 'Value="x"'), args=['x: u8'], argvals=['5']), S('G2', F('a', 'u8', 'ErrorIf="b > a"') if 0 else F('c', 'u8', 'ErrorIf="b > a"'), F('d', 'u8', 'Value="a"'), F('e', 'u8', 'Value="b"'), args=['b: u8', 'a: u8'], argvals=['1, 2', '2, 1', '0, 0']), S('G3', T('u8', 'Value="a"'), T('u8', 'Value="b"'), T('P0'), args=['a: u8', 'b: u8'], argvals=['1, 2']),
          E('G4', 'u8', V_('A', '0', [F('x', 'u8', 'Value="a"'), F('y', 'u8', 'Value="b"')]), V_('B', '_', [T('u8', 'Value="b"'), T('Vec<P0>', 'Count="a & 1"')]), args=['a: u8', 'b: u8'], argvals=['0, 1, 2', '1, 1, 2']), S('G5', F('v', 'u8', 'Value="a"'), F('w', 'u16', 'Value="s"'), args=['a: u8', 's: u16'], argvals=['1, 2'], attrs=['PreExec="let a = a ^ 3;"', 'LittleEndian']))
    m.add(S('H0', F('d', "&'a [u8]", 'Value="d"') if 0 else F('n', 'usize', 'Value="d.len()"'), F('x', 'u8', 'Value="d[0]"'), args=['d: &[u8]'], argvals=['b"ab"']), S('H1', F('n', 'u8', 'PreExec="k += 1;"', 'Value="k"', 'PostExec="k += 2;"'), F('m', 'u8', 'Value="k"'), args=['mut k: u8'], argvals=['3']), S('H2', F('n', 'u8', 'Value="*k"'), F('m', 'usize', 'Value="v.len()"'), args=['k: &u8', 'v: Vec<u8>'], argvals=['&3, vec![1, 2]']), S('H3', F('n', 'u8', 'Map="f"', 'Parse="up8"') if 0 else F('n', 'u8', 'Value="f(3)"'), args=['f: fn(u8) -> u8'], argvals=['m8b']), S('H4', F('n', '(u8, u16)', 'Value="t"'), F('o', 'u8', 'Value="o.unwrap_or(9)"'), args=['t: (u8, u16)', 'o: Option<u8>'], argvals=['(1, 2), None', '(3, 4), Some(1)']), verus=False)
    # hooks with other kinds of statements (native)
    ST = ['let mut k = 0u8; ', 'let k = { let a = 1u8; a + 1 };', 'let k: u8 = 4;', 'let W(k) = W(5u8);', 'let (k, _l) = (6u8, 7u8);', 'let [k, _] = [1u8, 2];', 'let k = if i.len() > 2 { 1u8 } else { 2 };', 'let k = loop { break 3u8; };', 'let k = match i.first() { Some(b) => *b, None => 0 };', 'let k = i.iter().fold(0u8, |a, b| a ^ b);', 'let Some(k) = Some(8u8) else { return Err(nom::Err::Error(nom::error::make_error(i, nom::error::ErrorKind::Alt))); };', 'const KK: u8 = 9; let k = KK;', 'fn ff() -> u8 { 3 } let k = ff();', 'let k = 1u8; let k = k + 1;', 'let k = "a,b;".len() as u8;']
    for c, st in enumerate(ST):
        f = 'list' if '"' in st or st.count(';') > 2 or st.startswith(('const', 'fn')) or st.endswith('; ') else 'str'
        multi = st.count(';') > 1 and '{' not in st or st.startswith(('const', 'fn'))
        f = 'list' if multi else f
        m.add(S(f'Ia{c}', Field('a', 'u8', Attr('PreExec', Stmt(st, ''), f)), F('b', 'u8', 'Value="k"')), S(f'Ib{c}', Field('a', 'u8', Attr('PostExec', Stmt(st, ''), 'list')), F('b', 'u8', 'Value="k"')), S(f'Ic{c}', F('a', 'u8'), F('b', 'u8', 'Value="k"'), attrs=[Attr('PreExec', Stmt(st, ''), f)]), S(f'Id{c}', F('a', 'u8'), attrs=[Attr('PostExec', Stmt(st, ''), 'list')]), verus=False)
    # grouping: any split of the same attributes
    import itertools
    base = lambda f: [Attr('SkipBefore', X('1'), f[0]), Attr('PreExec', Stmt('let k = i.len();'), f[1]), Attr('Cond', X('n > 1'), f[2]), Attr('ErrorIf', X('k < 2'), f[3]), Attr('LittleEndian'), Attr('AlignAfter', X('2'), f[4])]
    ts = []
    for c, (g, f) in enumerate([(None, 'sssss'), ([1] * 6, 'lllll'), ([3, 3], 'slsls'), ([2, 2, 2], 'lslsl'), ([5, 1], 'sslls'), ([1, 5], 'llsss'), ([2, 4], 'sllll')]):
        ts.append(S(f'J{c}', F('n', 'u8'), Field('o', 'Option<P0>', *base([{'s': 'str', 'l': 'list'}[x] for x in f]), groups=g), F('z', 'u8')))
    m.add(*ts)
    m.add(*[S(f'K{c}', F('n', 'u8'), Field('o', 'Option<Vec<P0>>', *[[attr('Cond="n > 1"'), attr('Count="n & 1"')][j] if j < 2 else attr(['LittleEndian', 'SkipBefore="1"', 'ErrorIf="n == 2"', 'PostExec="let w = n;"'][j - 2]) for j in order]), F('z', 'u8')) for c, order in enumerate([(0, 1, 2, 3, 4, 5), (2, 0, 1, 3, 4, 5), (3, 4, 0, 5, 1, 2), (5, 4, 3, 2, 0, 1), (0, 4, 1, 3, 2, 5), (4, 0, 3, 1, 5, 2)])])
    m.add(*[S(f'L{c}', F('a', 'P0'), F('b', 'u16'), attrs=[['LittleEndian', 'Exact', 'PreExec="let k = i.len();"', 'PostExec="let struct_def = struct_def;"', 'Complete'][j] for j in order], groups=g) for c, (order, g) in enumerate([((0, 1, 2, 3, 4), None), ((4, 3, 2, 1, 0), None), ((2, 0, 4, 1, 3), [1, 1, 1, 1, 1]), ((3, 1, 4, 0, 2), [2, 3]), ((1, 4, 0, 2, 3), [4, 1])])])
    return m

@prop('C16')
def c16x():
    m = Mods('gf')
    G = ['GenericErrors']
    m.add(S('N1', F('a', '[u8; N]'), F('b', 'u8'), generics='<const N: usize>', inst=['<2>', '<0>']), S('N2', F('a', '[T; N]'), F('b', 'T'), generics='<T, const N: usize>', inst=['<u16, 2>', '<P0, 1>']), S('N3', F('n', 'usize', 'Value="N"'), F('v', 'Vec<P0>', 'Count="N"'), F('d', 'bool', 'Value="B"'), generics='<const N: usize, const B: bool>', inst=['<2, true>', '<0, false>']), S('N4', F('d', "&'a [u8]", 'Take="N"'), F('t', 'T'), generics="<'a, T, const N: usize>", inst=["<'_, u16, 2>"]), S('N5', T('[u8; N]'), T('u8', 'SkipBefore="N"'), generics='<const N: usize>', inst=['<1>', '<3>']), E('N6', 'u8', V_('A', '0', [T('[u8; N]')]), V_('B', '_', [F('v', 'Vec<P0>', 'Count="N"')]), generics='<const N: usize>', inst=['<2>'], argvals=['0', '1']), verus=False)
    m.add(S('S1', F('a', 'String'), F('b', 'u8'), attrs=G), S('S2', F('a', 'String', 'Complete'), attrs=G), S('S3', F('a', 'Vec<String>', 'Count="1"')), S('S4', F('n', 'u8'), F('a', 'Option<String>', 'Cond="n > 0"'), F('b', 'String', 'Complete'), derive='NomLE'))
    m.add(S('W1', F('a', 'T'), F('b', 'U'), generics='<T, U>', where='T: Copy, U: std::fmt::Debug', inst=['<u8, P0>']), S('W2', F('a', 'T'), generics='<T: Copy + PartialEq>', inst=['<u8>', '<P0>']), S('W3', F('x', "&'a [u8]", 'Take="1"'), F('y', "&'b [u8]", 'Take="2"'), F('t', 'T'), generics="<'a, 'b: 'a, T>", inst=["<'_, '_, P0>"]), verus=False)
    m.add(S('Ph1', F('a', 'u8'), F('p', 'PhantomData<(T, U)>'), generics='<T, U>', inst=['<u8, P0>']), S('Ph2', F('p', "PhantomData<&'a T>"), F('b', 'u16'), generics="<'a, T>", inst=["<'_, u8>"]), verus=False)
    m.add(S('A1', F('a', 'T'), F('v', 'Vec<T>', 'Count="k"'), args=['k: u8'], argvals=['0', '2'], generics='<T>', inst=['<P0>', '<u16>']), S('A2', F('a', "&'a [u8]", 'Take="k"'), F('b', 'u8'), args=['k: u8'], argvals=['0', '2'], generics="<'a>"), S('A3', F('a', 'P0', 'Verify="true"'), F('v', 'Vec<P0>', 'Count="k"'), args=['k: u8'], argvals=['0', '2'], attrs=G + ['Exact', 'LittleEndian']), E('A4', 'u8', V_('A', '0', [T('P0'), T('Vec<P0>', 'Count="k"')]), V_('B', '1', attrs=['Parse="up"']), args=['k: u8'], argvals=['0, 1', '1, 1', '2, 1'], attrs=G))
    m.add(E('E1', 'u8', V_('A', '0', [T("&'a [u8]", 'Take="2"')]), V_('B', '1', [F('t', "&'a [u8]", 'Tag(b"ab")')]), V_('C', '_'), generics="<'a>", attrs=G, argvals=['0', '1', '2']), E('E2', 'u8', V_('A', '0', [T('T')]), V_('B', '_', [F('v', 'Vec<T>', 'Count="1"'), F('o', 'Option<T>')]), generics='<T>', inst=['<u16>', '<P0>'], argvals=['0', '1']), E('E3', 'u8', V_('A', '0', [T("In<'a>")]), V_('B', '_', [F('v', "Vec<In<'a>>", 'Count="1"')]), generics="<'a>", argvals=['0', '1']), S('In', F('x', "&'a [u8]", 'Take="2"'), generics="<'a>"))
    m.add(S('M1', F('n', 'u8'), F('a', 'Vec<P0>', 'LengthCount="len8"'), F('b', 'Option<Vec<P0>>', 'Cond="n > 1"', 'Count="2"'), F('c', 'u16', 'Verify="*c > 2"', 'Complete'), attrs=G), S('M2', F('n', 'u8'), F('a', 'P0', 'SetEndian="pick(n)"'), F('b', 'u16', 'Map="m8"', 'Parse="up8"'), F('c', 'u8', 'Value="n"'), F('d', 'u8', 'Ignore'), attrs=G), S('M3', F('n', 'u8'), F('a', 'P0', 'SkipBefore="1"', 'AlignAfter="4"'), F('b', 'P0', 'Move="-3"'), F('c', 'P0', 'MoveAbs="12"'), F('d', 'P0', 'ErrorIf="n == 1"'), attrs=G + ['Complete']), S('M4', F('a', 'u8'), F('b', 'Option<P0>'), F('c', 'Vec<(u8, P0)>'), attrs=G + ['Exact'], derive='NomLE'), S('M5', F('a', 'P0', 'PreExec="let k = i.len();"'), F('b', 'usize', 'Value="k"'), attrs=G + ['InputName(i)']))
    m.add(FL('F1', 'u16', ('A', 1), ('B', 256), attrs=G + ['Complete']), FL('F2', 'u8', 'A', 'B', attrs=G + ['Exact'], derive='NomLE'), S('F3', F('a', 'F1'), F('v', 'Vec<F2>', 'Count="1"'), F('o', 'Option<F1>'), attrs=G))
    m.add(S('X1', F('a', 'Q<T>'), F('b', 'T'), generics='<T>', inst=['<u16>']) if 0 else S('X1', F('a', 'Q<u16>'), F('b', 'Vec<Q<P0>>', 'Count="1"'), F('c', 'Option<Q<u8>>')), S('Q', F('a', 'T'), F('b', 'T', 'LittleEndian'), generics='<T>', inst=['<u8>', '<u16>']))
    return m
