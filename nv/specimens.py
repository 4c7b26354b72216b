"""The specimen programs, per property.  Everything about what they must do is computed from this
description by dsl.py (the contracts); nothing here is derived from the output of the macro."""
from .build import *

ALL = {}
def prop(pid):
    def d(f): ALL.setdefault(pid, []).append(f); return f
    return d
class Mods(list):
    def __init__(self, pre): self.pre = pre
    def add(self, *types, verus=True, **k):
        self.append(Spec(f'{self.pre}{len(self)}', list(types), verus=verus, **k))

PR = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64']

def sub(name='Sub'): return S(name, F('p', 'u8'), F('q', 'u16'))

# ---------------------------------------------------------------- C04: sequential composition
@prop('C04')
def c04():
    m = Mods('sq')
    m.add(*[S('Prim' + t.upper(), F('a', t), F('b', t)) for t in PR[:6]])
    m.add(*[S('Prim' + t.upper(), F('a', t), F('b', t)) for t in PR[6:]])
    m.add(S('Mixed', F('a', 'u8'), F('b', 'u32'), F('c', 'i16'), F('d', 'u64'), F('e', 'i8')))
    m.add(S('Probes', F('a', 'P0'), F('b', 'P1'), F('c', 'Pd'), F('d', 'P0')))
    m.add(S('Tup', T('u16'), T('P0'), T('u8')), S('One', T('P1')))
    m.add(S('Unit'), S('HasUnit', F('a', 'u8'), F('u', 'Unit'), F('b', 'u8')))
    m.add(sub(), S('Nest', F('a', 'Sub'), F('b', 'u8'), F('c', 'Sub')), S('Nest2', F('x', 'Nest'), F('y', 'Option<Sub>'), F('z', 'Vec<Sub>')))
    m.add(S('Opts', F('a', 'Option<P0>'), F('b', 'u16'), F('c', 'Option<u16>')), S('Vecs', F('a', 'u8'), F('b', 'Vec<P1>'), F('c', 'Option<u8>')))
    m.add(S('Arrs', F('a', '[u16; 3]'), F('b', '[P0; 2]'), F('c', 'u8')), S('Tups', F('a', 'Option<(u8, u16)>'), F('b', 'Vec<(P0, P1)>')))
    m.add(S('Deep', F('a', 'Option<(u8, Option<u16>)>'), F('b', 'Vec<(P0, u16)>')), S('Deep2', F('a', 'Option<(u8, [u16; 2])>'), F('b', 'Option<[P0; 2]>')))
    m.add(S('Wide', *[F(f'f{k}', ['u8', 'P0', 'u16', 'P1'][k % 4]) for k in range(24)]))
    m.add(S('Names', F('r#type', 'u8'), F('r#match', 'u16', ), F('struct_def', 'u8'), F('offset', 'u8'), F('start', 'u8'), F('pos', 'u16')))
    m.add(S('Strs', F('a', 'u8'), F('s', 'String'), F('b', 'u8')))
    m.add(S('Lif', F('a', 'u8'), F('d', "&'a [u8]", 'Take="2"'), F('b', 'P0'), generics="<'a>"), S('Lif2', F('x', "Lif<'a>"), F('y', 'u8'), generics="<'a>"))
    m.add(S('Ph', F('a', 'u8'), F('p', 'PhantomData<u32>'), F('b', 'u16')), S('Ph2', F('p', 'PhantomData<u8>')))
    m.add(S('Gen', F('a', 'T'), F('b', 'u8'), F('c', 'T'), generics='<T>', inst=['<u16>', '<P0>']))
    return m

# ---------------------------------------------------------------- C05: endianness
@prop('C05')
def c05():
    m = Mods('en')
    fl = lambda: [F('a', 'u16'), F('b', 'P0', 'BigEndian'), F('c', 'u32', 'LittleEndian'), F('d', 'P1')]
    m.add(S('Plain', *fl()), S('Big', *fl(), attrs=['BigEndian']), S('Lit', *fl(), attrs=['LittleEndian']), S('DBe', *fl(), derive='NomBE'), S('DLe', *fl(), derive='NomLE'))
    m.add(S('Dyn', *fl(), attrs=['SetEndian="en"'], args=['en: nom::number::Endianness'], argvals=['nom::number::Endianness::Big', 'nom::number::Endianness::Little']),
          S('DynC', *fl(), attrs=['SetEndian(nom::number::Endianness::Little)']))
    m.add(S('Mid', F('s', 'u8'), F('a', 'P0'), F('b', 'u16', 'SetEndian(pick(s))'), F('c', 'P0'), F('d', 'P1', 'BigEndian'), F('e', 'u16', 'LittleEndian'), F('f', 'u32')),
          S('MidL', F('s', 'u8'), F('a', 'P0'), F('b', 'u16', 'SetEndian(pick(s))'), F('c', 'P0'), attrs=['LittleEndian']),
          S('MidB', F('s', 'u8'), F('a', 'P0', 'LittleEndian'), F('b', 'P0', 'SetEndian(pick(s))'), F('c', 'P0'), derive='NomBE'))
    m.add(S('Twice', F('s', 'u8', ), F('a', 'P0', 'SetEndian(pick(s))'), F('t', 'u8'), F('b', 'P0', 'SetEndian(pick(t))'), F('c', 'P0')),
          S('TopMid', F('s', 'u8'), F('a', 'P0'), F('b', 'P0', 'SetEndian(pick(s))'), F('c', 'P0'), attrs=['SetEndian(nom::number::Endianness::Little)']))
    m.add(S('Sub', F('a', 'P0'), F('b', 'u16')), S('SubLe', F('a', 'P0'), F('b', 'u16'), derive='NomLE'), S('SubBe', F('a', 'P0'), attrs=['BigEndian']),
          S('Out', F('a', 'Sub'), F('b', 'SubLe', 'BigEndian'), F('c', 'Sub', 'LittleEndian'), F('d', 'SubBe', 'LittleEndian')),
          S('OutLe', F('a', 'Sub'), F('b', 'SubLe'), F('c', 'SubBe'), F('d', 'Option<Sub>'), F('e', 'Vec<Sub>'), derive='NomLE'))
    m.add(S('Cont', F('a', 'Option<P0>', 'LittleEndian'), F('b', '[P0; 2]', 'BigEndian'), F('c', 'Option<(P0, P1)>', 'LittleEndian'), F('v', 'Vec<P0>', 'LittleEndian')),
          S('ContD', F('e', 'u8'), F('a', 'Option<P0>', 'SetEndian(pick(e))'), F('b', '[P0; 2]'), F('c', 'Option<(P0, P1)>'), F('v', 'Vec<P0>')))
    m.add(S('Chain', F('n', 'u8'), F('a', 'Vec<P0>', 'LittleEndian', 'Count="n & 3"'), F('b', 'Option<P0>', 'Cond="n > 1"', 'LittleEndian'), F('c', 'Vec<P0>', 'Count="2"', 'BigEndian')),
          S('ChainLe', F('n', 'u8'), F('a', 'Vec<P0>', 'Count="n & 3"'), F('b', 'Option<P0>', 'Cond="n > 1"'), F('c', 'Vec<P1>', 'LengthCount="len8"'), F('d', 'P0', 'Complete'), derive='NomLE'),
          S('ChainD', F('n', 'u8'), F('a', 'Vec<P0>', 'SetEndian(pick(n))', 'Count="n & 3"'), F('b', 'Option<P0>', 'Cond="n > 1"'), F('d', 'P0', 'Complete'), F('e', 'P0', 'Complete')))
    m.add(E('EnL', 'u8', V_('A', '0', [T('P0')]), V_('B', '1', [F('a', 'u16'), F('b', 'P0', 'BigEndian')]), V_('C', '_', [F('a', 'P1')]), derive='NomLE', argvals=['0', '1', '2']),
          E('EnB', 'u8', V_('A', '0', [T('P0')]), V_('B', '1', [F('a', 'u16', 'LittleEndian'), F('b', 'P0')]), attrs=['BigEndian'], argvals=['0', '1', '2']),
          E('EnN', 'u8', V_('A', '0', [T('P0')]), V_('B', '1', [F('a', 'u16', 'LittleEndian'), F('b', 'P0')]), argvals=['0', '1', '2']))
    m.add(E('EnD', 'u8', V_('A', '0', [T('P0')]), V_('B', '1', [F('a', 'u16', 'LittleEndian'), F('b', 'P0')]), attrs=['SetEndian="en"'], args=['en: nom::number::Endianness'],
            argvals=['0, nom::number::Endianness::Big', '1, nom::number::Endianness::Little', '0, nom::number::Endianness::Little', '1, nom::number::Endianness::Big']),
          E('EnV', 'u8', V_('A', '0', [F('s', 'u8'), F('x', 'P0', 'SetEndian(pick(s))'), F('y', 'P0')]), V_('B', '1', [F('a', 'P0'), F('b', 'u16')]), V_('C', '_', [T('P0'), T('P0')]), argvals=['0', '1', '2']))
    m.add(FL('FlP', 'u16', 'A', 'B', ('C', 256)), FL('FlL', 'u16', 'A', 'B', ('C', 256), derive='NomLE'), FL('FlB', 'u16', 'A', 'B', ('C', 256), attrs=['BigEndian']),
          FL('FlLL', 'u16', 'A', 'B', ('C', 256), attrs=['LittleEndian']))
    m.add(S('Tu', T('P0'), T('P0', 'LittleEndian'), T('P0', 'BigEndian')), S('TuL', T('P0'), T('P0', 'LittleEndian'), T('P0', 'BigEndian'), derive='NomLE'))
    m.add(*[S('Nums' + x, *[F('f' + t, t, *a) for t in PR[:6]]) for x, a in (('P', []), ('B', ['BigEndian']), ('L', ['LittleEndian']))])
    m.add(S('NumsD', F('e', 'u8'), *[F('f' + t, t, *(['SetEndian(pick(e))'] if k == 0 else [])) for k, t in enumerate(PR[:9])]))
    m.add(S('Par', F('a', 'u16', 'Parse=be_u16'), F('b', 'u32', 'Parse=le_u32'), F('c', 'u16'), derive='NomLE'))
    m.add(S('Def', F('a', 'Pd', 'LittleEndian'), F('b', 'Pd', 'BigEndian'), F('c', 'Pd')))
    m.add(S('Order', F('a', 'P0', 'LittleEndian', 'Complete'), F('b', 'P0', 'Complete', 'LittleEndian'), F('c', 'Option<P0>', 'LittleEndian', 'Cond="true"')))
    return m

# ---------------------------------------------------------------- C06: Count / LengthCount
@prop('C06')
def c06():
    m = Mods('ct')
    m.add(S('K', F('a', 'Vec<P0>', 'Count="3"')), S('Z', F('a', 'Vec<P0>', 'Count="0"'), F('b', 'u8')), S('N', F('n', 'u8'), F('a', 'Vec<P1>', 'Count="n"'), F('b', 'u8')),
          S('N16', F('n', 'u16'), F('a', 'Vec<u16>', 'Count="n"')), S('NL', F('n', 'u8'), F('a', 'Vec<P1>', 'Count(n)')))
    m.add(S('Ex', F('n', 'u8'), F('a', 'Vec<P1>', 'Count="n as u32 + 1"'), F('b', 'Vec<u8>', 'Count="(n & 1) as usize + 1"')),
          S('Ex2', F('n', 'u8'), F('k', 'u8'), F('a', 'Vec<u8>', 'Count="n & k"'), F('b', 'Vec<u8>', 'Count="n as u16 * 2"')))
    m.add(S('If_', F('n', 'u8'), F('a', 'Vec<P0>', 'Count="if n > 2 { 2usize } else { n as usize }"')), S('Blk', F('n', 'u8'), F('a', 'Vec<P0>', 'Count="{ n & 3 }"')))
    m.add(S('Neg', F('n', 'i8'), F('a', 'Vec<u16>', 'Count="n & 3"')))
    m.add(S('LenF', F('a', 'Vec<u8>', 'Count="2"'), F('b', 'Vec<P0>', 'Count="a.len()"')))
    m.add(S('Inner', F('n', 'u8'), F('v', 'Vec<u8>', 'Count="n & 3"')), S('Outer', F('n', 'u8'), F('v', 'Vec<Inner>', 'Count="n & 3"'), F('w', 'Vec<Option<u8>>', 'Count="2"')))
    m.add(S('VV', F('n', 'u8'), F('v', 'Vec<Vec<P0>>', 'Count="n & 1"', 'Count="2"')), S('VO', F('v', 'Vec<Option<P0>>', 'Count="2"', 'Cond="true"')))
    m.add(S('Pa', F('v', 'Vec<u16>', 'Count="2"', 'Parse="up"'), F('w', 'Vec<u16>', 'Count="2"', 'Parse=be_u16')), S('Mp', F('v', 'Vec<u16>', 'Count="2"', 'Map="m8"', 'Parse="up8"')))
    m.add(S('Tk', F('n', 'u8'), F('v', "Vec<&'a [u8]>", 'Count="2"', 'Take="n & 3"'), generics="<'a>"), S('Tg', F('v', "Vec<&'a [u8]>", 'Count="2"', 'Tag(b"a")'), generics="<'a>"))
    m.add(S('L8', F('v', 'Vec<P0>', 'LengthCount="len8"'), F('b', 'u8')), S('L16', F('v', 'Vec<u16>', 'LengthCount="len16"')), S('LB', F('v', 'Vec<u16>', 'LengthCount=be_u16')), S('LL', F('v', 'Vec<u8>', 'LengthCount=le_u32')))
    m.add(S('LPa', F('v', 'Vec<u16>', 'LengthCount="len8"', 'Parse="up"')), S('LC', F('v', 'Vec<Vec<P0>>', 'LengthCount="len8"', 'Count="1"')), S('CL', F('v', 'Vec<Vec<P0>>', 'Count="2"', 'LengthCount="len8"')), S('LLc', F('v', 'Vec<Vec<P1>>', 'LengthCount="len8"', 'LengthCount="len8"')))
    m.add(S('Big64', F('n', 'u64'), F('v', 'Vec<P0>', 'Count="n"')), S('LBig', F('v', 'Vec<P0>', 'LengthCount="len64"')))
    m.add(S('Sq', F('x', 'Vec<u8>', 'Count="1"'), F('y', 'Vec<P1>', 'Count="2"'), F('z', 'Vec<u8>', 'LengthCount="len8"')))
    m.add(S('Tc', T('u8'), T('Vec<P0>', 'Count="_0"')), S('Ca', F('n', 'u8'), F('v', 'Vec<P0>', 'Count="n & 3"', 'Complete'), F('w', 'Vec<P0>', 'Complete', 'Count="n & 3"')))
    m.add(E('En', 'u8', V_('A', '1', [F('n', 'u8'), F('v', 'Vec<P0>', 'Count="n & 3"')]), V_('B', '_', [T('Vec<P0>', 'Count="selector & 1"')]), argvals=['0', '1', '3']))
    m.add(S('Arg', F('v', 'Vec<P0>', 'Count="n"'), args=['n: u16'], argvals=['0', '1', '5']), S('G', F('v', 'Vec<T>', 'Count="2"'), generics='<T>', inst=['<u8>', '<P1>']))
    m.add(S('Str', F('v', 'Vec<String>', 'Count="1"'), F('w', 'Vec<[u8; 2]>', 'Count="2"')))
    m.add(S('Zst', F('v', 'Vec<U0>', 'Count="5"'), F('b', 'u8')), S('U0'))
    m.add(S('Ve', F('v', 'Vec<u8>', 'Count="2"', 'Complete'), F('w', 'Vec<u8>', 'Verify="vlen(w) != 1"', 'Count="2"')))
    return m

# ---------------------------------------------------------------- C07: Cond / Verify / ErrorIf / Exact
@prop('C07')
def c07():
    m = Mods('vf')
    m.add(S('Co', F('a', 'u8'), F('b', 'Option<P0>', 'Cond="a == 1"'), F('c', 'u8')), S('CoI', F('a', 'u8'), F('b', 'Option<u16>', 'If="a > 1"'), F('c', 'Option<P1>', 'Cond(a & 1 == 1)')))
    m.add(S('CoP', F('a', 'u8'), F('b', 'Option<u16>', 'Cond="a != 0"', 'Parse="up"')), S('CoN', F('a', 'u8'), F('b', 'Option<Option<P0>>', 'Cond="a > 0"', 'Cond="a > 1"')), S('CoO', F('a', 'u8'), F('b', 'Option<Option<P0>>', 'Cond="a > 0"')))
    m.add(S('CoV', F('a', 'u8'), F('b', 'Option<Vec<P0>>', 'Cond="a > 0"', 'Count="a & 3"'), F('c', 'Vec<Option<P0>>', 'Count="2"', 'Cond="a > 1"')), S('CoT', F('a', 'u8'), F('b', "Option<&'a [u8]>", 'Cond="a == 1"', 'Take="2"'), F('c', "Option<&'a [u8]>", 'Cond="a == 2"', 'Tag(b"a")'), generics="<'a>"))
    m.add(S('CoM', F('a', 'u8'), F('b', 'Option<u16>', 'Cond="a > 1"', 'Map="m8"', 'Parse="up8"'), F('c', 'Option<u8>', 'Cond="is_ok8(a)"', 'Value="a"')), S('CoC', F('a', 'u8'), F('b', 'Option<P0>', 'Cond="a > 0"', 'Complete'), F('c', 'Option<P0>', 'Complete', 'Cond="a > 0"')))
    m.add(S('Ve', F('a', 'u8', 'Verify="*a == 1"'), F('b', 'u16')), S('Ve2', F('a', 'u8'), F('b', 'u16', 'Verify="*b != 0"'), F('c', 'u8', 'Verify="*c > a"')), S('VeF', F('a', 'u8', 'Verify="is_ok8(*a)"')))
    m.add(S('Ve3', F('a', 'u8', 'Verify="*a > 1"', 'Verify="*a < 9"')), S('VeP', F('a', 'u16', 'Verify="*a != 770"', 'Parse="up"')), S('VeL', F('a', 'u8', 'Verify="1 < *a"'), F('b', 'u8', 'Verify(2 == *b || *b == 3)')))
    m.add(S('VeC', F('v', 'Vec<u8>', 'Verify="vlen(v) > 0"', 'LengthCount="len8"')), S('VeI', F('a', 'u8'), F('b', 'Option<u8>', 'Verify="osome(b)"')), S('VeK', F('v', 'Vec<u8>', 'Count="2"', 'Verify="v.len() == 2"') if 0 else F('v', 'u8', 'Verify="*v == 0"', 'Complete')))
    m.add(S('VeT', F('d', "&'a [u8]", 'Verify="dlen(d) == 2"', 'Take="2"'), F('e', "&'a [u8]", 'Verify="dlen(e) == 3"', 'Take="2"'), generics="<'a>"))
    m.add(S('Ei', F('a', 'u8'), F('b', 'u8', 'ErrorIf="a == 1"')), S('Ei0', F('a', 'u8', 'ErrorIf="i.len() < 3"')), S('Ei2', F('a', 'u8'), F('b', 'P0', 'ErrorIf(a == 1)', 'ErrorIf="a == 2"', 'Complete')), S('EiE', F('a', 'u8'), F('b', 'P0', 'ErrorIf="is_ok8(a)"'), F('c', 'P1', 'ErrorIf="a > 3"')))
    m.add(S('Exa', F('a', 'u8'), F('b', 'P0'), attrs=['Exact']), S('ExaV', F('n', 'u8'), F('v', 'Vec<u8>', 'Count="n & 3"'), attrs=['Exact']), S('ExaU', attrs=['Exact']), S('ExaT', T('u16'), attrs=['Exact', 'LittleEndian']))
    m.add(S('ExIn', F('a', 'u8'), attrs=['Exact']), S('ExOut', F('a', 'Vec<ExIn>'), F('b', 'Option<ExIn>')), S('ExG', F('a', 'u8'), F('b', 'u16', 'SkipAfter="1"'), attrs=['Exact']))
    m.add(E('ExE', 'u8', V_('A', '0', [T('u8')]), V_('B', '_', [F('x', 'u16')]), attrs=['Exact'], argvals=['0', '1']), FL('ExF', 'u8', 'A', 'B', attrs=['Exact']))
    m.add(E('En', 'u8', V_('A', '0', [F('x', 'u8', 'Verify="*x < 3"'), F('y', 'Option<u8>', 'Cond="x == 1"')]), V_('B', '1', [F('x', 'u8'), F('y', 'u8', 'ErrorIf="x == 0"')]), argvals=['0', '1', '2']))
    m.add(S('All', F('a', 'u8', 'Verify="*a != 9"'), F('b', 'Option<u16>', 'ErrorIf="a == 3"', 'Cond="a > 1"'), F('c', 'u8', 'Verify="*c != a"', 'ErrorIf="a == 4"'), attrs=['Exact']))
    m.add(S('Tc', T('u8'), T('Option<P0>', 'Cond="_0 == 1"'), T('u8', 'ErrorIf="_0 == 2"')), S('Arg', F('a', 'u8', 'Verify="*a == k"'), F('b', 'Option<u8>', 'Cond="on"'), args=['k: u8', 'on: bool'], argvals=['0, true', '1, false', '2, true']))
    m.add(S('Sh', F('a', 'u8', 'Verify="*a > 0 && *a < 200"'), F('b', 'u16', 'Verify="*b as u32 > a as u32"'), F('c', 'bool', 'Value="a == 1 && b == 2"')))
    return m

# ---------------------------------------------------------------- C08: transformations
@prop('C08')
def c08():
    m = Mods('tr')
    m.add(S('Mp', F('a', 'u16', 'Map="m8"', 'Parse="up8"')), S('MpN', F('a', 'u32', 'Map="m16"', 'Parse=be_u16')), S('MpC', F('a', 'u16', 'Map="|x: u16| x ^ 0x55"'), F('b', 'bool', 'Map="|x: u8| x == 3"', 'Parse=be_u8')))
    m.add(S('MpO', F('a', 'Option<u16>', 'Map="|x: u16| Some(x)"', 'Parse="up"')), S('MpT', F('a', '(u8, u8)', 'Map="|x: u8| (x, 7u8)"', 'Parse="len8"')), S('MpW', F('a', 'W<u8>', 'Map="|x: u8| W(x)"', 'Parse=be_u8')), S('Mp_', F('a', 'u8', 'Map="|_| 9u8"', 'Parse="up"')))
    m.add(S('MpMp', F('a', 'u32', 'Map="m16"', 'Map="m8"', 'Parse="up8"')), S('MpPl', F('a', 'u8', 'Map="m8b"'), F('b', 'u8', 'Map="|x: u8| m8b(x)"', 'Parse="len8"')))
    m.add(S('In', F('a', 'u16', 'Into', 'Parse=be_u8'), F('b', 'u32', 'Into', 'Parse="up"')), S('InI', F('a', 'Into16', 'Into', 'Parse="up"'), F('b', 'Into16', 'Into', 'Parse="len8"')), verus=True)
    m.add(S('Va', F('a', 'u8'), F('b', 'u8', 'Value="a"'), F('c', 'u16', 'Value="7u16"'), F('d', 'u16', 'Value="m8(a)"'), F('e', 'u8')), S('VaL', F('a', 'u16'), F('b', 'usize', 'Value="i.len()"'), F('c', 'bool', 'Value(a == 3)')), S('VaT', T('u8'), T('u8', 'Value="_0"'), T('u8')))
    m.add(S('Ig', F('a', 'u8'), F('b', 'u16', 'Ignore'), F('c', 'Option<u8>', 'Default'), F('d', 'u8')), S('IgV', F('a', 'Vec<u8>', 'Ignore'), F('b', 'bool', 'Default'), F('c', 'Option<Vec<u8>>', 'Ignore')), S('IgT', T('u64', 'Ignore'), T('P0')))
    m.add(S('Pa', F('a', 'u16', 'Parse="up"'), F('b', 'u8', 'Parse="len8"'), F('c', 'u64', 'Parse="len64"')), S('PaN', F('a', 'u32', 'Parse=be_u24'), F('b', 'i16', 'Parse=le_i16'), F('c', 'u128', 'Parse=le_u128'), F('d', 'f32', 'Parse=le_f32')),
          S('PaC', F('a', 'u16', 'Complete', 'Parse=|i| up(i)'), F('b', 'u8', 'Parse={ |i| up8(i) }')))
    m.add(S('PaX', F('a', 'u8'), Field('b', 'Option<u16>', Attr('Parse', PExpr('nom::combinator::cond(a > 0, nom::number::streaming::be_u16)', lambda i: f'nomv::sp_cond(a > 0, {i}, nomv::sp_be_u16({i}))', lambda i: f'rt::cond(a > 0, {i}, |j| nom::number::streaming::be_u16(j))')))))
    m.add(S('PaI', F('k', 'u8'), Field('b', 'u16', Attr('Parse', PExpr('{ |i| if k == 1 { up(i) } else { nom::number::streaming::be_u16(i) } }', lambda i: f'if k == 1 {{ sp_up({i}) }} else {{ nomv::sp_be_u16({i}) }}')))))
    m.add(S('Ta', F('t', "&'a [u8]", 'Tag(b"TA")'), F('b', 'u8'), generics="<'a>"), S('Ta1', F('a', 'u8'), F('t', "&'a [u8]", 'Tag(b"\\x00\\x01")'), generics="<'a>"), S('TaE', F('t', "&'a [u8]", 'Tag(b"")'), F('a', 'u8'), generics="<'a>"))
    m.add(S('TaF', F('t', "&'a [u8]", 'Take="2"'), F('u', "&'a [u8]", 'Tag(t)'), generics="<'a>"))
    m.add(S('Tk', F('d', "&'a [u8]", 'Take="3"'), F('b', 'u8'), generics="<'a>"), S('TkN', F('n', 'u8'), F('d', "&'a [u8]", 'Take="n"'), F('b', 'P0'), generics="<'a>"), S('TkE', F('n', 'u16'), F('d', "&'a [u8]", 'Take="n as usize + 1"'), F('e', "&'a [u8]", 'Take(n & 3)'), generics="<'a>"),
          S('Tk64', F('n', 'u64'), F('d', "&'a [u8]", 'Take="n"'), generics="<'a>"))
    m.add(S('TkM', F('d', 'usize', Attr('Map', FExpr("|x: &[u8]| x.len()", "|x: nomv::Inp<'nom>| (x.slen() as usize)", "&'nom [u8]")), 'Take="2"')))
    m.add(S('De', F('a', 'u8', 'Debug'), F('b', 'Vec<P0>', 'Count="2"', 'Debug'), F('c', 'u16', 'Debug', 'Parse="up"')), S('DeT', F('a', 'u8'), F('b', 'P0'), attrs=['Debug']))
    m.add(E('En', 'u8', V_('A', '0', [F('x', 'u16', 'Map="m8"', 'Parse="up8"'), F('y', 'u8', 'Value="selector"')]), V_('B', '1', [T('u8', 'Ignore'), T('u16', 'Parse="up"')]), argvals=['0', '1', '2']))
    m.add(S('Arg', F('v', 'u16', 'Value="k"'), F('d', "&'a [u8]", 'Take="k & 3"'), args=['k: u16'], argvals=['0', '1', '515'], generics="<'a>"))
    m.add(S('Mix', F('a', 'u8'), F('b', 'Option<u16>', 'Cond="a > 1"', 'Map="m8"'), F('c', 'Vec<u16>', 'Count="2"', 'Into', 'Parse=be_u8'), F('d', 'Vec<u16>', 'LengthCount="len8"', 'Map="m8"')) if 0 else
          S('Mix', F('a', 'u8'), F('b', 'Option<u16>', 'Cond="a > 1"', 'Map="m8"', 'Parse="up8"'), F('d', 'Vec<u16>', 'LengthCount="len8"', 'Map="m8"', 'Parse=be_u8')))
    return m

# ---------------------------------------------------------------- C09: cursor
@prop('C09')
def c09():
    m = Mods('cu')
    m.add(S('AB', F('a', 'u8'), F('b', 'u8', 'AlignBefore="4"')), S('AA', F('a', 'u8', 'AlignAfter(4)'), F('b', 'u8')), S('A1', F('a', 'P1', 'AlignAfter="1"'), F('b', 'P1', 'AlignBefore="3"'), F('c', 'P1', 'AlignAfter="2"')),
          S('A8', F('a', 'Vec<u8>', 'Count="3"', 'AlignAfter="8"'), F('b', 'u8')))
    m.add(S('SB', F('a', 'u8', 'SkipBefore="2"'), F('b', 'u8', 'SkipAfter="1"'), F('c', 'P0')), S('SN', F('n', 'u8'), F('a', 'P0', 'SkipBefore="n"'), F('c', 'P0', 'SkipAfter(n & 3)')), S('S64', F('n', 'u64'), F('a', 'P0', 'SkipBefore="n"')))
    m.add(S('Mv', F('a', 'u16'), F('b', 'u8', 'Move="1"'), F('c', 'u8', 'Move="-2"'), F('d', 'u8')), S('MvN', F('n', 'i8'), F('b', 'P0', 'Move="n"'), F('c', 'P0')), S('Mv0', F('b', 'u8', 'Move="-1"')), S('Mv64', F('n', 'i64'), F('b', 'P0', 'Move="n"')))
    m.add(S('MA', F('a', 'u16'), F('b', 'u8', 'MoveAbs="0"'), F('c', 'u8', 'MoveAbs="5"'), F('d', 'u8')), S('MAN', F('n', 'u8'), F('b', 'P0', 'MoveAbs="n"'), F('c', 'P0')), S('MA64', F('n', 'u64'), F('b', 'P0', 'MoveAbs(n)')))
    m.add(S('St', F('a', 'u8', 'SkipBefore="1"', 'AlignBefore="4"'), F('b', 'u8', 'AlignAfter="4"', 'SkipAfter="1"'), F('c', 'u8')), S('St2', F('a', 'u8'), F('b', 'u8', 'AlignBefore="4"', 'SkipBefore="1"', 'Move="-2"'), F('c', 'u8', 'SkipAfter="1"', 'AlignAfter="2"'), F('d', 'u8')))
    m.add(S('St3', F('a', 'u8'), F('b', 'u8', 'MoveAbs="2"', 'SkipBefore="1"', 'AlignAfter="3"', 'SkipAfter="2"', 'AlignBefore="2"'), F('c', 'u8')))
    m.add(S('In', F('a', 'u8'), F('b', 'u8', 'AlignBefore="4"')), S('Out', F('x', 'u8'), F('y', 'In'), F('z', 'In', 'AlignBefore="2"'), F('w', 'u8', 'MoveAbs="1"')))
    m.add(S('InV', F('a', 'u8', 'AlignAfter="2"')), S('OutV', F('n', 'u8'), F('y', 'Vec<InV>', 'Count="n & 3"'), F('o', 'Option<InV>'), F('w', 'u8', 'AlignBefore="4"')))
    m.add(E('En', 'u8', V_('A', '0', [F('a', 'u8'), F('b', 'u8', 'AlignBefore="4"')]), V_('B', '1', [T('u8', 'SkipBefore="1"'), T('u8', 'Move="-1"'), T('u8', 'MoveAbs="0"')]), V_('C', '_', [T('u16', 'SkipAfter="1"')]), argvals=['0', '1', '2']))
    m.add(S('Tu', T('u8', 'AlignAfter="4"'), T('u8', 'SkipBefore="1"'), T('u8', 'MoveAbs="2"')), S('Ex', F('n', 'u8'), F('a', 'P0', 'SkipBefore="if n > 2 { 1usize } else { 2usize }"'), F('b', 'P0', 'MoveAbs="(n & 3) as usize + 1"'), F('c', 'u8', 'AlignBefore="(n & 3) as usize + 1"'), F('d', 'u8', 'AlignAfter="1 << 2"') if 0 else F('d', 'u8', 'AlignAfter="2 + 2"')))
    m.add(S('Vi', F('offset', 'u8'), F('start', 'u8', 'SkipBefore="offset & 3"'), F('pos', 'u8', 'Move="(start & 1) as isize - 1"'), F('x', 'u8', 'MoveAbs="pos & 7"'), F('y', 'u8', 'AlignBefore="(offset & 3) as usize + 2"')))
    m.add(S('Ch', F('n', 'u8'), F('a', 'Option<P0>', 'Cond="n > 1"', 'SkipBefore="1"', 'AlignAfter="2"'), F('v', 'Vec<P0>', 'AlignBefore="2"', 'Count="n & 1"'), F('g', 'u8', 'SkipAfter="1"', 'Verify="*g != 3"')))
    m.add(S('Va', F('a', 'u8'), F('s', 'u8', 'SkipBefore="1"', 'Value="a"'), F('t', 'u8', 'Ignore', 'SkipAfter="2"'), F('p', 'PhantomData<u8>', 'AlignBefore="8"'), F('b', 'u8')))
    m.add(S('Tk', F('n', 'u8'), F('d', "&'a [u8]", 'AlignBefore="4"', 'Take="n & 3"', 'AlignAfter="4"'), F('e', 'u8'), generics="<'a>"), S('Nm', F('a', 'u8', 'AlignAfter="4"'), F('b', 'u8', 'Move="-1"'), F('c', 'u8', 'MoveAbs="1"'), attrs=['InputName(data)']))
    m.add(S('Arg', F('a', 'u8'), F('b', 'P0', 'SkipBefore="k"'), F('c', 'P0', 'Move="d"'), F('e', 'P0', 'MoveAbs="k"'), args=['k: u16', 'd: i32'], argvals=['0, 0', '1, -1', '3, -4', '2, 1000', '1, i32::MIN']))
    m.add(S('Mix', F('a', 'u32'), F('b', 'u8', 'Move="-3"', 'Move="2"', 'Move="-1"'), F('c', 'u16', 'SkipBefore="1"', 'SkipBefore="1"'), F('d', 'u8', 'SkipAfter="1"', 'SkipAfter="1"'), F('e', 'u8')))
    return m

# ---------------------------------------------------------------- C10: selector enums
@prop('C10')
def c10():
    m = Mods('se')
    av = ['0', '1', '2', '3', '200', '255']
    m.add(E('B', 'u8', V_('V0', '0', [T('u8')]), V_('V1', '1', [F('a', 'u16'), F('b', 'P0')]), V_('V2', '2', [T('P0'), T('P1')]), argvals=av), E('Df', 'u8', V_('A', '0', [T('P0')]), V_('O', '_', [T('u16')]), argvals=av))
    m.add(E('Dm', 'u8', V_('A', '0', [T('P0')]), V_('O', '_', [T('u16')]), V_('C', '2', [F('x', 'P1')]), V_('D', '3', [T('u8')]), argvals=av), E('Df0', 'u8', V_('O', '_', [T('u16')]), V_('A', '0', [T('P0')]), V_('C', '2', [F('x', 'P1')]), argvals=av))
    m.add(E('Or', 'u8', V_('A', '0 | 2', [T('P0')]), V_('R', '3..=200', [T('u16')]), V_('C', '_', [T('u8')]), argvals=av), E('Ov', 'u8', V_('A', '0..=2', [T('P0')]), V_('B', '1', [T('u16')]), V_('C', '2 | 3', [T('u8')]), argvals=av))
    m.add(E('Ov2', 'u8', V_('D', '_', [T('u32')]), V_('A', '0..=2', [T('P0')]), V_('B', '1..=200', [T('u16')]), V_('C', '2..=255', [T('u8')]), argvals=av))
    m.add(E('Gu', 'u8', V_('A', 'x if x > 100', [T('P0')], form='list', cond='selector > 100'), V_('B', '0 | 1 if true', [T('P1')], form='list', cond='(selector == 0 || selector == 1)'), V_('C', '_', [T('u8')]), argvals=av))
    m.add(E('Un', 'u8', V_('A', '0'), V_('B', '1', [T('u8')]), V_('C', '_'), argvals=av), E('UnP', 'u8', V_('A', '0', attrs=['Parse="up"']), V_('B', '1', attrs=['Parse="up8"']), V_('C', '2'), argvals=av))
    m.add(E('Ti', 'i16', V_('A', '-1', [T('P0')], cond='selector == -1'), V_('B', '256', [T('P1')]), argvals=['-1', '0', '256']), E('T64', 'u64', V_('A', '0', [T('P0')]), V_('B', '18446744073709551615', [T('P1')]), argvals=['0', '1', 'u64::MAX']),
          E('Tc', 'u16', V_('A', 'K1', [T('P0')]), V_('B', 'K2', [T('P1')]), argvals=['0', '0x1234', '7']), extra='pub const K1: u16 = 0x1234; pub const K2: u16 = 7;')
    m.add(E('Bo', 'bool', V_('A', 'true', [T('P0')], cond='selector == true'), V_('B', 'false', [T('P1')], cond='selector == false'), argvals=['true', 'false']), E('Tp', '(u8, bool)', V_('A', '(0, true)', [T('P0')], form='list', cond='selector == (0u8, true)'), V_('B', '(_, false)', [T('P1')], form='list', cond='selector.1 == false'), argvals=['(0, true)', '(1, true)', '(1, false)']))
    m.add(E('Ch', 'char', V_('A', "'a'", [T('P0')], form='list', cond="selector == 'a'"), V_('B', "'b'..='y'", [T('P1')], form='list', cond="('b' <= selector && selector <= 'y')"), argvals=["'a'", "'m'", "'z'"]))
    m.add(E('We', 'Tag8', V_('A', 'Tag8(1)', [T('P0')], form='list', cond='selector.0 == 1'), V_('B', 'Tag8(_)', [T('P1')], form='list', cond='true'), argvals=['Tag8(1)', 'Tag8(4)']), extra='#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct Tag8(pub u8);')
    m.add(E('Fs', 'u8', V_('A', '0', [F('n', 'u8'), F('v', 'Vec<P0>', 'Count="n & 3"'), F('o', 'Option<u8>', 'Cond="n > 1"')]), V_('B', '1', [F('x', 'u8', 'LittleEndian'), F('y', 'P0', 'LittleEndian'), F('z', 'u8', 'Value="selector"')]), V_('C', '_', [F('d', "&'a [u8]", 'Take="2"')]), generics="<'a>", argvals=av))
    sel = lambda n, e: Attr('Parse', PExpr('{ |i| %s::parse%s(i, %s) }' % (n, '', e), lambda i: f'{n}::sp({i}, {e})', lambda i: f'{n}::parse({i}, {e})'))
    m.add(E('In', 'u8', V_('A', '0', [T('u8')]), V_('B', '1', [F('a', 'u16')]), V_('C', '2'), argvals=['0', '1', '7']), S('Out', F('t', 'u8'), Field('e', 'In', sel('In', 't')), F('z', 'u8')),
          S('OutC', F('t', 'u8'), Field('e', 'Option<In>', A('Cond', 't < 2'), sel('In', 't')), Field('v', 'Vec<In>', A('Count', '2'), sel('In', 't & 1'))))
    m.add(E('Xa', 'u8', V_('A', '0', [F('v', 'Vec<u8>', 'Count="n"')]), V_('B', '1', [F('x', 'u16', 'Value="n"')]), V_('C', '_', [F('y', 'Option<P0>', 'Cond="n > 1"')]), args=['n: u16'], argvals=['0, 0', '0, 2', '1, 3', '2, 1', '2, 2']))
    m.add(E('Ge', 'u8', V_('A', '0', [T('T')]), V_('B', '1', [F('a', 'u8'), F('b', 'T')]), V_('C', '_', [T('u8')]), generics='<T>', inst=['<u16>', '<P0>'], argvals=['0', '1', '2']))
    m.add(E('Big', 'u8', *[V_(f'V{k}', str(k), [T(['P0', 'P1', 'u16', 'u8'][k % 4]), T('u8')]) for k in range(16)], argvals=['0', '1', '7', '15', '16']))
    m.add(E('Hk', 'u8', V_('A', '0', [T('u8')]), V_('B', '1', [T('u16')]), attrs=['PreExec="let k = i.len();"', 'PostExec="let i = i;"', 'Exact'], argvals=['0', '1', '2']))
    m.add(E('Nm', 'u8', V_('A', '0', [F('a', 'u8', 'AlignAfter="2"'), F('b', 'usize', 'Value="inp.len()"')]), V_('B', '1', [T('u16')]), attrs=['InputName(inp)'], argvals=['0', '1', '2']))
    m.add(E('Dn', 'u8', V_('A', '_'), argvals=['0', '9']), E('Do', 'u8', V_('A', '_', [T('P0')]), argvals=['0', '9']), E('Sg', 'u8', V_('A', '7', [T('P0')]), argvals=['7', '9']))
    m.add(E('Rg', 'u16', V_('Lo', '0..=99', [T('P0')]), V_('Mid', '100 | 102 | 104..=108', [T('P1')]), V_('Hi', '0xff00..=0xffff', [F('a', 'u16')]), argvals=['0', '99', '100', '101', '102', '106', '109', '65280', '65535', '65279']))
    return m

# ---------------------------------------------------------------- C11: fieldless enums
@prop('C11')
def c11():
    m = Mods('fl')
    for r in ('u8', 'u16', 'u32', 'u64'):
        m.add(FL('E' + r, r, 'A', 'B', 'C'), FL('D' + r, r, ('A', 2), 'B', ('C', 1), ('D', 0x7f), 'E'))
    m.add(FL('Ei8', 'i8', ('A', -1), 'B', 'C', ('D', -128)), FL('Ei16', 'i16', ('A', -2), 'B', ('C', 300)), FL('Ei32', 'i32', ('M', -70000), ('A', 0), 'B'), FL('Ei64', 'i64', ('M', -1), 'A'))
    m.add(FL('E128', 'u128', 'A', ('B', 0x0100)), FL('Mx', 'u8', ('A', 255)), FL('Mx16', 'u16', ('A', 65535), ('B', 0x0100), ('C', 1)), FL('One', 'u8', 'A'), verus=True)
    m.add(FL('Many', 'u8', *[f'V{k}' if k % 5 else (f'V{k}', 3 * k) for k in range(20)]))
    m.add(FL('Ki', 'u8', ('A', 0), 'B', 'C'), S('Out', F('a', 'Ki'), F('b', 'u16'), F('c', 'Ki')), S('OutV', F('v', 'Vec<Ki>'), F('o', 'Option<Ki>'), F('b', 'u8')), S('OutC', F('v', 'Vec<Ki>', 'Count="2"'), F('o', 'Option<Ki>', 'Cond="true"')))
    m.add(FL('Le', 'u16', 'A', ('B', 256), derive='NomLE'), FL('Be', 'u16', 'A', ('B', 256), derive='NomBE'), FL('LeA', 'u32', 'A', ('B', 0x1000000), attrs=['LittleEndian']), FL('Sd', 'u16', 'A', ('B', 256), attrs=['SetEndian(nom::number::Endianness::Little)']) if 0 else FL('BeA', 'u32', 'A', ('B', 0x1000000), attrs=['BigEndian']))
    m.add(FL('Ex', 'u8', 'A', 'B', attrs=['Exact']), FL('Co', 'u16', 'A', 'B', attrs=['Complete']), FL('Db', 'u16', 'A', 'B', attrs=['Debug']))
    m.add(FL('Pp', 'u8', 'A', 'B', attrs=['PreExec="let i = i;"', 'PostExec="let i = i;"']), FL('Nm', 'u8', 'A', 'B', attrs=['InputName(data)']))
    m.add(FL('Ge', 'u8', 'A', 'B', attrs=['GenericErrors']), FL('Ge16', 'u16', ('A', 256), 'B', attrs=['GenericErrors', 'LittleEndian']))
    return m

# ---------------------------------------------------------------- C12: Complete
@prop('C12')
def c12():
    m = Mods('co')
    m.add(S('F', F('a', 'u8'), F('b', 'u64', 'Complete'), F('c', 'u16')), S('Tp', F('a', 'u8'), F('b', 'u64'), F('c', 'P1'), attrs=['Complete']), S('Tt', T('u16'), T('P1'), attrs=['Complete']))
    m.add(S('CC', F('n', 'u8'), F('a', 'Vec<P1>', 'Complete', 'Count="n & 3"'), F('b', 'Vec<P1>', 'Count="2"', 'Complete')), S('CL', F('a', 'Vec<u16>', 'Complete', 'LengthCount="len8"')), S('CLT', F('a', 'Vec<u16>', 'LengthCount=be_u16'), attrs=['Complete']))
    m.add(S('CO', F('n', 'u8'), F('a', 'Option<u16>', 'Complete', 'Cond="n > 1"'), F('b', 'Option<u16>', 'Cond="n > 1"', 'Complete')), S('CP', F('a', 'u16', 'Complete', 'Parse="up"'), F('b', 'u32', 'Complete', 'Parse=le_u32')))
    m.add(S('CT', F('a', "&'a [u8]", 'Complete', 'Take="3"'), F('b', "&'a [u8]", 'Complete', 'Tag(b"ab")'), generics="<'a>"), S('CTT', F('a', "&'a [u8]", 'Take="3"'), F('b', "&'a [u8]", 'Tag(b"ab")'), generics="<'a>", attrs=['Complete']))
    m.add(S('CM', F('a', 'u32', 'Complete', 'Map="m16"', 'Parse=be_u16'), F('b', 'u16', 'Map="m8"', 'Complete', 'Parse="up8"')), S('CV', F('a', 'u16', 'Complete', 'Verify="*a > 1"'), F('b', 'u16', 'Verify="*b > 1"', 'Complete')))
    m.add(S('Sub', F('a', 'u8'), F('b', 'u32')), S('CS', F('x', 'u8'), F('s', 'Sub', 'Complete')), S('CST', F('x', 'u8'), F('s', 'Sub'), F('v', 'Vec<Sub>'), attrs=['Complete']), S('SubC', F('a', 'u8'), F('b', 'u32'), attrs=['Complete']), S('NotC', F('x', 'u16'), F('s', 'SubC'), F('y', 'u16')))
    m.add(E('En', 'u8', V_('A', '0', [F('a', 'u16'), F('b', 'u32')]), V_('B', '1', [T('P1'), T('u64', 'Complete')]), V_('C', '2', attrs=['Parse=be_u16']), V_('D', '3'), attrs=['Complete'], argvals=['0', '1', '2', '3', '4']),
          E('EnF', 'u8', V_('A', '0', [F('a', 'u16', 'Complete'), F('b', 'u32')]), V_('B', '1', [T('P1'), T('u64', 'Complete')]), V_('C', '_', attrs=['Parse=be_u16']), argvals=['0', '1', '2']))
    m.add(FL('Fl', 'u16', 'A', ('B', 256), attrs=['Complete']), FL('Fl32', 'u32', 'A', ('B', 256), attrs=['Complete', 'LittleEndian']), FL('FlN', 'u16', 'A', ('B', 256)))
    m.add(S('Ge', F('a', 'u8'), F('b', 'u64', 'Complete'), F('c', 'Vec<u16>', 'Count="2"', 'Complete'), attrs=['GenericErrors']), S('GeT', F('a', 'u8'), F('b', 'u64'), F('c', 'Vec<u16>', 'Count="2"'), attrs=['GenericErrors', 'Complete']))
    m.add(S('CE', F('a', 'u8'), F('b', 'u64', 'LittleEndian', 'Complete'), F('c', 'P0', 'Complete', 'BigEndian'), F('d', 'P0'), derive='NomLE', attrs=['Complete']), S('CD', F('s', 'u8'), F('b', 'u32', 'Complete', 'SetEndian(pick(s))'), F('c', 'P0', 'Complete')))
    m.add(S('Pr', F('a', 'P0', 'Complete'), F('b', 'P0'), F('c', 'P1', 'Complete'), F('d', 'P1')), S('Db', F('a', 'P0', 'Complete', 'Debug'), F('b', 'P0', 'Debug')), S('DbT', F('a', 'P0'), F('b', 'u32'), attrs=['Debug']))
    m.add(S('Str', F('a', 'String', 'Complete'), F('b', '[u16; 2]', 'Complete'), F('c', 'Option<(u8, u16)>', 'Complete')), S('StrT', F('a', 'String'), F('b', '[u16; 2]'), F('c', 'Option<(u8, u16)>'), attrs=['Complete']))
    m.add(S('VI', F('a', 'u8'), F('v', 'u8', 'Complete', 'Value="a"'), F('g', 'u8', 'Complete', 'Ignore'), F('p', 'PhantomData<u8>', 'Complete'), F('b', 'u8')))
    m.add(S('Twice', F('a', 'u16', 'Complete', 'Complete'), F('b', 'u16', 'Complete'), attrs=['Complete']), S('Arg', F('a', 'Vec<u16>', 'Count="n"'), F('b', 'u32'), attrs=['Complete'], args=['n: u8'], argvals=['0', '2']))
    m.add(S('Nm', F('a', 'u16', 'Complete'), F('b', 'u32'), attrs=['Complete', 'InputName(data)']), S('PN', F('a', 'Vec<u16>', 'Complete', 'Count="2"', 'Parse=be_u16'), F('b', 'Option<Vec<u8>>', 'Cond="true"', 'Complete', 'Count="3"')))
    return m

# ---------------------------------------------------------------- C14: hooks, attribute order and forms
@prop('C14')
def c14():
    m = Mods('hk')
    m.add(S('Pre', F('a', 'u8', 'PreExec="let sz = i.len();"'), F('sz', 'usize', 'Value="sz"')), S('Post', F('a', 'u8', 'PostExec="let b = a ^ 1;"'), F('b', 'u8', 'Value(b)'), F('c', 'usize', 'Value="i.len()"')))
    m.add(S('Top', F('a', 'usize', 'Value="k"'), F('b', 'u16'), attrs=['PreExec="let k = i.len();"']), S('TopRe', F('a', 'u16'), F('b', 'P0'), attrs=['PreExec="let i = &i[..];"']) if 0 else S('TopR', F('a', 'u16'), F('b', 'P0'), attrs=['PreExec="let k = 3u16;"', 'PreExec="let k = k ^ 1u16;"', 'PostExec="let struct_def = struct_def;"']))
    m.add(S('Multi', F('a', 'u8'), F('b', 'u8', 'PreExec="let x = a ^ 1;"', 'PreExec="let y = x ^ 2;"', 'PostExec="let z = y ^ b;"', 'PostExec="let w = z ^ x;"'), F('c', 'u8', 'Value="w"'), F('d', 'u8', 'Value="z"')))
    m.add(S('Shadow', F('a', 'u8'), F('b', 'u8', 'PreExec="let a = a ^ 1;"'), F('c', 'u8', 'PostExec="let c = c ^ b;"'), F('d', 'u8', 'Value="a"')), S('StructDef', F('a', 'u8'), F('b', 'u8'), attrs=['PostExec="let struct_def = StructDef { a: struct_def.b, b: struct_def.a };"']))
    rew = Stmt('let (i, h) = up8(i)?;', wrap=lambda c: f'match sp_up8(i) {{ Err(nomv_e) => Err(nomv_e), Ok((i, h)) => {{ {c} }} }}')
    m.add(S('PreParse', Field('a', 'u8', Attr('PreExec', rew)), F('hh', 'u8', 'Value="h"'), F('b', 'P0')), S('PostParse', Field('a', 'u8', Attr('PostExec', rew)), F('hh', 'u8', 'Value="h"'), F('b', 'P0')), S('TopParse', F('a', 'u8'), F('hh', 'u8', 'Value="h"'), F('p', 'usize', 'MoveAbs="1"', 'Value="i.len()"')))
    m[-1].types[-1].attrs.append(Attr('PreExec', rew))
    early = Stmt('if a == 7 { return Err(nom::Err::Error(nom::error::make_error(i, nom::error::ErrorKind::Alt))); }', wrap=lambda c: f'if a == 7 {{ Err(nomv::Err::Error(nomv::sp_make_error(i, nomv::ErrorKind::Alt))) }} else {{ {c} }}')
    m.add(S('Early', F('a', 'u8'), Field('b', 'P0', Attr('PreExec', early, 'list')), F('c', 'u8')), S('EarlyP', F('a', 'u8'), Field('b', 'P0', Attr('PostExec', early, 'list')), F('c', 'u8')))
    m.add(S('PreAl', F('a', 'u8'), F('b', 'usize', 'PreExec="let p = i.len();"', 'SkipBefore="1"', 'PreExec="let q = i.len();"', 'Value="p"'), F('c', 'usize', 'Value="q"'), F('d', 'u8', 'SkipAfter="1"', 'PostExec="let r = i.len();"', 'AlignAfter="4"'), F('e', 'usize', 'Value="r"')),
          S('PreErr', F('a', 'u8', 'PreExec="let n = i.len();"', 'ErrorIf="n < 2"'), F('b', 'u8', 'SkipBefore="1"', 'ErrorIf="i.len() < 2"'), F('c', 'u8', 'ErrorIf="i.len() < 2"', 'SkipBefore="1"')))
    m.add(S('PreEnd', F('a', 'u8'), F('b', 'P0', 'PreExec="let e = pick(a);"', 'SetEndian(e)'), F('c', 'P0')))
    m.add(S('Args', F('a', 'u8', 'Verify="*a != k"'), F('b', 'Vec<P0>', 'Count="n"'), F('c', 'u8', 'Value="k"'), args=['k: u8', 'n: u16'], argvals=['0, 1', '1, 0', '9, 3']),
          S('ArgU', F('a', 'u8'), args=['_k: u8'], argvals=['1']))
    call = lambda n, e: Attr('Parse', PExpr('{ |i| %s::parse(i, %s) }' % (n, e), lambda i: f'{n}::sp({i}, {e})', lambda i: f'{n}::parse({i}, {e})'))
    m.add(S('ArgIn', F('a', 'u8', 'Value="k"'), F('b', 'P0'), args=['k: u8'], argvals=['3']), S('ArgOut', F('k', 'u8'), Field('x', 'ArgIn', call('ArgIn', 'k'))), S('ArgMid', Field('x', 'ArgIn', call('ArgIn', 'k ^ 1')), F('y', 'u8'), args=['k: u8'], argvals=['5']))
    m.add(S('InN', F('a', 'u8'), F('b', 'usize', 'Value="data.len()"'), F('i', 'u8'), F('c', 'Vec<P0>', 'Count="i & 3"'), attrs=['InputName(data)']), S('InN2', F('a', 'u8', 'AlignAfter="2"'), F('b', 'usize', 'PreExec="let t = xx.len();"', 'Value="t"'), attrs=['InputName(xx)', 'Exact']), S('InNS', F('i', 'u8'), F('j', 'u16'), attrs=['InputName="input"']))
    # forms and grouping
    at = ['SkipBefore', 'Cond', 'Complete', 'LittleEndian']
    def fl(forms, groups): return [F('n', 'u8'), Field('v', 'Option<Vec<P0>>', Attr('SkipBefore', X('1'), forms[0]), Attr('Cond', X('n > 1'), forms[1]), Attr('Complete'), Attr('Count', X('n & 3'), forms[2]), Attr('LittleEndian'), groups=groups), F('z', 'u8')]
    m.add(S('Fm0', *fl(['str'] * 3, None)), S('Fm1', *fl(['list'] * 3, None)), S('Fm2', *fl(['str', 'list', 'str'], [1, 1, 1, 1, 1])), S('Fm3', *fl(['list', 'str', 'list'], [2, 3])), S('Fm4', *fl(['list'] * 3, [4, 1])))
    m.add(S('TopG1', F('a', 'P0'), F('b', 'u16'), attrs=['LittleEndian', 'Complete', 'Exact']), S('TopG2', F('a', 'P0'), F('b', 'u16'), attrs=['LittleEndian', 'Complete', 'Exact'], groups=[1, 1, 1]), S('TopG3', F('a', 'P0'), F('b', 'u16'), attrs=['Exact', 'LittleEndian', 'Complete'], groups=[2, 1]))
    m.add(S('Ord1', F('a', 'u8'), F('b', 'Option<Vec<P0>>', 'Cond="a > 1"', 'Count="2"'), F('c', 'Vec<Option<P0>>', 'Count="2"', 'Cond="a > 1"')), S('Ord2', F('a', 'u16', 'Map="m8"', 'Verify="*a != 3"', 'Parse="up8"') if 0 else F('a', 'u16', 'Verify="*a != 257"', 'Map="m8"', 'Parse="up8"'), F('b', 'u16', 'Complete', 'Map="m8"', 'Parse="up8"')))
    m.add(E('En', 'u8', V_('A', '0', [F('a', 'usize', 'Value="k"'), F('b', 'u8', 'PreExec="let q = i.len();"'), F('c', 'usize', 'Value="q"')]), V_('B', '1', [T('P0', 'PostExec="let z = _0;"'), T('P0', 'Value="z"')]), attrs=['PreExec="let k = i.len();"', 'PostExec="let enum_def = enum_def;"'], argvals=['0', '1', '2']),
          E('EnU', 'u8', V_('A', '0', attrs=['SkipBefore="1"']), V_('B', '1', attrs=['Parse="up"', 'SkipAfter="1"']), V_('C', '_', attrs=['AlignAfter="4"', 'Parse="up"']), argvals=['0', '1', '2']))
    m.add(S('Loc', F('a', 'u8', 'PreExec="let t = { let u = i.len(); u };"'), F('b', 'usize', 'Value="t"'), F('c', 'u8', 'PreExec="let (p, q) = (a, b);"'), F('d', 'u8', 'Value="p"'), F('e', 'usize', 'Value="q"')))
    m.add(S('TuH', T('u8', 'PostExec="let z = _0 ^ 1;"'), T('u8', 'Value="z"'), T('P0', 'PreExec="let y = z;"'), T('u8', 'Value="y"')))
    return m

# ---------------------------------------------------------------- C16: generic errors, type parameters, lifetimes
@prop('C16')
def c16():
    m = Mods('ge')
    G = ['GenericErrors']
    m.add(S('A', F('a', 'u8'), F('b', 'P0'), F('c', 'Option<u16>'), F('d', 'Vec<P1>'), attrs=G), S('T', T('u16'), T('P1'), attrs=G), S('U', attrs=G))
    m.add(S('V', F('a', 'u8', 'Verify="*a != 2"'), F('b', 'P0', 'ErrorIf="a == 1"'), F('c', 'u16', 'Complete'), attrs=G), S('C', F('n', 'u8'), F('v', 'Vec<P0>', 'Count="n & 3"'), F('w', 'Vec<P0>', 'LengthCount="len8"'), attrs=G))
    m.add(S('M', F('a', 'u16'), F('b', 'u8', 'Move="-1"'), F('c', 'u8', 'MoveAbs="3"'), F('d', 'u8', 'AlignBefore="4"', 'SkipAfter="1"'), attrs=G), S('M2', F('b', 'u8', 'Move="-1"'), attrs=G), S('X', F('a', 'u8'), F('b', 'P0'), attrs=G + ['Exact']))
    m.add(S('L', F('a', "&'a [u8]", 'Take="2"'), F('t', "&'a [u8]", 'Tag(b"ab")'), generics="<'a>", attrs=G), S('P', F('a', 'u16', 'Parse="up"'), F('b', 'u32', 'Map="m16"', 'Parse=be_u16'), attrs=G))
    m.add(S('Sub', F('a', 'P0'), attrs=G), S('N', F('x', 'Sub'), F('y', 'Vec<Sub>'), F('z', 'Option<Sub>'), attrs=G + ['LittleEndian']))
    m.add(E('En', 'u8', V_('A', '0', [T('P0')]), V_('B', '1', [F('a', 'u16'), F('v', 'Vec<P0>', 'Count="2"')]), attrs=G, argvals=['0', '1', '2']), S('Ar', F('a', 'u8', 'Verify="*a != k"'), F('v', 'Vec<P0>', 'Count="2"'), args=['k: u8'], argvals=['0', '1'], attrs=G))
    m.add(FL('Fl', 'u8', 'A', 'B', attrs=G), S('HasFl', F('a', 'Fl'), F('b', 'Vec<Fl>'), attrs=G))
    m.add(S('T1', F('a', 'T'), F('b', 'u8'), generics='<T>', inst=['<u8>', '<u16>', '<P0>']), S('T2', F('a', 'A'), F('b', 'B'), F('c', 'A'), generics='<A, B>', inst=['<u8, u16>', '<P0, P1>']))
    m.add(S('T3', F('a', 'Option<T>'), F('v', 'Vec<T>'), generics='<T>', inst=['<u8>', '<P1>']), S('T4', T('T'), T('u16'), T('Option<(T, T)>'), generics='<T>', inst=['<u16>', '<P0>']))
    m.add(S('TL', F('d', "&'a [u8]", 'Take="1"'), F('t', 'T'), generics="<'a, T>", inst=["<'_, u16>", "<'_, P0>"]), S('TE', F('a', 'T', 'LittleEndian'), F('b', 'T', 'BigEndian'), F('c', 'T'), generics='<T>', inst=['<P0>']))
    m.add(S('Two', F('x', "&'a [u8]", 'Take="1"'), F('y', "&'b [u8]", 'Take="2"'), generics="<'a, 'b>"), S('Ow', F('x', "In<'a>"), F('y', "Option<In<'a>>"), generics="<'a>"), S('In', F('x', "&'a [u8]", 'Take="2"'), generics="<'a>"))
    m.add(S('Wh', F('a', 'T'), F('b', 'u8'), generics='<T>', where='T: Copy', inst=['<u8>', '<P0>']), S('Bd', F('a', 'T'), generics='<T: Copy>', inst=['<u8>', '<P0>']))
    m.add(S('Gt', F('a', 'T1<u16>'), F('b', 'T1<P0>'), F('c', 'Vec<T1<u8>>')), S('T1', F('a', 'T'), F('b', 'u8'), generics='<T>', inst=['<u8>']))
    m.add(E('Et', 'u8', V_('A', '0', [T('T')]), V_('B', '1', [F('a', "&'a [u8]", 'Take="1"'), F('b', 'T')]), generics="<'a, T>", inst=["<'_, P0>"], argvals=['0', '1', '2']), S('Ph', F('a', 'u8'), F('p', 'PhantomData<T>'), generics='<T>', inst=['<u16>']))
    return m
