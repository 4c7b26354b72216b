"""Contracts of the library types (nom-derive/src/traits.rs, helpers.rs) and of the primitive parsers of nom,
as Verus text.  The library contracts are *proved* against the extracted real source by check C02/C03 and
*used* (as contracts of callees) by every other check."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PRIMS = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64']
NOMPRIMS = PRIMS + ['u24', 'i24']

WIDTH = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u24': 3, 'i24': 3, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8, 'u128': 16, 'i128': 16}
def prim_value(t, v):
    """the value of type t whose representation is the (natural number) v"""
    if t == 'i24': return f'sp_sext24({v})'
    if t[0] == 'f': return f'sp_{t}_from_bits({v} as u{t[1:]})'
    if t[0] == 'i': return f'{v} as u{t[1:]} as {t}'
    return f'{v} as ' + {'u24': 'u32'}.get(t, t)

def prims_text():
    """nom's number parsers: byte-exact contracts (assumed of nom; validated by Kani in check C01)"""
    out = ["pub open spec fn sp_be_nat(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sp_be_nat(s.drop_last()) * 256 + s.last() as nat } }",
           "pub open spec fn sp_le_nat(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * sp_le_nat(s.drop_first()) } }",
           "pub uninterp spec fn sp_f32_from_bits(x: u32) -> f32; pub uninterp spec fn sp_f64_from_bits(x: u64) -> f64;",
           "pub open spec fn sp_sext24(v: nat) -> i32 { if v < 0x80_0000 { v as i32 } else { (v - 0x100_0000) as i32 } }"]
    for t in NOMPRIMS:
        rt = {'u24': 'u32', 'i24': 'i32'}.get(t, t)
        w = WIDTH[t]
        for en in ('be', 'le'):
            f = f'{en}_{t}'
            val = prim_value(t, f'sp_{en}_nat(i.bytes().subrange(0, {w}))')
            out.append(f"pub open spec fn sp_b_{f}<'a, E>(i: Inp<'a>) -> Res<'a, {rt}, E> {{ if i.slen() < {w} {{ Err(Err::Incomplete(needed())) }} else {{ Ok((i.sfrom({w}), {val})) }} }}")
            out.append(f"#[verifier::opaque] pub open spec fn sp_{f}<'a, E>(i: Inp<'a>) -> Res<'a, {rt}, E> {{ sp_b_{f}(i) }}")
            out.append(f"pub broadcast proof fn ax_{f}<'a, E>(i: Inp<'a>) ensures (#[trigger] sp_{f}::<E>(i)) matches Ok((j, _)) ==> j.suffix_of(i) {{ broadcast use inp_axioms; reveal(sp_{f}); }}")
            out.append(f"#[verifier::external_body] pub fn {f}<'a, E: ParseError<Inp<'a>>>(i: Inp<'a>) -> (r: Res<'a, {rt}, E>) ensures r == sp_{f}::<E>(i) {{ unimplemented!() }}")
    out.append('pub broadcast group prim_axioms { ' + ', '.join(f'ax_{en}_{t}' for t in NOMPRIMS for en in ('be', 'le')) + ' }')
    return '\n'.join(out)

def prim_theorems():
    """C01, stated over the contracts of the impls: byte-exact, and big/little are mirror images"""
    out = []
    for t in PRIMS:
        for m, en in (('sp', 'be'), ('sp_be', 'be'), ('sp_le', 'le')):
            out.append(f"pub proof fn thm_{t}_{m}<'a, E: ParseError<Inp<'a>>>(i: Inp<'a>) ensures <{t} as Parse<'a, E>>::{m}(i) == sp_b_{en}_{t}::<E>(i) {{ reveal(sp_{en}_{t}); }}")
    return '\n'.join(out)

def theorems(pid):
    if pid == 'C01': return prim_theorems()
    if pid == 'C02': return CONT_THEOREMS
    return C03_THEOREMS

CONT_THEOREMS = """
/// an optional never fails recoverably and gives back the whole input when it is absent
pub proof fn thm_option<'a, E: ParseError<Inp<'a>>, T: Parse<'a, E>>(i: Inp<'a>)
    ensures <Option<T> as Parse<'a, E>>::sp(i) matches Ok((j, o)) ==> (o is None ==> j == i),
            !(<Option<T> as Parse<'a, E>>::sp(i) matches Err(Err::Incomplete(_))), !(<Option<T> as Parse<'a, E>>::sp(i) matches Err(Err::Error(_))),
            T::sp(i) matches Ok((j, o)) ==> <Option<T> as Parse<'a, E>>::sp(i) == Ok::<(Inp<'a>, Option<T>), Err<E>>((j, Some(o))),
{}
pub proof fn many_never_incomplete<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>)
    ensures !(sp_many0(|j: Inp<'a>| sp_complete(j, f(j)), i, acc) matches Err(Err::Incomplete(_)))
    decreases i.slen()
{ match sp_complete(i, f(i)) { Ok((j, o)) => { if j.slen() < i.slen() { many_never_incomplete(f, j, acc.push(o)); } }, _ => {} } }
/// a list is maximal: it stops where its element does not parse
pub proof fn many_maximal<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, i: Inp<'a>, acc: Seq<O>)
    ensures sp_many0(|j: Inp<'a>| sp_complete(j, f(j)), i, acc) matches Ok((k, v)) ==> sp_complete(k, f(k)) matches Err(Err::Error(_)) && acc.len() <= v.g@.len() && v.g@.subrange(0, acc.len() as int) =~= acc
    decreases i.slen()
{ match sp_complete(i, f(i)) { Ok((j, o)) => { if j.slen() < i.slen() { many_maximal(f, j, acc.push(o));
    match sp_many0(|j: Inp<'a>| sp_complete(j, f(j)), j, acc.push(o)) { Ok((k, v)) => { assert(v.g@.subrange(0, acc.len() as int) =~= v.g@.subrange(0, acc.push(o).len() as int).subrange(0, acc.len() as int)); assert(acc.push(o).subrange(0, acc.len() as int) =~= acc); }, _ => {} } } }, _ => {} } }
pub proof fn thm_vec<'a, E: ParseError<Inp<'a>>, T: Parse<'a, E>>(i: Inp<'a>)
    ensures !(<Vec<T> as Parse<'a, E>>::sp(i) matches Err(Err::Incomplete(_))),
            <Vec<T> as Parse<'a, E>>::sp(i) matches Ok((k, v)) ==> sp_complete(k, T::sp(k)) matches Err(Err::Error(_)),
{ broadcast use many_lemmas; let f = |j: Inp<'a>| T::sp(j); many_never_incomplete(f, i, Seq::empty()); many_maximal(f, i, Seq::empty());
  assert(sp_many0(|j: Inp<'a>| sp_complete(j, f(j)), i, Seq::empty()) == sp_many0(|j: Inp<'a>| sp_complete(j, T::sp(j)), i, Seq::empty())); }
/// a pair is the first, then the second on what is left
pub proof fn thm_pair<'a, E: ParseError<Inp<'a>>, A: Parse<'a, E>, B: Parse<'a, E>>(i: Inp<'a>)
    ensures <(A, B) as Parse<'a, E>>::sp_le(i) matches Ok((k, v)) ==> A::sp_le(i) matches Ok((j, a)) && B::sp_le(j) matches Ok((k2, b)) && k2 == k && v.0 == a && v.1 == b,
{}
"""
C03_THEOREMS = """
/// the bytes of a LengthData are the announced number of bytes that follow the length, and nothing else is consumed
pub proof fn thm_length_data<'a, E: ParseError<Inp<'a>>>(i: Inp<'a>)
    ensures <LengthData<u16, Inp<'a>> as Parse<'a, E>>::sp_be(i) matches Ok((j, d)) ==> d.data.slen() == sp_be_nat(i.bytes().subrange(0, 2)) && d.data.cur().lo == i.cur().lo + 2 && j.cur().lo == i.cur().lo + 2 + d.data.slen() && j.cur().hi == i.cur().hi
{ broadcast use inp_axioms; reveal(sp_be_u16); reveal_with_fuel(sp_be_nat, 3); let s = i.bytes().subrange(0, 2); if i.slen() >= 2 { assert(sp_be_nat(s) < 65536) by { assert(s.len() == 2); assert(s.drop_last().len() == 1); assert(s.drop_last().drop_last().len() == 0); } } }
"""

class LibImpl:
    """spec of one library impl: generics, type, the three spec bodies (i is the input), suffix proof"""
    def __init__(self, key, generics, ty, sp, be, le, where='', proof='', lemma=''):
        self.key, self.generics, self.ty, self.sp, self.be, self.le, self.where, self.proof, self.lemma = key, generics, ty, sp, be, le, where, proof, lemma
    def spec_fns(self, e='E'):
        r = f"Res<'a, Self, {e}>"
        return (f"open spec fn sp(i: Inp<'a>) -> {r} {{ {self.sp} }}\n"
                f"open spec fn sp_be(i: Inp<'a>) -> {r} {{ {self.be} }}\n"
                f"open spec fn sp_le(i: Inp<'a>) -> {r} {{ {self.le} }}\n"
                f"proof fn suffix(i: Inp<'a>) {{ broadcast use {{inp_axioms, prim_axioms, count_lemmas, many_lemmas}}; {self.proof} }}\n")
    def header(self):
        return f"impl<{self.generics}> Parse<'a, E> for {self.ty} {self.where} {{"
    def trusted(self):
        out = [self.header(), self.spec_fns()]
        for f in ('parse', 'parse_be', 'parse_le'):
            out.append(f"#[verifier::external_body] fn {f}(i: Inp<'a>) -> (r: Res<'a, Self, E>) {{ unimplemented!() }}")
        out.append('}')
        return '\n'.join(out)

def three(f, g=None):
    g = g or f
    return dict(sp=f('sp'), be=f('sp_be'), le=f('sp_le'))

def lib_impls(na=False):
    """na: the build without default features, where an array is filled in place"""
    L = []
    for t in PRIMS:
        L.append(LibImpl(t, "'a, E: ParseError<Inp<'a>>", t, f'sp_be_{t}::<E>(i)', f'sp_be_{t}::<E>(i)', f'sp_le_{t}::<E>(i)'))
    G = "'a, E: ParseError<Inp<'a>>, T: Parse<'a, E>"
    L.append(LibImpl('Option', G, 'Option<T>', proof='T::suffix(i);', **three(lambda s: f'sp_opt(i, sp_complete(i, T::{s}(i)))')))
    vp = "assert forall|j: Inp<'a>| true implies ({sp}(j) matches Ok((k, _)) ==> k.suffix_of(j)) by {{ T::suffix(j); }}"
    def vecproof():
        return ("assert forall|j: Inp<'a>| (#[trigger] T::sp(j)) matches Ok((k, _)) ==> k.suffix_of(j) by { T::suffix(j); };"
                "assert forall|j: Inp<'a>| (#[trigger] T::sp_be(j)) matches Ok((k, _)) ==> k.suffix_of(j) by { T::suffix(j); };"
                "assert forall|j: Inp<'a>| (#[trigger] T::sp_le(j)) matches Ok((k, _)) ==> k.suffix_of(j) by { T::suffix(j); };")
    L.append(LibImpl('Vec', G, 'Vec<T>', proof=vecproof(), **three(lambda s: f"sp_many0(|j: Inp<'a>| sp_complete(j, T::{s}(j)), i, Seq::empty())")))
    L.append(LibImpl('Tuple', "'a, E: ParseError<Inp<'a>>, T1: Parse<'a, E>, T2: Parse<'a, E>", '(T1, T2)',
        proof="T1::suffix(i); assert forall|j: Inp<'a>| (#[trigger] T2::sp(j)) matches Ok((k, _)) ==> k.suffix_of(j) by { T2::suffix(j); };"
              "assert forall|j: Inp<'a>| (#[trigger] T2::sp_be(j)) matches Ok((k, _)) ==> k.suffix_of(j) by { T2::suffix(j); };"
              "assert forall|j: Inp<'a>| (#[trigger] T2::sp_le(j)) matches Ok((k, _)) ==> k.suffix_of(j) by { T2::suffix(j); };",
        **three(lambda s: f"match T1::{s}(i) {{ Err(e) => Err(e), Ok((i, a)) => match T2::{s}(i) {{ Err(e) => Err(e), Ok((i, b)) => Ok((i, (a, b))) }} }}")))
    L.append(LibImpl('Array', "'a, E: ParseError<Inp<'a>> + FromExternalError<Inp<'a>, Vec<T>>, T: Parse<'a, E>, const N: usize", '[T; N]', proof=vecproof(),
        **three(lambda s: f"sp_map_res(i, sp_many_m_n(N as nat, N as nat, |j: Inp<'a>| sp_complete(j, T::{s}(j)), i, Seq::empty()), |v: Vec<T>| sp_try_from::<T, N>(v))")))
    if na:
        L[-1] = LibImpl('Array', "'a, E: ParseError<Inp<'a>>, T: Parse<'a, E>, const N: usize", '[T; N]', proof='broadcast use fill_lemmas; ' + vecproof(),
            **three(lambda s: f"match sp_fill(|j: Inp<'a>| T::{s}(j), N as nat, i, i, Seq::empty()) {{ Ok((j, nomv_s)) => Ok((j, sp_arr::<T, N>(nomv_s))), Err(e) => Err(e) }}"))
    sz = "match u32::sp(i) { Err(e) => Err(e), Ok((i, n)) => match sp_map_res(i, sp_take::<E>(n as int, i), |b: Inp<'a>| sp_from_utf8(b)) { Err(e) => Err(e), Ok((i, s)) => Ok((i, sp_string(s.content()))) } }"
    L.append(LibImpl('String', "'a, E: ParseError<Inp<'a>> + FromExternalError<Inp<'a>, Utf8Error>", 'String', sp=sz, be=sz, le=sz))
    L.append(LibImpl('LengthData', "'a, E: ParseError<Inp<'a>>, L: Parse<'a, E> + ToUsize", "LengthData<L, Inp<'a>>", proof='L::suffix(i);',
        **three(lambda s: f"match L::{s}(i) {{ Err(e) => Err(e), Ok((i, n)) => match sp_take::<E>(n.sp_to_usize() as int, i) {{ Err(e) => Err(e), Ok((i, d)) => Ok((i, LengthData {{ l: PhantomData, data: d }})) }} }}")))
    return L

EXTRA = """
//@LDSTRUCT
//@LDNEW
pub open spec fn sp_LengthData_new<L, D>(data: D) -> LengthData<L, D> { LengthData { l: PhantomData, data } }
pub uninterp spec fn sp_arr<T, const N: usize>(s: Seq<T>) -> [T; N];
pub open spec fn sp_try_from<T, const N: usize>(v: Vec<T>) -> Result<[T; N], Vec<T>> { if v.g@.len() == N { Ok(sp_arr::<T, N>(v.g@)) } else { Err(v) } }
#[verifier::external_body] pub fn try_from<T, const N: usize>(v: Vec<T>) -> (r: Result<[T; N], Vec<T>>) ensures r == sp_try_from::<T, N>(v) { unimplemented!() }
"""

FILL = """
/// nom::multi::fill: exactly n elements; an element's recoverable error is reported at the start, with what the element said
pub open spec fn sp_fill<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, n: nat, i0: Inp<'a>, i: Inp<'a>, acc: Seq<O>) -> Res<'a, Seq<O>, E>
    decreases n - acc.len()
{
    if acc.len() >= n { Ok((i, acc)) } else {
        match f(i) {
            Ok((j, o)) => sp_fill(f, n, i0, j, acc.push(o)),
            Err(Err::Error(e)) => Err(Err::Error(E::app(i0, ErrorKind::Count, e))),
            Err(Err::Incomplete(x)) => Err(Err::Incomplete(x)),
            Err(Err::Failure(x)) => Err(Err::Failure(x)),
        }
    }
}
pub proof fn sp_fill_ext1<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, g: spec_fn(Inp<'a>) -> Res<'a, O, E>, n: nat, i0: Inp<'a>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| #[trigger] f(j) == g(j)
    ensures sp_fill(f, n, i0, i, acc) == sp_fill(g, n, i0, i, acc)
    decreases n - acc.len()
{ if acc.len() < n { assert(f(i) == g(i)); match f(i) { Ok((j, o)) => sp_fill_ext1(f, g, n, i0, j, acc.push(o)), _ => {} } } }
pub broadcast proof fn sp_fill_ext<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, g: spec_fn(Inp<'a>) -> Res<'a, O, E>, n: nat, i0: Inp<'a>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| #[trigger] f(j) == g(j)
    ensures #[trigger] sp_fill(f, n, i0, i, acc) == #[trigger] sp_fill(g, n, i0, i, acc)
{ sp_fill_ext1(f, g, n, i0, i, acc) }
pub broadcast proof fn sp_fill_suffix<'a, O, E: ParseError<Inp<'a>>>(f: spec_fn(Inp<'a>) -> Res<'a, O, E>, n: nat, i0: Inp<'a>, i: Inp<'a>, acc: Seq<O>)
    requires forall|j: Inp<'a>| (#[trigger] f(j)) matches Ok((k, _)) ==> k.suffix_of(j)
    ensures (#[trigger] sp_fill(f, n, i0, i, acc)) matches Ok((k, _)) ==> k.suffix_of(i)
    decreases n - acc.len()
{ broadcast use inp_axioms; if acc.len() < n { match f(i) { Ok((j, o)) => { assert(j.suffix_of(i)); sp_fill_suffix(f, n, i0, j, acc.push(o)); }, _ => {} } } }
pub broadcast group fill_lemmas { sp_fill_ext, sp_fill_suffix }
#[verifier::external_body] pub fn arr_default<T, const N: usize>() -> (r: [T; N]) { unimplemented!() }
#[verifier::external_body] pub fn fill_run<'a, E: ParseError<Inp<'a>>, P: Parser<'a, E = E>, const N: usize>(p: P, o: &mut [P::O; N], i: Inp<'a>) -> (r: Res<'a, (), E>)
    ensures match sp_fill(|j: Inp<'a>| p.run(j), N as nat, i, i, Seq::empty()) { Ok((j, s)) => r == Ok::<(Inp<'a>, ()), Err<E>>((j, ())) && *final(o) == sp_arr::<P::O, N>(s), Err(e) => r == Err::<(Inp<'a>, ()), Err<E>>(e) }
{ unimplemented!() }
"""
LDSTRUCT = "pub struct LengthData<L, D> { pub l: PhantomData<L>, pub data: D }"
LDNEW = "impl<L, D> LengthData<L, D> { #[verifier::external_body] pub fn new(data: D) -> (r: Self) ensures r == sp_LengthData_new::<L, D>(data) { unimplemented!() } }"

def prelude(extracted=None, na=False):
    """extracted: key -> text of impls taken from the source (proved instead of trusted)"""
    x = extracted or {}
    s = open(os.path.join(ROOT, 'verus', 'prelude.rs')).read()
    L = []
    for l in lib_impls(na):
        L.append(f'//@MOD {l.key}\n{x[l.key]}\n//@MOD -' if l.key in x else l.trusted())
    e = EXTRA.replace('//@LDSTRUCT', x.get('LengthDataStruct') or LDSTRUCT).replace('//@LDNEW', f"//@MOD LengthDataNew\n{x['LengthDataNew']}\n//@MOD -" if 'LengthDataNew' in x else LDNEW)
    return s.replace('//@PRIMS', prims_text()).replace('//@LIBIMPLS', e + (FILL if na else '') + '\n'.join(L))

def lib_modules(mods, na=False):
    """extracted text of the library (nvextract lib) with the contracts spliced in: key -> (text, functions, problems)"""
    out = {}
    by = {l.key: l for l in lib_impls(na)}
    for key, lines in mods.items():
        if key in ('LengthDataStruct', 'LengthDataNew'): out[key] = ('\n'.join(lines), ['LengthData::new'] if key == 'LengthDataNew' else [], []); continue
        k = 'Tuple' if key == 'Tuple2' else key
        if k not in by: continue
        t, fns, bad = [], [], []
        lf = "'nom"
        for l in lines:
            m = re.match(r"impl < '(\w+)", l)
            if m: lf = "'" + m.group(1)
            if l.startswith('{ '): l = '{ broadcast use {inp_axioms, prim_axioms, count_lemmas, many_lemmas' + (', fill_lemmas' if na else '') + '}; ' + l[2:]
            if l.startswith('//@SPEC'): t.append(by[k].spec_fns().replace("'a", lf)); continue
            m = re.match(r'//@BAD (\w+) (.*)', l)
            if m: bad.append(f'{k}::{m.group(1)}: {m.group(2)}'); continue
            m = re.match(r'//@FN (\w+)', l)
            if m: fns.append(f'{k}::{m.group(1)}')
            t.append(l)
        for f in ('parse', 'parse_be', 'parse_le'):
            if f'{k}::{f}' not in fns: bad.append(f'{k}::{f} not found')
        out[k] = ('\n'.join(t), fns, bad)
    return out

UPARSERS = [('up', 'u16'), ('up8', 'u8'), ('len8', 'u8'), ('len16', 'u16'), ('len64', 'u64')]
def hmirror():
    out = []
    axs = []
    for t in ('P0', 'P1', 'Pd'):
        out.append(f"#[verifier::external_body] #[derive(Clone, Copy)] pub struct {t} {{ z: u8 }}")
        for m in ('sp', 'sp_be', 'sp_le'):
            out.append(f"pub uninterp spec fn {m}_{t}<'a, E>(i: Inp<'a>) -> Res<'a, {t}, E>;")
            out.append(f"pub broadcast axiom fn ax_{m}_{t}<'a, E>(i: Inp<'a>) ensures (#[trigger] {m}_{t}::<E>(i)) matches Ok((j, _)) ==> j.suffix_of(i);")
            axs.append(f'ax_{m}_{t}')
        be, le = ('sp', 'sp') if t == 'Pd' else ('sp_be', 'sp_le')
        out.append(LibImpl(t, "'a, E: ParseError<Inp<'a>>", t, f'sp_{t}::<E>(i)', f'{be}_{t}::<E>(i)', f'{le}_{t}::<E>(i)', proof='broadcast use {ax_sp_%s, ax_sp_be_%s, ax_sp_le_%s};' % (t, t, t)).trusted())
    for f, t in UPARSERS:
        out.append(f"pub uninterp spec fn sp_{f}<'a, E>(i: Inp<'a>) -> Res<'a, {t}, E>;")
        out.append(f"pub broadcast axiom fn ax_{f}<'a, E>(i: Inp<'a>) ensures (#[trigger] sp_{f}::<E>(i)) matches Ok((j, _)) ==> j.suffix_of(i);")
        out.append(f"#[verifier::external_body] pub fn {f}<'a, E: ParseError<Inp<'a>>>(i: Inp<'a>) -> (r: Res<'a, {t}, E>) ensures r == sp_{f}::<E>(i) {{ unimplemented!() }}")
        axs.append(f'ax_{f}')
    out.append('pub broadcast group h_axioms { ' + ', '.join(axs) + ' }')
    s = open(os.path.join(ROOT, 'verus', 'h.rs')).read()
    return s.replace('//@PROBES', '\n'.join(out))

BROADCAST = 'broadcast use {nomv::inp_axioms, nomv::parse_axioms, nomv::prim_axioms, nomv::count_lemmas, nomv::dflt_axioms, nomv::into_axioms, nomv::pad_lemmas, nomv::vec_len, h::h_axioms};'

if __name__ == '__main__':
    print(prelude() + hmirror() + '\nfn main() {}')
