"""Contracts on the functions of nom-derive-impl that turn attribute lists into parser trees, for all attribute lists, types and
configurations: extracted from /repo's sources on every run (tools/extract/src/tree.rs) and discharged by Verus."""
import os, re, shutil
from . import core, implcheck
from .core import BUILD, REPO, run, write, log
from .implcheck import params, named_result, CONTRACTS as IMP

PRE = r'''
pub struct NvError; pub struct NvSpan;
#[verifier::external_body] pub struct NvRest { x: u8 }
#[verifier::external_body] pub fn nv_err() -> NvError { unimplemented!() }
#[verifier::external_body] pub fn nv_span() -> NvSpan { unimplemented!() }
#[verifier::external_body] pub fn nv_string() -> String { unimplemented!() }
#[verifier::external_body] pub fn nv_unreachable<T>() -> T requires false { unimplemented!() }
#[verifier::external_body] pub fn nv_str_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
@OPAQUE@
#[verifier::external_body] pub fn nv_quote() -> TokenStream { unimplemented!() }
pub uninterp spec fn sp_lit(t: TokenStream) -> bool;
pub uninterp spec fn sp_view(t: TokenStream) -> Seq<int>;
impl TokenStream {
    pub open spec fn view(&self) -> Seq<int> { sp_view(*self) }
    #[verifier::external_body] pub fn nv_first_lit(&self) -> (r: bool) ensures r == sp_lit(*self) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: TokenStream) ensures r@ == Seq::<int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, t: TokenStream) ensures final(self)@ == old(self)@ + t@ { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
/// parsing a whole token stream as an expression keeps all its tokens
pub uninterp spec fn sp_is_expr(t: TokenStream) -> bool;
pub uninterp spec fn sp_expr_tokens(e: SynExpr) -> TokenStream;
#[verifier::external_body] pub fn nv_parse_expr(t: TokenStream) -> (r: core::result::Result<SynExpr, NvError>) ensures r.is_ok() == sp_is_expr(t), r matches Ok(e) ==> sp_expr_tokens(e) == t { unimplemented!() }
impl SynExpr { #[verifier::external_body] pub fn to_token_stream(&self) -> (r: TokenStream) ensures r == sp_expr_tokens(*self) { unimplemented!() } }
pub uninterp spec fn sp_parse_type(t: TokenStream) -> core::result::Result<Type, NvError>;
#[verifier::external_body] pub fn nv_parse_type(t: TokenStream) -> (r: core::result::Result<Type, NvError>) ensures r == sp_parse_type(t) { unimplemented!() }
#[verifier::external_body] pub fn nv_parse_type_str(t: &String) -> (r: core::result::Result<Type, NvError>) ensures r == sp_parse_type_str(t@) { unimplemented!() }
pub uninterp spec fn sp_parse_type_str(t: Seq<char>) -> core::result::Result<Type, NvError>;
pub uninterp spec fn sp_text(t: TokenStream) -> Seq<char>;
impl TokenStream { #[verifier::external_body] pub fn nv_to_string(&self) -> (r: String) ensures r@ == sp_text(*self) { unimplemented!() } }
pub uninterp spec fn sp_ident(i: Ident) -> Seq<char>;
impl Ident { #[verifier::external_body] pub fn nv_to_string(&self) -> (r: String) ensures r@ == sp_ident(*self) { unimplemented!() } }
#[verifier::external_body] pub fn nv_lit_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn nv_token_list() -> Vec<TokenStream> { unimplemented!() }
// the parts of syn's types that the functions look at
pub enum Type { Path(TypePath), Array(TypeArray), NvOther(NvRest) }
impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct TypePath { pub path: Path } pub struct TypeArray { pub elem: Box<Type> } pub struct Path { pub segments: Segments }
pub struct PathSegment { pub ident: Ident, pub arguments: PathArguments }
pub enum PathArguments { None, AngleBracketed(AngleArgs), Parenthesized(NvRest) } pub struct AngleArgs { pub args: GenericArgs }
pub uninterp spec fn sp_segs(s: Segments) -> Seq<PathSegment>;
impl Segments {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == sp_segs(*self).len() { unimplemented!() }
    #[verifier::external_body] pub fn last(&self) -> (r: Option<&PathSegment>) ensures match r { Some(x) => sp_segs(*self).len() > 0 && *x == sp_segs(*self).last(), None => sp_segs(*self).len() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn first(&self) -> (r: Option<&PathSegment>) ensures match r { Some(x) => sp_segs(*self).len() > 0 && *x == sp_segs(*self)[0], None => sp_segs(*self).len() == 0 } { unimplemented!() }
}
pub uninterp spec fn sp_inside(a: GenericArgs) -> TokenStream;
impl GenericArgs { #[verifier::external_body] pub fn to_token_stream(&self) -> (r: TokenStream) ensures r == sp_inside(*self) { unimplemented!() } }
/// the name of a type: that of its single segment, that of an array's elements
pub open spec fn sp_first(t: Type) -> Option<Seq<char>> decreases t {
    match t { Type::Path(p) => if sp_segs(p.path.segments).len() == 1 { Some(sp_ident(sp_segs(p.path.segments)[0].ident)) } else { None }, Type::Array(a) => sp_first(*a.elem), Type::NvOther(_) => None } }
/// what W<..> holds
pub open spec fn sp_subtype(t: Type, w: Seq<char>) -> Option<TokenStream> {
    match t { Type::Path(p) => if sp_segs(p.path.segments).len() == 1 && sp_ident(sp_segs(p.path.segments)[0].ident) == w { match sp_segs(p.path.segments)[0].arguments { PathArguments::AngleBracketed(a) => Some(sp_inside(a.args)), _ => None } } else { None }, _ => None } }
#[verifier::external_body] pub fn nv_refuse<T>() -> T ensures false { unimplemented!() }
#[verifier::external_body] pub fn nv_or_refuse<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
pub uninterp spec fn sp_name(m: Meta) -> Option<Ident>;
pub uninterp spec fn sp_path(m: Meta) -> MetaPath;
pub uninterp spec fn sp_path_name(p: MetaPath) -> Option<Ident>;
impl Meta { #[verifier::external_body] pub fn path(&self) -> (r: &MetaPath) ensures *r == sp_path(*self) { unimplemented!() } }
impl MetaPath { #[verifier::external_body] pub fn get_ident(&self) -> (r: Option<&Ident>) ensures match r { Some(i) => sp_path_name(*self) == Some(*i), None => sp_path_name(*self) is None } { unimplemented!() } }
#[verifier::external_body] pub fn nv_content(m: &Meta) -> core::result::Result<TokenStream, NvError> { unimplemented!() }
/// the tokens an attribute stands for, other than its bare argument
pub uninterp spec fn sp_piece(m: MetaAttr, c: Config) -> Seq<int>;
#[verifier::external_body] pub fn nv_piece(m: &MetaAttr, c: &Config) -> (r: TokenStream) ensures r@ == sp_piece(*m, *c) { unimplemented!() }
pub struct Field { pub attrs: Vec<Attribute>, pub ident: Option<Ident>, pub ty: Type }
pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
pub struct DataStruct { pub fields: Fields }
pub struct Variant { pub attrs: Vec<Attribute>, pub ident: Ident, pub fields: Fields }
pub struct DataEnum { pub variants: Variants }
pub enum Data { Struct(DataStruct), Enum(DataEnum), Union(NvRest) }
pub struct DeriveInput { pub data: Data }
pub uninterp spec fn sp_some_fields(f: Fields) -> Seq<Field>;
pub open spec fn sp_fields(f: Fields) -> Seq<Field> { if f is Unit { Seq::empty() } else { sp_some_fields(f) } }
impl Fields { #[verifier::external_body] pub fn nv_iter(&self) -> (r: &[Field]) ensures r@ == sp_fields(*self) { unimplemented!() }
    #[verifier::external_body] pub fn nv_is_unit(&self) -> (r: bool) ensures r == (*self is Unit) { unimplemented!() } }
pub uninterp spec fn sp_variants(v: Variants) -> Seq<Variant>;
impl Variants { #[verifier::external_body] pub fn nv_iter(&self) -> (r: &[Variant]) ensures r@ == sp_variants(*self) { unimplemented!() } }
/// the attributes written on a declaration, in their order; None: not accepted
pub uninterp spec fn sp_nom(a: Seq<Attribute>) -> Option<Seq<MetaAttr>>;
#[verifier::external_body] pub fn nv_attrs(a: &[Attribute]) -> (r: core::result::Result<Vec<MetaAttr>, NvError>) ensures match r { Ok(l) => sp_nom(a@) == Some(l@) && wf(l@), Err(_) => sp_nom(a@) is None } { unimplemented!() }
pub uninterp spec fn sp_fla(k: MetaAttr) -> bool;
pub uninterp spec fn sp_tla(k: MetaAttr) -> bool;
pub open spec fn on_field(s: Seq<MetaAttr>) -> bool { forall|i: int| 0 <= i < s.len() ==> sp_fla(#[trigger] s[i]) }
pub open spec fn on_top(s: Seq<MetaAttr>) -> bool { forall|i: int| 0 <= i < s.len() ==> sp_tla(#[trigger] s[i]) }
#[verifier::external_body] pub fn nv_find_not_fla(l: &[MetaAttr]) -> (r: Option<&MetaAttr>) ensures match r { Some(x) => !on_field(l@), None => on_field(l@) } { unimplemented!() }
#[verifier::external_body] pub fn nv_find_not_tla(l: &[MetaAttr]) -> (r: Option<&MetaAttr>) ensures match r { Some(x) => !on_top(l@), None => on_top(l@) } { unimplemented!() }
pub open spec fn sp_attrs(a: Seq<Attribute>) -> Option<Seq<MetaAttr>> { match sp_nom(a) { Some(l) => if on_field(l) { Some(l) } else { None }, None => None } }
pub open spec fn sp_top(a: Seq<Attribute>) -> Option<Seq<MetaAttr>> { match sp_nom(a) { Some(l) => if on_top(l) { Some(l) } else { None }, None => None } }
pub uninterp spec fn sp_repr(a: Seq<Attribute>) -> Option<Ident>;
#[verifier::external_body] pub fn get_repr(a: &[Attribute]) -> (r: Option<Ident>) ensures r == sp_repr(a@) { unimplemented!() }
#[verifier::external_body] pub fn add_extra_where_predicates(t: &StructParserTree, c: &Config) -> NvWhere { unimplemented!() }

pub open spec fn nv_has(s: Seq<MetaAttr>, n: nat, k: MetaAttrType) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).attr_type == k }
pub open spec fn asks_s(l: Seq<MetaAttr>, k: MetaAttrType) -> bool { nv_has(l, l.len(), k) }
pub open spec fn asks(l: &[MetaAttr], k: MetaAttrType) -> bool { asks_s(l@, k) }
/// the first attribute of a kind
pub open spec fn nv_first(s: Seq<MetaAttr>, n: nat, k: MetaAttrType) -> Option<MetaAttr> decreases n { if n == 0 { None } else { match nv_first(s, (n - 1) as nat, k) { Some(m) => Some(m), None => if s[n - 1].attr_type == k { Some(s[n - 1]) } else { None } } } }
pub proof fn first_kept(s: Seq<MetaAttr>, n: nat, m: nat, k: MetaAttrType) requires n <= m ensures nv_first(s, n, k) is Some ==> nv_first(s, m, k) == nv_first(s, n, k) decreases m { if n < m { first_kept(s, n, (m - 1) as nat, k); } }
pub open spec fn first(s: Seq<MetaAttr>, k: MetaAttrType) -> Option<MetaAttr> { nv_first(s, s.len(), k) }
#[verifier::external_body] pub fn nv_find(l: &[MetaAttr], k: MetaAttrType) -> (r: Option<&MetaAttr>) ensures match r { Some(m) => first(l@, k) == Some(*m), None => first(l@, k) is None } { unimplemented!() }
#[verifier::external_body] pub fn nv_arg_of(o: Option<&MetaAttr>) -> (r: Option<&TokenStream>) ensures match o { Some(m) => match r { Some(t) => m.arg0 == Some(*t), None => m.arg0 is None }, None => r is None } { unimplemented!() }
#[verifier::external_body] pub fn nv_any(l: &[MetaAttr], k: MetaAttrType) -> (r: bool) ensures r == asks_s(l@, k) { unimplemented!() }
@ENDIAN@
/// attributes that take an argument have one (MetaAttr::try_from, the only caller of MetaAttr::new)
pub open spec fn takes(k: MetaAttrType) -> bool { @TAKES@ }
pub open spec fn wf(s: Seq<MetaAttr>) -> bool { forall|i: int| 0 <= i < s.len() && takes((#[trigger] s[i]).attr_type) ==> s[i].arg0 is Some }
pub open spec fn arg(m: MetaAttr) -> TokenStream { m.arg0->Some_0 }

// ---------------------------------------------------------------- what the trees must be
/// every parser that follows the caller's byte order is given one; nothing else changes
pub open spec fn given(t: ParserExpr, e: ParserEndianness) -> ParserExpr decreases t {
    match t {
        ParserExpr::CallParse(i) => if e == ParserEndianness::BigEndian { ParserExpr::CallParseBE(i) } else { ParserExpr::CallParseLE(i) },
        ParserExpr::Complete(b) => ParserExpr::Complete(Box::new(given(*b, e))),
        ParserExpr::Cond(b, c) => ParserExpr::Cond(Box::new(given(*b, e)), c),
        ParserExpr::Count(b, c) => ParserExpr::Count(Box::new(given(*b, e)), c),
        ParserExpr::DbgDmp(b, c) => ParserExpr::DbgDmp(Box::new(given(*b, e)), c),
        ParserExpr::Into(b) => ParserExpr::Into(Box::new(given(*b, e))),
        ParserExpr::LengthCount(b, c) => ParserExpr::LengthCount(Box::new(given(*b, e)), c),
        ParserExpr::Map(b, c) => ParserExpr::Map(Box::new(given(*b, e)), c),
        ParserExpr::Verify(b, i, c) => ParserExpr::Verify(Box::new(given(*b, e)), i, c),
        x => x,
    }
}
/// no parser below follows the caller's byte order
pub open spec fn settled(t: ParserExpr) -> bool decreases t {
    match t {
        ParserExpr::CallParse(i) => false,
        ParserExpr::Complete(b) => settled(*b), ParserExpr::Cond(b, _) => settled(*b), ParserExpr::Count(b, _) => settled(*b), ParserExpr::DbgDmp(b, _) => settled(*b), ParserExpr::Into(b) => settled(*b),
        ParserExpr::LengthCount(b, _) => settled(*b), ParserExpr::Map(b, _) => settled(*b), ParserExpr::Verify(b, _, _) => settled(*b),
        _ => true,
    }
}
pub proof fn given_settles(t: ParserExpr, e: ParserEndianness) ensures settled(given(t, e)), settled(t) ==> given(t, e) == t decreases t {
    match t { ParserExpr::Complete(b) => given_settles(*b, e), ParserExpr::Cond(b, _) => given_settles(*b, e), ParserExpr::Count(b, _) => given_settles(*b, e), ParserExpr::DbgDmp(b, _) => given_settles(*b, e), ParserExpr::Into(b) => given_settles(*b, e),
        ParserExpr::LengthCount(b, _) => given_settles(*b, e), ParserExpr::Map(b, _) => given_settles(*b, e), ParserExpr::Verify(b, _, _) => given_settles(*b, e), _ => {} }
}
pub open spec fn last(t: ParserExpr) -> Option<TypeItem> decreases t {
    match t {
        ParserExpr::CallParse(i) => Some(i), ParserExpr::CallParseBE(i) => Some(i), ParserExpr::CallParseLE(i) => Some(i),
        ParserExpr::Complete(b) => last(*b), ParserExpr::Cond(b, _) => last(*b), ParserExpr::Count(b, _) => last(*b), ParserExpr::DbgDmp(b, _) => last(*b), ParserExpr::Into(b) => last(*b),
        ParserExpr::LengthCount(b, _) => last(*b), ParserExpr::Map(b, _) => last(*b), ParserExpr::Verify(b, _, _) => last(*b),
        _ => None,
    }
}
pub type Res = core::result::Result<ParserExpr, NvError>;
/// the parser of a type without further attributes
pub open spec fn leaf(r: Res, ty: Type, all: Seq<MetaAttr>, c: Config) -> bool {
    match sp_first(ty) {
        None => r.is_err(),
        Some(n) => if n == "PhantomData"@ { r == Ok::<ParserExpr, NvError>(ParserExpr::PhantomData) }
            else if contradictory_s(all) { r.is_err() }
            else { match asked_s(all, if c.object_endianness != ParserEndianness::Unspecified { c.object_endianness } else { c.global_endianness }) {
                ParserEndianness::BigEndian => r == Ok::<ParserExpr, NvError>(ParserExpr::CallParseBE(TypeItem(ty))),
                ParserEndianness::LittleEndian => r == Ok::<ParserExpr, NvError>(ParserExpr::CallParseLE(TypeItem(ty))),
                ParserEndianness::Unspecified => r == Ok::<ParserExpr, NvError>(ParserExpr::CallParse(TypeItem(ty))),
                ParserEndianness::SetEndian => match r { Ok(ParserExpr::CallParse(_)) | Ok(ParserExpr::CallParseBE(_)) | Ok(ParserExpr::CallParseLE(_)) | Err(_) => false, _ => true },
            } }
    }
}
/// the tokens of an argument, written directly or in a literal
pub open spec fn literal_arg_refused(m: MetaAttr) -> bool { sp_lit(arg(m)) && !sp_is_expr(arg(m)) }
/// r is the parser of a field with the attributes l (the first one outermost)
pub open spec fn fits(r: Res, id: Option<&Ident>, ty: Type, l: Seq<MetaAttr>, all: Seq<MetaAttr>, c: Config) -> bool decreases l.len() {
    if l.len() == 0 { leaf(r, ty, all, c) } else {
        let m = l[0]; let rest = l.skip(1);
        match m.attr_type {
            MetaAttrType::Tag => r == Ok::<ParserExpr, NvError>(ParserExpr::Tag(arg(m))),
            MetaAttrType::Take => if literal_arg_refused(m) { r.is_err() } else { r == Ok::<ParserExpr, NvError>(ParserExpr::Take(arg(m))) },
            MetaAttrType::Value => r == Ok::<ParserExpr, NvError>(ParserExpr::Value(arg(m))),
            MetaAttrType::Parse => r == Ok::<ParserExpr, NvError>(ParserExpr::Raw(arg(m))),
            MetaAttrType::Ignore => match r { Ok(e) => sp_first(ty) is Some && settled(e), Err(_) => sp_first(ty) is None },
            MetaAttrType::Complete => match r { Ok(ParserExpr::Complete(b)) => fits(Ok(*b), id, ty, rest, all, c), Ok(_) => false, Err(e) => fits(Err(e), id, ty, rest, all, c) },
            MetaAttrType::Into => match r { Ok(ParserExpr::Into(b)) => fits(Ok(*b), id, ty, rest, all, c), Ok(_) => false, Err(e) => fits(Err(e), id, ty, rest, all, c) },
            MetaAttrType::Map => match r { Ok(ParserExpr::Map(b, t)) => t == arg(m) && !literal_arg_refused(m) && fits(Ok(*b), id, ty, rest, all, c), Ok(_) => false, Err(e) => literal_arg_refused(m) || fits(Err(e), id, ty, rest, all, c) },
            MetaAttrType::Debug => match r { Ok(ParserExpr::DbgDmp(b, i)) => id == Some(&i) && fits(Ok(*b), id, ty, rest, all, c), Ok(_) => false, Err(e) => id is None || fits(Err(e), id, ty, rest, all, c) },
            MetaAttrType::Verify => match r { Ok(ParserExpr::Verify(b, i, t)) => t == arg(m) && id == Some(&i) && fits(Ok(*b), id, ty, rest, all, c), Ok(_) => false, Err(e) => id is None || fits(Err(e), id, ty, rest, all, c) },
            MetaAttrType::Cond => match inner_type(ty, "Option"@) { Err(_) => r.is_err(), Ok(t2) =>
                match r { Ok(ParserExpr::Cond(b, t)) => t == arg(m) && fits(Ok(*b), id, t2, rest, all, c), Ok(_) => false, Err(e) => fits(Err(e), id, t2, rest, all, c) } },
            MetaAttrType::Count => match inner_type(ty, "Vec"@) { Err(_) => r.is_err(), Ok(t2) =>
                match r { Ok(ParserExpr::Count(b, t)) => t == arg(m) && fits(Ok(*b), id, t2, rest, all, c), Ok(_) => false, Err(e) => fits(Err(e), id, t2, rest, all, c) } },
            MetaAttrType::LengthCount => match inner_type(ty, "Vec"@) { Err(_) => r.is_err(), Ok(t2) =>
                match r { Ok(ParserExpr::LengthCount(b, t)) => t == arg(m) && fits(Ok(*b), id, t2, rest, all, c), Ok(_) => false, Err(e) => fits(Err(e), id, t2, rest, all, c) } },
            _ => fits(r, id, ty, rest, all, c),
        }
    }
}
pub open spec fn inner_type(ty: Type, w: Seq<char>) -> core::result::Result<Type, NvError> { match sp_subtype(ty, w) { None => Err(NvError), Some(t) => sp_parse_type(t) } }

/// code before and after a parser: the pieces of the attributes, in the order they are written
pub open spec fn pre1(m: MetaAttr, c: Config) -> Seq<int> {
    match m.attr_type {
        MetaAttrType::PreExec => arg(m)@,
        MetaAttrType::AlignBefore | MetaAttrType::SkipBefore | MetaAttrType::Move | MetaAttrType::MoveAbs | MetaAttrType::ErrorIf | MetaAttrType::SetEndian => sp_piece(m, c),
        _ => Seq::empty(),
    }
}
pub open spec fn post1(m: MetaAttr, c: Config) -> Seq<int> {
    match m.attr_type {
        MetaAttrType::PostExec => arg(m)@,
        MetaAttrType::AlignAfter | MetaAttrType::SkipAfter | MetaAttrType::Exact => sp_piece(m, c),
        _ => Seq::empty(),
    }
}
pub open spec fn pre(l: Seq<MetaAttr>, n: nat, c: Config) -> Seq<int> decreases n { if n == 0 { Seq::empty() } else { pre(l, (n - 1) as nat, c) + pre1(l[n - 1], c) } }
pub open spec fn post(l: Seq<MetaAttr>, n: nat, c: Config) -> Seq<int> decreases n { if n == 0 { Seq::empty() } else { post(l, (n - 1) as nat, c) + post1(l[n - 1], c) } }
pub open spec fn is_code(t: Option<TokenStream>, s: Seq<int>) -> bool { match t { None => s.len() == 0, Some(t) => t@ == s && s.len() > 0 } }

// ---------------------------------------------------------------- the fields of a declaration
pub open spec fn list_of(f: Field) -> Seq<MetaAttr> { sp_attrs(f.attrs@)->Some_0 }
/// SetEndian reaches its field and all the following ones
pub open spec fn dynamic(fs: Seq<Field>, n: nat) -> bool decreases n { n > 0 && (dynamic(fs, (n - 1) as nat) || asks_s(list_of(fs[n - 1]), MetaAttrType::SetEndian)) }
pub open spec fn cfg(c: Config, d: bool) -> Config { Config { object_endianness: if d { ParserEndianness::SetEndian } else { c.object_endianness }, ..c } }
pub open spec fn id_of(f: Field) -> Option<&'static Ident> { match f.ident { Some(i) => Some(&i), None => None } }
pub open spec fn plain_ok(e: ParserExpr, f: Field, c: Config) -> bool { fits(Ok(e), id_of(f), f.ty, list_of(f), list_of(f), c) }
pub open spec fn complete_ok(e: ParserExpr, f: Field, c: Config) -> bool { if c.complete { match e { ParserExpr::Complete(b) => plain_ok(*b, f, c), _ => false } } else { plain_ok(e, f, c) } }
pub open spec fn debug_ok(e: ParserExpr, f: Field, c: Config) -> bool { if c.debug { match e { ParserExpr::DbgDmp(b, i) => f.ident == Some(i) && complete_ok(*b, f, c), _ => false } } else { complete_ok(e, f, c) } }
pub open spec fn field_ok(p: StructParser, f: Field, c: Config) -> bool {
    sp_attrs(f.attrs@) is Some && p.item.ident == f.ident && debug_ok(p.item.expr, f, c)
    && is_code(p.pre_exec, pre(list_of(f), list_of(f).len(), c)) && is_code(p.post_exec, post(list_of(f), list_of(f).len(), c)) }
pub open spec fn refused(f: Field, c: Config) -> bool { sp_attrs(f.attrs@) is None || fits(Err(NvError), id_of(f), f.ty, list_of(f), list_of(f), c) || (c.debug && f.ident is None) }
/// the configuration in force for field k
pub open spec fn at(c: Config, f: Fields, k: int) -> Config { cfg(c, dynamic(sp_fields(f), (k + 1) as nat)) }
pub open spec fn fields_ok(t: StructParserTree, f: Fields, c: Config) -> bool { t.parsers@.len() == sp_fields(f).len() && t.unnamed == (f is Unnamed) && t.empty == (f is Unit) && (forall|k: int| 0 <= k < t.parsers@.len() ==> field_ok(#[trigger] t.parsers@[k], sp_fields(f)[k], at(c, f, k))) }
pub open spec fn fields_refused(f: Fields, c: Config) -> bool { exists|k: int| 0 <= k < sp_fields(f).len() && #[trigger] refused(sp_fields(f)[k], at(c, f, k)) }
// ---------------------------------------------------------------- declarations
pub open spec fn last_parse(l: Seq<MetaAttr>, n: nat) -> Option<TokenStream> decreases n { if n == 0 { None } else if l[n - 1].attr_type == MetaAttrType::Parse { l[n - 1].arg0 } else { last_parse(l, (n - 1) as nat) } }
pub open spec fn own_parser(l: Seq<MetaAttr>) -> ParserExpr { match last_parse(l, l.len()) { Some(t) => ParserExpr::Raw(t), None => ParserExpr::Nop } }
pub open spec fn wrapped(e: ParserExpr, c: Config) -> ParserExpr { if c.complete { ParserExpr::Complete(Box::new(e)) } else { e } }
pub open spec fn unit_ok(t: StructParserTree, v: Variant, l: Seq<MetaAttr>, c: Config) -> bool {
    t.empty && t.parsers@.len() == 1 && t.parsers@[0].item.expr == wrapped(own_parser(l), c) && is_code(t.parsers@[0].pre_exec, pre(l, l.len(), c)) && is_code(t.parsers@[0].post_exec, post(l, l.len(), c)) }
pub open spec fn variant_ok(p: VariantParserTree, v: Variant, c: Config) -> bool {
    p.ident == v.ident && match sp_attrs(v.attrs@) { None => false, Some(l) => (match first(l, MetaAttrType::Selector) { Some(m) => p.selector_type@ == sp_text(arg(m)), None => false })
        && if v.fields is Unit { unit_ok(p.struct_def, v, l, c) } else { fields_ok(p.struct_def, v.fields, c) } } }
pub open spec fn variant_refused(v: Variant, c: Config) -> bool { match sp_attrs(v.attrs@) { None => true, Some(l) => first(l, MetaAttrType::Selector) is None || fields_refused(v.fields, c) } }
/// the configuration of a declaration
pub open spec fn follows(c: Config, l: Seq<MetaAttr>, e: ParserEndianness) -> bool {
    c.object_endianness == asked_s(l, e) && c.global_endianness == ParserEndianness::Unspecified && c.complete == asks_s(l, MetaAttrType::Complete) && c.debug == asks_s(l, MetaAttrType::Debug)
    && c.debug_derive == asks_s(l, MetaAttrType::DebugDerive) && c.generic_errors == asks_s(l, MetaAttrType::GenericErrors) }
/// a derive for one byte order on a declaration that asks for another
pub open spec fn mixed(l: Seq<MetaAttr>, e: ParserEndianness) -> bool { e != ParserEndianness::Unspecified && asked_s(l, e) != e }
pub open spec fn extra_of(l: Seq<MetaAttr>) -> Option<TokenStream> { match first(l, MetaAttrType::ExtraArgs) { Some(m) => m.arg0, None => None } }
pub open spec fn top_ok(l: Option<Seq<MetaAttr>>, e: ParserEndianness) -> bool { match l { Some(l) => !contradictory_s(l) && !mixed(l, e), None => false } }
pub open spec fn order_of(c: Config) -> ParserEndianness { if c.object_endianness != ParserEndianness::Unspecified { c.object_endianness } else { c.global_endianness } }
pub open spec fn number_ok(e: ParserExpr, t: Type, c: Config) -> bool { match order_of(c) {
    ParserEndianness::BigEndian => e == wrapped(ParserExpr::CallParseBE(TypeItem(t)), c), ParserEndianness::LittleEndian => e == wrapped(ParserExpr::CallParseLE(TypeItem(t)), c),
    ParserEndianness::Unspecified => e == wrapped(ParserExpr::CallParse(TypeItem(t)), c), ParserEndianness::SetEndian => false } }
/// the names of the attributes
pub open spec fn kind_of(s: Seq<char>) -> Option<MetaAttrType> { @KINDS@ }
'''
ENDIAN = implcheck.PRE[implcheck.PRE.index('/// two different byte orders'):]
ENDIAN = re.sub(r'\b(asks|contradictory|asked)\(', r'\1_s(', ENDIAN).replace('l: &[MetaAttr]', 'l: Seq<MetaAttr>') + '''pub open spec fn contradictory(l: &[MetaAttr]) -> bool { contradictory_s(l@) }
pub open spec fn asked(l: &[MetaAttr], other: ParserEndianness) -> ParserEndianness { asked_s(l@, other) }
'''
NAMES = {k: k for k in implcheck.TAKES + implcheck.PLAIN}
NAMES.update({'If': 'Cond', 'Default': 'Ignore'})
KINDS = ' else '.join(f'if s == "{n}"@ {{ Some(MetaAttrType::{k}) }}' for n, k in sorted(NAMES.items())) + ' else { None }'
LITS = ' '.join(f'"{n}"' for n in sorted(NAMES))
# different literals are different texts (lengths and characters are not unfolded)
DISTINCT = 'pub uninterp spec fn nv_code(s: Seq<char>) -> int;\n#[verifier::external_body] pub proof fn nv_distinct() ensures ' + ', '.join(f'nv_code("{n}"@) == {i}' for i, n in enumerate(sorted(NAMES))) + ' {}\n'
OPAQUE = '\n'.join(f'#[verifier::external_body] pub struct {n} {{ x: u8 }} impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}'
                   for n in 'TokenStream Ident SynExpr Attribute FieldsNamed FieldsUnnamed Segments GenericArgs Meta MetaPath Variants Generics NvWhere'.split())
ORDER = '({0} == ParserEndianness::BigEndian || {0} == ParserEndianness::LittleEndian)'
FIELDS_OK = 'match r {{ Ok(t) => fields_ok(t, {f}, *old({c})) && *final({c}) == *old({c}), Err(_) => fields_refused({f}, *old({c})) }},'
TOP_OK = '''requires {{4}} != ParserEndianness::SetEndian, ensures match r {{{{ Ok(g) => top_ok(sp_top({{2}}@), {{4}}) && ({{{{ let l = sp_top({{2}}@)->Some_0; follows(g.config, l, {{4}}) && is_code(g.tl_pre, pre(l, l.len(), g.config)) && is_code(g.tl_post, post(l, l.len(), g.config)) && g.name == *{{0}} && g.orig_generics == *{{3}} && g.extra_args == extra_of(l) && ({ok}) }}}}),
        Err(_) => !top_ok(sp_top({{2}}@), {{4}}) || {err} }}}},'''
# (type, name): (number of parameters, properties, contract)
CONTRACTS = {
    ('MetaAttr', 'is_type'): (2, 'C05', 'ensures r == ({0}.attr_type == {1}),'),
    ('MetaAttr', 'arg'): (1, 'C05', 'ensures match r {{ Some(t) => {0}.arg0 == Some(*t), None => {0}.arg0 is None }},'),
    ('ParserExpr', 'with_endianness'): (2, 'C05', 'requires ' + ORDER.format('{1}') + ', ensures r == given(*{0}, {1}), decreases *{0},'),
    ('ParserExpr', 'complete'): (1, 'C12', 'ensures r == ParserExpr::Complete(Box::new({0})),'),
    ('ParserExpr', 'last_type'): (1, 'C16', 'ensures match r {{ Some(t) => last(*{0}) == Some(*t), None => last(*{0}) is None }}, decreases *{0},'),
    ('ParserTreeItem', 'new'): (2, 'C04', 'ensures r == (ParserTreeItem {{ ident: {0}, expr: {1} }}),'),
    ('ParserTreeItem', 'with_endianness'): (2, 'C05', 'requires ' + ORDER.format('{1}') + ', ensures r == (ParserTreeItem {{ ident: {0}.ident, expr: given({0}.expr, {1}) }}),'),
    ('StructParser', 'new'): (4, 'C04 C09 C14', 'ensures r == (StructParser {{ name: {0}, item: {1}, pre_exec: {2}, post_exec: {3} }}),'),
    ('MetaAttr', 'new'): (3, 'C04', 'ensures r.attr_type == {0}, r.arg0 == {1},'),
    ('MetaAttr', 'try_from'): (1, 'C15', 'ensures r matches Ok(a) ==> (takes(a.attr_type) ==> a.arg0 is Some) && (match sp_path_name(sp_path(*{0})) {{ Some(i) => kind_of(sp_ident(i)) == Some(a.attr_type), None => false }}),'),
    ('MetaAttrType', 'from_ident'): (1, 'C15 C04', 'ensures r == kind_of(sp_ident(*{0})),'),
    ('-', 'get_type_first_ident'): (1, 'C07 C16', 'ensures match r {{ Ok(s) => sp_first(*{0}) == Some(s@), Err(_) => sp_first(*{0}) is None }}, decreases *{0},'),
    ('-', 'get_item_subtype_parser'): (3, 'C06 C07', 'ensures match r {{ Ok(t) => sp_subtype(*{0}, {1}@) == Some(t), Err(_) => sp_subtype(*{0}, {1}@) is None }},'),
    ('-', 'get_type_default'): (1, 'C07', 'ensures match r {{ Ok(e) => sp_first(*{0}) is Some && settled(e), Err(_) => sp_first(*{0}) is None }},'),
    ('-', 'parse_nom_attribute'): (1, 'C04 C15', 'ensures match r {{ Ok(l) => sp_attrs({0}@) == Some(l@) && wf(l@), Err(_) => sp_attrs({0}@) is None }},'),
    ('-', 'parse_nom_top_level_attribute'): (1, 'C04 C15', 'ensures match r {{ Ok(l) => sp_top({0}@) == Some(l@) && wf(l@), Err(_) => sp_top({0}@) is None }},'),
    ('-', 'get_type_parser'): (3, 'C05', 'ensures leaf(r, *{0}, {1}@, *{2}),'),
    ('-', 'get_parser'): (5, 'C05 C06 C07 C08 C12', 'requires wf({2}@), ensures fits(r, {0}, *{1}, {2}@, {3}@, *{4}), decreases {2}@.len(),'),
    ('-', 'get_field_parser'): (3, 'C05 C06 C07 C08 C12', 'requires wf({1}@), ensures fits(r, id_of(*{0}), {0}.ty, {1}@, {1}@, *{2}),'),
    ('-', 'get_pre_post_exec'): (2, 'C09 C14', 'requires wf({0}@), ensures is_code(r.0, pre({0}@, {0}@.len(), *{1})), is_code(r.1, post({0}@, {0}@.len(), *{1})),'),
    ('-', 'parse_fields'): (2, 'C04 C05 C09 C12 C14', 'ensures ' + FIELDS_OK.replace('{f}', '*{0}').replace('{c}', '{1}')),
    ('-', 'parse_struct'): (2, 'C04', 'ensures ' + FIELDS_OK.replace('{f}', '{0}.fields').replace('{c}', '{1}')),
    ('-', 'get_selector'): (1, 'C10', 'requires wf({0}@), ensures match r {{ Some(s) => first({0}@, MetaAttrType::Selector) is Some && s@ == sp_text(arg(first({0}@, MetaAttrType::Selector)->Some_0)), None => first({0}@, MetaAttrType::Selector) is None }},'),
    ('-', 'get_extra_args'): (1, 'C16', 'ensures match r {{ Some(t) => extra_of({0}@) == Some(*t), None => extra_of({0}@) is None }},'),
    ('-', 'parse_variant'): (2, 'C10', 'ensures match r {{ Ok(t) => variant_ok(t, *{0}, *old({1})) && *final({1}) == *old({1}), Err(_) => variant_refused(*{0}, *old({1})) }},'),
    ('-', 'is_input_fieldless_enum'): (1, 'C11', 'ensures r == (match {0}.data {{ Data::Enum(d) => forall|k: int| 0 <= k < sp_variants(d.variants).len() ==> (#[trigger] sp_variants(d.variants)[k]).fields is Unit, _ => false }}),'),
    ('GenStruct', 'from_datastruct'): (5, 'C04 C05 C14', TOP_OK.format(ok='fields_ok(g.parser_tree, {1}.fields, g.config)', err='(exists|c: Config| follows(c, sp_top({2}@)->Some_0, {4}) && #[trigger] fields_refused({1}.fields, c))')),
    ('GenEnum', 'from_data_enum'): (5, 'C10 C05 C14', TOP_OK.format(ok='g.variants_defs@.len() == sp_variants({1}.variants).len() && forall|k: int| 0 <= k < g.variants_defs@.len() ==> variant_ok(#[trigger] g.variants_defs@[k], sp_variants({1}.variants)[k], g.config)',
        err='(exists|c: Config, k: int| follows(c, sp_top({2}@)->Some_0, {4}) && 0 <= k < sp_variants({1}.variants).len() && #[trigger] variant_refused(sp_variants({1}.variants)[k], c))')),
    ('GenFieldlessEnum', 'from_data_enum'): (5, 'C11 C05 C14', TOP_OK.format(ok='sp_repr({2}@) is Some && sp_parse_type_str(sp_ident(sp_repr({2}@)->Some_0)) is Ok && number_ok(g.repr_parser, sp_parse_type_str(sp_ident(sp_repr({2}@)->Some_0))->Ok_0, g.config)', err='true')),
}
PIDS = sorted({p for c in CONTRACTS.values() for p in c[1].split()})

def invariants(key, ps, body, swap=False):
    """what each loop keeps; a wrong guess of a name cannot prove anything"""
    if key == ('-', 'get_parser'):
        def f(m):
            v = m.group(1)
            return f'#[verifier::allow_complex_invariants] loop invariant wf({v}@), {v}@.len() <= nv_p2@.len(), forall|x: Res| fits(x, {ps[0]}, *{ps[1]}, {v}@, {ps[3]}@, *{ps[4]}) ==> #[trigger] fits(x, {ps[0]}, *{ps[1]}, nv_p2@, {ps[3]}@, *{ps[4]}), ensures {v}@.len() == 0, decreases {v}@.len(), {{'
        body = re.sub(r'loop \{ nv_mark \("while \d+ (\w+)"\) ;', f, body)
        return body.replace('{', f'{{ let ghost nv_p2 = {ps[2]};', 1)
    own = re.search(r'let mut (\w+) = Config ::', body)
    def g(m):
        k, l = m.group(1), m.group(2)
        w = re.match(r'for \d+ (.*) pushes (\S*) sets (\S*) acc ?(.*)', m.group(4))
        inv = f'{k} <= {l}@.len()'
        pushed, sets, acc = (w.group(2).split(','), w.group(3).split(','), w.group(4).split(',')) if w else ([''], [''], [''])
        before = ghost = ''
        if key == ('-', 'get_pre_post_exec') and len(acc) == 2:
            a, b = acc if not swap else acc[::-1]
            inv += f', wf({l}@), {l}@ == {ps[0]}@, {a}@ == pre({l}@, {k} as nat, *{ps[1]}), {b}@ == post({l}@, {k} as nat, *{ps[1]})'
        if key == ('-', 'parse_fields'):
            p, f, c = pushed[0], '*' + ps[0], f'*old({ps[1]})'
            inv += f', {l}@ == sp_fields({f}), *{ps[1]} == cfg({c}, dynamic({l}@, {k} as nat)), {p}@.len() == {k}, forall|k: int| 0 <= k < {k} ==> field_ok(#[trigger] {p}@[k], sp_fields({f})[k], at({c}, {f}, k))'
            ghost = f' let ghost nv_w = refused(sp_fields({f})[{k} as int], at({c}, {f}, {k} as int));'
        if key == ('-', 'get_selector'):
            inv += f', {l}@ == {ps[0]}@, nv_first({l}@, {k} as nat, MetaAttrType::Selector) is None'
            ghost = f' proof {{ first_kept({l}@, ({k} + 1) as nat, {l}@.len(), MetaAttrType::Selector); }}'
        if key == ('-', 'parse_variant') and sets[0]:
            inv += f', match {sets[0]} {{ None => last_parse({l}@, {k} as nat) is None, Some(e) => last_parse({l}@, {k} as nat) is Some && e == ParserExpr::Raw(last_parse({l}@, {k} as nat)->Some_0) }}'
        if key == ('-', 'is_input_fieldless_enum'):
            inv += f', forall|k: int| 0 <= k < {k} ==> (#[trigger] {l}@[k]).fields is Unit'
        if key == ('GenEnum', 'from_data_enum') and own:
            c, p = own.group(1), pushed[0]
            before = f'let ghost nv_c = {c}; '
            inv += f', {l}@ == sp_variants({ps[1]}.variants), {c} == nv_c, {p}@.len() == {k}, forall|k: int| 0 <= k < {k} ==> variant_ok(#[trigger] {p}@[k], {l}@[k], {c})'
            ghost = f' let ghost nv_w = variant_refused({l}@[{k} as int], {c});'
        return f'{before}while {k} < {l}.len() invariant {inv}, decreases {l}@.len() - {k}, {{{ghost}'
    if key == ('MetaAttrType', 'from_ident') or key == ('MetaAttr', 'try_from'): body = '{ proof { nv_distinct(); } ' + body.strip()[1:]
    return re.sub(r'while (\w+) < (\w+) \. len \(\) \{ nv_mark \(("(.*?)")\) ;', g, body)

# proved in the module of implcheck
STUBS = [('-', 'get_local_endianness', 'p0: NvSpan, p1: &[MetaAttr], p2: &Config', 'core::result::Result<ParserEndianness, NvError>'), ('-', 'get_object_endianness', 'p0: &Config', 'ParserEndianness'),
    ('-', 'set_object_endianness', 'p0: NvSpan, p1: ParserEndianness, p2: &[MetaAttr], p3: &mut Config', 'core::result::Result<(), NvError>'),
    ('-', 'validate_endianness', 'p0: ParserEndianness, p1: ParserEndianness, p2: ParserEndianness', 'core::result::Result<(), NvError>'),
    ('Config', 'from_meta_list', 'p0: &[MetaAttr]', 'core::result::Result<Config, NvError>'), ('MetaAttrType', 'takes_argument', 'self', 'bool')]
def wrap(ty, text): return text if ty == '-' else f'impl {ty} {{\n{text}}}\n'

def module(types, fns, skip=(), mutate=None, swap=False):
    takes = ' || '.join(f'k == MetaAttrType::{k}' for k in implcheck.TAKES)
    out = ['use vstd::prelude::*;', 'verus! {', *types, PRE.replace('@OPAQUE@', OPAQUE).replace('@ENDIAN@', ENDIAN).replace('@TAKES@', takes).replace('@KINDS@', KINDS), DISTINCT]
    for ty, n, ps, r in STUBS:
        con = IMP[n][2].format(*(x.split(':')[0].strip() for x in ps.split(', ')))
        out.append(wrap(ty, f'#[verifier::external_body] pub fn {n}({ps}) -> (r: {r})\n    {con}\n{{ unimplemented!() }}\n'))
    done = []
    for f in fns:
        key = (f['self'], f['name'])
        ps = params(f['sig'])
        if len(ps) != CONTRACTS[key][0]: continue
        con = CONTRACTS[key][2].format(*ps)
        if key in skip or f['bad']:
            # callers keep its contract
            out.append(f'// ---- - {f["name"]}\n' + wrap(f['self'], f'#[verifier::external_body] pub {named_result(f["sig"])}\n    {con.split(" decreases ")[0]}\n{{ unimplemented!() }}\n'))
            continue
        body = invariants(key, ps, f['body'], swap)
        if mutate and mutate[0] == key: con = mutate[1].format(*ps)
        out.append(f'// ---- {f["self"]} {f["name"]}\n' + wrap(f['self'], f'#[verifier::loop_isolation(false)] pub {named_result(f["sig"])}\n    {con}\n{body}\n'))
        done.append(key)
    out.append('// ---- - -\n} fn main() {}')
    return '\n'.join(out), done

DRIVER_MAIN = """#![allow(warnings)]
#[macro_use] extern crate quote;
use syn::*;
mod config; mod endian; mod enums; mod r#gen; mod meta; mod parsertree; mod structs;
use crate::endian::*;
use crate::r#gen::*;
fn main() { structs::nv::run(); #[cfg(feature = "decl")] r#gen::nv::run(); println!("END"); }
"""
PARTS = """
#[cfg(feature = "decl")] pub(crate) mod nv { use super::*; pub(crate) fn parts(g: &%s) -> (&Option<TokenStream>, &Option<TokenStream>, &Option<TokenStream>, &%s) { (&g.tl_pre, &g.tl_post, &g.extra_args, &g.%s) } }
"""
_native = {}
def native():
    """the real functions, run on enumerated attribute lists, types and configurations: {function: (input, got, want)} and the number of runs; None if they cannot be run"""
    if 'r' in _native: return _native['r']
    _native['r'] = None
    d = os.path.join(BUILD, 'impltree')
    shutil.rmtree(os.path.join(d, 'src'), ignore_errors=True)
    shutil.copytree(os.path.join(REPO, 'nom-derive-impl', 'src'), os.path.join(d, 'src'))
    try: os.remove(os.path.join(d, 'src', 'lib.rs'))
    except OSError: pass
    deps = open(os.path.join(REPO, 'nom-derive-impl', 'Cargo.toml')).read()
    deps = re.search(r'^\[dependencies\]\n(.*?)(?=^\[|\Z)', deps, re.S | re.M).group(1)
    write(os.path.join(d, 'Cargo.toml'), '[package]\nname = "nv-tree"\nversion = "0.1.0"\nedition = "2018"\n[features]\ndecl = []\n[workspace]\n[profile.dev]\nopt-level = 1\ndebug = false\n[profile.dev.package."*"]\nopt-level = 1\n[dependencies]\n' + deps)
    write(os.path.join(d, 'src', 'main.rs'), DRIVER_MAIN)
    for n, to, text in (('tree_driver.rs', 'structs.rs', 'pub(crate) mod nv { include!("nv_driver.rs"); }'), ('tree_driver2.rs', 'gen.rs', '#[cfg(feature = "decl")] pub(crate) mod nv { include!("nv_driver2.rs"); }')):
        shutil.copy(os.path.join(core.ROOT, 'rt', n), os.path.join(d, 'src', n.replace('tree', 'nv')))
        p = os.path.join(d, 'src', to)
        if os.path.exists(p): open(p, 'a').write(f'\n{text}\n')
    for to, a in (('structs', ('GenStruct', 'StructParserTree', 'parser_tree')), ('enums', ('GenEnum', 'Vec<VariantParserTree>', 'variants_defs')), ('fieldless_enums', ('GenFieldlessEnum', 'ParserExpr', 'repr_parser'))):
        p = os.path.join(d, 'src', 'gen', to + '.rs')
        if os.path.exists(p): open(p, 'a').write(PARTS % a)
    core.lockfile(d)
    for feat in (['--features', 'decl'], []):
        rc, out, err, _ = run(['cargo', 'build', '--offline', '-q', *feat], cwd=d, env={'CARGO_TARGET_DIR': os.path.join(d, 'target')}, timeout=300)
        if rc == 0: break
    if rc != 0: _native['err'] = err; return None
    rc, out, err, _ = run([os.path.join(d, 'target', 'debug', 'nv-tree')], timeout=200)
    if 'END' not in out and 'FAIL' not in out: return None
    hits, n = {}, 0
    for l in out.splitlines():
        w = l.split('\t')
        if w[0] == 'FAIL': hits.setdefault(w[1], tuple(w[2:5]))
        if w[0] == 'RUNS': n += int(w[1])
    _native['r'] = (hits, n, bool(feat))
    return _native['r']

def check(rep, pid):
    txt = os.path.join(BUILD, 'verus', f'tree_{pid}.txt')
    os.makedirs(os.path.dirname(txt), exist_ok=True)
    names = lambda k: f'nom-derive-impl::{k[1] if k[0] == "-" else k[0] + "::" + k[1]}'
    wanted = [k for k, c in CONTRACTS.items() if pid in c[1].split()]
    degraded = []
    def degrade(k, why): degraded.append((names(k) if k else 'nom-derive-impl (trees)', why))
    rc, out, err, _ = run([core.nvextract(), os.path.join(REPO, 'nom-derive-impl', 'src'), txt, 'tree'])
    failed, done, res, attempt, bodies = [], [], None, 0, {}
    def fits_shape(k):
        f = bodies.get(k)
        if not f: return False
        marks = re.findall(r'nv_mark \("(.*?)"\)', f['body'])
        return len(marks) == len(SHAPE.get(k, [])) and all(re.match(a, b) for a, b in zip(SHAPE.get(k, []), marks)) and (not f['closures'] or k in CLOSED)
    if rc != 0: degrade(None, 'extraction of the tree functions failed')
    else:
        types, fns = implcheck.parse(open(txt).read())
        have = {(f['self'], f['name']) for f in fns}
        bodies = {(f['self'], f['name']): f for f in fns}
        for k in CONTRACTS:
            if k not in have: degrade(k, 'no function of this name any more')
        skip = set()
        for f in fns:
            k = (f['self'], f['name'])
            if len(params(f['sig'])) != CONTRACTS[k][0]: skip.add(k); degrade(k, 'another signature')
            for b in f['bad']: skip.add(k); degrade(k, b)
        path = os.path.join(BUILD, 'verus', f'tree_{pid}.rs')
        hard = 0
        for attempt in range(16):
            text, done = module(types, fns, skip, swap=hard == 2)
            write(path, text)
            rc, res, msgs, err, dt = core.verus_run(path, rlimit=30 if hard == 0 else 90, timeout=200)
            lines = text.splitlines()
            def where(m):
                ls = [s['line_start'] for s in m.get('spans', []) if s.get('is_primary')] or [s['line_start'] for s in m.get('spans', [])]
                if not ls: return None
                for k in range(min(ls[0], len(lines)) - 1, -1, -1):
                    w = re.match(r'// ---- (\S+) (\S+)', lines[k])
                    if w: return (w.group(1), w.group(2))
            vr = (res or {}).get('verification-results', {})
            if vr.get('success'): break
            errs = [(where(m), m) for m in msgs if m.get('level') == 'error' and m.get('spans')]
            if vr.get('encountered-vir-error') or vr.get('verified') is None or any(m.get('code') for _, m in errs):
                bad = {w for w, _ in errs if w and w in done}
                if not bad: degrade(None, 'the verifier does not accept the extracted functions: ' + (errs[0][1]['message'] if errs else err[-200:])); done = []; break
                for b in bad: skip.add(b); degrade(b, 'outside the dialect of the verifier: ' + next(m['message'] for w, m in errs if w == b)[:160])
                continue
            hard += 1
            if hard < 3: continue              # once more with more resources, then with the accumulators exchanged
            for w, m in errs:
                if w and w in done: failed.append((w, m.get('rendered') or m['message']))
            break
    vr = (res or {}).get('verification-results', {})
    bad = {w for w, _ in failed}
    ok = [k for k in done if k not in bad]
    if done:
        rep.verus['obligations'] += vr.get('verified', 0) + vr.get('errors', 0); rep.verus['discharged'] += vr.get('verified', 0)
        rep.verus['functions'] += [names(k) for k in ok if names(k) not in rep.verus['functions']]
        rep.verus['runs'] += attempt + 1
    # vacuity: wrong contracts must be refused
    if ok and not failed:
        for k, con in (VACUITY if rep.tier != 'thorough' else {**VACUITY, **{(k, '!'): absurd(k) for k in ok}}).items():
            k = k[0] if k[1] == '!' else k
            if k not in ok: continue
            t, _ = module(types, fns, skip, mutate=(k, con))
            p2 = os.path.join(BUILD, 'verus', f'tree_{pid}_absurd.rs'); write(p2, t)
            _, r2, *_ = core.verus_run(p2, rlimit=30, timeout=200)
            if (r2 or {}).get('verification-results', {}).get('success'): raise core.Broken(f'the verifier accepts a wrong contract on {names(k)}: vacuous')
    rep.extra['tree_functions_under_contract'] = [names(k) for k in ok]
    out = []
    mine = [d for d in degraded if d[0] == 'nom-derive-impl (trees)' or d[0] in [names(k) for k in wanted]]
    bad = list(dict.fromkeys(w for w, _ in failed))
    n = native() if mine or bad or rep.tier == 'thorough' else None
    message = lambda k: next((m for x, m in failed if x == k), '')
    runs = ''
    if n:
        rep.extra['tree_functions_run'] = n[1]
        runs = f' (run on {n[1]} enumerated declarations, what the macro makes of a declaration agrees with the contracts)'
    hits = {k: n[0][names(k).split('::', 1)[1]] for k in CONTRACTS if n and names(k).split('::', 1)[1] in n[0]}
    outer = [k for k in hits if k in OUTER]
    for d in mine: rep.degraded.append((d[0], d[1] + (runs if n and not outer else '')))
    # a function that has another role than its contract says, in declarations that come out as they must
    moved = set() if outer or n is None else set(hits)
    def calls(k, seen=()):
        return any(re.search(r'\b' + m[1] + r' \(', bodies[k]['body']) and (m in moved or (m in bodies and m not in seen and calls(m, (*seen, k)))) for m in CONTRACTS if k in bodies and m != k)
    for k in CONTRACTS:
        if k not in wanted or (k not in bad and k not in hits): continue
        if k in moved: rep.degraded.append((names(k), 'no longer as its contract says: ' + ', '.join(hits[k])[:200] + runs)); continue
        if k not in hits and n and not outer:
            if calls(k): rep.degraded.append((names(k), 'calls a function that is no longer as its contract says' + runs)); continue
            # invariants are written for the loops of a function, and the effect of a closure is unknown to the verifier
            if not fits_shape(k): rep.degraded.append((names(k), 'the loop invariants are not written for this form of the function' + runs)); continue
        out.append((names(k), message(k), hits.get(k)))
    return out

def absurd(k):
    con = CONTRACTS[k][2]
    return con.split('ensures')[0] + ' ensures false,' + (' decreases ' + con.split(' decreases ')[1] if ' decreases ' in con else '')
VACUITY = {('ParserExpr', 'complete'): 'ensures r == {0},', ('-', 'get_parser'): 'requires wf({2}@), ensures r.is_ok(), decreases {2}@.len(),'}

# what is observed of a declaration: its tree, its code, what is given to its parsers, what is refused
OUTER = [('GenStruct', 'from_datastruct'), ('GenEnum', 'from_data_enum'), ('GenFieldlessEnum', 'from_data_enum'), ('-', 'is_input_fieldless_enum'), ('-', 'get_extra_args'), ('-', 'get_pre_post_exec'),
    ('ParserExpr', 'with_endianness'), ('ParserTreeItem', 'with_endianness'), ('ParserExpr', 'last_type'), ('MetaAttrType', 'from_ident'), ('MetaAttr', 'try_from'), ('-', 'parse_nom_attribute'), ('-', 'parse_nom_top_level_attribute')]
# the loops the invariants are written for
SHAPE = {('-', 'get_parser'): [r'while \d+ \w+$'], ('-', 'get_pre_post_exec'): [r'for .* acc \w+,\w+$'], ('-', 'parse_fields'): [r'for .* pushes \w+ '], ('-', 'get_selector'): ['for '], ('-', 'parse_variant'): [r'for .* sets \w+ '],
    ('-', 'is_input_fieldless_enum'): [r'for .*variants '], ('GenEnum', 'from_data_enum'): [r'for .* pushes \w+ ']}
CLOSED = [('-', 'parse_variant'), ('GenFieldlessEnum', 'from_data_enum')]       # closures that only build the error

def report(rep, pid):
    if pid not in PIDS: return
    for f, m, hit in check(rep, pid):
        what = f'the contract of {f} fails'
        if hit: what += f' on {hit[0]}: got {hit[1]}, contract says {hit[2]}'
        # the input is a declaration, and the trees are the macro's own: bytes that are parsed wrongly are for the derived parsers to show
        rep.violation(what[:600], f'tree:{f}', dict(kind='impl', function=f, verifier_output=m, input=(hit or [''])[0]), found=False)
