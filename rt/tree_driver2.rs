// Appended (as a child module) to a copy of nom-derive-impl/src/gen.rs: whole declarations through the real functions, against the
// contracts of nv/treecheck.py.
use super::*;
use crate::config::Config;
use crate::meta::attr::{MetaAttr as A, MetaAttrType as K};
use crate::parsertree::{ParserExpr as P, TypeItem};
use crate::structs::nv::*;
use crate::structs::{get_pre_post_exec, StructParserTree};
use quote::ToTokens;

fn follows(c: &Config, l: &[A], o: ParserEndianness) -> bool { c.object_endianness == o && c.global_endianness == ParserEndianness::Unspecified && c.complete == asks(l, K::Complete) && c.debug == asks(l, K::Debug) && c.debug_derive == asks(l, K::DebugDerive) && c.generic_errors == asks(l, K::GenericErrors) }
fn texts(a: &Option<TokenStream>) -> Option<String> { a.as_ref().map(s) }
/// the attributes and byte order of a declaration; None: to be refused
fn top(ast: &DeriveInput, e: ParserEndianness) -> Option<(Vec<A>, ParserEndianness)> {
    let l = meta::parse_nom_top_level_attribute(&ast.attrs).ok()?;
    if contradictory(&l) { return None; }
    let o = if asks(&l, K::BigEndian) { ParserEndianness::BigEndian } else if asks(&l, K::LittleEndian) { ParserEndianness::LittleEndian } else if asks(&l, K::SetEndian) { ParserEndianness::SetEndian } else { e };
    if e != ParserEndianness::Unspecified && o != e { return None; }
    Some((l, o))
}
fn head(c: &Config, pre: &Option<TokenStream>, post: &Option<TokenStream>, extra: &Option<TokenStream>, l: &[A], o: ParserEndianness) -> std::result::Result<(), String> {
    let (p, q) = get_pre_post_exec(l, c);
    if !follows(c, l, o) { return Err(format!("order {:?}, Complete {}, Debug {}, GenericErrors {}", c.object_endianness, c.complete, c.debug, c.generic_errors)); }
    if texts(pre) != p.as_ref().map(s) || texts(post) != q.as_ref().map(s) { return Err(format!("before {:?}, after {:?}", texts(pre), texts(post))); }
    let x = l.iter().find(|a| a.attr_type == K::ExtraArgs).and_then(|a| a.arg().map(s));
    if texts(extra) != x { return Err(format!("extra arguments {:?}", texts(extra))); }
    Ok(())
}
fn mk<'a>(l: &'a [A]) -> impl Fn(ParserEndianness) -> Config + 'a { move |o| { let mut c = Config::from_meta_list(l).unwrap_or_else(|_| panic!()); c.object_endianness = o; c } }
const TOPS: &[&str] = &["", "BigEndian", "LittleEndian", "SetEndian = \"e\"", "Complete", "Debug", "PreExec = \"a();\", PostExec = \"b();\"", "BigEndian, LittleEndian", "ExtraArgs(x: u8)", "GenericErrors, Complete", "InputName = \"j\", Exact", "PostExec = \"b();\", Complete, PreExec = \"a();\", LittleEndian", "Verify = \"x\"", "Count(2)"];
const ES: [ParserEndianness; 3] = [ParserEndianness::Unspecified, ParserEndianness::BigEndian, ParserEndianness::LittleEndian];
fn struct_check(ast: &DeriveInput, e: ParserEndianness) -> std::result::Result<(), (String, String)> {
    let r = quiet(|| GenStruct::from_ast(ast, e)).and_then(|x| x.ok());
    let w = top(ast, e);
    let fields = match &ast.data { Data::Struct(d) => &d.fields, _ => return Ok(()) };
    let why = match (&r, &w) {
        (None, None) => Ok(()),
        (Some(_), None) => Err("accepted".to_string()),
        (r, Some((l, o))) => {
            let m = mk(l);
            let tree = r.as_ref().map(|g| super::structs::nv::parts(g));
            fields_check(tree.map(|t| t.3), fields, &m, *o).and_then(|_| match (r, tree) { (Some(g), Some(t)) => head(&g.config, t.0, t.1, t.2, l, *o), _ => Ok(()) })
        }
    };
    why.map_err(|x| (x, if w.is_some() { "as declared".into() } else { "refused".into() }))
}
fn run_structs() {
    let mut n = 0u64;
    for ix in decls(9, 400) { for unnamed in [false, true] { for (ti, t) in TOPS.iter().enumerate() { for (ei, e) in ES.iter().enumerate() {
        if ix.len() >= 2 && (ix[0] + ix[1] + ti) % 3 != ei { continue; }
        let decl = format!("#[nom({})] struct S {}{}", t, body(&ix, unnamed), if unnamed || ix.is_empty() { ";" } else { "" });
        let Ok(ast) = parse_str::<DeriveInput>(&decl) else { continue };
        n += 1;
        if let Err((why, want)) = struct_check(&ast, *e) { say("GenStruct::from_datastruct", format!("{} for {:?}", decl, e), why, want); return; }
    } } } }
    // one field with every attribute list of up to 3, after a plain field
    for ix in lists() { for (ti, ty) in types().iter().enumerate() { for unnamed in [false, true] {
        let l = list(&ix);
        // a type of the form the list asks for first, and one other
        let want = l.iter().find_map(|a| match a.attr_type { K::Cond => Some("Option"), K::Count | K::LengthCount => Some("Vec"), _ => None });
        let t = ty.to_token_stream().to_string();
        if ix.len() == 3 && !(want.map_or(ti == 0, |w| t.starts_with(w)) || (ix[0] + 2 * ix[1] + ix[2]) % types().len() == ti) { continue; }
        if ix.len() == 3 && unnamed && (ix[0] + ix[2]) % 3 > 0 { continue; }
        let k = ix.iter().sum::<usize>() + ti;
        let (top_, e) = (TOPS[[0, 1, 2, 3, 4, 0, 10][k % 7]], ES[if k % 7 == 0 { k % 3 } else { 0 }]);
        let f = format!("#[nom({})] {}{}", l.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", "), if unnamed { "" } else { "f: " }, t);
        let decl = if unnamed { format!("#[nom({})] struct S(u16, {});", top_, f) } else { format!("#[nom({})] struct S {{ a: u16, {} }}", top_, f) };
        let Ok(ast) = parse_str::<DeriveInput>(&decl) else { continue };
        n += 1;
        if let Err((why, want)) = struct_check(&ast, e) { say("GenStruct::from_datastruct", format!("{} for {:?}", decl, e), why, want); return; }
    } } }
    println!("RUNS\t{}", n);
}
const VATTRS: &[&str] = &["Selector = \"1\"", "Selector = \"2..=3 if x\"", "Selector(_)", "Parse = \"p\"", "Parse = \"q\"", "PreExec = \"a();\"", "PostExec = \"b();\"", "SkipBefore = \"1\"", "AlignAfter(4)"];
fn variant_check(v: Option<&crate::enums::VariantParserTree>, w: &Variant, l: &[A], o: ParserEndianness) -> std::result::Result<(), String> {
    let Ok(vl) = meta::parse_nom_attribute(&w.attrs) else { return if v.is_none() { Ok(()) } else { Err("accepted".into()) } };
    let Some(sel) = vl.iter().find(|a| a.attr_type == K::Selector) else { return if v.is_none() { Ok(()) } else { Err("accepted without a selector".into()) } };
    let m = mk(l); let c = m(o);
    if let Some(v) = v { if v.selector_type != sel.arg().map(s).unwrap_or_default() || v.ident != w.ident { return Err(format!("selector {}", v.selector_type)); } }
    if let Fields::Unit = w.fields {
        let Some(v) = v else { return Err("refused".into()) };
        if v.struct_def.parsers.len() != 1 || !v.struct_def.empty { return Err(format!("{} parsers", v.struct_def.parsers.len())); }
        let p = &v.struct_def.parsers[0];
        let own = vl.iter().rev().find(|a| a.attr_type == K::Parse).and_then(|a| a.arg().map(s));
        let e = match (&p.item.expr, c.complete) { (P::Complete(b), true) => (**b).clone(), (x, false) => x.clone(), _ => return Err("not as Complete asks".into()) };
        let ok = match (&e, &own) { (P::Nop, None) => true, (P::Raw(t), Some(o)) => s(t) == *o, _ => false };
        let (a, b) = get_pre_post_exec(&vl, &c);
        if !ok || texts(&p.pre_exec) != a.as_ref().map(s) || texts(&p.post_exec) != b.as_ref().map(s) { return Err(format!("before {:?}, parser {}, after {:?}", texts(&p.pre_exec), p.item.expr.to_token_stream(), texts(&p.post_exec))); }
        Ok(())
    } else { fields_check(v.map(|v| &v.struct_def), &w.fields, &m, o) }
}
fn run_enums() {
    let (mut n, mut bad_v) = (0u64, false);
    let mut shapes: Vec<Vec<(Vec<usize>, usize)>> = vec![];
    let mut lists: Vec<Vec<usize>> = vec![];
    for a in 0..VATTRS.len() { lists.push(vec![a]); for b in 0..VATTRS.len() { lists.push(vec![a, b]); for c in 0..VATTRS.len() { lists.push(vec![a, b, c]); } } }
    for l in &lists { for f in 0..4 { shapes.push(vec![(l.clone(), f)]); } }
    let mut r = Lcg(3);
    for _ in 0..4000 { let k = 2 + r.next(5); shapes.push((0..k).map(|_| { let mut l = lists[r.next(lists.len())].clone(); if r.next(8) > 0 { l.insert(0, r.next(3)); } (l, r.next(4)) }).collect()); }
    let fs = ["", "(u16, #[nom(BigEndian)] u16)", "{ a: u16, #[nom(SetEndian = \"e\")] b: u16, c: u16 }", "()"];
    for (si, sh) in shapes.iter().enumerate() { for (ti, t) in TOPS.iter().enumerate() { for (ei, e) in ES.iter().enumerate() {
        if (si + ti) % 3 != ei || (si % 5 != ti % 5 && sh.len() > 1) { continue; }
        let vs: Vec<String> = sh.iter().enumerate().map(|(k, (l, f))| format!("#[nom({})] V{}{}", l.iter().map(|x| VATTRS[*x]).collect::<Vec<_>>().join(", "), k, fs[*f])).collect();
        let decl = format!("#[nom(Selector = \"u8\")] #[nom({})] enum E {{ {} }}", t, vs.join(", "));
        let Ok(ast) = parse_str::<DeriveInput>(&decl) else { continue };
        n += 1;
        let r = quiet(|| GenEnum::from_ast(&ast, *e)).and_then(|x| x.ok());
        let w = top(&ast, *e);
        let d = match &ast.data { Data::Enum(d) => d, _ => continue };
        let why = match (&r, &w) {
            (None, None) => Ok(()),
            (Some(_), None) => Err("accepted".to_string()),
            (None, Some((l, o))) => if d.variants.iter().any(|v| variant_check(None, v, l, *o).is_ok()) { Ok(()) } else { Err("refused".into()) },
            (Some(g), Some((l, o))) => {
                let p = super::enums::nv::parts(g);
                let mut w = head(&g.config, p.0, p.1, p.2, l, *o);
                if p.3.len() != d.variants.len() { w = Err(format!("{} variants", p.3.len())); }
                for (a, b) in p.3.iter().zip(d.variants.iter()) { if w.is_ok() { w = variant_check(Some(a), b, l, *o).map_err(|x| format!("{}: {}", b.ident, x)); if let (Err(x), false) = (&w, bad_v) { bad_v = true; say("parse_variant", format!("{} for {:?}", decl, e), x.clone(), "as declared".into()); } } }
                w
            }
        };
        if let Err(why) = why { say("GenEnum::from_data_enum", format!("{} for {:?}", decl, e), why, if w.is_some() { "as declared".into() } else { "refused".into() }); return; }
    } } }
    println!("RUNS\t{}", n);
}
fn run_plain() {
    let mut n = 0u64;
    for repr in ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i64", "C", "u8, C", "usize"] { for t in TOPS { for e in ES { for vs in ["A, B = 3, C", "A", "A, B(u8)", "A, B {}", "A, B()"] {
        let decl = format!("#[repr({})] #[nom({})] enum E {{ {} }}", repr, t, vs);
        let Ok(ast) = parse_str::<DeriveInput>(&decl) else { continue };
        n += 1;
        let plain = vs != "A, B(u8)" && !vs.ends_with("{}") && !vs.ends_with("()");
        let g = quiet(|| is_input_fieldless_enum(&ast));
        if g != Some(plain) { say("is_input_fieldless_enum", decl, format!("{:?}", g), format!("{}", plain)); return; }
        if !plain { continue; }
        let r = quiet(|| GenFieldlessEnum::from_ast(&ast, e)).and_then(|x| x.ok());
        let w = top(&ast, e);
        let why = match (&r, &w) {
            (None, None) => Ok(()),
            (Some(_), None) => Err("accepted".to_string()),
            (None, Some((l, o))) => if asks(l, K::ExtraArgs) || *o == ParserEndianness::SetEndian || ["C", "u8, C", "usize"].contains(&repr) { Ok(()) } else { Err("refused".into()) },
            (Some(g), Some((l, o))) => {
                let p = super::fieldless_enums::nv::parts(g);
                let i = match (p.3, g.config.complete) { (P::Complete(b), true) => (**b).clone(), (x, false) => x.clone(), _ => P::Nop };
                let ok = match (&i, o) { (P::CallParseBE(t), ParserEndianness::BigEndian) | (P::CallParseLE(t), ParserEndianness::LittleEndian) | (P::CallParse(t), ParserEndianness::Unspecified) => repr.starts_with(&t.to_token_stream().to_string()), _ => false };
                if !ok { Err(format!("parser {}", p.3.to_token_stream())) } else { head(&g.config, p.0, p.1, p.2, l, *o) }
            }
        };
        if let Err(why) = why { say("GenFieldlessEnum::from_data_enum", format!("{} for {:?}", decl, e), why, if w.is_some() { "as declared".into() } else { "refused".into() }); return; }
    } } } }
    println!("RUNS\t{}", n);
}
pub fn run() { run_structs(); run_enums(); run_plain(); }
