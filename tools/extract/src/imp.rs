//! Mode `impl`: the pure functions of nom-derive-impl that decide about attributes and byte orders.
//!
//! usage: nvextract SRC_DIR OUT.rs impl
//!
//! From the source files (not expanded) the enums ParserEndianness and MetaAttrType, the structs MetaAttr and Config,
//! and the functions listed in WANT are taken.  What is changed, and nothing else:
//!  * struct fields that are neither bool nor one of the two enums are dropped, with their initialisers;
//!    `let`s that only serve dropped fields (they contain a closure, a string or another dropped variable) are dropped;
//!  * `Error::new(..)` becomes nv_err(), every `.span()` and `Span::call_site` an opaque span;
//!  * `for P in LIST {B}` over a slice becomes `while k < LIST.len() { let P = &LIST[k]; k += 1; B }`; the loop invariant
//!    is read off the arms `Kind => flag = true` of B (the verifier checks it, so a wrong guess cannot prove anything);
//!  * `LIST.iter().any(|m| m.is_type(K))` (or `m.attr_type == K`) becomes nv_any(LIST, K); unreachable!/panic! need a proof
//!    that they are not reached; `&` and `|` between bools become `&&` and `||` (no operand has a side effect).
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::fmt::Write as _;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const TYPES: &[&str] = &["ParserEndianness", "MetaAttrType", "MetaAttr", "Config"];
const WANT: &[&str] = &["get_object_endianness", "set_object_endianness", "get_local_endianness", "validate_endianness", "acceptable_tla", "acceptable_fla", "is_type", "takes_argument", "from_meta_list"];

fn keep_ty(t: &Type) -> bool {
    if let Type::Path(p) = t { return ["bool", "ParserEndianness", "MetaAttrType"].iter().any(|n| p.path.is_ident(n)); }
    false
}
fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

/// names used in an expression
struct Names(Vec<String>, bool);
impl<'a> Visit<'a> for Names {
    fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.0.push(i.to_string()); } visit::visit_expr_path(self, p); }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) { self.1 = true; }
    fn visit_lit_str(&mut self, _: &'a LitStr) { self.1 = true; }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if c.func.to_token_stream().to_string().replace(' ', "").ends_with("Error::new") { return; }
        visit::visit_expr_call(self, c);
    }
}

struct Tr { dropped: Vec<String>, bad: Vec<String>, kept: Vec<(String, Vec<String>)>, loops: usize }

/// arms `Kind => flag = true` of a match on X.attr_type
struct Flags(Vec<(Ident, Path)>);
impl<'a> Visit<'a> for Flags {
    fn visit_arm(&mut self, a: &'a Arm) {
        let mut asg = Assigns(vec![]);
        asg.visit_expr(&a.body);
        if a.guard.is_none() {
            let pats: Vec<&Pat> = match &a.pat { Pat::Or(o) => o.cases.iter().collect(), p => vec![p] };
            for p in pats { if let Pat::Path(p) = p { for v in &asg.0 { self.0.push((v.clone(), p.path.clone())); } } }
        }
        visit::visit_arm(self, a);
    }
    fn visit_expr_if(&mut self, i: &'a ExprIf) {
        // if m.is_type(K) { flag = true }   /   if m.attr_type == K
        if let Some(k) = kind_test(&i.cond) { let mut asg = Assigns(vec![]); asg.visit_block(&i.then_branch); for v in asg.0 { self.0.push((v, k.clone())); } }
        visit::visit_expr_if(self, i);
    }
}
struct Assigns(Vec<Ident>);
impl<'a> Visit<'a> for Assigns {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        if let (Expr::Path(p), Expr::Lit(ExprLit { lit: Lit::Bool(b), .. })) = (&*a.left, &*a.right) { if b.value { if let Some(i) = p.path.get_ident() { self.0.push(i.clone()); } } }
    }
}
fn kind_test(e: &Expr) -> Option<Path> {
    match e {
        Expr::Paren(p) => kind_test(&p.expr),
        Expr::MethodCall(m) if m.method == "is_type" => if let Some(Expr::Path(p)) = m.args.first() { Some(p.path.clone()) } else { None },
        Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => match (&*b.left, &*b.right) {
            (Expr::Field(f), Expr::Path(p)) if f.member.to_token_stream().to_string() == "attr_type" => Some(p.path.clone()),
            _ => None,
        },
        Expr::Macro(m) if m.mac.path.is_ident("matches") => {
            let t = m.mac.tokens.to_string();
            let mut it = t.splitn(2, ',');
            if !it.next()?.replace(' ', "").ends_with(".attr_type") { return None; }
            parse_str::<Path>(it.next()?.trim()).ok()
        }
        _ => None,
    }
}

impl VisitMut for Tr {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Local(l) = &s {
                if let Some(init) = &l.init {
                    let mut n = Names(vec![], false); n.visit_expr(&init.expr);
                    let any = matches_any(&init.expr).is_some();
                    if (n.1 && !any) || n.0.iter().any(|x| self.dropped.contains(x)) {
                        if let Pat::Ident(p) = &l.pat { self.dropped.push(p.ident.to_string()); continue; }
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let n = m.path.to_token_stream().to_string();
        if n != "matches" { self.bad.push(format!("macro {}", n)); }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.to_token_stream().to_string();
            if n == "unreachable" || n == "panic" { *s = parse_quote!(nv_unreachable();); return; }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let n = m.mac.path.to_token_stream().to_string();
            if n == "unreachable" || n == "panic" { *e = parse_quote!(nv_unreachable()); return; }
        }
        if let Some((l, k)) = matches_any(e) { *e = parse_quote!(nv_any(#l, #k)); return; }
        if let Expr::Call(c) = e {
            if c.func.to_token_stream().to_string().replace(' ', "").ends_with("Error::new") { *e = parse_quote!(nv_err()); return; }
        }
        if let Expr::MethodCall(m) = e { if m.method == "span" && m.args.is_empty() { *e = parse_quote!(nv_span()); return; } }
        if let Expr::Struct(s) = e {
            let name = s.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
            if let Some((_, k)) = self.kept.iter().find(|(n, _)| *n == name || name == "Self") {
                s.fields = s.fields.iter().filter(|f| k.contains(&f.member.to_token_stream().to_string())).cloned().collect();
            }
        }
        if let Expr::ForLoop(f) = e {
            let mut list = &*f.expr;
            loop { match list {
                Expr::Reference(r) => list = &r.expr,
                Expr::Paren(r) => list = &r.expr,
                Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => list = &m.receiver,
                _ => break,
            } }
            let (list, pat) = (list.clone(), f.pat.clone());
            let mut fl = Flags(vec![]); fl.visit_block(&f.body);
            let k = id(&format!("nv_k{}", self.loops)); self.loops += 1;
            self.visit_block_mut(&mut f.body);
            let body = &f.body.stmts;
            // `flag` may be set by several kinds
            let mut names: Vec<Ident> = vec![];
            for (v, _) in &fl.0 { if !names.contains(v) { names.push(v.clone()); } }
            let inv: Vec<TokenStream> = names.iter().map(|v| { let ks: Vec<&Path> = fl.0.iter().filter(|(x, _)| x == v).map(|(_, k)| k).collect(); quote!(#v == (false #(|| nv_has(#list @, #k as nat, #ks))*)) }).collect();
            // `while c invariant i, {..}` is not Rust: it is spelled with a marker the driver rewrites
            let inv_s = quote!(#k <= #list.len(), #(#inv,)*).to_string();
            *e = parse_quote!({ let mut #k: usize = 0; while nv_while(#k < #list.len(), #inv_s) { let #pat = &#list[#k]; #k = #k + 1; #(#body)* } });
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            // bools only: there is no other use of & and | in these functions
            if matches!(b.op, BinOp::BitAnd(_)) { b.op = BinOp::And(Default::default()); let (l, r) = (&b.left, &b.right); *e = parse_quote!(((#l) && (#r))); }
            else if matches!(b.op, BinOp::BitOr(_)) { b.op = BinOp::Or(Default::default()); let (l, r) = (&b.left, &b.right); *e = parse_quote!(((#l) || (#r))); }
        }
    }
}
fn matches_any(e: &Expr) -> Option<(Expr, Path)> {
    if let Expr::MethodCall(m) = e { if m.method == "any" { if let (Expr::MethodCall(r), Some(Expr::Closure(c))) = (&*m.receiver, m.args.first()) {
        if r.method == "iter" { if let Some(k) = kind_test(&c.body) { return Some(((*r.receiver).clone(), k)); } } } } }
    None
}

struct Found { types: Vec<(String, TokenStream)>, fns: Vec<(Option<Type>, ItemFn)>, kept: Vec<(String, Vec<String>)> }

fn scan(items: &[Item], f: &mut Found) {
    for it in items {
        match it {
            Item::Mod(m) => if let Some((_, i)) = &m.content { scan(i, f) },
            Item::Enum(e) if TYPES.contains(&e.ident.to_string().as_str()) => {
                let mut e = e.clone(); e.attrs.clear(); e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() { v.attrs.clear(); }
                let n = &e.ident;
                f.types.push((n.to_string(), quote!(#[derive(Clone, Copy)] #e
                    impl vstd::std_specs::cmp::PartialEqSpecImpl for #n { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &#n) -> bool { *self == *other } }
                    impl PartialEq for #n { #[verifier::external_body] fn eq(&self, other: &#n) -> (r: bool) { unimplemented!() } })));
            }
            Item::Struct(s) if TYPES.contains(&s.ident.to_string().as_str()) => {
                let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub);
                if let Fields::Named(n) = &mut s.fields {
                    n.named = n.named.iter().filter(|x| keep_ty(&x.ty)).cloned().collect();
                    for x in n.named.iter_mut() { x.attrs.clear(); x.vis = parse_quote!(pub); }
                    f.kept.push((s.ident.to_string(), n.named.iter().map(|x| x.ident.as_ref().unwrap().to_string()).collect()));
                }
                f.types.push((s.ident.to_string(), quote!(#s)));
            }
            Item::Fn(x) => f.fns.push((None, x.clone())),
            Item::Impl(i) if i.trait_.is_none() => for x in &i.items { if let ImplItem::Fn(x) = x {
                f.fns.push((Some((*i.self_ty).clone()), ItemFn { attrs: vec![], vis: parse_quote!(pub), sig: x.sig.clone(), block: Box::new(x.block.clone()) })); } },
            _ => {}
        }
    }
}

struct Calls(Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(s) = p.path.segments.last() { self.0.push(s.ident.to_string()); } visit::visit_expr_path(self, p); }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { self.0.push(m.method.to_string()); visit::visit_expr_method_call(self, m); }
}
/// Result<T> has syn's error
struct Ret;
impl VisitMut for Ret {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let s = p.path.segments.last().unwrap().clone();
            if s.ident == "Result" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(x) = a.args.first() { *t = parse_quote!(core::result::Result<#x, NvError>); } } }
            else if s.ident == "Span" { *t = parse_quote!(NvSpan); }
        }
    }
}

pub fn run(dir: &str) -> String {
    let mut f = Found { types: vec![], fns: vec![], kept: vec![] };
    let mut stack = vec![std::path::PathBuf::from(dir)];
    let mut files = vec![];
    while let Some(d) = stack.pop() {
        for e in std::fs::read_dir(d).expect("read_dir") { let p = e.unwrap().path(); if p.is_dir() { stack.push(p) } else if p.extension().map(|x| x == "rs").unwrap_or(false) { files.push(p) } }
    }
    files.sort();
    for p in files { if let Ok(x) = syn::parse_file(&std::fs::read_to_string(&p).unwrap()) { scan(&x.items, &mut f); } }
    let mut out = String::new();
    for (n, t) in &f.types { writeln!(out, "//@TYPE {}\n{}", n, t).unwrap(); }
    // wanted functions, and the plain functions of the crate they call
    let mut want: Vec<String> = WANT.iter().map(|x| x.to_string()).collect();
    let mut k = 0;
    while k < want.len() {
        let cur = want[k].clone();
        for (_, x) in f.fns.iter().filter(|(_, x)| x.sig.ident == cur) {
            let mut c = Calls(vec![]); c.visit_block(&x.block);
            let simple = |y: &ItemFn| y.sig.inputs.iter().all(|a| match a { FnArg::Typed(t) => keep_ty(&t.ty), FnArg::Receiver(r) => r.mutability.is_none() }) && matches!(&y.sig.output, ReturnType::Type(_, t) if keep_ty(t));
            for (_, y) in &f.fns { let n = y.sig.ident.to_string(); if c.0.contains(&n) && !want.contains(&n) && simple(y) { want.push(n); } }
        }
        k += 1;
    }
    for (ty, x) in &f.fns {
        let n = x.sig.ident.to_string();
        if !want.contains(&n) { continue; }
        if let Some(t) = ty { if !TYPES.contains(&t.to_token_stream().to_string().as_str()) { continue; } }
        let mut x = x.clone();
        x.attrs.clear(); x.vis = parse_quote!(pub);
        let mut tr = Tr { dropped: vec![], bad: vec![], kept: f.kept.clone(), loops: 0 };
        // attributes the compiler does not need
        tr.visit_block_mut(&mut x.block);
        Ret.visit_signature_mut(&mut x.sig);
        if ty.as_ref().map(|t| t.to_token_stream().to_string()) == Some("Config".into()) && n != "from_meta_list" { continue; }
        let helper = !WANT.contains(&n.as_str());
        let (sig, body) = (x.sig.to_token_stream().to_string(), x.block.to_token_stream().to_string());
        writeln!(out, "//@FUN {} {} {}", n, ty.map_or("-".into(), |t| t.to_token_stream().to_string()), if helper { "helper" } else { "wanted" }).unwrap();
        for b in &tr.bad { writeln!(out, "//@BAD {} {}", n, b).unwrap(); }
        writeln!(out, "//@SIG {}\n//@BODY {}", sig.replace('\n', " "), body.replace('\n', " ")).unwrap();
    }
    out
}
trait MapOr { fn map_or(&self, d: String, f: impl Fn(&Type) -> String) -> String; }
impl MapOr for Option<Type> { fn map_or(&self, d: String, f: impl Fn(&Type) -> String) -> String { match self { Some(t) => f(t), None => d } } }
