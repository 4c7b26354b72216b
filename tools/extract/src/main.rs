//! Mechanical extraction of macro-expanded Rust into the dialect accepted by Verus.
//!
//! usage: nvextract EXPANDED.rs OUT.rs
//!
//! Reads the output of `rustc -Zunpretty=expanded`, keeps (for every module) the type
//! definitions and the impl blocks that define `parse`/`parse_be`/`parse_le`, and rewrites
//! them according to the rules documented in DESIGN.md ("What the extraction changes").
//! Every rewriting is local and syntactic; nothing is computed from the specification.
//! The output has one marker comment per impl block where the specification functions are
//! spliced in by the driver.
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::fmt::Write as _;
use syn::visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;
mod imp;
mod tree;

thread_local! { static LFT: std::cell::RefCell<String> = std::cell::RefCell::new("'nom".into()); }
// Self of the impl, when it is an array: "T, N"
thread_local! { static SELFARR: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn arr_args() -> TokenStream { SELFARR.with(|x| { let s = x.borrow(); if s.is_empty() { quote!() } else { let t: TokenStream = s.parse().unwrap(); quote!(::<#t>) } }) }
thread_local! { static ERR: std::cell::RefCell<String> = std::cell::RefCell::new("_".into()); }
fn lft() -> Lifetime { LFT.with(|l| Lifetime::new(&l.borrow(), Span::call_site())) }

fn is_u8_slice(t: &Type) -> bool {
    if let Type::Slice(s) = t {
        if let Type::Path(p) = &*s.elem { return p.path.is_ident("u8"); }
    }
    false
}

fn last_seg(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
fn first_seg(p: &Path) -> String { p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default() }
fn path_str(p: &Path) -> String { p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::") }

/// is this a path into the nom crate?
fn nom_path(p: &Path) -> Option<String> {
    let s = path_str(p);
    let s = s.strip_prefix("nom_derive::").unwrap_or(&s).to_string();
    s.strip_prefix("nom::").map(|x| x.to_string())
}

const COMBINATORS: &[&str] = &["complete", "cond", "count", "into", "map", "verify", "length_count", "dbg_dmp", "opt",
    "many0", "pair", "map_res", "many_m_n"];

fn generic_args(seg: &PathSegment) -> Vec<GenericArgument> {
    match &seg.arguments { PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect(), _ => vec![] }
}

// ---------------------------------------------------------------- types
struct TyTr;
impl VisitMut for TyTr {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Reference(r) = t {
            if is_u8_slice(&r.elem) {
                let l = r.lifetime.clone();
                *t = match l { Some(l) => parse_quote!(nomv::Inp<#l>), None => parse_quote!(nomv::Inp<'_>) };
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let name = last_seg(p);
        // (nom::)IResult<I, O, E?>  ->  nomv::Res<'l, O, E>
        if name == "IResult" {
            let a = generic_args(p.segments.last().unwrap());
            if a.len() >= 2 {
                let (i, o) = (&a[0], &a[1]);
                let l = lifetime_of(i);
                let e = if a.len() > 2 { a[2].to_token_stream() } else { quote!(nomv::Error<#i>) };
                *p = parse_quote!(nomv::Res<#l, #o, #e>);
            }
            return;
        }
        if name == "Parse" {
            let a = generic_args(p.segments.last().unwrap());
            if !a.is_empty() {
                let i = &a[0];
                let l = lifetime_of(i);
                let e = if a.len() > 1 { a[1].to_token_stream() } else { quote!(nomv::Error<#i>) };
                *p = parse_quote!(nomv::Parse<#l, #e>);
            }
            return;
        }
        let s = path_str(p);
        for (from, to) in [("nom_derive::nom::error::ParseError", "ParseError"), ("nom::error::ParseError", "ParseError"), ("nom::error::FromExternalError", "FromExternalError"), ("nom_derive::nom::error::FromExternalError", "FromExternalError"),
                           ("nom::error::Error", "Error"), ("core::str::Utf8Error", "Utf8Error"), ("std::str::Utf8Error", "Utf8Error"), ("nom::number::Endianness", "Endianness")] {
            if s == from {
                let id = Ident::new(to, Span::call_site());
                let args = &p.segments.last().unwrap().arguments;
                *p = parse_quote!(nomv::#id #args);
                return;
            }
        }
        let std_prefix = ["::core::", "::std::", "::alloc::"].iter().any(|x| p.to_token_stream().to_string().replace(' ', "").starts_with(x));
        if std_prefix && ["Option", "Vec", "String", "PhantomData"].contains(&name.as_str()) {
            let seg = p.segments.last().unwrap().clone();
            *p = Path::from(seg);
        }
    }
}
fn lifetime_of(a: &GenericArgument) -> Lifetime {
    // an Inp<'l> produced above
    if let GenericArgument::Type(Type::Path(tp)) = a {
        for g in generic_args(tp.path.segments.last().unwrap()) {
            if let GenericArgument::Lifetime(l) = g { return l; }
        }
    }
    Lifetime::new("'_", Span::call_site())
}

// ---------------------------------------------------------------- expressions
// One visitor, two readings of an expression: executable (spec = false), or as a specification
// (spec = true; used only for the meaning of closures).
struct ExTr { bad: Vec<String>, spec: bool, expect: Option<Type> }
thread_local! {
    // field name -> type, for the types of the module (None: not the same everywhere)
    static FIELDS: std::cell::RefCell<std::collections::HashMap<String, Option<Type>>> = Default::default();
    // the same per type ("S") and per variant ("E::V")
    static OWNED: std::cell::RefCell<std::collections::HashMap<String, Vec<(String, Type)>>> = Default::default();
}
fn own(key: String, fs: &Fields) {
    let v = fs.iter().enumerate().map(|(k, x)| (x.ident.as_ref().map(|i| i.to_string()).unwrap_or(format!("_{}", k)), x.ty.clone())).collect();
    OWNED.with(|o| o.borrow_mut().insert(key, v));
}
/// fields in scope: those of the named type or variant take precedence
fn enter(key: &str) {
    if let Some(v) = OWNED.with(|o| o.borrow().get(key).cloned()) {
        FIELDS.with(|f| { let mut f = f.borrow_mut(); for (n, t) in v { f.insert(n, Some(t)); } });
    }
}
/// the `A::B` constructor an expression ends with (`Ok((i, A::B ..))`), if any
fn built(e: &Expr) -> Option<String> {
    struct V(Option<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_path(&mut self, p: &'a Path) { if p.segments.len() == 2 { let s = path_str(p); if OWNED.with(|o| o.borrow().contains_key(&s)) { self.0 = Some(s); } } visit::visit_path(self, p); }
    }
    let mut v = V(None); visit::Visit::visit_expr(&mut v, e); v.0
}
fn note_field(n: String, t: &Type) {
    FIELDS.with(|f| { let mut f = f.borrow_mut(); let e = f.entry(n).or_insert(Some(t.clone())); if e.as_ref() != Some(t) { *e = None; } });
}
fn note_fields(fs: &Fields) {
    for (k, x) in fs.iter().enumerate() { let n = x.ident.as_ref().map(|i| i.to_string()).unwrap_or(format!("_{}", k)); note_field(n, &x.ty); }
}
fn arg_of(t: &Option<Type>, outer: &str) -> Option<Type> {
    if let Some(Type::Path(p)) = t { let s = p.path.segments.last()?; if s.ident == outer { if let Some(GenericArgument::Type(t)) = generic_args(s).first() { return Some(t.clone()); } } }
    None
}
fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false); visit::Visit::visit_expr(&mut v, e); v.0
}

fn peel(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => peel(&p.expr), Expr::Group(g) => peel(&g.expr), _ => e }
}
fn peel_block(e: &Expr) -> &Expr {
    match peel(e) {
        Expr::Block(b) if b.block.stmts.len() == 1 => if let Stmt::Expr(x, None) = &b.block.stmts[0] { peel_block(x) } else { e },
        x => x,
    }
}
fn vb(t: TokenStream) -> Expr { Expr::Verbatim(t) }
fn upper(s: &str) -> bool { s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) }
fn parse_mode(n: &str) -> Option<&'static str> { match n { "parse" => Some("p_any"), "parse_be" => Some("p_be"), "parse_le" => Some("p_le"), _ => None } }

impl ExTr {
    fn pfx(&self) -> &'static str { if self.spec { "s_" } else { "" } }
    /// name of a function of the vocabulary: constructor of a parser value
    fn ctor(&self, n: &str) -> TokenStream { let id = Ident::new(&format!("{}{}", self.pfx(), n), Span::call_site()); quote!(nomv::#id) }
    fn run(&self, p: Expr, a: Expr) -> Expr { if self.spec { vb(quote!(#p.run(#a))) } else { vb(quote!(#p.parse(#a))) } }
    fn expr(&mut self, e: &Expr) -> Expr { let mut x = e.clone(); self.visit_expr_mut(&mut x); x }
    fn as_spec(&mut self, e: &Expr) -> Expr {
        let mut s = ExTr { bad: vec![], spec: true, expect: None };
        let x = s.expr(e);
        self.bad.extend(s.bad);
        x
    }
    /// a closure with its meaning as postcondition
    fn closure(&mut self, pat: TokenStream, ann: TokenStream, out: TokenStream, body: &Expr) -> Expr {
        if self.spec { self.bad.push("closure in a closure".into()); return vb(quote!(())); }
        let pat = if pat.to_string() == "_" { quote!(nomv_u) } else { pat };
        let sb = self.as_spec(body);
        let eb = self.expr(body);
        vb(quote!(|#pat #ann| -> (nomv_o: #out) ensures nomv::same(nomv_o, #sb) { #eb }))
    }

    /// closure or function name standing for a parser
    fn parser(&mut self, e: &Expr) -> Expr {
        let l = lft();
        let inner = peel_block(e).clone();
        match &inner {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 { self.bad.push("closure arity".into()); return e.clone(); }
                let pat = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let er = ERR.with(|x| x.borrow().parse::<TokenStream>().unwrap());
                let cl = self.closure(quote!(#pat), quote!(: nomv::Inp<#l>), { let ex = self.expect.clone().map(|t| quote!(#t)).unwrap_or(quote!(_)); quote!(nomv::Res<#l, #ex, #er>) }, &c.body);
                vb(quote!(nomv::fun(#cl)))
            }
            Expr::Path(p) => {
                let name = last_seg(&p.path);
                if let (Some(q), Some(m)) = (&p.qself, parse_mode(&name)) {
                    let mut ty = (*q.ty).clone(); TyTr.visit_type_mut(&mut ty);
                    let f = self.ctor(m);
                    return vb(quote!(#f::<#ty, _>()));
                }
                if let (true, Some(m)) = (p.path.segments.len() >= 2, parse_mode(&name)) {
                    let mut pp = p.path.clone(); pp.segments.pop();
                    if let Some(pair) = pp.segments.pop() { pp.segments.push(pair.into_value()); }
                    TyTr.visit_path_mut(&mut pp);
                    let f = self.ctor(m);
                    return vb(quote!(#f::<#pp, _>()));
                }
                // a local variable holding a parser stays what it is; a function used as a parser is eta-expanded
                let call: Expr = parse_quote!(#p(nomv_x));
                let er = ERR.with(|x| x.borrow().parse::<TokenStream>().unwrap());
                let cl = self.closure(quote!(nomv_x), quote!(: nomv::Inp<#l>), { let ex = self.expect.clone().map(|t| quote!(#t)).unwrap_or(quote!(_)); quote!(nomv::Res<#l, #ex, #er>) }, &call);
                vb(quote!(nomv::fun(#cl)))
            }
            Expr::If(i) if i.else_branch.is_some() && i.then_branch.stmts.len() == 1 => {
                let c = self.expr(&i.cond);
                let a = match &i.then_branch.stmts[0] { Stmt::Expr(x, None) => self.parser(x), _ => return self.expr(e) };
                let b = self.parser(&i.else_branch.as_ref().unwrap().1);
                vb(quote!((if #c { #a } else { #b })))
            }
            Expr::Match(m) => {
                let c = self.expr(&m.expr);
                let arms: Vec<TokenStream> = m.arms.iter().map(|a| { let mut a = a.clone(); a.body = Box::new(self.parser(&a.body)); let p = &a.pat; let b = &a.body;
                    let g = a.guard.as_ref().map(|(_, g)| { let g = self.expr(g); quote!(if #g) }); quote!(#p #g => #b,) }).collect();
                vb(quote!((match #c { #(#arms)* })))
            }
            _ => self.expr(&inner),
        }
    }

    fn parser_of(&mut self, e: &Expr, t: Option<Type>) -> Expr {
        let old = std::mem::replace(&mut self.expect, t);
        let r = self.parser(e);
        self.expect = old;
        r
    }
    /// a parser applied to an input
    fn apply(&mut self, p: &Expr, a: &Expr) -> Expr {
        let a2 = self.expr(a);
        let inner = peel_block(p).clone();
        match &inner {
            // beta: (|x| e).parse(a)  is  { let x = a; e }  when e does not leave the closure early
            Expr::Closure(c) if c.inputs.len() == 1 && !leaves(&c.body) => {
                let pat = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let b = self.expr(&c.body);
                return vb(quote!({ let #pat = #a2; #b }));
            }
            // f.parse(a)  is  f(a)
            Expr::Path(q) if q.qself.is_none() && parse_mode(&last_seg(&q.path)).is_none() => {
                let call: Expr = parse_quote!(#q(#a));
                return self.expr(&call);
            }
            _ => {}
        }
        // fill(p, &mut o): the parser writes into o
        if let (Expr::Call(c), true, false) = (&inner, LIB.with(|l| *l.borrow()), self.spec) {
            if let Expr::Path(f) = peel(&c.func) { if last_seg(&f.path) == "fill" && c.args.len() == 2 {
                let p = self.parser_of(&c.args[0], None);
                let o = self.expr(&c.args[1]);
                return vb(quote!(nomv::fill_run(#p, #o, #a2)));
            } }
        }
        let r = self.parser(p);
        self.run(r, a2)
    }

    /// closure or function name standing for a plain function
    fn func(&mut self, e: &Expr, by_ref: bool) -> Expr {
        let inner = peel_block(e).clone();
        match &inner {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 { self.bad.push("closure arity".into()); return e.clone(); }
                let (pat, ty) = match &c.inputs[0] { Pat::Type(t) => { let mut ty = (*t.ty).clone(); TyTr.visit_type_mut(&mut ty); ((*t.pat).clone(), Some(ty)) } p => (p.clone(), None) };
                let mut ann = ty.as_ref().map(|t| quote!(: #t)).unwrap_or_default();
                if let (true, None, Some(t)) = (by_ref, &ty, &self.expect) { let mut t = t.clone(); TyTr.visit_type_mut(&mut t); struct L; impl VisitMut for L { fn visit_lifetime_mut(&mut self, l: &mut Lifetime) { *l = lft(); } } L.visit_type_mut(&mut t); ann = quote!(: &#t); }
                let out = if by_ref { quote!(bool) } else { quote!(_) };
                self.closure(quote!(#pat), ann, out, &c.body)
            }
            Expr::Path(p) => {
                let call: Expr = parse_quote!(#p(nomv_x));
                let out = if by_ref { quote!(bool) } else { quote!(_) };
                self.closure(quote!(nomv_x), quote!(), out, &call)
            }
            _ => { self.bad.push("function-valued expression".into()); e.clone() }
        }
    }
}

impl VisitMut for ExTr {
    fn visit_type_mut(&mut self, t: &mut Type) { TyTr.visit_type_mut(t) }
    fn visit_path_mut(&mut self, p: &mut Path) { TyTr.visit_path_mut(p) }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        for s in &b.stmts { if let Stmt::Item(_) = s { self.bad.push("item inside a function".into()); } }
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if let Some(k) = built(&a.body) { enter(&k); }
        visit_mut::visit_arm_mut(self, a)
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // let (i, x) = ...: what is parsed is a field called x
        let mut t = None;
        if let Pat::Tuple(p) = &l.pat { if p.elems.len() == 2 { if let Pat::Ident(i) = &p.elems[1] { t = FIELDS.with(|f| f.borrow().get(&i.ident.to_string()).cloned().flatten()); } } }
        let old = std::mem::replace(&mut self.expect, t);
        visit_mut::visit_local_mut(self, l);
        self.expect = old;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) if m.method == "parse" && m.args.len() == 1 => {
                *e = self.apply(&m.receiver, &m.args[0]);
            }
            // a result mapped over: the closure is applied to what is in it
            Expr::MethodCall(m) if !self.spec && LIB.with(|l| *l.borrow()) && m.method == "map" && m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1 && !leaves(&c.body))
                && matches!(peel(&m.receiver), Expr::Path(_) | Expr::MethodCall(_)) && !matches!(peel(&m.receiver), Expr::MethodCall(x) if x.method != "parse") => {
                let r = self.expr(&m.receiver);
                if let Expr::Closure(c) = &m.args[0] {
                    let pat = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    let b = self.expr(&c.body);
                    *e = vb(quote!(match #r { Ok(#pat) => Ok(#b), Err(nomv_e) => Err(nomv_e) }));
                }
            }
            // [T::default(); N]: the initial contents of a buffer
            Expr::Repeat(r) if !self.spec && LIB.with(|l| *l.borrow()) && matches!(peel(&r.expr), Expr::Call(c) if c.args.is_empty() && matches!(peel(&c.func), Expr::Path(p) if last_seg(&p.path) == "default")) => {
                let n = (*r.len).clone();
                *e = vb(quote!(nomv::arr_default::<_, #n>()));
            }
            Expr::MethodCall(m) if self.spec => {
                let r = self.expr(&m.receiver);
                let a: Vec<Expr> = m.args.iter().map(|a| self.expr(a)).collect();
                let n = m.method.to_string();
                *e = match n.as_str() {
                    "len" => vb(quote!((#r.slen() as usize))),
                    "is_empty" => vb(quote!((#r.slen() == 0))),
                    "is_some" => vb(quote!((#r is Some))),
                    "is_none" => vb(quote!((#r is None))),
                    "clone" | "to_owned" if a.is_empty() && n == "clone" => vb(quote!(#r)),
                    "wrapping_add" | "wrapping_mul" | "wrapping_sub" => { let id = Ident::new(&format!("sp_{}", n), Span::call_site()); vb(quote!(nomv::#id(#r, #(#a),*))) }
                    "to_usize" => vb(quote!(#r.sp_to_usize())),
                    x => { self.bad.push(format!("method {} in closure", x)); vb(quote!(())) }
                };
            }
            Expr::Call(c) => {
                // f(args)(input): a parser applied directly
                let fun = peel(&c.func).clone();
                if let (Expr::Call(_) | Expr::Closure(_), 1) = (&fun, c.args.len()) {
                    *e = self.apply(&fun, &c.args[0]);
                    return;
                }
                let p = match &fun { Expr::Path(p) => p.clone(), _ => { if self.spec { self.bad.push("call of an expression in closure".into()); } visit_mut::visit_expr_mut(self, e); return; } };
                let name = last_seg(&p.path);
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let id = mkid(&name);
                if p.qself.is_some() && name == "default" && args.is_empty() {
                    let mut t = (*p.qself.as_ref().unwrap().ty).clone(); TyTr.visit_type_mut(&mut t);
                    *e = if self.spec { vb(quote!(nomv::sp_dflt::<#t>())) } else { vb(quote!(nomv::dflt::<#t>())) };
                    return;
                }
                if name == "default" && args.is_empty() && path_str(&p.path).ends_with("Default::default") {
                    *e = if self.spec { vb(quote!(nomv::sp_dflt())) } else { vb(quote!(nomv::dflt())) };
                    return;
                }
                let np = nom_path(&p.path);
                let isnom = np.is_some();
                if (isnom || p.path.segments.len() == 1) && COMBINATORS.contains(&name.as_str()) {
                    let t = self.expect.clone();
                    let new: Vec<Expr> = match (name.as_str(), args.len()) {
                        ("complete", 1) => vec![self.parser_of(&args[0], t)],
                        ("into", 1) => vec![self.parser_of(&args[0], None)],
                        ("opt" | "many0", 1) => vec![self.parser_of(&args[0], arg_of(&t, if name == "opt" { "Option" } else { "Vec" }))],
                        ("cond", 2) => vec![self.expr(&args[0]), self.parser_of(&args[1], arg_of(&t, "Option"))],
                        ("count", 2) => vec![self.parser_of(&args[0], arg_of(&t, "Vec")), self.expr(&args[1])],
                        ("dbg_dmp", 2) => vec![self.parser_of(&args[0], t), self.expr(&args[1])],
                        ("length_count", 2) => vec![self.parser_of(&args[0], None), self.parser_of(&args[1], arg_of(&t, "Vec"))],
                        ("pair", 2) => vec![self.parser_of(&args[0], None), self.parser_of(&args[1], None)],
                        ("map" | "map_res", 2) => vec![self.parser_of(&args[0], None), self.func(&args[1], false)],
                        ("verify", 2) => { let p = self.parser_of(&args[0], t.clone()); let old = std::mem::replace(&mut self.expect, t); let f = self.func(&args[1], true); self.expect = old; vec![p, f] }
                        ("many_m_n", 3) => vec![self.expr(&args[0]), self.expr(&args[1]), self.parser_of(&args[2], None)],
                        _ => { self.bad.push(format!("arity of {}", name)); vec![] }
                    };
                    let f = self.ctor(&name);
                    *e = vb(quote!(#f(#(#new),*)));
                    return;
                }
                let new: Vec<Expr> = args.iter().map(|a| self.expr(a)).collect();
                if isnom || ((name == "take" || name == "tag") && p.path.segments.len() == 1) {
                    let np = np.unwrap_or(name.clone());
                    *e = if np.starts_with("Err::") { vb(quote!(nomv::Err::#id(#(#new),*))) }
                        else if np == "Needed::new" { if self.spec { vb(quote!(nomv::needed())) } else { vb(quote!(nomv::Needed::new(#(#new),*))) } }
                        else if np == "error::Error::new" { if self.spec { vb(quote!(nomv::sp_make_error(#(#new),*))) } else { vb(quote!(nomv::make_error(#(#new),*))) } }
                        else if name == "make_error" || name == "from_error_kind" { if self.spec { vb(quote!(nomv::sp_make_error(#(#new),*))) } else { vb(quote!(nomv::make_error(#(#new),*))) } }
                        else if ["take", "tag"].contains(&name.as_str()) { let f = self.ctor(&name); vb(quote!(#f(#(#new),*))) }
                        else if self.spec { let f = Ident::new(&format!("sp_{}", name.trim_start_matches("r#")), Span::call_site()); vb(quote!(nomv::#f(#(#new),*))) }
                        else { vb(quote!(nomv::#id(#(#new),*))) };
                    return;
                }
                let mut p2 = p.clone();
                TyTr.visit_expr_path_mut(&mut p2);
                if !self.spec {
                    if path_str(&p.path).ends_with("str::from_utf8") { *e = vb(quote!(nomv::from_utf8(#(#new),*))); return; }
                    if name == "try_from" { let a = arr_args(); *e = vb(quote!(nomv::try_from #a (#(#new),*))); return; }
                    *e = vb(quote!(#p2(#(#new),*))); return; }
                let s = path_str(&p.path);
                if s == "Vec::new" { *e = vb(quote!(nomv::Vec::sp_new())); return; }
                if s.ends_with("str::from_utf8") { *e = vb(quote!(nomv::sp_from_utf8(#(#new),*))); return; }
                if name == "try_from" { let a = arr_args(); *e = vb(quote!(nomv::sp_try_from #a (#(#new),*))); return; }
                if upper(&name) { *e = vb(quote!(#p2(#(#new),*))); return; }
                // call of a function f: its specification is called sp_f
                let l = p2.path.segments.last_mut().unwrap();
                let nn = match name.as_str() { "parse" => "sp".to_string(), "parse_be" => "sp_be".into(), "parse_le" => "sp_le".into(), n => format!("sp_{}", n) };
                l.ident = mkid(&nn);
                *e = vb(quote!(#p2(#(#new),*)));
            }
            Expr::Path(p) => {
                if let Some(np) = nom_path(&p.path) {
                    let segs: Vec<Ident> = np.split("::").map(mkid).collect();
                    let n = segs.len();
                    if np.starts_with("error::ErrorKind::") || np.starts_with("number::Endianness::") { let a = &segs[n - 2]; let b = &segs[n - 1]; *e = parse_quote!(nomv::#a::#b); }
                    else if np.starts_with("Err::") { let b = &segs[n - 1]; *e = parse_quote!(nomv::Err::#b); }
                    else if np == "Needed::Unknown" { *e = vb(quote!(nomv::Needed { u: () })); }
                    return;
                }
                let s = path_str(&p.path);
                if s.ends_with("Endianness::Big") || s.ends_with("Endianness::Little") || s.ends_with("Endianness::Native") {
                    let b = mkid(&last_seg(&p.path));
                    *e = parse_quote!(nomv::Endianness::#b);
                    return;
                }
                TyTr.visit_expr_path_mut(p);
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = peel(&r.expr) {
                    if let Expr::Range(rg) = peel(&ix.index) {
                        let base = self.expr(&ix.expr);
                        let (fr, to) = if self.spec { (quote!(sfrom), quote!(sto)) } else { (quote!(from_), quote!(to_)) };
                        let sp = self.spec;
                        let cast = |x: Expr| if sp { quote!((#x) as int) } else { quote!(#x) };
                        match (&rg.start, &rg.end) {
                            (None, None) => { *e = if self.spec { vb(quote!(#base)) } else { vb(quote!(nomv::full(#base))) }; return; }
                            (Some(a), None) => { let a = cast(self.expr(a)); *e = vb(quote!(#base.#fr(#a))); return; }
                            (None, Some(b)) if matches!(rg.limits, RangeLimits::HalfOpen(_)) => { let b = cast(self.expr(b)); *e = vb(quote!(#base.#to(#b))); return; }
                            _ => self.bad.push("range".into()),
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let v: Vec<TokenStream> = b.value().iter().map(|x| quote!(#x)).collect();
                *e = if self.spec { if v.is_empty() { vb(quote!(nomv::mk_lit(Seq::<u8>::empty()))) } else { vb(quote!(nomv::mk_lit(seq![#(#v),*]))) } }
                    else { let id = Ident::new(&format!("nomv_lit_{}", b.value().iter().map(|x| format!("{:02x}", x)).collect::<String>()), Span::call_site()); vb(quote!(#id())) };
            }
            Expr::Closure(_) => { *e = self.func(&e.clone(), false); }
            Expr::Cast(c) => {
                // enum discriminant: Type::Variant as repr
                if let Expr::Path(p) = peel(&c.expr) {
                    let rawseg = p.path.segments.iter().any(|x| x.ident.to_string().starts_with("r#"));
                    if p.path.segments.len() == 2 && (rawseg || upper(&last_seg(&p.path)) && upper(&first_seg(&p.path))) {
                        let (a, b) = (&p.path.segments[0].ident, &p.path.segments[1].ident);
                        let f = mkid(&format!("disc_{}_{}", a, b).replace("r#", "raw_"));
                        if self.spec { self.bad.push("discriminant in closure".into()); }
                        let t = &c.ty;
                        // disc_X_V() has the type of the enum's repr: any other target type is a further conversion
                        *e = parse_quote!((#f() as #t)); return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Block(b) if self.spec => {
                let n = b.block.stmts.len();
                if n == 1 { if let Stmt::Expr(x, None) = &b.block.stmts[0] { let x = self.expr(x); *e = vb(quote!((#x))); return; } }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Try(_) | Expr::Return(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Assign(_) | Expr::Unsafe(_) if self.spec =>
                self.bad.push("statement-like expression in closure".into()),
            Expr::Macro(m) => {
                let s = path_str(&m.mac.path);
                self.bad.push(format!("macro {}", s));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { self.bad.push(format!("macro {}", path_str(&m.path))); }
}

// ---------------------------------------------------------------- items
/// the literals of a discriminant have the type of the enum's repr
struct LitSuffix(String);
impl VisitMut for LitSuffix {
    fn visit_lit_int_mut(&mut self, l: &mut LitInt) { if l.suffix().is_empty() { *l = LitInt::new(&format!("{}{}", l.base10_digits(), self.0), l.span()); } }
}
fn wants_impl(i: &ItemImpl) -> bool {
    i.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if ["parse", "parse_be", "parse_le"].contains(&f.sig.ident.to_string().as_str())))
}

fn tr_generics(g: &mut Generics) {
    // bounds that carry no contract are dropped (Debug, Sized, From...)
    let keep = |b: &TypeParamBound| match b {
        TypeParamBound::Trait(t) => ["Parse", "ParseError", "FromExternalError"].contains(&last_seg(&t.path).as_str()) || (LIB.with(|l| *l.borrow()) && last_seg(&t.path) == "ToUsize"),
        TypeParamBound::Lifetime(_) => true,
        _ => false,
    };
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p { t.bounds = t.bounds.iter().filter(|b| keep(b)).cloned().collect(); t.default = None; t.eq_token = None;
            if t.bounds.is_empty() { t.colon_token = None; } }
    }
    if let Some(w) = &mut g.where_clause {
        w.predicates = w.predicates.iter().cloned().filter_map(|mut pr| {
            if let WherePredicate::Type(t) = &mut pr {
                t.bounds = t.bounds.iter().filter(|b| keep(b)).cloned().collect();
                if t.bounds.is_empty() { return None; }
            }
            Some(pr)
        }).collect();
        if w.predicates.is_empty() { g.where_clause = None; }
    }
    TyTr.visit_generics_mut(g);
}

fn pub_fields(f: &mut Fields) {
    for x in f.iter_mut() { x.attrs.clear(); x.vis = parse_quote!(pub); TyTr.visit_type_mut(&mut x.ty); }
}

fn mkid(s: &str) -> Ident { match s.strip_prefix("r#") { Some(r) => Ident::new_raw(r, Span::call_site()), None => Ident::new(s, Span::call_site()) } }
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(3).map(|x| x == "tree").unwrap_or(false) { std::fs::write(&args[2], tree::run(&args[1])).expect("write"); return; }
    if args.get(3).map(|x| x == "impl").unwrap_or(false) { std::fs::write(&args[2], imp::run(&args[1])).expect("write"); return; }
    let src = std::fs::read_to_string(&args[1]).expect("read");
    let file = syn::parse_file(&src).expect("parse expanded source");
    let mut out = String::new();
    if args.get(3).map(|x| x == "lib").unwrap_or(false) {
        LIB.with(|l| *l.borrow_mut() = true);
        let mut fns = vec![];
        find_trait(&file.items, &mut fns);
        emit_lib(&file.items, &fns, &mut out);
        std::fs::write(&args[2], out).expect("write");
        return;
    }
    for item in &file.items {
        if let Item::Mod(m) = item {
            if let Some((_, items)) = &m.content {
                // a program the extractor cannot carry over concerns that program only
                let mut o = String::new();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| emit_mod(&m.ident.to_string(), items, &mut o)));
                if r.is_ok() { out += &o; }
            }
        }
    }
    std::fs::write(&args[2], out).expect("write");
}

// ---------------------------------------------------------------- the library itself (nom-derive/src)
thread_local! { static LIB: std::cell::RefCell<bool> = std::cell::RefCell::new(false); }

/// default methods of the trait Parse
fn find_trait(items: &[Item], out: &mut Vec<ImplItemFn>) {
    for it in items {
        match it {
            Item::Mod(m) => if let Some((_, items)) = &m.content { find_trait(items, out) },
            Item::Trait(t) if t.ident == "Parse" => for x in &t.items {
                if let TraitItem::Fn(f) = x { if let Some(b) = &f.default { out.push(ImplItemFn { attrs: vec![], vis: Visibility::Inherited, defaultness: None, sig: f.sig.clone(), block: b.clone() }); } }
            },
            _ => {}
        }
    }
}
/// `I: InputSlice` becomes the one type the contracts are about
struct Inst { from: Ident }
impl VisitMut for Inst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t { if p.qself.is_none() && p.path.is_ident(&self.from) { *t = parse_quote!(&'nom [u8]); return; } }
        visit_mut::visit_type_mut(self, t);
    }
}
fn input_param(g: &Generics) -> Option<Ident> {
    let is = |b: &TypeParamBound| matches!(b, TypeParamBound::Trait(t) if last_seg(&t.path) == "InputSlice");
    for p in g.type_params() { if p.bounds.iter().any(is) { return Some(p.ident.clone()); } }
    if let Some(w) = &g.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p { if t.bounds.iter().any(is) { if let Type::Path(p) = &t.bounded_ty { return p.path.get_ident().cloned(); } } } } }
    None
}
fn lib_key(t: &Type) -> String {
    match t {
        Type::Path(p) => last_seg(&p.path),
        Type::Tuple(t) => format!("Tuple{}", t.elems.len()),
        Type::Array(_) => "Array".into(),
        t => t.to_token_stream().to_string(),
    }
}
fn emit_lib(items: &[Item], dflt: &[ImplItemFn], out: &mut String) {
    for it in items {
        match it {
            Item::Mod(m) => if let Some((_, items)) = &m.content { emit_lib(items, dflt, out) },
            Item::Struct(s) if s.ident == "LengthData" => {
                let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub); pub_fields(&mut s.fields);
                writeln!(out, "//@MOD LengthDataStruct\n{}\n//@END LengthDataStruct", s.to_token_stream()).unwrap();
            }
            Item::Impl(i) if i.trait_.is_none() && lib_key(&i.self_ty) == "LengthData" => {
                writeln!(out, "//@MOD LengthDataNew").unwrap();
                for x in &i.items { if let ImplItem::Fn(f) = x { if f.sig.ident == "new" {
                    let (ig, _, wc) = i.generics.split_for_impl();
                    let (st, b, inp) = (&i.self_ty, &f.block, &f.sig.inputs);
                    let a: Vec<String> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t.pat.to_token_stream().to_string()) } else { None }).collect();
                    writeln!(out, "impl {} {} {} {{ pub fn new({}) -> (nomv_r: Self) ensures nomv_r == sp_LengthData_new::<L, D>({}) {} }}", quote!(#ig), quote!(#st), quote!(#wc), quote!(#inp), a.join(", "), quote!(#b)).unwrap();
                } } }
                writeln!(out, "//@END LengthDataNew").unwrap();
            }
            Item::Impl(i) if i.trait_.as_ref().map(|(_, p, _)| last_seg(p) == "Parse").unwrap_or(false) => {
                let mut i = i.clone();
                let have: Vec<String> = i.items.iter().filter_map(|x| if let ImplItem::Fn(f) = x { Some(f.sig.ident.to_string()) } else { None }).collect();
                let param = input_param(&i.generics);
                // methods not given by the impl are the trait's
                for d in dflt {
                    if !have.contains(&d.sig.ident.to_string()) {
                        let mut d = d.clone();
                        if let Some((_, p, _)) = &i.trait_ { if let Some(GenericArgument::Type(t)) = generic_args(p.segments.last().unwrap()).first() { let t = t.clone(); struct S(Type); impl VisitMut for S { fn visit_type_mut(&mut self, x: &mut Type) { if let Type::Path(p) = x { if p.path.is_ident("I") { *x = self.0.clone(); return; } } visit_mut::visit_type_mut(self, x) } } S(t).visit_impl_item_fn_mut(&mut d); } }
                        i.items.push(ImplItem::Fn(d));
                    }
                }
                if let Some(from) = param {
                    i.generics.params = i.generics.params.into_iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == from)).collect();
                    Inst { from }.visit_item_impl_mut(&mut i);
                    i.generics.params.insert(0, parse_quote!('nom));
                }
                let key = lib_key(&i.self_ty);
                writeln!(out, "//@MOD {}", key).unwrap();
                emit_impl(&i, out);
                writeln!(out, "//@END {}", key).unwrap();
            }
            _ => {}
        }
    }
}

fn emit_mod(name: &str, items: &[Item], out: &mut String) {
    if !name.starts_with("s_") { return; }
    writeln!(out, "//@MOD {}", name).unwrap();
    FIELDS.with(|f| f.borrow_mut().clear());
    OWNED.with(|f| f.borrow_mut().clear());
    for it in items {
        match it {
            Item::Struct(s) => { let mut f = s.fields.clone(); pub_fields(&mut f); note_fields(&f); own(s.ident.to_string(), &f); }
            Item::Enum(s) => for v in &s.variants { let mut f = v.fields.clone(); pub_fields(&mut f); note_fields(&f); own(format!("{}::{}", s.ident, v.ident), &f); },
            _ => {}
        }
    }
    for it in items {
        match it {
            Item::Struct(s) if s.ident.to_string().starts_with("H_") => {}
            Item::Struct(s) => {
                let mut s = s.clone();
                s.attrs.clear(); s.vis = parse_quote!(pub);
                tr_generics(&mut s.generics);
                pub_fields(&mut s.fields);
                for p in s.generics.params.iter() { if let GenericParam::Type(t) = p { writeln!(out, "//@TYPARAM {}", t.ident).unwrap(); } }
                let rr: TokenStream = s.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { let i = &t.ident; Some(quote!(#[verifier::reject_recursive_types(#i)])) } else { None }).collect();
                writeln!(out, "{}", quote!(#rr #s)).unwrap();
            }
            Item::Enum(s) => {
                let mut s = s.clone();
                s.attrs.clear(); s.vis = parse_quote!(pub);
                tr_generics(&mut s.generics);
                let mut disc = vec![];
                let mut next: Option<(Option<Expr>, i64)> = Some((None, 0));
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    if let Some((_, d)) = v.discriminant.take() { next = Some((Some(d), 0)); }
                    if v.fields == Fields::Unit {
                        if let Some((b, k)) = &next { disc.push((v.ident.clone(), b.clone(), *k)); }
                    }
                    next = next.map(|(b, k)| (b, k + 1));
                    for x in v.fields.iter_mut() { x.attrs.clear(); TyTr.visit_type_mut(&mut x.ty); }
                }
                let rr: TokenStream = s.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { let i = &t.ident; Some(quote!(#[verifier::reject_recursive_types(#i)])) } else { None }).collect();
                writeln!(out, "{}", quote!(#rr #s)).unwrap();
                // discriminants, as the language defines them
                let all_unit = s.variants.iter().all(|v| v.fields == Fields::Unit);
                if all_unit {
                    let mut repr = String::from("isize");
                    if let Item::Enum(o) = it { for a in &o.attrs { if a.path().is_ident("repr") { if let Ok(i) = a.parse_args::<Ident>() { repr = i.to_string(); } } } }
                    for (v, b, k) in disc {
                        let bs = b.map(|mut b| { LitSuffix(repr.clone()).visit_expr_mut(&mut b); b.to_token_stream().to_string() }).unwrap_or(format!("0{}", repr));
                        let k = if k == 0 { String::new() } else { format!(" + {}{}", k, repr) };
                        writeln!(out, "fn disc_{0}_{1}() -> (r: {2}) ensures r == (({3}{4}) as {2}) {{ (({3}{4}) as {2}) }}", s.ident, v, repr, bs, k).unwrap();
                    }
                }
            }
            Item::Const(c) => { let mut c = c.clone(); c.vis = parse_quote!(pub); c.attrs.clear(); TyTr.visit_type_mut(&mut c.ty); writeln!(out, "{}", c.to_token_stream()).unwrap(); }
            Item::Impl(i) if wants_impl(i) => emit_impl(i, out),
            _ => {}
        }
    }
    writeln!(out, "//@END {}", name).unwrap();
}

fn emit_impl(i: &ItemImpl, out: &mut String) {
    let mut i = i.clone();
    i.attrs.clear();
    // name of the input lifetime
    for it in &i.items {
        if let ImplItem::Fn(f) = it {
            if let Some(FnArg::Typed(t)) = f.sig.inputs.first() {
                if let Type::Reference(r) = &*t.ty { if let Some(l) = &r.lifetime { LFT.with(|x| *x.borrow_mut() = l.to_string()); } }
            }
        }
    }
    tr_generics(&mut i.generics);
    TyTr.visit_type_mut(&mut i.self_ty);
    SELFARR.with(|x| *x.borrow_mut() = if let Type::Array(a) = &*i.self_ty { let (t, n) = (&a.elem, &a.len); quote!(#t, #n).to_string() } else { String::new() });
    let is_trait = i.trait_.is_some();
    let tr = i.trait_.clone().map(|(_, mut p, _)| { TyTr.visit_path_mut(&mut p); quote!(#p for) });
    let (ig, wc) = { let (a, _, c) = i.generics.split_for_impl(); (quote!(#a), quote!(#c)) };
    let st = &i.self_ty;
    if let Type::Path(p) = &**st { enter(&last_seg(&p.path)); }
    writeln!(out, "//@IMPL {} {}", if is_trait { "trait" } else { "inherent" }, st.to_token_stream()).unwrap();
    writeln!(out, "impl {} {} {} {} {{", ig, tr.map(|t| t.to_string()).unwrap_or_default(), st.to_token_stream(), wc).unwrap();
    writeln!(out, "//@SPEC").unwrap();
    for it in &i.items {
        if let ImplItem::Fn(f) = it {
            let mut f = f.clone();
            f.attrs.clear();
            let name = f.sig.ident.to_string();
            let mut ret = match &f.sig.output { ReturnType::Type(_, t) => (**t).clone(), _ => parse_quote!(()) };
            TyTr.visit_type_mut(&mut ret);
            // the error type of the function: closures that parse return it too
            if let Type::Path(tp) = &ret { let a = generic_args(tp.path.segments.last().unwrap()); if a.len() == 3 { let t = a[2].to_token_stream().to_string(); ERR.with(|x| *x.borrow_mut() = t); } }
            let mut ex = ExTr { bad: vec![], spec: false, expect: None };
            ex.visit_block_mut(&mut f.block);
            tr_generics(&mut f.sig.generics);
            let mut ids = vec![];
            for a in f.sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = a { TyTr.visit_type_mut(&mut t.ty); ids.push(t.pat.to_token_stream().to_string()); }
            }
            let (g, w) = { let (a, _, c) = f.sig.generics.split_for_impl(); (quote!(#a), quote!(#c)) };
            let inputs = &f.sig.inputs;
            let sp = match name.as_str() { "parse" => "sp", "parse_be" => "sp_be", "parse_le" => "sp_le", x => x };
            for b in &ex.bad { writeln!(out, "//@BAD {} {}", name, b).unwrap(); }
            writeln!(out, "//@FN {}", name).unwrap();
            if is_trait {
                writeln!(out, "fn {}{}({}) -> {} {}", name, g, quote!(#inputs), ret.to_token_stream(), w).unwrap();
            } else {
                let first = ids[0].clone();
                writeln!(out, "pub fn {}{}({}) -> (nomv_r: {}) {} ensures nomv_r == Self::{}({}), nomv_r matches Ok((nomv_j, _)) ==> nomv_j.suffix_of({}),", name, g, quote!(#inputs), ret.to_token_stream(), w, sp, ids.join(", "), first).unwrap();
            }
            writeln!(out, "{}", f.block.to_token_stream()).unwrap();
        }
    }
    writeln!(out, "}}").unwrap();
}
