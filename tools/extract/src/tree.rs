//! Mode `tree`: the functions of nom-derive-impl that turn the attribute lists of a declaration into parser trees.
//!
//! usage: nvextract SRC_DIR OUT.txt tree
//!
//! The types in TYPES and the functions in WANT are taken from the source files (not expanded).  What is changed:
//!  * struct fields of the types listed in DROP and String fields are dropped, with their initialisers;
//!  * paths lose their module prefixes; attributes of functions are dropped;
//!  * `Error::new(..)` becomes nv_err(), `.span()`/`Span::call_site()` an opaque span, unreachable!/panic! need a proof that they are not reached;
//!  * `E.into()` becomes Box::new(E); `vec![]` becomes Vec::new(); `.to_string()` and format! an opaque string;
//!  * `a == "lit"` becomes nv_str_eq(&a, "lit");
//!  * `syn::parse2::<Expr|Type>(E)` becomes nv_parse_expr|nv_parse_type(E), opaque;
//!    `if let Some(TokenTree::Literal(_)) = E.clone().into_iter().next()` becomes `if E.nv_first_lit()`;
//!  * `while let P = E {B}` becomes `loop { if let P = E {B} else {break} }`;
//!    `for P in LIST {B}` (also with .iter() and .enumerate()) becomes an index loop; `nv_mark(..)` tells the driver where invariants go;
//!  * `LIST.iter().any(|m| m.is_type(K))` becomes nv_any(LIST, K);
//!  * in get_pre_post_exec: what is appended to an accumulator becomes nv_piece(m, config) when it is made of the attribute and the
//!    configuration only and is not the attribute's argument itself (the text of the piece is dropped, its place and order are kept);
//!    the `let`s that only serve such pieces are dropped; elsewhere quote! becomes an opaque token stream.
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::fmt::Write as _;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const TYPES: &[&str] = &["ParserEndianness", "MetaAttrType", "MetaAttr", "Config", "ParserExpr", "ParserTreeItem", "TypeItem", "StructParser", "StructParserTree", "VariantParserTree", "GenStruct", "GenEnum", "GenFieldlessEnum"];
/// (type or "-", function)
const WANT: &[(&str, &str)] = &[
    ("MetaAttr", "arg"), ("MetaAttr", "is_type"), ("ParserExpr", "with_endianness"), ("ParserExpr", "complete"), ("ParserExpr", "last_type"),
    ("ParserTreeItem", "new"), ("ParserTreeItem", "with_endianness"), ("StructParser", "new"),
    ("-", "get_type_parser"), ("-", "get_parser"), ("-", "get_field_parser"), ("-", "get_pre_post_exec"), ("-", "parse_fields"), ("-", "parse_struct"),
    ("MetaAttr", "new"), ("MetaAttr", "try_from"), ("MetaAttrType", "from_ident"), ("-", "get_type_first_ident"), ("-", "get_item_subtype_parser"), ("-", "get_type_default"),
    ("-", "parse_nom_attribute"), ("-", "parse_nom_top_level_attribute"), ("-", "get_selector"), ("-", "get_extra_args"), ("-", "parse_variant"), ("-", "is_input_fieldless_enum"),
    ("GenStruct", "from_datastruct"), ("GenEnum", "from_data_enum"), ("GenFieldlessEnum", "from_data_enum"),
];
const COPY: &[&str] = &["ParserEndianness", "MetaAttrType"];

fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn txt(t: impl ToTokens) -> String { t.to_token_stream().to_string().replace(' ', "") }
fn drop_ty(t: &Type) -> bool { txt(t) == "String" || txt(t) == "Option<String>" }

/// last segment, or the last two of Type::name
fn short(p: &mut Path) {
    let n = p.segments.len();
    if n < 2 { return; }
    let up = p.segments[n - 2].ident.to_string().chars().next().map_or(false, |c| c.is_uppercase());
    let k = if up { n - 2 } else { n - 1 };
    let segs: Vec<PathSegment> = p.segments.iter().skip(k).cloned().collect();
    p.leading_colon = None;
    p.segments = segs.into_iter().collect();
}
struct Paths;
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) { visit_mut::visit_path_mut(self, p); short(p); }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let s = p.path.segments.last().unwrap().clone();
            if s.ident == "Result" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(x) = a.args.first() { *t = parse_quote!(core::result::Result<#x, NvError>); } } }
            else if s.ident == "Span" { *t = parse_quote!(NvSpan); }
        }
    }
}

struct Vars(Vec<String>, bool);
impl<'a> Visit<'a> for Vars {
    fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.0.push(i.to_string()); } visit::visit_expr_path(self, p); }
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = txt(&m.path);
        if n == "quote" { self.0.extend(interp(&m.tokens)); } else { self.1 = true; }
    }
}
/// the variables interpolated by a quote!
fn interp(t: &TokenStream) -> Vec<String> {
    let mut out = vec![]; let mut hash = false;
    for x in t.clone() {
        match x {
            proc_macro2::TokenTree::Punct(p) if p.as_char() == '#' => { hash = true; continue; }
            proc_macro2::TokenTree::Ident(i) => if hash { out.push(i.to_string()); },
            proc_macro2::TokenTree::Group(g) => out.extend(interp(&g.stream())),
            _ => {}
        }
        hash = false;
    }
    out
}
fn lhs(l: &Local) -> Option<Ident> { match &l.pat { Pat::Ident(p) => Some(p.ident.clone()), Pat::Type(t) => if let Pat::Ident(p) = &*t.pat { Some(p.ident.clone()) } else { None }, _ => None } }

/// E.arg().unwrap() or a variable bound to it, cloned
fn is_arg(e: &Expr, args: &[String]) -> bool {
    match e {
        Expr::MethodCall(m) if m.method == "clone" || m.method == "to_owned" => is_arg(&m.receiver, args),
        Expr::MethodCall(m) if m.method == "unwrap" || m.method == "expect" => if let Expr::MethodCall(r) = &*m.receiver { r.method == "arg" } else { false },
        Expr::Path(p) => p.path.get_ident().map_or(false, |i| args.contains(&i.to_string())),
        Expr::Paren(p) => is_arg(&p.expr, args),
        _ => false,
    }
}
fn makes_tokens(e: &Expr) -> bool { struct Q(bool); impl<'a> Visit<'a> for Q {
        fn visit_macro(&mut self, m: &'a Macro) { if txt(&m.path).starts_with("quote") { self.0 = true; } }
        fn visit_expr_call(&mut self, c: &'a ExprCall) { let n = txt(&c.func); if n.starts_with("quote_") || n.ends_with("Ident::new") || n.ends_with("tokens") { self.0 = true; } visit::visit_expr_call(self, c); } }
    let mut q = Q(false); q.visit_expr(e); q.0 }

struct Tr { bad: Vec<String>, kept: Vec<(String, Vec<String>)>, loops: usize, strs: Vec<String>, refs: Vec<String>, fields: Vec<String>, pieces: bool, opaque_meta: bool, closures: bool,
    acc: Vec<String>, item: Option<String>, config: String, marks: Vec<String> }

impl Tr {
    fn piece(&mut self, b: &mut Block) {
        // inside one arm or block: lets that make tokens, appended afterwards
        let mut made: Vec<(String, Vec<String>)> = vec![]; let mut args: Vec<String> = vec![];
        let Some(item) = self.item.clone() else { return };
        let mut out = vec![];
        for mut s in b.stmts.drain(..) {
            if let Stmt::Local(l) = &s {
                if let (Some(n), Some(i)) = (lhs(l), &l.init) {
                    if is_arg(&i.expr, &args) { args.push(n.to_string()); }
                    else if makes_tokens(&i.expr) { let mut v = Vars(vec![], false); v.visit_expr(&i.expr); if v.1 { self.bad.push("macro".into()); } made.push((n.to_string(), v.0)); continue; }
                }
            }
            if let Stmt::Expr(Expr::MethodCall(m), _) = &mut s {
                if m.method == "extend" && self.acc.contains(&txt(&m.receiver)) {
                    let a = m.args[0].clone();
                    if !is_arg(&a, &args) {
                        let mut v = Vars(vec![], false); v.visit_expr(&a);
                        let mut names = v.0; let mut k = 0;
                        while k < names.len() { if let Some((_, d)) = made.iter().find(|(n, _)| *n == names[k]) { for x in d { if !names.contains(x) { names.push(x.clone()); } } } k += 1; }
                        let fine = names.iter().all(|n| n == &item || n == &self.config || args.contains(n) || made.iter().any(|(m, _)| m == n) || n.starts_with("quote"));
                        if fine && !v.1 { let (it, cf) = (id(&item), id(&self.config)); m.args = parse_quote!(nv_piece(#it, #cf)); } else { self.bad.push(format!("appends {}", txt(&a))); }
                    } else if let Expr::Path(_) = &a { let x = a.clone(); m.args = parse_quote!(#x.clone()); }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
}
impl VisitMut for Tr {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in &b.stmts { if let Stmt::Local(l) = s { if let (Some(n), Some(i)) = (lhs(l), &l.init) {
            let t = txt(&i.expr);
            if t.ends_with("TokenStream::new()") { self.acc.push(n.to_string()); }
        } } }
        for s in b.stmts.iter_mut() { if let Stmt::Local(l) = s { if let Pat::Type(t) = &l.pat { if txt(&t.ty).contains('_') { l.pat = (*t.pat).clone(); } } } }
        if self.pieces { self.piece(b); }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { self.closures = true; visit_mut::visit_expr_closure_mut(self, c); }
    fn visit_macro_mut(&mut self, m: &mut Macro) { self.bad.push(format!("macro {}", txt(&m.path))); }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let n = txt(&m.mac.path);
            if ["unreachable", "panic", "unimplemented", "todo"].contains(&n.as_str()) { let f = id(if n == "unreachable" { "nv_unreachable" } else { "nv_refuse" }); *s = if m.semi_token.is_some() { parse_quote!(#f::<()>();) } else { Stmt::Expr(parse_quote!(#f()), None) }; return; }
            if ["eprintln", "println", "debug_assert", "assert", "assert_eq", "assert_ne"].contains(&n.as_str()) { *s = parse_quote!(();); return; }
            if n == "quote" || n == "vec" || n == "format" { let mm = &m.mac; let e: Expr = parse_quote!(#mm); *s = Stmt::Expr(e, m.semi_token); }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let n = txt(&m.mac.path);
            match n.as_str() {
                "unreachable" => { *e = parse_quote!(nv_unreachable()); return; }
                "panic" | "unimplemented" | "todo" => { *e = parse_quote!(nv_refuse()); return; }
                "quote" => { *e = parse_quote!(nv_quote()); return; }
                "vec" if m.mac.tokens.is_empty() => { *e = parse_quote!(Vec::new()); return; }
                "format" => { *e = parse_quote!(nv_string()); return; }
                "matches" => { let t: TokenStream = m.mac.tokens.clone(); struct M(Expr, Pat); impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream) -> Result<Self> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let _ = i.parse::<Option<Token![,]>>()?; Ok(M(e, p)) } }
                    if let Ok(M(x, p)) = parse2::<M>(t) { *e = parse_quote!(match #x { #p => true, _ => false }); visit_mut::visit_expr_mut(self, e); return; } }
                _ => {}
            }
        }
        // LIST.iter().any(|m| m.is_type(K))
        if let Some((l, k)) = any_kind(e) { *e = parse_quote!(nv_any(&#l, #k)); return; }
        if let Expr::Call(c) = e {
            let f = txt(&c.func);
            if f.ends_with("Error::new") { *e = parse_quote!(nv_err()); return; }
            if f.ends_with("Span::call_site") { *e = parse_quote!(nv_span()); return; }
            if f.ends_with("parse_str::<Type>") { c.func = parse_quote!(nv_parse_type_str); }
            if f.ends_with("parse2::<Expr>") { c.func = parse_quote!(nv_parse_expr); }
            if f.ends_with("parse2::<Type>") { c.func = parse_quote!(nv_parse_type); }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if n == "span" && m.args.is_empty() { *e = parse_quote!(nv_span()); return; }
            if n == "to_string" && m.args.is_empty() {
                if let Expr::Lit(_) = &*m.receiver { let r = &m.receiver; *e = parse_quote!(nv_lit_string(#r)); return; }
                m.method = id("nv_to_string");
            }
            if n == "to_token_stream" && m.args.is_empty() && self.opaque_meta { *e = parse_quote!(nv_quote()); return; }
            // a panic of the macro is a refusal, like an error
            if (n == "expect" || n == "unwrap") && matches!(&*m.receiver, Expr::Call(c) if ["parse_nom_", "from_meta_list", "parse_str", "parse2"].iter().any(|x| txt(&c.func).contains(x))) { let r = m.receiver.clone(); *e = parse_quote!(#r?); visit_mut::visit_expr_mut(self, e); return; }
            if n == "unwrap" && matches!(&*m.receiver, Expr::MethodCall(c) if c.method == "cloned") && self.opaque_meta { let r = m.receiver.clone(); *e = parse_quote!(nv_or_refuse(#r)); visit_mut::visit_expr_mut(self, e); return; }
            if n == "unwrap_or_else" && txt(&m.args[0]).starts_with("||panic!") { let r = m.receiver.clone(); *e = parse_quote!(nv_or_refuse(#r)); visit_mut::visit_expr_mut(self, e); return; }
            // LIST.iter().find(|m| m.attr_type == K)   and   .find(|m| !m.acceptable_xxx())
            if n == "find" { if let (Expr::MethodCall(r), Some(Expr::Closure(c))) = (&*m.receiver, m.args.first()) { if r.method == "iter" {
                let l = (*r.receiver).clone();
                let b = match &*c.body { Expr::Block(b) if b.block.stmts.len() == 1 => if let Stmt::Expr(x, None) = &b.block.stmts[0] { x.clone() } else { (*c.body).clone() }, x => x.clone() };
                if let Some(k) = kind_eq(&b) { *e = parse_quote!(nv_find(&#l, #k)); return; }
                if let Expr::Unary(u) = &b { if let (UnOp::Not(_), Expr::MethodCall(x)) = (&u.op, &*u.expr) {
                    if x.method == "acceptable_tla" { *e = parse_quote!(nv_find_not_tla(&#l)); return; }
                    if x.method == "acceptable_fla" { *e = parse_quote!(nv_find_not_fla(&#l)); return; } } }
            } } }
            if n == "and_then" && (txt(&m.args[0]) == "MetaAttr::arg" || txt(&m.args[0]) == "|m|m.arg()") { let r = m.receiver.clone(); *e = parse_quote!(nv_arg_of(#r)); visit_mut::visit_expr_mut(self, e); return; }
            if n == "into" && m.args.is_empty() { let r = &m.receiver; let r2: Expr = (**r).clone(); *e = parse_quote!(Box::new(#r2)); visit_mut::visit_expr_mut(self, e); return; }
        }
        if let Expr::MethodCall(c) = e { if c.method == "collect" { if let Expr::MethodCall(m) = &*c.receiver { if m.method == "map" && txt(&m.args).contains("quote!") { *e = parse_quote!(nv_token_list()); return; } } } }
        if let Some(a) = attr_chain(e) { *e = parse_quote!(nv_attrs(#a)?); return; }
        if let Some((l, p, b)) = map_collect(e) {
            let v = id(&format!("nv_v{}", self.loops));
            *e = parse_quote!({ let mut #v = Vec::new(); for #p in #l.iter() { let nv_x = #b?; #v.push(nv_x); } #v });
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        if let Expr::Match(m) = e { if let Some(x) = str_match(m) { *e = x; visit_mut::visit_expr_mut(self, e); return; } }
        if let Expr::Match(m) = e { if self.opaque_meta { for a in m.arms.iter_mut() { if txt(&a.body).contains("parse_") { a.body = parse_quote!(nv_content(meta)?); } } } }
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                let p = txt(&l.pat);
                if p == "Some(TokenTree::Literal(_))" {
                    if let Expr::MethodCall(n) = &*l.expr { if n.method == "next" { if let Expr::MethodCall(it) = &*n.receiver { if it.method == "into_iter" {
                        let r = match &*it.receiver { Expr::MethodCall(c) if c.method == "clone" => (*c.receiver).clone(), x => x.clone() };
                        i.cond = parse_quote!(#r.nv_first_lit());
                    } } } }
                }
            }
        }
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (txt(&b.right).ends_with("Fields::Unit") || txt(&b.left).ends_with("Fields::Unit")) {
                let x = if txt(&b.right).ends_with("Fields::Unit") { &b.left } else { &b.right };
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(#x.nv_is_unit()) } else { parse_quote!(!#x.nv_is_unit()) };
                return;
            }
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                let strs = self.strs.clone();
                let lit = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) || strs.contains(&txt(x));
                let (l, r) = (&b.left, &b.right);
                let ne = matches!(b.op, BinOp::Ne(_));
                let n: Option<Expr> = if lit(r) { Some(parse_quote!(nv_str_eq(&#l, #r))) } else if lit(l) { Some(parse_quote!(nv_str_eq(&#r, #l))) } else { None };
                if let Some(n) = n { *e = if ne { parse_quote!(!#n) } else { n }; }
            }
        }
        if let Expr::Struct(s) = e {
            let name = s.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
            if let Some((_, k)) = self.kept.iter().find(|(n, _)| *n == name) { s.fields = s.fields.iter().filter(|f| k.contains(&txt(&f.member))).cloned().collect(); }
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x) = ((*l.pat).clone(), (*l.expr).clone());
                let of = match &x { Expr::MethodCall(m) => txt(&m.receiver), _ => "?".into() };
                let mark = format!("while {} {}", self.loops, of); self.loops += 1; self.marks.push(mark.clone());
                self.visit_block_mut(&mut w.body);
                let body = &w.body.stmts;
                *e = parse_quote!(loop { nv_mark(#mark); if let #p = #x { #(#body)* } else { break; } });
                return;
            }
            self.bad.push("while loop".into());
        }
        if let Expr::ForLoop(f) = e {
            let mut list = &*f.expr; let mut enumerate = false; let mut iter = false;
            loop { match list {
                Expr::Reference(r) => list = &r.expr,
                Expr::Paren(r) => list = &r.expr,
                Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => { iter = true; list = &m.receiver },
                Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => { enumerate = true; list = &m.receiver },
                _ => break,
            } }
            let _ = iter;
            let (mut list, pat) = (list.clone(), f.pat.clone());
            let lname = txt(&list);
            let over_fields = self.fields.contains(&lname) || lname.ends_with(".variants");
            if over_fields { list = parse_quote!(#list.nv_iter()); } else if !self.refs.contains(&lname) && matches!(list, Expr::Path(_) | Expr::Field(_)) { list = parse_quote!(&#list); }
            let n = self.loops; self.loops += 1;
            let (k, l) = (id(&format!("nv_k{}", n)), id(&format!("nv_l{}", n)));
            let names: Vec<String> = { struct P(Vec<String>); impl<'a> Visit<'a> for P { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); } } let mut p = P(vec![]); p.visit_pat(&pat); p.0 };
            self.item = names.last().cloned();
            let pushes: Vec<String> = { struct P(Vec<String>); impl<'a> Visit<'a> for P { fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { if m.method == "push" { self.0.push(txt(&m.receiver)); } visit::visit_expr_method_call(self, m); } } let mut p = P(vec![]); p.visit_block(&f.body); p.0 };
            let sets: Vec<String> = { struct P(Vec<String>); impl<'a> Visit<'a> for P { fn visit_expr_assign(&mut self, a: &'a ExprAssign) { self.0.push(txt(&a.left)); visit::visit_expr_assign(self, a); } } let mut p = P(vec![]); p.visit_block(&f.body); p.0 };
            let mark = format!("for {} {} pushes {} sets {} acc {}", n, lname, pushes.join(","), sets.join(","), self.acc.join(",")); self.marks.push(mark.clone());
            self.visit_block_mut(&mut f.body);
            let body = &f.body.stmts;
            let bind: Stmt = if enumerate { parse_quote!(let #pat = (#k, &#l[#k]);) } else { parse_quote!(let #pat = &#l[#k];) };
            *e = parse_quote!({ let #l = #list; let mut #k: usize = 0; while #k < #l.len() { nv_mark(#mark); #bind #k = #k + 1; #(#body)* } });
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::BitAnd(_)) { b.op = BinOp::And(Default::default()); } else if matches!(b.op, BinOp::BitOr(_)) { b.op = BinOp::Or(Default::default()); }
        }
    }
}
fn kind_eq(e: &Expr) -> Option<Path> {
    let mut k = match e {
        Expr::MethodCall(m) if m.method == "is_type" => if let Some(Expr::Path(p)) = m.args.first() { p.path.clone() } else { return None },
        Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => match (&*b.left, &*b.right) { (Expr::Field(_), Expr::Path(p)) | (Expr::Path(p), Expr::Field(_)) => p.path.clone(), _ => return None },
        _ => return None };
    short(&mut k); Some(k)
}
/// the attribute list of a declaration:  attrs.iter().filter_map(..)..collect::<..>()?..collect()
fn attr_chain(e: &Expr) -> Option<Expr> {
    let mut x = e; let mut seen = false; let mut q = false;
    loop { match x {
        Expr::MethodCall(m) => { if txt(m).contains("meta_from_nom_attribute") { seen = true; } if m.method == "iter" { return if seen && q { Some((*m.receiver).clone()) } else { None }; } x = &m.receiver; }
        Expr::Try(t) => { q = true; x = &t.expr; }
        _ => return None,
    } }
}
/// LIST.iter().map(|p| BODY).collect::<Result<..>>()?
fn map_collect(e: &Expr) -> Option<(Expr, Pat, Expr)> {
    if let Expr::Try(t) = e { if let Expr::MethodCall(c) = &*t.expr { if c.method == "collect" && txt(&c.turbofish).contains("Result") { if let Expr::MethodCall(m) = &*c.receiver { if m.method == "map" {
        if let (Expr::MethodCall(i), Some(Expr::Closure(f))) = (&*m.receiver, m.args.first()) { if i.method == "iter" && f.inputs.len() == 1 { return Some(((*i.receiver).clone(), f.inputs[0].clone(), (*f.body).clone())); } }
    } } } } }
    None
}
fn lits(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
        Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(lits(c)?); } Some(v) }
        Pat::Paren(p) => lits(&p.pat),
        _ => None,
    }
}
/// match S { "a" | "b" => X, _ => Y }  as  if nv_str_eq(..) {X} else {Y}
fn str_match(m: &ExprMatch) -> Option<Expr> {
    let mut s = &*m.expr;
    loop { match s { Expr::MethodCall(c) if c.method == "as_ref" || c.method == "as_str" => s = &c.receiver, Expr::Reference(r) => s = &r.expr, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => s = &u.expr, Expr::Paren(p) => s = &p.expr, _ => break } }
    let n = m.arms.len();
    if n < 2 || m.arms.iter().any(|a| a.guard.is_some()) { return None; }
    let mut e: Expr = match &m.arms[n - 1].pat { Pat::Wild(_) => { let b = &m.arms[n - 1].body; parse_quote!({ #b }) } _ => return None };
    for a in m.arms[..n - 1].iter().rev() {
        let ls = lits(&a.pat)?; let b = &a.body;
        let c: Vec<TokenStream> = ls.iter().map(|l| quote!(nv_str_eq(&nv_s, #l))).collect();
        let els = &e;
        e = parse_quote!({ if #(#c)||* { #b } else { #els } });
    }
    Some(parse_quote!({ let nv_s = #s; #e }))
}
fn any_kind(e: &Expr) -> Option<(Expr, Path)> {
    if let Expr::MethodCall(m) = e { if m.method == "any" { if let (Expr::MethodCall(r), Some(Expr::Closure(c))) = (&*m.receiver, m.args.first()) {
        if r.method == "iter" {
            let k = match &*c.body {
                Expr::MethodCall(m) if m.method == "is_type" => if let Some(Expr::Path(p)) = m.args.first() { Some(p.path.clone()) } else { None },
                Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => match (&*b.left, &*b.right) { (Expr::Field(_), Expr::Path(p)) | (Expr::Path(p), Expr::Field(_)) => Some(p.path.clone()), _ => None },
                _ => None };
            if let Some(mut k) = k { short(&mut k); return Some(((*r.receiver).clone(), k)); }
        } } } }
    None
}

struct Found { types: Vec<(String, TokenStream)>, fns: Vec<(String, ItemFn)>, kept: Vec<(String, Vec<String>)> }
fn scan(items: &[Item], f: &mut Found) {
    for it in items {
        match it {
            Item::Mod(m) => if let Some((_, i)) = &m.content { scan(i, f) },
            Item::Enum(e) if TYPES.contains(&txt(&e.ident).as_str()) => {
                let mut e = e.clone(); e.attrs.clear(); e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() { v.attrs.clear(); }
                Paths.visit_item_enum_mut(&mut e);
                let n = &e.ident;
                let mut t = quote!(#e impl Clone for #n { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } });
                if COPY.contains(&n.to_string().as_str()) { t = quote!(#t impl Copy for #n {}
                    impl vstd::std_specs::cmp::PartialEqSpecImpl for #n { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &#n) -> bool { *self == *other } }
                    impl PartialEq for #n { #[verifier::external_body] fn eq(&self, other: &#n) -> (r: bool) { unimplemented!() } }); }
                f.types.push((n.to_string(), t));
            }
            Item::Struct(s) if TYPES.contains(&txt(&s.ident).as_str()) => {
                let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub);
                let name = s.ident.to_string();
                Paths.visit_item_struct_mut(&mut s);
                match &mut s.fields {
                    Fields::Named(n) => {
                        n.named = n.named.iter().filter(|x| !(name == "Config" && drop_ty(&x.ty)) && !(name == "MetaAttr" && txt(&x.ty) == "TokenStream") && !(name == "Config" && txt(&x.ty).contains("TokenStream"))).cloned().collect();
                        for x in n.named.iter_mut() { x.attrs.clear(); x.vis = parse_quote!(pub); if txt(&x.ty) == "Option<Vec<WherePredicate>>" { x.ty = parse_quote!(NvWhere); } }
                        f.kept.push((name.clone(), n.named.iter().map(|x| x.ident.as_ref().unwrap().to_string()).collect()));
                        if name == "Config" { n.named.push(Field::parse_named.parse2(quote!(pub nv_rest: NvRest)).unwrap()); }
                    }
                    Fields::Unnamed(n) => for x in n.unnamed.iter_mut() { x.attrs.clear(); x.vis = parse_quote!(pub); },
                    _ => {}
                }
                let n = &s.ident;
                f.types.push((name, quote!(#s impl Clone for #n { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } })));
            }
            Item::Fn(x) => f.fns.push(("-".into(), x.clone())),
            Item::Impl(i) if i.trait_.is_none() || (txt(&i.self_ty) == "MetaAttr" && txt(&i.trait_.as_ref().unwrap().1).starts_with("TryFrom")) => for x in &i.items { if let ImplItem::Fn(x) = x {
                f.fns.push((txt(&i.self_ty), ItemFn { attrs: vec![], vis: parse_quote!(pub), sig: x.sig.clone(), block: Box::new(x.block.clone()) })); } },
            _ => {}
        }
    }
}
use syn::parse::Parser as _;

pub fn run(dir: &str) -> String {
    let mut f = Found { types: vec![], fns: vec![], kept: vec![] };
    let mut stack = vec![std::path::PathBuf::from(dir)];
    let mut files = vec![];
    while let Some(d) = stack.pop() {
        for e in std::fs::read_dir(d).expect("read_dir") { let p = e.unwrap().path(); if p.is_dir() { stack.push(p) } else if p.extension().map(|x| x == "rs").unwrap_or(false) { files.push(p) } }
    }
    files.sort();
    for p in files { if let Ok(x) = syn::parse_file(&std::fs::read_to_string(&p).unwrap()) { scan(&x.items, &mut f); } }
    let mut out = String::new();
    for (n, t) in &f.types { writeln!(out, "//@TYPE {}\n{}", n, t.to_string().replace('\n', " ")).unwrap(); }
    for (ty, x) in &f.fns {
        let n = x.sig.ident.to_string();
        if !WANT.contains(&(ty.as_str(), n.as_str())) { continue; }
        let mut x = x.clone();
        x.attrs.clear(); x.vis = parse_quote!(pub);
        let mut tr = Tr { bad: vec![], kept: f.kept.clone(), loops: 0, strs: vec![], refs: vec![], fields: vec![], pieces: n == "get_pre_post_exec", opaque_meta: n == "try_from", closures: false, acc: vec![], item: None, config: "config".into(), marks: vec![] };
        for a in &x.sig.inputs { if let FnArg::Typed(t) = a {
            if txt(&t.ty) == "&Fields" || txt(&t.ty) == "&syn::Fields" { tr.fields.push(txt(&t.pat)); }
            if let Type::Reference(_) = &*t.ty { tr.refs.push(txt(&t.pat)); }
            if txt(&t.ty) == "&str" { tr.strs.push(txt(&t.pat)); }
            if txt(&t.ty).ends_with("Config") { tr.config = txt(&t.pat); }
        } }
        tr.visit_block_mut(&mut x.block);
        // parameters of the kinds the constructors drop
        Paths.visit_block_mut(&mut x.block);
        Paths.visit_signature_mut(&mut x.sig);
        let (sig, body) = (x.sig.to_token_stream().to_string(), x.block.to_token_stream().to_string());
        writeln!(out, "//@FUN {} {} wanted", n, ty).unwrap();
        for b in &tr.bad { writeln!(out, "//@BAD {} {}", n, b).unwrap(); }
        if tr.closures { writeln!(out, "//@CLOSURE {}", n).unwrap(); }
        writeln!(out, "//@SIG {}\n//@BODY {}", sig.replace('\n', " "), body.replace('\n', " ")).unwrap();
    }
    out
}
