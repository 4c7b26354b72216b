// Appended (as a child module) to a copy of nom-derive-impl/src/structs.rs: the real functions run on enumerated attribute lists,
// types and configurations, against the same contracts that nv/treecheck.py gives the verifier.
use super::*;
use crate::meta::attr::{MetaAttr as A, MetaAttrType as K};
use crate::parsertree::ParserExpr as P;
pub(crate) type R = std::result::Result<P, ()>;

pub(crate) fn say(f: &str, input: String, got: String, want: String) { println!("FAIL\t{}\t{}\t{}\t{}", f, input.replace('\n', " "), got.replace('\n', " "), want); }
pub(crate) fn s(t: &TokenStream) -> String { t.to_string() }
pub(crate) fn m(k: K, a: &str) -> A { A::new(k, if k.takes_argument() { Some(a.parse().unwrap()) } else { None }, TokenStream::new()) }
pub(crate) fn show(l: &[A]) -> String { l.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ") }
pub(crate) fn asks(l: &[A], k: K) -> bool { l.iter().any(|a| a.attr_type == k) }
pub(crate) fn contradictory(l: &[A]) -> bool { [K::BigEndian, K::LittleEndian, K::SetEndian].iter().filter(|k| asks(l, **k)).count() > 1 }
pub(crate) fn order(l: &[A], c: &Config) -> ParserEndianness {
    if asks(l, K::BigEndian) { ParserEndianness::BigEndian } else if asks(l, K::LittleEndian) { ParserEndianness::LittleEndian } else if asks(l, K::SetEndian) { ParserEndianness::SetEndian }
    else if c.object_endianness != ParserEndianness::Unspecified { c.object_endianness } else { c.global_endianness }
}
pub(crate) fn ty_is(t: &TypeItem, ty: &Type) -> bool { t.0.to_token_stream().to_string() == ty.to_token_stream().to_string() }
/// the name of a type, and what W<..> holds
pub(crate) fn first(ty: &Type) -> Option<String> { match ty { Type::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()), Type::Array(a) => first(&a.elem), _ => None } }
pub(crate) fn inside(ty: &Type, w: &str) -> Option<TokenStream> { match ty { Type::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].ident == w => match &p.path.segments[0].arguments { PathArguments::AngleBracketed(a) => Some(a.args.to_token_stream()), _ => None }, _ => None } }
pub(crate) fn leaf(r: &R, ty: &Type, all: &[A], c: &Config) -> bool {
    match first(ty) {
        None => r.is_err(),
        Some(n) => if n == "PhantomData" { matches!(r, Ok(P::PhantomData)) } else if contradictory(all) { r.is_err() } else {
            match (order(all, c), r) {
                (ParserEndianness::BigEndian, Ok(P::CallParseBE(t))) | (ParserEndianness::LittleEndian, Ok(P::CallParseLE(t))) | (ParserEndianness::Unspecified, Ok(P::CallParse(t))) => ty_is(t, ty),
                (ParserEndianness::SetEndian, Ok(x)) => !matches!(x, P::CallParse(_) | P::CallParseBE(_) | P::CallParseLE(_)),
                _ => false,
            } },
    }
}
pub(crate) fn lit_refused(a: &A) -> bool {
    let t = a.arg().unwrap();
    if let Some(TokenTree::Literal(_)) = t.clone().into_iter().next() { syn::parse2::<Expr>(t.clone()).is_err() } else { false }
}
pub(crate) fn inner(ty: &Type, w: &str) -> std::result::Result<Type, ()> { inside(ty, w).ok_or(()).and_then(|t| syn::parse2::<Type>(t).map_err(|_| ())) }
pub(crate) fn fits(r: &R, id: Option<&Ident>, ty: &Type, l: &[A], all: &[A], c: &Config) -> bool {
    if l.is_empty() { return leaf(r, ty, all, c); }
    let (a, rest) = (&l[0], &l[1..]);
    let arg = || s(a.arg().unwrap());
    let err = Err(());
    macro_rules! under { ($p:pat => $b:ident, $ok:expr, $t:expr, $e:expr) => { match r { Ok($p) => $ok && fits(&Ok((**$b).clone()), id, $t, rest, all, c), Ok(_) => false, Err(_) => $e || fits(&err, id, $t, rest, all, c) } } }
    macro_rules! inside { ($w:expr, $v:ident) => { match inner(ty, $w) { Err(_) => r.is_err(), Ok(t2) => under!(P::$v(b, t) => b, s(t) == arg(), &t2, false) } } }
    match a.attr_type {
        K::Tag => matches!(r, Ok(P::Tag(t)) if s(t) == arg()),
        K::Take => if lit_refused(a) { r.is_err() } else { matches!(r, Ok(P::Take(t)) if s(t) == arg()) },
        K::Value => matches!(r, Ok(P::Value(t)) if s(t) == arg()),
        K::Parse => matches!(r, Ok(P::Raw(t)) if s(t) == arg()),
        K::Ignore => match r { Ok(e) => first(ty).is_some() && last(e).is_none(), Err(_) => first(ty).is_none() },
        K::Complete => under!(P::Complete(b) => b, true, ty, false),
        K::Into => under!(P::Into(b) => b, true, ty, false),
        K::Map => under!(P::Map(b, t) => b, s(t) == arg() && !lit_refused(a), ty, lit_refused(a)),
        K::Debug => under!(P::DbgDmp(b, i) => b, id == Some(i), ty, id.is_none()),
        K::Verify => under!(P::Verify(b, i, t) => b, s(t) == arg() && id == Some(i), ty, id.is_none()),
        K::Cond => inside!("Option", Cond),
        K::Count => inside!("Vec", Count),
        K::LengthCount => inside!("Vec", LengthCount),
        _ => fits(r, id, ty, rest, all, c),
    }
}
pub(crate) fn given(t: &P, e: ParserEndianness) -> P {
    let g = |b: &P| Box::new(given(b, e));
    match t {
        P::CallParse(i) => if e == ParserEndianness::BigEndian { P::CallParseBE(i.clone()) } else { P::CallParseLE(i.clone()) },
        P::Complete(b) => P::Complete(g(b)), P::Cond(b, c) => P::Cond(g(b), c.clone()), P::Count(b, c) => P::Count(g(b), c.clone()), P::DbgDmp(b, c) => P::DbgDmp(g(b), c.clone()),
        P::Into(b) => P::Into(g(b)), P::LengthCount(b, c) => P::LengthCount(g(b), c.clone()), P::Map(b, c) => P::Map(g(b), c.clone()), P::Verify(b, i, c) => P::Verify(g(b), i.clone(), c.clone()),
        x => x.clone(),
    }
}
pub(crate) fn last(t: &P) -> Option<String> {
    match t {
        P::CallParse(i) | P::CallParseBE(i) | P::CallParseLE(i) => Some(i.to_token_stream().to_string()),
        P::Complete(b) | P::Cond(b, _) | P::Count(b, _) | P::DbgDmp(b, _) | P::Into(b) | P::LengthCount(b, _) | P::Map(b, _) | P::Verify(b, _, _) => last(b),
        _ => None,
    }
}
pub(crate) fn base() -> Config { Config::from_meta_list(&[]).unwrap_or_else(|_| panic!()) }
pub(crate) fn same_cfg(a: &Config, b: &Config) -> bool { format!("{:?}", a) == format!("{:?}", b) }
pub(crate) fn types() -> Vec<Type> { ["u8", "Option<u16>", "Vec<u16>", "Option<Vec<u32>>", "Vec<Option<u8>>", "Vec<Vec<u8>>", "PhantomData<u8>", "[u16; 2]", "a::B", "T"].iter().map(|t| parse_str(t).unwrap()).collect() }
const KS: &[(K, &str)] = &[(K::Tag, "b\"x\""), (K::Take, "2"), (K::Take, "2 3"), (K::Take, "n"), (K::Value, "v"), (K::Parse, "p"), (K::Ignore, ""), (K::Complete, ""), (K::Debug, ""), (K::Cond, "c > 1"), (K::Count, "n"), (K::Into, ""), (K::LengthCount, "q"), (K::Map, "|x| x"), (K::Map, "1 2"),
    (K::Verify, "x == 1"), (K::BigEndian, ""), (K::LittleEndian, ""), (K::SetEndian, "e"), (K::AlignBefore, "4"), (K::PostExec, "f();")];
pub(crate) fn lists() -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]]; let n = KS.len();
    for a in 0..n { out.push(vec![a]); for b in 0..n { out.push(vec![a, b]); for c in 0..n { out.push(vec![a, b, c]); } } }
    out
}
pub(crate) fn list(ix: &[usize]) -> Vec<A> { ix.iter().map(|k| m(KS[*k].0, KS[*k].1)).collect() }
pub(crate) fn orders() -> [ParserEndianness; 4] { [ParserEndianness::Unspecified, ParserEndianness::BigEndian, ParserEndianness::LittleEndian, ParserEndianness::SetEndian] }
pub(crate) fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }

pub fn run_parsers() {
    let name: Ident = parse_str("f").unwrap();
    let (mut bad_p, mut bad_w, mut bad_l, mut bad_i, mut bad_f) = (false, false, false, false, false);
    let mut n = 0u64;
    for ix in lists() {
        let l = list(&ix);
        for (ti, ty) in types().iter().enumerate() { for id in [Some(&name), None] { for (oi, o) in orders().iter().enumerate() {
            if ix.len() == 3 && (id.is_none() && ti > 1 || oi != (ix[0] + ix[2]) % 4) { continue; }
            let mut c = base(); c.object_endianness = *o; c.complete = ti % 2 == 1; c.debug = ti % 3 == 1;
            n += 1;
            let r = quiet(|| get_parser(id, ty, &l, &l, &c));
            let Some(r) = r else { if !bad_p { bad_p = true; say("get_parser", format!("[{}] on {}", show(&l), ty.to_token_stream()), "a panic".into(), "a parser or an error".into()); } continue };
            let r: R = r.map_err(|_| ());
            if !fits(&r, id, ty, &l, &l, &c) && !bad_p { bad_p = true; say("get_parser", format!("#[nom({})] on {} {}, structure order {:?}", show(&l), if id.is_some() { "field f:" } else { "unnamed field" }, ty.to_token_stream(), o), r.as_ref().map_or("an error".into(), |p| p.to_token_stream().to_string()), "the attributes in their order".into()); }
            if ix.len() < 3 { if let Some(i) = id {
                let f = Field { attrs: vec![], vis: Visibility::Inherited, mutability: FieldMutability::None, ident: Some(i.clone()), colon_token: None, ty: ty.clone() };
                let g = quiet(|| get_field_parser(&f, &l, &c)).map(|r| r.map_err(|_| ()));
                if !bad_f && !g.as_ref().map_or(false, |r| fits(r, id, ty, &l, &l, &c)) { bad_f = true; say("get_field_parser", format!("#[nom({})] on field f: {}, structure order {:?}", show(&l), ty.to_token_stream(), o), format!("{:?}", g.map(|r| r.map(|p| p.to_token_stream().to_string()))), "the attributes in their order".into()); }
                if ix.is_empty() { let g = quiet(|| get_type_parser(ty, &l, &c)).map(|r| r.map_err(|_| ())); if !g.as_ref().map_or(false, |r| leaf(r, ty, &l, &c)) { say("get_type_parser", ty.to_token_stream().to_string(), format!("{:?}", g), "the type's parser".into()); } }
            } }
            if let Ok(t) = r {
                for e in [ParserEndianness::BigEndian, ParserEndianness::LittleEndian] {
                    let g = quiet(|| t.with_endianness(e));
                    let w = given(&t, e);
                    if g.as_ref().map(|g| format!("{:?}", g)) != Some(format!("{:?}", w)) && !bad_w { bad_w = true; say("ParserExpr::with_endianness", format!("#[nom({})] on {}, {:?}", show(&l), ty.to_token_stream(), e), g.map_or("a panic".into(), |g| g.to_token_stream().to_string()), w.to_token_stream().to_string()); }
                    let item = ParserTreeItem::new(id.cloned(), t.clone());
                    let g = quiet(|| item.with_endianness(e));
                    if g.as_ref().map(|g| (format!("{:?}", g.expr), g.ident.clone())) != Some((format!("{:?}", w), id.cloned())) && !bad_i { bad_i = true; say("ParserTreeItem::with_endianness", format!("item of {}, {:?}", t.to_token_stream(), e), g.map_or("a panic".into(), |g| g.expr.to_token_stream().to_string()), w.to_token_stream().to_string()); }
                }
                let g = t.last_type().map(|t| t.to_token_stream().to_string());
                if g != last(&t) && !bad_l { bad_l = true; say("ParserExpr::last_type", t.to_token_stream().to_string(), format!("{:?}", g), format!("{:?}", last(&t))); }
            }
        } } }
    }
    println!("RUNS\t{}", n);
}
const ES: &[(K, &str)] = &[(K::PreExec, "a();"), (K::PreExec, "b();"), (K::PostExec, "c();"), (K::PostExec, "d();"), (K::AlignAfter, "2"), (K::AlignBefore, "4"), (K::SkipAfter, "1"), (K::SkipBefore, "3"), (K::Move, "5"), (K::MoveAbs, "6"), (K::ErrorIf, "x"), (K::Exact, ""), (K::SetEndian, "e"), (K::Complete, ""), (K::Map, "m")];
const PRE: &[K] = &[K::AlignBefore, K::SkipBefore, K::Move, K::MoveAbs, K::ErrorIf, K::SetEndian, K::PreExec];
const POST: &[K] = &[K::AlignAfter, K::SkipAfter, K::Exact, K::PostExec];
pub fn run_code() {
    let c = base();
    let one: Vec<(String, String)> = ES.iter().map(|(k, a)| { let (p, q) = get_pre_post_exec(&[m(*k, a)], &c); (p.map_or(String::new(), |t| s(&t)), q.map_or(String::new(), |t| s(&t))) }).collect();
    let mut fails = 0; let mut n = 0u64;
    for (i, (k, a)) in ES.iter().enumerate() {
        let (p, q) = &one[i];
        let want = |on: bool, bare: bool, got: &String| if bare { got.is_empty() == false && s(&a.parse().unwrap()) == *got } else { got.is_empty() != on };
        if !want(PRE.contains(k), *k == K::PreExec, p) || !want(POST.contains(k), *k == K::PostExec, q) { say("get_pre_post_exec", show(&[m(*k, a)]), format!("before: {} after: {}", p, q), "code on the attribute's side only, a hook as written".into()); return; }
    }
    let n_ = ES.len();
    let norm = |x: &str| x.parse::<TokenStream>().unwrap().to_string();
    for a in 0..n_ { for b in 0..n_ { for d in 0..=n_ {
        let mut ix = vec![a, b]; if d < n_ { ix.push(d); }
        let l: Vec<A> = ix.iter().map(|k| m(ES[*k].0, ES[*k].1)).collect();
        n += 1;
        let (p, q) = get_pre_post_exec(&l, &c);
        let wp = ix.iter().map(|k| one[*k].0.clone()).collect::<Vec<_>>().join(" "); let wq = ix.iter().map(|k| one[*k].1.clone()).collect::<Vec<_>>().join(" ");
        let (p, q) = (p.map_or(String::new(), |t| s(&t)), q.map_or(String::new(), |t| s(&t)));
        if (norm(&p), norm(&q)) != (norm(&wp), norm(&wq)) && fails == 0 { fails = 1; say("get_pre_post_exec", format!("#[nom({})]", show(&l)), format!("before: {} after: {}", p, q), format!("before: {} after: {}", wp, wq)); }
    } } }
    println!("RUNS\t{}", n);
}
const POOL: [&str; 11] = ["a: u16", "#[nom(BigEndian)] a: u16", "#[nom(SetEndian = \"e\")] a: u16", "#[nom(LittleEndian, Verify = \"*a > 1\")] a: u16", "#[nom(Cond = \"c\")] a: Option<u16>", "#[nom(Complete, SkipBefore = \"1\", AlignAfter = \"2\")] a: u16", "#[nom(Move = \"1\")] a: u16", "#[nom(Map = \"f\")] #[nom(PreExec = \"g();\", PostExec = \"h();\")] a: u16",
    "#[nom(Count = \"3\")] a: Vec<u16>", "#[nom(BigEndian, LittleEndian)] a: u16", "#[nom(PostExec = \"h();\", PostExec = \"i();\")] a: [u16; 2]"];
/// the fields of a declaration as the contract wants them: Ok, or why not
pub(crate) fn fields_check(r: Option<&StructParserTree>, fields: &Fields, mk: &dyn Fn(ParserEndianness) -> Config, o: ParserEndianness) -> std::result::Result<(), String> {
    let (mut dynamic, mut refused) = (false, false);
    let mut expect: Vec<(Vec<A>, Config)> = vec![];
    for f in fields.iter() {
        match crate::meta::parse_nom_attribute(&f.attrs) {
            Err(_) => { refused = true; break; }
            Ok(l) => { dynamic |= asks(&l, K::SetEndian); let k = mk(if dynamic { ParserEndianness::SetEndian } else { o });
                if fits(&Err(()), f.ident.as_ref(), &f.ty, &l, &l, &k) || (k.debug && f.ident.is_none()) { refused = true; break; }
                expect.push((l, k)); }
        }
    }
    let Some(t) = r else { return if refused { Ok(()) } else { Err("an error".into()) } };
    if refused { return Err("accepted, although a field is to be refused".into()); }
    let (unnamed, empty) = (matches!(fields, Fields::Unnamed(_)), matches!(fields, Fields::Unit));
    if t.parsers.len() != fields.len() || t.unnamed != unnamed || t.empty != empty { return Err(format!("{} parsers, unnamed {}, empty {}", t.parsers.len(), t.unnamed, t.empty)); }
    for (p, (f, (l, k))) in t.parsers.iter().zip(fields.iter().zip(expect.iter())) {
        let mut e = p.item.expr.clone(); let mut this = true;
        if k.debug { match e { P::DbgDmp(b, i) => { this &= f.ident.as_ref() == Some(&i); e = *b; } x => { this = false; e = x; } } }
        if k.complete { match e { P::Complete(b) => e = *b, x => { this = false; e = x; } } }
        this &= fits(&Ok(e), f.ident.as_ref(), &f.ty, l, l, k) && p.item.ident == f.ident;
        let (a, b) = get_pre_post_exec(l, k);
        this &= p.pre_exec.as_ref().map(s) == a.as_ref().map(s) && p.post_exec.as_ref().map(s) == b.as_ref().map(s);
        if !this { return Err(format!("field {}: before {:?}, parser {}, after {:?}", f.to_token_stream(), p.pre_exec.as_ref().map(s), p.item.expr.to_token_stream(), p.post_exec.as_ref().map(s))); }
    }
    Ok(())
}
pub(crate) struct Lcg(pub u64);
impl Lcg { pub fn next(&mut self, n: usize) -> usize { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 33) as usize) % n } }
/// all declarations of up to 3 fields of the pool, and random ones of 4 to 9
pub(crate) fn decls(pool: usize, more: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..pool { out.push(vec![a]); for b in 0..pool { out.push(vec![a, b]); for c in 0..pool { out.push(vec![a, b, c]); } } }
    let mut r = Lcg(7);
    for _ in 0..more { let n = 4 + r.next(6); out.push((0..n).map(|_| { let k = r.next(pool); if k == 9 { 0 } else { k } }).collect()); }
    out
}
pub(crate) fn body(ix: &[usize], unnamed: bool) -> String {
    let fs: Vec<String> = ix.iter().enumerate().map(|(k, i)| if unnamed { POOL[*i].replace("a: ", "") } else { POOL[*i].replace("a: ", &format!("a{}: ", k)) }).collect();
    if ix.is_empty() { String::new() } else if unnamed { format!("({})", fs.join(", ")) } else { format!("{{ {} }}", fs.join(", ")) }
}
pub fn run_fields() {
    let mut n = 0u64;
    for ix in decls(POOL.len(), 6000) { for unnamed in [false, true] { for flags in 0..4 { for o in orders() {
        if ix.len() >= 3 && (flags + ix[0]) % 2 == 1 { continue; }
        let decl = format!("struct S {}{}", body(&ix, unnamed), if unnamed || ix.is_empty() { ";" } else { "" });
        let st: ItemStruct = match parse_str(&decl) { Ok(x) => x, Err(_) => continue };
        let mk = |o: ParserEndianness| { let mut c = base(); c.complete = flags & 1 == 1; c.debug = flags & 2 == 2; c.object_endianness = o; c };
        let mut c = mk(o);
        let before = format!("{:?}", c);
        n += 1;
        let what = format!("{} (Complete {}, Debug {}, {:?})", decl, flags & 1, flags >> 1, o);
        let Some((r, c)) = quiet(|| { let r = parse_fields(&st.fields, &mut c); (r, c) }) else { say("parse_fields", what, "a panic".into(), "fields or an error".into()); return };
        if let Err(why) = fields_check(r.as_ref().ok(), &st.fields, &mk, o) { say("parse_fields", what, why, "each field as declared".into()); return; }
        if r.is_ok() && format!("{:?}", c) != before { say("parse_fields", what, "another configuration afterwards".into(), "the configuration kept".into()); return; }
    } } } }
    println!("RUNS\t{}", n);
}
pub const NAMES: &[(&str, K)] = &[("AlignAfter", K::AlignAfter), ("AlignBefore", K::AlignBefore), ("BigEndian", K::BigEndian), ("Complete", K::Complete), ("Cond", K::Cond), ("If", K::Cond), ("Count", K::Count), ("Debug", K::Debug), ("DebugDerive", K::DebugDerive), ("ErrorIf", K::ErrorIf), ("Exact", K::Exact), ("ExtraArgs", K::ExtraArgs), ("GenericErrors", K::GenericErrors),
    ("Ignore", K::Ignore), ("Default", K::Ignore), ("InputName", K::InputName), ("Into", K::Into), ("LengthCount", K::LengthCount), ("LittleEndian", K::LittleEndian), ("Map", K::Map), ("Move", K::Move), ("MoveAbs", K::MoveAbs), ("Parse", K::Parse), ("PostExec", K::PostExec), ("PreExec", K::PreExec), ("Selector", K::Selector), ("SetEndian", K::SetEndian),
    ("SkipAfter", K::SkipAfter), ("SkipBefore", K::SkipBefore), ("Tag", K::Tag), ("Take", K::Take), ("Value", K::Value), ("Verify", K::Verify)];
const NEED: &[K] = &[K::AlignAfter, K::AlignBefore, K::Cond, K::Count, K::ErrorIf, K::ExtraArgs, K::InputName, K::LengthCount, K::Map, K::Move, K::MoveAbs, K::Parse, K::PostExec, K::PreExec, K::Selector, K::SetEndian, K::SkipAfter, K::SkipBefore, K::Tag, K::Take, K::Value, K::Verify];
pub fn run_names() {
    use core::convert::TryFrom;
    let mut n = 0u64;
    for (name, k) in NAMES {
        for (text, want) in [(name.to_string(), Some(*k)), (name.to_lowercase(), None), (format!("{}s", name), None), (name[..name.len() - 1].to_string(), None)] {
            let Ok(i) = parse_str::<Ident>(&text) else { continue };
            let want = NAMES.iter().find(|(x, _)| *x == text).map(|x| x.1).or(if text == *name { want } else { None });
            n += 1;
            let g = K::from_ident(&i);
            if g != want { say("MetaAttrType::from_ident", text.clone(), format!("{:?}", g), format!("{:?}", want)); return; }
            for form in [text.clone(), format!("{} = \"1\"", text), format!("{}(1)", text), format!("{} = 1", text)] {
                if text == "ExtraArgs" { continue; }
                let Ok(m) = parse_str::<Meta>(&form) else { continue };
                n += 1;
                if let Some(Ok(a)) = quiet(|| A::try_from(&m)) {
                    if want != Some(a.attr_type) || a.arg().is_some() != NEED.contains(&a.attr_type) || a.arg().map_or(false, |t| s(t) != "1") { say("MetaAttr::try_from", form, format!("{:?} with {:?}", a.attr_type, a.arg().map(s)), format!("{:?}", want)); return; }
                } else if want.is_some() && (NEED.contains(&want.unwrap()) == form.ends_with("\"1\"") || form.ends_with("(1)")) && want != Some(K::PreExec) && want != Some(K::PostExec) && want != Some(K::Selector) { say("MetaAttr::try_from", form, "refused".into(), "accepted".into()); return; }
            }
        }
    }
    println!("RUNS\t{}", n);
    for ty in types().iter().chain(["Option", "Vec", "Option(u8)", "&u8", "(u8, u16)", "x::Option<u8>", "::Vec<u8>", "Vec<u8, A>", "Optional<u8>", "[[u8; 2]; 3]", "[a::B; 2]", "[Option<u8>; 2]"].iter().filter_map(|t| parse_str::<Type>(t).ok()).collect::<Vec<_>>().iter()) {
        let t = ty.to_token_stream().to_string();
        let g = quiet(|| get_type_first_ident(ty).ok());
        if g != Some(first(ty)) { say("get_type_first_ident", t.clone(), format!("{:?}", g), format!("{:?}", first(ty))); return; }
        for w in ["Option", "Vec", "PhantomData"] {
            let g = quiet(|| get_item_subtype_parser(ty, w, "x").ok().map(|t| s(&t)));
            let want = inside(ty, w).map(|t| s(&t));
            if g != Some(want.clone()) { say("get_item_subtype_parser", format!("{} in {}", w, t), format!("{:?}", g), format!("{:?}", want)); return; }
        }
        let g = quiet(|| get_type_default(ty).ok());
        if g.as_ref().map(|x| x.is_some()) != Some(first(ty).is_some()) { say("get_type_default", t, format!("{:?}", g), "a value for the types with a name".into()); return; }
    }
    // attribute lists keep the order they are written in; attributes have their place
    let forms = ["Complete", "Verify = \"*a > 1\"", "Exact", "DebugDerive", "Map = \"f\"", "BigEndian", "PreExec = \"g();\"", "Selector = \"1\"", "InputName = \"j\"", "Count = \"2\""];
    let top = [0, 2, 3, 5, 6, 7, 8]; let field = [0, 1, 4, 5, 6, 7, 9];
    for a in 0..10 { for b in 0..10 { for c in 0..10 { for split in 0..3 {
        let l = match split { 0 => format!("#[nom({}, {}, {})]", forms[a], forms[b], forms[c]), 1 => format!("#[nom({})] #[doc = \"x\"] #[nom({}, {})]", forms[a], forms[b], forms[c]), _ => format!("#[nom({}, {})] #[nom()] #[nom({})]", forms[a], forms[b], forms[c]) };
        let Ok(st) = parse_str::<ItemStruct>(&format!("{} struct S;", l)) else { continue };
        n += 1;
        for (f, r, ok) in [("parse_nom_attribute", quiet(|| crate::meta::parse_nom_attribute(&st.attrs)), &field), ("parse_nom_top_level_attribute", quiet(|| crate::meta::parse_nom_top_level_attribute(&st.attrs)), &top)] {
            let want = if [a, b, c].iter().all(|x| ok.contains(x)) { Some([a, b, c].iter().map(|x| parse_str::<A>(forms[*x]).map(|a| format!("{:?} {:?}", a.attr_type, a.arg().map(s))).unwrap_or_default()).collect::<Vec<_>>()) } else { None };
            let got = match r { Some(Ok(l)) => Some(l.iter().map(|a| format!("{:?} {:?}", a.attr_type, a.arg().map(s))).collect::<Vec<_>>()), _ => None };
            if want != got { say(f, l, format!("{:?}", got), format!("{:?}", want)); return; }
        }
    } } } }
}
pub fn run() { std::panic::set_hook(Box::new(|_| {})); run_names(); run_parsers(); run_code(); run_fields(); }
