"""Contracts on the pure functions of nom-derive-impl that decide about attributes and byte orders, extracted from
/repo's sources on every run (tools/extract/src/imp.rs) and discharged by Verus."""
import os, re
from . import core
from .core import BUILD, REPO, run, write, log

PRE = r'''
pub struct NvError; pub struct NvSpan;
#[verifier::external_body] pub fn nv_err() -> NvError { unimplemented!() }
#[verifier::external_body] pub fn nv_span() -> NvSpan { unimplemented!() }
#[verifier::external_body] pub fn nv_unreachable() requires false { unimplemented!() }
pub open spec fn nv_has(s: Seq<MetaAttr>, n: nat, k: MetaAttrType) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).attr_type == k }
pub open spec fn asks(l: &[MetaAttr], k: MetaAttrType) -> bool { nv_has(l@, l@.len(), k) }
#[verifier::external_body] pub fn nv_any(l: &[MetaAttr], k: MetaAttrType) -> (r: bool) ensures r == asks(l, k) { unimplemented!() }
/// two different byte orders asked for in one place
pub open spec fn contradictory(l: &[MetaAttr]) -> bool {
    (asks(l, MetaAttrType::BigEndian) && asks(l, MetaAttrType::LittleEndian)) || (asks(l, MetaAttrType::BigEndian) && asks(l, MetaAttrType::SetEndian)) || (asks(l, MetaAttrType::LittleEndian) && asks(l, MetaAttrType::SetEndian)) }
/// the byte order asked for, or another
pub open spec fn asked(l: &[MetaAttr], other: ParserEndianness) -> ParserEndianness {
    if asks(l, MetaAttrType::BigEndian) { ParserEndianness::BigEndian } else if asks(l, MetaAttrType::LittleEndian) { ParserEndianness::LittleEndian }
    else if asks(l, MetaAttrType::SetEndian) { ParserEndianness::SetEndian } else { other } }
'''
def kinds(yes, no, x): return ' && '.join([f'({x} == MetaAttrType::{k} ==> r)' for k in yes] + [f'({x} == MetaAttrType::{k} ==> !r)' for k in no])
TAKES = 'AlignAfter AlignBefore Cond Count ErrorIf ExtraArgs InputName LengthCount Map Move MoveAbs Parse PostExec PreExec Selector SetEndian SkipAfter SkipBefore Tag Take Value Verify'.split()
PLAIN = 'BigEndian LittleEndian Complete Debug DebugDerive Exact GenericErrors Ignore Into'.split()
FIELD = 'AlignAfter AlignBefore Cond Count ErrorIf Ignore Into LengthCount Map Move MoveAbs Parse SkipAfter SkipBefore Tag Take Value Verify'.split()
TOP = 'DebugDerive Exact ExtraArgs GenericErrors InputName'.split()
BOTH = 'BigEndian Complete Debug LittleEndian PostExec PreExec Selector SetEndian'.split()
# name: (number of parameters, properties, contract over p0, p1, .. and the result r)
CONTRACTS = {
    'get_object_endianness': (1, 'C05', 'ensures r == (if {0}.object_endianness != ParserEndianness::Unspecified {{ {0}.object_endianness }} else {{ {0}.global_endianness }}),'),
    'get_local_endianness': (3, 'C05 C15', 'ensures contradictory({1}) <==> r.is_err(), !contradictory({1}) ==> r == Ok::<ParserEndianness, NvError>(asked({1}, if {2}.object_endianness != ParserEndianness::Unspecified {{ {2}.object_endianness }} else {{ {2}.global_endianness }})),'),
    'set_object_endianness': (4, 'C05 C15', 'ensures contradictory({2}) <==> r.is_err(), !contradictory({2}) ==> final({3}).object_endianness == asked({2}, {1}), final({3}).global_endianness == old({3}).global_endianness, final({3}).complete == old({3}).complete, final({3}).debug == old({3}).debug, final({3}).debug_derive == old({3}).debug_derive, final({3}).generic_errors == old({3}).generic_errors,'),
    'from_meta_list': (1, 'C05 C15', '''ensures (asks({0}, MetaAttrType::BigEndian) && asks({0}, MetaAttrType::LittleEndian)) ==> r.is_err(), r.is_err() ==> contradictory({0}),
        match r {{ Ok(c) => c.complete == asks({0}, MetaAttrType::Complete) && c.debug == asks({0}, MetaAttrType::Debug) && c.debug_derive == asks({0}, MetaAttrType::DebugDerive) && c.generic_errors == asks({0}, MetaAttrType::GenericErrors)
            && c.global_endianness == ParserEndianness::Unspecified && (!asks({0}, MetaAttrType::SetEndian) ==> c.object_endianness == asked({0}, ParserEndianness::Unspecified)), Err(_) => true }},'''),
    'validate_endianness': (3, 'C15', '''requires {0} != ParserEndianness::SetEndian, {2} != ParserEndianness::SetEndian,
        ensures r.is_err() <==> (({0} != ParserEndianness::Unspecified && {1} != ParserEndianness::Unspecified && {0} != {1}) || ({0} != ParserEndianness::Unspecified && {2} != ParserEndianness::Unspecified && {0} != {2})
            || ({1} != ParserEndianness::Unspecified && {2} != ParserEndianness::Unspecified && {1} != {2})),'''),
    'is_type': (2, 'C05 C15', 'ensures r == ({0}.attr_type == {1}),'),
    'takes_argument': (1, 'C15', 'ensures ' + kinds(TAKES, PLAIN, '{0}') + ','),
    'acceptable_tla': (1, 'C15', 'ensures ' + kinds(TOP + BOTH, FIELD, '{0}.attr_type') + ','),
    'acceptable_fla': (1, 'C15', 'ensures ' + kinds(FIELD + BOTH, TOP, '{0}.attr_type') + ','),
}

def params(sig):
    """names of the parameters, from the token text of a signature"""
    a = sig[sig.index('(') + 1:]
    depth, cur, out = 0, '', []
    for ch in a:
        if ch in '([<': depth += 1
        elif ch in ')]>':
            if ch == ')' and depth == 0: break
            depth -= 1
        if ch == ',' and depth == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return ['self' if re.search(r'\bself\b', x) else re.match(r'\s*(?:mut\s+)?(\w+)', x).group(1) for x in out]

def named_result(sig): return re.sub(r'->\s*(.*)$', lambda m: f'-> (r: {m.group(1).strip()})', sig.strip())

def parse(txt):
    types, fns, cur = [], [], None
    for l in txt.splitlines():
        if l.startswith('//@TYPE'): cur = 'type'; continue
        m = re.match(r'//@FUN (\w+) (\S+) (\w+)', l)
        if m: cur = dict(name=m.group(1), self=m.group(2), kind=m.group(3), bad=[], closures=False); fns.append(cur); continue
        if l.startswith('//@BAD'): cur['bad'].append(l[7:]); continue
        if l.startswith('//@CLOSURE'): cur['closures'] = True; continue
        if l.startswith('//@SIG'): cur['sig'] = l[7:]; continue
        if l.startswith('//@BODY'): cur['body'] = l[8:]; continue
        if cur == 'type': types.append(l)
    return types, fns

def loops(body):
    return re.sub(r'while nv_while \((.*?) , "((?:[^"\\]|\\.)*)"\) \{', lambda m: f'while {m.group(1)} invariant {m.group(2)} decreases {m.group(1).split("<")[1].strip()} - {m.group(1).split("<")[0].strip()} {{', body)

def module(types, fns, skip=(), mutate=None):
    out = ['use vstd::prelude::*;', 'verus! {', *types, PRE]
    done = []
    for f in fns:
        if f['name'] in skip or f['bad']: continue
        ps = params(f['sig'])
        body = loops(f['body'])
        attrs, pre = '#[verifier::loop_isolation(false)] ', ''
        if f['kind'] == 'helper':
            if re.search(r'\b(return|mut|while)\b', body): continue
            inner = f['sig'][f['sig'].index('fn ') + 3:]
            pre = f'pub open spec fn sp_{inner.strip()} {body}\n'
            if f['self'] == '-': con = f'ensures r == sp_{f["name"]}({", ".join(ps)}),'
            else: con = f'ensures r == self.sp_{f["name"]}({", ".join(p for p in ps if p != "self")}),' if 'self' in ps else f'ensures r == Self::sp_{f["name"]}({", ".join(ps)}),'
        else:
            n, props, con = CONTRACTS[f['name']]
            con = con.format(*ps)
            if mutate and mutate[0] == f['name']: con = mutate[1].format(*ps)
        text = f'{pre}{attrs}pub {named_result(f["sig"])}\n    {con}\n{body}\n'
        if f['self'] != '-': text = f'impl {f["self"]} {{\n{text}}}\n'
        out.append(f'// ---- {f["name"]}\n' + text)
        done.append(f['name'])
    out.append('} fn main() {}')
    return '\n'.join(out), done

def verify(path, rep, rlimit=30):
    rc, res, msgs, err, dt = core.verus_run(path, rlimit=rlimit, timeout=200)
    return rc, res, msgs, err

def check(rep, pid):
    """adds the results to the report; returns the list of failed functions [(name, message)]"""
    txt_out = os.path.join(BUILD, 'verus', f'impl_{pid}.txt')
    os.makedirs(os.path.dirname(txt_out), exist_ok=True)
    rc, out, err, _ = run([core.nvextract(), os.path.join(REPO, 'nom-derive-impl', 'src'), txt_out, 'impl'])
    if rc != 0: rep.degraded.append(('nom-derive-impl', 'extraction of the pure functions failed')); return []
    types, fns = parse(open(txt_out).read())
    # only what the property needs
    wanted = {n for n, c in CONTRACTS.items() if pid in c[1].split()}
    names = [f['name'] for f in fns]
    for n in sorted(wanted - set(names)): rep.degraded.append((f'nom-derive-impl::{n}', 'no function of this name any more'))
    skip = set()
    for f in fns:
        if f['kind'] != 'helper' and f['name'] not in skip and len(params(f['sig'])) != CONTRACTS[f['name']][0]: skip.add(f['name']); rep.degraded.append((f'nom-derive-impl::{f["name"]}', 'another signature'))
        for b in f['bad']: skip.add(f['name']); rep.degraded.append((f'nom-derive-impl::{f["name"]}', b))
    path = os.path.join(BUILD, 'verus', f'impl_{pid}.rs')
    failed = []
    for attempt in range(8):
        text, done = module(types, fns, skip)
        write(path, text)
        rc, res, msgs, err = verify(path, rep, 30 if attempt == 0 else 60)
        lines = text.splitlines()
        def where(m):
            ls = [s['line_start'] for s in m.get('spans', []) if s.get('is_primary')] or [s['line_start'] for s in m.get('spans', [])]
            if not ls: return None
            for k in range(min(ls[0], len(lines)) - 1, -1, -1):
                w = re.match(r'// ---- (\w+)', lines[k])
                if w: return w.group(1)
        vr = (res or {}).get('verification-results', {})
        if vr.get('success'): break
        errs = [(where(m), m) for m in msgs if m.get('level') == 'error' and m.get('spans')]
        if vr.get('encountered-vir-error') or vr.get('verified') is None or any(m.get('code') for _, m in errs):
            bad = {w for w, _ in errs if w}
            if not bad: rep.degraded.append(('nom-derive-impl', 'the verifier does not accept the extracted functions: ' + (errs[0][1]['message'] if errs else err[-200:]))); return []
            for b in bad: skip.add(b); rep.degraded.append((f'nom-derive-impl::{b}', 'outside the dialect of the verifier: ' + next(m['message'] for w, m in errs if w == b)[:160]))
            continue
        if attempt == 0: continue                # once more, with more resources
        for w, m in errs:
            if w: failed.append((w, m.get('rendered') or m['message']))
        break
    else:
        return []
    vr = (res or {}).get('verification-results', {})
    ok = [d for d in done if d not in {w for w, _ in failed}]
    rep.verus['obligations'] += vr.get('verified', 0) + vr.get('errors', 0); rep.verus['discharged'] += vr.get('verified', 0)
    rep.verus['functions'] += [f'nom-derive-impl::{d}' for d in ok]
    rep.verus['runs'] += attempt + 1
    rep.verus['smt_ms'] += int((res or {}).get('times-ms', {}).get('smt', {}).get('total', 0) if isinstance((res or {}).get('times-ms', {}).get('smt'), dict) else 0)
    # vacuity: a wrong contract must be refused
    if not failed and 'is_type' in done:
        t, _ = module(types, fns, skip, mutate=('is_type', 'ensures r == true,'))
        p2 = os.path.join(BUILD, 'verus', f'impl_{pid}_absurd.rs'); write(p2, t)
        rc, res2, *_ = verify(p2, rep)
        if (res2 or {}).get('verification-results', {}).get('success'): raise core.Broken('the verifier accepts a wrong contract on nom-derive-impl: vacuous')
    rep.extra['impl_functions_under_contract'] = ok
    res = []
    for w in dict.fromkeys(w for w, _ in failed):
        if w in CONTRACTS and w not in wanted: continue
        m = next(m for x, m in failed if x == w)
        hit = native(types, fns, w) if w in RUNS else None
        res.append((w, m, hit))
    return res

# ------------------------------------------------------------------ the same functions, run: a concrete input for a failed contract
NATIVE = r'''#![allow(unused, non_camel_case_types)]
pub struct NvError; #[derive(Clone, Copy)] pub struct NvSpan;
fn nv_err() -> NvError { NvError } fn nv_span() -> NvSpan { NvSpan } fn nv_unreachable() { panic!("reached unreachable code") }
fn nv_while(c: bool, _: &str) -> bool { c }
fn nv_any(l: &[MetaAttr], k: MetaAttrType) -> bool { l.iter().any(|m| m.attr_type == k) }
fn asks(l: &[MetaAttr], k: MetaAttrType) -> bool { l.iter().any(|m| m.attr_type == k) }
fn contradictory(l: &[MetaAttr]) -> bool { [MetaAttrType::BigEndian, MetaAttrType::LittleEndian, MetaAttrType::SetEndian].iter().filter(|k| asks(l, **k)).count() > 1 }
fn asked(l: &[MetaAttr], other: ParserEndianness) -> ParserEndianness {
    if asks(l, MetaAttrType::BigEndian) { ParserEndianness::BigEndian } else if asks(l, MetaAttrType::LittleEndian) { ParserEndianness::LittleEndian } else if asks(l, MetaAttrType::SetEndian) { ParserEndianness::SetEndian } else { other } }
fn say(f: &str, input: String, got: String, want: String) { println!("FAIL\t{}\t{}\t{}\t{}", f, input, got, want); }
fn run<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
const E: [ParserEndianness; 4] = [ParserEndianness::Unspecified, ParserEndianness::LittleEndian, ParserEndianness::BigEndian, ParserEndianness::SetEndian];
'''
RUNS = {
 'get_object_endianness': 'for c in cfgs() { let w = if c.object_endianness != E[0] { c.object_endianness } else { c.global_endianness }; let r = run(|| get_object_endianness(&c)); if r != Some(w) { say("get_object_endianness", format!("{:?}", c), format!("{:?}", r), format!("{:?}", w)); return; } }',
 'get_local_endianness': 'for l in lists() { for c in cfgs() { let w = if contradictory(&l) { None } else { Some(asked(&l, if c.object_endianness != E[0] { c.object_endianness } else { c.global_endianness })) }; let r = run(|| get_local_endianness(NvSpan, &l, &c).ok()); if r != Some(w) { say("get_local_endianness", format!("{:?} {:?}", l, c), format!("{:?}", r), format!("{:?}", w)); return; } } }',
 'set_object_endianness': 'for l in lists() { for e in E { for c in cfgs() { let w = if contradictory(&l) { None } else { let mut d = c.clone(); d.object_endianness = asked(&l, e); Some(d) }; let mut d = c.clone(); let r = run(|| { let r = set_object_endianness(NvSpan, e, &l, &mut d).is_ok(); if r { Some(d) } else { None } }); if r != Some(w.clone()) { say("set_object_endianness", format!("{:?} {:?} {:?}", l, e, c), format!("{:?}", r), format!("{:?}", w)); return; } } } }',
 'from_meta_list': '''for l in lists() { let r = run(|| Config::from_meta_list(&l).ok()); let bl = asks(&l, MetaAttrType::BigEndian) && asks(&l, MetaAttrType::LittleEndian);
    let ok = match &r { None => false, Some(None) => contradictory(&l), Some(Some(c)) => !bl && c.complete == asks(&l, MetaAttrType::Complete) && c.debug == asks(&l, MetaAttrType::Debug) && c.debug_derive == asks(&l, MetaAttrType::DebugDerive) && c.generic_errors == asks(&l, MetaAttrType::GenericErrors) && c.global_endianness == E[0] && (asks(&l, MetaAttrType::SetEndian) || c.object_endianness == asked(&l, E[0])) };
    if !ok { say("from_meta_list", format!("{:?}", l), format!("{:?}", r), format!("contradictory: {}", contradictory(&l))); return; } }''',
 'validate_endianness': 'for a in E { for o in E { for g in E { if a == E[3] || g == E[3] { continue; } let d = |x: ParserEndianness, y: ParserEndianness| x != E[0] && y != E[0] && x != y; let w = d(a, o) || d(a, g) || d(o, g); let r = run(|| validate_endianness(a, o, g).is_err()); if r != Some(w) { say("validate_endianness", format!("{:?} {:?} {:?}", a, o, g), format!("{:?}", r), format!("{:?}", w)); return; } } } }',
 'is_type': 'for a in KINDS { for b in KINDS { let r = run(|| MetaAttr { attr_type: a }.is_type(b)); if r != Some(a == b) { say("is_type", format!("{:?} {:?}", a, b), format!("{:?}", r), format!("{:?}", a == b)); return; } } }',
 'takes_argument': 'for (k, w) in [%s] { let r = run(|| k.takes_argument()); if r != Some(w) { say("takes_argument", format!("{:?}", k), format!("{:?}", r), format!("{:?}", w)); return; } }' % ', '.join([f'(MetaAttrType::{k}, true)' for k in TAKES] + [f'(MetaAttrType::{k}, false)' for k in PLAIN]),
 'acceptable_tla': 'for (k, w) in [%s] { let r = run(|| MetaAttr { attr_type: k }.acceptable_tla()); if r != Some(w) { say("acceptable_tla", format!("{:?}", k), format!("{:?}", r), format!("{:?}", w)); return; } }' % ', '.join([f'(MetaAttrType::{k}, true)' for k in TOP + BOTH] + [f'(MetaAttrType::{k}, false)' for k in FIELD]),
 'acceptable_fla': 'for (k, w) in [%s] { let r = run(|| MetaAttr { attr_type: k }.acceptable_fla()); if r != Some(w) { say("acceptable_fla", format!("{:?}", k), format!("{:?}", r), format!("{:?}", w)); return; } }' % ', '.join([f'(MetaAttrType::{k}, true)' for k in FIELD + BOTH] + [f'(MetaAttrType::{k}, false)' for k in TOP]),
}
def native(types, fns, name):
    """an input for which the real function and its contract differ, if one is found"""
    txt = '\n'.join(re.sub(r'^# \[derive \(Clone , Copy\)\]', '#[derive(Clone, Copy, Debug, PartialEq, Eq)]', re.sub(r'impl vstd :: std_specs.*$', '', t)) for t in types)
    txt = txt.replace('pub struct MetaAttr ', '#[derive(Clone, Debug)] pub struct MetaAttr ').replace('pub struct Config ', '#[derive(Clone, Debug, PartialEq)] pub struct Config ')
    ks = re.search(r'pub enum MetaAttrType \{(.*?)\}', txt).group(1).replace(',', ' ').split()
    body = ''
    for f in fns:
        t = f'pub {f["sig"]} {f["body"]}\n'
        body += t if f['self'] == '-' else f'impl {f["self"]} {{ {t} }}\n'
    src = NATIVE + txt + '\n' + body + f'const KINDS: [MetaAttrType; {len(ks)}] = [{", ".join("MetaAttrType::" + k for k in ks)}];\n' + r'''
fn mk(l: &[MetaAttrType]) -> Vec<MetaAttr> { l.iter().map(|k| MetaAttr { attr_type: *k }).collect() }
fn lists() -> Vec<Vec<MetaAttr>> {
    let mut out = vec![vec![]];
    for a in KINDS { out.push(mk(&[a])); for b in KINDS { out.push(mk(&[a, b])); } }
    let few = [MetaAttrType::BigEndian, MetaAttrType::LittleEndian, MetaAttrType::SetEndian, MetaAttrType::Complete, MetaAttrType::GenericErrors];
    for n in 3..6u32 { for k in 0..5u32.pow(n) { let l: Vec<_> = (0..n).map(|j| few[(k / 5u32.pow(j) % 5) as usize]).collect(); out.push(mk(&l)); } }
    out
}
fn cfgs() -> Vec<Config> { let mut out = vec![]; for g in E { for o in E { for b in [false, true] { out.push(Config { global_endianness: g, object_endianness: o, complete: b, debug: !b, debug_derive: b, generic_errors: !b }); } } } out }
fn main() { std::panic::set_hook(Box::new(|_| {})); @RUN@ }
'''.replace('@RUN@', RUNS[name])
    p = os.path.join(BUILD, 'verus', f'implrun_{name}.rs'); exe = p[:-3]
    write(p, src)
    rc, out, err, _ = run(['rustc', '--edition', '2021', '-O', '-o', exe, p], timeout=120)
    if rc != 0: return None
    rc, out, err, _ = run([exe], timeout=60)
    m = [l.split('\t') for l in out.splitlines() if l.startswith('FAIL\t')]
    return dict(input=m[0][2], got=m[0][3], want=m[0][4]) if m else None

def report(rep, pid):
    for w, m, hit in check(rep, pid):
        what = f'nom-derive-impl: the contract of {w} fails'
        if hit: what += f' on {hit["input"]}: got {hit["got"]}, contract says {hit["want"]}'
        rep.violation(what[:500], f'impl:{w}', dict(kind='impl', function=w, verifier_output=m, **(hit or {})), found=bool(hit))
