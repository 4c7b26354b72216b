"""C15: ill-formed declarations do not compile.  The macro's own code works on syn's types, outside the verifier's
reach; this is an exhaustive run over a stated finite family of declarations, not a proof."""
import concurrent.futures as cf, json, os, re, shutil, time
from . import core
from .core import log, BUILD, ROOT, run, write

ARG = {'AlignAfter': '4', 'AlignBefore': '4', 'Cond': 'true', 'If': 'true', 'Count': '2', 'ErrorIf': 'false', 'LengthCount': 'le_u8', 'Map': 'f', 'Move': '1', 'MoveAbs': '1', 'Parse': 'le_u8', 'PostExec': 'let _z = 0;',
       'PreExec': 'let _z = 0;', 'SkipAfter': '1', 'SkipBefore': '1', 'Tag': 'b\\"a\\"', 'Take': '2', 'Value': '0', 'Verify': 'true', 'SetEndian': 'Endianness::Big', 'Selector': '0', 'InputName': 'inp'}
NOARG = ['BigEndian', 'LittleEndian', 'Complete', 'Debug', 'DebugDerive', 'Exact', 'GenericErrors', 'Ignore', 'Default', 'Into']
FIELD_ONLY = ['AlignAfter', 'AlignBefore', 'Cond', 'If', 'Count', 'Default', 'ErrorIf', 'Ignore', 'Into', 'LengthCount', 'Map', 'Move', 'MoveAbs', 'Parse', 'SkipAfter', 'SkipBefore', 'Tag', 'Take', 'Value', 'Verify']
TOP_ONLY = ['DebugDerive', 'Exact', 'ExtraArgs', 'GenericErrors', 'InputName']
FTY = {'Cond': 'Option<u8>', 'If': 'Option<u8>', 'Count': 'Vec<u8>', 'LengthCount': 'Vec<u8>', 'Tag': "&'static [u8]", 'Take': "&'static [u8]"}

def use(a): return f'{a}(x: u8)' if a == 'ExtraArgs' else (f'{a} = "{ARG[a]}"' if a in ARG else a)

# names that resemble a list's or an option's: a type of that name, made from a list or an option
NEAR = {'Vec': ['IoVec', 'VecX', 'Vecs', 'MyVec', 'vec', 'VEC', 'V', 'XVecX', 'SmallVec', 'VecDeque', 'List', 'Ve', 'Vec2', '_Vec', 'Vec_', 'Option', 'Box'],
        'Option': ['XOption', 'OptionX', 'Options', 'Optio', 'option', 'MyOption', 'O', 'Opt', 'Option2', '_Option', 'Option_', 'Vec', 'Result']}
def near(kind, name):
    return f'#[derive(Debug)] pub struct {name}<T>(pub core::option::Option<T>, pub std::vec::Vec<T>); impl<T> From<std::{kind}<T>> for {name}<T> {{ fn from(x: std::{kind}<T>) -> Self {{ {name}(None, std::vec::Vec::new()) }} }} '

# where a field attribute can be written: (name, declaration with %(a)s the attribute and %(t)s the type)
PLACES = {
    'named': '#[derive(Nom)] pub struct S { pub x: u8, #[nom(%(a)s)] pub y: %(t)s }',
    'tuple': '#[derive(Nom)] pub struct S(pub u8, #[nom(%(a)s)] pub %(t)s);',
    'second': '#[derive(Nom)] pub struct S { #[nom(Complete)] #[nom(%(a)s)] pub y: %(t)s, pub z: u8 }',
    'variant_named': '#[derive(Nom)] #[nom(Selector = "u8")] pub enum S { #[nom(Selector = "0")] A { #[nom(%(a)s)] y: %(t)s }, #[nom(Selector = "1")] B }',
    'third': '#[derive(NomLE)] #[nom(Exact)] pub struct S { pub x: u8, #[nom(SkipBefore = "1")] pub w: u16, #[nom(PreExec = "let _k = 1;", ErrorIf = "false")] #[nom(%(a)s)] pub y: %(t)s, #[nom(Verify = "*z > 0")] pub z: u8 }',
    'after': '#[derive(Nom)] pub struct S { #[nom(SkipAfter(1), %(a)s)] pub y: %(t)s }',
    'before': '#[derive(Nom)] #[nom(Complete)] pub struct S(#[nom(%(a)s, SkipAfter = "1")] pub %(t)s, pub u8);',
    'last_variant': '#[derive(NomBE)] #[nom(Selector(u16), Exact)] pub enum S { #[nom(Selector = "0")] A(u16), #[nom(Selector = "2", Parse = "le_u8")] C, #[nom(Selector(_))] B { x: u8, #[nom(%(a)s)] y: %(t)s, z: u8 } }',
    'generic': "#[derive(Nom)] #[nom(GenericErrors)] pub struct S { pub x: u8, #[nom(%(a)s)] pub y: %(t)s }",
    'args': "#[derive(Nom)] #[nom(ExtraArgs(k: u8, l: u16))] pub struct S { pub x: u8, #[nom(%(a)s)] pub y: %(t)s }",
    'variant_tuple': '#[derive(Nom)] #[nom(Selector = "u8")] pub enum S { #[nom(Selector = "0")] A(u8, #[nom(%(a)s)] %(t)s), #[nom(Selector = "_")] B }',
}
TOPS = {
    'struct': '#[derive(Nom)] #[nom(%(a)s)] pub struct S { pub x: u8 }',
    'tuple': '#[derive(Nom)] #[nom(%(a)s)] pub struct S(pub u8);',
    'second': '#[derive(Nom)] #[nom(BigEndian)] #[nom(%(a)s)] pub struct S { pub x: u8 }',
    'nomle': '#[derive(NomLE)] #[nom(%(a)s)] pub struct S { pub x: u8 }',
    'after': '#[derive(Nom)] #[nom(Complete, %(a)s)] pub struct S { pub x: u8 }',
    'before': '#[derive(Nom)] #[nom(%(a)s, Complete)] pub struct S { pub x: u8 }',
    'third': '#[derive(NomBE)] #[nom(Complete)] #[nom(GenericErrors)] #[nom(%(a)s)] pub struct S(pub u8, #[nom(Value = "1")] pub u8);',
    'generic': '#[derive(Nom)] #[nom(%(a)s)] pub struct S<T> { pub x: T }',
    'unit': '#[derive(Nom)] #[nom(%(a)s)] pub struct S;',
    'selector2': '#[derive(NomBE)] #[nom(%(a)s)] #[nom(Selector(u16))] pub enum S { #[nom(Selector(0))] A { x: u8 }, #[nom(Selector(_))] B(u16) }',
    'fieldless2': '#[derive(NomLE)] #[nom(Complete, %(a)s)] #[repr(u32)] pub enum S { A = 4, B }',
    'selector': '#[derive(Nom)] #[nom(Selector = "u8")] #[nom(%(a)s)] pub enum S { #[nom(Selector = "0")] A(u8), #[nom(Selector = "1")] B }',
    'fieldless': '#[derive(Nom)] #[repr(u8)] #[nom(%(a)s)] pub enum S { A, B }',
}
def named(p, l): return [(f'{p}_{k}', s) for k, s in enumerate(l)]

def families():
    """[(id, declaration)]: must be rejected"""
    out = []
    for a in FIELD_ONLY:
        for p, d in TOPS.items(): out.append((f'top_{a}_{p}', d % dict(a=use(a))))
    for a in TOP_ONLY:
        for p, d in PLACES.items(): out.append((f'field_{a}_{p}', d % dict(a=use(a), t='u8')))
    for p, d in list(PLACES.items()): out.append((f'unknown_field_{p}', d % dict(a='Foo', t='u8'))); out.append((f'unknownarg_field_{p}', d % dict(a='Foo = "1"', t='u8'))); out.append((f'lower_field_{p}', d % dict(a='count = "1"', t='Vec<u8>')))
    for p, d in list(TOPS.items()): out.append((f'unknown_top_{p}', d % dict(a='Foo'))); out.append((f'lower_top_{p}', d % dict(a='exact')))
    # an argument is required
    for a in ARG:
        if a in ('Selector', 'InputName'): continue
        for p in ('named', 'tuple', 'variant_named'): out.append((f'noarg_{a}_{p}', PLACES[p] % dict(a=a, t=FTY.get(a, 'u8'))))
    for a in ('SetEndian', 'InputName', 'ExtraArgs', 'PreExec', 'PostExec'):
        for p in ('struct', 'selector'): out.append((f'noarg_{a}_top_{p}', TOPS[p] % dict(a=a)))
    # not Rust
    for a in ('Cond', 'Count', 'Verify', 'ErrorIf', 'Take', 'Value', 'Map', 'SkipBefore', 'SkipAfter', 'AlignBefore', 'AlignAfter', 'Move', 'MoveAbs', 'Parse', 'LengthCount', 'PreExec', 'PostExec'):
        out.append((f'syntax_{a}', PLACES['named'] % dict(a=f'{a} = "1 +"', t=FTY.get(a, 'u8'))))
        out.append((f'empty_{a}', PLACES['named'] % dict(a=f'{a} = ""', t=FTY.get(a, 'u8'))) if a not in ('PreExec', 'PostExec') else (f'syntax2_{a}', PLACES['named'] % dict(a=f'{a} = "let"', t='u8')))
    # the type has to be a list / an option
    for a in ('Count', 'LengthCount'):
        for k, t in enumerate(['u32', 'Option<u8>', '[u8; 4]', 'String', '(u8, u8)', 'Box<[u8]>']):
            for p in ('named', 'tuple', 'variant_named', 'variant_tuple'): out.append((f'ty_{a}_{k}_{p}', PLACES[p] % dict(a=use(a), t=t)))
    for a in ('Cond', 'If'):
        for k, t in enumerate(['u32', 'Vec<u8>', '[u8; 4]', '(u8, u8)']):
            for p in ('named', 'tuple', 'variant_named', 'variant_tuple'): out.append((f'ty_{a}_{k}_{p}', PLACES[p] % dict(a=use(a), t=t)))
    for a, kind in (('Count', 'vec::Vec'), ('LengthCount', 'vec::Vec'), ('Cond', 'option::Option'), ('If', 'option::Option')):
        for n in NEAR[kind.split('::')[1]]:
            for p in ('named', 'tuple', 'variant_named', 'variant_tuple', 'third'):
                out.append((f'near_{a}_{n}_{p}', near(kind, n) + PLACES[p] % dict(a='Into, ' + use(a), t=f'{n}<u8>')))
                out.append((f'nearp_{a}_{n}_{p}', near(kind, n) + PLACES[p] % dict(a=use(a), t=f'{n}<u8>')))
    for a in ('Count', 'LengthCount'):
        for k, t in enumerate(['std::collections::VecDeque<u8>', 'Box<[u8]>', 'std::rc::Rc<[u8]>', 'std::sync::Arc<[u8]>', 'std::collections::BinaryHeap<u8>', '&\'static [u8]', '[u8; 2]', '(Vec<u8>, u8)', '[Vec<u8>; 2]']):
            for p in ('named', 'tuple', 'variant_named', 'variant_tuple', 'third'): out.append((f'from_{a}_{k}_{p}', PLACES[p] % dict(a='Into, ' + use(a), t=t)))
    for a in ('Cond', 'If'):
        for k, t in enumerate(['[Option<u8>; 1]', '(Option<u8>, u8)', 'Result<u8, ()>', 'std::task::Poll<u8>', 'Box<Option<u8>>']):
            for p in ('named', 'tuple', 'variant_named', 'variant_tuple', 'third'): out.append((f'from_{a}_{k}_{p}', PLACES[p] % dict(a='Into, ' + use(a), t=t)))
    out += named('ty_nested', [PLACES['named'] % dict(a='Count = "1", Cond = "true"', t='Option<Vec<u8>>'), PLACES['named'] % dict(a='Cond = "true", Count = "1"', t='Vec<Option<u8>>'), PLACES['named'] % dict(a='Count = "1", Count = "1"', t='Vec<u8>'),
                               PLACES['named'] % dict(a='Cond = "true", Cond = "true"', t='Option<u8>'), PLACES['named'] % dict(a='LengthCount = "le_u8", Count = "1"', t='Vec<Option<u8>>'), PLACES['named'] % dict(a='Parse = "le_u8", Count = "2"', t='Vec<u8>')])
    # contradictory byte orders
    E = {'B': 'BigEndian', 'L': 'LittleEndian', 'S': 'SetEndian = "Endianness::Big"'}
    for p, d in PLACES.items():
        for x in ('BL', 'LB', 'BS', 'SB', 'LS', 'SL', 'BLS'): out.append((f'endf_{x}_{p}', d % dict(a=', '.join(E[c] for c in x), t='u16')))
        out.append((f'endf_split_{p}', d % dict(a='BigEndian)] #[nom(LittleEndian', t='u16')))
    for p, d in TOPS.items():
        d0 = d.replace('#[nom(BigEndian)] ', '').replace('derive(NomLE)', 'derive(Nom)').replace('derive(NomBE)', 'derive(Nom)')
        for x in ('BL', 'LB', 'BS', 'SB', 'LS', 'SL', 'BLS'):
            out.append((f'endt_{x}_{p}', d0 % dict(a=', '.join(E[c] for c in x))))
        out.append((f'endt_split_{p}', d0 % dict(a='BigEndian)] #[nom(LittleEndian')))
        for dv, x in (('NomBE', 'L'), ('NomLE', 'B'), ('NomBE', 'S'), ('NomLE', 'S')):
            out.append((f'endd_{dv}_{x}_{p}', d0.replace('derive(Nom)', f'derive({dv})') % dict(a=E[x])))
    # enums
    V = '#[derive(Nom)] #[nom(Selector = "u8")] pub enum S { %s }'
    out += named('enum_nosel', ['#[derive(Nom)] pub enum S { A(u8) }', '#[derive(Nom)] pub enum S { A { x: u8 }, B }', '#[derive(Nom)] #[repr(u8)] pub enum S { A(u8), B }', '#[derive(NomLE)] pub enum S { A, B(u8) }', '#[derive(Nom)] #[nom(BigEndian)] pub enum S { A() }'])
    out += named('variant_nosel', [V % 'A(u8)', V % 'A', V % '#[nom(Selector = "0")] A(u8), B', V % 'A { x: u8 }, #[nom(Selector = "0")] B', V % '#[nom(Selector = "0")] A, #[nom(Complete)] B(u8)', V % '#[nom(Selector = "0")] A, #[nom(Selector)] B(u8)', V % '#[nom(Selector = "1 +")] A'])
    out += named('variant_attr', [V % f'#[nom(Selector = "0", {use(a)})] A(u8)' for a in TOP_ONLY] + [V % f'#[nom(Selector = "0")] #[nom({use(a)})] A' for a in TOP_ONLY])
    out += named('variant_unreach', [V % '#[nom(Selector = "0")] A(u8), #[nom(Selector = "\\"x\\"")] B'])
    out += named('fieldless_norepr', ['#[derive(Nom)] pub enum S { A, B }', '#[derive(Nom)] pub enum S { A = 0 }', '#[derive(NomLE)] pub enum S { A, B }', '#[derive(Nom)] #[nom(Exact)] pub enum S { A, B }'])
    out += named('fieldless_repr', [f'{pre}#[derive(Nom)] #[repr({r})] pub enum S {{ A, B }}' for pre, r in (('pub type U24 = u32; ', 'U24'), ('', 'C'))])
    # other shapes
    out += named('union', ['#[derive(Nom)] pub union S { a: u8, b: u16 }', '#[derive(NomBE)] pub union S { a: u8, b: u16 }'])
    out += named('noparse', ['#[derive(Nom)] pub struct S { x: std::collections::HashMap<u8, u8> }', '#[derive(Nom)] pub struct S { x: char }', '#[derive(Nom)] pub struct S { x: bool, y: u8 }', '#[derive(Nom)] pub struct S { x: fn(u8) -> u8 }', '#[derive(Nom)] pub struct S { x: &\'static u8 }'])
    out += named('args', ['#[derive(Nom)] #[nom(ExtraArgs(self))] pub struct S { x: u8 }', '#[derive(Nom)] #[nom(ExtraArgs(x))] pub struct S { x: u8 }'])
    seen = set()
    return [(k, s) for k, s in out if not (k in seen or seen.add(k))]

def controls():
    """[(id, declaration)]: the well-formed counterparts, must be accepted"""
    out = []
    for a in FIELD_ONLY + ['BigEndian', 'LittleEndian', 'Complete', 'SetEndian', 'PreExec', 'PostExec']:
        if a in ('Tag', 'Take', 'Map', 'Into', 'LengthCount', 'Parse'): continue
        for p, d in PLACES.items():
            if a == 'Verify' and p in ('tuple', 'variant_tuple', 'before'): continue
            out.append((f'field_{a}_{p}', d % dict(a=use(a), t=FTY.get(a, 'u8'))))
    for a in ('BigEndian', 'LittleEndian', 'Complete', 'Exact', 'PreExec', 'PostExec', 'InputName'):
        for p, d in TOPS.items():
            if a == 'LittleEndian' and p in ('second', 'third', 'selector2') or a == 'BigEndian' and p in ('second', 'nomle', 'fieldless2') or a == 'InputName' and p != 'struct': continue
            out.append((f'top_{a}_{p}', d % dict(a=use(a))))
    for a, f in (('LengthCount', 'nom::number::streaming::be_u8'), ('Parse', 'nom::number::streaming::be_u8'), ('Map', '|x: u8| x')):
        out.append((f'field_{a}', PLACES['named'] % dict(a=f'{a} = "{f}"', t=FTY.get(a, 'u8'))))
    out.append(('sel', '#[derive(Nom)] #[nom(Selector = "u8")] pub enum S { #[nom(Selector = "0")] A(u8), #[nom(Selector = "_")] B }'))
    for r in ('u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'):
        out.append((f'repr_{r}', f'#[derive(Nom, Debug)] #[repr({r})] pub enum S {{ A, B }}'))
    return out

HEAD = '#![allow(unused)]\nuse nom_derive::*;\nuse nom_derive::nom::number::Endianness;\nuse nom_derive::nom::number::streaming::{be_u8, le_u8};\nfn f(x: u8) -> u8 { x }\n'
class Crate:
    def __init__(self, name, decls):
        self.name, self.decls = 'nvrj_' + name, decls
        self.dir = os.path.join(BUILD, 'crates', self.name)
    def check(self):
        """{id: [messages]}, ok"""
        write(os.path.join(self.dir, 'Cargo.toml'), core.cargo_toml(self.name) + '\n[lib]\npath = "src/lib.rs"\n')
        write(os.path.join(self.dir, 'src/lib.rs'), '#![allow(unused, non_camel_case_types)]\n' + ''.join(f'mod d_{k};\n' for k, _ in self.decls))
        for k, s in self.decls: write(os.path.join(self.dir, f'src/d_{k}.rs'), HEAD + s + '\n')
        core.lockfile(self.dir)
        rc, out, err, dt = run(['cargo', 'check', '--offline', '--message-format=json'], cwd=self.dir, env={'CARGO_TARGET_DIR': os.path.join(BUILD, 'target')}, timeout=600)
        hits, any_ = {}, False
        for l in out.splitlines():
            if not l.startswith('{'): continue
            m = json.loads(l)
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
            if m.get('target', {}).get('name') != self.name: raise core.Broken('a dependency does not compile: ' + (m['message'].get('rendered') or '')[:1500])
            any_ = True
            for sp in core.all_spans(m['message']):
                k = re.search(r'src/d_(\w+)\.rs$', sp['file_name'])
                if k and m['message']['message'] not in hits.get(k.group(1), []): hits.setdefault(k.group(1), []).append(m['message']['message'])
        if rc != 0 and not any_: raise core.Broken('cargo check: ' + err[-2000:])
        return hits, rc == 0

def check(pid, tier, rep):
    rep.level = 'exploration'
    from . import implcheck
    implcheck.report(rep, pid)
    from . import treecheck
    treecheck.report(rep, pid)
    bad, good = families(), controls()
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(Crate('bad', bad).check); fg = ex.submit(Crate('good', good).check)
        hits, ok = fb.result(); ghits, gok = fg.result()
    # the compiler stops at expansion errors: what was not reported yet is compiled without the rest, until nothing is new
    left, kinds = [(k, s) for k, s in bad if k not in hits], dict(hits)
    first = len(hits); rounds = 0
    while left:
        rounds += 1
        h, ok = Crate('bad_rest', left).check()
        if not h: break
        kinds.update(h)
        left = [(k, s) for k, s in left if k not in h]
    for k, s in left:
        rep.violation(f'ill-formed declaration accepted ({k}): {s}', f'accepted:{k}', dict(kind='declaration', id=k, source=HEAD + s))
    if not gok and not ghits: raise core.Broken('the well-formed declarations do not compile, no place reported')
    for k, m in ghits.items():
        s = dict(good)[k]
        rep.violation(f'well-formed declaration rejected ({k}): {s}: {m[0][:200]}', f'rejected:{k}', dict(kind='declaration', id=k, source=HEAD + s, compiler=m))
    rep.native.update(evaluations=len(bad) + len(good), nontrivial=len(kinds), programs=len(bad) + len(good))
    rep.samples += [dict(id=k, declaration=dict(bad)[k], error=kinds[k][0]) for k in list(kinds)[::max(1, len(kinds) // 8)]]
    rep.extra.update(rejected=len(kinds), rejected_in_the_first_compilation=first, further_compilations=rounds, accepted_controls=len(good) - len(ghits), exhaustive=True,
                     rule='every declaration of the families in nv/reject.py (attribute x position x shape) is compiled; non-trivial: it was rejected, as it must be. The controls are well-formed and must compile.')
    log(f'[{pid}] {len(bad)} ill-formed ({first} rejected at once, {len(kinds)} in the end), {len(good)} controls')
