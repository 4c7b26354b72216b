"""Specimens: programs that use the derive macros, written once as data.

From one description (TypeDef) this module produces
  * the Rust source the real derive macro is applied to,
  * the contract, as Verus specification functions (dialect V),
  * an executable reading of the same contract (dialect R), used to look for concrete failing inputs.
The contract follows the property statements (properties.jsonl) and the documentation of the attributes;
it is computed from the *description* of the program, never from the output of the macro.
"""
import re

class X:
    """user expression / statement / pattern: rust text, and its reading as a specification"""
    def __init__(self, rust, v=None):
        self.rust = rust
        self.v = v if v is not None else to_v(rust)
    def __repr__(self): return f'X({self.rust})'

HFUN = ['un8', 'm8', 'm16', 'md', 'pick', 'm8b', 'is_ok8', 'vlen', 'dlen', 'osome']

def to_v(s):
    s = re.sub(r'!\s*([\w#]+)\.is_empty\(\)', r'!(\1.slen() == 0)', s)
    s = re.sub(r'([\w#]+)\.is_empty\(\)', r'(\1.slen() == 0)', s)
    s = re.sub(r'([\w#]+)\.is_some\(\)', r'(\1 is Some)', s)
    s = re.sub(r'([\w#]+)\.is_none\(\)', r'(\1 is None)', s)
    s = re.sub(r'([\w#]+)\.len\(\)', r'(\1.slen() as usize)', s)
    s = s.replace('nom::number::Endianness::', 'nomv::Endianness::')
    for f in HFUN: s = re.sub(r'\b%s\(' % f, 'sp_%s(' % f, s)
    return s

class Attr:
    def __init__(self, kind, x=None, form=None, name=None):
        self.kind, self.x, self.form, self.name = kind, x, form, name
    def rust(self):
        n = self.name or self.kind
        if self.x is None: return n
        form = self.form or ('list' if '"' in self.x.rust or '\\' in self.x.rust else 'str')
        if form == 'str': return f'{n} = "{self.x.rust}"'
        return f'{n}({self.x.rust})'
    def __repr__(self): return self.rust()

def A(kind, x=None, v=None, form=None, name=None):
    if x is not None and not isinstance(x, X): x = X(x, v)
    return Attr(kind, x, form, name)

class PExpr(X):
    """user-supplied parser (Parse, LengthCount): rust text; v(i) and r(i) give its result on input i"""
    def __init__(self, rust, v, r=None):
        self.rust = rust
        self.vf = v
        self.rf = r or (lambda i: f'({rust})({i})')
    @property
    def v(self): return self.rust

class FExpr(X):
    """user-supplied function (Map): rust text and specification closure; inty: type it is applied to, when not the type of the field"""
    def __init__(self, rust, v, inty=None):
        X.__init__(self, rust, v)
        self.inty = inty

class Stmt(X):
    """PreExec/PostExec. wrap: function cont -> spec text (default: v + cont)"""
    def __init__(self, rust, v=None, wrap=None):
        X.__init__(self, rust, v)
        self.wrap = wrap or (lambda c: self.v + ' ' + c)

class Field:
    def __init__(self, name, ty, *attrs, groups=None):
        self.name, self.ty, self.attrs, self.groups = name, ty, list(attrs), groups

class Variant:
    """cond: specification of the selector pattern; '' for '_' """
    def __init__(self, name, pat, cond, fields=(), kind='named', attrs=(), disc=None):
        self.name, self.pat, self.cond, self.fields, self.kind, self.attrs, self.disc = name, pat, cond, list(fields), kind, list(attrs), disc

class TypeDef:
    def __init__(self, name, kind='named', fields=(), attrs=(), derive='Nom', generics='', variants=(), args=(), selector=None,
                 repr=None, where='', inst=None, argvals=None, groups=None, input_name='i'):
        self.name, self.kind, self.fields, self.attrs, self.derive = name, kind, list(fields), list(attrs), derive
        self.generics, self.variants, self.args, self.selector, self.repr, self.where = generics, list(variants), list(args), selector, repr, where
        self.inst = inst or ['']         # instantiations of type params, e.g. '<u16>'
        self.argvals = argvals or ['']   # extra argument values, e.g. '3u8, true'
        self.groups = groups
        self.input_name = input_name
        for a in self.attrs:
            if a.kind == 'InputName': self.input_name = a.x.rust
    def has(self, k): return any(a.kind == k for a in self.attrs)
    @property
    def generic_errors(self): return self.has('GenericErrors')
    @property
    def special(self): return self.selector is not None or bool(self.args)

class Spec:
    """one module of specimens"""
    def __init__(self, id, types, prop=None, verus=True, uses='', extra='', extra_v='', note='', long=False, directed=False):
        self.long, self.directed = long, directed
        self.id, self.types, self.prop, self.verus, self.uses, self.extra, self.extra_v, self.note = id, types, prop, verus, uses, extra, extra_v, note

# ------------------------------------------------------------------ types
def inner(ty, outer):
    m = re.match(r'^%s<(.*)>$' % outer, ty)
    assert m, (ty, outer)
    return m.group(1)

def v_ty(ty, lft="'nom"):
    t = re.sub(r"&\s*'(\w+)\s*\[u8\]", r"nomv::Inp<'\1>", ty)
    t = re.sub(r"&\s*\[u8\]", "nomv::Inp<%s>" % lft, t)
    t = t.replace('nom::number::Endianness', 'nomv::Endianness')
    return t

PARSER_ATTRS = ['Tag', 'Take', 'Value', 'Parse', 'Ignore', 'Complete', 'Debug', 'Cond', 'Count', 'Into', 'LengthCount', 'Map', 'Verify']
TERMINAL = ['Tag', 'Take', 'Value', 'Parse', 'Ignore']

# ------------------------------------------------------------------ dialects
class V:
    name = 'v'
    def __init__(self, lft="'nom", err="nomv::Error<nomv::Inp<'nom>>"):
        self.lft, self.err = lft, err
    def x(self, x): return x.v
    def base(self, ty, en, i):
        t = v_ty(ty, self.lft)
        f = lambda n: f"<{t} as nomv::Parse<{self.lft}, {self.err}>>::{n}({i})"
        if en == 'dyn': return f"(if __endianness == nomv::Endianness::Big {{ {f('sp_be')} }} else {{ {f('sp_le')} }})"
        return f({'be': 'sp_be', 'le': 'sp_le'}[en])
    def complete(self, i, f): return f"nomv::sp_complete({i}, {f(i)})"
    def cond(self, c, i, f, d): return f"nomv::sp_cond({c}, {i}, {f(i)})"
    def count(self, n, i, f, d):
        j = f'nomv_j{d}'
        return f"nomv::sp_count(|{j}: nomv::Inp<{self.lft}>| {f(j)}, ({n}) as usize as nat, {i}, {i}, Seq::empty())"
    def length_count(self, p, i, f, d):
        j = f'nomv_j{d}'
        return f"nomv::sp_length_count({p.vf(i)}, |{j}: nomv::Inp<{self.lft}>| {f(j)})"
    def map(self, r, fx): return f"nomv::sp_map({r}, {fx.v})"
    def into(self, r, ty): return f"nomv::sp_into_res::<_, {v_ty(ty, self.lft)}, _>({r})"
    def verify(self, i, r, name, x, ty):
        c = re.sub(r'\*\s*%s\b' % re.escape(name), 'NOMV_DEREF', x.v)
        c = re.sub(r'(?<![\w.])%s\b' % re.escape(name), f'(&{name})', c).replace('NOMV_DEREF', name)
        return f"nomv::sp_verify({i}, {r}, |{name}: {v_ty(ty, self.lft)}| {c})"
    def value(self, i, x): return f"nomv::sp_value({i}, {x})"
    def take(self, n, i): return f"nomv::sp_take(({n}) as usize as int, {i})"
    def tag(self, x, i):
        m = re.match(r'^b"(.*)"$', x.rust)
        if m:
            bs = eval('b"' + m.group(1) + '"')
            t = 'seq![' + ', '.join(f'{b}u8' for b in bs) + ']' if bs else 'Seq::<u8>::empty()'
        else: t = f'{x.v}.bytes()'
        return f"nomv::sp_tag({t}, {i})"
    def dflt(self, ty): return f'nomv::sp_dflt::<{v_ty(ty, self.lft)}>()'
    def parse_x(self, p, i): return p.vf(i)
    # sequencing: bind pattern to the result of a fallible step
    def bind(self, pat, e, cont): return f"match {e} {{ Err(nomv_e) => Err(nomv_e), Ok({pat}) => {{ {cont} }} }}"
    def let(self, n, e, cont): return f"let {n} = {e}; {cont}"
    def stmt(self, x, cont): return x.wrap(cont) if isinstance(x, Stmt) else x.v + ' ' + cont
    def skip(self, i, n): return f"nomv::sp_skip({i}, ({n}) as usize as int)"
    def align(self, o, i, n): return f"nomv::sp_align({o}, {i}, ({n}) as usize as int)"
    def mv(self, o, i, n): return f"nomv::sp_mv({o}, {i}, ({n}) as isize as int)"
    def mv_abs(self, o, n): return f"nomv::sp_mv_abs({o}, ({n}) as usize as int)"
    def error_if(self, c, i, cont): return f"if {c} {{ Err(nomv::Err::Error(<{self.err} as nomv::ParseError<nomv::Inp<{self.lft}>>>::mk({i}, nomv::ErrorKind::Verify))) }} else {{ {cont} }}"
    def not_empty(self, i): return f"{i}.slen() != 0"
    def switch(self, i): return f"nomv::sp_switch({i})"
    def chain_if(self, arms, last):
        out = ''
        for c, b in arms: out += f"if {c} {{ {b} }} else "
        return '(' + out + '{ ' + last + ' })'

class R:
    name = 'r'
    def __init__(self, lft="'nom", err="nom::error::Error<&'nom [u8]>"):
        self.lft, self.err = lft, err
    def x(self, x): return x.rust
    def base(self, ty, en, i):
        f = lambda n: f"<{ty} as nom_derive::Parse<_, {self.err}>>::{n}({i})"
        if en == 'dyn': return f"(if __endianness == nom::number::Endianness::Big {{ {f('parse_be')} }} else {{ {f('parse_le')} }})"
        return f({'be': 'parse_be', 'le': 'parse_le'}[en])
    def complete(self, i, f): return f"rt::complete({i}, {f(i)})"
    def cond(self, c, i, f, d): j = f'nomv_j{d}'; return f"rt::cond({c}, {i}, |{j}: &{self.lft} [u8]| {f(j)})"
    def count(self, n, i, f, d): j = f'nomv_j{d}'; return f"rt::count(({n}) as usize, {i}, |{j}: &{self.lft} [u8]| {f(j)})"
    def length_count(self, p, i, f, d): j = f'nomv_j{d}'; return f"rt::length_count({p.rf(i)}, |{j}: &{self.lft} [u8]| {f(j)})"
    def map(self, r, fx): return f"rt::map({r}, {fx.rust})"
    def into(self, r, ty): return f"rt::map({r}, |nomv_x| nomv_x.into())"
    def verify(self, i, r, name, x, ty): return f"rt::verify({i}, {r}, |{name}| {{ {x.rust} }})"
    def value(self, i, x): return f"rt::value({i}, {x})"
    def take(self, n, i): return f"rt::take(({n}) as usize, {i})"
    def tag(self, x, i): return f"rt::tag(&{x.rust}[..], {i})"
    def dflt(self, ty): return f'<{ty} as Default>::default()'
    def parse_x(self, p, i): return p.rf(i)
    def bind(self, pat, e, cont): return f"let {pat} = {e}?; {cont}"
    def let(self, n, e, cont): return f"let {n} = {e}; {cont}"
    def stmt(self, x, cont): return x.rust + ' ' + cont
    def skip(self, i, n): return f"rt::skip({i}, ({n}) as usize)"
    def align(self, o, i, n): return f"rt::align({o}, {i}, ({n}) as usize)"
    def mv(self, o, i, n): return f"rt::mv({o}, {i}, ({n}) as isize)"
    def mv_abs(self, o, n): return f"rt::mv_abs({o}, ({n}) as usize)"
    def error_if(self, c, i, cont): return f"rt::error_if({c}, {i})?; {cont}"
    def not_empty(self, i): return f"{i}.len() != 0"
    def switch(self, i): return f"rt::switch({i})"
    def chain_if(self, arms, last):
        out = ''
        for c, b in arms: out += f"if {c} {{ {b} }} else "
        return '(' + out + '{ ' + last + ' })'

# ------------------------------------------------------------------ semantics of the derive macro
def field_endian(attrs, obj):
    for a in attrs:
        if a.kind == 'BigEndian': return 'be'
        if a.kind == 'LittleEndian': return 'le'
        if a.kind == 'SetEndian': return 'dyn'
    return obj

def field_parser(D, name, ty, attrs, en):
    """the parser of a field: its attributes, the leftmost one outermost, down to the first one that is a complete parser"""
    attrs = [a for a in attrs if a.kind in PARSER_ATTRS]
    def go(k, ty, d):
        if k == len(attrs):
            if re.match(r'PhantomData\b', ty): return lambda i: D.value(i, ty.replace('PhantomData<', 'PhantomData::<', 1))
            return lambda i: D.base(ty, en, i)
        a = attrs[k]
        x = D.x(a.x) if a.x is not None else None
        if a.kind == 'Tag': return lambda i: D.tag(a.x, i)
        if a.kind == 'Take': return lambda i: D.take(x, i)
        if a.kind == 'Value': return lambda i: D.value(i, x)
        if a.kind == 'Parse': return lambda i: D.parse_x(a.x, i)
        if a.kind == 'Ignore': return lambda i: D.value(i, D.dflt(ty))
        if a.kind == 'Cond': f = go(k + 1, inner(ty, 'Option'), d + 1); return lambda i: D.cond(x, i, f, d)
        if a.kind == 'Count': f = go(k + 1, inner(ty, 'Vec'), d + 1); return lambda i: D.count(x, i, f, d)
        if a.kind == 'LengthCount': f = go(k + 1, inner(ty, 'Vec'), d + 1); return lambda i: D.length_count(a.x, i, f, d)
        f = go(k + 1, getattr(a.x, 'inty', None) or ty, d)
        if a.kind == 'Complete': return lambda i: D.complete(i, f)
        if a.kind == 'Debug': return f
        if a.kind == 'Into': return lambda i: D.into(f(i), ty)
        if a.kind == 'Map': return lambda i: D.map(f(i), a.x)
        if a.kind == 'Verify': return lambda i: D.verify(i, f(i), name, a.x, ty)
        assert False, a.kind
    return go(0, ty, 0)

def pre_post(D, attrs, inp):
    """statements executed before / after, in the order in which the attributes are written; each: cont -> text"""
    o = 'orig_' + inp
    pre, post = [], []
    for a in attrs:
        x = D.x(a.x) if a.x is not None else None
        k = a.kind
        def add(l, f): l.append(f)
        if k == 'PreExec': add(pre, lambda c, a=a: D.stmt(a.x, c))
        elif k == 'PostExec': add(post, lambda c, a=a: D.stmt(a.x, c))
        elif k == 'AlignBefore': add(pre, lambda c, x=x: D.bind(inp, D.align(o, inp, x), c))
        elif k == 'AlignAfter': add(post, lambda c, x=x: D.bind(inp, D.align(o, inp, x), c))
        elif k == 'SkipBefore': add(pre, lambda c, x=x: D.bind(inp, D.skip(inp, x), c))
        elif k == 'SkipAfter': add(post, lambda c, x=x: D.bind(inp, D.skip(inp, x), c))
        elif k == 'Move': add(pre, lambda c, x=x: D.bind(inp, D.mv(o, inp, x), c))
        elif k == 'MoveAbs': add(pre, lambda c, x=x: D.bind(inp, D.mv_abs(o, x), c))
        elif k == 'ErrorIf': add(pre, lambda c, x=x: D.error_if(x, inp, c))
        elif k == 'Exact': add(post, lambda c: D.error_if(D.not_empty(inp), inp, c))
        elif k == 'SetEndian': add(pre, lambda c, x=x: D.let('__endianness', x, c))
    return pre, post

def nest(fs, cont):
    for f in reversed(fs): cont = f(cont)
    return cont

def fields_spec(D, td, fields, mode, cont, top_complete):
    inp = td.input_name
    obj = object_endian(td, mode)
    steps = []
    for k, f in enumerate(fields):
        if any(a.kind == 'SetEndian' for a in f.attrs): obj = 'dyn'
        en = field_endian(f.attrs, obj)
        name = f.name if f.name else f'_{k}'
        p = field_parser(D, name, f.ty, f.attrs, en)
        e = D.complete(inp, p) if top_complete else p(inp)
        pre, post = pre_post(D, f.attrs, inp)
        steps += pre
        steps.append(lambda c, name=name, e=e: D.bind(f'({inp}, {name})', e, c))
        steps += post
    return nest(steps, cont)

def object_endian(td, mode):
    for a in td.attrs:
        if a.kind == 'BigEndian': return 'be'
        if a.kind == 'LittleEndian': return 'le'
        if a.kind == 'SetEndian': return 'dyn'
    if td.derive == 'NomBE': return 'be'
    if td.derive == 'NomLE': return 'le'
    return mode

def ctor(path, kind, fields):
    names = [f.name if f.name else f'_{k}' for k, f in enumerate(fields)]
    if kind == 'unit': return path
    if kind == 'tuple': return f"{path}({', '.join(names)})"
    return f"{path} {{ {', '.join(names)} }}"

def fn_body(D, td, mode):
    inp = td.input_name; o = 'orig_' + inp
    comp = td.has('Complete')
    pre, post = pre_post(D, td.attrs, inp)
    if td.kind in ('named', 'tuple', 'unit'):
        body = fields_spec(D, td, td.fields, mode, D.let('struct_def', ctor(td.name, td.kind, td.fields), nest(post, f'Ok(({inp}, struct_def))')), comp)
        return D.let(inp, o, nest(pre, body))
    if td.kind == 'enum':
        arms, last = [], None
        order = [v for v in td.variants if v.pat != '_'] + [v for v in td.variants if v.pat == '_']
        for v in order:
            val = ctor(f'{td.name}::{v.name}', v.kind, v.fields)
            if v.kind == 'unit':
                vpre, vpost = pre_post(D, v.attrs, inp)
                steps = list(vpre)
                pa = [a for a in v.attrs if a.kind == 'Parse']
                if pa:
                    e = D.complete(inp, lambda i: D.parse_x(pa[-1].x, i)) if comp else D.parse_x(pa[-1].x, inp)
                    steps.append(lambda c, e=e: D.bind(f'({inp}, _)', e, c))
                steps += vpost
                b = nest(steps, f'Ok(({inp}, {val}))')
            else:
                b = fields_spec(D, td, v.fields, mode, f'Ok(({inp}, {val}))', comp)
            if v.pat == '_': last = b
            else: arms.append((v.cond if D.name == 'v' else (v.cond_r if hasattr(v, 'cond_r') else v.cond), b))
        if last is None: last = D.switch(inp)
        ch = D.chain_if(arms, last)
        return D.let(inp, o, nest(pre, D.bind(f'({inp}, enum_def)', closure_call(D, ch, td), nest(post, f'Ok(({inp}, enum_def))'))))
    if td.kind == 'fieldless':
        en = object_endian(td, mode)
        f = lambda i: D.base(td.repr, en, i)
        e = D.complete(inp, f) if comp else f(inp)
        arms, nxt = [], 0
        for v in td.variants:
            if v.disc is not None: nxt = v.disc
            lit = f'({nxt}int) as {td.repr}' if D.name == 'v' else (f'({nxt})' if nxt < 0 else f'{nxt}')
            arms.append((f'selector == {lit}' if D.name == 'r' else f'selector == ({lit})', f'Ok({td.name}::{v.name})'))
            nxt += 1
        if D.name == 'v':
            sw = f"Err(nomv::Err::Error(<{D.err} as nomv::ParseError<nomv::Inp<{D.lft}>>>::mk({o}, nomv::ErrorKind::Switch)))"
        else:
            sw = f"Err(nom::Err::Error(nom::error::make_error({o}, nom::error::ErrorKind::Switch)))"
        ch = D.chain_if(arms, sw)
        return D.let(inp, o, nest(pre, D.bind(f'({inp}, selector)', e, D.bind('enum_def', ch, nest(post, f'Ok(({inp}, enum_def))')))))
    assert False

def closure_call(D, ch, td):
    # in dialect R every arm is a block using `?`: the function's own result type makes that direct
    if D.name == 'v': return ch
    return f"(|| -> nom::IResult<&{D.lft} [u8], _, {D.err}> {{ {ch} }})()"

# ------------------------------------------------------------------ source emission
def attr_block(attrs, groups, indent):
    if not attrs: return ''
    if groups is None: groups = [len(attrs)]
    out, k = '', 0
    for g in groups:
        part = attrs[k:k + g]; k += g
        if part: out += f"{indent}#[nom({', '.join(a.rust() for a in part)})]\n"
    if k < len(attrs): out += f"{indent}#[nom({', '.join(a.rust() for a in attrs[k:])})]\n"
    return out

def type_src(td):
    s = f"#[derive(Debug, {td.derive})]\n" if td.kind != 'fieldless' else f"#[derive(Debug, PartialEq, {td.derive})]\n#[repr({td.repr})]\n"
    attrs = list(td.attrs)
    s += attr_block(attrs, td.groups, '')
    w = f' where {td.where}' if td.where else ''
    def fsrc(f, ind='    ', vis='pub '):
        b = attr_block(f.attrs, f.groups, ind)
        return b + (f"{ind}{vis}{f.name}: {f.ty},\n" if f.name else f"{ind}{vis}{f.ty},\n")
    g = td.generics
    if td.kind == 'named': s += f"pub struct {td.name}{g}{w} {{\n" + ''.join(fsrc(f) for f in td.fields) + "}\n"
    elif td.kind == 'tuple': s += f"pub struct {td.name}{g}(\n" + ''.join(fsrc(f) for f in td.fields) + f"){w};\n"
    elif td.kind == 'unit': s += f"pub struct {td.name};\n"
    else:
        s += f"pub enum {td.name}{g}{w} {{\n"
        for v in td.variants:
            if td.kind == 'fieldless':
                s += f"    {v.name}{'' if v.disc is None else ' = ' + str(v.disc)},\n"; continue
            sel = getattr(v, 'selform', None) or ('list' if '"' in v.pat else 'str')
            s += "    #[nom(Selector" + (f' = "{v.pat}"' if sel == 'str' else f'({v.pat})') + ")]\n"
            s += attr_block(v.attrs, None, '    ')
            if v.kind == 'unit': s += f"    {v.name},\n"
            elif v.kind == 'tuple': s += f"    {v.name}(\n" + ''.join(fsrc(f, '        ', '') for f in v.fields) + "    ),\n"
            else: s += f"    {v.name} {{\n" + ''.join(fsrc(f, '        ', '') for f in v.fields) + "    },\n"
        s += "}\n"
    return s

def spec_src(sp):
    return f"pub mod s_{sp.id} {{\n#![allow(unused)]\nuse nom_derive::*;\nuse crate::h::*;\nuse std::marker::PhantomData;\n{sp.uses}\n{sp.extra}\n" + '\n'.join(type_src(t) for t in sp.types) + "}\n"

def type_params(td):
    """(lifetimes, types, consts) names of td.generics"""
    g = td.generics.strip()
    if not g: return [], []
    parts = [p.strip() for p in g[1:-1].split(',')]
    return ([p.split(':')[0].strip() for p in parts if p.startswith("'")],
            [p.split(':')[0].strip() for p in parts if not p.startswith("'") and not p.startswith('const ')] )

def const_params(td):
    g = td.generics.strip()
    return [p.strip() for p in g[1:-1].split(',') if p.strip().startswith('const ')] if g else []

def generic_names(td):
    """parameter names in the order of declaration"""
    g = td.generics.strip()
    if not g: return []
    return [re.sub(r'^const\s+', '', p.strip()).split(':')[0].strip() for p in g[1:-1].split(',')]

def errs(td): return ['DE', 'h::Trace'] if td.generic_errors else ['DE']

def ref_src(sp):
    """dialect R: one function per type and mode"""
    out = [f"pub mod r_{sp.id} {{\n#![allow(unused, clippy::all)]\nuse super::s_{sp.id}::*;\nuse nom_derive::*;\nuse crate::{{h, rt}};\nuse crate::h::*;\nuse std::marker::PhantomData;\n{sp.uses}\n"]
    for td in sp.types:
        lfs, tps = type_params(td)
        for mode in ('be', 'le'):
            err = 'NomErr' if td.generic_errors else "nom::error::Error<&'nom [u8]>"
            gens = ["'nom"] + lfs + [f'{t}: std::fmt::Debug' for t in tps] + const_params(td) + (['NomErr'] if td.generic_errors else [])
            wh = [f"'nom: {l}" for l in lfs] + [f"{t}: Parse<&'nom [u8], {err}>" for t in tps] + ([f"NomErr: nom::error::ParseError<&'nom [u8]> + std::fmt::Debug"] if td.generic_errors else [])
            if td.generic_errors and any(f.ty == 'String' for f in td.fields): wh.append("NomErr: nom::error::FromExternalError<&'nom [u8], std::str::Utf8Error>")
            if td.where: wh.append(td.where)
            wh += [p.strip() for p in td.generics.strip()[1:-1].split(',') if ':' in p and not p.strip().startswith('const ')]
            args = ''.join(f', {a}' for a in ([f'selector: {td.selector}'] if td.selector else []) + td.args)
            D = R("'nom", err)
            gn = generic_names(td)
            ty = td.name + ('<' + ', '.join(gn) + '>' if gn else '')
            body = fn_body(D, td, mode)
            out.append(f"pub fn {td.name}_{mode}<{', '.join(gens)}>(orig_{td.input_name}: &'nom [u8]{args}) -> nom::IResult<&'nom [u8], {ty}, {err}>\n" + (f"where {', '.join(wh)}\n" if wh else '') + "{ " + body + " }\n")
    out.append('}\n')
    return '\n'.join(out)

def run_src(sp):
    """native comparison harness"""
    out = [f"pub fn run_{sp.id}(ctx: &mut rt::Ctx) {{\n    let inputs = std::mem::take(&mut ctx.inputs);\n"
           f"    for (off, raw) in inputs.iter(){'.chain(ctx.long())' if sp.long else ''} {{ let mut nomv_buf = vec![0xEEu8; *off]; nomv_buf.extend_from_slice(raw); let b: &[u8] = &nomv_buf[*off..];\n"
           f"      use s_{sp.id}::*; use nom_derive::Parse; use rt::DE; use h::*; use std::marker::PhantomData; {sp.uses}\n"]
    for td in sp.types:
        lfs, tps = type_params(td)
        for inst in td.inst:
            ty = td.name + inst
            tf = ('::' + inst) if inst else ''
            for er in errs(td):
                et = "DE<'_>" if er == 'DE' else "h::Trace<'_>"
                for args in td.argvals:
                    a = (', ' + args) if args else ''
                    for real, mode in (('parse', 'be'), ('parse_be', 'be'), ('parse_le', 'le')):
                        rname = f'{td.name}_{mode}'
                        if td.special:
                            call = f"{td.name}{tf}::{real}" + (f"::<{et}>" if td.generic_errors else '') + f"(x{a})"
                        else:
                            call = f"<{td.name}{inst} as Parse<_, {et}>>::{real}(x)"
                        ref = f"r_{sp.id}::{rname}(x{a})"
                        label = f"{ty}::{real}[{er}]".replace('"', "'")
                        out.append(f'      rt::case::<_, {et}, _>(ctx, "{sp.id}", "{label}", b, &"{args.replace(chr(34), chr(39))}", |x| {call}, |x| {ref});\n')
    out.append("    }\n    ctx.inputs = inputs;\n}\n")
    return ''.join(out)

# ------------------------------------------------------------------ Verus specification functions
def verus_specs(sp, td, lft="'nom"):
    """the text spliced at //@SPEC of the impl of td"""
    err = 'NomErr' if td.generic_errors else f"nomv::Error<nomv::Inp<{lft}>>"
    D = V(lft, err)
    o = f'orig_{td.input_name}'
    args = [f'selector: {v_ty(td.selector, lft)}'] if td.selector else []
    args += [v_ty(a, lft) for a in td.args]
    names = [a.split(':')[0].strip() for a in args]
    sig = ''.join(', ' + a for a in args); call = ''.join(', ' + n for n in names)
    vis = 'pub ' if td.special else ''
    ge = '<NomErr: nomv::ParseError<nomv::Inp<%s>>>' % lft if td.special and td.generic_errors else ''
    gc = '::<NomErr>' if ge else ''
    r = f"nomv::Res<{lft}, Self, {err}>"
    out = [f"{vis}open spec fn sp{ge}({o}: nomv::Inp<{lft}>{sig}) -> {r} {{ Self::sp_be{gc}({o}{call}) }}"]
    for mode in ('be', 'le'):
        out.append(f"{vis}open spec fn sp_{mode}{ge}({o}: nomv::Inp<{lft}>{sig}) -> {r} {{ {fn_body(D, td, mode)} }}")
    if not td.special:
        out.append(f"proof fn suffix({o}: nomv::Inp<{lft}>) {{ }}")
    return '\n'.join(out)
