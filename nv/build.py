"""A compact way to write specimens."""
import re
from .dsl import *

# user parsers usable in Parse / LengthCount / as callees in closures
def P(name): return PExpr(name, lambda i: f'sp_{name}({i})')
def NP(name):
    """a nom number parser, be_u16 etc., by full path"""
    return PExpr(f'nom::number::streaming::{name}', lambda i: f'nomv::sp_{name}({i})')
PARSERS = {n: P(n) for n in ('up', 'up8', 'len8', 'len16', 'len64')}
PTYPE = {'up': 'u16', 'up8': 'u8', 'len8': 'u8', 'len16': 'u16', 'len64': 'u64'}
for _t in ('u8', 'u16', 'u24', 'u32', 'u64', 'i16', 'i32', 'u128', 'f32'):
    for _e in ('be', 'le'):
        PARSERS[f'{_e}_{_t}'] = NP(f'{_e}_{_t}'); PTYPE[f'{_e}_{_t}'] = {'u24': 'u32'}.get(_t, _t)
PARSERS['|i| up(i)'] = PExpr('|i| up(i)', lambda i: f'sp_up({i})')
PARSERS['|x| len8(x)'] = PExpr('|x| len8(x)', lambda i: f'sp_len8({i})', lambda i: f'len8({i})')
PARSERS['{ |i| up8(i) }'] = PExpr('{ |i| up8(i) }', lambda i: f'sp_up8({i})', lambda i: f'up8({i})')
PTYPE['|i| up(i)'] = 'u16'; PTYPE['|x| len8(x)'] = 'u8'; PTYPE['{ |i| up8(i) }'] = 'u8'

# functions usable in Map: name -> (from type, to type, specification)
MAPS = {
    'm8': ('u8', 'u16', '|nomv_x: u8| sp_m8(nomv_x)'),
    'm8b': ('u8', 'u8', '|nomv_x: u8| sp_m8b(nomv_x)'),
    'm16': ('u16', 'u32', '|nomv_x: u16| sp_m16(nomv_x)'),
    '|x: u8| m8b(x)': ('u8', 'u8', '|x: u8| sp_m8b(x)'),
    '|x: u16| x ^ 0x55': ('u16', 'u16', '|x: u16| x ^ 0x55'),
    '|x: u8| x == 3': ('u8', 'bool', '|x: u8| x == 3'),
    '|x: u16| Some(x)': ('u16', 'Option<u16>', '|x: u16| Some(x)'),
    '|x: u8| (x, 7u8)': ('u8', '(u8, u8)', '|x: u8| (x, 7u8)'),
    '|x: u8| W(x)': ('u8', 'W<u8>', '|x: u8| W(x)'),
    '|_| 9u8': ('u16', 'u8', '|nomv_x: u16| 9u8'),
}

def attr(s):
    """'Kind', 'Kind=expr' or 'Kind(expr)' (the list form)"""
    if isinstance(s, Attr): return s
    m = re.match(r'^(\w+)\s*\((.*)\)$', s, re.S)
    if m and '=' not in s.split('(')[0]: kind, x, form = m.group(1), m.group(2), 'list'
    elif '=' in s: kind, x = s.split('=', 1); kind = kind.strip(); x = x.strip(); form = None
    else: kind, x, form = s, None, None
    name, kind = kind, {'If': 'Cond', 'Default': 'Ignore'}.get(kind, kind)
    name = name if name != kind else None
    if x is None: return Attr(kind, None, None, name)
    if len(x) > 1 and x[0] == '"' and x[-1] == '"': x, form = x[1:-1], form or 'str'
    if kind in ('Parse', 'LengthCount'):
        p = PARSERS[x]
        return Attr(kind, p, form)
    if kind == 'Map':
        a, b, v = MAPS[x]
        return Attr(kind, FExpr(x, v, a), form)
    if kind in ('PreExec', 'PostExec'):
        return Attr(kind, Stmt(x), form)
    return A(kind, x, form=form, name=name)

def F(name, ty, *attrs, groups=None): return Field(name, ty, *[attr(a) for a in attrs], groups=groups)
def T(ty, *attrs, groups=None): return F('', ty, *attrs, groups=groups)

def pat_cond(p, sel='selector'):
    def one(q):
        q = q.strip()
        m = re.match(r'^(.+?)\.\.=(.+)$', q)
        if m: return f'({m.group(1).strip()} <= {sel} && {sel} <= {m.group(2).strip()})'
        return f'{sel} == {q}'
    if p.strip() == '_': return ''
    return ' || '.join(one(q) for q in p.split('|'))

def V_(name, pat, fields=(), kind=None, attrs=(), form=None, cond=None, cond_r=None):
    fields = list(fields)
    if kind is None: kind = 'unit' if not fields else ('named' if fields[0].name else 'tuple')
    v = Variant(name, pat, pat_cond(pat) if cond is None else cond, fields, kind, [attr(a) for a in attrs])
    v.selform = form or ('list' if '|' in pat or '"' in pat else 'str')
    if cond_r: v.cond_r = cond_r
    return v

def extra(k): return [Attr('ExtraArgs', X(', '.join(k['args'])), 'list')] if k.get('args') else []

def S(name, *fields, attrs=(), **k):
    fields = list(fields)
    kind = 'unit' if not fields else ('named' if fields[0].name else 'tuple')
    return TypeDef(name, k.pop('kind', kind), fields, attrs=[attr(a) for a in attrs] + extra(k), **k)

def E(name, selector, *variants, attrs=(), selform=None, **k):
    a = [Attr('Selector', X(selector), selform)] + [attr(x) for x in attrs] + extra(k)
    return TypeDef(name, 'enum', (), attrs=a, variants=list(variants), selector=selector, **k)

def FL(name, repr, *variants, attrs=(), **k):
    """fieldless enum; variants: 'A' or ('A', 5)"""
    vs = [Variant(v if isinstance(v, str) else v[0], '', '', (), 'unit', (), None if isinstance(v, str) else v[1]) for v in variants]
    return TypeDef(name, 'fieldless', (), attrs=[attr(x) for x in attrs], variants=vs, repr=repr, **k)
