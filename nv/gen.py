"""Pseudo-random programs using the derive macros (same description language as specimens.py).
focus: weights that bias what is generated, per property."""
import random
from .build import *

INTS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16']
CONSUMING = {'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'P0', 'P1', 'Pd'}

DEFAULT = dict(wrap=0.45, cursor=0.25, hook=0.12, endian=0.2, setendian=0.08, errorif=0.08, nested=0.25, group=0.3, listform=0.3, top_endian=0.3,
               top_complete=0.12, exact=0.12, inputname=0.12, generr=0.15, args=0.15, top_hook=0.15, complete=0.15, verify=0.15, cond=0.2, count=0.25,
               lengthcount=0.12, mapping=0.2, value=0.08, ignore=0.06, take=0.1, tag=0.05, container=0.18, kind=(5, 2, 4, 1), debug=0.04)
FOCUS = {
    'C04': dict(nested=0.4, container=0.3, wrap=0.3),
    'C05': dict(endian=0.5, setendian=0.25, top_endian=0.6, nested=0.35, count=0.15, cond=0.15),
    'C06': dict(count=0.6, lengthcount=0.4, wrap=0.8, kind=(5, 1, 1, 0)),
    'C07': dict(cond=0.5, verify=0.45, errorif=0.35, exact=0.4, wrap=0.7, kind=(5, 1, 2, 0)),
    'C08': dict(mapping=0.6, value=0.25, ignore=0.2, take=0.3, tag=0.2, debug=0.15, kind=(5, 2, 1, 0)),
    'C09': dict(cursor=0.8, kind=(5, 2, 2, 0), inputname=0.2),
    'C10': dict(kind=(0, 0, 1, 0)),
    'C11': dict(kind=(1, 0, 0, 6)),
    'C12': dict(complete=0.5, top_complete=0.5, kind=(5, 2, 2, 2), wrap=0.6),
    'C13': dict(cursor=0.4, hook=0.2, endian=0.3, errorif=0.15),
    'C14': dict(hook=0.5, top_hook=0.5, args=0.4, inputname=0.4, group=0.7, listform=0.5, cursor=0.4, kind=(5, 2, 2, 1)),
    'C16': dict(generr=0.75, args=0.1, kind=(5, 2, 2, 1)),
}

class G:
    def __init__(self, seed, focus=None):
        self.r = random.Random(seed)
        self.w = dict(DEFAULT); self.w.update(focus or {})
        self.types = []      # finished types of this module
        self.n = 0
    def p(self, k): return self.r.random() < self.w[k]
    def fresh(self, pre='t'):
        self.n += 1
        return f'{pre}{self.n}'
    # ------------------------------------------------ expressions
    def ivar(self, env, tys=None):
        c = [n for n, t in env if t in (tys or INTS)]
        return self.r.choice(c) if c else None
    def small(self, env):
        r = self.r; n = self.ivar(env)
        if n is None or r.random() < 0.3: return str(r.choice([0, 1, 2, 3]))
        c = [f'{n} & 3', f'{n} & 1', f'({n} & 3) as u8', f'{{ {n} & 3 }}', f'if {n} > 2 {{ 1usize }} else {{ 2usize }}']
        if dict(env)[n][0] == 'u': c.append(f'({n} % 2) as usize + 1')
        return r.choice(c)
    def num(self, env):
        n = self.ivar(env, ['u8', 'u16', 'u32', 'u64'])
        if n and self.r.random() < 0.35: return n
        return self.small(env)
    def boolx(self, env):
        r = self.r; n = self.ivar(env); m = self.ivar(env); b = self.ivar(env, ['u8'])
        if n is None: return r.choice(['true', 'false', 'true'])
        c = [f'{n} > 1', f'{n} == 1', f'{n} & 1 == 1', f'{n} != 0', f'!({n} > 2)', f'{n} > 0 && {m} < 100', f'{n} == 0 || {m} == 2', f'1 < {n}']
        if b: c += [f'is_ok8({b})', f'is_ok8({b}) && {n} != 1']
        return r.choice(c)
    def signed(self, env):
        r = self.r; n = self.ivar(env, ['u8', 'u16', 'i8'])
        if n is None or r.random() < 0.5: return str(r.choice([0, 1, 2, -1, -2, 3]))
        return r.choice([f'({n} & 3) as isize - 1', f'({n} & 1) as i8', f'({n} & 3) as i32 - 2', f'1 - ({n} & 1) as isize'])
    def nz(self, env):
        r = self.r; n = self.ivar(env, ['u8', 'u16', 'u32', 'u64'])
        if n is None or r.random() < 0.7: return str(r.choice([1, 2, 3, 4, 8]))
        return f'({n} % 4) as usize + 1'
    # ------------------------------------------------ attributes
    def form(self): return 'list' if self.p('listform') else 'str'
    def at(self, kind, x=None, name=None):
        if x is None: return Attr(kind, None, None, name)
        if not isinstance(x, X): x = X(x)
        return Attr(kind, x, self.form(), name)
    def base_type(self, consuming=False):
        r = self.r
        if self.types and self.p('nested'):
            c = [t for t in self.types if not t.special and not t.generics and (not consuming or t.consuming) and (not self.generr or t.generic_errors)]
            if c: return r.choice(c).name
        return r.choice(['u8', 'u8', 'u16', 'u32', 'P0', 'P1', 'P0', 'i8', 'i16', 'u64', 'Pd'] + (['String'] if r.random() < 0.1 and not self.generr and not consuming else []))
    def consumes(self, ty):
        if ty in CONSUMING: return True
        for t in self.types:
            if t.name == ty: return t.consuming
        return False
    def leaf(self, env, named):
        r = self.r
        if self.p('mapping'):
            m = r.choice(['m8', 'm8b', 'm16', '|x: u8| m8b(x)', '|x: u16| x ^ 0x55', '|x: u8| x == 3', '|x: u16| Some(x)', '|x: u8| (x, 7u8)', '|x: u8| W(x)', '|_| 9u8'])
            a, b, v = MAPS[m]
            ps = [p for p, t in PTYPE.items() if t == a and '|' not in p]
            k = r.random()
            if k < 0.75: return b, [self.at('Map', FExpr(m, v, a)), self.parse(r.choice(ps))], True
            return {'u16': 'u32'}.get(a, 'u16'), [self.at('Into'), self.parse(r.choice([p for p in ps]))], True
        if self.p('take'):
            if self.lt:
                return "&'a [u8]", [self.at('Take', self.num(env))], False
        if self.p('tag') and self.lt: return "&'a [u8]", [Attr('Tag', X(r.choice(['b"a"', 'b"TA"', 'b"\\x00"', 'b"\\x01\\x02"', 'b""'])), 'list')], False
        if self.p('value'):
            n = self.ivar(env)
            if n and r.random() < 0.6: return dict(env)[n], [self.at('Value', n)], False
            return r.choice([('u16', [self.at('Value', '7u16')], False), ('bool', [self.at('Value', self.boolx(env))], False), ('usize', [self.at('Value', f'{self.inp}.len()')], False)])
        if self.p('ignore'): return r.choice(['u8', 'u32', 'Option<u8>', 'Vec<u8>', 'bool', 'u64']), [self.at('Ignore', name=r.choice([None, 'Default']))], False
        if self.p('container'):
            k = r.randrange(5)
            if k == 0: return f'Option<{self.base_type()}>', [], False
            if k == 1: return f'Vec<{self.base_type(True)}>', [], False
            if k == 2 and not self.generr: return f'[{self.base_type(True)}; {r.choice([1, 2, 3])}]', [], True
            if k == 3: return f'Option<({self.base_type()}, {self.base_type()})>', [], False
            return 'PhantomData<u16>', [], False
        if r.random() < 0.12:
            q = r.choice([p for p in PTYPE if '|' not in p])
            return PTYPE[q], [self.parse(q)], True
        t = self.base_type()
        if named and not self.generr and self.p('debug'): return t, [self.at('Debug')], self.consumes(t)
        return t, [], self.consumes(t)
    def parse(self, p): return Attr('Parse', PARSERS[p], self.form())
    def chain(self, env, name, depth=0):
        """(type, attributes, consumes at least one byte)"""
        r = self.r
        named = bool(name)
        if depth < 3 and self.r.random() < self.w['wrap'] * (1.0 if depth == 0 else 0.7):
            k = r.choices(['cond', 'count', 'lengthcount', 'complete', 'verify'], [self.w[x] for x in ('cond', 'count', 'lengthcount', 'complete', 'verify')])[0]
            t, a, c = self.chain(env, name, depth + 1)
            if k != 'verify' and k != 'complete' and t.startswith('PhantomData'): return t, a, c
            if k == 'cond': return f'Option<{t}>', [self.at('Cond', self.boolx(env), name=r.choice([None, 'If']))] + a, False
            if t.startswith('(') : return t, a, c
            if k == 'count': return f'Vec<{t}>', [self.at('Count', self.num(env) if c else self.small(env))] + a, False
            if k == 'lengthcount':
                if not c: return t, a, c
                q = r.choice(['len8', 'len8', 'len16', 'be_u16', 'le_u16', 'len64'])
                return f'Vec<{t}>', [Attr('LengthCount', PARSERS[q], self.form())] + a, True
            if k == 'complete' or not named: return (t, a, c) if any(x.kind == 'Debug' for x in a) and 0 else (t, [self.at('Complete')] + a, c)
            if t in INTS: return t, [self.at('Verify', r.choice([f'*{name} > 1', f'*{name} != 3', f'2 < *{name}', f'*{name} & 1 == 0', f'*{name} < 50 || *{name} > 100']))] + a, c
            if t.startswith('Vec<'): return t, [self.at('Verify', r.choice([f'vlen({name}) > 0', f'vlen({name}) != 2']))] + a, c
            if t.startswith('Option<'): return t, [self.at('Verify', f'osome({name})')] + a, c
            return t, a, c
        return self.leaf(env, named)
    def field(self, env, name, k, enum=False):
        """a field and what it makes available"""
        r = self.r
        nm = name or f'_{k}'
        t, a, c = self.chain(env, name)
        if k == 0 and t not in INTS and r.random() < 0.7: t, a, c = r.choice(['u8', 'u8', 'u16']), [], True
        hooks = []
        def ins(x): a.insert(r.randrange(len(a) + 1) if not any(y.kind in TERMINAL for y in a) else r.randrange(len(a) + 1), x)
        en = None
        if t.startswith('PhantomData') and a: a = [x for x in a if x.kind == 'Complete']
        if self.p('setendian'):
            e = self.ivar(env, ['u8'])
            ins(self.at('SetEndian', f'pick({e})' if e else r.choice(['nom::number::Endianness::Little', 'nom::number::Endianness::Big'])))
        elif self.p('endian'): ins(self.at(r.choice(['BigEndian', 'LittleEndian'])))
        new, postnew = [], []
        nc = 0
        while self.p('cursor') and nc < 3 and self.budget > 0:
            nc += 1
            k2 = r.choice(['AlignBefore', 'AlignAfter', 'SkipBefore', 'SkipAfter', 'Move', 'MoveAbs', 'SkipBefore', 'AlignBefore'])
            e2 = env
            self.budget -= 1.5 if k2.startswith('Align') else 1
            if k2.startswith('Align'): x = self.nz(e2)
            elif k2 == 'Move': x = self.signed(e2)
            else: x = self.num(e2) if r.random() < 0.3 else self.small(e2)
            ins(self.at(k2, x))
        if self.p('errorif'): ins(self.at('ErrorIf', self.boolx(env) if r.random() < 0.75 else f'{self.inp}.len() < {r.choice([2, 3, 5])}'))
        while self.p('hook'):
            v = self.fresh('h')
            post = r.random() < 0.5
            n = self.ivar(env, ['u8']); n16 = self.ivar(env, ['u16'])
            if n and r.random() < 0.5: x, ty = f'let {v} = {n} ^ 1;', 'u8'
            elif n16 and r.random() < 0.5: x, ty = f'let {v} = {n16} & 7;', 'u16'
            else: x, ty = f'let {v} = {self.inp}.len();', 'usize'
            q = Attr('PostExec' if post else 'PreExec', Stmt(x), self.form())
            ins(q); (postnew if post else new).append((v, ty))
        groups = None
        if self.p('group') and len(a) > 1:
            groups = []; left = len(a)
            while left: g = r.randint(1, left); groups.append(g); left -= g
        f = Field(name, t, *a, groups=groups)
        return f, new + postnew + ([(nm, t)] if t in INTS else []), c and not any(x.kind in ('Move', 'MoveAbs') for x in a)
    def fields(self, env, named, lo=1, hi=5, enum=False):
        fs, env, cons = [], list(env), False
        if not enum: self.budget = 6.0
        for k in range(self.r.randint(lo, hi)):
            if self.budget <= 0 and k > 0: break
            self.budget -= 0.6
            f, new, c = self.field(env, self.fresh('f') if named else '', k)
            fs.append(f); env += new
            if any(x.kind in ('Move', 'MoveAbs') for x in f.attrs): cons = False
            else: cons = cons or c
        return fs, env, cons
    # ------------------------------------------------ types
    def top(self, kind, simple=False):
        r = self.r; a = []; self.inp = 'i'
        derive = 'Nom'
        if self.p('top_endian'):
            k = r.randrange(6)
            if k == 0: derive = 'NomBE'
            elif k == 1: derive = 'NomLE'
            elif k in (2, 3): a.append(self.at('LittleEndian'))
            elif k == 4: a.append(self.at('BigEndian'))
            elif kind != 'fieldless': a.append(self.at('SetEndian', r.choice(['nom::number::Endianness::Little', 'nom::number::Endianness::Big'])))
        if self.p('top_complete'): a.append(self.at('Complete'))
        if self.p('exact'): a.append(self.at('Exact'))
        if self.p('inputname'): self.inp = self.fresh('inp'); a.append(Attr('InputName', X(self.inp), self.form()))
        self.generr = self.p('generr')
        if self.generr: a.append(self.at('GenericErrors'))
        env = []
        while self.p('top_hook'):
            v = self.fresh('h'); post = r.random() < 0.3
            if post: x = 'let struct_def = struct_def;' if kind in ('named', 'tuple', 'unit') else 'let enum_def = enum_def;'
            else: x = f'let {v} = {self.inp}.len();'; env.append((v, 'usize'))
            a.append(Attr('PostExec' if post else 'PreExec', Stmt(x), self.form()))
        r.shuffle(a)
        args, argvals = [], ['']
        if kind != 'fieldless' and self.p('args'):
            n = r.randint(1, 2)
            tys = [r.choice(['u8', 'u16', 'u8']) for _ in range(n)]
            nm = [self.fresh('k') for _ in tys]
            args = [f'{x}: {t}' for x, t in zip(nm, tys)]
            argvals = [', '.join(str(r.choice([0, 1, 2, 3, 7])) for _ in tys) for _ in range(3)]
            env += list(zip(nm, tys))
        return a, derive, env, args, argvals
    def groups(self, a):
        if not self.p('group') or len(a) < 2: return None
        g = []; left = len(a)
        while left: k = self.r.randint(1, left); g.append(k); left -= k
        return g
    def finish(self, td, cons): td.consuming = cons; self.types.append(td); return td
    def struct(self):
        r = self.r
        kind = r.choices(['named', 'tuple', 'unit'], [6, 3, 0.4])[0]
        self.lt = r.random() < 0.25
        a, derive, env, args, av = self.top(kind)
        name = self.fresh('S')
        fs, env, cons = ([], env, False) if kind == 'unit' else self.fields(env, kind == 'named')
        g = "<'a>" if self.lt and any("'a" in f.ty for f in fs) else ''
        attrs = a + ([Attr('ExtraArgs', X(', '.join(args)), 'list')] if args else [])
        td = TypeDef(name, kind, fs, attrs=attrs, derive=derive, generics=g, args=args, argvals=av, groups=self.groups(attrs))
        return self.finish(td, cons)
    def pats(self, sel, n):
        """n patterns (pattern, condition) over an unsigned selector type"""
        r = self.r; out = []
        for _ in range(n):
            k = r.random()
            if k < 0.5: out.append((str(r.choice([0, 1, 2, 3, 5, 9])), None, None))
            elif k < 0.7: x = r.choice([0, 1, 3]); out.append((f'{x}..={x + r.choice([1, 4, 100])}', None, None))
            elif k < 0.85: out.append((f'{r.choice([0, 1])} | {r.choice([2, 3])}', None, 'list'))
            else: c = r.choice([1, 3, 100]); out.append((f'x if x > {c}', f'selector > {c}', 'list'))
        return out
    def enum(self):
        r = self.r
        self.lt = r.random() < 0.25
        a, derive, env, args, av = self.top('enum')
        if self.generr and args: pass
        sel = r.choice(['u8', 'u8', 'u16', 'u32', 'u64'])
        name = self.fresh('E'); vs = []
        n = r.randint(1, 4)
        ps = self.pats(sel, n)
        dfl = r.randrange(n) if r.random() < 0.5 else None
        self.budget = 7.0
        allc = True
        for k in range(n):
            pat, cond, form = ('_', None, None) if k == dfl else ps[k]
            kind = r.choices(['named', 'tuple', 'unit'], [4, 4, 2])[0]
            e2 = env + [('selector', sel)]
            if kind == 'unit':
                va = []
                if r.random() < 0.5: va.append(self.parse(r.choice(['up', 'up8', 'be_u16', 'le_u32'])))
                if self.p('cursor'): va.insert(r.randrange(len(va) + 1), self.at(r.choice(['SkipBefore', 'SkipAfter', 'AlignBefore']), str(r.choice([1, 2]))))
                vs.append(V_(f'V{k}', pat, [], 'unit', va, form, cond)); allc = False
            else:
                fs, _, c = self.fields(e2, kind == 'named', 1, 4, True); allc = allc and c
                vs.append(V_(f'V{k}', pat, fs, kind, [], form, cond))
        g = "<'a>" if self.lt and any("'a" in f.ty for v in vs for f in v.fields) else ''
        attrs = [Attr('Selector', X(sel), self.form())] + a + ([Attr('ExtraArgs', X(', '.join(args)), 'list')] if args else [])
        svals = r.sample([0, 1, 2, 3, 4, 5, 9, 101, 200], 5)
        argv = [', '.join(x for x in (str(s), r.choice(av)) if x) for s in svals]
        td = TypeDef(name, 'enum', (), attrs=attrs, derive=derive, variants=vs, selector=sel, generics=g, args=args, argvals=argv, groups=self.groups(attrs))
        return self.finish(td, allc)
    def fieldless(self):
        r = self.r
        a, derive, env, args, av = self.top('fieldless')
        rp = r.choice(['u8', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16'])
        top = {'u8': 255, 'i8': 127}.get(rp, 600)
        used, vs, nxt = set(), [], 0
        for k in range(r.randint(1, 7)):
            d = None
            if r.random() < 0.4:
                d = r.choice([0, 1, 2, 3, 5, 7, 100, 127, 255, 256, 512, -1, -2])
                if d < 0 and rp[0] == 'u': d = -d
                if d > top: d = k
            val = nxt if d is None else d
            if val in used or val > top:
                val = d = next(x for x in range(1, 200) if x not in used and x <= top)
            used.add(val); nxt = val + 1
            vs.append(f'V{k}' if d is None else (f'V{k}', d))
        td = FL(self.fresh('F'), rp, *vs, derive=derive); td.attrs = a; td.groups = self.groups(a)
        for x in a:
            if x.kind == 'InputName': td.input_name = x.x.rust
        return self.finish(td, True)
    def wrapper(self, e):
        """a struct that reads a selector and then the enum e"""
        r = self.r; self.inp = 'i'; self.generr = False; self.lt = False
        s = 'u8' if e.selector != 'u16' else 'u16'
        av = e.argvals[0].split(', ')[1:]
        call = f"{e.name}::%s(%s, sel as {e.selector}{''.join(', ' + x for x in av)})"
        fs = [F('sel', s), Field('x', e.name + ("<'a>" if e.generics else ''), Attr('Parse', PExpr('{ |i| ' + call % ('parse', 'i') + ' }', lambda i: call % ('sp', i), lambda i: call % ('parse', i)))), F('z', 'u8')]
        td = S(self.fresh('S'), *fs, generics=e.generics)
        return self.finish(td, True)

def gen_spec(sid, seed, focus=None, n=3):
    g = G(seed, focus)
    for _ in range(n):
        k = g.r.choices(['s', 'w', 'e', 'f'], g.w['kind'])[0]
        if k == 'e':
            e = g.enum()
            if g.r.random() < 0.3 and not e.generic_errors: g.wrapper(e)
        elif k == 'f': g.fieldless()
        else: g.struct()
    return Spec(sid, g.types)

def programs(pid, count, seed):
    return [gen_spec(f'g{seed}_{k}', f'{pid}:{seed}:{k}', FOCUS.get(pid)) for k in range(count)]
