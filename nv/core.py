"""Build, extraction, verification and native comparison of a set of specimens."""
import json, os, re, shutil, subprocess, sys, time, hashlib
from . import dsl, lib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('NV_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')

def log(*a): print(*a, file=sys.stderr, flush=True)

def run(cmd, cwd=None, env=None, timeout=600, input=None):
    e = dict(os.environ); e.update({'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never'}); e.pop('RUSTFLAGS', None); e.pop('CARGO_TARGET_DIR', None)
    if env: e.update(env)
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=input)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired as ex:
        return -9, (ex.stdout or b'').decode('utf8', 'replace'), (ex.stderr or b'').decode('utf8', 'replace'), time.time() - t

class Broken(Exception):
    """the machinery itself could not run (not a verdict)"""

def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == s: return
    with open(p, 'w') as f: f.write(s)

# ------------------------------------------------------------------ cargo project with the specimens
def cargo_toml(name, std=True, extra=''):
    feats = '' if std else ', default-features = false'
    return (f'[package]\nname = "{name}"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
            f'nom-derive = {{ path = "{REPO}"{feats} }}\nnom = {{ version = "8.0", default-features = false{", features = [" + chr(34) + "std" + chr(34) + "]" if std else ""} }}\n\n'
            f'[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\noverflow-checks = true\n{extra}')

MAIN = '''#![allow(unused, non_camel_case_types, clippy::all)]
mod rt;
mod h;
%s
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (seed, maxlen, rnd): (u64, usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let inputs = if a.len() > 5 { rt::one_input(&a[5]) } else { rt::make_inputs(seed, maxlen, rnd) };
    let mut ctx = rt::Ctx { cases: 0, nontrivial: 0, fails: 0, inputs, trace: std::env::var("NV_TRACE").is_ok(), given: a.len() > 5, sample: None };
    for f in [%s] {
        let (name, f): (&str, fn(&mut rt::Ctx)) = f;
        if a.len() > 4 && !a[4].split(',').any(|x| x == name) { continue; }
        let (c0, n0) = (ctx.cases, ctx.nontrivial);
        ctx.sample = None;
        f(&mut ctx);
        println!("DONE\\t{}\\t{}\\t{}\\t{}", name, ctx.cases - c0, ctx.nontrivial - n0, ctx.sample.clone().unwrap_or_default().replace(['\\t', '\\n'], " "));
    }
    println!("END\\t{}\\t{}\\t{}", ctx.cases, ctx.nontrivial, ctx.inputs.len());
}
'''

def lockfile(d):
    """the dependency versions: as committed in /verif (Cargo.lock is not tracked in /repo)"""
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock): shutil.copy(os.path.join(ROOT, 'rt', 'Cargo.lock'), lock)

class Project:
    def __init__(self, name, specs):
        self.live = []
        self.name, self.specs = name, list(specs)
        self.dir = os.path.join(BUILD, 'crates', name)
        self.target = os.path.join(BUILD, 'target')
        self.failed = {}       # spec id -> compiler message (does not compile any more)
        self.crate = 'nvsp_' + re.sub(r'\W', '_', name)

    def env(self): return {'CARGO_TARGET_DIR': self.target, 'RUSTC_BOOTSTRAP': self.crate}

    def emit(self, specs):
        files = {'Cargo.toml': cargo_toml(self.crate)}
        mods = ''
        for s in specs:
            files[f'src/s_{s.id}.rs'] = strip_mod(dsl.spec_src(s))
            files[f'src/r_{s.id}.rs'] = strip_mod(dsl.ref_src(s))
            files[f'src/n_{s.id}.rs'] = 'use crate::*;\n' + dsl.run_src(s)
            mods += f'mod s_{s.id};\nmod r_{s.id};\nmod n_{s.id};\n'
        files['src/main.rs'] = MAIN % (mods, ', '.join(f'("{s.id}", n_{s.id}::run_{s.id} as fn(&mut rt::Ctx))' for s in specs))
        for f in ('rt.rs', 'h.rs'): files['src/' + f] = open(os.path.join(ROOT, 'rt', f)).read()
        for f, t in files.items(): write(os.path.join(self.dir, f), t)
        lockfile(self.dir)

    def compile(self):
        """build; specimens the compiler rejects are set aside in self.failed"""
        specs = list(self.specs)
        for attempt in range(12):
            self.emit(specs)
            rc, out, err, dt = run(['cargo', 'build', '--offline', '--message-format=json'], cwd=self.dir, env=self.env(), timeout=800)
            if rc == 0:
                self.live = specs
                return
            bad = {}
            for l in out.splitlines():
                if not l.startswith('{'): continue
                m = json.loads(l)
                if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
                if self.crate not in m.get('package_id', '') and m.get('target', {}).get('name') != self.crate: continue
                for sp in all_spans(m['message']):
                    k = re.search(r'src/[srn]_(\w+)\.rs$', sp['file_name'])
                    if k: bad.setdefault(k.group(1), m['message'].get('rendered') or m['message']['message'])
            if not bad:
                raise Broken('cargo build failed without pointing at a specimen:\n' + err[-4000:] + out[-2000:])
            for k, v in bad.items(): self.failed.setdefault(k, v)
            specs = [s for s in specs if s.id not in self.failed]
            if not specs: self.live = []; return
        raise Broken('cannot isolate failing specimens')

    def last_case(self, sid):
        """the case during which the program died"""
        exe = os.path.join(self.target, 'debug', self.crate)
        rc, out, err, dt = run([exe, str(SEED), '14', '3', sid], timeout=120, env={'NV_TRACE': '1'})
        l = [x for x in err.splitlines() if x.startswith('CASE\t')]
        return l[-1][5:].replace('\t', ' ') if l else '?'

    def native(self, maxlen, rnd, timeout=600, seed=None, only=None, input=None):
        exe = os.path.join(self.target, 'debug', self.crate)
        rc, out, err, dt = run([exe, str(seed or SEED), str(maxlen), str(rnd)] + ([only] if only else []) + ([input] if input is not None else []), timeout=timeout)
        fails, done, total = [], {}, None
        for l in out.splitlines():
            p = l.split('\t')
            if p[0] == 'FAIL' and len(p) >= 7: fails.append(dict(spec=p[1], func=p[2], input=p[3], args=p[4], got=p[5], want=p[6]))
            elif p[0] == 'DONE': done[p[1]] = (int(p[2]), int(p[3]), p[4] if len(p) > 4 else '')
            elif p[0] == 'END': total = (int(p[1]), int(p[2]), int(p[3]))
        crashed = None
        if total is None:
            rest = [s.id for s in self.live if s.id not in done and (not only or s.id == only)]
            crashed = (rest[0] if rest else None, rc, err[-1000:])
        return fails, done, total, crashed, dt

    def expanded(self):
        # on its own target directory: the expansion must not disturb the build
        env = self.env()
        rc, out, err, dt = run(['cargo', 'rustc', '--offline', '--', '-Zunpretty=expanded'], cwd=self.dir, env=env, timeout=600)
        if rc != 0: raise Broken('macro expansion failed:\n' + err[-3000:])
        return out

def strip_mod(s):
    """'pub mod x {...}' -> file contents"""
    k = s.index('{'); body = s[k + 1:s.rindex('}')]
    return body

def all_spans(m):
    out = list(m.get('spans', []))
    res = []
    while out:
        s = out.pop()
        res.append(s)
        e = s.get('expansion')
        if e and e.get('span'): out.append(e['span'])
    for c in m.get('children', []): res += all_spans(c)
    return res

# ------------------------------------------------------------------ extraction
def nvextract():
    d = os.path.join(ROOT, 'tools', 'extract')
    t = os.path.join(BUILD, 'tools')
    exe = os.path.join(t, 'release', 'nvextract')
    rc, out, err, _ = run(['cargo', 'build', '--offline', '--release', '-q'], cwd=d, env={'CARGO_TARGET_DIR': t}, timeout=600)
    if rc != 0: raise Broken('cannot build the extractor: ' + err[-2000:])
    return exe

def extract(expanded, tag):
    p = os.path.join(BUILD, 'verus', tag + '.expanded.rs'); o = os.path.join(BUILD, 'verus', tag + '.extracted.rs')
    write(p, expanded)
    rc, out, err, _ = run([nvextract(), p, o])
    if rc != 0: raise Broken('extractor failed: ' + err[-2000:])
    return open(o).read()

def split_modules(txt):
    mods, cur, name = {}, [], None
    for l in txt.splitlines():
        m = re.match(r'//@MOD (\w+)', l)
        if m: name, cur = m.group(1), []; continue
        m = re.match(r'//@END (\w+)', l)
        if m: mods[m.group(1)] = cur; name = None; continue
        if name: cur.append(l)
    return mods

def norm_ty(t): return re.match(r'\s*(\w+)', t).group(1)

def build_module(sp, lines):
    """splice the contracts into the extracted text of one specimen; returns (text, functions, problems)"""
    # the verifier's back end does not read raw identifiers: r#x is renamed raw_x throughout
    raw = lambda t: re.sub(r'(?<![A-Za-z0-9"])r#(?=[A-Za-z_])', 'raw_', t)
    lines = [raw(l) for l in lines]
    types = {raw(t.name): t for t in sp.types}
    out, fns, bad = [], [], []
    cur = None
    for l in lines:
        m = re.match(r'//@IMPL (\w+) (.*)', l)
        if m: cur = types.get(norm_ty(m.group(2))); implkind = m.group(1); out.append(l); continue
        if l.startswith('//@SPEC'):
            if cur is None: bad.append('impl of an unknown type'); continue
            lf = "'nom"
            out.append(raw(dsl.verus_specs(sp, cur, lf))); continue
        m = re.match(r'//@BAD (\w+) (.*)', l)
        if m: bad.append(f'{cur.name if cur else "?"}::{m.group(1)}: {m.group(2)}'); continue
        m = re.match(r'//@FN (\w+)', l)
        if m and cur is not None: fns.append(f'{cur.name}::{m.group(1)}'); out.append(l); continue
        if l.startswith('//@TYPARAM'): continue
        out.append(l)
    want = [f'{t.name}::{f}' for t in sp.types for f in ('parse_be', 'parse_le', 'parse')]
    missing = [f for f in want if f not in fns]
    if missing: bad.append('functions not found in the expansion: ' + ', '.join(missing))
    text = (f"pub mod s_{sp.id} {{ use super::nomv; use super::nomv::*; use super::h; use super::h::*; use vstd::prelude::*; use core::marker::PhantomData;\n"
            f"{lib.BROADCAST}\n{sp.extra_v}\n" + '\n'.join(out) + "\n}\n")
    lits = sorted(set(re.findall(r'\bnomv_lit_([0-9a-f]*)\b', text)))
    if lits:
        k = text.rindex('}')
        text = text[:k] + ''.join(f"#[verifier::external_body] fn nomv_lit_{h}() -> (r: nomv::Lit) ensures r == nomv::mk_lit({lit_seq(h)}) {{ unimplemented!() }}\n" for h in lits) + text[k:]
    return text, fns, bad

def lit_seq(h):
    bs = bytes.fromhex(h)
    return 'seq![' + ', '.join(f'{b}u8' for b in bs) + ']' if bs else 'Seq::<u8>::empty()'

VERUS = 'verus'
def verus_run(path, rlimit=30, timeout=700, extra=()):
    cmd = [VERUS, path, '--output-json', '--time', '--multiple-errors', '3', '--rlimit', str(rlimit), '--error-format=json', '--num-threads', '8', '--triggers-mode', 'silent', *extra]
    rc, out, err, dt = run(cmd, cwd=os.path.dirname(path), timeout=timeout, env={"RUST_MIN_STACK": "268435456"})
    res = None
    try: res = json.loads(out[out.index('{'):])
    except Exception: pass
    msgs = []
    for l in err.splitlines():
        if l.startswith('{'):
            try: msgs.append(json.loads(l))
            except Exception: pass
    return rc, res, msgs, err, dt
