"""C01, C02, C03: the library types.  The real source of nom-derive/src is macro-expanded, extracted and verified
against the contracts that every other check relies on."""
import concurrent.futures as cf, json, os, re, time
from . import core, lib, check as C
from .core import log, BUILD, ROOT, REPO, run, write

PR = lib.PRIMS
KEYS_NA = {'C01': PR, 'C02': ['Option', 'Tuple', 'Array'], 'C03': ['LengthData', 'LengthDataNew']}
KEYS = {'C01': PR, 'C02': ['Option', 'Vec', 'Tuple', 'Array'], 'C03': ['String', 'LengthData', 'LengthDataNew']}
RUNS = {
    'C01': [('prims', PR + ['Pd', 'P0'])],
    'C02': [('option', ['Option<u8>', 'Option<u16>', 'Option<u32>', 'Option<P0>', 'Option<P1>', 'Option<Option<P0>>', 'Option<(P0, P1)>', 'Option<[u16; 2]>', 'Option<Vec<P1>>', 'Option<Pd>', 'Option<U0>']),
            ('vec', ['Vec<u8>', 'Vec<u16>', 'Vec<u32>', 'Vec<P0>', 'Vec<P1>', 'Vec<(P0, u16)>', 'Vec<[u8; 3]>', 'Vec<Pd>', 'Vec<U0>', 'Vec<Option<u8>>', 'Vec<(u8, Vec<P1>)>', 'Vec<f32>']),
            ('pair', ['(u8, u16)', '(P0, P1)', '(P1, u32)', '((u8, P0), P1)', '(P0, (Option<u8>, Vec<P1>))', '(Pd, P0)', '(U0, u8)', '(u64, i16)']),
            ('array', ['[u8; 1]', '[u8; 4]', '[u16; 3]', '[u32; 2]', '[P0; 2]', '[P1; 3]', '[u8; 0]', '[P1; 0]', '[[u16; 2]; 2]', '[(P0, u8); 2]', '[Option<P0>; 1]', '[Pd; 2]', '[U0; 2]', '[u8; 16]', '[u16; 5]'])],
    'C03': [('string', ['String', 'Option<String>', 'Vec<String>', '(u8, String)']),
            ('length_data', ["LengthData<u8, In<'_>>", "LengthData<u16, In<'_>>", "LengthData<u32, In<'_>>", "LengthData<u64, In<'_>>", "LengthData<Lx, In<'_>>", "(LengthData<u8, In<'_>>, u8)", "Vec<LengthData<u8, In<'_>>>"])],
}
NOALLOC = {'C01': [('prims', PR)], 'C02': [('array', ['[u8; 1]', '[u8; 4]', '[u16; 3]', '[u32; 2]', '[P0; 2]', '[P1; 3]', '[u8; 0]', '[[u16; 2]; 2]', '[Pd; 2]', '[U0; 2]']), ('option', ['Option<u8>', 'Option<u16>', 'Option<P0>', 'Option<P1>']), ('pair', ['(u8, u16)', '(P0, P1)'])],
           'C03': [('length_data', ["LengthData<u8, In<'_>>", "LengthData<u16, In<'_>>"])]}
ALIAS = '''
fn aliases(ctx: &mut Ctx) {
    use nom_derive::*;
    use std::any::type_name as n;
    for (a, b, w) in [(n::<LengthDataU8>(), n::<LengthData<u8, In>>(), "LengthDataU8"), (n::<LengthDataU16>(), n::<LengthData<u16, In>>(), "LengthDataU16"),
                      (n::<LengthDataU32>(), n::<LengthData<u32, In>>(), "LengthDataU32"), (n::<LengthDataU64>(), n::<LengthData<u64, In>>(), "LengthDataU64")] {
        ctx.cases += 1;
        if a != b { println!("FAIL\\taliases\\t{}\\t\\t()\\t{}\\t{}", w, a, b); }
    }
}
'''

class LibProject(core.Project):
    """the comparison program"""
    def __init__(self, name, runs, noalloc=False):
        self.name, self.live, self.failed = name, [], {}
        self.dir = os.path.join(BUILD, 'crates', name)
        self.target = os.path.join(BUILD, 'target_na' if noalloc else 'target')
        self.crate = 'nvsp_' + re.sub(r'\W', '_', name)
        self.runs, self.noalloc = runs, noalloc
    def compile(self):
        body = ''
        for n, ts in self.runs:
            body += f'fn run_{n}(ctx: &mut Ctx) {{ check!(ctx, "{n}", {", ".join(ts)}); }}\n'
        al = any(n == 'length_data' for n, _ in self.runs)
        if al: body += ALIAS
        body += 'const RUNS: &[(&str, fn(&mut Ctx))] = &[' + ', '.join(f'("{n}", run_{n})' for n, _ in self.runs) + (', ("aliases", aliases)' if al else '') + '];\n'
        main = open(os.path.join(ROOT, 'rt', 'lib_main.rs')).read().replace('//@RUNS', body)
        write(os.path.join(self.dir, 'Cargo.toml'), core.cargo_toml(self.crate, std=not self.noalloc, extra='\n[lints.rust]\nunexpected_cfgs = "allow"\n').replace('\n[profile', '\n[profile'))
        write(os.path.join(self.dir, 'src/main.rs'), main)
        for f in ('rt.rs', 'h.rs'): write(os.path.join(self.dir, 'src', f), open(os.path.join(ROOT, 'rt', f)).read())
        core.lockfile(self.dir)
        rc, out, err, dt = run(['cargo', 'build', '--offline', '--message-format=json'], cwd=self.dir, env={'CARGO_TARGET_DIR': self.target, 'RUSTFLAGS': '--cfg noalloc'} if self.noalloc else self.env(), timeout=800)
        if rc == 0: return None
        msg = []
        for l in out.splitlines():
            if l.startswith('{'):
                m = json.loads(l)
                if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error': msg.append(m['message'].get('rendered') or m['message']['message'])
        return '\n'.join(msg)[:4000] or err[-3000:]

def expanded_lib(P):
    rc, out, err, dt = run(['cargo', 'rustc', '--offline', '-p', 'nom-derive', '--lib', '--', '-Zunpretty=expanded'], cwd=P.dir, env={'CARGO_TARGET_DIR': P.target, 'RUSTC_BOOTSTRAP': 'nom_derive'}, timeout=600)
    if rc != 0: raise core.Broken('expansion of the library failed: ' + err[-2000:])
    return out

def extract_lib(txt, tag):
    p = os.path.join(BUILD, 'verus', tag + '.expanded.rs'); o = os.path.join(BUILD, 'verus', tag + '.extracted.rs')
    write(p, txt)
    rc, out, err, _ = run([core.nvextract(), p, o, 'lib'])
    if rc != 0: raise core.Broken('extractor failed: ' + err[-2000:])
    return core.split_modules(open(o).read())

def verify(pid, tier, rep, mods, na=False):
    """returns {key: [(message, function, rendered)]} of obligations that were not discharged; na: the build without default features"""
    x = lib.lib_modules(mods, na)
    keys = list((KEYS_NA if na else KEYS)[pid])
    use = {}
    for k in keys:
        if k not in x: rep.degraded.append((k, 'not found in the expansion of the library')); continue
        if x[k][2]: rep.degraded.append((k, 'not translated: ' + '; '.join(x[k][2])[:300])); continue
        use[k] = x[k][0]
    if 'LengthDataNew' in use or 'LengthData' in use:
        if 'LengthDataStruct' in x: use['LengthDataStruct'] = x['LengthDataStruct'][0]
    def go(use, tag, rlimit=30):
        txt = lib.prelude(use, na) + lib.hmirror() + 'verus!{ pub mod thm { use super::nomv::*; use super::nomv; use vstd::prelude::*;\n' + lib.theorems(pid) + '}}\nfn main(){}\n'
        p = os.path.join(BUILD, 'verus', tag + '.rs'); write(p, txt)
        rc, res, msgs, err, dt = core.verus_run(p, rlimit=rlimit, timeout=300)
        rep.verus['runs'] += 1
        r = dict(rc=rc, res=res, msgs=msgs, err=err, vr=(res or {}).get('verification-results', {}), own=C.owner_map(txt), lines=txt.split('\n'))
        return (r,) + C.classify(msgs, r['own'], r['lines'])
    tag = f'{pid}_{tier}' + ('_na' if na else '')
    for attempt in range(8):
        r, fails, rl, bad, loose = go(use, tag)
        if bad or not r['vr'] or r['vr'].get('encountered-vir-error') or (loose and not fails and not rl):
            drop = [k for k in bad if k in use]
            if not drop:
                # find the culprits one by one
                for k in [k for k in use if k != 'LengthDataStruct']:
                    one = {k: use[k]}
                    if k in ('LengthData', 'LengthDataNew') and 'LengthDataStruct' in use: one['LengthDataStruct'] = use['LengthDataStruct']
                    r1, f1, l1, b1, o1 = go(one, f'{tag}_{k}')
                    if b1 or not r1['vr'] or r1['vr'].get('encountered-vir-error'): drop.append(k); bad[k] = str(list(b1.values()) or [m['message'] for m in o1] or r1['err'][-300:])
            if not drop: rep.degraded.append((tag, 'verifier error: ' + r['err'][-300:])); return {}
            for k in drop: rep.degraded.append((k, "outside the verifier's dialect: " + bad[k][:300])); use.pop(k)
            continue
        break
    C.Verifier.account(type('X', (), {'rep': rep})(), r)
    if fails or rl:
        r2, f2, l2, b2, o2 = go(use, tag + '_again', 200)
        if r2['vr'] and not b2:
            n = len({(m, fn) for m, _, fn, _ in fails} | set(rl)) - len({(m, fn) for m, _, fn, _ in f2} | set(l2))
            rep.verus['discharged'] += max(0, n)
            fails, rl = f2, l2
    for m, fn in rl: rep.degraded.append((m, f'{fn}: resource limit exceeded (undecided)'))
    rep.verus['modules'] = (rep.verus['modules'] if na else 0) + len(use)
    if na: rep.verus['functions'] += ['no default features: ' + f for k in use if k in x for f in x[k][1]]
    else: rep.verus['functions'] = [f for k in use if k in x for f in x[k][1]] + [f'theorem {t}' for t in re.findall(r'proof fn (\w+)', lib.theorems(pid))]
    rep.cmds.append(f'verus .build/verus/{tag}.rs --rlimit 30')
    out = {}
    for m, t, fn, txt in fails: out.setdefault(m, []).append((t, fn, txt))
    return out

def native(rep, P, tier, maxlen, rnd, seed=None, timeout=300):
    fails, done, total, crashed, dt = P.native(maxlen, rnd, timeout=timeout, seed=seed)
    rep.native['evaluations'] += sum(d[0] for d in done.values()); rep.native['nontrivial'] += sum(d[1] for d in done.values()); rep.native['programs'] += len(done)
    rep.samples += [d[2] for d in done.values() if d[2]][:6]
    return fails, crashed, done

def report_native(rep, fails, crashed, conf, done):
    best = {}
    for f in fails:
        k = f['func'].split('[')[0]
        if k not in best or len(f['input']) < len(best[k]['input']): best[k] = f
    for k, f in sorted(best.items(), key=lambda x: len(x[1]['input'])):
        rep.violation(f"{conf}{f['func']} on input {f['input'] or '(empty)'}: got {f['got'][:200]}, must be {f['want'][:200]}", f"native:{conf}{f['func']}:{f['input']}",
                      dict(kind='lib', group=f['spec'], conf=conf, function=f['func'], input_hex=f['input'], got=f['got'], expected=f['want']))
    if crashed: rep.violation(f'{conf}the comparison program dies (status {crashed[1]}) after {sorted(done)}', f'crash:{conf}{crashed[1]}', dict(kind='libcrash', conf=conf, status=crashed[1], stderr=crashed[2]))
    return bool(best) or bool(crashed)

def check(pid, tier, rep):
    P = LibProject(f'lib{pid}', RUNS[pid])
    N = LibProject(f'libna{pid}', NOALLOC[pid], noalloc=True)
    with cf.ThreadPoolExecutor(8) as ex:
        fx = ex.submit(core.nvextract)
        fna = ex.submit(N.compile)
        fk = ex.submit(kani, pid, tier, rep)
        err = P.compile()
        if err: rep.violation('the library types no longer have the documented interface: ' + err.strip().splitlines()[0][:200], 'compile:lib', dict(kind='compile', compiler=err))
        maxlen, rnd = {'quick': (20, 6), 'thorough': (36, 40)}[tier]
        fnat = None if err else ex.submit(native, rep, P, tier, maxlen, rnd)
        fx.result()
        failed = {}
        base = lib.prelude() + lib.hmirror()
        fv = ex.submit(C.vacuity, rep, base, f'{pid}_{tier}')
        try: failed = verify(pid, tier, rep, extract_lib(expanded_lib(P), f'{pid}_{tier}_lib'))
        except core.Broken as e: rep.degraded.append(('*', str(e)[:500]))
        log(f'[{pid}] verifier done, {time.time() - rep.t0:.0f}s')
        hit = False
        e2 = fna.result()
        if not e2:
            try: failed.update({'no default features: ' + k: v for k, v in verify(pid, tier, rep, extract_lib(expanded_lib(N), f'{pid}_{tier}_libna'), na=True).items()})
            except core.Broken as e: rep.degraded.append(('no default features', str(e)[:500]))
        if fnat: f, c, d = fnat.result(); hit = report_native(rep, f, c, '', d)
        if e2: rep.violation('the library without features no longer has the documented interface: ' + e2.strip().splitlines()[0][:200], 'compile:libna', dict(kind='compile', compiler=e2))
        else: f, c, d = native(rep, N, tier, maxlen, rnd); hit = report_native(rep, f, c, 'no default features: ', d) or hit
        log(f'[{pid}] native done, {time.time() - rep.t0:.0f}s')
        fk.result()
        ok, why = fv.result()
        if not ok: raise core.Broken(f'vacuity guard: {why}')
    if failed and not hit and fnat:
        f, c, d = native(rep, P, tier, 40, 60, seed=core.SEED + 7, timeout=200)
        hit = report_native(rep, f, c, '', d)
    if failed and not hit:
        for k, l in failed.items():
            fn = sorted({x for _, x, _ in l})
            rep.violation(f"obligation not discharged: {k}: {', '.join(fn)}: {l[0][0]}", f"verus:{k}:{','.join(fn)}", dict(kind='obligation', module=k, functions=fn, verifier_output=[t for _, _, t in l][:6]), found=False)
    rep.extra['library_items'] = KEYS[pid]

# ------------------------------------------------------------------ Kani: nom's number parsers, and the primitives through the real code
KANI_PRIM = '''#![allow(unused)]
use nom_derive::*;
use nom::{Err, IResult};
type DE<'a> = nom::error::Error<&'a [u8]>;
#[cfg(kani)]
mod k {
use super::*;
macro_rules! prim { ($name:ident, $w:expr, $f:expr, |$a:ident| $want:expr) => {
  #[kani::proof]
  #[kani::unwind(20)]
  fn $name() {
    let buf: [u8; $w + 2] = kani::any();
    let len: usize = kani::any(); kani::assume(len <= $w + 2);
    let i = &buf[..len];
    match $f(i) {
      Ok((j, v)) => { assert!(len >= $w); let mut $a = [0u8; $w]; $a.copy_from_slice(&buf[..$w]); let w = $want; assert!(v.to_ne_bytes() == w.to_ne_bytes()); assert!(j.len() == len - $w); assert!(j.as_ptr() == unsafe { i.as_ptr().add($w) }); }
      Err(Err::Incomplete(_)) => assert!(len < $w),
      _ => assert!(false),
    }
  }
} }
%s
}
'''
def kani_harnesses(pid, tier):
    h = []
    if pid != 'C01': return h
    for t in lib.PRIMS:
        w = lib.WIDTH[t]
        for m, en in (('parse', 'be'), ('parse_be', 'be'), ('parse_le', 'le')):
            if tier == 'quick' and m == 'parse': continue        # the same function as parse_be (shown by the verifier)
            h.append(f'prim!({t}_{m}, {w}, <{t} as Parse<_, DE>>::{m}, |a| {t}::from_{en}_bytes(a));')
    for t, u, e in (('u24', 'u32', '0'), ('i24', 'i32', 'a[{s}] >> 7 != 0')):
        for en in ('be', 'le'):
            idx = (0, 1, 2) if en == 'be' else (2, 1, 0)
            val = f'((a[{idx[0]}] as u32) << 16 | (a[{idx[1]}] as u32) << 8 | a[{idx[2]}] as u32)'
            if t == 'i24': val = f'(({val} << 8) as i32 >> 8)'
            h.append(f'prim!(nom_{en}_{t}, 3, nom::number::streaming::{en}_{t}::<_, DE>, |a| {val});')
    return h

def kani(pid, tier, rep):
    hs = kani_harnesses(pid, tier)
    if not hs: return
    d = os.path.join(BUILD, 'crates', f'kani_{pid}')
    write(os.path.join(d, 'Cargo.toml'), core.cargo_toml('nvkani_' + pid) + '\n[lib]\npath = "src/lib.rs"\n')
    write(os.path.join(d, 'src/lib.rs'), KANI_PRIM % '\n'.join(hs))
    core.lockfile(d)
    rc, out, err, dt = run(['cargo', 'kani', '--output-format', 'terse', '-j', '7'], cwd=d, env={'CARGO_TARGET_DIR': os.path.join(BUILD, 'target_kani')}, timeout=500)
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures', out)
    rep.kani.update(harnesses=len(hs), success=int(m.group(1)) if m else 0, seconds=round(dt, 1), bound='buffers of symbolic bytes of every length up to the width + 2; no loop is cut (unwinding assertions on)')
    if not m:
        rep.degraded.append(('kani', 'did not run: ' + (err or out)[-300:])); return
    if int(m.group(2)):
        bad = sorted(set(re.findall(r'Verification failed for - (\S+)', out)))
        rep.kani['failed'] = bad
        rep.violation(f'Kani: the bytes are not interpreted as documented: {", ".join(bad)[:300]}', 'kani:' + ','.join(bad), dict(kind='kani', harnesses=bad), found=False)
