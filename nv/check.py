"""nv/check.py <property> [--tier quick|thorough]      decide one property for /repo's current tree
   nv/check.py --replay FILE                            run a recorded failing input again
Exit 0: held on everything examined.  Exit 1: a VIOLATION line was printed.  Exit 2: the check could not run."""
import argparse, concurrent.futures as cf, json, os, re, sys, time, traceback, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nv import core, lib, dsl, gen
from nv.specimens import ALL
from nv import specimens2
from nv.core import log, SEED, BUILD, ROOT

REPLAY = os.path.join(ROOT, 'replay')
KNOWN = os.path.join(ROOT, 'known-findings.txt')

# messages of the verifier that mean "an obligation was not discharged"
FAILED = ['postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'possible arithmetic underflow/overflow', 'possible division by zero',
          'possible bit shift', 'unable to prove', 'constant overflow', 'recommendation not met', 'not all errors may have been reported', 'invariant not satisfied',
          'failed this postcondition', 'value may be out of range', 'decreases not satisfied', 'could not prove termination', 'possible truncation']
RLIMIT = 'Resource limit (rlimit) exceeded'

class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.violations, self.known, self.notes, self.degraded = [], [], [], []
        self.native = dict(evaluations=0, nontrivial=0, programs=0)
        self.verus = dict(obligations=0, discharged=0, functions=[], smt_ms=0, runs=0, modules=0)
        self.kani = dict(harnesses=0, success=0)
        self.samples, self.extra, self.cmds = [], {}, []
        self.level = 'proof'
        self.bounded = 0      # programs outside the dialect of the verifier by design: run natively only
    def violation(self, what, key, data, found=True):
        """what: one line; key: identifies the finding"""
        os.makedirs(REPLAY, exist_ok=True)
        h = hashlib.sha1((self.pid + key).encode()).hexdigest()[:10]
        path = os.path.join(REPLAY, f'{self.pid}-{h}.json')
        data = dict(property=self.pid, what=what, key=key, tier=self.tier, seed=SEED, **data)
        with open(path, 'w') as f: json.dump(data, f, indent=1)
        k = known_match(self.pid, key)
        if k: self.known.append((k, what)); return
        self.violations.append((what, path, found))

def known_match(pid, key):
    """findings that are recorded, not repaired:   finding: property=<id> key=<exact key> <what fails>"""
    if not os.path.exists(KNOWN): return None
    for l in open(KNOWN):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid and m.group(2) == key: return m.group(3)
    return None

# ------------------------------------------------------------------ programs
def programs(pid, tier):
    hand = []
    if pid == 'C13':
        # totality is about every kind of program: a slice of each set
        for p, fs in ALL.items():
            l = [s for f in fs for s in f()]
            hand += [s for k, s in enumerate(l) if tier == 'thorough' or k % 5 == SEED % 5]
        for s in hand: s.id = 'x' + s.id
    else:
        for f in ALL.get(pid, []): hand += f()
    n = {'quick': 60, 'thorough': 120}[tier]
    return hand, gen.programs(pid, n, SEED)

# ------------------------------------------------------------------ verifier leg
def owner_map(txt):
    cur, own = None, []
    for l in txt.split('\n'):
        m = re.match(r'//@MOD (\S+)', l)
        if m: cur = None if m.group(1) == '-' else m.group(1)
        m = re.match(r'pub mod s_(\w+)', l)
        if m: cur = m.group(1)
        own.append(cur)
    return own

def classify(msgs, own, lines):
    """(failures: [(module, message, function, text)], rlimit: [(module, function)], unusable: {module}, loose: [message])"""
    fails, rl, bad, loose = [], [], {}, []
    for m in msgs:
        if m['level'] != 'error' or m['message'].startswith('aborting due to'): continue
        t = m['message']
        mods = [own[s['line_start'] - 1] for s in m['spans'] if s['line_start'] - 1 < len(own)]
        mods = [x for x in mods if x]
        where = [s for s in m['spans'] if s.get('is_primary')] or m['spans']
        fn = func_of(lines, where[0]['line_start']) if where else ''
        if any(f in t for f in FAILED):
            (fails.append((mods[0], t, fn_of_spans(m, lines, own), m.get('rendered') or t)) if mods else loose.append(m))
        elif RLIMIT in t:
            (rl.append((mods[0], fn)) if mods else loose.append(m))
        elif mods: bad.setdefault(mods[0], t + ' ' + (m.get('rendered') or '')[:400])
        else: loose.append(m)
    return fails, rl, bad, loose

def func_of(lines, n):
    ty, fn = '', ''
    for k in range(min(n, len(lines)) - 1, -1, -1):
        l = lines[k]
        m = re.match(r'\s*(?:pub )?(?:open spec |proof )?fn (\w+)', l)
        if m and not fn: fn = m.group(1)
        m = re.match(r'//@IMPL \w+ ([\w\s<>\[\];,()\']+)', l)
        if m: ty = m.group(1).strip().split(' ')[0].strip(); break
        if l.startswith('pub mod '): break
    return f'{ty}::{fn}' if ty else fn

def fn_of_spans(m, lines, own):
    for s in m['spans']:
        if own[s['line_start'] - 1] and '//@' not in lines[s['line_start'] - 1]:
            return func_of(lines, s['line_start'])
    return ''

class Verifier:
    """accumulate the verdict on a set of modules {id: text}; base: text before them"""
    def __init__(self, rep, tag, base, mods, budget=420, fixed_ids=()):
        self.rep, self.tag, self.base, self.mods, self.budget = rep, tag, base, dict(mods), budget
        self.failed = {}      # module -> [(message, function, rendered)]
        self.fixed = set(fixed_ids)   # modules that live in the base text
        self.base_owner = None
    def text(self, ids):
        return self.base + 'verus!{\n' + ''.join(self.mods[i] for i in ids) + '}\nfn main(){}\n'
    def go(self, ids, tag, rlimit, timeout):
        txt = self.text(ids)
        p = os.path.join(BUILD, 'verus', f'{tag}.rs')
        core.write(p, txt)
        t0 = time.time()
        rc, res, msgs, err, dt = core.verus_run(p, rlimit=rlimit, timeout=timeout)
        self.rep.verus['runs'] += 1
        vr = (res or {}).get('verification-results', {})
        return dict(rc=rc, res=res, msgs=msgs, err=err, vr=vr, own=owner_map(txt), lines=txt.split('\n'), dt=time.time() - t0)
    def run(self, rlimit=30):
        rep, end = self.rep, time.time() + self.budget
        ids = list(self.mods)
        for attempt in range(6):
            r = self.go(ids, self.tag, rlimit, max(30, end - time.time()))
            fails, rl, bad, loose = classify(r['msgs'], r['own'], r['lines'])
            if r['rc'] == -9:
                rep.degraded.append((self.tag, 'the verifier did not finish in time')); return
            if bad:
                for k, t in bad.items():
                    rep.degraded.append((k, 'outside the verifier\'s dialect: ' + t[:300]))
                    if k in self.mods: ids = [i for i in ids if i != k]
                    else: rep.degraded.append((self.tag, 'the library text is outside the dialect')); return self.each(ids, end)
                if not ids: return
                continue
            if not r['vr'] or (loose and not fails and not rl) or r['vr'].get('encountered-vir-error'):
                if len(ids) > 1: return self.each(ids, end)
                rep.degraded.append((ids[0] if ids else self.tag, 'verifier error: ' + (r['err'][-300:] if not loose else loose[0]['message'][:300])))
                return
            break
        else:
            return self.each(ids, end)
        self.account(r)
        self.retry(fails, rl, end, ids)
    def each(self, ids, end):
        """one run per module: used when one module spoils the joint run"""
        def one(i):
            if time.time() > end: return i, None
            return i, self.go([i], f'{self.tag}_{i}', 30, max(20, end - time.time()))
        with cf.ThreadPoolExecutor(6) as ex:
            for i, r in ex.map(one, ids):
                if r is None or not r['vr'] or r['rc'] == -9: self.rep.degraded.append((i, 'verifier error or no time')); continue
                fails, rl, bad, loose = classify(r['msgs'], r['own'], r['lines'])
                if bad or (loose and not fails and not rl): self.rep.degraded.append((i, 'outside the dialect: ' + str(list(bad.values()) or loose[0]['message'])[:300])); continue
                self.account(r)
                self.retry([f for f in fails if f[0] == i], [x for x in rl if x[0] == i], end, [i])
    def account(self, r):
        v = self.rep.verus
        v['obligations'] += r['vr'].get('verified', 0) + r['vr'].get('errors', 0)
        v['discharged'] += r['vr'].get('verified', 0)
        try: v['smt_ms'] += r['res']['times-ms']['smt']['smt-run']
        except Exception: pass
    def retry(self, fails, rl, end, ids):
        """what was not discharged is tried again alone, with more resources"""
        again = sorted({f[0] for f in fails} | {x[0] for x in rl})
        first = {}
        for m, t, fn, txt in fails: first.setdefault(m, []).append((t, fn, txt))
        def one(i):
            if i not in self.mods: return i, None
            if time.time() > end: return i, 'late'
            return i, self.go([i], f'{self.tag}_{i}_again', 200, max(20, min(240, end - time.time())))
        with cf.ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(one, again):
                if r is None: self.failed[i] = first.get(i, []); continue       # part of the library text: no cheaper context
                if r == 'late' or r['rc'] == -9 or not r['vr']:
                    if first.get(i): self.failed[i] = first[i]
                    else: self.rep.degraded.append((i, 'resource limit'))
                    continue
                f2, rl2, bad2, loose2 = classify(r['msgs'], r['own'], r['lines'])
                f2 = [(t, fn, txt) for m, t, fn, txt in f2 if m == i]
                if f2: self.failed[i] = f2
                elif any(m == i for m, _ in rl2):
                    if first.get(i): self.failed[i] = first[i]
                    else: self.rep.degraded.append((i, 'resource limit exceeded (undecided): ' + ', '.join(sorted({f for m, f in rl2}))))
                else:
                    n = len({fn for _, fn, _ in first.get(i, [])} | {fn for m, fn in rl if m == i})
                    self.rep.verus['discharged'] += n

def vacuity(rep, base, tag):
    """the axioms must not prove false, and a wrong contract must be rejected"""
    wrong = dsl.Spec('canary', [dsl.TypeDef('S', 'named', [dsl.Field('a', 'P0')])])
    body = '''
pub mod s_canary { use super::nomv; use super::nomv::*; use super::h; use super::h::*; use vstd::prelude::*; use core::marker::PhantomData;
%s
proof fn nomv_absurd() { assert(false); }
pub fn nomv_wrong<'nom>(i: nomv::Inp<'nom>) -> (r: nomv::Res<'nom, P0, nomv::Error<nomv::Inp<'nom>>>) ensures r == <P0 as nomv::Parse<'nom, _>>::sp_le(i) { <P0 as nomv::Parse<'nom, _>>::parse_be(i) }
}
''' % lib.BROADCAST
    p = os.path.join(BUILD, 'verus', f'{tag}_vacuity.rs')
    core.write(p, base + 'verus!{' + body + '}\nfn main(){}\n')
    rc, res, msgs, err, dt = core.verus_run(p, timeout=200)
    n = (res or {}).get('verification-results', {}).get('errors')
    ok = n == 2 and sum('assertion failed' in m['message'] for m in msgs) == 1 and sum('postcondition not satisfied' in m['message'] for m in msgs) == 1
    return ok, (n, err[-300:] if not ok else '')

# ------------------------------------------------------------------ programs using the derive macro
def native_failures(rep, P, fails, specs):
    """concrete failing inputs, the shortest per function"""
    best = {}
    for f in fails:
        k = (f['spec'], f['func'].split('[')[0])
        if k not in best or len(f['input']) < len(best[k]['input']): best[k] = f
    by = {s.id: s for s in specs}
    for k, f in sorted(best.items(), key=lambda x: len(x[1]['input'])):
        s = by[f['spec']]
        rep.violation(f"{f['spec']}::{f['func']} on input {f['input'] or '(empty)'} {f['args']}: got {f['got'][:200]}, contract says {f['want'][:200]}",
                      f"native:{f['spec']}:{f['func']}:{f['input']}:{f['args']}",
                      dict(kind='input', spec=f['spec'], function=f['func'], input_hex=f['input'], args=f['args'], got=f['got'], expected=f['want'], program=dsl.spec_src(s)))
        if len(rep.violations) >= 20: break
    return {k[0] for k in best}

def check_derive(pid, tier, rep):
    hand, genr = programs(pid, tier)
    specs = hand + genr
    ids = set()
    for s in specs:
        assert s.id not in ids, s.id
        ids.add(s.id)
    with cf.ThreadPoolExecutor(8) as ex:
        fx = ex.submit(core.nvextract)
        P = core.Project(f'{pid}_{tier}', specs)
        P.compile()
        for k, msg in P.failed.items():
            s = next(s for s in specs if s.id == k)
            rep.violation(f'program {k}, which the documentation allows, is no longer accepted: {msg.strip().splitlines()[0][:200]}', f'compile:{k}', dict(kind='compile', spec=k, program=dsl.spec_src(s), compiler=msg))
        log(f'[{pid}] {len(P.live)} programs built, {time.time() - rep.t0:.0f}s')
        maxlen, rnd = {'quick': (14, 3), 'thorough': (22, 10)}[tier]
        fn = ex.submit(P.native, maxlen, rnd, 240 if tier == 'quick' else 900)
        fe = ex.submit(P.expanded)
        fx.result()
        base = lib.prelude() + lib.hmirror()
        fv = ex.submit(vacuity, rep, base, f'{pid}_{tier}')
        V = None
        try:
            mods, fns = {}, []
            x = core.split_modules(core.extract(fe.result(), f'{pid}_{tier}'))
            for s in P.live:
                if not s.verus: rep.bounded += 1; continue
                if 's_' + s.id not in x: rep.degraded.append((s.id, 'module not found in the expansion')); continue
                t, f, bad = core.build_module(s, x['s_' + s.id])
                if bad: rep.degraded.append((s.id, 'not translated: ' + '; '.join(bad)[:300])); continue
                mods[s.id] = t; fns += [f'{s.id}::{q}' for q in f]
            log(f'[{pid}] extracted {len(mods)} modules, {time.time() - rep.t0:.0f}s')
            if mods:
                # in batches: the verifier's memory and time stay bounded
                names = list(mods); size = 40
                for b in range(0, len(names), size):
                    part = {k: mods[k] for k in names[b:b + size]}
                    V1 = Verifier(rep, f'{pid}_{tier}_{b // size}', base, part, budget=300 if tier == 'quick' else 900)
                    V1.run()
                    V = V1 if V is None else V
                    if V is not V1: V.failed.update(V1.failed)
            rep.verus['modules'] = len(mods); rep.verus['functions'] = fns
            log(f'[{pid}] verifier done, {time.time() - rep.t0:.0f}s')
        except core.Broken as e:
            rep.degraded.append(('*', str(e)[:500]))
        fails, done, total, crashed, dt = fn.result()
        rep.native['evaluations'] = sum(d[0] for d in done.values()); rep.native['nontrivial'] = sum(d[1] for d in done.values()); rep.native['programs'] = len(done)
        rep.samples += [d[2] for d in done.values() if d[2]][:6]
        confirmed = native_failures(rep, P, fails, specs)
        if crashed: crash(rep, P, crashed, specs)
        ok, why = fv.result()
        if not ok: raise core.Broken(f'vacuity guard: {why}')
    if V:
        for m, l in V.failed.items():
            if m in confirmed: continue
            s = next(s for s in specs if s.id == m)
            # no concrete input yet: look harder
            f2, d2, t2, c2, _ = P.native(26, 40, timeout=120, seed=SEED + 7, only=m)
            rep.native['evaluations'] += sum(d[0] for d in d2.values())
            if native_failures(rep, P, f2, specs): continue
            fnn = sorted({fn for _, fn, _ in l})
            rep.violation(f"obligation not discharged: {m}: {', '.join(fnn)}: {l[0][0]}", f"verus:{m}:{','.join(fnn)}",
                          dict(kind='obligation', spec=m, functions=fnn, verifier_output=[t for _, _, t in l][:6], program=dsl.spec_src(s)), found=False)
    by = {s.id: s for s in specs}
    rep.samples += [dict(program=dsl.spec_src(by[k])[:1500]) for k in list(by)[:1] + [g.id for g in genr[:1]]]
    rep.extra = dict(programs_native_only=rep.bounded, programs_hand_written=len(hand), programs_generated=len(genr), not_compiling=sorted(P.failed))
    rep.cmds.append(f'verus .build/verus/{pid}_{tier}_0.rs --rlimit 30')

def crash(rep, P, crashed, specs):
    sid, rc, err = crashed
    if sid is None: raise core.Broken(f'native run failed: {rc} {err}')
    where = P.last_case(sid)
    s = next(s for s in specs if s.id == sid)
    what = 'does not terminate' if rc == -9 else f'aborts (status {rc})'
    rep.violation(f'{sid} {what} on {where}', f'crash:{sid}:{where}', dict(kind='crash', spec=sid, case=where, status=rc, stderr=err, program=dsl.spec_src(s)))

# ------------------------------------------------------------------ evidence, output
TRUST = [
    'Verus 0.2026.09.13 and Z3 4.12 (its bundled solver); rustc front end',
    'nvextract (tools/extract): the rewriting of macro-expanded code into the dialect of the verifier, documented in DESIGN.md',
    'assumed contracts of nom 8 combinators and number parsers, of slices, Vec, String, Option::default, str::from_utf8 (verus/prelude.rs: every external_body, uninterp and axiom item)',
    'user-supplied parsers, functions and probe types are opaque: deterministic, total, and return a suffix of their input (verus/h.rs)',
    'closures passed to combinators are deterministic; usize is 64 bits',
    'Needed (the hint in Incomplete) is not part of the contracts',
]

def count_trusted():
    t = lib.prelude() + lib.hmirror()
    return dict(external_body=t.count('external_body'), axioms=len(re.findall(r'\baxiom fn\b', t)), assume_specification=t.count('assume_specification'), uninterpreted=len(re.findall(r'\buninterp spec fn\b', t)))

def evidence(rep):
    v = rep.verus
    cov = dict(obligations=v['obligations'], discharged=v['discharged'], checker_cmd='; '.join(rep.cmds) or 'verus', trusted_base=TRUST + [f'counted in the text given to the verifier: {count_trusted()}'],
               functions_under_contract=len(v['functions']), modules_verified=v['modules'], solver_ms=v['smt_ms'], verifier_runs=v['runs'], back_end='Verus / Z3',
               evaluations=rep.native['evaluations'], distinct_nontrivial=rep.native['nontrivial'],
               rule='native runs: every function of every program on systematic and pseudo-random buffers (seeded by VERIF_SEED), compared with an executable reading of the contract; non-trivial: the contract does not say Incomplete. These runs look for concrete inputs; they are bounded and not counted as proof.',
               bounded_only=[f'{a}: {b}' for a, b in rep.degraded][:40], samples=rep.samples[:10], functions=v['functions'][:60])
    cov.update(rep.extra)
    if rep.kani['harnesses']: cov['kani'] = rep.kani
    d = dict(property=rep.pid, tier=rep.tier, seed=SEED, level=rep.level, coverage=cov,
             assumptions=TRUST + ['universal over all inputs per verified function; over programs by the listed hand-written and generated programs'],
             wall_s=round(time.time() - rep.t0, 2), violations=len(rep.violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', rep.pid + '.json'), 'w') as f: json.dump(d, f, indent=1)

def finish(rep):
    evidence(rep)
    for k, w in rep.known: print(f'KNOWN-FINDING: property={rep.pid} {k}')
    for a, b in rep.degraded[:20]: print(f'NOTE property={rep.pid} not proved, bounded runs only: {a}: {b}'[:300])
    for what, path, found in rep.violations[:20]: print('  ' + what[:600])
    if rep.violations:
        what, path, found = sorted(rep.violations, key=lambda v: not v[2])[0]
        print(f'VIOLATION property={rep.pid} replay={path}' + ('' if found else ' no-failing-input-found'))
        return 1
    v = rep.verus
    print(f'OK property={rep.pid} obligations={v["obligations"]} discharged={v["discharged"]} functions={len(v["functions"])} evaluations={rep.native["evaluations"]} wall={time.time() - rep.t0:.0f}s')
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        from nv import replay
        return replay.main(a.replay)
    rep = Report(a.pid, a.tier)
    try:
        if a.pid in ('C01', 'C02', 'C03'):
            from nv import libcheck
            libcheck.check(a.pid, a.tier, rep)
        elif a.pid == 'C15':
            from nv import reject
            reject.check(a.pid, a.tier, rep)
        else:
            if a.pid == 'C05':
                from nv import implcheck
                implcheck.report(rep, a.pid)
            from nv import treecheck
            treecheck.report(rep, a.pid)
            check_derive(a.pid, a.tier, rep)
    except core.Broken as e:
        if rep.violations: return finish(rep)
        print(f'ERROR property={a.pid}: {e}')
        return 2
    return finish(rep)

if __name__ == '__main__': sys.exit(main())
