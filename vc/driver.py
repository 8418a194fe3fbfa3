"""Runs the proof units and the bounded search of one property and reports."""
import sys, os, time, json, subprocess, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'vc'))
import build
SUITES = {}
class Suite:
    """tu: source under tu/; fams: name -> family; units: [(name, prop, cond, fn)]; native: (source, args fn)"""
    def __init__(self, name, tu, fams, flags, units, mkexec, native=None, nflags=None, chunk=30, quick=None, nquick=None, unit_s=60, mkctx=None, native_props=()):
        self.name = name; self.tu = tu; self.fams = fams; self.flags = flags; self.units = units; self.mkexec = mkexec
        self.native = native; self.nflags = nflags; self.chunk = chunk; self.quick = quick; self.unit_s = unit_s
        self.mkctx = mkctx; self.native_props = native_props; self.nquick = nquick or quick
        SUITES[name] = self
    def units_for(self, fam, prop):
        return [u for u in self.units if u[1] == prop and (u[2] is None or u[2](fam))]

_mods = {}
def module(s, f):
    import ir as IR
    k = (s.name, f.name)
    if k not in _mods: _mods.clear(); _mods[k] = IR.Module(build.ll(s.tu, s.flags(f)))
    return _mods[k]
def compile_ll(job):
    s = SUITES[job[0]]
    try: build.ll(s.tu, s.flags(s.fams[job[1]]))
    except build.BuildError: pass
def run_units(job):
    sname, fname, prop, lo, hi, tier = job
    import ir as IR, sym, solve
    s = SUITES[sname]; f = s.fams[fname]; t0 = time.time()
    res = dict(job=job, obls=[], failures=[], undecided=[], inlined=set(), contracts=set(), trusted=set(), assumptions=set(), units=0, models=[])
    for k in solve.stats: solve.stats[k] = 0
    try: mod = module(s, f)
    except build.BuildError as e:
        res['undecided'].append((fname, 'build', 'wrappers do not compile: ' + str(e)[-1500:])); res['build_failed'] = True; return res
    for name, p, cond, fn in s.units_for(f, prop)[lo:hi]:
        res['units'] += 1
        try: ok = one_unit(s, f, mod, name, fn, res, 0, tier)
        except MemoryError: res['undecided'].append((fname, name, 'out of memory'))
    res['solver'] = dict(solve.stats); res['wall'] = time.time()-t0
    return res

def one_unit(s, f, mod, name, fn, res, unroll, tier):
    import sym, icl, cont
    ex = s.mkexec(mod, f, unroll); ex.unit = '%s/%s' % (f.name, name); ex.fam = f
    ex.deadline = time.time() + s.unit_s*(4 if tier == 'thorough' else 1)
    if s.name == 'iv': c = icl.Ctx(ex, f)
    else: c = (s.mkctx or cont.CCtx)(ex, f); ex.loop_templates = c.templates
    und = None
    try: fn(c)
    except sym.Unsupported as e: und = 'not decided by the verifier: %s' % e
    except sym.PathBudget as e: und = 'not decided by the verifier: %s budget exhausted' % e
    except RecursionError: und = 'not decided by the verifier: recursion'
    except Exception as e: und = 'not decided by the verifier: internal %r %s' % (e, traceback.format_exc()[-600:])
    if und is None and not ex.obls: und = 'no obligation generated'
    res['inlined'] |= {mod.demangle(n)[:160] for n in ex.inlined}; res['contracts'] |= ex.used_contracts; res['trusted'] |= ex.trusted; res['assumptions'] |= ex.assumptions
    soft = [x for x in ex.failures if x.detail.startswith('unknown')]
    hard = [x for x in ex.failures if not x.detail.startswith('unknown')]
    if und is None and soft and not hard: und = 'solver gave no answer for: ' + soft[0].name
    if ex.haslooped() and (hard or und) and not unroll:
        # the loop invariant may simply not fit rewritten code: fall back to bounded unrolling
        r2 = dict(obls=[], failures=[], undecided=[], inlined=set(), contracts=set(), trusted=set(), assumptions=set(), models=[])
        one_unit(s, f, mod, name, fn, r2, 3, tier)
        if not r2['failures']:
            res['undecided'].append((f.name, name, (und or 'obligation not discharged: ' + hard[0].name) + ('; bounded unrolling (2 iterations) finds no violation' if not r2['undecided'] else '; bounded unrolling undecided as well: ' + r2['undecided'][0][2])))
            return
    if und and not hard:
        res['undecided'].append((f.name, name, und)); res['obls'] += [o for o in ex.obls if o[1] != 'FAILED']; return
    res['obls'] += ex.obls
    for x in hard:
        res['failures'].append((f.name, name, x.name, x.detail)); res['models'].append(x.detail)

def run_native(job):
    sname, fname, prop, tier, seed, extra = job
    s = SUITES[sname]; f = s.fams[fname]
    try: exe = build.native(s.native, s.nflags(f))
    except build.BuildError as e: return dict(job=job, err='native build failed: ' + str(e)[-1500:], out='', rc=None)
    try:
        r = subprocess.run([exe, prop] + extra, capture_output=True, text=True, timeout=600 if tier == 'thorough' else 150, env=dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier))
        if r.returncode not in (0, 1):
            return dict(job=job, err='', out=r.stdout + '\nFAIL (crash, exit %d) %s' % (r.returncode, r.stdout[-300:].strip().split('\n')[-1]), rc=1)
        return dict(job=job, err='', out=r.stdout, rc=r.returncode)
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b''); o = o.decode() if isinstance(o, bytes) else o
        hang = [l for l in o.split('\n') if l.startswith('FAIL')]
        return dict(job=job, err='search timed out', out=o, rc=1 if hang else None)

def model_extras(details):
    """bound values of counterexample models, to be tried by the native search"""
    import re
    out = []
    for d in details:
        for m in re.finditer(r'= (-?\d+)(?:/(\d+))?[,\]]', d):
            v = m.group(1)
            if m.group(2): v = repr(int(m.group(1))/int(m.group(2)))
            if v not in out: out.append(v)
            if len(out) > 24: return out
    return out

def known_findings():
    p = os.path.join(HERE, 'known-findings.txt')
    if not os.path.exists(p): return []
    return [json.loads(l) for l in open(p) if l.strip().startswith('{')]

def main(prop, tier):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1'))
    import suites
    build.workdir()
    jobs = []; njobs = []
    for s in SUITES.values():
        any_ = False
        for fn, f in s.fams.items():
            n = len(s.units_for(f, prop))
            if n and (tier == 'thorough' or s.quick is None or fn in s.quick(prop)):
                for lo in range(0, n, s.chunk): jobs.append((s.name, fn, prop, lo, lo+s.chunk, tier))
            if s.native and (n or prop in s.native_props) and (tier == 'thorough' or s.nquick is None or fn in s.nquick(prop)):
                njobs.append((s.name, fn, prop, tier, seed, []))
    if not jobs and not njobs: print('unknown property', prop); return 2
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, max(2, len(jobs) + len(njobs)))) as pool:
        pool.map(compile_ll, sorted({j[:2] for j in jobs}), chunksize=1)
        nat = [pool.apply_async(run_native, (j,)) for j in njobs]
        pr = [pool.apply_async(run_units, (j,)) for j in jobs]
        nres = [r.get() for r in nat]
        kf = [k for k in known_findings() if k.get('property') == prop and not k.get('fixed')]
        # a failing input on the real code decides the check: the remaining proofs only get a little more time
        found = any(l.startswith('FAIL') and not any(k['match'] in l for k in kf) for r in nres for l in r['out'].split('\n'))
        limit = min(LIMIT[tier], time.time()-t0 + 45) if found and tier == 'quick' else LIMIT[tier]
        results = []
        for j, r in zip(jobs, pr):
            try: results.append(r.get(timeout=max(2, limit - (time.time()-t0))))
            except mp.TimeoutError: results.append(dict(job=j, obls=[], failures=[], undecided=[(j[1], 'unit %d' % j[3], 'time limit')], inlined=set(), contracts=set(), trusted=set(), assumptions=set(), units=0, models=[]))
        failures = [x for r in results for x in r['failures']]
        # replay counterexample models on the real code
        fams = sorted({(r['job'][0], x[0]) for r in results for x in r['failures']})
        xj = []
        for sn, fn in fams:
            s = SUITES[sn]
            if s.native and s.name == 'iv':
                ext = model_extras([x[3] for r in results for x in r['failures'] if x[0] == fn])
                if ext: xj.append((sn, fn, prop, tier, seed, ext))
        nres += pool.map(run_native, xj)
        pool.close(); pool.terminate()
    nfail = []; known = []; checks = 0
    for r in nres:
        for l in r['out'].split('\n'):
            if l.startswith('FAIL'):
                hit = [k for k in kf if k['match'] in l]
                if hit: known += hit
                else: nfail.append((r['job'], l))
            if l.startswith('CHECKS'): checks += int(l.split()[1])
    obls = [o for r in results for o in r['obls']]
    und = [u for r in results for u in r['undecided']]
    pf = []
    for x in failures:
        hit = [k for k in kf if k.get('obligation') and k['obligation'] == x[1] + ': ' + x[2] and (k.get('family') in (None, x[0]))]
        if hit: known += hit
        else: pf.append(x)
    seenk = []
    for k in known:
        if k['what'] not in seenk: seenk.append(k['what']); print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    be = {}
    for _, b in obls: be[b] = be.get(b, 0)+1
    trusted = sorted(set().union(*[r['trusted'] for r in results])) if results else []
    ass = sorted(set().union(*[r['assumptions'] for r in results])) if results else []
    contracts = sorted(set().union(*[r['contracts'] for r in results])) if results else []
    inl = sorted(set().union(*[r['inlined'] for r in results])) if results else []
    nviol = 1 if (nfail or pf) else 0
    cov = dict(obligations=len(obls), discharged=sum(1 for o in obls if o[1] != 'FAILED'),
               checker_cmd='python3-vt vc/check.py %s %s' % (prop, tier),
               trusted_base=['clang 18 -O0 (C++ to LLVM IR)', '/verif/vc symbolic executor and VC generator', 'z3 4.x / cvc5 1.1.2'] + ['assumed contract: ' + t for t in trusted],
               back_ends=be, solver_queries=sum(r.get('solver', {}).get('queries', 0) for r in results), solver_time_s=round(sum(r.get('solver', {}).get('time', 0) for r in results), 2),
               proof_units=sum(r['units'] for r in results), families=sorted({r['job'][1] for r in results}),
               functions_under_contract=sorted({u[0] for s in SUITES.values() for u in s.units if u[1] == prop}),
               callee_contracts_used=contracts, library_functions_verified_inline=len(inl), library_functions_sample=inl[:60],
               not_proved=[' / '.join(map(str, u))[:400] for u in und],
               bounded_search=dict(note='bounded stand-in and replay oracle, never counted as proved', comparisons=checks, runs=len(nres), errors=[r['err'] for r in nres if r['err']]))
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, 'proof'), coverage=cov,
              assumptions=BASE_ASSUME + ass, wall_s=round(time.time()-t0, 2), violations=nviol)
    if LEVEL.get(prop, 'proof') == 'other': cov['explanation'] = LEVELX.get(prop, '')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided units, %d bounded comparisons, %.1f s' % (prop, cov['obligations'], cov['discharged'], len(und), checks, ev['wall_s']))
    for u in und[:20]: print('  not proved:', ' / '.join(map(str, u))[:300])
    for r in nres:
        if r['err']: print('  bounded search:', r['job'][1], r['err'][-400:])
    if nviol:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.txt' % prop)
        with open(rp, 'w') as fh:
            for job, l in nfail[:40]: fh.write('failing input on the real code [%s %s]: %s\n' % (job[0], job[1], l))
            for job, l in nfail[:1]:
                s = SUITES[job[0]]
                fh.write('replay: g++ -std=c++17 -w -I/repo/include %s native/%s -o /tmp/replay && /tmp/replay %s %s\n' % (' '.join("'%s'" % x for x in s.nflags(s.fams[job[1]])), s.native, prop, ' '.join(job[5])))
            for x in pf[:40]: fh.write('\nfailed obligation [%s] %s: %s\n%s\n' % x)
        for job, l in nfail[:5]: print('  ', job[1], l[:300])
        for x in pf[:10]: print('  failed obligation [%s] %s: %s' % x[:3])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if nfail else ' no-failing-input-found'))
        return 1
    return 0
LEVEL = {}; LEVELX = {}; LIMIT = dict(quick=600, thorough=3000)
BASE_ASSUME = ['clang++ -O0 x86-64 semantics of the C++ source; g++ builds the same semantics',
 'no exception is thrown (operator new, comparator, codomain operations); unwinding paths are not verified',
 'interval bounds stay at least two steps away from the numeric limits of the element type',
 'comparison functors std::less / std::greater on built-in element types',
 'static local identity objects are only written by their initialiser']
