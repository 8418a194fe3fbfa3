"""Loop contracts.  At a loop head the set of modified cells and containers is discovered (and frame-checked at every
back edge), candidate invariants are generated from templates over the roles of the modified state, pruned to an
inductive subset (Houdini), and the remaining ones are proved at entry and at every back edge as obligations."""
from sym import *
import stdmodel, ir as IR

class Loop:
    def __init__(self, ex, st0, fr, b):
        self.ex = ex; self.st0 = st0; self.fr = fr; self.b = b
        self.cells = {}       # (rid, off) -> (size, entry value)
        self.conts = set()    # modified container ids
        self.backs = None     # collected back-edge states in dry mode
        self.cands = None; self.dry = False; self.body = natural(ex, fr.fn, b)
        self.grew = False; self.head = None
        self.ind = set()
        self.fname = IR.base_name(fr.fn.demangled).split('::')[-1]
        self.names = {rid: n for n, rid in fr.allocas.items()}
    def cell(self, st, k):
        c = st.mem[k[0]].get(k[1]); return c[1] if c else None
    def val(self, st, k): return self.cell(st, k)

def natural(ex, fn, h):
    heads, succ = ex.loops_of(fn)
    pred = {}
    for b, ss in succ.items():
        for s in ss: pred.setdefault(s, []).append(b)
    # blocks reachable from the entry without passing h: the others are dominated by h
    out = set(); st = [fn.order[0]] if fn.order[0] != h else []
    while st:
        x = st.pop()
        if x in out or x == h: continue
        out.add(x); st += succ[x]
    body = {h}; st = [p for p in pred.get(h, []) if p not in out]
    while st:
        x = st.pop()
        if x in body: continue
        body.add(x); st += [p for p in pred.get(x, [])]
    return body

def havoc_val(st, v, size, name):
    if isinstance(v, NP): return NP(fresh(name, 'N'), v.cid)
    if isinstance(v, NullP): return v
    if isinstance(v, Bits) or (isinstance(v, T) and v.sort == 'I' and size == 1):
        return Bits([fresh(name, 'B') for _ in range(len(v.b) if isinstance(v, Bits) else 8)])
    if isinstance(v, T):
        f = fresh(name, v.sort)
        if v.sort == 'I': st.assume(in_range(f, 8*size))
        return f
    if isinstance(v, Agg): return Agg([havoc_val(st, x, 8, name) for x in v.v])
    raise Unsupported('loop modifies %r' % (v,))

def diff(L, st):
    """cells / containers of st that differ from the loop head state"""
    h = L.head; ch = {}; cc = set()
    for rid, cells in h.mem.items():
        now = st.mem.get(rid)
        if now is cells or rid.startswith('@'): continue
        if now is None: raise Unsupported('region died in loop')
        for off in set(cells) | set(now):
            a, b = cells.get(off), now.get(off)
            if a is None: ch[(rid, off)] = None; continue
            if b is None or a[0] != b[0]: ch[(rid, off)] = a; continue
            if not same(a[1], b[1]): ch[(rid, off)] = a
    for cid, c in h.conts.items():
        if cid in st.conts and st.conts[cid] != c: cc.add(cid)
    for k, cid in h.addr.items():
        if st.addr.get(k) != cid: raise Unsupported('loop swaps containers')
    return ch, cc

def make_head(L):
    st = L.st0.copy(); ex = L.ex
    for cid in L.conts: st.conts[cid] = stdmodel.havoc_cont(st, st.conts[cid])
    mem = {}
    for (rid, off), c in L.cells.items():
        d = mem.setdefault(rid, dict(st.mem[rid]))
        if c is None: d.pop(off, None)
        else:
            if off not in d: continue
            d[off] = (c[0], havoc_val(st, d[off][1], c[0], 'h'))
    st.mem.update(mem)
    st.trace.append('loop ' + L.fname)
    return st

def goal_holds(ex, st, g, tmo=15000):
    st2 = st
    if isinstance(g, Q):
        st2 = st.copy(); sk = []
        for s in g.sorts:
            if s == 'N': v = fresh('skn', 'N')
            else: v = ex.fam.fresh_atom() if g.esort is None else fresh('ske', g.esort); st2.add_elem(v)
            sk.append(v)
        g = g.fn(*sk)
    if g is TRUE: return True
    r, m, _ = ex.ladder(st2, g, tmo)
    return r == 'unsat'
def assume_goal(st, g):
    if isinstance(g, Q): st.facts.append(Fact(g.sorts, g.fn, g.name))
    else: st.assume(g)

def enter(ex, st, fr, b):
    tmpl = getattr(ex, 'loop_templates', None)
    if tmpl is None: raise Unsupported('loop without invariant in ' + fr.fn.demangled[:120])
    L = Loop(ex, st, fr, b)
    mark = (len(ex.obls), len(ex.failures))
    outer = ex.dryrun
    def rollback(): del ex.obls[mark[0]:]; del ex.failures[mark[1]:]
    def body(dry):
        s = L.head.copy(); f = fr.copy(); f.loops = dict(fr.loops); f.loops[b] = ('inv', L); f.entry = s
        L.dry = dry; L.backs = []; L.grew = False
        ex.dryrun = outer + (1 if dry else 0)
        try: return ex.run_from(s, f, b, 0)
        finally: ex.dryrun = outer
    # 1. discover the modified state
    for rnd in range(8):
        L.head = make_head(L); L.cands = None
        if rnd == 0:
            L.head = st.copy()
        hv = {k: L.cell(L.head, k) for k in L.cells if L.cells[k] is not None}; L.reads = set()
        for k in hv:
            for ov, rd in ex.watch:
                if ov.get(k) is not None and ov.get(k) is L.cell(st, k): rd.add(k)
        ex.watch = ex.watch + [(hv, L.reads)]
        ex.light = True; cache = ex.loopcache; ex.loopcache = dict(cache)      # nothing is assumed here: what inner loops drop now must not be remembered
        try: body(True)
        finally: ex.watch = ex.watch[:-1]; ex.light = False; ex.loopcache = cache
        if not grow(L): break
    else: raise Unsupported('modified state of the loop does not stabilise')
    for cid in sorted(L.conts):
        c = st.conts[cid]
        if not c.ok and goal_holds(ex, st, stdmodel.sorted_goal(c)) and goal_holds(ex, st, stdmodel.keyok_goal(c)): ex.models.need(ex, st, cid); mark = (len(ex.obls), len(ex.failures))
    L.head = make_head(L)
    cands = []; cnt = {}
    for nm, fn in tmpl(L):
        try: g = fn(st)
        except Unsupported: continue
        if g is None: continue
        cnt[nm] = cnt.get(nm, 0)+1
        if cnt[nm] > 1: nm = '%s #%d' % (nm, cnt[nm])
        if goal_holds(ex, st, g): cands.append((nm, fn))
    if ex.verbose > 1: print('  loop %s: mods %s %s; candidates at entry: %s' % (L.fname, [L.names.get(k[0], k[0]) + '+%d' % k[1] for k in L.cells if L.cells[k] is not None], sorted(L.conts), [n for n, _ in cands]))
    key = (fr.fn.name, b, tuple(n for n in cnt.items() if n[1] > 1) and tuple(n for n, _ in cands)); cached = ex.loopcache.get(key)
    def final(cands):
        rollback()
        for nm, fn in cands: ex.prove(st.copy(), fn(st), 'loop invariant holds initially (%s: %s)' % (L.fname, nm))
        L.head = make_head(L)
        for nm, fn in cands: assume_goal(L.head, fn(L.head))
        L.dry = False; L.cands = cands; L.broken = False
        f = fr.copy(); f.loops = dict(fr.loops); f.loops[b] = ('inv', L)
        if ex.deadline and time.time() > ex.deadline: raise PathBudget('time')
        return ex.run_from(L.head.copy(), f, b, 0)
    if cached is not None:
        if ex.verbose > 1: print('  loop %s: cached, without %s' % (L.fname, sorted(cached)))
        outs = final([c for c in cands if c[0] not in cached])
        if not L.broken: return outs
    # 2. Houdini
    dropped = set()
    for rnd in range(12):
        L.cands = cands; L.head = make_head(L)
        for nm, fn in cands: assume_goal(L.head, fn(L.head))
        body(True)
        if grow(L): continue
        keep = []
        for nm, fn in cands:
            ok = True
            for s in L.backs:
                if ex.deadline and time.time() > ex.deadline: raise PathBudget('time')
                if not goal_holds(ex, s, fn(s)): ok = False; break
            if ok: keep.append((nm, fn))
            else: dropped.add(nm)
        if ex.verbose > 1: print('  loop %s: dropped %s' % (L.fname, [n for n, _ in cands if n not in [k for k, _ in keep]]))
        if len(keep) == len(cands): break
        cands = keep
    else: raise Unsupported('invariant inference does not converge')
    ex.loopcache[key] = dropped
    if ex.verbose: print('  loop %s keeps: %s' % (L.fname, '; '.join(n for n, _ in cands)))
    return final(cands)

def grow(L):
    """widen the modified set by what the collected back edges changed"""
    g = False
    for s in L.backs:
        ch, cc = diff(L, s)
        for k, c in ch.items():
            if k not in L.cells or (c is None and L.cells[k] is not None):
                if k in L.cells and L.cells[k] is None: continue
                L.cells[k] = L.st0.mem[k[0]].get(k[1]) if k[0] in L.st0.mem else None; g = True
        for c in cc:
            if c not in L.conts: L.conts.add(c); g = True
    return g

def backedge(ex, st, fr, b, info):
    L = info[1]
    if L.dry:
        L.backs.append(st); return []
    ch, cc = diff(L, st)
    for k in ch:
        if k not in L.cells: raise Unsupported('loop frame: cell outside the modified set')
    for c in cc:
        if c not in L.conts: raise Unsupported('loop frame: container outside the modified set')
    for nm, fn in L.cands:
        if not ex.prove(st, fn(st), 'loop invariant is preserved (%s: %s)' % (L.fname, nm)): L.broken = True
    return []
