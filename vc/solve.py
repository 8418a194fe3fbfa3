"""Finite instantiation of quantified facts and dispatch to z3 / cvc5."""
import z3, time, subprocess, os, tempfile
from terms import *
z3.set_param('smt.random_seed', 1)
_CTX = z3.main_ctx()
_NS = z3.DeclareSort('Node')
_sort = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'N': _NS}
_decl = {}
def toz(t):
    if t.z is not None: return t.z
    st = [t]
    while st:
        x = st[-1]
        if x.z is not None: st.pop(); continue
        pend = [k for k in kids(x) if k.z is None]
        if pend: st.extend(pend); continue
        st.pop(); x.z = _conv(x)
    return t.z
def _conv(x):
    op = x.op
    if op == 'var': return z3.Const(x.args[0], _sort[x.sort])
    if op == 'const': return z3.IntVal(x.args[0]) if x.sort == 'I' else z3.RealVal(x.args[0])
    if op == 'true': return z3.BoolVal(True)
    if op == 'false': return z3.BoolVal(False)
    if op == 'app':
        key = (x.args[0], tuple(a.sort for a in x.args[1:]), x.sort)
        d = _decl.get(key)
        if d is None:
            d = _decl[key] = z3.Function(x.args[0], *[_sort[a.sort] for a in x.args[1:]], _sort[x.sort])
        return d(*[a.z for a in x.args[1:]])
    if op == 'lin':
        c, ks, ts = x.args
        mkv = z3.IntVal if x.sort == 'I' else z3.RealVal
        parts = [t.z if k == 1 else mkv(k)*t.z for k, t in zip(ks, ts)]
        if c != 0: parts.append(mkv(c))
        return z3.Sum(parts) if len(parts) > 1 else parts[0]
    if op == 'not': return z3.Not(x.args[0].z)
    if op == 'and': return z3.And([a.z for a in x.args])
    if op == 'or': return z3.Or([a.z for a in x.args])
    if op == 'iff': return x.args[0].z == x.args[1].z
    if op == 'ite': return z3.If(x.args[0].z, x.args[1].z, x.args[2].z)
    if op == 'le0': return x.args[0].z <= 0
    if op == 'eq0': return x.args[0].z == 0
    if op == 'eq': return x.args[0].z == x.args[1].z
    if op == 'mul': return x.args[0].z * x.args[1].z
    raise ValueError(op)

class Fact:
    """forall over sorts ('N' node or 'E' element): fn(*args) -> ground term."""
    __slots__ = ('sorts', 'fn', 'name', 'memo')
    def __init__(self, sorts, fn, name=''): self.sorts = sorts; self.fn = fn; self.name = name; self.memo = {}
    def inst(self, *a):
        k = tuple(x.id for x in a)
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = self.fn(*a)
        return r
# choice functions: name -> fn(x, n) giving the axiom instance
CHOICE = {}
stats = {'queries': 0, 'time': 0.0, 'z3': 0, 'cvc5': 0, 'insts': 0}
TIMEOUT = [int(os.environ.get('VC_TIMEOUT_MS', '20000'))]

def instantiate(ground, facts, elems, rounds=3, maxn=60):
    seen = set(); nodes = []; apps = []
    A = list(ground); aid = set(t.id for t in A)
    collect(A, seen, nodes, apps)
    done = set(); capps_done = set()
    frontier = A
    for r in range(rounds):
        new = []
        ns = nodes[:maxn]; ap = [a for a in apps if a.args[0] in CHOICE]
        def add(t):
            if t is TRUE: return
            if t.id not in aid: aid.add(t.id); new.append(t); A.append(t)
        for f in facts:
            for args in prod(f.sorts, ns, elems):
                k = (id(f),) + tuple(x.id for x in args)
                if k in done: continue
                done.add(k); add(f.inst(*args))
        for a in ap:
            for n in ns:
                k = (a.id, n.id)
                if k in capps_done: continue
                capps_done.add(k); add(CHOICE[a.args[0]](a.args[1:], n))
        if not new: break
        collect(new, seen, nodes, apps)
    stats['insts'] += len(A)
    return A
def prod(sorts, ns, es):
    if len(sorts) == 1:
        for x in (ns if sorts[0] == 'N' else es): yield (x,)
    else:
        for x in (ns if sorts[0] == 'N' else es):
            for r in prod(sorts[1:], ns, es): yield (x,) + r

def check(terms, timeout=None):
    """-> ('unsat'|'sat'|'unknown', model, backend)"""
    t0 = time.time(); stats['queries'] += 1
    if any(t is FALSE for t in terms): return 'unsat', None, 'simplifier'
    s = z3.SimpleSolver()
    s.set('timeout', timeout or TIMEOUT[0])
    cr = _CTX.ref(); so = s.solver
    for t in terms: z3.Z3_solver_assert(cr, so, toz(t).ast)
    r = s.check()
    stats['time'] += time.time() - t0
    if r == z3.unsat: stats['z3'] += 1; return 'unsat', None, 'z3'
    if r == z3.sat: return 'sat', s.model(), 'z3'
    # second back end
    res = cvc5_check(s.to_smt2())
    stats['time'] += time.time() - t0
    if res == 'unsat': stats['cvc5'] += 1; return 'unsat', None, 'cvc5'
    if res == 'sat': return 'sat', None, 'cvc5'
    return 'unknown', None, 'z3+cvc5'
def cvc5_check(smt):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n'+smt); p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=30000', p], capture_output=True, text=True)
        o = r.stdout.strip().split('\n')
        return o[0] if o else 'unknown'
    finally: os.unlink(p)
