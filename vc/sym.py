"""Symbolic executor over clang -O0 LLVM IR; emits proof obligations.

Memory: concrete regions (stack objects, parameters) with typed cells; container nodes are symbolic
terms whose fields live in the abstract container state (see stdmodel.py)."""
import sys
from terms import *
from solve import *
import ir as IR
sys.setrecursionlimit(100000)

class Unsupported(Exception): pass
class PathBudget(Exception): pass

# ---------------------------------------------------------------- values
class P:            # pointer into a region
    __slots__ = ('rid', 'off')
    def __init__(self, rid, off): self.rid = rid; self.off = off
    def __repr__(self): return 'P(%s+%d)' % (self.rid, self.off)
class NP:           # address of a tree node (iterator payload); node may be a container's end node
    __slots__ = ('node', 'cid')
    def __init__(self, node, cid): self.node = node; self.cid = cid
    def __repr__(self): return 'NP(%s,%s)' % (self.node, self.cid)
class VP:           # address inside the value stored in a tree node
    __slots__ = ('node', 'cid', 'off')
    def __init__(self, node, cid, off): self.node = node; self.cid = cid; self.off = off
    def __repr__(self): return 'VP(%s,%s+%d)' % (self.node, self.cid, self.off)
class NullP:
    def __repr__(self): return 'null'
NULL = NullP()
class FnP:
    def __init__(self, name): self.name = name
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()
class Bits:
    __slots__ = ('b',)
    def __init__(self, b): self.b = tuple(b)
    def __repr__(self): return 'Bits' + repr(self.b)
class Chunk:        # raw bytes: {offset: (size, value)}
    __slots__ = ('cells', 'size')
    def __init__(self, cells, size): self.cells = cells; self.size = size
    def __repr__(self): return 'Chunk(%r)' % self.cells
class Agg:          # first-class aggregate
    __slots__ = ('v',)
    def __init__(self, v): self.v = list(v)
    def __repr__(self): return 'Agg%r' % self.v

def bits_const(n, w): return Bits([B((n >> i) & 1) for i in range(w)])
def to_bits(v, w):
    if isinstance(v, Bits):
        return Bits(v.b[:w] + (FALSE,)*(w-len(v.b)))
    if isinstance(v, T):
        if v.sort == 'B': return Bits((v,)+(FALSE,)*(w-1))
        if isconst(v): return bits_const(int(v.args[0]) & ((1 << w)-1), w)
    raise Unsupported('bits of %r' % (v,))
def bits_int(v, signed=False):
    r = Int(0); w = len(v.b)
    for i, b in enumerate(v.b):
        k = 1 << i
        if signed and i == w-1: k = -k
        r = Add(r, Ite(b, Int(k), Int(0)))
    return r
def bits_isconst(v): return all(b in (TRUE, FALSE) for b in v.b)
def as_int(v, signed=True):
    if isinstance(v, Bits): return bits_int(v, False) if len(v.b) == 8 else bits_int(v, False)
    if isinstance(v, T):
        if v.sort == 'I': return v
        if v.sort == 'B': return Ite(v, Int(1), Int(0))
    raise Unsupported('int of %r' % (v,))
def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, T): return a is b
    if isinstance(a, P): return a.rid == b.rid and a.off == b.off
    if isinstance(a, NP): return a.node is b.node and a.cid == b.cid
    if isinstance(a, VP): return a.node is b.node and a.cid == b.cid and a.off == b.off
    if isinstance(a, Bits): return a.b == b.b
    if isinstance(a, Chunk): return a.size == b.size and a.cells.keys() == b.cells.keys() and all(a.cells[k][0] == b.cells[k][0] and same(a.cells[k][1], b.cells[k][1]) for k in a.cells)
    if isinstance(a, Agg): return len(a.v) == len(b.v) and all(map(same, a.v, b.v))
    if isinstance(a, FnP): return a.name == b.name
    return isinstance(a, (NullP, Undef))
class NoMerge(Exception): pass
def merge_val(c, a, b):
    if same(a, b): return a
    if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
    if isinstance(a, Bits) or isinstance(b, Bits):
        try:
            w = max(len(x.b) for x in (a, b) if isinstance(x, Bits))
            a = to_bits(a, w); b = to_bits(b, w)
        except Unsupported: raise NoMerge
        return Bits([Ite(c, x, y) for x, y in zip(a.b, b.b)])
    if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort: return Ite(c, a, b)
    if isinstance(a, NP) and isinstance(b, NP) and a.cid == b.cid: return NP(Ite(c, a.node, b.node), a.cid)
    if isinstance(a, VP) and isinstance(b, VP) and a.cid == b.cid and a.off == b.off: return VP(Ite(c, a.node, b.node), a.cid, a.off)
    if isinstance(a, Chunk) and isinstance(b, Chunk) and a.size == b.size:
        cells = {}
        for k in set(a.cells) & set(b.cells):
            if a.cells[k][0] != b.cells[k][0]: raise NoMerge
            cells[k] = (a.cells[k][0], merge_val(c, a.cells[k][1], b.cells[k][1]))
        return Chunk(cells, a.size)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
        return Agg([merge_val(c, x, y) for x, y in zip(a.v, b.v)])
    raise NoMerge

# ---------------------------------------------------------------- state
class State:
    __slots__ = ('mem', 'conts', 'addr', 'pc', 'facts', 'elems', 'cache', 'trace', 'dead', 'pcids', 'ghost')
    def __init__(self):
        self.mem = {}      # rid -> dict off->(size,val)   (immutable dicts, copied on write)
        self.conts = {}    # cid -> Cont
        self.addr = {}     # (rid,off) -> cid
        self.pc = []; self.pcids = set()
        self.facts = []; self.elems = []
        self.cache = {}    # memo of deterministic container queries
        self.trace = []
        self.ghost = {}
        self.dead = False
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.conts = dict(self.conts); s.addr = dict(self.addr)
        s.pc = list(self.pc); s.pcids = set(self.pcids); s.facts = list(self.facts); s.elems = list(self.elems)
        s.cache = dict(self.cache); s.trace = list(self.trace); s.dead = self.dead; s.ghost = dict(self.ghost)
        return s
    def assume(self, t, *more):
        for x in (t,) + more:
            if isinstance(x, Fact):
                self.facts.append(x); continue
            if x is TRUE: continue
            for y in (x.args if x.op == 'and' else (x,)):
                if y.id not in self.pcids: self.pcids.add(y.id); self.pc.append(y)
    def add_elem(self, x):
        if all(x is not y for y in self.elems): self.elems.append(x)

class Q:
    """Universally quantified formula usable as hypothesis (Fact) or goal (skolemised)."""
    def __init__(self, sorts, fn, name='', esort=None): self.sorts = sorts; self.fn = fn; self.name = name; self.esort = esort

class Frame:
    __slots__ = ('fn', 'regs', 'args', 'allocas', 'entry', 'loops', 'prev', 'depth', 'mono')
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.regs = dict(self.regs); f.args = self.args; f.allocas = dict(self.allocas); f.entry = self.entry
        f.loops = dict(self.loops); f.prev = self.prev; f.depth = self.depth; f.mono = self.mono
        return f

class Failure:
    def __init__(self, unit, name, detail, model=None): self.unit = unit; self.name = name; self.detail = detail; self.model = model

class LoopEnd(Exception): pass

MININT = {8: -128, 16: -2**15, 32: -2**31, 64: -2**63}
def in_range(t, w, signed=True):
    lo, hi = (-(1 << (w-1)), (1 << (w-1))-1) if signed else (0, (1 << w)-1)
    return And(Le(Int(lo), t), Le(t, Int(hi)))
def unsigned(t, w):
    if isconst(t): return Int(int(t.args[0]) & ((1 << w)-1))
    return Ite(Lt(t, Int(0)), Add(t, Int(1 << w)), t)
def wrap(t, w):
    if isconst(t):
        v = int(t.args[0]) & ((1 << w)-1)
        return Int(v - (1 << w) if v >> (w-1) else v)
    M = 1 << (w-1)
    return Ite(Ge(t, Int(M)), Sub(t, Int(2*M)), Ite(Lt(t, Int(-M)), Add(t, Int(2*M)), t))

class Exec:
    def __init__(self, mod, models, contracts=(), invariants=(), fam=None, unroll=0, budget=4000):
        self.mod = mod; self.models = models; self.contracts = contracts; self.invariants = invariants
        self.fam = fam; self.unit = ''
        self.failures = []; self.obls = []     # (name, backend)
        self.used_contracts = set(); self.inlined = set(); self.trusted = set(); self.assumptions = set()
        self.unroll = unroll; self.truncated = 0
        self.rid = 0; self.paths = 0; self.budget = budget; self.deadline = None
        self.handler_cache = {}; self.loopinfo = {}
        self.top = None
        self.joinpat = None; self.watch = []; self.purity = {}; self.light = False; self.steps = 0; self.looped = False; self.dryrun = 0; self.loopcache = {}; self.verbose = False
    def haslooped(self): return self.looped
    # ------------------------------------------------------------ obligations
    def facts_query(self, st, extra, rounds=3):
        return instantiate(st.pc + extra, st.facts, st.elems, rounds)
    def feasible(self, st, cond=TRUE):
        if cond is FALSE: return False
        if cond is TRUE and st.dead: return False
        r, _, _ = check(st.pc + [cond], 2000)
        if r == 'unsat': return False
        if st.facts and not self.light:
            r, _, _ = check(self.facts_query(st, [cond], 1), 4000)
            if r == 'unsat': return False
        return True
    def ladder(self, st, g, timeout=None):
        """refute Not(g) with increasingly deep instantiation"""
        last = None; r = 'sat'; m = be = None
        for k in (1, 2, 3, 5):
            q = self.facts_query(st, [Not(g)], k)
            if last == len(q): break
            last = len(q)
            r, m, be = check(q, timeout)
            if r == 'unsat': return r, m, be
        return r, m, be
    def prove(self, st, goal, name):
        """goal: term or Q.  Records the obligation.  Returns True if discharged; the goal is then assumed."""
        if self.deadline and time.time() > self.deadline: raise PathBudget('time')
        if self.dryrun:
            if isinstance(goal, Q): st.facts.append(Fact(goal.sorts, goal.fn, name))
            else: st.assume(goal)
            return True
        if isinstance(goal, Q):
            sk = []; st2 = st.copy()
            for s in goal.sorts:
                if s == 'N': v = fresh('skn', 'N')
                else:
                    v = self.fam.fresh_atom() if goal.esort is None else fresh('ske', goal.esort); st2.add_elem(v)
                sk.append(v)
            g = goal.fn(*sk)
        else:
            g = goal; st2 = st
        if g is TRUE or g.id in st.pcids:
            self.obls.append((self.unit + ': ' + name, 'simplifier')); ok = True
        else:
            r, m, be = self.ladder(st2, g)
            ok = r == 'unsat'
            if ok: self.obls.append((self.unit + ': ' + name, be))
            else:
                det = ''
                if m is not None:
                    try: det = str(m)[:6000]
                    except Exception: det = '(no model text)'
                self.obls.append((self.unit + ': ' + name, 'FAILED'))
                self.failures.append(Failure(self.unit, name, '%s\ngoal: %s\npath: %s\n%s' % (r, show(g, 8), ' / '.join(st.trace[-30:]), det)))
        if isinstance(goal, Q):
            st.facts.append(Fact(goal.sorts, goal.fn, name))
        else: st.assume(g)
        return ok
    # ------------------------------------------------------------ memory
    def new_region(self, st, kind='r'):
        self.rid += 1; rid = '%s%d' % (kind, self.rid); st.mem[rid] = {}; return rid
    def load_bytes(self, st, p, size):
        """-> Chunk with cells relative"""
        if isinstance(p, P):
            cells = st.mem.get(p.rid)
            if cells is None: raise Unsupported('dangling region %s' % p.rid)
            out = {}
            for o, (sz, v) in cells.items():
                if o >= p.off and o+sz <= p.off+size:
                    out[o-p.off] = (sz, v)
                    for hv, rd in self.watch:
                        if hv.get((p.rid, o)) is v: rd.add((p.rid, o))
                elif o < p.off+size and o+sz > p.off:
                    if isinstance(v, T) and v.sort == 'I' and isconst(v) and o <= p.off and o+sz >= p.off+size:
                        x = (int(v.args[0]) >> (8*(p.off-o))) & ((1 << (8*size))-1)
                        out[0] = (size, wrap(Int(x), 8*size)); continue
                    raise Unsupported('partial cell read %s %d %d' % (p, o, sz))
            return Chunk(out, size)
        if isinstance(p, VP):
            c = st.conts[p.cid]; out = {}
            for o, sz, k in c.kind.fields:
                if o >= p.off and o+sz <= p.off+size: out[o-p.off] = (sz, c.read(p.node, o, k))
            if not out: raise Unsupported('node read at %d' % p.off)
            return Chunk(out, size)
        raise Unsupported('load from %r' % (p,))
    def store_bytes(self, st, p, ch):
        if isinstance(p, P):
            cells = dict(st.mem[p.rid])
            lo, hi = p.off, p.off+ch.size
            for o in [o for o, (sz, v) in cells.items() if o < hi and o+sz > lo]:
                sz = cells[o][0]
                v = cells[o][1]; del cells[o]
                if o < lo or o+sz > hi:
                    if not (isinstance(v, T) and v.sort == 'I' and isconst(v)): raise Unsupported('partial overwrite')
                    for k in range(sz):
                        if not lo <= o+k < hi: cells[o+k] = (1, wrap(Int((int(v.args[0]) >> (8*k)) & 255), 8))
            for o, (sz, v) in ch.cells.items(): cells[lo+o] = (sz, v)
            st.mem[p.rid] = cells; return
        if isinstance(p, VP):
            c = st.conts[p.cid]
            for o, (sz, v) in ch.cells.items():
                c = c.write(p.node, p.off+o, sz, v)
            st.conts[p.cid] = c; return
        raise Unsupported('store to %r' % (p,))
    def load(self, st, p, ty):
        ty = self.mod.types.resolve(ty); size = self.mod.types.size(ty)
        ch = self.load_bytes(st, p, size)
        return self.from_chunk(ch, ty)
    def from_chunk(self, ch, ty):
        ty = self.mod.types.resolve(ty); k = ty[0]
        if k == 'struct':
            offs, _ = self.mod.types.layout(ty); vs = []
            for o, e in zip(offs, ty[1]):
                es = self.mod.types.size(e)
                sub = Chunk({r-o: c for r, c in ch.cells.items() if o <= r and r + c[0] <= o+es}, es)
                vs.append(self.from_chunk(sub, e))
            return Agg(vs)
        if k == 'array':
            es = self.mod.types.size(ty[2])
            return Agg([self.from_chunk(Chunk({r-o: c for r, c in ch.cells.items() if o <= r < o+es}, es), ty[2]) for o in range(0, es*ty[1], es)])
        size = self.mod.types.size(ty)
        if len(ch.cells) == 1 and 0 in ch.cells and ch.cells[0][0] == size:
            v = ch.cells[0][1]
            if k == 'int' and ty[1] == 1: return to_bits(v, 8).b[0]
            return v
        if not ch.cells: return UNDEF
        return Chunk(ch.cells, size)
    def to_chunk(self, v, ty):
        ty = self.mod.types.resolve(ty); size = self.mod.types.size(ty)
        if isinstance(v, Chunk): return Chunk({o: c for o, c in v.cells.items() if o + c[0] <= size}, size)
        if isinstance(v, Undef): return Chunk({}, size)
        if ty[0] == 'struct':
            offs, _ = self.mod.types.layout(ty); cells = {}
            for o, e, x in zip(offs, ty[1], v.v):
                for r, c in self.to_chunk(x, e).cells.items(): cells[o+r] = c
            return Chunk(cells, size)
        if ty[0] == 'array':
            cells = {}; es = self.mod.types.size(ty[2])
            for i, x in enumerate(v.v):
                for r, c in self.to_chunk(x, ty[2]).cells.items(): cells[i*es+r] = c
            return Chunk(cells, size)
        if ty[0] == 'int' and ty[1] == 1: v = to_bits(v, 8)
        return Chunk({0: (size, v)}, size)
    def zero(self, ty):
        ty = self.mod.types.resolve(ty)
        if ty[0] == 'struct': return Agg([self.zero(e) for e in ty[1]])
        if ty[0] == 'array': return Agg([self.zero(ty[2]) for _ in range(ty[1])])
        if ty[0] == 'ptr': return NULL
        if ty[0] in ('double', 'float'): return Real(0)
        if ty[0] == 'int': return FALSE if ty[1] == 1 else Int(0)
        raise Unsupported('zero of %r' % (ty,))
    # ------------------------------------------------------------ operands
    def glob(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls: return FnP(name)
        g = self.mod.globals.get(name)
        if isinstance(g, tuple) and g[0] == 'alias': return self.glob(st, g[1])
        rid = '@' + name
        if rid not in st.mem:
            st.mem[rid] = {}
            if g is None: raise Unsupported('global ' + name)
            toks = IR.tokenize(g.split(' = ', 1)[1])
            j = 0
            while j < len(toks) and toks[j] not in ('global', 'constant'): j += 1
            if j < len(toks) and not name.startswith('.str') and '__PRETTY_FUNCTION__' not in name:
                try:
                    ty, i = self.mod.types.parse(toks, j+1)
                    if 'external' not in toks[:j]:
                        o, i = self.mod.operand(toks, i, ty)
                        v = self.opval(st, None, o, ty)
                        st.mem[rid] = dict(self.to_chunk(v, ty).cells)
                except (ValueError, IndexError): pass
        return P(rid, 0)
    def opval(self, st, fr, o, ty):
        k = o[0]
        if k == 'reg': return fr.regs[o[1]]
        if k == 'int':
            if ty[0] == 'int' and ty[1] == 1: return B(o[1] != 0)
            return Int(o[1])
        if k == 'fp': return Real(o[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero': return self.zero(o[1])
        if k == 'glob': return self.glob(st, o[1])
        if k == 'agg': return Agg([self.opval(st, fr, x, t) for t, x in o[1]])
        if k == 'cgep':
            return self.gep(st, fr, o[1], o[2][0][1], o[2][1:])
        raise Unsupported('operand %r' % (o,))
    def gep(self, st, fr, bt, pop, idx):
        p = self.opval(st, fr, pop, ('ptr',))
        off = 0; t = bt; first = True
        for ity, o in idx:
            v = self.opval(st, fr, o, ity)
            if isinstance(v, Bits) and bits_isconst(v): v = Int(sum((1 << i) for i, b in enumerate(v.b) if b is TRUE))
            if not (isinstance(v, T) and isconst(v)): raise Unsupported('variable gep')
            n = int(v.args[0])
            if first: off += n*self.mod.types.size(t); first = False
            else:
                r = self.mod.types.resolve(t)
                if r[0] == 'struct': off += self.mod.types.layout(r)[0][n]; t = r[1][n]
                else: off += n*self.mod.types.size(r[2]); t = r[2]
        if isinstance(p, P): return P(p.rid, p.off+off)
        if isinstance(p, VP): return VP(p.node, p.cid, p.off+off)
        if isinstance(p, NP):
            if off == 0: return p
            if off == 32: return VP(p.node, p.cid, 0)
        if off == 0: return p
        raise Unsupported('gep on %r' % (p,))
    # ------------------------------------------------------------ function execution
    def loops_of(self, f):
        li = self.loopinfo.get(f.name)
        if li is None:
            f.parse(); succ = {}
            for b in f.order:
                last = self.mod.instrs(f, b)[-1]
                if last[1] == 'jmp': s = [last[2]]
                elif last[1] == 'br': s = [last[3], last[4]]
                elif last[1] == 'switch': s = [last[4]] + [c[1] for c in last[5]]
                elif last[1] == 'call' and last[5]: s = [last[5]]
                else: s = []
                succ[b] = s
            heads = []; color = {}
            st = [(f.order[0], iter(succ[f.order[0]]))]; color[f.order[0]] = 1
            while st:
                b, itr = st[-1]
                for s in itr:
                    if color.get(s) == 1:
                        if s not in heads: heads.append(s)
                    elif s not in color:
                        color[s] = 1; st.append((s, iter(succ[s]))); break
                else: color[b] = 2; st.pop()
            heads.sort(key=lambda h: f.order.index(h))
            # natural loop bodies
            pred = {}
            for b, ss in succ.items():
                for s in ss: pred.setdefault(s, []).append(b)
            idx = {b: i for i, b in enumerate(f.order)}
            li = self.loopinfo[f.name] = (heads, succ)
        return li
    def call_function(self, st, name, args, depth=0):
        """-> list of (state, retval)"""
        f = self.mod.funcs[name].parse()
        fr = Frame(); fr.fn = f; fr.regs = {}; fr.args = args; fr.allocas = {}; fr.loops = {}; fr.prev = None; fr.depth = depth
        fr.entry = st.copy(); fr.mono = None
        i = 0
        for p, a in zip(f.params, args): fr.regs[p.name] = a
        if depth > 120: raise Unsupported('recursion depth')
        outs = self.run_block(st, fr, f.order[0])
        return outs
    def run_block(self, st, fr, b):
        heads, _ = self.loops_of(fr.fn)
        if self.dryrun:
            for info in fr.loops.values():
                if info[0] == 'inv' and info[1].dry and b not in info[1].body: return []
        if b in heads:
            r = self.at_loop_head(st, fr, b)
            if r is not None: return r
        return self.run_from(st, fr, b, 0)
    def at_loop_head(self, st, fr, b):
        info = fr.loops.get(b); self.looped = True
        if info is None:
            if self.unroll:
                fr.loops[b] = ('unroll', 1); return None
            import loops
            return loops.enter(self, st, fr, b)
        if info[0] == 'unroll':
            if info[1] > self.unroll: self.truncated += 1; return []
            fr.loops[b] = ('unroll', info[1]+1); return None
        import loops
        return loops.backedge(self, st, fr, b, info)
    def run_from(self, st, fr, b, i):
        ins_list = self.mod.instrs(fr.fn, b)
        while True:
            ins = ins_list[i]; dst, op = ins[0], ins[1]
            self.steps += 1
            if op == 'call':
                outs = self.do_call(st, fr, ins)
                nxt = ins[5]
                if len(outs) == 0: return []
                if len(outs) == 1:
                    st, rv = outs[0]
                    if dst is not None: fr.regs[dst] = rv
                    if nxt is not None:
                        fr.prev = b; return self.run_block(st, fr, nxt)
                    i += 1; continue
                res = []
                for st2, rv in outs:
                    fr2 = fr.copy()
                    if dst is not None: fr2.regs[dst] = rv
                    if nxt is not None: fr2.prev = b; res += self.run_block(st2, fr2, nxt)
                    else: res += self.run_from(st2, fr2, b, i+1)
                return res
            if op == 'br':
                c = self.opval(st, fr, ins[2], ('int', 1))
                if not isinstance(c, T): raise Unsupported('branch on %r' % (c,))
                return self.branch(st, fr, b, [(c, ins[3]), (Not(c), ins[4])])
            if op == 'jmp':
                fr.prev = b; return self.run_block(st, fr, ins[2])
            if op == 'switch':
                v = self.opval(st, fr, ins[3], ins[2]); v = as_int(v)
                cs = []; rest = TRUE
                for c, lab in ins[5]:
                    e = Eq(v, Int(c[1])); cs.append((e, lab)); rest = And(rest, Not(e))
                cs.append((rest, ins[4]))
                return self.branch(st, fr, b, cs)
            if op == 'ret':
                rv = None
                if ins[2] is not None: rv = self.opval(st, fr, ins[3], ins[2])
                for rid in fr.allocas.values(): st.mem.pop(rid, None)
                return [(st, rv)]
            if op == 'unreachable':
                self.prove(st, FALSE, 'unreachable code not reached'); return []
            self.simple(st, fr, ins); i += 1
    def branch(self, st, fr, b, alts):
        live = []
        for c, lab in alts:
            if c is FALSE: continue
            live.append((c, lab))
        if len(live) > 1:
            ok = []
            for k, (c, lab) in enumerate(live):
                if c.id in st.pcids: ok = [(c, lab)]; break
                if Not(c).id in st.pcids: continue
                if not ok and k == len(live)-1 or self.feasible(st, c): ok.append((c, lab))
            live = ok
        if not live: return []
        if len(live) == 1:
            st.assume(live[0][0]); fr.prev = b
            return self.run_block(st, fr, live[0][1])
        self.paths += 1
        if self.paths > self.budget: raise PathBudget('paths')
        if self.deadline and time.time() > self.deadline: raise PathBudget('time')
        res = []
        for k, (c, lab) in enumerate(live):
            s2 = st.copy() if k < len(live)-1 else st
            f2 = fr.copy() if k < len(live)-1 else fr
            if k < len(live)-1: pass
            s2.assume(c); s2.trace.append('%s:%s' % (IR.base_name(fr.fn.demangled).split('::')[-1], lab)); f2.prev = b
            res += self.run_block(s2, f2, lab)
        return res
    # ------------------------------------------------------------ merging
    def try_merge(self, before, outs):
        """Merge several outcomes of a call that left containers and facts untouched into one (exact: ite on path conditions)."""
        if len(outs) < 2: return outs
        nb = len(before.pc); nf = len(before.facts)
        for s, _ in outs:
            if len(s.facts) != nf or s.conts != before.conts or s.addr != before.addr or s.ghost != before.ghost: return outs
            if s.pc[:nb] != before.pc: return outs
            if s.elems != before.elems: return outs
        try:
            sufs = [And(*s.pc[nb:]) for s, _ in outs]
            acc, rv = outs[-1][0], outs[-1][1]
            mem = dict(acc.mem)
            for (s, r), c in list(zip(outs, sufs))[-2::-1]:
                rv = None if rv is None and r is None else merge_val(c, r, rv)
                for rid in list(mem):
                    if rid not in before.mem:
                        if not rid.startswith('@'): mem.pop(rid)
                        continue
                    a = s.mem.get(rid); m = mem[rid]
                    if a is m: continue
                    if a is None: raise NoMerge
                    new = {}
                    for o in set(a) & set(m):
                        if a[o][0] != m[o][0]: continue
                        new[o] = (a[o][0], merge_val(c, a[o][1], m[o][1]))
                    mem[rid] = new
            st = before.copy(); st.mem = mem
            st.assume(Or(*sufs))
            return [(st, rv)]
        except NoMerge:
            return outs
    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, ins):
        _, _, rt, callee, args, nxt, unw = ins
        if callee[0] == 'glob': name = callee[1]
        else:
            v = self.opval(st, fr, callee, ('ptr',))
            if isinstance(v, FnP): name = v.name
            else: raise Unsupported('indirect call')
        while name not in self.mod.funcs and isinstance(self.mod.globals.get(name), tuple): name = self.mod.globals[name][1]
        if name.startswith('llvm.') : return self.intrinsic(st, fr, name, ins)
        vals = []
        for ty, o, info in args:
            v = self.opval(st, fr, o, ty)
            if info.get('byval'):
                # callee gets its own copy
                rid = self.new_region(st, 'bv')
                sz = self.mod.types.size(info['byval'])
                self.store_bytes(st, P(rid, 0), self.load_bytes(st, v, sz)); v = P(rid, 0)
            vals.append(v)
        return self.invoke(st, name, vals, rt, fr.depth)
    def invoke(self, st, name, vals, rt, depth):
        h = self.handler(name)
        if h is not None:
            before = None
            return h(self, st, name, vals, rt)
        if name not in self.mod.funcs: raise Unsupported('external function ' + self.mod.demangle(name)[:300])
        before = st.copy()
        self.inlined.add(name)
        pure = self.purity.get(name)
        if pure is None: pure = self.purity[name] = self.is_pure(self.mod.demangle(name))
        if pure and not self.light:       # functions on intervals only: quantified facts are not used to prune their paths
            self.light = True
            try: outs = self.call_function(st, name, vals, depth+1)
            finally: self.light = False
        else: outs = self.call_function(st, name, vals, depth+1)
        if len(outs) > 1:
            n = len(outs); outs = self.try_merge(before, outs)
            if len(outs) == n and self.joinpat is not None and self.joinpat.search(IR.base_name(self.mod.demangle(name))): outs = self.join_outcomes(before, outs)
        return outs
    @staticmethod
    def is_pure(d): return not any(x in d for x in ('interval_base_', 'interval_set', 'interval_map', 'segmental', 'std::set', 'std::map', '_Rb_tree', 'ntegral_identity')) and 'boost::icl' in d
    def join_outcomes(self, before, outs):
        """Join of all outcomes of a call into one state: fresh exclusive guards select the outcome (exact)."""
        import stdmodel
        nb = len(before.pc); nf = len(before.facts)
        live = []
        for s, r in outs:
            if s.pc[:nb] != before.pc or s.facts[:nf] != before.facts or s.addr != before.addr or s.ghost != before.ghost: return outs
            if set(s.conts) != set(before.conts): return outs
            if self.feasible(s): live.append((s, r))
        outs = live
        if len(outs) < 2: return outs
        gs = [fresh('br', 'B') for _ in outs[1:]]
        guards = []; rest = TRUE
        for g in gs: guards.append(And(rest, g)); rest = And(rest, Not(g))
        guards.append(rest)
        try:
            st = before.copy()
            for cid in before.conts:
                alts = [(g, s.conts[cid]) for g, (s, _) in zip(guards, outs)]
                if all(c is alts[0][1] or c == alts[0][1] for _, c in alts): st.conts[cid] = alts[0][1]; continue
                if before.conts[cid] is None: raise NoMerge
                m = stdmodel.merge_conts(before.conts[cid], alts)
                if m is None: raise NoMerge
                st.conts[cid] = m
            acc, rv = outs[-1]; mem = dict(acc.mem)
            for (s, r), g in list(zip(outs, guards))[-2::-1]:
                rv = None if rv is None and r is None else merge_val(g, r, rv)
                for rid in list(mem):
                    if rid not in before.mem:
                        if not rid.startswith('@'): mem.pop(rid)
                        continue
                    a = s.mem.get(rid); m = mem[rid]
                    if a is m: continue
                    if a is None: raise NoMerge
                    new = {}
                    for o in set(a) & set(m):
                        if a[o][0] != m[o][0]: continue
                        new[o] = (a[o][0], merge_val(g, a[o][1], m[o][1]))
                    mem[rid] = new
            st.mem = mem
            common = None
            for g, (s, _) in zip(guards, outs):
                st.assume(Implies(g, And(*s.pc[nb:])))
                for f in s.facts[nf:]: st.facts.append(Fact(f.sorts, lambda *a, f=f, g=g: Implies(g, f.inst(*a)), f.name))
                for e in s.elems: st.add_elem(e)
            st.trace.append('join')
            return [(st, rv)]
        except NoMerge:
            return outs
    def handler(self, name):
        if name in self.handler_cache: return self.handler_cache[name]
        d = self.mod.demangle(name); bn = IR.base_name(d)
        h = None
        if name == self.top: h = None
        else:
            for c in self.contracts:
                h = c.match(self, name, d, bn)
                if h: break
            if h is None: h = self.models.match(self, name, d, bn)
        self.handler_cache[name] = h
        return h
    def intrinsic(self, st, fr, name, ins):
        _, _, rt, callee, args, nxt, unw = ins
        v = [self.opval(st, fr, o, ty) for ty, o, _ in args]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = v[2]
            if not isconst(n): raise Unsupported('variable memcpy')
            self.store_bytes(st, v[0], self.load_bytes(st, v[1], int(n.args[0]))); return [(st, None)]
        if name.startswith('llvm.memset'):
            n = int(v[2].args[0]); 
            if not (isconst(as_int(v[1])) and int(as_int(v[1]).args[0]) == 0): raise Unsupported('memset')
            cells = {}
            # keep existing cell structure, unknown cells become zero bytes lazily
            old = st.mem[v[0].rid]
            for o, (sz, x) in old.items():
                if v[0].off <= o < v[0].off+n: cells[o-v[0].off] = (sz, Int(0))
            self.store_bytes(st, v[0], Chunk(cells, n)); return [(st, None)]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')): return [(st, None)]
        if name.startswith('llvm.expect'): return [(st, v[0])]
        if name.startswith('llvm.is.constant'): return [(st, FALSE)]
        if name == 'llvm.trap': self.prove(st, FALSE, 'trap not reached'); return []
        raise Unsupported(name)
    # ------------------------------------------------------------ simple instructions
    def simple(self, st, fr, ins):
        dst, op = ins[0], ins[1]
        if op == 'alloca':
            rid = self.new_region(st, 'a'); st.mem[rid] = {}; fr.allocas[dst] = rid; fr.regs[dst] = P(rid, 0); return
        if op == 'load':
            p = self.opval(st, fr, ins[3], ('ptr',))
            v = self.load(st, p, ins[2]); fr.regs[dst] = v; return
        if op == 'store':
            v = self.opval(st, fr, ins[3], ins[2]); p = self.opval(st, fr, ins[4], ('ptr',))
            self.store_bytes(st, p, self.to_chunk(v, ins[2])); return
        if op == 'gep': fr.regs[dst] = self.gep(st, fr, ins[2], ins[3], ins[4]); return
        if op == 'bin':
            _, _, o, fl, ty, a, b = ins
            a = self.opval(st, fr, a, ty); b = self.opval(st, fr, b, ty)
            fr.regs[dst] = self.binop(st, o, fl, ty, a, b); return
        if op == 'icmp':
            _, _, pred, ty, a, b = ins
            a = self.opval(st, fr, a, ty); b = self.opval(st, fr, b, ty)
            fr.regs[dst] = self.icmp(st, pred, ty, a, b); return
        if op == 'fcmp':
            _, _, pred, ty, a, b = ins
            a = self.opval(st, fr, a, ty); b = self.opval(st, fr, b, ty)
            f = {'oeq': Eq, 'ueq': Eq, 'olt': Lt, 'ult': Lt, 'ole': Le, 'ule': Le, 'ogt': Gt, 'ugt': Gt, 'oge': Ge, 'uge': Ge,
                 'one': lambda x, y: Not(Eq(x, y)), 'une': lambda x, y: Not(Eq(x, y)), 'uno': lambda x, y: FALSE, 'ord': lambda x, y: TRUE}[pred]
            fr.regs[dst] = f(a, b); return
        if op == 'cast':
            _, _, o, ty, a, to = ins
            a = self.opval(st, fr, a, ty); fr.regs[dst] = self.cast(st, o, ty, a, to); return
        if op == 'phi':
            for o, lab in ins[3]:
                if lab == fr.prev:
                    fr.regs[dst] = self.opval(st, fr, o, ins[2]); return
            raise Unsupported('phi')
        if op == 'select':
            c = self.opval(st, fr, ins[2], ('int', 1)); a = self.opval(st, fr, ins[4], ins[3]); b = self.opval(st, fr, ins[5], ins[3])
            if c is TRUE: fr.regs[dst] = a; return
            if c is FALSE: fr.regs[dst] = b; return
            try: fr.regs[dst] = merge_val(c, a, b); return
            except NoMerge: raise Unsupported('select')
        if op == 'extractvalue':
            v = self.opval(st, fr, ins[3], ins[2])
            for i in ins[4]: v = v.v[i] if isinstance(v, Agg) else UNDEF
            fr.regs[dst] = v; return
        if op == 'insertvalue':
            a = self.opval(st, fr, ins[3], ins[2]); v = self.opval(st, fr, ins[5], ins[4])
            if isinstance(a, Undef): a = Agg([UNDEF]*len(self.mod.types.resolve(ins[2])[1]))
            a = Agg(a.v)
            if len(ins[6]) != 1: raise Unsupported('insertvalue')
            a.v[ins[6][0]] = v; fr.regs[dst] = a; return
        raise Unsupported('%s in %s' % (ins[2] if op == 'unsupported' else op, fr.fn.demangled[:100]))
    def binop(self, st, o, fl, ty, a, b):
        if ty[0] in ('double', 'float'):
            if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('undef fp')
            self.assumptions.add('floating-point + and - treated as exact real arithmetic')
            if o == 'fadd': return Add(a, b)
            if o == 'fsub': return Sub(a, b)
            raise Unsupported(o)
        w = ty[1]
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('undef operand')
        if o in ('and', 'or', 'xor'):
            if w == 1:
                return {'and': And, 'or': Or, 'xor': Xor}[o](a, b)
            if isinstance(a, T) and isinstance(b, T) and not isconst(a) and not isconst(b): raise Unsupported('bitop on ints')
            if isinstance(a, T) and isinstance(b, T) and isconst(a) and isconst(b):
                x, y = int(a.args[0]), int(b.args[0]); r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[o]
                return wrap(Int(r), w)
            if o == 'xor' and isinstance(b, T) and isconst(b) and int(b.args[0]) == -1 and isinstance(a, T):
                return Sub(Int(-1), a)
            A, C = to_bits(a, w), to_bits(b, w)
            f = {'and': And, 'or': Or, 'xor': Xor}[o]
            return Bits([f(x, y) for x, y in zip(A.b, C.b)])
        if o in ('shl', 'lshr', 'ashr'):
            if isinstance(a, T) and a.sort == 'I' and isconst(a) and isconst(as_int(b)):
                k = int(as_int(b).args[0]); x = int(a.args[0])
                if o == 'shl': return wrap(Int(x << k), w)
                if o == 'ashr': return Int(x >> k)
                return wrap(Int((x & ((1 << w)-1)) >> k), w)
            if o == 'shl' and isinstance(a, T) and isconst(as_int(b)):
                r = Scale(1 << int(as_int(b).args[0]), a)
                if 'nsw' in fl: self.prove(st, in_range(r, w), 'no signed overflow in shl'); return r
                raise Unsupported('shl')
            A = to_bits(a, w); kk = as_int(b)
            if not isconst(kk):
                raise Unsupported('variable shift')
            k = int(kk.args[0])
            if o == 'shl': return Bits((FALSE,)*k + A.b[:w-k])
            fill = A.b[-1] if o == 'ashr' else FALSE
            return Bits(A.b[k:] + (fill,)*k)
        if w == 1 and o in ('add', 'sub'): return Xor(a, b)
        a = as_int(a); b = as_int(b)
        if o in ('add', 'sub'):
            r = Add(a, b) if o == 'add' else Sub(a, b)
            if 'nsw' in fl:
                g = in_range(r, w)
                if g is not TRUE: self.prove(st, g, 'no signed overflow (i%d %s)' % (w, o))
                return r
            return wrap(r, w)
        if o == 'mul':
            if isconst(a): r = Scale(int(a.args[0]), b)
            elif isconst(b): r = Scale(int(b.args[0]), a)
            else:
                r = mk('mul', (a, b) if a.id < b.id else (b, a), 'I')
            if 'nsw' in fl: self.prove(st, in_range(r, w), 'no signed overflow in mul'); return r
            if isconst(r): return wrap(r, w)
            raise Unsupported('mul')
        raise Unsupported(o)
    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'ptr':
            r = self.ptr_eq(a, b)
            if pred == 'eq': return r
            if pred == 'ne': return Not(r)
            raise Unsupported('ptr compare')
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('undef compare')
        w = ty[1]
        if w == 1:
            if pred == 'eq': return Iff(a, b)
            if pred == 'ne': return Not(Iff(a, b))
        if (isinstance(a, Bits) or isinstance(b, Bits)):
            try:
                A, C = to_bits(a, w), to_bits(b, w)
                e = And(*[Iff(x, y) for x, y in zip(A.b, C.b)])
                if pred == 'eq': return e
                if pred == 'ne': return Not(e)
            except Unsupported: pass
            a = bits_int(a, pred[0] == 's' and len(a.b) == w) if isinstance(a, Bits) else a
            b = bits_int(b, pred[0] == 's' and len(b.b) == w) if isinstance(b, Bits) else b
        if isinstance(a, (NP, VP, P, NullP)) or isinstance(b, (NP, VP, P, NullP)): raise Unsupported('icmp on pointer as int')
        if isinstance(a, Chunk) or isinstance(b, Chunk): raise Unsupported('icmp on chunk')
        a = as_int(a); b = as_int(b)
        if pred == 'eq': return Eq(a, b)
        if pred == 'ne': return Not(Eq(a, b))
        if pred[0] == 'u': a = unsigned(a, w); b = unsigned(b, w)
        return {'lt': Lt, 'le': Le, 'gt': Gt, 'ge': Ge}[pred[1:]](a, b)
    def ptr_eq(self, a, b):
        if isinstance(a, NP) and isinstance(b, NP): return Eq(a.node, b.node)
        if isinstance(a, P) and isinstance(b, P): return B(a.rid == b.rid and a.off == b.off)
        if isinstance(a, VP) and isinstance(b, VP): return And(Eq(a.node, b.node), B(a.off == b.off)) if a.cid == b.cid else FALSE
        if isinstance(a, NullP) and isinstance(b, NullP): return TRUE
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('undef pointer compare')
        return FALSE
    def cast(self, st, o, ty, a, to):
        if o in ('bitcast', 'addrspacecast'): return a
        if o in ('ptrtoint', 'inttoptr'): return a if o == 'inttoptr' else Chunk({0: (8, a)}, 8)
        if isinstance(a, Undef): return UNDEF
        if o == 'zext':
            w, w2 = ty[1], to[1]
            if w == 1: return Bits((a,)+(FALSE,)*(w2-1)) if w2 <= 64 else UNDEF
            if isinstance(a, Bits): return Bits(a.b + (FALSE,)*(w2-len(a.b)))
            if isinstance(a, Chunk): raise Unsupported('zext chunk')
            return unsigned(a, w)
        if o == 'sext':
            w, w2 = ty[1], to[1]
            if w == 1: return Ite(a, Int(-1), Int(0))
            if isinstance(a, Bits): return Bits(a.b + (a.b[-1],)*(w2-len(a.b)))
            return a
        if o == 'trunc':
            w = to[1]
            if isinstance(a, Bits):
                return a.b[0] if w == 1 else Bits(a.b[:w])
            if isinstance(a, Chunk): return self.from_chunk(Chunk({k: c for k, c in a.cells.items() if k + c[0] <= w//8}, w//8), to)
            if isconst(a):
                if w == 1: return B(int(a.args[0]) & 1)
                return wrap(a, w)
            if w == 1: raise Unsupported('trunc int to i1')
            r, _, _ = check(st.pc + [Not(in_range(a, w))], 2000)
            if r == 'unsat': return a
            v = fresh('trunc', 'I'); st.assume(in_range(v, w), Implies(in_range(a, w), Eq(v, a)))
            return v
        if o in ('sitofp', 'uitofp'):
            if isinstance(a, T) and isconst(a): return Real(int(a.args[0]))
            raise Unsupported(o)
        if o in ('fpext', 'fptrunc'): return a
        raise Unsupported(o)
