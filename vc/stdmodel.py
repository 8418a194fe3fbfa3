"""Trusted (assumed) contracts of the libstdc++ ordered containers and their iterators.

A container is an abstract set of nodes: in(n), a rigid position pos(n) giving the tree order, and the
fields of the stored value.  Every operation carries the library's preconditions as obligations
(dereferenceable / incrementable iterators, valid ranges, keys sorted by the comparator)."""
import re
from terms import *
from solve import Fact, CHOICE
from sym import *
import ir as IR

def pos(n): return App('pos', 'R', n)

class Kind:
    """Layout and ordering of the stored value. fields: [(off,size,kind)], kinds: i (int), d (double), b (bounds byte)."""
    def __init__(self, name, fields, keysize, less, keyok=None, ismap=False, rng=None, key=None):
        self.name = name; self.fields = fields; self.keysize = keysize; self.less = less
        self.keyok = keyok or (lambda c: TRUE); self.ismap = ismap; self.rng = rng; self.size = max(o+s for o, s, _ in fields)
        self.fk = {o: (s, k) for o, s, k in fields}
    def keycells(self, cells): return {o: v for o, v in cells.items() if o < self.keysize}

class Cont:
    __slots__ = ('name', 'kind', 'end', 'base', 'ops', 'fields', 'ok', '_sid')
    _sids = {}
    def __init__(self, name, kind, end, base, ops, fields, ok):
        self.name = name; self.kind = kind; self.end = end; self.base = base; self.ops = ops; self.fields = fields; self.ok = ok; self._sid = None
    def struct(self):
        return (self.name, self.end.id, self.base, tuple((o,)+tuple(x.id for x in a) for o, *a in self.ops),
                tuple((off, f, tuple((n.id, self.vid(v)) + tuple(x.id for x in g) for n, v, *g in w)) for off, (f, w) in sorted(self.fields.items())))
    @staticmethod
    def vid(v): return v.id if isinstance(v, T) else tuple(b.id for b in v.b)
    @property
    def sid(self):
        if self._sid is None:
            k = self.struct(); s = Cont._sids.get(k)
            if s is None: s = Cont._sids[k] = 's%d' % len(Cont._sids)
            self._sid = s
        return self._sid
    def __eq__(self, o): return self is o or (isinstance(o, Cont) and self.sid == o.sid and self.ok == o.ok)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.sid)
    def repl(self, **k):
        d = dict(name=self.name, kind=self.kind, end=self.end, base=self.base, ops=self.ops, fields=self.fields, ok=self.ok); d.update(k)
        return Cont(**d)
    def inn(self, n):
        r = App(self.base, 'B', n) if self.base else FALSE
        for op, *a in self.ops:     # an additional last argument is a guard (join of several outcomes)
            g = And(*a[2 if op == 'range' else 1:])
            if op == 'ins': r = Or(r, And(g, Eq(n, a[0])))
            elif op == 'del': r = And(r, Not(And(g, Eq(n, a[0]))))
            elif op == 'range': r = And(r, Not(And(g, Le(pos(a[0]), pos(n)), Lt(pos(n), pos(a[1])))))
        return r
    def read(self, n, off, k=None):
        fname, writes = self.fields[off]
        k = k or self.kind.fk[off][1]
        if n.op == 'ite':
            a, b = self.read(n.args[1], off, k), self.read(n.args[2], off, k)
            return merge_val(n.args[0], a, b)
        if k == 'b':
            v = Bits((App(fname+'_r', 'B', n), App(fname+'_l', 'B', n)) + (FALSE,)*6) if fname else None
        else: v = App(fname, 'R' if k == 'd' else 'I', n) if fname else None
        if v is None: v = Int(0) if k != 'd' else Real(0)
        for wn, wv, *g in writes:
            c = And(Eq(n, wn), *g)
            v = merge_val(c, wv, v)
        return v
    def write(self, n, off, sz, v):
        if off not in self.fields: raise Unsupported('node write at %d' % off)
        if self.kind.fk[off][0] != sz: raise Unsupported('node write size')
        k = self.kind.fk[off][1]
        if k == 'b': v = to_bits(v, 8)
        elif not isinstance(v, T): v = as_int(v)
        cur = self.read(n, off)
        if same(cur, v): return self
        f = dict(self.fields); fn, w = f[off]; f[off] = (fn, w + ((n, v),))
        return self.repl(fields=f, ok=self.ok and off >= self.kind.keysize)
    def cells(self, n): return {o: self.read(n, o) for o, _, _ in self.kind.fields}
    def key(self, n): return {o: self.read(n, o) for o, _, _ in self.kind.fields if o < self.kind.keysize}

def new_input(st, kind, name):
    """A container with arbitrary content satisfying the library invariant (sorted, valid keys)."""
    nm = uid(name)
    c = Cont(nm, kind, Var('end_'+nm, 'N'), 'in_'+nm, (), {o: ('f%d_%s' % (o, nm), ()) for o, _, _ in kind.fields}, True)
    base_facts(st, c); sorted_facts(st, c)
    return c
INJ = Fact(('N', 'N'), lambda m, n: TRUE if m.id >= n.id else Implies(Eq(pos(m), pos(n)), Eq(m, n)), 'inj')   # positions are chosen injective
def base_facts(st, c, rng=True):
    end = c.end
    st.facts.append(Fact(('N',), lambda n: And(Implies(c.inn(n), And(Lt(pos(n), pos(end)), Not(Eq(n, end)))), c.kind.rng(c.cells(n)) if c.kind.rng and rng else TRUE), 'base'))
    if INJ not in st.facts: st.facts.append(INJ)
def sorted_goal(c):
    return Q(('N', 'N'), lambda m, n: TRUE if m is n else Implies(And(c.inn(m), c.inn(n), Lt(pos(m), pos(n))), c.kind.less(c.key(m), c.key(n))), 'sorted')
def keyok_goal(c): return Q(('N',), lambda n: Implies(c.inn(n), c.kind.keyok(c.key(n))), 'keyok')
def sorted_facts(st, c):
    g = sorted_goal(c); st.facts.append(Fact(g.sorts, g.fn, 'sorted'))
    g = keyok_goal(c); st.facts.append(Fact(g.sorts, g.fn, 'keyok'))
def havoc_cont(st, c, name=None):
    nm = uid(c.name.split('!')[0] + 'h')
    n = Cont(nm, c.kind, c.end, 'in_'+nm, (), {o: ('f%d_%s' % (o, nm), ()) for o, _, _ in c.kind.fields}, False)
    base_facts(st, n, False)
    return n
def empty_cont(kind, name):
    nm = uid(name)
    return Cont(nm, kind, Var('end_'+nm, 'N'), '', (), {o: ('', ()) for o, _, _ in kind.fields}, True)

def merge_conts(before, alts):
    """join of containers derived from the same one, under exclusive guards: [(guard, cont)] -> cont or None"""
    nb = len(before.ops); ops = before.ops; ok = before.ok or any(c.ok for _, c in alts)
    fields = dict(before.fields)
    for g, c in alts:
        if c == before: continue
        if c.base != before.base or c.end is not before.end or c.ops[:nb] != before.ops: return None
        for off, (f, w) in c.fields.items():
            bf, bw = before.fields[off]
            if f != bf or w[:len(bw)] != bw: return None
            cur = fields[off]
            fields[off] = (f, cur[1] + tuple((n, v) + (And(g, *gg),) for n, v, *gg in w[len(bw):]))
        for op, *a in c.ops[nb:]:
            k = 2 if op == 'range' else 1
            ops = ops + ((op,) + tuple(a[:k]) + (And(g, *a[k:]),),)
    return before.repl(ops=ops, fields=fields, ok=all(c.ok for _, c in alts))

class Models:
    def __init__(self, kinds):
        self.counting = False; self.measures = []
        self.kinds = kinds      # list of (prefix of demangled class type, Kind)
        self.cn = 0
    def kind_of(self, d):
        for pre, k in self.kinds:
            if pre in d: return k
        raise Unsupported('container kind of ' + d[:200])
    def cid(self, st, p):
        if not isinstance(p, P): raise Unsupported('container at %r' % (p,))
        c = st.addr.get((p.rid, p.off))
        if c is None: raise Unsupported('no container at %r' % (p,))
        return c
    def put(self, st, p, c):
        self.cn += 1; cid = 'c%d' % self.cn
        st.conts[cid] = c; st.addr[(p.rid, p.off)] = cid; return cid
    # -------------------------------------------------------------- helpers
    def need(self, ex, st, cid):
        c = st.conts[cid]
        if not c.ok:
            ex.prove(st, sorted_goal(c), 'keys sorted (tree invariant)')
            ex.prove(st, keyok_goal(c), 'stored keys non-empty')
            st.conts[cid] = c.repl(ok=True)
        return st.conts[cid]
    def keyarg(self, ex, st, c, p):
        ch = ex.load_bytes(st, p, c.kind.size if False else c.kind.keysize)
        cells = {}
        for o, s, k in c.kind.fields:
            if o < c.kind.keysize:
                if o not in ch.cells: raise Unsupported('key field missing')
                v = ch.cells[o][1]
                cells[o] = to_bits(v, 8) if k == 'b' else (v if isinstance(v, T) else as_int(v))
        ex.prove(st, c.kind.keyok(cells), 'key passed to container is non-empty')
        return cells
    def keyid(self, cells): return tuple(Cont.vid(v) for _, v in sorted(cells.items()))
    def memo(self, st, key, mkfn):
        r = st.cache.get(key)
        if r is None: r = st.cache[key] = mkfn()
        return r
    # ghost: position of a node in its container and sums over the nodes before it
    def idx(self, c, n): return App('idx_'+c.sid, 'I', n)
    def sum(self, c, n, i=0): return App('sum%d_%s' % (i, c.sid), self.measures[i][0], n)
    def ghost_begin(self, st, c, m):
        if self.counting: st.assume(Eq(self.idx(c, m), Int(0)))
        for i, (s, _) in enumerate(self.measures): st.assume(Eq(self.sum(c, m, i), zero(s)))
    def ghost_next(self, st, c, n, m):
        if self.counting: st.assume(Eq(self.idx(c, m), Add(self.idx(c, n), Int(1))))
        for i, (s, f) in enumerate(self.measures): st.assume(Eq(self.sum(c, m, i), Add(self.sum(c, n, i), f(c.cells(n)))))
    def ghost_facts(self, st, c):
        if self.counting or self.measures:
            v = lambda n: Or(c.inn(n), Eq(n, c.end))
            def fn(m, n):
                if m is n: return TRUE
                r = []
                if self.counting: r += [Implies(Lt(pos(m), pos(n)), Lt(self.idx(c, m), self.idx(c, n))), Implies(Eq(self.idx(c, m), self.idx(c, n)), Eq(m, n))]
                for i, (s, f) in enumerate(self.measures): r.append(Implies(Lt(pos(m), pos(n)), Le(self.sum(c, m, i), self.sum(c, n, i))))
                return Implies(And(v(m), v(n)), And(*r))
            st.facts.append(Fact(('N', 'N'), fn, 'ghost order'))
            st.facts.append(Fact(('N',), lambda n: Implies(v(n), And(*([Le(Int(0), self.idx(c, n))] if self.counting else []), *[Le(zero(s), self.sum(c, n, i)) for i, (s, _) in enumerate(self.measures)])), 'ghost nonneg'))
    def begin(self, ex, st, cid):
        c = st.conts[cid]
        def f():
            m = fresh('begin', 'N')
            st.assume(Or(Eq(m, c.end), c.inn(m)), Implies(Eq(m, c.end), Not(c.inn(m))))
            st.facts.append(Fact(('N',), lambda k: Implies(c.inn(k), And(Not(Eq(m, c.end)), Le(pos(m), pos(k)))), 'begin'))
            self.ghost_begin(st, c, m)
            return m
        return self.memo(st, ('begin', c.sid), f)
    def lower(self, ex, st, cid, key):
        c = self.need(ex, st, cid)
        def f():
            m = fresh('lb', 'N')
            st.assume(Or(Eq(m, c.end), c.inn(m)))
            st.facts.append(Fact(('N',), lambda k: Implies(c.inn(k), Iff(Lt(pos(k), pos(m)), c.kind.less(c.key(k), key))), 'lower_bound'))
            return m
        return self.memo(st, ('lb', c.sid, self.keyid(key)), f)
    def upper(self, ex, st, cid, key):
        c = self.need(ex, st, cid)
        def f():
            m = fresh('ub', 'N')
            st.assume(Or(Eq(m, c.end), c.inn(m)))
            st.facts.append(Fact(('N',), lambda k: Implies(c.inn(k), Iff(Le(pos(m), pos(k)), c.kind.less(key, c.key(k)))), 'upper_bound'))
            return m
        return self.memo(st, ('ub', c.sid, self.keyid(key)), f)
    def find(self, ex, st, cid, key):
        c = self.need(ex, st, cid)
        m = self.lower(ex, st, cid, key)
        hit = And(Not(Eq(m, c.end)), Not(c.kind.less(key, c.key(m))))
        return Ite(hit, m, c.end), hit
    def next(self, ex, st, cid, n):
        c = st.conts[cid]
        ex.prove(st, c.inn(n), 'incremented iterator is dereferenceable')
        def f():
            m = fresh('next', 'N')
            st.assume(Or(Eq(m, c.end), c.inn(m)), Lt(pos(n), pos(m)))
            st.facts.append(Fact(('N',), lambda k: Implies(And(c.inn(k), Lt(pos(n), pos(k))), Le(pos(m), pos(k))), 'next'))
            self.ghost_next(st, c, n, m)
            return m
        return self.memo(st, ('next', c.sid, n.id), f)
    def prev(self, ex, st, cid, n):
        c = st.conts[cid]
        b = self.begin(ex, st, cid)
        ex.prove(st, And(Or(c.inn(n), Eq(n, c.end)), Not(Eq(n, b))), 'decremented iterator is not begin')
        def f():
            m = fresh('prev', 'N')
            st.assume(c.inn(m), Lt(pos(m), pos(n)))
            st.facts.append(Fact(('N',), lambda k: Implies(And(c.inn(k), Lt(pos(k), pos(n))), Le(pos(k), pos(m))), 'prev'))
            self.ghost_next(st, c, m, n)
            return m
        return self.memo(st, ('prev', c.sid, n.id), f)
    def node(self, v, cid=None):
        if not isinstance(v, NP): raise Unsupported('iterator %r' % (v,))
        if cid is not None and v.cid != cid: raise Unsupported('iterator of another container')
        return v.node
    def insert(self, ex, st, cid, p, rt):
        """-> [(state, node, inserted?)]"""
        c = self.need(ex, st, cid)
        key = self.keyarg(ex, st, c, p)
        ch = ex.load_bytes(st, p, c.kind.size)
        vals = {}
        for o, s, k in c.kind.fields:
            if o not in ch.cells: raise Unsupported('uninitialised field inserted')
            v = ch.cells[o][1]; vals[o] = to_bits(v, 8) if k == 'b' else (v if isinstance(v, T) else as_int(v))
        outs = []
        # rejected
        s1 = st.copy(); m = fresh('dup', 'N')
        s1.assume(c.inn(m), Not(c.kind.less(c.key(m), key)), Not(c.kind.less(key, c.key(m))))
        if ex.feasible(s1):
            s1.trace.append('insert:dup'); outs.append((s1, m, FALSE))
        s2 = st
        s2.facts.append(Fact(('N',), lambda k: Implies(c.inn(k), Or(c.kind.less(c.key(k), key), c.kind.less(key, c.key(k)))), 'insert-new'))
        if ex.feasible(s2):
            n0 = fresh('new', 'N')
            fields = {o: (fn, w + ((n0, vals[o]),)) for o, (fn, w) in c.fields.items()}
            c2 = c.repl(ops=c.ops + (('ins', n0),), fields=fields)
            s2.conts[cid] = c2
            s2.assume(Not(c.inn(n0)), Not(Eq(n0, c.end)), Lt(pos(n0), pos(c.end)))
            for oc in s2.conts.values():
                if oc is not c2: s2.assume(Not(oc.inn(n0)), Not(Eq(n0, oc.end)))
            s2.facts.append(Fact(('N',), lambda k: Implies(c.inn(k), And(Not(Eq(k, n0)),
                Iff(Lt(pos(k), pos(n0)), c.kind.less(c.key(k), key)), Iff(Lt(pos(n0), pos(k)), c.kind.less(key, c.key(k))))), 'insert-pos'))
            s2.trace.append('insert:new'); outs.append((s2, n0, TRUE))
        self.paths = 0
        return outs
    def erase1(self, ex, st, cid, n):
        c = st.conts[cid]
        ex.prove(st, c.inn(n), 'erased iterator is dereferenceable')
        nx = self.next(ex, st, cid, n)
        st.conts[cid] = c.repl(ops=c.ops + (('del', n),))
        return nx
    def clear(self, st, cid):
        c = st.conts[cid]
        e = Cont(c.name + 'c', c.kind, c.end, '', (), {o: ('', ()) for o in c.fields}, True)
        st.conts[cid] = e
    def copy_into(self, ex, st, src):
        """fresh container isomorphic to src"""
        c = st.conts[src]
        nm = uid('cp')
        d = Cont(nm, c.kind, Var('end_'+nm, 'N'), 'in_'+nm, (), {o: ('f%d_%s' % (o, nm), ()) for o, _, _ in c.kind.fields}, c.ok)
        base_facts(st, d)
        phi = lambda n: App('phi_'+nm, 'N', n)
        psi = lambda n: App('psi_'+nm, 'N', n)
        def eqcells(a, b): return And(*[And(*[Iff(x, y) for x, y in zip(a[o].b, b[o].b)]) if isinstance(a[o], Bits) else Eq(a[o], b[o]) for o in a])
        def f1(n):
            if n.op == 'app' and n.args[0] in ('phi_'+nm, 'psi_'+nm): return TRUE
            q = phi(n); return Implies(c.inn(n), And(d.inn(q), eqcells(c.cells(n), d.cells(q)), Eq(psi(q), n)))
        def f2(n):
            if n.op == 'app' and n.args[0] in ('phi_'+nm, 'psi_'+nm): return TRUE
            q = psi(n); return Implies(d.inn(n), And(c.inn(q), eqcells(d.cells(n), c.cells(q)), Eq(phi(q), n)))
        st.facts.append(Fact(('N',), f1, 'copy')); st.facts.append(Fact(('N',), f2, 'copy'))
        st.facts.append(Fact(('N', 'N'), lambda m, n: TRUE if m is n else Implies(And(c.inn(m), c.inn(n)), Iff(Lt(pos(m), pos(n)), Lt(pos(phi(m)), pos(phi(n))))) if not (m.op == 'app' or n.op == 'app') else TRUE, 'copyord'))
        st.facts.append(Fact(('N', 'N'), lambda m, n: TRUE if m is n else Implies(And(d.inn(m), d.inn(n)), Iff(Lt(pos(m), pos(n)), Lt(pos(psi(m)), pos(psi(n))))) if not (m.op == 'app' or n.op == 'app') else TRUE, 'copyord'))
        if d.ok: sorted_facts(st, d)
        def f3(n): return Implies(c.inn(n), Not(d.inn(n)))
        st.facts.append(Fact(('N',), f3, 'copyfresh'))
        return d
    # -------------------------------------------------------------- dispatch
    def match(self, ex, name, d, bn):
        if bn in ('__assert_fail', '__cxa_guard_release', '__cxa_guard_acquire', '__cxa_pure_virtual', '__cxa_atexit', 'abort', 'std::terminate', '__clang_call_terminate'):
            return self.misc(bn)
        m = re.match(r'std::(set|map|_Rb_tree_iterator|_Rb_tree_const_iterator)::(.+)$', bn)
        if not m: return None
        cls, fn = m.groups()
        pars = IR.params_of(d)
        if cls.startswith('_Rb'):
            return self.iter_model(cls, fn, d, pars)
        return self.cont_model(cls, fn, d, pars)
    def misc(self, bn):
        def h(ex, st, name, a, rt):
            if bn == '__cxa_guard_acquire': return [(st, Int(1))]
            if bn in ('__cxa_guard_release', '__cxa_atexit'): return [(st, None if bn.endswith('release') else Int(0))]
            msg = ''
            if bn == '__assert_fail':
                ex.prove(st, FALSE, 'BOOST_ASSERT holds'); return []
            ex.prove(st, FALSE, bn + ' not reached'); return []
        return h
    def iter_model(self, cls, fn, d, pars):
        me = self
        def get(ex, st, p):
            v = ex.load(st, p, ('ptr',))
            if not isinstance(v, NP): raise Unsupported('iterator value %r' % (v,))
            return v
        def h(ex, st, name, a, rt):
            ex.trusted.add('std::' + cls + '::' + fn)
            v = get(ex, st, a[0])
            if fn in ('operator*', 'operator->'):
                ex.prove(st, st.conts[v.cid].inn(v.node), 'dereferenced iterator is valid')
                return [(st, VP(v.node, v.cid, 0))]
            step = me.next if '++' in fn else me.prev
            nv = NP(step(ex, st, v.cid, v.node), v.cid)
            ex.store_bytes(st, a[0], Chunk({0: (8, nv)}, 8))
            return [(st, v if pars else a[0])]
        if fn in ('operator*', 'operator->', 'operator++', 'operator--'): return h
        return None
    def ret_it(self, n, cid): return NP(n, cid)
    def cont_model(self, cls, fn, d, pars):
        me = self
        def reg(f):
            def h(ex, st, name, a, rt):
                ex.trusted.add('std::%s::%s' % (cls, fn))
                return f(ex, st, a, rt)
            return h
        if fn in ('begin', 'cbegin'):
            return reg(lambda ex, st, a, rt: [(st, NP(me.begin(ex, st, me.cid(st, a[0])), me.cid(st, a[0])))])
        if fn in ('end', 'cend'):
            return reg(lambda ex, st, a, rt: [(st, NP(st.conts[me.cid(st, a[0])].end, me.cid(st, a[0])))])
        if fn in ('rbegin', 'rend', 'crbegin', 'crend'):
            def f(ex, st, a, rt):
                sret = rt[0] == 'void'; cid = me.cid(st, a[1 if sret else 0])
                v = NP(st.conts[cid].end if 'begin' in fn else me.begin(ex, st, cid), cid)
                if sret: ex.store_bytes(st, a[0], Chunk({0: (8, v)}, 8)); return [(st, None)]
                return [(st, v)]
            return reg(f)
        if fn == 'empty':
            def f(ex, st, a, rt):
                cid = me.cid(st, a[0]); b = me.begin(ex, st, cid); return [(st, Eq(b, st.conts[cid].end))]
            return reg(f)
        if fn == 'size':
            def f(ex, st, a, rt):
                cid = me.cid(st, a[0]); c = st.conts[cid]; b = me.begin(ex, st, cid)
                n = App('size_'+c.sid, 'I')
                st.assume(Le(Int(0), n), Lt(n, Int(2**62)), Iff(Eq(n, Int(0)), Eq(b, c.end)))
                if me.counting: st.assume(Eq(n, me.idx(c, c.end)))
                return [(st, n)]
            return reg(f)
        if fn in ('lower_bound', 'upper_bound', 'find', 'equal_range', 'count'):
            def f(ex, st, a, rt):
                cid = me.cid(st, a[0]); c = me.need(ex, st, cid); key = me.keyarg(ex, st, c, a[1])
                if fn == 'lower_bound': return [(st, NP(me.lower(ex, st, cid, key), cid))]
                if fn == 'upper_bound': return [(st, NP(me.upper(ex, st, cid, key), cid))]
                if fn == 'equal_range': return [(st, Agg([NP(me.lower(ex, st, cid, key), cid), NP(me.upper(ex, st, cid, key), cid)]))]
                n, hit = me.find(ex, st, cid, key)
                if fn == 'count': return [(st, Ite(hit, Int(1), Int(0)))]
                m = me.lower(ex, st, cid, key); outs = []
                s2 = st.copy(); s2.assume(Not(hit))
                if ex.feasible(s2): s2.trace.append('find:miss'); outs.append((s2, NP(s2.conts[cid].end, cid)))
                st.assume(hit)
                if ex.feasible(st): st.trace.append('find:hit'); outs.append((st, NP(m, cid)))
                return outs
            return reg(f)
        if fn == 'insert' and len(pars) == 1 and 'initializer_list' not in pars[0]:
            def f(ex, st, a, rt):
                cid = me.cid(st, a[0])
                return [(s, Agg([NP(n, cid), Bits((b,)+(FALSE,)*7)])) for s, n, b in me.insert(ex, st, cid, a[1], rt)]
            return reg(f)
        if fn == 'insert' and len(pars) == 2 and ('_Rb_tree' in pars[0]) and '_Rb_tree' not in pars[1].split('<')[0]:
            def f(ex, st, a, rt):
                cid = me.cid(st, a[0]); h = me.node(a[1], cid); c = st.conts[cid]
                ex.prove(st, Or(c.inn(h), Eq(h, c.end)), 'insertion hint is a valid iterator')
                return [(s, NP(n, cid)) for s, n, b in me.insert(ex, st, cid, a[2], rt)]
            return reg(f)
        if fn == 'erase' and len(pars) == 1:
            if '_Rb_tree' in pars[0].split('<')[0]:
                def f(ex, st, a, rt):
                    cid = me.cid(st, a[0]); n = me.erase1(ex, st, cid, me.node(a[1], cid)); return [(st, NP(n, cid))]
                return reg(f)
            def f(ex, st, a, rt):
                cid = me.cid(st, a[0]); c = me.need(ex, st, cid); key = me.keyarg(ex, st, c, a[1])
                lo = me.lower(ex, st, cid, key); hi = me.upper(ex, st, cid, key)
                st.conts[cid] = c.repl(ops=c.ops + (('range', lo, hi),))
                n = fresh('erasecnt', 'I'); st.assume(Le(Int(0), n), Iff(Eq(n, Int(0)), Eq(lo, hi)), Lt(n, Int(2**62)))
                return [(st, n)]
            return reg(f)
        if fn == 'erase' and len(pars) == 2:
            def f(ex, st, a, rt):
                cid = me.cid(st, a[0]); c = st.conts[cid]
                x, y = me.node(a[1], cid), me.node(a[2], cid)
                ex.prove(st, And(Or(c.inn(x), Eq(x, c.end)), Or(c.inn(y), Eq(y, c.end)), Le(pos(x), pos(y))), 'erase(first,last) is a valid range')
                st.conts[cid] = c.repl(ops=c.ops + (('range', x, y),))
                return [(st, a[2])]
            return reg(f)
        if fn == 'clear':
            def f(ex, st, a, rt): me.clear(st, me.cid(st, a[0])); return [(st, None)]
            return reg(f)
        if fn == 'swap':
            def f(ex, st, a, rt):
                x, y = a[0], a[1]; cx, cy = me.cid(st, x), me.cid(st, y)
                kx, ky = st.conts[cx], st.conts[cy]
                # end iterators stay with the container object; element iterators follow the nodes
                st.addr[(x.rid, x.off)], st.addr[(y.rid, y.off)] = cy, cx
                st.conts[cx] = kx.repl(end=ky.end); st.conts[cy] = ky.repl(end=kx.end)
                me.reend(st, st.conts[cx]); me.reend(st, st.conts[cy])
                return [(st, None)]
            return reg(f)
        if fn == cls:       # constructors
            if len(pars) == 0 or (len(pars) in (1, 2) and not pars[0].startswith('std::%s<' % cls) and '_Rb' not in pars[0] and 'exclusive_less' in pars[0] + 'x' or (len(pars) in (1, 2) and pars[0].startswith('std::less'))):
                def f(ex, st, a, rt):
                    me.put(st, a[0], empty_cont(me.kind_of(d), 'cont')); return [(st, None)]
                return reg(f)
            if len(pars) == 1 and pars[0].endswith('const&'):
                def f(ex, st, a, rt):
                    c = me.copy_into(ex, st, me.cid(st, a[1])); me.put(st, a[0], c); return [(st, None)]
                return reg(f)
            if len(pars) == 1 and pars[0].endswith('&&'):
                def f(ex, st, a, rt):
                    me.put(st, a[0], empty_cont(me.kind_of(d), 'cont'))
                    me.move(st, a[0], a[1]); return [(st, None)]
                return reg(f)
        if fn == '~' + cls:
            def f(ex, st, a, rt):
                cid = st.addr.pop((a[0].rid, a[0].off), None)
                return [(st, None)]
            return reg(f)
        if fn == 'operator=':
            if pars[0].endswith('const&'):
                def f(ex, st, a, rt):
                    if a[0].rid == a[1].rid and a[0].off == a[1].off: return [(st, a[0])]
                    cid = me.cid(st, a[0]); end = st.conts[cid].end
                    c = me.copy_into(ex, st, me.cid(st, a[1])); c = c.repl(end=end); me.reend(st, c)
                    st.conts[cid] = c; return [(st, a[0])]
                return reg(f)
            def f(ex, st, a, rt):
                if not (a[0].rid == a[1].rid and a[0].off == a[1].off): me.move(st, a[0], a[1])
                return [(st, a[0])]
            return reg(f)
        if fn in ('key_comp', 'value_comp', 'max_size', 'get_allocator'):
            return None
        def h(ex, st, name, a, rt): raise Unsupported('no contract for std::%s::%s(%s)' % (cls, fn, ','.join(pars)[:200]))
        return h
    def reend(self, st, c):
        end = c.end
        st.facts.append(Fact(('N',), lambda n: Implies(c.inn(n), And(Lt(pos(n), pos(end)), Not(Eq(n, end)))), 'end'))
    def move(self, st, dst, src):
        cd, cs = self.cid(st, dst), self.cid(st, src)
        kd, ks = st.conts[cd], st.conts[cs]
        st.addr[(dst.rid, dst.off)], st.addr[(src.rid, src.off)] = cs, cd
        st.conts[cs] = ks.repl(end=kd.end); self.reend(st, st.conts[cs])
        st.conts[cd] = Cont(kd.name+'m', kd.kind, ks.end, '', (), {o: ('', ()) for o in kd.fields}, True)
