"""Specification vocabulary for interval containers: membership, canonical form, segment-wise equality."""
from icl import *
import stdmodel
from stdmodel import Kind, Cont, new_input, sorted_goal, keyok_goal, pos
from solve import CHOICE, Fact

def cov_node(fam, c, z):
    """choice: a node of c whose key contains atom z, if there is one"""
    nm = 'cov_' + c.sid
    if nm not in CHOICE:
        def ax(args, n, nm=nm):
            t = App(nm, 'N', *args); y = fam.atom(tuple(args)) if fam.cont else args[0]
            if t is n: return TRUE
            return Implies(And(c.inn(n), fam.view(c.cells(n)).at(y)), And(c.inn(t), fam.view(c.cells(t)).at(y)))
        CHOICE[nm] = ax
    return App(nm, 'N', *fam.zargs(z))
def covered(fam, c, z):
    n = cov_node(fam, c, z)
    return And(c.inn(n), fam.view(c.cells(n)).at(z))

class CCtx(Ctx):
    """Context with containers.  sfam: SetFam / MapFam giving layout and style."""
    def __init__(self, ex, fam):
        super().__init__(ex, fam); self.ms = ex.models
    def container(self, name, canonical=True, kind=None):
        k = kind or self.fam.kind
        c = new_input(self.st, k, name); p = self.region(); self.ms.put(self.st, p, c)
        if canonical and self.styleof(c) == 'join':
            g = self.joined_goal(c); self.st.facts.append(Fact(g.sorts, g.fn, 'joined'))
        return c, p
    def styleof(self, c): return self.fam.style if c.kind is self.fam.kind else 'join'
    @property
    def templates(self): return set_templates(self)
    def target(self): return self.region()
    def cont(self, st, p):
        c = st.conts[self.ms.cid(st, p)]
        return c
    extra = ()           # names of additional families of candidate loop invariants
    def samemap(self, a, b, z):
        """a and b have the same content at atom z"""
        r = Iff(self.covered(a, z), self.covered(b, z))
        if a.kind.ismap and b.kind.ismap: r = And(r, Implies(self.covered(a, z), Eq(a.read(cov_node(self.fam, a, z), self.fam.vo), b.read(cov_node(self.fam, b, z), self.fam.vo))))
        return r
    def samesegs(self, a, b, z):
        return And(self.samemap(a, b, z), Implies(self.covered(a, z), self.key(a, cov_node(self.fam, a, z)).same(self.key(b, cov_node(self.fam, b, z)))))
    def key(self, c, n): return self.fam.view(c.cells(n))
    def covered(self, c, x): return covered(self.fam, c, x)
    def joined_goal(self, c):
        f = self.fam
        def fn(m, n):
            if m is n: return TRUE
            t = Not(f.ceq(self.key(c, m).up, self.key(c, n).low))
            if c.kind.ismap: t = Or(t, Not(f.valeq(c, m, n)))
            return Implies(And(c.inn(m), c.inn(n), Lt(pos(m), pos(n))), t)
        return Q(('N', 'N'), fn, 'joined')
    def use(self, *cs):
        """callees replaced by their (separately proved) contracts"""
        self.ex.contracts = list(cs) + list(getattr(self.ex, 'base_contracts', ())); self.ex.handler_cache.clear()
    def fresh_cont(self, st, cid, joined=True):
        """post state of a container operation: well-formed, canonical; content described by further facts"""
        c0 = self.ex.models.need(self.ex, st, cid)
        c1 = stdmodel.havoc_cont(st, c0); c1.ok = True
        st.conts[cid] = c1
        stdmodel.sorted_facts(st, c1)
        st.facts.append(Fact(('N',), lambda n: Implies(c1.inn(n), c1.kind.rng(c1.cells(n))), 'rng'))
        if joined and self.styleof(c1) == 'join':
            g = self.joined_goal(c1); st.facts.append(Fact(g.sorts, g.fn, 'joined'))
        return c0, c1
    def node_of(self, st, r, cid=None):
        if isinstance(r, Chunk): r = r.cells[0][1]
        if isinstance(r, Agg): r = r.v[0]
        if not isinstance(r, NP): raise Unsupported('returned iterator %r' % (r,))
        return r.node
    def exists(self, st, cond, fn, conts, seeds, name):
        """cond -> some atom satisfies fn; witnesses are looked for at the borders of segments"""
        f = self.fam; ex = self.ex
        s2 = st.copy(); s2.assume(cond)
        for z in seeds: s2.assume(Not(fn(f.atom(z))))
        for cc in conts:
            s2.facts.append(Fact(('N',), lambda n, cc=cc: Implies(cc.inn(n), And(Not(fn(f.atom(self.key(cc, n).low))), Not(fn(f.atom(self.key(cc, n).up))))), 'witness'))
        ex.prove(s2, FALSE, name)
    # ---- container postconditions
    def wf(self, st, c, canonical=True, tag=''):
        ex = self.ex
        ex.prove(st, Q(('N',), lambda n: Implies(c.inn(n), And(c.kind.keyok(c.key(n)), c.kind.rng(c.cells(n)))), 'wf'), tag + 'every stored interval is non-empty and in range')
        ex.prove(st, sorted_goal(c), tag + 'stored intervals are disjoint and sorted')
        if canonical and self.styleof(c) == 'join':
            ex.prove(st, self.joined_goal(c), tag + 'no two stored segments touch and could be joined')
    def setrel(self, st, fn, name):
        """for all elements x: fn(x)"""
        self.ex.prove(st, Q(('E',), fn, name), name)
    def unchanged(self, st, c0, c1, name='container is unchanged'):
        self.ex.prove(st, Q(('N',), lambda n: And(Iff(c0.inn(n), c1.inn(n)), Implies(c0.inn(n), self.eqcells(c0, c1, n))), name), name)
    def eqcells(self, c0, c1, n, m=None):
        a = c0.cells(n); b = c1.cells(m or n)
        return And(*[eqval(a[o], b[o]) for o in a])
def eqval(a, b):
    if isinstance(a, Bits) or isinstance(b, Bits):
        return And(*[Iff(x, y) for x, y in zip(to_bits(a, 8).b, to_bits(b, 8).b)])
    return Eq(a, b)

# ------------------------------------------------------------------ candidate loop invariants
def roles(L, fam):
    """modified / unmodified intervals and iterators visible at the loop head"""
    st0 = L.st0; cells = fam.icells(); mi, ui, mit, uit = [], [], [], []
    mods = {k for k, v in L.cells.items() if v is not None}
    for rid, cs in st0.mem.items():
        if rid.startswith('@'): continue
        done = set()
        for off in sorted(cs):
            sz, v = cs[off]
            if isinstance(v, NP):
                (mit if (rid, off) in mods else uit).append((rid, off)); continue
            if off in done: continue
            if all((off+o) in cs and cs[off+o][0] == s and not isinstance(cs[off+o][1], (NP, P, VP)) for o, s, _ in cells):
                ks = [(rid, off+o) for o, _, _ in cells]; done |= {off+o for o, _, _ in cells}
                if any((rid, off+o) in L.cells and L.cells[(rid, off+o)] is None for o, _, _ in cells): continue
                try: fam.view({o: cs[off+o][1] for o, _, _ in cells})
                except Exception: continue
                m = any(k in mods for k in ks)
                if m and not any(k in L.reads for k in ks): continue      # overwritten before it is read: no invariant needed
                (mi if m else ui).append((rid, off))
    seen = set(); uq = []
    for k in uit:
        v = st0.mem[k[0]][k[1]][1]
        if v.cid not in st0.conts or (v.node.id, v.cid) in seen or v.node is st0.conts[v.cid].end and False: continue
        seen.add((v.node.id, v.cid)); uq.append(k)
    return mi, ui, mit, uq
def getiv(fam, st, k): return fam.view({o: st.mem[k[0]][k[1]+o][1] for o, _, _ in fam.icells()})
def getit(st, k): return st.mem[k[0]][k[1]][1]

def set_templates(ctx):
    f = ctx.fam
    def gen(L):
        out = []; add = lambda n, fn: out.append((n, fn))
        mi, ui, mit, uit = roles(L, f); st0 = L.st0
        order = {k: '%s%d' % (p, i) for p, ks in (('rest', mi), ('cur', mit), ('fix', uit)) for i, k in enumerate(ks)}
        nm = lambda k: order[k] + (' [%s]' % L.names[k[0]] if k[0] in L.names else '')
        for cid in sorted(L.conts):
            add('keys non-empty', lambda st, cid=cid: keyok_goal(st.conts[cid]))
            add('keys in range', lambda st, cid=cid: Q(('N',), lambda n, c=st.conts[cid]: Implies(c.inn(n), c.kind.rng(c.cells(n))), 'rng'))
            add('keys sorted', lambda st, cid=cid: sorted_goal(st.conts[cid]))
            if ctx.styleof(st0.conts[cid]) == 'join': add('joined', lambda st, cid=cid: ctx.joined_goal(st.conts[cid]))
        for k in mi:
            add('%s in range' % nm(k), lambda st, k=k: getiv(f, st, k).rng())
            add('%s non-empty' % nm(k), lambda st, k=k: getiv(f, st, k).nonempty())
            add('%s empty or keeps its end' % nm(k), lambda st, k=k: Or(getiv(f, st, k).empty(), f.ceq(getiv(f, st, k).up, getiv(f, st0, k).up)))
            add('%s empty or begins behind its initial begin' % nm(k), lambda st, k=k: Or(getiv(f, st, k).empty(), f.cle(getiv(f, st0, k).low, getiv(f, st, k).low)))
            add('%s keeps its end' % nm(k), lambda st, k=k: f.ceq(getiv(f, st, k).up, getiv(f, st0, k).up))
        for k in mit:
            cid = getit(st0, k).cid
            add('%s valid' % nm(k), lambda st, k=k: Or(st.conts[getit(st, k).cid].inn(getit(st, k).node), Eq(getit(st, k).node, st.conts[getit(st, k).cid].end)))
            add('%s dereferenceable' % nm(k), lambda st, k=k: st.conts[getit(st, k).cid].inn(getit(st, k).node))
            for u in uit:
                if getit(st0, u).cid != cid: continue
                add('%s valid' % nm(u), lambda st, u=u: Or(st.conts[getit(st, u).cid].inn(getit(st, u).node), Eq(getit(st, u).node, st.conts[getit(st, u).cid].end)))
                add('%s before %s' % (nm(k), nm(u)), lambda st, k=k, u=u: Le(pos(getit(st, k).node), pos(getit(st, u).node)))
            if cid not in L.conts:
                for u in uit:
                    if getit(st0, u).cid != cid: continue
                    def run(st, k=k, u=u, cid=cid):
                        c = st.conts[cid]; m, n = getit(st, u).node, getit(st, k).node
                        return Q(('E',), lambda z: Implies(And(c.inn(m), c.inn(n), f.cle(ctx.key(c, m).low, f.cut(z)), f.clt(f.cut(z), ctx.key(c, n).up)), ctx.covered(c, z)), 'run')
                    add('no gap from %s to %s' % (nm(u), nm(k)), run)
                    add('%s not before %s' % (nm(k), nm(u)), lambda st, k=k, u=u: Le(pos(getit(st, u).node), pos(getit(st, k).node)))
                for k2 in mit:
                    if k2 == k or getit(st0, k2).cid != cid: continue
                    add('%s directly follows %s' % (nm(k2), nm(k)), lambda st, k=k, k2=k2, cid=cid: Q(('N',), lambda n: And(Lt(pos(getit(st, k).node), pos(getit(st, k2).node)), Implies(And(st.conts[cid].inn(n), Lt(pos(getit(st, k).node), pos(n))), Le(pos(getit(st, k2).node), pos(n))))))
            if cid in L.conts:
                def suf(st, k=k, cid=cid):
                    it = getit(st, k).node; c = st.conts[cid]; c0 = st0.conts[cid]
                    return Q(('N',), lambda n: Implies(Le(pos(it), pos(n)), And(Iff(c.inn(n), c0.inn(n)), Implies(c.inn(n), ctx.eqcells(c0, c, n)))), 'suffix')
                add('nodes from %s on unchanged' % nm(k), suf)
                for r in mi:
                    add('nodes before %s end before %s' % (nm(k), nm(r)), lambda st, k=k, cid=cid, r=r: Q(('N',), lambda n, c=st.conts[cid], it=getit(st, k).node, R=getiv(f, st, r): Implies(And(c.inn(n), Lt(pos(n), pos(it))), f.cle(ctx.key(c, n).up, R.low)), 'prefix'))
                    add('nodes before %s end before %s, unless that is empty' % (nm(k), nm(r)), lambda st, k=k, cid=cid, r=r: Q(('N',), lambda n, c=st.conts[cid], it=getit(st, k).node, R=getiv(f, st, r): Implies(And(c.inn(n), Lt(pos(n), pos(it)), R.nonempty()), f.cle(ctx.key(c, n).up, R.low)), 'prefix'))
                    def ahead(st, k=k, cid=cid, r=r):
                        c, R, it = st.conts[cid], getiv(f, st, r), getit(st, k).node
                        return Q(('E',), lambda z: Implies(And(ctx.covered(c, z), R.nonempty(), f.cle(R.low, f.cut(z))), Le(pos(it), pos(cov_node(f, c, z)))), 'ahead')
                    add('elements from the begin of %s on are in nodes from %s on' % (nm(r), nm(k)), ahead)
                    def reach(st, k=k, cid=cid, r=r):
                        c = st.conts[cid]; it = getit(st, k).node
                        return Implies(c.inn(it), f.clt(getiv(f, st, r).low, ctx.key(c, it).up))
                    add('%s starts before the end of %s' % (nm(r), nm(k)), reach)
        if 'join' in ctx.extra:
            for cid in sorted(L.conts):
                add('content is kept', lambda st, cid=cid: Q(('E',), lambda z: ctx.samemap(st.conts[cid], st0.conts[cid], z), 'content'))
                for k in mit:
                    if getit(st0, k).cid != cid: continue
                    add('no joinable segments up to %s' % nm(k), lambda st, k=k, cid=cid: Q(('N', 'N'), lambda m, n, g=ctx.joined_goal(st.conts[cid]).fn: Implies(Le(pos(n), pos(getit(st, k).node)), g(m, n)), 'prefix joined'))
                    for k2 in mit:
                        if k2 == k or getit(st0, k2).cid != cid: continue
                        def foll(st, k=k, k2=k2, cid=cid):
                            c = st.conts[cid]; a, b = getit(st, k).node, getit(st, k2).node
                            return Q(('N',), lambda n: Or(And(Eq(a, c.end), Eq(b, c.end)), And(c.inn(a), Lt(pos(a), pos(b)), Implies(And(c.inn(n), Lt(pos(a), pos(n))), Le(pos(b), pos(n))))), 'follows')
                        add('%s directly follows %s, or both are the end' % (nm(k2), nm(k)), foll)
        if 'gaps' in ctx.extra:
            for cid in sorted(L.conts):
                for k in mit:
                    d = getit(st0, k).cid
                    if d in L.conts: continue
                    def gaps(st, k=k, cid=cid, d=d):
                        c, D = st.conts[cid], st.conts[d]; a, b = getit(st0, k).node, getit(st, k).node
                        return Q(('E',), lambda z: Iff(ctx.covered(c, z), And(f.cle(ctx.key(D, a).low, f.cut(z)), f.clt(f.cut(z), ctx.key(D, b).low), Not(ctx.covered(D, z)))), 'gaps')
                    add('gaps before %s' % nm(k), gaps)
        for cid in sorted(L.conts):
            for r in mi:
                def tot(st, cid=cid, r=r):
                    c, c0, R, R0 = st.conts[cid], st0.conts[cid], getiv(f, st, r), getiv(f, st0, r)
                    return Q(('E',), lambda x: Iff(Or(ctx.covered(c, x), R.at(x)), Or(ctx.covered(c0, x), R0.at(x))), 'cover')
                add('container and %s together keep their elements' % nm(r), tot)
                def keep(st, cid=cid, r=r):
                    c, c0, R0 = st.conts[cid], st0.conts[cid], getiv(f, st0, r)
                    return Q(('N',), lambda n: Implies(And(c0.inn(n), f.cle(ctx.key(c0, n).up, R0.low)), And(c.inn(n), ctx.eqcells(c0, c, n))), 'keep')
                add('nodes ending before the initial %s are kept' % nm(r), keep)
                if ctx.styleof(st0.conts[cid]) == 'split':
                    def keepall(st, cid=cid):
                        c, c0 = st.conts[cid], st0.conts[cid]
                        return Q(('N',), lambda n: Implies(c0.inn(n), And(c.inn(n), ctx.eqcells(c0, c, n))), 'keepall')
                    add('all segments are kept', keepall)
                    def newin(st, cid=cid, r=r):
                        c, c0, R, R0 = st.conts[cid], st0.conts[cid], getiv(f, st, r), getiv(f, st0, r)
                        return Q(('N',), lambda n: Implies(And(c.inn(n), Not(c0.inn(n))), And(f.cle(R0.low, ctx.key(c, n).low), f.cle(ctx.key(c, n).up, R0.up), Or(R.empty(), f.clt(ctx.key(c, n).up, R.low)))), 'newin')
                    add('new segments lie between the initial and the current %s' % nm(r), newin)
                    def newapart(st, cid=cid):
                        c, c0 = st.conts[cid], st0.conts[cid]
                        return Q(('N', 'N'), lambda m, n: Implies(And(c.inn(n), Not(c0.inn(n)), c.inn(m), Not(c0.inn(m))), Not(f.ceq(ctx.key(c, m).up, ctx.key(c, n).low))), 'newapart')
                    add('no two new segments touch', newapart)
                def xtot(st, cid=cid, r=r):
                    c, c0, R, R0 = st.conts[cid], st0.conts[cid], getiv(f, st, r), getiv(f, st0, r)
                    return Q(('E',), lambda x: Iff(Xor(ctx.covered(c, x), R.at(x)), Xor(ctx.covered(c0, x), R0.at(x))), 'xcover')
                add('symmetric difference of container and %s is kept' % nm(r), xtot)
                for u in uit:
                    if getit(st0, u).cid == cid:
                        add('%s ends behind the begin of %s' % (nm(r), nm(u)), lambda st, cid=cid, r=r, u=u: Implies(st.conts[cid].inn(getit(st, u).node), f.clt(ctx.key(st.conts[cid], getit(st, u).node).low, getiv(f, st, r).up)))
            if not [1 for k in mit if getit(st0, k).cid not in L.conts]:
                continue
            for k in mit:
                d = getit(st0, k).cid
                if d in L.conts: continue
                def bef(st, x, k=k, d=d):
                    D = st.conts[d]; m = cov_node(f, D, x); return And(ctx.covered(D, x), Le(pos(getit(st0, k).node), pos(m)), Lt(pos(m), pos(getit(st, k).node)))
                def rel(name, fn, cid=cid, bef=bef):
                    def g(st):
                        c, c0 = st.conts[cid], st0.conts[cid]
                        return Q(('E',), lambda x: fn(st, ctx.covered(c, x), ctx.covered(c0, x), bef(st, x), x), name)
                    add(name, g)
                rel('union with the operand so far', lambda st, a, a0, b, x: Iff(a, Or(a0, b)))
                for w in ui:
                    rel('union with the part of the operand so far in %s' % (L.names.get(w[0]) or 'an interval'), lambda st, a, a0, b, x, w=w: Iff(a, Or(a0, And(b, getiv(f, st, w).at(x)))))
                for o in sorted(st0.conts):
                    if o in L.conts or o == d or st0.conts[o] is None or not st0.conts[o].ok: continue
                    rel('union with the part of the operand so far in %s' % o, lambda st, a, a0, b, x, o=o: Iff(a, Or(a0, And(b, ctx.covered(st.conts[o], x)))))
                rel('difference with the operand so far', lambda st, a, a0, b, x: Iff(a, And(a0, Not(b))))
                rel('symmetric difference with the operand so far', lambda st, a, a0, b, x: Iff(a, Xor(a0, b)))
        return out
    return gen
