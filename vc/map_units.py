"""Contracts of the interval map operations (proved against tu/map.cpp)."""
import re
import iv_units
from cont import *
from set_units import SetFam, SegContract
import stdmodel, ir as IR

ID = Int(0)          # handle of the identity element V()
def _op(nm, a, b): return App(nm, 'I', a, b)
def vplus(a, b): return Ite(Eq(b, ID), a, Ite(Eq(a, ID), b, _op('vplus', a, b)))       # assumed laws: 0 is neutral
def vminus(a, b): return Ite(Eq(b, ID), a, _op('vminus', a, b))                         # assumed law: x - 0 = x
def vmax(a, b): return Ite(Lt(a, b), b, a)
def vand(a, b): return _op('vand', a, b)
def vxor(a, b): return _op('vxor', a, b)
def verasure(a, b): return Ite(Eq(a, b), ID, a)
COMBS = {'inplace_plus': vplus, 'inplace_minus': vminus, 'inplace_max': vmax, 'inplace_min': lambda a, b: Ite(Lt(b, a), b, a), 'inplace_et': vand, 'inplace_caret': vxor,
         'inplace_bit_add': lambda a, b: Ite(Eq(a, ID), b, Ite(Eq(b, ID), a, _op('vor', a, b))), 'inplace_bit_and': vand, 'inplace_bit_xor': vxor, 'inplace_bit_subtract': lambda a, b: vand(a, App('vnot', 'I', b)),
         'inplace_identity': lambda a, b: a, 'inplace_erasure': verasure}
INV = {'inplace_plus': 'inplace_minus', 'inplace_max': 'inplace_min', 'inplace_bit_add': 'inplace_bit_subtract', 'inplace_et': 'inplace_caret'}
class Codom:
    """the opaque codomain type V: operations as uninterpreted functions"""
    OPS = {'+=': vplus, '-=': vminus, '&=': vand, '^=': vxor, '|=': COMBS['inplace_bit_add']}
    def match(self, ex, name, d, bn):
        if not bn.startswith('operator'): return None
        pars = IR.params_of(d); op = bn[8:]
        if not pars or pars[0].replace(' const', '') not in ('V&', 'V'): return None
        ld = lambda ex, st, p: as_int(ex.load(st, p, ('int', 32)))
        if op in self.OPS:
            def h(ex, st, name, a, rt):
                v = self.OPS[op](ld(ex, st, a[0]), ld(ex, st, a[1]))
                ex.trusted.add('codomain operator' + op); ex.store_bytes(st, a[0], Chunk({0: (4, v)}, 4)); return [(st, a[0])]
            return h
        if op in ('==', '<', '>'):
            def h(ex, st, name, a, rt):
                ex.trusted.add('codomain operator' + op)
                x, y = ld(ex, st, a[0]), ld(ex, st, a[1]); return [(st, Eq(x, y) if op == '==' else Lt(x, y) if op == '<' else Lt(y, x))]
            return h
        return None
CODOM = Codom()
JOINPAT = re.compile(r'::segmental::|::cyclic_prior|::(handle_\w+|gap_insert\w*|add_front|subtract_front|join_\w+|cyclic_prior)$')

class MapFam(SetFam):
    ismap = True
    def __init__(self, name, mapt, traits, comb, iv, setsem=False, inv=False):
        super().__init__(name, 'interval_set', iv)
        self.mapt = mapt; self.traits = traits; self.comb = comb; self.setsem = setsem; self.inv = inv
        self.style = {'interval_map': 'join', 'split_interval_map': 'split'}[mapt]
        self.absorb = 'absorber' in traits; self.total = 'total' in traits
        self.skind = self.kind; self.sfam = sf = SetFam(name, 'interval_set', iv); sf.kind = self.kind; self.vo = (self.isize+3)//4*4
        vf = self.vo
        self.kind = Kind('map', self.icells() + [(vf, 4, 'i')], self.isize, self.exl, keyok=lambda c: self.view(c).nonempty(),
                         rng=lambda c: And(self.view(c).rng(), Le(ID, c[vf]) if comb == 'inplace_max' else TRUE), ismap=True)
        self.esize = (self.vs+3)//4*4+4
    def valeq(self, c, m, n): return Eq(c.read(m, self.vo), c.read(n, self.vo))
    def f(self, a, b): return COMBS[self.comb](a, b)
    def finv(self, a, b): return COMBS[INV.get(self.comb, 'inplace_erasure')](a, b)
    def fsect(self, a, b): return vand(a, b) if self.setsem else self.f(a, b)
    def isid(self, v): return Eq(v, ID) if self.absorb else FALSE
FAMS = {}
for pre, mt in (('jm', 'interval_map'), ('sm', 'split_interval_map')):
    for iv in ('dyn_int', 'dyn_dbl', 'ro_int', 'cl_int', 'lo_int', 'op_int', 'ro_dbl', 'dyn_intg', 'ro_intg', 'dyn_uns'):
        for tr, tn in (('pa', 'partial_absorber'), ('pe', 'partial_enricher'), ('ta', 'total_absorber'), ('te', 'total_enricher')):
            if tr[0] == 't' and iv not in ('dyn_int', 'ro_int', 'dyn_dbl'): continue
            nm = '%s_%s_%s' % (pre, tr, iv); FAMS[nm] = MapFam(nm, mt, tn, 'inplace_plus', iv, inv=tr[0] == 't')
    for iv in ('dyn_int', 'ro_int', 'dyn_dbl'):
        nm = '%s_max_%s' % (pre, iv); FAMS[nm] = MapFam(nm, mt, 'partial_absorber', 'inplace_max', iv)
        nm = '%s_set_%s' % (pre, iv); FAMS[nm] = MapFam(nm, mt, 'partial_absorber', 'inplace_plus', iv, setsem=True)
        nm = '%s_sete_%s' % (pre, iv); FAMS[nm] = MapFam(nm, mt, 'partial_enricher', 'inplace_plus', iv, setsem=True)
def flags(f):
    r = ['-DFAM=' + f.ctype, '-DSETT=' + 'interval_set', '-DMAPT=' + f.mapt, '-DTRAITS=' + f.traits, '-DCOMB=' + f.comb, '-DCMP=' + ('greater' if f.neg else 'less')]
    if not f.cont: r.append('-DDISC')
    if f.elem: r.append('-DELEM')
    if f.setsem: r.append('-DSETSEM')
    if f.total: r.append('-DTOTAL')
    if f.inv: r.append('-DINVERTIBLE')
    return r
UNITS = []
def unit(name, prop, cond=None):
    def d(fn):
        UNITS.append((name, prop, cond, fn)); return fn
    return d
join = lambda f: f.style == 'join'
split = lambda f: f.style == 'split'
elem = lambda f: f.elem
disc = lambda f: not f.cont
partial = lambda f: not f.total
total = lambda f: f.total

# ------------------------------------------------------------ vocabulary
# a "content" at atom z is a pair (defined, value)
def content(c, cc, z):
    n = cov_node(c.fam, cc, z); return And(cc.inn(n), c.key(cc, n).at(z)), cc.read(n, c.fam.vo)
def ceq_(x, y): return And(Iff(x[0], y[0]), Implies(x[0], Eq(x[1], y[1])))
def cite_(b, x, y): return Or(And(b, x[0]), And(Not(b), y[0])), Ite(b, x[1], y[1])
def eff_comb(f, comb, v, absorb, only_old=False, neutral=None):
    """content after combining value v at one element; new elements get comb-version of v"""
    def e(x):
        d, w = x; r = comb(w, v); new = comb(ID, v) if neutral is None else neutral
        skip = Eq(v, ID) if absorb else FALSE
        nd = And(d, Not(Eq(r, ID)) if absorb else TRUE) if only_old else Ite2(d, Not(Eq(r, ID)) if absorb else TRUE, Not(Eq(new, ID)) if absorb else TRUE)
        return cite_(skip, x, (nd, Ite(d, r, new)))
    return e
def Ite2(c, a, b): return Or(And(c, a), And(Not(c), b))
def eff_add(f, v): return eff_comb(f, f.f, v, f.absorb, neutral=v)
def eff_sub(f, v):
    if f.total and f.inv: return eff_comb(f, f.finv, v, f.absorb)
    return eff_comb(f, f.finv, v, f.absorb, only_old=True)
def eff_insert(f, v):
    def e(x):
        skip = f.isid(v); return cite_(Or(x[0], skip), x, (TRUE, v))
    return e
def eff_erase(x): return FALSE, x[1]
def eff_erase_val(f, v): return lambda x: cite_(f.isid(v), x, (And(x[0], Not(Eq(x[1], v))), x[1]))
def eff_set(f, v): return lambda x: (Not(f.isid(v)), v)
class MCtx(CCtx):
    def __init__(self, ex, fam):
        super().__init__(ex, fam); self.effs = []; self.opeffs = []
        self.sc = CCtx.__new__(CCtx); self.sc.__dict__.update(self.__dict__); self.sc.fam = fam.sfam      # view on the interval_sets
    def container(self, name, canonical=True):
        c, p = super().container(name, canonical)
        if canonical and self.fam.absorb: self.st.facts.append(Fact(('N',), self.noid(c), 'no identity'))
        return c, p
    def noid(self, c): return lambda n: Implies(c.inn(n), Not(Eq(c.read(n, self.fam.vo), ID)))
    def setc(self, name): return super().container(name, kind=self.fam.skind)
    def val(self, name):
        v = fresh(name, 'I')
        if self.fam.comb == 'inplace_max': self.st.assume(Le(ID, v))
        return v
    def seg(self, name):
        f = self.fam; i = fresh_ival(f, name); self.st.assume(i.rng()); v = self.val(name+'_v')
        ch = dict(i.chunk().cells); ch[f.vo] = (4, v)
        return i, v, self.region(Chunk(ch, f.vo+4))
    def pt(self, x): f = self.fam; return lambda z: And(f.cle(f.below(x), f.cut(z)), f.clt(f.cut(z), f.above(x)))
    def elpair(self, name):
        f = self.fam; x = f.fresh_cell(name); self.st.assume(f.rng(x)); v = self.val(name+'_v'); o = (f.vs+3)//4*4
        return f.key(x), v, self.region(Chunk({0: (f.vs, x), o: (4, v)}, o+4))
    def content(self, cc, z): return content(self, cc, z)
    def fresh_cont(self, st, cid, joined=True):
        c0, c1 = super().fresh_cont(st, cid, joined)
        if joined and self.fam.absorb and c1.kind.ismap: st.facts.append(Fact(('N',), self.noid(c1), 'no identity'))
        return c0, c1
    def post(self, st, c0, c1, has, eff, name):
        """content of c1 = eff(content of c0) where has(z), unchanged elsewhere"""
        def fn(z):
            x = self.content(c0, z); return ceq_(self.content(c1, z), cite_(has(z), eff(x), x))
        self.setrel(st, fn, name)
    def wf(self, st, c, canonical=True, tag=''):
        super().wf(st, c, canonical, tag)
        if canonical and self.fam.absorb and c.kind.ismap: self.ex.prove(st, Q(('N',), self.noid(c), 'no identity'), tag + 'no identity element is stored')
    def frame(self, st, c0, c1, I, tag=''):
        self.ex.prove(st, Q(*kept(self, c0, c1, lambda k: apart(self, k, I))), tag + 'segments apart from the operand are not touched')
        self.ex.prove(st, Q(*suffix(self, c0, c1, I, self.fam.style == 'join')), tag + 'nothing changes behind the operand')
    @property
    def templates(self): return map_templates(self)
from set_units import apart, kept, suffix, overlaps, is_ref
def map_templates(ctx):
    base = set_templates(ctx); f = ctx.fam
    def gen(L):
        out = base(L); add = lambda n, fn: out.append((n, fn))
        mi, ui, mit, uit = roles(L, f); st0 = L.st0
        maps = [c for c in sorted(L.conts) if st0.conts[c].kind is f.kind]
        ro = [c for c in sorted(st0.conts) if c not in L.conts and st0.conts[c] is not None and st0.conts[c].kind is f.kind and st0.conts[c].ok]
        for k in mit:
            cid = getit(st0, k).cid
            if cid in L.conts or st0.conts[cid].kind is not f.kind: continue
            for u in uit:
                if getit(st0, u).cid != cid: continue
                def samev(st, k=k, u=u, cid=cid):
                    c = st.conts[cid]; m, n = getit(st, u).node, getit(st, k).node
                    return Q(('N',), lambda x: Implies(And(c.inn(x), Le(pos(m), pos(x)), Le(pos(x), pos(n))), f.valeq(c, x, m)), 'samev')
                add('segments from %s to %s carry one value' % (L.names.get(u[0], 'fix'), L.names.get(k[0], 'cur')), samev)
        for cid in maps:
            if f.style == 'join':
                for k in mit:
                    if getit(st0, k).cid != cid: continue
                    add('joined except at the iterator', lambda st, cid=cid, k=k: Q(('N', 'N'), lambda m, n, g=ctx.joined_goal(st.conts[cid]).fn, it=getit(st, k).node: Or(Eq(n, it), Eq(m, it) if False else FALSE, g(m, n)), 'joined'))
                for r in mi:
                    def keep(st, cid=cid, r=r):
                        c, c0, R0 = st.conts[cid], st0.conts[cid], getiv(f, st0, r)
                        return Q(('N',), lambda n: Implies(And(c0.inn(n), f.clt(ctx.key(c0, n).up, R0.low)), And(c.inn(n), ctx.eqcells(c0, c, n))), 'keep')
                    add('nodes ending strictly before the initial rest are kept', keep)
            for k in mit:
                if getit(st0, k).cid != cid: continue
                for r in mi:
                    add('initial nodes before %s end before %s, unless that is empty' % (L.names.get(k[0], 'cur'), L.names.get(r[0], 'rest')), lambda st, k=k, cid=cid, r=r: Q(('N',), lambda n, c=st0.conts[cid], it=getit(st, k).node, R=getiv(f, st, r): Implies(And(c.inn(n), Lt(pos(n), pos(it)), R.nonempty()), f.cle(ctx.key(c, n).up, R.low)), 'prefix'))
                for r in mi:
                    add('keys of the initial %s in nodes from %s on are in %s' % (L.names.get(r[0], 'rest'), L.names.get(k[0], 'cur'), L.names.get(r[0], 'rest')), lambda st, k=k, cid=cid, r=r: Q(('E',), lambda z, c=st0.conts[cid], it=getit(st, k).node: Implies(And(getiv(f, st0, r).at(z), ctx.covered(c, z), Le(pos(it), pos(cov_node(f, c, z)))), getiv(f, st, r).at(z)), 'rest'))
                for u in uit:
                    if getit(st0, u).cid == cid: add('%s is not before %s' % (L.names.get(k[0], 'cur'), L.names.get(u[0], 'fix')), lambda st, k=k, u=u: Le(pos(getit(st, u).node), pos(getit(st, k).node))); add('%s is behind %s' % (L.names.get(k[0], 'cur'), L.names.get(u[0], 'fix')), lambda st, k=k, u=u: Lt(pos(getit(st, u).node), pos(getit(st, k).node)))
            if not mi:
                for w in ui:
                    def keepw(st, cid=cid, w=w):
                        c, c0, W = st.conts[cid], st0.conts[cid], getiv(f, st0, w)
                        return Q(('N',), lambda n: Implies(And(c0.inn(n), (f.clt if f.style == 'join' else f.cle)(ctx.key(c0, n).up, W.low)), And(c.inn(n), ctx.eqcells(c0, c, n))), 'keep')
                    add('nodes ending before %s are kept' % L.names.get(w[0], 'an interval'), keepw)
            if f.absorb: add('no identity stored', lambda st, cid=cid: Q(('N',), ctx.noid(st.conts[cid]), 'noid'))
            for ei, (en, eff) in enumerate(ctx.effs):
                for r in mi:
                    def tot(st, cid=cid, r=r, eff=eff):
                        c, c0, R, R0 = st.conts[cid], st0.conts[cid], getiv(f, st, r), getiv(f, st0, r)
                        def fn(z):
                            x, y = ctx.content(c, z), ctx.content(c0, z)
                            return ceq_(cite_(R.at(z), eff(x), x), cite_(R0.at(z), eff(y), y))
                        return Q(('E',), fn, 'total')
                    add('%s over %s completes to the same map' % (en, L.names.get(r[0], 'rest')), tot)
                for k in mit:
                    if getit(st0, k).cid != cid: continue
                    for w in ui:
                        def part(st, cid=cid, k=k, eff=eff, w=w):
                            c, c0, n, W = st.conts[cid], st0.conts[cid], getit(st, k).node, getiv(f, st, w)
                            b = ctx.key(c, n).low
                            def fn(z):
                                y = ctx.content(c0, z)
                                return ceq_(ctx.content(c, z), cite_(And(W.at(z), f.clt(f.cut(z), b)), eff(y), y))
                            return Q(('E',), fn, 'part')
                        add('%s done on %s before the iterator' % (en, L.names.get(w[0], 'interval')), part)
        if getattr(ctx, 'opsect', None):
            for cid in maps:
                for k in mit:
                    d = getit(st0, k).cid
                    if d in L.conts: continue
                    for o in ro:
                        if o == d: continue
                        def opsec(st, cid=cid, k=k, d=d, o=o):
                            c, c0, D, m0 = st.conts[cid], st0.conts[cid], st0.conts[d], st0.conts[o]
                            def fn(z):
                                m = cov_node(f, D, z); b = And(ctx.covered(D, z), Le(pos(getit(st0, k).node), pos(m)), Lt(pos(m), pos(getit(st, k).node)))
                                return ceq_(ctx.content(c, z), ctx.opsect(ctx, ctx.content(c0, z), z, m0, D, m, b))
                            return Q(('E',), fn, 'section')
                        add('section with the operand so far', opsec)
        if ctx.opeffs:
            for cid in sorted(L.conts):
                tk = st0.conts[cid].kind
                for k in mit:
                    d = getit(st0, k).cid
                    mod = d in L.conts
                    regs = [('', lambda st, z: TRUE)]
                    if not mod or True:
                        regs += [(' in ' + L.names.get(w[0], 'an interval'), lambda st, z, w=w: getiv(f, st, w).at(z)) for w in ui]
                        if mod: regs += [(' in the initial ' + L.names.get(r[0], 'rest'), lambda st, z, r=r: getiv(f, st0, r).at(z)) for r in mi]
                    for rn, rg in regs:
                        for en, ek, eff in ctx.opeffs:
                            if (ek == 'set') != (not tk.ismap): continue
                            def opd(st, cid=cid, k=k, d=d, eff=eff, rg=rg, tk=tk):
                                c, c0, D = st.conts[cid], st0.conts[cid], st0.conts[d]
                                def fn(z):
                                    m = cov_node(f, D, z); b = And(D.inn(m), ctx.key(D, m).at(z), Le(pos(getit(st0, k).node), pos(m)), Lt(pos(m), pos(getit(st, k).node)), rg(st, z))
                                    if not tk.ismap: return Iff(ctx.covered(c, z), Or(ctx.covered(c0, z), b))
                                    x = ctx.content(c0, z); dv = D.read(m, f.vo) if D.kind.ismap else None
                                    return ceq_(ctx.content(c, z), cite_(b, eff(x, dv), x))
                                return Q(('E',), fn, 'operand so far')
                            add('%s of the operand so far%s' % (en, rn), opd)
        return out
    return gen

def opunit(w, prop, eff, what, arg='seg', cond=None, frame=False, contract=True, hint=False):
    @unit(w, prop, cond)
    def _(c):
        f = c.fam
        if contract: c.use(*contracts(c))
        c0, p = c.container('m'); v = None
        if arg == 'seg': a, v, pa = c.seg('a'); has = a.at
        elif arg == 'iv': a, pa = c.ival('a'); has = a.at
        elif arg == 'el': x, v, pa = c.elpair('a'); has = c.pt(x)
        elif arg == 'key': x, pa, _ = c.elem('a'); has = c.pt(x)
        e = eff(f, v) if v is not None else eff
        c.effs = [(what, e)]
        args = [p, pa]
        if hint:
            h = fresh('hint', 'N'); c.st.assume(Or(c0.inn(h), Eq(h, c0.end))); args = [p, NP(h, c.ms.cid(c.st, p)), pa]
        for st, r in c.run(w, args):
            c1 = c.cont(st, p)
            c.post(st, c0, c1, has, e, 'every element has the value required after ' + what)
            c.wf(st, c1)
            if hint:
                n = c.node_of(st, r); nop = Or(a.empty(), f.isid(v))
                c.ex.prove(st, Or(Eq(n, c1.end), c1.inn(n)), 'returned iterator is valid')
            else: is_ref(c, st, r, p)
            if frame: c.frame(st, c0, c1, a)
def contracts(c): return [MapContract(c), SegContract(c.sc)]
class MapContract:
    """member functions of interval_base_map on one segment / interval (each proved by a unit)"""
    def __init__(self, c, ops=None): self.c = c; self.ops = ops
    def match(self, ex, name, d, bn):
        c = self.c; f = c.fam
        if not bn.startswith('boost::icl::interval_base_map::'): return None
        fn = bn.split('::')[-1]; pars = IR.params_of(d)
        if self.ops and fn not in self.ops: return None
        last = pars[-1] if pars else ''
        isseg = last.startswith('std::pair<boost::icl'); isiv = '_interval<' in last.split('(')[0] and not isseg and last.startswith('boost::icl::')
        def apply(st, cid, I, e):
            c0, c1 = c.fresh_cont(st, cid)
            def rel(z):
                x = c.content(c0, z); return ceq_(c.content(c1, z), cite_(I.at(z), e(x), x))
            st.facts.append(Fact(('E',), rel, fn))
            st.facts.append(Fact(*kept(c, c0, c1, lambda k: apart(c, k, I)))); st.facts.append(Fact(*suffix(c, c0, c1, I, f.style == 'join')))
        effs = {'add': eff_add, 'subtract': eff_sub, 'insert': eff_insert, 'erase': eff_erase_val}
        if fn in effs and len(pars) == 1 and isseg: mk = effs[fn]
        elif fn == '_add' and len(pars) == 1 and isseg:
            comb = re.search(r'_add<boost::icl::(\w+)<V>', d).group(1)
            if comb == 'inter_section': comb = 'inplace_et' if f.setsem else 'inplace_plus'
            mk = lambda f, v: eff_comb(f, COMBS[comb], v, f.absorb, neutral=None if comb == 'inplace_minus' else v)
            def h0(ex, st, name, a, rt):
                outs = []
                for s, _ in h(ex, st, name, a, rt):
                    n = fresh('ins', 'N'); cid = c.ms.cid(s, a[0]); k = s.conts[cid]; s.assume(Or(k.inn(n), Eq(n, k.end))); outs.append((s, NP(n, cid)))
                return outs
        elif fn == 'erase' and len(pars) == 1 and isiv: mk = None
        elif fn in ('add', 'insert') and len(pars) == 2 and isseg:
            mk = effs[fn]
            def hh(ex, st, name, a, rt):
                ex.used_contracts.add('interval_base_map::%s(hint, segment)' % fn)
                cid = c.ms.cid(st, a[0]); hn = c.ms.node(a[1], cid); k0 = st.conts[cid]
                ex.prove(st, Or(k0.inn(hn), Eq(hn, k0.end)), 'hint is a valid iterator')
                I = c.read_ival(st, a[2]); v = rdval(c, st, a[2])
                apply(st, cid, I, mk(f, v)); c1 = st.conts[cid]
                r = fresh('ins', 'N'); st.assume(Or(c1.inn(r), Eq(r, c1.end))); return [(st, NP(r, cid))]
            return hh
        else: return None
        def h(ex, st, name, a, rt):
            ex.used_contracts.add('interval_base_map::%s(%s)' % (fn, 'segment' if mk else 'interval'))
            I = c.read_ival(st, a[1]); e = mk(f, rdval(c, st, a[1])) if mk else eff_erase
            apply(st, c.ms.cid(st, a[0]), I, e); return [(st, a[0])]
        return h0 if fn == '_add' else h
def rdval(c, st, p):
    q = VP(p.node, p.cid, p.off+c.fam.vo) if isinstance(p, VP) else P(p.rid, p.off+c.fam.vo)
    return as_int(c.read_cell(st, q, 4))

# ------------------------------------------------------------ M01 addition
opunit('m_add', 'M01', eff_add, 'addition', frame=True, contract=False)
opunit('m_addh', 'M01', eff_add, 'addition', frame=True, contract=False, hint=True)
for w in ('m_icl_add', 'm_plus', 'm_pipe'): opunit(w, 'M01', eff_add, 'addition')
for w in ('m_add_e', 'm_plus_e'): opunit(w, 'M01', eff_add, 'addition', arg='el', cond=elem)
# ------------------------------------------------------------ M02 subtraction
opunit('m_sub', 'M02', eff_sub, 'subtraction', frame=True, contract=False)
for w in ('m_icl_sub', 'm_minus'): opunit(w, 'M02', eff_sub, 'subtraction')
for w in ('m_sub_e', 'm_minus_e'): opunit(w, 'M02', eff_sub, 'subtraction', arg='el', cond=elem)
# ------------------------------------------------------------ M03 insertion, set, erasure
opunit('m_insert', 'M03', eff_insert, 'insertion', frame=True, contract=False)
opunit('m_inserth', 'M03', eff_insert, 'insertion', frame=True, contract=False, hint=True)
opunit('m_icl_insert', 'M03', eff_insert, 'insertion')
opunit('m_insert_e', 'M03', eff_insert, 'insertion', arg='el', cond=elem)
for w in ('m_set', 'm_set_at'): opunit(w, 'M03', eff_set, 'set')
opunit('m_set_e', 'M03', eff_set, 'set', arg='el', cond=elem)
opunit('m_erase', 'M04', eff_erase_val, 'erasure of key value pairs', frame=True, contract=False)
opunit('m_icl_erase', 'M04', eff_erase_val, 'erasure of key value pairs')
opunit('m_erase_e', 'M04', eff_erase_val, 'erasure of key value pairs', arg='el', cond=elem)
opunit('m_erase_i', 'M04', eff_erase, 'erasure of keys', arg='iv', frame=True, contract=False)
for w in ('m_icl_erase_i', 'm_icl_sub_i', 'm_minus_i'): opunit(w, 'M04', eff_erase, 'erasure of keys', arg='iv')
for w in ('m_erase_k', 'm_sub_k'): opunit(w, 'M04', eff_erase, 'erasure of keys', arg='key', cond=elem)
@unit('m_erase_it', 'M04')
def _(c):
    c0, p = c.container('m'); n = fresh('it', 'N'); c.st.assume(c0.inn(n)); cid = c.ms.cid(c.st, p)
    for st, r in c.run('m_erase_it', [p, NP(n, cid)]):
        c1 = c.cont(st, p); c.post(st, c0, c1, lambda z: c.key(c0, n).at(z), eff_erase, 'exactly the keys of the segment are removed'); c.wf(st, c1)
@unit('m_erase_its', 'M04')
def _(c):
    c0, p = c.container('m'); m, n = fresh('it', 'N'), fresh('it', 'N'); cid = c.ms.cid(c.st, p)
    c.st.assume(Or(c0.inn(m), Eq(m, c0.end)), Or(c0.inn(n), Eq(n, c0.end)), Le(pos(m), pos(n)))
    for st, r in c.run('m_erase_its', [p, NP(m, cid), NP(n, cid)]):
        c1 = c.cont(st, p); k = lambda z: cov_node(c.fam, c0, z)
        c.post(st, c0, c1, lambda z: And(Le(pos(m), pos(k(z))), Lt(pos(k(z)), pos(n))), eff_erase, 'exactly the keys of the segments in the range are removed'); c.wf(st, c1)
@unit('m_clear', 'M04')
def _(c):
    c0, p = c.container('m')
    for st, r in c.run('m_clear', [p]):
        c1 = c.cont(st, p); c.ex.prove(st, Q(('N',), lambda n: Not(c1.inn(n))), 'no segment is left')
@unit('m_ctor', 'M01')
def _(c):
    f = c.fam; c.use(*contracts(c)); p = c.target(); a, v, pa = c.seg('a'); e = eff_add(f, v)
    for st, r in c.run('m_ctor', [p, pa]):
        c1 = c.cont(st, p); c.setrel(st, lambda z: ceq_(c.content(c1, z), cite_(a.at(z), e((FALSE, ID)), (FALSE, ID))), 'maps exactly the keys of the segment to its value'); c.wf(st, c1)

# ------------------------------------------------------------ M06 queries
@unit('default constructor', 'M06')
def _(c):
    p = c.target()
    for st, r in c.run('m_default', [p]):
        c1 = c.cont(st, p); c.ex.prove(st, Q(('N',), lambda n: Not(c1.inn(n))), 'a default-constructed map is empty')
for w in ('m_is_empty', 'm_empty'):
    @unit(w, 'M06')
    def _(c, w=w):
        c0, p = c.container('m')
        for st, r in c.run(w, [p]):
            c.setrel(st, lambda z: Implies(r, Not(c.covered(c0, z))), 'empty: no key')
            n = c.ms.begin(c.ex, st, c.ms.cid(st, p))
            c.exists(st, Not(r), lambda z: c.covered(c0, z), [c0], [c.key(c0, n).low], 'not empty: some key')
for w in ('m_contains_i', 'm_within_i', 'm_contains', 'm_within'):
    @unit(w, 'M06')
    def _(c, w=w):
        c0, p = c.container('m'); isseg = not w.endswith('_i')
        if isseg: a, v, pa = c.seg('a')
        else: a, pa = c.ival('a')
        def has(z):
            if not isseg: return TRUE if c.fam.total else c.covered(c0, z)
            d, x = c.content(c0, z); return And(d, Eq(x, v))
        for st, r in c.run(w, [p, pa] if 'contains' in w else [pa, p]):
            c.setrel(st, lambda z: Implies(And(r, a.at(z)), has(z)), 'true only if every key is contained')
            c.exists(st, Not(r), lambda z: And(a.at(z), Not(has(z))), [c0], [a.low], 'false only if something is missing')
            c.unchanged(st, c0, c.cont(st, p))
for w, neg in (('m_intersects_i', False), ('m_disjoint_i', True)):
    @unit(w, 'M06')
    def _(c, w=w, neg=neg):
        c0, p = c.container('m'); a, pa = c.ival('a')
        for st, r in c.run(w, [p, pa]):
            if neg: r = Not(r)
            c.setrel(st, lambda z: Implies(And(Not(r), a.at(z)), Not(c.covered(c0, z))), 'no common key unless they intersect')
            c.exists(st, r, lambda z: And(a.at(z), c.covered(c0, z)), [c0], [a.low], 'intersecting: some common key')
for w in ('m_contains_k', 'm_intersects_k', 'm_contains_e'):
    @unit(w, 'M06', elem)
    def _(c, w=w):
        c0, p = c.container('m')
        if w == 'm_contains_e': x, v, px = c.elpair('x'); z = c.fam.elem_atom(x)
        else: x, px, _ = c.elem('x'); z = c.fam.elem_atom(x)
        c.st.add_elem(z)
        for st, r in c.run(w, [p, px]):
            d, y = c.content(c0, z)
            c.ex.prove(st, Iff(r, And(d, Eq(y, v)) if w == 'm_contains_e' else Or(d, B(c.fam.total))), 'agrees with the mapping')
for w in ('m_find_k', 'm_icl_find_k'):
    @unit(w, 'M06', elem)
    def _(c, w=w):
        c0, p = c.container('m'); x, px, _ = c.elem('x'); z = c.fam.elem_atom(x); c.st.add_elem(z)
        for st, r in c.run(w, [p, px]):
            n = c.node_of(st, r)
            c.ex.prove(st, Or(And(c0.inn(n), c.key(c0, n).at(z)), And(Eq(n, c0.end), Not(c.covered(c0, z)))), 'finds the segment containing the key, end() if there is none')
@unit('m_call', 'M06', elem)
def _(c):
    c0, p = c.container('m'); x, px, _ = c.elem('x'); z = c.fam.elem_atom(x); c.st.add_elem(z); o = c.region()
    for st, r in c.run('m_call', [o, p, px]):
        v = as_int(c.read_cell(st, o, 4)); d, y = c.content(c0, z)
        c.ex.prove(st, Eq(v, Ite(d, y, ID)), 'operator() is the mapped value, the identity if there is none')
@unit('m_find_i', 'M06')
def _(c):
    f = c.fam; c0, p = c.container('m'); a, pa = c.ival('a', nonempty=True)
    hit = lambda m: And(c0.inn(m), f.clt(c.key(c0, m).low, a.up), f.clt(a.low, c.key(c0, m).up))
    for st, r in c.run('m_find_i', [p, pa]):
        n = c.node_of(st, r)
        c.ex.prove(st, Q(('N',), lambda m: Or(hit(n), And(Eq(n, c0.end), Not(hit(m))))), 'finds a segment overlapping the argument, end() if there is none')
        c.ex.prove(st, Q(('N',), lambda m: Implies(hit(m), Le(pos(n), pos(m)))), 'finds the first such segment')
for w, first in (('m_lower_bound', True), ('m_upper_bound', False)):
    @unit(w, 'M06')
    def _(c, w=w, first=first):
        f = c.fam; c0, p = c.container('m'); a, pa = c.ival('a', nonempty=True)
        for st, r in c.run(w, [p, pa]):
            n = c.node_of(st, r); k = lambda m: c.key(c0, m)
            c.ex.prove(st, Or(c0.inn(n), Eq(n, c0.end)), 'valid iterator')
            c.ex.prove(st, Q(('N',), lambda m: Implies(c0.inn(m), Iff(Lt(pos(m), pos(n)), f.cle(k(m).up, a.low) if first else f.clt(k(m).low, a.up)))), 'separates the segments ' + ('before' if first else 'behind') + ' the argument')
@unit('m_hull', 'M06')
def _(c):
    f = c.fam; c0, p = c.container('m'); o = c.out()
    for st, r in c.run('m_hull', [o, p]):
        h = c.read_ival(st, o); c.setrel(st, lambda z: Implies(c.covered(c0, z), h.at(z)), 'hull contains every key')
        c.exists(st, h.nonempty(), lambda z: And(c.covered(c0, z), f.ceq(f.cut(z), h.low)), [c0], [h.low], 'hull begins at the first key')
        s2 = st.copy(); s2.assume(h.nonempty()); s2.facts.append(Fact(('N',), lambda n: Not(And(c0.inn(n), f.ceq(c.key(c0, n).up, h.up)))))
        c.ex.prove(s2, FALSE, 'hull ends at the last key')
for w, lowq, exact in (('m_lower', True, False), ('m_upper', False, False), ('m_first', True, True), ('m_last', False, True)):
    @unit(w, 'M06', disc if exact else None)
    def _(c, w=w, lowq=lowq, exact=exact):
        f = c.fam; c0, p = c.container('m'); o = c.out()
        c.st.assume(c0.inn(fresh('some', 'N')))
        for st, r in c.run(w, [o, p]):
            v = f.key(c.read_cell(st, o, f.vs))
            if exact:
                c.st = st; st.add_elem(v)
                c.ex.prove(st, c.covered(c0, v), 'is a key')
                c.setrel(st, lambda z: Implies(c.covered(c0, z), Le(v, z) if lowq else Le(z, v)), 'no key lies beyond')
            else:
                q = lambda n: And(c0.inn(n), Eq(c.key(c0, n).lo if lowq else c.key(c0, n).hi, v))
                s2 = st.copy(); s2.facts.append(Fact(('N',), lambda n: Not(q(n)))); c.ex.prove(s2, FALSE, 'is the bound of a stored segment')
                c.ex.prove(st, Q(('N',), lambda n: Implies(c0.inn(n), Le(v, c.key(c0, n).lo) if lowq else Le(c.key(c0, n).hi, v))), 'is the outermost bound')

# ------------------------------------------------------------ M09 maps with maps and key sets
def mset_kind(p):
    m = re.match(r'^boost::icl::(\w+)<.*>(?: const)?&$', p)
    return None if not m else 'map' if m.group(1).endswith('_map') else 'set' if m.group(1).endswith('_set') else None
def op2(w, eff, what, prop='M09', cond=None, mk=None, extra=()):
    @unit(w, prop, cond)
    def _(c):
        f = c.fam; c.use(*contracts(c), *[x(c) for x in extra]); c0, p = c.container('m')
        d0, q = c.container('d') if w.startswith('mm') else c.setc('d')
        c.opeffs = [(what, 'map', lambda x, dv: eff(f, dv)(x))]
        for st, r in c.run(w, [p, q]):
            c1 = c.cont(st, p)
            def fn(z):
                x = c.content(c0, z); n = cov_node(f, d0, z); dv = d0.read(n, f.vo) if d0.kind.ismap else None
                return ceq_(c.content(c1, z), cite_(c.covered(d0, z), eff(f, dv)(x), x))
            c.setrel(st, fn, 'every key has the value required after ' + what); c.wf(st, c1)
            is_ref(c, st, r, p); c.unchanged(st, d0, c.cont(st, q), 'operand is unchanged')
op2('mm_plus', eff_add, 'addition'); op2('mm_pipe', eff_add, 'addition')
op2('mm_minus', eff_sub, 'subtraction'); op2('mm_insert', eff_insert, 'insertion'); op2('mm_erase', eff_erase_val, 'erasure of key value pairs')
op2('ms_erase', lambda f, v: eff_erase, 'erasure of keys'); op2('ms_minus', lambda f, v: eff_erase, 'erasure of keys')

# ------------------------------------------------------------ M05 intersection and symmetric difference with segments, elements, intervals, keys
def eff_sect(f, w):
    """what adding the section with a segment of value w does to the section so far, at a key mapped to mv"""
    def e(sec, mv):
        y = eff_comb(f, f.fsect, w, f.absorb, neutral=w)(eff_add(f, mv)(sec))
        return cite_(f.isid(w), sec, y) if f.setsem else y
    return e
def eff_and(f, w): return lambda x: cite_(x[0], eff_sect(f, w)((FALSE, ID), x[1]), (FALSE, ID))
def eff_flip(f, v):
    def e(x):
        y = vxor(v, x[1]) if f.setsem else ID
        return cite_(x[0], (Not(f.isid(y)), y), (Not(f.isid(v)), v))
    return e
class MapOps:
    """free functions on interval maps used by others, replaced by their contracts (each proved by a unit)"""
    def __init__(self, c, ops): self.c = c; self.ops = ops
    def match(self, ex, name, d, bn):
        c = self.c; f = c.fam; pars = IR.params_of(d); K = [mset_kind(p) for p in pars]; ops = self.ops
        if bn == 'boost::icl::interval_base_map::add_intersection' and len(pars) == 2 and pars[1].startswith('std::pair<boost::icl') and 'm_add_intersection' in ops:
            def h(ex, st, name, a, rt):
                ex.used_contracts.add('interval_base_map::add_intersection(section, segment)')
                I = c.read_ival(st, a[2]); w = rdval(c, st, a[2]); o = c.ms.need(ex, st, c.ms.cid(st, a[0])); cid = c.ms.cid(st, a[1]); c0, c1 = c.fresh_cont(st, cid)
                st.facts.append(Fact(('E',), sect_rel(c, c0, c1, o, I, w), 'add_intersection')); c.last_sect = (cid, c1); return [(st, None)]
            return h
        if bn == 'boost::icl::erase' and K == ['map', 'set'] and 'ms_erase' in ops: e = lambda x, dv: eff_erase(x)
        elif bn in ('boost::icl::operator+=', 'boost::icl::operator|=') and K == ['map', 'map'] and 'mm_plus' in ops: e = lambda x, dv: eff_add(f, dv)(x)
        elif bn == 'boost::icl::add_intersection' and len(K) == 3 and K[:2] == ['map', 'map'] and pars[2].endswith('::segment_type const&') and 'm_add_intersection' in ops:
            def h(ex, st, name, a, rt):
                ex.used_contracts.add('icl::add_intersection(section, map, segment)')
                I = c.read_ival(st, a[2]); w = rdval(c, st, a[2]); o = c.ms.need(ex, st, c.ms.cid(st, a[1])); cid = c.ms.cid(st, a[0]); c0, c1 = c.fresh_cont(st, cid)
                st.facts.append(Fact(('E',), lambda z: sect_rel(c, c0, c1, o, I, w)(z), 'add_intersection')); c.last_sect = (cid, c1); return [(st, None)]
            return h
        elif bn == 'boost::icl::add_intersection' and len(K) == 3 and K[:2] == ['map', 'map'] and pars[2].endswith('::interval_type const&') and 'm_add_intersection_i' in ops:
            def h(ex, st, name, a, rt):
                ex.used_contracts.add('icl::add_intersection(section, map, interval)')
                I = c.read_ival(st, a[2]); o = c.ms.need(ex, st, c.ms.cid(st, a[1])); cid = c.ms.cid(st, a[0]); c0, c1 = c.fresh_cont(st, cid)
                st.facts.append(Fact(('E',), lambda z: sect_rel(c, c0, c1, o, I, None)(z), 'add_intersection')); return [(st, None)]
            return h
        elif bn == 'boost::icl::flip' and len(K) == 2 and K[0] == 'map' and pars[1].endswith('::segment_type const&') and 'm_flip' in ops:
            def h(ex, st, name, a, rt):
                ex.used_contracts.add('icl::flip(map, segment)')
                I = c.read_ival(st, a[1]); v = rdval(c, st, a[1]); cid = c.ms.cid(st, a[0]); c0, c1 = c.fresh_cont(st, cid); e = eff_flip(f, v)
                st.facts.append(Fact(('E',), lambda z: ceq_(c.content(c1, z), cite_(I.at(z), e(c.content(c0, z)), c.content(c0, z))), 'flip')); return [(st, a[0])]
            return h
        elif bn == 'boost::icl::join' and K == ['map'] and 'join' in ops:
            def h(ex, st, name, a, rt):
                ex.used_contracts.add('icl::join(map)')
                cid = c.ms.cid(st, a[0]); c0, c1 = c.fresh_cont(st, cid, joined=False)
                g = c.joined_goal(c1); st.facts.append(Fact(g.sorts, g.fn, 'joined'))
                st.facts.append(Fact(('E',), lambda z: ceq_(c.content(c1, z), c.content(c0, z)), 'join')); return [(st, a[0])]
            return h
        else: return None
        def h(ex, st, name, a, rt):
            ex.used_contracts.add('%s(map, %s)' % (bn, K[1]))
            cid = c.ms.cid(st, a[0]); o = c.ms.need(ex, st, c.ms.cid(st, a[1])); c0, c1 = c.fresh_cont(st, cid)
            def fn(z):
                x = c.content(c0, z); n = cov_node(f, o, z); dv = o.read(n, f.vo) if o.kind.ismap else None
                return ceq_(c.content(c1, z), cite_(c.covered(o, z), e(x, dv), x))
            st.facts.append(Fact(('E',), fn, bn)); return [(st, a[0])]
        return h
def sect_rel(c, q0, q1, o, I, w):
    """section q1 = q0 extended by the section of map o with (I, w); w None: restriction of o to I"""
    f = c.fam
    def fn(z):
        s, x = c.content(q0, z), c.content(o, z)
        if w is not None and f.total:
            y = cite_(x[0], eff_add(f, x[1])(s), s); return ceq_(c.content(q1, z), cite_(I.at(z), eff_add(f, w)(y), y))
        y = eff_add(f, x[1])(s) if w is None else eff_sect(f, w)(s, x[1])
        return ceq_(c.content(q1, z), cite_(And(I.at(z), x[0]), y, s))
    return fn
for w, arg in (('m_add_intersection', 'seg'), ('m_add_intersection_i', 'iv')):
    @unit(w, 'M05')
    def _(c, w=w, arg=arg):
        f = c.fam; c.use(*contracts(c), MapOps(c, ('mm_plus',))); q0, q = c.container('q'); c0, p = c.container('m'); v = None
        if arg == 'seg': a, v, pa = c.seg('a')
        else: a, pa = c.ival('a')
        c.opeffs = [('section', 'map', (lambda x, dv: eff_add(f, dv)(x)) if v is None else eff_sect(f, v))]
        for st, r in c.run(w, [q, p, pa]):
            q1 = c.cont(st, q); c.setrel(st, sect_rel(c, q0, q1, c0, a, v), 'section is extended by exactly the common part'); c.wf(st, q1)
            c.unchanged(st, c0, c.cont(st, p), 'operand is unchanged')
def and_unit(w, arg, cond=None):
    @unit(w, 'M05', cond)
    def _(c):
        f = c.fam; c.use(*contracts(c), MapOps(c, ('m_add_intersection', 'm_add_intersection_i'))); c0, p = c.container('m'); v = None
        if arg == 'seg': a, v, pa = c.seg('a'); has = a.at
        elif arg == 'el': x, v, pa = c.elpair('a'); has = c.pt(x)
        elif arg == 'iv': a, pa = c.ival('a'); has = a.at
        else: x, pa, _ = c.elem('a'); has = c.pt(x)
        for st, r in c.run(w, [p, pa]):
            c1 = c.cont(st, p)
            def fn(z):
                x = c.content(c0, z)
                if v is not None and f.total: return ceq_(c.content(c1, z), cite_(has(z), eff_add(f, v)(x), x))
                return ceq_(c.content(c1, z), cite_(has(z), eff_and(f, v)(x) if v is not None else x, (FALSE, ID)))
            c.setrel(st, fn, 'exactly the common part is left'); c.wf(st, c1); is_ref(c, st, r, p)
and_unit('m_and', 'seg'); and_unit('m_and_i', 'iv'); and_unit('m_and_e', 'el', elem); and_unit('m_and_k', 'key', elem)
def flip_unit(w, arg, cond=None, body=False):
    @unit(w, 'M05', cond)
    def _(c):
        f = c.fam; c.use(*contracts(c), MapOps(c, ('mm_plus', 'ms_erase', 'join') + (() if body else ('m_flip',)))); c0, p = c.container('m')
        if arg == 'seg': a, v, pa = c.seg('a'); has = a.at
        else: x, v, pa = c.elpair('a'); has = c.pt(x)
        c.effs = [('insertion', eff_insert(f, v))]
        c.opeffs = [('flipped value', 'map', lambda x, dv: eff_add(f, vxor(v, dv) if f.setsem else ID)(x)), ('keys', 'set', None), ('identity', 'map', lambda x, dv: (TRUE, ID))]
        for st, r in c.run(w, [p, pa]):
            c1 = c.cont(st, p)
            def fn(z):
                x = c.content(c0, z)
                if f.total: return ceq_(c.content(c1, z), (FALSE, ID) if f.absorb else (Or(x[0], has(z)), ID))
                return ceq_(c.content(c1, z), cite_(has(z), eff_flip(f, v)(x), x))
            c.setrel(st, fn, 'exactly the keys of the operand are flipped'); c.wf(st, c1); is_ref(c, st, r, p)
for w, arg, neg in (('m_intersects', 'seg', False), ('m_disjoint', 'seg', True), ('m_intersects_e', 'el', False)):
    @unit(w, 'M06', elem if arg == 'el' else None)
    def _(c, w=w, arg=arg, neg=neg):
        f = c.fam; c.use(*contracts(c), MapOps(c, ('m_add_intersection',))); c0, p = c.container('m')
        if arg == 'seg': a, v, pa = c.seg('a'); has = a.at; seeds = [a.low]
        else: x, v, pa = c.elpair('a'); has = c.pt(x); seeds = [f.below(x)]
        hit = lambda z: And(has(z), eff_and(f, v)(c.content(c0, z))[0])
        for st, r in c.run(w, [p, pa]):
            if neg: r = Not(r)
            if f.total: c.ex.prove(st, r, 'always true for a total map'); continue
            c.setrel(st, lambda z: Implies(hit(z), r), 'true if the intersection is not empty')
            s2 = st.copy(); s2.assume(r); cid, k = c.last_sect; s2.conts[cid] = k
            z = f.atom(c.key(k, c.ms.begin(c.ex, s2, cid)).low); s2.add_elem(z); s2.assume(Not(hit(z)))
            c.ex.prove(s2, FALSE, 'true only if the intersection is not empty')
flip_unit('m_flip', 'seg', body=True); flip_unit('m_caret', 'seg', partial); flip_unit('m_caret', 'seg', total, body=True); flip_unit('m_flip_e', 'el', lambda f: f.elem and not f.total); flip_unit('m_flip_e', 'el', lambda f: f.elem and f.total, body=True)

# ------------------------------------------------------------ M09 intersection and symmetric difference with maps and sets
def sect2(w, fresh_sec):
    @unit(w, 'M09')
    def _(c):
        f = c.fam; ismm = w.startswith('mm'); c.use(*contracts(c), MapOps(c, ('mm_plus', 'm_add_intersection', 'm_add_intersection_i')))
        q = None if fresh_sec else c.container('q')
        c0, p = c.container('m'); d0, o = c.container('d') if ismm else c.setc('d')
        def sect(c, s, z, m0, D, m, b):
            x = c.content(m0, z)
            y = eff_sect(f, D.read(m, f.vo))(s, x[1]) if ismm else eff_add(f, x[1])(s)
            return cite_(And(b, x[0]), y, s)
        c.opsect = sect
        for st, r in c.run(w, [p, o] if fresh_sec else [q[1], p, o]):
            q1 = c.cont(st, p if fresh_sec else q[1]); 
            def fn(z):
                s = (FALSE, ID) if fresh_sec else c.content(q[0], z); x = c.content(c0, z); n = cov_node(f, d0, z)
                if ismm and f.total:
                    s = x if fresh_sec else cite_(x[0], eff_add(f, x[1])(s), s); y = cite_(c.covered(d0, z), eff_add(f, d0.read(n, f.vo))(s), s)
                else: y = sect(c, s, z, c0, d0, n, c.covered(d0, z))
                return ceq_(c.content(q1, z), y)
            c.setrel(st, fn, 'exactly the common part, with the values required'); c.wf(st, q1)
            c.unchanged(st, d0, c.cont(st, o), 'operand is unchanged')
            if fresh_sec: is_ref(c, st, r, p)
            else: c.unchanged(st, c0, c.cont(st, p), 'map is unchanged')
for w, n in (('mm_add_intersection', False), ('mm_and', True), ('ms_add_intersection', False), ('ms_and', True)): sect2(w, n)
op2('mm_caret', eff_flip, 'symmetric difference', cond=partial, extra=(lambda c: MapOps(c, ('m_flip',)),))
@unit('mm_caret', 'M09', total)
def _(c):
    f = c.fam; c.use(*contracts(c), MapOps(c, ('mm_plus', 'join'))); c0, p = c.container('m'); d0, q = c.container('d')
    c.opeffs = [('identity', 'map', lambda x, dv: (TRUE, ID))]
    for st, r in c.run('mm_caret', [p, q]):
        c1 = c.cont(st, p)
        c.setrel(st, lambda z: ceq_(c.content(c1, z), (FALSE, ID) if f.absorb else (Or(c.covered(c0, z), c.covered(d0, z)), ID)), 'the identity everywhere in the map'); c.wf(st, c1)
        is_ref(c, st, r, p); c.unchanged(st, d0, c.cont(st, q), 'operand is unchanged')

# ------------------------------------------------------------ M10 copies, join, domain, between
from set_units import whole_units, domain_unit, between_unit
mkm = lambda c, n: c.container(n)
whole_units(unit, 'm', 'mm', 'M10', mkm, contracts, None)
domain_unit(unit, 'ms_domain', 'M10', mkm, lambda c, n: c.setc(n), contracts)
between_unit(unit, 'ms_between', 'M10', mkm, lambda c, n: c.setc(n), contracts)
