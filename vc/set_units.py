"""Contracts of the interval set operations (proved against tu/set.cpp)."""
import re
import iv_units
from cont import *
import ir as IR
FAMS = {}
class SetFam(Fam):
    ismap = False
    def __init__(self, name, sett, iv):
        f = iv_units.FAMS[iv]
        super().__init__(name, f.ctype, f.k, f.et, f.neg)
        self.sett = sett; self.style = {'interval_set': 'join', 'separate_interval_set': 'separate', 'split_interval_set': 'split'}[sett]
        self.elem = f.dyn or not f.cont
        self.kind = Kind('set', self.icells(), self.isize, self.exl, keyok=lambda c: self.view(c).nonempty(), rng=lambda c: self.view(c).rng())
for s, sn in (('join', 'interval_set'), ('sep', 'separate_interval_set'), ('split', 'split_interval_set')):
    for iv in ('dyn_int', 'dyn_dbl', 'ro_int', 'cl_int', 'lo_int', 'op_int', 'ro_dbl', 'dyn_intg', 'ro_intg', 'dyn_uns'):
        FAMS[s + '_' + iv] = SetFam(s + '_' + iv, sn, iv)
def flags(f):
    r = ['-DFAM=' + f.ctype, '-DSETT=' + f.sett, '-DCMP=' + ('greater' if f.neg else 'less')]
    if not f.cont: r.append('-DDISC')
    if f.elem: r.append('-DELEM')
    return r
UNITS = []
def unit(name, prop, cond=None):
    def d(fn):
        UNITS.append((name, prop, cond, fn)); return fn
    return d
join = lambda f: f.style == 'join'
sep = lambda f: f.style == 'separate'
split = lambda f: f.style == 'split'
elem = lambda f: f.elem
disc = lambda f: not f.cont

def apart(c, k, I):
    """segment k neither overlaps I nor is joined with it"""
    f = c.fam; g = f.clt if f.style == 'join' else f.cle
    return Or(I.empty(), g(k.up, I.low), g(I.up, k.low))
def kept(c, c0, c1, sel):
    return ('N',), lambda n: Implies(And(c0.inn(n), sel(c.key(c0, n))), And(c1.inn(n), c.eqcells(c0, c1, n))), 'kept'
def suffix(c, c0, c1, I, strict):
    f = c.fam; g = f.clt if strict else f.cle
    def fn(m, n): return Implies(And(c0.inn(m), Or(I.empty(), g(I.up, c.key(c0, m).low)), Le(pos(m), pos(n))), And(Iff(c1.inn(n), c0.inn(n)), Implies(c0.inn(n), c.eqcells(c0, c1, n))))
    return ('N', 'N'), fn, 'suffix'
def overlaps(c, k, I):
    f = c.fam; return And(I.nonempty(), f.clt(k.low, I.up), f.clt(I.low, k.up))
# ------------------------------------------------------------ callee contracts (each proved by a unit below)
class SegContract:
    """interval_base_set::add / subtract of one segment, hinted add"""
    def __init__(self, c, ops=('add', 'hint', 'subtract')): self.c = c; self.ops = ops
    def match(self, ex, name, d, bn):
        if not bn.startswith('boost::icl::interval_base_set::'): return None
        fn = bn.split('::')[-1]; pars = IR.params_of(d); c = self.c; f = c.fam
        if fn in ('add', '_add') and len(pars) == 1 and '_interval<' in pars[0] and 'add' in self.ops:
            if fn == '_add': return None
            def h(ex, st, name, a, rt):
                ex.used_contracts.add('interval_base_set::add(segment)')
                I = c.read_ival(st, a[1]); cid = c.ms.cid(st, a[0]); c0, c1 = c.fresh_cont(st, cid)
                st.facts.append(Fact(('E',), lambda z: Iff(c.covered(c1, z), Or(c.covered(c0, z), I.at(z))), 'add'))
                st.facts.append(Fact(*kept(c, c0, c1, lambda k: apart(c, k, I)))); st.facts.append(Fact(*suffix(c, c0, c1, I, f.style == 'join')))
                return [(st, a[0])]
            return h
        if fn in ('add', '_add') and len(pars) == 2 and 'hint' in self.ops:
            if fn == '_add': return None
            def h(ex, st, name, a, rt):
                ex.used_contracts.add('interval_base_set::add(hint, segment)')
                I = c.read_ival(st, a[2]); cid = c.ms.cid(st, a[0]); hn = c.ms.node(a[1], cid); k0 = st.conts[cid]
                ex.prove(st, Or(k0.inn(hn), Eq(hn, k0.end)), 'hint is a valid iterator')
                c0, c1 = c.fresh_cont(st, cid)
                st.facts.append(Fact(('E',), lambda z: Iff(c.covered(c1, z), Or(c.covered(c0, z), I.at(z))), 'add'))
                outs = []
                s2 = st.copy(); s2.assume(I.empty())
                if ex.feasible(s2):
                    s2.conts[cid] = c0; outs.append((s2, a[1]))
                st.assume(I.nonempty())
                if ex.feasible(st):
                    r = fresh('ins', 'N'); st.assume(c1.inn(r)); outs.append((st, NP(r, cid)))
                return outs
            return h
        if fn == 'subtract' and len(pars) == 1 and '_interval<' in pars[0] and 'subtract' in self.ops:
            def h(ex, st, name, a, rt):
                ex.used_contracts.add('interval_base_set::subtract(segment)')
                I = c.read_ival(st, a[1]); cid = c.ms.cid(st, a[0]); c0, c1 = c.fresh_cont(st, cid)
                st.facts.append(Fact(('E',), lambda z: Iff(c.covered(c1, z), And(c.covered(c0, z), Not(I.at(z)))), 'subtract'))
                st.facts.append(Fact(*kept(c, c0, c1, lambda k: Not(overlaps(c, k, I))))); st.facts.append(Fact(*suffix(c, c0, c1, I, False)))
                return [(st, a[0])]
            return h
        return None
class FlipContract:
    """icl::flip(set, segment), icl::add_intersection(section, set, segment)"""
    def __init__(self, c): self.c = c
    def match(self, ex, name, d, bn):
        pars = IR.params_of(d); c = self.c
        if bn == 'boost::icl::flip' and len(pars) == 2 and 'segment_type' in pars[1]:
            def h(ex, st, name, a, rt):
                ex.used_contracts.add('icl::flip(set, segment)')
                I = c.read_ival(st, a[1]); cid = c.ms.cid(st, a[0]); c0, c1 = c.fresh_cont(st, cid)
                st.facts.append(Fact(('E',), lambda z: Iff(c.covered(c1, z), Xor(c.covered(c0, z), I.at(z))), 'flip'))
                return [(st, a[0])]
            return h
        if bn == 'boost::icl::add_intersection' and len(pars) == 3 and 'segment_type' in pars[2]:
            def h(ex, st, name, a, rt):
                ex.used_contracts.add('icl::add_intersection(section, set, segment)')
                I = c.read_ival(st, a[2]); o = c.ms.need(ex, st, c.ms.cid(st, a[1])); cid = c.ms.cid(st, a[0]); c0, c1 = c.fresh_cont(st, cid)
                st.facts.append(Fact(('E',), lambda z: Iff(c.covered(c1, z), Or(c.covered(c0, z), And(c.covered(o, z), I.at(z)))), 'add_intersection'))
                return [(st, None)]
            return h

# ------------------------------------------------------------ S01 add / insert, S02 subtract / erase
def union_post(c, st, c0, c1, has):
    c.setrel(st, lambda z: Iff(c.covered(c1, z), Or(c.covered(c0, z), has(z))), 'result contains exactly the old elements and those of the operand')
    c.wf(st, c1)
def diff_post(c, st, c0, c1, has):
    c.setrel(st, lambda z: Iff(c.covered(c1, z), And(c.covered(c0, z), Not(has(z)))), 'result contains exactly the old elements that are not in the operand')
    c.wf(st, c1)
def is_ref(c, st, r, p): c.ex.prove(st, B(isinstance(r, P) and (r.rid, r.off) == (p.rid, p.off)), 'returns a reference to the object')
@unit('add(segment)', 'S01')
def _(c):
    c0, p = c.container('s'); a, pa = c.ival('a')
    for st, r in c.run('s_add', [p, pa]): union_post(c, st, c0, c.cont(st, p), a.at); is_ref(c, st, r, p); c.ex.prove(st, Q(*kept(c, c0, c.cont(st, p), lambda k: apart(c, k, a))), 'segments apart from the operand are not touched'); c.ex.prove(st, Q(*suffix(c, c0, c.cont(st, p), a, c.fam.style == 'join')), 'nothing changes behind the operand')
@unit('add(hint, segment)', 'S01')
def _(c):
    c0, p = c.container('s'); a, pa = c.ival('a')
    h = fresh('hint', 'N'); c.st.assume(Or(c0.inn(h), Eq(h, c0.end))); cid = c.ms.cid(c.st, p)
    for st, r in c.run('s_addh', [p, NP(h, cid), pa]):
        c1 = c.cont(st, p); union_post(c, st, c0, c1, a.at); n = c.node_of(st, r)
        c.ex.prove(st, And(Implies(a.empty(), Eq(n, h)), Implies(a.nonempty(), c1.inn(n))), 'returned iterator is valid')
for w in ('s_insert', 's_icl_add', 's_icl_insert', 's_plus', 's_pipe'):
    @unit('add synonym ' + w, 'S01')
    def _(c, w=w):
        c.use(SegContract(c)); c0, p = c.container('s'); a, pa = c.ival('a')
        for st, r in c.run(w, [p, pa]): union_post(c, st, c0, c.cont(st, p), a.at); is_ref(c, st, r, p)
@unit('insert(hint, segment)', 'S01')
def _(c):
    c.use(SegContract(c)); c0, p = c.container('s'); a, pa = c.ival('a')
    h = fresh('hint', 'N'); c.st.assume(Or(c0.inn(h), Eq(h, c0.end))); cid = c.ms.cid(c.st, p)
    for st, r in c.run('s_inserth', [p, NP(h, cid), pa]): union_post(c, st, c0, c.cont(st, p), a.at)
def pt(c, x): return lambda z: And(c.fam.cle(c.fam.below(x), c.fam.cut(z)), c.fam.clt(c.fam.cut(z), c.fam.above(x)))
for w in ('s_add_e', 's_insert_e', 's_plus_e'):
    @unit('add element ' + w, 'S01', elem)
    def _(c, w=w):
        c.use(SegContract(c)); c0, p = c.container('s'); x, px, _ = c.elem('x')
        for st, r in c.run(w, [p, px]): union_post(c, st, c0, c.cont(st, p), pt(c, x)); is_ref(c, st, r, p)
@unit('construct from segment', 'S01')
def _(c):
    c.use(SegContract(c)); p = c.target(); a, pa = c.ival('a')
    for st, r in c.run('s_ctor_i', [p, pa]):
        c1 = c.cont(st, p); c.setrel(st, lambda z: Iff(c.covered(c1, z), a.at(z)), 'contains exactly the elements of the segment'); c.wf(st, c1)
@unit('subtract(segment)', 'S02')
def _(c):
    c0, p = c.container('s'); a, pa = c.ival('a')
    for st, r in c.run('s_sub', [p, pa]): diff_post(c, st, c0, c.cont(st, p), a.at); is_ref(c, st, r, p); c.ex.prove(st, Q(*kept(c, c0, c.cont(st, p), lambda k: Not(overlaps(c, k, a)))), 'segments that do not overlap the operand are not touched'); c.ex.prove(st, Q(*suffix(c, c0, c.cont(st, p), a, False)), 'nothing changes behind the operand')
for w in ('s_erase', 's_minus', 's_icl_erase'):
    @unit('subtract synonym ' + w, 'S02')
    def _(c, w=w):
        c.use(SegContract(c)); c0, p = c.container('s'); a, pa = c.ival('a')
        for st, r in c.run(w, [p, pa]): diff_post(c, st, c0, c.cont(st, p), a.at); is_ref(c, st, r, p)
for w in ('s_sub_e', 's_erase_e', 's_minus_e'):
    @unit('subtract element ' + w, 'S02', elem)
    def _(c, w=w):
        c.use(SegContract(c)); c0, p = c.container('s'); x, px, _ = c.elem('x')
        for st, r in c.run(w, [p, px]): diff_post(c, st, c0, c.cont(st, p), pt(c, x)); is_ref(c, st, r, p)
@unit('erase(iterator)', 'S02')
def _(c):
    c0, p = c.container('s'); n = fresh('it', 'N'); c.st.assume(c0.inn(n)); cid = c.ms.cid(c.st, p)
    for st, r in c.run('s_erase_it', [p, NP(n, cid)]): diff_post(c, st, c0, c.cont(st, p), lambda z: c.key(c0, n).at(z))
@unit('clear', 'S02')
def _(c):
    c0, p = c.container('s')
    for st, r in c.run('s_clear', [p]):
        c1 = c.cont(st, p); c.ex.prove(st, Q(('N',), lambda n: Not(c1.inn(n))), 'no segment is left')

# ------------------------------------------------------------ S03 intersection and symmetric difference with segments and elements
def inter_post(c, st, c0, c1, has):
    c.setrel(st, lambda z: Iff(c.covered(c1, z), And(c.covered(c0, z), has(z))), 'result contains exactly the common elements'); c.wf(st, c1)
def xor_post(c, st, c0, c1, has):
    c.setrel(st, lambda z: Iff(c.covered(c1, z), Xor(c.covered(c0, z), has(z))), 'result contains exactly the elements of one operand that are not in the other'); c.wf(st, c1)
@unit('&= segment', 'S03')
def _(c):
    c.use(SegContract(c)); c0, p = c.container('s'); a, pa = c.ival('a')
    for st, r in c.run('s_and_i', [p, pa]): inter_post(c, st, c0, c.cont(st, p), a.at); is_ref(c, st, r, p)
@unit('&= element', 'S03', elem)
def _(c):
    c.use(SegContract(c)); c0, p = c.container('s'); x, px, _ = c.elem('x')
    for st, r in c.run('s_and_e', [p, px]): inter_post(c, st, c0, c.cont(st, p), pt(c, x)); is_ref(c, st, r, p)
@unit('add_intersection with a segment', 'S03')
def _(c):
    c.use(SegContract(c)); q0, q = c.container('q'); c0, p = c.container('s'); a, pa = c.ival('a')
    for st, r in c.run('s_add_intersection_i', [q, p, pa]):
        q1 = c.cont(st, q)
        c.setrel(st, lambda z: Iff(c.covered(q1, z), Or(c.covered(q0, z), And(c.covered(c0, z), a.at(z)))), 'section is extended by exactly the common elements'); c.wf(st, q1)
        c.unchanged(st, c0, c.cont(st, p), 'operand is unchanged')
for w in ('s_flip', 's_caret'):
    @unit('flip segment ' + w, 'S03')
    def _(c, w=w):
        c.use(SegContract(c)); c0, p = c.container('s'); a, pa = c.ival('a')
        for st, r in c.run(w, [p, pa]): xor_post(c, st, c0, c.cont(st, p), a.at); is_ref(c, st, r, p)
@unit('flip element', 'S03', elem)
def _(c):
    c.use(SegContract(c)); c0, p = c.container('s'); x, px, _ = c.elem('x')
    for st, r in c.run('s_flip_e', [p, px]): xor_post(c, st, c0, c.cont(st, p), pt(c, x)); is_ref(c, st, r, p)

# ------------------------------------------------------------ S04 segmentation of separating and splitting sets
def ovl(c, c0, a, z):
    f = c.fam; n = cov_node(f, c0, z); k = c.key(c0, n)
    return And(c0.inn(n), k.at(z), a.nonempty(), f.clt(k.low, a.up), f.clt(a.low, k.up))
def seg_same(c, cc, k, z):
    n = cov_node(c.fam, cc, z); return And(cc.inn(n), c.key(cc, n).at(z), c.key(cc, n).same(k))
@unit('separating add', 'S04', sep)
def _(c):
    f = c.fam; c0, p = c.container('s'); a, pa = c.ival('a')
    for st, r in c.run('s_add', [p, pa]):
        c1 = c.cont(st, p); c.wf(st, c1)
        c.setrel(st, lambda z: Implies(And(c.covered(c0, z), Not(ovl(c, c0, a, z))), seg_same(c, c1, c.key(c0, cov_node(f, c0, z)), z)), 'segments that do not overlap the added one keep their borders')
        touched = lambda z: And(c.covered(c1, z), Or(a.at(z), ovl(c, c0, a, z)))
        c.ex.prove(st, Q(('E', 'E'), lambda x, y: Implies(And(touched(x), touched(y)), Eq(cov_node(f, c1, x), cov_node(f, c1, y)))), 'all segments overlapping the added one are merged into one')
def split_rel(c, c0, c1, a):
    """segment of c1 at atom z, expressed by the old segments and the operand a"""
    f = c.fam
    def fn(z):
        zc = f.cut(z); n = cov_node(f, c1, z); k = c.key(c1, n); m = cov_node(f, c0, z); km = c.key(c0, m)
        old = c.covered(c0, z)
        lo = f.cite(And(a.nonempty(), f.cle(a.low, zc)), f.cmax(km.low, f.cite(f.cle(a.up, zc), a.up, a.low)), km.low)
        up = f.cite(And(a.nonempty(), f.clt(zc, a.up)), f.cmin(km.up, f.cite(f.cle(a.low, zc), a.up, a.low)), km.up)
        return Implies(c.covered(c1, z), And(Implies(old, And(f.ceq(k.low, lo), f.ceq(k.up, up))), Implies(Not(old), And(f.cle(a.low, k.low), f.cle(k.up, a.up)))))
    return fn
@unit('splitting add', 'S04', split)
def _(c):
    f = c.fam; c0, p = c.container('s'); a, pa = c.ival('a')
    for st, r in c.run('s_add', [p, pa]):
        c1 = c.cont(st, p); c.wf(st, c1)
        c.setrel(st, split_rel(c, c0, c1, a), 'old segments are cut exactly at the borders of the added one')
        new = lambda n: And(c1.inn(n), Not(c.covered(c0, f.atom(c.key(c1, n).low))))
        c.ex.prove(st, Q(('N', 'N'), lambda m, n: Implies(And(new(m), new(n)), Not(f.ceq(c.key(c1, m).up, c.key(c1, n).low)))), 'every gap is filled by one segment')
@unit('joining add is canonical', 'S04', join)
def _(c):
    c0, p = c.container('s'); a, pa = c.ival('a')
    for st, r in c.run('s_add', [p, pa]): c.wf(st, c.cont(st, p))
@unit('subtract keeps the other borders', 'S04', lambda f: f.style != 'join')
def _(c):
    f = c.fam; c0, p = c.container('s'); a, pa = c.ival('a')
    for st, r in c.run('s_sub', [p, pa]):
        c1 = c.cont(st, p); c.wf(st, c1)
        c.setrel(st, split_rel(c, c0, c1, a), 'the remaining segments are the old ones cut at the borders of the subtracted one')
@unit('subtract is canonical', 'S04', join)
def _(c):
    c0, p = c.container('s'); a, pa = c.ival('a')
    for st, r in c.run('s_sub', [p, pa]): c.wf(st, c.cont(st, p))

# ------------------------------------------------------------ S05 queries
@unit('default constructor', 'S05')
def _(c):
    p = c.target()
    for st, r in c.run('s_default', [p]):
        c1 = c.cont(st, p); c.ex.prove(st, Q(('N',), lambda n: Not(c1.inn(n))), 'a default-constructed set is empty')
for w in ('s_is_empty', 's_empty'):
    @unit(w, 'S05')
    def _(c, w=w):
        c0, p = c.container('s')
        for st, r in c.run(w, [p]):
            c.setrel(st, lambda z: Implies(r, Not(c.covered(c0, z))), 'empty: no element')
            n = c.ms.begin(c.ex, st, c.ms.cid(st, p))
            c.exists(st, Not(r), lambda z: c.covered(c0, z), [c0], [c.key(c0, n).low], 'not empty: some element')
for w in ('s_contains_i', 's_within_i'):
    @unit(w, 'S05')
    def _(c, w=w):
        c0, p = c.container('s'); a, pa = c.ival('a')
        for st, r in c.run(w, [p, pa] if w == 's_contains_i' else [pa, p]):
            c.setrel(st, lambda z: Implies(And(r, a.at(z)), c.covered(c0, z)), 'true only if every element is contained')
            c.exists(st, Not(r), lambda z: And(a.at(z), Not(c.covered(c0, z))), [c0], [a.low], 'false only if some element is missing')
            c.unchanged(st, c0, c.cont(st, p))
for w, neg in (('s_intersects_i', False), ('s_disjoint_i', True)):
    @unit(w, 'S05')
    def _(c, w=w, neg=neg):
        c0, p = c.container('s'); a, pa = c.ival('a')
        if w == 's_x': c.st.assume(a.nonempty())
        for st, r in c.run(w, [p, pa]):
            if neg: r = Not(r)
            c.setrel(st, lambda z: Implies(And(Not(r), a.at(z)), Not(c.covered(c0, z))), 'no common element unless they intersect')
            c.exists(st, r, lambda z: And(a.at(z), c.covered(c0, z)), [c0], [a.low], 'intersecting: some common element')
for w, want in (('s_contains_e', True), ('s_intersects_e', True), ('s_disjoint_e', False), ('s_within_e', True)):
    @unit(w, 'S05', elem)
    def _(c, w=w, want=want):
        c0, p = c.container('s'); x, px, _ = c.elem('x'); z = c.fam.elem_atom(x); c.st.add_elem(z)
        for st, r in c.run(w, [p, px] if w != 's_within_e' else [px, p]):
            c.ex.prove(st, Iff(r if want else Not(r), c.covered(c0, z)), 'agrees with the element set')
for w in ('s_find_e', 's_icl_find_e'):
    @unit(w, 'S05', elem)
    def _(c, w=w):
        c0, p = c.container('s'); x, px, _ = c.elem('x'); z = c.fam.elem_atom(x); c.st.add_elem(z)
        for st, r in c.run(w, [p, px]):
            n = c.node_of(st, r)
            c.ex.prove(st, Or(And(c0.inn(n), c.key(c0, n).at(z)), And(Eq(n, c0.end), Not(c.covered(c0, z)))), 'finds the segment containing the element, end() if there is none')
@unit('find(segment)', 'S05')
def _(c):
    f = c.fam; c0, p = c.container('s'); a, pa = c.ival('a', nonempty=True)
    hit = lambda m: And(c0.inn(m), f.clt(c.key(c0, m).low, a.up), f.clt(a.low, c.key(c0, m).up))
    for st, r in c.run('s_find_i', [p, pa]):
        n = c.node_of(st, r)
        c.ex.prove(st, Q(('N',), lambda m: Or(hit(n), And(Eq(n, c0.end), Not(hit(m))))), 'finds a segment overlapping the argument, end() if there is none')
        c.ex.prove(st, Q(('N',), lambda m: Implies(hit(m), Le(pos(n), pos(m)))), 'finds the first such segment')
for w, first in (('s_lower_bound', True), ('s_upper_bound', False)):
    @unit(w, 'S05')
    def _(c, w=w, first=first):
        f = c.fam; c0, p = c.container('s'); a, pa = c.ival('a', nonempty=True)
        for st, r in c.run(w, [p, pa]):
            n = c.node_of(st, r); k = lambda m: c.key(c0, m)
            c.ex.prove(st, Or(c0.inn(n), Eq(n, c0.end)), 'valid iterator')
            c.ex.prove(st, Q(('N',), lambda m: Implies(c0.inn(m), Iff(Lt(pos(m), pos(n)), f.cle(k(m).up, a.low) if first else f.clt(k(m).low, a.up)))), 'separates the segments ' + ('before' if first else 'behind') + ' the argument')
@unit('hull', 'S05')
def _(c):
    f = c.fam; c0, p = c.container('s'); o = c.out()
    for st, r in c.run('s_hull', [o, p]):
        h = c.read_ival(st, o); c.setrel(st, lambda z: Implies(c.covered(c0, z), h.at(z)), 'hull contains every element')
        c.exists(st, h.nonempty(), lambda z: And(c.covered(c0, z), f.ceq(f.cut(z), h.low)), [c0], [h.low], 'hull begins at the first element')
        g = fresh('q', 'N')
        s2 = st.copy(); s2.assume(h.nonempty()); s2.facts.append(Fact(('N',), lambda n: Not(And(c0.inn(n), f.ceq(c.key(c0, n).up, h.up)))))
        c.ex.prove(s2, FALSE, 'hull ends at the last element')
for w, lowq, exact in (('s_lower', True, False), ('s_upper', False, False), ('s_first', True, True), ('s_last', False, True)):
    @unit(w, 'S05', disc if exact else None)
    def _(c, w=w, lowq=lowq, exact=exact):
        f = c.fam; c0, p = c.container('s'); o = c.out()
        c.st.assume(c0.inn(fresh('some', 'N')))
        for st, r in c.run(w, [o, p]):
            v = f.key(c.read_cell(st, o, f.vs))
            if exact:
                c.st = st; st.add_elem(v)
                c.ex.prove(st, c.covered(c0, v), 'is an element')
                c.setrel(st, lambda z: Implies(c.covered(c0, z), Le(v, z) if lowq else Le(z, v)), 'no element lies beyond')
            else:
                q = lambda n: And(c0.inn(n), Eq(c.key(c0, n).lo if lowq else c.key(c0, n).hi, v))
                s2 = st.copy(); s2.facts.append(Fact(('N',), lambda n: Not(q(n)))); c.ex.prove(s2, FALSE, 'is the bound of a stored segment')
                c.ex.prove(st, Q(('N',), lambda n: Implies(c0.inn(n), Le(v, c.key(c0, n).lo) if lowq else Le(c.key(c0, n).hi, v))), 'is the outermost bound')


# ------------------------------------------------------------ S06 set-set operators
for w, post in (('ss_plus', union_post), ('ss_pipe', union_post), ('ss_minus', diff_post), ('ss_erase', diff_post), ('ss_and', inter_post), ('ss_caret', xor_post)):
    @unit(w, 'S06')
    def _(c, w=w, post=post):
        c.use(SegContract(c), FlipContract(c)); c0, p = c.container('s'); d0, q = c.container('d')
        for st, r in c.run(w, [p, q]):
            post(c, st, c0, c.cont(st, p), lambda z: c.covered(d0, z)); is_ref(c, st, r, p); c.unchanged(st, d0, c.cont(st, q), 'operand is unchanged')
@unit('add_intersection of sets', 'S06')
def _(c):
    c.use(SegContract(c), FlipContract(c)); r0, p = c.container('r'); c0, q = c.container('s'); d0, o = c.container('d')
    for st, r in c.run('ss_add_intersection', [p, q, o]):
        c1 = c.cont(st, p); c.setrel(st, lambda z: Iff(c.covered(c1, z), Or(c.covered(r0, z), And(c.covered(c0, z), c.covered(d0, z)))), 'section is extended by exactly the common elements'); c.wf(st, c1)

# ------------------------------------------------------------ S08 copies, join, domain, between  (shared with maps)
def whole_units(unit, pre, whole, prop, mk, contracts, style):
    @unit(pre + '_copy', prop)
    def _(c):
        c0, p = mk(c, 's'); o = c.target()
        for st, r in c.run(pre + '_copy', [o, p]):
            c1 = c.cont(st, o); c.setrel(st, lambda z: c.samesegs(c0, c1, z), 'the copy has the same segments'); c.wf(st, c1); c.unchanged(st, c0, c.cont(st, p), 'source is unchanged')
    @unit(pre + '_assign', prop)
    def _(c):
        x0, o = mk(c, 'd'); c0, p = mk(c, 's')
        for st, r in c.run(pre + '_assign', [o, p]):
            c1 = c.cont(st, o); c.setrel(st, lambda z: c.samesegs(c0, c1, z), 'the target has the segments of the source'); c.wf(st, c1); c.unchanged(st, c0, c.cont(st, p), 'source is unchanged')
    @unit(pre + '_move', prop)
    def _(c):
        c0, p = mk(c, 's'); o = c.target()
        for st, r in c.run(pre + '_move', [o, p]):
            c1 = c.cont(st, o); c.setrel(st, lambda z: c.samesegs(c0, c1, z), 'the target has the former segments of the source'); c.wf(st, c1); c.wf(st, c.cont(st, p), tag='source: ')
    @unit(pre + '_swap', prop)
    def _(c):
        x0, o = mk(c, 'd'); c0, p = mk(c, 's')
        for st, r in c.run(pre + '_swap', [o, p]):
            x1, c1 = c.cont(st, o), c.cont(st, p)
            c.setrel(st, lambda z: And(c.samesegs(c0, x1, z), c.samesegs(x0, c1, z)), 'the contents are exchanged'); c.wf(st, x1); c.wf(st, c1)
    @unit(whole + '_join', prop)
    def _(c):
        c.extra = ('join',); c0, p = mk(c, 's')
        for st, r in c.run(whole + '_join', [p]):
            c1 = c.cont(st, p); c.setrel(st, lambda z: c.samemap(c0, c1, z), 'content is kept'); c.wf(st, c1)
            c.ex.prove(st, c.joined_goal(c1), 'no two segments that could be joined are left'); is_ref(c, st, r, p)
def domain_unit(unit, w, prop, mk, mkset, contracts):
    @unit(w, prop)
    def _(c):
        c.use(*contracts(c)); x0, o = mkset(c, 'd'); c0, p = mk(c, 's')
        for st, r in c.run(w, [o, p]):
            x1 = c.cont(st, o); c.setrel(st, lambda z: Iff(c.covered(x1, z), c.covered(c0, z)), 'exactly the keys'); c.wf(st, x1); c.unchanged(st, c0, c.cont(st, p), 'source is unchanged')
def between_unit(unit, w, prop, mk, mkset, contracts):
    @unit(w, prop)
    def _(c):
        f = c.fam; c.extra = ('gaps',); c.use(*contracts(c)); x0, o = mkset(c, 'd'); c0, p = mk(c, 's'); cid = c.ms.cid(c.st, p)
        for st, r in c.run(w, [o, p]):
            x1 = c.cont(st, o); c.unchanged(st, c0, c.cont(st, p), 'source is unchanged'); c.wf(st, x1)
            s2 = st.copy(); b = c.ms.begin(c.ex, s2, cid); s2.assume(Eq(b, c0.end))
            c.ex.prove(s2, Q(('E',), lambda z: Not(c.covered(x1, z)), 'none'), 'nothing lies between the segments of an empty object')
            b = c.ms.begin(c.ex, st, cid); st.assume(Not(Eq(b, c0.end)))
            if not c.ex.feasible(st): continue
            l = c.ms.prev(c.ex, st, cid, c0.end)
            c.setrel(st, lambda z: Iff(c.covered(x1, z), And(Not(c.covered(c0, z)), f.cle(c.key(c0, b).low, f.cut(z)), f.clt(f.cut(z), c.key(c0, l).up))), 'exactly the gaps between the segments')
sc_ = lambda c: [SegContract(c)]
whole_units(unit, 's', 'ss', 'S08', lambda c, n: c.container(n), sc_, None)
domain_unit(unit, 'ss_domain', 'S08', lambda c, n: c.container(n), lambda c, n: c.container(n), sc_)
between_unit(unit, 'ss_between', 'S08', lambda c, n: c.container(n), lambda c, n: c.container(n), sc_)
