"""Contracts of the interval functions (proved against tu/iv.cpp)."""
from icl import *

FAMS = {}
def fam(*a, **k):
    f = Fam(*a, **k); FAMS[f.name] = f; return f
fam('ro_int', 'icl::right_open_interval<int>', 'ro')
fam('lo_int', 'icl::left_open_interval<int>', 'lo')
fam('cl_int', 'icl::closed_interval<int>', 'cl')
fam('op_int', 'icl::open_interval<int>', 'op')
fam('dyn_int', 'icl::discrete_interval<int>', 'dyn', factory='std::less')
fam('ro_uns', 'icl::right_open_interval<unsigned>', 'ro', 'unsigned')
fam('lo_uns', 'icl::left_open_interval<unsigned>', 'lo', 'unsigned')
fam('cl_uns', 'icl::closed_interval<unsigned>', 'cl', 'unsigned')
fam('op_uns', 'icl::open_interval<unsigned>', 'op', 'unsigned')
fam('dyn_uns', 'icl::discrete_interval<unsigned>', 'dyn', 'unsigned', factory='std::less')
fam('dyn_sht', 'icl::discrete_interval<short>', 'dyn', 'short')
fam('ro_dbl', 'icl::right_open_interval<double>', 'ro', 'double')
fam('dyn_dbl', 'icl::continuous_interval<double>', 'dyn', 'double', factory='std::less')
fam('ro_intg', 'icl::right_open_interval<int, std::greater>', 'ro', neg=True)
fam('lo_intg', 'icl::left_open_interval<int, std::greater>', 'lo', neg=True)
fam('cl_intg', 'icl::closed_interval<int, std::greater>', 'cl', neg=True)
fam('op_intg', 'icl::open_interval<int, std::greater>', 'op', neg=True)
fam('dyn_intg', 'icl::discrete_interval<int, std::greater>', 'dyn', neg=True, factory='std::greater')
fam('dyn_dblg', 'icl::continuous_interval<double, std::greater>', 'dyn', 'double', neg=True, factory='std::greater')
fam('ro_dblg', 'icl::right_open_interval<double, std::greater>', 'ro', 'double', neg=True)
# static-bounded configuration: icl::interval<> factories shift their bounds
for nm, ct, k in (('ro', 'right_open', 'ro'), ('lo', 'left_open', 'lo'), ('cl', 'closed', 'cl'), ('op', 'open', 'op')):
    fam('st%s_int' % nm, 'icl::%s_interval<int>' % ct, k, factory='std::less', extra=('-DBOOST_ICL_USE_STATIC_BOUNDED_INTERVALS', '-DBOOST_ICL_DISCRETE_STATIC_INTERVAL_DEFAULT=%s_interval' % ct))

def flags(f):
    r = ['-DFAMDEF=', '-DFAM=' + f.ctype]
    if not f.cont: r.append('-DDISC')
    if not f.cont: r.append('-DSTATICSING')
    elif f.dyn: r.append('-DSTATICSING')
    if f.dyn: r.append('-DDYN')
    if f.factory: r += ['-DFACTORY', '-DCMP=' + f.factory]
    return r + list(f.extra)

UNITS = []
def unit(name, prop, cond=None):
    def d(fn):
        UNITS.append((name, prop, cond, fn)); return fn
    return d

# ---------------------------------------------------------------- construction, membership, size (P: I01)
@unit('default constructor', 'I01')
def _(c):
    r = c.out()
    for st, _ in c.run('u_default', [r]):
        v = c.read_ival(st, r); c.ex.prove(st, v.empty(), 'a default-constructed interval is empty')
def mk_bounds(name, wrapper, lc, rc, cond):
    @unit(name, 'I01', cond)
    def _(c):
        f = c.fam; r = c.out(); a, pa, _ = c.elem('a'); b, pb, _ = c.elem('b')
        for st, _ in c.run(wrapper, [r, pa, pb]):
            v = c.read_ival(st, r)
            low = (f.below(a) if lc else f.above(a)); up = (f.above(b) if rc else f.below(b))
            c.ex.prove(st, v.is_cuts(low, up), 'result contains exactly the elements between the two bounds')
for nm, lc, rc in (('right_open', 1, 0), ('left_open', 0, 1), ('open', 0, 0), ('closed', 1, 1)):
    mk_bounds(nm + ' factory', 'u_' + nm, lc, rc, lambda f: f.dyn)
    mk_bounds('interval<>::%s' % nm, 'u_f_' + nm, lc, rc, lambda f: bool(f.factory))
@unit('construct', 'I01')
def _(c):
    f = c.fam; r = c.out(); a, pa, ra = c.elem('a'); b, pb, rb = c.elem('b')
    for st, _ in c.run('u_construct', [r, pa, pb]):
        v = c.read_ival(st, r)
        lc, rc = (True, False) if f.dyn else (f.static_lc, f.static_rc)
        low = (f.below(a) if lc else f.above(a)); up = (f.above(b) if rc else f.below(b))
        c.ex.prove(st, v.is_cuts(low, up), 'result contains exactly the elements between the two bounds')
@unit('construct with bounds', 'I01', lambda f: f.dyn)
def _(c):
    f = c.fam; r = c.out(); a, pa, ra = c.elem('a'); b, pb, rb = c.elem('b')
    bits = Bits([fresh('rc', 'B'), fresh('lc', 'B')] + [FALSE]*6); pd = c.region(Chunk({0: (1, bits)}, 1))
    for st, _ in c.run('u_construct_b', [r, pa, pb, pd]):
        v = c.read_ival(st, r); w = Ival(f, ra, rb, bits)
        c.ex.prove(st, v.same(w), 'result contains exactly the elements between the two bounds')
        c.ex.prove(st, And(Iff(v.lc, w.lc), Iff(v.rc, w.rc), Eq(v.lo, a), Eq(v.hi, b)), 'bounds and bound values are the given ones')
def singleton(wrapper, name, cond=None, trail=False):
    @unit(name, 'I01', cond)
    def _(c):
        f = c.fam; r = c.out(); a, pa, ra = c.elem('a')
        for st, _ in c.run(wrapper, [r, pa]):
            v = c.read_ival(st, r)
            if f.cont and not f.dyn: c.ex.prove(st, v.is_cuts((a, FALSE), (Add(a, Real(1)), FALSE)), 'contains the half-open unit step from the element')
            else: c.ex.prove(st, v.is_cuts(f.below(a), f.above(a)), 'contains exactly the given element')
singleton('u_singleton', 'unit_trail'); singleton('u_singleton2', 'singleton', lambda f: not f.cont or f.dyn)
singleton('u_ctor1', 'constructor from element', lambda f: not f.cont or f.dyn)
@unit('span', 'I01')
def _(c):
    f = c.fam; r = c.out(); a, pa, ra = c.elem('a'); b, pb, rb = c.elem('b')
    for st, _ in c.run('u_span', [r, pa, pb]):
        v = c.read_ival(st, r); lo = Ite(Lt(b, a), b, a); hi = Ite(Lt(b, a), a, b)
        lc, rc = (True, False) if f.dyn else (f.static_lc, f.static_rc)
        c.ex.prove(st, v.is_cuts(f.below(lo) if lc else f.above(lo), f.above(hi) if rc else f.below(hi)), 'spans the two bounds regardless of their order')
@unit('hull of two elements', 'I01')
def _(c):
    f = c.fam; r = c.out(); a, pa, ra = c.elem('a'); b, pb, rb = c.elem('b')
    for st, _ in c.run('u_hull_ee', [r, pa, pb]):
        v = c.read_ival(st, r); lo = Ite(Lt(b, a), b, a); hi = Ite(Lt(b, a), a, b)
        if f.cont and not f.dyn: c.ex.prove(st, v.is_cuts((lo, FALSE), (Add(hi, Real(1)), FALSE)), 'contains both elements')
        else: c.ex.prove(st, v.is_cuts(f.below(lo), f.above(hi)), 'smallest interval containing both elements')
@unit('lower', 'I01')
def _(c):
    r = c.out(); v, p = c.ival('a')
    for st, _ in c.run('u_lower', [r, p]): c.ex.prove(st, Eq(c.read_cell(st, r, c.fam.vs), v.rawlo), 'returns the lower bound value')
@unit('upper', 'I01')
def _(c):
    r = c.out(); v, p = c.ival('a')
    for st, _ in c.run('u_upper', [r, p]): c.ex.prove(st, Eq(c.read_cell(st, r, c.fam.vs), v.rawhi), 'returns the upper bound value')
def pred1(name, prop, wrapper, spec, what, **k):
    @unit(name, prop)
    def _(c):
        v, p = c.ival('a', **k)
        for st, rv in c.run(wrapper, [p]): c.ex.prove(st, Iff(rv, spec(c.fam, v)), what)
def pred2(name, prop, wrapper, spec, what, cond=None, ne=False):
    @unit(name, prop, cond)
    def _(c):
        a, pa = c.ival('a', nonempty=ne); b, pb = c.ival('b', nonempty=ne)
        for st, rv in c.run(wrapper, [pa, pb]): c.ex.prove(st, Iff(rv, spec(c.fam, a, b)), what)
pred1('is_empty', 'I01', 'u_is_empty', lambda f, a: a.empty(), 'true exactly when no element lies between the bounds')
@unit('contains(element)', 'I01')
def _(c):
    v, p = c.ival('a'); x, px, _ = c.elem('x')
    for st, rv in c.run('u_contains_e', [p, px]): c.ex.prove(st, Iff(rv, v.has(x)), 'true exactly when the element lies between the bounds')
def first_last(wrapper, name, spec, what):
    @unit(name, 'I01', lambda f: not f.cont)
    def _(c):
        r = c.out(); v, p = c.ival('a', nonempty=True)
        for st, _ in c.run(wrapper, [r, p]):
            c.ex.prove(st, Eq(c.fam.key(c.read_cell(st, r, c.fam.vs)), spec(v)), what)
first_last('u_first', 'first', lambda v: v.low, 'the least element')
first_last('u_last', 'last', lambda v: Sub(v.up, Int(1)), 'the greatest element')
first_last('u_last_next', 'last_next', lambda v: v.up, 'the successor of the greatest element')
def size_units(wrapper, name, kind):
    @unit(name, 'I04')
    def _(c):
        f = c.fam; r = c.out(); v, p = c.ival('a')
        if not f.cont:
            d = Sub(v.up, v.low); w = 8*f.vs
            if not f.uns: c.st.assume(Implies(v.nonempty(), Lt(d, Int(1 << (w-1)))))
        for st, _ in c.run(wrapper, [r, p]):
            if f.cont:
                if kind == 'len':
                    c.ex.prove(st, Eq(c.read_cell(st, r, 8), Ite(v.empty(), Real(0), Sub(v.hi, v.lo))), 'distance between the bounds, zero when empty')
                else:
                    n = c.read_cell(st, r, 8)
                    single = And(v.nonempty(), Eq(v.lo, v.hi)) if f.dyn else FALSE
                    c.ex.prove(st, And(Implies(v.empty(), Eq(n, Int(0))), Implies(single, Eq(n, Int(1))), Implies(And(v.nonempty(), Not(single)), Eq(n, Int(-1)))), 'zero, one for a single point, otherwise infinite')
            else:
                sz = 8 if kind != 'len' else (f.vs if f.et != 'short' else 4)
                raw = c.read_cell(st, r, sz)
                n = f.key(raw) if (kind == 'len' and f.uns and not f.neg) else raw
                d2 = Ite(v.empty(), Int(0), Sub(v.up, v.low))
                if f.neg and kind != 'len': pass
                c.ex.prove(st, Eq(n, d2), 'number of elements')
size_units('u_cardinality', 'cardinality', 'card'); size_units('u_size', 'size', 'card'); size_units('u_length', 'length', 'len')

# ---------------------------------------------------------------- order and relations (P: I02)
def eqs(f, a, b): return Or(And(a.empty(), b.empty()), And(f.ceq(a.low, b.low), f.ceq(a.up, b.up)))
def lts(f, a, b):
    # lexicographic on (lower cut, upper cut); never true when an empty interval takes part
    return And(a.nonempty(), b.nonempty(), Or(f.clt(a.low, b.low), And(f.ceq(a.low, b.low), f.clt(a.up, b.up))))
def les(f, a, b): return And(a.nonempty(), b.nonempty(), Not(lts(f, b, a)))
pred2('operator ==', 'I02', 'u_eq', eqs, 'equal exactly when both contain the same elements')
pred2('operator !=', 'I02', 'u_ne', lambda f, a, b: Not(eqs(f, a, b)), 'negation of ==')
pred2('operator <', 'I02', 'u_lt', lts, 'lexicographic order of the bounds')
pred2('operator >', 'I02', 'u_gt', lambda f, a, b: lts(f, b, a), 'mirror of <')
pred2('operator <=', 'I02', 'u_le', les, 'non-empty and not >')
pred2('operator >=', 'I02', 'u_ge', lambda f, a, b: les(f, b, a), 'non-empty and not <')
exl = lambda f, a, b: Or(a.empty(), b.empty(), f.cle(a.up, b.low))
pred2('exclusive_less', 'I02', 'u_exclusive_less', exl, 'every element of the left precedes every element of the right')
pred2('non_empty::exclusive_less', 'I02', 'u_ne_exclusive_less', exl, 'every element of the left precedes every element of the right', ne=True)
pred2('exclusive_less_than (container comparator)', 'I02', 'u_comparator', exl, 'every element of the left precedes every element of the right', ne=True)
pred2('lower_less', 'I02', 'u_lower_less', lambda f, a, b: f.clt(a.low, b.low), 'compares where the intervals begin', ne=True)
pred2('lower_equal', 'I02', 'u_lower_equal', lambda f, a, b: f.ceq(a.low, b.low), 'compares where the intervals begin', ne=True)
pred2('lower_less_equal', 'I02', 'u_lower_less_equal', lambda f, a, b: f.cle(a.low, b.low), 'compares where the intervals begin', ne=True)
pred2('upper_less', 'I02', 'u_upper_less', lambda f, a, b: f.clt(a.up, b.up), 'compares where the intervals end', ne=True)
pred2('upper_equal', 'I02', 'u_upper_equal', lambda f, a, b: f.ceq(a.up, b.up), 'compares where the intervals end', ne=True)
pred2('upper_less_equal', 'I02', 'u_upper_less_equal', lambda f, a, b: f.cle(a.up, b.up), 'compares where the intervals end', ne=True)
pred2('touches', 'I02', 'u_touches', lambda f, a, b: f.ceq(a.up, b.low), 'no element lies between the end of the left and the begin of the right', ne=True)
cont = lambda f, a, b: Or(b.empty(), And(f.cle(a.low, b.low), f.cle(b.up, a.up)))
pred2('contains(interval)', 'I02', 'u_contains_i', cont, 'every element of the right is in the left')
pred2('within', 'I02', 'u_within', lambda f, a, b: cont(f, b, a), 'every element of the left is in the right')
inter = lambda f, a, b: And(a.nonempty(), b.nonempty(), f.clt(a.low, b.up), f.clt(b.low, a.up))
pred2('intersects', 'I02', 'u_intersects', inter, 'some element is in both')
pred2('disjoint', 'I02', 'u_disjoint', lambda f, a, b: Not(inter(f, a, b)), 'no element is in both')

# ---------------------------------------------------------------- algebra (P: I03)
def op2(name, wrapper, spec, what, ne=False):
    @unit(name, 'I03')
    def _(c):
        r = c.out(); a, pa = c.ival('a', nonempty=ne); b, pb = c.ival('b', nonempty=ne)
        for st, _ in c.run(wrapper, [r, pa, pb]):
            v = c.read_ival(st, r); f = c.fam
            c.ex.prove(st, spec(f, v, a, b), what)
            for x, p, n in ((a, pa, 'left'), (b, pb, 'right')):
                y = c.read_ival(st, p); c.ex.prove(st, And(Eq(x.rawlo, y.rawlo), Eq(x.rawhi, y.rawhi)), n + ' operand unchanged')
op2('operator &', 'u_and', lambda f, v, a, b: Ite(Or(a.empty(), b.empty()), v.empty(), v.is_cuts(f.cmax(a.low, b.low), f.cmin(a.up, b.up))), 'exactly the common elements')
op2('hull', 'u_hull', lambda f, v, a, b: Ite(a.empty(), v.same(b), Ite(b.empty(), v.same(a), v.is_cuts(f.cmin(a.low, b.low), f.cmax(a.up, b.up)))), 'smallest interval containing both')
op2('left_subtract', 'u_left_subtract', lambda f, v, a, b: Ite(Or(a.empty(), b.empty()), v.same(a), v.is_cuts(f.cmax(a.low, b.up), a.up)), 'exactly the elements of the first lying behind the second')
op2('right_subtract', 'u_right_subtract', lambda f, v, a, b: Ite(Or(a.empty(), b.empty()), v.same(a), v.is_cuts(a.low, f.cmin(a.up, b.low))), 'exactly the elements of the first lying before the second')
def gap(f, v, a, b):
    return Ite(Or(a.empty(), b.empty()), v.empty(), Ite(f.cle(a.up, b.low), v.is_cuts(a.up, b.low), Ite(f.cle(b.up, a.low), v.is_cuts(b.up, a.low), v.empty())))
op2('inner_complement', 'u_inner_complement', gap, 'exactly the elements strictly between the two')
op2('between', 'u_between', gap, 'exactly the elements strictly between the two')
@unit('distance', 'I04')
def _(c):
    f = c.fam; r = c.out(); a, pa = c.ival('a'); b, pb = c.ival('b')
    if not f.cont and not f.uns:
        w = 8*f.vs
        for x, y in ((a, b), (b, a)): c.st.assume(Lt(Sub(y.low, x.up), Int((1 << (w-1))-1)))
    for st, _ in c.run('u_distance', [r, pa, pb]):
        if f.cont:
            d = Ite(Or(a.empty(), b.empty()), Real(0), Ite(f.clt(a.up, b.low), Sub(b.lo, a.hi), Ite(f.clt(b.up, a.low), Sub(a.lo, b.hi), Real(0))))
            c.ex.prove(st, Eq(c.read_cell(st, r, 8), d), 'length of the gap between the intervals')
        else:
            raw = c.read_cell(st, r, 4 if f.et == 'short' else f.vs); n = unsigned(raw, 32) if f.uns else raw
            d = Ite(Or(a.empty(), b.empty()), Int(0), Ite(f.clt(a.up, b.low), Sub(b.low, a.up), Ite(f.clt(b.up, a.low), Sub(a.low, b.up), Int(0))))
            c.ex.prove(st, Eq(n, d), 'number of elements in the gap between the intervals')
