"""Specification vocabulary for Boost.ICL: interval families, cuts, interval views."""
from terms import *
from solve import *
from sym import *

class Fam:
    """One interval type.  k: 'ro','lo','cl','op' (static bounds) or 'dyn'; et: 'int','unsigned','double','short';
    neg: ordered by std::greater."""
    def __init__(self, name, ctype, k, et='int', neg=False, extra=(), factory=None, singleton=True):
        self.name = name; self.ctype = ctype; self.k = k; self.et = et; self.neg = neg
        self.cont = et in ('double', 'float')
        self.esort = 'R' if self.cont else 'I'
        self.vs = {'int': 4, 'unsigned': 4, 'double': 8, 'short': 2, 'uchar': 1, 'schar': 1, 'long': 8}[et]
        self.uns = et in ('unsigned', 'uchar')
        self.dyn = k == 'dyn'
        self.isize = 2*self.vs + (self.vs if self.dyn else 0)
        self.cpp_e = {'uchar': 'unsigned char', 'schar': 'signed char'}.get(et, et)
        self.extra = tuple(extra); self.factory = factory
        self.static_lc = k in ('ro', 'cl'); self.static_rc = k in ('lo', 'cl')
        self.slack = 2
    # raw cells of an interval object
    def icells(self):
        c = [(0, self.vs, 'd' if self.cont else 'i'), (self.vs, self.vs, 'd' if self.cont else 'i')]
        if self.dyn: c.append((2*self.vs, 1, 'b'))
        return c
    # ---- element values: cell content -> point on the (possibly reversed) number line
    def key(self, v):
        if not isinstance(v, T): v = as_int(v)
        if self.cont: return Neg(v) if self.neg else v
        if self.uns: v = unsigned(v, 8*self.vs)
        return Neg(v) if self.neg else v
    def limits(self):
        w = 8*self.vs
        lo, hi = (0, (1 << w)-1) if self.uns else (-(1 << (w-1)), (1 << (w-1))-1)
        return (-hi, -lo) if self.neg else (lo, hi)
    def rng(self, v, slack=None):
        """v: cell value.  Representable and `slack` steps away from the numeric limits."""
        if self.cont: return TRUE
        s = self.slack if slack is None else slack
        lo, hi = self.limits(); k = self.key(v)
        return And(in_range(v, 8*self.vs), Le(Int(lo+s), k), Le(k, Int(hi-s)))
    # ---- atoms: discrete: elements; continuous: places in the order (a nonempty interval of cuts contains an element)
    def atom(self, c): return mk('atom', c, 'E') if self.cont else c
    def cut(self, z): return z.args if self.cont else z
    def fresh_atom(self): return self.atom((fresh('ske', 'R'), fresh('skf', 'B'))) if self.cont else fresh('ske', 'I')
    def elem_atom(self, x): return self.atom((x, FALSE)) if self.cont else x
    def zargs(self, z): return z.args if self.cont else (z,)
    def fresh_cell(self, name): return fresh(name, self.esort)
    # ---- cuts
    def clt(self, a, b):
        if not self.cont: return Lt(a, b)
        return Or(Lt(a[0], b[0]), And(Eq(a[0], b[0]), Not(a[1]), b[1]))
    def cle(self, a, b): return Not(self.clt(b, a))
    def ceq(self, a, b):
        if not self.cont: return Eq(a, b)
        return And(Eq(a[0], b[0]), Iff(a[1], b[1]))
    def cite(self, c, a, b):
        if not self.cont: return Ite(c, a, b)
        return (Ite(c, a[0], b[0]), Ite(c, a[1], b[1]))
    def cmin(self, a, b): return self.cite(self.clt(b, a), b, a)
    def cmax(self, a, b): return self.cite(self.clt(a, b), b, a)
    def below(self, x): return x if not self.cont else (x, FALSE)          # cut just below element x
    def above(self, x): return Add(x, Int(1)) if not self.cont else (x, TRUE)
    def view(self, cells, base=0):
        return Ival(self, cells[base], cells[base+self.vs], cells.get(base+2*self.vs) if self.dyn else None)
    def exl(self, kc1, kc2):
        """the container's key comparison on raw cells"""
        return self.cle(self.view(kc1).up, self.view(kc2).low)

class Ival:
    def __init__(self, fam, lo, hi, b):
        self.fam = fam; self.rawlo = lo; self.rawhi = hi
        self.lo = fam.key(lo); self.hi = fam.key(hi)
        if fam.dyn:
            b = to_bits(b, 8); self.b = b; self.lc = b.b[1]; self.rc = b.b[0]
        else: self.lc = B(fam.static_lc); self.rc = B(fam.static_rc)
        if fam.cont:
            self.low = (self.lo, Not(self.lc)); self.up = (self.hi, self.rc)
        else:
            self.low = Ite(self.lc, self.lo, Add(self.lo, Int(1)))
            self.up = Ite(self.rc, Add(self.hi, Int(1)), self.hi)
    def empty(self): return self.fam.cle(self.up, self.low)
    def nonempty(self): return Not(self.empty())
    def has(self, x):
        f = self.fam
        return And(f.cle(self.low, f.below(x)), f.cle(f.above(x), self.up))
    def at(self, z):
        """contains atom z (the elements right behind cut z); discrete: the element z"""
        f = self.fam; z = f.cut(z)
        return And(f.cle(self.low, z), f.clt(z, self.up))
    def rng(self, slack=None):
        f = self.fam
        r = And(f.rng(self.rawlo, slack), f.rng(self.rawhi, slack))
        if f.dyn: r = And(r, *[Not(x) for x in self.b.b[2:]])
        return r
    def is_cuts(self, low, up):
        """denotes the same element set as the cut pair (low, up)"""
        f = self.fam
        return Or(And(self.empty(), f.cle(up, low)), And(f.ceq(self.low, low), f.ceq(self.up, up)))
    def same(self, o): return self.is_cuts(o.low, o.up)
    def cells(self):
        f = self.fam; c = {0: self.rawlo, f.vs: self.rawhi}
        if f.dyn: c[2*f.vs] = self.b
        return c
    def chunk(self):
        f = self.fam; c = {0: (f.vs, self.rawlo), f.vs: (f.vs, self.rawhi)}
        if f.dyn: c[2*f.vs] = (1, self.b)
        return Chunk(c, f.isize)
def fresh_ival(fam, name):
    b = Bits([fresh(name+'_rc', 'B'), fresh(name+'_lc', 'B')] + [FALSE]*6) if fam.dyn else None
    return Ival(fam, fam.fresh_cell(name+'_lo'), fam.fresh_cell(name+'_hi'), b)

# ------------------------------------------------------------------ proof units
class Unit:
    """One proof obligation group: run a public function on symbolic arguments and prove its contract."""
    def __init__(self, name, prop, fn, what=''):
        self.name = name; self.prop = prop; self.fn = fn; self.what = what

class Ctx:
    """Everything a unit needs: executor, state, argument construction, postcondition helpers."""
    def __init__(self, ex, fam):
        self.ex = ex; self.fam = fam; self.st = State()
    def region(self, chunk=None):
        rid = self.ex.new_region(self.st, 'in'); p = P(rid, 0)
        if chunk is not None: self.ex.store_bytes(self.st, p, chunk)
        return p
    def ival(self, name, slack=None, nonempty=False):
        v = fresh_ival(self.fam, name); self.st.assume(v.rng(slack))
        if nonempty: self.st.assume(v.nonempty())
        return v, self.region(v.chunk())
    def elem(self, name, slack=None):
        f = self.fam; v = f.fresh_cell(name); self.st.assume(f.rng(v, slack))
        return f.key(v), self.region(Chunk({0: (f.vs, v)}, f.vs)), v
    def out(self): return self.region()
    def run(self, wrapper, args):
        if wrapper not in self.ex.mod.funcs: raise Unsupported('no wrapper ' + wrapper)
        self.ex.top = wrapper
        if not self.ex.feasible(self.st): raise Unsupported('precondition unsatisfiable')
        outs = self.ex.call_function(self.st, wrapper, args)
        self.outs = outs
        return outs
    def read_ival(self, st, p):
        f = self.fam; cells = {}
        for o, s, k in f.icells():
            ch = self.ex.load_bytes(st, p.__class__(p.node, p.cid, p.off+o) if hasattr(p, 'node') else P(p.rid, p.off+o), s)
            if 0 not in ch.cells: raise Unsupported('uninitialised result')
            cells[o] = ch.cells[0][1]
        return f.view(cells)
    def read_cell(self, st, p, size):
        ch = self.ex.load_bytes(st, p, size)
        if 0 not in ch.cells: raise Unsupported('uninitialised result')
        return ch.cells[0][1]
