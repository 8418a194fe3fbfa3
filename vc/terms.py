"""Hash-consed terms with light simplification.  Sorts: I (int), R (real), B (bool), N (tree node)."""
from fractions import Fraction
class T:
    __slots__ = ('op','args','sort','id','z','subn')
    def __repr__(self): return show(self)
_tab = {}
_n = [0]
def mk(op, args, sort):
    k = (op, tuple(a.id if isinstance(a, T) else a for a in args), sort)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort; t.id = _n[0]; _n[0] += 1; t.z = None; t.subn = None
        _tab[k] = t
    return t
TRUE = mk('true', (), 'B'); FALSE = mk('false', (), 'B')
def B(b): return TRUE if b else FALSE
def Var(name, sort): return mk('var', (name,), sort)
def App(f, sort, *args): return mk('app', (f,) + tuple(args), sort)
_fresh = {}
def fresh(name, sort):
    k = _fresh.get(name, 0); _fresh[name] = k+1
    return Var('%s!%d' % (name, k), sort)
def uid(name):
    k = _fresh.get(name, 0); _fresh[name] = k+1
    return '%s!%d' % (name, k)
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le0' and a.args[0].sort == 'I':      # not (t<=0)  ==  1-t<=0
        return le0(Sub(Int(1), a.args[0]))
    return mk('not', (a,), 'B')
def And(*xs):
    out = []; seen = set()
    for x in xs:
        if x is TRUE: continue
        if x is FALSE: return FALSE
        for y in (x.args if x.op == 'and' else (x,)):
            if y.id not in seen: seen.add(y.id); out.append(y)
    for y in out:
        if Not(y).id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'B')
def Or(*xs):
    out = []; seen = set()
    for x in xs:
        if x is FALSE: continue
        if x is TRUE: return TRUE
        for y in (x.args if x.op == 'or' else (x,)):
            if y.id not in seen: seen.add(y.id); out.append(y)
    for y in out:
        if Not(y).id in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), 'B')
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return Not(b)
    if b is FALSE: return Not(a)
    return mk('iff', (a, b), 'B')
def Xor(a, b): return Not(Iff(a, b))
def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
        if b is FALSE: return And(c, a)
    if c.op == 'not': return Ite(c.args[0], b, a)
    return mk('ite', (c, a, b), a.sort)
# ---- linear arithmetic
def _const(v, sort):
    return mk('const', (v,), sort)
def Int(v): return _const(int(v), 'I')
def Real(v): return _const(Fraction(v), 'R')
def _lin(t):
    if t.op == 'const': return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict(zip(t.args[2], t.args[1]))
    return 0, {t: 1}
def _unlin(c, d, sort):
    items = sorted(((t, k) for t, k in d.items() if k != 0), key=lambda p: p[0].id)
    if not items: return _const(c if sort == 'R' else int(c), sort)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return mklin(c, items, sort)
def mklin(c, items, sort):
    k = ('lin', c, tuple((t.id, k) for t, k in items), sort)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = 'lin'; t.args = (c, tuple(k for _, k in items), tuple(t for t, _ in items)); t.sort = sort
        t.id = _n[0]; _n[0] += 1; t.z = None; t.subn = None; _tab[k] = t
    return t
def Lin(a, k, b, sort):
    c1, d1 = _lin(a); c2, d2 = _lin(b)
    for t, v in d2.items(): d1[t] = d1.get(t, 0) + k*v
    return _unlin(c1 + k*c2, d1, sort)
def Add(a, b): return Lin(a, 1, b, a.sort)
def Sub(a, b): return Lin(a, -1, b, a.sort)
def Scale(k, a):
    c, d = _lin(a); return _unlin(k*c, {t: k*v for t, v in d.items()}, a.sort)
def Neg(a): return Scale(-1, a)
def isconst(t): return t.op == 'const'
def le0(t):
    if t.op == 'const': return B(t.args[0] <= 0)
    if t.sort == 'I' and t.op == 'lin':
        from math import gcd
        g = 0
        for k in t.args[1]: g = gcd(g, abs(k))
        if g > 1:
            t = _unlin(-((-t.args[0])//g), {x: k//g for x, k in zip(t.args[2], t.args[1])}, 'I')
    return mk('le0', (t,), 'B')
def lt0(t):
    if t.sort == 'I': return le0(Add(t, Int(1)))
    if t.op == 'const': return B(t.args[0] < 0)
    return Not(mk('le0', (Neg(t),), 'B'))
def Le(a, b): return le0(Sub(a, b))
def Lt(a, b): return lt0(Sub(a, b))
def Ge(a, b): return Le(b, a)
def Gt(a, b): return Lt(b, a)
def Eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B': return Iff(a, b)
    if a.sort in 'IR':
        d = Sub(a, b)
        if d.op == 'const': return B(d.args[0] == 0)
        # push through ite with constants
        if d.op == 'lin' and d.args[1][0] < 0: d = Neg(d)
        return mk('eq0', (d,), 'B')
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')
def show(t, depth=6):
    if depth == 0: return '..'
    s = lambda x: show(x, depth-1)
    if t.op == 'var': return t.args[0]
    if t.op == 'const': return str(t.args[0])
    if t.op in ('true', 'false'): return t.op
    if t.op == 'app': return '%s(%s)' % (t.args[0], ','.join(map(s, t.args[1:])))
    if t.op == 'lin': return '(' + '+'.join('%s*%s' % (k, s(x)) for k, x in zip(t.args[1], t.args[2])) + '+%s)' % t.args[0]
    return '%s(%s)' % (t.op, ','.join(s(x) if isinstance(x, T) else str(x) for x in t.args))
def kids(t):
    if t.op in ('var', 'const', 'true', 'false'): return ()
    if t.op == 'app': return t.args[1:]
    if t.op == 'lin': return t.args[2]
    return t.args
_seen_cache = {}
def collect(roots, seen, nodes, apps):
    """Collect ground subterms of sort N into nodes and choice apps into apps."""
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.sort == 'N' and t.op != 'ite': nodes.append(t)
        if t.op == 'app': apps.append(t)
        st.extend(kids(t))
