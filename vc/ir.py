"""Parser for textual LLVM 18 IR (as written by clang -O0 -S -emit-llvm).

Function bodies are parsed lazily.  Nothing of a function body is dropped except
attributes, alignment and metadata; an instruction that is not understood is kept
as ('unsupported', text) and stops the proof that reaches it."""
import re, subprocess

TOK = re.compile(r'''\s*(?:
   (?P<id>[%@](?:"[^"]*"|[-\w.$]+))
 | (?P<str>c?"[^"]*")
 | (?P<meta>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+(?:\.\d+(?:e[+-]?\d+)?)?))
 | (?P<word>[A-Za-z_$][\w.$]*)
 | (?P<ell>\.\.\.)
 | (?P<p>[{}<>\[\](),=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise ValueError('tok: ' + s[i:i+60])
        i = m.end()
        out.append(m.group(m.lastgroup))
    return out

ATTRS = {'noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','readnone','writeonly',
 'inreg','returned','nofree','immarg','nest','swiftself','noreturn','nounwind','tail','musttail','notail','fastcc','ccc','nneg',
 'inbounds','nuw','nsw','exact','disjoint','dead_on_unwind','writable','range'}
ATTRP = {'dereferenceable','dereferenceable_or_null','byval','sret','memory','captures','inalloca','elementtype','nofpclass','preallocated','allocsize','align_'}

class TypeTable:
    def __init__(self): self.named = {}; self.cache = {}
    def parse(self, toks, i):
        t = toks[i]
        if t == '{' or (t == '<' and toks[i+1] == '{'):
            packed = t == '<'
            i += 2 if packed else 1
            el = []
            while toks[i] != '}':
                e, i = self.parse(toks, i); el.append(e)
                if toks[i] == ',': i += 1
            i += 2 if packed else 1
            return ('struct', tuple(el), packed), i
        if t == '[':
            n = int(toks[i+1]); e, j = self.parse(toks, i+3)
            return ('array', n, e), j+1
        if t == '<':
            n = int(toks[i+1]); e, j = self.parse(toks, i+3)
            return ('vector', n, e), j+1
        if t[0] == '%': return ('named', t), i+1
        if re.fullmatch(r'i\d+', t): return ('int', int(t[1:])), i+1
        if t == 'ptr':
            i += 1
            return ('ptr',), i
        if t in ('float', 'double', 'x86_fp80', 'half', 'fp128'): return (t,), i+1
        if t in ('void', 'label', 'metadata', 'token', 'opaque'): return (t,), i+1
        raise ValueError('type? %r %r' % (t, toks[i:i+6]))
    def resolve(self, t):
        while t[0] == 'named': t = self.named[t[1]]
        return t
    def align(self, t):
        t = self.resolve(t); k = t[0]
        if k == 'int': 
            b = (t[1]+7)//8; a = 1
            while a < b: a *= 2
            return min(a, 16)
        if k in ('ptr', 'double'): return 8
        if k == 'float': return 4
        if k in ('x86_fp80','fp128'): return 16
        if k == 'array': return self.align(t[2])
        if k == 'struct': return 1 if t[2] else max([self.align(e) for e in t[1]] or [1])
        if k == 'vector': return self.size(t)
        raise ValueError(t)
    def layout(self, t):
        t = self.resolve(t)
        c = self.cache.get(t)
        if c: return c
        off = 0; offs = []
        for e in t[1]:
            if not t[2]:
                a = self.align(e); off = (off + a - 1)//a*a
            offs.append(off); off += self.size(e)
        if not t[2]:
            a = self.align(t); off = (off + a - 1)//a*a
        self.cache[t] = (offs, off)
        return offs, off
    def size(self, t):
        t = self.resolve(t); k = t[0]
        if k == 'int':
            b = (t[1]+7)//8; a = self.align(t); return (b+a-1)//a*a
        if k in ('ptr', 'double'): return 8
        if k == 'float': return 4
        if k in ('x86_fp80','fp128'): return 16
        if k == 'array': return t[1]*self.size(t[2])
        if k == 'vector': return t[1]*self.size(t[2])
        if k == 'struct': return self.layout(t)[1]
        raise ValueError(t)

class Param:
    __slots__ = ('ty','name','byval','sret','zext')
class Func:
    def __init__(self, mod, name, header, body):
        self.mod = mod; self.name = name; self.header = header; self.body = body
        self._parsed = None
    @property
    def demangled(self): return self.mod.demangle(self.name)
    def parse(self):
        if self._parsed is None:
            self.mod.parse_func(self); self._parsed = True
        return self

class Module:
    def __init__(self, path):
        self.types = TypeTable(); self.funcs = {}; self.decls = set(); self.globals = {}
        self._dem = None
        txt = open(path).read()
        lines = txt.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i+1
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                nm = m.group(1).strip('"')
                self.funcs[nm] = Func(self, nm, l, lines[i+1:j])
                i = j
            elif l.startswith('%') and ' = type ' in l:
                nm, ty = l.split(' = type ', 1)
                tk = tokenize(ty)
                if tk == ['opaque']: self.types.named[nm.strip()] = ('struct', (), False)
                else: self.types.named[nm.strip()] = self.types.parse(tk, 0)[0]
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l); self.decls.add(m.group(1).strip('"'))
            elif l.startswith('@') and ' = ' in l:
                nm = l.split(' = ', 1)[0][1:].strip('"'); self.globals[nm] = l
                ma = re.match(r'@\S+ = .*\balias\b.*@("[^"]*"|[-\w.$]+)\s*$', l)
                if ma: self.globals[nm] = ('alias', ma.group(1).strip('"'))
            i += 1
    def demangle(self, name):
        if self._dem is None:
            names = list(self.funcs) + list(self.decls)
            r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names)+'\n', capture_output=True, text=True)
            self._dem = dict(zip(names, r.stdout.split('\n')))
        return self._dem.get(name, name)
    # ------------------------------------------------------------------
    def skip_attrs(self, tk, i, info=None):
        while i < len(tk):
            t = tk[i]
            if t in ATTRS: i += 1
            elif t == 'align' :
                i += 1
                if tk[i] == '(': i += 3
                else: i += 1
            elif t in ATTRP and tk[i+1] == '(':
                if t in ('byval', 'sret') and info is not None:
                    info[t] = self.types.parse(tk, i+2)[0]
                d = 0; i += 1
                while True:
                    if tk[i] == '(': d += 1
                    if tk[i] == ')':
                        d -= 1
                        if d == 0: break
                    i += 1
                i += 1
            else: break
        return i
    def operand(self, tk, i, ty):
        t = tk[i]
        if t[0] == '%': return ('reg', t[1:].strip('"')), i+1
        if t[0] == '@': return ('glob', t[1:].strip('"')), i+1
        if t == 'true': return ('int', 1), i+1
        if t == 'false': return ('int', 0), i+1
        if t == 'null': return ('null',), i+1
        if t in ('undef', 'poison'): return ('undef', ty), i+1
        if t == 'zeroinitializer': return ('zero', ty), i+1
        if t == 'getelementptr':
            i += 1
            while tk[i] != '(': i += 1
            bt, i = self.types.parse(tk, i+1); i += 1
            ops = []
            while True:
                ot, i = self.types.parse(tk, i); o, i = self.operand(tk, i, ot); ops.append((ot, o))
                if tk[i] == ',': i += 1
                else: break
            return ('cgep', bt, ops), i+1
        if t in ('{', '[', '<'):
            # aggregate constant
            close = {'{': '}', '[': ']', '<': '>'}[t]; i += 1
            if t == '<' and tk[i] == '{': i += 1; close = '}>'
            els = []
            while tk[i] != close[0]:
                et, i = self.types.parse(tk, i); o, i = self.operand(tk, i, et); els.append((et, o))
                if tk[i] == ',': i += 1
            return ('agg', els), i+len(close)
        if re.fullmatch(r'-?\d+', t):
            return (('int', int(t)) if ty[0] == 'int' else ('fp', float(t))), i+1
        if ty[0] in ('double', 'float'):
            if t.startswith('0x'):
                import struct
                return ('fp', struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]), i+1
            return ('fp', float(t)), i+1
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sub', 'add'):
            return ('unsupported', t), len(tk)
        return ('unsupported', ' '.join(tk[i:i+4])), len(tk)
    def tyop(self, tk, i):
        ty, i = self.types.parse(tk, i); i = self.skip_attrs(tk, i)
        o, i = self.operand(tk, i, ty)
        return ty, o, i
    def parse_func(self, f):
        h = f.header
        tk = tokenize(h.split(' comdat')[0] if False else h)
        k = next(j for j, t in enumerate(tk) if t[0] == '@')
        # return type: scan back
        j = 1
        words = {'dso_local','linkonce_odr','internal','weak_odr','hidden','external','available_externally','private','unnamed_addr','local_unnamed_addr','weak','protected'}
        while tk[j] in words or tk[j] in ATTRS or tk[j] in ('align',) or tk[j] in ATTRP:
            if tk[j] in words: j += 1
            else: j = self.skip_attrs(tk, j)
        f.ret, _ = self.types.parse(tk, j)
        i = k+2; f.params = []; f.varargs = False
        while tk[i] != ')':
            if tk[i] == '...': f.varargs = True; i += 1; continue
            p = Param(); info = {}
            p.ty, i = self.types.parse(tk, i); i = self.skip_attrs(tk, i, info)
            p.byval = info.get('byval'); p.sret = info.get('sret')
            if tk[i][0] == '%': p.name = tk[i][1:].strip('"'); i += 1
            else: p.name = str(len(f.params))
            f.params.append(p)
            if tk[i] == ',': i += 1
        f.blocks = {}; f.order = []
        cur = None; pend = ''
        first = True
        for l in f.body:
            l0 = l.split(' ; ')[0] if not l.startswith('  ') else l
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m and not l.startswith(' '):
                cur = m.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur); continue
            s = l.strip()
            if not s: continue
            if cur is None:
                cur = 'entry%0'; f.blocks[cur] = []; f.order.append(cur)
            # multi-line instrs (switch, invoke, landingpad)
            if pend: s = pend + ' ' + s; pend = ''
            if s.startswith('switch') and ']' not in s: pend = s; continue
            if re.search(r'(^|= )invoke ', s) and ' unwind label ' not in s: pend = s; continue
            f.blocks[cur].append(s)
        f.iblocks = {}
        return f
    def instrs(self, f, b):
        r = f.iblocks.get(b)
        if r is None:
            r = []
            for s in f.blocks[b]:
                try: r.append(self.instr(s))
                except Exception as e: r.append((None, 'unsupported', s + ' :: ' + repr(e)))
            f.iblocks[b] = r
        return r
    def instr(self, s):
        s = re.sub(r', !\w+.*$', '', s)
        s = re.sub(r'\s;.*$', '', s)
        tk = tokenize(s); i = 0; dst = None
        if len(tk) > 1 and tk[1] == '=':
            dst = tk[0][1:].strip('"'); i = 2
        op = tk[i]; i += 1
        T = self.types
        if op in ('tail', 'musttail', 'notail'): op = tk[i]; i += 1
        if op == 'alloca':
            ty, i = T.parse(tk, i)
            cnt = None
            if i < len(tk) and tk[i] == ',' and tk[i+1] != 'align':
                cty, cnt, i = self.tyop(tk, i+1)
            return (dst, 'alloca', ty, cnt)
        if op == 'load':
            if tk[i] in ('volatile', 'atomic'): i += 1
            ty, i = T.parse(tk, i); pt, p, i = self.tyop(tk, i+1)
            return (dst, 'load', ty, p)
        if op == 'store':
            if tk[i] in ('volatile', 'atomic'): i += 1
            ty, v, i = self.tyop(tk, i); pt, p, i = self.tyop(tk, i+1)
            return (None, 'store', ty, v, p)
        if op == 'getelementptr':
            i = self.skip_attrs(tk, i)
            bt, i = T.parse(tk, i); pt, p, i = self.tyop(tk, i+1)
            idx = []
            while i < len(tk) and tk[i] == ',':
                ity, o, i = self.tyop(tk, i+1); idx.append((ity, o))
            return (dst, 'gep', bt, p, idx)
        if op in ('call', 'invoke'):
            while True:
                j = self.skip_attrs(tk, i)
                if j == i: break
                i = j
            while tk[i] in ('fast','nnan','ninf','nsz','contract','reassoc','afn','arcp','coldcc'): i += 1
            rt, i = T.parse(tk, i)
            if tk[i] == '(':   # function type
                d = 0
                while True:
                    if tk[i] == '(': d += 1
                    if tk[i] == ')':
                        d -= 1
                        if d == 0: break
                    i += 1
                i += 1
            callee, i = self.operand(tk, i, ('ptr',))
            assert tk[i] == '('; i += 1
            args = []
            while tk[i] != ')':
                info = {}
                ty, i = T.parse(tk, i)
                if ty[0] == 'metadata':
                    while tk[i] not in (',', ')'): i += 1
                    args.append((ty, ('undef', ty), info))
                else:
                    i = self.skip_attrs(tk, i, info)
                    o, i = self.operand(tk, i, ty); args.append((ty, o, info))
                if tk[i] == ',': i += 1
            i += 1
            nxt = unw = None
            if op == 'invoke':
                j = tk.index('to', i); nxt = tk[j+2][1:].strip('"'); unw = tk[j+5][1:].strip('"')
            return (dst, 'call', rt, callee, args, nxt, unw)
        if op == 'br':
            if tk[i] == 'label': return (None, 'jmp', tk[i+1][1:].strip('"'))
            ty, c, i = self.tyop(tk, i)
            return (None, 'br', c, tk[i+2][1:].strip('"'), tk[i+5][1:].strip('"'))
        if op == 'ret':
            if tk[i] == 'void': return (None, 'ret', None, None)
            ty, v, i = self.tyop(tk, i); return (None, 'ret', ty, v)
        if op == 'icmp' or op == 'fcmp':
            while tk[i] in ('fast','nnan','ninf','nsz','contract','reassoc','afn','arcp','samesign'): i += 1
            pred = tk[i]; ty, a, i = self.tyop(tk, i+1)
            b, i = self.operand(tk, i+1, ty)
            return (dst, op, pred, ty, a, b)
        if op in ('add','sub','mul','sdiv','udiv','srem','urem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv'):
            fl = set()
            while tk[i] in ('nsw','nuw','exact','disjoint','fast','nnan','ninf','nsz','contract','reassoc','afn','arcp'): fl.add(tk[i]); i += 1
            ty, a, i = self.tyop(tk, i); b, i = self.operand(tk, i+1, ty)
            return (dst, 'bin', op, fl, ty, a, b)
        if op == 'fneg':
            ty, a, i = self.tyop(tk, i); return (dst, 'bin', 'fsub', set(), ty, ('fp', 0.0), a)
        if op in ('zext','sext','trunc','ptrtoint','inttoptr','bitcast','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc','addrspacecast'):
            if tk[i] == 'nneg': i += 1
            ty, a, i = self.tyop(tk, i); to, i = T.parse(tk, i+1)
            return (dst, 'cast', op, ty, a, to)
        if op == 'phi':
            ty, i = T.parse(tk, i); inc = []
            while i < len(tk) and tk[i] in ('[', ','):
                if tk[i] == ',': i += 1
                o, i = self.operand(tk, i+1, ty); lab = tk[i+1][1:].strip('"'); i += 3
                inc.append((o, lab))
            return (dst, 'phi', ty, inc)
        if op == 'select':
            cty, c, i = self.tyop(tk, i); ty, a, i = self.tyop(tk, i+1); ty2, b, i = self.tyop(tk, i+1)
            return (dst, 'select', c, ty, a, b)
        if op == 'extractvalue':
            ty, a, i = self.tyop(tk, i); idx = []
            while i < len(tk) and tk[i] == ',': idx.append(int(tk[i+1])); i += 2
            return (dst, 'extractvalue', ty, a, idx)
        if op == 'insertvalue':
            ty, a, i = self.tyop(tk, i); t2, v, i = self.tyop(tk, i+1); idx = []
            while i < len(tk) and tk[i] == ',': idx.append(int(tk[i+1])); i += 2
            return (dst, 'insertvalue', ty, a, t2, v, idx)
        if op == 'unreachable': return (None, 'unreachable')
        if op == 'switch':
            ty, v, i = self.tyop(tk, i); dflt = tk[i+2][1:].strip('"'); i += 4; cases = []
            while tk[i] != ']':
                cty, c, i = self.tyop(tk, i); cases.append((c, tk[i+2][1:].strip('"'))); i += 3
            return (None, 'switch', ty, v, dflt, cases)
        return (dst, 'unsupported', s)

# ---------------------------------------------------------------- demangled names
def split_demangled(d):
    """-> (qualified base name without template args, parameter string, const?)"""
    # strip template args while respecting 'operator<' etc.
    out = []; depth = 0; i = 0; n = len(d)
    par = 0
    pieces = []   # (char, depth)
    while i < n:
        if d.startswith('operator', i) and (i == 0 or not (d[i-1].isalnum() or d[i-1] == '_')):
            m = re.match(r'operator(<=>|<<=|>>=|->\*|\(\)|\[\]|<<|>>|<=|>=|==|!=|\+=|-=|\*=|/=|&=|\|=|\^=|\+\+|--|->|&&|\|\||[-+*/%^&|~!=<>,]| \w[\w: ]*)', d[i:])
            if m:
                tok = m.group(0)
                # "operator<" followed by template args "< <"
                if depth == 0: out.append((tok, par))
                i += len(tok); continue
        c = d[i]
        if c == '<': depth += 1
        elif c == '>' : depth -= 1
        elif depth == 0:
            out.append((c, par))
        i += 1
    return ''.join(c for c, _ in out)

def base_name(d):
    """Qualified name of a demangled function, without template arguments, return type or parameters."""
    s = split_demangled(d)
    s = s.replace('(anonymous namespace)', '{anon}')
    s = re.sub(r'\[abi:\w+\]', '', s)
    # parameter list = first '(' at depth 0 that is not operator()
    s2 = s.replace('operator()', 'operator\x01')
    k = s2.find('(')
    if k >= 0: s2 = s2[:k]
    s2 = s2.strip()
    # drop return type: last space-separated token, except "operator X"
    m = re.search(r'(\S*operator(?:\s\w[\w: ]*|\S*)?)$', s2)
    if m: s2 = m.group(1)
    else: s2 = s2.split(' ')[-1]
    return s2.replace('\x01', '()')

def params_of(d):
    """list of top-level parameter type strings"""
    # find matching '(' of the parameter list: the last top-level (...) group
    depth = 0; end = d.rfind(')')
    if end < 0: return []
    i = end; par = 0
    while i >= 0:
        if d[i] == ')': par += 1
        elif d[i] == '(':
            par -= 1
            if par == 0: break
        i -= 1
    inner = d[i+1:end]
    out = []; depth = 0; cur = ''
    for c in inner:
        if c in '<([': depth += 1
        if c in '>)]': depth -= 1
        if c == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
