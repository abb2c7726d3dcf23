"""Elementwise value analysis of the matrix wrappers.

A matrix value is a pair of dimensions (terms) and a function from a pair of
zero-based index terms to the element's term; operations of the matrix library
are functions on such values.  Counted loops that store elements become
element functions by solving the index expressions for the loop variables,
counted loops that accumulate become sums and products.  Branches are split
into paths, each with its conditions.  Nothing is executed: all dimensions,
indices and elements stay symbolic."""
from .terms import *
from . import terms as T
from .program import strip_targs, base_type, short, tcode

class Und(Exception): pass
WR = {'Matrix': 'M', 'SymmetricMatrix': 'Y', 'ColumnVector': 'V', 'RowVector': 'R'}

class Val:
    """a matrix value: dim 1 or 2, dimensions, element function"""
    def __init__(s, dim, rows, cols, el, orient=None, atom=None, sym=False, lu=None, view=None):
        s.dim, s.rows, s.cols, s.el, s.orient, s.atom, s.sym, s.lu, s.view = dim, rows, cols, el, orient, atom, sym, lu, view
    @property
    def n(s): return s.cols if s.orient == 'R' else s.rows
    def at(s, i, j=None):
        if s.dim == 1: return s.el(i)
        return s.el(i, j)
    def as2(s):
        """two-dimensional reading of an oriented vector"""
        if s.dim == 2: return s
        if s.orient == 'C': return Val(2, s.rows, ONE, lambda i, j: s.el(i))
        if s.orient == 'R': return Val(2, ONE, s.cols, lambda i, j: s.el(j))
        raise Und('vector without orientation')

class Box:
    """a matrix object"""
    def __init__(s, v, cls=None, name=None): s.v = v; s.cls = cls; s.name = name; s.rec = None

class Elem:
    """an element of an object, as an lvalue"""
    def __init__(s, box, ix): s.box = box; s.ix = ix
class Region:
    """part of an object, as an lvalue"""
    def __init__(s, box, i0, j0, rows, cols, orient=None): s.box, s.i0, s.j0, s.rows, s.cols, s.orient = box, i0, j0, rows, cols, orient
class Cell:
    def __init__(s, v): s.v = v
class Zero:
    """the truth value: every element of v is zero"""
    def __init__(s, v): s.v = v
class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception): pass
class Noop: pass

def vec(n, el, orient=None): return Val(1, ONE if orient == 'R' else n, n if orient == 'R' else ONE, el, orient)
def ints(t): return kind(t) in ('I', 'U')
def const(t): return int(t[1]) if t[0] == 'n' and t[1].denominator == 1 else None

def lower(i, j, f):
    """element of a symmetric storage: only the lower triangle exists"""
    a, b = const(i), const(j)
    if a is not None and b is not None: return f(i, j) if a >= b else f(j, i)
    c = T.lt(i, j, True)
    if c == TRUE: return f(j, i)
    if c == FALSE: return f(i, j)
    return ite(c, f(j, i), f(i, j))

class Path:
    """evaluates one function along one sequence of branch decisions"""
    def __init__(s, p, dec): s.p = p; s.dec = list(dec); s.pos = 0; s.conds = []; s.loops = []; s.guard = []; s.depth = 0; s.visited = {}; s.mirror = p is not None and p.backend == 'boost'; s.oracle = None
    # ---------------------------------------------------------------- functions
    def run(s, fn, this, args):
        s.visited[fn['id']] = fn
        s.depth += 1
        if s.depth > 12: raise Und('recursion')
        fr = {'this': this, 'v': {}, 'base': len(s.loops)}
        for q, a in zip(fn['params'], args): fr['v'][q['name']] = a
        try:
            if fn.get('kind') == 'ctor':
                for i in fn.get('inits') or []:
                    if i.get('base') and short(i['base']) not in ('Matrix_Wrapper', 'SymmetricMatrix_Wrapper', 'ColumnVector_Wrapper', 'RowVector_Wrapper'):
                        v = s.ev(i['e'], fr)
                        s.store(this, s.conv(s.value(v), this.cls))
            if fn.get('body') is None and fn.get('kind') != 'ctor': raise Und('no body of ' + fn['qn'])
            if fn.get('body') is not None: s.st(fn['body'], fr)
        except Ret as r: return r.v
        finally: s.depth -= 1
        return None
    def conv(s, v, cls):
        """value of a class of its own made from an expression value"""
        if cls in ('V', 'R'):
            o = 'C' if cls == 'V' else 'R'
            if v.dim == 1: n = v.n; return vec(n, v.el, o)
            if cls == 'V' and v.cols == ONE: return vec(v.rows, lambda i: v.el(i, ZERO), o)
            if cls == 'R' and v.rows == ONE: return vec(v.cols, lambda j: v.el(ZERO, j), o)
            raise Und('vector from a matrix')
        w = v.as2()
        return Val(2, w.rows, w.cols, w.el, None, w.atom, getattr(v, 'sym', False), v.lu)
    # ---------------------------------------------------------------- values
    def value(s, v):
        if isinstance(v, Box): return v.v
        if isinstance(v, Region):
            b = v.box.v
            if b.dim == 1: return vec(v.rows, lambda i: b.el(add(v.i0, i)), b.orient)
            if v.orient == 'R': return vec(v.cols, lambda j: b.el(v.i0, add(v.j0, j)), 'R')
            if v.orient == 'C': return vec(v.rows, lambda i: b.el(add(v.i0, i), v.j0), 'C')
            return Val(2, v.rows, v.cols, lambda i, j: b.el(add(v.i0, i), add(v.j0, j)))
        if isinstance(v, Val): return v
        raise Und('not a matrix value')
    def scal(s, v):
        if isinstance(v, Cell): v = v.v
        if isinstance(v, Elem):
            b = v.box
            if b.rec:
                for ix, val, g in reversed(b.rec):
                    if ix == v.ix and not g: return val
                raise Und('reads an element of a matrix under construction')
            return b.v.at(*v.ix)
        if isinstance(v, tuple): return v
        if isinstance(v, Zero): return v
        raise Und('not a scalar')
    def store(s, box, v):
        if s.loops: raise Und('whole matrix assigned inside a loop')
        if s.guard: raise Und('guarded whole assignment')
        box.v = v
    def put(s, el, x):
        b = el.box
        if s.loops:
            if b.rec is None: b.rec = []; s.loops[0]['boxes'].append(b)
            b.rec.append((el.ix, x, tuple(s.guard))); s.loops[-1]['w'].append((b, len(b.rec) - 1)); return
        old = b.v; ix = el.ix
        def f(*I):
            def match(J):
                c = TRUE
                for a, q in zip(J, ix): c = and_(c, eq(a, q))
                return c
            r = old.el(*I)
            if old.sym and s.mirror and I[0] != I[1]: r = ite(match(I[::-1]), x, r)
            return ite(match(I), x, r)
        b.v = Val(old.dim, old.rows, old.cols, f, old.orient, None, old.sym, old.lu)
    # ---------------------------------------------------------------- decisions
    def decide(s, c):
        if isinstance(c, Zero): raise Und('branch on a comparison of matrices')
        for d, v in s.conds: c = assume(c, d, v)
        if c == TRUE: return True
        if c == FALSE: return False
        if s.loops: raise Und('branch in a loop')
        if s.oracle is not None:
            v = s.oracle(c)
            if v is None: raise Und('condition: ' + show(c)[:100])
            s.conds.append((c, v)); return v
        if s.pos < len(s.dec): v = s.dec[s.pos]
        else: v = True; s.dec.append(True)
        s.pos += 1
        s.conds.append((c, v)); return v
    # ---------------------------------------------------------------- statements
    def st(s, e, fr):
        k = e['k']
        if k == 'block':
            for x in e['s']: s.st(x, fr)
        elif k == 'decl':
            for d in e['d']: s.decl(d, fr)
        elif k == 'expr': s.ev(e['e'], fr)
        elif k == 'nop': pass
        elif k == 'return':
            if len(s.loops) > fr['base']: raise Und('return in a loop')
            raise Ret(s.ev(e['e'], fr) if e.get('e') else None)
        elif k == 'if':
            c = s.scal(s.ev(e['c'], fr))
            if s.loops:
                for d, v in s.conds: c = assume(c, d, v)
                if c == TRUE: return s.st(e['a'], fr)
                if c == FALSE: return s.st(e['b'], fr) if e.get('b') else None
                s.guard.append(c); s.st(e['a'], fr); s.guard.pop()
                if e.get('b'): s.guard.append(not_(c)); s.st(e['b'], fr); s.guard.pop()
                return
            if s.decide(c): s.st(e['a'], fr)
            elif e.get('b'): s.st(e['b'], fr)
        elif k == 'switch': s.switch(e, fr)
        elif k == 'break': raise Brk()
        elif k == 'for': s.loop(e, fr)
        elif k == 'while': s.loop(dict(e, init=None, inc=None), fr)
        else: raise Und('statement ' + k)
    def decl(s, d, fr):
        if d.get('static'): raise Und('static local')
        t = d['t']
        if d.get('init') is None:
            fr['v'][d['id']] = Cell(None); return
        v = s.ev(d['init'], fr)
        ref = t.strip().endswith('&')
        if isinstance(v, tuple) or isinstance(v, (Cell, Elem, Zero)):
            fr['v'][d['id']] = v if ref and isinstance(v, (Elem, Cell)) else Cell(s.scal(v))
        elif ref or isinstance(v, Noop): fr['v'][d['id']] = v if isinstance(v, (Box, Region, Noop)) else Box(v)
        else:
            if isinstance(v, Box) and s.temp(v): fr['v'][d['id']] = v; v.tmp = False
            else: fr['v'][d['id']] = Box(s.value(v), WR.get(short(t)) if 'MatrixWrapper' in t else None)
    def temp(s, b): return getattr(b, 'tmp', False)
    def switch(s, e, fr):
        c = s.scal(s.ev(e['c'], fr))
        flat = []
        for x in e['body']['s']:
            while x is not None and x['k'] in ('case', 'default'):
                flat.append(('label', x.get('v') if x['k'] == 'case' else None)); x = x.get('s')
            if x is not None: flat.append(('s', x))
        start = None; dflt = None
        for i, (a, b) in enumerate(flat):
            if a != 'label': continue
            if b is None: dflt = i; continue
            if isinstance(b, dict): b = s.scal(s.ev(b, fr))
            elif isinstance(b, int): b = num(b)
            if s.decide(eq(c, b)): start = i; break
        if start is None: start = dflt
        if start is None: return
        try:
            for a, b in flat[start:]:
                if a == 's': s.st(b, fr)
        except Brk: pass
    def loop(s, e, fr):
        if e.get('init') is None or e.get('inc') is None: raise Und('loop without counter')
        i = e['init']
        if i['k'] == 'decl' and len(i['d']) == 1: s.decl(i['d'][0], fr); vid = i['d'][0]['id']
        elif i['k'] == 'expr' and i['e']['k'] == 'assign' and i['e']['l']['k'] == 'ref': s.ev(i['e'], fr); vid = i['e']['l']['id']
        else: raise Und('loop counter')
        cell = fr['v'][vid]
        if not isinstance(cell, Cell): raise Und('loop counter')
        lo = cell.v
        inc = e['inc']
        if inc['k'] == 'expr': inc = inc['e']
        if not (inc['k'] == 'un' and inc['op'] == '++' and inc['e']['k'] == 'ref' and inc['e'].get('id') == vid): raise Und('loop step')
        c = e['c']
        if c['k'] != 'bin' or c['op'] not in ('<', '<=', '!='): raise Und('loop condition')
        if s.oracle is not None:
            for _ in range(40):
                if not s.decide(s.scal(s.ev(c, fr))): return
                s.st(e['body'], fr); s.ev(inc, fr)
            raise Und('unrolling')
        k = T.fresh_k(); cell.v = add(lo, k)
        lv = s.strip(c['l'])
        if not (lv['k'] == 'ref' and lv.get('id') == vid): raise Und('loop condition')
        hi = s.scal(s.ev(c['r'], fr))
        if c['op'] == '<=': hi = add(hi, ONE)
        if T.contains(hi, k): raise Und('loop bound')
        N = sub(hi, lo)
        T.ranges[k] = N
        L = {'k': k, 'lo': lo, 'N': N, 'boxes': [], 'w': [], 'acc': {}}
        snap = {i: x.v for i, x in fr['v'].items() if isinstance(x, Cell) and x is not cell}
        s.loops.append(L)
        try: s.st(e['body'], fr)
        finally: s.loops.pop()
        L['w'] = [w for w in L['w']]
        # accumulators: cells that changed
        for i, old in snap.items():
            x = fr['v'][i]
            if not isinstance(x, Cell): continue
            if x.v is old or x.v == old: continue
            if i in L['acc']:
                op, terms_ = L['acc'][i]
                x.v = add(old, T.sum_(k, addall(terms_), N)) if op == '+' else mul(old, T.prod_(k, mulall(terms_), N))
            else: raise Und('loop carries a value')
        for i in L['acc']:
            if i in snap: continue
        cell.v = hi
        if s.loops:
            s.loops[-1]['w'] += [(b, n) for b, n in L['w']]
            for b, n in L['w']:
                ix, val, g = b.rec[n]
                vs = getattr(b, 'vars', {}); vs.setdefault(n, []).insert(0, (k, N)); b.vars = vs
            return
        for b, n in L['w']:
            vs = getattr(b, 'vars', {}); vs.setdefault(n, []).insert(0, (k, N)); b.vars = vs
        for b in L['boxes']: s.apply(b)
    def apply(s, b):
        old = b.v; rec = b.rec; vs = b.vars; b.rec = None; b.vars = {}
        idx = {}
        for n, (ix, val, g) in enumerate(rec): idx.setdefault(ix, []).append(n)
        if len(idx) > 1: raise Und('several elements stored per iteration')
        def solve(n, I):
            ix, val, g = rec[n]; vars_ = vs.get(n, []); ks = [k for k, _ in vars_]; m = {}; cond = []
            for q, x in zip(ix, I):
                q = T.subst(q, m) if m else q
                fr_ = [k for k in ks if k not in m and T.contains(q, k)]
                if not fr_: cond.append(eq(q, x)); continue
                if len(fr_) > 1: raise Und('index of two counters')
                k = fr_[0]; c = sub(q, k)
                if T.contains(c, k): raise Und('index not a shifted counter')
                m[k] = sub(x, c)
            if any(k not in m for k in ks): raise Und('counter does not occur in the index')
            for _ in range(len(ks)): m = {k: T.subst(v, m) for k, v in m.items()}
            for k, N in vars_:
                v = m[k]; hi = T.subst(N, m)
                cond += [not_(T.lt(v, ZERO, True)), T.lt(v, hi, True)]
            cond += [T.subst(c, m) for c in g]
            cc = TRUE
            for c in cond: cc = and_(cc, c)
            return cc, T.subst(val, m)
        def f(*I):
            r = old.el(*I)
            for n in range(len(rec)):
                if old.sym and s.mirror and I[0] != I[1]:
                    c, v = solve(n, I[::-1]); r = ite(c, v, r)
                c, v = solve(n, I); r = ite(c, v, r)
            return r
        b.v = Val(old.dim, old.rows, old.cols, f, old.orient, None, old.sym, None)
        f(*[T.fresh_k() for _ in rec[0][0]])     # unsolvable indices show here
    # ---------------------------------------------------------------- expressions
    def strip(s, e):
        while e['k'] == 'cast': e = e['e']
        return e
    def ev(s, e, fr):
        k = e['k']
        m = getattr(s, 'x_' + k, None)
        if not m: raise Und('expression ' + k)
        return m(e, fr)
    def x_lit(s, e, fr): return num(e['v'])
    def x_flit(s, e, fr):
        from fractions import Fraction
        return num(Fraction(str(e['v'])))
    def x_blit(s, e, fr): return TRUE if e['v'] else FALSE
    def x_this(s, e, fr): return fr['this']
    def x_ref(s, e, fr):
        v = fr['v'].get(e['name'] if e['dk'] == 'param' else e.get('id'))
        if v is None and e['name'] in ('cout', 'cerr', 'clog', 'endl'): return Noop()
        if v is None: raise Und('variable ' + e['name'])
        return v
    def x_cast(s, e, fr): 
        v = s.ev(e['e'], fr)
        return v
    def x_str(s, e, fr): return Noop()
    def x_unk(s, e, fr): return Noop()
    def x_un(s, e, fr):
        op = e['op']
        if op in ('*', '&', '__extension__', '+'): return s.ev(e['e'], fr)
        if op == '-':
            v = s.ev(e['e'], fr)
            return neg(s.scal(v))
        if op in ('++', '--'):
            v = s.ev(e['e'], fr)
            if s.loops or not isinstance(v, Cell): raise Und('step')
            o = v.v; v.v = add(o, num(1 if op == '++' else -1)); return o if e.get('post') else v
        if op == '!': return not_(s.scal(s.ev(e['e'], fr)))
        raise Und('operator ' + op)
    def x_bin(s, e, fr):
        op = e['op']; a = s.ev(e['l'], fr); b = s.ev(e['r'], fr)
        if op == ',': return b
        if isinstance(a, Norm) and op == '==' and s.scal(b) == ZERO: return Zero(a.v)
        a, b = s.scal(a), s.scal(b)
        i = ints(a) and ints(b)
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if tcode(e['t']) in ('I', 'U'): raise Und('integer division')
            return div(a, b)
        if op == '<': return T.lt(a, b, i)
        if op == '>': return T.lt(b, a, i)
        if op == '<=': return not_(T.lt(b, a, i))
        if op == '>=': return not_(T.lt(a, b, i))
        if op == '==': return eq(a, b)
        if op == '!=': return not_(eq(a, b))
        if op == '&&': return and_(a, b)
        if op == '||': return or_(a, b)
        raise Und('operator ' + op)
    def x_cond(s, e, fr):
        if 'assert' in repr(e).lower() and '__assert_fail' in repr(e): return Noop()
        c = s.scal(s.ev(e['c'], fr)); a = s.scal(s.ev(e['a'], fr)); b = s.scal(s.ev(e['b'], fr))
        return ite(c, a, b)
    def x_assign(s, e, fr):
        op = e['op']; r = s.ev(e['r'], fr); l = s.ev(e['l'], fr)
        if isinstance(l, Cell):
            r = s.scal(r)
            if s.loops:
                L = s.loops[-1]; i = s.strip(e['l']).get('id')
                g = TRUE
                for c in s.guard: g = and_(g, c)
                o = None
                if op == '+=': o, t = '+', ite(g, r, ZERO)
                elif op == '-=': o, t = '+', ite(g, neg(r), ZERO)
                elif op == '*=': o, t = '*', ite(g, r, ONE)
                elif op == '/=': o, t = '*', ite(g, inv(r), ONE)
                elif op == '=' and r == neg(l.v): o, t = '*', ite(g, num(-1), ONE)
                elif op == '=' and not s.guard: 
                    # a local of the body, or a carried value (found out at the end of the loop)
                    l.v = r; return l
                if o is None or T.contains(r, ('n', 'x')): raise Und('assignment in a loop')
                if len(s.loops) > 1: raise Und('accumulation in nested loops')
                a = L['acc'].setdefault(i, (o, []))
                if a[0] != o: raise Und('mixed accumulation')
                a[1].append(t); l.v = ('call', 'acc', (L['k'], num(len(a[1]))), kind(l.v)); return l
            if s.guard: raise Und('guarded assignment')
            l.v = s.arith(op, l.v, r); return l
        if isinstance(l, Elem):
            r = s.scal(r)
            s.put(l, s.arith(op, s.scal(l) if op != '=' else None, r)); return l
        raise Und('assignment')
    def arith(s, op, a, b):
        if op == '=': return b
        return {'+=': add, '-=': sub, '*=': mul, '/=': div}[op](a, b) if op in ('+=', '-=', '*=', '/=') else s.bad(op)
    def bad(s, op): raise Und('operator ' + op)
    def x_construct(s, e, fr):
        cls = e['cls']; q = short(cls); args = [s.ev(a, fr) for a in e['args']]
        if e.get('inroot') or 'MatrixWrapper' in cls:
            k = WR.get(q)
            if not k: raise Und('construct ' + cls)
            b = Box(None, k); b.tmp = True
            fn = s.p.fns.get(e['f'])
            if fn is None or fn.get('implicit'): 
                b.v = s.conv(s.value(args[0]), k); return b
            b.v = s.blank(k)
            lp, s.loops, gd, s.guard = s.loops, [], s.guard, []
            try: s.run(fn, b, [s.arg(a, t) for a, t in zip(args, e['pt'])])
            finally: s.loops, s.guard = lp, gd
            return b
        return s.extern_ctor(q, cls, e, args)
    def blank(s, k):
        z = lambda *I: ('call', 'unset', I, 'S')
        return Val(2, ZERO, ZERO, z) if k in 'MY' else vec(ZERO, z, 'C' if k == 'V' else 'R')
    def arg(s, a, t):
        if t.strip().endswith('&') or isinstance(a, (Box, Region)):
            return a if not isinstance(a, Val) else Box(a)
        if isinstance(a, Val): return Box(a)
        return Cell(s.scal(a)) if not isinstance(a, Noop) else a
    def extern_ctor(s, q, cls, e, args):
        un = lambda *I: ('call', 'unset', I, 'S')
        copy1 = len(args) == 1 and isinstance(args[0], (Box, Val, Region))
        if q in ('matrix', 'symmetric_matrix'):
            sym = q == 'symmetric_matrix'
            if copy1:
                v = s.value(args[0])
                if v.dim != 2: raise Und('matrix from a vector')
                if sym and not v.sym: return Val(2, v.rows, v.cols, lambda i, j: lower(i, j, v.el), None, None, True)
                return Val(2, v.rows, v.cols, v.el, None, v.atom, sym, v.lu)
            if not args: return Val(2, ZERO, ZERO, un, sym=sym)
            a = [s.scal(x) for x in args]
            if sym: return Val(2, a[0], a[0], un, sym=True)
            return Val(2, a[0], a[1], un)
        if q == 'vector':
            if copy1:
                v = s.value(args[0])
                if v.dim != 1: raise Und('vector from a matrix')
                return vec(v.n, v.el)
            if not args: return vec(ZERO, un)
            return vec(s.scal(args[0]), un)
        if q == 'scalar_matrix':
            a = [s.scal(x) for x in args]; return Val(2, a[0], a[1], lambda i, j: a[2], sym=a[0] == a[1])
        if q == 'scalar_vector':
            a = [s.scal(x) for x in args]; return vec(a[0], lambda i: a[1])
        if q == 'identity_matrix':
            n = s.scal(args[0]); return Val(2, n, n, lambda i, j: ite(eq(i, j), ONE, ZERO), atom='I')
        if q == 'permutation_matrix': return Box(vec(s.scal(args[0]), un))
        if strip_targs(base_type(cls)).split('::')[0] == 'Eigen' and q == 'Matrix':
            import re
            m = re.match(r'.*Matrix<double, (-?\d+), (-?\d+)', cls); r, c = m.groups()
            o = 'C' if c == '1' else 'R' if r == '1' else None
            if copy1:
                v = s.value(args[0])
                return s.conv(v, {'C': 'V', 'R': 'R', None: 'M'}[o])
            if not args: return Val(2, ZERO, ZERO, un) if o is None else vec(ZERO, un, o)
            a = [s.scal(x) for x in args]
            if o is None and len(a) == 2: return Val(2, a[0], a[1], un)
            if o and len(a) == 1: return vec(a[0], un, o)
        raise Und('construct ' + cls)
    # ---------------------------------------------------------------- calls
    def x_call(s, e, fr):
        n = e['n']
        if n == '__assert_fail': return Noop()
        obj = s.ev(e['obj'], fr) if e.get('obj') is not None else None
        args = [s.ev(a, fr) for a in e['args']]
        if n == 'SVD' and isinstance(obj, Box):
            v = obj.v; at = v.atom
            if at is None: raise Und('SVD of a computed matrix')
            for b, r_, c_, nm in ((args[1], v.rows, v.cols, 'svd_U'), (args[2], v.cols, v.cols, 'svd_V')):
                b.v = Val(2, r_, c_, (lambda nm: lambda i, j: ('call', nm, (at, i, j), 'S'))(nm))
            args[0].v = vec(v.cols, lambda i: ('call', 'svd_D', (at, i), 'S'), args[0].v.orient)
            return TRUE
        if e.get('inroot'):
            f = e['f']
            if isinstance(obj, Box) and obj.cls: f = s.dispatch(e, obj)
            fn = s.p.fns.get(f)
            if fn is None: raise Und('call of ' + e['qn'])
            a = [s.arg(x, t) for x, t in zip(args, e['pt'])]
            if fn.get('implicit') and n == 'operator=':
                s.store(obj, s.conv(s.value(args[0]), obj.cls)); return obj
            r = s.run(fn, obj, a)
            if isinstance(r, (Elem, Cell)) and not fn.get('rref') and not (fn.get('rt') or '').strip().endswith('&'): r = s.scal(r)
            return r
        return s.extern(e, n, obj, args)
    def dispatch(s, e, obj):
        """the wrapper's own method for an object of known class"""
        if short(e.get('cls') or '') in ('Matrix_Wrapper', 'SymmetricMatrix_Wrapper', 'ColumnVector_Wrapper', 'RowVector_Wrapper'):
            K = {v: k for k, v in WR.items()}[obj.cls]
            for f in s.p.fns.values():
                if f['qn'] == 'MatrixWrapper::%s::%s' % (K, e['n']) and len(f['params']) == len(e['args']) and bool(f.get('const')) == bool(e.get('const')): return f['id']
        return e['f']
    def ew(s, f, a, b):
        """elementwise operation on two values of equal shape"""
        if a.dim == 1 and b.dim == 1: return Val(1, a.rows, a.cols, lambda i: f(a.el(i), b.el(i)), a.orient or b.orient)
        if a.dim != b.dim: a, b = a.as2(), b.as2()
        return Val(2, a.rows, a.cols, lambda i, j: f(a.el(i, j), b.el(i, j)), sym=a.sym and b.sym)
    def sc(s, f, a): return Val(a.dim, a.rows, a.cols, (lambda i: f(a.el(i))) if a.dim == 1 else (lambda i, j: f(a.el(i, j))), a.orient, None, a.sym)
    def prod(s, a, b):
        if a.dim == 2 and b.dim == 1 and b.orient in (None, 'C'):
            def f(i):
                k = T.fresh_k(); T.ranges[k] = a.cols
                return T.sum_(k, mul(a.el(i, k), b.el(k)), a.cols)
            return vec(a.rows, f, b.orient)
        if a.dim == 1 and a.orient is None: raise Und('product of plain vectors')
        x, y = a.as2(), b.as2()
        def g(i, j):
            if x.cols == ONE: return mul(x.el(i, ZERO), y.el(ZERO, j))
            k = T.fresh_k(); T.ranges[k] = x.cols
            return T.sum_(k, mul(x.el(i, k), y.el(k, j)), x.cols)
        return Val(2, x.rows, y.cols, g)
    def assign(s, o, v):
        if isinstance(o, Box):
            old = o.v
            if old.dim == 1: s.store(o, vec(s.conv(v, 'V').n if v.dim == 2 else v.n, v.el if v.dim == 1 else (lambda i: v.as2().el(i, ZERO)), old.orient))
            else:
                w = v.as2(); y = old.sym and s.mirror and not w.sym
                s.store(o, Val(2, w.rows, w.cols, (lambda i, j: lower(i, j, w.el)) if y else w.el, None, w.atom, old.sym, w.lu))
            return o
        if isinstance(o, Region):
            b = o.box
            if s.loops:
                # a row or column per iteration: one more counter over its elements
                k = T.fresh_k(); n = o.cols if o.orient == 'R' else o.rows; T.ranges[k] = n
                if b.v.dim == 1: ix = (add(o.i0, k),)
                elif o.orient == 'R': ix = (o.i0, add(o.j0, k))
                elif o.orient == 'C': ix = (add(o.i0, k), o.j0)
                else: raise Und('block stored in a loop')
                if b.v.sym: raise Und('row of a symmetric matrix')
                s.put(Elem(b, ix), v.el(k) if v.dim == 1 else s.bad('block'))
                b.vars = getattr(b, 'vars', {}); b.vars.setdefault(len(b.rec) - 1, []).append((k, n))
                return o
            if s.guard: raise Und('guarded block')
            old = b.v; 
            if old.dim == 1:
                def f(i):
                    d = sub(i, o.i0); c = and_(not_(T.lt(d, ZERO, True)), T.lt(d, o.rows, True))
                    return ite(c, v.el(d), old.el(i))
                b.v = vec(old.n, f, old.orient)
            else:
                w = v.as2()
                def g(i, j):
                    d, q = sub(i, o.i0), sub(j, o.j0); c = TRUE
                    for x in (not_(T.lt(d, ZERO, True)), T.lt(d, o.rows, True), not_(T.lt(q, ZERO, True)), T.lt(q, o.cols, True)): c = and_(c, x)
                    return ite(c, w.el(d, q), old.el(i, j))
                b.v = Val(2, old.rows, old.cols, g)
            return o
        raise Und('assignment to a temporary')
    def extern(s, e, n, obj, args):
        V = s.value; S = s.scal
        ismat_ = lambda x: isinstance(x, (Box, Val, Region))
        if obj is None:
            if n == 'operator<<' and args and isinstance(args[0], Noop): return args[0]
            if n == 'noalias': return args[0]
            if n in ('operator+', 'operator-', 'operator*', 'operator/') and len(args) == 2:
                a, b = args
                if ismat_(a) and ismat_(b):
                    if n == 'operator*': return s.prod(V(a), V(b))
                    if n == 'operator/': raise Und('matrix division')
                    return s.ew(add if n == 'operator+' else sub, V(a), V(b))
                if ismat_(a) and n in ('operator*', 'operator/'): x = S(b); return s.sc((lambda t: mul(t, x)) if n == 'operator*' else (lambda t: div(t, x)), V(a))
                if ismat_(b) and n == 'operator*': x = S(a); return s.sc(lambda t: mul(x, t), V(b))
            if n == 'operator-' and len(args) == 1: return s.sc(neg, V(args[0]))
            if n == 'prod': return s.prod(V(args[0]), V(args[1]))
            if n == 'outer_prod':
                a, b = V(args[0]), V(args[1]); return Val(2, a.n, b.n, lambda i, j: mul(a.el(i), b.el(j)))
            if n == 'inner_prod':
                a, b = V(args[0]), V(args[1]); k = T.fresh_k(); T.ranges[k] = a.n; return T.sum_(k, mul(a.el(k), b.el(k)), a.n)
            if n == 'trans':
                a = V(args[0])
                if a.dim == 1: return a
                return Val(2, a.cols, a.rows, lambda i, j: a.el(j, i), sym=a.sym)
            if n in ('norm_inf', 'norm_1', 'norm_2', 'norm_frobenius'): return Norm(V(args[0]))
            if n in ('row', 'column'):
                b = args[0]; x = S(args[1])
                if not isinstance(b, Box): b = Box(V(b))
                return Region(b, x, ZERO, ONE, b.v.cols, 'R') if n == 'row' else Region(b, ZERO, x, b.v.rows, ONE, 'C')
            if n == 'lu_factorize':
                b = args[0]; a = b.v
                if a.atom is None: raise Und('factorisation of a computed matrix')
                at = a.atom
                s.store(b, Val(2, a.rows, a.cols, lambda i, j: ('call', 'lu', (at, i, j), 'S'), lu=at))
                p = args[1]; p.v = vec(a.rows, lambda i: ('call', 'perm', (at, i), 'U')); p.perm = at
                return ZERO
            if n == 'lu_substitute':
                lu, p, b = args
                if lu.v.lu is None or getattr(p, 'perm', None) != lu.v.lu or b.v.atom != 'I': raise Und('substitution')
                at = lu.v.lu; s.store(b, Val(2, b.v.rows, b.v.cols, lambda i, j: inve(at, i, j))); return None
            if n == 'Constant':
                a = [S(x) for x in args]
                if len(a) == 3: return Val(2, a[0], a[1], lambda i, j: a[2])
                return vec(a[0], lambda i: a[1], s.eorient(e))
            if n in ('Zero', 'Ones', 'Identity') and len(args) == 2:
                a = [S(x) for x in args]; return Val(2, a[0], a[1], lambda i, j: ZERO if n == 'Zero' else ONE if n == 'Ones' else ite(eq(i, j), ONE, ZERO))
            if n == 'dummy_precision': return ZERO
            if n == 'epsilon' and not args: return ('call', 'epsilon', (), 'S')
            if n in ('fabs', 'abs', 'sqrt'): return ('fn', n, S(args[0]))
            raise Und('call of ' + e['qn'][:80])
        if isinstance(obj, Noop): return Noop()
        if n == 'operator double' and isinstance(obj, Norm): return obj
        if n.startswith('operator double'): return obj if isinstance(obj, Norm) else S(obj)
        if n in ('operator+', 'operator-', 'operator*', 'operator/'):
            if not args: return s.sc(neg, V(obj)) if n == 'operator-' else V(obj)
            return s.extern(dict(e, obj=None), n, None, [obj, args[0]])
        if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            if s.loops: raise Und('matrix update in a loop')
            v = V(obj); a = args[0]
            if ismat_(a): 
                if n in ('operator*=', 'operator/='): raise Und('matrix product in place')
                w = s.ew(add if n == 'operator+=' else sub, v, V(a))
            else: x = S(a); w = s.sc((lambda t: mul(t, x)) if n == 'operator*=' else (lambda t: div(t, x)), v)
            s.assign(obj, w); return obj
        if n == 'operator=':
            return s.assign(obj, V(args[0]) if ismat_(args[0]) else s.bad(n))
        if n == 'assign': s.assign(obj, V(args[0])); return obj
        if n in ('operator()', 'operator[]', 'coeffRef', 'coeff', 'insert_element', 'at_element'):
            ix = tuple(S(x) for x in args)
            if isinstance(obj, Region): v = V(obj); return v.at(*ix)
            if isinstance(obj, Val): return obj.at(*ix)
            if obj.v.dim != len(ix): raise Und('number of indices')
            return Elem(obj, ix)
        v = V(obj) if not isinstance(obj, Norm) else None
        if n in ('rows', 'size1'): return v.rows
        if n in ('cols', 'size2'): return v.cols
        if n == 'size': return v.n if v.dim == 1 else mul(v.rows, v.cols)
        if n in ('row', 'col'):
            b = obj if isinstance(obj, Box) else Box(v); x = S(args[0])
            return Region(b, x, ZERO, ONE, v.cols, 'R') if n == 'row' else Region(b, ZERO, x, v.rows, ONE, 'C')
        if n in ('head', 'tail', 'segment'):
            b = obj if isinstance(obj, Box) else Box(v); a = [S(x) for x in args]
            if n == 'head': return Region(b, ZERO, ZERO, a[0], a[0])
            if n == 'tail': return Region(b, sub(v.n, a[0]), ZERO, a[0], a[0])
            return Region(b, a[0], ZERO, a[1], a[1])
        if n == 'block':
            b = obj if isinstance(obj, Box) else Box(v); a = [S(x) for x in args]; return Region(b, *a)
        if n == 'transpose':
            if v.dim == 1:
                return vec(v.n, v.el, {'C': 'R', 'R': 'C', None: None}[v.orient])
            return Val(2, v.cols, v.rows, lambda i, j: v.el(j, i))
        if n == 'dot':
            b = V(args[0]); k = T.fresh_k(); T.ranges[k] = v.n; return T.sum_(k, mul(v.el(k), b.el(k)), v.n)
        if n in ('inverse', 'determinant'):
            if v.atom is None: raise Und(n + ' of a computed matrix')
            at = v.atom
            return Val(2, v.rows, v.cols, lambda i, j: inve(at, i, j)) if n == 'inverse' else ('call', 'det', (at,), 'S')
        if n == 'selfadjointView':
            up = 'Upper' in e.get('frt', '') or e.get('frt', '').rstrip('> ').endswith('2')
            lo_ = 'Lower' in e.get('frt', '') or e.get('frt', '').rstrip('> ').endswith('1')
            if up == lo_: raise Und('triangle of selfadjointView')
            return Val(2, v.rows, v.cols, (lambda i, j: lower(i, j, lambda a, b: v.el(b, a))) if up else (lambda i, j: lower(i, j, v.el)))
        if n in ('setConstant', 'fill', 'setZero', 'setOnes'):
            x = S(args[0]) if args else ZERO if n == 'setZero' else ONE
            s.store(obj, Val(v.dim, v.rows, v.cols, lambda *I: x, v.orient)); return obj
        if n in ('resize', 'conservativeResize'):
            a = [S(x) for x in args]; keep = v.el; un = lambda *I: ('call', 'unset', I, 'S')
            if v.dim == 1: s.store(obj, vec(a[0], un, v.orient))
            elif v.sym and len(a) == 2 and 'symmetric' in e['qn']: s.store(obj, Val(2, a[0], a[0], un, sym=True))
            elif len(a) >= 2: s.store(obj, Val(2, a[0], a[1], un))
            else: raise Und('resize')
            return None
        if n in ('isApproxToConstant', 'isConstant') and S(args[0]) == ZERO: return Zero(v)
        if n == 'isZero' and not args: raise Und('comparison with tolerance')
        if n == 'value' or n == 'sum' and False: pass
        raise Und('call of ' + e['qn'][:80])
    def eorient(s, e):
        import re
        m = re.search(r'Matrix<double, (-?\d+), (-?\d+)', e.get('qn', '') + e.get('cls', ''))
        return {'1': 'C'}.get(m.group(2), 'R' if m.group(1) == '1' else None) if m else None

class Norm:
    def __init__(s, v): s.v = v
def inve(at, i, j):
    return ('call', 'inv_el', (at, i, j), 'S')
def addall(ts):
    r = ZERO
    for t in ts: r = add(r, t)
    return r
def mulall(ts):
    r = ONE
    for t in ts: r = mul(r, t)
    return r

def paths(p, fn, mk, limit=32):
    """every path of fn; mk() -> (this, args) fresh for each path"""
    out = []; todo = [[]]
    while todo:
        dec = todo.pop()
        P_ = Path(p, dec); this, args = mk()
        r = P_.run(fn, this, args)
        for i in range(len(dec), P_.pos):
            todo.append(P_.dec[:i] + [not P_.dec[i]])
        out.append((P_, r, this, args))
        if len(out) > limit: raise Und('too many paths')
    return out
