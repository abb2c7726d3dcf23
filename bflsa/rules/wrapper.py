"""Matrix and vector operations of the wrapper, per backend: dimensions and elements of every result."""
from ..rule import *
from .. import elem as E
from ..elem import Val, Box, Cell, Elem, Zero, Und, vec, paths, WR

NAME = {v: k for k, v in WR.items()}
def atom(nm): return ('init', (('op', nm), ()), 'M')
def operand(nm, k):
    """an arbitrary object of wrapper class k"""
    a = atom(nm); U = lambda x: ('init', (('op', nm + '.' + x), ()), 'U')
    if k == 'V': n = U('n'); return vec(n, lambda i: ('call', 'el', (a, i), 'S'), 'C')
    if k == 'R': n = U('n'); return vec(n, lambda i: ('call', 'el', (a, i), 'S'), 'R')
    if k == 'Y':
        n = U('n')
        def f(i, j):
            c, d = E.const(i), E.const(j)
            if c is not None and d is not None: i, j = (i, j) if c >= d else (j, i)
            elif repr(j) < repr(i): i, j = j, i
            return ('call', 'el', (a, i, j), 'S')
        return Val(2, n, n, f, atom=a, sym=True)
    r, c = U('r'), U('c')
    return Val(2, r, c, lambda i, j: ('call', 'el', (a, i, j), 'S'), atom=a)
def same_size(a, b):
    """b with the dimensions of a (operations on equal sizes)"""
    return Val(b.dim, a.rows, a.cols, b.el, b.orient, b.atom, b.sym)

class Case:
    def __init__(s, c, fn, K, params, square=False, eqsize=(), inner=False):
        s.c, s.fn, s.K = c, fn, K; s.square = square; s.eqsize = eqsize; s.inner = inner
        s.A = operand('this', K) if K else None
        if square and K == 'M': s.A = Val(2, s.A.rows, s.A.rows, s.A.el, atom=s.A.atom)
        s.ps = []
        for i, (p, k) in enumerate(zip(fn['params'], params)):
            if k in WR.values():
                v = operand('arg%d' % i, k)
                if i in eqsize and s.A is not None: v = same_size(s.A, v)
                if inner and i in eqsize: pass
                s.ps.append(v)
            else: s.ps.append(('init', (('op', p['name'] or 'p%d' % i), ()), k))
    def mk(s):
        this = Box(s.A, s.K)
        args = []
        for p, q in zip(s.ps, s.fn['params']):
            if isinstance(p, Val): b = Box(p, None); b.cls = WR.get(short(q['t'])) if 'MatrixWrapper' in q['t'] else None; args.append(b)
            else: args.append(Cell(p))
        return this, args

def fail_ok(c, name, loc, why): c.add(name, loc, 'undecided', why)

class S0:
    """stands for the summary of a function analysed elementwise"""
    def __init__(s, fn): s.fn = fn; s.ok = True; s.err = None
    loc = property(lambda s: '%s:%s' % (s.fn['file'].split('/src/')[-1], s.fn['ln']))
    def shaky(s): return []

def decide(c, fn, name, cs, check, when=None):
    """all paths of fn satisfy check(path, result, this, args, eqv)"""
    s = S0(fn)
    def body():
        ps = paths(c.p, fn, cs.mk)
        for P_, r, this, args in ps:
            for f in P_.visited.values(): c.fns[f['id']] = f
            cond = P_.conds
            def eqv(what, got, want):
                g, w = X(got).t, X(want).t
                for d, v in cond: g, w = assume(g, d, v), assume(w, d, v)
                if isinstance(g, tuple) and T.any_sub(g, lambda x: x[0] == 'call' and x[1] == 'unset') is not None and not equal(g, w):
                    return obs.append((what, 'violated', 'element never set: %s, required %s' % (show(g)[:200], show(w)[:300])))
                if equal(g, w): return obs.append((what, 'ok', ''))
                from .. import ident
                v, info = ident.compare(g, w, under=[d if x else not_(d) for d, x in cond])
                if v == 'same': return obs.append((what, 'ok', ''))
                if v == 'slow': return obs.append((what, 'undecided', 'comparison took too long'))
                obs.append((what, 'violated', 'computed %s, required %s' % (show(g)[:400], show(w)[:400])))
            def flag(what, ok, detail=''): obs.append((what, 'ok' if ok else 'violated', detail))
            fixed = {}
            for d, v in cond:
                if v and d[0] == 'eq': fixed[d] = True
            check(P_, r, this, args, eqv, flag)
            # operands that are not to change
            if fn.get('const') and not fn.get('static'):
                flag('object unchanged', this.v is cs.A, 'a const operation changes its object')
    obs = []
    try: body()
    except Und as x: return c.undecided(name, s, str(x))
    except (AssertionError, AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError) as x:
        if os.environ.get('BFL_DEBUG'): raise
        return c.undecided(name, s, 'analysis failed: %r' % x)
    st = {}
    for what, v, d in obs:
        o = st.get(what)
        if o is None or (v == 'violated' and o[0] != 'violated') or (v == 'undecided' and o[0] == 'ok'): st[what] = (v, d)
    for what, (v, d) in st.items(): c.add('%s: %s' % (name, what), s.loc, v, d)

def dimfix(P_, n):
    """a constant the path fixes the dimension n to, if any"""
    for k in range(1, 5):
        for d, v in P_.conds:
            if v and d == eq(n, num(k)): return k
    return None

def compare(eqv, P_, what, got, want, dims=True):
    """dimensions and all elements"""
    if dims:
        if want.dim == 1: eqv(what + ' length', got.n, want.n)
        else: eqv(what + ' rows', got.rows, want.rows); eqv(what + ' columns', got.cols, want.cols)
    if want.dim == 1:
        n = dimfix(P_, want.n)
        if n:
            for i in range(n): eqv(what + ' element', got.el(num(i)), want.el(num(i)))
        else:
            i = T.fresh_k(); T.ranges[i] = want.n; eqv(what + ' element', got.el(i), want.el(i))
        return
    r, q = dimfix(P_, want.rows), dimfix(P_, want.cols)
    if r and q:
        for i in range(r):
            for j in range(q): eqv(what + ' element', got.el(num(i), num(j)), want.el(num(i), num(j)))
        return
    if got.sym or want.sym or want.rows == want.cols:
        # below, on and above the diagonal
        d = T.fresh_k(); T.ranges[d] = sub(want.rows, ONE)
        j = T.fresh_k(); T.ranges[j] = sub(sub(want.rows, d), ONE)
        i = add(j, add(d, ONE))
        eqv(what + ' element', got.el(i, j), want.el(i, j))
        eqv(what + ' element', got.el(j, i), want.el(j, i))
        k = T.fresh_k(); T.ranges[k] = want.rows
        eqv(what + ' element', got.el(k, k), want.el(k, k))
        return
    i = T.fresh_k(); T.ranges[i] = want.rows; j = T.fresh_k(); T.ranges[j] = want.cols
    eqv(what + ' element', got.el(i, j), want.el(i, j))

def ret_val(r):
    if isinstance(r, Box): return r.v
    if isinstance(r, Val): return r
    if isinstance(r, E.Region): return E.Path(None, []).value(r)
    raise Und('no matrix returned')
def scal(r): return E.Path(None, []).scal(r)

OPS = {'+': add, '-': sub, '*': mul, '/': div}
def pk(t):
    """kind of a parameter"""
    k = WR.get(short(t)) if 'MatrixWrapper' in t else None
    return k or tcode(t)

def p19(c):
    fns = [f for f in c.p.fns.values() if f.get('cls') and f['cls'].startswith('MatrixWrapper::') and short(f['cls']) in WR and not f.get('implicit') and f['file'].split('/')[-1].split('.')[0].split('_')[0] in ('matrix', 'vector')]
    done = 0
    for f in fns:
        K = WR[short(f['cls'])]; n = f['qn'].split('::')[-1]; ps = [pk(q['t']) for q in f['params']]
        if one(c, f, K, n, ps): done += 1
    done += others(c)
    if done < 40: raise AnalysisError('only %d operations of the matrix wrapper found' % done)

def one(c, f, K, n, ps):
    A = NAME[K]; tag = '%s::%s(%s)' % (A, n, ', '.join(NAME.get(p, {'S': 'double', 'I': 'int', 'U': 'unsigned', 'B': 'bool'}.get(p, p)) for p in ps))
    if f.get('kind') == 'ctor': return ctor(c, f, K, ps, tag)
    if n.startswith('operator') and n[8:9] in OPS and len(n) == 9 and len(ps) == 1:
        op = n[8]
        if ps[0] == 'S':
            cs = Case(c, f, K, ps); a = cs.ps[0]
            want = Val(cs.A.dim, cs.A.rows, cs.A.cols, lambda *I: OPS[op](cs.A.el(*I), a), cs.A.orient, sym=cs.A.sym)
            decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'result', ret_val(r), want)); return True
        if op in '+-' and ps[0] in 'MYVR':
            cs = Case(c, f, K, ps, square=False, eqsize=(0,)); B = cs.ps[0]
            want = Val(cs.A.dim, cs.A.rows, cs.A.cols, lambda *I: OPS[op](cs.A.el(*I), B.el(*I)), cs.A.orient, sym=cs.A.sym and B.sym)
            decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'result', ret_val(r), want)); return True
        if op == '*':
            cs = Case(c, f, K, ps); B = cs.ps[0]
            L, R = cs.A.as2(), B.as2()
            def el(i, j):
                if L.cols == ONE: return mul(L.el(i, ZERO), R.el(ZERO, j))
                k = T.fresh_k(); T.ranges[k] = L.cols; return T.sum_(k, mul(L.el(i, k), R.el(k, j)), L.cols)
            cs.ps[0] = matchinner(cs.A, B)
            if K == 'R' and ps[0] == 'V':
                decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: eqv('result', dotval(r), el(ZERO, ZERO))); return True
            want = vec(L.rows, lambda i: el(i, ZERO), 'C') if ps[0] == 'V' else Val(2, L.rows, cs.ps[0].as2().cols, el)
            decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'result', ret_val(r), want)); return True
    if n in ('operator+=', 'operator-=', 'operator*=', 'operator/=') and len(ps) == 1:
        op = n[8]
        cs = Case(c, f, K, ps, eqsize=(0,)); a = cs.ps[0]
        if isinstance(a, Val):
            if op not in '+-': return False
            if K == 'Y' and not a.sym: return False        # the sum need not be symmetric
            el = lambda *I: OPS[op](cs.A.el(*I), a.el(*I))
        else: el = lambda *I: OPS[op](cs.A.el(*I), a)
        want = Val(cs.A.dim, cs.A.rows, cs.A.cols, el, cs.A.orient, sym=cs.A.sym)
        def chk(P_, r, t, ar, eqv, flag):
            compare(eqv, P_, 'object', t.v, want); flag('returns the object', r is t)
        decide(c, f, tag, cs, chk); return True
    if n == 'operator=' and len(ps) == 1:
        cs = Case(c, f, K, ps); a = cs.ps[0]
        if isinstance(a, Val): want = a
        else: want = Val(cs.A.dim, cs.A.rows, cs.A.cols, lambda *I: a, cs.A.orient, sym=cs.A.sym)
        def chk(P_, r, t, ar, eqv, flag):
            compare(eqv, P_, 'object', t.v, want); flag('returns the object', r is t)
        decide(c, f, tag, cs, chk); return True
    if n == 'operator==' and len(ps) == 1 and ps[0] in 'MYVR':
        cs = Case(c, f, K, ps); B = cs.ps[0]; A_ = cs.A
        same = and_(eq(A_.rows, B.rows), eq(A_.cols, B.cols))
        def chk(P_, r, t, ar, eqv, flag):
            g = same
            for d, v in P_.conds: g = assume(g, d, v)
            if isinstance(r, Zero):
                flag('compares elements of objects of equal size', g == TRUE, 'elements compared although the sizes may differ: %s' % show(g)[:200])
                v = r.v
                I = tuple(T.fresh_k() for _ in range(v.dim))
                for k_, N in zip(I, (v.n,) if v.dim == 1 else (v.rows, v.cols)): T.ranges[k_] = N
                got = v.el(*I); w = sub(A_.el(*I), B.el(*I))
                eqv('elements', got if equal(got, w) else neg(got), w)
            else:
                r = scal(r)
                if g == TRUE or g != FALSE: raise Und('equality decided otherwise')
                eqv('different sizes', r, FALSE)
        decide(c, f, tag, cs, chk); return True
    if n == 'operator()' and len(ps) == (1 if K in 'VR' else 2):
        cs = Case(c, f, K, ps); ix = tuple(sub(x, ONE) for x in cs.ps)
        ref = f.get('rref') or (f.get('rt') or '').strip().endswith('&')
        def chk(P_, r, t, ar, eqv, flag):
            if ref:
                if not isinstance(r, Elem): raise Und('reference')
                flag('refers to the object', r.box is t)
                if K == 'Y': eqv('element', cs.A.el(*r.ix), cs.A.el(*ix))
                else:
                    for a, b in zip(r.ix, ix): eqv('index', a, b)
            else: eqv('element', scal(r), cs.A.el(*ix))
        decide(c, f, tag, cs, chk)
        if K == 'Y' and ref:
            def mir(P_, r, t, ar, eqv, flag):
                if not isinstance(r, Elem): raise Und('reference')
                this, args = cs.mk(); r2 = E.Path(c.p, []).run(f, this, args[::-1])
                flag('an element and its mirror image are the same', P_.mirror or r.ix == r2.ix, 'a(i,j) and a(j,i) are stored separately: setting one leaves the other unchanged')
            decide(c, f, tag, cs, mir)
        return True
    if n == 'operator[]' and K in 'VR' and len(ps) == 1:
        cs = Case(c, f, K, ps); ix = tuple(cs.ps)
        ref = f.get('rref') or (f.get('rt') or '').strip().endswith('&')
        def chk(P_, r, t, ar, eqv, flag):
            if ref:
                if not isinstance(r, Elem): raise Und('reference')
                flag('refers to the object', r.box is t)
                for a, b in zip(r.ix, ix): eqv('index', a, b)
            else: eqv('element', scal(r), cs.A.el(*ix))
        decide(c, f, tag, cs, chk); return True
    if n in ('rows', 'columns', 'size', 'capacity') and not ps:
        cs = Case(c, f, K, ps)
        if n == 'capacity' and K in 'VR' or n == 'size' and K in 'VR': w = cs.A.n
        else: w = cs.A.cols if n == 'columns' else cs.A.rows
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: eqv('value', scal(r), w)); return True
    if n == 'transpose' and not ps:
        cs = Case(c, f, K, ps); a = cs.A
        if a.dim == 1: want = vec(a.n, a.el, 'R' if K == 'V' else 'C')
        else: want = Val(2, a.cols, a.rows, lambda i, j: a.el(j, i), sym=a.sym)
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'result', ret_val(r), want)); return True
    if n in ('rowCopy', 'columnCopy') and len(ps) == 1:
        cs = Case(c, f, K, ps); a = cs.A; x = sub(cs.ps[0], ONE)
        want = vec(a.cols, lambda j: a.el(x, j), 'R') if n == 'rowCopy' else vec(a.rows, lambda i: a.el(i, x), 'C')
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'result', ret_val(r), want)); return True
    if n == 'sub' and len(ps) == (2 if K in 'VR' else 4):
        cs = Case(c, f, K, ps); a = cs.A; q = cs.ps
        if K in 'VR': want = vec(add(sub(q[1], q[0]), ONE), lambda i: a.el(add(i, sub(q[0], ONE))), a.orient)
        else: want = Val(2, add(sub(q[1], q[0]), ONE), add(sub(q[3], q[2]), ONE), lambda i, j: a.el(add(i, sub(q[0], ONE)), add(j, sub(q[2], ONE))))
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'result', ret_val(r), want)); return True
    if n == 'vectorAdd' and len(ps) == 1:
        cs = Case(c, f, K, ps)
        want = concat(cs.A, cs.ps[0])
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: cmpcat(eqv, P_, ret_val(r), cs.A, cs.ps[0])); return True
    if n == 'assign' and len(ps) == 2:
        cs = Case(c, f, K, ps); nn, x = cs.ps
        want = vec(nn, lambda i: x, cs.A.orient)
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'object', t.v, want)); return True
    if n == 'resize':
        cs = Case(c, f, K, ps); q = cs.ps
        def chk(P_, r, t, ar, eqv, flag):
            if K in 'VR': eqv('length', t.v.n, q[0])
            else: eqv('rows', t.v.rows, q[0]); eqv('columns', t.v.cols, q[1] if K == 'M' else q[0])
        decide(c, f, tag, cs, chk); return True
    if n == 'multiply' and len(ps) == 2:
        cs = Case(c, f, K, ps); a = cs.A; B = matchinner(a, cs.ps[0]); cs.ps[0] = B
        def el(i):
            k = T.fresh_k(); T.ranges[k] = a.cols; return T.sum_(k, mul(a.el(i, k), B.el(k)), a.cols)
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'second argument', ar[1].v, vec(a.rows, el, 'C'))); return True
    if n == 'convertToSymmetricMatrix' and len(ps) == 1:
        cs = Case(c, f, K, ps, square=True); a = cs.A
        want = Val(2, a.rows, a.rows, lambda i, j: E.lower(i, j, a.el), sym=True)
        def chk(P_, r, t, ar, eqv, flag):
            compare(eqv, P_, 'argument', ar[0].v, want); eqv('returns 0', scal(r), ZERO); flag('object unchanged', t.v is cs.A)
        decide(c, f, tag, cs, chk); return True
    if n == 'inverse' and not ps:
        cs = Case(c, f, K, ps, square=True); a = cs.A
        def chk(P_, r, t, ar, eqv, flag):
            k = dimfix(P_, a.rows); z = num
            if k == 1: el = lambda i, j: inv(a.el(ZERO, ZERO))
            elif k == 2:
                d = sub(mul(a.el(z(0), z(0)), a.el(z(1), z(1))), mul(a.el(z(0), z(1)), a.el(z(1), z(0))))
                cof = {(0, 0): a.el(z(1), z(1)), (1, 1): a.el(z(0), z(0)), (0, 1): neg(a.el(z(0), z(1))), (1, 0): neg(a.el(z(1), z(0)))}
                el = lambda i, j: div(cof[(E.const(i), E.const(j))], d)
            else: el = lambda i, j: E.inve(a.atom, i, j)
            v = ret_val(r)
            if K == 'Y' and k is None:
                # the inverse of a symmetric matrix is symmetric: either triangle
                i = T.fresh_k(); T.ranges[i] = a.rows; j = T.fresh_k(); T.ranges[j] = a.rows
                g = symcanon(v.el(i, j), a.atom); eqv('result rows', v.rows, a.rows); eqv('result element', g, symcanon(el(i, j), a.atom)); return
            compare(eqv, P_, 'result', v, Val(2, a.rows, a.rows, el))
        decide(c, f, tag, cs, chk); return True
    if n == 'determinant' and not ps:
        cs = Case(c, f, K, ps, square=True); a = cs.A
        def chk(P_, r, t, ar, eqv, flag):
            k = dimfix(P_, a.rows); z = num
            if k == 1: w = a.el(ZERO, ZERO)
            elif k == 2: w = sub(mul(a.el(z(0), z(0)), a.el(z(1), z(1))), mul(a.el(z(0), z(1)), a.el(z(1), z(0))))
            else:
                g = scal(r)
                if g == ('call', 'det', (a.atom,), 'S'): return eqv('value', g, g)
                i = T.fresh_k(); T.ranges[i] = a.rows
                p1 = T.prod_(i, ('call', 'lu', (a.atom, i, i), 'S'), a.rows)
                i = T.fresh_k(); T.ranges[i] = a.rows
                p2 = T.prod_(i, ite(not_(eq(('call', 'perm', (a.atom, i), 'U'), i)), num(-1), ONE), a.rows)
                return eqv('value (product of the pivots with the sign of the permutation)', g, mul(p1, p2))
            eqv('value', scal(r), w)
        decide(c, f, tag, cs, chk); return True
    return False

def others(c):
    n = 0
    for f in c.find('Matrix_Wrapper::pseudoinverse', need=False):
        cs = Case(c, f, 'M', ['S']); a = cs.A; eps = cs.ps[0]; n += 1
        def el(i, j):
            k = T.fresh_k(); T.ranges[k] = a.cols; d = ('call', 'svd_D', (a.atom, k), 'S')
            return T.sum_(k, mul(mul(('call', 'svd_V', (a.atom, i, k), 'S'), ite(T.lt(d, eps), ZERO, inv(d))), ('call', 'svd_U', (a.atom, j, k), 'S')), a.cols)
        decide(c, f, 'Matrix::pseudoinverse(double)', cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'result', ret_val(r), Val(2, a.cols, a.rows, el)))
    for f in c.find('SymmetricMatrix_Wrapper::cholesky_semidefinite', need=False):
        n += 1
        for m in (1, 2, 3):
            cholesky(c, f, m)
            for q in range(m):
                cholesky(c, f, m, zero=q)
                cholesky(c, f, m, negative=q)
    return n

def cholesky(c, f, m, zero=None, negative=None):
    s = S0(f); name = 'SymmetricMatrix::cholesky_semidefinite, dimension %d' % m
    if zero is not None: name += ', zero pivot %d' % (zero + 1)
    if negative is not None: name += ', negative pivot %d' % (negative + 1)
    A = operand('this', 'Y'); A = Val(2, num(m), num(m), A.el, atom=A.atom, sym=True)
    val = PDModel(m, zero, negative)
    try:
        P_ = E.Path(c.p, []); P_.oracle = val.truth
        this, out = Box(A, 'Y'), Box(operand('arg0', 'M'), 'M')
        r = P_.run(f, this, [out])
        for g in P_.visited.values(): c.fns[g['id']] = g
        L = out.v
        bad = None
        if negative is not None: okr = scal(r) == FALSE
        else: okr = scal(r) == TRUE
        for i in range(m if negative is None else 0):
            for j in range(m):
                x = L.el(num(i), num(j))
                if j > i and val.diff(x, ZERO): bad = 'element (%d,%d) above the diagonal is %s' % (i + 1, j + 1, show(x)[:100])
                t = addall_([mul(L.el(num(i), num(k)), L.el(num(j), num(k))) for k in range(m)])
                if val.diff(t, A.el(num(i), num(j))): bad = bad or 'element (%d,%d) of L L\' is %s' % (i + 1, j + 1, show(t)[:300])
    except Und as x: return c.undecided(name, s, str(x))
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, ZeroDivisionError, OverflowError) as x:
        if os.environ.get('BFL_DEBUG'): raise
        return c.undecided(name, s, 'analysis failed: %r' % x)
    if negative is None: c.add(name + ': lower factor with L L\' = A', s.loc, 'violated' if bad else 'ok', bad or '')
    c.add(name + (': reports success' if negative is None else ': reports failure'), s.loc, 'ok' if okr else 'violated', 'result %s' % show(scal(r))[:100])

def addall_(ts):
    r = ZERO
    for t in ts: r = add(r, t)
    return r

class PDModel:
    """interpretations of the elements by positive (semi)definite or indefinite matrices, for deciding conditions and comparing terms"""
    def __init__(s, m, zero=None, negative=None):
        import random
        s.ms = []
        if zero is not None or negative is not None:
            # small integers and perfect squares as pivots: every operation on them is exact
            for q in range(6):
                R = random.Random(200 + q)
                G = [[(R.choice((1, 2, 4)) if i == j else R.randint(-4, 4) if j < i else 0) for j in range(m)] for i in range(m)]
                sg = [0 if k == zero else -1 if k == negative else 1 for k in range(m)]
                s.ms.append([[float(sum(sg[k] * G[i][k] * G[j][k] for k in range(m))) for j in range(m)] for i in range(m)])
            return
        for q in range(6):
            R = random.Random(100 + q); G = [[R.uniform(-2, 2) for _ in range(m)] for _ in range(m)]
            M = [[sum(G[i][k] * G[j][k] for k in range(m)) + (1.5 if i == j else 0) for j in range(m)] for i in range(m)]
            s.ms.append(M)
    def ev(s, t, M):
        import math
        from fractions import Fraction
        k = t[0]
        if k == 'n': return float(t[1])
        if t == TRUE: return True
        if t == FALSE: return False
        if k == 'call' and t[1] == 'el': return M[int(t[2][1][1])][int(t[2][2][1])]
        if k == 'P':
            r = 0.0
            for mon, cf in t[2]:
                v = float(cf)
                for f in mon: v *= s.ev(f, M)
                r += v
            return r
        if k == 'fn' and t[1] == 'sqrt': return math.sqrt(s.ev(t[2], M))
        if k == 'fn' and t[1] in ('abs', 'fabs'): return abs(s.ev(t[2], M))
        if k == 'inv': return 1.0 / s.ev(t[1], M)
        if k == 'ite': return s.ev(t[2], M) if s.ev(t[1], M) else s.ev(t[3], M)
        if k in ('gt0', 'gt'): return s.ev(t[1], M) > 0
        if k == 'not': return not s.ev(t[1], M)
        if k == 'eq': return s.ev(t[1], M) == s.ev(t[2], M)
        if k == 'call' and t[1] == 'epsilon': return 2.3e-16
        raise Und('term ' + k)
    def truth(s, c):
        vs = {bool(s.ev(c, M)) for M in s.ms}
        return vs.pop() if len(vs) == 1 else None
    def diff(s, a, b):
        return any(abs(s.ev(a, M) - s.ev(b, M)) > 1e-7 * max(1, abs(s.ev(b, M))) for M in s.ms)

def symcanon(t, at):
    def f(x):
        if x[0] == 'call' and x[1] == 'inv_el' and x[2][0] == at and repr(x[2][2]) < repr(x[2][1]): return ('call', 'inv_el', (at, x[2][2], x[2][1]), 'S')
        return T.rebuild(x, f) if isinstance(x, tuple) and x[0] in ('ite', 'P') else x
    r = f(t)
    return r[2] if r[0] == 'ite' and r[2] == r[3] else r

def dotval(r):
    if isinstance(r, (Val, E.Region, Box)):
        v = ret_val(r).as2(); return v.el(ZERO, ZERO)
    return scal(r)
def matchinner(a, b):
    """b with as many rows as a has columns"""
    if b.dim == 1 and b.orient == 'C': return vec(a.cols, b.el, 'C') if not (a.dim == 1 and a.orient == 'R') else vec(a.n, b.el, 'C')
    if b.dim == 1: return b
    if b.sym: return Val(2, a.cols, a.cols, b.el, atom=b.atom, sym=True)
    return Val(2, a.cols, b.cols, b.el, atom=b.atom)
def concat(a, b):
    n = a.n
    return vec(add(n, b.n), lambda i: ite(T.lt(i, n, True), a.el(i), b.el(sub(i, n))), a.orient)
def cmpcat(eqv, P_, got, a, b):
    eqv('result length', got.n, add(a.n, b.n))
    i = T.fresh_k(); T.ranges[i] = a.n; eqv('element of the first part', got.el(i), a.el(i))
    i = T.fresh_k(); T.ranges[i] = b.n; eqv('element of the second part', got.el(add(a.n, i)), b.el(i))

def ctor(c, f, K, ps, tag):
    cs = Case(c, f, K, ps); cs.A = E.Path(None, []).blank(K); q = cs.ps
    o = 'C' if K == 'V' else 'R'
    def dim(P_, r, t, ar, eqv, flag):
        v = t.v
        if K in 'VR': eqv('length', v.n, q[0] if q else ZERO)
        else: eqv('rows', v.rows, q[0] if q else ZERO); eqv('columns', v.cols, (q[1] if K == 'M' else q[0]) if q else ZERO)
    if all(p in 'IU' for p in ps) and len(ps) <= (2 if K == 'M' else 1): decide(c, f, tag, cs, dim); return True
    if K in 'VR' and ps in (['I', 'S'], ['U', 'S']):
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'object', t.v, vec(q[0], lambda i: q[1], o))); return True
    if K == 'M' and ps in (['I', 'R'], ['U', 'R']):
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'object', t.v, Val(2, q[0], q[1].n, lambda i, j: q[1].el(j)))); return True
    if K == 'V' and ps == ['V', 'V']:
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: cmpcat(eqv, P_, t.v, q[0], q[1])); return True
    if len(ps) == 1 and ps[0] == K:
        decide(c, f, tag, cs, lambda P_, r, t, ar, eqv, flag: compare(eqv, P_, 'object', t.v, q[0])); return True
    return False
def p19_boost(c): c.tag = '[boost] '; p19(c)
