"""Herbrand-term abstract domain with a canonical form.

A term denotes the value a variable or a field holds at a program point as an
expression over the values at function entry.  Terms are nested tuples built
only through the constructors below, which keep them in normal form:
sums of products (commutative for scalars, ordered for matrices), gated
joins ('ite'), functional arrays ('upd', 'tab', 'amap'), and closed forms of
loops ('sum', 'prod', 'all', 'exists', 'until', 'fold', 'last').
Nothing here executes or samples the analysed program.
"""
from fractions import Fraction
from functools import lru_cache
import itertools, sys
sys.setrecursionlimit(20000)

ZERO = ('n', Fraction(0)); ONE = ('n', Fraction(1))
TRUE = ('T',); FALSE = ('F',)
NULL = ('null',)
MAT = ('M', 'V', 'R', 'Y')
BINDERS = {'sum', 'prod', 'tab', 'amap', 'fold', 'until', 'all', 'exists', 'last'}
_fresh = itertools.count(1)

def fresh():
    return next(_fresh)

def num(v):
    return ('n', Fraction(v))

# ---------------------------------------------------------------- kinds
def kind(t):
    o = t[0]
    if o == 'n': return 'I' if t[1].denominator == 1 else 'S'
    if o in ('init', 'call', 'ret', 'out', 'mu', 'sym', 'havoc', 'opq', 'rnd'): return t[-1]
    if o == 'P': return t[1]
    if o in ('sel', 'fld'): return t[-1]
    if o in ('T', 'F', 'not', 'gt0', 'eq0', 'eq', 'all', 'exists', 'has'): return 'B'
    if o == 'ite':
        a, b = kind(t[2]), kind(t[3])
        return a if a == b or b == 'O' else (a if t[3][0] == 'n' else b)
    if o == 'size' or o == 'k' or o == 'b' or o == 'until': return 'U'
    if o == 'sum': return kind(t[2])
    if o == 'prod': return kind(t[2])
    if o == 'last': return kind(t[2])
    if o == 'tr':
        k = kind(t[1]); return {'V': 'R', 'R': 'V'}.get(k, k)
    if o == 'inv': return kind(t[1])
    if o in ('sc', 'fn'): return 'S'
    if o == 'upd': return kind(t[1])
    if o == 'amap': return kind(t[2])
    if o == 'fold': return kind(t[3])
    if o == 'cast': return t[1]
    return 'O'

def ismat(t): return kind(t) in MAT

# ---------------------------------------------------------------- polynomials
def items(t):
    """term -> dict mono->coef"""
    if t[0] == 'n':
        return {(): t[1]} if t[1] != 0 else {}
    if t[0] == 'P':
        return dict(t[2])
    return {(t,): Fraction(1)}

def skey(x): return repr(x)

def _monokind(m):
    ms = [f for f in m if ismat(f)]
    if not ms:
        ks = {kind(f) for f in m}
        if 'S' in ks: return 'S'
        if 'I' in ks: return 'I'
        return 'U' if m else 'I'
    a, b = kind(ms[0]), kind(ms[-1])
    if len(ms) == 1: return a
    row1 = a == 'R'; col1 = b == 'V'
    if row1 and col1: return 'S'
    if row1: return 'R'
    if col1: return 'V'
    return 'M'

def mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return ZERO
    if len(d) > 1:
        z = [m for m in d if len(m) == 1 and m[0][0] == 'call' and m[0][1] == 'filled' and m[0][2][1] == ZERO]
        for m in z:
            if len(d) > 1: del d[m]
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return ('n', c)
        if c == 1 and len(m) == 1: return m[0]
    ks = [_monokind(m) for m in d]
    k = 'I'
    for x in ks:
        if x in MAT: k = x if k not in MAT else (k if k == x else 'M'); 
        elif k not in MAT:
            if x == 'S' or k == 'S': k = 'S'
            elif x == 'I' or k == 'I': k = 'I'
            else: k = 'U'
    if all(x in ('U', 'I') for x in ks): k = 'I'
    if any(c.denominator != 1 for c in d.values()) and k in ('I', 'U'): k = 'S'
    return ('P', k, tuple(sorted(d.items(), key=lambda mc: skey(mc[0]))))

def add(*ts):
    d = {}
    gates = None
    for t in ts:
        for m, c in items(t).items():
            d[m] = d.get(m, 0) + c
    return mkpoly(d)

def neg(t): return mul(num(-1), t)
def sub(a, b): return add(a, neg(b))

def _cancel(ms):
    """cancel adjacent x * inv(x) for matrices"""
    out = []
    for f in ms:
        if out and (inv(out[-1]) == f or out[-1] == inv(f)) and (f[0] == 'inv' or out[-1][0] == 'inv'):
            out.pop()
        else:
            out.append(f)
    return out

def _mulmono(m1, m2):
    """-> dict mono->coef"""
    sc = [f for f in m1 + m2 if not ismat(f)]
    ms = [f for f in m1 if ismat(f)] + [f for f in m2 if ismat(f)]
    ms = _cancel(ms)
    ms = [f for f in ms if f[0:2] != ('fnm', 'I')]
    if len(ms) > 1 and kind(ms[0]) == 'R' and kind(ms[-1]) == 'V':
        ch = tuple(ms); rv = tuple(tr_atom(f) for f in reversed(ms))
        sc.append(('sc', min(ch, rv, key=skey))); ms = []
    # scalar simplification x * inv(x)
    sc2 = []
    for f in sc:
        g = inv_atom(f)
        if g in sc2: sc2.remove(g)
        else: sc2.append(f)
    return tuple(sorted(sc2, key=skey)) + tuple(ms)

def mul(a, b):
    for x, y, left in ((a, b, True), (b, a, False)):
        if x[0] == 'ite' and (y[0] == 'n' and y[1] in (0, 1, -1)):
            if y[1] == 0: return ZERO
            if y[1] == 1: return x
    d = {}
    ia, ib = items(a), items(b)
    for m1, c1 in ia.items():
        for m2, c2 in ib.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(d)

def inv_atom(f):
    if f[0] == 'inv': return f[1]
    return ('inv', f)

def inv(t):
    """scalar reciprocal or matrix inverse"""
    if t[0] == 'n':
        return ('n', 1 / t[1]) if t[1] != 0 else ('inv', t)
    if t[0] == 'inv': return t[1]
    if t[0] == 'ite': return ite(t[1], inv(t[2]), inv(t[3]))
    if t[0] == 'P':
        if len(t[2]) == 1:
            (m, c), = t[2]
            sc = [f for f in m if not ismat(f)]; ms = [f for f in m if ismat(f)]
            # only split products of (assumed) square factors
            if not ms or all(kind(f) in ('M', 'Y') for f in ms):
                if not ms:
                    return mkpoly({tuple(sorted([inv_atom(f) for f in sc], key=skey)): 1 / c})
                if len(ms) == 1:
                    return mkpoly({tuple(sorted([inv_atom(f) for f in sc], key=skey)) + (inv_atom(ms[0]),): 1 / c})
        # normalise overall scale of a scalar sum
        if not ismat(t):
            c0 = t[2][0][1]
            if c0 != 1:
                return mul(('n', 1 / c0), ('inv', mkpoly({m: c / c0 for m, c in t[2]})))
    return ('inv', t)

def div(a, b): return mul(a, inv(b))

def tr_atom(f):
    k = kind(f)
    if k not in MAT or k == 'Y': return f
    if f[0] == 'tr': return f[1]
    if f[0] == 'inv':
        x = tr(f[1]); return ('inv', x) if x[0] != 'inv' else x[1]
    return ('tr', f)

def tr(t):
    if t[0] == 'ite': return ite(t[1], tr(t[2]), tr(t[3]))
    d = {}
    for m, c in items(t).items():
        sc = tuple(f for f in m if not ismat(f)); ms = tuple(tr_atom(f) for f in reversed(m) if ismat(f))
        d[sc + ms] = d.get(sc + ms, 0) + c
    return mkpoly(d)

# ---------------------------------------------------------------- booleans
def nonneg(t):
    k = kind(t)
    if t[0] == 'n': return t[1] >= 0
    if t[0] == 'P': return all(c >= 0 and all(kind(f) == 'U' for f in m) for m, c in t[2])
    return k == 'U'

def not_(c):
    if c == TRUE: return FALSE
    if c == FALSE: return TRUE
    if c[0] == 'not': return c[1]
    if c[0] == 'ite': return ite(c[1], not_(c[2]), not_(c[3]))
    if c[0] == 'all': return binder('exists', c[1], not_(c[2]), c[3], _lvl=True)
    return ('not', c)

def _scale(d):
    """positive scaling so the first coefficient has absolute value 1"""
    it = items(d)
    if not it: return d
    m = sorted(it, key=skey)
    c = None
    for x in m:
        if x != (): c = it[x]; break
    if c is None: return d
    return mkpoly({k: v / abs(c) for k, v in it.items()})

ranges = {}   # ('k',id) -> trip count

def gt0(d, integer=False):
    if d[0] == 'n': return TRUE if d[1] > 0 else FALSE
    if d[0] == 'ite': return ite(d[1], gt0(d[2], integer), gt0(d[3], integer))
    g = _gates(d)
    if g is not None:
        return ite(g, gt0(assume(d, g, True), integer), gt0(assume(d, g, False), integer))
    it = items(d)
    # d = -(nonneg) -> never positive ; d = nonneg + positive const -> always
    if all(c <= 0 for c in it.values()) and all(all(kind(f) == 'U' for f in m) for m in it): return FALSE
    if () in it and it[()] > 0 and all(c >= 0 for c in it.values()) and all(all(kind(f) == 'U' for f in m) for m in it if m): return TRUE
    if integer or kind(d) in ('I', 'U'):
        if ranges and any(len(m) == 1 and m[0] in ranges for m in it):
            if below(neg(d)): return TRUE
            if below(sub(d, ONE)): return FALSE
    if not integer:
        d = _scale(d)
    return ('gt0', d)

def _gates(t):
    """an 'ite' directly inside a polynomial -> its condition"""
    if t[0] == 'P':
        for m, c in t[2]:
            for f in m:
                if f[0] == 'ite': return f[1]
    return None

def lt(a, b, integer=False): return gt0(sub(b, a), integer)
def le(a, b, integer=False):
    if integer: return gt0(add(sub(b, a), ONE), True)
    return not_(lt(b, a))

def eq(a, b):
    if a == b: return TRUE
    for x, y in ((a, b), (b, a)):
        if x == TRUE: return y
        if x == FALSE: return not_(y)
        if x[0] == 'ite': return ite(x[1], eq(x[2], y), eq(x[3], y))
    num_ = ('S', 'I', 'U')
    if kind(a) in num_ and kind(b) in num_ :
        d = sub(a, b)
        if d[0] == 'n': return TRUE if d[1] == 0 else FALSE
        if d[0] == 'ite': return ite(d[1], eq(d[2], ZERO), eq(d[3], ZERO))
        it = items(d)
        if all(kind(f) == 'U' for m in it for f in m) and all(c > 0 for c in it.values()):
            if () in it: return FALSE
            return not_(gt0(d, True))
        d = _scale(d)
        it = items(d); m = [x for x in sorted(it, key=skey) if x != ()]
        if it[m[0]] < 0: d = neg(d)
        return ('eq0', d)
    if {a[0], b[0]} == {'null', 'addr'}: return FALSE
    if a[0] == 'addr' and b[0] == 'addr' and a[1][1][0] == 'new' and b[1][1][0] == 'new': return FALSE
    x, y = sorted((a, b), key=skey)
    return ('eq', x, y)

def and_(a, b): return ite(a, b, FALSE)
def or_(a, b): return ite(a, TRUE, b)
def conj(cs):
    r = TRUE
    for c in reversed(list(cs)): r = and_(c, r)
    return r

def ite(c, a, b):
    if c == TRUE: return a
    if c == FALSE: return b
    if c[0] == 'not': return ite(c[1], b, a)
    if c[0] == 'ite' and c[2] in (TRUE, FALSE) and c[3] in (TRUE, FALSE):
        return ite(c[1], a, b) if c[2] == TRUE else ite(c[1], b, a)
    if a == b: return a
    a = assume(a, c, True); b = assume(b, c, False)
    if a == b: return a
    if c[0] == 'gt0' and b[0] == 'ite' and b[2] == a and b[1][0] == 'gt0' and add(b[1][1], c[1]) == ZERO and eqmod(a, b[3], c[1]):
        return a      # n>m ? x : m>n ? x : y  with x = y when n = m
    if c[0] == 'eq0' and eqmod(a, b, c[1]): return b
    if a == TRUE and b == FALSE: return c
    if a == FALSE and b == TRUE: return not_(c)
    if c[0] == 'ite':
        # decision-tree condition: push outward so conditions stay atomic
        return ite(c[1], ite(c[2], a, b), ite(c[3], a, b))
    return ('ite', c, a, b)

def eqmod(a, b, d):
    """numeric a and b coincide whenever d = 0 ?"""
    if kind(a) not in ('S', 'I', 'U') or kind(b) not in ('S', 'I', 'U'): return False
    x = sub(a, b)
    if x == ZERO: return True
    ix, idd = items(x), items(d)
    if set(ix) != set(idd): return False
    m = next(iter(ix)); q = ix[m] / idd[m]
    return all(ix[k] == q * idd[k] for k in ix)

def _implied(x, c, val):
    """truth of atomic condition x given atomic condition c == val (or None)"""
    if x == c: return val
    if x[0] == 'not' : 
        r = _implied(x[1], c, val)
        return None if r is None else (not r)
    if c[0] == 'gt0' and x[0] == 'gt0':
        d = sub(x[1], c[1])
        if d[0] == 'n':
            if val and d[1] >= 0: return True
            if not val and d[1] <= 0: return False
        s = add(x[1], c[1])
        if s[0] == 'n':
            # x = s - c
            if val and s[1] <= 0: return False
            if val and s[1] <= 1 and kind(c[1]) in ('I', 'U'): return False
            if not val and s[1] > 0: return True
    if c[0] == 'eq0' and val and x[0] in ('gt0', 'eq0'):
        for sg in (1, -1):
            d = sub(x[1], mul(num(sg), c[1]))
            if d[0] == 'n':
                return d[1] > 0 if x[0] == 'gt0' else d[1] == 0
    if c[0] == 'gt0' and val and x[0] == 'eq0':
        for sg in (1, -1):
            d = sub(x[1], mul(num(sg), c[1]))
            if d[0] == 'n' and sg * d[1] >= 0: return False
    if c[0] == 'gt0' and not val and x[0] == 'eq0':
        for sg in (1, -1):
            d = sub(x[1], mul(num(sg), c[1]))
            if d[0] == 'n' and sg * d[1] < 0: return False
    if c[0] == 'eq' and x[0] == 'eq' and val:
        # a==const1 -> a!=const2 handled by eq on constants elsewhere
        return None
    return None

_assume_cache = {}
def assume(t, c, val):
    """simplify t under the condition c == val"""
    key = (t, c, val)
    r = _assume_cache.get(key)
    if r is None:
        r = _assume(t, c, val)
        if len(_assume_cache) > 400000: _assume_cache.clear()
        _assume_cache[key] = r
    return r

def has_ite(t):
    return _has_ite(t)

@lru_cache(maxsize=200000)
def _has_ite(t):
    if not isinstance(t, tuple): return False
    if t and t[0] in ('ite', 'gt0', 'eq0', 'eq', 'has', 'all', 'exists'): return True
    if t and kindB(t): return True
    return any(_has_ite(x) for x in t if isinstance(x, tuple))

def kindB(t):
    return isinstance(t[0], str) and t[0] in ('call', 'ret', 'init', 'fld', 'sel') and t[-1] == 'B'

def _assume(t, c, val):
    if c[0] == 'not': return assume(t, c[1], not val)
    if c[0] == 'ite' and val and c[3] == FALSE:
        return assume(assume(t, c[1], True), c[2], True)
    if c[0] == 'ite' and not val and c[2] == TRUE:
        return assume(assume(t, c[1], False), c[3], False)
    if c[0] == 'ite' and val and c[2] == FALSE:
        return assume(assume(t, c[1], False), c[3], True)
    if c[0] == 'ite' and not val and c[3] == TRUE:
        return assume(assume(t, c[1], True), c[2], False)
    if not isinstance(t, tuple) or not _has_ite(t): return t
    if t == c: return TRUE if val else FALSE
    if t[0] in ('gt0', 'eq0', 'not', 'eq'):
        r = _implied(t, c, val)
        if r is not None: return TRUE if r else FALSE
    if t[0] == 'ite':
        cc = assume(t[1], c, val)
        if cc == TRUE: return assume(t[2], c, val)
        if cc == FALSE: return assume(t[3], c, val)
        return ite(cc, assume(t[2], c, val), assume(t[3], c, val))
    return rebuild(t, lambda x: assume(x, c, val))

# ---------------------------------------------------------------- structure
def is_term(x): return isinstance(x, tuple) and len(x) > 0 and isinstance(x[0], str)

def rebuild(t, f):
    """apply f to the immediate sub-terms of t and renormalise"""
    o = t[0]
    if o in ('n', 'T', 'F', 'null', 'k', 'b', 'sym', 'mu'): return t
    if o == 'P':
        r = ZERO
        for m, c in t[2]:
            p = ('n', c)
            for x in m: p = mul(p, f(x))
            r = add(r, p)
        return r
    if o == 'ite': return ite(f(t[1]), f(t[2]), f(t[3]))
    if o == 'not': return not_(f(t[1]))
    if o == 'gt0': return gt0(f(t[1]), True)
    if o == 'eq0': return eq(f(t[1]), ZERO)
    if o == 'eq': return eq(f(t[1]), f(t[2]))
    if o == 'inv': return inv(f(t[1]))
    if o == 'tr': return tr(f(t[1]))
    if o == 'sc':
        r = ONE
        for x in t[1]: r = mul(r, f(x))
        return r
    if o == 'sel': return sel(f(t[1]), f(t[2]), t[3])
    if o == 'fld': return fld(f(t[1]), t[2], t[3])
    if o == 'upd': return upd(f(t[1]), f(t[2]), f(t[3]))
    if o == 'rec': return setflds(f(t[1]), [(k, f(v)) for k, v in t[2]])
    if o == 'size': return size(f(t[1]))
    if o == 'app': return ('app', f(t[1]), f(t[2]))
    if o == 'cat': return cat(f(t[1]), f(t[2]))
    if o == 'resz': return resz(f(t[1]), f(t[2]), f(t[3]))
    if o == 'erase': return ('erase', f(t[1]), f(t[2]))
    if o == 'erange': return erange(f(t[1]), f(t[2]), f(t[3]))
    if o == 'init':
        if t[1][0][0] == 'ref':
            r = f(t[1][0][1])
            return t if r == t[1][0][1] else ('init', (('ref', r), t[1][1]), t[2])
        return t
    if o == 'addr': return t if t[1][1][0] in ('loc', 'new', 'tmp') and not t[1][2] else ('addr', map_lv(t[1], f))
    if o == 'iter': return ('iter', map_lv(t[1], f), f(t[2]))
    if o in BINDERS:
        x = fresh_k()
        parts = open_binder(t, x)
        if o in NPOS: ranges[x] = parts[NPOS[o]]
        parts = [f(p) if i in OPENED[o] else f(p) for i, p in enumerate(parts)]
        return close_binder(o, x, parts)
    # generic: ('call', name, args-tuple.., kind)
    out = [o]
    for x in t[1:]:
        if is_term(x) and x[0] in ALLOPS: out.append(f(x))
        elif isinstance(x, tuple): out.append(tuple(f(y) if is_term(y) and y[0] in ALLOPS else y for y in x))
        else: out.append(x)
    out = tuple(out)
    if o == 'call': return simp_call(out)
    return out

ALLOPS = {'n', 'P', 'T', 'F', 'null', 'k', 'b', 'sym', 'mu', 'ite', 'not', 'gt0', 'eq0', 'eq', 'inv', 'tr', 'sc', 'sel', 'fld', 'upd', 'rec', 'size', 'app', 'cat', 'resz', 'erase', 'erange', 'init', 'addr', 'iter', 'call', 'ret', 'out', 'havoc', 'opq', 'rnd', 'fn', 'fnm', 'cast', 'ix', 'has', 'undef', 'eff', 'str', 'newmat', 'emptyc', 'pair'} | BINDERS

def _numsamples(t):
    # MCPdf::NumSamplesGet is the length of the list (an obligation of P02)
    if t[1] == 'NumSamplesGet' and len(t[2]) == 1: return size(('call', 'ListOfSamplesGet', t[2], 'O'))
call_simplifiers = [_numsamples]
def simp_call(t):
    for s in call_simplifiers:
        r = s(t)
        if r is not None: return r
    return t

def map_lv(lv, f):
    tag, root, path = lv
    if root[0] == 'ref': root = ('ref', f(root[1]))
    return (tag, root, tuple((s[0], f(s[1])) if s[0] == 'i' else s for s in path))

# binder term layouts: (op, lvl, part0, part1, ...)
OPENED = {'sum': (0,), 'prod': (0,), 'tab': (0,), 'all': (0,), 'exists': (0,), 'until': (0,), 'last': (0,),
          'amap': (1, 2), 'fold': (0,)}
# sum: body,N  prod: body,N  tab: body,N  all/exists: body,N  until: body   last: body,N,init
# amap: arr,idx,val,N    fold: body(with ('b',lvl) and acc ('sym',('acc',lvl))),init,N

NPOS = {'sum': 1, 'prod': 1, 'tab': 1, 'all': 1, 'exists': 1, 'last': 1, 'amap': 3, 'fold': 2}

def fresh_k(N=None):
    k = ('k', fresh())
    if N is not None: ranges[k] = N
    return k

def maxlvl(t):
    return _maxlvl(t)

@lru_cache(maxsize=200000)
def _maxlvl(t):
    if not isinstance(t, tuple): return 0
    m = 0
    if len(t) > 1 and t[0] in BINDERS: m = t[1]
    for x in t:
        if isinstance(x, tuple):
            y = _maxlvl(x)
            if y > m: m = y
    return m

def raw_replace(t, a, b):
    """syntactic replacement (no renormalisation) - used only for bound names"""
    if t == a: return b
    if not isinstance(t, tuple): return t
    if not contains(t, a): return t
    return tuple(raw_replace(x, a, b) if isinstance(x, tuple) else x for x in t)

def contains(t, a):
    return _contains(t, a)

@lru_cache(maxsize=400000)
def _contains(t, a):
    if t == a: return True
    if not isinstance(t, tuple): return False
    for x in t:
        if isinstance(x, tuple) and _contains(x, a): return True
    return False

def open_binder(t, k):
    o, lvl = t[0], t[1]
    parts = list(t[2:])
    for i in OPENED[o]:
        parts[i] = raw_replace(parts[i], ('b', lvl), k)
    if o == 'fold':
        parts[0] = raw_replace(parts[0], ('acc', lvl), ('acc',) + k[1:])
    return parts

def close_binder(o, k, parts):
    if o == 'sum': return sum_(k, *parts)
    if o == 'prod': return prod_(k, *parts)
    if o == 'tab': return tab(k, *parts)
    if o == 'all': return all_(k, *parts)
    if o == 'exists': return exists(k, *parts)
    if o == 'until': return until(k, *parts)
    if o == 'last': return last(k, *parts)
    if o == 'amap': return amap(k, *parts)
    if o == 'fold':
        return fold(k, *parts)
    raise Exception(o)

def resort(t):
    """after renaming bound names polynomials may be out of order: rebuild deeply"""
    if not is_term(t): return t
    return rebuild(t, resort)

def _close(k, *parts):
    lvl = 1 + max([maxlvl(p) for p in parts] + [0])
    return lvl, [canon_names(raw_replace(p, k, ('b', lvl))) for p in parts]

def canon_names(t):
    return _canon(t)

@lru_cache(maxsize=100000)
def _canon(t):
    """re-sort polynomial monomials after renaming (purely syntactic)"""
    if not isinstance(t, tuple): return t
    r = tuple(_canon(x) if isinstance(x, tuple) else x for x in t)
    if r and r[0] == 'P' and isinstance(r[1], str):
        ms = []
        for m, c in r[2]:
            sc = tuple(sorted([f for f in m if not ismat(f)], key=skey)); mm = tuple(f for f in m if ismat(f))
            ms.append((sc + mm, c))
        r = ('P', r[1], tuple(sorted(ms, key=lambda mc: skey(mc[0]))))
    elif r and r[0] == 'eq' and len(r) == 3:
        x, y = sorted(r[1:], key=skey); r = ('eq', x, y)
    return r

def binder(op, lvl, body, N, _lvl=True):
    k = fresh_k()
    b = raw_replace(body, ('b', lvl), k)
    return close_binder(op, k, [b, N])

def reindex(k, N, parts):
    """canonical direction: if k occurs only as (N-1-k) flip it"""
    if N is None: return parts
    if k not in ranges: ranges[k] = N
    parts = [prune_range(p, k) for p in parts]
    s = sub(sub(N, ONE), k)
    a = [substk(p, k, s) for p in parts]
    # measure: number of polynomial monomials with a negative coefficient of k alone
    if _negk(parts, k) > _negk(a, k): return a
    return parts

def prune_range(p, k):
    """drop gates on the index that its range decides"""
    if not has_ite(p) or not contains(p, k): return p
    cs = []; gate_conds(p, cs)
    for c in cs:
        if not contains(c, k): continue
        if c[0] == 'eq0' and (below(c[1]) or below(neg(c[1]))): p = assume(p, c, False)
        elif c[0] == 'gt0':
            if below(c[1]) or below(sub(c[1], ONE)) and all(kind(f) in ('U', 'I', 'k') for m in items(c[1]) for f in m): p = assume(p, c, False)
            elif below(neg(c[1])): p = assume(p, c, True)
    return p

def _negk(parts, k):
    n = 0
    st = list(parts)
    while st:
        x = st.pop()
        if not isinstance(x, tuple): continue
        if x and x[0] == 'P':
            for m, c in x[2]:
                if m == (k,) and c < 0: n += 1
        st.extend(y for y in x if isinstance(y, tuple))
    return n

def sum_(k, body, N):
    if body == ZERO: return ZERO
    if body[0] != 'ite' and not contains(body, k): return mul(N, body)
    if N == ONE: return substk(body, k, ZERO)
    if N == ZERO: return ZERO
    body, = reindex(k, N, [body])
    if N[0] == 'P':
        c0 = dict(N[2]).get((), 0)
        if 0 < c0 <= 4 and c0.denominator == 1:
            n1 = sub(N, ONE)
            k2 = fresh_k(); ranges[k2] = n1
            return add(sum_(k2, substk(body, k, k2), n1), substk(body, k, n1))
    r = ZERO
    for m, c in items(body).items():
        ind = [f for f in m if not contains(f, k)]
        dep = [f for f in m if contains(f, k)]
        if not dep:
            r = add(r, mul(N, mkpoly({m: c}))); continue
        # pull scalars out, and leading/trailing invariant matrices
        sc = [f for f in ind if not ismat(f)]
        mats = [f for f in m if ismat(f)]
        pre, post = [], []
        while mats and not contains(mats[0], k) and len(mats) > 1: pre.append(mats.pop(0))
        while mats and not contains(mats[-1], k) and len(mats) > 1: post.insert(0, mats.pop())
        inner = mkpoly({tuple(sorted([f for f in dep if not ismat(f)], key=skey)) + tuple(mats): Fraction(1)})
        if len(mats) == 1 and not contains(mats[0], k):
            # scalar sum times invariant matrix
            inner2 = mkpoly({tuple(sorted([f for f in dep if not ismat(f)], key=skey)): Fraction(1)})
            lvl, (b,) = _close(k, inner2)
            s = ('sum', lvl, b, N)
            t = mul(mul(('n', c), s), mats[0])
        elif len(mats) == 1 and mats[0][0] == 'tr':
            t = mul(('n', c), tr(sum_(k, mkpoly({tuple(sorted([f for f in dep if not ismat(f)], key=skey)) + (mats[0][1],): Fraction(1)}), N)))
        else:
            lvl, (b,) = _close(k, inner)
            s = ('sum', lvl, b, N)
            t = mul(('n', c), s)
        for f in reversed(pre): t = mul(f, t)
        for f in post: t = mul(t, f)
        for f in sc: t = mul(f, t)
        r = add(r, t)
    return r

def prod_(k, body, N):
    if body == ONE: return ONE
    if N == ONE: return substk(body, k, ZERO)
    if not contains(body, k): return ('fn', 'pow', body, N)
    body, = reindex(k, N, [body])
    lvl, (b,) = _close(k, body)
    return ('prod', lvl, b, N)

def all_(k, body, N):
    if body == TRUE: return TRUE
    if N == ZERO: return TRUE
    if N == ONE: return substk(body, k, ZERO)
    if not contains(body, k): return or_(not_(gt0(N, True)), body)
    body, = reindex(k, N, [body])
    lvl, (b,) = _close(k, body)
    return ('all', lvl, b, N)

def exists(k, body, N):
    # kept in one polarity: exists = not all not
    return not_raw(all_(k, not_(body), N))

def not_raw(c):
    if c in (TRUE, FALSE): return not_(c)
    if c[0] == 'not': return c[1]
    if c[0] == 'ite': return not_(c)
    return ('not', c)

def until(k, cond):
    """least k such that cond(k) holds"""
    lvl, (b,) = _close(k, cond)
    return ('until', lvl, b)

def last(k, body, N, init):
    if not contains(body, k):
        return ite(gt0(N, True), body, init)
    if N == ONE: return substk(body, k, ZERO)
    lvl, (b,) = _close(k, body)
    return ('last', lvl, b, N, init)

def tab(k, body, N):
    body, = reindex(k, N, [body])
    # eta: tab(sel(a,k), size a) = a
    if body[0] == 'sel' and body[2] == k and not contains(body[1], k) and size(body[1]) == N:
        return body[1]
    lvl, (b,) = _close(k, body)
    return ('tab', lvl, b, N)

def fold(k, body, init, N):
    acc = ('acc',) + k[1:]
    if not contains(body, acc): return last(k, body, N, init)
    lvl = 1 + max(maxlvl(body), maxlvl(init), maxlvl(N))
    b = raw_replace(raw_replace(body, k, ('b', lvl)), acc, ('acc', lvl))
    return ('fold', lvl, canon_names(b), init, N)

def acc_of(k, kd): return ('mu', ('acc',) + k[1:], kd)

def amap(k, arr, idx, val, N):
    """array arr with arr[idx(k)] := val(k) for k in [0,N)"""
    if N == ZERO: return arr
    idx, val = reindex(k, N, [idx, val])
    if N == ONE: return upd(arr, substk(idx, k, ZERO), substk(val, k, ZERO))
    off = sub(idx, k)
    if off == ZERO:
        if size(arr) == N: return tab(k, val, N)
    if off == ONE and kind(arr) in ('V', 'R') and size(arr) == N:
        return tabv(k, val, N, kind(arr))
    lvl, (b1, b2) = _close(k, idx, val)
    return ('amap', lvl, arr, b1, b2, N)

def tabv(k, val, N, kd):
    lvl, (b,) = _close(k, val)
    return ('opq', 'tabv', b, N, kd) if False else ('amap', lvl, ('call', 'blank', (), kd), canon_names(raw_replace(add(k, ONE), k, ('b', lvl))), b, N)

# ---------------------------------------------------------------- arrays/records
size_ax = {}
same_shape = {}   # loop-carried value -> value with the same dimensions
def size(v):
    if v in size_ax: return size_ax[v]
    if v in same_shape: return size(same_shape[v])
    o = v[0]
    if o == 'upd': return size(v[1])
    if o == 'tab': return v[3]
    if o == 'amap': return size(v[2])
    if o == 'app': return add(size(v[1]), ONE)
    if o == 'cat': return add(size(v[1]), size(v[2]))
    if o == 'resz': return v[2]
    if o == 'erase': return sub(size(v[1]), ONE)
    if o == 'erange': return sub(size(v[1]), v[3])
    if o == 'emptyc': return ZERO
    if o == 'ite': return ite(v[1], size(v[2]), size(v[3]))
    return ('size', v)

def cat(a, b):
    if size(b) == ZERO: return a
    if a[0] == 'emptyc': return b
    return ('cat', a, b)


def inrange(b, N):
    """is the index b provably within [0,N) ?"""
    if b[0] == 'ix' or kind(b) not in ('S', 'I', 'U'): return None
    return (below(sub(b, N)) and (nonneg(b) or below(sub(neg(b), ONE)))) or None

def below(d, depth=0):
    """d < 0 for every value of the loop indices within their ranges?"""
    it = items(d)
    if d[0] == 'n': return d[1] < 0
    if () in it and it[()] < 0 and all(c <= 0 and all(kind(f) == 'U' for f in m) for m, c in it.items()): return True
    if depth > 4: return False
    for m, c in it.items():
        if len(m) != 1 or m[0][0] != 'k' or ranges.get(m[0]) is None: continue
        k = m[0]
        e = add(d, mul(num(-c), k), mul(num(c), sub(ranges[k], ONE)) if c > 0 else ZERO)
        if below(e, depth + 1): return True
    return False

def idx_eq(a, b):
    """True/False/None"""
    if a == b: return True
    if a[0] == 'ix' and b[0] == 'ix':
        r = [idx_eq(x, y) for x, y in zip(a[1:], b[1:])]
        if False in r: return False
        return None
    d = sub(a, b) if a[0] != 'ix' and b[0] != 'ix' and kind(a) in 'SIU' and kind(b) in 'SIU' else None
    if d is not None and d[0] == 'n': return d[1] == 0
    if d is not None and (below(d) or below(neg(d))): return False
    if a[0] == 'str' and b[0] == 'str': return a == b
    return None

def sel(v, i, kd):
    o = v[0]
    if o == 'ite': return ite(v[1], sel(v[2], i, kd), sel(v[3], i, kd))
    if i[0] == 'ite': return ite(i[1], sel(v, i[2], kd), sel(v, i[3], kd))
    if o == 'upd':
        e = idx_eq(v[2], i)
        if e is True: return v[3]
        if e is False: return sel(v[1], i, kd)
    elif o == 'tab':
        return substb(v, i)
    elif o == 'amap':
        k = fresh_k()
        arr, idx, val, N = open_binder(v, k)
        if idx[0] != 'ix':
            off = sub(idx, k)
            if not contains(off, k):
                b = sub(i, off)
                r = inrange(b, N)
                if r: return substk(val, k, b)
                if b == num(-1) or (b[0] == 'n' and b[1] < 0): return sel(arr, i, kd)
                d = sub(b, N)
                if nonneg(d): return sel(arr, i, kd)
                if kind(arr) in MAT and arr == ('call', 'blank', (), kind(arr)): return substk(val, k, b)
    elif o == 'app':
        d = sub(i, size(v[1]))
        if d == ZERO: return v[2]
        if inrange(i, size(v[1])) or (d[0] == 'n' and d[1] < 0): return sel(v[1], i, kd)
    elif o == 'cat':
        if inrange(i, size(v[1])): return sel(v[1], i, kd)
        d = sub(i, size(v[1]))
        if inrange(d, size(v[2])): return sel(v[2], d, kd)
    elif o == 'erange':
        if v[2] == ZERO or nonneg(sub(i, v[2])): return sel(v[1], add(i, v[3]), kd)
    elif o == 'P' and v[1] in ('V', 'R', 'M', 'Y'):
        # elements of a sum of scaled matrices
        d = []
        for m, c in v[2]:
            ms = [f for f in m if ismat(f)]; sc = [f for f in m if not ismat(f)]
            if len(ms) == 1: e = sel(ms[0], i, kd)
            else: e = ('sel', mkpoly({tuple(ms): Fraction(1)}), i, kd)
            d.append(mul(mkpoly({tuple(sc): c}) if sc else num(c), e))
        if not (len(d) == 1 and v[2][0][1] == 1 and not any(not ismat(f) for f in v[2][0][0])): return add(*d)
    elif o == 'resz':
        if inrange(i, size(v[1])): return sel(v[1], i, kd)
        # known new default elements when old size is zero
        if size(v[1]) == ZERO: return v[3]
    return ('sel', v, i, kd)

def upd(v, i, x):
    if v[0] == 'upd' and idx_eq(v[2], i) is True: return upd(v[1], i, x)
    if x[0] == 'sel' and x[1] == v and x[2] == i: return v
    if v[0] == 'app' and sub(i, size(v[1])) == ZERO: return ('app', v[1], x)
    if v[0] == 'upd' and i[0] == 'n' and v[2][0] == 'n' and v[2][1] > i[1]:
        # distinct constant slots commute: keep them in ascending order
        return upd(upd(v[1], i, x), v[2], v[3])
    r = ('upd', v, i, x)
    if i[0] == 'n':
        # slots overwritten here need no value from an earlier loop that only
        # wrote those same slots
        sl = set(); b = r; chain = []
        while b[0] == 'upd' and b[2][0] == 'n': sl.add(b[2]); chain.append((b[2], b[3])); b = b[1]
        if b[0] == 'fold':
            w = const_slots(b[2], b[1])
            if w is not None and w <= sl:
                b = b[3]
                for j, y in reversed(chain): b = upd(b, j, y)
                return b
    return r

def const_slots(t, lvl):
    """constant slots written by a fold body that is a chain of updates of its accumulator"""
    if t[0] == 'mu' and t[1] == ('acc', lvl): return set()
    if t[0] == 'ite':
        a, b = const_slots(t[2], lvl), const_slots(t[3], lvl)
        return None if a is None or b is None else a | b
    if t[0] == 'upd' and t[2][0] == 'n':
        a = const_slots(t[1], lvl)
        return None if a is None else a | {t[2]}
    return None

def erange(v, i, n):
    """v without the n elements from position i on"""
    if n == ZERO: return v
    return ('erange', v, i, n)

def resz(v, n, dflt):
    if size(v) == n: return v
    return ('resz', v, n, dflt)

def fld(v, f, kd):
    o = v[0]
    if o == 'rec':
        for k, x in v[2]:
            if k == f: return x
        return fld(v[1], f, kd)
    if o == 'ite': return ite(v[1], fld(v[2], f, kd), fld(v[3], f, kd))
    if o == 'init': return ('init', (v[1][0], v[1][1] + (f,)), kd)
    return ('fld', v, f, kd)

def setflds(v, kvs):
    base, d = v, {}
    if v[0] == 'rec': base = v[1]; d = dict(v[2])
    for k, x in kvs: d[k] = x
    d = {k: x for k, x in d.items() if x != fld(base, k, kind(x))}
    if not d: return base
    return ('rec', base, tuple(sorted(d.items())))

def setfld(v, f, x):
    return setflds(v, [(f, x)])

# ---------------------------------------------------------------- substitution
def subst(t, m):
    """replace whole sub-terms according to dict m, renormalising"""
    if not m: return t
    memo = {}
    def go(x):
        if not isinstance(x, tuple): return x
        if x in m: return m[x]
        if x in memo: return memo[x]
        if not any(contains(x, a) for a in m):
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)

def substk(t, k, v): return subst(t, {k: v})

def substb(t, i):
    k = fresh_k()
    body = open_binder(t, k)[0]
    return substk(body, k, i)

def leaves(t, pred=lambda x: x[0] == 'init'):
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in seen: continue
        seen.add(x)
        if x and isinstance(x[0], str) and pred(x): out.add(x)
        st.extend(y for y in x if isinstance(y, tuple))
    return out

def any_sub(t, pred):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in seen: continue
        seen.add(x)
        if x and isinstance(x[0], str) and pred(x): return x
        st.extend(y for y in x if isinstance(y, tuple))
    return None

# ---------------------------------------------------------------- comparison
def gate_conds(t, out, seen=None):
    if seen is None: seen = set()
    if not isinstance(t, tuple) or t in seen: return
    seen.add(t)
    if t and t[0] == 'ite' and len(t) == 4:
        out.append(t[1])
    for x in t:
        if isinstance(x, tuple): gate_conds(x, out, seen)

def free_b(t):
    """does t mention a bound index (so it cannot be split on from outside)?"""
    return bool(_freeb(t))

@lru_cache(maxsize=200000)
def _freeb(t):
    """levels of the bound indices occurring free in t"""
    if not isinstance(t, tuple) or not t: return frozenset()
    if t[0] == 'b' and len(t) == 2: return frozenset((t[1],))
    r = frozenset()
    for x in t:
        if isinstance(x, tuple): r |= _freeb(x)
    if t[0] in BINDERS and len(t) > 2: r -= {t[1]}
    return r

@lru_cache(maxsize=100000)
def erase(t):
    """forget the type annotations carried by a term (they never carry meaning
    beyond choosing the normal form)"""
    if not isinstance(t, tuple): return t
    o = t[0] if t else None
    if o == 'n' and len(t) == 2: return ('n', t[1] if t[1].denominator < 10**6 else '%.11g' % float(t[1]))
    if isinstance(o, Fraction) or (len(t) == 2 and isinstance(t[1], Fraction)):
        return tuple(erase(x) if isinstance(x, tuple) else (('%.11g' % float(x)) if isinstance(x, Fraction) and x.denominator >= 10**6 else x) for x in t)
    r = tuple(erase(x) if isinstance(x, tuple) else x for x in t)
    if o in ('init', 'call', 'mu', 'sym', 'rnd', 'sel', 'fld', 'ret', 'out', 'havoc', 'opq') and isinstance(t[-1], str) and len(t) > 2 and t[-1] not in MAT: r = r[:-1] + ('*',)
    elif o == 'P' and t[1] not in MAT: r = ('P', '*') + r[2:]
    elif o == 'cast' and len(t) == 3 and t[1] not in MAT: r = ('cast', '*', r[2])
    return r

def firstdiff(a, b):
    """smallest pair of differing subterms, for reports"""
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and a[0] == b[0]:
        d = [(x, y) for x, y in zip(a, b) if x != y]
        if len(d) != 1 or not isinstance(d[0][0], tuple) or not isinstance(d[0][1], tuple): break
        if not d[0][0] or not isinstance(d[0][0][0], str) or not d[0][1] or not isinstance(d[0][1][0], str): break
        a, b = d[0]
    return a, b

def same(a, b, depth=0):
    """canonical equality, splitting on the gate conditions of both terms"""
    if a == b or _canon(erase(a)) == _canon(erase(b)): return True
    cs = []
    gate_conds(a, cs); gate_conds(b, cs)
    cs = [c for c in cs if not free_b(c)]
    if not cs or depth > 12: return False
    c = cs[0]
    a1, b1 = assume(a, c, True), assume(b, c, True)
    a2, b2 = assume(a, c, False), assume(b, c, False)
    if (a1, b1) == (a, b) and (a2, b2) == (a, b): return False
    return same(a1, b1, depth + 1) and same(a2, b2, depth + 1)

def cases(t, limit=256):
    """decision-tree leaves of t: list of (conds, value) with gates pulled out"""
    out = []
    def go(x, cs):
        if len(out) > limit: return
        g = []
        gate_conds(x, g)
        g = [c for c in g if not free_b(c)]
        if not g:
            out.append((tuple(cs), x)); return
        c = g[0]
        a, b = assume(x, c, True), assume(x, c, False)
        if a == x and b == x:
            out.append((tuple(cs), x)); return
        go(a, cs + [c]); go(b, cs + [not_(c)])
    go(t, [])
    return out

# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, tuple): return str(t)
    if d > 14: return '...'
    o = t[0] if t else ''
    s = lambda x: show(x, d + 1)
    if o == 'n': return str(t[1]) if t[1].denominator == 1 else repr(float(t[1]))
    if o == 'T': return 'true'
    if o == 'F': return 'false'
    if o == 'null': return 'NULL'
    if o == 'P':
        ps = []
        for m, c in t[2]:
            b = '*'.join(s(f) for f in m)
            ps.append(b if c == 1 and b else ('-' + b if c == -1 and b else (s(('n', c)) + ('*' + b if b else ''))))
        return '(' + ' + '.join(ps) + ')'
    if o == 'init': return showloc(t[1])
    if o == 'k': return 'k%d' % t[1]
    if o == 'b': return 'i%d' % t[1]
    if o == 'ite': return '[%s ? %s : %s]' % (s(t[1]), s(t[2]), s(t[3]))
    if o == 'not': return '!' + s(t[1])
    if o == 'gt0': return '(%s > 0)' % s(t[1])
    if o == 'eq0': return '(%s == 0)' % s(t[1])
    if o == 'eq': return '(%s == %s)' % (s(t[1]), s(t[2]))
    if o == 'inv': return 'inv(%s)' % s(t[1])
    if o == 'tr': return s(t[1]) + "'"
    if o == 'sc': return '(' + '*'.join(s(x) for x in t[1]) + ')'
    if o == 'sel': return '%s[%s]' % (s(t[1]), s(t[2]))
    if o == 'fld': return '%s.%s' % (s(t[1]), t[2].split('::')[-1])
    if o == 'upd': return '%s{[%s]:=%s}' % (s(t[1]), s(t[2]), s(t[3]))
    if o == 'rec': return '%s{%s}' % (s(t[1]), ', '.join('%s:=%s' % (k.split('::')[-1], s(v)) for k, v in t[2]))
    if o == 'size': return 'size(%s)' % s(t[1])
    if o in ('sum', 'prod', 'tab', 'all', 'exists'):
        return '%s{i%d<%s}(%s)' % (o, t[1], s(t[3]), s(t[2]))
    if o == 'until': return 'min{i%d}(%s)' % (t[1], s(t[2]))
    if o == 'last': return 'last{i%d<%s}(%s else %s)' % (t[1], s(t[3]), s(t[2]), s(t[4]))
    if o == 'amap': return '%s{[%s]:=%s | i%d<%s}' % (s(t[2]), s(t[3]), s(t[4]), t[1], s(t[5]))
    if o == 'fold': return 'fold{i%d<%s}(%s from %s)' % (t[1], s(t[4]), s(t[2]), s(t[3]))
    if o == 'call': return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2]))
    if o == 'ret': return 'ret:' + s(t[1])
    if o == 'out': return 'out%s:%s' % (t[2], s(t[1]))
    if o == 'fn': return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2:]))
    if o == 'addr': return '&' + showloc(t[1][1:])
    if o == 'iter': return 'it(%s,%s)' % (showloc(t[1][1:]), s(t[2]))
    if o == 'rnd': return 'rnd:%s#%s' % (t[1], t[2])
    if o == 'mu': return 'mu%s' % (t[1],)
    if o == 'sym': return str(t[1])
    if not isinstance(o, str): return '(' + ', '.join(s(x) for x in t) + ')'
    return o + '(' + ', '.join(s(x) if is_term(x) else str(x) for x in t[1:]) + ')'

def showloc(loc):
    root, path = loc[0], loc[1]
    if root[0] == 'this': r = 'this'
    elif root[0] == 'ref': r = '*' + show(root[1])
    elif root[0] in ('par',): r = root[1]
    else: r = '%s%s' % (root[0], root[1])
    for p in path:
        if isinstance(p, tuple):
            if p[0] == 'i': r += '[%s]' % show(p[1])
            else: r += '.' + p[1].split('::')[-1]
        else: r += '.' + p.split('::')[-1]
    return r
