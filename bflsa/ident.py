"""Identity test for terms whose normal forms differ.

Two closed forms may denote the same function although the rewriting in
terms.py does not bring them to one normal form.  Before a mismatch is
reported the two TERMS (not the program) are compared as functions: every
atom (entry value, uninterpreted call, random draw) is given an arbitrary
value and both sides are evaluated.  A single interpretation that separates
them is a witness of the mismatch; if none of many does, and every gate
condition occurring on only one of the sides took both truth values, the
terms are accepted as equal.  Anything that prevents the test leaves the
mismatch standing.
"""
import random, math
from fractions import Fraction
from .terms import *
from . import terms as T

class Skip(Exception): pass

class ndarray:
    """small dense matrix"""
    __slots__ = ('d', 'shape')
    def __init__(s, d): s.d = d; s.shape = (len(d), len(d[0]))
    def ravel(s): return [x for r in s.d for x in r]
    @property
    def T(s): return ndarray([list(c) for c in zip(*s.d)])
    def __matmul__(s, o):
        c = list(zip(*o.d)); return ndarray([[sum(x * y for x, y in zip(r, q)) for q in c] for r in s.d])
    def __add__(s, o): return ndarray([[x + y for x, y in zip(r, q)] for r, q in zip(s.d, o.d)])
    def __mul__(s, k): return ndarray([[x * k for x in r] for r in s.d])
    __rmul__ = __mul__
    def __getitem__(s, ij): return s.d[ij[0]][ij[1]]
    def copy(s): return ndarray([list(r) for r in s.d])
    def __setitem__(s, ij, v): s.d[ij[0]][ij[1]] = v
    def det(s):
        n = s.shape[0]
        if n == 1: return s.d[0][0]
        if n == 2: return s.d[0][0] * s.d[1][1] - s.d[0][1] * s.d[1][0]
        raise Skip('det')
    def inv(s):
        n = s.shape[0]; dt = s.det()
        if n == 1: return ndarray([[1 / s.d[0][0]]])
        (a, b), (c, e) = s.d
        return ndarray([[e / dt, -b / dt], [-c / dt, a / dt]])
def eye(n): return ndarray([[float(i == j) for j in range(n)] for i in range(n)])
def full(sh, v): return ndarray([[v] * sh[1] for _ in range(sh[0])])
LIM = 70
EPS = 1e-10

def rnd(x):
    if isinstance(x, bool): return bool(x)
    if isinstance(x, int): return int(x)
    x = float(x)
    if x != x: raise Skip('nan')
    if x in (math.inf, -math.inf): return x
    r = round(x)
    if abs(x - r) < 1e-12: return r
    return float('%.10g' % x)

def key(v):
    if isinstance(v, Obj): return v.key()
    if isinstance(v, ndarray): return ('mat', v.shape, tuple(rnd(x) for x in v.ravel()))
    if isinstance(v, Mx): return ('mx', key(v.a), tuple(sorted((k, key(x)) for k, x in v.ov.items())))
    if isinstance(v, tuple): return tuple(key(x) for x in v)
    if isinstance(v, str) or v is None: return v
    return rnd(v)

class Obj:
    __slots__ = ('m', 'base', 'el', 'fl', 'sz')
    def __init__(s, m, base, el=None, fl=None, sz=None):
        s.m = m; s.base = base; s.el = el or {}; s.fl = fl or {}; s.sz = sz
    def key(s):
        base = s.base
        el = tuple(sorted(((repr(k), key(v)) for k, v in s.el.items()), key=repr))
        fl = tuple(sorted(((k, key(v)) for k, v in s.fl.items()), key=repr))
        if s.sz is not None and all(i in s.el for i in range(s.sz)):
            out = tuple(x for x in el if x[0] not in [repr(i) for i in range(s.sz)])
            el = tuple((i, key(s.el[i])) for i in range(s.sz)) + out; base = 'tab'
        if not el and not fl and s.sz is None: return ('obj', base)
        return ('obj', base, el, fl, s.sz)
    def size(s):
        if s.sz is None: return s.m.atom(('size', s.base), 'U')
        return s.sz
    def at(s, i, kd):
        if i in s.el: return s.el[i]
        return s.m.atom(('sel', s.base, i), kd)
    def upd(s, i, v):
        if s.sz is None and i not in s.el and key(s.m.atom(('sel', s.base, i), s.m.kd_of(v))) == key(v): return s
        el = dict(s.el); el[i] = v
        if s.sz is None:
            pass
        return Obj(s.m, s.base, el, s.fl, s.sz)
    def fld(s, f, kd):
        if f in s.fl: return s.fl[f]
        return s.m.atom(('fld', s.base, f), kd)
    def setf(s, f, v):
        if f not in s.fl and key(s.m.atom(('fld', s.base, f), s.m.kd_of(v))) == key(v): return s
        fl = dict(s.fl); fl[f] = v
        return Obj(s.m, s.base, s.el, fl, s.sz)
    def mat(s, n):
        """fully materialised with n elements"""
        if n > LIM: raise Skip('long')
        z = s.size()
        return Obj(s.m, 'tab', {i: s.at(i, 'O') for i in range(n)}, {}, n)

class Mx:
    """matrix with elements written outside the interpretation's dimensions"""
    def __init__(s, a, ov): s.a = a; s.ov = ov

class Model:
    def __init__(self, seed, consts, hook=None):
        self.r = random.Random(seed); self.seed = seed
        self.at = {}; self.hook = hook
        self.d = 2
        r = self.r
        sm = r.choice([2, 3, 4, 5])
        self.ints = list(range(0, sm)) + [c for c in consts if isinstance(c, int) and 0 <= c <= 60 and r.random() < .5]
        self.reals = r.choice([[0, .25, .5, .75, 1], [i / 4 for i in range(-6, 9)], [i / 8 for i in range(1, 24)], [0, 1, .5, 2]])
        self.reals = self.reals + [x for c in consts if r.random() < .4 for x in (float(c), float(c) + .125, float(c) - .125)]
        fr = [float(c) for c in consts if isinstance(c, float) or abs(c) > 60]
        if fr and r.random() < .5:
            c = r.choice(fr); self.reals = [0, 1, .5, c, c / 2, c * 2, c / 4, c * 1.25]
        self.memo = {}; self.cov = {}
        self.steps = 0
    def kd_of(self, v):
        if isinstance(v, bool): return 'B'
        if isinstance(v, int): return 'I'
        if isinstance(v, float): return 'S'
        if isinstance(v, ndarray): return {(self.d, self.d): 'M', (self.d, 1): 'V', (1, self.d): 'R'}.get(v.shape, 'M')
        return 'O'
    def gen(self, k, kd):
        r = random.Random(repr((self.seed, k)))
        if kd == 'U': return r.choice(self.ints)
        if kd == 'I': return r.choice(self.ints + [-1])
        if kd == 'S': return rnd(r.choice(self.reals))
        if kd == 'B': return r.random() < .5
        if kd in MAT:
            sh = {'V': (self.d, 1), 'R': (1, self.d)}.get(kd, (self.d, self.d))
            a = ndarray([[r.randint(-12, 12) / 4 for _ in range(sh[1])] for _ in range(sh[0])])
            if sh[0] == sh[1]:
                if kd == 'Y': a = a + a.T
                a = a + eye(sh[0]) * 0.125
            return a
        return Obj(self, k)
    def nonneg(self, k):
        return rnd(abs(random.Random(repr((self.seed, k))).choice(self.reals)))
    def atom(self, k, kd):
        if k in self.at:
            v = self.at[k]
            if kd in MAT and not isinstance(v, (ndarray, Mx)): raise Skip('kind')
            return v
        v = None
        if self.hook: v = self.hook(self, k, kd)
        if v is None: v = self.gen(k, kd)
        self.at[k] = v
        return v
    # ------------------------------------------------------------ evaluation
    def ev(self, t, env):
        self.steps += 1
        if self.steps > 400000: raise Skip('too long')
        o = t[0]
        if o == 'n': return rnd(t[1])
        if o == 'T': return True
        if o == 'F': return False
        if o == 'b':
            return env[t[1]]
        if o == 'mu':
            if t[1] in env: return env[t[1]]
            raise Skip('mu')
        fb = T._freeb(t)
        hasmu = bool(env.get('mu'))
        mk = (id(t), tuple(env.get(l) for l in sorted(fb))) if not hasmu else None
        if mk is not None and mk in self.memo: return self.memo[mk][0]
        v = self.ev1(t, env)
        if isinstance(v, float): v = rnd(v)
        if mk is not None: self.memo[mk] = (v, t)
        return v
    def N(self, t, env):
        n = self.ev(t, env)
        if not isinstance(n, int): 
            if abs(n - round(n)) > 1e-6: raise Skip('N')
            n = int(round(n))
        if n > LIM: raise Skip('long')
        return max(n, 0)
    def bind(self, env, lvl, i):
        e = dict(env); e[lvl] = i; return e
    def numv(self, v):
        if isinstance(v, (Obj, str, tuple)) or v is None: raise Skip('not a number')
        if isinstance(v, float) and v != v: raise Skip('nan')
        return v
    def idx(self, v):
        if isinstance(v, float): raise Skip('idx')
        return key(v)
    def mulv(self, a, b):
        if isinstance(a, Mx) or isinstance(b, Mx): raise Skip('mx')
        if isinstance(a, ndarray) and isinstance(b, ndarray):
            if a.shape[1] != b.shape[0]: raise Skip('shape')
            r = a @ b
            return float(r[0, 0]) if r.shape == (1, 1) else r
        return self.numv(a) * self.numv(b)
    def addv(self, a, b):
        if isinstance(a, Mx) or isinstance(b, Mx): raise Skip('mx')
        if isinstance(a, ndarray) != isinstance(b, ndarray):
            if not isinstance(a, ndarray) and a == 0: return b
            if not isinstance(b, ndarray) and b == 0: return a
            raise Skip('shape')
        if isinstance(a, ndarray) and a.shape != b.shape: raise Skip('shape')
        return self.numv(a) + self.numv(b)
    def b(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, (int, float)): return bool(v)
        raise Skip('bool')
    def lv(self, x, env):
        """key of a location / arbitrary structure with embedded terms"""
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in ALLOPS and not (len(x) == 2 and x[0] in ('b',) and not isinstance(x[1], int)):
                return key(self.ev(x, env))
            return tuple(self.lv(y, env) for y in x)
        return x
    def ev1(self, t, env):
        o = t[0]; ev = self.ev
        if o == 'null': return Obj(self, 'null')
        if o == 'k':
            if t not in self.at:
                N = T.ranges.get(t)
                if N is None: return self.atom(t, 'U')
                n = self.N(N, env)
                if n <= 0: raise Skip('empty range')
                self.at[t] = random.Random(repr((self.seed, t))).randrange(n)
            return self.at[t]
        if o == 'P':
            r = None
            for m, c in t[2]:
                p = rnd(c)
                for f in m: p = self.mulv(p, ev(f, env))
                if isinstance(p, float) and p != p: raise Skip('nan')
                r = p if r is None else self.addv(r, p)
            return r
        if o == 'sc':
            p = None
            for f in t[1]:
                x = ev(f, env); p = x if p is None else self.mulv(p, x)
            return float(p) if not isinstance(p, ndarray) else float(p[0, 0]) if p.shape == (1, 1) else p
        if o == 'ite':
            c = self.b(t[1], env)
            self.cov.setdefault(t[1], set()).add(c)
            return ev(t[2] if c else t[3], env)
        if o == 'not': return not self.b(t[1], env)
        if o == 'gt0': return self.numv(ev(t[1], env)) > EPS
        if o == 'eq0': return abs(self.numv(ev(t[1], env))) <= EPS
        if o == 'eq':
            a, b = key(ev(t[1], env)), key(ev(t[2], env))
            if a == b: return True
            if isinstance(a, (int, float)) or isinstance(b, (int, float)): return False
            return self.atom(('eqp',) + tuple(sorted((a, b), key=repr)), 'B')
        if o == 'inv':
            x = ev(t[1], env)
            if isinstance(x, ndarray):
                if x.shape[0] != x.shape[1] or abs(x.det()) < 1e-3: raise Skip('singular')
                return x.inv()
            if isinstance(x, Mx): raise Skip('mx')
            if x != x: raise Skip('nan')
            if abs(self.numv(x)) < 1e-12: return math.inf        # as the machine does; what becomes undefined (nan) is skipped
            return 1.0 / x
        if o == 'tr':
            x = ev(t[1], env)
            if isinstance(x, ndarray): return x.T
            if isinstance(x, (int, float)): return x
            raise Skip('tr')
        if o == 'fn': return self.fn(t[1], [self.numv(ev(x, env)) for x in t[2:]])
        if o == 'fnm' and t[1] == 'I': return eye(self.d)
        if o == 'sel':
            a = ev(t[1], env); i = self.idx(ev(t[2], env))
            return self.sel(a, i, t[3])
        if o == 'fld':
            a = ev(t[1], env)
            if not isinstance(a, Obj): raise Skip('fld')
            return a.fld(t[2], t[3])
        if o == 'upd': return self.upd(ev(t[1], env), self.idx(ev(t[2], env)), ev(t[3], env))
        if o == 'rec':
            a = ev(t[1], env)
            if not isinstance(a, Obj): raise Skip('rec')
            for f, x in t[2]: a = a.setf(f, ev(x, env))
            return a
        if o == 'size':
            a = ev(t[1], env)
            if isinstance(a, Obj): return a.size()
            if isinstance(a, ndarray): return max(a.shape) if min(a.shape) == 1 else a.shape[0]
            raise Skip('size')
        if o in ('app', 'cat', 'resz', 'erase', 'erange'): return self.seq(t, env)
        if o == 'emptyc': return Obj(self, 'tab', {}, {}, 0)
        if o == 'ix': return tuple(self.idx(ev(x, env)) for x in t[1:])
        if o == 'str': return ('str', t[1])
        if o == 'cast':
            x = ev(t[2], env)
            if t[1] in ('I', 'U') and isinstance(x, float): return int(x)
            return x
        if o in ('sum', 'prod'):
            n = self.N(t[3], env); r = None
            for i in range(n):
                x = ev(t[2], self.bind(env, t[1], i))
                r = x if r is None else (self.addv if o == 'sum' else self.mulv)(r, x)
            if r is None:
                if kind(t[2]) in MAT:
                    return full({'V': (self.d, 1), 'R': (1, self.d)}.get(kind(t[2]), (self.d, self.d)), 0.0)
                return 0 if o == 'sum' else 1
            return r
        if o in ('all', 'exists'):
            n = self.N(t[3], env)
            g = (self.b(t[2], self.bind(env, t[1], i)) for i in range(n))
            return all(g) if o == 'all' else any(g)
        if o == 'until':
            for i in range(LIM):
                if self.b(t[2], self.bind(env, t[1], i)): return i
            raise Skip('until')
        if o == 'last':
            n = self.N(t[3], env)
            return ev(t[2], self.bind(env, t[1], n - 1)) if n > 0 else ev(t[4], env)
        if o == 'tab':
            n = self.N(t[3], env)
            return Obj(self, 'tab', {i: ev(t[2], self.bind(env, t[1], i)) for i in range(n)}, {}, n)
        if o == 'amap':
            a = ev(t[2], env); n = self.N(t[5], env)
            for i in range(n):
                e = self.bind(env, t[1], i)
                a = self.upd(a, self.idx(ev(t[3], e)), ev(t[4], e))
            return a
        if o == 'fold':
            a = ev(t[3], env); n = self.N(t[4], env)
            for i in range(n):
                e = self.bind(env, t[1], i); e[('acc', t[1])] = a; e['mu'] = True
                a = ev(t[2], e)
                if isinstance(a, float): a = rnd(a)
            return a
        if o == 'init':
            (root, path) = t[1]
            if root[0] == 'ref':
                base = ev(root[1], env)
                k = ('init', ('ref', key(base)), ())
            else: k = ('init', self.lv(root, env), ())
            if not path: return self.atom(k, t[2])
            v = self.atom(k, 'O')
            for f in path[:-1]:
                if not isinstance(v, Obj): raise Skip('init')
                v = v.fld(f, 'O') if not isinstance(f, tuple) else self.sel(v, self.lv(f, env), 'O')
            if not isinstance(v, Obj): raise Skip('init')
            f = path[-1]
            return v.fld(f, t[2]) if not isinstance(f, tuple) else self.sel(v, self.lv(f, env), t[2])
        if o == 'call': return self.call(t, env)
        if o == 'rnd':
            k = ('rnd', t[1], self.lv(t[2], env), self.lv(t[3], env))
            if k not in self.at and t[1] == 'runif' and not t[3]:
                v = self.hook(self, k, 'S') if self.hook else None
                self.at[k] = random.Random(repr((self.seed, k))).randrange(0, 8) / 8 if v is None else v
            return self.atom(k, 'S')
        if o in ('havoc', 'opq', 'lam', 'undef', 'sym'): raise Skip(o)
        if o == 'addr' or o == 'iter': return Obj(self, ('addr', self.lv(t[1:], env)))
        # uninterpreted
        k = (o,) + tuple(self.lv(x, env) for x in t[1:])
        kd = kind(t)
        return self.atom(k, kd)
    def sel(self, a, i, kd):
        if isinstance(a, Obj): return a.at(i, kd)
        if isinstance(a, Mx):
            if i in a.ov: return a.ov[i]
            return self.sel(a.a, i, kd)
        if isinstance(a, ndarray):
            j = i if isinstance(i, tuple) else ((i, 1) if a.shape[1] == 1 else (1, i))
            if len(j) == 2 and 1 <= j[0] <= a.shape[0] and 1 <= j[1] <= a.shape[1]: return float(a[j[0] - 1, j[1] - 1])
            return self.atom(('sel', key(a), i), kd)
        raise Skip('sel')
    def upd(self, a, i, v):
        if isinstance(a, Obj): return a.upd(i, v)
        if isinstance(a, ndarray):
            j = i if isinstance(i, tuple) else ((i, 1) if a.shape[1] == 1 else (1, i))
            if len(j) == 2 and 1 <= j[0] <= a.shape[0] and 1 <= j[1] <= a.shape[1]:
                b = a.copy(); b[j[0] - 1, j[1] - 1] = self.numv(v); return b
            return Mx(a, {i: v})
        if isinstance(a, Mx):
            ov = dict(a.ov); ov[i] = v; return Mx(a.a, ov)
        raise Skip('upd')
    def seq(self, t, env):
        o = t[0]; a = self.ev(t[1], env)
        if not isinstance(a, Obj): raise Skip(o)
        n = a.size()
        if n > LIM: raise Skip('long')
        L = [a.at(i, 'O') if i in a.el else None for i in range(n)]
        def g(i): return ('lazy', i)
        def mk(items):
            el = {}
            for i, x in enumerate(items):
                el[i] = x
            return Obj(self, 'tab', el, {}, len(items))
        full = [a.el[i] if i in a.el else Lazy(a, i) for i in range(n)]
        if o == 'app': items = full + [self.ev(t[2], env)]
        elif o == 'cat':
            b = self.ev(t[2], env)
            if not isinstance(b, Obj): raise Skip(o)
            items = full + [b.el[i] if i in b.el else Lazy(b, i) for i in range(b.size())]
        elif o == 'resz':
            m = self.N(t[2], env); d = self.ev(t[3], env)
            items = (full + [d] * m)[:m]
        elif o == 'erase':
            i = self.idx(self.ev(t[2], env))
            if not 0 <= i < n: raise Skip('erase')
            items = full[:i] + full[i + 1:]
        else:
            i = self.idx(self.ev(t[2], env)); m = self.ev(t[3], env)
            if i < 0 or m < 0 or i + m > n: raise Skip('erange')
            items = full[:i] + full[i + m:]
        return LObj(self, items)
    def fn(self, nm, a):
        try:
            if nm == 'pow':
                return a[0] ** a[1] if not (a[0] < 0 and a[1] != int(a[1])) else self.bad()
            if nm == 'fabs': return abs(a[0])
            if nm in ('isfinite',): return True
            if nm in ('isnan',): return False
            if nm == 'exp' and a[0] > 50: raise Skip('exp')
            if nm in ('sqrt', 'exp', 'log', 'floor', 'ceil', 'sin', 'cos', 'tan', 'atan2'): return getattr(math, nm)(*a)
            if nm == 'max': return max(a)
            if nm == 'min': return min(a)
        except (ValueError, ZeroDivisionError, OverflowError): raise Skip('math')
        return self.atom(('fn', nm) + tuple(key(x) for x in a), 'S')
    def bad(self): raise Skip('math')
    def call(self, t, env):
        nm = t[1]; a = [self.ev(x, env) for x in t[2]]
        if nm in ('rows', 'columns') and len(a) == 1 and isinstance(a[0], ndarray):
            return a[0].shape[0 if nm == 'rows' else 1]
        kd = t[3]
        if nm == 'filled' and kd in MAT and isinstance(a[1], (int, float)):
            return full({'V': (self.d, 1), 'R': (1, self.d)}.get(kd, (self.d, self.d)), float(a[1]))
        if nm == 'ident': return eye(self.d)
        if nm == 'determinant' and isinstance(a[0], ndarray): return float(a[0].det())
        return self.atom(('call', nm) + tuple(key(x) for x in a), kd)

class Lazy:
    def __init__(s, a, i): s.a = a; s.i = i

class LObj(Obj):
    """sequence whose untouched elements still belong to another container"""
    __slots__ = ('items',)
    def __init__(s, m, items):
        Obj.__init__(s, m, 'tab', {i: x for i, x in enumerate(items) if not isinstance(x, Lazy)}, {}, len(items))
        s.items = items
    def at(s, i, kd):
        if i in s.el: return s.el[i]
        if isinstance(i, int) and 0 <= i < len(s.items) and isinstance(s.items[i], Lazy): return s.items[i].a.at(s.items[i].i, kd)
        return s.m.atom(('sel', 'tab', i), kd)
    def upd(s, i, v):
        if isinstance(i, int) and 0 <= i < len(s.items):
            it = list(s.items); it[i] = v; return LObj(s.m, it)
        raise Skip('out of range write')
    def key(s):
        out = []
        for i, x in enumerate(s.items):
            if isinstance(x, Lazy):
                k = ('sel', x.a.base, x.i)
                v = s.m.at.get(k)
                out.append((i, key(v) if v is not None and not isinstance(x.a, LObj) else ('obj', k)))
            else: out.append((i, key(x)))
        return ('obj', 'tab', tuple(out), (), s.sz)

def consts(*ts):
    out = set(); seen = set(); st = list(ts)
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in seen: continue
        seen.add(x)
        if x and x[0] == 'n' and len(x) == 2 and isinstance(x[1], Fraction): out.add(x[1])
        elif x and x[0] == 'P':
            for m, c in x[2]: 
                if abs(c) != 1 or m == (): out.add(abs(c))
        st.extend(y for y in x if isinstance(y, tuple))
    r = set()
    for c in out:
        if c.denominator == 1:
            r |= {int(c), int(c) + 1, int(c) - 1}
        else: r.add(float(c))
    return sorted(r, key=repr)

def conds(t):
    out = []; T.gate_conds(t, out); return set(out)

def compare(a, b, trials=240, hook=None, under=(), seed=1):
    """-> ('same', n) | ('diff', seed) | ('unknown', why)"""
    try: return _compare(a, b, trials, hook, under, seed)
    except (Skip, KeyError, TypeError, RecursionError, AttributeError, IndexError, ValueError, ZeroDivisionError, OverflowError) as e:
        return 'unknown', repr(e)

def _compare(a, b, trials, hook, under, seed):
    cs = consts(a, b)
    if any(isinstance(c, int) and c > 60 for c in consts(a)) != any(isinstance(c, int) and c > 60 for c in consts(b)): return 'unknown', 'large constants'
    cov = {}; n = 0; err = None; bad = 0
    import time
    t0 = time.time()
    for s in range(trials * 25):
        if n >= trials or time.time() - t0 > (25 if n >= 20 else 120): break
        m = Model(seed * 1000 + s, cs, hook)
        try:
            if not all(m.b(u, {}) for u in under): continue
            va = m.ev(a, {}); vb = m.ev(b, {})
            ok = agree(va, vb)
        except Skip as e:
            err = e; bad += 1
            if bad > 200 and n == 0: break
            continue
        except (TypeError, OverflowError, ValueError) as e:
            err = e; bad += 1; continue
        if not ok: return 'diff', m
        n += 1
        for c, v in m.cov.items(): cov.setdefault(c, set()).update(v)
    if n < 20 and time.time() - t0 > 120: return 'slow', n
    if n < 20: return 'unknown', 'only %d interpretations (%r)' % (n, err)
    only = conds(a) ^ conds(b)
    cb = conds(b)
    for c in only:
        if T.any_sub(c, lambda x: x[0] == 'mu') or (c in cb and T.free_b(c)): continue   # redundant loop bounds
        if T.free_b(c) and bound_cond(c) and len(cov.get(c, ())) == 1: continue               # a loop variable against its own bound
        if len(cov.get(c, ())) < 2 and not (under and decided(c, cs, hook, under, seed)): return 'unknown', 'condition not exercised: %s' % show(c)[:120]
    return 'same', n

def bound_cond(c):
    """a comparison of whole numbers, one of them a loop variable, with small constants only"""
    if c[0] not in ('eq0', 'gt0'): return False
    p = c[1]
    if p[0] != 'P' or p[1] != 'I': return False
    for m, k in p[2]:
        if abs(k) > (4 if m == () else 1): return False
        if len(m) > 1 or any(x[0] not in ('b', 'init', 'fld', 'size') for x in m): return False
    return True

def decided(c, cs, hook, under, seed):
    """both values of c occur when the assumptions are dropped, one of them only where an assumption fails"""
    if T.free_b(c): return False
    got = {True: set(), False: set()}
    for s in range(2000):
        m = Model(seed * 1000 + s, cs, hook)
        try: got[m.b(c, {})].add(all(m.b(u, {}) for u in under))
        except (Skip, TypeError, OverflowError, ValueError): continue
        if len(got[True]) + len(got[False]) > 2 and sum(len(x) for x in got.values()) >= 3 and s > 300: break
    return bool(got[True] and got[False]) and (True not in got[True] or True not in got[False])

def agree(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b: return True
        if a != a or b != b or (math.isinf(a) and math.isinf(b)): raise Skip('nan')
        if math.isinf(a) or math.isinf(b): return False
        return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    if isinstance(a, ndarray) and isinstance(b, ndarray) and any(not math.isfinite(x) for m in (a, b) for x in m.ravel()): raise Skip('not finite')
    if isinstance(a, ndarray) and isinstance(b, ndarray):
        return a.shape == b.shape and all(abs(x - y) <= 1e-6 * max(1, abs(x), abs(y)) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, ndarray) != isinstance(b, ndarray): raise Skip('kinds')
    return key(a) == key(b)
