"""Every sampler draws from the distribution it belongs to: inversion of the
cumulative table with one uniform draw per sample, ordered uniforms for the
RIPLEY method, L z + mu for Gaussians, one uniform per coordinate for boxes."""
from ..rule import *
from ..stdlib import fn_
from .models import thisp
import random
DEFAULT, BOXMULLER, CHOLESKY, RIPLEY = 0, 1, 2, 3

def table_hook(field, n):
    """interpretations in which the entry table is a cumulative table over n>=1 entries"""
    nt = X(n).t
    def hook(m, k, kd):
        if k[0] == 'sel' and isinstance(k[1], tuple) and k[1][0] == 'fld' and k[1][2] == field and isinstance(k[2], int):
            N = m.ev(nt, {})
            if not isinstance(N, int) or N < 1: return None
            r = random.Random(repr((m.seed, 'table')))
            inner = sorted(r.randrange(0, 9) / 8 for _ in range(N - 1))
            t = [0.0] + inner + [1.0]
            if 0 <= k[2] <= N: return t[k[2]]
        return None
    return hook

def position(u, cum, n):
    """the entry i with cum[i] <= u < cum[i+1]"""
    return UNTIL(lambda k: k.ge(n) | cum(k).gt(u)) - 1

def inversion(c, s, name, got, cum, n, u=None, under=()):
    u = RND('runif', 1) if u is None else u
    return c.eq(s, name, got, position(u, cum, n), under=list(under))

def ordered(num, i):
    """i-th smallest of num uniforms built from num independent draws (Ripley)"""
    top = X(num) - 1
    r = lambda j: RND('runif', 1, at=(j,))
    p = FN('pow', r(top), X(1) / num)
    return p * PROD(top - i, lambda j: FN('pow', r(X(i) + j), X(1) / (X(i) + j + 1)))

def meth(s):
    """index of the method argument"""
    for i, p in enumerate(s.fn['params']):
        if 'SampleMthd' in p['t']: return i

def discrete_like(c, K, cumf, n, item, lab, pre=''):
    """n entries, cumulative table field cumf, item(index) -> value of the sample, or a component"""
    C = X(thisp(cumf)); cum = lambda i: C.at(i, 'S')
    old = c.hook; c.hook = table_hook(cumf, n); c.axioms = [X(n).gt(0)]
    try:
        for f in c.find(K + '::SampleFrom', lambda f: len(f['params']) == 3):
            s = c.run(f); nm = lab + ': one sample'
            if not s.ok: c.undecided(nm, s, s.err); continue
            m = s.arg(meth(s)); D = m.eq(DEFAULT)
            item(c, s, nm, None, position(RND('runif', 1), cum, n), [D], m)
            other(c, s, nm, [DEFAULT])
        for f in c.find(K + '::SampleFrom', lambda f: len(f['params']) == 4):
            s = c.run(f)
            if not s.ok: c.undecided(lab + ': list of samples', s, s.err); continue
            m = s.arg(meth(s)); num = s.arg(1); i = IDX(num)
            fin = s.finarg(0)
            for v, what in ((DEFAULT, 'independent draws'), (RIPLEY, 'ordered draws')):
                A = [m.eq(v), num.gt(0)]
                nm = '%s: list of samples, %s' % (lab, what)
                u = RND('runif', 1, at=(i,)) if v == DEFAULT else ordered(num, i)
                item(c, s, nm, i, position(u, cum, n), A, m)
                c.eq(s, nm + ': as many samples as asked for', fin.size, num, under=[m.eq(v)])
                c.eq(s, nm + ': asking for no samples succeeds', X(T.subst(s.ret.t, {num.t: T.num(0)})), TRUEX, under=[m.eq(v)])
                inside(c, s, nm, fin)
            other(c, s, lab + ': list of samples', [DEFAULT, RIPLEY])
    finally: c.hook = old; c.axioms = []

def inside(c, s, nm, fin):
    """what is stored into a list of known length stays inside it"""
    st, seen = [fin.t], set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in seen: continue
        seen.add(x)
        st.extend(y for y in x if isinstance(y, tuple))
        if x and x[0] == 'amap' and len(x) == 6 and x[2][0] in ('resz', 'tab'):
            k = ('b', x[1]); off = T.sub(x[3], k)
            if T.any_sub(off, lambda y: y == k): continue
            over = T.sub(T.add(off, x[5]), T.size(x[2]))
            if over[0] == 'n': c.holds(s, nm + ': nothing is stored behind the samples', over[1] <= 0, 'stored %s behind the end' % over[1])

def other(c, s, nm, known):
    """methods the distribution does not offer are refused"""
    m = s.arg(meth(s))
    for v in range(4):
        if v not in known: c.eq(s, '%s: method %d is refused' % (nm, v), s.ret, FALSEX, under=[m.eq(v)])

def value_item(val):
    def item(c, s, nm, i, pos, A, m):
        if i is None: got = s.finarg(0, 'Sample::Value')
        else: got = s.finarg(0).at(i, 'O').f('Sample::Value')
        w = val(pos)
        c.eq(s, nm + ': entry with cum[i] <= u < cum[i+1]', X(retype(got.t, kind(w.t))), w, under=A)
        c.eq(s, nm + ': reports success', s.ret, TRUEX, under=A)
    return item

def retype(t, kd):
    if t[0] in ('sel', 'fld', 'init') and t[-1] == 'O': return t[:-1] + (kd,)
    if t[0] == 'ite': return ite(t[1], retype(t[2], kd), retype(t[3], kd))
    return t

def component_item(comps):
    def item(c, s, nm, i, pos, A, m):
        es = s.effects('call', name='SampleFrom')
        cal = [e for e in es]
        got = s.finarg(0) if i is None else s.finarg(0).at(i, 'O')
        comp = X(('init', (('ref', comps(pos).t), ()), 'O'))
        base = s.arg(0) if i is None else X(T.resz(s.arg(0).t, s.arg(1).t, dflt(got.t))).at(i, 'O')
        args = s.arg(len(s.fn['params']) - 1)
        mk = lambda b, p: (X(('init', (('ref', comps(p).t), ()), 'O')).t, b.t, num(0), args.t)
        name = callname(got.t) or 'SampleFrom'
        g = X(simp_call(('call', name, mk(base, pos), 'B')))
        if i is None:
            okall = g; U = A + [g]
        else:
            # success iff every component draw succeeds
            okall = None
        out = X(('out', ('call', name, mk(base, pos), 'O'), 0, 'O'))
        got2 = got
        if i is None:
            c.eq(s, nm + ': reports the result of the component', s.ret, g, under=A)
            c.eq(s, nm + ': drawn from the component with cum[i] <= u < cum[i+1]', got, out, under=A)
        else:
            ok = s.ret
            for a in A: ok = X(assume(ok.t, a.t, True))
            c.eq(s, nm + ': drawn from the component with cum[i] <= u < cum[i+1]', X(assume(got.t, ok.t, True)), out, under=A)
            al = ALL(s.arg(1), lambda j: X(T.subst(g.t, {i.t: j.t})))
            c.eq(s, nm + ': success iff every component draw succeeds', s.ret, al, under=A)
    return item
def dflt(t):
    x = T.any_sub(t, lambda x: x[0] == 'resz')
    return x[3] if x else ('undef', 'x')
def callname(t):
    x = T.any_sub(t, lambda x: x[0] == 'out')
    return x[1][1] if x and x[1][0] == 'call' else None

# ---------------------------------------------------------------- continuous
def vec(s, field, kd, dim, draw):
    """_samples(j) := draw(j-1) for all coordinates"""
    k = IDX(dim)
    return X(T.amap(k.t, thisp(field, 'V'), add(k.t, ONE), X(draw(k)).t, X(dim).t))

def continuous(c, K, lab, methods, want, ok, cls=None):
    dim = X(thisp('Pdf::_dimension', 'U'))
    ax = {thisp(K + '::_samples', 'V'): dim.t}
    def hook(m, k, kd):
        if k[0] == 'fld' and k[2] == 'Pdf::_dimension': return m.d
        return None
    old = c.hook; c.hook = hook
    try:
        for f in c.find(K + '::SampleFrom', lambda f: f.get('cls', '').endswith('::' + K)):
            s = c.run(f, size_axioms=ax, cls=cls); one = len(f['params']) == 3
            nm = lab + (': one sample' if one else ': list of samples')
            if not s.ok: c.undecided(nm, s, s.err); continue
            m = s.arg(meth(s))
            for v in range(4):
                A = [m.eq(v)] + ([] if one else [s.arg(1).gt(0)])
                if v not in methods:
                    c.eq(s, '%s: method %d is refused' % (nm, v), s.ret, FALSEX, under=A); continue
                c.eq(s, '%s: method %d reports whether drawing was possible' % (nm, v), s.ret, ok(s), under=A)
                A = A + [ok(s)]
                if one:
                    c.eq(s, '%s: method %d' % (nm, v), s.finarg(0, 'Sample::Value', kd='V'), want(s, vec, dim, ()), under=A)
                else:
                    i = IDX(s.arg(1))
                    c.eq(s, '%s: method %d: sample i' % (nm, v), X(retype(s.finarg(0).at(i, 'O').f('Sample::Value').t, 'V')), want(s, vec, dim, (i,)), under=A)
                    c.eq(s, '%s: method %d: as many samples as asked for' % (nm, v), s.finarg(0).size, s.arg(1), under=A)
    finally: c.hook = old

def gauss(s, vec, dim, at):
    S = X(thisp('Gaussian::_Sigma', 'Y')); mu = X(thisp('Gaussian::_Mu', 'V'))
    z = vec(s, 'Gaussian::_samples', 'V', dim, lambda j: RND('rnorm', 1, 0, 1, at=at + (j,)))
    return CALL('cholesky_semidefinite:0', S, kd='M') * z + mu

def box(s, vec, dim, at):
    lo = X(thisp('Uniform::_Lower', 'V')); hi = X(thisp('Uniform::_Higher', 'V'))
    return vec(s, 'Uniform::_samples', 'V', dim, lambda j: RND('runif', 1, lo.at(j + 1, 'S'), hi.at(j + 1, 'S'), at=at + (j,)))

def p15(c):
    generators(c)
    discrete_like(c, 'DiscretePdf', 'DiscretePdf::_CumPDF', X(thisp('DiscretePdf::_num_states', 'U')), value_item(lambda p: p), 'discrete')
    ls = X(thisp('MCPdf::_listOfSamples'))
    discrete_like(c, 'MCPdf', 'MCPdf::_CumPDF', ls.size, value_item(lambda p: ls.at(p, 'O').f('Sample::Value')), 'sample based')
    comps = X(thisp('Mixture::_componentPdfs')).deref()
    discrete_like(c, 'Mixture', 'Mixture::_cumWeights', X(thisp('Mixture::_numComponents', 'U')), component_item(lambda p: comps.at(p, 'O')), 'mixture')
    continuous(c, 'Gaussian', 'Gaussian', (DEFAULT, CHOLESKY), gauss, lambda s: CALL('cholesky_semidefinite:ok', X(thisp('Gaussian::_Sigma', 'Y')), kd='B'))
    continuous(c, 'Uniform', 'Uniform', (DEFAULT,), box, lambda s: TRUEX)
    from .condgauss import CLS, R, mean, CA as CArgs, NCA as NArgs
    AN = 'AnalyticConditionalGaussianAdditiveNoise'
    A = X(thisp(R)); args = X(thisp(CArgs)); n = X(thisp(NArgs, 'U')); mu = X(thisp(AN + '::_additiveNoise_Mu', 'V')); Sg = X(thisp(AN + '::_additiveNoise_Sigma', 'Y'))
    def cgauss(s, vec, dim, at):
        z = vec(s, 'ConditionalGaussian::_samples', 'V', dim, lambda j: RND('rnorm', 1, 0, 1, at=at + (j,)))
        return CALL('cholesky_semidefinite:0', Sg, kd='M') * z + mean(A, args, n, mu)
    def okc(s):
        o = CALL('cholesky_semidefinite:ok', Sg, kd='B')
        return o if len(s.fn['params']) == 3 else ITE(s.arg(1).gt(0), o, TRUEX)
    continuous(c, 'ConditionalGaussian', 'conditional Gaussian', (DEFAULT, CHOLESKY), cgauss, okc, cls=CLS)

# ---------------------------------------------------------------- random number functions
Z01, U01 = X(('init', (('par', 'standard normal number'), ()), 'S')), X(('init', (('par', 'standard uniform number'), ()), 'S'))
def generators(c):
    """rnorm and runif: one number of the requested distribution (a draw from a library distribution object is replaced by
    mean + deviation * standard number, or low + (high - low) * standard number)"""
    for n in ('rnorm', 'runif'):
        for f in c.find(n):
            if '/rng/' not in f['file']: continue
            s = c.run(f); k = len(f['params'])
            nm = 'random numbers: %s(%s)' % (n, ', '.join(p['name'] for p in f['params']))
            if not s.ok: c.undecided(nm, s, s.err); continue
            got = X(drawn(c, s.ret.t))
            if n == 'rnorm': want = s.arg(0) + s.arg(1) * Z01
            elif k == 0: want = U01
            else: want = s.arg(0) + (s.arg(1) - s.arg(0)) * U01
            if T.any_sub(got.t, lambda x: x[0] in ('call', 'ref', 'glob', 'rnd')): c.undecided(nm, s, 'source of the number not recognised'); continue
            c.eq(s, nm + ': one number of that distribution', got, want)
def drawn(c, t):
    if not isinstance(t, tuple): return t
    if t and t[0] == 'call' and t[1] == 'operator()':
        d = dist(c, t[2])
        if d:
            k, a = d
            if k == 'normal': return (X(a[0]) + X(a[1]) * Z01).t
            return (X(a[0]) + (X(a[1]) - X(a[0])) * U01).t
    if t and t[0] == 'rnd':
        a = list(t[3]); a += [num(0), num(1)][len(a):]
        return (X(a[0]) + X(a[1]) * Z01).t if t[1] == 'rnorm' else (X(a[0]) + (X(a[1]) - X(a[0])) * U01).t
    return T.rebuild(t, lambda x: drawn(c, x)) if t and t[0] in ('P', 'ite', 'inv', 'fn') else t
def dist(c, a):
    """the distribution behind a generator: (kind, parameters)"""
    st, seen = list(a), 0
    while st:
        x = st.pop(0); seen += 1
        if seen > 200 or not isinstance(x, tuple): continue
        if x and x[0] == 'call' and isinstance(x[1], str) and x[1].startswith('ctor:'):
            n = x[1][5:].split('<')[0]; p = list(x[2])
            if 'normal_distribution' in n: return 'normal', (p + [num(0), num(1)][len(p):])[:2]
            if 'uniform_real' in n or 'uniform_01' in n: return 'uniform', (p + [num(0), num(1)][len(p):])[:2]
        if x and x[0] == 'glob' and len(x) > 1:
            g = c.p.globals.get(x[1]) or next((v for q, v in c.p.globals.items() if v.get('name') == x[1]), None)
            r = gdist(c, g and g.get('init'), 0)
            if r: return r
        st.extend(y for y in x if isinstance(y, tuple))
    return None
def gdist(c, e, d):
    if not isinstance(e, dict) or d > 6: return None
    if e.get('k') == 'construct' and ('normal_distribution' in e['n'] or 'uniform_real' in e['n'] or 'uniform_01' in e['n']):
        p = e['args']
        if len(p) == 1 and lit(p[0]) is None: return gdist(c, p[0], d + 1)
        v = [lit(x) for x in p]
        if None in v: return None
        return ('normal' if 'normal' in e['n'] else 'uniform'), ([num(x) for x in v] + [num(0), num(1)][len(v):])[:2]
    if e.get('k') == 'ref' and e.get('dk') == 'global': return gdist(c, (c.p.globals.get(e['name']) or {}).get('init'), d + 1)
    for a in e.get('args', []) + ([e['e']] if 'e' in e else []):
        r = gdist(c, a, d + 1)
        if r: return r
    return None
def lit(e):
    if e.get('k') == 'cast': return lit(e['e'])
    if e.get('k') in ('flit', 'ilit', 'lit') and 'v' in e: return float(e['v'])
    if e.get('k') == 'un' and e.get('op') == '-':
        v = lit(e['e']); return None if v is None else -v
    return None
