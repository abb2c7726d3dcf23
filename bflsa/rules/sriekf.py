"""Square-root iterated extended Kalman filter: the iterated correction, with the
covariance carried as a square root."""
import random, math
from ..rule import *
from ..engine import eff
from ..ident import ndarray, eye, Skip
from .kalman import POST, MG, MU, SG, up, ismeas, issys, post, init_post, sriekf
K = 'BFL::SRIteratedExtendedKalmanFilter'
IM = 'LinearAnalyticMeasurementModelGaussianUncertainty_Implicit::'
Q = tuple(IM + m for m in ('ExpectedValueGet', 'CovarianceGet', 'SRCovariance', 'Is_Identity'))
JP = 'SRIteratedExtendedKalmanFilter::JP'; NR = 'SRIteratedExtendedKalmanFilter::nr_iterations'
KW = dict(types={('ref', POST): 'BFL::Gaussian'}, opaque=Q + (IM + 'df_dxGet',), pure=tuple(q.split('::')[1] for q in Q), unroll=True)

def chol(a):
    (p, q), (_, r) = a
    if p <= 1e-6 or r - q * q / p <= 1e-6: raise Skip('not positive definite')
    l = math.sqrt(p)
    return ndarray([[l, 0.0], [q / l, math.sqrt(r - q * q / p)]])
def near(a, b):
    if isinstance(a, tuple): return isinstance(b, tuple) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return abs(a - b) <= 1e-5 * max(1, abs(a), abs(b))
    return a == b
def hook(m, k, kd):
    """functions of the model take equal values at points that agree up to rounding"""
    if k[0] in ('call', 'eff') and k[1] != 'cholesky_semidefinite:0':
        for o, v in getattr(m, 'seen', ()):
            if near(o, k): return v
    v = value(m, k, kd)
    if k[0] in ('call', 'eff') and k[1] != 'cholesky_semidefinite:0':
        if v is None: v = m.gen(k, kd)
        m.__dict__.setdefault('seen', []).append((k, v))
    return v
def value(m, k, kd):
    """noise covariances are positive definite; the Cholesky factor is what its name says"""
    if k[0] == 'call' and k[1] == 'cholesky_semidefinite:0':
        a = k[2]
        if a[0] == 'mat' and a[1] == (2, 2): return chol([a[2][:2], a[2][2:]])
        if a[0] == 'mat' and a[1] == (1, 1) and a[2][0] > 0: return ndarray([[math.sqrt(a[2][0])]])
    if kd == 'Y':
        a = m.gen(k, 'M'); return a @ a.T + eye(a.shape[0]) * 0.5
    return None

def correct(mu, J, o, z, s, n):
    x = mu; P = J * J.T
    for i in range(n):
        H = CALL('df_dxGet', o, s, x, kd='M')
        o = X(eff('df_dxGet', o.t, (s.t, x.t)))
        h = CALL('ExpectedValueGet', o, kd='V'); R = CALL('CovarianceGet', o, kd='Y')
        Kg = P * H.T * (H * P * H.T + R).inv
        x = mu + Kg * (z - h - H * (mu - x))
    return x, P - Kg * H * P, o

def p16(c):
    old, c.hook = c.hook, hook
    try:
        for f in c.find('SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter', lambda f: len(f['params']) == 2):
            s = c.run(f, cls=K); t = 'start: '
            if not s.ok: c.undecided(t, s, s.err); continue
            j = s.fin(JP); q = s.arg(0)
            c.eq(s, t + 'the square root squares to the prior covariance', j * j.T, q.deref(SG, kd='Y'))
            c.eq(s, t + 'mean', s.at(s.fin('Filter::_post'), MU), q.deref(MU, kd='V'))
            c.eq(s, t + 'covariance', s.at(s.fin('Filter::_post'), SG), q.deref(SG, kd='Y'))
            c.eq(s, t + 'number of iterations', s.fin(NR), s.arg(1))
        s = c.run(up(c, 2, issys(0)), cls=K, types={('ref', POST): 'BFL::Gaussian'}, pure=MG, opaque=MG)
        t = 'prediction: '
        if s.ok:
            j = s.fin(JP); m, P = post(s); g = [s.arg(0).ne(NULLX)]
            # the new covariance as one symbol: J is a square root of it, whatever it is
            c.eq(s, t + 'the square root squares to the new covariance', j * j.T, P, g)
        else: c.undecided(t, s, s.err)
        sriekf(c)
        direct(c)
        for n in (1, 2, 3) if c.tier == 'thorough' else (1, 2):
            t = 'correction with %d iteration%s: ' % (n, 's' * (n > 1))
            s = c.run(up(c, 3, ismeas(0)), cls=K, pre={(('this',), (NR,)): num(n)}, **KW)
            if not s.ok: c.undecided(t, s, s.err); continue
            mu, _ = init_post(s); J = s.this(JP, kd='M'); mm, z, sp = [s.arg(k) for k in range(3)]
            x, P, o = correct(mu, J, mm.deref(), z, sp, n)
            g = [mm.ne(NULLX), CALL('Is_Identity', o, kd='I').ne(1)]
            m1, P1 = post(s); j = s.fin(JP)
            c.eq(s, t + 'mean', m1, x, g)
            if n < 3: c.eq(s, t + 'covariance', P1, P, g)
            c.eq(s, t + 'the square root squares to the new covariance', j * j.T, P1, g)
    finally: c.hook = old

def direct(c):
    kw = dict(types={('ref', POST): 'BFL::Gaussian'})
    C = 'SRIteratedExtendedKalmanFilter::'
    for f in c.find(C + 'PriorSet', need=False):
        s = c.run(f, cls=K, **kw); t = 'new state set: '
        if not s.ok: c.undecided(t, s, s.err); continue
        m, P = post(s)
        c.eq(s, t + 'mean', m, s.arg(0)); c.eq(s, t + 'covariance', P, s.arg(1))
    for f in c.find(C + 'SRCovarianceSet', need=False):
        s = c.run(f, cls=K, **kw); t = 'square root set: '
        for g in c.find(C + 'SRCovarianceGet', need=False):
            r = c.then(s, g, cls=K)
            c.eq(r, t + 'read back', lambda: r.rv('M'), lambda: s.arg(0))
    for f in c.find(C + 'CalculateMeasUpdate', lambda f: len(f['params']) == 4, need=False):
        s = c.run(f, cls=K, **kw); t = 'one correction from given z, Z, H, R: '
        if not s.ok: c.undecided(t, s, s.err); continue
        mu, P = init_post(s); z, Z, H, R = [s.arg(k) for k in range(4)]
        Kg = P * H.T * (H * P * H.T + R).inv
        m1, P1 = post(s)
        c.eq(s, t + 'mean', m1, mu + Kg * (z - Z)); c.eq(s, t + 'covariance', P1, P - Kg * H * P)
