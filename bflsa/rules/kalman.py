"""Kalman-type filters: both moments of the posterior follow the predict and
correct equations, prediction before correction, evaluated at the right state."""
from ..rule import *
from .discrete import is_copy

POST = ('init', (('this',), ('Filter::_post',)), 'O')
MG = ('PredictionGet', 'df_dxGet', 'AnalyticMeasurementModelGaussianUncertainty::CovarianceGet', 'AnalyticSystemModelGaussianUncertainty::CovarianceGet')
KW = dict(types={('ref', POST): 'BFL::Gaussian'}, pure=MG, opaque=MG)
MU, SG = 'Gaussian::_Mu', 'Gaussian::_Sigma'

def post(s):
    p = s.fin('Filter::_post')
    return s.at(p, MU), s.at(p, SG)
def init_post(s):
    return X(('init', (('ref', POST), (MU,)), 'V')), X(('init', (('ref', POST), (SG,)), 'Y'))
def sysm(m, u, x):
    o = m.deref()
    return (CALL('PredictionGet', o, u, x, kd='V'), CALL('df_dxGet', o, u, x, kd='M'), CALL('CovarianceGet', o, u, x, kd='Y'))

def predict(mu, P, m, u):
    f, F, Q = sysm(m, u, mu)
    return f, F * P * F.T + Q
def correct(mu, P, m, z, s):
    h, H, R = sysm(m, s, mu)
    K = P * H.T * (H * P * H.T + R).inv
    return mu + K * (z - h), P - K * H * P

def icorrect(mu, P, m, z, s, n):
    x = mu
    for i in range(n):
        h, H, R = sysm(m, s, x)
        Z = h + H * (mu - x)
        K = P * H.T * (H * P * H.T + R).inv
        x = mu + K * (z - Z)
    return x, P - K * H * P

def up(c, n, pick):
    fs = [f for f in c.find('Filter::Update', lambda f: 'Filter<MatrixWrapper::ColumnVector, MatrixWrapper::ColumnVector>' in f['qn'] or 'Filter<ColumnVector' in f['qn'])]
    fs = [f for f in fs if len(f['params']) == n and pick(f)]
    if not fs: raise AnalysisError('no Update overload with %d arguments' % n)
    return fs[0]
def issys(i): return lambda f: 'SystemModel' in f['params'][i]['t']
def ismeas(i): return lambda f: 'MeasurementModel' in f['params'][i]['t']

def family(c, cls, nm, correct, pre=None):
    kw = dict(KW, unroll=bool(pre))
    pre = pre or {}
    def chk(s, what, exp):
        if not s.ok: return c.undecided('%s %s' % (nm, what), s, s.err)
        m, P = post(s)
        c.eq(s, '%s %s: mean' % (nm, what), m, exp[0])
        c.eq(s, '%s %s: covariance' % (nm, what), P, exp[1])
        c.eq(s, '%s %s: reports success' % (nm, what), s.ret, TRUEX)
    f = up(c, 5, issys(0))
    s = c.run(f, cls=cls, params={'sysmodel': f_nonnull('sysmodel'), 'measmodel': f_nonnull('measmodel')} if False else None, pre=pre, **kw)
    if s.ok:
        i = init_post(s); sm, u, mm, z, sp = [s.arg(k) for k in range(5)]
        given = [sm.ne(NULLX), mm.ne(NULLX)]
        m, P = post(s)
        a = predict(*i, sm, u); b = correct(*a, mm, z, sp)
        for k, w in enumerate(('mean', 'covariance')):
            c.eq(s, '%s both models: prediction, then correction at the predicted state: %s' % (nm, w), (m, P)[k], b[k], given)
        c.stored(s, nm + ' both models: working storage for the dimension of this measurement')
    else: c.undecided(nm + ' both models', s, s.err)
    s = c.run(up(c, 2, issys(0)), cls=cls, pre=pre, **kw)
    if s.ok:
        i = init_post(s); m, P = post(s); a = predict(*i, s.arg(0), s.arg(1)); g = [s.arg(0).ne(NULLX)]
        c.eq(s, nm + ' prediction: mean is the model prediction', m, a[0], g)
        c.eq(s, nm + ' prediction: covariance is F P F\' + Q', P, a[1], g)
    else: c.undecided(nm + ' prediction', s, s.err)
    s = c.run(up(c, 3, ismeas(0)), cls=cls, pre=pre, **kw)
    if s.ok:
        i = init_post(s); m, P = post(s); a = correct(*i, s.arg(0), s.arg(1), s.arg(2)); g = [s.arg(0).ne(NULLX)]
        c.eq(s, nm + ' correction: mean', m, a[0], g)
        c.eq(s, nm + ' correction: covariance', P, a[1], g)
        c.stored(s, nm + ' correction: working storage for the dimension of this measurement')
    else: c.undecided(nm + ' correction', s, s.err)
def f_nonnull(n): return None

def iekf_pre(n, checker=False):
    t = (('this',), ('IteratedExtendedKalmanFilter::_nr_iterations',)); q = (('this',), ('IteratedExtendedKalmanFilter::_innovationChecker',))
    return {t: num(n), q: NULL}

def p08(c):
    family(c, 'BFL::ExtendedKalmanFilter', 'EKF', correct)
    for n in (1, 2):
        family(c, 'BFL::IteratedExtendedKalmanFilter', 'IEKF (%d iteration%s)' % (n, 's' * (n > 1)), lambda *a, n=n: icorrect(*a, n), iekf_pre(n))
    sriekf(c)
    nis(c)

def nis(c):
    f = c.find('ExtendedKalmanFilter::NisGet')[0]
    s = c.run(f, cls='BFL::ExtendedKalmanFilter', **KW)
    if not s.ok: return c.undecided('NIS', s, s.err)
    mu, P = init_post(s)
    e = CALL('blank', kd='V')
    o = s.arg(0); z = s.arg(1)
    h, H, R = sysm(o, e, mu)
    c.stored(s, 'normalised innovation squared: working storage for the dimension of this measurement')
    c.eq(s, 'normalised innovation squared', s.ret, (z - h).T * (H * P * H.T + R).inv * (z - h))
    m2, P2 = post(s)
    c.eq(s, 'normalised innovation squared leaves the mean alone', m2, mu)
    c.eq(s, 'normalised innovation squared leaves the covariance alone', P2, P)

def sriekf(c):
    s = c.run(up(c, 2, issys(0)), cls='BFL::SRIteratedExtendedKalmanFilter', **KW)
    if s.ok:
        i = init_post(s); m, P = post(s); a = predict(*i, s.arg(0), s.arg(1)); g = [s.arg(0).ne(NULLX)]
        c.eq(s, 'square-root IEKF prediction: mean', m, a[0], g)
        c.eq(s, 'square-root IEKF prediction: covariance', P, a[1], g)
