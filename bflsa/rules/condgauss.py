"""Conditional Gaussians: mean, Jacobian, covariance and density."""
from ..rule import *
from .gaussian import dens
from .models import CA, NCA, thisp
from .discrete import is_copy
L = 'LinearAnalyticConditionalGaussian'; R = L + '::_ratio'
def lin(c, n, pick=None): return c.find('%s::%s' % (L, n), pick)
def inherited(c, n):
    """the definition a linear conditional Gaussian uses for member n"""
    for k in (L, 'AnalyticConditionalGaussianAdditiveNoise', 'AnalyticConditionalGaussian', 'ConditionalGaussian', 'ConditionalPdf', 'Pdf'):
        fs = c.find('%s::%s' % (k, n), need=False)
        if k in ('ConditionalPdf', 'Pdf'): fs = [f for f in fs if 'ColumnVector' in f['qn']]
        if fs: return fs
    raise AnalysisError('no definition of %s' % n)
CLS = 'BFL::' + L

def mean(A, args, n, mu): return SUM(n, lambda i: A.at(i, 'M') * args.at(i, 'V')) + mu

def elem(v):
    """the common element of a vector filled with one number"""
    if v[0] == 'call' and v[1] == 'filled': return v[2][1]
    if v[0] == 'call' and v[1] == 'blank': return v[2][1] if len(v[2]) > 1 else ('undef', 'element never set')
    if v[0] == 'ite': return ite(v[1], elem(v[2]), elem(v[3]))
    if v[0] == 'call' and v[1] == 'resized': return ZERO if elem(v[2][0]) == ZERO else ('opq', 'elements', v, 'S')   # new elements are zero, kept ones as before
    if v[0] in ('amap', 'upd', 'fold'): return sel(v, (IDX(X(v).rows) + 1).t, 'S')
    return ('opq', 'elements', v, 'S')

def p11(c):
    mu_get = inherited(c, 'AdditiveNoiseMuGet')[0]; s_get = inherited(c, 'AdditiveNoiseSigmaGet')[0]
    G = 'Gaussian::_Mu', 'Gaussian::_Sigma'
    for f in lin(c, L, lambda f: not is_copy(f)):
        s = c.run(f)
        many = 'vector' in f['params'][0]['t']
        nm = 'constructor from %s' % ('matrices' if many else 'one matrix')
        if not s.ok: c.undecided(nm, s, s.err); continue
        noise = s.arg(1); n = s.arg(0).size if many else X(ONE)
        g = c.then(s, inherited(c, 'NumConditionalArgumentsGet')[0]); c.eq(g, nm + ': one argument per matrix', lambda: g.ret, lambda: n)
        c.eq(s, nm + ': one matrix held per argument', s.fin(R).size, n)
        g = c.then(s, 'Pdf::DimensionGet'); c.eq(g, nm + ': dimension of the noise', lambda: g.ret, lambda: noise.f('Pdf::_dimension', 'U'))
        g = c.then(s, inherited(c, 'CovarianceGet')[0], cls=CLS); c.eq(g, nm + ': covariance of the noise', lambda: g.ret, lambda: noise.f(G[1], 'Y'))
        g = c.then(s, mu_get); c.eq(g, nm + ': noise mean', lambda: g.rv(), lambda: noise.f(G[0], 'V'))
        for q in ('dfGet', 'MatrixGet'):
            i = IDX(n) if many else X(ZERO)
            ff = inherited(c, q)[0]
            g = c.then(s, ff, params={ff['params'][0]['name']: i.t})
            c.eq(g, nm + ': %s(i) is the i-th matrix' % q, lambda: g.rv('M') if q == 'MatrixGet' else g.ret, lambda: s.arg(0).at(i, 'M') if many else s.arg(0))
        i = IDX(n) if many else X(ZERO); m = s.arg(0).at(i, 'M') if many else s.arg(0)
        ff = inherited(c, 'ConditionalArgumentGet')[0]
        g = c.then(s, ff, params={ff['params'][0]['name']: i.t})
        c.eq(g, nm + ': argument i starts with one element per column of matrix i', lambda: g.rv('V').rows, lambda: m.cols)
        c.eq(g, nm + ': every element of an argument starts at zero', lambda: X(elem(g.rv('V').t)), lambda: X(ZERO))
        if not many:
            fa = inherited(c, 'ConditionalArgumentSet')[0]
            a = c.then(s, fa, params={fa['params'][0]['name']: ZERO}); g = c.then(a, inherited(c, 'ExpectedValueGet')[0], cls=CLS)
            c.eq(g, nm + ': mean is A x + noise mean', lambda: g.ret, lambda: s.arg(0) * a.arg(1) + noise.f(G[0], 'V'))
    AN = 'AnalyticConditionalGaussianAdditiveNoise'
    A = X(thisp(R)); args = X(thisp(CA)); n = X(('init', (('this',), (NCA,)), 'U'))
    mu = X(('init', (('this',), (AN + '::_additiveNoise_Mu',)), 'V')); Sg = X(('init', (('this',), (AN + '::_additiveNoise_Sigma',)), 'Y'))
    d = X(('init', (('this',), ('Pdf::_dimension',)), 'U'))
    s = c.run(inherited(c, 'ExpectedValueGet')[0], cls=CLS)
    c.eq(s, 'mean is the sum of matrix times argument plus the noise mean', lambda: s.ret, lambda: mean(A, args, n, mu))
    s = c.run(inherited(c, 'CovarianceGet')[0], cls=CLS); c.eq(s, 'covariance is that of the noise', lambda: s.ret, lambda: Sg)
    s = c.run(inherited(c, 'ProbabilityGet')[0], cls=CLS)
    c.eq(s, 'density is the normal density of the current mean and covariance', lambda: s.ret, lambda: dens(mean(A, args, n, mu), Sg, d, s.arg(0)))
    s = c.run(lin(c, 'dfGet')[0]); c.eq(s, 'Jacobian of argument i is its matrix', lambda: s.ret, lambda: A.at(s.arg(0), 'M'))
    s = c.run(lin(c, 'MatrixGet')[0]); c.eq(s, 'matrix of argument i', lambda: s.rv('M'), lambda: A.at(s.arg(0), 'M'))
    s = c.run(lin(c, 'MatrixSet')[0]); c.eq(s, 'setting matrix i sets only that one', lambda: s.fin(R), lambda: A.upd(s.arg(0), s.arg(1)))
    for nm, kd in (('Mu', 'V'), ('Sigma', 'Y')):
        for f in inherited(c, 'AdditiveNoise%sSet' % nm):
            s = c.run(f)
            g = c.then(s, inherited(c, 'AdditiveNoise%sGet' % nm)[0]); c.eq(g, 'noise %s set is the one used' % nm, lambda: g.rv(), lambda: s.arg(0))
            q = c.then(s, inherited(c, 'CovarianceGet')[0], cls=CLS); c.eq(q, 'covariance after setting the noise %s' % nm, lambda: q.ret, lambda: s.arg(0) if nm == 'Sigma' else Sg)
            q = c.then(s, inherited(c, 'ExpectedValueGet')[0], cls=CLS); c.eq(q, 'mean after setting the noise %s' % nm, lambda: q.ret, lambda: mean(A, args, n, s.arg(0) if nm == 'Mu' else mu))
    ax = {thisp(CA): n.t, thisp(R): n.t}
    s = c.run(lin(c, 'NumConditionalArgumentsSet')[0], size_axioms=ax)
    c.eq(s, 'changing the number of arguments resizes the arguments', lambda: s.fin(CA).size, lambda: s.arg(0))
    c.eq(s, 'changing the number of arguments resizes the matrices', lambda: s.fin(R).size, lambda: s.arg(0))
    # any conditional Gaussian: density from the class's own mean and covariance
    f = c.find('ConditionalGaussian::ProbabilityGet')[0]
    s = c.run(f, opaque=('ExpectedValueGet', 'CovarianceGet'), pure=('ExpectedValueGet', 'CovarianceGet'))
    if s.ok:
        th = s.effects('call', name='ExpectedValueGet'), s.effects('call', name='CovarianceGet')
        if th[0] and th[1]:
            o = X(th[0][0][2][2][0]); o2 = X(th[1][0][2][2][0])
            c.eq(s, 'any conditional Gaussian: density is the normal density of its mean and covariance', drop(s.ret), drop(dens(CALL('ExpectedValueGet', o, kd='V'), CALL('CovarianceGet', o2, kd='Y'), d, s.arg(0))))
        else: c.undecided('any conditional Gaussian: density', s, 'no mean/covariance call')
    else: c.undecided('any conditional Gaussian: density', s, s.err)
    # linear models predict A x + B u + noise mean
    for K, B, P, lab in (('AnalyticSystemModelGaussianUncertainty', 'SystemModel', '_SystemPdf', 'system'), ('AnalyticMeasurementModelGaussianUncertainty', 'MeasurementModel', '_MeasurementPdf', 'measurement'), ('LinearAnalyticMeasurementModelGaussianUncertainty', 'MeasurementModel', '_MeasurementPdf', 'linear measurement')):
        pt = thisp('%s::%s' % (B, P)); ref = ('ref', pt); pd = X(pt)
        for two in (False, True):
            pre = {(ref, (NCA,)): num(2 if two else 1), (('this',), ('%s::%s' % (B, '_systemWithoutInputs' if B == 'SystemModel' else '_systemWithoutSensorParams'),)): FALSE if two else TRUE}
            for f in c.find(K + '::PredictionGet', need=not K.startswith('Linear')):
                s = c.run(f, pre=pre, types={ref: CLS})
                AA = pd.deref(R)
                nm = '%s model with linear Gaussian, %s' % (lab, 'two arguments' if two else 'one argument')
                c.eq(s, nm + ': prediction', lambda: s.ret, lambda: AA.at(0, 'M') * s.arg(1) + (AA.at(1, 'M') * s.arg(0) if two else 0) + pd.deref(AN + '::_additiveNoise_Mu', kd='V') if two else AA.at(0, 'M') * s.arg(1) + pd.deref(AN + '::_additiveNoise_Mu', kd='V'))
            for f in c.find(K + '::df_dxGet', need=not K.startswith('Linear')):
                s = c.run(f, pre=pre, types={ref: CLS}); c.eq(s, nm + ': Jacobian', lambda: s.ret, lambda: pd.deref(R).at(0, 'M'))
            for f in c.find(K + '::CovarianceGet', need=not K.startswith('Linear')):
                s = c.run(f, pre=pre, types={ref: CLS}); c.eq(s, nm + ': covariance', lambda: s.ret, lambda: pd.deref(AN + '::_additiveNoise_Sigma', kd='Y'))

SCR = ('ConditionalGaussian::_diff', 'ConditionalGaussian::_Mu')
def drop(x):
    """calls on this object: ignore scratch members in the receiver"""
    def f(t):
        if t and t[0] == 'call' and t[1] in ('ExpectedValueGet', 'CovarianceGet') and t[2]:
            return ('call', t[1], (('sym', ('self',), 'O'),) + t[2][1:], t[3])
        return None
    def go(t):
        if not isinstance(t, tuple): return t
        t = tuple(go(y) for y in t)
        if t and t[0] == 'call' and len(t) == 4: return f(t) or t
        return t
    return X(go(X(x).t))
