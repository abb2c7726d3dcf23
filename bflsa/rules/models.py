"""System and measurement models: which conditional arguments the wrapped
distribution sees, and the flag telling whether inputs / sensor parameters exist."""
from ..rule import *
from .discrete import is_copy
CA = 'ConditionalPdf::_ConditionalArguments'; NCA = 'ConditionalPdf::_NumConditionalArguments'

def thisp(f, kd='O'): return ('init', (('this',), (f,)), kd)
def kinst(f):
    q = f['cls']; return q[q.index('<') + 1:q.rindex('>')].replace('MatrixWrapper::', '') if '<' in q else ''

def pdf_with(pdf, *args):
    """the distribution behind pdf with its first conditional arguments set"""
    ca = pdf.deref(CA)
    for i, a in enumerate(args): ca = ca.upd(i, a)
    return pdf.deref().set(CA, ca)

def storage(c):
    """conditional argument storage"""
    def I(n): return [f for f in c.find('ConditionalPdf::' + n)]
    for f in I('ConditionalPdf'):
        if is_copy(f): continue
        s = c.run(f); nm = 'conditional<%s> constructor' % kinst(f)
        c.eq(s, nm + ': number of arguments', lambda: s.fin(NCA), lambda: s.arg(1))
        c.eq(s, nm + ': one slot per argument', lambda: s.fin(CA).size, lambda: s.arg(1))
    ax = {thisp(CA): ('init', (('this',), (NCA,)), 'U')}
    for f in I('NumConditionalArgumentsSet'):
        s = c.run(f, size_axioms=ax); nm = 'conditional<%s> resize' % kinst(f)
        c.eq(s, nm + ': number of arguments', lambda: s.fin(NCA), lambda: s.arg(0))
        c.eq(s, nm + ': one slot per argument', lambda: s.fin(CA).size, lambda: s.arg(0))
    for f in I('NumConditionalArgumentsGet'):
        s = c.run(f); c.eq(s, 'conditional<%s>: argument count' % kinst(f), lambda: s.ret, lambda: s.this(NCA))
    for f in I('ConditionalArgumentSet'):
        s = c.run(f); nm = 'conditional<%s> set argument' % kinst(f)
        c.eq(s, nm + ': only that slot changes', lambda: s.fin(CA), lambda: s.this(CA).upd(s.arg(0), s.arg(1)))
    for f in I('ConditionalArgumentsSet'):
        s = c.run(f, size_axioms={**ax, ('init', (('par', f['params'][0]['name']), ()), 'O'): ('init', (('this',), (NCA,)), 'U')})
        c.eq(s, 'conditional<%s> set all arguments' % kinst(f), lambda: s.fin(CA), lambda: s.arg(0))
    for f in I('ConditionalArgumentGet'):
        s = c.run(f); k = tcode(f['params'][0]['t'])
        c.eq(s, 'conditional<%s> get argument' % kinst(f), lambda: s.rv(), lambda: s.this(CA).at(s.arg(0), kind(s.rv().t)))
    for f in I('ConditionalArgumentsGet'):
        s = c.run(f); c.eq(s, 'conditional<%s> get all arguments' % kinst(f), lambda: s.rv(), lambda: s.this(CA))

def basic(c, K, pdfname, flag, getter, setter, query, size):
    P = '%s::%s' % (K, pdfname); F = '%s::%s' % (K, flag)
    def I(n): return c.find('%s::%s' % (K, n))
    for f in I(K):
        if is_copy(f) or not f['params']: continue
        s = c.run(f); nm = '%s<%s> constructor' % (K, kinst(f))
        if not s.ok: c.undecided(nm, s, s.err); continue
        p = s.arg(0); g = [p.ne(NULLX)]
        c.eq(s, nm + ': refers to the given distribution', s.fin(P), p, g)
        c.eq(s, nm + ': arity flag from the number of conditional arguments', s.fin(F, kd='B'), p.deref(NCA, kd='U').eq(1), g)
    for f in I(setter):
        s = c.run(f); nm = '%s<%s> new distribution' % (K, kinst(f))
        if not s.ok: c.undecided(nm, s, s.err); continue
        p = s.arg(0); g = [p.ne(NULLX)]
        c.eq(s, nm + ': refers to the given distribution', s.fin(P), p, g)
        c.eq(s, nm + ': arity flag from the number of conditional arguments', s.fin(F, kd='B'), p.deref(NCA, kd='U').eq(1), g)
    for f in I(getter):
        s = c.run(f); c.eq(s, '%s<%s>: distribution returned' % (K, kinst(f)), lambda: s.ret, lambda: s.this(P))
    for f in I(query):
        s = c.run(f); c.eq(s, '%s<%s>: arity query' % (K, kinst(f)), lambda: s.ret, lambda: s.this(F, kd='B'))
    for f in I(size):
        s = c.run(f); c.eq(s, '%s<%s>: dimension is that of the distribution' % (K, kinst(f)), lambda: X(('cast', 'I', s.ret.t)) if kind(s.ret.t) != 'U' and False else s.ret, lambda: X(thisp(P)).deref('Pdf::_dimension', kd='U'))
    ref = ('ref', thisp(P))
    for f in I('ProbabilityGet'):
        n = len(f['params']); nm = '%s<%s> density with %d arguments' % (K, kinst(f), n)
        s = c.run(f, pre={(ref, (NCA,)): num(n - 1), (('this',), (F,)): TRUE if n == 2 else FALSE}, pure=('ProbabilityGet',), opaque=('Pdf::ProbabilityGet',))
        if not s.ok: c.undecided(nm, s, s.err); continue
        o = pdf_with(X(thisp(P)), *[s.arg(i) for i in range(1, n)])
        c.eq(s, nm + ': density of the first argument given state (slot 0) and parameter (slot 1)', strip(s.ret), CALL('ProbabilityGet', o, s.arg(0), kd='S'))
    for f in I('Simulate'):
        n = len([p for p in f['params'] if tcode(p['t']) not in ('I',) or p['t'].replace('const', '').replace('&', '').strip() == 'int'])
        ns = [p['name'] for p in f['params']]
        im = [i for i, p in enumerate(f['params']) if 'SampleMthd' in p['t']][0]
        nm = '%s<%s> simulation with %d arguments' % (K, kinst(f), im)
        s = c.run(f, pre={(ref, (NCA,)): num(im), (('this',), (F,)): TRUE if im == 1 else FALSE}, opaque=('Pdf::SampleFrom',))
        if not s.ok: c.undecided(nm, s, s.err); continue
        o = pdf_with(X(thisp(P)), *[s.arg(i) for i in range(im)])
        v = s.ret.t
        if not (v[0] == 'fld' and v[2] == 'Sample::Value' and v[1][0] == 'out' and v[1][1][0] == 'call' and v[1][1][1] == 'SampleFrom'):
            (c.undecided(nm + ': returns the drawn value', s, show(v)[:300]) if unresolved(v) else c.add(nm + ': returns the drawn value', s.loc, 'violated', show(v)[:300])); continue
        a = v[1][1][2]
        c.eq(s, nm + ': one draw given state (slot 0) and parameter (slot 1)', strip(X(a[0])), o)
        c.eq(s, nm + ': requested sampling method', X(a[2]), s.arg(im))
        if len(a) > 3: c.eq(s, nm + ': sampling arguments passed on', X(a[3]), s.arg(im + 1))
        c.holds(s, nm + ': exactly one draw', len(s.effects('call', name='SampleFrom')) == 1)

def strip(x):
    """drop the overridden argument count (the value at entry) from the object"""
    x = X(x)
    def f(t):
        if t[0] == 'rec':
            fs = tuple((k, v) for k, v in t[2] if k != NCA)
            return ('rec', t[1], fs) if fs else t[1]
        return None
    return X(rewrite(x.t, f))
def rewrite(t, f):
    if not isinstance(t, tuple): return t
    t = tuple(rewrite(x, f) for x in t)
    if t and t[0] == 'rec' and len(t) == 3:
        r = f(t)
        if r is not None: return r
    return t

def analytic(c, K, B, pdfname, flag):
    P = '%s::%s' % (B, pdfname); F = '%s::%s' % (B, flag); ref = ('ref', thisp(P))
    for n, cal, extra, kd in (('PredictionGet', 'ExpectedValueGet', (), 'V'), ('df_dxGet', 'dfGet', (0,), 'M'), ('CovarianceGet', 'CovarianceGet', (), 'Y')):
        fs = c.find('%s::%s' % (K, n), need=not K.startswith('Linear'))
        for f in fs:
            for two in (False, True):
                nm = '%s::%s %s' % (K, n, 'with parameter' if two else 'without parameter')
                s = c.run(f, pre={(ref, (NCA,)): num(2 if two else 1), (('this',), (F,)): FALSE if two else TRUE}, pure=(cal,))
                if not s.ok: c.undecided(nm, s, s.err); continue
                u, x = s.arg(0), s.arg(1)
                c.eq(s, nm + ': evaluated at state (slot 0) and parameter (slot 1)', strip(s.ret), CALL(cal, pdf_with(X(thisp(P)), *([x, u] if two else [x])), *extra, kd=kd))

def linear(c, K, B, pdfname, names):
    P = '%s::%s' % (B, pdfname); R = 'LinearAnalyticConditionalGaussian::_ratio'
    for i, n in enumerate(names):
        for f in c.find('%s::%sSet' % (K, n)):
            s = c.run(f)
            c.eq(s, '%s: setting %s sets the matrix of argument %d' % (K, n, i), lambda: s.at(s.this(P), R), lambda: X(thisp(P)).deref(R).upd(i, s.arg(0)))
        for f in c.find('%s::%sGet' % (K, n)):
            s = c.run(f)
            c.eq(s, '%s: %s is the matrix of argument %d' % (K, n, i), lambda: s.rv('M'), lambda: X(thisp(P)).deref(R).at(i, 'M'))

def p10(c):
    storage(c)
    basic(c, 'SystemModel', '_SystemPdf', '_systemWithoutInputs', 'SystemPdfGet', 'SystemPdfSet', 'SystemWithoutInputs', 'StateSizeGet')
    basic(c, 'MeasurementModel', '_MeasurementPdf', '_systemWithoutSensorParams', 'MeasurementPdfGet', 'MeasurementPdfSet', 'SystemWithoutSensorParams', 'MeasurementSizeGet')
    S_, M_ = ('SystemModel', '_SystemPdf', '_systemWithoutInputs'), ('MeasurementModel', '_MeasurementPdf', '_systemWithoutSensorParams')
    analytic(c, 'AnalyticSystemModelGaussianUncertainty', *S_)
    analytic(c, 'AnalyticMeasurementModelGaussianUncertainty', *M_)
    analytic(c, 'LinearAnalyticMeasurementModelGaussianUncertainty', *M_)
    linear(c, 'LinearAnalyticSystemModelGaussianUncertainty', S_[0], S_[1], 'AB')
    linear(c, 'LinearAnalyticMeasurementModelGaussianUncertainty', M_[0], M_[1], 'HJ')
