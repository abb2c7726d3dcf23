"""P30: what is set is what is read back, and nothing else that can be read changes"""
from ..rule import *
from .. import terms as T

def cls(f): return f['qn'].rsplit('::', 1)[0]
def args(q): return q[q.index('<'):] if '<' in q else ''
def base(q): return strip_targs(q).split('::')[-1]

# class, (setter, position of the value, its getter, position of the index or None), other getters that must not change
TABLE = [
    (['Sample'], [('ValueSet', 0, 'ValueGet', None)], []),
    (['WeightedSample', 'Sample'], [('WeightSet', 0, 'WeightGet', None), ('ValueSet', 0, 'ValueGet', None)], ['DimensionGet']),
    (['Pdf'], [('DimensionSet', 0, 'DimensionGet', None)], []),
    (['ConditionalPdf', 'Pdf'], [('ConditionalArgumentSet', 1, 'ConditionalArgumentGet', 0)], ['NumConditionalArgumentsGet', 'DimensionGet']),
    (['ConditionalPdf', 'Pdf'], [('ConditionalArgumentsSet', 0, 'ConditionalArgumentsGet', None)], ['NumConditionalArgumentsGet', 'DimensionGet']),
    (['ConditionalPdf', 'Pdf'], [('NumConditionalArgumentsSet', 0, 'NumConditionalArgumentsGet', None)], ['DimensionGet']),
    (['ConditionalGaussianAdditiveNoise', 'ConditionalGaussian', 'ConditionalPdf<MatrixWrapper::ColumnVector, MatrixWrapper::ColumnVector>', 'Pdf<MatrixWrapper::ColumnVector>'],
        [('AdditiveNoiseMuSet', 0, 'AdditiveNoiseMuGet', None), ('AdditiveNoiseSigmaSet', 0, 'AdditiveNoiseSigmaGet', None)],
        ['NumConditionalArgumentsGet', 'DimensionGet', 'ConditionalArgumentGet']),
    (['AnalyticConditionalGaussianAdditiveNoise', 'AnalyticConditionalGaussian', 'ConditionalGaussian', 'ConditionalPdf<MatrixWrapper::ColumnVector, MatrixWrapper::ColumnVector>', 'Pdf<MatrixWrapper::ColumnVector>'],
        [('AdditiveNoiseMuSet', 0, 'AdditiveNoiseMuGet', None), ('AdditiveNoiseSigmaSet', 0, 'AdditiveNoiseSigmaGet', None)],
        ['NumConditionalArgumentsGet', 'DimensionGet', 'ConditionalArgumentGet']),
    (['LinearAnalyticConditionalGaussian', 'AnalyticConditionalGaussianAdditiveNoise', 'AnalyticConditionalGaussian', 'ConditionalGaussian', 'ConditionalPdf<MatrixWrapper::ColumnVector, MatrixWrapper::ColumnVector>', 'Pdf<MatrixWrapper::ColumnVector>'],
        [('MatrixSet', 1, 'MatrixGet', 0), ('AdditiveNoiseMuSet', 0, 'AdditiveNoiseMuGet', None), ('AdditiveNoiseSigmaSet', 0, 'AdditiveNoiseSigmaGet', None)],
        ['NumConditionalArgumentsGet', 'DimensionGet', 'ConditionalArgumentGet', 'CovarianceGet!AdditiveNoiseSigmaSet']),
    (['SystemModel'], [('SystemPdfSet', 0, 'SystemPdfGet', None)], []),
    (['MeasurementModel'], [('MeasurementPdfSet', 0, 'MeasurementPdfGet', None)], []),
    (['ParticleFilter', 'Filter'], [('ProposalSet', 0, 'ProposalGet', None)], ['TimeStepGet', 'PostGet']),
    (['MixtureParticleFilter', 'Filter'], [('ProposalSet', 0, 'ProposalGet', None)], ['TimeStepGet', 'PostGet']),
    (['SRIteratedExtendedKalmanFilter', 'KalmanFilter', 'Filter<MatrixWrapper::ColumnVector, MatrixWrapper::ColumnVector>'], [('SRCovarianceSet', 0, 'SRCovarianceGet', None)], ['TimeStepGet']),
]

def lookup(c, chain, name, like):
    """the definition of member `name` an object of class `like` uses"""
    for k in chain:
        fs = [f for f in c.find('%s::%s' % (base(k), name), need=False) if '<' not in cls(f) or args(cls(f)) == args(k if '<' in k else like) or
              ('<' in cls(f) and '<' in like and '<' not in k and targs_match(cls(f), like))]
        fs = [f for f in fs if len(f['params']) <= 1] or fs
        if fs:
            ro = [f for f in fs if str(f.get('const')) == 'True']
            return (ro or fs)[0]
    return None

def split(q):
    out, d, cur = [], 0, ''
    for ch in args(q)[1:-1]:
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        d += (ch == '<') - (ch == '>'); cur += ch
    return out + [cur.strip()]
def targs_match(base_q, like_q):
    """base classes are instantiated with the first argument(s) of the class"""
    a, b = split(base_q), split(like_q)
    return a == b[:len(a)]

def value(g): return g.rv()

def p30(c):
    for chain, sets, others in TABLE:
        for name, vi, getter, ix in sets:
            own = [f for k in chain for f in c.find('%s::%s' % (base(k), name), need=False)]
            if not own: raise AnalysisError('%s: no setter %s::%s' % (c.pid, chain[0], name))
            first = base(cls(own[0]))
            for f in [f for f in own if base(cls(f)) == first]:
                like = cls(f) if '<' in cls(f) else chain[0]
                G = lookup(c, chain, getter, like)
                lab = '%s: %s' % (cls(f).replace('BFL::', '').replace('MatrixWrapper::', '') if first == base(chain[0]) else chain[0] + args(cls(f)), name)
                if G is None: c.undecided(lab, f['file'].split('/src/')[-1], 'no getter ' + getter); continue
                dyn = chain[0] if first != base(chain[0]) and '<' not in cls(f) else None
                run = lambda fn, **kw: c.run(fn, **kw)
                s = run(f)
                if not s.ok: c.undecided(lab, s, s.err); continue
                given = s.arg(vi); given = X(s.r.st and init_value(s, vi))
                if ix is None:
                    g = c.then(s, G); c.eq(g, lab + ': the getter returns what was set', lambda: value(g), lambda: given)
                    pass
                else:
                    n = s.arg(ix); pn = G['params'][0]['name']
                    g = c.then(s, G, params={pn: n.t}); c.eq(g, lab + ': the getter returns what was set', lambda: value(g), lambda: given)
                    pass
                    j = IDX(6)
                    a, b = run(G, params={pn: j.t}), c.then(s, G, params={pn: j.t})
                    if a.ok and b.ok: c.eq(b, lab + ': the other ones stay', value(b), value(a), [j.ne(n)])
                    else: c.undecided(lab + ': the other ones stay', b, b.err or a.err)
                oth = [o for o in others if '!' not in o or o.split('!')[1] != name] + [x[2] for x in sets if x[2] != getter]
                for o in dict.fromkeys(x.split('!')[0] for x in oth):
                    H = lookup(c, chain, o, like)
                    if H is None: continue
                    kw = {}
                    if H['params']: kw = {'params': {H['params'][0]['name']: IDX(6).t}}
                    a, b = run(H, **kw), c.then(s, H, **kw)
                    if a.ok and b.ok: c.eq(b, '%s: %s is not affected' % (lab, o), value(b), value(a))
                    else: c.undecided('%s: %s is not affected' % (lab, o), b, b.err or a.err)
    for f in c.find('Sample::DimensionSet'):
        if 'ColumnVector' not in cls(f) : continue
        s = c.run(f); G = lookup(c, ['Sample'], 'DimensionGet', cls(f))
        if s.ok and G:
            g = c.then(s, G); c.eq(g, 'Sample<ColumnVector>: DimensionSet: the getter returns what was set', lambda: g.ret, lambda: s.arg(0))
    most_probable(c); innovation(c); backward(c); probability(c); sizes(c)

def init_value(s, i):
    """value of argument i at entry (through the reference it is passed by)"""
    return s.arg(i).t

def unchanged(c, g, lab):
    """reading leaves the object alone"""
    # whatever the getter leaves behind reads the same a second time
    pass

def most_probable(c):
    for f in c.find('DiscretePdf::MostProbableStateGet'):
        s = c.run(f); nm = 'discrete: most probable state'
        if not s.ok: c.undecided(nm, s, s.err); continue
        n = s.this('DiscretePdf::_num_states'); w = s.this('DiscretePdf::_Values_p').deref()
        pos = [n.gt(0), SUM(n, lambda i: w[i]).gt(0)]
        c.axioms = [ALL(n, lambda i: w[i].ge(0))]
        try:
            c.eq(s, nm + ': has the greatest probability', ALL(n, lambda i: w[i].le(w.at(s.ret, 'S'))), TRUEX, pos)
            c.eq(s, nm + ': is one of the states', s.ret.ge(0), TRUEX, pos)
            c.eq(s, nm + ': is one of the states', s.ret.lt(n), TRUEX, pos)
        finally: c.axioms = []

def innovation(c):
    C = 'InnovationCheck'
    ctor = [f for f in c.find(C + '::' + C) if str(f.get('copy')) != 'True' and len(f['params']) == 1]
    for f in ctor:
        s = c.run(f); 
        for g0 in c.find(C + '::check'):
            g = c.then(s, g0)
            v = lambda: X(g.arg(0))
            c.eq(g, 'innovation check: large enough iff the squared norm reaches the given bound', lambda: g.ret, lambda: (v().T * v()).ge(s.arg(0)))

def backward(c):
    for f in c.find('BackwardFilter::Reset'):
        s = c.run(f); like = cls(f)
        G = lookup(c, ['BackwardFilter'], 'PostGet', like)
        g = c.then(s, G); c.eq(g, 'backward filter: after a reset the posterior is the given density', lambda: g.ret, lambda: s.arg(0))

def probability(c):
    """everything else in the library is analysed with probabilities as plain numbers: here is why that is right"""
    K = 'Probability'; V = K + '::_prob'
    fs = [f for f in c.p.fns.values() if (f.get('cls') or '').split('::')[-1] == K]
    if not fs: raise AnalysisError('%s: no class Probability' % c.pid)
    read = c.find(K + '::getValue'); read = [f for f in read if str(f.get('const')) == 'True'] or read
    for f in c.find(K + '::' + K):
        if len(f['params']) != 1: continue
        s = c.run(f); g = c.then(s, read[0]); a = s.arg(0)
        if str(f.get('copy')) == 'True': c.eq(g, 'probability: a copy has the same value', lambda: g.rv(), lambda: number(a, True))
        else: c.eq(g, 'probability: made from a number it has that value', lambda: g.rv(), lambda: a)
    for f in c.find(K + '::operator double'):
        s = c.run(f); v = c.run(read[0]); c.eq(s, 'probability: used as a number it is its value', lambda: s.ret, lambda: v.rv())
    for f in c.find(K + '::operator=', need=False):
        s = c.run(f); g = c.then(s, read[0]); c.eq(g, 'probability: an assignment takes the value over', lambda: g.rv(), lambda: number(s.arg(0), True))
    v = lambda: c.run(read[0]).rv()
    for f in c.find(K + '::operator*'):
        s = c.run(f); c.eq(s, 'probability: the product of two', lambda: number(s.ret), lambda: v() * number(s.arg(0)))
    for f in c.find(K + '::operator/'):
        s = c.run(f); c.eq(s, 'probability: the quotient of two', lambda: number(s.ret), lambda: v() * number(s.arg(0)).inv)
def number(x, whole=False):
    """a Probability-valued term as the number it holds"""
    t = X(x).t
    if t[0] == 'init' and whole: return X(('init', (t[1][0], t[1][1] + ('Probability::_prob',)), 'S'))
    return X(t)
def sizes(c):
    """sizes reported by models are those of the densities behind them"""
    for K, name, pdf in (('SystemModel', 'StateSizeGet', 'SystemPdfGet'), ('MeasurementModel', 'MeasurementSizeGet', 'MeasurementPdfGet')):
        for f in c.find('%s::%s' % (K, name)):
            s = c.run(f); G = lookup(c, [K], pdf, cls(f)); g = c.run(G)
            c.eq(s, '%s: %s is the dimension of its density' % (cls(f).replace('BFL::', '').replace('MatrixWrapper::', ''), name), lambda: s.ret, lambda: g.ret.deref('Pdf::_dimension', kd='U'))
    for K in ('ConditionalGaussianAdditiveNoise', 'AnalyticConditionalGaussianAdditiveNoise'):
        for f in c.find(K + '::CovarianceGet'):
            s = c.run(f); g = c.run(lookup(c, [K], 'AdditiveNoiseSigmaGet', K)); c.eq(s, K + ': covariance is that of the noise', lambda: s.rv(), lambda: g.rv())
    K = 'DiscreteSystemModel'
    for f in c.find(K + '::NumStatesGet'):
        s = c.run(f); c.eq(s, K + ': NumStatesGet is the number of states of its density', lambda: s.ret, lambda: c.run(lookup(c, ['SystemModel'], 'SystemPdfGet', 'BFL::SystemModel<int>')).ret.deref('DiscreteConditionalPdf::_num_states', kd='U'))
