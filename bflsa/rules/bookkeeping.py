"""Filters start at their prior, count their system updates and hand out their posterior."""
from ..rule import *
from .kalman import MU, SG, MG, iekf_pre
from . import sriekf
from . import particle as P
from .particle import val, wt, CV
from . import mixfilter as MF
POST = 'Filter::_post'; TS = 'Filter::_timestep'; LST = 'MCPdf::_listOfSamples'

KAL = ('KalmanFilter', 'ExtendedKalmanFilter', 'IteratedExtendedKalmanFilter', 'SRIteratedExtendedKalmanFilter')
PAR = ('ParticleFilter', 'BootstrapFilter', 'EKParticleFilter')
MIX = ('MixtureParticleFilter', 'MixtureBootstrapFilter')

def ctors(c, K):
    fs = [f for f in c.find('%s::%s' % (K, K)) if f.get('kind') == 'ctor' and f['params'] and '&' not in f['params'][0]['t']]
    if not fs: raise AnalysisError('no constructor of %s' % K)
    return fs

def same(c, s, t, p, q, K, kind_, g0=()):
    """the contents of object p at the end of s are those of q at its start"""
    g0 = list(g0)
    if kind_ == 'kal':
        c.eq(s, t + 'mean', s.at(p, MU), q.deref(MU, kd='V'), g0)
        c.eq(s, t + 'covariance', s.at(p, SG), q.deref(SG, kd='Y'), g0)
    elif kind_ == 'par':
        L = q.deref(LST); new = s.at(p, LST); i = IDX(L.size); tot = SUM(L.size, lambda k: wt(L, k)); g = [tot.gt(0)] + g0
        c.eq(s, t + 'number of particles', new.size, L.size, g)
        c.eq(s, t + 'values', val(new, i), val(L, i), g)
        return i, new, L, g, tot
    elif kind_ == 'his':
        N = q.deref('DiscretePdf::_num_states', kd='U'); V = q.deref('DiscretePdf::_Values_p').deref()
        c.eq(s, t + 'number of states', s.at(p, 'DiscretePdf::_num_states', kd='U'), N, g0)
        got = s.at(s.at(p, 'DiscretePdf::_Values_p')); i = IDX(N)
        c.eq(s, t + 'probabilities', got.at(i, 'S'), V.at(i, 'S'), g0)
    elif kind_ == 'mix':
        N = q.deref('Mixture::_numComponents', kd='U'); i = IDX(N)
        c.eq(s, t + 'number of components', s.at(p, 'Mixture::_numComponents', kd='U'), N, g0)
        c.eq(s, t + 'component weights', s.at(s.at(p, 'Mixture::_componentWeights')).at(i, 'S'), q.deref('Mixture::_componentWeights').deref().at(i, 'S'), g0)
        v = s.at(s.at(p, 'Mixture::_componentPdfs')).at(i, 'O')
        o = q.deref('Mixture::_componentPdfs').deref().at(i, 'O')
        c.eq(s, t + 'component i is (a clone of) component i', ITE(v.eq(o), CALL('Clone', o.deref()), v), CALL('Clone', o.deref()), g0)

def start(c, K, kind_):
    for f in ctors(c, K):
        two = len(f['params']) > 1 and f['params'][0]['t'] == f['params'][1]['t']
        if two and kind_ == 'mix': continue      # does not compile when used
        s = c.run(f, cls=f['cls'])
        t = '%s%s starts at its prior: ' % (K, ' on a given posterior' if two else '')
        if not s.ok: c.undecided(t, s, s.err); continue
        q = s.arg(0); p = s.fin(POST)
        c.eq(s, t + 'time step 0', s.fin(TS), 0)
        if two: c.eq(s, t + 'the given object is the posterior', p, s.arg(1)); g0 = [s.arg(0).ne(s.arg(1))]
        else:
            g0 = []
            c.eq(s, t + 'dimension', s.at(p, 'Pdf::_dimension', kd='U'), q.deref('Pdf::_dimension', kd='U'))
        r = same(c, s, t, p, q, K, kind_, g0)
        if kind_ == 'par':
            i, new, L, g, tot = r
            c.eq(s, t + 'weights, normalised', wt(new, i), wt(L, i) / tot, g)

def reset(c, K, kind_):
    """Reset(prior) called on the class a user holds"""
    for f in ctors(c, K)[:1]:
        cls = f['cls']
        fs = []
        for b in [cls] + sorted(c.p.bases_all(cls), key=lambda x: (-len(c.p.bases_all(x)), x)):      # most derived first
            fs = [x for x in c.find(b.split('<')[0].split('::')[-1] + '::Reset', need=False) if x['cls'] == b]
            if fs: break
        if not fs: c.undecided(K + '::Reset', K, 'not found'); continue
        for r in fs:
            s = c.run(r, cls=cls)
            t = '%s, Reset: ' % K
            if not s.ok: c.undecided(t, s, s.err); continue
            q = s.arg(0); p = s.fin(POST); old = s.this(POST)
            g = [q.ne(NULLX), q.ne(old)]
            c.eq(s, t + 'the time step stays', s.fin(TS), s.this(TS), g)
            c.eq(s, t + 'the prior is registered', s.fin('Filter::_prior'), q, g)
            rr = same(c, s, t, p, q, K, kind_, g)
            if kind_ == 'par':
                i, new, L, g, tot = rr
                c.eq(s, t + 'weights', wt(new, i), wt(L, i), g)
            if kind_ == 'mix':
                N = q.deref('Mixture::_numComponents', kd='U')
                have = {x['name'] for o, x in c.p.fields_all(cls)}
                for m in ('_newMixtureWeights', '_sumWeights', '_old_samplesVec', '_new_samplesVec', '_new_samples_unweightedVec'):
                    if m not in have: continue          # kept elsewhere
                    c.eq(s, t + 'one entry of %s per component' % m, s.fin('MixtureParticleFilter::' + m, kd='O').size, N, g)

def access(c, K):
    for f in c.find(K + '::PostGet', need=False):
        if K == 'Filter' and f['cls'] and 'Filter<' not in f['cls']: continue
        s = c.run(f, cls=f['cls']); t = K + '::PostGet: '
        if not s.ok: c.undecided(t, s, s.err); continue
        c.eq(s, t + 'the posterior of the filter', s.ret, s.this(POST, kd='O'))
        c.holds(s, t + 'changes nothing', not s.changed(), str(s.changed())[:200])

def resampled(t):
    """the outcomes of resampling a term depends on, taken to be successes"""
    out = []
    def walk(x):
        if not isinstance(x, tuple): return
        if x and x[0] == 'ite' and T.any_sub(x[1], lambda y: y[0] == 'call' and str(y[1]).startswith('Resample')) is not None and x[1] not in out: out.append(x[1])
        for y in x: walk(y)
    walk(t)
    return [X(not_(o)) if o[0] == 'not' else X(o) for o in out]

def steps(c, K, cls, kw, ex=(), lab='', ok=False):
    """time step and the objects an update may not touch"""
    for f in c.find('Filter::Update'):
        if not any(f['cls'] == b for b in c.p.bases_all(cls)): continue
        names = [p['t'] for p in f['params']]
        si = [i for i, n in enumerate(names) if 'SystemModel' in n]; mi = [i for i, n in enumerate(names) if 'MeasurementModel' in n]
        s = c.run(f, cls=cls, **kw)
        t = '%s%s, Update with %s: ' % (K, lab, ' and '.join(['a system model'] * bool(si) + ['a measurement model'] * bool(mi)) + ' (%d arguments)' % len(names))
        if not s.ok: c.undecided(t + 'time step', s, s.err); continue
        ts = s.this(TS)
        g = [s.arg(i).ne(NULLX) for i in si + mi] + list(ex)
        if ok: g += resampled(s.fin(TS).t)
        c.eq(s, t + 'time step advances by one' if si else t + 'time step stays', s.fin(TS), ts + 1 if si else ts, g)
        c.eq(s, t + 'the prior stays registered', s.fin('Filter::_prior'), s.this('Filter::_prior'), g)
        c.eq(s, t + 'the posterior object stays', s.fin(POST), s.this(POST), g)

def p27(c):
    for K in KAL: start(c, K, 'kal')
    for K in PAR: start(c, K, 'par')
    start(c, 'HistogramFilter', 'his')
    for K in MIX: start(c, K, 'mix')
    for K in KAL[1:]: reset(c, K, 'kal')
    for K in PAR: reset(c, K, 'par')
    reset(c, 'HistogramFilter', 'his')
    for K in MIX: reset(c, K, 'mix')
    for f in c.find('Filter::TimeStepGet'):
        s = c.run(f, cls=f['cls'])
        if not s.ok: c.undecided('TimeStepGet', s, s.err); continue
        c.eq(s, 'TimeStepGet is the time step', s.ret, s.this(TS))
    for K in ('Filter', 'KalmanFilter', 'HistogramFilter', 'ParticleFilter', 'MixtureParticleFilter'): access(c, K)
    P0 = ('init', (('this',), (POST,)), 'O')
    for K in KAL:
        kw = dict(types={('ref', P0): 'BFL::Gaussian'}, pure=MG, opaque=MG)
        if K.startswith('SR'): kw = dict(sriekf.KW, opaque=MG + sriekf.KW['opaque'], pure=MG + sriekf.KW['pure'], pre={(('this',), (sriekf.NR,)): num(1)})
        if K.startswith('It'): kw.update(unroll=True, pre=iekf_pre(1))
        if K == 'KalmanFilter': continue          # abstract
        steps(c, K, 'BFL::' + K, kw)
    for K in ('ParticleFilter', 'BootstrapFilter') + MIX:
        mix = K in MIX; o = 'MixtureParticleFilter' if mix else 'ParticleFilter'
        # helpers that have nothing to do with the count are shown to leave it alone, then skipped
        parts = MF.ONES + ('MaintainMixture',) if mix else ('UpdateWeightsInternal', 'DynamicResampleStep', 'Resample')
        base = MF.KW if mix else P.KW
        kw = dict(opaque=tuple(base['opaque']) + parts, pure=tuple(base['pure']) + parts)
        D = (('this',), (o + '::_dynamicResampling',))
        for cls in sorted({f['cls'] for f in ctors(c, K)}):
            skip = []
            if K == o:
                for nm in parts:
                    for f in [x for x in c.find(o + '::' + nm, need=False) if x['cls'] == cls]:
                        s = c.run(f, cls=cls, **base); t = '%s, %s: ' % (K, nm)
                        if not s.ok: c.undecided(t, s, s.err); continue
                        c.eq(s, t + 'time step stays', s.fin(TS), s.this(TS))
                        c.eq(s, t + 'the posterior object stays', s.fin(POST), s.this(POST))
            for v, lab in ((TRUE, ' with dynamic resampling'), (FALSE, ' with periodic resampling')):
                steps(c, K, cls, dict(kw, pre={D: v}), lab=lab, ok=True)
    for f in ctors(c, 'HistogramFilter'):
        steps(c, 'HistogramFilter', f['cls'], dict(opaque=('ProbabilityGet',), pure=('ProbabilityGet',)))
