"""Extended Kalman particle filter: every particle carries its own covariance,
which is resampled together with its value; its proposal is one Kalman step
from the particle."""
from ..rule import *
from ..engine import eff
from . import particle as P
from .particle import lst, updates, noin, nosp, val, wt, names, red, POST
from .sampling import position, ordered
import random
K = 'EKParticleFilter'
F = 'FilterProposalDensity'
COV = F + '::_sample_cov'; ARG = 'ConditionalPdf::_ConditionalArguments'
def tf(n, kd='O'): return X(('init', (('this',), (n,)), kd))

def resample(c):
    L = POST.deref('MCPdf::_listOfSamples'); N = L.size; C = POST.deref('MCPdf::_CumPDF')
    own = lambda n: tf(K + '::' + n).t
    ax = {own(n): N.t for n in ('_old_samples', '_result_samples', '_unif_samples', '_sampleCov', '_tmpCov', '_CumPDF')}
    for f in c.find(K + '::Resample', need=False):
        s = c.run(f, cls=f['cls'], size_axioms=ax, opaque=('MCPdf::ListOfSamplesUpdate',), types={('ref', POST.t): 'BFL::MCPdf<MatrixWrapper::ColumnVector>'})
        t = 'resampling: '
        if not s.ok: c.undecided(t, s, s.err); continue
        us = updates(s)
        c.holds(s, t + 'the list is replaced once', len(us) == 1, str([x[3] for x in us]))
        def hook(m, k, kd):
            if k[0] == 'sel' and isinstance(k[2], int) and 'MCPdf::_CumPDF' in repr(k[1])[:600]:
                n = m.ev(N.t, {})
                if isinstance(n, int) and n >= 1 and 0 <= k[2] <= n:
                    r = random.Random(repr((m.seed, 'table')))
                    return ([0.0] + sorted(r.randrange(0, 9) / 8 for _ in range(n - 1)) + [1.0])[k[2]]
            return None
        for x in us[:1]:
            new = X(x[2][2][1]); i = IDX(N); g = [N.gt(0)]
            old, c.hook = c.hook, hook; c.axioms = [N.gt(0)]
            try:
                at = position(ordered(N, i), lambda k: C.at(k, 'S'), N)
                c.eq(s, t + 'particle i is the one with cum[j] <= u_i < cum[j+1]', val(new, i), val(L, at), g)
                c.eq(s, t + 'its covariance is that of the same particle', s.fin(K + '::_sampleCov').at(i, 'Y'), tf(K + '::_sampleCov').at(at, 'Y'), g)
                c.eq(s, t + 'equal weights', wt(new, i), wt(new, IDX(N)), g)
            finally: c.hook = old; c.axioms = []
            c.eq(s, t + 'number of particles kept', new.size, N, g)
            c.eq(s, t + 'on the posterior', X(x[2][2][0]), POST.deref(), g)
            c.eq(s, t + 'result is that of the list update', s.ret, X(('call', 'ListOfSamplesUpdate', x[2][2], 'B')), g)
def propose(c):
    L = lst()
    ax = {tf(k).t: L.size.t for k in (K + '::_old_samples', K + '::_sampleCov', 'ParticleFilter::_new_samples')}
    for f in c.find(K + '::ProposalStepInternal', need=False):
        s = c.run(f, cls=f['cls'], size_axioms=ax, **P.KW)
        t = 'propagation: '
        if not s.ok: c.undecided(t, s, s.err); continue
        n = names(f); sm, u, mm, z, sp = [s.arg(n[k]) for k in ('sys', 'u', 'meas', 'z', 's')]
        g = [sm.ne(NULLX), mm.ne(NULLX), tf('ParticleFilter::_proposal_depends_on_meas', 'B')]
        us = updates(s)
        c.holds(s, t + 'the list is replaced once', len(us) == 1, str([x[3] for x in us]))
        for x in us[:1]:
            new = X(x[2][2][1]); i = IDX(L.size); v = red(val(new, i).t, g)
            p = tf('ParticleFilter::_proposal'); a = p.deref(ARG)
            a0 = a.upd(0, val(L, i))
            a2 = ITE(noin(sm), ITE(nosp(mm), a0.upd(1, z), a0.upd(1, z).upd(2, sp)), ITE(nosp(mm), a0.upd(1, u).upd(2, z), a0.upd(1, u).upd(2, z).upd(3, sp)))
            want = p.deref().set(ARG, a2).set(COV, tf(K + '::_sampleCov').at(i, 'Y'))
            if v[0] == 'fld' and v[1][0] == 'out' and v[1][1][0] == 'call' and v[1][1][1] == 'SampleFrom':
                c.eq(s, t + 'value i is drawn from the proposal given old value, covariance i, input, measurement and sensor parameters', X(v[1][1][2][0]), want, g)
            elif unresolved(v): c.undecided(t + 'value drawn from the proposal', s, show(v)[:300])
            else: c.add(t + 'value drawn from the proposal', s.loc, 'violated', show(v)[:300])
            cv = red(s.fin(K + '::_sampleCov').at(i, 'Y').t, g)
            c.eq(s, t + 'covariance i becomes that of the same proposal', X(cv), CALL('CovarianceGet', want, kd=kind(cv)), g)
            c.eq(s, t + 'weights kept', wt(new, i), wt(L, i), g)
            c.eq(s, t + 'number of particles kept', new.size, L.size, g)
            c.eq(s, t + 'on the posterior', X(x[2][2][0]), POST.deref(), g)
            c.eq(s, t + 'time step advances by one', s.fin('Filter::_timestep'), s.this('Filter::_timestep') + 1, g)
            c.eq(s, t + 'result is that of the list update', s.ret, X(('call', 'ListOfSamplesUpdate', x[2][2], 'B')), g)
def density(c):
    sm, mm = tf(F + '::_sysmodel'), tf(F + '::_measmodel'); A = lambda i: tf(ARG).at(i, 'V')
    fl = tf(F + '::_filter'); pr = tf(F + '::_TmpPrior'); bl = CALL('blank', kd='V')
    for q, kd in (('ExpectedValueGet', 'V'), ('CovarianceGet', 'Y')):
        for f in c.find(F + '::' + q):
            s = c.run(f, cls=f['cls'], opaque=('UpdateInternal',))
            t = 'proposal %s: ' % q
            if not s.ok: c.undecided(t, s, s.err); continue
            es = s.effects('call', name='UpdateInternal')
            c.eq(s, t + 'the prior of the step has the mean of argument 0', s.at(pr, 'Gaussian::_Mu', kd='V'), A(0))
            c.eq(s, t + 'and the covariance of the particle', s.at(pr, 'Gaussian::_Sigma', kd='Y'), tf(COV, 'Y'))
            for ns in (0, 1):
                for nm in (0, 1):
                    for no in (0, 1):
                        g = [sm.ne(NULLX), mm.ne(NULLX), noin(sm) if ns else ~noin(sm), nosp(mm) if nm else ~nosp(mm)]
                        k = 1 if ns else 2
                        want = (sm, bl if ns else A(1), mm, A(k), bl if nm else A(k + 1))
                        lab = t + '%s inputs, %s sensor parameters: ' % ('without' if ns else 'with', 'without' if nm else 'with')
                        if no: continue
                        check(c, s, lab, es, g, fl, pr, want, ns, nm, q, kd)
            for ns in (0, 1):
                g = [mm.eq(NULLX), sm.ne(NULLX), noin(sm) if ns else ~noin(sm)]
                check(c, s, t + 'system model only, %s inputs: ' % ('without' if ns else 'with'), es, g, fl, pr, (sm, bl if ns else A(1), NULLX, bl, bl), ns, 1, q, kd)
                g = [sm.eq(NULLX), mm.ne(NULLX), nosp(mm) if ns else ~nosp(mm)]
                check(c, s, t + 'measurement model only, %s sensor parameters: ' % ('without' if ns else 'with'), es, g, fl, pr, (NULLX, bl, mm, A(1), bl if ns else A(2)), 1, ns, q, kd)
    for nme, me, other in (('SystemModelSet', '_sysmodel', '_measmodel'), ('MeasurementModelSet', '_measmodel', '_sysmodel')):
        for f in c.find(F + '::' + nme):
            s = c.run(f, cls=f['cls'], opaque=('SystemPdfGet', 'MeasurementPdfGet'), pure=('SystemPdfGet', 'MeasurementPdfGet', 'NumConditionalArgumentsGet', 'StateSizeGet'))
            if not s.ok: c.undecided(nme, s, s.err); continue
            g = [s.arg(0).ne(NULLX)]
            c.eq(s, nme + ': the given model is used', s.fin(F + '::' + me), s.arg(0), g)
            c.eq(s, nme + ': the other model is kept', s.fin(F + '::' + other), s.this(F + '::' + other), g)
    for f in c.find(F + '::SampleCovSet'):
        s = c.run(f, cls=f['cls'])
        if not s.ok: c.undecided('SampleCovSet', s, s.err); continue
        c.eq(s, 'SampleCovSet: the given covariance is used', s.fin(COV, kd='Y'), s.arg(0))
def check(c, s, lab, es, g, fl, pr, want, ns, nm, q, kd):
    ev = [e for e in es if red(e[0], g) != FALSE]
    c.holds(s, lab + 'one filter step', len(ev) == 1, str([e[3] for e in ev]))
    for e in ev[:1]:
        a = e[2][2]
        c.eq(s, lab + 'always made', X(red(e[0], g)), TRUEX)
        o = X(red(a[0], g))
        c.eq(s, lab + 'starting from that prior', o.f('Filter::_post'), pr)
        for k, (w, n) in enumerate(zip(want, ('system model', 'input', 'measurement model', 'measurement', 'sensor parameters'))):
            c.eq(s, lab + n, X(red(a[k + 1], g)), w, g)
        c.eq(s, lab + 'the answer is that of the posterior of the step', X(red(s.ret.t, g)), CALL(q, CALL('PostGet', X(red(eff('UpdateInternal', a[0], a[1:]), g))).deref(), kd=kd), g)
def step(c):
    O = ('StaticResampleStep', 'DynamicResampleStep', 'ProposalStepInternal', 'UpdateWeightsInternal', 'SystemPdfGet', 'MeasurementPdfGet')
    for f in c.find(K + '::UpdateInternal'):
        s = c.run(f, cls=f['cls'], opaque=O, pure=('SystemPdfGet', 'MeasurementPdfGet', 'NumConditionalArgumentsGet', 'StateSizeGet'))
        t = 'one step: '
        if not s.ok: c.undecided(t, s, s.err); continue
        n = names(f); g = [s.arg(n['sys']).ne(NULLX), s.arg(n['meas']).ne(NULLX)]
        es = [e for k in O[:4] for e in s.effects('call', name=k)]
        by = {k: [e for e in es if e[2][0].endswith('::' + k)] for k in O[:4]}
        for k in O[:4]:
            c.holds(s, t + k + ' runs once', len(by[k]) == 1 and red(by[k][0][0], g) == TRUE, str([e[3] for e in by[k]]))
        if any(len(v) != 1 for v in by.values()): continue
        cur = None
        for k in ('StaticResampleStep', 'ProposalStepInternal', 'UpdateWeightsInternal', 'DynamicResampleStep'):
            a = by[k][0][2][2]; o = X(red(a[0], g))
            if cur is not None: c.eq(s, t + k + ' continues from the preceding stage', o, cur)
            if len(a) > 1:
                for j, r in enumerate(('sys', 'u', 'meas', 'z', 's')): c.eq(s, t + '%s gets the %s argument of the step' % (k, r), X(red(a[1 + j], g)), s.arg(n[r]))
            cur = X(eff(k, o.t, tuple(red(x, g) for x in a[1:])))
        r = [X(('call', k, tuple(red(x, g) for x in by[k][0][2][2]), 'B')) for k in ('ProposalStepInternal', 'UpdateWeightsInternal')]
        c.eq(s, t + 'success iff propagation and weighting succeed', X(red(s.ret.t, g)), r[0] & r[1])
        p = tf('ParticleFilter::_proposal')
        c.eq(s, t + 'the proposal uses the given system model', s.at(p, F + '::_sysmodel'), s.arg(n['sys']), g)
        c.eq(s, t + 'the proposal uses the given measurement model', s.at(p, F + '::_measmodel'), s.arg(n['meas']), g)
def p29(c):
    step(c); resample(c); propose(c); density(c)
