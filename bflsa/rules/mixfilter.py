"""Mixture particle filters: every component is a particle filter of its own,
the mixture weights follow the likelihood of the components."""
from ..rule import *
from . import particle as P
from .particle import inst, lst, updates, noin, nosp, lik, val, wt, names, red, draw, MC, proposal, is_out
K = 'MixtureParticleFilter'
FN = ('Mixture::ComponentGet', 'Mixture::NumComponentsGet', 'Mixture::WeightGet', 'Mixture::WeightsSet')
KW = dict(opaque=MC + FN, pure=('ProbabilityGet', 'SystemPdfGet', 'ComponentGet'))
ONES = ('ProposalStepInternalOne', 'UpdateWeightsInternalOne', 'ResampleOne', 'DynamicResampleStepOne', 'MaintainMixture')
KA = dict(opaque=MC + FN + ONES, pure=('ProbabilityGet', 'SystemPdfGet', 'ComponentGet') + ONES)
POST = P.POST
def tf(n, kd='O'): return X(('init', (('this',), (K + '::' + n,)), kd))
def nonneg(m, k, kd): return m.nonneg(k) if kd == 'S' else None

def ones(c):
    comp = lambda i: CALL('ComponentGet', POST.deref(), i)
    prop = tf('_proposal')
    for f in inst(c, K + '::ProposalStepInternalOne', need=False):
        pi = [i for i, p in enumerate(f['params']) if p['t'] == 'int']
        if len(pi) != 1: c.undecided('propagation of one component', '%s:%s' % (K, f['ln']), 'signature'); continue
        i0 = Summary(None, f, None).arg(pi[0]); n = names(f)
        L = lst(comp(i0).deref())
        s = c.run(f, cls=f['cls'], **KW)
        t = 'propagation of one component: '
        if not s.ok: c.undecided(t, s, s.err); continue
        us = updates(s); sm, u = s.arg(n['sys']), s.arg(n['u'])
        c.holds(s, t + 'its list is replaced once', len(us) == 1, str([x[3] for x in us]))
        for x in us[:1]:
            new = X(x[2][2][1]); i = IDX(L.size)
            c.eq(s, t + 'on that component', X(x[2][2][0]), comp(i0).deref())
            draw(c, s, t[:-2], new, L, i, sm, u, [], prop)
            c.eq(s, t + 'weights kept', wt(new, i), wt(L, i))
            c.eq(s, t + 'number of particles kept', new.size, L.size)
            c.eq(s, t + 'result is that of the list update', s.ret, X(('call', 'ListOfSamplesUpdate', x[2][2], 'B')))
            c.arr(s, t + 'old values remembered for the importance ratio', lambda: s.fin(K + '::_old_samplesVec').at(i0, 'O'), lambda j: L.at(j, 'O'), L.size, kd='O')
    for f in inst(c, K + '::UpdateWeightsInternalOne', need=False):
        pi = [i for i, p in enumerate(f['params']) if p['t'] == 'int']; n = names(f)
        if len(pi) != 1: c.undecided('weighting of one component', '%s:%s' % (K, f['ln']), 'signature'); continue
        for hs in (0, 1):
            s = c.run(f, cls=f['cls'], params={} if hs else {f['params'][n['sys']]['name']: NULL}, **KW)
            t = 'weighting of one component, %s system model: ' % ('with' if hs else 'without')
            if not s.ok: c.undecided(t, s, s.err); continue
            i0 = s.arg(pi[0]); NC = CALL('NumComponentsGet', POST.deref(), kd='I')
            sm, u, mm, z, sp = [s.arg(n[k]) for k in ('sys', 'u', 'meas', 'z', 's')]
            g = [i0.ge(0), i0.lt(NC), i0.le(NC), mm.ne(NULLX)] + ([sm.ne(NULLX)] if hs else [])
            us = [x for x in updates(s) if red(x[0], g) != FALSE]
            c.holds(s, t + 'its list is replaced once', len(us) == 1, str([x[3] for x in us]))
            for x_ in us[:1]:
                L = lst(comp(i0).deref()); new = X(x_[2][2][1]); i = IDX(L.size)
                x = val(L, i); xo = tf('_old_samplesVec').at(i0, 'O').at(i, 'O').f(P.V, 'V')
                fac = lambda i: None
                def factor(i):
                    x = val(L, i); xo = tf('_old_samplesVec').at(i0, 'O').at(i, 'O').f(P.V, 'V'); q_ = lik(mm, z, x, sp)
                    if hs:
                        ps = ITE(noin(sm), CALL('ProbabilityGet', sm.deref(), x, xo, kd='S'), CALL('ProbabilityGet', sm.deref(), x, xo, u, kd='S'))
                        q = CALL('ProbabilityGet', proposal(xo, u, sm, prop), x, kd='S')
                        q_ = ITE(q.eq(0), 0, q_ * ps / q)
                    return q_
                c.hook = nonneg
                c.eq(s, t + 'on that component', X(x_[2][2][0]), comp(i0).deref(), g)
                c.eq(s, t + 'values kept', val(new, i), x, g)
                c.eq(s, t + 'weights multiplied by the factor of their own particle', wt(new, i), wt(L, i) * factor(i), g)
                c.eq(s, t + 'number of particles kept', new.size, L.size, g)
                c.eq(s, t + 'component likelihood is the sum of the new weights', s.fin(K + '::_sumWeights').at(i0, 'S'), SUM(L.size, lambda i: wt(L, i) * factor(i)), g)
                c.eq(s, t + 'result is that of the list update', s.ret, X(('call', 'ListOfSamplesUpdate', x_[2][2], 'B')), g)
                c.hook = None
    for nm in ('ResampleOne', 'DynamicResampleStepOne'):
        for f in inst(c, K + '::' + nm, need=False):
            dyn = nm[0] == 'D'
            s = c.run(f, cls=f['cls'], pre={(('this',), (K + '::_dynamicResampling',)): TRUE} if dyn else None, **KW)
            t = '%sresampling one component: ' % ('dynamic ' if dyn else '')
            if not s.ok: c.undecided(t, s, s.err); continue
            o = comp(s.arg(0)).deref(); L = lst(o); A = [tf('_resampleScheme', 'I').eq(0)]
            rs = [e for e in s.effects('call', name='SampleFrom') if red(e[0], A) != FALSE]
            us = [u for u in updates(s) if red(u[0], A) != FALSE]
            c.holds(s, t + 'one draw and one list update', len(rs) == 1 and len(us) == 1, '%d %d' % (len(rs), len(us)))
            for e, u in list(zip(rs, us))[:1]:
                a = e[2][2]; H = A + [X(e[0])]
                due = (1 / SUM(L.size, lambda i: wt(L, i) * wt(L, i))).lt(tf('_resampleThreshold', 'S')) if dyn else TRUEX
                c.hook = nonneg
                c.eq(s, t + ('exactly when the effective sample size is below the threshold' if dyn else 'always'), X(red(e[0], A)), due)
                c.hook = None
                c.eq(s, t + 'draws from that component', X(red(a[0], H)), o)
                c.eq(s, t + 'as many samples as there are particles', X(red(a[2], H)), L.size)
                c.eq(s, t + 'ordered multinomial draw', X(a[3]), 3)
                new = X(red(u[2][2][1], H)); out = T.any_sub(new.t, lambda x: is_out(x, o.t, H)); i, j = IDX(L.size), IDX(L.size)
                c.eq(s, t + 'the drawn samples replace its particles', X(red(u[2][2][0], H)), o)
                if out is None: c.holds(s, t + 'the new values are the drawn samples', False, show(new.t)[:200])
                else: c.eq(s, t + 'the new values are the drawn samples', val(new, i), val(X(out), i))
                if 'WeightedSample' in u[2][3]: c.eq(s, t + 'equal weights', wt(new, i), wt(new, j))
                c.eq(s, t + 'list replaced exactly when samples are drawn', X(red(u[0], A)), X(red(e[0], A)))
                c.eq(s, t + 'result is that of the list update', X(red(s.ret.t, H)), X(('call', 'ListOfSamplesUpdate', tuple(red(x, H) for x in u[2][2]), 'B')))
    for f in inst(c, K + '::DynamicResampleStepOne', need=False):
        s = c.run(f, cls=f['cls'], pre={(('this',), (K + '::_dynamicResampling',)): FALSE}, **KW)
        c.holds(s, 'periodic schedule: no dynamic resampling', s.ok and not s.effects('call', name='SampleFrom') and not updates(s))

def steps(c):
    NC = CALL('NumComponentsGet', POST.deref(), kd='I')
    ts = X(('init', P.TS, 'I')); per = tf('_resamplePeriod', 'I')
    mod = X(('fn', 'mod', ts.t, per.t)); due = mod.eq(0) & ts.ne(0)
    for nm, cls in (('mixture particle filter', K), ('mixture bootstrap filter', 'MixtureBootstrapFilter')):
        f = inst(c, cls + '::UpdateInternal')[0]; n = names(f); boot = cls != K
        for dyn in (0, 1):
            for hs, hm, lab in ((1, 0, 'system'), (0, 1, 'measurement'), (1, 1, 'both')):
                ps = {}
                if not hs: ps[f['params'][n['sys']]['name']] = NULL
                if not hm: ps[f['params'][n['meas']]['name']] = NULL
                s = c.run(f, cls=f['cls'], pre={(('this',), (K + '::_dynamicResampling',)): TRUE if dyn else FALSE}, params=ps, **KA)
                t = '%s, %s resampling, %s update: ' % (nm, 'dynamic' if dyn else 'periodic', lab)
                if not s.ok: c.undecided(t, s, s.err); continue
                sm, u, mm, z, sp = [s.arg(n[k]) for k in ('sys', 'u', 'meas', 'z', 's')]
                A = [x.ne(NULLX) for x, h in ((sm, hs), (mm, hm)) if h]
                order = []; ev = {}
                for x in s.r.st.effects:
                    if x[1] != 'call' or red(x[0], A) == FALSE: continue
                    b = x[2][0].split('::')[-1]
                    if b in ONES or b in ('WeightsSet',): order.append(b); ev.setdefault(b, []).append(x)
                order = list(dict.fromkeys(order))
                want = (['ResampleOne'] if hs and not dyn else []) + (['ProposalStepInternalOne'] if hs else []) + (['UpdateWeightsInternalOne', 'WeightsSet', 'DynamicResampleStepOne'] if hm else [])
                have = [x for x in order if x != 'MaintainMixture' and (dyn or x != 'DynamicResampleStepOne')]
                if not dyn: want = [x for x in want if x != 'DynamicResampleStepOne']
                c.holds(s, t + 'steps in order: ' + ', '.join(want), have == want, ', '.join(have))
                if have != want: continue
                # success of everything that runs before a step
                done = list(A)
                allok = []
                for b in want:
                    xs = ev[b]
                    if b == 'WeightsSet':
                        for x in xs[:1]:
                            i = IDX(NC)
                            c.eq(s, t + 'component weight times component likelihood', X(x[2][2][1]).at(i, 'S'), CALL('WeightGet', POST.deref(), i, kd='S') * s.fin(K + '::_sumWeights').at(i, 'S'), A)
                        continue
                    if len(xs) != 1: c.undecided(t + b, s, '%d call sites' % len(xs)); continue
                    x = xs[0]; fa = [q for q in x[4:] if q and q[0] == 'forall']
                    c.holds(s, t + b + ' runs over the components', len(fa) == 1, str(x[3]))
                    if len(fa) != 1: continue
                    k, N = fa[0][1], fa[0][2]
                    c.eq(s, t + b + ' covers every component', X(outcomes(red(strip_eff(N), A), None, None)), NC)
                    c.eq(s, t + b + ' is applied to component k in turn', X(x[2][2][1]), X(k))
                    if b in ('ProposalStepInternalOne', 'UpdateWeightsInternalOne'):
                        a = x[2][2]
                        exp = [sm if hs else NULLX, u, mm if hm else NULLX, z, sp]
                        if boot: exp = [sm, u, NULLX, z, sp] if b[0] == 'P' else [NULLX, u, mm, z, sp]
                        for q, w_, lb in zip(a[2:], exp, ('system model', 'input', 'measurement model', 'measurement', 'sensor parameters')):
                            c.eq(s, t + b + ' gets the ' + lb, X(red(q, A)), X(red(w_, A)))
                    if b == 'ResampleOne':
                        # first iteration: nothing can have failed yet
                        c.eq(s, t + 'resampling exactly when the period has elapsed', X(red(substk(x[0], k, ZERO), A + [NC.gt(0)])), due)
                c.eq(s, t + 'time step', X(red(s.fin('Filter::_timestep').t, A + [mod.ne(0)])), ts + 1 if hs else ts)
                if boot and hs: c.eq(s, t + 'the proposal is the system pdf', s.fin(K + '::_proposal'), CALL('SystemPdfGet', sm.deref()), A)
                # failures reach the caller
                for b in want:
                    if b == 'UpdateWeightsInternalOne': continue
                    G = A + ([due] if b == 'ResampleOne' else [mod.ne(0)])
                    k0 = IDX(NC); r = outcomes(red(s.ret.t, G), b, k0)
                    c.eq(s, t + 'a failing %s makes the update fail' % b, X(r), FALSEX, [NC.gt(0)])
                c.eq(s, t + 'succeeds when every step does', X(outcomes(red(s.ret.t, A), None, None)), TRUEX)
    for cls in (K, 'MixtureBootstrapFilter'):
        for f in inst(c, cls + '::' + cls):
            i = [j for j, p in enumerate(f['params']) if p['t'] in ('int', 'double')]
            if len(i) != 4: continue
            s = c.run(f, **KA)
            if not s.ok: continue
            pe, th, sc, mp = [s.arg(j) for j in i]
            t = '%s constructor: ' % cls
            c.eq(s, t + 'dynamic resampling exactly when no period is given', s.fin(K + '::_dynamicResampling'), pe.eq(0))
            c.eq(s, t + 'period stored', s.fin(K + '::_resamplePeriod'), pe)
            c.eq(s, t + 'threshold stored', s.fin(K + '::_resampleThreshold'), th)
            c.eq(s, t + 'scheme stored', s.fin(K + '::_resampleScheme'), sc)
def outcomes(t, b, k0):
    """t when every step succeeds, except b for component k0"""
    def f(x):
        if not (isinstance(x, tuple) and T.is_term(x)): return x
        if x[0] == 'call' and (x[1] in ONES or x[1] == 'WeightsSet') and x[3] == 'B':
            if x[1] != b: return TRUE
            return FALSE if b == 'WeightsSet' else not_(eq(x[2][1], k0.t))
        if x[0] == 'call' and x[1] == 'NumComponentsGet': return ('call', x[1], (P.root_of(x[2][0]),), x[3])
        return T.rebuild(x, f)
    return f(t)
def strip_eff(t):
    """a call of NumComponentsGet does not depend on weight updates"""
    def f(x):
        if x[0] == 'call' and x[1] == 'NumComponentsGet': return ('call', x[1], (P.root_of(x[2][0]),), x[3])
        return T.rebuild(x, f) if isinstance(x, tuple) and T.is_term(x) else x
    return f(t)
def p28(c): ones(c); steps(c)
