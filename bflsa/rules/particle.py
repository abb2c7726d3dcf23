"""Particle filters: propagation, importance weights, resampling schedule."""
from ..rule import *
from .mc import W, V
from ..engine import eff

MC = ('MCPdf::ListOfSamplesUpdate', 'MCPdf::ListOfSamplesSet', 'MCPdf::SampleFrom', 'MCPdf::ListOfSamplesGet', 'MCPdf::NumSamplesGet', 'SystemModel::ProbabilityGet', 'MeasurementModel::ProbabilityGet', 'SystemModel::SystemPdfGet')
KW = dict(opaque=MC, pure=('ProbabilityGet', 'SystemPdfGet'))
CV = 'MatrixWrapper::ColumnVector'
DYN = (('this',), ('ParticleFilter::_dynamicResampling',)); TS = (('this',), ('Filter::_timestep',)); PER = (('this',), ('ParticleFilter::_resamplePeriod',))
POST = X(('init', (('this',), ('Filter::_post',)), 'O'))

def inst(c, name, need=True):
    return [f for f in c.find(name, need=need) if '<%s, %s>' % (CV, CV) in f['qn']]
def lst(post=None): return CALL('ListOfSamplesGet', post or POST.deref())
def updates(s): return s.effects('call', name='ListOfSamplesUpdate')
def noin(m): return m.deref('SystemModel::_systemWithoutInputs', kd='B')
def nosp(m): return m.deref('MeasurementModel::_systemWithoutSensorParams', kd='B')
def lik(mm, z, x, sp):
    o = mm.deref()
    return ITE(nosp(mm), CALL('ProbabilityGet', o, z, x, kd='S'), CALL('ProbabilityGet', o, z, x, sp, kd='S'))
def el(l, i): return l.at(i, 'O')
def val(l, i): return el(l, i).f(V, 'V')
def wt(l, i): return el(l, i).f(W, 'S')
def proposal(x_old, u, sm, prop=None):
    """the proposal with the conditioning arguments bound"""
    p = prop or X(('init', (('this',), ('ParticleFilter::_proposal',)), 'O'))
    o = p.deref(); a = p.deref('ConditionalPdf::_ConditionalArguments')
    return o.set('ConditionalPdf::_ConditionalArguments', ITE(noin(sm), a.upd(0, x_old), a.upd(0, x_old).upd(1, u)))

def cases(c, cls, f, s_, which):
    pass

def names(f):
    n = {}
    for i, p in enumerate(f['params']):
        if 'SystemModel' in p['t']: n['sys'] = i; n['u'] = i + 1
        if 'MeasurementModel' in p['t']: n['meas'] = i; n['z'] = i + 1; n['s'] = i + 2
    return n

def meas_only(c, nm, f, cls, pre, ex=()):
    n = names(f)
    s = c.run(f, cls=cls, pre=pre, params={f['params'][n['sys']]['name']: NULL}, **KW)
    if not s.ok: return c.undecided(nm + ' measurement only', s, s.err)
    mm, z, sp = s.arg(n['meas']), s.arg(n['z']), s.arg(n['s']); g = [mm.ne(NULLX)]
    us = updates(s)
    c.holds(s, nm + ' measurement only: the particle list is replaced once', len(us) == 1, str([u[3] for u in us]))
    for u in us[:1]:
        L = lst(); new = X(u[2][2][1]); i = IDX(L.size)
        c.eq(s, nm + ' measurement only: particle values kept', val(new, i), val(L, i), g)
        c.eq(s, nm + ' measurement only: weights multiplied by the likelihood', wt(new, i), wt(L, i) * lik(mm, z, val(L, i), sp), g)
        c.eq(s, nm + ' measurement only: number of particles kept', new.size, L.size, g)
        c.eq(s, nm + ' measurement only: applied to the posterior', X(u[2][2][0]), POST.deref(), g)
        c.eq(s, nm + ' measurement only: result is that of the list update', s.ret, X(('call', 'ListOfSamplesUpdate', u[2][2], 'B')), g)
    c.eq(s, nm + ' measurement only: time step kept', s.fin('Filter::_timestep'), X(pre.get(TS, s.this('Filter::_timestep').t)), g)

def sys_only(c, nm, f, cls, pre, prop=None, ex=()):
    n = names(f)
    s = c.run(f, cls=cls, pre=pre, params={f['params'][n['meas']]['name']: NULL}, **KW)
    if not s.ok: return c.undecided(nm + ' system only', s, s.err)
    sm, u = s.arg(n['sys']), s.arg(n['u']); g = [sm.ne(NULLX)] + list(ex)
    us = [x for x in updates(s) if red(x[0], g) != FALSE]
    c.holds(s, nm + ' system only: the particle list is replaced once', len(us) == 1, str([x[3] for x in us]))
    L = lst()
    for x in us[:1]:
        new = X(x[2][2][1]); i = IDX(L.size)
        draw(c, s, nm + ' system only', new, L, i, sm, u, g, prop(sm) if prop else None)
        c.eq(s, nm + ' system only: weights kept', wt(new, i), wt(L, i), g)
        c.eq(s, nm + ' system only: number of particles kept', new.size, L.size, g)
        c.eq(s, nm + ' system only: result is that of the list update', s.ret, X(('call', 'ListOfSamplesUpdate', x[2][2], 'B')), g)
    c.eq(s, nm + ' system only: time step advances by one', s.fin('Filter::_timestep'), X(pre.get(TS, s.this('Filter::_timestep').t)) + 1, g)

def draw(c, s, nm, new, L, i, sm, u, g, prop=None):
    """value i is a draw from the proposal conditioned on the old value i"""
    v = val(new, i).t
    for q in g: v = assume(v, q.t, True)
    if not (v[0] == 'fld' and v[1][0] == 'out' and v[1][1][0] == 'call' and v[1][1][1] == 'SampleFrom'):
        return c.undecided(nm + ': new value is a draw from the proposal', s, show(v)[:300]) if unresolved(v) else c.add(nm + ': new value is a draw from the proposal', s.loc, 'violated', show(v)[:300])
    a = v[1][1][2]
    c.eq(s, nm + ': new value is a draw from the proposal given the old value and input', X(a[0]), proposal(val(L, i), u, sm, prop), g)
    c.eq(s, nm + ': default sampling method', X(a[2]), 0)

def both(c, nm, f, cls, pre, prop=None, ratio=True, ex=()):
    n = names(f)
    s = c.run(f, cls=cls, pre=pre, **KW)
    if not s.ok: return c.undecided(nm + ' both', s, s.err)
    sm, u, mm, z, sp = [s.arg(n[k]) for k in ('sys', 'u', 'meas', 'z', 's')]; g = [sm.ne(NULLX), mm.ne(NULLX)] + list(ex)
    us = [x for x in updates(s) if red(x[0], g) != FALSE]
    if len(us) != 2:
        return c.holds(s, nm + ' both: propagation and weighting each replace the list once', False, str([x[3] for x in us]))
    first = X(('call', 'ListOfSamplesUpdate', us[0][2][2], 'B'))
    L0 = lst(); i = IDX(L0.size); new = X(us[0][2][2][1])
    a = lambda t: X(functools.reduce(lambda q, k: assume(q, k.t, True), g, X(t).t))
    draw(c, s, nm + ' both', new, L0, i, sm, u, g, prop(sm) if prop else None)
    c.eq(s, nm + ' both: propagation keeps the weights', wt(new, i), wt(L0, i), g)
    r2 = X(('call', 'ListOfSamplesUpdate', us[1][2][2], 'B'))
    f1 = X(red(first, g)); f2 = X(red(r2, g + [f1]))
    c.eq(s, nm + ' both: success only if both list updates succeed', X(red(s.ret.t, g)), f1 & f2, g)
    c.eq(s, nm + ' both: success if both list updates succeed', X(red(s.ret.t, g + [f1, f2])), TRUEX)
    c.eq(s, nm + ' both: a failed propagation is reported', X(red(s.ret.t, g + [~f1])), FALSEX)
    c.eq(s, nm + ' both: a failed weighting is reported', X(red(s.ret.t, g + [f1, ~f2])), FALSEX)
    g2 = g + [X(a(first.t))]
    p1 = X(us[1][2][2][0])
    for q in g2: p1 = X(assume(p1.t, q.t, True))
    c.holds(s, nm + ' both: weighting works on the propagated particles', p1.t[0] == 'eff' and p1.t[1] == 'ListOfSamplesUpdate', show(p1.t)[:200])
    L1 = lst(p1); T.size_ax[L1.t] = L0.size.t
    j = IDX(L0.size); w2 = X(us[1][2][2][1])
    c.eq(s, nm + ' both: weighting keeps the propagated values', val(w2, j), val(L1, j), g2)
    x = val(L1, j); xo = val(L0, j)
    f_ = lik(mm, z, x, sp)
    if ratio:
        ps = ITE(noin(sm), CALL('ProbabilityGet', sm.deref(), x, xo, kd='S'), CALL('ProbabilityGet', sm.deref(), x, xo, u, kd='S'))
        q = CALL('ProbabilityGet', proposal(xo, u, sm), x, kd='S')
        f_ = ITE(q.eq(0), 0, f_ * ps / q)
    c.eq(s, nm + ' both: weight times likelihood' + (' times transition over proposal density' if ratio else ''), wt(w2, j), wt(L1, j) * f_, g2)
    c.eq(s, nm + ' both: time step advances by one', s.fin('Filter::_timestep'), X(pre.get(TS, s.this('Filter::_timestep').t)) + 1, g2)

def p12(c):
    inside = X(('fn', 'mod', ('init', TS, 'I'), ('init', PER, 'I'))).ne(0)
    for nm, cls, prop, ratio in (('particle filter', 'ParticleFilter', None, True), ('bootstrap filter', 'BootstrapFilter', lambda sm: CALL('SystemPdfGet', sm.deref()), False)):
        fs = inst(c, cls + '::UpdateInternal')
        if not fs: raise AnalysisError('no %s::UpdateInternal' % cls)
        f = fs[0]; k = f['cls']
        # steps in which the schedule asks for no resampling (P13 covers the others)
        meas_only(c, nm, f, k, {DYN: FALSE})
        sys_only(c, nm, f, k, {DYN: TRUE}, prop)
        sys_only(c, nm + ', inside a resampling period,', f, k, {DYN: FALSE}, prop, [inside])
        sys_only(c, nm + ', first step,', f, k, {DYN: FALSE, TS: ZERO}, prop)
        both(c, nm, f, k, {DYN: FALSE}, prop, ratio, [inside])
        both(c, nm + ', first step,', f, k, {DYN: FALSE, TS: ZERO}, prop, ratio)

# ------------------------------------------------------------------ resampling
def resamples(s):
    """draws of a whole list from the posterior"""
    return [e for e in s.effects('call', name='SampleFrom') if len(e[2][2]) >= 4 and root_of(e[2][2][0]) == POST.deref().t]
def root_of(t):
    while t[0] in ('eff', 'ite'): t = t[2]
    return t
def guards(es, under):
    g = FALSEX
    for e in es: g = g | X(e[0])
    return g
def p13(c):
    ts = X(('init', TS, 'I')); per = X(('init', PER, 'I')); thr = X(('init', (('this',), ('ParticleFilter::_resampleThreshold',)), 'S'))
    sch = X(('init', (('this',), ('ParticleFilter::_resampleScheme',)), 'I'))
    mod = X(('fn', 'mod', ts.t, per.t)); due = mod.eq(0) & ts.ne(0)
    for nm, cls in (('particle filter', 'ParticleFilter'), ('bootstrap filter', 'BootstrapFilter')):
        fs = inst(c, cls + '::UpdateInternal'); f = fs[0]; n = names(f)
        for dyn in (0, 1):
            for hs, hm, lab in ((1, 0, 'system'), (0, 1, 'measurement'), (1, 1, 'both')):
                ps = {}
                if not hs: ps[f['params'][n['sys']]['name']] = NULL
                if not hm: ps[f['params'][n['meas']]['name']] = NULL
                s = c.run(f, cls=f['cls'], pre={DYN: TRUE if dyn else FALSE}, params=ps, **KW)
                t = '%s, %s resampling, %s update: ' % (nm, 'dynamic' if dyn else 'periodic', lab)
                if not s.ok: c.undecided(t + 'schedule', s, s.err); continue
                A = [sch.eq(0)] + [s.arg(n[k]).ne(NULLX) for k, h in (('sys', hs), ('meas', hm)) if h]
                rs = [e for e in resamples(s) if red(e[0], A) != FALSE]
                want = bool((hs and not dyn) or (hm and dyn))
                if not want:
                    c.holds(s, t + 'never resamples', not rs, str([e[3] for e in rs])); continue
                if len(rs) != 1:
                    c.holds(s, t + 'resampled at one point', False, str([e[3] for e in rs])); continue
                e = rs[0]; a = e[2][2]; here = X(red(a[0], A + [X(e[0])]))
                us = [u for u in updates(s) if red(u[0], A) != FALSE]
                outs = [T.any_sub(red(u[2][2][1], A + [X(e[0])]), lambda x: is_out(x, here.t, A + [X(e[0])])) for u in us]
                k = [j for j, o in enumerate(outs) if o is not None]
                if not k: c.holds(s, t + 'the drawn samples become the particles', False, 'no list update takes the drawn samples'); continue
                u = us[k[0]]; before = us[:k[0]]; after = us[k[0] + 1:]
                # schedule
                if not dyn:
                    c.eq(s, t + 'resamples exactly when the period has elapsed', X(red(e[0], A)), due)
                    c.holds(s, t + 'resamples before propagation', not before and len(after) >= 1, '%d before, %d after' % (len(before), len(after)))
                    c.eq(s, t + 'draws from the posterior', here, POST.deref())
                else:
                    ok = X(red(before[-1][0], A)) & X(('call', 'ListOfSamplesUpdate', tuple(red(x, A) for x in before[-1][2][2]), 'B')) if before else TRUEX
                    G = A + [X(before[-1][0]), X(('call', 'ListOfSamplesUpdate', before[-1][2][2], 'B'))] if before else A
                    if not before: c.holds(s, t + 'resamples after weighting', False, 'no list update precedes'); continue
                    c.holds(s, t + 'resamples after weighting', not after and here.t[0] == 'eff' and here.t[1] == 'ListOfSamplesUpdate', show(here.t)[:200])
                    L = lst(here)
                    c.hook = lambda m, k_, kd: m.nonneg(k_) if kd == 'S' else None
                    c.eq(s, t + 'resamples exactly when the effective sample size is below the threshold', X(red(e[0], G)), (1 / SUM(L.size, lambda i: wt(L, i) * wt(L, i))).lt(thr), G)
                    c.hook = None
                H = A + [X(e[0])]
                c.eq(s, t + 'as many samples as there are particles', X(red(a[2], H)), lst(here).size)
                c.eq(s, t + 'ordered multinomial draw', X(a[3]), 3)
                c.eq(s, t + 'the drawn samples replace the particles of the same posterior', X(red(u[2][2][0], H)), here)
                new = X(red(u[2][2][1], H)); i, j = IDX(lst(here).size), IDX(lst(here).size)
                c.eq(s, t + 'the new values are the drawn samples', val(new, i), val(X(outs[k[0]]), i))
                if 'WeightedSample' in u[2][3]: c.eq(s, t + 'the particles get equal weights', wt(new, i), wt(new, j))
                else: c.holds(s, t + 'the particles get equal weights', True)
                c.eq(s, t + 'the list is replaced whenever samples are drawn', X(red(u[0], H)), TRUEX)
                c.eq(s, t + 'and only then', X(red(u[0], A)), X(red(e[0], A)))
                if hs and not dyn:
                    r = X(('call', 'ListOfSamplesUpdate', u[2][2], 'B'))
                    nx = after[0]; G = H + [r]
                    c.eq(s, t + 'propagation continues from the resampled particles', X(red(nx[2][2][0], G)), X(eff('ListOfSamplesUpdate', here.t, (new.t,))))
                    c.eq(s, t + 'at time zero propagation continues from the posterior', X(red(nx[2][2][0], A + [ts.eq(0)])), POST.deref())
                    c.eq(s, t + 'inside a period propagation continues from the posterior', X(red(nx[2][2][0], A + [mod.ne(0)])), POST.deref())
                c.eq(s, t + 'a failed list update is reported', X(red(s.ret.t, H + [~X(('call', 'ListOfSamplesUpdate', u[2][2], 'B'))])), FALSEX)
    for cls in ('ParticleFilter', 'BootstrapFilter'):
        for f in inst(c, cls + '::' + cls):
            s = c.run(f, **KW)
            pn = {p['name']: i for i, p in enumerate(f['params'])}
            i = [j for j, p in enumerate(f['params']) if p['t'] == 'int' or p['t'] == 'double']
            if len(i) != 3: continue
            if not s.ok: c.undecided('constructor', s, s.err); continue
            pe, th, sc = [s.arg(j) for j in i]
            t = '%s constructor with %d arguments: ' % (cls, len(f['params']))
            c.eq(s, t + 'dynamic resampling exactly when no period is given', s.fin('ParticleFilter::_dynamicResampling'), pe.eq(0))
            c.eq(s, t + 'period stored', s.fin('ParticleFilter::_resamplePeriod'), pe)
            c.eq(s, t + 'threshold stored', s.fin('ParticleFilter::_resampleThreshold'), th)
            c.eq(s, t + 'scheme stored', s.fin('ParticleFilter::_resampleScheme'), sc)
def red(t, A):
    t = X(t).t; prior = []
    for q in A:
        q = X(q).t
        for e in prior: q = assume(q, e, True)
        prior.append(q); t = assume(t, q, True)
    return t
def is_out(t, o, A):
    return t[0] == 'out' and t[1][0] == 'call' and t[1][1] == 'SampleFrom' and len(t[1][2]) >= 4 and red(t[1][2][0], A) == o
