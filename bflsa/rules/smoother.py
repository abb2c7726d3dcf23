"""Smoothers: the backward recursion of Rauch, Tung and Striebel and the
backward reweighting of filtered particles."""
from ..rule import *
from . import particle as P
from .kalman import MG, MU, SG, sysm
from .particle import val, wt, noin, CV

LST = 'MCPdf::_listOfSamples'
BP = ('init', (('this',), ('BackwardFilter::_post',)), 'O')

def updates(c, n):
    fs = [f for f in c.find('BackwardFilter::Update') if 'BackwardFilter<%s>' % CV in f['qn'] and len(f['params']) == n]
    if not fs: raise AnalysisError('no BackwardFilter::Update with %d arguments' % n)
    return fs[0]
def blank(): return CALL('blank', kd='V')

def rts(c):
    for n in (3, 2):
        f = updates(c, n); t = 'RTS step %s: ' % ('with input' if n == 3 else 'without input')
        fp = ('param', len(f['params']) - 1)
        q = c.run(f, cls='BFL::RauchTungStriebel', **kw_r(None))
        if not q.ok: c.undecided(t, q, q.err); continue
        flt = q.arg(n - 1).t
        s = c.run(f, cls='BFL::RauchTungStriebel', **kw_r(flt))
        if not s.ok: c.undecided(t, s, s.err); continue
        sm = s.arg(0); u = s.arg(1) if n == 3 else blank()
        xf, Pf = X(('init', (('ref', flt), (MU,)), 'V')), X(('init', (('ref', flt), (SG,)), 'Y'))
        xs, Ps = X(('init', (('ref', BP), (MU,)), 'V')), X(('init', (('ref', BP), (SG,)), 'Y'))
        fx, F, Q = sysm(sm, u, xf)
        Pp = F * Pf * F.T + Q
        K = Pf * F.T * Pp.inv
        p = s.fin('BackwardFilter::_post')
        apart = [X(BP).ne(X(flt))]
        c.eq(s, t + 'mean is xf + K (xs - f(xf))', s.at(p, MU), xf + K * (xs - fx), apart)
        c.eq(s, t + "covariance is Pf - K (Ppred - Ps) K'", s.at(p, SG), Pf - K * (Pp - Ps) * K.T, apart)
        c.eq(s, t + 'reports success', s.ret, TRUEX)
        c.eq(s, t + 'the filtered distribution keeps its mean', s.at(X(flt), MU), xf, apart)
        c.eq(s, t + 'the filtered distribution keeps its covariance', s.at(X(flt), SG), Pf, apart)
        c.eq(s, t + 'the posterior object stays', s.fin('BackwardFilter::_post'), X(BP))
def kw_r(flt):
    ty = {('ref', BP): 'BFL::Gaussian'}
    if flt is not None: ty[('ref', flt)] = 'BFL::Gaussian'
    return dict(types=ty, pure=MG, opaque=MG)

def particles(c):
    M = 'BFL::MCPdf<%s>' % CV
    cls = [f['cls'] for f in c.find('ParticleSmoother::UpdateInternal') if '<%s>' % CV in f['qn']]
    if not cls: raise AnalysisError('no ParticleSmoother::UpdateInternal')
    for n in (3, 2):
        f = updates(c, n); t = 'particle smoother %s: ' % ('with input' if n == 3 else 'without input')
        q = c.run(f, cls=cls[0], types={('ref', BP): M}, **P.KW)
        if not q.ok: c.undecided(t, q, q.err); continue
        flt = q.arg(n - 1)
        LF = CALL('ListOfSamplesGet', flt.deref()); LS = CALL('ListOfSamplesGet', X(BP).deref())
        NF = CALL('NumSamplesGet', flt.deref(), kd='U'); NS = CALL('NumSamplesGet', X(BP).deref(), kd='U')
        s = c.run(f, cls=cls[0], types={('ref', BP): M, ('ref', flt.t): M}, size_axioms={LF.t: NF.t, LS.t: NS.t}, **P.KW)
        if not s.ok: c.undecided(t, s, s.err); continue
        g = [X(BP).ne(flt), s.arg(0).ne(NULLX)]
        sets = s.effects('call', name='ListOfSamplesSet') + s.effects('call', name='ListOfSamplesUpdate')
        c.holds(s, t + 'the posterior list is replaced once', len(sets) == 1, str([x[3] for x in sets]))
        if len(sets) != 1: continue
        e = sets[0]
        new = X(e[2][2][1]); sm = s.arg(0); u = s.arg(1) if n == 3 else blank()
        c.eq(s, t + 'the list replaced is that of the posterior', X(e[2][2][0]), X(BP).deref(), g)
        def p(j, i):
            a, b = val(LS, j), val(LF, i)
            return ITE(noin(sm), CALL('ProbabilityGet', sm.deref(), a, b, kd='S'), CALL('ProbabilityGet', sm.deref(), a, b, u, kd='S'))
        def gam(j): return SUM(NF, lambda l: wt(LF, l) * p(j, l))
        def un(i): return wt(LF, i) * SUM(NS, lambda j: ITE(gam(j).eq(0), 0, wt(LS, j) * p(j, i) / gam(j)))
        i = IDX(NF)
        c.eq(s, t + 'as many particles as the filtered distribution', new.size, NF, g)
        c.eq(s, t + 'particle values are the filtered ones', val(new, i), val(LF, i), g)
        c.eq(s, t + 'weights are the normalised backward weights', wt(new, i), un(i) / SUM(NF, un), g)
        c.eq(s, t + 'reports success', s.ret, TRUEX, g)
        c.eq(s, t + 'the posterior object stays', s.fin('BackwardFilter::_post'), X(BP))

def starts(c):
    for cls, base in (('RauchTungStriebel', 'BFL::Gaussian'), ('ParticleSmoother', 'BFL::MCPdf<%s>' % CV)):
        for f in c.find(cls + '::' + cls, lambda f: f.get('kind', 'ctor') and len(f['params']) == 1 and ('MCPdf' in f['params'][0]['t'] or 'Gaussian' in f['params'][0]['t'])):
            s = c.run(f, cls=f['cls'])
            t = cls + ' starts with the prior: '
            if not s.ok: c.undecided(t, s, s.err); continue
            p = s.fin('BackwardFilter::_post'); q = s.arg(0)
            c.eq(s, t + 'dimension', s.at(p, 'Pdf::_dimension', kd='U'), q.deref('Pdf::_dimension', kd='U'))
            if 'Gauss' in base:
                c.eq(s, t + 'mean', s.at(p, MU, kd='V'), q.deref(MU, kd='V'))
                c.eq(s, t + 'covariance', s.at(p, SG, kd='Y'), q.deref(SG, kd='Y'))
            else:
                L = q.deref(LST); new = s.at(p, LST); i = IDX(L.size); tot = SUM(L.size, lambda k: wt(L, k)); g = [tot.gt(0)]
                c.eq(s, t + 'number of particles', new.size, L.size, g)
                c.eq(s, t + 'values', val(new, i), val(L, i), g)
                c.eq(s, t + 'weights, normalised', wt(new, i), wt(L, i) / tot, g)

def p24(c):
    starts(c)
    rts(c)
    particles(c)
