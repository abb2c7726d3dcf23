"""Histogram filter: the discrete Bayes rule, exactly."""
import random
from ..rule import *
from .models import thisp
K = 'HistogramFilter'

def p14(c):
    post = X(thisp('Filter::_post')); vp = post.deref('DiscretePdf::_Values_p'); V = vp.deref(); N = post.deref('DiscretePdf::_num_states', kd='U')
    ax = {V.t: N.t, post.deref('DiscretePdf::_CumPDF').t: (N + 1).t}
    def hook(m, k, kd):
        # probabilities and likelihoods are not negative
        if kd == 'S' and (k[0] == 'call' or (k[0] == 'sel' and '_Values_p' in repr(k[1]))): return m.nonneg(k)
    def pre_sys(sm, u):
        without = X(fld(sm.deref().t, 'SystemModel::_systemWithoutInputs', 'B'))
        f = lambda to, fr: ITE(without, CALL(cn(c, 'SystemModel'), sm.deref(), to, fr, kd='S'), CALL(cn(c, 'SystemModel'), sm.deref(), to, fr, u, kd='S'))
        return f
    for f in c.find(K + '::UpdateInternal'):
        for hs, hm, lab in ((1, 0, 'system update'), (0, 1, 'measurement update'), (1, 1, 'both updates'), (0, 0, 'no model')):
            s = c.run(f, size_axioms=ax, opaque=('ProbabilityGet',), pure=('ProbabilityGet',))
            nm = lab
            if not s.ok: c.undecided(nm, s, s.err); continue
            sm, u, mm, z, sp = [s.arg(i) for i in range(5)]
            A = [sm.ne(NULLX) if hs else sm.eq(NULLX), mm.ne(NULLX) if hm else mm.eq(NULLX)]
            got = s.at(post, 'DiscretePdf::_Values_p'); got = s.at(got)
            P = lambda fn, *a: X(('call', 'ProbabilityGet', tuple(X(x).t for x in a), 'S'))
            wo = sm.deref('SystemModel::_systemWithoutInputs', kd='B'); wp = mm.deref('MeasurementModel::_systemWithoutSensorParams', kd='B')
            tr_ = lambda to, fr: ITE(wo, P(0, sm.deref(), to, fr), P(0, sm.deref(), to, fr, u))
            lk = lambda st: ITE(wp, P(0, mm.deref(), z, st), P(0, mm.deref(), z, st, sp))
            cur = lambda i: V.at(i, 'S')
            tot = []
            if hs:
                pr = lambda to: SUM(N, lambda fr: tr_(to, fr) * V.at(fr, 'S'))
                t1 = SUM(N, pr); tot.append(t1.gt(0)); cur = lambda i: pr(i) / t1
            if hm:
                old = cur; ms = lambda i: old(i) * lk(i)
                t2 = SUM(N, ms); tot.append(t2.gt(0)); cur = lambda i: ms(i) / t2
            c.hook = hook
            c.axioms = [N.gt(0)]
            i = IDX(N)
            c.eq(s, nm + ': posterior probabilities', got.at(i, 'S'), cur(i), under=A + tot)
            c.eq(s, nm + ': number of states kept', s.at(post, 'DiscretePdf::_num_states', kd='U'), N, under=A)
            if hs and s.fin(K + '::_new_prob', kd='O').t != thisp(K + '::_new_prob'): c.eq(s, nm + ': the working list has one entry per state', lambda: s.fin(K + '::_new_prob', kd='O').size, lambda: N, under=A)
            c.eq(s, nm + ': reports success', s.ret, TRUEX, under=A)
            c.hook = None; c.axioms = []
    for f in c.find(K + '::' + K):
        s = c.run(f)
        if not s.ok: c.undecided('constructor', s, s.err); continue
        p = s.fin('Filter::_post').t
        c.holds(s, 'constructor: the posterior is a new object', p[0] == 'addr' and p[1][1][0] == 'new', show(p)[:100])
        pr = s.arg(0)
        c.eq(s, 'constructor: posterior starts with the states of the prior', s.at(X(p), 'DiscretePdf::_num_states', kd='U'), pr.deref('DiscretePdf::_num_states', kd='U'))
        g = s.at(s.at(X(p), 'DiscretePdf::_Values_p')); n = pr.deref('DiscretePdf::_num_states', kd='U')
        c.arr(s, 'constructor: posterior starts with the probabilities of the prior', g, lambda i: pr.deref('DiscretePdf::_Values_p').deref().at(i, 'S'), n)
        q = c.then(s, K + '::PostGet'); c.eq(q, 'the posterior is the one returned', lambda: q.ret, lambda: X(p))
def cn(c, k): return 'ProbabilityGet'
