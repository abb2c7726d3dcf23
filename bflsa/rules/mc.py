"""Monte Carlo distribution: weights normalised, sum and cumulative table in step."""
from ..rule import *
from .discrete import is_copy
L = 'MCPdf::_listOfSamples'; C = 'MCPdf::_CumPDF'; SW = 'MCPdf::_SumWeights'
W = 'WeightedSample::Weight'; V = 'Sample::Value'

def targ(f):
    q = f['qn']; return q[q.index('<') + 1:q.index('>')]
def insts(c, name):
    return c.find('MCPdf::' + name)
def vk(f): return tcode(targ(f))

def axioms():
    """class invariant at entry: one table entry more than samples"""
    l = ('init', (('this',), (L,)), 'O'); q = ('init', (('this',), (C,)), 'O')
    return {q: add(T.size(l), ONE)}

def in_step(c, s, what, under=None):
    """sum of weights and cumulative table describe the final list"""
    l = s.fin(L); n = l.size; cum = s.fin(C)
    w = lambda i: l.at(i, 'O').f(W, 'S')
    c.eq(s, what + ': sum of weights is 1', s.fin(SW), 1, under)
    c.arr(s, what + ': cumulative entry i+1 is the sum of the first i+1 weights', cum, lambda i: SUM(i + 1, w), n, lo=1, under=under)
    c.eq(s, what + ': cumulative table starts at 0', cum[0], 0, under)
    c.eq(s, what + ': table has one entry more than samples', cum.size, n + 1, under)

def p02(c):
    ok = 0
    for f in insts(c, 'ListOfSamplesSet') + insts(c, 'ListOfSamplesUpdate'):
        nm = '%s<%s> %s' % ('list set' if f['qn'].endswith('Set') else 'list update', targ(f).split('::')[-1], 'weighted' if 'WeightedSample' in f['params'][0]['t'] else 'unweighted')
        ax = axioms()
        if f['qn'].endswith('Update'):
            # an update keeps the number of samples (asserted precondition)
            ax[('init', (('par', f['params'][0]['name']), ()), 'O')] = T.size(('init', (('this',), (L,)), 'O'))
        s = c.run(f, size_axioms=ax)
        if not s.ok: c.undecided(nm, s, s.err); continue
        v = s.arg(0); n = v.size; k = vk(f)
        same_n = [n.gt(0)]
        if 'WeightedSample' in f['params'][0]['t']:
            tot = SUM(n, lambda i: v.at(i, 'O').f(W, 'S'))
            pos = tot.gt(0)
            c.eq(s, nm + ': succeeds exactly when the weights have a positive sum', s.ret, pos, same_n)
            i = IDX(n)
            c.eq(s, nm + ': weights divided by their sum', s.fin(L).at(i, 'O').f(W, 'S'), v.at(i, 'O').f(W, 'S') / tot, same_n + [pos])
            c.eq(s, nm + ': values stored unchanged and in order', s.fin(L).at(i, 'O').f(V, k), v.at(i, 'O').f(V, k), same_n + [pos])
            c.eq(s, nm + ': number of samples', s.fin(L).size, n, same_n + [pos])
            in_step(c, s, nm, same_n + [pos])
        else:
            i = IDX(n)
            c.eq(s, nm + ': equal weights', s.fin(L).at(i, 'O').f(W, 'S'), 1 / n, same_n)
            c.eq(s, nm + ': values stored unchanged and in order', s.fin(L).at(i, 'O').f(V, k), v.at(i, 'O').f(V, k), same_n)
            c.eq(s, nm + ': number of samples', s.fin(L).size, n, same_n)
            c.eq(s, nm + ': reports success', s.ret, TRUEX, same_n)
            in_step(c, s, nm, same_n)
        c.eq(s, nm + ': the argument is not changed', s.finarg(0), v)
    for f in insts(c, 'NumSamplesSet'):
        s = c.run(f, size_axioms=axioms())
        nm = 'resize<%s>' % targ(f).split('::')[-1]
        if not s.ok: c.undecided(nm, s, s.err); continue
        c.eq(s, nm + ': requested number of samples', s.fin(L).size, s.arg(0))
        c.eq(s, nm + ': table has one entry more than samples', s.fin(C).size, s.arg(0) + 1)
    for f in c.find('MCPdf::MCPdf'):
        s = c.run(f)
        t = targ(f).split('::')[-1]
        if not s.ok: c.undecided('constructor<%s>' % t, s, s.err); continue
        if is_copy(f):
            o = s.arg(0)
            c.eq(s, 'copy<%s>: same samples and weights' % t, s.fin(L), o.f(L))
            c.eq(s, 'copy<%s>: same cumulative table' % t, s.fin(C), o.f(C))
            c.eq(s, 'copy<%s>: same sum of weights' % t, s.fin(SW), o.f(SW, 'S'))
        else:
            c.eq(s, 'constructor<%s>: requested number of samples' % t, s.fin(L).size, s.arg(0))
            c.eq(s, 'constructor<%s>: table has one entry more than samples' % t, s.fin(C).size, s.arg(0) + 1)
    for nm, fld_ in (('ListOfSamplesGet', L), ('CumulativePDFGet', C)):
        for f in insts(c, nm):
            s = c.run(f)
            c.eq(s, nm + ' exposes the stored list', lambda: s.rv(), lambda: s.this(fld_))
    for f in insts(c, 'NumSamplesGet'):
        s = c.run(f); c.eq(s, 'NumSamplesGet is the length of the list', lambda: s.ret, lambda: s.this(L).size)
    for f in insts(c, 'SampleGet'):
        s = c.run(f); c.eq(s, 'SampleGet returns the i-th sample', lambda: s.rv(), lambda: s.this(L).at(s.arg(0), 'O'))

def inv_pre():
    l = X(('init', (('this',), (L,)), 'O'))
    return {(('this',), (SW,)): SUM(l.size, lambda i: l.at(i, 'O').f(W, 'S')).t}

def moments(c):
    """expected value and covariance of a weighted sample list"""
    for f in insts(c, 'ExpectedValueGet'):
        k = vk(f)
        s = c.run(f, pre=inv_pre())
        if not s.ok: c.undecided('mean', s, s.err); continue
        l = s.this(L); n = l.size
        w = lambda i: l.at(i, 'O').f(W, 'S'); v = lambda i: l.at(i, 'O').f(V, k)
        m = SUM(n, lambda i: w(i) * v(i)) / SUM(n, w)
        if k == 'V': c.eq(s, 'Monte Carlo mean is the weighted mean', s.ret, m)
        elif k == 'U': c.eq(s, 'Monte Carlo mean of integers is the rounded weighted mean', s.ret, X(('cast', 'U', (m + X(num(Fraction(1, 2)))).t)))
    for f in insts(c, 'CovarianceGet'):
        k = vk(f)
        s = c.run(f, pre=inv_pre())
        if not s.ok: c.undecided('covariance', s, s.err); continue
        l = s.this(L); n = l.size
        w = lambda i: l.at(i, 'O').f(W, 'S'); v = lambda i: l.at(i, 'O').f(V, k)
        m = SUM(n, lambda i: w(i) * v(i)) / SUM(n, w)
        if k == 'U':
            m = X(('cast', 'U', (m + X(num(Fraction(1, 2)))).t))
            c.eq(s, 'Monte Carlo variance of integers is the weighted squared deviation from the mean', X(sel(s.ret.t, ('ix', ONE, ONE), 'S')), SUM(n, lambda i: w(i) * (v(i) - m) * (v(i) - m)) / SUM(n, w))
            continue
        c.eq(s, 'Monte Carlo covariance is the weighted second central moment', s.ret, SUM(n, lambda i: w(i) * (v(i) - m) * (v(i) - m).T) / SUM(n, w))
