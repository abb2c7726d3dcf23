"""Gaussian: the density is the normal density of the mean and covariance last set."""
from ..rule import *
from .discrete import is_copy, by_params
from fractions import Fraction
import math

TWOPI = X(('n', 2 * Fraction('3.14159265358979323846').limit_denominator(10**15)))
def dens(m, S, d, x):
    q = (x - m).T * S.inv * (x - m)
    return FN('exp', q * Fraction(-1, 2)) / FN('sqrt', FN('pow', TWOPI, d) * FN('det', S))

def two(f): return len(f['params']) == 2
def G(c, n, pick=None): return c.find('Gaussian::' + n, pick)[0]
def axs(f):
    """documented precondition: as many rows as the mean / the dimension"""
    return {}

def start(c, cached):
    f = G(c, 'Gaussian', two)
    s0 = s = c.run(f, size_axioms=fullax(c))
    if cached: s = c.then(s, G(c, 'ProbabilityGet'))
    return s0, s
def fullax(c):
    return {}

def current(c, s, what, under=None):
    m = c.then(s, G(c, 'ExpectedValueGet')); 
    S = c.then(m, G(c, 'CovarianceGet'))
    d = c.then(S, 'Pdf::DimensionGet')
    p = c.then(d, G(c, 'ProbabilityGet'))
    c.eq(p, what + ': the density is that of the current mean and covariance', lambda: p.ret, lambda: dens(m.ret, S.ret, d.ret, p.arg(0)), under)
    return m, S, d

def p04(c):
    f = G(c, 'Gaussian', two)
    s = c.run(f)
    m, S, d = current(c, s, 'constructor')
    c.eq(m, 'constructor: mean is the given one', lambda: m.ret, lambda: s.arg(0))
    c.eq(S, 'constructor: covariance is the given one', lambda: S.ret, lambda: s.arg(1))
    c.eq(d, 'constructor: dimension is the length of the mean', lambda: d.ret, lambda: s.arg(0).rows)
    f1 = G(c, 'Gaussian', lambda f: len(f['params']) == 1 and not is_copy(f))
    s0 = c.run(f1)
    a = c.then(s0, G(c, 'ExpectedValueSet')); b = c.then(a, G(c, 'CovarianceSet'))
    m, S, d = current(c, b, 'sized constructor, then set')
    c.eq(m, 'sized constructor, then set: mean', lambda: m.ret, lambda: a.arg(0))
    c.eq(S, 'sized constructor, then set: covariance', lambda: S.ret, lambda: b.arg(0))
    ops = [('mean set', G(c, 'ExpectedValueSet')), ('covariance set', G(c, 'CovarianceSet')), ('density evaluated', G(c, 'ProbabilityGet')),
           ('single sample drawn', G(c, 'SampleFrom', lambda f: len(f['params']) == 3)), ('samples drawn', G(c, 'SampleFrom', lambda f: len(f['params']) == 4)),
           ]
    for cached in (False, True):
        c0, st = start(c, cached)
        pos = [c0.arg(0).rows.gt(0)]
        m0 = c.then(st, G(c, 'ExpectedValueGet')); S0 = c.then(m0, G(c, 'CovarianceGet'))
        for nm, o in ops:
            what = nm + (' after a density evaluation' if cached else ' on a new distribution')
            r = c.then(S0, o)
            m, S, d = current(c, r, what, pos)
            c.eq(m, what + ': mean', lambda: m.ret, lambda: r.arg(0) if nm == 'mean set' else m0.ret)
            c.eq(S, what + ': covariance', lambda: S.ret, lambda: r.arg(0) if nm == 'covariance set' else S0.ret)
            if nm == 'covariance set' :
                # the other one follows
                r2 = c.then(r, G(c, 'ExpectedValueSet')); current(c, r2, what + ', then mean set', pos)
    # an arbitrary earlier history: setting the covariance always takes effect
    s = c.run(G(c, 'CovarianceSet')); current(c, s, 'covariance set on any distribution')
    # copies
    cp = c.find('Gaussian::Gaussian', is_copy)
    for f in cp:
        pass
    uniform(c)

def U(c, n, pick=None): return c.find('Uniform::' + n, pick)[0]
def uniform(c):
    for nm, seq in (('uniform constructor', ['new']), ('uniform set', ['any', 'UniformSet']), ('uniform sized constructor, then set', ['sized', 'UniformSet'])):
        s = None
        for x in seq:
            if x == 'new': s = c.run(U(c, 'Uniform', two))
            elif x == 'sized': s = c.run(U(c, 'Uniform', lambda f: len(f['params']) == 1 and not is_copy(f)))
            elif x == 'any': s = None
            else: s = c.then(s, U(c, x)) if s else c.run(U(c, x))
        if not s.ok: c.undecided(nm, s, s.err); continue
        ce, w = s.arg(0), s.arg(1)
        p = c.then(s, U(c, 'ProbabilityGet')); 
        if p.ok:
            x = p.arg(0); n = x.rows
            inside = ALL(n, lambda i: ~(x[i + 1].gt(ce[i + 1] + w[i + 1] / 2)) & ~(x[i + 1].lt(ce[i + 1] - w[i + 1] / 2)))
            c.eq(p, nm + ': density is the inverse volume inside the box and 0 outside', p.ret, ITE(inside, PROD(w.rows, lambda i: 1 / w[i + 1]), 0))
        g = c.then(s, U(c, 'CenterGet')); c.eq(g, nm + ': centre', lambda: g.ret, lambda: ce)
        g = c.then(s, U(c, 'WidthGet')); c.eq(g, nm + ': width', lambda: g.ret, lambda: w)
    s = c.run(U(c, 'Uniform', two)); d = c.then(s, 'Pdf::DimensionGet')
    c.eq(d, 'uniform constructor: dimension', lambda: d.ret, lambda: s.arg(0).rows)
