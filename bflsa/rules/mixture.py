"""Mixture: weights normalised, cumulative table and component list in step."""
from ..rule import *
from .discrete import is_copy
from .mc import targ
N = 'Mixture::_numComponents'; W = 'Mixture::_componentWeights'; P = 'Mixture::_componentPdfs'; C = 'Mixture::_cumWeights'

def iv(*path, root=('this',), kd='O'): return ('init', (root, tuple(path)), kd)
def axioms():
    n = iv(N, kd='U')
    return {('init', (('ref', iv(W)), ()), 'O'): n, ('init', (('ref', iv(P)), ()), 'O'): n, iv(C): add(n, ONE)}

def insts(c, name, need=True):
    return [f for f in c.find('Mixture::' + name, need=need) if targ(f) in ('MatrixWrapper::ColumnVector', 'int')]

def w_of(s): return s.at(s.fin(W))
def in_step(c, s, what, under=None):
    n = s.fin(N); cum = s.fin(C); w = w_of(s)
    c.arr(s, what + ': cumulative entry i+1 is the sum of the first i+1 weights', cum, lambda i: SUM(i + 1, lambda j: w[j]), n - 1, lo=1, under=under)
    c.eq(s, what + ': cumulative table ends at 1', cum.at(n, 'S'), 1, under)
    sizes(c, s, what, under)
def sizes(c, s, what, under=None):
    n = s.fin(N)
    c.eq(s, what + ': one weight per component', w_of(s).size, n, under)
    c.eq(s, what + ': table has one entry more than components', s.fin(C).size, n + 1, under)
    c.eq(s, what + ': component list has the right length', s.at(s.fin(P)).size, n, under)

def p03(c):
    for f in insts(c, 'Mixture'):
        s = c.run(f); t = targ(f).split('::')[-1]
        if not s.ok: c.undecided('constructor<%s>' % t, s, s.err); continue
        if is_copy(f):
            o = s.arg(0); n = o.f(N, 'U')
            T.size_ax = {('init', (('ref', X(o.f(W)).t), ()), 'O'): n.t}
            s = c.run(f, size_axioms={('init', (('ref', o.f(W).t), ()), 'O'): n.t})
            src = o.f(W).deref()
            pos = [n.gt(0)]
            c.eq(s, 'copy<%s>: number of components' % t, s.fin(N), n, pos)
            c.arr(s, 'copy<%s>: same weights' % t, w_of(s), lambda i: src[i], n, under=pos)
            i = IDX(n)
            c.eq(s, 'copy<%s>: components are clones of the source components' % t, s.at(s.fin(P)).at(i, 'O'), CALL('Clone', o.f(P).deref().at(i, 'O').deref()), pos)
            in_step(c, s, 'copy<%s>' % t, pos)
        elif tcode(f['params'][0]['t']) == 'U':
            c.eq(s, 'empty<%s>: no components' % t, s.fin(N), 0)
            sizes(c, s, 'empty<%s>' % t)
        else:
            v = s.arg(0); n = v.size; pos = [n.gt(0)]
            c.eq(s, 'from components: number of components', s.fin(N), n)
            c.arr(s, 'from components: equal weights', w_of(s), lambda i: 1 / n, n, under=pos)
            i = IDX(n)
            c.eq(s, 'from components: components are clones of the given ones', s.at(s.fin(P)).at(i, 'O'), CALL('Clone', v.at(i, 'O').deref()), pos)
            in_step(c, s, 'from components', pos)
    for f in insts(c, 'WeightsSet'):
        s = c.run(f, size_axioms={**axioms(), ('init', (('par', f['params'][0]['name']), ()), 'O'): iv(N, kd='U')}); t = targ(f).split('::')[-1]
        if not s.ok: c.undecided('set all weights<%s>' % t, s, s.err); continue
        n = s.this(N); v = s.arg(0); tot = SUM(n, lambda i: v[i]); pos = [n.gt(0), tot.gt(0)]
        c.eq(s, 'set all weights<%s>: succeeds exactly when the sum is positive' % t, s.ret, tot.gt(0), [n.gt(0)])
        c.arr(s, 'set all weights<%s>: each divided by the sum' % t, w_of(s), lambda i: v[i] / tot, n, under=pos)
        c.eq(s, 'set all weights<%s>: the argument is not changed' % t, s.finarg(0), v)
        in_step(c, s, 'set all weights<%s>' % t, pos)
    for f in insts(c, 'WeightSet'):
        s = c.run(f, size_axioms=axioms()); t = targ(f).split('::')[-1]
        if not s.ok: c.undecided('set one weight<%s>' % t, s, s.err); continue
        n = s.this(N); k = s.arg(0); a = s.arg(1); old = s.this(W).deref()
        many = [n.gt(1)]
        nm = 'set one weight<%s>' % t
        c.eq(s, nm + ': the component gets the given weight', w_of(s).at(k, 'S'), a, many)
        from .discrete import s_other
        g = s_other(X(assume(w_of(s).t, n.gt(1).t, True)), k, n)
        c.eq(s, nm + ': other components share what remains in proportion', g[0], ITE(old.at(k, 'S').eq(1), (1 - a) / (n - 1), old.at(g[1], 'S') * (1 - a) / (1 - old.at(k, 'S'))), many + [k.ne(g[1])])
        c.eq(s, nm + ': reports success', s.ret, TRUEX)
        in_step(c, s, nm, many)
    for f in insts(c, 'AddComponent'):
        s = c.run(f, size_axioms=axioms()); t = targ(f).split('::')[-1]
        weighted = len(f['params']) == 2
        nm = 'add component%s<%s>' % (' with weight' if weighted else '', t)
        if not s.ok: c.undecided(nm, s, s.err); continue
        n = s.this(N); old = s.this(W).deref(); pdf = s.arg(0)
        tot = SUM(n, lambda i: old[i])
        for cond, lab in ((n.eq(0), 'first'), (n.gt(0), 'further')):
            norm = [cond] + ([] if lab == 'first' else [tot.gt(0)])
            c.eq(s, nm + ', %s: one component more' % lab, s.fin(N), n + 1, norm)
            c.eq(s, nm + ', %s: a clone of the argument is stored last' % lab, s.at(s.fin(P)).at(n, 'O'), CALL('Clone', pdf), norm)
        def at0(x): return X(T.subst(x.t if isinstance(x, X) else x, {n.t: ZERO}))
        w0 = X(assume(w_of(s).t, n.gt(0).t, False))
        c.eq(s, nm + ', first: weight 1', at0(w0)[0], 1)
        i = IDX(n)
        if weighted:
            a = s.arg(1)
            # weights sum to one at entry
            one = lambda x: X(assume(T.subst(X(x).t, {tot.t: ONE}), n.gt(0).t, True))
            s1 = c.run(f, size_axioms=axioms())
            wn = w_of(s)
            c.eq(s, nm + ', further: other weights scaled by the remaining share', one(wn.at(i, 'S')), one(old[i] * (1 - a)), [a.gt(0), a.lt(1)])
            c.eq(s, nm + ', further: the new component gets the given weight', one(wn.at(n, 'S')), one(a), [a.gt(0), a.lt(1)])
        else:
            pos = [n.gt(0), tot.gt(0)]
            c.eq(s, nm + ', further: other weights keep their proportions', w_of(s).at(i, 'S'), old[i] / tot, pos)
            c.eq(s, nm + ', further: the new component has weight 0', w_of(s).at(n, 'S'), 0, pos)
            in_step(c, s, nm, pos)
        sizes(c, s, nm)
    for f in insts(c, 'DeleteComponent'):
        s = c.run(f, size_axioms=axioms()); t = targ(f).split('::')[-1]
        nm = 'delete component<%s>' % t
        if not s.ok: c.undecided(nm, s, s.err); continue
        n = s.this(N); k = s.arg(0)
        c.eq(s, nm + ': one component less', s.fin(N), n - 1)
        c.eq(s, nm + ': the component leaves the list', s.at(s.fin(P)), X(('erase', s.this(P).deref().t, k.t)))
        rest = X(('erase', s.this(W).deref().t, k.t)); tot = SUM(n - 1, lambda i: rest[i])
        pos = [n.gt(1), tot.gt(0)]
        c.arr(s, nm + ': remaining weights renormalised', w_of(s), lambda i: rest[i] / tot, n - 1, under=pos)
        in_step(c, s, nm, pos)
    for f in insts(c, 'WeightGet'):
        s = c.run(f); c.eq(s, 'weight of a component', lambda: s.ret, lambda: s.this(W).deref().at(s.arg(0), 'S'))
    for f in insts(c, 'WeightsGet'):
        s = c.run(f); c.eq(s, 'all weights', lambda: s.ret, lambda: s.this(W).deref())
    for f in insts(c, 'ComponentGet'):
        s = c.run(f); c.eq(s, 'component by number', lambda: s.ret, lambda: s.this(P).deref().at(s.arg(0), 'O'))
    for f in insts(c, 'NumComponentsGet'):
        s = c.run(f); c.eq(s, 'number of components', lambda: s.ret, lambda: s.this(N))
    for f in insts(c, 'MostProbableComponentGet'):
        s = c.run(f); nm = 'most probable component<%s>' % targ(f).split('::')[-1]
        if not s.ok: c.undecided(nm, s, s.err); continue
        n = s.this(N); w = s.this(W).deref()
        pos = [n.gt(0), SUM(n, lambda i: w[i]).gt(0)]; c.axioms = [ALL(n, lambda i: w[i].ge(0))]
        try:
            c.eq(s, nm + ': a component with the greatest weight', ALL(n, lambda i: w[i].le(w.at(s.ret, 'S'))), TRUEX, pos)
            c.eq(s, nm + ': one of the components', s.ret.ge(0), TRUEX, pos)
            c.eq(s, nm + ': one of the components', s.ret.lt(n), TRUEX, pos)
        finally: c.axioms = []
    for f in insts(c, 'ProbabilityGet'):
        s = c.run(f)
        c.eq(s, 'density is the weighted sum of the component densities', lambda: s.ret, lambda: SUM(s.this(N), lambda i: s.this(W).deref()[i] * CALL('ProbabilityGet', s.this(P).deref().at(i, 'O').deref(), s.arg(0), kd='S')), [s.this(N).gt(0)])

def moments(c):
    for f in c.find('Mixture::ExpectedValueGet'):
        s = c.run(f)
        k = tcode(f['rt']) if 'rt' in f else 'V'
        if targ(f) == 'MatrixWrapper::ColumnVector':
            c.eq(s, 'mixture mean is the weighted sum of the component means', lambda: s.ret, lambda: SUM(s.this(N), lambda i: s.this(W).deref()[i] * CALL('ExpectedValueGet', s.this(P).deref().at(i, 'O').deref(), kd='V')), [s.this(N).gt(0)])
