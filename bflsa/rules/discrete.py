"""Discrete distribution: normalised values and cumulative table in step."""
from ..rule import *

V = 'DiscretePdf::_Values_p'; C = 'DiscretePdf::_CumPDF'; N = 'DiscretePdf::_num_states'

def by_params(*codes):
    def f(fn): return tuple(tcode(p['t']) for p in fn['params']) == codes
    return f
def is_copy(fn):
    return fn.get('kind') == 'ctor' and len(fn['params']) == 1 and short(fn['params'][0]['t']) == short(fn['cls'])

def axioms(f=None):
    """class invariant at entry: one value per state, one table entry more; a value list given has one entry per state"""
    n = ('init', (('this',), (N,)), 'U'); v = ('init', (('ref', ('init', (('this',), (V,)), 'O')), ()), 'O')
    d = {v: n, ('init', (('this',), (C,)), 'O'): add(n, ONE)}
    if f: d[('init', (('par', f['params'][0]['name']), ()), 'O')] = n
    return d
def values(s): return s.at(s.fin(V))
def ctors(c, cls):
    fs = c.find('%s::%s' % (cls, cls))
    return [f for f in fs if not is_copy(f)], [f for f in fs if is_copy(f)]

def cum_sync(c, s, what, under=None):
    """cum[0]=0, cum[i]=sum of the first i final values, cum[n]=1"""
    if not s.ok: return c.undecided(what, s, s.err)
    n = s.fin(N); cum = s.fin(C); val = values(s)
    c.eq(s, what + ': table starts at 0', cum[0], 0, [under] if under else None) if False else None
    c.arr(s, what + ': entry i+1 is the sum of the first i+1 probabilities', cum, lambda i: SUM(i + 1, lambda j: val[j]), n - 1, lo=1, under=under)
    c.eq(s, what + ': table ends at 1', cum[n], 1, under)
    g = assume(cum.t, under.t, True) if under else cum.t
    i0 = X(T.upd(g, ZERO, ZERO))
    # first entry: either written 0 here or never written with anything else
    f = X(g)[0] if not under else X(assume(X(g)[0].t, under.t, True))
    return f

def first_zero(c, s, what, under=None):
    cum = s.fin(C); n = s.fin(N)
    # with at least one state the closing entry is not the first
    v = X(assume(assume(cum[0].t, eq(n.t, ZERO), False), under.t if under else TRUE, True)) if True else None
    t = T.subst(v.t, {n.t: add(n.t, ZERO)})
    c.eq(s, what + ': table starts at 0', v, 0)

def p01(c):
    new, cp = ctors(c, 'DiscretePdf')
    for f in new:
        s = c.run(f)
        if not s.ok: c.undecided('constructor', s, s.err); continue
        n = s.arg(0)
        c.eq(s, 'constructor: number of states', s.fin(N), n)
        c.arr(s, 'constructor: uniform probabilities', values(s), lambda i: 1 / n, n)
        c.eq(s, 'constructor: one probability per state', values(s).size, n)
        c.eq(s, 'constructor: table has one entry more than states', s.fin(C).size, n + 1)
        cum_sync(c, s, 'constructor')
    for f in cp:
        s = c.run(f)
        if not s.ok: c.undecided('copy', s, s.err); continue
        o = s.arg(0)
        src = X(fld(o.t, V, 'O')).deref()
        c.eq(s, 'copy: same states', s.fin(N), o.f(N, 'U'))
        c.arr(s, 'copy: same probabilities', values(s), lambda i: src[i], o.f(N, 'U'))
        c.eq(s, 'copy: table has one entry more than states', s.fin(C).size, o.f(N, 'U') + 1)
        cum_sync(c, s, 'copy')
    s = c.run('DiscretePdf::ProbabilitiesSet', size_axioms=axioms(c.find('DiscretePdf::ProbabilitiesSet')[0]))
    if s.ok:
        n = s.this(N); v = s.arg(0); tot = SUM(n, lambda i: v[i])
        pos = tot.gt(0)
        c.eq(s, 'set all: succeeds exactly when the weights have a positive sum', s.ret, pos)
        c.arr(s, 'set all: each value divided by the sum', values(s), lambda i: v[i] / tot, n, under=pos)
        c.eq(s, 'set all: state count kept', s.fin(N), n)
        cum_sync(c, s, 'set all', under=pos)
        c.eq(s, 'set all: the argument is not changed', s.finarg(0), v)
    else: c.undecided('set all', s, s.err)
    s = c.run('DiscretePdf::ProbabilitySet', size_axioms=axioms())
    if s.ok:
        n = s.this(N); st = s.arg(0); a = s.arg(1)
        old = s.this(V).deref()
        c.eq(s, 'set one: the state gets the given probability', values(s).at(st, 'S'), a)
        i = X(('sym', ('other',), 'U'))
        # any other state
        g = s_other(values(s), st, n); dif = [st.ne(g[1]), g[1].ne(st), n.gt(0)]
        c.eq(s, 'set one: other states share what remains in proportion', g[0], ITE(old.at(st, 'S').eq(1), (1 - a) / (n - 1), old.at(g[1], 'S') * (1 - a) / (1 - old.at(st, 'S'))), dif)
        c.eq(s, 'set one: state count kept', s.fin(N), n)
        cum_sync(c, s, 'set one')
        c.eq(s, 'set one: reports success', s.ret, TRUEX)
    else: c.undecided('set one', s, s.err)
    s = c.run('DiscretePdf::ProbabilityGet')
    c.eq(s, 'probability of a state', lambda: s.ret, lambda: s.this(V).deref().at(s.arg(0), 'S'))
    s = c.run('DiscretePdf::ProbabilitiesGet')
    c.eq(s, 'all probabilities', lambda: s.ret, lambda: s.this(V).deref())
    s = c.run('DiscretePdf::NumStatesGet')
    c.eq(s, 'number of states', lambda: s.ret, lambda: s.this(N))

def s_other(arr, st, n):
    """generic element of arr different from st"""
    i = IDX(n)
    t = arr.t
    def strip(x):
        if x[0] == 'upd' and x[2] == st.t: return strip(x[1])
        if x[0] == 'ite': return ite(x[1], strip(x[2]), strip(x[3]))
        return x
    return X(strip(t)).at(i, 'S'), i
