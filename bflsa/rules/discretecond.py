"""Discrete conditional distribution: one cell per combination of state and conditional arguments."""
import random
from ..rule import *
from .discrete import is_copy
from .models import CA, NCA, thisp
K = 'DiscreteConditionalPdf'; N = K + '::_num_states'; D = K + '::_cond_arg_dims_p'; T_ = K + '::_probability_p'; TD = K + '::_total_dimension'

def addr(state, args, ns, dims, n):
    """mixed-radix address: state fastest, then the arguments in order"""
    return state + ns * SUM(n, lambda i: args.at(i, 'I') * PROD(i, lambda j: dims.at(j, 'I')))

def parts(o=None):
    t = lambda f, kd='O': X(('init', (('this',), (f,)), kd)) if o is None else o.f(f, kd)
    return t(N, 'I'), X(t(D).t).deref(), X(t(T_).t).deref(), X(t(NCA, 'U').t), t(CA)
def knd(c): 
    return c

def p26(c):
    for f in c.find('%s::%s' % (K, K)):
        s = c.run(f)
        if not s.ok: c.undecided('constructor', s, s.err); continue
        if is_copy(f):
            o = s.arg(0); nk = tcode_of(c, N); ns = o.f(N, nk); dims = o.f(D).deref(); n = o.f(NCA, 'U')
            tot = ns * PROD(n, lambda j: dims.at(j, 'I'))
            c.eq(s, 'copy: number of states', s.fin(N), ns)
            c.eq(s, 'copy: number of arguments', s.fin(NCA), n)
            c.eq(s, 'copy: current argument values', s.fin(CA), o.f(CA))
            c.arr(s, 'copy: argument dimensions', s.at(s.fin(D)), lambda i: dims.at(i, 'I'), n, kd='I')
            c.arr(s, 'copy: every cell', s.at(s.fin(T_)), lambda i: o.f(T_).deref().at(i, 'S'), tot)
            c.eq(s, 'copy: as many cells as combinations', s.at(s.fin(T_)).size, tot)
            for fl, what in ((T_, 'table'), (D, 'dimensions')):
                r = s.fin(fl).t
                c.holds(s, 'copy: own storage for the ' + what, r[0] == 'addr' and r[1][1][0] in ('new', 'newarr') if r[0] == 'addr' else False, show(r)[:120])
        else:
            ns, n, dp = s.arg(0), s.arg(1), s.arg(2)
            tot = ns * PROD(n, lambda j: dp.deref().at(j, 'I'))
            c.eq(s, 'constructor: number of states', s.fin(N), ns)
            c.eq(s, 'constructor: number of arguments', s.fin(NCA), n)
            c.arr(s, 'constructor: argument dimensions', s.at(s.fin(D)), lambda i: dp.deref().at(i, 'I'), n, kd='I')
            c.eq(s, 'constructor: as many cells as combinations', s.at(s.fin(T_)).size, tot)
            c.eq(s, 'constructor: room for one sampling probability per state', s.fin(K + '::_probs').size, ns)
            c.eq(s, 'constructor: room for the cumulative table', s.fin(K + '::_valuelist').size, ns + 1)
    nk = tcode_of(c, N)
    ns = X(('init', (('this',), (N,)), nk)); dims = X(thisp(D)).deref(); tab = X(thisp(T_)).deref(); n = X(('init', (('this',), (NCA,)), 'U'))
    args = X(thisp(CA))
    s = c.run(K + '::ProbabilityGet')
    c.eq(s, 'reading uses the cell of the state and the current arguments', lambda: s.ret, lambda: tab.at(addr(s.arg(0), args, ns, dims, n), 'S'))
    s = c.run(K + '::ProbabilitySet')
    c.eq(s, 'writing changes exactly the cell of the state and the given arguments', lambda: s.at(s.this(T_)), lambda: tab.upd(addr(s.arg(1), s.arg(2), ns, dims, n), s.arg(0)))
    s = c.run(K + '::NumStatesGet'); c.eq(s, 'number of states', lambda: s.ret, lambda: ns)
    # sampling: inversion over the cells of the current arguments
    f = c.find(K + '::SampleFrom', lambda f: len(f['params']) == 3)[0]
    s = c.run(f)
    if s.ok:
        w = lambda i: tab.at(addr(i, args, ns, dims, n), 'S')
        r = s.finarg(0, 'Sample::Value', kd='I').t
        from .sampling import inversion
        def hook(m, k, kd):
            if kd == 'S' and k[0] == 'sel' and T_ in repr(k[1]): return random.Random(repr((m.seed, k))).choice([0, 1, 1, 2, 3])
        c.hook = hook; c.axioms = [ns.gt(0)]
        inversion(c, s, 'one sample', r, lambda i: SUM(i, w) / SUM(ns, w), ns)
        c.hook = None; c.axioms = []
    else: c.undecided('one sample', s, s.err)

def tcode_of(c, field):
    k, f = field.split('::')
    cl = c.p.classes.get('BFL::' + k)
    for x in cl['fields']:
        if (x['n'] if 'n' in x else x.get('name')) == f: return tcode(x['t'])
    raise AnalysisError('no field ' + field)
