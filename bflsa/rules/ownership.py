"""Copies are equal and share nothing; what is allocated is released once."""
from ..rule import *
from .discrete import is_copy
import re
G, U, D, DC, MX = 'Gaussian::', 'Uniform::', 'DiscretePdf::', 'DiscreteConditionalPdf::', 'Mixture::'
DIM = ('Pdf::_dimension', 'U')
CONDITION = [('ConditionalPdf::_NumConditionalArguments', 'U'), ('ConditionalPdf::_ConditionalArguments', 'O')]
GAUSS = [DIM, (G + '_Mu', 'V'), (G + '_Sigma', 'Y')]
# client suffix -> observable value fields, owned (pointer field, what it holds)
COPY = {
    'SampleCV': ([('Sample::Value', 'V')], []),
    'SampleI': ([('Sample::Value', 'I')], []),
    'WSampleCV': ([('Sample::Value', 'V'), ('WeightedSample::Weight', 'S')], []),
    'WSampleI': ([('Sample::Value', 'I'), ('WeightedSample::Weight', 'S')], []),
    'Gaussian': (GAUSS, []),
    'ConditionalGaussian': ([DIM] + CONDITION, []),
    'LinearCG': ([DIM, ('AnalyticConditionalGaussianAdditiveNoise::_additiveNoise_Mu', 'V'), ('AnalyticConditionalGaussianAdditiveNoise::_additiveNoise_Sigma', 'Y'), ('LinearAnalyticConditionalGaussian::_ratio', 'O')] + CONDITION, []),
    'Uniform': ([DIM, (U + '_Lower', 'V'), (U + '_Higher', 'V'), (U + '_Height', 'S')], []),
    'MCPdfCV': ([DIM, ('MCPdf::_listOfSamples', 'O'), ('MCPdf::_CumPDF', 'O'), ('MCPdf::_SumWeights', 'S')], []),
    'MCPdfU': ([DIM, ('MCPdf::_listOfSamples', 'O'), ('MCPdf::_CumPDF', 'O'), ('MCPdf::_SumWeights', 'S')], []),
    'DiscretePdf': ([DIM, (D + '_num_states', 'U')], [(D + '_Values_p', lambda o, f: o(D + '_num_states', 'U'), 'S')]),
    'DiscreteConditionalPdf': ([DIM, (DC + '_num_states', 'U'), (DC + '_total_dimension', 'I')] + CONDITION,
                               [(DC + '_probability_p', lambda o, f: o(DC + '_total_dimension', 'I'), 'S'), (DC + '_cond_arg_dims_p', lambda o, f: o('ConditionalPdf::_NumConditionalArguments', 'U'), 'I')]),
    'MixtureCV': ([DIM, (MX + '_numComponents', 'U')], [(MX + '_componentWeights', lambda o, f: o(MX + '_numComponents', 'U'), 'S'), (MX + '_componentPdfs', lambda o, f: o(MX + '_numComponents', 'U'), 'O')]),
}
def fresh(t):
    """a pointer to storage nothing else refers to"""
    if t[0] == 'addr': return t[1][1][0] in ('new', 'newarr')
    if t[0] == 'call': return t[1] == 'Clone'
    if t[0] == 'ret' and t[1][0] == 'call': return t[1][1] == 'Clone'
    return False
def leaves(t):
    if t[0] == 'ite':
        for k in (2, 3): yield from leaves(t[k])
    else: yield t
def arg_obj(f, i): return lambda n, kd='O': X(('init', (('par', f['params'][i]['name']), (n,)), kd))
def dc_inv(o):
    """the table of a discrete conditional pdf holds one cell per combination"""
    n = o('ConditionalPdf::_NumConditionalArguments', 'U'); dims = o(DC + '_cond_arg_dims_p')
    return {o(DC + '_total_dimension', 'I').t: (PROD(n, lambda i: dims.deref().at(i, 'I')) * o(DC + '_num_states', 'U')).t}

def p05(c):
    for n, (vals, own) in COPY.items():
        ret = lambda s: (lambda f, kd='O': s.at(s.ret, f, kd=kd))
        # copy construction
        for f in c.find('bflsa_driver::copy_' + n):
            s = c.run(f); t = 'copy of %s: ' % n
            if not s.ok: c.undecided(t, s, s.err); continue
            contents(c, s, t, lambda fl, kd='O': s.at(s.ret, fl, kd=kd), arg_obj(f, 0), vals, own, [])
            unchanged(c, s, t, f['params'][0]['name'])
        for f in c.find('bflsa_driver::assign_' + n):
            s = c.run(f); t = 'assignment to %s: ' % n
            if not s.ok: c.undecided(t, s, s.err); continue
            al = X(eq(addr(f, 0), addr(f, 1)))
            contents(c, s, t, lambda fl, kd='O': s.finarg(0, fl, kd=kd), arg_obj(f, 1), vals, own, [~al], assigned=arg_obj(f, 0))
            unchanged(c, s, t, f['params'][1]['name'])
        for f in c.find('bflsa_driver::self_' + n):
            s = c.run(f); t = 'self-assignment of %s: ' % n
            if not s.ok: c.undecided(t, s, s.err); continue
            for fl, kd in vals: c.eq(s, t + fl + ' kept', s.finarg(0, fl, kd=kd), arg_obj(f, 0)(fl, kd))
            for fl, size, kd in own:
                o = arg_obj(f, 0); p = s.finarg(0, fl); N = size(o, fl)
                c.arr(s, t + 'contents of %s kept' % fl, s.at(p), lambda i: o(fl).deref().at(i, kd), N, kd=kd)
        K = {'MixtureCV': 'Mixture', 'MCPdfCV': 'MCPdf', 'MCPdfU': 'MCPdf', 'LinearCG': 'LinearAnalyticConditionalGaussian'}.get(n, n)
        if not n.startswith(('Sample', 'WSample')):
            full = c.find('bflsa_driver::copy_' + n)[0]['params'][0]['t'].replace('const ', '').replace('&', '').strip()
            for f in c.find(K + '::Clone', lambda f: f['cls'] == full or f['cls'] == full.replace('ColumnVector', 'MatrixWrapper::ColumnVector').replace('MatrixWrapper::MatrixWrapper', 'MatrixWrapper')):
                s = c.run(f, cls=f['cls']); t = 'clone of %s: ' % n
                if not s.ok: c.undecided(t, s, s.err); continue
                v = s.ret.t
                for l in leaves(v):
                    if l[0] == 'addr' and l[1][1][0] == 'new': c.holds(s, t + 'a new object of the same class', base_type(l[1][1][2]) == base_type(f['cls']), '%s for %s' % (l[1][1][2], f['cls']))
                    elif unresolved(l): c.undecided(t + 'a new object', s, show(l)[:200])
                    else: c.holds(s, t + 'a new object of the same class', False, show(l)[:200])
                if v[0] == 'addr': contents(c, s, t, lambda fl, kd='O': s.at(s.ret, fl, kd=kd), lambda fl, kd='O': X(('init', (('this',), (fl,)), kd)), vals, own, [])
    for f in c.find('bflsa_driver::assign_unweighted'):
        s = c.run(f)
        if not s.ok: c.undecided('weighted from unweighted', s, s.err); continue
        c.eq(s, 'weighted from unweighted: value', s.finarg(0, 'Sample::Value', kd='V'), arg_obj(f, 1)('Sample::Value', 'V'))
        c.eq(s, 'weighted from unweighted: weight one', s.finarg(0, 'WeightedSample::Weight', kd='S'), 1)
def addr(f, i): return ('addr', ('L', ('par', f['params'][i]['name']), ()))
def base_type(t): return re.sub(r'\s+', '', t.replace('MatrixWrapper::', '').replace('BFL::', '').replace('class ', '').replace('struct ', ''))
def unchanged(c, s, t, par):
    ch = [k for k in s.changed() if ('par', par) in flat(k[0])]
    ch = [k for k in ch if not s.an.p.mutable(k[1][-1])] if hasattr(s.an, 'p') and hasattr(s.an.p, 'mutable') else ch
    c.holds(s, t + 'the source is not changed', not ch, str([(k[1], show(k[2])[:80]) for k in ch][:3]))
def flat(t):
    out = set()
    def go(x):
        if isinstance(x, tuple):
            out.add(x)
            for y in x: go(y)
    go(t); return out
def contents(c, s, t, new, old, vals, own, A, assigned=None):
    inv = dc_inv(old) if any(o[0] == DC + '_probability_p' for o in own) else {}
    iv = lambda x: X(T.subst(X(x).t, inv)) if inv else X(x)
    for fl, kd in vals: c.eq(s, t + 'same ' + fl.split('::')[-1], iv(new(fl, kd)), iv(old(fl, kd)), under=A)
    for fl, size, kd in own:
        p = new(fl); q = p.t
        for a in A: q = assume(q, a.t, True)
        N = iv(size(old, fl))
        for l in leaves(q):
            mine = assigned is not None and l == assigned(fl).t
            if mine or fresh(l): c.holds(s, t + 'own storage for ' + fl.split('::')[-1], True)
            elif unresolved(l): c.undecided(t + 'own storage for ' + fl, s, show(l)[:200])
            else: c.holds(s, t + 'own storage for ' + fl.split('::')[-1], False, show(l)[:200])
        got = iv(s.at(X(q)) if q[0] != 'ite' else s.at(p))
        if kd == 'O':
            j = IDX(N); e = got.at(j, 'O').t
            for a in A: e = assume(e, a.t, True)
            c.eq(s, t + 'element i is a clone of element i', X(e), X(mkclone(e, old(fl).deref().at(j, 'O').deref().t)), under=A)
        else:
            c.arr(s, t + 'same contents of ' + fl.split('::')[-1], got, lambda i: old(fl).deref().at(i, kd), N, under=A, kd=kd)
            if fl in TABLES:
                # the cumulative table: taken over, or made again from the same weights
                cum, src = new(TABLES[fl]), old(TABLES[fl])
                T.size_ax = dict(T.size_ax); T.size_ax[src.t] = (N + 1).t; T.size_ax[old(fl).deref().t] = N.t
                j = IDX(N - 1)
                def entry(k, want, what):
                    e = cum.at(k, 'S').t
                    for a in list(A) + [N.gt(0)]: e = assume(e, a.t, True)
                    c.eq(s, t + 'cumulative table, ' + what, X(e), src.at(k, 'S') if X(e).t == src.at(k, 'S').t else want, under=list(A) + [N.gt(0)])
                entry(j + 1, SUM(j + 1, lambda m: old(fl).deref().at(m, kd)), 'entry i+1 the sum of the first i+1 weights')
                entry(N, X(1), 'ends at 1')
TABLES = {MX + '_componentWeights': 'Mixture::_cumWeights', D + '_Values_p': 'DiscretePdf::_CumPDF'}
def mkclone(e, o):
    """the shape a cloned pointer has in this summary"""
    x = T.any_sub(e, lambda x: x[0] == 'call' and x[1] == 'Clone')
    return ('call', 'Clone', (o,), x[3] if x else 'O') if e[0] != 'ret' else ('ret', ('call', 'Clone', (o,), 'O')) + e[2:]

# -------------------------------------------------------------------- release
CVV = '<MatrixWrapper::ColumnVector, MatrixWrapper::ColumnVector>'
# class with a destructor that releases; the members that hold what it owns
OWNERS = ('DiscretePdf', 'DiscreteConditionalPdf', 'Mixture', 'KalmanFilter', 'ParticleFilter', 'MixtureParticleFilter', 'HistogramFilter', 'RauchTungStriebel', 'ParticleSmoother', 'EKParticleFilter', 'EKFProposalDensity')
def deletes(s):
    """(condition, pointer, array?, quantifier, line), one per delete that is executed"""
    out = []; seen = set()
    for e in s.r.st.effects:
        if e[1] != 'delete': continue
        k = (e[3], repr(e[2]), repr(e[0]))
        if k in seen: continue
        seen.add(k); out.append((e[0], e[2][0], e[2][2], e[4] if len(e) > 4 else None, e[3]))
    return out
def p06(c):
    for K in OWNERS:
        for d in c.find(K + '::~' + K, lambda f: '<int>' not in f['cls']):
            s = c.run(d, cls=d['cls'])
            if not s.ok: c.undecided(K + ': destructor', s, s.err); continue
            ds = deletes(s)
            for i, a in enumerate(ds):
                for b in ds[:i]:
                    both = and_(a[0], b[0])
                    c.holds(s, '%s: destructor releases an object once' % K, not (same_ptr(a, b) and both != FALSE), 'released at lines %s and %s: %s' % (b[4], a[4], show(a[1])[:80]), ln=a[4])
            direct = {}
            for g, p, arr, q, ln in ds:
                if q is None and p[0] == 'init' and p[1][0] == ('this',) and len(p[1][1]) == 1: direct[p[1][1][0]] = (g, arr, ln)
                elif q is not None: elements(c, s, K, p, q, ds, ln)
                elif unresolved(p): c.undecided('%s: destructor' % K, s, show(p)[:100])
                else: c.holds(s, '%s: destructor releases only members' % K, False, show(p)[:200], ln=ln)
            c.holds(s, '%s: destructor releases what the class holds' % K, bool(direct), 'nothing is released')
            constructors(c, K, d['cls'], direct, based(c, d['cls']))
            methods(c, K, d['cls'], direct)
def same_ptr(a, b): return a[1] == b[1] or (a[3] and b[3] and T.subst(a[1], {a[3][1]: b[3][1]}) == b[1])
def elements(c, s, K, p, q, ds, ln):
    """all elements of a member vector, before the vector itself"""
    k, n = q[1], q[2]
    ok = p[0] == 'sel' and p[2] == k
    c.holds(s, '%s: destructor releases every element' % K, ok, show(p)[:200], ln=ln)
    if K == 'Mixture': c.eq(s, '%s: destructor releases as many elements as there are' % K, X(n), X(('init', (('this',), (MX + '_numComponents',)), 'U')))
def inits(fin, g):
    """the condition g on members at destruction in terms of the state fin leaves"""
    m = {}
    for x in flat(g):
        if x and x[0] == 'init' and x[1][0] == ('this',): m[x] = fin(x[1][1][0], x[2])
    return T.subst(g, m) if m else g
def shape(c, s, t, l, arr, par):
    """l is something this object may release with delete / delete[]"""
    if l[0] == 'addr' and l[1][1][0] in ('new', 'newarr'):
        c.holds(s, t + 'allocated and released in the same way (scalar or array)', (l[1][1][0] == 'newarr') == bool(arr), show(l)[:100])
    elif fresh(l): c.holds(s, t + 'released object is its own', True)
    elif unresolved(l): c.undecided(t + 'released object is its own', s, show(l)[:150])
    else: c.holds(s, t + 'released object is its own', False, 'releases %s' % show(l)[:150])
def based(c, cls):
    """members released by the destructors of the base classes"""
    out = set()
    for b in c.p.bases_all(cls)[1:]:
        for d in c.find('%s::~%s' % (short(b), short(b)), lambda f: base_type(f['cls']) == base_type(b), need=False):
            s = c.run(d, cls=d['cls'])
            if s.ok: out |= {p[1][1][0] for g, p, a, q, ln in deletes(s) if p[0] == 'init' and p[1][0] == ('this',) and len(p[1][1]) == 1}
    return out
def constructors(c, K, cls, direct, base):
    for f in c.find(K + '::' + K, lambda f: f['cls'] == cls, need=False):
        if is_copy(f) and K in NOCOPY: continue
        s = c.run(f, cls=cls, **CTOR.get(K, {})); t = '%s built with %d arguments%s: ' % (K, len(f['params']), ' (copy)' if is_copy(f) else '')
        if not s.ok: c.undecided(t, s, s.err); continue
        fin = lambda n, kd: s.fin(n, kd=kd).t
        for fl, (g, arr, ln) in direct.items():
            g2 = inits(fin, g); v = s.fin(fl, kd='O').t
            for l in leaves(v):
                if g2 == TRUE: shape(c, s, t + fl + ': ', l, arr, f)
                elif g2 == FALSE:
                    if unresolved(l): c.undecided(t + fl, s, show(l)[:150])
                    else: c.holds(s, t + fl + ': an object of its own is released', not fresh(l), show(l)[:150])
                else: c.undecided(t + fl, s, 'released under ' + show(g2)[:100])
        held = [r for r in (root(s.fin(fl, kd='O').t) for fl in direct) if r]
        c.holds(s, t + 'no two members hold the same object', len(held) == len(set(held)), str(held)[:200])
        lost(c, s, t, K, set(direct) | base)
        c.holds(s, t + 'releases nothing', not [d for d in deletes(s) if not local(d[1])], str([show(d[1])[:80] for d in deletes(s)]))
NOCOPY = ('KalmanFilter', 'ParticleFilter', 'MixtureParticleFilter', 'HistogramFilter', 'RauchTungStriebel', 'ParticleSmoother', 'EKParticleFilter', 'EKFProposalDensity')
CTOR = {}
# the only constructor that compiles sets it (checked by the constructor obligations)
PRE = {'MixtureParticleFilter': {(('this',), ('MixtureParticleFilter::_created_post',)): TRUE}}
def root(l): return l[1][1] if l[0] == 'addr' and l[1][0] == 'L' else None
def local(p): return p[0] == 'addr' and p[1][1][0] in ('new', 'newarr')
def lost(c, s, t, K, direct):
    """every object allocated is held by a member that is released, or by such an object"""
    news = [e[2][0] for e in s.r.st.effects if e[1] == 'new']
    gone = {root(d[1]) for d in deletes(s)}
    ret = s.ret.t
    for r in dict.fromkeys(news):
        if r in gone: continue
        h = [(rt, path) for (rt, path), v in s.r.st.store.items() if rt[0] != 'loc' and any(x == ('addr', ('L', r, ())) for x in flat(v))]
        ok = ret == ('addr', ('L', r, ())) or any((rt == ('this',) and path and path[-1] in direct) or rt[0] in ('new', 'newarr') or rt[0] == 'ref' for rt, path in h)
        key = '%s: %s' % (K, '/'.join(path[-1].split('::')[-1] for rt, path in h if path) or 'local')
        c.holds(s, t + 'what is allocated is released by the destructor (%s)' % key.split(': ')[1], ok, 'allocation of %s held by %s only' % (r[2], h[:2]))
def methods(c, K, cls, direct):
    """overwriting an owned member releases what it held and stores an object of its own"""
    for f in own_methods(c, cls, {n.split('::')[-1] for n in direct}):
        nm = f['name'] if 'name' in f else f['qn'].split('::')[-1]
        s = c.run(f, cls=cls, pre=PRE.get(K, {})); t = '%s, %s::%s: ' % (K, short(f['cls']), nm)
        if not s.ok: c.undecided(t + 'ownership', s, s.err); continue
        ds = deletes(s)
        pre = lambda n, kd: PRE.get(K, {}).get((('this',), (n,)), ('init', (('this',), (n,)), kd))
        for fl, (g, arr, ln) in direct.items():
            old = ('init', (('this',), (fl,)), 'O'); v = s.fin(fl, kd='O').t
            if v == old:
                bad = [d for d in ds if d[1] == old]
                c.holds(s, t + 'does not release %s while still holding it' % fl, not bad, str([d[4] for d in bad]))
                continue
            for cond, l in guarded(v):
                if l == old:
                    bad = [d for d in ds if d[1] == old and and_(d[0], cond) != FALSE]
                    c.holds(s, t + 'does not release %s while still holding it' % fl, not bad, str([d[4] for d in bad])); continue
                rel = [d for d in ds if d[1] == old and assume(inits(lambda n, kd: pre(n, kd), d[0]), cond, True) == assume(inits(lambda n, kd: pre(n, kd), g), cond, True)]
                g2 = inits(lambda n, kd: s.fin(n, kd=kd).t, g)
                if unresolved(l) is not None and not fresh(l): c.undecided(t + 'replacing ' + fl, s, show(l)[:150]); continue
                mine = fresh(l) or g2 == FALSE
                c.holds(s, t + 'replacing %s releases the old object once and stores an object of its own' % fl, len(rel) == 1 and mine, '%d releases of the old object, %s stored' % (len(rel), show(l)[:100]))
        if K == 'Mixture': mixture(c, s, t, ds)
def guarded(v, g=TRUE):
    if v[0] == 'ite':
        yield from guarded(v[2], and_(g, v[1])); yield from guarded(v[3], and_(g, not_(v[1])))
    else: yield g, v
def own_methods(c, cls, names):
    """entry points of the class that can replace or release what it owns: they
    (or what they call in the class) contain a delete, new or assignment to an owning member"""
    mine = set(); fs = {}
    for b in c.p.bases_all(cls):
        k = c.p.cls(b)
        for m in (k['methods'] if k else ()):
            f = c.p.fns.get(m['id'])
            if f is not None and f.get('body') is not None: fs[f['id']] = f; mine.add(f['id'])
    touch, calls = {}, {}
    def scan(f):
        t = [False]; cs = set()
        def go(x):
            if isinstance(x, dict):
                k = x.get('k')
                if k in ('delete', 'new'): t[0] = True
                if k == 'assign' and isinstance(x.get('l'), dict) and x['l'].get('k') == 'member' and x['l'].get('name') in names: t[0] = True
                if k == 'member' and x.get('name') == '_componentPdfs' and short(cls) == 'Mixture': t[0] = True
                for v in x.values(): go(v)
            elif isinstance(x, list):
                for v in x: go(v)
            elif isinstance(x, str) and x in mine: cs.add(x)
        go(f['body']); touch[f['id']] = t[0]; calls[f['id']] = cs
    for f in fs.values(): scan(f)
    def reach(i, seen):
        if i in seen: return False
        seen.add(i)
        return touch[i] or any(reach(j, seen) for j in calls[i])
    called = {j for i in calls for j in calls[i] if j != i}
    out = []
    for b in c.p.bases_all(cls):
        k = c.p.cls(b)
        for m in (k['methods'] if k else ()):
            f = fs.get(m['id'])
            if f is None or m.get('const') or m.get('static') or f.get('kind') in ('ctor', 'dtor') or '~' in f['qn']: continue
            if m.get('access', 0) != 0 and f['id'] in called: continue   # helper: seen through its callers
            if c.p.resolve(cls, f['id']) in (None, f['id']) and reach(f['id'], set()): out.append(f)
    return out
def mixture(c, s, t, ds):
    """components: one leaves the list exactly when it is released"""
    P_ = X(('init', (('this',), (MX + '_componentPdfs',)), 'O'))
    n0 = P_.deref().size; fin = s.at(s.fin(MX + '_componentPdfs'))
    rel = [d for d in ds if d[1][0] == 'sel' and d[1][1] == P_.deref().t]
    other = [d for d in ds if d not in rel and d[1][0] != 'init']
    if not rel and fin.t == P_.deref().t: return
    c.holds(s, t + 'releases components only', not other, str([show(d[1])[:80] for d in other]))
    if rel and rel[0][3] is None:
        k = X(rel[0][1][2])
        c.holds(s, t + 'releases one component once', len(rel) == 1, str([d[4] for d in rel]))
        c.eq(s, t + 'the released component leaves the list, the others stay', fin, X(('erase', P_.deref().t, k.t)), under=[X(rel[0][0])])
        some = X(('init', (('this',), (MX + '_numComponents',)), 'U')).gt(0)
        if assume(rel[0][0], some.t, True) != TRUE: c.eq(s, t + 'nothing leaves the list without being released', fin, P_.deref(), under=[some, ~X(rel[0][0])])
        c.eq(s, t + 'one component less', fin.size, n0 - 1, under=[X(rel[0][0])])
    elif not rel:
        i = IDX(n0)
        c.eq(s, t + 'no component is lost', fin.at(i, 'O'), P_.deref().at(i, 'O'))
