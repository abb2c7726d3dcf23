"""Meaning of the library interfaces the repository is written against:
standard containers and iterators, <cmath>, the random-number wrapper, the
Probability scalar, and the algebra of the matrix wrapper classes."""
from .terms import *
from . import terms as T
from .program import base_type, short, tcode, strip_targs
from . import engine as E

MATH = {'sqrt', 'exp', 'log', 'pow', 'fabs', 'abs', 'floor', 'ceil', 'sin', 'cos', 'tan', 'atan2', 'isfinite', 'isnan', 'round'}

def fn_(name, *a):
    if name == 'abs': name = 'fabs'
    if name == 'sqrt' and a[0][0] == 'n' and a[0][1] in (0, 1): return a[0]
    if name == 'pow':
        if a[1] == ONE: return a[0]
        if a[1] == num(2): return mul(a[0], a[0])
        if a[1] == ZERO: return ONE
        if a[1] == num(Fraction(1, 2)): return fn_('sqrt', a[0])
        if a[1] == num(-1): return inv(a[0])
    return ('fn', name) + tuple(a)

def call(an, e, st, fr, qn, name):
    t = e.get('objt', '')
    bt = base_type(t).rstrip('* ') if t else ''
    if 'obj' in e:
        if E.is_container(t) or E.is_map(t) or base_type(e.get('cls', '')).startswith(('std::vector<', 'std::list<', 'std::map<', 'std::deque<')):
            return container(an, e, st, fr, name, t if (E.is_container(t) or E.is_map(t)) else e['cls'])
        if E.is_iter(t): return iterator(an, e, st, fr, name)
        if short(e.get('cls', '')) == 'Probability' or short(bt) == 'Probability': return probability(an, e, st, fr, name)
        if short(e.get('cls', '')) in E.MATCLS and getattr(an, 'matalg', True): return matrix(an, e, st, fr, name)
        if base_type(t).startswith('(lambda'):
            return lam(an, e, st, fr)
        if bt.startswith('std::pair'): return NotImplemented
        return NotImplemented
    # free functions
    if name in ('runif', 'rnorm') and 'BFL' in qn:
        a = tuple(an.val(x, st, fr) for x in e['args'])
        an.rndn += 1
        v = ('rnd', name, (an.rndn,) + tuple(an.kstack), a, 'S')
        an.effect(st, 'rnd', (name, a), e['ln'])
        return v
    if name in ('operator!=', 'operator==', 'operator<', 'operator-', 'operator+') and e['args'] and any(E.is_iter(x.get('t', '')) for x in e['args']):
        a = [an.val(x, st, fr) for x in e['args']]
        r = mapend(an, st, name[8:], a[0], a[1])
        return r if r is not None else an.iterop(name[8:], a[0], a[1])
    if name in MATH and not e.get('inroot'):
        return fn_(name, *[an.val(x, st, fr) for x in e['args']])
    if qn.startswith('std::') or not e.get('inroot'):
        return algo(an, e, st, fr, name)
    if e.get('op') and name in ('operator*', 'operator+', 'operator-', 'operator/') and any(tcode(x.get('t', '')) in MAT for x in e['args']) and getattr(an, 'matalg', True):
        a = [an.val(x, st, fr) for x in e['args']]
        return matop(name[8:], a[0], a[1]) if len(a) == 2 else neg(a[0])
    if short(e.get('cls', '') or '') == 'Probability' or (e.get('op') and any(short(x.get('t', '')) == 'Probability' for x in e['args'])):
        a = [an.val(x, st, fr) for x in e['args']]
        op = name[8:]
        return an.binop(op, a[0], a[1], {'t': 'double', 'lt': 'double', 'rt': 'double'})
    return NotImplemented

def lam(an, e, st, fr):
    f = an.val(e['obj'], st, fr)
    if f[0] == 'lam':
        fn = an.p.fns.get(f[1])
        if fn is not None: return inline_lambda(an, fn, f[2], e['args'], st, fr)
    an.note('call of an unknown function object', e)
    return ('opq', 'lambda', e['ln'], tcode(e['t']))

def inline_lambda(an, fn, outer, args, st, fr):
    nf = E.Frame(fn, outer.this, outer.cls, an._nf(), parent=outer)
    for p, a in zip(fn['params'], args):
        if isinstance(a, tuple):
            if a[0] == 'L' and p['t'].rstrip().endswith('&'): nf.env[p['id']] = (a, p['t']); continue
            v = an.read(st, a, tcode(p['t'])) if a[0] == 'L' else a
            lv = ('L', ('loc', p['name'], nf.n, 0), ()); an.write(st, lv, v); nf.env[p['id']] = (lv, p['t']); continue
        if p['t'].rstrip().endswith('&'): nf.env[p['id']] = (an.bind(a, st, fr), p['t'])
        else:
            lv = ('L', ('loc', p['name'], nf.n, 0), ()); an.write(st, lv, an.val(a, st, fr)); nf.env[p['id']] = (lv, p['t'])
    g0 = st.guard
    out = an.exec_body(nf, st.copy())
    exits = list(nf.exits)
    if out is not None: exits.append(E.Exit('ret', out, None))
    if not exits: raise E.Dead()
    s2, v = an.join_exits_rel(exits, g0)
    st.assign(s2)
    return v if v is not None else ('undef', 'void')

def _objlv(an, e, st, fr):
    if e.get('arrow'): return an.deref(an.val(e['obj'], st, fr))
    return an.bind(e['obj'], st, fr)

def container(an, e, st, fr, name, t):
    lv = _objlv(an, e, st, fr)
    et = E.elem_type(t); ek = tcode(et)
    if E.is_map(t): return mapop(an, e, st, fr, name, t, lv)
    v = lambda: an.read(st, lv)
    args = e['args']
    A = lambda i: an.val(args[i], st, fr)
    if name == 'size': return an.size_of(v())
    if name == 'empty': return not_(gt0(an.size_of(v()), True))
    if name in ('operator[]', 'at'): return ('L', lv[1], lv[2] + (('i', A(0)),))
    if name in ('begin', 'cbegin'): return ('iter', lv, ZERO)
    if name in ('end', 'cend'): return ('iter', lv, an.size_of(v()))
    if name == 'back': return ('L', lv[1], lv[2] + (('i', sub(an.size_of(v()), ONE)),))
    if name == 'front': return ('L', lv[1], lv[2] + (('i', ZERO),))
    if name in ('push_back', 'emplace_back'):
        x = A(0); an.write(st, lv, ('app', v(), x)); return ('undef', 'void')
    if name == 'reserve' or name == 'shrink_to_fit':
        for a in args: an.val(a, st, fr)
        return ('undef', 'void')
    if name == 'clear': an.write(st, lv, ('emptyc',)); return ('undef', 'void')
    if name == 'pop_back': an.write(st, lv, ('erase', v(), sub(an.size_of(v()), ONE))); return ('undef', 'void')
    if name == 'resize':
        n = A(0); d = A(1) if len(args) > 1 else an.default_elem(et)
        old = v()
        if an.size_of(old) == n: return ('undef', 'void')
        an.write(st, lv, ('resz', old, n, d)); return ('undef', 'void')
    if name == 'assign':
        a = [an.val(x, st, fr) for x in args]
        if len(a) == 2 and a[0][0] == 'iter':
            src = an.read(st, ('L', a[0][1][1], a[0][1][2]))
            if a[0][2] == ZERO and a[1][2] == an.size_of(src): an.write(st, lv, src)
            else:
                n = sub(a[1][2], a[0][2]); j = T.fresh_k(); T.ranges[j] = n
                an.write(st, lv, T.tab(j, sel(src, add(a[0][2], j), ek), n))
        elif len(a) == 2: an.write(st, lv, ('resz', ('emptyc',), a[0], a[1]))
        else: an.write(st, lv, a[0])
        return ('undef', 'void')
    if name == 'operator=':
        an.write(st, lv, A(0)); return lv
    if name == 'swap':
        o = an.bind(args[0], st, fr); a, b = v(), an.read(st, o)
        an.write(st, lv, b); an.write(st, o, a); return ('undef', 'void')
    if name == 'erase':
        a = [an.val(x, st, fr) for x in args]
        if len(a) == 1 and a[0][0] == 'iter':
            an.write(st, lv, ('erase', v(), a[0][2])); return ('iter', lv, a[0][2])
        if len(a) == 2 and a[0][0] == 'iter' and a[1][0] == 'iter':
            if a[1][2] == an.size_of(v()):
                # keep the first a[0] elements
                n = a[0][2]; j = T.fresh_k(); T.ranges[j] = n; src = v()
                an.write(st, lv, T.tab(j, sel(src, j, ek), n)); return ('iter', lv, n)
            n = sub(a[1][2], a[0][2])
            if a[0][1] == lv and a[1][1] == lv:
                an.write(st, lv, T.erange(v(), a[0][2], n)); return ('iter', lv, a[0][2])
        an.note('erase', e); an.write(st, lv, ('opq', 'erase', e['ln'], 'O')); return ('opq', 'it', e['ln'], 'O')
    if name == 'insert':
        a = [an.val(x, st, fr) for x in args]
        if len(a) == 2 and a[0][0] == 'iter' and a[1][0] != 'iter':
            old = v()
            if a[0][2] == an.size_of(old): an.write(st, lv, ('app', old, a[1]))
            else: an.write(st, lv, ('opq', 'insert', (old, a[0][2], a[1]), 'O'))
            return ('iter', lv, a[0][2])
        if len(a) == 3 and a[0][0] == 'iter':
            old = v()
            if a[0][2] == an.size_of(old):
                if a[1][0] == 'iter':
                    src = an.read(st, ('L', a[1][1][1], a[1][1][2])); n = sub(a[2][2], a[1][2])
                    j = T.fresh_k(); T.ranges[j] = n
                    an.write(st, lv, T.cat(old, T.tab(j, sel(src, add(a[1][2], j), ek), n)))
                else:
                    # grow with copies of one value: same as resize(n, value)
                    an.write(st, lv, ('resz', old, add(an.size_of(old), a[1]), a[2]))
                return ('iter', lv, a[0][2])
        an.note('insert', e); an.write(st, lv, ('opq', 'insert', e['ln'], 'O')); return ('opq', 'it', e['ln'], 'O')
    if name in ('capacity', 'max_size'): return ('call', name, (v(),), 'U')
    if name == 'get_allocator': return ('undef', 'alloc')
    if name.startswith('~'): return ('undef', 'void')
    if name == 'data': return ('iter', lv, ZERO)
    an.note('container method ' + name, e)
    return ('opq', name, e['ln'], tcode(e['t']))

def mapop(an, e, st, fr, name, t, lv):
    args = e['args']
    v = lambda: an.read(st, lv)
    if name == 'find':
        k = an.val(args[0], st, fr); return ('iter', lv, k)
    if name in ('end', 'cend'): return ('iter', lv, ('str', '<end>'))
    if name in ('begin', 'cbegin'): return ('iter', lv, ('str', '<begin>'))
    if name in ('operator[]', 'at'): return ('L', lv[1], lv[2] + (('i', an.val(args[0], st, fr)),))
    if name in ('insert', 'emplace'):
        p = an.val(args[0], st, fr) if len(args) == 1 else ('pair', an.val(args[0], st, fr), an.val(args[1], st, fr)) if name == 'emplace' and len(args) == 2 else ('undef', 'pair')
        if p[0] == 'pair':
            m = v(); h = an.simp(has(m, p[1]), st)   # an element that is there is kept
            an.write(st, lv, ite(h, m, upd(m, p[1], p[2])))
            return ('pair', ('iter', lv, p[1]), not_(h))
    if name == 'count' and args: return ite(has(v(), an.val(args[0], st, fr)), ONE, ZERO)
    if name in ('size', 'count'): return ('call', name, tuple([v()] + [an.val(a, st, fr) for a in args]), 'U')
    if name == 'empty': return ('call', name, (v(),), 'B')
    if name == 'clear': an.write(st, lv, ('emptyc',)); return ('undef', 'void')
    if name == 'operator=': an.write(st, lv, an.val(args[0], st, fr)); return lv
    if name.startswith('~'): return ('undef', 'void')
    an.note('map method ' + name, e)
    return ('opq', name, e['ln'], tcode(e['t']))

def iterator(an, e, st, fr, name):
    args = e['args']
    if name in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
        lv = an.any(e['obj'], st, fr)
        if lv[0] != 'L':
            if lv[0] == 'iter' and name in ('operator++', 'operator--'):
                return ('iter', lv[1], add(lv[2], ONE if name.endswith('++') else num(-1)))
            return lv
        if name == 'operator=':
            an.write(st, lv, an.val(args[0], st, fr)); return lv
        v = an.read(st, lv)
        if v[0] == 'ite': v = v  # joined iterators
        d = ONE if name == 'operator++' else num(-1) if name == 'operator--' else (an.val(args[0], st, fr) if name == 'operator+=' else neg(an.val(args[0], st, fr)))
        def bump(x):
            if x[0] == 'iter': return ('iter', x[1], add(x[2], d))
            if x[0] == 'ite': return ite(x[1], bump(x[2]), bump(x[3]))
            return ('opq', 'it', e['ln'], 'O')
        n = bump(v)
        an.write(st, lv, n)
        return v if (name in ('operator++', 'operator--') and len(args) == 1) else lv
    v = an.val(e['obj'], st, fr)
    if v[0] == 'ite' and v[2][0] == 'iter' and v[3][0] == 'iter' and v[2][1] == v[3][1]:
        v = ('iter', v[2][1], ite(v[1], v[2][2], v[3][2]))
    if name in ('operator*', 'operator->') and '_Rb_tree' in e.get('objt', ''):
        an.mapuse.append((e['ln'], present(an, st, v)))
    if name == 'operator*':
        return an.deref(v)
    if name == 'operator->': return ('addr', an.deref(v))
    if name in ('operator+', 'operator-'):
        return an.iterop(name[8:], v, an.val(args[0], st, fr))
    if name in ('operator==', 'operator!='):
        w = an.val(args[0], st, fr)
        r = mapend(an, st, name[8:], v, w)
        return r if r is not None else an.iterop(name[8:], v, w)
        return an.iterop(name[8:], v, an.val(args[0], st, fr))
    if name == 'base': return v
    if name == 'operator[]':
        l = an.deref(an.iterop('+', v, an.val(args[0], st, fr))); return l
    if name.startswith('~'): return ('undef', 'void')
    an.note('iterator method ' + name, e)
    return ('opq', name, e['ln'], tcode(e['t']))

END = ('str', '<end>')
def mapend(an, st, op, a, b):
    """it == map.end()  is  'the key is absent'"""
    if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1] and END in (a[2], b[2]) and op in ('==', '!='):
        k = a[2] if b[2] == END else b[2]
        m = an.read(st, ('L', a[1][1], a[1][2]))
        h = has(m, k) if k != END else FALSE
        return not_(h) if op == '==' else h
    return None

def present(an, st, v):
    """condition under which map iterator v points at an element here"""
    v = an.simp(v, st)
    if v[0] == 'ite': return ite(v[1], present(an, st, v[2]), present(an, st, v[3]))
    if v[0] != 'iter': return ('has', v, ZERO)
    if v[2] == END: return FALSE
    if v[2][0] == 'str': return TRUE
    return an.simp(has(an.read(st, ('L', v[1][1], v[1][2])), v[2]), st)

def has(m, k):
    if m[0] == 'emptyc': return FALSE
    if m[0] == 'upd':
        e = T.idx_eq(m[2], k)
        if e is True: return TRUE
        if e is False: return has(m[1], k)
    if m[0] == 'ite': return ite(m[1], has(m[2], k), has(m[3], k))
    return ('has', m, k)

def probability(an, e, st, fr, name):
    if name == 'operator=' and e['args']:
        lv = _objlv(an, e, st, fr); an.write(st, lv, an.val(e['args'][0], st, fr)); return lv
    lv = None
    v = an.val(e['obj'], st, fr) if not e.get('arrow') else an.read(st, _objlv(an, e, st, fr), 'S')
    if name in ('getValue', 'operator double') or name.startswith('operator double'): return v
    if name in ('operator*', 'operator/', 'operator+', 'operator-') and e['args']:
        return an.binop(name[8:], v, an.val(e['args'][0], st, fr), {'t': 'double', 'lt': 'double', 'rt': 'double'})
    if name in ('operator*=', 'operator/=', 'operator+=', 'operator-='):
        lv = _objlv(an, e, st, fr)
        n = an.binop(name[8:-1], v, an.val(e['args'][0], st, fr), {'t': 'double', 'lt': 'double', 'rt': 'double'})
        an.write(st, lv, n); return lv
    return NotImplemented

def matop(op, a, b):
    ma, mb = ismat(a), ismat(b)
    if op == '*': return mul(a, b)
    if op == '/': return mul(a, inv(b))
    if ma and mb or (not ma and not mb):
        return add(a, b) if op == '+' else sub(a, b)
    if op == '-': b = neg(b)
    if b == ZERO: return a
    if a == ZERO and op == '+': return b
    return ('call', 'adds', (a, b), kind(a) if ma else kind(b))

def ew(kd, v): return v

def matrix(an, e, st, fr, name):
    args = e['args']
    k = tcode(base_type(e['objt']).rstrip('* '))
    if k not in MAT: k = {'Matrix_Wrapper': 'M', 'SymmetricMatrix_Wrapper': 'Y', 'ColumnVector_Wrapper': 'V', 'RowVector_Wrapper': 'R'}.get(short(e['objt']), 'M')
    def ov(): return an.read(st, lv, k)
    lv = _objlv(an, e, st, fr)
    A = lambda i: an.val(args[i], st, fr)
    rt = tcode(e['frt'])
    if name == 'operator()' or name == 'operator[]':
        ix = [A(i) for i in range(len(args))]
        if name == 'operator[]': ix = [add(x, ONE) for x in ix]
        i = ix[0] if len(ix) == 1 else ('ix',) + tuple(ix)
        if rt == 'S': return ('L', lv[1], lv[2] + (('i', i),))
        return ('call', 'rowof', (ov(), i), rt)
    if name == 'operator=':
        v = A(0)
        if not ismat(v) and kind(v) != 'O':
            an.write(st, lv, ('call', 'filled', (shape(ov()), v), k))
        else: an.write(st, lv, v)
        return lv
    if name in ('operator+', 'operator-', 'operator*', 'operator/'):
        if not args: return neg(ov()) if name == 'operator-' else ov()
        return matop(name[8:], ov(), A(0))
    if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        v = A(0)
        an.write(st, lv, matop(name[8:-1], ov(), v)); return lv
    if name == 'operator==': return ('eq', *sorted((ov(), A(0)), key=repr))
    if name == 'transpose': return tr(ov())
    if name == 'inverse': return inv(ov())
    if name == 'determinant': return ('fn', 'det', ov())
    if name == 'convertToSymmetricMatrix':
        o = an.bind(args[0], st, fr); an.write(st, o, ov()); return ZERO
    if name == 'multiply':
        b = A(0); o = an.bind(args[1], st, fr); an.write(st, o, mul(ov(), b)); return ('undef', 'void')
    if name in ('rows', 'columns', 'size', 'capacity'):
        nm = name
        return dims(nm, ov(), k)
    if name == 'resize':
        a = tuple(A(i) for i in range(len(args)))
        n = 2 if k == 'M' else 1
        # a zero-initialised matrix of the new shape when contents are not kept
        an.write(st, lv, ('call', 'resized', (ov(),) + a[:n], k)); return ('undef', 'void')
    if name == 'assign':
        a = (A(0), A(1)); an.write(st, lv, ('call', 'filled', (('call', 'shape', (a[0],), 'O'), a[1]), k)); return ('undef', 'void')
    if name == 'toIdentity':
        an.write(st, lv, ('call', 'ident', (shape(ov()),), k)); return ('undef', 'void')
    if name in ('cholesky_semidefinite', 'SVD'):
        o = []
        v = ov()
        for i, x in enumerate(args):
            l = an.bind(x, st, fr); o.append(l)
        for i, l in enumerate(o):
            an.write(st, l, ('call', '%s:%d' % (name, i), (v,), tcode(args[i]['t'])))
        return ('call', name + ':ok', (v,), 'B')
    if name in ('sub', 'rowCopy', 'columnCopy', 'pseudoinverse', 'vectorAdd'):
        return ('call', name, (ov(),) + tuple(A(i) for i in range(len(args))), rt)
    if name.startswith('~'): return ('undef', 'void')
    if e['f'] in an.p.fns: return NotImplemented
    an.note('matrix method ' + name, e)
    return ('call', name, (ov(),) + tuple(A(i) for i in range(len(args))), rt)

def shape(v):
    while v[0] in ('upd',): v = v[1]
    if v in T.same_shape: return shape(T.same_shape[v])
    if v[0] == 'amap': return shape(v[2])
    if v[0] == 'call' and v[1] in ('blank',): return ('call', 'shape', v[2], 'O')
    if v[0] == 'call' and v[1] == 'resized': return ('call', 'shape', v[2][1:], 'O')
    if v[0] == 'call' and v[1] in ('filled', 'ident'): return v[2][0]
    return ('call', 'shape', (v,), 'O')

def dims(nm, v, k):
    if v in T.same_shape: return dims(nm, T.same_shape[v], k)
    if v in T.size_ax and k in ('V', 'R', 'Y') and not (k == 'V' and nm == 'columns') and not (k == 'R' and nm == 'rows'): return T.size_ax[v]
    if v[0] in ('upd',): return dims(nm, v[1], k)
    if v[0] == 'amap': return dims(nm, v[2], k)
    if v[0] == 'ite': return ite(v[1], dims(nm, v[2], k), dims(nm, v[3], k))
    if nm in ('size', 'capacity'): nm = 'rows' if k in ('V', 'Y') else ('columns' if k == 'R' else nm)
    if k == 'Y' and nm == 'columns': nm = 'rows'
    if k == 'V' and nm == 'columns': return ONE
    if k == 'R' and nm == 'rows': return ONE
    if v[0] == 'call' and v[1] in ('resized',):
        a = v[2][1:]
        if nm == 'rows': return a[0]
        if nm == 'columns': return a[-1]
    if v[0] == 'call' and v[1] == 'blank' and v[2] and kind(v[2][0]) in 'IUS':
        if nm == 'rows': return v[2][0]
        if nm == 'columns' and (len(v[2]) > 1 or k == 'R'): return v[2][0] if k == 'R' else v[2][1]
    if v[0] == 'call' and v[1] == 'filled': 
        s = v[2][0]
        if s[0] == 'call' and s[1] == 'shape' and len(s[2]) >= 1 and not ismat(s[2][0]) and kind(s[2][0]) in 'IUS':
            return s[2][0] if nm == 'rows' else s[2][-1]
        if s[0] == 'call' and s[1] == 'shape' and len(s[2]) == 1: return dims(nm, s[2][0], k)
    if v[0] == 'P' and k in ('V',) and nm == 'rows':
        # a sum of column vectors has the length of any of them
        m = v[2][0][0]
        ms = [f for f in m if ismat(f)]
        if len(ms) == 1 and kind(ms[0]) == 'V': return dims('rows', ms[0], 'V')
        if ms: return ('call', 'rows', (ms[0],), 'U')
    return ('call', nm, (v,), 'U')

def algo(an, e, st, fr, name):
    args = e['args']
    if name in ('max', 'min', 'fmax', 'fmin'):
        a, b = an.val(args[0], st, fr), an.val(args[1], st, fr)
        c = lt(a, b, tcode(args[0]['t']) in 'IU')
        return ite(c, b, a) if name in ('max', 'fmax') else ite(c, a, b)
    if name == 'swap' and len(args) == 2:
        x, y = an.bind(args[0], st, fr), an.bind(args[1], st, fr)
        a, b = an.read(st, x, tcode(args[0]['t'])), an.read(st, y, tcode(args[1]['t']))
        an.write(st, x, b); an.write(st, y, a); return ('undef', 'void')
    if name in ('move', 'forward', 'ref', 'cref', 'addressof', 'get'):
        return an.any(args[0], st, fr)
    if name in ('make_pair',):
        return ('pair', an.val(args[0], st, fr), an.val(args[1], st, fr))
    its = [an.val(a, st, fr) if E.is_iter(a.get('t', '')) else None for a in args]
    def rng(a, b):
        if a and b and a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
            lvc = ('L', a[1][1], a[1][2])
            return lvc, an.read(st, lvc), a[2], sub(b[2], a[2])
        return None
    def ek(a):
        t = a.get('t', '')
        return tcode(E.elem_type(t[t.find(','):].lstrip(', '))) if 'vector<' in t else 'O'
    if name == 'accumulate' and len(args) >= 3:
        r = rng(its[0], its[1])
        if r:
            lvc, v, i0, n = r
            j = T.fresh_k(); T.ranges[j] = n
            x = sel(v, add(i0, j), ek(args[0])); init = an.val(args[2], st, fr)
            if len(args) == 3: return add(init, T.sum_(j, x, n))
            f = an.val(args[3], st, fr)
            if f[0] == 'lam' and an.p.fns.get(f[1]):
                acc = ('sym', ('acc',), kind(init) if kind(init) != 'I' else tcode(e['t']))
                an.kstack.append(j)
                w = st.copy()
                y = inline_lambda(an, an.p.fns[f[1]], f[2], [acc, ('L', a_lv(its[0], j)[1], a_lv(its[0], j)[2])], w, fr)
                an.kstack.pop()
                d = sub(y, acc)
                if not contains(d, acc): return add(init, T.sum_(j, d, n))
        an.note('accumulate', e); return ('opq', 'accumulate', e['ln'], tcode(e['t']))
    if name in ('fill',):
        r = rng(its[0], its[1])
        if r:
            lvc, v, i0, n = r; x = an.val(args[2], st, fr)
            j = T.fresh_k(); T.ranges[j] = n
            an.write(st, lvc, T.amap(j, v, add(i0, j), x, n)); return ('undef', 'void')
    if name in ('copy',):
        r = rng(its[0], its[1])
        if r and its[2] and its[2][0] == 'iter':
            lvc, v, i0, n = r
            j = T.fresh_k(); T.ranges[j] = n
            d = ('L', its[2][1][1], its[2][1][2])
            an.write(st, d, T.amap(j, an.read(st, d), add(its[2][2], j), sel(v, add(i0, j), ek(args[0])), n))
            return ('iter', its[2][1], add(its[2][2], n))
        if r and args[2]['k'] == 'call' and 'inserter' in args[2].get('n', ''):
            pass
    if name in ('for_each', 'transform') and args:
        r = rng(its[0], its[1])
        f = an.val(args[-1], st, fr)
        if r and f[0] == 'lam' and an.p.fns.get(f[1]):
            lvc, v, i0, n = r
            fnl = an.p.fns[f[1]]
            itroot = ('loc', '__alg', an.frames, e['ln']); itlv = ('L', itroot, ())
            an.write(st, itlv, ('iter', lvc, i0))
            outlv = None
            if name == 'transform':
                o = its[2]
                outlv = ('L', ('loc', '__algo', an.frames, e['ln']), ()); an.write(st, outlv, o)
                ins2 = None
            def cnd(x):
                it = an.read(x, itlv); return gt0(sub(add(i0, n), it[2]), True)
            def inc(x):
                for l in [itlv] + ([outlv] if outlv else []):
                    it = an.read(x, l); an.write(x, l, ('iter', it[1], add(it[2], ONE)))
            def enter(x):
                it = an.read(x, itlv)
                y = inline_lambda(an, fnl, f[2], [an.deref(it)], x, fr)
                if outlv:
                    o_ = an.read(x, outlv); an.write(x, an.deref(o_), y)
            out = an.loop({'ln': e['ln'], 'k': 'algo'}, cnd, inc, {'k': 'nop', 'ln': e['ln']}, st, fr, enter)
            st.assign(out)
            return ('undef', 'void')
    if name in ('upper_bound', 'lower_bound') and len(args) == 3:
        r = rng(its[0], its[1])
        if r:
            lvc, v, i0, n = r
            x = an.val(args[2], st, fr); j = T.fresh_k()
            y = sel(v, add(i0, j), ek(args[0]))
            stop = lt(x, y) if name == 'upper_bound' else not_(lt(y, x))
            return ('iter', its[0][1], add(i0, T.until(j, or_(not_(gt0(sub(n, j), True)), stop))))
    if name in ('distance',):
        if its[0] and its[1]: return sub(its[1][2], its[0][2])
    if name == 'advance' and its[0] is not None:
        lv = an.bind(args[0], st, fr); v = an.read(st, lv)
        if v[0] == 'iter': an.write(st, lv, ('iter', v[1], add(v[2], an.val(args[1], st, fr)))); return ('undef', 'void')
    if name in ('next', 'prev') and its[0] is not None and its[0][0] == 'iter':
        d = an.val(args[1], st, fr) if len(args) > 1 else ONE
        return ('iter', its[0][1], add(its[0][2], d) if name == 'next' else sub(its[0][2], d))
    if name in ('begin', 'end') and args and E.is_container(args[0].get('t', '')):
        lv = an.bind(args[0], st, fr)
        return ('iter', lv, ZERO if name == 'begin' else an.size_of(an.read(st, lv)))
    if name in ('isfinite', 'isnan', 'isinf'): return ('call', name, tuple(an.val(a, st, fr) for a in args), 'B')
    if name in ('time', 'rand', 'srand', 'clock'):
        return an.opaque_call(e, st, fr, name, None)
    if name in ('quiet_NaN', 'infinity', 'epsilon', 'max', 'min'): return ('call', name, (), 'S')
    return NotImplemented

def a_lv(it, j): return ('L', it[1][1], it[1][2] + (('i', add(it[2], j)),))
