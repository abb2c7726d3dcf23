"""Gated value analysis.

A single forward pass per analysed function over the type-checked syntax tree.
There is exactly one abstract state per program point: branches are joined with
gated values (gated SSA), calls into the repository are expanded in place (so
extracting or inlining a helper changes nothing), loops are replaced by their
closed form (induction variables, sums, element-wise maps, searches) or, when
no closed form exists, by an opaque value that records what it depends on.
"""
from .terms import *
from . import terms as T
from .program import base_type, short, tcode, strip_targs, AnalysisError
import re

class Unsupported(Exception): pass

MATCLS = {'Matrix', 'SymmetricMatrix', 'ColumnVector', 'RowVector',
          'Matrix_Wrapper', 'SymmetricMatrix_Wrapper', 'ColumnVector_Wrapper', 'RowVector_Wrapper'}
CONTAINERS = ('std::vector<', 'std::list<', 'std::deque<')
MAPS = ('std::map<', 'std::unordered_map<')

def is_container(t): return base_type(t).startswith(CONTAINERS)
def is_map(t): return base_type(t).startswith(MAPS)
def is_iter(t):
    b = base_type(t)
    return '__normal_iterator<' in b[:40] or b.startswith(('std::_List_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_Deque_iterator', 'std::reverse_iterator'))
def is_stream(t): return 'basic_ostream' in t or 'basic_istream' in t or 'std::ostream' in t

def elem_type(t):
    b = base_type(t)
    i = b.find('<'); d = 0; start = i + 1
    for j in range(i, len(b)):
        if b[j] == '<': d += 1
        elif b[j] == '>':
            d -= 1
            if d == 0: return b[start:j].strip()
        elif b[j] == ',' and d == 1: return b[start:j].strip()
    return '?'

def map_val_type(t):
    b = base_type(t)
    i = b.find('<'); d = 0; start = i + 1; parts = []
    for j in range(i, len(b)):
        if b[j] == '<': d += 1
        elif b[j] == '>':
            d -= 1
            if d == 0: parts.append(b[start:j].strip()); break
        elif b[j] == ',' and d == 1: parts.append(b[start:j].strip()); start = j + 1
    return parts[1] if len(parts) > 1 else '?'

class State:
    __slots__ = ('store', 'guard', 'effects', 'types')
    def __init__(self):
        self.store = {}; self.guard = TRUE; self.effects = []; self.types = {}
    def copy(self):
        s = State(); s.store = dict(self.store); s.guard = self.guard; s.effects = list(self.effects); s.types = dict(self.types); return s
    def assign(self, o):
        self.store = o.store; self.guard = o.guard; self.effects = o.effects; self.types = o.types

class Frame:
    def __init__(self, fn, this_lv, cls, n, parent=None):
        self.fn = fn; self.this = this_lv; self.cls = cls; self.n = n; self.env = {}; self.exits = []; self.parent = parent
        self.loops = []

class Exit:
    def __init__(self, kind, st, val=None, ln=0): self.kind = kind; self.st = st; self.val = val; self.ln = ln

class Result:
    """summary of one analysed function"""
    def __init__(self, an, fn, st, val, exits):
        self.an = an; self.fn = fn; self.st = st; self.val = val; self.exits = exits
    def field(self, name, kd='O'):
        return self.an.read(self.st, ('L', ('this',), (('f', name),)), kd)

def parroot(fn, i, step=0):
    return ('par', (fn['params'][i]['name'] or 'arg%d' % i) + "'" * step)

class Analyzer:
    def __init__(self, prog, dyncls=None, opaque=(), size_axioms=None, maxdepth=14, interp=None, inline_only=None, cha=True, pure=(), types=None, unroll=False):
        self.unroll = unroll
        self.p = prog; self.dyn = dyncls; self.opaque = set(opaque); self.frames = 0
        self.size_axioms = dict(size_axioms or {})
        self.maxdepth = maxdepth; self.depth = 0
        self.mapuse = []; self.rndn = 0; self.newn = 0; self.kstack = []
        self.writes = None       # collector of written keys
        self.callstack = []
        self.notes = []          # unsupported constructs met
        self.visited = {}        # function ids analysed
        self.pre = {}            # key -> initial value overrides
        self.interp = interp     # optional hook(an, st, call node, name, obj lv, args) -> value or None
        self.cha_on = cha
        self.retlines = []
        self.pure = set(pure); self.roottypes = dict(types or {})

    # ------------------------------------------------------------ memory
    def note(self, msg, n=None):
        self.notes.append('%s%s' % (msg, ' (line %s)' % n.get('ln') if n else ''))

    def fieldkind(self, key):
        fk = getattr(self.p, '_fk', None)
        if fk is None:
            fk = self.p._fk = {}
            for c in self.p.classes.values():
                for f in c['fields']: fk.setdefault(short(c['name']) + '::' + f['name'], set()).add(tcode(f['t']))
            for k_ in fk: fk[k_] = next(iter(fk[k_])) if len(fk[k_]) == 1 else 'O'
        return fk.get(key, 'O')

    def read_fields(self, st, root, fp, kd):
        v = None
        if kd == 'O':
            if fp: kd = self.fieldkind(fp[-1])
            elif root in st.types and isinstance(st.types[root], str): kd = tcode(st.types[root])
        for i in range(len(fp), -1, -1):
            if (root, fp[:i]) in st.store:
                v = st.store[(root, fp[:i])]
                for f in fp[i:-1]: v = fld(v, f, 'O')
                if i < len(fp): v = fld(v, fp[-1], kd)
                break
        if v is None:
            if (root, fp) in self.pre: v = self.pre[(root, fp)]
            elif root[0] in ('loc', 'tmp', 'new') and not fp:
                v = ('init', (root, fp), kd)
            else:
                v = ('init', (root, fp), kd)
        n = len(fp)
        sub_ = [(k, x) for k, x in st.store.items() if k[0] == root and len(k[1]) > n and k[1][:n] == fp]
        if sub_:
            direct = {}
            for k, x in sorted(sub_, key=lambda kx: len(kx[0][1])):
                v = self._setpath(v, k[1][n:], x)
        return v

    def _setpath(self, v, path, x):
        if len(path) == 1: return setfld(v, path[0], x)
        return setfld(v, path[0], self._setpath(fld(v, path[0], 'O'), path[1:], x))

    def split(self, lv):
        fp = []
        path = lv[2]
        i = 0
        while i < len(path) and path[i][0] == 'f': fp.append(path[i][1]); i += 1
        return lv[1], tuple(fp), path[i:]

    def read(self, st, lv, kd='O'):
        root, fp, rest = self.split(lv)
        v = self.read_fields(st, root, fp, kd if not rest else 'O')
        for j, s in enumerate(rest):
            k = kd if j == len(rest) - 1 else 'O'
            v = fld(v, s[1], k) if s[0] == 'f' else sel(v, s[1], k)
        return v

    def write(self, st, lv, val, kd=None):
        root, fp, rest = self.split(lv)
        if rest:
            base = self.read_fields(st, root, fp, 'O')
            val = self._upd(base, rest, val)
        for k in [k for k in st.store if k[0] == root and len(k[1]) > len(fp) and k[1][:len(fp)] == fp]:
            del st.store[k]
        st.store[(root, fp)] = val
        if self.writes is not None: self.writes.add((root, fp))

    def _upd(self, v, steps, x):
        s = steps[0]
        if len(steps) == 1:
            return setfld(v, s[1], x) if s[0] == 'f' else upd(v, s[1], x)
        if s[0] == 'f': return setfld(v, s[1], self._upd(fld(v, s[1], 'O'), steps[1:], x))
        return upd(v, s[1], self._upd(sel(v, s[1], 'O'), steps[1:], x))

    def size_of(self, v):
        return size(v)

    def deref(self, p):
        if p[0] == 'addr': return p[1]
        if p[0] == 'iter': return ('L', p[1][1], p[1][2] + (('i', p[2]),))
        return ('L', ('ref', p), ())

    def effect(self, st, kind_, data, ln):
        st.effects.append((st.guard, kind_, data, ln))

    # ------------------------------------------------------------ joins
    def merge(self, c, a, b, into):
        """state reached when c chooses between a and b (either may be None)"""
        if a is None and b is None: return None
        if a is None: into.assign(b); return into
        if b is None: into.assign(a); return into
        keys = set(a.store) | set(b.store)
        out = {}
        for k in sorted(keys, key=lambda k: len(k[1])):
            ia, ib = k in a.store, k in b.store
            if k[0][0] in ('loc', 'tmp') and not (ia and ib):
                # only alive on one side
                if not any((k[0], k[1][:i]) in (a.store if not ia else b.store) for i in range(len(k[1]) + 1)):
                    continue
            va = a.store[k] if ia else self.read_fields(a, k[0], k[1], kind(b.store[k]))
            vb = b.store[k] if ib else self.read_fields(b, k[0], k[1], kind(a.store[k]))
            out[k] = ite(c, va, vb)
        # common prefix of effects
        n = 0
        while n < len(a.effects) and n < len(b.effects) and a.effects[n] is b.effects[n]: n += 1
        into.store = out
        into.effects = a.effects[:n] + a.effects[n:] + b.effects[n:]
        g = ite(c, a.guard, b.guard)
        into.guard = or_(a.guard, b.guard) if not self._simple_guard(a, b, c) else self._simple_guard(a, b, c)
        into.types = dict(a.types); into.types.update(b.types)
        return into

    def _simple_guard(self, a, b, c):
        return None

    # ------------------------------------------------------------ driver
    def run(self, fn, cls=None, params=None, this=('L', ('this',), ()), pre=None, start=None, step=0):
        """analyse fn as an entry point, from any state or from the final state of an earlier run"""
        T.size_ax = self.size_axioms
        st = State()
        if start is not None:
            st = start.copy(); st.guard = TRUE
        fr = Frame(fn, this, cls or self.dyn or fn.get('cls'), self._nf()); self.rootfr = fr
        if start is None: self.pre = dict(pre or {})
        if fn.get('cls'): st.types[('this',)] = fr.cls
        st.types.update(self.roottypes)
        for p in fn['params']:
            root = parroot(fn, fn['params'].index(p), step)
            if params and p['name'] in params:
                st.store[(root, ())] = params[p['name']]
            fr.env[p['id']] = (('L', root, ()), p['t'])
            if tcode(p['t']) in MAT: st.types.setdefault(root, base_type(p['t']))
        if fn.get('kind') == 'ctor': self.ctor_inits(fr, st)
        out = self.exec_body(fr, st)
        return self.finish(fr, out)

    def finish(self, fr, out):
        exits = list(fr.exits)
        if out is not None: exits.append(Exit('ret', out, None, fr.fn['ln']))
        st, val = self.join_exits(exits)
        return Result(self, fr.fn, st, val, exits)

    def _nf(self):
        self.frames += 1; return self.frames

    def join_exits(self, exits):
        exits = [e for e in exits if e.kind == 'ret']
        if not exits: return None, None
        cur = exits[-1].st.copy(); val = exits[-1].val
        for e in reversed(exits[:-1]):
            c = e.st.guard
            c = self.relative(c, cur.guard)
            n = State()
            v2 = e.val
            m = self.merge(c, e.st, cur, n)
            val = ite(c, v2, val) if (v2 is not None and val is not None) else (v2 or val)
            cur = m
        return cur, val

    def relative(self, c, other):
        return c

    def exec_body(self, fr, st):
        self.callstack.append(fr.fn['id'])
        self.visited[fr.fn['id']] = fr.fn
        try:
            b = fr.fn.get('body')
            if b is None: return st
            return self.ex(b, st, fr)
        finally:
            self.callstack.pop()

    # ------------------------------------------------------------ statements
    # ex returns the fall-through state or None; other exits are put on frame
    def ex(self, s, st, fr):
        if s is None or st is None: return st
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            self.note('statement ' + s['k'], s); return st
        return m(s, st, fr)

    def s_block(self, s, st, fr):
        for c in s['s']:
            if st is None: break
            st = self.ex(c, st, fr)
        return st

    def s_nop(self, s, st, fr): return st

    def s_expr(self, s, st, fr):
        try:
            self.val(s['e'], st, fr)
        except Dead:
            return None
        return st

    def s_decl(self, s, st, fr):
        for d in s['d']:
            try: self.declare(d, st, fr)
            except Dead: return None
        return st

    def declare(self, d, st, fr):
        t = d['t']
        root = ('loc', d['name'], fr.n, int(d['id']) % 1000003)
        lv = ('L', root, ())
        if t.rstrip().endswith('&'):
            b = self.bind(d['init'], st, fr) if d.get('init') else lv
            if d.get('static'):           # bound once, by whatever call came first
                b = lv; self.write(st, lv, ('init', (('static', fr.fn.get('n') or '', d['name']), ()), tcode(t)))
            fr.env[d['id']] = (b, t); return
        fr.env[d['id']] = (lv, t)
        st.types[root] = base_type(t)
        if d.get('static'): st.types[('staticlocal', root)] = True
        self.init_obj(lv, t, d.get('init'), st, fr, d['name'])
        if d.get('static') and (d.get('init') or tcode(t) in ('S', 'I', 'U', 'B')):
            # initialised once, by whatever call came first, and kept between calls
            v = self.read(st, lv)
            if not (v[0] in ('n', 'T', 'F') and 'const' in t.split()):
                self.write(st, lv, ('init', (('static', fr.fn.get('n') or '', d['name']), ()), tcode(t)))

    def init_obj(self, lv, t, init, st, fr, name=''):
        b = base_type(t)
        if init is None:
            self.write(st, lv, ('undef', name)); return
        if init['k'] == 'construct':
            self.construct(init, lv, st, fr); return
        if init['k'] == 'initlist':
            if is_container(t) or '[' in b:
                v = ('emptyc',)
                for e in init['e']: v = ('app', v, self.val(e, st, fr))
                self.write(st, lv, v); return
            if len(init['e']) == 1: self.write(st, lv, self.val(init['e'][0], st, fr)); return
            self.write(st, lv, ('opq', 'initlist', tuple(self.val(e, st, fr) for e in init['e']), tcode(t))); return
        self.write(st, lv, self.val(init, st, fr))

    def s_return(self, s, st, fr):
        v = None
        if s.get('e'):
            try:
                if fr.fn.get('rref'):
                    lv = self.bind(s['e'], st, fr); v = ('addr', lv)
                else: v = self.val(s['e'], st, fr)
            except Dead: return None
        fr.exits.append(Exit('ret', st, v, s['ln']))
        return None

    def s_break(self, s, st, fr):
        fr.loops[-1].append(('break', st)); return None
    def s_continue(self, s, st, fr):
        # belongs to innermost loop, skipping switch frames
        for l in reversed(fr.loops):
            if l and l[0] == 'switch': continue
            l.append(('continue', st)); return None
        return None

    def s_if(self, s, st, fr):
        if s.get('init'): st = self.ex(s['init'], st, fr)
        try:
            if s.get('cv'): self.declare(s['cv'], st, fr)
            c = self.cond(s['c'], st, fr)
        except Dead: return None
        return self.branch(c, st, fr, lambda x: self.ex(s['a'], x, fr), lambda x: self.ex(s.get('b'), x, fr) if s.get('b') else x)

    def branch(self, c, st, fr, fa, fb):
        c = self.simp(c, st)
        if c == TRUE: return fa(st)
        if c == FALSE: return fb(st)
        a = st.copy(); a.guard = and_(st.guard, c)
        b = st.copy(); b.guard = and_(st.guard, not_(c))
        # a draw is identified by its position in the random stream, an
        # allocation by its position in the allocation sequence: exclusive
        # branches number theirs from the same position
        n0 = (self.rndn, self.newn)
        ra = fa(a); n1 = (self.rndn, self.newn)
        self.rndn, self.newn = n0
        rb = fb(b)
        self.rndn = max(self.rndn, n1[0]); self.newn = max(self.newn, n1[1])
        if ra is None and rb is None: return None
        if ra is None or rb is None:
            return ra if rb is None else rb
        g0 = st.guard
        ga, gb = ra.guard, rb.guard
        n = State()
        self.merge(c, ra, rb, n)
        if ga == and_(g0, c) and gb == and_(g0, not_(c)): n.guard = g0
        else: n.guard = or_(ga, gb)
        return n

    def simp(self, c, st):
        if st.guard != TRUE: c = assume(c, st.guard, True)
        return c

    def s_switch(self, s, st, fr):
        try: c = self.val(s['c'], st, fr)
        except Dead: return None
        flat = []
        def flatten(x):
            while x is not None and x['k'] in ('case', 'default'):
                if x['k'] == 'case': flat.append(('label', x['v']))
                else: flat.append(('default', None))
                x = x['s']
            if x is not None: flat.append(('stmt', x))
        body = s['body']
        for x in (body['s'] if body['k'] == 'block' else [body]): flatten(x)
        frame = ['switch']
        fr.loops.append(frame)
        outs = []   # (guard cond, state)
        labels = [i for i, f in enumerate(flat) if f[0] != 'stmt']
        def run_from(i, x):
            for f in flat[i:]:
                if x is None: return None
                if f[0] == 'stmt': x = self.ex(f[1], x, fr)
            return x
        def go(ls, x):
            # decision chain over case labels, default last
            if not ls:
                d = [i for i in labels if flat[i][0] == 'default']
                r = run_from(d[0], x) if d else x
                return self.absorb(frame, r, x)
            i = ls[0]
            v = self.val(flat[i][1], x, fr)
            cc = eq(c, v)
            return self.branch(cc, x, fr, lambda y: self.absorb(frame, run_from(i, y), y), lambda y: go(ls[1:], y))
        try:
            r = go([i for i in labels if flat[i][0] == 'label'], st)
        finally:
            fr.loops.pop()
        return r

    def absorb(self, frame, r, at):
        """merge break-exits collected in frame with the fall-through state r"""
        brs = [x[1] for x in frame[1:] if x[0] == 'break']
        del frame[1:]
        for b in brs:
            if r is None: r = b
            else:
                n = State(); g = self.relguard(b.guard, at.guard)
                self.merge(g, b, r, n); n.guard = or_(b.guard, r.guard); r = n
        return r

    def relguard(self, g, base):
        return assume(g, base, True) if base != TRUE else g

    def s_unkst(self, s, st, fr): self.note('statement ' + s.get('cls', '?'), s); return st
    def s_try(self, s, st, fr): self.note('try', s); return self.ex(s['body'], st, fr)
    def s_case(self, s, st, fr): return self.ex(s['s'], st, fr)
    def s_default(self, s, st, fr): return self.ex(s['s'], st, fr)

    # ------------------------------------------------------------ loops
    def s_for(self, s, st, fr):
        st = self.ex(s['init'], st, fr) if s.get('init') else st
        if st is None: return None
        return self.loop(s, s.get('c'), s.get('inc'), s['body'], st, fr)
    def s_while(self, s, st, fr):
        return self.loop(s, s['c'], None, s['body'], st, fr)
    def s_do(self, s, st, fr):
        fr.loops.append([])
        st2 = self.ex(s['body'], st, fr)
        l = fr.loops.pop()
        if any(x[0] in ('break', 'continue') for x in l): self.note('break in do-while', s)
        if st2 is None: return None
        return self.loop(s, s['c'], None, s['body'], st2, fr)
    def s_rangefor(self, s, st, fr):
        lv = self.bind(s['range'], st, fr)
        itroot = ('loc', '__range', fr.n, s['ln'])
        itlv = ('L', itroot, ())
        self.write(st, itlv, ('iter', lv, ZERO))
        v = s['v']
        def enter(x):
            it = self.read(x, itlv)
            e = self.deref(it)
            if v['t'].rstrip().endswith('&'): fr.env[v['id']] = (e, v['t'])
            else:
                l = ('L', ('loc', v['name'], fr.n, int(v['id']) % 1000003), ())
                fr.env[v['id']] = (l, v['t'])
                self.write(x, l, self.read(x, e, tcode(v['t'])))
        def cnd(x):
            it = self.read(x, itlv)
            return gt0(sub(self.size_of(self.read(x, lv)), it[2]), True) if it[0] == 'iter' else ('opq', 'range', 'B')
        def inc(x):
            it = self.read(x, itlv)
            self.write(x, itlv, ('iter', it[1], add(it[2], ONE)))
        return self.loop(s, cnd, inc, s['body'], st, fr, enter)

    def loop(self, s, c, inc, body, st, fr, enter=None):
        lid = fresh()
        k = ('k', lid)
        def fc(x):
            if c is None: return TRUE
            return c(x) if callable(c) else self.cond(c, x, fr)
        def finc(x):
            if inc is None: return
            if callable(inc): inc(x)
            else: self.val(inc, x, fr)
        r = self.unrolled(fc, finc, body, st, fr, enter)
        if r is not False: return r
        W = set(); noshape = set()
        saved_notes = list(self.notes)
        savedrnd, savednew, savedframes = self.rndn, self.newn, self.frames
        for it in range(12):
            self.notes = list(saved_notes)
            self.rndn, self.newn, self.frames = savedrnd, savednew, savedframes
            ow = self.writes; self.writes = set()
            pre = st.copy(); pre.effects = []
            mus = {}
            for key in sorted(W, key=lambda q: (len(q[1]), repr(q))):
                v0 = self.read_fields(st, key[0], key[1], 'O') if key in st.store or key[0][0] not in ('loc', 'tmp', 'new') else None
                if v0 is None: continue
                m = self.mu(lid, key, v0)
                mus[key] = (v0, m)
                if key not in noshape and m[0] == 'mu' and kind(v0) in MAT + ('O',): T.same_shape[m] = v0
                else: T.same_shape.pop(m, None)
            for key, (v0, m) in mus.items():
                pre.store[key] = m
            nx = len(fr.exits)
            self.kstack.append(k)
            fr.loops.append([])
            try:
                header = pre
                # a fresh symbol stands for "the k-th iteration"; guards restart
                outer_guard = header.guard
                header.guard = TRUE
                eff0 = header.effects; 
                cterm = fc(header)
                bst = header.copy(); bst.guard = cterm if not self._volatile(cterm) else cterm
                if enter: enter(bst)
                end = self.ex(body, bst, fr)
                jumps = fr.loops[-1]
                conts = [x[1] for x in jumps if x[0] == 'continue']
                breaks = [x[1] for x in jumps if x[0] == 'break']
                for cs in conts:
                    if end is None: end = cs
                    else:
                        n = State(); self.merge(cs.guard, cs, end, n); n.guard = or_(cs.guard, end.guard); end = n
                if end is not None:
                    finc(end)
            finally:
                fr.loops.pop(); self.kstack.pop()
                newW = self.writes; self.writes = ow
            exits = fr.exits[nx:]; del fr.exits[nx:]
            if not newW <= W:
                W |= newW; continue
            bad = False
            for key, (v0, m) in mus.items():
                if m not in T.same_shape: continue
                for x in ([end] if end is not None else []):
                    if not self.shape_kept(v0, m, self.read_fields(x, key[0], key[1], kind(v0))):
                        noshape.add(key); bad = True
            if not bad: break
        if self.writes is not None: self.writes |= W
        return self.solve(s, lid, k, st, header, cterm, end, exits, breaks, mus, W, fr)

    def unrolled(self, fc, finc, body, st, fr, enter):
        """execute the loop iteration by iteration when the trip count is a
        small constant (or, with the option unroll, bounded by one); False if not"""
        class Bail(Exception): pass
        sn, sr, snw, sf = list(self.notes), self.rndn, self.newn, self.frames
        nx = len(fr.exits); sw = set(self.writes) if self.writes is not None else None
        if enter is not None: return False
        def go(x, n):
            c = fc(x)
            if c == FALSE: return x
            if n == 0 and c != TRUE: raise Bail
            if n >= 8: raise Bail
            def bodyf(y):
                fr.loops.append([])
                try: e = self.ex(body, y, fr)
                finally: l = fr.loops.pop()
                if l: raise Bail
                if e is None: return None
                finc(e)
                return go(e, n + 1)
            if c == TRUE: return bodyf(x)
            if not self.unroll: raise Bail
            return self.branch(c, x, fr, bodyf, lambda y: y)
        try:
            t = st.copy()
            if fc(t) != TRUE: raise Bail
            self.notes, self.rndn, self.newn, self.frames = list(sn), sr, snw, sf
            return go(st.copy(), 0)
        except Bail:
            self.notes, self.rndn, self.newn, self.frames = sn, sr, snw, sf
            del fr.exits[nx:]
            if sw is not None: self.writes = sw
            return False

    def _slot(self, nv, m, lid, k):
        """c when nv is m with nothing but slot c (fixed during the loop) changed"""
        if nv[0] == 'upd':
            if nv[1] != m: 
                c = self._slot(nv[1], m, lid, k)
                return c if c == nv[2] else None
            return None if self._has_mu(nv[2], lid) or contains(nv[2], k) or nv[2][0] == 'ix' else nv[2]
        if nv[0] == 'ite':
            a, b = [None if x == m else self._slot(x, m, lid, k) or 0 for x in nv[2:4]]
            if a == 0 or b == 0: return None
            return a if b is None or a == b else b if a is None else None
        return None
    def _slotkind(self, nv, c):
        if nv[0] == 'upd': return kind(nv[3])
        return next((x for x in (self._slotkind(y, c) for y in nv[2:4] if y[0] in ('upd', 'ite')) if x), 'O')

    def shape_kept(self, v0, m, nv):
        if nv == m: return True
        from . import stdlib
        if kind(v0) in MAT:
            return all(stdlib.dims(n, nv, kind(v0)) == stdlib.dims(n, v0, kind(v0)) for n in ('rows', 'columns'))
        if nv[0] in ('rec', 'eff', 'out', 'call', 'opq'): return False
        return T.size(nv) == T.size(v0)

    def _volatile(self, c): return False

    def mu(self, lid, key, v0):
        if v0[0] == 'iter': return ('iter', v0[1], ('mu', (lid, key), 'U'))
        return ('mu', (lid, key), kind(v0))

    def solve(self, s, lid, k, st, header, cterm, end, exits, breaks, mus, W, fr):
        """closed forms"""
        if end is None and not breaks and not exits:
            # body never completes
            st = st.copy(); self.note('loop body never completes', s); return st
        nextv = {}
        if end is not None:
            for key in mus: nextv[key] = self.read_fields(end, key[0], key[1], kind(mus[key][0]))
        else:
            for key in mus: nextv[key] = mus[key][1]
        closed = {}     # mu term -> value at start of iteration k
        final = {}      # key -> function(N) giving value after N iterations
        isidx = {}
        merged = {}
        # a container of which only one fixed slot changes: the slot is the variable
        virt = set()
        for key in list(mus):
            v0, m = mus[key]
            if m[0] != 'mu' or kind(v0) in MAT: continue
            c = self._slot(nextv[key], m, lid, k)
            if c is None: continue
            kd = self._slotkind(nextv[key], c)
            vk = (key[0], key[1] + (('slot', c),)); m2 = ('mu', (lid, vk), kd); w0 = T.sel(v0, c, kd)
            mp = {m: T.upd(v0, c, m2)}
            T.same_shape[m2] = w0
            nv = subst(T.sel(nextv[key], c, kd), mp)
            if kd not in MAT + ('O',) or not self.shape_kept(w0, m2, nv): T.same_shape.pop(m2, None); nv = subst(T.sel(nextv[key], c, kd), mp)
            del nextv[key]
            merged[m] = closed[m] = mp[m]
            final[key] = (lambda N, v0=v0, c=c, vk=vk: T.upd(v0, c, final[vk](N)))
            mus[vk] = (w0, m2); nextv[vk] = nv; virt.add(vk)
        if virt: nextv = {q: subst(v, closed) for q, v in nextv.items()}
        pend = dict(nextv)
        # a) unchanged / induction
        for key in list(pend):
            v0, m = mus[key]
            nv = pend[key]
            if nv == m:
                closed_term = v0
                msym = m[2] if m[0] == 'iter' else m
                closed[msym] = v0[2] if m[0] == 'iter' else v0
                final[key] = (lambda N, v=v0: v); del pend[key]; continue
            if m[0] == 'iter':
                if nv[0] == 'iter' and nv[1] == m[1]:
                    d = sub(nv[2], m[2])
                    if not self._has_mu(d, lid) and not contains(d, k):
                        closed[m[2]] = add(v0[2], mul(d, k))
                        final[key] = (lambda N, v=v0, d=d: ('iter', v[1], add(v[2], mul(d, N)))); isidx[key] = d
                        del pend[key]
                continue
            if kind(m) in ('S', 'I', 'U') and nv[0] != 'ite':
                d = sub(nv, m)
                if not self._has_mu(d, lid) and not contains(d, k) and d[0] == 'n':
                    closed[m] = add(v0, mul(d, k))
                    final[key] = (lambda N, v=v0, d=d: add(v, mul(d, N))); isidx[key] = d
                    del pend[key]
        sb = lambda t: subst(t, closed)
        cterm = sb(cterm)
        # b) trip count
        brk = FALSE
        for b in breaks: brk = or_(brk, sb(b.guard))
        N = None
        cont = cterm
        ready = not self._has_mu(cterm, lid) and not self._has_mu(brk, lid)
        if brk == FALSE and ready:
            N = self.trip(cterm, k)
        T.ranges[k] = N if N is not None else ('sym', ('trip', lid), 'U')
        if N is not None:
            pend = {key: sb(v) for key, v in pend.items()}
            # conditions implied by being inside the loop
        else:
            pend = {key: sb(v) for key, v in pend.items()}
        # b') variables advancing by the same amount: expressed through one of them
        groups = {}
        for key, nv in pend.items():
            v0, m = mus[key]
            if m[0] == 'iter':
                if not (nv[0] == 'iter' and nv[1] == m[1]): continue
                groups.setdefault(sub(nv[2], m[2]), []).append(key)
            elif kind(m) in ('I', 'U') and nv[0] != 'ite': groups.setdefault(sub(nv, m), []).append(key)
        for d, ks in groups.items():
            if len(ks) < 2 or not self._has_mu(d, lid): continue
            sym = lambda key: mus[key][1][2] if mus[key][1][0] == 'iter' else mus[key][1]
            ini = lambda key: mus[key][0][2] if mus[key][1][0] == 'iter' else mus[key][0]
            inner = self._mus(d, lid)
            rep = next((q for q in ks if mus[q][1][0] != 'iter'), ks[0])
            for o in ks:
                if o == rep: continue
                df = sub(ini(o), ini(rep))
                merged[sym(o)] = closed[sym(o)] = add(sym(rep), df)
                def fo(N, o=o, df=df, rep=rep):
                    v = final[rep](N); v = v[2] if v[0] == 'iter' else v
                    return ('iter', mus[o][0][1], add(v, df)) if mus[o][1][0] == 'iter' else add(v, df)
                final[o] = fo
                del pend[o]
        # c) remaining keys
        order_guard = 0
        while pend and order_guard < 60:
            order_guard += 1
            progress = False
            # elements not yet overwritten still have their entry value
            for key in list(pend):
                v0, m = mus[key]
                nv = pend[key]
                if m[0] == 'iter' or nv[0] != 'upd' or nv[1] != m or self._has_mu(nv[2], lid) or nv[2][0] == 'ix': continue
                idx = nv[2]; up = not contains(sub(idx, k), k); dn = not contains(add(idx, k), k)
                if not up and not dn: continue
                mp = {}
                for q in pend:
                    for r in T.leaves(pend[q], lambda x: x[0] == 'sel' and x[1] == m and x[2][0] != 'ix'):
                        d = sub(r[2], idx)
                        if d[0] == 'n' and (d[1] == 0 or (up and d[1] > 0) or (dn and d[1] < 0)): mp[r] = T.sel(v0, r[2], r[3])
                if mp:
                    for q in pend: pend[q] = subst(pend[q], mp)
            for key in list(pend):
                v0, m = mus[key]
                nv = subst(pend[key], closed)
                pend[key] = nv
                msym = m[2] if m[0] == 'iter' else m
                others = self._mus(nv, lid) - {msym}
                if others: continue
                r = self.close_one(key, v0, m, nv, k, lid)
                if r is not None:
                    cl, fi = r
                    closed[msym] = cl; final[key] = fi
                    for q in merged: closed[q] = subst(closed[q], {msym: cl})
                    del pend[key]; progress = True
            if not progress: break
        # d) coupled or unrecognised recurrences: one fold over the tuple of them
        if pend:
            names = {key: 'v%d' % i for i, key in enumerate(pend)}
            msy = lambda key: mus[key][1][2] if mus[key][1][0] == 'iter' else mus[key][1]
            ini = lambda key: mus[key][0][2] if mus[key][1][0] == 'iter' else mus[key][0]
            nx = {}
            okf = True
            for key in pend:
                v = subst(pend[key], closed)
                if mus[key][1][0] == 'iter':
                    if v[0] != 'iter' or v[1] != mus[key][1][1]: okf = False; break
                    v = v[2]
                nx[key] = v
                if self._mus(v, lid) - {msy(q) for q in pend}: okf = False; break
            if okf:
                base = ('call', 'loopstate', (), 'O')
                kds = {key: (kind(msy(key)) if kind(msy(key)) != 'O' else kind(ini(key))) for key in pend}
                init = ('rec', base, tuple(sorted((names[key], ini(key)) for key in pend)))
                def joint(N):
                    j = T.fresh_k(); T.ranges[j] = N
                    acc = T.acc_of(j, 'O')
                    mp = {msy(key): ('fld', acc, names[key], kds[key]) for key in pend}; mp[k] = j
                    body = ('rec', base, tuple(sorted((names[key], subst(nx[key], mp)) for key in pend)))
                    return T.fold(j, body, init, N)
                at = joint(k)
                for key in list(pend):
                    cl = T.fld(at, names[key], kds[key])
                    closed[msy(key)] = cl
                    final[key] = (lambda N, key=key: ('iter', mus[key][0][1], T.fld(joint(N), names[key], kds[key])) if mus[key][1][0] == 'iter' else T.fld(joint(N), names[key], kds[key]))
                for q in merged: closed[q] = subst(closed[q], closed)
                for q in list(closed):
                    if self._has_mu(closed[q], lid): closed[q] = subst(closed[q], closed)
                pend = {}
        if pend:
            deps = set()
            for key, nv in pend.items(): deps |= T.leaves(subst(nv, closed), lambda x: x[0] in ('init', 'call', 'ret', 'rnd') and True)
            for key in pend:
                v0, m = mus[key]
                hv = ('havoc', ('loop', s['ln'], self._keyname(key)), tuple(sorted(deps, key=repr)), kind(v0))
                msym = m[2] if m[0] == 'iter' else m
                closed[msym] = hv
                for q in merged: closed[q] = subst(closed[q], {msym: hv})
                final[key] = (lambda N, hv=hv, m=m, v0=v0: ('iter', v0[1], hv) if m[0] == 'iter' else hv)
                if key[0][0] not in ('loc', 'tmp') : self.note('loop over %s has no closed form' % self._keyname(key), s)
        # trip count that depends on solved values
        if N is None:
            c2 = subst(cterm, closed); b2 = subst(brk, closed)
            stop = or_(not_(c2), b2)
            if not self._has_mu(stop, lid):
                N = self.trip(not_(stop), k) or until(k, stop)
            else:
                N = ('havoc', ('trip', s['ln']), (), 'U')
            for kk in [kk for kk in T.ranges if kk == k]: T.ranges[k] = N
        out = st.copy()
        # e) exits from inside the loop
        anyexit = FALSE
        exit_guards = []
        for e in exits:
            g = subst(e.st.guard, closed)
            exit_guards.append(g); anyexit = or_(anyexit, g)
        fall_guard = st.guard
        if exits:
            some = T.exists(k, anyexit, N)
            for e, g in zip(exits, exit_guards):
                es = State(); es.types = dict(e.st.types)
                fst = T.until(k, anyexit)
                g2 = assume(substk(g, k, fst), substk(anyexit, k, fst), True) if len(exits) > 1 else TRUE
                es.guard = and_(st.guard, and_(some, g2))
                es.store = dict(st.store)
                for kk, v in e.st.store.items():
                    if kk[0][0] in ('loc', 'tmp') and kk not in st.store: continue
                    v1 = subst(v, closed)
                    es.store[kk] = substk(v1, k, fst) if contains(v1, k) else v1
                es.effects = list(st.effects) + [self.wrap_eff(x, k, closed, N) for x in e.st.effects]
                val = subst(e.val, closed) if e.val is not None else None
                if val is not None and contains(val, k): val = substk(val, k, fst)
                fr.exits.append(Exit('ret', es, val, e.ln))
            out.guard = and_(st.guard, not_(some))
        # f) final values
        for key in mus:
            if key not in virt: out.store[key] = final[key](N)
        for key in W:
            if key not in mus and key[0][0] not in ('loc', 'tmp', 'new'):
                out.store[key] = ('havoc', ('loop', s['ln'], self._keyname(key)), (), 'O')
            elif key not in mus and key[0][0] == 'new':
                v = end.store.get(key) if end is not None else None
                if v is not None: out.store[key] = subst(v, closed)
        if breaks:
            # a break leaves during iteration N: fold in what that iteration did
            for b in breaks:
                ch = {}
                for key in mus:
                    if key in virt: continue
                    vb = self.read_fields(b, key[0], key[1], kind(mus[key][0]))
                    if vb != mus[key][1]: ch[key] = vb
                for key, vb in ch.items():
                    g = substk(subst(b.guard, closed), k, N)
                    # value at header of iteration N is final(N); replay the partial body
                    m2 = {}
                    for k2 in mus:
                        mm = mus[k2][1]; ms = mm[2] if mm[0] == 'iter' else mm
                        fv = final[k2](N); m2[ms] = fv[2] if fv[0] == 'iter' else fv
                    v = substk(subst(vb, m2), k, N)
                    # the loop stopped at N either because the condition failed or by this break
                    cN = substk(subst(cterm, closed), k, N)
                    out.store[key] = ite(cN, ite(g, v, final[key](N)), final[key](N)) if len(breaks) > 1 else ite(cN, v, final[key](N))
        src = end if end is not None else (breaks[0] if breaks else header)
        for x in src.effects: out.effects.append(self.wrap_eff(x, k, closed, N, st.guard))
        for b in breaks:
            for x in b.effects:
                if x not in src.effects: out.effects.append(self.wrap_eff(x, k, closed, N, st.guard))
        for kk, t in src.types.items(): out.types.setdefault(kk, t)
        return out

    def wrap_eff(self, x, k, closed, N, g0=TRUE):
        g, kd, data, ln = x[:4]
        return (and_(g0, subst(g, closed)), kd, self._subst_data(data, closed), ln, ('forall', k, N) + tuple(x[4:]))

    def _subst_data(self, d, closed):
        if isinstance(d, tuple) and T.is_term(d) and d[0] in T.ALLOPS: return subst(d, closed)
        if isinstance(d, (tuple, list)): return tuple(self._subst_data(x, closed) for x in d)
        return d

    def _keyname(self, key): return T.showloc((key[0], key[1]))

    def _mus(self, t, lid):
        return T.leaves(t, lambda x: x[0] == 'mu' and len(x) == 3 and isinstance(x[1], tuple) and x[1][0] == lid)
    def _has_mu(self, t, lid): return bool(self._mus(t, lid))

    def trip(self, c, k):
        """N such that c(k) holds exactly for k < N, when c is affine in k"""
        if c == FALSE: return ZERO
        if c[0] == 'ite' and not contains(c[1], k) and c[2] != FALSE and c[3] != FALSE:
            a, b = self.trip(c[2], k), self.trip(c[3], k)
            return None if a is None or b is None else ite(c[1], a, b)
        if c[0] == 'not' and c[1][0] == 'ite':
            return self.trip(ite(c[1][1], not_(c[1][2]), not_(c[1][3])), k)
        if c[0] == 'not' and c[1][0] == 'eq0':
            d = c[1][1]
            it = T.items(d); ck = it.get((k,), 0)
            rest = add(d, mul(num(-ck), k))
            if abs(ck) == 1 and not contains(rest, k):
                return rest if ck == -1 else neg(rest)
        if c[0] == 'gt0':
            d = c[1]
            it = T.items(d); ck = it.get((k,), 0)
            rest = add(d, mul(num(-ck), k))
            if ck == -1 and not contains(rest, k): return rest
        if c[0] == 'not' and c[1][0] == 'eq':
            a, b = c[1][1], c[1][2]
            if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
                return self.trip(not_(eq(a[2], b[2])), k)
        return None

    def close_one(self, key, v0, m, nv, k, lid):
        """(value at start of iteration k, N -> value after N iterations)"""
        if m[0] == 'iter':
            if not self._has_mu(nv, lid) and nv[0] == 'iter':
                return None
            return None
        if not self._has_mu(nv, lid):
            e = nv
            prev = substk(e, k, sub(k, ONE)) if contains(e, k) else e
            at = ite(gt0(k, True), prev, v0) if True else None
            return at, (lambda N: T.last(k, e, N, v0))
        kd = kind(m)
        # additive / multiplicative accumulators
        if kd in ('S', 'I', 'U', 'M', 'V', 'R', 'Y') and nv[0] != 'ite':
            it = T.items(nv)
            d = sub(nv, m)
            if not self._has_mu(d, lid):
                j = T.fresh_k()
                def part(N, d=d): 
                    jj = T.fresh_k(); T.ranges[jj] = N
                    return add(v0, T.sum_(jj, substk(d, k, jj), N))
                return part(k), part
            if kd in ('S', 'I', 'U') and it and all(m in mono for mono in it):
                q = mkdiv(nv, m)
                if q is not None and not self._has_mu(q, lid):
                    def partp(N, q=q):
                        jj = T.fresh_k(); T.ranges[jj] = N
                        return mul(v0, T.prod_(jj, substk(q, k, jj), N))
                    return partp(k), partp
        # conditional accumulation  ite(c, m + e, m)
        if nv[0] == 'ite' and kd in ('S', 'I', 'U', 'M', 'V', 'R', 'Y'):
            if not self._has_mu(nv[1], lid):
                d = sub_gated(nv, m)
                if d is not None and not self._has_mu(d, lid):
                    def partc(N, d=d):
                        jj = T.fresh_k(); T.ranges[jj] = N
                        return add(v0, T.sum_(jj, substk(d, k, jj), N))
                    return partc(k), partc
        # boolean conjunction / disjunction
        if kd == 'B':
            if nv[0] == 'ite' and nv[1] == m and nv[3] == FALSE and not self._has_mu(nv[2], lid):
                e = nv[2]
                f = lambda N: and_(v0, T.all_((jj := T.fresh_k(N)), substk(e, k, jj), N))
                return f(k), f
            if nv[0] == 'ite' and nv[3] == FALSE and not self._has_mu(nv[1], lid) and nv[2] == m:
                e = nv[1]
                f = lambda N: and_(v0, T.all_((jj := T.fresh_k(N)), substk(e, k, jj), N))
                return f(k), f
            # c ? x : m  with x constant  (found-flags)
            e = T.assume(nv, m, True); e2 = T.assume(nv, m, False)
            if e2 == FALSE and not self._has_mu(e, lid):
                f = lambda N: and_(v0, T.all_((jj := T.fresh_k(N)), substk(e, k, jj), N))
                return f(k), f
            if e == TRUE and not self._has_mu(e2, lid):
                f = lambda N: or_(v0, T.exists((jj := T.fresh_k(N)), substk(e2, k, jj), N))
                return f(k), f
        # arrays
        r = self.close_array(v0, m, nv, k, lid)
        if r is not None: return r
        # append
        if nv[0] == 'app' and nv[1] == m and not self._has_mu(nv[2], lid):
            e = nv[2]
            f = lambda N: T.cat(v0, T.tab((jj := T.fresh_k()), substk(e, k, jj), N))
            T.ranges.setdefault(k, None)
            return f(k), f
        if nv[0] == 'erase' and nv[1] == m and nv[2][0] == 'n':
            f = lambda N: T.erange(v0, nv[2], N)
            return f(k), f
        # record whose single fields recur
        if nv[0] == 'rec' and nv[1] == m: 
            fs = {}
            for f_, v in nv[2]:
                own = T.fld(m, f_, kind(v))
                x = subst(v, {own: ('mu', (lid, ('F', f_)), kind(v))})
                if self._mus(x, lid) - {('mu', (lid, ('F', f_)), kind(v))}: return None
                q = self.close_one(('F', f_), T.fld(v0, f_, kind(v)), ('mu', (lid, ('F', f_)), kind(v)), x, k, lid)
                if q is None: return None
                fs[f_] = q
            return T.setflds(v0, [(f_, q[0]) for f_, q in fs.items()]), (lambda N: T.setflds(v0, [(f_, q[1](N)) for f_, q in fs.items()]))
        # general fold over one variable
        body = subst(nv, {m: T.acc_of(k, kd)})
        def ff(N): return T.fold(k, body, v0, N)
        j = T.fresh_k()
        return T.fold(j, subst(nv, {m: T.acc_of(j, kd), k: j}), v0, k), (lambda N: T.fold((jj := T.fresh_k()), subst(nv, {m: T.acc_of(jj, kd), k: jj}), v0, N))

    def close_array(self, v0, m, nv, k, lid):
        ups = []
        def peel(v):
            """v as a chain of single-element updates of m -> list of (idx,val)"""
            if v == m: return []
            if v[0] == 'upd':
                p = peel(v[1])
                return None if p is None else p + [(v[2], v[3])]
            if v[0] == 'ite':
                a, b = peel(v[2]), peel(v[3])
                if a is None or b is None or len(a) > 1 or len(b) > 1: return None
                idx = (a or b)[0][0]
                if a and b and a[0][0] != b[0][0]: return None
                if self._has_mu(v[1], lid): pass
                va = a[0][1] if a else T.sel(m, idx, kind(b[0][1]))
                vb = b[0][1] if b else T.sel(m, idx, kind(a[0][1]))
                return [(idx, ite(v[1], va, vb))]
            return None
        ups = peel(nv)
        if not ups or len(ups) != 1: return None
        idx, val = ups[0]
        if self._has_mu(idx, lid): return None
        kd = kind(val)
        if idx[0] == 'ix':
            return None if self._has_mu(val, lid) else (None if True else None)
        off = sub(idx, k)
        rev = False
        if contains(off, k):
            off2 = add(idx, k)
            if contains(off2, k): return None
            rev = True
        # element reads of the array itself inside val
        own = T.leaves(val, lambda x: x[0] == 'sel' and x[1] == m)
        sub_map = {}
        prevs = None
        for r in own:
            d = sub(r[2], idx) if r[2][0] != 'ix' else None
            if d == ZERO: sub_map[r] = T.sel(v0, idx, r[3])
            elif d is not None and d[0] == 'n' and ((not rev and d[1] == -1) or (rev and d[1] == 1)): prevs = r
            elif d is not None and d[0] == 'n' and ((not rev and d[1] > 0) or (rev and d[1] < 0)): sub_map[r] = T.sel(v0, r[2], r[3])
            else: return None
        val = subst(val, sub_map)
        # length of the array itself
        val = subst(val, {T.size(m): T.size(v0)})
        if prevs is not None:
            # A[i] = A[i-1] + e  -> prefix sums
            e = sub(val, prevs)
            if self._has_mu(e, lid): 
                # product scan  A[i] = A[i-1]*e
                q = mkdiv(val, prevs)
                first = substk(prevs[2], k, ZERO)
                if q is not None and not self._has_mu(q, lid):
                    base = T.sel(v0, first, prevs[3])
                    def elemp(n): 
                        jj = T.fresh_k(); T.ranges[jj] = n
                        return mul(base, T.prod_(jj, substk(q, k, jj), n))
                    f = lambda N: T.amap((jj := T.fresh_k()), v0, substk(idx, k, jj), elemp(add(jj, ONE)), N)
                    return f(k), f
                return None
            first = substk(prevs[2], k, ZERO)
            base = T.sel(v0, first, prevs[3])
            def elem(n):
                jj = T.fresh_k(); T.ranges[jj] = n
                return add(base, T.sum_(jj, substk(e, k, jj), n))
            f = lambda N: T.amap((jj := T.fresh_k()), v0, substk(idx, k, jj), elem(add(jj, ONE)), N)
            return f(k), f
        if self._has_mu(val, lid): return None
        f = lambda N: T.amap((jj := T.fresh_k()), v0, substk(idx, k, jj), substk(val, k, jj), N)
        return f(k), f

    # ------------------------------------------------------------ expressions
    def cond(self, e, st, fr):
        v = self.val(e, st, fr)
        return self.tobool(v)

    def tobool(self, v):
        if v[0] in ('T', 'F') or kind(v) == 'B': return v
        if v[0] == 'n': return TRUE if v[1] != 0 else FALSE
        if kind(v) in ('S', 'I', 'U'): return not_(eq(v, ZERO))
        if v[0] == 'ite': return ite(v[1], self.tobool(v[2]), self.tobool(v[3]))
        return not_(eq(v, NULL))

    def bind(self, e, st, fr):
        """lvalue designated by e (a temporary is materialised for rvalues)"""
        r = self.any(e, st, fr)
        if r[0] == 'L': return r
        root = ('tmp', fresh())
        lv = ('L', root, ())
        st.types[root] = base_type(e.get('t', '?'))
        self.write(st, lv, r)
        return lv

    def val(self, e, st, fr):
        r = self.any(e, st, fr)
        if r is None: return ('undef', 'void')
        if r[0] == 'L':
            return self.read(st, r, tcode(e.get('t', '?')))
        return r

    def any(self, e, st, fr):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            self.note('expression ' + e['k'], e)
            return ('opq', e['k'], e.get('ln', 0), tcode(e.get('t', '?')))
        return m(e, st, fr)

    def e_lit(self, e, st, fr):
        if e['t'] == 'bool': return TRUE if e['v'] else FALSE
        return num(e['v'])
    def e_flit(self, e, st, fr): return ('n', Fraction(e['v']).limit_denominator(10**15) if 'e' not in e['v'].lower() else Fraction(e['v']))
    def e_blit(self, e, st, fr): return TRUE if e['v'] else FALSE
    def e_str(self, e, st, fr): return ('str', e.get('v', ''))
    def e_null(self, e, st, fr): return NULL
    def e_this(self, e, st, fr): return ('addr', fr.this)
    def e_sizeof(self, e, st, fr): return ('opq', 'sizeof', e['ln'], 'U')
    def e_throw(self, e, st, fr): raise Dead()
    def e_unk(self, e, st, fr):
        if e.get('recovery'): raise Unsupported('code that does not type-check')
        if e.get('cls') == 'CXXPseudoDestructorExpr': return ('undef', 'void')
        self.note('expression ' + str(e.get('cls', '?')), e)
        for c in e.get('ch', []): self.val(c, st, fr)
        return ('opq', 'unk', e['ln'], tcode(e['t']))
    def e_memfn(self, e, st, fr): return ('opq', 'memfn', e['name'], 'O')
    def e_icall(self, e, st, fr):
        self.note('indirect call', e)
        return ('opq', 'icall', e['ln'], tcode(e['t']))
    def e_lambda(self, e, st, fr):
        return ('lam', e['f'], fr)
    def e_initlist(self, e, st, fr):
        if len(e['e']) == 1: return self.val(e['e'][0], st, fr)
        v = ('emptyc',)
        for x in e['e']: v = ('app', v, self.val(x, st, fr))
        return v

    def e_ref(self, e, st, fr):
        dk = e['dk']
        if dk == 'enum': return num(e['v'])
        if dk == 'func': return ('fnref', e['f'], e['qn'])
        f = fr
        while f is not None:
            if e['id'] in f.env: return f.env[e['id']][0]
            f = f.parent
        if dk in ('global', 'other'):
            if e.get('init') is not None: return self.val(e['init'], st, fr)
            return ('L', ('glob', e.get('qn', e['name'])), ())
        return ('L', ('glob', 'unbound:' + e['name']), ())

    def e_member(self, e, st, fr):
        b = e['b']
        key = short(e['owner']) + '::' + e['name']
        if e['arrow']: lv = self.deref(self.val(b, st, fr))
        else:
            r = self.any(b, st, fr)
            if r[0] != 'L':
                lvb = ('L', ('tmp', fresh()), ()); self.write(st, lvb, r); lv = lvb
            else: lv = r
        # std::pair of a map iterator
        if base_type(e['owner']).startswith('std::pair<') or short(e['owner']) == 'pair':
            if e['name'] == 'second' and lv[2] and lv[2][-1][0] == 'i': 
                ft = e.get('ft', '')
                root, fp, rest = self.split(lv)
                v = self.read(st, lv)
                if v[0] == 'pair': return v[2]
                r = lv
            elif e['name'] == 'first' and lv[2] and lv[2][-1][0] == 'i':
                v = self.read(st, lv)
                if v[0] == 'pair': return v[1]
                return lv[2][-1][1]
            else:
                v = self.read(st, lv)
                if v[0] == 'pair': return v[1 if e['name'] == 'first' else 2]
                r = ('L', lv[1], lv[2] + (('f', 'pair::' + e['name']),))
        else:
            r = ('L', lv[1], lv[2] + (('f', key),))
        if e.get('ft', '').rstrip().endswith('&'):
            v = self.read(st, r)
            return self.deref(v)
        return r

    def e_index(self, e, st, fr):
        b = self.val(e['b'], st, fr) if e['b']['t'].rstrip().endswith('*') else self.any(e['b'], st, fr)
        i = self.val(e['i'], st, fr)
        if b[0] == 'L':
            t = e['b'].get('dt') or e['b'].get('ft') or e['b'].get('t', '')
            if t.rstrip().endswith('*'): b = self.read(st, b)
            else: return ('L', b[1], b[2] + (('i', i),))
        if b[0] == 'iter': return ('L', b[1][1], b[1][2] + (('i', add(b[2], i)),))
        lv = self.deref(b)
        return ('L', lv[1], lv[2] + (('i', i),))

    def e_un(self, e, st, fr):
        op = e['op']
        if op == '*':
            v = self.val(e['e'], st, fr)
            lv = self.deref(v)
            if v[0] == 'addr' and v[1][1][0] == 'newarr': lv = ('L', lv[1], lv[2] + (('i', ZERO),))
            return lv
        if op == '&': return ('addr', self.bind(e['e'], st, fr))
        if op in ('++', '--'):
            lv = self.any(e['e'], st, fr)
            if lv[0] != 'L': return lv
            v = self.read(st, lv, tcode(e['e']['t']))
            d = ONE if op == '++' else num(-1)
            n = ('iter', v[1], add(v[2], d)) if v[0] == 'iter' else add(v, d)
            self.write(st, lv, n)
            return v if e['post'] else lv
        v = self.val(e['e'], st, fr)
        if op == '-': return neg(v)
        if op == '+': return v
        if op == '!': return not_(self.tobool(v))
        return ('fn', 'un' + op, v)

    def e_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(e['l'], st, fr)
            a = self.simp(a, st)
            if op == '&&':
                if a == FALSE: return FALSE
                r = {}
                def ra(x): r['v'] = self.cond(e['r'], x, fr); return x
                try:
                    out = self.branch(a, st, fr, ra, lambda x: x)
                except Dead: raise
                if out is None: raise Dead()
                if out is not st: st.assign(out)
                return and_(a, r.get('v', FALSE))
            if a == TRUE: return TRUE
            r = {}
            def rb(x): r['v'] = self.cond(e['r'], x, fr); return x
            out = self.branch(a, st, fr, lambda x: x, rb)
            if out is None: raise Dead()
            if out is not st: st.assign(out)
            return or_(a, r.get('v', TRUE))
        if op == ',':
            self.val(e['l'], st, fr); return self.any(e['r'], st, fr)
        a = self.val(e['l'], st, fr); b = self.val(e['r'], st, fr)
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e):
        integer = tcode(e.get('lt', '')) in ('I', 'U') and tcode(e.get('rt', '')) in ('I', 'U')
        if a[0] == 'iter' or b[0] == 'iter': return self.iterop(op, a, b)
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if integer or (tcode(e['t']) in ('I', 'U') and tcode(e.get('lt', '')) != 'S'):
                if a[0] == 'n' and b[0] == 'n' and b[1] != 0: return num(int(a[1] / b[1]))
                if b == ONE: return a
                return ('fn', 'idiv', a, b)
            return div(a, b)
        if op == '%': return ('fn', 'mod', a, b)
        if op == '<': return lt(a, b, integer)
        if op == '>': return lt(b, a, integer)
        if op == '<=': return le(a, b, integer)
        if op == '>=': return le(b, a, integer)
        if op == '==': return eq(a, b)
        if op == '!=': return not_(eq(a, b))
        if op in ('&', '|') and kind(a) == 'B' and kind(b) == 'B': return and_(a, b) if op == '&' else or_(a, b)
        return ('fn', 'bin' + op, a, b)

    def iterop(self, op, a, b):
        if a[0] == 'iter' and b[0] == 'iter':
            if a[1] == b[1] or True:
                if op in ('==', '!='):
                    r = eq(a[2], b[2]) if a[1] == b[1] else ('eq', *sorted((a, b), key=repr))
                    return r if op == '==' else not_(r)
                if op == '<': return lt(a[2], b[2], True)
                if op == '-': return sub(a[2], b[2])
        if a[0] == 'iter' and op in ('+', '-'): return ('iter', a[1], add(a[2], b) if op == '+' else sub(a[2], b))
        if op in ('==', '!='):
            r = eq(a, b); return r if op == '==' else not_(r)
        return ('fn', 'iter' + op, a, b)

    def e_assign(self, e, st, fr):
        op = e['op']
        if op == '=':
            v = self.val(e['r'], st, fr)
            lv = self.bind(e['l'], st, fr)
            self.write(st, lv, self.conv(v, e['l']['t'], e['r']['t']))
            return lv
        lv = self.bind(e['l'], st, fr)
        old = self.read(st, lv, tcode(e['l']['t']))
        v = self.val(e['r'], st, fr)
        ee = dict(e); ee['t'] = e['l']['t']
        n = self.binop(op[:-1], old, v, ee)
        self.write(st, lv, n)
        return lv

    def conv(self, v, tt, ft): return v

    def e_cond(self, e, st, fr):
        # assert(x) expands to  x ? void(0) : __assert_fail(...)
        b = e['b']
        while b['k'] == 'cast': b = b['e']
        if b['k'] == 'call' and b.get('n') in ('__assert_fail', '__assert', 'abort', 'exit'):
            c = self.cond(e['c'], st, fr)
            c = self.simp(c, st)
            self.effect(st, 'assert', (c,), e['ln'])
            if c == FALSE: raise Dead()
            st.guard = and_(st.guard, TRUE)
            (self.assume_fact(st, c) if fr is self.rootfr else None)
            return ('undef', 'void')
        c = self.cond(e['c'], st, fr)
        r = {}
        lvout = {}
        def fa(x):
            q = self.any(e['a'], x, fr)
            r['a'] = self.read(x, q, tcode(e['t'])) if q and q[0] == 'L' else q; return x
        def fb(x):
            q = self.any(e['b'], x, fr)
            r['b'] = self.read(x, q, tcode(e['t'])) if q and q[0] == 'L' else q; return x
        c = self.simp(c, st)
        out = self.branch(c, st, fr, fa, fb)
        if out is None: raise Dead()
        if out is not st: st.assign(out)
        a, b2 = r.get('a'), r.get('b')
        if a is None: return b2 if b2 is not None else ('undef', 'void')
        if b2 is None: return a
        return ite(c, a, b2)

    def assume_fact(self, st, c):
        """equalities between a container length and another quantity that an
        assertion establishes are used from then on; all other asserted facts
        are only recorded as effects"""
        if c[0] == 'ite' and c[3] == FALSE:
            self.assume_fact(st, c[1]); self.assume_fact(st, c[2]); return
        if c[0] == 'eq0':
            it = T.items(c[1])
            if len(it) == 2 and sorted(it.values()) == [-1, 1]:
                ms = [m for m in it if len(m) == 1]
                if len(ms) == 2:
                    for a, b in (ms, ms[::-1]):
                        if a[0][0] == 'size' and a[0][1][0] == 'init' and b[0][0] == 'init':
                            self.size_axioms.setdefault(a[0][1], b[0]); return

    def e_cast(self, e, st, fr):
        ck = e['ck']
        if ck in ('NullToPointer',): return NULL
        if ck in ('ToVoid',): self.val(e['e'], st, fr); return ('undef', 'void')
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'LValueToRValue', 'BitCast', 'LValueBitCast', 'IntegralCast', 'IntegralToFloating', 'FloatingCast', 'UserDefinedConversion', 'ConstructorConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay'):
            r = self.any(e['e'], st, fr)
            if ck == 'IntegralCast' and e['t'] == 'bool': return self.tobool(self._v(r, e['e'], st))
            if ck in ('IntegralToFloating', 'FloatingCast', 'IntegralCast'):
                r = self._v(r, e['e'], st)
                if kind(r) == 'B': return ite(r, ONE, ZERO)
                if ck == 'FloatingCast' and base_type(e['t']) == 'float' and r[0] != 'n': return ('cast', 'S', r)
            return r
        v = self.val(e['e'], st, fr)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return self.tobool(v)
        if ck == 'FloatingToIntegral':
            if v[0] == 'n': return num(int(v[1]))
            return ('cast', 'U' if tcode(e['t']) == 'U' else 'I', v)
        self.note('cast ' + ck, e)
        return v

    def _v(self, r, e, st):
        return self.read(st, r, tcode(e.get('t', '?'))) if r[0] == 'L' else r

    def e_new(self, e, st, fr):
        self.newn += 1
        at = e['at']
        n = 'new%d:%s' % (self.newn, short(at))
        ks = tuple(self.kstack)
        root = ('newarr' if e.get('arr') else 'new', n, at) + ks
        st.types[root] = base_type(at)
        lv = ('L', root, ())
        self.effect(st, 'new', (root, at), e['ln'])
        if e.get('arr'):
            sz = self.val(e['size'], st, fr) if e.get('size') else ZERO
            self.write(st, lv, ('resz', ('emptyc',), sz, ('undef', 'elem')))
        elif e.get('init'): self.init_obj(lv, at, e['init'], st, fr)
        return ('addr', lv)

    def e_delete(self, e, st, fr):
        p = self.val(e['e'], st, fr)
        self.effect(st, 'delete', (p, e['dt'], bool(e.get('arr'))), e['ln'])
        return ('undef', 'void')

    # ------------------------------------------------------------ construction
    def e_construct(self, e, st, fr):
        t = e['t']
        if tcode(t) != 'O' or is_iter(t):
            return self.construct_value(e, st, fr)
        if e['copy'] and len(e['args']) == 1 and e.get('elide'):
            return self.any(e['args'][0], st, fr)
        root = ('tmp', fresh())
        st.types[root] = base_type(t)
        lv = ('L', root, ())
        self.construct(e, lv, st, fr)
        return lv

    def construct_value(self, e, st, fr):
        t = e['t']; kd = tcode(t)
        args = [self.val(a, st, fr) for a in e['args']]
        if is_iter(t):
            if args: return args[0]
            return ('undef', 'iterator')
        if base_type(t).endswith('Probability'):
            if args: return args[0]
            return ('undef', 'Probability')
        if kd in MAT:
            if len(args) == 1 and kind(args[0]) in MAT:
                return args[0]
            if len(args) == 1 and args[0][0] == 'call' and args[0][1].startswith('ctor:') and len(args[0][2]) == 1 and kind(args[0][2][0]) in MAT:
                return args[0][2][0]
            return ('call', 'blank', tuple(args), kd)
        if len(args) == 1: return args[0]
        return ('opq', 'construct', tuple(args), kd)

    def construct(self, e, lv, st, fr):
        t = e['t']; b = base_type(t)
        if e['k'] == 'construct' and e['copy'] and len(e['args']) == 1 and e.get('elide'):
            q = self.any(e['args'][0], st, fr)
            self.write(st, lv, self.read(st, q, tcode(t)) if q[0] == 'L' else q); return
        if tcode(t) != 'O' or is_iter(t):
            self.write(st, lv, self.construct_value(e, st, fr)); return
        if is_container(t):
            self.write(st, lv, self.container_ctor(e, t, st, fr)); return
        if is_map(t):
            if e['args'] and e['copy']: self.write(st, lv, self.val(e['args'][0], st, fr))
            else: self.write(st, lv, ('emptyc',))
            return
        if b.startswith('std::pair'):
            a = [self.val(x, st, fr) for x in e['args']]
            if len(a) == 2: self.write(st, lv, ('pair', a[0], a[1]))
            elif len(a) == 1: self.write(st, lv, a[0])
            else: self.write(st, lv, ('undef', 'pair'))
            return
        fn = self.p.fns.get(e['f'])
        if fn is None or (e.get('implicit') and e['copy']):
            if e['copy'] and len(e['args']) == 1:
                self.write(st, lv, self.val(e['args'][0], st, fr)); 
                return
            if e.get('deflt') and fn is None:
                c = self.p.cls(t)
                if c is not None:
                    return
            args = tuple(self.val(x, st, fr) for x in e['args'])
            self.write(st, lv, ('call', 'ctor:' + short(b), args, 'O')); return
        if (short(b) + '::' + short(b)) in self.opaque or short(b) in self.opaque or fn['id'] in self.callstack or self.depth > self.maxdepth:
            args = tuple(self.val(x, st, fr) for x in e['args'])
            self.write(st, lv, ('call', 'ctor:' + short(b), args, 'O')); return
        self.inline(fn, lv, base_type(t), e['args'], e.get('pt', []), st, fr, e)

    def container_ctor(self, e, t, st, fr):
        args = [self.val(a, st, fr) for a in e['args']]
        pts = e.get('pt', [])
        et = elem_type(t)
        if not args or (len(args) == 1 and 'allocator' in pts[0]): return ('emptyc',)
        if e['copy']: return args[0]
        if args[0][0] == 'iter' and len(args) >= 2 and args[1][0] == 'iter':
            src = self.read(st, ('L', args[0][1][1], args[0][1][2]))
            if args[0][2] == ZERO and args[1][2] == self.size_of(src): return src
            n = sub(args[1][2], args[0][2])
            j = T.fresh_k(); T.ranges[j] = n
            return T.tab(j, sel(src, add(args[0][2], j), tcode(et)), n)
        if is_container(pts[0]) or 'initializer_list' in pts[0]: return args[0]
        n = args[0]
        d = args[1] if len(args) > 1 and 'allocator' not in pts[1] else self.default_elem(et)
        if n == ZERO: return ('emptyc',)
        return ('resz', ('emptyc',), n, d) if d[0] == 'undef' or True else None

    def default_elem(self, et):
        k = tcode(et)
        if k in ('S', 'I', 'U'): return ZERO
        if k == 'B': return FALSE
        if k in MAT: return ('call', 'blank', (), k)
        if et.rstrip().endswith('*'): return NULL
        return ('call', 'default:' + short(et), (), 'O')

    # ------------------------------------------------------------ calls
    def ctor_inits(self, fr, st):
        for i in fr.fn.get('inits', []):
            if i.get('base') or i.get('deleg'):
                e = i['e']
                if e is None: continue
                if e['k'] == 'construct':
                    b = base_type(i.get('base') or e['t'])
                    f = self.p.fns.get(e['f'])
                    if f is not None and f['id'] not in self.callstack and not (e.get('implicit') and e['copy']):
                        self.inline(f, fr.this, None, e['args'], e.get('pt', []), st, fr, e, keepcls=fr.cls)
                    elif e['copy'] and e['args']:
                        src = self.bind(e['args'][0], st, fr)
                        for owner, fl in self.p.fields_all(b):
                            key = short(owner) + '::' + fl['name']
                            self.write(st, ('L', fr.this[1], fr.this[2] + (('f', key),)), self.read(st, ('L', src[1], src[2] + (('f', key),)), tcode(fl['t'])))
                    elif e.get('deflt'): pass
                    elif is_map(b) or is_container(b): pass
                    else:
                        args = tuple(self.val(x, st, fr) for x in e['args'])
                        self.write(st, ('L', fr.this[1], fr.this[2] + (('f', 'base:' + short(b)),)), ('call', 'ctor:' + short(b), args, 'O'))
                else: self.val(e, st, fr)
            elif i.get('field') is not None:
                key = short(i['owner']) + '::' + i['field']
                lv = ('L', fr.this[1], fr.this[2] + (('f', key),))
                if i['e'] is None: continue
                if not i.get('written') and i['e']['k'] == 'construct' and i['e'].get('deflt') and tcode(i['ft']) == 'O' and not is_container(i['ft']) and not self.p.fns.get(i['e']['f']):
                    continue
                if i['ft'].rstrip().endswith('&'):
                    self.write(st, lv, ('addr', self.bind(i['e'], st, fr))); continue
                self.init_obj(lv, i['ft'], i['e'], st, fr, i['field'])

    def inline(self, fn, this_lv, cls, args, pts, st, fr, e, keepcls=None):
        self.depth += 1
        nf = Frame(fn, this_lv, keepcls or cls or fn.get('cls'), self._nf())
        try:
            for p, a in zip(fn['params'], args):
                t = p['t']
                if isinstance(a, tuple):   # already a value
                    root = ('tmp', fresh()); lv = ('L', root, ()); self.write(st, lv, a); nf.env[p['id']] = (lv, t); continue
                if t.rstrip().endswith('&'):
                    nf.env[p['id']] = (self.bind(a, st, fr), t)
                else:
                    root = ('loc', p['name'] or 'arg', nf.n, 0)
                    st.types[root] = base_type(t)
                    lv = ('L', root, ())
                    self.init_obj(lv, t, a, st, fr, p['name'])
                    nf.env[p['id']] = (lv, t)
            g0 = st.guard
            work = st.copy()
            if fn.get('kind') == 'ctor': self.ctor_inits(nf, work)
            out = self.exec_body(nf, work)
            exits = list(nf.exits)
            if out is not None: exits.append(Exit('ret', out, None))
            if not exits: raise Dead()
            # guards relative to the call site
            for x in exits: pass
            s2, v = self.join_exits_rel(exits, g0)
            st.assign(s2)
            if v is not None and fn.get('rref') and v[0] == 'addr': return v[1]
            if v is not None and fn.get('rref'): return self.deref(v)
            return v if v is not None else ('undef', 'void')
        finally:
            self.depth -= 1

    def join_exits_rel(self, exits, g0):
        cur = exits[-1].st.copy(); val = exits[-1].val
        total = cur.guard
        for e in reversed(exits[:-1]):
            c = assume(e.st.guard, g0, True) if g0 != TRUE else e.st.guard
            n = State()
            total = or_(e.st.guard, total)
            self.merge(c, e.st, cur, n)
            if e.val is not None and val is not None: val = ite(c, e.val, val)
            elif val is None: val = e.val
            cur = n
        cur.guard = g0 if self._exhaustive(total, g0) else total
        return cur, val

    def _exhaustive(self, total, g0):
        if total == g0: return True
        t = assume(total, g0, True) if g0 != TRUE else total
        return t == TRUE

    def e_call(self, e, st, fr):
        qn = strip_targs(e['qn'])
        name = e['n']
        # streams: no effect on the analysed state
        if name == 'operator<<' and (is_stream(e['frt']) or is_stream(e['t'])): return ('undef', 'stream')
        if name in ('endl', 'flush', 'setw', 'setprecision') or is_stream(e.get('objt', '')): return ('undef', 'stream')
        if name in ('exit', 'abort', '_exit', '__assert_fail', 'terminate'):
            self.effect(st, 'abort', (name,), e['ln']); raise Dead()
        from . import stdlib
        r = stdlib.call(self, e, st, fr, qn, name)
        if r is not NotImplemented: return r
        # repository code
        fn = self.p.fns.get(e['f'])
        obj = None; cls = None
        if 'obj' in e:
            if e.get('arrow'): obj = self.deref(self.val(e['obj'], st, fr))
            else: obj = self.bind(e['obj'], st, fr)
            scls = base_type(e['objt']).rstrip('* ')
            if obj[0] == 'lam': pass
            exact = None
            if obj == fr.this and (e['obj']['k'] == 'this' or self._is_this(e['obj'])): exact = fr.cls if (fr.cls) else None
            elif not obj[2] and obj[1] in st.types: exact = st.types[obj[1]]
            elif obj[2] and obj[2][-1][0] == 'f': exact = scls
            elif obj[2] and obj[2][-1][0] == 'i': exact = scls
            cls = exact or scls
            if e.get('virt'):
                tgt = None
                if exact: tgt = self.p.resolve(exact, e['f'])
                elif self.cha_on:
                    s_ = self.p.cha(scls, e['f'])
                    if len(s_) == 1: tgt = next(iter(s_))
                fn = self.p.fns.get(tgt) if tgt else None
                if tgt and fn is None and tgt != e['f']: fn = None
            elif fn is None and False: pass
        if self.interp is not None:
            r = self.interp(self, st, fr, e, name, obj)
            if r is not None: return r
        key = (short(e['cls']) + '::' + name) if e.get('cls') else name
        if fn is not None and not (key in self.opaque or name in self.opaque or (cls and short(cls) in self.opaque) or (cls and (short(cls) + '::' + name) in self.opaque)) \
           and self.callstack.count(fn['id']) < 2 and self.depth < self.maxdepth:
            return self.inline(fn, obj, cls, e['args'], e['pt'], st, fr, e)
        return self.opaque_call(e, st, fr, name, obj, key)

    def _is_this(self, o):
        while o['k'] in ('cast',): o = o['e']
        if o['k'] == 'un' and o['op'] == '*': o = o['e']
        while o['k'] in ('cast',): o = o['e']
        return o['k'] == 'this'

    def opaque_call(self, e, st, fr, name, obj, key=None):
        kd = tcode(e['frt'])
        args = []; outs = []
        for i, (a, pt) in enumerate(zip(e['args'], e['pt'] + ['...'] * len(e['args']))):
            if pt.rstrip().endswith('&') and 'const' not in pt.split('&')[0]:
                lv = self.bind(a, st, fr); outs.append((i, lv, tcode(pt))); args.append(self.read(st, lv, tcode(pt)))
            elif pt.rstrip().endswith('&&'):
                args.append(self.val(a, st, fr))
            else: args.append(self.val(a, st, fr))
        ov = self.read(st, obj, 'O') if obj is not None else None
        full = tuple(([ov] if ov is not None else []) + args)
        pure = (e.get('const') or obj is None) or name in self.pure or key in self.pure
        c = simp_call(('call', name, full, kd))
        self.effect(st, 'call', (key or name, obj, full, ' '.join(e['pt'])), e['ln'])
        if outs or not pure:
            # a call that may change state: distinguish successive calls by the
            # state they see (outs/eff chain), not by position
            for i, lv, k2 in outs: self.write(st, lv, ('out', ('call', name, full, 'O'), i, k2))
            if obj is not None and not pure: self.write(st, obj, eff(name, ov, tuple(args)))
        if e.get('rref') and kd == 'O' and obj is not None and not e['frt'].startswith('const'):
            return self.deref(('addr', ('L', ('ref', c), ())))
        return c

def eff(name, ov, args):
    """state of an object after an opaque mutating call; successive argument
    bindings to distinct constant slots commute and later ones win"""
    t = ('eff', name, ov, args)
    if name == 'ConditionalArgumentSet' and len(args) == 2 and args[0][0] == 'n':
        chain = {}
        base = t
        order = []
        while base[0] == 'eff' and base[1] == name and base[3][0][0] == 'n':
            if base[3][0] not in chain: chain[base[3][0]] = base[3][1]
            base = base[2]
        for k in sorted(chain, key=lambda x: -x[1]): 
            base = ('eff', name, base, (k, chain[k]))
        return base
    return t

def mkdiv(t, f):
    """t / f when f is a factor of every monomial (scalars)"""
    d = {}
    for m, c in T.items(t).items():
        if f not in m: return None
        l = list(m); l.remove(f); d[tuple(l)] = d.get(tuple(l), 0) + c
    return T.mkpoly(d)

def sub_gated(nv, m):
    if nv[0] == 'ite':
        a, b = sub_gated(nv[2], m), sub_gated(nv[3], m)
        if a is None or b is None: return None
        return ite(nv[1], a, b)
    return sub(nv, m)

class Dead(Exception):
    """control never continues past this expression"""
