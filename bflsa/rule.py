"""Obligations, specifications and verdicts shared by all rules."""
from .terms import *
from . import terms as T
from .program import load, AnalysisError, tcode, short, base_type, strip_targs
from .engine import Analyzer, parroot, Unsupported, Dead
import functools, os, re, time

class X:
    """a term with arithmetic, for writing specifications"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t.t if isinstance(t, X) else (num(t) if isinstance(t, (int, Fraction)) else t)
    def __add__(s, o): return X(add(s.t, X(o).t))
    __radd__ = __add__
    def __sub__(s, o): return X(sub(s.t, X(o).t))
    def __rsub__(s, o): return X(sub(X(o).t, s.t))
    def __mul__(s, o): return X(mul(s.t, X(o).t))
    def __rmul__(s, o): return X(mul(X(o).t, s.t))
    def __truediv__(s, o): return X(div(s.t, X(o).t))
    def __rtruediv__(s, o): return X(div(X(o).t, s.t))
    def __neg__(s): return X(neg(s.t))
    def __getitem__(s, i): return X(sel(s.t, X(i).t, s._ek()))
    def _ek(s): return 'S'
    def at(s, i, kd): return X(sel(s.t, X(i).t, kd))
    def f(s, name, kd='O'): return X(fld(s.t, name, kd))
    def deref(s, *path, kd='O'): return X(('init', (('ref', s.t), tuple(path)), kd))
    @property
    def T(s): return X(tr(s.t))
    @property
    def inv(s): return X(inv(s.t))
    @property
    def size(s): return X(T.size(s.t))
    @property
    def rows(s):
        from .stdlib import dims
        return X(dims('rows', s.t, kind(s.t)))
    @property
    def cols(s):
        from .stdlib import dims
        return X(dims('columns', s.t, kind(s.t)))
    def gt(s, o): return X(gt0(sub(s.t, X(o).t), kind(s.t) in ('I', 'U') and kind(X(o).t) in ('I', 'U')))
    def lt(s, o): return X(o).gt(s)
    def le(s, o): return ~s.gt(o)
    def ge(s, o): return ~s.lt(o)
    def eq(s, o): return X(eq(s.t, X(o).t))
    def ne(s, o): return ~s.eq(o)
    def __invert__(s): return X(not_(s.t))
    def __and__(s, o): return X(and_(s.t, X(o).t))
    def __or__(s, o): return X(or_(s.t, X(o).t))
    def upd(s, i, v): return X(upd(s.t, X(i).t, X(v).t))
    def set(s, name, v): return X(setfld(s.t, name, X(v).t))
    def __repr__(s): return show(s.t)

def ITE(c, a, b): return X(ite(X(c).t, X(a).t, X(b).t))
def IDX(N):
    k = T.fresh_k(); T.ranges[k] = X(N).t
    return X(k)
def SUM(N, f):
    k = IDX(N); return X(T.sum_(k.t, X(f(k)).t, X(N).t))
def PROD(N, f):
    k = IDX(N); return X(T.prod_(k.t, X(f(k)).t, X(N).t))
def ALL(N, f):
    k = IDX(N); return X(T.all_(k.t, X(f(k)).t, X(N).t))
def TAB(N, f):
    k = IDX(N); return X(T.tab(k.t, X(f(k)).t, X(N).t))
def UNTIL(f):
    k = T.fresh_k(); return X(T.until(k, X(f(X(k))).t))
def CALL(name, *a, kd='O'): return X(simp_call(('call', name, tuple(X(x).t for x in a), kd)))
def FN(name, *a):
    from .stdlib import fn_
    return X(fn_(name, *[X(x).t for x in a]))
def RND(name, n, *a, at=()): return X(('rnd', name, (n,) + tuple(X(x).t for x in at), tuple(X(x).t for x in a), 'S'))
TRUEX = X(TRUE); FALSEX = X(FALSE); NULLX = X(NULL)

def tcode_ref(fn):
    r = fn.get('rt') or fn.get('ret') or ''
    return fn.get('rref') or r.strip().endswith('&')
class Summary:
    """value-analysis summary of one function"""
    def __init__(self, an, fn, r, err=None, step=0):
        self.an = an; self.fn = fn; self.r = r; self.err = err; self.step = step
    @property
    def loc(self): return '%s:%s' % (self.fn['file'].split('/src/')[-1], self.fn['ln']) if 'bflsa_driver' not in self.fn['qn'] else 'client ' + self.fn['qn'].split('::')[-1]
    @property
    def ok(self): return self.err is None and self.r is not None and self.r.st is not None
    def prm(self, i): return self.fn['params'][i]
    def arg(self, i, kd=None):
        p = self.prm(i)
        return X(('init', (parroot(self.fn, i, self.step), ()), kd or tcode(p['t'])))
    def finarg(self, i, *path, kd='O'):
        p = self.prm(i)
        return X(self.an.read(self.r.st, ('L', parroot(self.fn, i, self.step), tuple(('f', x) for x in path)), kd if path else tcode(p['t'])))
    def this(self, *path, kd=None):
        return X(('init', (('this',), tuple(path)), kd or self.an.fieldkind(path[-1])))
    def fin(self, *path, kd=None):
        return X(self.an.read(self.r.st, ('L', ('this',), tuple(('f', x) for x in path)), kd or self.an.fieldkind(path[-1])))
    def at(self, ptr, *path, kd='O'):
        """value reached through pointer value ptr in the final state"""
        lv = self.an.deref(X(ptr).t)
        return X(self.an.read(self.r.st, ('L', lv[1], lv[2] + tuple(('f', x) for x in path)), kd if kd != 'O' or not path else self.an.fieldkind(path[-1])))
    @property
    def ret(self): return X(self.r.val) if self.r.val is not None else X(('undef', 'void'))
    def rv(self, kd='O'):
        """returned value, whether returned by value or by reference"""
        v = self.ret
        return self.at(v, kd=kd) if v.t[0] in ('addr', 'ret', 'ite') and tcode_ref(self.fn) else v
    def effects(self, *kinds, name=None):
        seen = set(); out = []
        for e in self.r.st.effects:
            if e[1] not in kinds: continue
            if name and not (isinstance(e[2][0], str) and (e[2][0] == name or e[2][0].split('::')[-1] == name)): continue
            key = (e[1], repr(e[2]), repr(e[0]))
            if key in seen: continue
            seen.add(key); out.append(e)
        return out
    def changed(self):
        """keys of non-local storage whose final value differs from the initial one"""
        out = []
        for (root, path), v in self.r.st.store.items():
            if root[0] in ('loc', 'tmp', 'new', 'newarr'): continue
            i = ('init', (root, path), kind(v))
            if v == i or (v[0] == 'init' and v[1] == (root, path)): continue
            out.append((root, path, v))
        return out
    def shaky(self):
        return [n for n in self.an.notes if not n.startswith('loop over')]

BADOPS = {'havoc', 'opq', 'lam'}
def unresolved(t, spec=None):
    x = T.any_sub(t, lambda x: x[0] in BADOPS)
    return x

def invariant(cls):
    """sizes of the tables of a class between calls (established by P01, P02 and P03)"""
    k = cls.split('<')[0].split('::')[-1]
    if k == 'DiscretePdf': from .rules.discrete import axioms
    elif k == 'MCPdf': from .rules.mc import axioms
    elif k == 'Mixture': from .rules.mixture import axioms
    else: return None
    return axioms()
class Ob:
    def __init__(self, name, loc, status, detail, rule=''):
        self.name = name; self.loc = loc; self.status = status; self.detail = detail; self.rule = rule

class TooLong(BaseException): pass
START = time.time()
class limit:
    """a step of the analysis gets this long; what is left then is undecided"""
    def __init__(self, sec): self.sec = sec
    def __enter__(self):
        import signal
        def stop(*a): raise TooLong('analysis took too long')
        left = 720 - (time.time() - START)
        self.old = signal.signal(signal.SIGALRM, stop); signal.setitimer(signal.ITIMER_REAL, max(2, min(self.sec, left)), 1)
    def __exit__(self, *a):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, self.old)

class Ctx:
    """one property's run: collects obligations"""
    def __init__(self, pid, backend='boost', tier='quick'):
        self.pid = pid; self.tier = tier; self.obs = []; self.backend = backend
        self.p = prog(backend); self.fns = {}; self.tag = ''
        self.hook = None; self.axioms = []
    # ---- analysed functions
    def find(self, name, pick=None, need=True):
        fs = [f for f in self.p.find(name) if f.get('body') is not None or f.get('kind') == 'ctor']
        if pick: fs = [f for f in fs if pick(f)]
        if not fs and need: raise AnalysisError('%s: no function %s in the analysed program' % (self.pid, name))
        return fs
    def run(self, fn, cls=None, pre=None, params=None, **kw):
        if isinstance(fn, str):
            fs = self.find(fn); fn = fs[0]
        self.fns[fn['id']] = fn
        if 'size_axioms' not in kw and fn.get('kind') != 'ctor' and fn.get('cls'):
            ax = invariant(fn['cls'])
            if ax: kw['size_axioms'] = ax
        an = Analyzer(self.p, dyncls=cls or fn.get('cls'), **kw)
        try:
            with limit(150): r = an.run(fn, cls=cls, pre=pre, params=params)
            s = Summary(an, fn, r)
            if r.st is None: s.err = 'no normal exit'
        except (Unsupported, Dead, RecursionError, TooLong) as e:
            s = Summary(an, fn, None, repr(e))
        except AnalysisError: raise
        except Exception as e:
            if os.environ.get('BFL_DEBUG'): raise
            s = Summary(an, fn, None, 'analysis failed: %r' % e)
        for f in an.visited.values(): self.fns[f['id']] = f
        return s
    def then(self, s, fn, cls=None, params=None):
        """continue from the final state of s with a call of fn on the same object"""
        if isinstance(fn, str): fn = self.find(fn)[0]
        self.fns[fn['id']] = fn
        n = s.step + 1
        if not s.ok: return Summary(s.an, fn, None, s.err, n)
        try:
            with limit(150): r = s.an.run(fn, cls=cls, params=params, start=s.r.st, step=n)
            o = Summary(s.an, fn, r, None, n)
            if r.st is None: o.err = 'no normal exit'
        except (Unsupported, Dead, RecursionError, TooLong) as e:
            o = Summary(s.an, fn, None, repr(e), n)
        except Exception as e:
            if os.environ.get('BFL_DEBUG'): raise
            o = Summary(s.an, fn, None, 'analysis failed: %r' % e, n)
        for f in s.an.visited.values(): self.fns[f['id']] = f
        return o
    # ---- verdicts
    def add(self, name, loc, status, detail=''):
        self.obs.append(Ob(self.tag + name, loc, status, detail))
        return status == 'ok'
    def undecided(self, name, s, why):
        if why == 'no normal exit': return self.add(name, getattr(s, 'loc', s), 'violated', 'no path returns: an assertion or abort is always reached')
        return self.add(name, getattr(s, 'loc', s), 'undecided', why)
    def eq(self, s, name, got, want, under=None, loc=None):
        """obligation: got = want (under a condition) in every state"""
        try:
            with limit(200): return self.eq_(s, name, got, want, under, loc)
        except TooLong as e: return self.undecided(name, s, str(e))
    def eq_(self, s, name, got, want, under=None, loc=None):
        if callable(got) or callable(want):
            if not s.ok: return self.undecided(name, s, s.err or 'no summary')
            got = got() if callable(got) else got; want = want() if callable(want) else want
        if not s.ok: return self.undecided(name, s, s.err or 'no summary')
        g, w = X(got).t, X(want).t
        prior = []
        for c in list(self.axioms) + ([under] if isinstance(under, X) else list(under or [])):
            ct = X(c).t
            for e in prior: ct = assume(ct, e, True)
            prior.append(ct)
            g, w = assume(g, ct, True), assume(w, ct, True)
        if s.shaky(): return self.undecided(name, s, '; '.join(s.shaky()[:3]))
        if equal(g, w): return self.add(name, loc or s.loc, 'ok')
        u = unresolved(g)
        if u is not None: return self.undecided(name, s, 'value not resolved: %s' % show(u)[:200])
        gone = self.gone(s, g, w)
        if gone: return self.undecided(name, s, 'data member %s of the rule is not there' % gone)
        from . import ident
        v, info = ident.compare(g, w, hook=self.hook, under=[X(a).t for a in self.axioms] + [X(a).t for a in ([under] if isinstance(under, X) else (under or []))])
        if os.environ.get('BFL_IDENT'): print('IDENT', name, v, info if v != 'diff' else '')
        if v == 'same': return self.add(name, loc or s.loc, 'ok', 'equal on %d interpretations' % info)
        if v == 'slow': return self.undecided(name, s, 'comparison took too long')
        d = T.firstdiff(g, w)
        if d != (g, w) and os.environ.get('BFL_DEBUG'): return self.add(name, loc or s.loc, 'violated', 'differs at: %s   required %s' % (show(d[0])[:300], show(d[1])[:300]))
        return self.add(name, loc or s.loc, 'violated', 'computed %s, required %s' % (show(g)[:700], show(w)[:700]))
    def stored(self, s, name):
        """obligation: every map element reached through an iterator is in the map there"""
        if not s.ok: return self.undecided(name, s, s.err or 'no summary')
        bad = [(l, g) for l, g in s.an.mapuse if g != TRUE]
        if s.shaky() and bad: return self.undecided(name, s, '; '.join(s.shaky()[:3]))
        u = next((unresolved(g) for _, g in bad if unresolved(g) is not None), None)
        if u is not None: return self.undecided(name, s, 'not resolved: %s' % show(u)[:200])
        return self.add(name, s.loc, 'violated' if bad else 'ok', 'line %s: element there only if %s' % (bad[0][0], show(bad[0][1])[:300]) if bad else '%d uses' % len(s.an.mapuse))
    def arr(self, s, name, got, want, N, lo=0, under=None, kd='S'):
        """obligation: got[i] = want(i) for lo <= i < lo+N"""
        if not s.ok: return self.undecided(name, s, s.err or 'no summary')
        got = got() if callable(got) else got
        i = IDX(N)
        return self.eq(s, name, X(got).at(i + lo, kd), want(i), under)
    def holds(self, s, name, cond, detail='', loc=None, ln=None):
        if isinstance(s, Summary):
            if not s.ok: return self.undecided(name, s, s.err or 'no summary')
            if s.shaky(): return self.undecided(name, s, '; '.join(s.shaky()[:3]))
            l = loc or s.loc
            if ln: l = '%s:%s' % (s.fn['file'].split('/src/')[-1], ln)
            if not cond and self.gone(s): return self.undecided(name, s, 'data member %s of the rule is not there' % self.gone(s))
        else: l = s
        return self.add(name, l, 'ok' if cond else 'violated', detail)
    def gone(self, s, *ts):
        """a data member the rules speak about that the class of s (or the terms) no longer has"""
        ms = self.p.missing
        if not ms: return None
        import pathlib
        if not hasattr(self, '_txt'): self._txt = ' '.join(f.read_text() for f in pathlib.Path(__file__).parent.glob('rules/*.py'))
        cl = {short(b) for b in self.p.bases_all(s.fn['cls'])} if s.fn.get('cls') else set()
        r = repr(ts)
        for m in sorted(ms):
            k, n = m.split('::')
            if not re.search(r'\b%s\b' % re.escape(n), self._txt): continue
            if m in r or k in cl: return m
        return None

def equal(a, b):
    return T.same(a, b)

@functools.lru_cache(None)
def prog(backend): return load(backend)
