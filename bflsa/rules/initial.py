"""Definite initialisation: after every constructor, no member function reads a scalar or pointer member that was never
set. Dataflow over the type-checked syntax trees: members assigned on every path of the constructor (initialisers, base
constructors, body and member functions called on the object), members some member function reads before it sets them."""
from ..rule import *
from .effects import Carry, walk, fname, S1
import re

def scalar(t): return tcode(t) in ('S', 'I', 'U', 'B') and base_type(t) not in ('BFL::Probability', 'Probability') or base_type(t).endswith('*') or base_type(t) == 'bool'
class Members(Carry):
    """members of *this; calls of member functions on this are followed"""
    def __init__(s, p, fn, depth=0, trail=()):
        s.p = p; s.fn = fn; s.reads = []; s.bad = s.reads; s.unsure = []; s.depth = depth; s.trail = trail + (fn['id'],); s.rets = []
    def key(s, e):
        if isinstance(e, dict) and e.get('k') == 'member' and s.isthis(e.get('b')) and scalar(e.get('ft') or e.get('t') or ''): return ('m', short(e['owner']), e['name'])
    def isthis(s, b):
        b = s.strip(b)
        if isinstance(b, dict) and b.get('k') == 'un' and b.get('op') == '*': b = s.strip(b['e'])
        return isinstance(b, dict) and b.get('k') == 'this'
    def read(s, e, A, unsure=None):
        k = s.key(e)
        if k and k not in A and ALLK not in A and not unsure:
            fl = [x[1] for x in A if x[0] == 'when' and x[2] == k]
            s.reads.append((k, e.get('ln'), s.fn, fl[0] if fl else None))
    def arg(s, a, t, A):
        x = s.strip(a); k = s.key(x)
        if k and t.rstrip().endswith(('&', '*')) and not re.match(r'const\b', t): return A | {k}     # may set it
        return s.ex(a, A)
    def ex(s, e, A):
        if isinstance(e, dict):
            k = e.get('k')
            if k == 'assign' and e['op'] == '=' and s.key(s.strip(e['l'])):
                A = s.ex(e['r'], A); t = s.key(s.strip(e['l'])); r = s.strip(e['r'])
                A = (A - {('true', t)}) | {t}
                return A | {('true', t)} if r.get('k') == 'blit' and r['v'] else A
            if k == 'member' and s.key(e): s.read(e, A); return A
            if k == 'un' and e.get('op') == '&' and s.key(s.strip(e['e'])): return A | {s.key(s.strip(e['e']))}
            if k == 'var': return s.ex(e.get('init'), A)
            if k == 'call':
                if e['qn'].split('::')[-1] in ('exit', 'abort', '__assert_fail'): return A | {ALLK}
                if e.get('inroot') and e.get('obj') is not None and s.isthis(e['obj']) and not e.get('op'):
                    pt = e.get('pt') or []
                    for i, a in enumerate(e['args']): A = s.arg(a, pt[i] if i < len(pt) else '', A)
                    return s.enter(e, A)
            if k == 'cond' and '__assert_fail' in repr(e):
                s.ex(e['c'], A); return A
        return Carry.ex(s, e, A)
    def enter(s, e, A):
        f = s.p.fns.get(e['f'])
        if f is None or f['id'] in s.trail or s.depth > 6: return A
        if e.get('isvirt') or e.get('virt'):
            # any override may run: none is followed for what it sets, the named one for what it reads
            m = Members(s.p, f, s.depth + 1, s.trail); B = m.run(A); s.reads += m.reads
            return A | B if s.exact else A
        m = Members(s.p, f, s.depth + 1, s.trail); m.exact = s.exact; B = m.run(A); s.reads += m.reads
        return A | B
    exact = False
    def run(s, A=frozenset()):
        f = s.fn
        for i in f.get('inits') or []:
            if i.get('field'):
                e = i.get('e'); A = s.ex(e, A)
                t = ('m', short(i['owner']), i['field']); A = A | {t}; r = s.strip(e)
                if isinstance(r, dict) and r.get('k') == 'blit' and r['v']: A = A | {('true', t)}
            else:
                e = i.get('e') or {}
                while isinstance(e, dict) and e.get('k') == 'cast': e = e['e']
                if isinstance(e, dict) and e.get('k') == 'construct':
                    pt = e.get('pt') or []
                    for j, a in enumerate(e['args']): A = s.arg(a, pt[j] if j < len(pt) else '', A)
                    g = s.p.fns.get(e['f'])
                    if g is not None and g['id'] not in s.trail:
                        m = Members(s.p, g, s.depth + 1, s.trail); m.exact = True; A = A | m.run(A); s.reads += m.reads
                    elif g is None: A = A | {('base', short(i.get('base') or e['cls']))}
                else: A = s.ex(e, A) | {('base', '?')}
        r = s.st(f.get('body'), frozenset(A))
        outs = s.rets + ([r] if r is not None else [])
        outs = [o for o in outs if ALLK not in o] or outs
        if not outs: return frozenset(A)
        x = outs[0]
        for o in outs[1:]: x = x & o
        return x
    def st(s, n, A):
        if A is not None and isinstance(n, dict) and n.get('k') == 'if':
            fk = s.key(s.strip(n['c']))
            if fk:
                s.ex(n['c'], A); x = s.st(n.get('a'), A); y = s.st(n.get('b'), A) if n.get('b') else A
                if x is None or y is None: return y if x is None else x
                return (x & y) | {('when', fk, k) for k in x - y if k[0] == 'm'}
        if isinstance(n, dict) and n.get('k') == 'return':
            s.ex(n.get('e'), A); s.rets.append(A); return None
        return Carry.st(s, n, A)
ALLK = ('all',)
VALUES = ('Probability', 'Sample', 'WeightedSample')      # holders of a value to be set, like the numbers they hold
def ancestors(cls, name):
    out = [name]; i = 0
    while i < len(out):
        for b in cls[out[i]]['bases']:
            b = base_type(b); m = b if b in cls else next((x for x in cls if x.split('::')[-1] == b.split('::')[-1] and '<' not in x), None)
            if m is None: m = next((x for x in cls if short(x) == short(b) and x.replace('BFL::', '').replace('MatrixWrapper::', '') == b.replace('BFL::', '').replace('MatrixWrapper::', '')), None)
            if m and m not in out: out.append(m)
        i += 1
    return out

class Locals(Carry):
    """numbers, flags and pointers declared without a value; loops are taken to run at least once"""
    def __init__(s, fn): s.fn = fn; s.bad = []; s.unsure = []; s.want = set(); s.seen = []
    def key(s, e):
        if isinstance(e, dict) and e.get('k') == 'ref' and e.get('dk') == 'local' and ('l', e['id']) in s.want: return ('l', e['id'])
    def arg(s, a, t, A):
        k = s.key(s.strip(a))
        if k and t.rstrip().endswith(('&', '*')):
            return A if re.match(r'const\b', t) else A | {k}        # a placeholder for an argument that is not used
        return s.ex(a, A)
    def read(s, e, A, unsure=None):
        if ALLK not in A: Carry.read(s, e, A, unsure)
    def ex(s, e, A):
        if isinstance(e, dict):
            if e.get('k') == 'un' and e.get('op') == '&' and s.key(s.strip(e['e'])): return A | {s.key(s.strip(e['e']))}
            if e.get('k') == 'var' and e.get('init') and e['t'].rstrip().endswith('&') and s.key(s.strip(e['init'])): return A | {s.key(s.strip(e['init']))}
            if e.get('k') == 'call' and e['qn'].split('::')[-1] in ('exit', 'abort', '__assert_fail'): return A | {ALLK}
            if e.get('k') == 'cond' and '__assert_fail' in repr(e): s.ex(e['c'], A); return A
        return Carry.ex(s, e, A)
    def st(s, n, A):
        if A is None or not isinstance(n, dict): return Carry.st(s, n, A)
        k = n['k']
        if k == 'decl':
            for d in n['d']:
                if not d.get('static') and not d.get('init') and scalar(d['t']) and not base_type(d['t']).endswith(']'): s.want.add(('l', d['id'])); s.seen.append(d['name']); A = A - {('l', d['id'])}
                else: A = s.ex(d, A)
            return A
        if k in ('while', 'for', 'do'):
            if k == 'for' and n.get('init'): A = s.st(n['init'], A) if n['init'].get('k') in ('decl', 'expr', 'block', 'nop') else s.ex(n['init'], A)
            if k != 'do': A = s.ex(n.get('c'), A)
            B = s.st(n.get('body'), A)
            if B is None: return A
            B = s.ex(n.get('inc'), B)
            return s.ex(n.get('c'), B) if k == 'do' else B
        if k in ('break', 'continue'): return A
        return Carry.st(s, n, A)

def p25(c):
    p = c.p; n = 0
    cls = {x['name']: x for x in p.classes.values() if x['name'].startswith('BFL::') and 'wrappers' not in x['file']}
    own = {}
    for x in cls.values(): own[x['name']] = [(f['name'], f['t']) for f in x['fields'] if scalar(f['t']) and not f['t'].rstrip().endswith('&')]
    reads = {}
    for f in p.fns.values():
        if f.get('kind') == 'ctor' or f.get('implicit') or not f.get('cls') or f['cls'] not in cls or f.get('static'): continue
        m = Members(p, f); m.exact = True
        try: m.run()
        except (KeyError, TypeError, AttributeError, RecursionError): continue
        for k, ln, g, fl in m.reads: reads.setdefault(k, []).append((f, ln, g, fl))
    for f in sorted(p.fns.values(), key=lambda f: (f['file'], f['ln'], f['qn'])):
        if f.get('kind') != 'ctor' or f['cls'] not in cls or cls[f['cls']].get('abstract') or short(f['cls']) in VALUES: continue
        if f.get('implicit') and (f.get('copy') or f.get('move')): continue
        s = S1(f); nm = fname(f); c.fns[f['id']] = f; n += 1
        m = Members(p, f); m.exact = True
        try: A = m.run()
        except (KeyError, TypeError, AttributeError, RecursionError) as x: c.undecided(nm + ': members set', s, repr(x)); continue
        if ('base', '?') in A: c.undecided(nm + ': members set', s, 'constructor of the base class not resolved'); continue
        early = sorted({(k[2], ln) for k, ln, g, fl in m.reads})
        c.add(nm + ': the constructor reads no member before it is set', s.loc, 'violated' if early else 'ok', '; '.join('%s at line %s' % x for x in early))
        anc = ancestors(cls, f['cls'])
        for X in anc:
          for name, t in own[X]:
            k = ('m', short(X), name); o = '%s: %s is set, or set by every function that reads it' % (nm, name)
            if k in A or ALLK in A or ('base', short(X)) in A: c.add(o, s.loc, 'ok', ''); continue
            rd = [(g, ln) for h, ln, g, fl in reads.get(k, []) if h['cls'] in anc and not (fl and ('true', fl) in A)]
            if not rd: c.add(o, s.loc, 'ok', 'never read before it is set'); continue
            c.add(o, s.loc, 'violated', 'left unset; read by ' + ', '.join(sorted({'%s (%s:%s)' % (fname(g), g['file'].split('/src/')[-1], ln) for g, ln in rd})[:6]))
    for f in sorted(p.fns.values(), key=lambda f: (f['file'], f['ln'], f['qn'])):
        if f['qn'].startswith('bflsa_driver') or not f.get('body'): continue
        m = Locals(f); m.st(f['body'], frozenset())
        if not m.seen: continue
        s = S1(f); c.fns[f['id']] = f
        bad = sorted({(v, l) for v, l, _ in m.bad})
        c.add('%s: local variables are set before they are read (%s)' % (fname(f), ', '.join(sorted(set(m.seen)))[:80]), s.loc, 'violated' if bad else 'ok', '; '.join('%s at line %s' % x for x in bad))
    if n < 25: raise AnalysisError('P25: only %d constructors found' % n)
