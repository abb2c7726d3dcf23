"""Hidden inputs: no result depends on a variable that outlives the call (static local or global), on the clock, the
environment, input or a random source other than the library's generator; the generator functions draw from exactly
the requested distribution with the one shared engine.

Static storage: a definite-assignment dataflow over the type-checked syntax trees. A static local or global that is
always assigned by the same call before it is read carries nothing over from an earlier call."""
from ..rule import *
from ..rule import Ob
import re

FORBID = [(r'^(std::)?(rand|srand|random|srandom|drand48|erand48|lrand48|mrand48|rand_r)$', 'another random source'),
          (r'random_device', 'another random source'), (r'^std::(mersenne_twister_engine|linear_congruential_engine|\w+_distribution|subtract_with_carry_engine)\b', 'another random source'),
          (r'^(std::)?(time|clock|gettimeofday|clock_gettime|times|getpid|gethostid)$', 'the clock or the process'), (r'^std::chrono::.*now$', 'the clock'),
          (r'^(std::)?(getenv|secure_getenv)$', 'the environment'), (r'^(std::)?(scanf|fscanf|fgets|getchar|fopen|fread)$', 'input'), (r'^std::basic_ifstream', 'input'), (r'std::(basic_istream<\w+>::operator>>|operator>>)$', 'input')]
STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'std::endl', 'std::ios_base::floatfield'}
ASSIGNING = {'clear', 'assign'}

def walk(e, f):
    if isinstance(e, dict):
        if 'k' in e or 'd' in e: f(e)
        for v in e.values(): walk(v, f)
    elif isinstance(e, list):
        for v in e: walk(v, f)

class Carry:
    """definite assignment of the variables with static storage in one function"""
    def __init__(s, fn, interesting, known=None, constinit=None):
        s.fn = fn; s.want = interesting; s.bad = []; s.unsure = []
    def key(s, e):
        if isinstance(e, dict) and e.get('k') == 'ref' and e.get('dk') in ('static', 'global'):
            k = ('g', e.get('qn') or e['name']) if e['dk'] == 'global' else ('s', e['id'])
            return k if k in s.want else None
    def strip(s, e):
        while isinstance(e, dict) and e.get('k') == 'cast': e = e['e']
        return e
    def read(s, e, A, unsure=None):
        k = s.key(e)
        if k and k not in A: (s.unsure if unsure else s.bad).append((e['name'], e.get('ln'), unsure or ''))
    # expression: returns the set of variables assigned after it
    def ex(s, e, A):
        if e is None: return A
        if isinstance(e, list):
            for x in e: A = s.ex(x, A)
            return A
        if not isinstance(e, dict): return A
        k = e.get('k')
        if k == 'ref': s.read(e, A); return A
        if k == 'assign':
            A = s.ex(e['r'], A); l = s.strip(e['l']); t = s.key(l)
            if e['op'] == '=' and t: return A | {t}
            return s.ex(e['l'], A)
        if k == 'call':
            o = s.strip(e.get('obj')) if e.get('obj') is not None else None; t = s.key(o) if o else None
            args = e['args']
            if t and e['n'] == 'operator=':
                for a in args: A = s.ex(a, A)
                return A | {t}
            if o is None and e['n'] == 'operator=' and args and s.key(s.strip(args[0])):
                for a in args[1:]: A = s.ex(a, A)
                return A | {s.key(s.strip(args[0]))}
            if t:
                for a in args: A = s.arg(a, '', A)
                if e['n'] in ASSIGNING: return A | {t}
                if t not in A: s.read(o, A, None if e.get('const') or e['n'] in ('operator++', 'operator--', 'operator*', 'operator->', 'operator[]') else 'call of %s' % e['n'])
                return A
            if e.get('obj') is not None: A = s.ex(e['obj'], A)
            pt = e.get('pt') or []
            for i, a in enumerate(args): A = s.arg(a, pt[i] if i < len(pt) else '', A)
            return A
        if k == 'construct':
            pt = e.get('pt') or []
            for i, a in enumerate(e['args']): A = s.arg(a, pt[i] if i < len(pt) else '', A)
            return A
        if k == 'cond':
            A = s.ex(e['c'], A); return s.ex(e['a'], A) & s.ex(e['b'], A)
        if k == 'bin' and e['op'] in ('&&', '||'):
            A = s.ex(e['l'], A); s.ex(e['r'], A); return A
        if k == 'un' and e.get('op') == '&' and s.key(s.strip(e['e'])):
            s.read(s.strip(e['e']), A, 'address taken'); return A
        for f, v in e.items():
            if f not in ('k', 'ln') and isinstance(v, (dict, list)): A = s.ex(v, A)
        return A
    def arg(s, a, t, A):
        x = s.strip(a); k = s.key(x)
        if k and k not in A and t.rstrip().endswith(('&', '*')) and 'const' not in t:
            s.read(x, A, 'passed by reference'); return A
        return s.ex(a, A)
    # statement: (assigned on normal exit or None when it never falls through)
    def st(s, n, A):
        if n is None or A is None: return A
        if isinstance(n, list):
            for x in n: A = s.st(x, A)
            return A
        k = n['k']
        if k == 'block': return s.st(n['s'], A)
        if k == 'expr': return s.ex(n['e'], A)
        if k == 'return': s.ex(n.get('e'), A); return None
        if k == 'decl':
            for d in n['d']:
                if d.get('static'): 
                    s.ex(d.get('init'), A)
                    # bound once: reading it later reads what the first call put there
                else: A = s.ex(d.get('init'), A)
            return A
        if k == 'if':
            A = s.ex(n['c'], A); x = s.st(n.get('a'), A); y = s.st(n.get('b'), A) if n.get('b') else A
            return y if x is None else x if y is None else x & y
        if k in ('while', 'for', 'do'):
            if k == 'for' and n.get('init'): A = s.st(n['init'], A) if isinstance(n['init'], dict) and n['init'].get('k') in ('decl', 'expr', 'block', 'nop') else s.ex(n['init'], A)
            if k == 'do':
                B = s.st(n.get('body'), A); return s.ex(n.get('c'), A if B is None else B)
            A = s.ex(n.get('c'), A)
            B = s.st(n.get('body'), A); s.ex(n.get('inc'), A if B is None else B)
            return A
        if k == 'switch':
            A = s.ex(n['c'], A); body = n.get('body') or {}; out = []; fall = None; has = False
            for x in (body.get('s') or []) if body.get('k') == 'block' else [body]:
                while x and x.get('k') in ('case', 'default'):
                    has = has or x['k'] == 'default'; fall = A if fall is None else fall & A; x = x.get('s')
                if x is None: continue
                if x.get('k') == 'break': out.append(fall); fall = None; continue
                if fall is None: fall = A
                brk = []; walk(x, lambda y: brk.append(1) if y.get('k') == 'break' else None)
                fall2 = s.st(x, fall)
                if brk: out.append(fall)
                fall = fall2
            if fall is not None: out.append(fall)
            if not has: out.append(A)
            out = [o for o in out if o is not None]
            if not out: return None
            r = out[0]
            for o in out[1:]: r = r & o
            return r
        if k in ('break', 'continue'): return A
        return s.ex({x: v for x, v in n.items() if x != 'k'}, A)

def vkey(e):
    while isinstance(e, dict) and e.get('k') == 'cast': e = e['e']
    if isinstance(e, dict) and e.get('k') == 'ref' and e.get('dk') in ('static', 'global'):
        return ('g', e.get('qn') or e['name']) if e['dk'] == 'global' else ('s', e['id'])
def root(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'member', 'index'): e = e.get('b') if e['k'] != 'cast' else e['e']
    if isinstance(e, dict) and e.get('k') == 'call' and e.get('obj') is not None and e['n'] in ('operator[]', 'operator()', 'operator*', 'at', 'front', 'back', 'begin'): return root(e['obj'])
    return e
def writes(e, out):
    """variables with static storage this node may change"""
    k = e.get('k'); c = []
    if k == 'assign': c.append(e['l'])
    elif k == 'un' and e.get('op') in ('++', '--', '&'): c.append(e['e'])
    elif k in ('call', 'construct'):
        if k == 'call' and e.get('obj') is not None and not e.get('const') and not e.get('static'): c.append(e['obj'])
        for a, t in zip(e['args'], e.get('pt') or []):
            if t.rstrip().endswith('&') and not re.match(r'const\b', t): c.append(a)
    elif k == 'var' and e.get('init') and e['t'].rstrip().endswith('&') and not re.match(r'const\b', e['t']): c.append(e['init'])
    for x in c:
        w = vkey(root(x))
        if w: out.add(w)

def p23(c):
    p = c.p; n = 0
    fns = [f for f in p.fns.values() if not f['qn'].startswith('bflsa_driver::')]
    # variables with static storage that something writes after their initialisation
    const = set(); written = set()
    for f in fns: walk([f.get('body'), f.get('inits')], lambda e: writes(e, written))
    for f in fns:
        walk([f.get('body'), f.get('inits')], lambda e: const.add(('s', e['id'])) if e.get('k') == 'var' and e.get('static') and (re.match(r'const\b', e['t']) or ('s', e['id']) not in written) and e.get('init') and not hasparam(e['init']) else None)
    for q, g in p.globals.items():
        if g['const'] or ('g', q) not in written: const.add(('g', q))
    rng = [f for f in fns if f['qn'].split('::')[-1] in ('rnorm', 'runif') and '/rng/' in f['file']]
    if not rng: raise AnalysisError('P23: the generator functions are gone')
    engines = {q for q, g in p.globals.items() if '/rng/' in g['file']}
    for f in sorted(fns, key=lambda f: (f['file'], f['ln'], f['qn'])):
        s = S1(f); nm = fname(f); body = [f.get('inits'), f.get('body')]
        c.fns[f['id']] = f; n += 1
        sv = set(); calls = []
        def see(e):
            if e.get('k') == 'ref' and e.get('dk') in ('static', 'global'):
                q = e.get('qn') or e['name']
                if e['dk'] == 'static':
                    if ('s', e['id']) not in const and not re.match(r'const\b', e['t']): sv.add(('s', e['id']))
                    elif ('s', e['id']) not in const: sv.add(('s', e['id']))
                elif q in STREAMS or q.startswith('std::ios') or ('g', q) in const or re.match(r'const\b', e['t']): pass
                elif q == 'std::cin': calls.append((q, e['ln'], 'input'))
                elif q in p.globals or not q.startswith(('std::', 'boost::', 'Eigen::')):
                    if not (q in engines and '/rng/' in f['file']): sv.add(('g', q))
            if e.get('k') in ('call', 'construct') and not e.get('inroot'):
                for r, w in FORBID:
                    if re.search(r, e['qn'].split('<')[0] if r.startswith('^(') else e['qn']): calls.append((e['qn'].split('<')[0], e['ln'], w))
                if re.search(r'random::\w+_engine|random::\w+_distribution|uniform_real|variate_generator|normal_distribution', e['qn']) and '/rng/' not in f['file']: calls.append((e['qn'].split('<')[0], e['ln'], 'a generator of its own'))
        walk(body, see)
        c.add('%s: reads no clock, environment, input or other random source' % nm, s.loc, 'violated' if calls else 'ok', '; '.join('line %s: %s (%s)' % (l, q, w) for q, l, w in calls))
        if not sv: continue
        d = Carry(f, sv)
        A = d.ex(f.get('inits'), frozenset()); d.st(f.get('body'), frozenset(A))
        bad = sorted({(v, l) for v, l, _ in d.bad}); un = sorted({(v, l, w) for v, l, w in d.unsure})
        o = '%s: nothing is carried over from an earlier call in a static or global variable' % nm
        if bad: c.add(o, s.loc, 'violated', '; '.join('%s is read at line %s before this call has set it' % x for x in bad))
        elif un: c.undecided(o, s, '; '.join('%s, line %s: %s' % x for x in un))
        else: c.add(o, s.loc, 'ok', '')
    for f in sorted(rng, key=lambda f: (f['ln'])): generator(c, f, engines)
    return n

PURE = re.compile(r'^(std::)?(sqrt|exp|log|pow|fabs|abs|sin|cos|tan|atan|atan2|max|min|floor|ceil|numeric_limits)\b')
def hasparam(e):
    r = []
    walk([e], lambda x: r.append(1) if x.get('k') in ('this', 'member') or x.get('k') == 'call' and not PURE.match(x['qn']) or x.get('k') == 'ref' and x.get('dk') in ('param', 'local') else None)
    return bool(r)
def fname(f): return '::'.join(x for x in strip_targs(f['qn']).split('::') if x not in ('BFL', 'MatrixWrapper')) + '(' + ', '.join(short(q['t']) for q in f['params']) + ')'
class S1:
    def __init__(s, f): s.fn = f; s.loc = '%s:%s' % (f['file'].split('/src/')[-1], f['ln'])

class Und(Exception): pass
class Viol(Exception): pass
Z = ('call', 'std_normal', (), 'S'); Uu = ('call', 'std_uniform', (), 'S')

class Gen:
    """values in the generator functions: numbers as terms over one standard draw, distributions and generators as records"""
    def __init__(s, p, f, engines, pv=None): s.p = p; s.f = f; s.env = {}; s.eng = engines; s.draws = []; s.pv = pv if pv is not None else [('call', 'p_%d' % i, (), 'S') for i in range(len(f['params']))]
    def glob(s, q):
        g = s.p.globals.get(q)
        if g is None: raise Und('variable ' + q)
        if '_engine<' in g['t'] and 'variate_generator' not in g['t']:
            return ('engine', q)
        return s.ev(g['init'])
    def ev(s, e):
        k = e['k']
        if k == 'cast': return s.ev(e['e'])
        if k in ('lit', 'flit'): return num(Fraction(str(e['v'])))
        if k == 'ref':
            if e['dk'] == 'param': return s.pv[[q['name'] for q in s.f['params']].index(e['name'])]
            if e['dk'] == 'global': return s.glob(e.get('qn') or e['name'])
            if e['dk'] == 'static': raise Viol('line %s: %s keeps the parameters or state of the first call' % (e['ln'], e['name']))
            if e.get('id') in s.env: return s.env[e['id']]
            raise Und('variable ' + e['name'])
        if k == 'bin' and e['op'] in ('+', '-', '*', '/'):
            a, b = s.ev(e['l']), s.ev(e['r'])
            if a[0] in ('engine', 'dist', 'gen') or b[0] in ('engine', 'dist', 'gen'): raise Und('arithmetic')
            return {'+': add, '-': sub, '*': mul, '/': div}[e['op']](a, b)
        if k == 'un' and e['op'] == '-': return neg(s.ev(e['e']))
        if k == 'construct':
            cl = strip_targs(base_type(e['cls'])).split('::')[-1]; a = [s.ev(x) for x in e['args']]
            if e.get('copy') or (len(a) == 1 and a[0][0] in ('engine', 'dist', 'gen')):
                if a[0][0] == 'engine': raise Viol('line %s: draws from a copy of the generator, whose numbers come again' % e['ln'])
                return a[0]
            if cl == 'normal_distribution': return ('dist', add(a[0] if a else ZERO, mul(a[1] if len(a) > 1 else ONE, Z)))
            if cl in ('uniform_real', 'uniform_real_distribution'):
                lo, hi = (a + [ZERO, ONE])[:2] if not a else (a[0], a[1] if len(a) > 1 else ONE)
                return ('dist', add(lo, mul(sub(hi, lo), Uu)))
            if cl in ('uniform_01',): return ('dist', Uu)
            if cl == 'variate_generator':
                if '&' not in e['cls'].split(', boost')[0] and not re.search(r'>\s*&', e['cls']): raise Viol('line %s: holds a copy of the generator, whose numbers come again' % e['ln'])
                if a[0][0] != 'engine' or a[1][0] != 'dist': raise Und('generator')
                return ('gen', a[0][1], a[1][1])
            if '_engine' in cl: raise Viol('line %s: a generator of its own, which starts anew' % e['ln'])
            raise Und('construct ' + cl)
        if k == 'call':
            o = s.ev(e['obj']) if e.get('obj') is not None else None; a = [s.ev(x) for x in e['args']]
            if e['n'] == 'seed': raise Viol('line %s: the generator is seeded again' % e['ln'])
            if e['n'] == 'operator()' and o:
                if o[0] == 'gen': s.draws.append(o[1]); return o[2]
                if o[0] == 'dist' and a and a[0][0] == 'engine': s.draws.append(a[0][1]); return o[1]
            if e['n'] in ('reset', 'engine', 'distribution') and o: return o
            if e.get('inroot') and e['f'] in s.p.fns:
                for x, t in zip(a, e.get('pt') or []):
                    if x[0] == 'engine' and not t.rstrip().endswith('&'): raise Viol('line %s: draws from a copy of the generator, whose numbers come again' % e['ln'])
                g = Gen(s.p, s.p.fns[e['f']], s.eng, a); t = g.run(); s.draws += g.draws
                return t
            raise Und('call of ' + e['qn'][:60])
        raise Und(k)
    def run(s):
        for x in s.f['body']['s']:
            if x['k'] == 'decl':
                for d in x['d']:
                    if d.get('static'):
                        if hasparam(d.get('init')): raise Viol('line %s: %s keeps the parameters of the first call' % (d['ln'], d['name']))
                        if '_engine<' in d['t'] and 'variate' not in d['t']: raise Viol('line %s: a second generator' % d['ln'])
                    s.env[d['id']] = s.ev(d['init'])
            elif x['k'] == 'return': return s.ev(x['e'])
            elif x['k'] == 'expr':
                if '__assert_fail' in repr(x): continue
                s.ev(x['e'])
            else: raise Und(x['k'])
        raise Und('no return')

def generator(c, f, engines):
    s = S1(f); nm = fname(f); g = Gen(c.p, f, engines); P = lambda i: ('call', 'p_%d' % i, (), 'S')
    np_ = len(f['params'])
    want = add(P(0), mul(P(1), Z)) if f['qn'].endswith('rnorm') else Uu if np_ == 0 else add(P(0), mul(sub(P(1), P(0)), Uu))
    what = '%s: one number of the requested distribution' % nm
    try:
        t = g.run()
    except Viol as x: return c.add(what, s.loc, 'violated', str(x))
    except (Und, KeyError, TypeError, IndexError, ValueError, AttributeError) as x: return c.undecided(what, s, str(x))
    c.add(what, s.loc, 'ok' if t == want else 'violated', 'draws %s instead of %s' % (show(t), show(want)) if t != want else '')
    c.add('%s: exactly one draw from the shared generator' % nm, s.loc, 'ok' if len(g.draws) == 1 else 'violated', str(g.draws))
    first = c.__dict__.setdefault('_eng', g.draws[0] if g.draws else None)
    c.add('%s: the generator is the same as for the other functions' % nm, s.loc, 'ok' if not g.draws or g.draws[0] == first else 'violated', '%s and %s' % (g.draws, first))
