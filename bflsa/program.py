"""The resolved program: classes and function bodies exported from clang."""
import json, re, hashlib, os, subprocess, sys, tempfile, pathlib, concurrent.futures as cf

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
REPO = pathlib.Path(os.environ.get('BFL_REPO', '/repo'))

class AnalysisError(Exception):
    """the analysis cannot give a verdict (never a pass, never a violation)"""

def strip_targs(s):
    out, d = '', 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '<' and not s.startswith('operator<', max(0, i - 8)): d += 1
        elif ch == '>' and d > 0: d -= 1
        elif d == 0: out += ch
        i += 1
    return out

def base_type(t):
    t = t.strip()
    t = re.sub(r'\bconst\b|\bvolatile\b|\bstruct\b|\bclass\b', '', t)
    t = t.replace('&', '').strip()
    return re.sub(r'\s+', ' ', t)

def short(cls):
    return strip_targs(base_type(cls).rstrip('* ')).split('::')[-1].strip()

def tcode(t):
    b = base_type(t)
    if b.endswith('*'): return 'O'
    if b in ('double', 'float', 'long double', 'BFL::Probability', 'Probability'): return 'S'
    if b in ('int', 'long', 'short', 'char', 'long long', 'signed char'): return 'I'
    if b.startswith('unsigned') or b in ('size_t', 'std::size_t'): return 'U'
    if b == 'bool': return 'B'
    l = b.split('::')[-1]
    if '<' not in b:
        if l in ('Matrix', 'MyMatrix'): return 'M'
        if l in ('ColumnVector', 'MyColumnVector'): return 'V'
        if l in ('RowVector', 'MyRowVector'): return 'R'
        if l in ('SymmetricMatrix', 'MySymmetricMatrix'): return 'Y'
        if l in ('SampleMthd', 'ResampleScheme') or b.endswith('SampleMthd'): return 'I'
    return 'O'

class Program:
    def __init__(self, records, backend):
        self.backend = backend
        self.fns = {}; self.classes = {}; self.errors = 0; self.globals = {}
        for d in records:
            if d['rec'] == 'fn':
                if d['id'] not in self.fns: self.fns[d['id']] = d
            elif d['rec'] == 'cls':
                self.classes.setdefault(d['name'], d)
            elif d['rec'] == 'gvar': self.globals.setdefault(d['qn'], d)
            else: self.errors += d['errors']
        self.renamed, self.missing = {}, set()
        self._canonical()
        self.subs = {}
        for c in self.classes.values():
            for b in c['bases']:
                self.subs.setdefault(base_type(b), set()).add(c['name'])
        self.byname = {}
        for f in self.fns.values():
            nm = strip_targs(f['qn'])
            nm = '::'.join(p for p in nm.split('::') if p)
            self.byname.setdefault(nm, []).append(f)

    def _canonical(self):
        """Rules name data members by the names in fields.json. A member that
        was renamed (same class, type and position among the new members of
        that type) is read under its known name; one that is gone or changed
        its nature is reported as missing and decides nothing."""
        import json
        f = HERE / 'fields.json'
        if not f.exists(): return
        known = json.loads(f.read_text()); shape = lambda t: (tcode(t).replace('U', 'I'), base_type(t).endswith('*'))
        seen = {}
        for c in self.classes.values():
            k = short(c['name'])
            if k in known: seen.setdefault(k, []).append({x['name']: x['t'] for x in c['fields']})
        for k, ks in known.items():
            if k not in seen: continue
            for cur in seen[k][:1]:
                gone = [(n, t) for n, t in ks if n not in cur]; new = [(n, t) for n, t in cur.items() if n not in dict(ks)]
                for same in (lambda a, b: base_type(a) == base_type(b), lambda a, b: shape(a) == shape(b)):
                    for n, t in list(gone):
                        m = [x for x in new if same(x[1], t)]
                        if m: self.renamed[(k, m[0][0])] = n; gone.remove((n, t)); new.remove(m[0])
                self.missing |= {k + '::' + n for n, t in gone}
                self.missing |= {k + '::' + n for n, t in ks if n in cur and shape(cur[n]) != shape(t)}
        if not self.renamed: return
        def walk(x):
            if isinstance(x, dict):
                for a in ('name', 'field'):
                    if 'owner' in x and a in x:
                        r = self.renamed.get((short(x['owner']), x[a]))
                        if r: x[a] = r
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        for fn in self.fns.values(): walk(fn)
        for c in self.classes.values():
            for x in c['fields']: x['name'] = self.renamed.get((short(c['name']), x['name']), x['name'])

    def cls(self, name):
        return self.classes.get(base_type(name).rstrip('* '))

    def fields_all(self, name):
        """(owner,field) of class and bases"""
        c = self.cls(name)
        if not c: return []
        out = []
        for b in c['bases']: out += self.fields_all(b)
        return out + [(c['name'], f) for f in c['fields']]

    def bases_all(self, name):
        c = self.cls(name)
        out = [base_type(name)]
        if c:
            for b in c['bases']: out += self.bases_all(b)
        return out

    def derived_all(self, name):
        out = {base_type(name)}
        st = [base_type(name)]
        while st:
            for s in self.subs.get(st.pop(), ()):
                if s not in out: out.add(s); st.append(s)
        return out

    def _overs(self, m):
        out = set(m['over']); st = list(m['over'])
        while st:
            f = st.pop()
            mm = self.methods_by_id.get(f)
            if mm:
                for o in mm['over']:
                    if o not in out: out.add(o); st.append(o)
        return out

    @property
    def methods_by_id(self):
        if not hasattr(self, '_mbi'):
            self._mbi = {}
            for c in self.classes.values():
                for m in c['methods']: self._mbi[m['id']] = dict(m, cls=c['name'])
        return self._mbi

    def resolve(self, cls, fid):
        """final overrider of virtual method fid in dynamic class cls"""
        c = self.cls(cls)
        if not c: return None
        for m in c['methods']:
            if m['id'] == fid or fid in self._overs(m): return m['id']
        for b in c['bases']:
            r = self.resolve(b, fid)
            if r: return r
        return None

    def cha(self, cls, fid):
        s = set()
        for d in self.derived_all(cls):
            r = self.resolve(d, fid)
            if r: s.add(r)
        return s

    def find(self, name, **kw):
        """all functions with (template-stripped) qualified name 'BFL::X::f'"""
        r = self.byname.get(name, []) or self.byname.get('BFL::' + name, []) or self.byname.get('MatrixWrapper::' + name, [])
        for k, v in kw.items():
            r = [f for f in r if v(f)] if callable(v) else [f for f in r if f.get(k) == v]
        return r

LIB = """wrappers/matrix/matrix_BOOST wrappers/matrix/vector_BOOST wrappers/matrix/matrix_EIGEN wrappers/matrix/vector_EIGEN
wrappers/matrix/matrix_NEWMAT wrappers/matrix/vector_NEWMAT wrappers/matrix/matrix_wrapper wrappers/rng/rng
pdf/analyticconditionalgaussian pdf/conditionalgaussian pdf/gaussian pdf/uniform pdf/conditionalgaussian_additivenoise
pdf/analyticconditionalgaussian_additivenoise pdf/linearanalyticconditionalgaussian pdf/filterproposaldensity pdf/EKF_proposaldensity
pdf/discretepdf pdf/discreteconditionalpdf pdf/nonlinearanalyticconditionalgaussian_ginac
model/analyticmeasurementmodel_gaussianuncertainty model/analyticsystemmodel_gaussianuncertainty
model/linearanalyticsystemmodel_gaussianuncertainty model/linearanalyticmeasurementmodel_gaussianuncertainty model/discretesystemmodel
model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac
model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac filter/iteratedextendedkalmanfilter filter/kalmanfilter
filter/extendedkalmanfilter filter/EKparticlefilter filter/SRiteratedextendedkalmanfilter filter/innovationCheck smoother/rauchtungstriebel""".split()

def lib_sources(src):
    """the library's translation units: the listed ones plus any .cpp the
    CMake files of the current tree register through GLOBAL_ADD_SRC"""
    srcs = list(LIB)
    for cm in sorted(src.glob('**/CMakeLists.txt')):
        for blk in re.findall(r'GLOBAL_ADD_SRC\s*\(([^)]*)\)', cm.read_text(errors='replace')):
            for w in blk.split():
                if w.endswith('.cpp') and w[:-4] not in srcs: srcs.append(w[:-4])
    return [s for s in srcs if (src / (s + '.cpp')).exists()]

DRIVER = (HERE / 'driver.inc')

def tree_hash(src):
    h = hashlib.sha256()
    for p in sorted(list(src.glob('**/*.h')) + list(src.glob('**/*.cpp')) + list(src.glob('**/CMakeLists.txt'))):
        h.update(str(p.relative_to(src)).encode()); h.update(p.read_bytes())
    for p in (VERIF / 'tool' / 'bflx.cpp', DRIVER, HERE / 'program.py'): h.update(p.read_bytes())
    return h.hexdigest()[:24]

def tool():
    b = VERIF / 'build' / 'bflx'
    srcp = VERIF / 'tool' / 'bflx.cpp'
    stamp = VERIF / 'build' / 'bflx.hash'
    h = hashlib.sha256(srcp.read_bytes()).hexdigest()
    # a committed build of exactly this source saves 20 s per run; rebuilt whenever the source differs or it does not load
    pb = VERIF / 'tool' / 'prebuilt' / 'bflx'; ph = VERIF / 'tool' / 'prebuilt' / 'bflx.hash'
    if pb.exists() and ph.exists() and ph.read_text() == h and not os.environ.get('BFL_REBUILD'):
        r = subprocess.run(['ldd', str(pb)], capture_output=True, text=True)
        if r.returncode == 0 and 'not found' not in r.stdout and os.access(pb, os.X_OK): return pb
    if not (b.exists() and stamp.exists() and stamp.read_text() == h):
        r = subprocess.run(['bash', str(VERIF / 'tool' / 'build.sh'), str(b)], capture_output=True, text=True)
        if r.returncode: raise AnalysisError('exporter does not build:\n' + r.stderr[-2000:])
        stamp.write_text(h)
    return b

def run_tool(b, src, backend, text, scr, name):
    u = scr / (name + '.cpp'); u.write_text(text)
    o = scr / (name + '.jsonl')
    inc = []
    for d in ('wrappers/matrix', 'wrappers/rng', 'sample', 'pdf', 'model', 'filter', 'smoother', ''):
        inc.append('-I%s' % (src / d))
        if d.startswith('wrappers'): inc.append('-I%s' % (scr / 'cfg' / d))
    if backend == 'eigen': inc.append('-isystem/usr/include/eigen3')
    cmd = [str(b), str(src), str(o), str(u), '--', '-std=c++11', '-w', '-ferror-limit=0'] + inc
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if r.returncode or not o.exists(): raise AnalysisError('exporter failed on %s: %s' % (name, r.stderr[-1500:]))
    recs = [json.loads(l) for l in o.read_text().splitlines()]
    if not recs or recs[-1].get('rec') != 'end': raise AnalysisError('exporter output incomplete for ' + name)
    errs = [l for l in r.stderr.splitlines() if ' error: ' in l or 'fatal error' in l]
    return recs, errs

def load(backend='boost', repo=None):
    src = (repo or REPO) / 'orocos_bfl' / 'src'
    if not src.is_dir(): raise AnalysisError('no source tree at %s' % src)
    cache = VERIF / 'build' / 'cache'
    h = tree_hash(src)
    cf_ = cache / ('%s-%s.jsonl' % (backend, h))
    if cf_.exists():
        recs = [json.loads(l) for l in cf_.read_text().splitlines()]
        return Program(recs, backend)
    b = tool()
    with tempfile.TemporaryDirectory(prefix='bflsa') as td:
        scr = pathlib.Path(td)
        for d in ('wrappers/matrix', 'wrappers/rng'): (scr / 'cfg' / d).mkdir(parents=True)
        (scr / 'cfg/wrappers/config.h').write_text('#ifndef BFL_WRAPPER_CONFIG_H\n#define BFL_WRAPPER_CONFIG_H\n#define __MATRIXWRAPPER_%s__\n#define __RNGWRAPPER_BOOST__\n#endif\n' % backend.upper())
        srcs = lib_sources(src)
        if len(srcs) < 30: raise AnalysisError('only %d library sources found' % len(srcs))
        inc = lambda s: '#include "%s/%s.cpp"\n' % (src, s)
        drv = DRIVER.read_text()
        recs, errs = run_tool(b, src, backend, ''.join(inc(s) for s in srcs) + drv, scr, 'unity')
        if [e for e in errs if not known_error(e)]:
            # the single-unit view does not type-check (e.g. file-local helpers
            # with equal names): fall back to one unit per source file
            jobs = [('u%d' % i, inc(s)) for i, s in enumerate(srcs)] + [('drv', drv)]
            recs, errs = [], []
            with cf.ThreadPoolExecutor(8) as ex:
                for r, e in ex.map(lambda j: run_tool(b, src, backend, j[1], scr, j[0]), jobs):
                    recs += r; errs += e
            bad = [e for e in errs if not known_error(e)]
            if bad: raise AnalysisError('the tree does not type-check: ' + bad[0])
        cache.mkdir(parents=True, exist_ok=True)
        tmp = cache / ('.%s-%s.%d' % (backend, h, os.getpid()))
        tmp.write_text('\n'.join(json.dumps(r) for r in recs) + '\n')
        tmp.rename(cf_)
        old = sorted(cache.glob('*.jsonl'), key=lambda p: p.stat().st_mtime)
        for p in old[:-8]:
            p.unlink()
    return Program(recs, backend)

# members of class templates that have never compiled when instantiated; the
# driver instantiates whole classes, so clang reports them - they are skipped
KNOWN_UNCOMPILABLE = (
    r'mixture\.h:\d+:\d+: error: no viable conversion from returned value of type .vector<Pdf<',
    r'particlefilter\.cpp:\d+:\d+: error: no matching constructor for initialization of .MCPdf<',
    r'mixtureParticleFilter\.cpp:\d+:\d+: error: no member named .ListOfSamplesGet. in .BFL::(Mixture|Pdf)<',
    r'mixtureParticleFilter\.cpp:\d+:\d+: error: no member named .(ComponentGet|NumComponentsGet). in .BFL::Pdf<',
    r'mixtureParticleFilter\.cpp:\d+:\d+: error: .this. argument to member function .PostGet. has type',
    r'mixtureBootstrapFilter\.cpp:\d+:\d+: error: no matching constructor for initialization of .MixtureParticleFilter<',
)
def known_error(e): return any(re.search(p, e) for p in KNOWN_UNCOMPILABLE)
