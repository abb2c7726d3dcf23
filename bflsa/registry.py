"""property id -> rules; runs them and writes evidence"""
import sys, os, json, time, pathlib, importlib, traceback
from .program import AnalysisError, VERIF, REPO
from . import rule, terms

RULES = {
    'P01': ['discrete:p01'],
    'P02': ['mc:p02'],
    'P03': ['mixture:p03'],
    'P04': ['gaussian:p04'],
    'P08': ['kalman:p08'],
    'P09': ['dispatch:p09'],
    'P10': ['models:p10'],
    'P11': ['condgauss:p11'],
    'P12': ['particle:p12'],
    'P13': ['particle:p13'],
    'P14': ['histogram:p14'],
    'P15': ['sampling:p15'],
    'P28': ['mixfilter:p28'],
    'P24': ['smoother:p24'],
    'P27': ['bookkeeping:p27'],
    'P16': ['sriekf:p16'],
    'P29': ['ekfilter:p29'],
    'P05': ['ownership:p05'],
    'P06': ['ownership:p06'],
    'P26': ['discretecond:p26'],
    'P23': ['effects:p23'],
    'P25': ['initial:p25'],
    'P30': ['access:p30'],
    'P19': ['wrapper:p19@boost', 'wrapper:p19@eigen'],
    'P22': ['mc:moments', 'mixture:moments'],
}

def known():
    f = VERIF / 'known_findings.txt'
    out = []
    if f.exists():
        for l in f.read_text().splitlines():
            l = l.strip()
            if l.startswith('finding: property='):
                pid, rest = l[len('finding: property='):].split(' ', 1)
                key, _, what = rest.partition(' :: ')
                out.append((pid, key.strip(), what.strip()))
    return out

def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    verbose = '-v' in argv
    t0 = time.time()
    obs = []; fns = {}; files = set()
    try:
        for spec in RULES[pid]:
            backend = 'boost'
            if '@' in spec: spec, backend = spec.split('@')
            m, f = spec.split(':')
            c = rule.Ctx(pid, backend, tier)
            if '@' in RULES[pid][0]: c.tag = '[%s] ' % backend
            getattr(importlib.import_module('bflsa.rules.' + m), f)(c)
            obs += c.obs
            for x in c.fns.values(): fns[(backend, x['id'])] = x; files.add(x['file'].split('/src/')[-1])
    except AnalysisError as e:
        print('ERROR property=%s %s' % (pid, e)); return 2
    decided = [o for o in obs if o.status != 'undecided']
    viol = [o for o in obs if o.status == 'violated']
    und = [o for o in obs if o.status == 'undecided']
    if not decided:
        print('ERROR property=%s no obligation could be decided' % pid); return 2
    kf = [(k, w) for p, k, w in known() if p == pid]
    newv = []
    seen = []
    for o in viol:
        m = [w for k, w in kf if k == o.name]
        if m:
            seen.append((o, m[0]))
        else: newv.append(o)
    if verbose:
        for o in obs: print('%-9s %s  (%s) %s' % (o.status, o.name, o.loc, o.detail if o.status != 'ok' else ''))
    for w in sorted({w for _, w in seen}): print('KNOWN-FINDING: property=%s %s' % (pid, w))
    ev = VERIF / 'evidence'; ev.mkdir(exist_ok=True)
    rp = ev / ('%s.violations.txt' % pid)
    if newv:
        rp.write_text('\n'.join('%s: %s: %s\n    %s' % (pid, o.loc, o.name, o.detail) for o in newv) + '\n')
    elif rp.exists(): rp.unlink()
    manifest = json.loads((VERIF / 'MANIFEST.json').read_text())
    mc = {x['property']: x for x in manifest['checks']}.get(pid, {})
    level = mc.get('level', 'other')
    evd = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level, 'wall_s': round(time.time() - t0, 3), 'violations': len(newv),
        'coverage': {
            'explanation': 'Gated value analysis of the type-checked sources: every obligation is an equality or a condition over the summary of an analysed function, valid for all inputs and all states at entry.',
            'obligations': len(obs), 'discharged': len([o for o in obs if o.status == 'ok']), 'undecided': len(und),
            'functions_analysed': sorted({x['qn'] for x in fns.values()}), 'files': sorted(files),
            'obligation_list': ['%s [%s] %s' % (o.name, o.loc, o.status) for o in obs],
            'undecided_list': ['%s [%s] %s' % (o.name, o.loc, o.detail) for o in und],
            'checker_cmd': 'python3 /verif/check.py %s' % pid, 'trusted_base': ['clang 18 front end', '/verif/bflsa value analysis', 'IEEE arithmetic treated as real arithmetic'],
        },
        'assumptions': ['floating point is treated as exact arithmetic', 'documented preconditions (asserted index ranges and sizes) hold at entry'],
    }
    (ev / ('%s.json' % pid)).write_text(json.dumps(evd, indent=1) + '\n')
    for o in newv: print('%s: %s: %s\n    %s' % (o.loc, pid, o.name, o.detail[:1500]))
    if newv:
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    print('OK property=%s obligations=%d undecided=%d functions=%d' % (pid, len(obs), len(und), len(fns)))
    return 0
