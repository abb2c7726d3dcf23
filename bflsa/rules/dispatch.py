"""Every Update overload hands exactly the given models and values to the
filter step, and each filter step applies exactly the given models, system
before measurement."""
from ..rule import *

def leaves_par(t):
    return T.any_sub(t, lambda x: x[0] == 'init' and x[1][0][0] == 'par')

def p09(c):
    fs = [f for f in c.find('Filter::Update') if f['qn'].split('<')[0].endswith('Filter') and f['cls'].split('<')[0].split('::')[-1] == 'Filter']
    n = 0
    for f in fs:
        ps = f['params']
        roles = {}
        isys = [i for i, p in enumerate(ps) if 'SystemModel' in p['t']]; ims = [i for i, p in enumerate(ps) if 'MeasurementModel' in p['t']]
        if not isys and not ims: continue
        if isys: roles['system model'] = isys[0]
        if ims: roles['measurement model'] = ims[0]
        vals = [i for i in range(len(ps)) if i not in isys + ims]
        for i in vals:
            if ims and i > ims[0]: roles['measurement' if i == ims[0] + 1 else 'sensor parameters'] = i
            else: roles['input'] = i
        nm = 'Update(%s) [%s]' % (', '.join(sorted(roles, key=roles.get)), f['qn'][f['qn'].index('<'):f['qn'].rindex('>') + 1].replace('MatrixWrapper::', ''))
        s = c.run(f)
        if not s.ok: c.undecided(nm, s, s.err); continue
        ef = s.effects('call', name='UpdateInternal')
        c.holds(s, nm + ': exactly one filter step', len(ef) == 1 and ef[0][0] == TRUE, 'calls: %s' % [(show(e[0]), e[3]) for e in ef])
        if len(ef) != 1: continue
        args = ef[0][2][2]
        order = ['system model', 'input', 'measurement model', 'measurement', 'sensor parameters']
        for j, r in enumerate(order):
            got = X(args[1 + j])
            if r in roles: c.eq(s, nm + ': ' + r + ' passed on', got, s.arg(roles[r]))
            elif 'model' in r: c.eq(s, nm + ': no ' + r, got, NULLX)
            else: c.holds(s, nm + ': no ' + r + ' invented from another argument', leaves_par(got.t) is None, show(got.t))
        c.eq(s, nm + ': result of the step is returned', s.ret, X(('call', 'UpdateInternal', tuple(args), 'B')))
        n += 1
    if n < 8: raise AnalysisError('P09: only %d Update overloads found' % n)
    f = c.find('KalmanFilter::UpdateInternal')[0]
    s = c.run(f)
    step(c, s, 'Kalman step', 'SysUpdate', 'MeasUpdate')
    for f in c.find('HistogramFilter::UpdateInternal'):
        s = c.run(f, opaque=('HistogramFilter::SysUpdate', 'HistogramFilter::MeasUpdate'))
        step(c, s, 'histogram step', 'SysUpdate', 'MeasUpdate')

def step(c, s, nm, a, b):
    if not s.ok: return c.undecided(nm, s, s.err)
    pn = {p['name']: i for i, p in enumerate(s.fn['params'])}
    sm = [i for i, p in enumerate(s.fn['params']) if 'SystemModel' in p['t']][0]; mm = [i for i, p in enumerate(s.fn['params']) if 'MeasurementModel' in p['t']][0]
    ea = s.effects('call', name=a); eb = s.effects('call', name=b)
    if not ea or not eb: return c.undecided(nm + ': steps', s, 'no separate system and measurement steps found')
    def once(es, arg, w):
        g = FALSE
        for e in es: g = or_(g, e[0])
        c.eq(s, '%s: %s update exactly when its model is given' % (nm, w), X(g), arg.ne(NULLX))
        for e in es: c.eq(s, '%s: %s update uses the given model' % (nm, w), X(e[2][2][1]), arg)
    once(ea, s.arg(sm), 'system'); once(eb, s.arg(mm), 'measurement')
    order = [e[2][0].split('::')[-1] for e in s.r.st.effects if e[1] == 'call' and e[2][0].split('::')[-1] in (a, b)]
    c.holds(s, nm + ': system update comes first', order.index(a) < order.index(b) and b not in order[:order.index(a)], str(order))
    for e in ea: c.eq(s, nm + ': system update gets the input', X(e[2][2][2]), s.arg(sm + 1))
    for e in eb:
        c.eq(s, nm + ': measurement update gets the measurement', X(e[2][2][2]), s.arg(mm + 1))
        c.eq(s, nm + ': measurement update gets the sensor parameters', X(e[2][2][3]), s.arg(mm + 2))
