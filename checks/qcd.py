"""C22 running QCD parameters, C27 input parameters."""
import math
from hypothesis import strategies as st
from vf import gen, params, ref_qcd
from vf.core import Check, Sub, call, fail, outcome

import wcxf                                        # noqa: F401
from wcxf.util import qcd
from wcxf.translators import wet as twet

LOW = {3: 0.9, 4: 1., 5: 2., 6: 50.}
HIGH = {3: 50., 4: 500., 5: 3000., 6: 1e4}
SPECIAL = {3: [1.3, 2., 2, 1., 4.8], 4: [1.3, 4.8, 4.18, 1.27, 2, 2., 91.1876],
           5: [4.8, 4.18, 91.1876, 2, 2., 170., 1.3e2, 10], 6: [170., 91.1876, 160, 1000]}
FUN = ['alpha_s', 'm_b', 'm_c', 'm_s']
NF = {'alpha_s': [3, 4, 5, 6], 'm_b': [3, 4, 5, 6], 'm_c': [3, 4, 5],
      'm_s': [3, 4, 5]}
MASS = {'m_b': (3.9, 4.5), 'm_c': (1.15, 1.45), 'm_s': (0.06, 0.14)}
MNICE = {'m_b': [4.18, 4.2, 4.], 'm_c': [1.27, 1.3, 1.28], 'm_s': [0.095, 0.1]}


@st.composite
def good(draw):
    f = draw(st.sampled_from(FUN))
    nf = draw(st.sampled_from(NF[f]))
    a = draw(st.one_of(st.none(), st.sampled_from([0.1185, 0.118, 0.12]),
                       st.floats(0.112, 0.123)))
    m = None
    sc = [st.sampled_from(SPECIAL[nf]),
          st.floats(math.log(LOW[nf]), math.log(HIGH[nf]))
          .map(lambda l: float('%.8g' % math.exp(l)))
          .filter(lambda s: LOW[nf] <= s <= HIGH[nf])]
    if f != 'alpha_s':
        m = draw(st.one_of(st.sampled_from(MNICE[f]), st.floats(*MASS[f])))
        if m >= LOW[nf]:
            sc.append(st.just(m))
    if f == 'm_c':
        m = ref_qcd.snap(m)
    s = draw(st.one_of(*sc))
    s = ref_qcd.snap(s, *([] if m is None else [m]))
    near = draw(st.integers(0, 5)) == 0
    if near:        # close to, but not at the scale where the input is defined
        nf = {'alpha_s': 5, 'm_b': 5, 'm_c': 4, 'm_s': 3}[f]
        s = {'alpha_s': ref_qcd.MZ, 'm_s': 2.}.get(f, m)
        s *= 1 + draw(st.sampled_from([1, -1])) * 10**draw(st.floats(-5., -2.5))
    elif draw(st.integers(0, 5)) == 0:      # far from where the theory applies
        s = ref_qcd.snap(float('%.8g' % math.exp(draw(st.floats(-.05, 11.5)))),
                         *([] if m is None else [m]))
        near = True
    elif f == 'alpha_s' and nf >= 5 and draw(st.integers(0, 5)) == 0:
        s = math.exp(draw(st.floats(9., 39.)))          # up to the Planck scale
        s = int(s) if draw(st.booleans()) else float('%.8g' % s)
        near = True
    return {'f': f, 'm': m, 'scale': s, 'nf': nf, 'a': a, 'near': near,
            'kw': draw(st.booleans())}


def run(op):
    fn = getattr(qcd, op['f'])
    args = ([] if op['m'] is None else [op['m']]) + [op['scale'], op['nf']]
    if op['a'] is None:
        return fn(*args)
    if op['kw']:
        return fn(*args, alphasMZ=op['a'])
    return fn(*(args + [op['a']]))


def ref(op):
    a = 0.1185 if op['a'] is None else op['a']
    if op['f'] == 'alpha_s':
        return ref_qcd.alpha_s(op['scale'], op['nf'], a)
    return getattr(ref_qcd, op['f'])(op['m'], op['scale'], op['nf'], a)


def check(op):
    v = call(run, op)
    r = ref(op)
    if not isinstance(v, float) and not isinstance(v, int) or not abs(v - r) <= 1e-8 * abs(r):
        fail('%s(%s) in %d-flavour QCD at %r GeV = %r, expected %r',
             op['f'], op['m'], op['nf'], op['scale'], v, r)
    if not 0 < v < (100 if op.get('near') else 10):
        fail('%s = %r', op['f'], v)
    return v


def prop_value(op):
    check(op)
    return {op['f']: 1, 'nf%d' % op['nf']: 1}


def prop_ode(op):
    if op['near']:      # see ref_qcd.snap
        return {}
    v = call(run, op)
    a = 0.1185 if op['a'] is None else op['a']
    if op['f'] == 'alpha_s':
        r = ref_qcd.ode(a, 1., op['scale'], op['nf'], op['scale'], op['nf'])[0]
        tol = 1e-6
    else:
        mu0, nf0 = {'m_b': (op['m'], 5), 'm_c': (op['m'], 4), 'm_s': (2., 3)}[op['f']]
        r = ref_qcd.ode(a, op['m'], mu0, nf0, op['scale'], op['nf'])[1]
        tol = 4e-2
    if not abs(v - r) <= tol * r:
        fail('%s (%d flavours, %r GeV) = %r but the RGE gives %r', op['f'],
             op['nf'], op['scale'], v, r)
    return {op['f']: 1}


@st.composite
def bad(draw):
    f = draw(st.sampled_from(FUN))
    kind = draw(st.sampled_from(['scale', 'scaletype', 'nf', 'nftype', 'nf6']))
    m = None if f == 'alpha_s' else MNICE[f][0]
    s, nf = 17.5, draw(st.sampled_from([3, 4, 5]))
    if kind == 'scale':
        s = draw(st.sampled_from([0, 0., -1, -2.5, -91.1876, -1e-9,
                                   float('nan'), float('-inf')]))
    elif kind == 'scaletype':
        s = draw(st.sampled_from(['10', None, '91.1876']))
    elif kind == 'nf':
        nf = draw(st.sampled_from([2, 7, 0, -5, 1, 50]))
    elif kind == 'nftype':
        nf = draw(st.sampled_from([5.0, 4.0, 3.0, '5', None, 4.5]))
    else:
        nf = 6 if f in ('m_c', 'm_s') else 7
    return {'f': f, 'm': m, 'scale': s, 'nf': nf, 'a': draw(st.sampled_from([None, 0.12])),
            'kw': draw(st.booleans()), 'bad': kind}


def prop_bad(op):
    s, r = outcome(run, op)
    if s == 'ok':
        fail('%s accepted scale=%r, flavours=%r and returned %r', op['f'],
             op['scale'], op['nf'], r)
    if not isinstance(r, ValueError):
        fail('%s(scale=%r, flavours=%r) raised %r', op['f'], op['scale'],
             op['nf'], r)
    return {op['bad']: 1}


@st.composite
def twin(draw):
    """calls that look alike: same numbers as int/float, valid and invalid"""
    f = draw(st.sampled_from(FUN))
    m = None if f == 'alpha_s' else draw(st.sampled_from(MNICE[f]))
    s = draw(st.sampled_from([5, 10, 20]))
    nf = draw(st.sampled_from(NF[f][:3]))
    v = draw(st.integers(0, 3))
    if v == 0:
        return {'f': f, 'm': m, 'scale': float(s), 'nf': nf, 'a': None, 'kw': False}
    if v == 1:
        return {'f': f, 'm': m, 'scale': s, 'nf': nf, 'a': None, 'kw': False}
    if v == 2:
        return {'f': f, 'm': m, 'scale': s, 'nf': nf, 'a': 0.1185, 'kw': True}
    return {'f': f, 'm': m, 'scale': s, 'nf': float(nf), 'a': None,
            'kw': False, 'bad': 'twin'}


history = st.lists(st.one_of(good(), good(), twin(), bad()), min_size=2, max_size=60)


def prop_history(ops):
    """cached results do not leak between calls"""
    seen = {}
    for op in ops + ops[::-1]:
        if 'bad' in op:
            prop_bad(op)
            continue
        v = check(op)
        k = (op['f'], op['m'], float(op['scale']), op['nf'],
             0.1185 if op['a'] is None else op['a'])
        if k in seen and abs(seen[k] - v) > 1e-12 * abs(v):
            fail('repeated call %r: %r then %r', k, seen[k], v)
        seen[k] = v
    return {'calls': 2 * len(ops)}


c22 = [Sub('values', good(), prop_value, 500, 20000,
           'every call is a running over a finite range or a boundary value; '
           'distinct by (function, mass, scale, flavours, alpha_s)'),
       Sub('rge', good(), prop_ode, 150, 3000,
           'independent numerical solution of the RGE'),
       Sub('reject', bad(), prop_bad, 80, 500, 'an invalid scale or flavour number'),
       Sub('history', history, prop_history, 60, 1500,
           'at least one call repeated after others',
           lambda c, l: len(c) > 2)]


# --- C27 --------------------------------------------------------------------------
CONST = ['m_W', 'm_Z', 'GF', 'alpha_e', 'Vus', 'Vub', 'Vcb', 'gamma',
         'm_e', 'm_mu', 'm_tau']


@st.composite
def par_case(draw):
    nf = draw(st.sampled_from([3, 4, 5]))
    s = draw(st.one_of(st.sampled_from(SPECIAL[nf]),
                       st.floats(max(2., LOW[nf]), HIGH[nf])
                       .map(lambda s: ref_qcd.snap(float('%.8g' % s)))))
    p = draw(gen.overrides())
    if p is not None and draw(st.booleans()):
        # values that are handed through may also vanish
        for k in draw(st.lists(st.sampled_from(CONST), max_size=3, unique=True)):
            p = dict(p, **{k: draw(st.sampled_from([0., 0, 1, -0.5]))})
    return {'scale': s, 'nf': nf, 'params': p,
            'default_f': nf == 5 and draw(st.booleans())}


def get(case):
    p = None if case['params'] is None else dict(case['params'])
    if case['default_f']:
        return twet.get_parameters(case['scale'], input_parameters=p)
    return twet.get_parameters(case['scale'], case['nf'], p)


def prop_par(case):
    snap = dict(wcxf.parameters.p)
    p = params.full(case['params'])
    out = call(get, case)
    for k in CONST:
        if k not in out or out[k] != p[k]:
            fail('%s = %r, expected %r', k, out.get(k), p[k])
    run_ = {'m_b': ref_qcd.m_b(p['m_b'], case['scale'], case['nf'], p['alpha_s']),
            'm_s': ref_qcd.m_s(p['m_s'], case['scale'], case['nf'], p['alpha_s']),
            'alpha_s': ref_qcd.alpha_s(case['scale'], case['nf'], p['alpha_s'])}
    for k, r in run_.items():
        if k not in out or not abs(out[k] - r) <= 1e-8 * abs(r):
            fail('%s(%r GeV, %d flavours) = %r, expected %r', k, case['scale'],
                 case['nf'], out.get(k), r)
    if dict(wcxf.parameters.p) != snap:
        fail('default parameters changed')
    # the next call without overrides sees the defaults again
    d = params.full()
    again = call(twet.get_parameters, case['scale'], case['nf'])
    for k in CONST:
        if again[k] != d[k]:
            fail('override of %s survives: %r', k, again[k])
    if not abs(again['m_b'] - ref_qcd.m_b(d['m_b'], case['scale'], case['nf'])) < 1e-7:
        fail('override of m_b survives')
    return {'overridden': bool(case['params'])}


def prop_defaults(case):
    """defaults are the documented ones"""
    for k, v in params.DEFAULTS.items():
        if wcxf.parameters.p.get(k) != v:
            fail('default %s = %r', k, wcxf.parameters.p.get(k))


c27 = [Sub('parameters', par_case(), prop_par, 200, 5000,
           'at least one input parameter is overridden',
           lambda c, l: bool(c['params'])),
       Sub('defaults', st.just({}), prop_defaults, 1, 1, 'constant')]



def _jobs():
    """reference comparisons of every conversion that takes parameters"""
    from . import matching, smeft, wet
    out = {}
    for m, ids in ((wet, 'C14 C15 C16 C17 C18'), (smeft, 'C11 C12'),
                   (matching, 'C20')):
        for i in ids.split():
            for s in m.CHECKS[i].subs:
                if not s.name.startswith(('roundtrip', 'alone', 'unknown',
                                          'weinberg')):
                    out['%s/%s' % (i, s.name)] = s
    return out


JOBS = _jobs()


@st.composite
def e2e_case(draw):
    j = draw(st.sampled_from(sorted(JOBS)))
    c = dict(draw(JOBS[j].strategy))
    if not c.get('params'):
        c['params'] = draw(gen.overrides().filter(bool))
    return {'job': j, 'case': c}


def prop_e2e(case):
    snap = dict(wcxf.parameters.p)
    l = JOBS[case['job']].prop(case['case']) or {}
    if dict(wcxf.parameters.p) != snap:
        fail('default parameters changed')
    l['job ' + case['job']] = 1
    return l


def setup_e2e():
    from . import common
    common.install()


c27.append(Sub('conversions', e2e_case(), prop_e2e, 120, 3000,
               'a conversion with overridden parameters gives at least one '
               'non-zero coefficient',
               lambda c, l: l.get('outputs', 1), setup=setup_e2e))

CHECKS = {'C22': Check('C22', c22), 'C27': Check('C27', c27)}
