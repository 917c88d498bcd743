"""C20: SMEFT -> WET matching at the electroweak scale."""
from hypothesis import strategies as st
from vf import bases, gen, params, ref_smeft, ref_wet
from vf.core import Check, Sub, call, fail
from . import common as cm

K = bases.keys
AEPS = 1e-13


def match(case, b1, b2, x):
    wc = cm.make_wc('SMEFT', b1, x, case['scale'], case['how'], case['order'])
    out = call(wc.match, 'WET', b2, parameters=cm.pcopy(case['params']))
    return cm.result(out, 'WET', b2, case['scale'])


# magnitudes as they occur for new physics scales from 0.3 to 100 TeV; the
# matching is not linear, so very large inputs are unphysical (v^2 C > 1)
def small(keys):
    return cm.point(keys).map(_shrink)


def _shrink(c):
    if 'dense' in c:
        d = dict(c['dense'])
        if d['mode'] == 'int':
            d['mode'] = 'complex'
        d['mag'] = min(d['mag'], 0) - 6 if d['mag'] > -6 else d['mag']
        c = dict(c, dense=d)
    else:
        c = dict(c, x={k: [v[0] * 1e-6, v[1] * 1e-6] for k, v in c['x'].items()})
    return c


def _nz(ref):
    return {k: v for k, v in ref.items()}


def prop_up(case):
    x = gen.values(case, K('SMEFT', 'Warsaw up'))
    out = match(case, 'Warsaw up', 'JMS', x)
    ref = ref_smeft.match(x, case['params'])
    xm = max([abs(v) for v in x.values()] or [0])
    ref = {k: (complex(v), a + 10 * xm) for k, (v, a) in ref.items()}
    return {'outputs': cm.compare(out, ref, 1e-9, AEPS),
            'params': bool(case['params']), 'dense': 'dense' in case}


def prop_warsaw(case):
    x = gen.values(case, K('SMEFT', 'Warsaw'))
    out = match(case, 'Warsaw', 'JMS', x)
    up = ref_smeft.warsaw_to_up(x, case['params'])
    ref = ref_smeft.match(up, case['params'])
    xm = max([abs(v) for v in x.values()] or [0])
    ref = {k: (complex(v), a + 10 * xm) for k, (v, a) in ref.items()}
    return {'outputs': cm.compare(out, ref, 1e-9, AEPS)}


TAB = {'flavio': ref_wet.jms_to_flavio, 'EOS': ref_wet.jms_to_eos,
       'Bern': ref_wet.jms_to_bern}


@st.composite
def path_case(draw):
    c = draw(small(K('SMEFT', 'Warsaw')))
    c['to'] = draw(st.sampled_from(sorted(TAB)))
    return c


def prop_path(case):
    """the direct matchers: reference matching followed by the reference
    translation at the scale of the input"""
    x = gen.values(case, K('SMEFT', 'Warsaw'))
    out = match(case, 'Warsaw', case['to'], x)
    up = ref_smeft.warsaw_to_up(x, case['params'])
    m = ref_smeft.match(up, case['params'])
    p = params.at_scale(case['scale'], case['params'])
    jms = {k: complex(v) for k, (v, a) in m.items()}
    amp = {k: a for k, (v, a) in m.items()}
    ref = ref_wet.evaluate(TAB[case['to']](), jms, p)
    am = ref_wet.evaluate(TAB[case['to']](), amp, p)
    ref = {k: (v, a * 1e-9 + am[k][1] * 1e-11) for k, (v, a) in ref.items()}
    n = cm.compare(out, ref, 1e-7, 1.)
    # and, by the code itself, the two-step way gives the same
    wc = cm.make_wc('SMEFT', 'Warsaw', x, case['scale'], 0)
    pp = lambda: cm.pcopy(case['params'])
    two = call(lambda: wc.match('WET', 'JMS', parameters=pp())
               .translate(case['to'], parameters=pp()).dict)
    for k in set(out) | set(two):
        tol = 1e-9 * abs(out.get(k, 0)) + (ref[k][1] if k in ref else 0)
        if abs(complex(out.get(k, 0)) - complex(two.get(k, 0))) > tol:
            fail('%s: direct matching %r, via JMS %r', k, out.get(k, 0), two.get(k, 0))
    return {'outputs': n, case['to']: 1}


# lepton and baryon number violating coefficients: a JMS basis that has them
_KNV = {k: r for k, r in K('SMEFT', 'Warsaw').items()
        if k.split('_')[0] in ('llphiphi', 'duql', 'qque', 'qqql', 'duue')
        or k in ('phil3_11', 'phil3_22', 'll_1221', 'phiWB')}


@st.composite
def nv_case(draw):
    c = draw(small(_KNV))
    c['from'] = draw(st.sampled_from(['Warsaw', 'Warsaw up']))
    return c


def prop_nv(case):
    import wcxf
    x = gen.values(case, _KNV)
    sec = bases.sectors('WET', 'JMS')
    sec['nv'] = {k: {'tex': 'O'} for k in ref_smeft.nv_keys()}
    wcxf.Basis(eft='WET', basis='JMS', sectors=sec)
    try:
        out = match(case, case['from'], 'JMS', x)
    finally:
        bases.install([('WET', 'JMS')])
    up = x if case['from'] == 'Warsaw up' else ref_smeft.warsaw_to_up(x, case['params'])
    ref = ref_smeft.match_nv(up, case['params'])
    xm = max([abs(v) for v in x.values()] or [0])
    got = {k: v for k, v in out.items() if k in ref}
    return {'outputs': cm.compare(got, {k: (v, 1e3 * xm if k[:2] != 'nu' else 0.)
                                        for k, v in ref.items()}, 1e-9, 1e-15),
            'params': bool(case['params'])}


_ku, _kw = K('SMEFT', 'Warsaw up'), K('SMEFT', 'Warsaw')
SUBS = [
    Sub('warsaw-up-jms', small(_ku), prop_up, 60, 1500, cm.RULE, cm.nontriv,
        gen.explicit_with(_ku), cm.install),
    Sub('warsaw-jms', small(_kw), prop_warsaw, 40, 1000, cm.RULE, cm.nontriv,
        gen.explicit_with(_kw), cm.install),
    Sub('warsaw-to-others', path_case(), prop_path, 60, 1200, cm.RULE,
        cm.nontriv, gen.explicit_with(_kw), cm.install),
    Sub('number-violating', nv_case(), prop_nv, 40, 1000, cm.RULE,
        cm.nontriv, gen.explicit_with(_KNV), cm.install)]
SUBS += [cm.each('alone%d-%s' % (i, s.name), s, lambda c, k=k: k, 0.04, **e)
         for i in range(3)
         for s, k, e in ((SUBS[0], _ku, {}), (SUBS[1], _kw, {}),
                         (SUBS[2], _kw, {'to': st.sampled_from(sorted(TAB))}))]


def known_multiplicity():
    """Z exchange from phid_23: relative to (s_R b_R)(c_R c_R) the coefficient
    of (s_R b_R)(b_R b_R), whose operator appears once in the WCxf Lagrangian,
    is a factor two too small."""
    cm.install()
    import wcxf
    w = wcxf.WC('SMEFT', 'Warsaw up', 91.1876, {'phid_23': 1e-6})
    d = call(lambda: w.match('WET', 'JMS').dict)
    a = complex(d.get('VddRR_2333', 0))       # Z: (phid)(g_bR)
    b = complex(d.get('VedRR_1123', 0))       # Z: (phid)(g_eR)
    # quark and lepton right-handed Z couplings: 1/3 and 1 (times s_W^2)
    if abs(a) > 0 and abs(a / (b / 3) - 0.5) < 1e-6:
        return 'identical-current-multiplicity'
    return None


CHECKS = {'C20': Check('C20', SUBS, known=[known_multiplicity])}
