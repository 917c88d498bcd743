"""Documented default Standard Model inputs and derived parameter sets."""
from math import pi, sqrt
import ckmutil.ckm
from . import ref_qcd

DEFAULTS = {
    'm_W': 80.385, 'm_Z': 91.1876, 'GF': 1.1663787e-5, 'alpha_e': 1 / 127.9,
    'alpha_s': 0.1185, 'Vus': 0.2243, 'Vub': 3.62e-3, 'Vcb': 4.221e-2,
    'gamma': 1.27, 'm_b': 4.18, 'm_s': 0.095, 'm_e': 0.0005109989461,
    'm_mu': 0.1056583745, 'm_tau': 1.77686,
}


def full(overrides=None):
    p = dict(DEFAULTS)
    p.update(overrides or {})
    return p


def ckm(p):
    return ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])


def at_scale(scale, overrides=None):
    """Parameters in five-flavour QCD at the given scale."""
    p = full(overrides)
    q = dict(p)
    q['m_b'] = ref_qcd.m_b(p['m_b'], scale, 5, p['alpha_s'])
    q['m_s'] = ref_qcd.m_s(p['m_s'], scale, 5, p['alpha_s'])
    q['alpha_s'] = ref_qcd.alpha_s(scale, 5, p['alpha_s'])
    q['e'] = sqrt(4 * pi * p['alpha_e'])
    q['gs'] = sqrt(4 * pi * q['alpha_s'])
    q['V'] = ckm(p)
    return q
