"""Reference for FlavorKit <-> JMS: operator names plus index reversal, then
reduction to the independent JMS coefficient."""
import json
import os
from . import env
from . import flavour as fl

NAMES = {
    'DSRR': 'S1ddRR', 'DVLL': 'VddLL', 'DVRR': 'VddRR', 'DVLR': 'V1ddLR',
    'DVRL': 'V1ddLR',
    'FVLL': 'VnudLL', 'FVRL': 'VnudLR',
    'ESRR': 'SedRR', 'ESLR': 'SedRL', 'ETRR': 'TedRR', 'EVLL': 'VedLL',
    'EVRR': 'VedRR', 'EVLR': 'VdeLR', 'EVRL': 'VedLR',
    'AVLL': 'VeeLL', 'AVRR': 'VeeRR', 'AVLR': 'VeeLR', 'ASRR': 'SeeRR',
    'BVLL': 'VedLL', 'BVRR': 'VedRR', 'BVLR': 'VedLR', 'BSRL': 'SedRL',
    'BSRR': 'SedRR', 'BTRR': 'TedRR',
    'CVLL': 'VeuLL', 'CVRR': 'VeuRR', 'CVLR': 'VeuLR', 'CSRL': 'SeuRL',
    'CSRR': 'SeuRR', 'CTRR': 'TeuRR',
    'Q1R': 'dgamma', 'Q2R': 'dG',
    'GVLL': 'VnueduLL', 'GVRL': 'VnueduLR', 'GSLL': 'SnueduRR',
    'GSRL': 'SnueduRL', 'K2R': 'egamma',
}
# quark pair first in FlavorKit, lepton (or left-handed) pair first in JMS
PAIRSWAP = {'FVLL', 'FVRL', 'ESRR', 'ESLR', 'ETRR', 'EVLL', 'EVRR', 'EVRL',
            'DVRL'}

with open(os.path.join(env.VERIF, 'data', 'flavorkit_keys.json')) as _f:
    KEYS = json.load(_f)


def to_jms_key(k):
    """(JMS key, conjugated?)"""
    n, s = k.split('_')
    i = [int(c) - 1 for c in s]
    if n[0] == 'G':                    # d u nu l, hermitian conjugate
        a, b, c, d = i
        return fl.jms_element('' + NAMES[n], (c, d, a, b))[0], True
    if len(i) == 2:
        return fl.jms_element(NAMES[n], (i[1], i[0]))
    a, b, c, d = i
    idx = (d, c, b, a) if n in PAIRSWAP else (b, a, d, c)
    return fl.jms_element(NAMES[n], idx)


TABLE = {k: to_jms_key(k) for k in KEYS}


def _norm(k, p):
    if not k.startswith('K2R'):
        return 1.
    m = [p['m_e'], p['m_mu'], p['m_tau']][int(k[4]) - 1]
    return p['e'] * m / 2


def fk_to_jms(x, p):
    out = {}
    for k, v in x.items():
        j, c = TABLE[k]
        out[j] = _norm(k, p) * (complex(v).conjugate() if c else v)
    return out


def jms_to_fk(x, p):
    out = {}
    inv = {j: (k, c) for k, (j, c) in TABLE.items()}
    for j, v in x.items():
        if j in inv:
            k, c = inv[j]
            out[k] = (complex(v).conjugate() if c else v) / _norm(k, p)
    return out
