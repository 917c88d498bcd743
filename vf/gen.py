"""Generators of Wilson coefficient inputs.

A case holds either an explicit input  'x': {key: [re, im]}  or a dense one
'dense': {seed, mode, mag}: every key of the basis gets a value that is a pure
function of (seed, key).  `values(case, keys)` gives key -> python number,
`wc_values` the WCxf file encoding of the same numbers.
"""
import hashlib
import math
import random
from hypothesis import strategies as st
from . import ref_qcd

MODES = ['complex', 'real', 'imag', 'pos', 'int', 'mixed', 'mixed', 'equal',
         'same', 'near', 'neg']


def _u(seed, key):
    h = hashlib.blake2b(('%d/%s' % (seed, key)).encode(), digest_size=16).digest()
    a = int.from_bytes(h[:8], 'big') / 2.**64
    b = int.from_bytes(h[8:], 'big') / 2.**64
    return a, b


def dense_value(seed, key, mode, mag, real):
    if mode == 'equal':             # degenerate: one number per operator
        key, mode = key.split('_')[0] if '_' in key else '', 'complex'
    elif mode == 'same':            # one number for all
        key, mode = '', 'complex'
    a, b = _u(seed, key)
    s1 = 1 if int(a * 1e6) % 2 else -1
    s2 = 1 if int(b * 1e6) % 2 else -1
    x, y = s1 * (0.1 + 0.9 * a), s2 * (0.1 + 0.9 * b)
    m = 10. ** mag
    if mode == 'mixed':             # a different kind of number for every key
        c = int(a * 1e9) % 8
        mode = ['complex', 'complex', 'real', 'imag', 'pos', 'int', 'small', 'zero'][c]
        if mode == 'zero':
            return 0j
        if mode == 'small':
            mode, m = 'complex', m * 1e-3
    if mode == 'int':
        return complex(s1 * (1 + int(a * 9)), 0 if real else s2 * int(b * 9))
    if mode in ('pos', 'neg'):
        x, y = abs(x), 0.
        if mode == 'neg':
            x = -x
    elif mode == 'near':            # almost real or almost imaginary
        x, y = (x, 1e-4 * y) if int(b * 1e9) % 3 or real else (1e-4 * x, y)
    elif mode == 'real':
        y = 0.
    elif mode == 'imag':
        x, y = (x, 0.) if real else (0., y)
    if real:
        y = 0.
    return complex(x * m, y * m)


NICE = [1., -1., 0.5, 2., 1e-6, -3e-7, 1e-9, 7.3, 0.0]


def comp():
    return st.one_of(
        st.sampled_from(NICE),
        st.floats(0.01, 1.).map(lambda f: float('%.6g' % f)),
        st.floats(-1., -0.01).map(lambda f: float('%.6g' % f)),
        st.floats(-1e-3, 1e-3, allow_subnormal=False)
        .filter(lambda f: f == 0 or abs(f) > 1e-12),
        st.integers(-9, 9).map(float))


def number(real):
    if real:
        return comp().map(lambda a: [a, 0.])
    return st.one_of(st.tuples(comp(), comp()).map(list),
                     comp().map(lambda a: [a, 0.]),
                     comp().map(lambda a: [0., a]))


def groups(keys):
    g = {}
    for k in keys:
        g.setdefault(k.split('_')[0] if '_' in k else k[:3], []).append(k)
    return g


@st.composite
def sparse(draw, keys, n=6):
    ks = draw(st.lists(st.sampled_from(list(keys)), min_size=1, max_size=n,
                       unique=True))
    return {k: draw(number(keys[k])) for k in ks}


def inputs(keys, dense=True, n=6):
    """strategy for {'x': ...} or {'dense': ...}"""
    keys = dict(keys)
    alts = [sparse(keys, n).map(lambda x: {'x': x}),
            sparse(keys, 1).map(lambda x: {'x': x}),
            st.integers(0, 3).flatmap(lambda i: sparse(keys, 2).map(
                lambda x: {'x': x if i else {}}))]
    if dense:
        d = st.fixed_dictionaries({
            'seed': st.integers(0, 2**30), 'mode': st.sampled_from(MODES),
            'mag': st.sampled_from([0, 0, -6, -7, -9, -3, 1, -14, -25])})
        alts.append(d.map(lambda v: {'dense': v}))
        g = sorted(groups(keys))
        alts.append(st.tuples(d, st.lists(st.sampled_from(g), min_size=1,
                                          max_size=3, unique=True))
                    .map(lambda t: {'dense': dict(t[0], groups=sorted(t[1]))}))
        alts.append(st.tuples(d, st.sampled_from(['all'] * 6 + sorted(MASKS))).map(
            lambda t: {'dense': dict(t[0], mask=t[1])}))
        alts.append(st.tuples(d, st.integers(0, 2**20)).map(
            lambda t: {'dense': dict(t[0], drop=t[1])}))
    return st.one_of(*alts)


# flavour structures: which elements of the arrays are present
MASKS = {
    'diag': lambda i: all(i[j] == i[j + 1] for j in range(0, len(i) - 1, 2)),
    'same': lambda i: len(set(i)) == 1,
    'cross': lambda i: len(i) == 4 and i[0] == i[3] and i[1] == i[2],
    'offdiag': lambda i: i[0] != i[1],
    'lower': lambda i: list(i) == sorted(i, reverse=True),
    'no3': lambda i: '3' not in i,
    'one3': lambda i: i.count('3') == 1,
    'no1': lambda i: '1' not in i,
    'different': lambda i: len(set(i)) == min(3, len(i)),
}


def masked(mask, key):
    i = key.split('_')[-1] if '_' in key else ''
    return mask in MASKS and i.isdigit() and len(i) > 1 and not MASKS[mask](i)


def values(case, keys):
    """key -> complex"""
    if 'x' in case:
        return {k: complex(v[0], v[1]) for k, v in case['x'].items()}
    d = case['dense']
    g = d.get('groups')
    out = {}
    for k, real in keys.items():
        if g is not None and (k.split('_')[0] if '_' in k else k[:3]) not in g:
            continue
        if 'drop' in d and _u(d['drop'], k)[0] < 0.6:
            continue
        if masked(d.get('mask'), k):
            continue
        out[k] = dense_value(d['seed'], k, d['mode'], d['mag'], real)
    return out


def explicit_with(keysf):
    """explicit() function of a Sub: dense case -> case with all values."""
    def f(case):
        if 'x' in case:
            return case
        v = values(case, keysf(case) if callable(keysf) else keysf)
        c = {k: w for k, w in case.items() if k != 'dense'}
        c['x'] = {k: [z.real, z.imag] for k, z in v.items()}
        return c
    return f


def enc(z, how=0):
    """WCxf file encoding of a number (several equivalent ones)."""
    if z.imag == 0 and how % 2 == 0:
        if how == 2 and z.real == int(z.real) and abs(z.real) < 1e9:
            return int(z.real)
        return z.real
    d = {'Re': z.real, 'Im': z.imag}
    if how % 4 == 3:
        d = {k: v for k, v in d.items() if v != 0}
    return d


def wc_values(x, how=0, order=None):
    ks = list(x)
    if order is not None:
        random.Random(order).shuffle(ks)
    # from 4 on a mixture of the encodings
    return {k: enc(complex(x[k]), how if how < 4 else int(4 * _u(how, k)[1]))
            for k in ks}


def hows():
    return st.integers(0, 7)


# --- physics parameters ------------------------------------------------------
_R = {
    'm_W': (79., 82.), 'm_Z': (90., 93.), 'GF': (1e-5, 1.4e-5),
    'alpha_e': (1 / 140., 1 / 120.), 'alpha_s': (0.11, 0.125),
    'Vus': (0.15, 0.3), 'Vub': (1e-3, 1e-2), 'Vcb': (0.02, 0.06),
    'gamma': (0.3, 2.7), 'm_b': (3.9, 4.5), 'm_s': (0.06, 0.14),
    'm_e': (3e-4, 8e-4), 'm_mu': (0.08, 0.14), 'm_tau': (1.5, 2.),
}


# far from nature, but with a real weak mixing angle
# (4 pi alpha_e < sqrt(2) GF m_Z^2)
_FAR = {
    'm_W': (60., 85.), 'm_Z': (90., 130.), 'GF': (1e-5, 1e-4),
    'alpha_e': (1 / 200., 1 / 120.), 'alpha_s': (0.08, 0.125),
    'Vus': (0.01, 0.5), 'Vub': (1e-5, 0.05), 'Vcb': (1e-3, 0.2),
    'gamma': (-3.1, 6.2), 'm_b': (3., 6.), 'm_s': (0.01, 0.3),
    'm_e': (1e-5, 0.01), 'm_mu': (0.01, 0.5), 'm_tau': (0.5, 5.),
}


# integers are as good as any other number
_SPECIAL = {'gamma': [1, 2], 'm_W': [80, 81], 'm_Z': [91, 92],
            'm_b': [4], 'm_tau': [2]}


def overrides():
    """None or a subset of the input parameters with changed values."""
    @st.composite
    def sub(draw, lo=1, hi=len(_R)):
        ks = draw(st.lists(st.sampled_from(sorted(_R)), min_size=lo,
                           max_size=hi, unique=True))
        far = draw(st.integers(0, 3)) == 0
        d = {}
        for k in ks:
            a, b = _FAR[k] if far and draw(st.booleans()) else _R[k]
            d[k] = float('%.9g' % draw(st.floats(a, b)))
            if k == 'gamma' and abs(math.sin(d[k])) < 0.01:
                d[k] = 2.5              # ckmutil has no finite result at 0
            if k in _SPECIAL and draw(st.integers(0, 3)) == 0:
                d[k] = draw(st.sampled_from(_SPECIAL[k]))
        if draw(st.booleans()):
            d['unused_parameter'] = 3.
        return d
    return st.one_of(st.none(), st.sampled_from([{}, {'m_c': 1.2}, {'x': 'y'}]),
                     sub(), sub(), sub(hi=1), sub(lo=len(_R)))


SCALES5 = [91.1876, 4.18, 4.8, 80.385, 160., 2., 10., 120, 5, 1000., 1., 1e4, 1e5]


def _logscale(lo, hi):
    return st.floats(math.log(lo), math.log(hi)).map(
        lambda l: ref_qcd.snap(float('%.8g' % min(hi, max(lo, math.exp(l))))))


def scale5():
    """scales at which five-flavour QCD running is well defined"""
    return st.one_of(
        st.sampled_from(SCALES5), st.integers(1, 500),
        _logscale(2., 2000.), _logscale(2., 2000.), _logscale(1., 1e5))


def anyscale():
    return st.one_of(st.sampled_from([91.1876, 160, 1000., 1e4, 246.22]),
                     st.floats(1., 1e6).map(lambda f: float('%.8g' % f)))


def close(got, ref, amp=0., rel=1e-9, aeps=1e-12):
    if not (math.isfinite(got.real) and math.isfinite(got.imag)):
        return False
    return abs(got - ref) <= rel * abs(ref) + aeps * amp
