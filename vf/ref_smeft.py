"""Reference for the SMEFT side: coefficient tensors, flavour rotations,
Warsaw / Warsaw up / Warsaw mass, and tree-level matching onto the WET
(arXiv:1709.04486, tables 9-17), written with explicit tensors."""
import itertools
from functools import lru_cache
from math import pi, sqrt
import numpy as np
from . import flavour as fl
from . import params


@lru_cache(1)
def _filling():
    """name -> list of (index, [(coefficient, key, conj)])"""
    out = {}
    for n, s in fl.SMEFT_SYM.items():
        d = 2 if s.endswith('2') else 4
        out[n] = [(idx, fl.smeft_element(n, idx))
                  for idx in itertools.product(range(3), repeat=d)]
    return out


def tensors(x):
    """Full coefficient tensors from the independent coefficients x."""
    T = {}
    names = {k.split('_')[0] for k in x}
    for n, rows in _filling().items():
        d = 2 if fl.SMEFT_SYM[n].endswith('2') else 4
        a = np.zeros((3,) * d, dtype=complex)
        if n in names:
            for idx, terms in rows:
                v = 0
                for c, k, conj in terms:
                    y = x.get(k, 0)
                    v += c * (np.conj(y) if conj else y)
                a[idx] = v
        T[n] = a
    for n in fl.SMEFT_0F:
        T[n] = complex(x.get(n, 0)).real
    return T


def symmetrized(name, arr):
    """Tensor with all dependent elements rebuilt from the independent ones
    of `arr` (imaginary parts of self-conjugate elements dropped)."""
    out = np.zeros_like(np.asarray(arr, dtype=complex))
    for idx, terms in _filling()[name]:
        v = 0
        for c, k, conj in terms:
            r = tuple(int(i) - 1 for i in k.split('_')[1])
            y = arr[r]
            if _real(name, r):
                y = np.real(y)
            v += c * (np.conj(y) if conj else y)
        out[idx] = v
    return out


@lru_cache(None)
def _real(name, idx):
    s = fl.SMEFT_SYM[name]
    return False if s == 'qqql' else fl.rep(idx, s)[2]


def rotate(name, a, U):
    """U: dict field -> 3x3 matrix; psi = U psi'."""
    fields = fl.SMEFT_FIELDS[name].split()
    for pos, f in enumerate(fields):
        m = U[f[0]]
        if f.endswith('~'):
            m = m.conj()
        a = np.moveaxis(np.tensordot(m, a, axes=(0, pos)), 0, pos)
    return a


def keys_of(T, keys):
    out = {}
    for k in keys:
        n, _, ind = k.partition('_')
        if ind:
            out[k] = T[n][tuple(int(i) - 1 for i in ind)]
        else:
            out[k] = T[n]
    return out


def rotate_q(x, Uq):
    I = np.eye(3)
    U = {'q': Uq, 'u': I, 'd': I, 'l': I, 'e': I}
    T = tensors(x)
    return {n: (rotate(n, a, U) if n in fl.SMEFT_FIELDS else a)
            for n, a in T.items()}


def warsaw_to_up(x, overrides=None):
    V = params.ckm(params.full(overrides))
    return keys_of(rotate_q(x, V.conj().T), fl.smeft_keys())


def up_to_warsaw(x, overrides=None):
    V = params.ckm(params.full(overrides))
    return keys_of(rotate_q(x, V), fl.smeft_keys())


MASS_ROT = ['uphi', 'uG', 'uW', 'uB']


def warsaw_mass_keys():
    return [k for k in fl.smeft_keys()
            if k not in ('llphiphi_12', 'llphiphi_13', 'llphiphi_23')]


def warsaw_to_mass(x, overrides=None):
    """Everything but the singular values of the Weinberg operator."""
    V = params.ckm(params.full(overrides))
    T = tensors(x)
    out = {k: v for k, v in x.items() if not k.startswith('llphiphi')}
    for n in MASS_ROT:
        a = V @ T[n]
        for i in range(3):
            for j in range(3):
                out[fl.key(n, (i, j))] = a[i, j]
    s = np.linalg.svd(T['llphiphi'], compute_uv=False)
    return out, sorted(s)


# --- matching ----------------------------------------------------------------
def _couplings(T, p):
    d = {}
    dGF = -sqrt(2) / 4 * (-T['ll'][1, 0, 0, 1] - T['ll'][0, 1, 1, 0]
                          + 2 * T['phil3'][1, 1] + 2 * T['phil3'][0, 0])
    v2 = 1 / sqrt(2) / abs(p['GF'] + dGF)
    v = sqrt(v2)
    wb = T['phiWB']
    ep = wb * v2
    g2 = 2 * p['m_W'] / v
    e0 = sqrt(4 * pi * p['alpha_e'])
    g1 = e0 * g2 / sqrt(g2**2 - e0**2) + e0**2 * g2 / (g2**2 - e0**2) * ep
    r = sqrt(g1**2 + g2**2)
    mix = ep / 2 * (g2**2 - g1**2) / r**2
    sb = g1 / r * (1 + mix * g2 / g1)
    cb = g2 / r * (1 - mix * g1 / g2)
    e = g2 * sb - cb * g2 * v2 * wb / 2
    gz = e / (sb * cb) * (1 + r**2 / (2 * g1 * g2) * v2 * wb)
    I = np.eye(3)
    z = {}
    h = v2 / 2
    s2 = sb**2
    z['nuL'] = I / 2 + h * (T['phil3'] - T['phil1'])
    z['eL'] = I * (s2 - 0.5) - h * (T['phil1'] + T['phil3'])
    z['eR'] = I * s2 - h * T['phie']
    z['uL'] = I * (0.5 - 2 / 3 * s2) + h * (T['phiq3'] - T['phiq1'])
    z['uR'] = -2 / 3 * s2 * I - h * T['phiu']
    z['dL'] = I * (s2 / 3 - 0.5) - h * (T['phiq1'] + T['phiq3'])
    z['dR'] = s2 / 3 * I - h * T['phid']
    d.update(z=z, v=v, sb=sb, cb=cb, GZ=gz**2 / p['m_Z']**2,
             GW=g2**2 / (2 * p['m_W']**2),
             wl=I + v2 * T['phil3'], wq=I + v2 * T['phiq3'],
             wr=h * T['phiud'])
    return d


def _outer(a, b):
    return np.einsum('pr,st->prst', a, b)


def _jms_tensors(T, p):
    c = _couplings(T, p)
    z, GZ, GW = c['z'], c['GZ'], c['GW']
    wl, wq, wr = c['wl'], c['wq'], c['wr']
    O = {'G': T['G'], 'Gtilde': T['Gtilde']}
    k = c['v'] / sqrt(2)
    O['egamma'] = k * (c['cb'] * T['eB'] - c['sb'] * T['eW'])
    O['dgamma'] = k * (c['cb'] * T['dB'] - c['sb'] * T['dW'])
    O['ugamma'] = k * (c['cb'] * T['uB'] + c['sb'] * T['uW'])
    O['uG'] = k * T['uG']
    O['dG'] = k * T['dG']

    def Z(a, b, f=1.):
        return -f * GZ * _outer(z[a], z[b])

    def cross(t):      # prst -> ptsr
        return np.transpose(t, (0, 3, 2, 1))

    def swap(t):       # prst -> stpr
        return np.transpose(t, (2, 3, 0, 1))
    zero = np.zeros((3, 3, 3, 3), dtype=complex)

    def same(a, t):    # purely leptonic, identical currents
        y = Z(a, a, 0.25)
        return t + y + cross(y)
    O['VnunuLL'] = same('nuL', T['ll'])
    O['VeeLL'] = same('eL', T['ll'])
    O['VeeRR'] = same('eR', T['ee'])
    O['VnueLL'] = (T['ll'] + swap(T['ll']) + Z('nuL', 'eL')
                   - GW * np.einsum('pt,rs->prst', wl, wl.conj()))
    O['VnuuLL'] = T['lq1'] + T['lq3'] + Z('nuL', 'uL')
    O['VnudLL'] = T['lq1'] - T['lq3'] + Z('nuL', 'dL')
    O['VeuLL'] = T['lq1'] - T['lq3'] + Z('eL', 'uL')
    O['VedLL'] = T['lq1'] + T['lq3'] + Z('eL', 'dL')
    O['VnueduLL'] = 2 * T['lq3'] - GW * np.einsum('pr,ts->prst', wl, wq.conj())
    qq = T['qq1'] + T['qq3']
    O['VuuLL'] = qq + Z('uL', 'uL', 0.5)
    O['VddLL'] = qq + Z('dL', 'dL', 0.5)
    dq = T['qq1'] - T['qq3']
    x3 = cross(T['qq3']) + np.transpose(T['qq3'], (2, 1, 0, 3))
    ww = np.einsum('pt,rs->prst', wq, wq.conj())
    O['V1udLL'] = dq + swap(dq) + 2 / 3 * x3 - GW * ww / 3 + Z('uL', 'dL')
    O['V8udLL'] = 4 * x3 - 2 * GW * ww
    wwr = np.einsum('pt,rs->prst', wr, wr.conj())
    O['VeuRR'] = T['eu'] + Z('eR', 'uR')
    O['VedRR'] = T['ed'] + Z('eR', 'dR')
    O['VuuRR'] = T['uu'] + Z('uR', 'uR', 0.5)
    O['VddRR'] = T['dd'] + Z('dR', 'dR', 0.5)
    O['V1udRR'] = T['ud1'] + Z('uR', 'dR') - GW * wwr / 3
    O['V8udRR'] = T['ud8'] - 2 * GW * wwr
    O['VnueLR'] = T['le'] + Z('nuL', 'eR')
    O['VeeLR'] = T['le'] + Z('eL', 'eR')
    O['VnuuLR'] = T['lu'] + Z('nuL', 'uR')
    O['VnudLR'] = T['ld'] + Z('nuL', 'dR')
    O['VeuLR'] = T['lu'] + Z('eL', 'uR')
    O['VedLR'] = T['ld'] + Z('eL', 'dR')
    O['VueLR'] = T['qe'] + Z('uL', 'eR')
    O['VdeLR'] = T['qe'] + Z('dL', 'eR')
    O['VnueduLR'] = -GW * np.einsum('pr,ts->prst', wl, wr.conj())
    O['V1uuLR'] = T['qu1'] + Z('uL', 'uR')
    O['V1udLR'] = T['qd1'] + Z('uL', 'dR')
    O['V1duLR'] = T['qu1'] + Z('dL', 'uR')
    O['V1ddLR'] = T['qd1'] + Z('dL', 'dR')
    O['V8uuLR'] = O['V8duLR'] = T['qu8']
    O['V8udLR'] = O['V8ddLR'] = T['qd8']
    O['V1udduLR'] = -GW * np.einsum('pr,ts->prst', wq, wr.conj())
    O['SedRL'] = O['SnueduRL'] = T['ledq']
    O['SeuRR'], O['SnueduRR'] = -T['lequ1'], T['lequ1']
    O['TeuRR'], O['TnueduRR'] = -T['lequ3'], T['lequ3']
    O['S1udRR'], O['S8udRR'] = T['quqd1'], T['quqd8']
    O['S1udduRR'] = -swap(T['quqd1'])
    O['S8udduRR'] = -swap(T['quqd8'])
    for n in ('V8udduLR', 'SeuRL', 'SeeRR', 'SedRR', 'TedRR', 'S1uuRR',
              'S8uuRR', 'S1ddRR', 'S8ddRR'):
        O[n] = zero
    return O


# chirality of the two indices of every bilinear: barred index d_L?
def _dL_positions(name):
    """positions (index, barred) of left-handed down quarks."""
    rng = fl.JMS_RANGE[name]
    if len(rng) == 2:          # dipole: psibar_L sigma psi_R
        return [(0, True)] if rng[0] == 'd' else []
    kind, ch = name[0], name[-2:]
    pos = []
    for cur in (0, 1):
        a, b = 2 * cur, 2 * cur + 1
        c = ch[cur]
        if kind == 'V':        # psibar_c gamma psi_c
            left_bar = left = c == 'L'
        else:                  # psibar P_c psi: the barred field is opposite
            left_bar, left = c == 'R', c == 'L'
        if rng[a] == 'd' and left_bar:
            pos.append((a, True))
        if rng[b] == 'd' and left:
            pos.append((b, False))
    return pos


def match(x_up, overrides=None, rotate_down=True):
    """WET JMS coefficients from 'Warsaw up' coefficients, SM subtracted.
    Returns dict key -> (value, size of the cancelling SM piece)."""
    p = params.full(overrides)
    T = tensors(x_up)
    T0 = {n: 0 * a for n, a in T.items()}
    A, B = _jms_tensors(T, p), _jms_tensors(T0, p)
    V = params.ckm(p)
    R = {}
    for n in A:
        t = A[n] - B[n]
        amp = np.abs(A[n]).max() + np.abs(B[n]).max()
        if n in fl.JMS_RANGE:
            for pos, bar in _dL_positions(n):
                m = V.conj() if bar else V
                t = np.moveaxis(np.tensordot(m, t, axes=(0, pos)), 0, pos)
        R[n] = (t, amp)
    out = {}
    for k in fl.jms_keys('WET'):
        n, _, ind = k.partition('_')
        t, amp = R[n]
        out[k] = (t[tuple(int(i) - 1 for i in ind)] if ind else t, amp)
    return out


# --- lepton and baryon number violation ---------------------------------------
# Weak isospin expanded by hand from the Warsaw operators (eps_12 = +1); a field
# pair (a b) stands for a^T C b and is symmetric up to the colour sign:
#   llphiphi  (H.l)(H.l)             -> v^2/2 (nu nu)
#   duql      (d u)(q.l)             -> (d u)(uL eL) - (d u)(dL nuL)
#   qque      (q.q)(u e)             -> -(dL uL)(u e), both orders
#   duue      (d u)(u e)
#   qqql      (q.q)(q.l), the contraction of the matching table in use
NV_RANGE = {'nu': ('n', 'n'), 'SuddLL': ('u', 'D', 'D', 'n'),
            'SduuLL': ('D', 'u', 'u', 'e'), 'SduuLR': ('D', 'u', 'u', 'e'),
            'SduuRL': ('d', 'u', 'u', 'e'), 'SdudRL': ('d', 'u', 'D', 'n'),
            'SduuRR': ('d', 'u', 'u', 'e'), 'SuudLR': ('u', 'u', 'd', 'e'),
            'SuudRL': ('u', 'u', 'D', 'e'), 'SdduRL': ('d', 'd', 'u', 'n')}


def nv_keys():
    out = []
    for n, r in NV_RANGE.items():
        for i in itertools.product(*[range(1, 3 if f == 'u' else 4) for f in r]):
            if n == 'nu' and i[0] > i[1]:
                continue
            out.append(n + '_' + ''.join(map(str, i)))
    return out


def match_nv(x_up, overrides=None):
    """number violating JMS coefficients: key -> value"""
    p = params.full(overrides)
    T = tensors(x_up)
    v = _couplings(T, p)['v']
    sw = lambda t: t + np.swapaxes(t, 0, 1)
    O = {'nu': T['llphiphi'] * v**2 / 2, 'SuddLL': -sw(T['qqql']),
         'SduuLL': -sw(T['qqql']), 'SduuLR': -sw(T['qque']),
         'SduuRL': T['duql'], 'SdudRL': -T['duql'], 'SduuRR': T['duue']}
    V = params.ckm(p)
    out = {}
    for n, r in NV_RANGE.items():
        t = O.get(n)
        if t is not None:
            for pos, f in enumerate(r):
                if f == 'D':       # an unbarred left-handed down quark
                    t = np.moveaxis(np.tensordot(V, t, axes=(0, pos)), 0, pos)
        O[n] = t
    for k in nv_keys():
        n, _, ind = k.partition('_')
        out[k] = (0j if O[n] is None else
                  complex(O[n][tuple(int(i) - 1 for i in ind)]))
    return out
