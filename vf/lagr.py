"""Operator-level oracle: four-fermion operators as explicit Dirac x colour
tensors, so that two operator bases can be compared by requiring that they
describe the same Lagrangian (4D Fierz identities then come out by themselves).

An operator (psi1bar G psi2)(psi3bar G' psi4) is the coefficient tensor of the
Grassmann monomial  f1bar_a f2_b f3bar_c f4_d  with the barred and unbarred
fields brought into a canonical order; identical fields are antisymmetrised.
"""
import itertools
import numpy as np

# --- Dirac algebra (chiral representation, metric +---) --------------------
_s0 = np.eye(2, dtype=complex)
_sx = np.array([[0, 1], [1, 0]], dtype=complex)
_sy = np.array([[0, -1j], [1j, 0]])
_sz = np.array([[1, 0], [0, -1]], dtype=complex)
_Z = np.zeros((2, 2), dtype=complex)
G0 = np.block([[_Z, _s0], [_s0, _Z]])
GAM = [G0] + [np.block([[_Z, s], [-s, _Z]]) for s in (_sx, _sy, _sz)]
MET = [1, -1, -1, -1]
G5 = 1j * GAM[0] @ GAM[1] @ GAM[2] @ GAM[3]
ID = np.eye(4, dtype=complex)
PL = (ID - G5) / 2
PR = (ID + G5) / 2
P = {'L': PL, 'R': PR, '': ID}


def _gmat(n):
    """products gamma_{m1}...gamma_{mn} with upper/lower index signs."""
    for ms in itertools.product(range(4), repeat=n):
        m = ID
        s = 1
        for i in ms:
            m = m @ GAM[i]
            s *= MET[i]
        yield m, s


def _sigma():
    for m in range(4):
        for n in range(4):
            if m != n:
                yield (1j / 2 * (GAM[m] @ GAM[n] - GAM[n] @ GAM[m]),
                       MET[m] * MET[n])


_structs = {}


def spin_structure(kind, c1, c2):
    """sum over Lorentz indices of (G P_c1) x (G P_c2), shape (4,4,4,4);
    kind: S, V, T (sigma), V3 (gamma^3), V4 (gamma^4)."""
    k = (kind, c1, c2)
    if k not in _structs:
        it = {'S': lambda: [(ID, 1)], 'V': lambda: _gmat(1), 'T': _sigma,
              'V3': lambda: _gmat(3), 'V4': lambda: _gmat(4)}[kind]()
        t = np.zeros((4, 4, 4, 4), dtype=complex)
        for m, s in it:
            t += s * np.einsum('ab,cd->abcd', m @ P[c1], m @ P[c2])
        # psibar = psi^dagger gamma0 is treated as independent: keep as is
        _structs[k] = t
    return _structs[k]


# --- colour ----------------------------------------------------------------
_d = np.eye(3)
COL = {
    '1': np.einsum('ab,cd->abcd', _d, _d),
    'x': np.einsum('ad,cb->abcd', _d, _d),
}
COL['8'] = (COL['x'] - COL['1'] / 3) / 2     # T^A T^A


def fourfermion(kind, c1, c2, colour=None, ncol=(1, 1, 1, 1)):
    """Tensor with indices (bar1, 2, bar3, 4), each spin (x colour)."""
    sp = spin_structure(kind, c1, c2)
    if colour is None:          # colour singlet currents; leptons colourless
        col = np.einsum('ab,cd->abcd',
                        _d if ncol[0] == 3 else np.ones((1, 1)),
                        _d if ncol[2] == 3 else np.ones((1, 1)))
    else:
        col = COL[colour]
    t = np.einsum('abcd,ABCD->aAbBcCdD', sp, col)
    s = t.shape
    return t.reshape(s[0] * s[1], s[2] * s[3], s[4] * s[5], s[6] * s[7])


def canonical(t, fields, target):
    """Rearrange tensor t of (f1bar f2)(f3bar f4) so that the fields come in
    the order `target` = (b1, f1, b2, f2); returns None if the field content
    differs.  Identical fields are antisymmetrised."""
    b, f = (fields[0], fields[2]), (fields[1], fields[3])
    tb, tf = (target[0], target[2]), (target[1], target[3])
    if sorted(b) != sorted(tb) or sorted(f) != sorted(tf):
        return None
    if b != tb:      # swap the barred fields: one transposition
        t = -np.transpose(t, (2, 1, 0, 3))
    if f != tf:
        t = -np.transpose(t, (0, 3, 2, 1))
    if tb[0] == tb[1]:
        t = (t - np.transpose(t, (2, 1, 0, 3))) / 2
    if tf[0] == tf[1]:
        t = (t - np.transpose(t, (0, 3, 2, 1))) / 2
    return t


def hc(t):
    """Hermitian conjugate of an operator tensor in the sense that
    (f1bar G f2)(f3bar G' f4) -> (f2bar Gbar f1)(f4bar Gbar' f3),
    Gbar = g0 G^dagger g0."""
    n = [x // 4 for x in t.shape]
    s = t.reshape(4, n[0], 4, n[1], 4, n[2], 4, n[3]).conj()
    # bar index of X = row index of G
    s = np.einsum('aAbBcCdD->bBaAdDcC', s)
    s = np.einsum('xb,bBaAdDcC,ay,zd,cw->xByAzDwC', G0, s, G0, G0, G0)
    sh = s.shape
    return s.reshape(sh[0]*sh[1], sh[2]*sh[3], sh[4]*sh[5], sh[6]*sh[7])
