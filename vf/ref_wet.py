"""Reference maps between the WET bases.

Every map is a table  output name -> (factor name, Lin)  where Lin is a sparse
linear form in the input coefficients and the factor is a function of the
running parameters (`FACTORS`).  The JMS -> Bern table is not written down: it
is solved from the requirement that both operator bases describe the same
Lagrangian (explicit Dirac and colour tensors, vf/lagr.py).
"""
from functools import lru_cache
from math import pi, sqrt
import numpy as np
from . import flavour as fl
from . import lagr, jmsops
from .lin import Lin, compose

D = {'d': 0, 's': 1, 'b': 2}
U = {'u': 0, 'c': 1}
L = {'e': 0, 'mu': 1, 'tau': 2}
LL = {'e': 0, 'm': 1, 't': 2}
NU = {'e': 'nue', 'mu': 'numu', 'tau': 'nutau'}
CC = ['cb', 'ub', 'us', 'cs', 'cd', 'ud']
NC = 3.


def el(name, *idx):
    """JMS element (0-based indices) as a linear form in the basis keys."""
    r = fl.jms_element(name, tuple(idx))
    if r is None:
        return Lin()
    return Lin.var(r[0], r[1])


# --- prefactors --------------------------------------------------------------
def _xi(p, dd):
    V = p['V']
    return {'sb': V[2, 2] * V[2, 1].conj(), 'db': V[2, 2] * V[2, 0].conj(),
            'ds': V[2, 1] * V[2, 0].conj()}[dd]


def factor(name, p):
    """name: tuple (kind, *args)"""
    k = name[0]
    gf = sqrt(2) / p['GF'] / 4
    if k == '1':
        return 1.
    if k == 'gf':
        return gf
    if k == 'gfinv':
        return 1 / gf
    if k == 'b7':                 # Bern photon dipole
        return gf * p['gs']**2 / p['e'] / p['m_b']
    if k == 'b8':
        return gf * p['gs'] / p['m_b']
    if k == 'cc':                 # charged currents, flavio and EOS
        return -gf / p['V'][name[1], name[2]]
    xi = _xi(p, name[1]) if len(name) > 1 and name[1] in ('sb', 'db', 'ds') else None
    if k == 'v':
        return gf / xi * 16 * pi**2 / p['e']**2
    if k == 's':
        return gf / xi * 16 * pi**2 / p['e']**2 / p['m_b']
    if k == 'nu':
        return gf / xi * 8 * pi**2 / p['e']**2
    if k == 'f7':
        return gf / xi * 16 * pi**2 / p['e'] / p['m_b']
    if k == 'f8':
        return gf / xi * 16 * pi**2 / p['gs'] / p['m_b']
    if k == 'x':
        return gf / xi
    if k in ('e7b', 'e7s', 'e8b', 'e8s'):
        g = p['e'] if k[1] == '7' else p['gs']
        m = p['m_b'] if k[2] == 'b' else -p['m_s']
        return gf / xi * 16 * pi**2 / g * m / (p['m_b']**2 - p['m_s']**2)
    if k == '1/e':
        return 1 / p['e']
    if k == '1/gs':
        return 1 / p['gs']
    if k == 'em':                 # lepton dipole normalisation of FlavorKit
        return p['e'] * p[name[1]] / 2
    if k == 'emi':
        return 2 / p['e'] / p[name[1]]
    if k == 'ratio':              # factor(a)/factor(b)
        return factor(name[1], p) / factor(name[2], p)
    raise KeyError(name)


def evaluate(table, x, p):
    """name -> (value, amplitude)"""
    cache = {}
    out = {}
    # contributions that cancel exactly in the reference may leave a rounding
    # residue in the code: count a tenth of the largest input as amplitude
    xm = 0.1 * max([abs(v) for v in x.values()] or [0.])
    for n, terms in table.items():
        s = a = 0.
        for fac, lin in terms:
            v, amp = lin.eval(x)
            if fac not in cache:
                cache[fac] = factor(fac, p)
            s += cache[fac] * v
            a += abs(cache[fac]) * (amp + xm)
        out[n] = (s, a)
    return out


# --- JMS -> Bern from the Lagrangian -----------------------------------------
RED_A = ['sbss', 'dbdd', 'dbds', 'sbsd', 'dsdd']   # 2nd != 4th flavour
RED_B = ['dbbb', 'sbbb', 'dsss']                   # 2nd == 4th flavour


def bern_ops(sector):
    """Operators of a four-quark |Delta F|=1 (or class IV) Bern sector."""
    ops = {}
    red = sector in RED_A + RED_B
    for pr, l, r in (('', 'L', 'R'), ('p', 'R', 'L')):
        s = l if sector in RED_A else r
        for n, kind, ch in ((1, 'V', l), (3, 'V3', l), (5, 'S', s),
                            (7, 'T', s), (9, 'V4', s)):
            for k, col in ((n, '1'), (n + 1, '8')):
                if red and col == '8':
                    continue
                t = lagr.fourfermion(kind, ch, '', col)
                ops['%d%s%s' % (k, pr, sector)] = lagr.canonical(
                    t, tuple(sector), tuple(sector))
    return ops


def bern_I_ops(qq):
    ops = {}
    f = tuple(qq + qq)

    def add(n, kind, a, b, col):
        ops[n + qq + qq] = lagr.canonical(lagr.fourfermion(kind, a, b, col), f, f)
    add('1', 'V', 'L', 'L', '1')
    add('2', 'S', 'L', 'L', '1')
    add('3', 'S', 'L', 'L', 'x')
    add('4', 'S', 'L', 'R', '1')
    add('5', 'S', 'L', 'R', 'x')
    add('1p', 'V', 'R', 'R', '1')
    add('2p', 'S', 'R', 'R', '1')
    add('3p', 'S', 'R', 'R', 'x')
    return ops


def bern_lep_ops(dd, l, lp):
    ops = {}
    f = (dd[0], dd[1], l, lp)
    for pr, a, b in (('', 'L', 'R'), ('p', 'R', 'L')):
        for n, kind, ch in ((1, 'V', a), (3, 'V3', a), (5, 'S', b),
                            (7, 'T', b), (9, 'V4', b)):
            t = lagr.fourfermion(kind, ch, '', None, (3, 3, 1, 1))
            ops['%d%s%s%s%s' % (n, pr, dd, l, lp)] = lagr.canonical(t, f, f)
    return ops


def bern_nu_ops(dd, l, lp):
    f = (dd[0], dd[1], NU[l], NU[lp])
    ops = {}
    for pr, a in (('', 'L'), ('p', 'R')):
        t = lagr.fourfermion('V', a, 'L', None, (3, 3, 1, 1))
        ops['nu1%s%s%s%s' % (pr, dd, l, lp)] = lagr.canonical(t, f, f)
    return ops


def bern_II_ops(ud, l, lp):
    f = (ud[0], ud[1], l, NU[lp])
    ops = {}
    for n, kind, a in (('1', 'V', 'L'), ('5', 'S', 'R'), ('1p', 'V', 'R'),
                       ('5p', 'S', 'L'), ('7p', 'T', 'L')):
        t = lagr.fourfermion(kind, a, 'L', None, (3, 3, 1, 1))
        ops[n + ud + l + lp] = lagr.canonical(t, f, f)
    return ops


def solve(ops, target):
    """Coefficients of `ops` that reproduce the JMS Lagrangian in the field
    content `target`; raises if the bases do not span the same space."""
    names = list(ops)
    T = jmsops.terms(target)
    A = np.array([ops[n].ravel() for n in names]).T
    B = np.array([t.ravel() for _, _, t in T]).T
    nz = (abs(A) > 1e-14).any(axis=1) | (abs(B) > 1e-14).any(axis=1)
    A, B = A[nz], B[nz]
    G = A.conj().T @ A
    X = np.linalg.solve(G, A.conj().T @ B)
    if abs(A @ X - B).max() > 1e-10:
        raise ValueError('no exact solution for %s' % (target,))
    out = {n: Lin() for n in names}
    for j, (k, c, _) in enumerate(T):
        for i, n in enumerate(names):
            v = X[i, j]
            if abs(v) > 1e-12:
                v = v.real if abs(v.imag) < 1e-12 else v
                key = (k, c)
                out[n].t[key] = out[n].t.get(key, 0) + v
    return out


QQQQ = ([dd + a + b for a in 'uc' for b in 'uc' for dd in ('sb', 'db', 'ds')]
        + ['sbdd', 'sbss', 'dbdd', 'dbss', 'dbbb', 'sbbb', 'dbds', 'sbsd',
           'dsbb', 'dsss', 'dsdd'])


@lru_cache(1)
def bern_forms():
    """Bern name -> Lin in JMS keys (without the 4GF/sqrt2 normalisation)."""
    out = {}
    for qq in ('sb', 'db', 'ds'):
        out.update(solve(bern_I_ops(qq), tuple(qq + qq)))
    for s in QQQQ:
        out.update(solve(bern_ops(s), tuple(s)))
    for l in L:
        for lp in L:
            for ud in CC:
                out.update(solve(bern_II_ops(ud, l, lp),
                                 (ud[0], ud[1], l, NU[lp])))
            for dd in ('sb', 'db', 'ds'):
                out.update(solve(bern_lep_ops(dd, l, lp), (dd[0], dd[1], l, lp)))
                out.update(solve(bern_nu_ops(dd, l, lp),
                                 (dd[0], dd[1], NU[l], NU[lp])))
    return out


def dipole(dd):
    s, b = D[dd[0]], D[dd[1]]
    return {'7gamma': el('dgamma', s, b), '8g': el('dG', s, b),
            '7pgamma': el('dgamma', b, s).conj(),
            '8pg': el('dG', b, s).conj()}


@lru_cache(1)
def jms_to_bern():
    out = {n: [(('gf',), f)] for n, f in bern_forms().items()}
    for dd in ('sb', 'db', 'ds'):
        for n, f in dipole(dd).items():
            out[n + dd] = [(('b7',) if 'gamma' in n else ('b8',), f)]
    return out


# --- flavio ------------------------------------------------------------------
def var(k):
    return Lin.var(k)


@lru_cache(1)
def bern_to_flavio_forms():
    """flavio name -> (factor relative to the effective Lagrangian, Lin in the
    Bern coefficients, type)"""
    out = {}
    for qq in ('sb', 'db', 'ds'):
        q, f = qq + qq, qq[::-1] * 2
        out['CVLL_' + f] = (('1',), var('1' + q))
        out['CVRR_' + f] = (('1',), var('1p' + q))
        # colour-crossed scalar: (S x S)_crossed = -1/2 SxS - 1/8 TxT
        out['CSLL_' + f] = (('1',), var('2' + q) - 0.5 * var('3' + q))
        out['CTLL_' + f] = (('1',), -0.125 * var('3' + q))
        out['CSRR_' + f] = (('1',), var('2p' + q) - 0.5 * var('3p' + q))
        out['CTRR_' + f] = (('1',), -0.125 * var('3p' + q))
        out['CSLR_' + f] = (('1',), var('4' + q))
        out['CVLR_' + f] = (('1',), -0.5 * var('5' + q))
    for ud in CC:
        for l in L:
            for lp in L:
                b, f = ud + l + lp, ud[::-1] + l + 'nu' + lp
                fac = ('cc', U[ud[0]], D[ud[1]])
                for n, m in (('CVL_', '1'), ('CVR_', '1p'), ('CSR_', '5'),
                             ('CSL_', '5p'), ('CT_', '7p')):
                    out[n + f] = (fac, var(m + b))
    for dd in ('sb', 'db', 'ds'):
        for l in L:
            for lp in L:
                b, f = dd + l + lp, dd[::-1] + l + lp
                fn = dd[::-1] + 'nu' + l + 'nu' + lp
                out['CL_' + fn] = (('nu', dd), var('nu1' + b))
                out['CR_' + fn] = (('nu', dd), var('nu1p' + b))
                if dd == 'ds':
                    continue
                # gamma^3 x gamma^3: LL -> 16, LR -> 4;  gamma^4: 64, 16 + T
                out['C9_' + f] = (('v', dd), var('1' + b) + 10 * var('3' + b))
                out['C10_' + f] = (('v', dd), -6 * var('3' + b))
                out['C9p_' + f] = (('v', dd), var('1p' + b) + 10 * var('3p' + b))
                out['C10p_' + f] = (('v', dd), 6 * var('3p' + b))
                out['CS_' + f] = (('s', dd), var('5' + b) + 40 * var('9' + b))
                out['CP_' + f] = (('s', dd), 24 * var('9' + b))
                out['CSp_' + f] = (('s', dd), var('5p' + b) + 40 * var('9p' + b))
                out['CPp_' + f] = (('s', dd), -24 * var('9p' + b))
    return out


@lru_cache(1)
def bern_to_flavio():
    out = {n: [(('ratio', f, ('gf',)), lin)]
           for n, (f, lin) in bern_to_flavio_forms().items()}
    for dd in ('sb', 'db'):
        for n, m in (('C7_', '7gamma'), ('C7p_', '7pgamma')):
            out[n + dd[::-1]] = [(('ratio', ('f7', dd), ('b7',)), var(m + dd))]
        for n, m in (('C8_', '8g'), ('C8p_', '8pg')):
            out[n + dd[::-1]] = [(('ratio', ('f8', dd), ('b8',)), var(m + dd))]
    return out


@lru_cache(1)
def jms_to_flavio():
    """Composition of the operator-level Bern forms with the flavio
    definitions, plus the dipoles."""
    bf = bern_forms()
    fb = bern_to_flavio_forms()
    comp = compose({n: lin for n, (f, lin) in fb.items()}, bf)
    out = {n: [(fb[n][0], comp[n].clean())] for n in fb}
    for dd in ('sb', 'db'):
        d = dipole(dd)
        out['C7_' + dd[::-1]] = [(('f7', dd), d['7gamma'])]
        out['C7p_' + dd[::-1]] = [(('f7', dd), d['7pgamma'])]
        out['C8_' + dd[::-1]] = [(('f8', dd), d['8g'])]
        out['C8p_' + dd[::-1]] = [(('f8', dd), d['8pg'])]
    return out


@lru_cache(1)
def flavio_to_bern():
    """Inverse on the operators known to flavio; tensors vanish there."""
    out = {}
    for qq in ('sb', 'db', 'ds'):
        q, f = qq + qq, qq[::-1] * 2
        g = ('ratio', ('gf',), ('1',))
        for p, x in (('', 'LL'), ('p', 'RR')):
            out['1%s%s' % (p, q)] = [(g, var('CV%s_%s' % (x, f)))]
            out['2%s%s' % (p, q)] = [(g, var('CS%s_%s' % (x, f))
                                      - 4 * var('CT%s_%s' % (x, f)))]
            out['3%s%s' % (p, q)] = [(g, -8 * var('CT%s_%s' % (x, f)))]
        out['4' + q] = [(g, var('CSLR_' + f))]
        out['5' + q] = [(g, -2 * var('CVLR_' + f))]
    for ud in CC:
        for l in L:
            for lp in L:
                b, f = ud + l + lp, ud[::-1] + l + 'nu' + lp
                g = ('ratio', ('gf',), ('cc', U[ud[0]], D[ud[1]]))
                for n, m in (('CVL_', '1'), ('CVR_', '1p'), ('CSR_', '5'),
                             ('CSL_', '5p'), ('CT_', '7p')):
                    out[m + b] = [(g, var(n + f))]
    for dd in ('sb', 'db', 'ds'):
        for l in L:
            for lp in L:
                b, f = dd + l + lp, dd[::-1] + l + lp
                fn = dd[::-1] + 'nu' + l + 'nu' + lp
                gn = ('ratio', ('gf',), ('nu', dd))
                out['nu1' + b] = [(gn, var('CL_' + fn))]
                out['nu1p' + b] = [(gn, var('CR_' + fn))]
                if dd == 'ds':
                    continue
                gv = ('ratio', ('gf',), ('v', dd))
                gs = ('ratio', ('gf',), ('s', dd))
                out['3' + b] = [(gv, var('C10_' + f) / -6)]
                out['1' + b] = [(gv, var('C9_' + f) + var('C10_' + f) * (5 / 3.))]
                out['3p' + b] = [(gv, var('C10p_' + f) / 6)]
                out['1p' + b] = [(gv, var('C9p_' + f) - var('C10p_' + f) * (5 / 3.))]
                out['9' + b] = [(gs, var('CP_' + f) / 24)]
                out['5' + b] = [(gs, var('CS_' + f) - var('CP_' + f) * (5 / 3.))]
                out['7' + b] = [(gs, var('CP_' + f) * (2 / 3.))]
                out['9p' + b] = [(gs, var('CPp_' + f) / -24)]
                out['5p' + b] = [(gs, var('CSp_' + f) + var('CPp_' + f) * (5 / 3.))]
                out['7p' + b] = [(gs, var('CPp_' + f) * (-2 / 3.))]
    for dd in ('sb', 'db'):
        for n, m in (('C7_', '7gamma'), ('C7p_', '7pgamma')):
            out[m + dd] = [(('ratio', ('b7',), ('f7', dd)), var(n + dd[::-1]))]
        for n, m in (('C8_', '8g'), ('C8p_', '8pg')):
            out[m + dd] = [(('ratio', ('b8',), ('f8', dd)), var(n + dd[::-1]))]
    return out


# --- EOS ---------------------------------------------------------------------
def fierz(q):
    """F1..F4 of (sbar b)(qbar q): colour-singlet / crossed, LL and LR."""
    s, b = 1, 2
    if q in U:
        f = U[q]
        return [el('V1udLL', f, f, s, b) - el('V8udLL', f, f, s, b) / 6,
                el('V8udLL', f, f, s, b) / 2,
                el('V1duLR', s, b, f, f) - el('V8duLR', s, b, f, f) / 6,
                el('V8duLR', s, b, f, f) / 2]
    f = D[q]
    return [el('VddLL', f, f, s, b), el('VddLL', s, f, f, b),
            el('V1ddLR', s, b, f, f) - el('V8ddLR', s, b, f, f) / 6,
            el('V8ddLR', s, b, f, f) / 2]


# rows: coefficients of (F1, F2, F3, F4) for every quark flavour
EOS_TABLE = {
    1: {'b': (-2/5, 0, 0, 0), 's': (-2/5, 0, 0, 0), 'd': (-6/5, 4/5, 0, 0),
        'u': (1, 0, 0, 0)},
    2: {'b': (-4/15, 0, 0, 0), 's': (-4/15, 0, 0, 0), 'd': (1/5, -7/15, 0, 0),
        'u': (1/6, 1/2, 0, 0)},
    3: {'b': (-4/45, 0, 4/15, 4/45), 's': (-4/45, 0, 4/15, 4/45),
        'd': (-7/45, 1/15, 4/15, 4/45), 'u': (0, 0, 4/15, 4/45)},
    4: {'b': (-2/15, 0, 0, 8/15), 's': (-2/15, 0, 0, 8/15),
        'd': (4/15, -2/5, 0, 8/15), 'u': (0, 0, 0, 8/15)},
    5: {'b': (1/45, 0, -1/60, -1/180), 's': (1/45, 0, -1/60, -1/180),
        'd': (7/180, -1/60, -1/60, -1/180), 'u': (0, 0, -1/60, -1/180)},
    6: {'b': (1/30, 0, 0, -1/30), 's': (1/30, 0, 0, -1/30),
        'd': (-1/15, 1/10, 0, -1/30), 'u': (0, 0, 0, -1/30)},
}


@lru_cache(1)
def jms_to_eos():
    out = {}
    for l in ('e', 'mu'):
        b = 'ub' + l + l
        for n, m in (('cVL', '1'), ('cVR', '1p'), ('cSR', '5'), ('cSL', '5p'),
                     ('cT', '7p')):
            out['b->u%snu%s::%s' % (l, l, n)] = [
                (('cc', 0, 2), bern_forms()[m + b])]
        i = L[l]
        s, b = 1, 2
        F = {
            'c9': el('VdeLR', s, b, i, i) / 2 + el('VedLL', i, i, s, b) / 2,
            'c10': el('VdeLR', s, b, i, i) / 2 - el('VedLL', i, i, s, b) / 2,
            "c9'": el('VedRR', i, i, s, b) / 2 + el('VedLR', i, i, s, b) / 2,
            "c10'": el('VedRR', i, i, s, b) / 2 - el('VedLR', i, i, s, b) / 2,
            'cS': el('SedRR', i, i, s, b) / 2 + el('SedRL', i, i, b, s).conj() / 2,
            'cP': el('SedRR', i, i, s, b) / 2 - el('SedRL', i, i, b, s).conj() / 2,
            "cS'": el('SedRL', i, i, s, b) / 2 + el('SedRR', i, i, b, s).conj() / 2,
            "cP'": el('SedRL', i, i, s, b) / 2 - el('SedRR', i, i, b, s).conj() / 2,
            'cT': el('TedRR', i, i, s, b) / 2 + el('TedRR', i, i, b, s).conj() / 2,
            'cT5': el('TedRR', i, i, s, b) / 2 - el('TedRR', i, i, b, s).conj() / 2,
        }
        for n, f in F.items():
            out['b->s%s%s::%s' % (l, l, n)] = [(('v', 'sb'), f)]
    F = {q: fierz(q) for q in 'udscb'}
    for n, rows in EOS_TABLE.items():
        acc = Lin()
        for q in 'udscb':
            row = rows[q] if q != 'c' else rows['u']
            for c, f in zip(row, F[q]):
                if c:
                    acc = acc + f * c
        out['b->s::c%d' % n] = [(('x', 'sb'), acc)]
    d = dipole('sb')
    for k, x, xp in (('7', '7gamma', '7pgamma'), ('8', '8g', '8pg')):
        out['b->s::c' + k] = [(('e%sb' % k, 'sb'), d[x]), (('e%ss' % k, 'sb'), d[xp])]
        out["b->s::c%s'" % k] = [(('e%ss' % k, 'sb'), d[x]), (('e%sb' % k, 'sb'), d[xp])]
    return out


# --- FormFlavor --------------------------------------------------------------
@lru_cache(1)
def jms_to_formflavor():
    out = {}
    one = ('1',)
    for qq in ('sb', 'db', 'ds', 'uc'):
        t = 'd' if qq != 'uc' else 'u'
        idx = D if t == 'd' else U
        i, j = idx[qq[0]], idx[qq[1]]
        f = qq[::-1] * 2
        tt = t + t
        s1, s8 = 'S1%sRR' % tt, 'S8%sRR' % tt

        def c2(a, b):
            return el(s1, a, b, a, b) - el(s8, a, b, a, b) / 6

        def c3(a, b):
            return el(s8, a, b, a, b) / 2
        out['CVLL_' + f] = [(one, el('V%sLL' % tt, i, j, i, j))]
        out['CVRR_' + f] = [(one, el('V%sRR' % tt, i, j, i, j))]
        out['CSLL_' + f] = [(one, (c2(j, i) + c3(j, i) / 2).conj())]
        out['CTLL_' + f] = [(one, (c3(j, i) / -8).conj())]
        out['CSRR_' + f] = [(one, c2(i, j) + c3(i, j) / 2)]
        out['CTRR_' + f] = [(one, c3(i, j) / -8)]
        out['CSLR_' + f] = [(one, -el('V8%sLR' % tt, i, j, i, j))]
        out['CVLR_' + f] = [(one, el('V1%sLR' % tt, i, j, i, j)
                             - el('V8%sLR' % tt, i, j, i, j) / 6)]
    for dd in ('bs', 'bd'):
        b, s = D[dd[0]], D[dd[1]]
        m = 1
        for n, f in (('CVLL', el('VedLL', m, m, s, b)),
                     ('CVRR', el('VedRR', m, m, s, b)),
                     ('CVLR', el('VdeLR', s, b, m, m)),
                     ('CVRL', el('VedLR', m, m, s, b)),
                     ('CSLL', el('SedRR', m, m, b, s).conj()),
                     ('CSRR', el('SedRR', m, m, s, b)),
                     ('CSLR', el('SedRL', m, m, s, b)),
                     ('CSRL', el('SedRL', m, m, b, s).conj()),
                     ('CTLL', el('TedRR', m, m, b, s).conj()),
                     ('CTRR', el('TedRR', m, m, s, b))):
            out['%s_%smm' % (n, dd)] = [(one, f)]
    # s -> d nu nu, averaged over the neutrino flavours
    for n, o in (('CVLL_sdnn', 'VnudLL'), ('CVRL_sdnn', 'VnudLR')):
        acc = Lin()
        for k in range(3):
            acc = acc + el(o, k, k, 0, 1) / 3
        out[n] = [(one, acc)]
    for qq in ('sb', 'db', 'uu', 'dd', 'mt', 'em', 'et'):
        if qq[0] in LL and qq[0] not in U and qq[0] not in D:
            i, j = LL[qq[0]], LL[qq[1]]
            out['CAR_' + qq] = [(('1/e',), el('egamma', i, j))]
            out['CAL_' + qq] = [(('1/e',), el('egamma', j, i).conj())]
            continue
        idx, t = (D, 'd') if qq[0] in D else (U, 'u')
        i, j = idx[qq[0]], idx[qq[1]]
        out['CAR_' + qq] = [(('1/e',), el(t + 'gamma', i, j))]
        out['CAL_' + qq] = [(('1/e',), el(t + 'gamma', j, i).conj())]
        out['CGR_' + qq] = [(('1/gs',), el(t + 'G', i, j))]
        out['CGL_' + qq] = [(('1/gs',), el(t + 'G', j, i).conj())]
    return out
