"""Reference for the running QCD parameters.

`alpha_s`, `mass` are composed from the primitive operations only (one-nf
running, on-shell decoupling at the threshold) instead of the bundled
threshold-crossing helpers used by the code under test; `alpha_ode` is a fully
independent Runge-Kutta solution of the 3-loop beta function.
"""
from functools import lru_cache
from math import pi, log
import rundec

MZ = 91.1876
THR = {6: 170., 5: 4.8, 4: 1.3}     # threshold between nf-1 and nf
LOOP = 3


def snap(mu, *more):
    """Move a scale that almost coincides with an anchor onto it.  RunDec's
    integrator has errors up to 6e-5 over intervals below 1e-4 in ln(mu) (its
    step control starts from a fixed step), so two correct compositions of
    runnings need not agree there."""
    for t in (1.3, 2., 4.8, MZ, 170.) + more:
        if mu != t and abs(mu / t - 1) < 2e-3:
            return t
    return mu


def _c():
    return rundec.CRunDec()


def _run_as(a, mu0, mu, nf):
    return a if mu0 == mu else _c().AlphasExact(a, mu0, mu, nf, LOOP)


def _as_at(a, mu0, nf0, mu, nf):
    """alpha_s(mu) with nf flavours from alpha_s(mu0) with nf0 flavours."""
    while nf0 > nf:
        m = THR[nf0]
        a = _run_as(a, mu0, m, nf0)
        a = _c().DecAsDownOS(a, m, m, nf0 - 1, LOOP)
        mu0, nf0 = m, nf0 - 1
    while nf0 < nf:
        m = THR[nf0 + 1]
        a = _run_as(a, mu0, m, nf0)
        a = _c().DecAsUpOS(a, m, m, nf0, LOOP)
        mu0, nf0 = m, nf0 + 1
    return _run_as(a, mu0, mu, nf)


@lru_cache(100000)
def alpha_s(mu, nf, alphas=0.1185):
    return _as_at(alphas, MZ, 5, float(mu), nf)


@lru_cache(100000)
def mass(m, mu0, nf0, mu, nf, alphas=0.1185):
    """MSbar mass at mu in the nf flavour theory from m(mu0) with nf0."""
    a = alpha_s(mu0, nf0, alphas)
    mu = float(mu)
    if nf == nf0:
        # alpha_s at both ends from M_Z: the integrator is inaccurate over
        # tiny intervals (see snap)
        return m if mu == mu0 else _c().mMS2mMS(m, a, alpha_s(mu, nf, alphas),
                                                nf, LOOP)

    def run(m, a, mu0, mu, nf):
        b = _run_as(a, mu0, mu, nf)
        return _c().mMS2mMS(m, a, b, nf, LOOP), b
    # crossing two thresholds goes through alpha_s(m_c) in the 4-flavour theory
    two = abs(nf - nf0) > 1
    while nf0 > nf:
        t = THR[nf0]
        m, a = run(m, a, mu0, t, nf0)
        if two and nf0 == 4:
            a = alpha_s(t, 4, alphas)
        m = _c().DecMqDownOS(m, a, t, t, nf0 - 1, LOOP)
        a = _c().DecAsDownOS(a, t, t, nf0 - 1, LOOP)
        mu0, nf0 = t, nf0 - 1
    while nf0 < nf:
        t = THR[nf0 + 1]
        m, a = run(m, a, mu0, t, nf0)
        m = _c().DecMqUpOS(m, a, t, t, nf0, LOOP)
        a = _c().DecAsUpOS(a, t, t, nf0, LOOP)
        mu0, nf0 = t, nf0 + 1
        if two and nf0 == 4:
            a = alpha_s(t, 4, alphas)
    return run(m, a, mu0, mu, nf)[0]


def m_b(m, mu, nf, alphas=0.1185):
    return mass(m, m, 5, mu, nf, alphas)


def m_c(m, mu, nf, alphas=0.1185):
    return mass(m, m, 4, mu, nf, alphas)


def m_s(m, mu, nf, alphas=0.1185):
    return mass(m, 2., 3, mu, nf, alphas)


# --- independent solution ----------------------------------------------------
def _beta(a, nf):
    b0 = 11 - 2 * nf / 3.
    b1 = 102 - 38 * nf / 3.
    b2 = 2857 / 2. - 5033 * nf / 18. + 325 * nf**2 / 54.
    x = a / (4 * pi)
    return -2 * a * x * (b0 + x * (b1 + x * b2))


def _gamma(a, nf):
    """d ln m / d ln mu, three loops."""
    x = a / pi
    z3 = 1.2020569031595942
    g0 = 1.
    g1 = (202 / 3. - 20 * nf / 9.) / 16
    g2 = (1249 + (-2216 / 27. - 160 * z3 / 3) * nf - 140 * nf**2 / 81.) / 64
    return -2 * x * (g0 + x * (g1 + x * g2))


def _rk(a, lm, mu0, mu, nf, n=400):
    h = log(mu / mu0) / n
    for _ in range(n):
        k1, l1 = _beta(a, nf), _gamma(a, nf)
        k2, l2 = _beta(a + h * k1 / 2, nf), _gamma(a + h * k1 / 2, nf)
        k3, l3 = _beta(a + h * k2 / 2, nf), _gamma(a + h * k2 / 2, nf)
        k4, l4 = _beta(a + h * k3, nf), _gamma(a + h * k3, nf)
        a += h * (k1 + 2 * k2 + 2 * k3 + k4) / 6
        lm += h * (l1 + 2 * l2 + 2 * l3 + l4) / 6
    return a, lm


def ode(alphas, m, mu0, nf0, mu, nf):
    """(alpha_s, mass) by integrating the RGEs with two-loop OS decoupling."""
    from math import exp
    a, n = alphas, 5
    q = MZ

    def step(a, lm, frm, to, nf):
        return _rk(a, lm, frm, to, nf)
    # bring alpha_s to (mu0, nf0)
    def cross(a, lm, q, n, tgt_mu, tgt_n):
        while n > tgt_n:
            t = THR[n]
            a, lm = step(a, lm, q, t, n)
            x = a / pi
            lm += log(1 + 89 / 432. * x**2)
            a = a * (1 - 7 / 24. * x**2)
            q, n = t, n - 1
        while n < tgt_n:
            t = THR[n + 1]
            a, lm = step(a, lm, q, t, n)
            x = a / pi
            lm -= log(1 + 89 / 432. * x**2)
            a = a * (1 + 7 / 24. * x**2)
            q, n = t, n + 1
        return step(a, lm, q, tgt_mu, n)
    a, _ = cross(a, 0., q, n, mu0, nf0)
    a, lm = cross(a, log(m), mu0, nf0, mu, nf)
    return a, exp(lm)
