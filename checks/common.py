"""Helpers shared by the physics checks."""
from hypothesis import strategies as st
from vf import bases, gen, params
from vf.core import Sub, Violation, fail, call

import wcxf


def install():
    bases.install()


def make_wc(eft, basis, x, scale, how=0, order=None):
    return wcxf.WC(eft, basis, scale, gen.wc_values(x, how, order))


def result(wc, eft, basis, scale):
    """Check the envelope of a returned object and give its numbers."""
    if (wc.eft, wc.basis) != (eft, basis):
        fail('result claims EFT/basis %r/%r instead of %r/%r',
             wc.eft, wc.basis, eft, basis)
    if float(wc.scale) != float(scale):
        fail('scale changed from %r to %r', scale, wc.scale)
    return dict(call(lambda: wc.dict))


def compare(out, ref, rel=1e-9, aeps=1e-12, what='coefficient'):
    """out: key -> number; ref: key -> (value, amplitude)."""
    n = 0
    for k, v in out.items():
        if k not in ref and v != 0:
            fail('%s %s = %r appears but must be absent', what, k, v)
    for k, (v, a) in ref.items():
        g = complex(out.get(k, 0.))
        if not gen.close(g, v, a, rel, aeps):
            fail('%s %s = %r, expected %r', what, k, g, complex(v))
        if v != 0:
            n += 1
    return n


def point(keys, scale=None, params_=True, n=6):
    """strategy: input + scale + parameter overrides + encoding + order"""
    return st.tuples(
        gen.inputs(keys, n=n), scale if scale is not None else gen.scale5(),
        gen.overrides() if params_ else st.none(), gen.hows(),
        st.integers(0, 1000)).map(
        lambda t: dict(t[0], scale=t[1], params=t[2], how=t[3], order=t[4]))


def pcopy(p):
    return None if p is None else dict(p)


RULE = ('the input has a non-zero coefficient that contributes to at least '
        'one output coefficient of the reference; distinct by the full case '
        '(values, scale, parameters, encoding, order)')


def nontriv(case, labels):
    return labels.get('outputs', 0) > 0


def each(name, sub, keys, part=1., quick=2, thorough=20, **extra):
    """the coefficients of a basis (a part of them) one by one, through the
    property of another sub-check"""
    def prop(case):
        if 'x' in case:
            return sub.prop(case)
        n = 0
        rest = {k: v for k, v in case.items() if k != 'dense'}
        for k, v in gen.values(case, keys(case)).items():
            if gen._u(case['dense']['seed'] + 1, k)[0] > part:
                continue
            c = dict(rest, x={k: [v.real, v.imag]})
            try:
                n += (sub.prop(c) or {}).get('outputs', 0)
            except Violation as e:
                e.case = c
                raise
        return {'outputs': n}
    d = {'dense': st.fixed_dictionaries({
            'seed': st.integers(0, 2**30), 'mag': st.sampled_from([-6, -9, -7]),
            'mode': st.sampled_from(['complex', 'mixed', 'real'])}),
         'scale': gen.scale5(), 'params': gen.overrides(), 'how': gen.hows(),
         'order': st.just(0)}
    d.update(extra)
    return Sub(name, st.fixed_dictionaries(d), prop, quick, thorough,
               'coefficients one by one; those that contribute to an output',
               nontriv, None, install)
