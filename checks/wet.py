"""C13-C18, C21: translators of the weak effective theory and thresholds."""
from hypothesis import strategies as st
from vf import bases, gen, params, ref_wet, ref_flavorkit
from vf.core import Check, Sub, Violation, call, fail, outcome
from . import common as cm

import wcxf

K = bases.keys


def translate(case, eft, b1, b2, x=None, how=None):
    x = gen.values(case, K(eft, b1)) if x is None else x
    wc = cm.make_wc(eft, b1, x, case['scale'],
                    case['how'] if how is None else how, case.get('order'))
    out = call(wc.translate, b2, parameters=cm.pcopy(case['params']))
    return x, cm.result(out, eft, b2, case['scale'])


def translator_sub(name, eft, b1, b2, table, quick, thorough, pre=None):
    def prop(case):
        x, out = translate(case, eft, b1, b2)
        p = params.at_scale(case['scale'], case['params'])
        ref = ref_wet.evaluate(table(), x, p)
        n = cm.compare(out, ref, 1e-7)
        return {'outputs': n, 'dense': 'dense' in case,
                'params': bool(case['params'])}
    return Sub(name, cm.point(K(eft, b1)), prop, quick, thorough, cm.RULE,
               cm.nontriv, gen.explicit_with(K(eft, b1)), cm.install)


def rows(table):
    """input coefficient -> outputs it contributes to"""
    out = {}
    for n, terms in table.items():
        for _, lin in terms:
            for k, _ in lin.t:
                out.setdefault(k, set()).add(n)
    return out


def alone_sub(name, eft, b1, b2, table, quick=2, thorough=20):
    """every coefficient of the basis on its own: the case is the choice of
    the values, the scale and the parameters; 'x' a single coefficient"""
    def prop(case):
        t = table()
        p = params.at_scale(case['scale'], case['params'])
        if 'x' in case:
            x, out = translate(case, eft, b1, b2)
            return {'outputs': cm.compare(out, ref_wet.evaluate(t, x, p), 1e-7)}
        idx = rows(t)
        # size of the factors of each output: rounding residue of terms that
        # cancel exactly
        res = {n: 0.1 * a for n, (_, a) in ref_wet.evaluate(
            t, {'': 10.}, p).items()}
        n = 0
        for k, v in gen.values(case, K(eft, b1)).items():
            ref = ref_wet.evaluate({o: t[o] for o in idx.get(k, ())}, {k: v}, p)
            ref.update((o, (0., a * abs(v))) for o, a in res.items()
                       if o not in ref)
            try:
                _, out = translate(case, eft, b1, b2, {k: v})
                n += cm.compare(out, ref, 1e-7)
            except Violation as e:
                e.case = {c: w for c, w in case.items() if c != 'dense'}
                e.case['x'] = {k: [v.real, v.imag]}
                raise
        return {'outputs': n}
    case = st.fixed_dictionaries({
        'dense': st.fixed_dictionaries({
            'seed': st.integers(0, 2**30), 'mag': st.sampled_from([0, -6, -9, 1]),
            'mode': st.sampled_from(['complex', 'mixed', 'int', 'real'])}),
        'scale': gen.scale5(), 'params': gen.overrides(), 'how': gen.hows()})
    return Sub(name, case, prop, quick, thorough,
               'coefficients one by one; those that contribute to an output',
               cm.nontriv, None, cm.install)


def path_sub(name, eft, path, quick, thorough):
    """b1 -> b2 -> b3 equals b1 -> b3, by the code itself."""
    b1, b2, b3 = path

    def prop(case):
        x, direct = translate(case, eft, b1, b3)
        _, mid = translate(case, eft, b1, b2)
        _, two = translate(case, eft, b2, b3, x=mid)
        n = 0
        big = {}
        for k in set(direct) | set(two):
            big[k.split('_')[0]] = max(big.get(k.split('_')[0], 0),
                                       abs(direct.get(k, 0)), abs(two.get(k, 0)))
        for k in set(direct) | set(two):
            a, b = complex(direct.get(k, 0)), complex(two.get(k, 0))
            if not gen.close(a, b, big[k.split('_')[0]], 1e-9, 1e-11):
                fail('%s: direct %r, via %s %r', k, a, b2, b)
            n += a != 0
        return {'outputs': n}
    return Sub(name, cm.point(K(eft, b1)), prop, quick, thorough, cm.RULE,
               cm.nontriv, gen.explicit_with(K(eft, b1)), cm.install)


def inverse_sub(name, eft, b1, b2, quick, thorough, keys=None):
    """b1 -> b2 -> b1 is the identity on the coefficients b2 can represent."""
    def prop(case):
        ks = keys() if keys else K(eft, b1)
        x, mid = translate(case, eft, b1, b2, x=gen.values(case, ks))
        _, back = translate(case, eft, b2, b1, x=mid)
        big = max([abs(v) for v in x.values()] or [0])
        n = 0
        for k in set(x) | set(back):
            a, b = complex(x.get(k, 0)), complex(back.get(k, 0))
            if not gen.close(b, a, big, 1e-9, 1e-12):
                fail('%s: %r became %r after %s -> %s -> %s', k, a, b, b1, b2, b1)
            n += a != 0
        return {'outputs': n}
    kk = keys() if keys else K(eft, b1)
    return Sub(name, cm.point(kk), prop, quick, thorough,
               cm.RULE, cm.nontriv, gen.explicit_with(kk), cm.install)


T = ref_wet
# --- C13 closure, finiteness, linearity over all registered WET translators --
PAIRS = [('WET', 'JMS', 'flavio'), ('WET', 'JMS', 'Bern'),
         ('WET', 'JMS', 'EOS'), ('WET', 'JMS', 'formflavor'),
         ('WET', 'JMS', 'FlavorKit'), ('WET', 'FlavorKit', 'JMS'),
         ('WET', 'FlavorKit', 'flavio'),
         ('WET', 'Bern', 'flavio'), ('WET', 'flavio', 'Bern'),
         ('WET-4', 'JMS', 'flavio'), ('WET-4', 'JMS', 'Bern'),
         ('WET-4', 'Bern', 'flavio'), ('WET-4', 'flavio', 'Bern'),
         ('WET-3', 'JMS', 'flavio'), ('WET-3', 'JMS', 'Bern'),
         ('WET-3', 'Bern', 'flavio'), ('WET-3', 'flavio', 'Bern')]


@st.composite
def linear_case(draw):
    eft, b1, b2 = draw(st.sampled_from(PAIRS))
    ks = K(eft, b1)
    return {'eft': eft, 'b1': b1, 'b2': b2,
            'x': draw(gen.inputs(ks)), 'y': draw(gen.inputs(ks)),
            'lam': draw(st.sampled_from([2., -1., 0.5, -3.25, 1e-3, 1e3])),
            'factor': draw(st.sampled_from([1e-14, 1e-7, 1e-25, -1e6, -1e-40])),
            'scale': draw(gen.scale5()), 'params': draw(gen.overrides()),
            'how': draw(gen.hows()), 'order': draw(st.integers(0, 99))}


TABLES = {('JMS', 'Bern'): T.jms_to_bern, ('JMS', 'flavio'): T.jms_to_flavio,
          ('JMS', 'EOS'): T.jms_to_eos,
          ('JMS', 'formflavor'): T.jms_to_formflavor,
          ('Bern', 'flavio'): T.bern_to_flavio,
          ('flavio', 'Bern'): T.flavio_to_bern}


def amplitude(case, x, y):
    """size of the individual contributions to an output coefficient, for the
    rounding tolerance only"""
    b1, b2, lam = case['b1'], case['b2'], abs(case['lam'])
    p = params.at_scale(case['scale'], case['params'])
    if b1 == 'FlavorKit' and b2 == 'flavio':
        x, y = (ref_flavorkit.fk_to_jms(z, p) for z in (x, y))
        b1 = 'JMS'
    if (b1, b2) not in TABLES:
        return lambda k, vx, vy: 10 * (abs(vx) + lam * abs(vy))
    t = TABLES[b1, b2]()
    ax, ay = ref_wet.evaluate(t, x, p), ref_wet.evaluate(t, y, p)

    def amp(k, vx, vy):
        if k not in t:
            return abs(vx) + lam * abs(vy)
        return ax[k][1] + lam * ay[k][1]
    return amp


def prop_linear(case):
    eft, b1, b2 = case['eft'], case['b1'], case['b2']
    ks, target = K(eft, b1), K(eft, b2)
    x = gen.values(case['x'], ks)
    y = gen.values(case['y'], ks)
    lam = case['lam']
    z = {k: x.get(k, 0) + lam * y.get(k, 0) for k in set(x) | set(y)}
    fx = translate(case, eft, b1, b2, x)[1]
    fy = translate(case, eft, b1, b2, y)[1]
    fz = translate(case, eft, b1, b2, z, how=0)[1]
    n = 0
    amps = amplitude(case, x, y)
    for k in set(fx) | set(fy) | set(fz):
        if k not in target:
            fail('%s %s->%s produced %s, which is not in the target basis',
                 eft, b1, b2, k)
        vx, vy, vz = (complex(f.get(k, 0)) for f in (fx, fy, fz))
        if not gen.close(vz, vx + lam * vy, amps(k, vx, vy), 1e-9, 1e-12):
            fail('%s %s->%s not linear in %s: f(x)+%r f(y) = %r, f(x+%r y) = %r',
                 eft, b1, b2, k, lam, vx + lam * vy, lam, vz)
        n += vz != 0
    f = case.get('factor', 1e-14)
    fs = translate(case, eft, b1, b2, {k: f * v for k, v in x.items()}, how=0)[1]
    for k in set(fx) | set(fs):
        if k not in target:
            fail('%s %s->%s produced %s, which is not in the target basis',
                 eft, b1, b2, k)
        vx, vs = complex(fx.get(k, 0)), complex(fs.get(k, 0))
        if not gen.close(vs, f * vx, abs(f) * amps(k, vx, 0), 1e-9, 1e-12):
            fail('%s %s->%s not homogeneous in %s: f(x) = %r, f(%r x) = %r',
                 eft, b1, b2, k, vx, f, vs)
    for f in (fx, fy, fz, fs):
        for k, v in f.items():
            if v == 0:
                fail('zero value kept for %s', k)
    return {'outputs': n, eft: 1}


def lin_setup():
    cm.install()


c13 = [Sub('linear', linear_case(), prop_linear, 500, 5000,
           'f(x + lambda y) has a non-zero coefficient', cm.nontriv,
           setup=cm.install)]


@st.composite
def family_case(draw):
    eft, b1, b2 = draw(st.sampled_from([p for p in PAIRS if p[0] != 'WET']))
    c = draw(cm.point(K(eft, b1)))
    c.update(eft=eft, b1=b1, b2=b2)
    return c


def prop_family(case):
    """WET-4/WET-3 translators agree with the five-flavour ones."""
    eft, b1, b2 = case['eft'], case['b1'], case['b2']
    x = gen.values(case, K(eft, b1))
    _, a = translate(case, eft, b1, b2, x)
    _, b = translate(case, 'WET', b1, b2, x)
    for k in set(a) | set(b):
        if k not in K(eft, b2):
            fail('%s %s->%s produced %s', eft, b1, b2, k)
        if not gen.close(complex(a.get(k, 0)), complex(b.get(k, 0)), 0, 1e-12):
            fail('%s: %r in %s, %r in WET', k, a.get(k, 0), eft, b.get(k, 0))
    return {'outputs': len(b)}


c13.append(Sub('family', family_case(), prop_family, 80, 1500, cm.RULE,
               cm.nontriv, gen.explicit_with(lambda c: K(c['eft'], c['b1'])),
               cm.install))


@st.composite
def zero_case(draw):
    eft, b1, b2 = draw(st.sampled_from(PAIRS))
    ks = draw(st.lists(st.sampled_from(list(K(eft, b1))), max_size=5,
                       unique=True))
    return {'eft': eft, 'b1': b1, 'b2': b2, 'zeros': ks, 'params': None,
            'scale': draw(gen.scale5()), 'how': draw(gen.hows())}


def prop_zero(case):
    x = {k: 0j for k in case['zeros']}
    _, out = translate(case, case['eft'], case['b1'], case['b2'], x)
    if out:
        fail('vanishing input gives %r', dict(list(out.items())[:3]))


c13.append(Sub('zero', zero_case(), prop_zero, 30, 300,
               'explicit zero entries are present',
               lambda c, l: bool(c['zeros']), setup=cm.install))

def light(table, eft, basis):
    """the entries of a translation table whose targets exist in eft"""
    def f():
        return {k: v for k, v in table().items() if k in K(eft, basis)}
    return f


def alone(*pairs):
    return [alone_sub('alone%s-%s-%s' % (eft[4:], b1, b2), eft, b1, b2,
                      light(TABLES[b1, b2], eft, b2))
            for eft in ('WET', 'WET-4', 'WET-3') for b1, b2 in pairs]


# --- C14 ----------------------------------------------------------------------
c14 = [translator_sub('jms-bern', 'WET', 'JMS', 'Bern', T.jms_to_bern, 120, 3000),
       translator_sub('jms-bern4', 'WET-4', 'JMS', 'Bern', light(T.jms_to_bern, 'WET-4', 'Bern'), 40, 800),
       translator_sub('jms-bern3', 'WET-3', 'JMS', 'Bern', light(T.jms_to_bern, 'WET-3', 'Bern'), 40, 800),
       ] + alone(('JMS', 'Bern'))

# --- C15 ----------------------------------------------------------------------
c15 = [translator_sub('jms-flavio', 'WET', 'JMS', 'flavio', T.jms_to_flavio, 60, 2000),
       translator_sub('bern-flavio', 'WET', 'Bern', 'flavio', T.bern_to_flavio, 60, 2000),
       translator_sub('flavio-bern', 'WET', 'flavio', 'Bern', T.flavio_to_bern, 60, 2000),
       translator_sub('jms-flavio4', 'WET-4', 'JMS', 'flavio', light(T.jms_to_flavio, 'WET-4', 'flavio'), 30, 800),
       translator_sub('bern-flavio4', 'WET-4', 'Bern', 'flavio', light(T.bern_to_flavio, 'WET-4', 'flavio'), 30, 800),
       translator_sub('flavio-bern4', 'WET-4', 'flavio', 'Bern', light(T.flavio_to_bern, 'WET-4', 'Bern'), 30, 800),
       translator_sub('jms-flavio3', 'WET-3', 'JMS', 'flavio', light(T.jms_to_flavio, 'WET-3', 'flavio'), 30, 800),
       translator_sub('bern-flavio3', 'WET-3', 'Bern', 'flavio', light(T.bern_to_flavio, 'WET-3', 'flavio'), 30, 800),
       translator_sub('flavio-bern3', 'WET-3', 'flavio', 'Bern', light(T.flavio_to_bern, 'WET-3', 'Bern'), 30, 800),
       path_sub('via-bern', 'WET', ('JMS', 'Bern', 'flavio'), 40, 1000),
       inverse_sub('roundtrip', 'WET', 'flavio', 'Bern', 40, 1000),
       inverse_sub('roundtrip4', 'WET-4', 'flavio', 'Bern', 15, 300),
       inverse_sub('roundtrip3', 'WET-3', 'flavio', 'Bern', 15, 300),
       ] + alone(('JMS', 'flavio'), ('Bern', 'flavio'), ('flavio', 'Bern'))

# --- C16, C17 -------------------------------------------------------------------
c16 = [translator_sub('jms-eos', 'WET', 'JMS', 'EOS', T.jms_to_eos, 150, 4000),
       alone_sub('alone', 'WET', 'JMS', 'EOS', T.jms_to_eos)]
c17 = [translator_sub('jms-formflavor', 'WET', 'JMS', 'formflavor',
                      T.jms_to_formflavor, 150, 4000),
       alone_sub('alone', 'WET', 'JMS', 'formflavor', T.jms_to_formflavor)]


# --- C18 FlavorKit --------------------------------------------------------------
def fk_sub(name, b1, b2, fun, quick, thorough):
    def prop(case):
        x, out = translate(case, 'WET', b1, b2)
        p = params.at_scale(case['scale'], case['params'])
        ref = {k: (complex(v), abs(v)) for k, v in fun(x, p).items() if v != 0}
        return {'outputs': cm.compare(out, ref, 1e-10)}
    return Sub(name, cm.point(K('WET', b1)), prop, quick, thorough, cm.RULE,
               cm.nontriv, gen.explicit_with(K('WET', b1)), cm.install)


@st.composite
def unknown_case(draw):
    c = draw(cm.point(K('WET', 'FlavorKit')))
    c['bad'] = draw(st.sampled_from(
        ['DVLL', 'XVLL_1122', 'AVLL_9999', 'C9', 'K3R_12', 'egamma_12']))
    return c


def prop_unknown(case):
    x = dict(gen.values(case, K('WET', 'FlavorKit')))
    x[case['bad']] = 1.
    wc = cm.make_wc('WET', 'FlavorKit', x, case['scale'], 0, case['order'])
    s, r = outcome(wc.translate, 'JMS', parameters=cm.pcopy(case['params']))
    if s == 'ok':
        fail('unknown FlavorKit coefficient %r silently dropped', case['bad'])
    if not isinstance(r, ValueError):
        fail('unknown FlavorKit coefficient %r raises %r', case['bad'], r)


c18 = [fk_sub('fk-jms', 'FlavorKit', 'JMS', ref_flavorkit.fk_to_jms, 80, 2000),
       fk_sub('jms-fk', 'JMS', 'FlavorKit', ref_flavorkit.jms_to_fk, 80, 2000),
       inverse_sub('roundtrip', 'WET', 'FlavorKit', 'JMS', 40, 1000),
       path_sub('via-jms', 'WET', ('FlavorKit', 'JMS', 'flavio'), 40, 800),
       Sub('unknown', unknown_case(), prop_unknown, 15, 200,
           'a key outside of the FlavorKit basis is present', setup=cm.install)]
c18 += [cm.each('alone-' + s.name, s, lambda c, b=b: K('WET', b), f)
        for s, b, f in ((c18[0], 'FlavorKit', 1), (c18[1], 'JMS', 1),
                        (c18[3], 'FlavorKit', 0.5))]

# --- C21 thresholds ---------------------------------------------------------------
THR = [('WET', 'WET-4', 'JMS'), ('WET-4', 'WET-3', 'JMS'),
       ('WET-3', 'WET-2', 'JMS'), ('WET', 'WET-4', 'Bern'),
       ('WET-4', 'WET-3', 'Bern'), ('WET', 'WET-4', 'flavio'),
       ('WET-4', 'WET-3', 'flavio')]


@st.composite
def thr_case(draw):
    e1, e2, b = draw(st.sampled_from(THR))
    c = draw(cm.point(K(e1, b)))
    c.update(e1=e1, e2=e2, b=b)
    if 'dense' in c and draw(st.integers(0, 4)) == 0:
        # the values are copied, so any magnitude must survive
        c['dense'] = dict(c['dense'], mag=draw(st.sampled_from(
            [-35, -60, -150, 12, 40])))
    return c


def prop_thr(case):
    e1, e2, b = case['e1'], case['e2'], case['b']
    x = gen.values(case, K(e1, b))
    wc = cm.make_wc(e1, b, x, case['scale'], case['how'], case['order'])
    out = cm.result(call(wc.match, e2, b, parameters=cm.pcopy(case['params'])),
                    e2, b, case['scale'])
    exp = {k: v for k, v in x.items() if k in K(e2, b) and v != 0}
    if set(out) != set(exp):
        d = sorted(set(out) ^ set(exp))
        fail('%s -> %s (%s): coefficients differ: %s', e1, e2, b, d[:5])
    for k in exp:
        if complex(out[k]) != complex(exp[k]):
            fail('%s changed from %r to %r', k, exp[k], out[k])
    return {'outputs': len(exp), 'dropped': len(x) > len(exp)}


@st.composite
def custom_case(draw):
    """match onto a basis that was (re)defined with arbitrary content"""
    e1, e2, b = draw(st.sampled_from(THR))
    pool = list(K(e1, b))
    ks = draw(st.lists(st.one_of(st.sampled_from(pool), st.sampled_from(
        ['X', 'G', 'Gtilde', 'C_1', 'X_12', 'x'])), max_size=12, unique=True))
    f = draw(st.sampled_from([1., 1., 1., 1e-32, 1e-100, 1e20]))
    x = {k: [f * v for v in draw(gen.number(False))] for k in ks}
    keep = draw(st.lists(st.booleans(), min_size=len(ks), max_size=len(ks)))
    other = draw(st.lists(st.sampled_from(pool), max_size=4, unique=True))
    return {'e1': e1, 'e2': e2, 'b': b, 'x': x,
            'basis': [k for k, f in zip(ks, keep) if f]
            + [k for k in other if k not in ks],
            'scale': draw(gen.scale5()), 'how': draw(gen.hows()),
            'order': draw(st.integers(0, 99)), 'params': draw(gen.overrides())}


def prop_custom(case):
    e1, e2, b = case['e1'], case['e2'], case['b']
    try:
        wcxf.Basis(e2, b, {'a': {k: {} for k in case['basis'][::2]},
                           'b': {k: None for k in case['basis'][1::2]}})
        x = {k: complex(*v) for k, v in case['x'].items()}
        wc = cm.make_wc(e1, b, x, case['scale'], case['how'], case['order'])
        out = cm.result(call(wc.match, e2, b, parameters=cm.pcopy(case['params'])),
                        e2, b, case['scale'])
        exp = {k: v for k, v in x.items() if k in case['basis'] and v != 0}
        if {k: complex(v) for k, v in out.items()} != exp:
            fail('%s -> %s (%s) with basis %r: %r became %r', e1, e2, b,
                 case['basis'], x, out)
        return {'outputs': len(exp)}
    finally:
        bases.install([(e2, b)])


@st.composite
def comm_case(draw):
    e1, e2 = draw(st.sampled_from([('WET', 'WET-4'), ('WET-4', 'WET-3')]))
    b1, b2 = draw(st.sampled_from([('JMS', 'flavio'), ('JMS', 'Bern'),
                                   ('Bern', 'flavio'), ('flavio', 'Bern')]))
    c = draw(cm.point(K(e1, b1)))
    c.update(e1=e1, e2=e2, b1=b1, b2=b2)
    return c


def prop_comm(case):
    """match and translate commute"""
    e1, e2, b1, b2 = (case[k] for k in ('e1', 'e2', 'b1', 'b2'))
    x = gen.values(case, K(e1, b1))
    wc = cm.make_wc(e1, b1, x, case['scale'], case['how'], case['order'])
    p = lambda: cm.pcopy(case['params'])
    a = call(lambda: wc.translate(b2, parameters=p()).match(e2, b2, parameters=p()))
    b = call(lambda: wc.match(e2, b1, parameters=p()).translate(b2, parameters=p()))
    a, b = cm.result(a, e2, b2, case['scale']), cm.result(b, e2, b2, case['scale'])
    for k in set(a) | set(b):
        if not gen.close(complex(a.get(k, 0)), complex(b.get(k, 0)), 0, 1e-9):
            fail('%s: translate-then-match %r, match-then-translate %r',
                 k, a.get(k, 0), b.get(k, 0))
    return {'outputs': len(a)}


c21 = [Sub('restrict', thr_case(), prop_thr, 150, 4000, cm.RULE, cm.nontriv,
           gen.explicit_with(lambda c: K(c['e1'], c['b'])), cm.install),
       Sub('custom', custom_case(), prop_custom, 200, 4000,
           'a coefficient is in the redefined lower basis', cm.nontriv,
           setup=cm.install),
       Sub('commute', comm_case(), prop_comm, 60, 1500, cm.RULE, cm.nontriv,
           gen.explicit_with(lambda c: K(c['e1'], c['b1'])), cm.install)]

c21.append(cm.each('alone', c21[0], lambda c: K(c['e1'], c['b']), 1., 12, 60,
                   t=st.sampled_from(THR).map(list)))
_thr = c21[-1].prop
c21[-1].prop = lambda c: _thr(dict(c, **dict(zip(('e1', 'e2', 'b'), c['t']))))

CHECKS = {'C13': Check('C13', c13), 'C14': Check('C14', c14),
          'C15': Check('C15', c15), 'C16': Check('C16', c16),
          'C17': Check('C17', c17), 'C18': Check('C18', c18),
          'C21': Check('C21', c21)}
