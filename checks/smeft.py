"""C09-C12, C19: SMEFT tensors, flavour rotations and Warsaw-type bases."""
import itertools
import random
import numpy as np
from hypothesis import strategies as st
from vf import bases, flavour as fl, gen, params, ref_smeft
from vf.core import Check, Sub, call, fail
from . import common as cm

import wcxf
from wcxf.util import smeftutil
from wcxf.translators import smeft as tsmeft

K = bases.keys
NAMES = list(fl.SMEFT_SYM)
ALLNAMES = NAMES + list(fl.SMEFT_0F)


def ndim(name):
    return 0 if name in fl.SMEFT_0F else 2 if fl.SMEFT_SYM[name].endswith('2') else 4


def array(name, seed, kind='complex', mag=0):
    """random tensor without any symmetry"""
    d = ndim(name)
    if d == 0:
        return gen.dense_value(seed, name, 'real', 0, True).real
    r = np.random.default_rng([seed, sum(ord(c) * 31**i for i, c in enumerate(name)) % 2**31])
    a = r.uniform(-1, 1, (3,) * d) + 1j * r.uniform(-1, 1, (3,) * d)
    if kind == 'real':
        a = a.real.copy()
    elif kind == 'int':
        a = np.round(9 * a.real).astype(int)
    elif kind == 'sparse':
        m = r.uniform(0, 1, a.shape) < 0.9
        a[m] = 0
    elif kind == 'single':
        m = np.ones(a.shape, bool)
        m[tuple(r.integers(0, 3, d))] = False
        a[m] = 0
    elif kind == 'zero':
        a = np.zeros_like(a)
    elif kind == 'imag':
        a = 1j * a.imag
    elif kind in ('diag', 'diag3'):
        m = np.ones(a.shape, bool)
        for i in range(3) if kind == 'diag' else [2]:
            m[(i,) * d] = False
        a[m] = 0
    elif kind == 'const':
        a = np.full_like(a, a.flat[0])
    elif kind == 'symmetric':
        a = ref_smeft.symmetrized(name, a)
    elif kind == 'universal':       # delta_ij (delta_kl) times a number
        a = a.flat[0] * (np.eye(3) if d == 2 else
                         np.einsum('ij,kl->ijkl', np.eye(3), np.eye(3)))
    elif kind == 'dependent':
        a = dep_garbage(name, np.zeros_like(a), seed)
    if mag and kind != 'int':
        a = a * 10.**mag
    return a


AKINDS = ['complex', 'real', 'int', 'sparse', 'single', 'zero', 'imag', 'diag', 'diag3',
          'const', 'symmetric', 'universal', 'dependent']
akind = st.one_of(st.sampled_from(AKINDS[:4]), st.sampled_from(AKINDS))
amag = st.sampled_from([0, 0, 0, 0, 2, -6, -15, -40])


def names(n):
    return st.lists(st.sampled_from(ALLNAMES), min_size=1, max_size=n, unique=True)


# --- C09 ------------------------------------------------------------------------
def dep_garbage(name, a, seed):
    """change only dependent elements of the tensor"""
    ind = {tuple(int(i) - 1 for i in k.split('_')[1])
           for k in fl.smeft_keys() if k.split('_')[0] == name}
    b = np.array(a, dtype=complex)
    r = np.random.default_rng(seed)
    for idx in itertools.product(range(3), repeat=b.ndim):
        if idx not in ind:
            b[idx] = complex(*r.uniform(-5, 5, 2))
        elif ref_smeft._real(name, idx):
            b[idx] = b[idx].real + 1j * r.uniform(-5, 5)
    return b


sym_case = st.fixed_dictionaries({
    'names': st.one_of(names(8), st.just(list(ALLNAMES))),
    'seed': st.integers(0, 2**30),
    'kind': akind, 'mag': amag,
    'garbage': st.booleans()})


def prop_sym(case):
    C = {n: array(n, case['seed'], case['kind'], case['mag']) for n in case['names']}
    keep = {n: np.array(v, copy=True) for n, v in C.items()}
    out = call(smeftutil.symmetrize, C)
    if set(out) != set(C):
        fail('coefficients lost or invented: %s', sorted(set(out) ^ set(C)))
    for n in C:
        if not np.array_equal(np.asarray(C[n]), keep[n]):
            fail('symmetrize changed its input %s', n)
        if ndim(n) == 0:
            if out[n] != keep[n].real:
                fail('scalar %s changed to %r', n, out[n])
            continue
        ref = ref_smeft.symmetrized(n, keep[n])
        if np.shape(out[n]) != ref.shape:
            fail('%s has shape %r', n, np.shape(out[n]))
        d = np.abs(out[n] - ref)
        if not d.max() <= 1e-12 * (np.abs(keep[n]).max() + 1e-60):
            i = np.unravel_index(np.nanargmax(d), d.shape)
            fail('symmetrized %s_%s = %r, expected %r', n,
                 ''.join(str(j + 1) for j in i), out[n][i], ref[i])
    again = call(smeftutil.symmetrize, out)
    for n in out:
        if not np.allclose(again[n], out[n], rtol=0,
                           atol=1e-13 * (np.abs(keep[n]).max() + 1e-60)):
            fail('symmetrize is not idempotent for %s', n)
    if case['garbage']:
        D = {n: (dep_garbage(n, v, case['seed']) if ndim(n) else v)
             for n, v in keep.items()}
        o2 = call(smeftutil.symmetrize, D)
        for n in out:
            if not np.allclose(o2[n], out[n], rtol=0,
                               atol=1e-12 * (np.abs(keep[n]).max() + 1e-60)):
                fail('dependent elements of %s influence the result', n)


c09 = [Sub('symmetrize', sym_case, prop_sym, 250, 6000,
           'at least one operator with flavour indices',
           lambda c, l: any(ndim(n) for n in c['names']))]

# --- C10 ------------------------------------------------------------------------
UKINDS = ['eye', 'unitary', 'perm', 'phase', 'real', 'general', 'near', 'almost', 'phase1',
          'ceye']


def umat(kind, seed):
    r = np.random.default_rng(seed)
    if kind == 'eye':
        return np.eye(3)
    if kind == 'ceye':
        return np.eye(3, dtype=complex)
    if kind == 'phase1':        # one common phase
        return np.eye(3) * np.exp(1j * r.uniform(-3, 3))
    if kind == 'perm':
        return np.eye(3)[r.permutation(3)]
    if kind == 'phase':
        return np.diag(np.exp(1j * r.uniform(-3, 3, 3)))
    a = r.normal(size=(3, 3))
    if kind != 'real':
        a = a + 1j * r.normal(size=(3, 3))
    if kind == 'general':
        return a
    if kind == 'near':          # a unitary matrix close to the identity
        h = 10.**r.integers(-9, -1) * (a + a.conj().T)
        w, v = np.linalg.eigh(h)
        return v @ np.diag(np.exp(1j * w)) @ v.conj().T
    u = np.linalg.qr(a)[0]
    if kind == 'almost':        # not quite unitary
        return u + 10.**r.integers(-6, -1) * r.normal(size=(3, 3))
    return u


def uset():
    one = st.tuples(st.sampled_from(UKINDS), st.integers(0, 2**20)).map(list)
    return st.fixed_dictionaries({f: one for f in 'qudle'})


rot_case = st.fixed_dictionaries({
    'names': st.one_of(names(6), st.just(list(ALLNAMES))),
    'seed': st.integers(0, 2**30),
    'sym': st.booleans(), 'kind': akind, 'mag': amag,
    'U': uset(), 'U2': uset()})


def _rot(C, U):
    return call(smeftutil.flavor_rotation, C, U['q'], U['u'], U['d'], U['l'], U['e'])


def prop_rot(case):
    C = {n: array(n, case['seed'], case['kind'], case['mag']) for n in case['names']}
    if case['sym']:
        C = {n: (ref_smeft.symmetrized(n, v) if ndim(n) else v) for n, v in C.items()}
    keep = {n: np.array(v, copy=True) for n, v in C.items()}
    U = {f: umat(*s) for f, s in case['U'].items()}
    out = _rot(C, U)
    if set(out) != set(C):
        fail('coefficients lost or invented: %s', sorted(set(out) ^ set(C)))
    for n in C:
        if not np.array_equal(np.asarray(C[n]), keep[n]):
            fail('rotation changed its input %s', n)
        ref = ref_smeft.rotate(n, keep[n], U) if ndim(n) else keep[n]
        # size of the individual terms
        size = np.abs(keep[n]).max()
        scale = size * max([1.] + [np.abs(u).max() for u in U.values()])**4 + 1e-60
        if np.shape(out[n]) != np.shape(ref) or \
                not np.abs(out[n] - ref).max() <= 1e-10 * scale:
            fail('rotated %s differs from the field redefinition', n)
        if ndim(n) and case['sym'] and all(s[0] not in ('general', 'almost') for s in case['U'].values()):
            if not np.abs(ref_smeft.symmetrized(n, out[n]) - out[n]).max() <= 1e-10 * scale:
                fail('rotation breaks the index symmetry of %s', n)
    U2 = {f: umat(*s) for f, s in case['U2'].items()}
    two = _rot(out, U2)
    one = _rot(C, {f: U[f] @ U2[f] for f in U})
    for n in C:
        s = np.abs(keep[n]).max() * max(
            [1.] + [np.abs(U[f]).max() * np.abs(U2[f]).max() for f in U])**4 + 1e-60
        if not np.abs(two[n] - one[n]).max() <= 1e-9 * s:
            fail('two rotations of %s are not the combined rotation', n)
    return {k[0]: 1 for k in case['U'].values()}


def rot_nontriv(c, l):
    return any(ndim(n) and any(c['U'][f[0]][0] != 'eye'
                               for f in fl.SMEFT_FIELDS[n].split())
               for n in c['names'])


c10 = [Sub('rotation', rot_case, prop_rot, 250, 6000,
           'an operator with a fermion field whose rotation is not the '
           'identity', rot_nontriv)]


# --- C11 ------------------------------------------------------------------------
def amp_by_group(x):
    g = {}
    for k, v in x.items():
        n = k.split('_')[0]
        g[n] = max(g.get(n, 0), abs(v))
    return g


def translate(case, b1, b2, x):
    wc = cm.make_wc('SMEFT', b1, x, case['scale'], case['how'], case['order'])
    out = call(wc.translate, b2, parameters=cm.pcopy(case['params']))
    return cm.result(out, 'SMEFT', b2, case['scale'])


def rot_prop(b1, b2, ref):
    def prop(case):
        x = gen.values(case, K('SMEFT', b1))
        out = translate(case, b1, b2, x)
        g = amp_by_group(x)
        r = {k: (v, 10 * g.get(k.split('_')[0], 0))
             for k, v in ref(x, case['params']).items()}
        return {'outputs': cm.compare(out, r, 1e-9, 1e-13),
                'params': bool(case['params'])}
    return prop


def rt_prop(b1, b2):
    def prop(case):
        x = gen.values(case, K('SMEFT', b1))
        mid = translate(case, b1, b2, x)
        back = translate(case, b2, b1, mid)
        g = amp_by_group(x)
        r = {k: (x.get(k, 0j), 10 * g.get(k.split('_')[0], 0)) for k in K('SMEFT', b1)}
        return {'outputs': cm.compare(back, r, 1e-9, 1e-13,
                                      what='%s -> %s -> %s:' % (b1, b2, b1))}
    return prop


def ssub(name, b1, prop, quick, thorough):
    return Sub(name, cm.point(K('SMEFT', b1), gen.anyscale()), prop, quick,
               thorough, cm.RULE, cm.nontriv, gen.explicit_with(K('SMEFT', b1)),
               cm.install)


c11 = [ssub('to-up', 'Warsaw', rot_prop('Warsaw', 'Warsaw up', ref_smeft.warsaw_to_up), 50, 1500),
       ssub('from-up', 'Warsaw up', rot_prop('Warsaw up', 'Warsaw', ref_smeft.up_to_warsaw), 50, 1500),
       ssub('roundtrip', 'Warsaw', rt_prop('Warsaw', 'Warsaw up'), 25, 800),
       ssub('roundtrip-up', 'Warsaw up', rt_prop('Warsaw up', 'Warsaw'), 25, 800)]
c11 += [cm.each('alone-' + s.name, s, lambda c, b=b: K('SMEFT', b), 0.5)
        for s, b in ((c11[0], 'Warsaw'), (c11[1], 'Warsaw up'))]


# --- C12 ------------------------------------------------------------------------
def prop_mass(case):
    x = gen.values(case, K('SMEFT', 'Warsaw'))
    out = translate(case, 'Warsaw', 'Warsaw mass', x)
    ref, sv = ref_smeft.warsaw_to_mass(x, case['params'])
    g = amp_by_group(x)
    nu = {k: out.pop(k) for k in list(out) if k.startswith('llphiphi')}
    n = cm.compare(out, {k: (complex(v), 10 * g.get(k.split('_')[0], 0))
                         for k, v in ref.items()}, 1e-9, 1e-13)
    a = 10 * g.get('llphiphi', 0)
    got = []
    for i in '123':
        for j in '123':
            v = complex(nu.get('llphiphi_' + i + j, 0))
            if i != j:
                if abs(v) > 1e-9 * a:
                    fail('off-diagonal Weinberg coefficient llphiphi_%s%s = %r', i, j, v)
            else:
                if abs(v.imag) > 1e-9 * a or v.real < -1e-9 * a:
                    fail('llphiphi_%s%s = %r is not real and non-negative', i, j, v)
                got.append(v.real)
    for s, t in zip(sv, got):
        if abs(s - t) > 1e-8 * a + 1e-8 * abs(s):
            fail('neutrino masses: %r, expected %r', got, sv)
    return {'outputs': n, 'weinberg': bool(nu)}


@st.composite
def weinberg_case(draw):
    c = draw(cm.point({k: r for k, r in K('SMEFT', 'Warsaw').items()
                       if k.startswith('llphiphi') or k.startswith('u')},
                      gen.anyscale()))
    c['full'] = 1
    return c


c12 = [ssub('to-mass', 'Warsaw', prop_mass, 150, 3000),
       Sub('weinberg', weinberg_case(), prop_mass, 150, 3000, cm.RULE,
           cm.nontriv, setup=cm.install)]
c12.append(cm.each('alone', c12[0], lambda c: K('SMEFT', 'Warsaw')))


def plain(z, how):
    z = complex(z)
    if how and z.imag == 0:
        return int(z.real) if how == 2 and z.real == int(z.real) else z.real
    return np.complex128(z) if how == 3 else z


flat_case = st.tuples(gen.inputs(K('SMEFT', 'Warsaw'), n=8), st.integers(0, 3),
                      st.integers(0, 1000)).map(
    lambda t: dict(t[0], how=t[1], order=t[2]))


# --- C19 ------------------------------------------------------------------------
def prop_arrays(case):
    """flat -> arrays -> flat keeps every number"""
    x = gen.values(case, K('SMEFT', 'Warsaw'))
    # as in a file: real numbers are floats (or integers), in any order
    ks = list(x)
    random.Random(case.get('order', 0)).shuffle(ks)
    C = call(tsmeft.wcxf2arrays, {k: plain(x[k], case.get('how', 0)) for k in ks})
    if set(C) != {k.split('_')[0] for k in x}:
        fail('wrong set of tensors: %s',
             sorted(set(C) ^ {k.split('_')[0] for k in x}))
    for n, a in C.items():
        exp = np.zeros((3,) * ndim(n), dtype=complex)
        for k, v in x.items():
            if k.split('_')[0] == n:
                exp[tuple(int(i) - 1 for i in k.split('_')[1]) if '_' in k else ()] = v
        if np.shape(a) != exp.shape or not np.array_equal(np.asarray(a), exp):
            fail('array of %s does not hold the given elements', n)
    flat = call(tsmeft.arrays2wcxf, C)
    exp = {}
    for n in C:
        for idx in itertools.product(range(3), repeat=ndim(n)):
            exp[fl.key(n, idx) if idx else n] = 0j
    exp.update(x)
    if set(flat) != set(exp):
        fail('flattened keys differ: %s', sorted(set(flat) ^ set(exp))[:5])
    for k in exp:
        if complex(flat[k]) != exp[k]:
            fail('%s: %r became %r', k, exp[k], flat[k])
    return {'outputs': len(x)}


arr_case = st.fixed_dictionaries({
    'names': st.one_of(st.just([]), names(8), st.just(list(ALLNAMES))),
    'seed': st.integers(0, 2**30),
    'kind': st.sampled_from(['complex', 'real', 'int'])})


def prop_flat(case):
    """arrays -> flat -> arrays, and completion with zeros"""
    C = {n: array(n, case['seed'], case['kind']) for n in case['names']}
    keep = {n: np.array(v, copy=True) for n, v in C.items()}
    back = call(tsmeft.wcxf2arrays, call(tsmeft.arrays2wcxf, C))
    if set(back) != set(C):
        fail('tensors lost: %s', sorted(set(back) ^ set(C)))
    for n in C:
        if np.shape(back[n]) != np.shape(C[n]) or \
                not np.array_equal(np.asarray(back[n]), np.asarray(C[n], dtype=complex)):
            fail('%s changed on the way to flat keys and back', n)
    full = call(smeftutil.add_missing, C)
    if set(full) != set(ALLNAMES):
        fail('completed set differs: %s', sorted(set(full) ^ set(ALLNAMES)))
    for n, v in full.items():
        if n in C:
            if not np.array_equal(np.asarray(v), keep[n]):
                fail('completion changed %s', n)
        elif np.shape(v) != (3,) * ndim(n) or np.any(v):
            fail('missing %s completed by %r', n, v)
    if set(C) != set(case['names']) or any(
            not np.array_equal(np.asarray(C[n]), keep[n]) for n in C):
        fail('completion changed its input')
    # the added arrays are independent of each other and of later calls
    added = [n for n in sorted(full) if n not in C and ndim(n)]
    for i, n in enumerate(added):
        full[n][...] = i + .5
    for i, n in enumerate(added):
        if np.any(full[n] != i + .5):
            fail('the array added for %s does not keep its values (shared or of integers)', n)
    for n, v in call(smeftutil.add_missing, C).items():
        if n in added and np.any(v):
            fail('changing the result of a completion changes the next one: %s', n)
    return {'outputs': len(C)}


def prop_toarray(case):
    """single-tensor conversion is the symmetrised tensor; inverse conversion"""
    x = gen.values(case, K('SMEFT', 'Warsaw'))
    T = ref_smeft.tensors(x)
    n0 = 0
    names = sorted({k.split('_')[0] for k in x if '_' in k})[:8]
    for n in names + ['uphi', 'll']:
        a = call(tsmeft.smeft_toarray, n, dict(x))
        if np.shape(a) != T[n].shape or not np.abs(a - T[n]).max() <= 1e-12:
            fail('tensor of %s is not the symmetrised one', n)
        f = call(tsmeft.smeft_fromarray, n, T[n])
        for idx in itertools.product(range(3), repeat=ndim(n)):
            if f.get(fl.key(n, idx)) != T[n][idx]:
                fail('%s: %r instead of %r', fl.key(n, idx),
                     f.get(fl.key(n, idx)), T[n][idx])
        if len(f) != 3**ndim(n):
            fail('%d labels for %s', len(f), n)
        n0 += 1
    return {'outputs': n0}


_kw = K('SMEFT', 'Warsaw')
c19 = [Sub('flat', flat_case, prop_arrays, 200, 4000,
           'at least one coefficient', cm.nontriv, gen.explicit_with(_kw)),
       Sub('arrays', arr_case, prop_flat, 150, 4000, 'at least one tensor',
           cm.nontriv),
       Sub('single', gen.inputs(_kw, n=8), prop_toarray, 60, 1500,
           'at least one tensor', cm.nontriv, gen.explicit_with(_kw))]

CHECKS = {'C09': Check('C09', c09), 'C10': Check('C10', c10),
          'C11': Check('C11', c11), 'C12': Check('C12', c12),
          'C19': Check('C19', c19)}
