"""C08: translations and matchings neither disturb nor depend on anything but
their input."""
import copy
import json
import random
import numpy as np
from hypothesis import strategies as st
from vf import bases, gen, params, ref_qcd
from vf.core import Check, Sub, Violation, call, fail
from vf.fresh import Fresh
from . import common as cm
from . import smeft as csm

import wcxf
from wcxf.translators import smeft as tsmeft
from wcxf.util import smeftutil

K = bases.keys
OPS = [('T', 'WET', 'JMS', 'WET', b) for b in
       ('flavio', 'Bern', 'EOS', 'formflavor', 'FlavorKit')]
OPS += [('T', 'WET', 'FlavorKit', 'WET', 'JMS'), ('T', 'WET', 'FlavorKit', 'WET', 'flavio'),
        ('T', 'WET', 'Bern', 'WET', 'flavio'), ('T', 'WET', 'flavio', 'WET', 'Bern'),
        ('T', 'WET-4', 'JMS', 'WET-4', 'flavio'), ('T', 'WET-3', 'JMS', 'WET-3', 'Bern'),
        ('T', 'WET-4', 'flavio', 'WET-4', 'Bern'), ('T', 'WET-3', 'Bern', 'WET-3', 'flavio'),
        ('T', 'SMEFT', 'Warsaw', 'SMEFT', 'Warsaw up'),
        ('T', 'SMEFT', 'Warsaw up', 'SMEFT', 'Warsaw'),
        ('T', 'SMEFT', 'Warsaw', 'SMEFT', 'Warsaw mass'),
        ('M', 'SMEFT', 'Warsaw', 'WET', 'JMS'), ('M', 'SMEFT', 'Warsaw up', 'WET', 'JMS'),
        ('M', 'SMEFT', 'Warsaw', 'WET', 'flavio'), ('M', 'SMEFT', 'Warsaw', 'WET', 'EOS'),
        ('M', 'SMEFT', 'Warsaw', 'WET', 'Bern'),
        ('M', 'WET', 'flavio', 'WET-4', 'flavio'), ('M', 'WET', 'JMS', 'WET-4', 'JMS'),
        ('M', 'WET-4', 'Bern', 'WET-3', 'Bern'), ('M', 'WET-3', 'JMS', 'WET-2', 'JMS'),
        ('T', 'WET-4', 'JMS', 'WET-4', 'Bern'), ('T', 'WET-3', 'JMS', 'WET-3', 'flavio'),
        ('T', 'WET-4', 'Bern', 'WET-4', 'flavio'), ('T', 'WET-3', 'flavio', 'WET-3', 'Bern'),
        ('M', 'WET', 'Bern', 'WET-4', 'Bern'), ('M', 'WET-4', 'flavio', 'WET-3', 'flavio'),
        ('M', 'WET-4', 'JMS', 'WET-3', 'JMS')]


@st.composite
def one(draw):
    i = draw(st.integers(0, len(OPS) - 1))
    _, e, b, _, _ = OPS[i]
    d = draw(gen.inputs(K(e, b)))
    if 'dense' in d and e == 'SMEFT':
        d = {'dense': dict(d['dense'], mag=-7, mode='complex')}
    return dict(d, op=i, scale=draw(gen.scale5()), params=draw(gen.overrides()),
                how=draw(gen.hows()))


PARS = ['m_W', 'm_Z', 'GF', 'alpha_e', 'alpha_s', 'Vus', 'Vub', 'Vcb', 'gamma',
        'm_b', 'm_s', 'm_e', 'm_mu', 'm_tau']
vary = st.one_of(
    st.tuples(st.just('param'), st.sampled_from(PARS), st.sampled_from([1.03, .9, 1.0001])),
    st.tuples(st.just('noparams'), st.just(''), st.just(0)),
    st.tuples(st.just('scale'), st.just(''), st.sampled_from([1.5, 1.01, 1.0001, .7])),
    st.tuples(st.just('value'), st.integers(0, 10 ** 6), st.sampled_from([2., -1., 1.001, 0.])),
    st.tuples(st.just('conj'), st.just(''), st.just(0)),
    st.tuples(st.just('op'), st.integers(0, len(OPS) - 1), st.just(0))).map(list)

history = st.fixed_dictionaries({
    'ops': st.lists(one(), min_size=1, max_size=4),
    'vary': st.lists(st.tuples(st.integers(0, 3), vary).map(list), max_size=4),
    'again': st.lists(st.tuples(st.integers(0, 3), st.sampled_from(
        ['same', 'order', 'zeros', 'object', 'mutate'])), min_size=1, max_size=4),
    'seed': st.integers(0, 999)})


def varied(c, x, v):
    """an operation that differs from (c, x) in one respect, or None"""
    what, a, f = v
    c, x = dict(c), dict(x)
    if what == 'param':
        p = cm.pcopy(c['params']) or {}
        p[a] = p.get(a, params.DEFAULTS[a]) * f
        c['params'] = p
    elif what == 'noparams':
        c['params'] = None
    elif what == 'scale':
        s = c['scale'] * f
        if not 1 <= s <= 1e5:
            return None
        c['scale'] = ref_qcd.snap(s)
    elif what == 'value':
        if not x:
            return None
        k = sorted(x)[a % len(x)]
        x[k] = x[k] * f
    elif what == 'conj':
        x = {k: complex(z).conjugate() for k, z in x.items()}
    else:               # another operation on the same coefficients
        if OPS[a][1:3] != OPS[c['op']][1:3]:
            a = next(i for i in range(a, a + len(OPS))
                     if OPS[i % len(OPS)][1:3] == OPS[c['op']][1:3]) % len(OPS)
        c['op'] = a
    return c, x


def apply(op, wc, p):
    k, e1, b1, e2, b2 = OPS[op]
    if k == 'T':
        return call(wc.translate, b2, parameters=p)
    return call(wc.match, e2, b2, parameters=p)


def equal(a, b, what):
    m = {}
    for d in (a, b):
        for k, v in d.items():
            g = k.split('_')[0]
            m[g] = max(m.get(g, 0), abs(v))
    for k in set(a) | set(b):
        x, y = complex(a.get(k, 0)), complex(b.get(k, 0))
        if x != x and y != y:
            continue
        if not abs(x - y) <= 1e-9 * abs(x) + 1e-10 * m[k.split('_')[0]]:
            fail('%s: %s is %r the first time and %r now', what, k, x, y)


def snap():
    return (json.dumps(wcxf.parameters.p, sort_keys=True, default=repr),
            {(e, b): list(wcxf.Basis[e, b].all_wcs) for e, b in bases.ALL})


def perform(c, x, order):
    """run one operation, checking that nothing given to it is changed"""
    _, e, b, _, _ = OPS[c['op']]
    wc = cm.make_wc(e, b, x, c['scale'], c['how'], order)
    v0 = json.dumps(wc.values, sort_keys=True)
    n0 = dict(call(lambda: wc.dict))
    p = cm.pcopy(c['params'])
    out = apply(c['op'], wc, p)
    if json.dumps(wc.values, sort_keys=True) != v0:
        fail('%r changes the values of its input', OPS[c['op']])
    if dict(wc.dict) != n0:
        d = [k for k in set(n0) | set(wc.dict) if n0.get(k) != wc.dict.get(k)]
        fail('%r changes the numbers of its input: %s', OPS[c['op']], d[:3])
    if (wc.eft, wc.basis, wc.scale) != (e, b, float(c['scale'])):
        fail('%r changes its input', OPS[c['op']])
    if p != c['params']:
        fail('%r changes the parameters passed in: %r', OPS[c['op']],
             sorted(set(p) ^ set(c['params'])) or p)
    return wc, out


def alone(c, x):
    """the numbers an operation gives when nothing was computed before"""
    return {k: complex(v) for k, v in perform(c, x, None)[1].dict.items()}


def prop(case):
    labels, results = FRESH('run', case)
    fresh = FRESH.batch([('alone', (c, x)) for c, x, ref in results])
    for (c, x, ref), a in zip(results, fresh):
        equal(a, ref, '%s -> %s (alone, then after other operations)'
              % (OPS[c['op']][1:3], OPS[c['op']][3:]))
    return labels


def run(case):
    first = snap()
    done = []
    todo = []
    for c in case['ops']:
        _, e, b, _, _ = OPS[c['op']]
        todo.append((c, gen.values(c, K(e, b))))
    for i, v in case.get('vary', []):
        t = varied(*(todo[i % len(case['ops'])] + (v,)))
        if t is not None:
            todo.append(t)
    for c, x in todo:
        wc, out = perform(c, x, None)
        done.append((c, x, wc, out, dict(call(lambda: out.dict)),
                     json.dumps(out.values, sort_keys=True)))
    for i, how in case['again']:
        if i >= len(done):
            continue
        c, x, wc, out, ref, txt = done[i]
        what = '%s -> %s (%s)' % (OPS[c['op']][1:3], OPS[c['op']][3:], how)
        if how == 'same':
            equal(ref, perform(c, x, None)[1].dict, what)
        elif how == 'order':
            equal(ref, perform(c, x, case['seed'])[1].dict, what)
        elif how == 'zeros':
            y = {}
            ks = list(K(OPS[c['op']][1], OPS[c['op']][2]))
            for k in ks[case['seed'] % 7::97]:
                y[k] = 0j
            y.update(x)
            equal(ref, perform(c, y, case['seed'])[1].dict, what)
        elif how == 'object':
            equal(ref, apply(c['op'], wc, cm.pcopy(c['params'])).dict, what)
        else:
            r = apply(c['op'], wc, cm.pcopy(c['params']))
            for k in list(r.values):
                r.values[k] = 7.
            for k in list(r.dict):
                r.dict[k] = 7.
            equal(ref, apply(c['op'], wc, cm.pcopy(c['params'])).dict, what)
    for c, x, wc, out, ref, txt in done:
        if json.dumps(out.values, sort_keys=True) != txt or dict(out.dict) != ref:
            fail('an earlier result of %r was changed by later operations', OPS[c['op']])
    if snap() != first:
        fail('default parameters or registered bases were changed')
    return ({'ops': len(done), 'again': sum(i < len(done) for i, h in case['again'])},
            [(c, x, {k: complex(v) for k, v in ref.items()})
             for c, x, wc, out, ref, txt in done])


def sweep(case, back):
    """an operation and its variants, each changed in one respect, in one process"""
    c = case
    _, e, b, _, _ = OPS[c['op']]
    x = gen.values(c, K(e, b))
    todo = [(c, x)]
    vs = [['param', k, 1.03] for k in PARS] + [['scale', '', 1.5], ['scale', '', .7],
         ['noparams', '', 0], ['conj', '', 0], ['value', case['seed'], 2.],
         ['value', case['seed'], 0.]]
    if case['fine']:
        vs = [[w, k, 1.00001 if w in ('param', 'scale') else f] for w, k, f in vs]
    vs += [['op', i, 0] for i, o in enumerate(OPS) if o[1:3] == (e, b) and i != c['op']]
    for v in vs:
        t = varied(c, x, v)
        if t is not None:
            todo.append(t)
    idx = list(range(len(todo)))
    random.Random(case['seed']).shuffle(idx)
    if back:
        idx.reverse()
    res = {}
    for i in idx:
        res[i] = alone(*todo[i])
    return [(c['op'], vs[i - 1] if i else 'base', res[i]) for i in sorted(res)]


def prop_sweep(case):
    n = 0
    cs = [dict(case, op=o) for o in case['ops']]
    res = FRESH.batch([('sweep', (c, back)) for c in cs for back in (False, True)])
    for fw, bw in zip(res[::2], res[1::2]):
        for (o, v, a), (_, _, b) in zip(fw, bw):
            try:
                equal(a, b, '%s -> %s with %r changed, before and after its variants'
                      % (OPS[o][1:3], OPS[o][3:], v))
            except Violation as exc:
                exc.case = dict(case, ops=[o])
                raise
            n += bool(a)
    return {'variants': n}


ALL = [20, 19, 18, 16, 13, 14, 17]          # the slow ones first
ALL += [i for i in range(len(OPS)) if i not in ALL]
sweeps = st.fixed_dictionaries({
    'ops': st.integers(0, 2 * len(OPS)).map(lambda i: [i] if i < len(OPS) else ALL),
    'dense': st.fixed_dictionaries({
        'seed': st.integers(0, 999), 'mode': st.sampled_from(['complex', 'mixed', 'real']),
        'mag': st.sampled_from([-7, -6, -9])}),
    'scale': gen.scale5(), 'params': gen.overrides(), 'how': gen.hows(),
    'seed': st.integers(0, 999), 'fine': st.booleans()})


# the functions for coefficient arrays
AFUN = ['symmetrize', 'rotation', 'missing', 'flat', 'arrays', 'one', 'back']
arr_history = st.fixed_dictionaries({
    'data': st.lists(st.fixed_dictionaries({
        'names': st.one_of(csm.names(8), st.just(list(csm.ALLNAMES))), 'seed': st.integers(0, 999), 'kind': csm.akind,
        'mag': csm.amag, 'U': csm.uset()}), min_size=1, max_size=3),
    'ops': st.lists(st.tuples(st.sampled_from(AFUN), st.integers(0, 2),
                              st.booleans()).map(list), min_size=1, max_size=12)})


def frozen(v):
    if isinstance(v, dict):
        return {k: frozen(w) for k, w in v.items()}
    a = np.asarray(v)
    return (a.shape, a.dtype.kind, a.tobytes())


def close_(a, b):
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(close_(a[k], b[k]) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(
        (np.abs(a - b) <= 1e-12 * (np.abs(a).max() if a.size else 0)).all())


def spoil(r, given):
    """overwrite a result, except the arrays that were merely passed on"""
    for k in list(r) if isinstance(r, dict) else []:
        if not isinstance(r[k], np.ndarray):
            r[k] = 7.
        elif not any(np.shares_memory(r[k], g) for g in given):
            r[k][...] = 7
    if isinstance(r, dict):
        r['spoilt'] = 1.
    elif isinstance(r, np.ndarray) and not any(np.shares_memory(r, g) for g in given):
        r[...] = 7


def prop_arr(case):
    return FRESH('arr', case)       # nothing else was computed before


def run_arr(case):
    data, refs = [], {}
    for d in case['data']:
        C = {n: csm.array(n, d['seed'], d['kind'], d['mag']) for n in d['names']}
        U = [csm.umat(*d['U'][f]) for f in 'qudle']
        flat = {}
        for n, v in C.items():
            if np.ndim(v):
                flat.update({'%s_%s' % (n, ''.join(str(j + 1) for j in i)): complex(z)
                             for i, z in np.ndenumerate(v)})
            else:
                flat[n] = float(v)
        data.append({'C': C, 'U': dict(zip('qudle', U)), 'flat': flat})
    before = frozen({i: d for i, d in enumerate(data)})
    given = [v for d in data for v in list(d['C'].values()) + list(d['U'].values())
             if isinstance(v, np.ndarray)]
    keep, n = [], 0
    for f, i, bad in case['ops']:
        i %= len(data)
        C, U, flat = (data[i][k] for k in ('C', 'U', 'flat'))
        name = next((m for m in sorted(C) if np.ndim(C[m])), None)
        if f == 'symmetrize':
            r = call(smeftutil.symmetrize, C)
        elif f == 'rotation':
            r = call(smeftutil.flavor_rotation, C, *[U[k] for k in 'qudle'])
        elif f == 'missing':
            r = call(smeftutil.add_missing, C)
        elif f == 'flat':
            r = call(tsmeft.arrays2wcxf, C)
        elif f == 'arrays':
            r = call(tsmeft.wcxf2arrays, flat)
        elif name is None:
            continue
        elif f == 'one':
            r = call(tsmeft.smeft_toarray, name, flat)
        else:
            r = call(tsmeft.smeft_fromarray, name, C[name])
        n += 1
        if frozen({j: d for j, d in enumerate(data)}) != before:
            fail('%s changes the arrays it is given', f)
        if (f, i) in refs and not close_(refs[f, i], r):
            fail('%s gives another result when it is repeated', f)
        refs.setdefault((f, i), copy.deepcopy(r))
        if bad:
            spoil(r, given)
            if frozen({j: d for j, d in enumerate(data)}) != before:
                fail('changing the result of %s changes its input', f)
        else:
            keep.append((f, r, frozen(r)))
    for f, r, z in keep:
        if frozen(r) != z:
            fail('an earlier result of %s was changed by later operations', f)
    return {'calls': n}


FRESH = None


def setup():
    global FRESH
    cm.install()
    FRESH = Fresh({'run': run, 'alone': alone, 'sweep': sweep, 'arr': run_arr})


CHECKS = {'C08': Check('C08', [
    Sub('history', history, prop, 80, 2500,
        'at least two operations, or one operation repeated in a different context',
        lambda c, l: l.get('again', 0) > 0 or l.get('ops', 0) > 1, setup=setup),
    Sub('variants', sweeps, prop_sweep, 4, 60,
        'at least one variant with a result', lambda c, l: l.get('variants', 0) > 0,
        setup=setup),
    Sub('arrays', arr_history, prop_arr, 250, 5000, 'at least two calls',
        lambda c, l: l.get('calls', 0) > 1, setup=setup)], parallel=False)}
