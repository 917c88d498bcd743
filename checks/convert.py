"""C23 EOS parameters and C24 SMEFTsim parameter cards."""
import cmath
import copy
import io
import json
import math
import os
import re
import sys

import pylha
import yaml
from hypothesis import strategies as st

from vf import bases, env, flavour as fl, gen
from vf.core import Check, Sub, call, fail, outcome, scratch
from .common import install

import wcxf
from wcxf.converters import eos, smeftsim

# --- C23 ---------------------------------------------------------------------
KEYS = bases.keys('WET', 'EOS')


def _eos_names():
    """parameter names of an EOS installation, derived from the basis"""
    out = []
    for k in KEYS:
        p, c = k.split('::')
        p = p.replace('enue', 'lnu').replace('munumu', 'lnu')
        for n in ('%s::%s' % (p, c), '%s::Re{%s}' % (p, c),
                  '%s::Im{%s}' % (p, c)):
            if n not in out:
                out.append(n)
    return out


SMNAMES = _eos_names() + [
    'mass::b(MSbar)', 'CKM::A', 'b->d::Re{c7}', 'b->clnu::Re{cVL}',
    'b->clnu::Im{cVL}', "b->smumu::Re{cX'}"]
EXTRA = ['b->cenue::cVL', 'b->cmunumu::cVL', 'b->d::c7', "b->smumu::cX'"]
WCNAMES = list(KEYS) + EXTRA


def np_model(name, x):
    """contribution of the coefficients x to the EOS parameter `name`"""
    if name in x:
        return x[name].real
    for part in ('Re', 'Im'):
        m = re.search(part + r'\{([^}]+)\}', name)
        if not m:
            continue
        k = name[:m.start()] + m.group(1) + name[m.end():]
        if k in x:
            v = x[k]
        elif 'lnu' in k:
            a = x.get(k.replace('lnu', 'enue'), 0)
            b = x.get(k.replace('lnu', 'munumu'), 0)
            if a != b:
                raise ValueError(k)
            v = a
        else:
            v = 0
        return complex(v).real if part == 'Re' else complex(v).imag
    return 0.


def fl_():
    return st.one_of(st.sampled_from([0., 1., -1., 0.25, -0.33726473, 1e-7]),
                     st.floats(-10., 10.).map(lambda f: float('%.9g' % f)),
                     st.integers(-3, 3))


def num():
    return st.one_of(st.tuples(fl_(), fl_()).map(list),
                     fl_().map(lambda a: [a, 0]), fl_().map(lambda a: [0, a]))


@st.composite
def wc_eos(draw, names):
    ks = draw(st.lists(st.sampled_from(names), max_size=8, unique=True))
    x = {k: draw(num()) for k in ks}
    pol = draw(st.sampled_from(['universal', 'universal', 'universal', 'free',
                                'perturb']))
    if pol != 'free':
        for k in list(x):
            other = None
            if 'enue' in k:
                other = k.replace('enue', 'munumu')
            elif 'munumu' in k:
                other = k.replace('munumu', 'enue')
            if other:
                x[other] = list(x[k])
    cc = sorted(k for k in x if 'enue' in k)
    if pol == 'perturb' and cc:
        k = draw(st.sampled_from(cc))
        i = draw(st.integers(0, 1))
        x[k][i] = x[k][i] + draw(st.sampled_from([1e-9, -1e-3, 1., 0.5]))
    return x


def sm_entry():
    return st.tuples(fl_(), fl_(), fl_()).map(
        lambda t: {'central': t[0], 'min': t[1], 'max': t[2]})


def _sm(names):
    return st.lists(st.sampled_from(names), min_size=1, max_size=14,
                    unique=True).flatmap(
        lambda ks: st.lists(sm_entry(), min_size=len(ks), max_size=len(ks))
        .map(lambda vs: [[k, v] for k, v in zip(ks, vs)]))


def _near(x):
    """EOS names that refer to the coefficients of x"""
    out = []
    for k in sorted(x):
        p, c = k.split('::')
        p = p.replace('enue', 'lnu').replace('munumu', 'lnu')
        for n in ('%s::Re{%s}' % (p, c), '%s::Im{%s}' % (p, c),
                  '%s::%s' % (p, c)):
            if n not in out:
                out.append(n)
    return out


@st.composite
def eos_cases(draw):
    x = draw(wc_eos(WCNAMES))
    seed, how, order = draw(st.tuples(
        st.integers(0, 999), gen.hows(), st.integers(0, 99)))
    kind = draw(st.sampled_from(['near', 'near', 'near', 'far', 'all']))
    if kind == 'far' or not x:
        sm = draw(_sm(SMNAMES))
    elif kind == 'near':
        sm = draw(_sm(_near(x) + SMNAMES[:3]))
    else:
        sm = [[k, {'central': round(gen._u(seed, k)[0], 6),
                   'min': -1., 'max': 2.}] for k in SMNAMES]
    return dict(sm=sm, x=x, how=how, order=order)


def close(a, b):
    return abs(a - b) <= 1e-12 * max(1., abs(a), abs(b))


def check_eos(out, sm, x):
    """-> number of parameters with a new physics contribution"""
    n = 0
    if list(out) != [k for k, _ in sm]:
        fail('parameters %r instead of %r', list(out), [k for k, _ in sm])
    for k, v in sm:
        d = np_model(k, x)
        if set(out[k]) != {'central', 'min', 'max'}:
            fail('fields of %s: %r', k, sorted(out[k]))
        for q in ('central', 'min', 'max'):
            if isinstance(out[k][q], complex) or \
                    not close(out[k][q], v['central'] + d):
                fail('%s %s = %r, expected %r + %r', k, q, out[k][q],
                     v['central'], d)
        n += d != 0
    return n


def eos_prop(case):
    x = {k: complex(*v) for k, v in case['x'].items()}
    smd = {k: dict(v) for k, v in case['sm']}
    wc = wcxf.WC('WET', 'EOS', 4.2, gen.wc_values(x, case['how'],
                                                  case['order']))
    before, sm0 = copy.deepcopy(wc.values), copy.deepcopy(smd)
    try:
        for k in smd:
            np_model(k, x)
        universal = True
    except ValueError:
        universal = False
    kind, out = outcome(eos.wcxf2eos, wc, smd)
    if smd != sm0 or wc.values != before:
        fail('inputs were modified')
    if not universal:
        if kind == 'ok':
            fail('non-universal charged-current coefficients were accepted')
        if not isinstance(out, ValueError):
            fail('non-universal coefficients: %r instead of ValueError', out)
        return {'refused': 1}
    if kind != 'ok':
        fail('unexpected %s: %s', type(out).__name__, out)
    n = check_eos(out, case['sm'], x)
    if not out:
        return {}
    # single parameters, one at a time, agree
    k = case['sm'][case['order'] % len(case['sm'])][0]
    one = call(eos.get_eos_np, k, wc)
    if not close(one, np_model(k, x)):
        fail('contribution to %s: %r, expected %r', k, one, np_model(k, x))
    return {'contributions': n,
            'charged': sum('lnu' in k and np_model(k, x) != 0 for k in smd)}


# reading the EOS installation
ODD = ['@x', 'm', 'metadata', '@metadata', 'a::b c', '1', 'Re{}', '\u00fc::x']


@st.composite
def dirs(draw):
    names = draw(st.lists(st.sampled_from(SMNAMES + ODD), min_size=1, max_size=12,
                          unique=True))
    nf = draw(st.integers(1, 6))
    at = [draw(st.integers(0, nf - 1)) if draw(st.booleans()) else j % nf
          for j in range(len(names))]
    files = []
    for i in range(nf):
        meta = draw(st.sampled_from(
            ['true', 'true', 'bare', 'false', 'absent', 'other', 'null0']))
        ext = draw(st.sampled_from(['.yaml', '.yaml', '.yaml', '.txt',
                                    '.yaml.bak', '.json', '.yml',
                                    '/sub.yaml']))
        ks = [k for j, k in enumerate(names) if at[j] == i]
        files.append({'name': 'p%d%s' % (i, ext), 'meta': meta,
                      'entries': [[k, draw(sm_entry())] for k in ks]})
    return {'files': files, 'style': draw(st.booleans()),
            'place': draw(st.sampled_from(['', '', 'my eos', '[0.2]', 'e*s', '\u00fc?']))}


META = {'true': {'wcxf-relevant': True, 'title': 'x'},
        'bare': {'wcxf-relevant': True},
        'false': {'wcxf-relevant': False},
        'other': {'title': 'something'}, 'null0': {'wcxf-relevant': 0}}


def relevant(f):
    return f['name'].endswith('.yaml') and '/' not in f['name'] \
        and f['meta'] in ('true', 'bare')


def write_dir(case, d):
    want = {}
    for f in case['files']:
        c = {k: v for k, v in f['entries']}
        if f['meta'] != 'absent':
            c['@metadata@'] = META[f['meta']]
        os.makedirs(os.path.dirname(os.path.join(d, f['name'])), exist_ok=True)
        with open(os.path.join(d, f['name']), 'w') as s:
            yaml.safe_dump(c, s, default_flow_style=case['style'])
        if relevant(f):
            want.update({k: v for k, v in f['entries']})
    return want


def dir_prop(case):
    d = os.path.join(scratch('vf-eos'), case.get('place', ''))
    os.makedirs(d, exist_ok=True)
    want = write_dir(case, d)
    before = sorted(os.listdir(d))
    got = call(eos.get_sm_wcs, d)
    if dict(got) != want:
        fail('read %r instead of %r', sorted(got), sorted(want))
    if sorted(os.listdir(d)) != before:
        fail('directory was changed')
    return {'entries': len(want), 'skipped': len(case['files']) - sum(
        relevant(f) for f in case['files'])}


# --- C24 ---------------------------------------------------------------------
with open(os.path.join(env.VERIF, 'data', 'smeftsim.json')) as _f:
    GOLD = json.load(_f)
LOW = {n.lower(): n for n in fl.SMEFT_SYM}
BOSONS = {'G': 'G', 'Gtil': 'Gtilde', 'W': 'W', 'Wtil': 'Wtilde', 'H': 'phi',
          'Hbox': 'phiBox', 'HBox': 'phiBox', 'HDD': 'phiD', 'HG': 'phiG',
          'HGtil': 'phiGtilde', 'HW': 'phiW', 'HWtil': 'phiWtilde',
          'HB': 'phiB', 'HBtil': 'phiBtilde', 'HWB': 'phiWB',
          'HWBtil': 'phiWtildeB'}
MASS = bases.keys('SMEFT', 'Warsaw mass')


def _row(label):
    """what a parameter means: ('lambda',) / ('real', key) /
    ('abs'|'ph', key, conj)"""
    if label in ('LambdaSMEFT', 'Lambda'):
        return ('lambda',)
    m = re.match(r'c(\w+?)(Abs|Ph)([1-3](?:x?[1-3])*)$', label)
    if not m:
        return ('real', BOSONS[label[1:]])
    name = LOW[m.group(1).replace('H', 'phi').lower()]
    idx = tuple(int(c) - 1 for c in m.group(3).replace('x', ''))
    (c, k, conj), = fl.smeft_element(name, idx)
    assert c == 1
    if MASS[k]:
        assert m.group(2) == 'Abs'
        return ('real', k)
    return (m.group(2).lower(), k, conj)


ROWS = {}
for _s in 'AB':
    ROWS[_s] = {}
    for _b, _rr in GOLD['rows'][_s].items():
        for _r in _rr:
            _t = _r.split()
            ROWS[_s][_b.lower(), tuple(int(i) for i in _t[:-1])] = (
                _t[-1], _row(_t[-1]))
USED = {m[1] for s in 'AB' for _, m in ROWS[s].values() if len(m) > 1}


def check_rows(rows, case, x):
    """rows: (block, ids) -> (value string, label or None)"""
    lam = case['lam']
    ref = ROWS[case['set']]
    if (case['set'], case['scheme']) == ('A', 'mw'):
        ref = dict(ref)
        ref['frblock', (1475,)] = ('MW0', ('const', 80.387))
    if set(rows) != set(ref):
        fail('entries missing %r / not expected %r',
             sorted(set(ref) - set(rows))[:4], sorted(set(rows) - set(ref))[:4])
    parts = {}
    n = 0
    for pos, (label, m) in ref.items():
        val, lab = rows[pos]
        if lab != label:
            fail('entry %s %s is labelled %r instead of %r', pos[0], pos[1],
                 lab, label)
        try:
            v = float(val)
        except (TypeError, ValueError):
            fail('entry %s has value %r, which is not a number', label, val)
        if not math.isfinite(v):
            fail('entry %s has value %r', label, val)
        if m[0] == 'const':
            if abs(v - m[1]) > 2e-6 * m[1]:
                fail('%s = %r instead of %r', label, v, m[1])
        elif m[0] == 'lambda':
            if abs(v - lam) > 2e-6 * abs(lam):
                fail('%s = %r instead of %r', label, v, lam)
        elif m[0] == 'real':
            w = x.get(m[1], 0j).real * lam ** 2
            if abs(v - w) > 2e-6 * abs(w) + 1e-300:
                fail('%s = %r instead of %r', label, v, w)
            n += w != 0
        else:
            parts.setdefault(m[1:], {})[m[0]] = (label, v)
    for (k, conj), d in parts.items():
        w = x.get(k, 0j) * lam ** 2
        if conj:
            w = w.conjugate()
        (la, a), (lp, p) = d['abs'], d['ph']
        if a < 0 or abs(a - abs(w)) > 2e-6 * abs(w) + 1e-300:
            fail('%s = %r instead of %r', la, a, abs(w))
        if w != 0:
            if abs(cmath.rect(1, p) - w / abs(w)) > 5e-6:
                fail('%s = %r instead of %r', lp, p, cmath.phase(w))
            n += 1
    return n


def card_rows(card):
    rows = {}
    for b, d in card['Block'].items():
        for r in d.get('values', []):
            pos = (b.lower(), tuple(int(i) for i in r[:-2]))
            if pos in rows:
                fail('entry %s %s appears twice', *pos)
            rows[pos] = (r[-2], str(r[-1]).lstrip('# ').strip())
    return rows


def lam_():
    return st.one_of(st.sampled_from([1000., 1000, 1., 246.22, 5000., 1e4]),
                     st.floats(10., 1e5).map(lambda f: float('%.8g' % f)))


def card_cases():
    return st.tuples(gen.inputs(MASS, n=8), st.sampled_from('AB'),
                     st.sampled_from(['alpha', 'mw']), lam_(),
                     gen.hows(), st.integers(0, 99)).map(
        lambda t: dict(t[0], set=t[1], scheme=t[2], lam=t[3], how=t[4],
                       order=t[5]))


def card_prop(case):
    x = gen.values(case, MASS)
    wc = wcxf.WC('SMEFT', 'Warsaw mass', 1000.,
                 gen.wc_values(x, case['how'], case['order']))
    before = copy.deepcopy(wc.values)
    card = call(smeftsim.initialize_smeftsim_card, case['set'])
    out = call(smeftsim.smeftsim_card_fill, card, wc, case['set'],
               case['lam'], case['scheme'])
    if case['order'] % 3 == 0:          # another card is made meanwhile
        for m in 'AB':
            other = wcxf.WC('SMEFT', 'Warsaw mass', 1000., {
                k: .5 * complex(v).real + .25 for k, v in x.items()})
            call(smeftsim.smeftsim_card_fill, call(smeftsim.initialize_smeftsim_card, m),
                 other, m, 2 * case['lam'], case['scheme'])
    if wc.values != before:
        fail('the input was modified')
    n = check_rows(card_rows(out), case, x)
    return {'entries': n, 'set' + case['set']: 1}


def lines(text):
    return [' '.join(l.split('#')[0].split()) for l in text.split('\n')
            if l.split('#')[0].strip()]


def same_line(a, b):
    ta, tb = a.lower().split(), b.lower().split()
    if len(ta) != len(tb):
        return False
    for p, q in zip(ta, tb):
        if p == q:
            continue
        try:
            if float(p) != float(q):
                return False
        except ValueError:
            return False
    return True


def parse_file(text):
    """sections of a whole card: ordered list of (head tokens, rows)"""
    sec = []
    for l in text.split('\n'):
        body, _, com = l.partition('#')
        t = body.split()
        if not t:
            continue
        if t[0].lower() == 'block':
            sec.append((t[1].lower(), []))
        elif t[0].lower() == 'decay':
            sec.append(('decay', [(t[1:], com.strip())]))
        else:
            if not sec:
                fail('stray line %r', l)
            sec[-1][1].append((t, com.strip()))
    return sec


def in_process(f, argv, stdin=''):
    """run a command line entry point: (exit status, stdout)"""
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    sys.argv = list(argv)
    sys.stdin, sys.stdout = io.StringIO(stdin), io.StringIO()
    sys.stderr = io.StringIO()
    out = sys.stdout
    try:
        try:
            r = f()
            code = 0 if r is None else r if isinstance(r, int) else 1
        except SystemExit as e:
            code = 0 if e.code is None else \
                e.code if isinstance(e.code, int) else 1
        except Exception as e:
            code = 1
            r = e
        return code, out.getvalue() if not out.closed else None
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old


def check_file(text, case, x):
    want = GOLD['text'][case['set'] + '/' + case['scheme']]
    got = lines(text)
    pre, post = want
    for i, l in enumerate(pre):
        if i >= len(got) or not same_line(got[i], l):
            fail('card line %r instead of %r', got[i:i + 1], l)
    tail = got[len(got) - len(post):]
    for a, b in zip(tail, post):
        if not same_line(a, b):
            fail('card line %r instead of %r', a, b)
    rows = {}
    npre = len(pre)
    blocks = {b for b, _ in ROWS[case['set']]}
    heads = [l.split()[1].lower() for l in got[npre:len(got) - len(post)]
             if l.lower().startswith('block')]
    if set(heads) != blocks or len(heads) != len(blocks):
        fail('coefficient blocks %r', sorted(set(heads) ^ blocks))
    own = {l.split()[1].lower() for l in pre + post
           if l.lower().startswith('block')}
    for name, rr in parse_file(text):
        if name in blocks and name not in own:
            for t, com in rr:
                try:
                    pos = (name, tuple(int(i) for i in t[:-1]))
                except ValueError:
                    fail('malformed entry %r in block %s', t, name)
                if pos in rows:
                    fail('entry %s %s appears twice', *pos)
                rows[pos] = (t[-1], com)
    n = check_rows(rows, case, x)
    d = call(pylha.load, text)
    up = {k.upper() for k in d['BLOCK']}
    for b in blocks:
        if b.upper() not in up:
            fail('block %s is not readable from the card', b)
    return n


def file_prop(case):
    import wcxf.cli
    x = gen.values(case, MASS)
    wc = wcxf.WC('SMEFT', 'Warsaw mass', 1000.,
                 gen.wc_values(x, case['how'], case['order']))
    d = scratch('vf-smeftsim')
    src, dst = os.path.join(d, 'in.json'), os.path.join(d, 'card.dat')
    with open(src, 'w') as f:
        json.dump({'eft': 'SMEFT', 'basis': 'Warsaw mass', 'scale': 1000.,
                   'values': wc.values}, f)
    argv = ['wcxf2smeftsim', src, '--output', dst]
    if case['set'] != 'A' or case['order'] % 2:
        argv += ['--model-set', case['set']]
    if case['scheme'] != 'alpha' or case['order'] % 3:
        argv += ['--input-scheme', case['scheme']]
    if case['lam'] != 1000 or case['order'] % 5:
        argv += ['--cutoff-scale', repr(case['lam'])]
    code, _ = in_process(wcxf.cli.smeftsim, argv)
    if code != 0:
        fail('exit status %r of %r', code, argv[1:])
    with open(dst) as f:
        text = f.read()
    n = check_file(text, case, x)
    return {'entries': n, case['set'] + case['scheme']: 1}


CHECKS = {
    'C23': Check('C23', [
        Sub('parameters', eos_cases(), eos_prop, 1500, 60000,
            'at least one parameter receives a non-zero contribution, or the '
            'input is refused as lepton non-universal; distinct by case',
            lambda c, l: l.get('contributions') or l.get('refused')),
        Sub('installation', dirs(), dir_prop, 150, 4000,
            'the directory has at least one entry to read and one file to '
            'skip; distinct by case',
            lambda c, l: l['entries'] and l['skipped'])]),
    'C24': Check('C24', [
        Sub('entries', card_cases(), card_prop, 250, 8000,
            'at least one card entry is non-zero; distinct by case',
            lambda c, l: l['entries'], gen.explicit_with(MASS)),
        Sub('file', card_cases(), file_prop, 40, 1500,
            'the card file written by wcxf2smeftsim has at least one '
            'non-zero coefficient; distinct by case',
            lambda c, l: l['entries'], gen.explicit_with(MASS),
            setup=install)]),
}
