"""C04-C07, C28: validation, registries, inheritance, dispatch, bundled files."""
import json
import os
import random
import shutil
import stat
import subprocess
import sys
import tempfile
from collections import OrderedDict
import numpy as np
from hypothesis import strategies as st
from vf import env
from vf.core import Check, Sub, call, fail, outcome, scratch as scratch_dir

import wcxf

# names of which some are prefixes of others or differ in letter case only
EFTS = ['E1', 'E1-4', 'e1']
BASES = ['B1', 'B1 up', 'b1', 'B']
SECS = ['s1', 's', 'S1']
WCS = ['a', 'A', 'ab', 'b', 'e_1', 'E_1', 'a_11', 'e', 'b ', ' a', '']
ALLC = [wcxf.EFT, wcxf.Basis, wcxf.Translator, wcxf.Matcher]


def clear_all():
    for c in ALLC:
        c.clear_all()


def cp(x):
    return json.loads(json.dumps(x))


meta = st.one_of(st.none(), st.just({}), st.fixed_dictionaries({'tex': st.sampled_from(
    ['x', r'\alpha', r'\bar s b', ''])}), st.just({'tex': 'y', 'real': True}))
sector = st.dictionaries(st.sampled_from(WCS), meta, max_size=4)
sectors = st.dictionaries(st.sampled_from(SECS), sector, max_size=3)
eft_sectors = st.dictionaries(st.sampled_from(SECS), st.just({}), max_size=3)

# --- C04 ----------------------------------------------------------------------------
BADS = [r'\undefinedmacro', r'x_{\undefinedmacroX}', r'\undefinedmacroY', r'a \undefinedmacro',
        'undefinedmacro', 'x^2^undefinedmacroZ', 'undefinedmacroK']


@st.composite
def val_case(draw):
    efts = draw(st.dictionaries(st.sampled_from(EFTS), st.one_of(
        st.just({s: {} for s in SECS}), eft_sectors), max_size=2))
    epool = sorted(efts) * 3 + EFTS
    bs = draw(st.lists(st.tuples(st.sampled_from(epool), st.sampled_from(BASES[:2]),
                                 sectors), max_size=3))
    # mostly disjoint coefficient names, sometimes duplicated across sectors
    out = []
    for e, b, s in bs:
        if draw(st.booleans()) or draw(st.booleans()):
            seen = set()
            s = {n: {k: v for k, v in w.items() if not (k in seen or seen.add(k))}
                 for n, w in s.items()}
        if e in efts and draw(st.booleans()):
            s = {n: w for n, w in s.items() if n in efts[e]}
        if s and draw(st.integers(0, 7)) == 0:      # a large basis
            n = draw(st.sampled_from(sorted(s)))
            m = draw(st.sampled_from([6, 12, 40, 150]))
            s = dict(s)
            s[n] = dict(s[n], **{'x%d' % i: {'tex': 'x'} for i in range(m)})
        if draw(st.integers(0, 5)) == 0:
            ks = [(n, k) for n, w in s.items() for k in w]
            if ks:
                n, k = draw(st.sampled_from(ks))
                s[n][k] = {'tex': draw(st.sampled_from(BADS)),
                           'real': draw(st.booleans())}
        out.append([e, b, s])
    wcs = draw(st.lists(st.tuples(
        st.sampled_from(EFTS), st.sampled_from(BASES[:2]),
        st.lists(st.sampled_from(WCS), max_size=4, unique=True)), min_size=1, max_size=3))
    wcs = [list(w) for w in wcs]
    for w in wcs:                      # often a known basis and coefficients
        if out and draw(st.integers(0, 3)):
            w[:2] = draw(st.sampled_from(out))[:2]
        hit = [o for o in out if o[:2] == w[:2]]
        if hit and draw(st.booleans()):
            known = {k for s in hit[-1][2].values() for k in s}
            w[2] = [k for k in w[2] if k in known] or sorted(known)[:2]
    kids = []
    for e, b, _ in out:
        if draw(st.integers(0, 2)) == 0:
            kids.append([e, b, draw(sectors)])
    return {'efts': efts, 'bases': out, 'wcs': wcs, 'kids': kids,
            'vals': draw(st.integers(0, len(VALS) - 1)),
            'latex': draw(st.booleans())}


_latex_dir = []
VALS = [1., 0., 0, {'Re': 0.5, 'Im': -1}, {'Re': 0, 'Im': 0}, {}, -2e-9, '0.5']


def latex_dir():
    """a stand-in for latex: fails if the document contains the
    name of the undefined macro"""
    if not _latex_dir:
        d = scratch_dir('vf_latex_')
        p = os.path.join(d, 'latex')
        with open(p, 'w') as f:
            f.write('#!/bin/sh\n'
                    'for a; do last="$a"; done\n'
                    'while [ $# -gt 1 ]; do if [ "$1" = "-output-directory" ];'
                    ' then out="$2"; fi; shift; done\n'
                    '[ -f "$last" ] || exit 1\n'
                    '[ -n "$out" ] || out=.\n'
                    'grep -q "begin{document}" "$last" || exit 1\n'
                    'grep -q "end{document}" "$last" || exit 1\n'
                    'if grep -q undefinedmacroX "$last"; then exit 1; fi\n'
                    'if grep -q undefinedmacroZ "$last"; then exit 2; fi\n'
                    'if grep -q undefinedmacroK "$last"; then kill -9 $$; fi\n'
                    'if grep -q undefinedmacroY "$last"; then\n'
                    ' printf "line\\n! Emergency stop." > "$out/textest.log"; exit 1; fi\n'
                    'if grep -q undefinedmacro "$last"; then\n'
                    ' printf "! Undefined control sequence.\\nl.4 bad\\n\\nend\\n"'
                    ' > "$out/textest.log"; exit 1; fi\n'
                    'printf "ok\\n" > "$out/textest.log"\nexit 0\n')
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
        _latex_dir.append(d)
    return _latex_dir[0]


def verdict(f, kinds):
    s, r = outcome(f)
    if s == 'ok':
        return True
    if not isinstance(r, kinds):
        fail('validation raised %r', r)
    return False


def prop_val(case):
    clear_all()
    latex_dir()
    scratch = tempfile.mkdtemp(prefix='vf_val_')
    old, oldpath = tempfile.tempdir, os.environ['PATH']
    tempfile.tempdir = scratch
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        if case['latex']:
            os.environ['PATH'] = latex_dir() + os.pathsep + oldpath
        for n, s in case['efts'].items():
            wcxf.EFT(n, cp(s))
        reg = {}
        for e, b, s in case['bases']:
            reg[e, b] = (s, call(wcxf.Basis, e, b, cp(s)))
        for e, b, s in case['kids']:    # bases derived from the others
            full = dict(cp(reg[e, b][0]), **cp(s))
            reg[e, 'kid ' + b] = (full, call(wcxf.Basis, e, 'kid ' + b, cp(s),
                                             parent=b))
        acc = rej = 0
        for (e, b), (s, o) in reg.items():
            dup = [k for w in s.values() for k in w]
            good = (e in case['efts'] and set(s) <= set(case['efts'][e])
                    and len(dup) == len(set(dup)))
            if case['latex'] and any(d and d.get('tex') in BADS
                                     for w in s.values() for d in w.values()):
                good = False
            for _ in (1, 2):
                v = verdict(o.validate, ValueError)
                if v and not good:
                    fail('invalid basis %s/%s accepted: %r, EFTs %r', e, b, s, case['efts'])
                if good and not v:
                    fail('valid basis %s/%s rejected: %r, EFTs %r', e, b, s, case['efts'])
            acc, rej = acc + good, rej + (not good)
            if cp(o.sectors) != s:
                fail('validation changed the basis')
            if sorted(call(lambda: o.all_wcs)) != sorted(dup):
                fail('all_wcs = %r for sectors %r', o.all_wcs, s)
        for e, b, ks in case['wcs'] + [[w[0], 'kid ' + w[1], w[2]]
                                       for w in case['wcs']]:
            vals = {k: VALS[(i + case.get('vals', 0)) % len(VALS)]
                    for i, k in enumerate(ks)}
            w = wcxf.WC(e, b, 91., vals)
            known = {k for x in reg[e, b][0].values() for k in x} if (e, b) in reg else None
            good = e in case['efts'] and known is not None and set(ks) <= known
            v = verdict(w.validate, (ValueError, AssertionError))
            if v and not good:
                fail('invalid WC %s/%s %r accepted; basis has %r', e, b, ks, known)
            if good and not v:
                fail('valid WC %s/%s %r rejected', e, b, ks)
            acc, rej = acc + good, rej + (not good)
        if os.listdir(scratch):
            fail('validation leaves %r in the temporary directory', os.listdir(scratch))
        return {'accepted': acc, 'rejected': rej}
    finally:
        tempfile.tempdir = old
        os.chdir(cwd)
        os.environ['PATH'] = oldpath
        shutil.rmtree(scratch, True)
        clear_all()


c04 = [Sub('validate', val_case(), prop_val, 600, 15000,
           'at least one object was validated against a defined EFT',
           lambda c, l: bool(c['efts']) and (l.get('accepted', 0) + l.get('rejected', 0)) > 0)]

# --- C05 registry ----------------------------------------------------------------------
KINDS = ['EFT', 'Basis', 'Translator', 'Matcher']
CLS = dict(zip(KINDS, ALLC))


def name_of(kind, i):
    e, b, c = EFTS[i % 3], BASES[(i // 3) % 4], BASES[(i // 12) % 4]
    e2 = EFTS[(i // 48) % 3]
    return {'EFT': e, 'Basis': (e, b), 'Translator': (e, b, c),
            'Matcher': (e, b, e2, c)}[kind]


@st.composite
def reg_case(draw):
    pool = draw(st.lists(st.integers(0, 143), min_size=2, max_size=6))
    op = st.tuples(st.sampled_from(['new', 'new', 'new', 'new', 'get', 'del', 'del', 'known',
                                    'clear', 'load', 'decorate', 'fail', 'fail']),
                   st.sampled_from(KINDS), st.sampled_from(pool),
                   st.sampled_from([1, 1, 0]))
    return [list(o) for o in draw(st.lists(op, min_size=3, max_size=25))]


def make(kind, name, via):
    f = lambda C, scale, parameters: dict(C)
    if kind == 'EFT':
        if via == 'load':
            return wcxf.EFT.load(json.dumps({'eft': name, 'sectors': {'s': {}}}))
        return wcxf.EFT(name, {'s': {}})
    if kind == 'Basis':
        if via == 'load':
            return wcxf.Basis.load(json.dumps(
                {'eft': name[0], 'basis': name[1], 'sectors': {'s': {'x': {}}}}))
        return wcxf.Basis(name[0], name[1], {'s': {'x': {}}})
    if kind == 'Translator':
        if via == 'decorate':
            if wcxf.translator(*name)(f) is not f:
                fail('decorator does not return the function')
            if wcxf.Translator[name].function is not f:
                fail('decorated function of %r is not the registered one', name)
            return None
        return wcxf.Translator(*(name + (f,)))
    if via == 'decorate':
        if wcxf.matcher(*name)(f) is not f:
            fail('decorator does not return the function')
        if wcxf.Matcher[name].function is not f:
            fail('decorated function of %r is not the registered one', name)
        return None
    return wcxf.Matcher(*(name + (f,)))


def attrs(kind, o):
    if kind == 'EFT':
        return (o.eft,)
    if kind == 'Basis':
        return (o.eft, o.basis)
    if kind == 'Translator':
        return (o.eft, o.from_basis, o.to_basis)
    return (o.from_eft, o.from_basis, o.to_eft, o.to_basis)


def make_bad(kind, name, i):
    """a definition that cannot succeed"""
    if kind == 'EFT':
        if i % 4 == 3:          # extra field that cannot be set
            return wcxf.EFT(name, {'s': {}}, metadata={}, known_bases=[])
        if i % 3 == 0:
            return wcxf.EFT.load(json.dumps({'eft': name}))
        if i % 3 == 1:
            return wcxf.EFT.load(json.dumps([name, {'s': {}}]))
        return wcxf.EFT.load('{"eft": "%s", "sectors": [' % name)
    if kind == 'Basis':
        d = {'eft': name[0], 'basis': name[1], 'sectors': {'s': {'x': {}}}}
        if i % 4 == 3:
            d['known_translators'] = {}
            return wcxf.Basis(**d)
        if i % 3 == 0:
            d['parent'] = 'no such parent'
            return wcxf.Basis(**d)
        if i % 3 == 1:
            d['parent'] = 'no such parent'
            return wcxf.Basis.load(json.dumps(d))
        del d['sectors']
        return wcxf.Basis.load(json.dumps(d))
    if kind == 'Translator':
        return wcxf.Translator(*name)
    return wcxf.Matcher(*name)


def uniq(t, what):
    t = list(t)
    if len(t) != len(set(t)):
        fail('%s lists an entry twice: %r', what, t)
    return set(t)


def prop_reg(ops):
    clear_all()
    model = {k: OrderedDict() for k in KINDS}
    n = 0
    try:
        for pos, (op, kind, i, look) in enumerate(ops):
            name = name_of(kind, i)
            cls, m = CLS[kind], model[kind]
            if op in ('new', 'load', 'decorate'):
                o = call(make, kind, name, op)
                m[name] = o if o is not None else call(cls.get_instance, name)
                n += 1
            elif op == 'fail':
                s, r = outcome(make_bad, kind, name, i)
                if s == 'ok' and i % 4 == 3 and kind in ('EFT', 'Basis'):
                    m[name] = r     # it may also be accepted, as any other
                elif s == 'ok':
                    fail('incomplete definition of %s %r accepted', kind, name)
            elif op == 'del':
                s, r = outcome(cls.__class__.__delitem__, cls, name)
                if (s == 'ok') != (name in m):
                    fail('deleting %s %r: %s although %sregistered', kind, name, s,
                         '' if name in m else 'not ')
                if s != 'ok' and not isinstance(r, KeyError):
                    fail('deleting unknown %s raises %r', kind, r)
                m.pop(name, None)
            elif op == 'clear':
                call(cls.clear_all)
                m.clear()
            if not look and pos < len(ops) - 1:
                continue        # nobody looks between this step and the next
            # lookups of all names agree with the model
            for k2 in KINDS:
                for j in {x[2] for x in ops}:
                    nm = name_of(k2, j)
                    s, r = outcome(lambda: CLS[k2][nm])
                    s2, r2 = outcome(CLS[k2].get_instance, nm)
                    if nm in model[k2]:
                        if s != 'ok' or s2 != 'ok' or r is not model[k2][nm] or r2 is not r:
                            fail('lookup of %s %r gives %r', k2, nm, r)
                        if attrs(k2, r) != (nm if isinstance(nm, tuple) else (nm,)):
                            fail('%s %r is %r', k2, nm, attrs(k2, r))
                    elif s == 'ok' or s2 == 'ok' or not isinstance(r, KeyError):
                        fail('lookup of unregistered %s %r gives %r', k2, nm, r)
            if True:
                for en, e in list(model['EFT'].items()):
                    exp = {b for (x, b) in model['Basis'] if x == en}
                    if uniq(call(lambda: e.known_bases), 'known_bases') != exp:
                        fail('known bases of %s: %r, expected %r', en, e.known_bases, exp)
                    exp = {t for t in model['Translator'] if t[0] == en}
                    if uniq(call(lambda: e.known_translators), 'known_translators') != exp:
                        fail('known translators of %s: %r', en, e.known_translators)
                for (en, bn), b in model['Basis'].items():
                    kt = call(lambda: b.known_translators)
                    if uniq(kt['from'], 'from') != {t for t in model['Translator']
                                                    if t[:2] == (en, bn)}:
                        fail('translators from %s/%s: %r', en, bn, kt['from'])
                    if uniq(kt['to'], 'to') != {t for t in model['Translator']
                                                if (t[0], t[2]) == (en, bn)}:
                        fail('translators to %s/%s: %r', en, bn, kt['to'])
        return {'created': n}
    finally:
        clear_all()


c05 = [Sub('registry', reg_case(), prop_reg, 300, 8000,
           'at least two objects are created in the history',
           lambda c, l: l.get('created', 0) >= 2)]


# --- C06 inheritance ------------------------------------------------------------------
@st.composite
def inh_case(draw):
    n = draw(st.integers(2, 6))
    out = []
    for i in range(n):
        par = None
        eft = draw(st.sampled_from([EFTS[0]] * 3 + [EFTS[1]]))
        if i and draw(st.integers(0, 3)):
            prev = [c['basis'] for c in out if c['eft'] == eft]
            if prev and draw(st.integers(0, 4)):
                par = draw(st.sampled_from(prev))
            else:
                par = draw(st.sampled_from(BASES + ['B9']))
        out.append({'eft': eft,
                    'basis': draw(st.sampled_from(BASES)), 'parent': par,
                    'sectors': draw(sectors), 'load': draw(st.booleans()),
                    'ordered': draw(st.booleans()),
                    # what happens to one of the bases afterwards
                    'then': draw(st.one_of(st.none(), st.tuples(
                        st.sampled_from(CHANGES), st.integers(0, 5),
                        st.sampled_from(SECS), st.sampled_from(WCS)).map(list)))})
    return out


CHANGES = ['delete', 'set', 'drop', 'add', 'remove', 'describe', 'assign', 'clear']


def change(what, sec, s, k):
    """change the sectors of a basis (or of its model) in place"""
    w = sec.get(s)
    if what == 'set':
        sec[s] = {k: None, 'new': {'tex': 'n'}}
    elif what == 'drop':
        sec.pop(s, None)
    elif what == 'clear':
        sec.clear()
    elif what == 'add' and w is not None:
        w[k] = {'tex': 'added'}
    elif what == 'remove' and w:
        w.pop(sorted(w)[0])
    elif what == 'describe' and w:
        for v in w.values():
            if v is not None:
                v['tex'] = 'changed'
                break


def prop_inh(case):
    clear_all()
    model, gone, changed = OrderedDict(), [], set()

    def look(when):
        """all bases are as the model says"""
        for nm, (sec, o) in model.items():
            if call(lambda: wcxf.Basis[nm]) is not o:
                fail('registry entry of %r replaced', nm)
        for sec, o, nm in [v + (n,) for n, v in model.items()] + gone:
            if cp(o.sectors) != sec:
                fail('basis %r now has sectors %r, expected %r (%s)', nm, cp(o.sectors),
                     sec, when)
            if id(o) not in changed and sorted(call(lambda: o.all_wcs)) != \
                    sorted(k for w in sec.values() for k in w):
                fail('all_wcs of %r: %r', nm, o.all_wcs)
        for e in EFTS:
            for b in BASES:
                if (e, b) not in model and outcome(lambda: wcxf.Basis[e, b])[0] == 'ok':
                    fail('basis %r is registered (%s)', (e, b), when)

    try:
        children = failures = changes = 0
        for c in case:
            name = (c['eft'], c['basis'])
            d = {'eft': c['eft'], 'basis': c['basis'], 'sectors': cp(c['sectors'])}
            if c['ordered']:
                d['sectors'] = OrderedDict(d['sectors'])
            if c['parent'] is not None:
                d['parent'] = c['parent']
            own = cp(d['sectors'])
            if c['load']:
                s, r = outcome(wcxf.Basis.load, json.dumps(d))
            else:
                s, r = outcome(lambda: wcxf.Basis(**d))
            if c['parent'] is None:
                exp = own
            elif (c['eft'], c['parent']) in model:
                exp = dict(cp(model[c['eft'], c['parent']][0]))
                exp.update(own)
                children += 1
            else:
                exp = None
            if exp is None:
                failures += 1
                if s == 'ok' or not isinstance(r, ValueError):
                    fail('basis with unknown parent %r: %r', c['parent'], r)
            else:
                if s != 'ok':
                    fail('defining %r raised %r', name, r)
                if name in model:
                    gone.append(model[name] + (name,))
                model[name] = (exp, r)
                if not c['load'] and cp(d['sectors']) != own:
                    fail('the given sectors were modified')
            look('after defining %r, parent %r' % (name, c['parent']))
            if c.get('then') and model:
                what, w, sn, k = c['then']
                nm = list(model)[w % len(model)]
                changes += 1
                if what == 'delete':
                    call(wcxf.Basis.del_instance, nm)
                    gone.append(model.pop(nm) + (nm,))
                else:
                    sec, o = model[nm]
                    if what == 'assign':
                        o.sectors = {sn: {k: None}}
                        sec = {sn: {k: None}}
                    else:
                        call(change, what, o.sectors, sn, k)
                        change(what, sec, sn, k)
                    model[nm] = (sec, o)
                    changed.add(id(o))
                look('after %s of %r' % (what, nm))
        return {'children': children, 'failures': failures, 'changes': changes}
    finally:
        clear_all()


c06 = [Sub('inherit', inh_case(), prop_inh, 500, 12000,
           'at least one basis with an existing parent',
           lambda c, l: l.get('children', 0) > 0)]

# --- C07 dispatch ----------------------------------------------------------------------
val = st.one_of(st.sampled_from([0., 1., -2.5, 1e-300, 5e-324, 1e300, -0.0]),
                st.floats(-10, 10))
OUTT = ['float', 'complex', 'int', 'np', 'npc', 'imag', 'zero', 'czero']


@st.composite
def disp_case(draw):
    fs = draw(st.lists(st.fixed_dictionaries({
        'kind': st.sampled_from(['T', 'M']),
        'eft': st.sampled_from(EFTS[:2]), 'from': st.sampled_from(BASES[:2]),
        'eft2': st.sampled_from(EFTS[:2]), 'to': st.sampled_from(BASES[:3]),
        'deco': st.booleans(),
        'out': st.dictionaries(st.sampled_from(WCS + ['q1', 'q2']),
                               st.tuples(st.sampled_from(OUTT), val, val).map(list),
                               max_size=4)}), max_size=5))
    calls = draw(st.lists(st.fixed_dictionaries({
        'kind': st.sampled_from(['T', 'M']),
        'eft': st.sampled_from(EFTS[:2]), 'from': st.sampled_from(BASES[:2]),
        'eft2': st.sampled_from(EFTS[:2]), 'to': st.sampled_from(BASES[:3]),
        'scale': st.one_of(st.integers(1, 1000), st.floats(0.1, 1e5)),
        'params': st.one_of(st.none(), st.just({}), st.dictionaries(
            st.sampled_from(['m_W', 'GF', 'zz']), st.floats(0, 1), max_size=2)),
        'pass': st.sampled_from(['kw', 'pos', 'omit', 'direct']),
        'values': st.dictionaries(st.sampled_from(WCS), st.one_of(
            val, st.fixed_dictionaries({'Re': val, 'Im': val})), max_size=4)}),
        min_size=1, max_size=5))
    for c in calls:                    # mostly calls that hit something
        if fs and draw(st.integers(0, 3)):
            f = draw(st.sampled_from(fs))
            c.update({k: f[k] for k in ('kind', 'eft', 'from', 'eft2', 'to')})
    return {'funcs': fs, 'calls': calls}


def outval(t, a, b):
    return {'float': a, 'complex': complex(a, b), 'int': int(a) if abs(a) < 1e9 else 3,
            'np': np.float64(a), 'npc': np.complex128(complex(a, b)),
            'imag': complex(0, b), 'zero': 0, 'czero': 0j}[t]


def prop_disp(case):
    clear_all()
    try:
        model, log = {}, []

        def mk(spec, ident):
            out = {k: outval(*v) for k, v in spec['out'].items()}

            def f(C, scale, parameters):
                log.append((ident, dict(C), scale, parameters))
                return dict(out)
            return f, out
        for i, spec in enumerate(case['funcs']):
            f, out = mk(spec, i)
            if spec['kind'] == 'T':
                key = ('T', spec['eft'], spec['from'], spec['to'])
                if spec['deco']:
                    call(wcxf.translator, *key[1:])(f)
                else:
                    wcxf.Translator(*(key[1:] + (f,)))
            else:
                key = ('M', spec['eft'], spec['from'], spec['eft2'], spec['to'])
                if spec['deco']:
                    call(wcxf.matcher, *key[1:])(f)
                else:
                    wcxf.Matcher(*(key[1:] + (f,)))
            model[key] = (i, out)
        hits = miss = 0
        for c in case['calls']:
            wc = wcxf.WC(c['eft'], c['from'], c['scale'], cp(c['values']))
            if c['kind'] == 'T':
                key, fn = ('T', c['eft'], c['from'], c['to']), wc.translate
                pos = (c['to'],)
                teft = c['eft']
            else:
                key, fn = ('M', c['eft'], c['from'], c['eft2'], c['to']), wc.match
                pos = (c['eft2'], c['to'])
                teft = c['eft2']
            prm = None if c['params'] is None else dict(c['params'])
            del log[:]
            if c['pass'] == 'omit':
                prm = None
                s, r = outcome(fn, *pos)
            elif c['pass'] == 'pos':
                s, r = outcome(fn, *(pos + (prm,)))
            elif c['pass'] == 'direct' and key in model:
                o = wcxf.Translator[key[1:]] if key[0] == 'T' else wcxf.Matcher[key[1:]]
                g = o.translate if key[0] == 'T' else o.match
                s, r = outcome(g, wc, parameters=prm)
            else:
                s, r = outcome(fn, *pos, parameters=prm)
            if key not in model:
                miss += 1
                if s == 'ok' or not isinstance(r, ValueError):
                    fail('%r is not defined but gives %r', key, r)
                if log:
                    fail('%r is not defined but function %d ran', key, log[0][0])
                continue
            hits += 1
            if s != 'ok':
                fail('%r raised %r', key, r)
            i, out = model[key]
            if len(log) != 1 or log[0][0] != i:
                fail('%r ran functions %r instead of %d', key, [l[0] for l in log], i)
            exp_in = {k: (complex(v['Re'], v['Im']) if isinstance(v, dict) else complex(v))
                      for k, v in c['values'].items()}
            if {k: complex(v) for k, v in log[0][1].items()} != exp_in:
                fail('function received %r instead of %r', log[0][1], exp_in)
            if log[0][2] != float(c['scale']):
                fail('function received the scale %r', log[0][2])
            if log[0][3] != prm:
                fail('function received the parameters %r instead of %r', log[0][3], prm)
            if (r.eft, r.basis) != (teft, c['to']) or r.scale != float(c['scale']):
                fail('%r returns %r/%r at %r', key, r.eft, r.basis, r.scale)
            exp = {k: complex(v) for k, v in out.items() if v != 0}
            got = {k: complex(v) for k, v in call(lambda: r.dict).items()}
            if got != exp:
                fail('function returned %r but the result holds %r', out, got)
            json.dumps(r.values)
        return {'hits': hits, 'miss': miss}
    finally:
        clear_all()


c07 = [Sub('dispatch', disp_case(), prop_disp, 500, 12000,
           'at least one call reaches a registered function',
           lambda c, l: l.get('hits', 0) > 0)]

# --- C28 bundled files -------------------------------------------------------------------
PROBE = r'''
import json, sys, warnings
warnings.simplefilter('ignore')
import wcxf
want = json.loads(sys.argv[1])
out = {'efts': {}, 'bases': {}}
for e in want['efts']:
    try:
        o = wcxf.EFT[e]
        out['efts'][e] = [o.sectors, list(o.known_bases)]
    except (KeyError, AttributeError):
        out['efts'][e] = None
for e, b in want['bases']:
    try:
        o = wcxf.Basis[e, b]
        out['bases'][e + '/' + b] = [o.sectors, sorted(o.all_wcs)]
    except (KeyError, AttributeError):
        out['bases'][e + '/' + b] = None
out['file'] = wcxf.__file__
print('RESULT' + json.dumps(out))
'''


@st.composite
def bundle_case(draw):
    efts = draw(st.dictionaries(st.sampled_from(EFTS + ['WET-9']), eft_sectors,
                                min_size=1, max_size=3))
    bs, ch = {}, {}
    for e in efts:
        for b in draw(st.lists(st.sampled_from(BASES), max_size=3, unique=True)):
            bs['%s/%s' % (e, b)] = draw(sectors)
    for p in bs:
        if draw(st.booleans()):
            e, b = p.split('/')
            ch['%s/child %s' % (e, b)] = [b, draw(sectors)]
    return {'efts': efts, 'bases': bs, 'children': ch,
            'order': draw(st.integers(0, 10**6)),
            'names': draw(st.sampled_from(['plain', 'plain', 'random', 'same'])),
            'place': draw(st.sampled_from(PLACES)),
            'junk': draw(st.booleans())}


_pkg = {}
PLACES = ['', '', 'my code', '[v1]', 'a*b', 'what?', '\u00fc', '.hidden', '[!a]', '%20']


def pkg_copy(place):
    """scratch copy of the package, with its own bases directory, installed in a
    folder of the given name"""
    if place not in _pkg:
        d = os.path.join(scratch_dir('vf_pkg_'), place).rstrip('/')
        shutil.copytree(os.path.join(env.REPO, 'wcxf'), os.path.join(d, 'wcxf'),
                        ignore=shutil.ignore_patterns('bases', '__pycache__', 'test_*'))
        _pkg[place] = d
    return _pkg[place]


def prop_bundle(case):
    d = pkg_copy(case.get('place', ''))
    bd = os.path.join(d, 'wcxf', 'bases')
    shutil.rmtree(bd, True)
    os.makedirs(os.path.join(bd, 'child'))
    exp = {'efts': {}, 'bases': {}}
    rnd = random.Random(case['order'])
    files = []

    def add(folder, stem, ext, content):
        if case['names'] == 'random':
            # any name will do, with and without dots, blanks, ...
            stem = '%s%03d%s%d' % (
                rnd.choice(['a', 'z', 'A', 'Z', '0', '9', '_', '[x]', '-', 'ü']),
                rnd.randrange(1000),
                rnd.choice(['', '.', '-', ' ', '..', '.basis.', '.eft.', '.child']),
                len(files))
        files.append((os.path.join(bd, folder, '%s.%s.json' % (stem, ext)),
                      json.dumps(content)))
    for e, s in case['efts'].items():
        add('', e, 'eft', {'eft': e, 'sectors': s})
        exp['efts'][e] = [s, sorted(k.split('/')[1] for k in
                                    list(case['bases']) + list(case['children'])
                                    if k.split('/')[0] == e)]
    for n, s in case['bases'].items():
        e, b = n.split('/')
        add('', '%s.%s' % (e, b), 'basis', {'eft': e, 'basis': b, 'sectors': s})
        exp['bases'][n] = [s, sorted(k for w in s.values() for k in w)]
    for n, (p, s) in case['children'].items():
        e, b = n.split('/')
        # a derived basis may carry the file name of its parent
        add('child', '%s.%s' % (e, p if case['names'] == 'same' else b), 'basis',
            {'eft': e, 'basis': b, 'parent': p, 'sectors': s})
        full = dict(case['bases']['%s/%s' % (e, p)])
        full.update(s)
        exp['bases'][n] = [full, sorted(k for w in full.values() for k in w)]
    if case['junk']:
        files += [(os.path.join(bd, 'README.md'), 'text'),
                  (os.path.join(bd, 'x.json'), '[1'),
                  (os.path.join(bd, 'x.basis.yml'), 'a: ['),
                  (os.path.join(bd, 'child', 'notes.txt'), '')]
    rnd.shuffle(files)
    for path, content in files:
        with open(path, 'w') as f:
            f.write(content)
    want = {'efts': sorted(exp['efts']), 'bases': [n.split('/') for n in exp['bases']]}
    ev = env.child_env()
    ev['PYTHONPATH'] = d
    r = subprocess.run([sys.executable, '-c', PROBE, json.dumps(want)], env=ev,
                       cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    o = r.stdout.decode()
    if r.returncode or 'RESULT' not in o:
        fail('importing the package fails: %s', r.stderr.decode()[-300:])
    got = json.loads(o.split('RESULT', 1)[1])
    if not got['file'].startswith(d):
        raise RuntimeError('probe imported %s' % got['file'])
    for e, v in exp['efts'].items():
        g = got['efts'].get(e)
        if g is None:
            fail('EFT file %s was not loaded', e)
        if g[0] != v[0] or sorted(g[1]) != v[1]:
            fail('EFT %s: %r, expected %r', e, g, v)
    for n, v in exp['bases'].items():
        if got['bases'].get(n) is None:
            fail('basis file %s was not loaded', n)
        if got['bases'][n] != v:
            fail('basis %s: %r, expected %r', n, got['bases'][n], v)
    return {'children': len(case['children'])}


c28 = [Sub('bundled', bundle_case(), prop_bundle, 25, 300,
           'at least one basis file is present',
           lambda c, l: bool(c['bases']))]

CHECKS = {'C04': Check('C04', c04), 'C05': Check('C05', c05),
          'C06': Check('C06', c06), 'C07': Check('C07', c07),
          'C28': Check('C28', c28)}
