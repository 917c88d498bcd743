"""C01-C03, C26: files, numbers, rendering."""
import io
import json
import re
import math
import random
from collections import OrderedDict
import numpy as np
import yaml
from hypothesis import strategies as st
from vf.core import Check, Sub, call, fail, outcome

import wcxf
from wcxf.converters import yamljson

# --- data -------------------------------------------------------------------------
TRICKY = ['yes', 'no', 'on', 'null', '~', '', 'true', '1e3', '1e-5', '0x10',
          '012', '1_000', '2018-01-01', '12:30:45', '- a', 'a: b', '#c', "it's",
          '"q"', '{x}', '[1]', '&a', '*a', '!t', '%d', '@x', '`y`', '|', '>',
          ' lead', 'trail ', 'a\nb', 'a\n\nb\n', 'tab\tx', 'é', '日本', '=', '<<',
          '.inf', 'nan', '?', ': ', 'sb', 'dF=0', 'b->s::c7', '\\bar s_L \\gamma^\\mu b_L',
          'Re{cVL}', '1', '-1.5', 'Infinity', 'NaN', '---', '...', '\u2028x', 'x' * 200,
          'a b ' * 40, '\\', '$C_9^{\\mu\\mu}$', 'y', 'n', 'N', '0o7', '1.', '.5', '+1']
word = st.text(alphabet='abcdefgXYZ019_ ->:{}\'"#&*!|%@,[]\\/=+.~?é日\t\n', max_size=12)
text = st.one_of(st.sampled_from(TRICKY), word, word)
names = st.one_of(st.sampled_from([t for t in TRICKY if t]),
                  st.text(alphabet='abcdefghsbSR_0123456789', min_size=1, max_size=8),
                  word.filter(lambda s: s.strip() != ''))
finite = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False),
    st.floats(-1, 1), st.sampled_from([0., 1., -1., 1e-20, 1e20, 1e16, 123456789.123,
                                       1e-300, 5e-324, 0.1, 1 / 3., 1e22, -0.5, -0.]))
ints = st.one_of(st.integers(-10, 10), st.integers(-2**53, 2**53),
                 st.sampled_from([2**53 + 1, 2**63, -2**64, 10**25]))
scal = st.one_of(text, finite, ints, st.booleans(), st.none())


def data(depth=3):
    return st.recursive(scal, lambda c: st.one_of(
        st.lists(c, max_size=3), st.dictionaries(names, c, max_size=4)),
        max_leaves=8)


mapping = st.dictionaries(names, data(), max_size=5)


@st.composite
def bulk(draw, make):
    """usually nothing, sometimes many entries in random order"""
    n = draw(st.sampled_from([0, 0, 0, 0, 0, 0, 15, 40, 150, 400]))
    if not n:
        return {}
    r = random.Random(draw(st.integers(0, 2**32)))
    ks = ['%s_%d' % (r.choice(['phil1', 'll', 'C', 'a', 'Z']), i) for i in range(n)]
    r.shuffle(ks)
    return {k: make(r) for k in ks}


def merged(a, b):
    return st.tuples(a, b).map(lambda t: dict(t[0], **t[1]))


@st.composite
def deep(draw):
    """a chain of nested mappings and lists"""
    x = draw(scal)
    for _ in range(draw(st.integers(1, 25))):
        x = [x] if draw(st.booleans()) else {draw(names): x}
    return {'deep': x}


def same(a, b, path='', order=False):
    """deep equality: types of numbers, exact floats, strings, order if asked"""
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return '%s: %r became %r' % (path, type(a).__name__, type(b).__name__)
        if set(a) != set(b) or len(a) != len(b):
            return '%s: keys %s' % (path, sorted(map(str, set(a) ^ set(b))))
        if order and list(a) != list(b):
            return '%s: order %r became %r' % (path, list(a), list(b))
        for k in a:
            r = same(a[k], b[k], '%s/%s' % (path, k), order)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return '%s: %r became %r' % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, '%s[%d]' % (path, i), order)
            if r:
                return r
        return None
    if type(a) is not type(b) or a != b or (
            isinstance(a, float) and math.copysign(1, a) != math.copysign(1, b)):
        return '%s: %r became %r' % (path, a, b)
    return None


def public(o):
    return {k: v for k, v in vars(o).items() if k[:1] != '_'}


# --- objects ----------------------------------------------------------------------
value = st.one_of(finite, ints, st.fixed_dictionaries({'Re': finite, 'Im': finite}),
                  st.fixed_dictionaries({'Im': finite}), st.fixed_dictionaries({'Re': ints}))
wcmeta = st.one_of(st.none(), st.just({}), st.fixed_dictionaries({'tex': text}),
                   st.fixed_dictionaries({'tex': text, 'real': st.booleans()}))
sectors = st.dictionaries(
    names, merged(st.dictionaries(names, wcmeta, max_size=4),
                  bulk(lambda r: r.choice([None, {'real': True}, {'tex': 'x'}]))),
    max_size=3)
extra = st.dictionaries(
    st.sampled_from(['metadata', 'comment', 'generator', 'source', 'x1', 'note',
                     'Note', 'COMMENT', 'basisFile', 'x-y', 'two words', '1', 'gr\u00f6\u00dfe',
                     'a.b', 'x__y', 'class', 'values2', 'name_']),
    st.one_of(mapping, text, data()), max_size=3)
eftcase = st.fixed_dictionaries({
    'cls': st.just('EFT'), 'eft': names,
    'sectors': merged(
        st.dictionaries(names, st.fixed_dictionaries({'dim': ints, 'tex': text}), max_size=4),
        bulk(lambda r: {'dim': 6}))})
basiscase = st.fixed_dictionaries({'cls': st.just('Basis'), 'eft': names,
                                   'basis': names, 'sectors': sectors})
wccase = st.fixed_dictionaries({
    'cls': st.just('WC'), 'eft': names, 'basis': names,
    'scale': st.one_of(st.integers(1, 5000), st.floats(1e-3, 1e6)),
    'values': merged(st.dictionaries(names, value, max_size=6), bulk(
        lambda r: r.choice([r.random(), {'Re': r.gauss(0, 1), 'Im': r.random()}])))})
fmtopts = {
    'json': st.sampled_from([{}, {'indent': None}, {'indent': 0}, {'indent': 4},
                             {'sort_keys': True}, {'ensure_ascii': False},
                             {'separators': [',', ':'], 'indent': None}]),
    'yaml': st.sampled_from([{}, {'default_flow_style': True},
                             {'default_flow_style': None}, {'allow_unicode': True},
                             {'width': 20}, {'indent': 4}, {'explicit_start': True},
                             {'default_style': '"'}, {'sort_keys': False}]),
}


@st.composite
def rt_case(draw):
    c = draw(st.one_of(eftcase, basiscase, wccase, wccase))
    fmt = draw(st.sampled_from(['json', 'yaml', 'JSON', 'Yaml']))
    return {'obj': c, 'extra': draw(extra), 'fmt': fmt,
            'opts': draw(fmtopts[fmt.lower()]), 'stream_out': draw(st.booleans()),
            'stream_in': draw(st.booleans()), 'ordered': draw(st.booleans()),
            'default_fmt': fmt == 'json' and draw(st.booleans()),
            'parent': draw(st.one_of(st.none(), st.none(), sectors))
            if c['cls'] == 'Basis' else None}


CLS = {'EFT': wcxf.EFT, 'Basis': wcxf.Basis, 'WC': wcxf.WC}


def clear():
    wcxf.EFT.clear_all()
    wcxf.Basis.clear_all()


def od(x):
    if isinstance(x, dict):
        return OrderedDict((k, od(v)) for k, v in x.items())
    return [od(v) for v in x] if isinstance(x, list) else x


def build(c, ex, ordered=False):
    d = {k: v for k, v in c.items() if k != 'cls'}
    d.update({k: v for k, v in ex.items() if k not in d})
    d = json.loads(json.dumps(d))            # private copy
    return CLS[c['cls']](**(od(d) if ordered else d)), d


def dump(o, case):
    kw = {k: (tuple(v) if isinstance(v, list) else v) for k, v in case['opts'].items()}
    if not case['default_fmt']:
        kw['fmt'] = case['fmt']
    if case['stream_out']:
        s = io.StringIO()
        r = o.dump(s, **kw)
        if r is not None:
            fail('dump to a stream returned %r', r)
        return s.getvalue()
    return o.dump(**kw)


def prop_rt(case):
    clear()
    try:
        ex = case['extra']
        if case['parent'] is not None:
            # a derived basis: its file lists all its sectors
            wcxf.Basis(case['obj']['eft'], 'the parent', dict(case['parent']))
            ex = dict(ex, parent='the parent')
        o, d = build(case['obj'], ex, case['ordered'])
        if case['parent'] is not None:
            d['sectors'] = dict(case['parent'], **d['sectors'])
            if case['obj']['basis'] == 'the parent':
                return {}
        d0 = json.loads(json.dumps(d))
        if case['obj']['cls'] == 'WC':
            d0['scale'] = float(d0['scale'])
        s = call(dump, o, case)
        if not isinstance(s, str):
            fail('dump returned %r', type(s))
        r = same(d0, public(o))
        if r:
            fail('dump changed the object: %s', r)
        # the text is plain JSON / YAML of exactly these data
        if case['fmt'].lower() == 'json':
            plain = json.loads(s)
        else:
            plain = yaml.load(s, Loader=yaml.SafeLoader)
        r = same(d0, plain)
        if r:
            fail('%s text differs from the object: %s', case['fmt'], r)
        o2 = call(CLS[case['obj']['cls']].load,
                  io.StringIO(s) if case['stream_in'] else s)
        if type(o2) is not type(o):
            fail('loaded a %s', type(o2).__name__)
        keep = case['fmt'].lower() == 'json' and not case['opts'].get('sort_keys')
        r = same({k: d0[k] for k in sorted(d0)},
                 {k: v for k, v in sorted(public(o2).items())}, order=keep)
        if r:
            fail('%s round trip: %s', case['fmt'], r)
        if case['fmt'].lower() == 'yaml' and case['ordered'] \
                and case['parent'] is None:
            # ordered mappings, as read from YAML files, keep their order
            for o3, t in ((o2, 'one'), (call(CLS[case['obj']['cls']].load,
                                             call(dump, o2, case)), 'two')):
                for k, v in public(o3).items():
                    r = same(d0[k], v, order=True)
                    if r:
                        fail('YAML, %s round trip(s): %s', t, r)
        if case['fmt'].lower() == 'json':
            if call(dump, o2, case) != call(dump, o, case) and not case['ordered']:
                fail('dumping the loaded object gives a different text')
    finally:
        clear()
    return {case['obj']['cls']: 1, case['fmt'].lower(): 1}


def rt_nontriv(c, l):
    o = c['obj']
    return bool(o.get('values') or o.get('sectors'))


@st.composite
def badfmt_case(draw):
    return {'obj': draw(st.one_of(eftcase, wccase)),
            'fmt': draw(st.sampled_from(['xml', 'jso', 'yml', 'lha', '', 'json ', 'toml']))}


def prop_badfmt(case):
    clear()
    try:
        o, d = build(case['obj'], {})
        s, r = outcome(o.dump, fmt=case['fmt'])
        if s == 'ok' or not isinstance(r, ValueError):
            fail('dump(fmt=%r) gave %r', case['fmt'], r)
    finally:
        clear()


@st.composite
def hand_case(draw):
    """hand-written WC files: YAML spellings of the same data"""
    vals = draw(st.dictionaries(
        st.text(alphabet='abCV_0123', min_size=1, max_size=6)
        .filter(lambda s: s[0] in 'abCV'),
        st.tuples(st.floats(-1e3, 1e3), st.one_of(st.none(), st.floats(-1, 1)),
                  st.sampled_from(['repr', 'exp', 'str', 'flow', 'quoted', 'int'])),
        min_size=1, max_size=5))
    return {'vals': {k: list(v) for k, v in vals.items()},
            'scale': draw(st.sampled_from(['91.1876', '1e3', '1000', '1.6e+2', '"160"'])),
            'comment': draw(st.booleans()), 'stream': draw(st.booleans()),
            'notes': draw(st.lists(st.tuples(
                st.sampled_from(STYLES), st.lists(st.lists(
                    st.sampled_from(WORDS), min_size=1, max_size=4).map(''.join),
                    min_size=1, max_size=3)).map(list), max_size=3)),
            'end': draw(st.booleans())}


# notes in the file: how they are written, and what they are made of
STYLES = ['"', "'", '|', '>', '|-', '>-', '|+', 'plain', 'seq']
WORDS = ['a', 'bb', 'x y', ' ', '  ', '\t', '1e3', '#', '# c', ': ', '- ', '\u00fc',
         '%', '{', '---', '\\', '"', "'", '~', 'null', '0', '\u2028', '...']


LOADERS = [yaml.SafeLoader, getattr(yaml, 'CSafeLoader', yaml.SafeLoader)]


def note(name, style, lines):
    """the lines of the file for a note"""
    if style[0] in '|>':
        return ['%s: %s' % (name, style)] + ['  ' + l for l in lines]
    if style == '"':
        t = '\n  '.join(l.replace('\\', '\\\\').replace('"', '\\"') for l in lines)
        return ['%s: "%s"' % (name, t)]
    if style == "'":
        return ["%s: '%s'" % (name, '\n  '.join(l.replace("'", "''") for l in lines))]
    if style == 'seq':
        return ['%s:' % name] + ['- ' + json.dumps(l) for l in lines]
    return ['%s: %s' % (name, '\n  '.join(lines))]


def num(v, how):
    if how == 'int':
        return str(int(v)), float(int(v))
    if how == 'exp':
        s = '%.6e' % v
        return s, float(s)
    if how == 'quoted':
        return '"%r"' % v, v
    return repr(v), v


def prop_hand(case):
    lines = ['# a comment'] if case['comment'] else []
    lines += ['eft: WET', 'basis: flavio', 'scale: ' + case['scale'], 'values:']
    exp = {}
    for k, (re, im, how) in case['vals'].items():
        a, x = num(re, how)
        if im is None:
            lines.append('  %s: %s' % (k, a))
            exp[k] = complex(x)
        else:
            b, y = num(im, how)
            exp[k] = complex(x, y)
            if how == 'flow':
                lines.append('  %s: {Re: %s, Im: %s}' % (k, a, b))
            else:
                lines += ['  %s:' % k, '    Im: %s' % b, '    Re: %s' % a]
    notes = {}
    for i, (style, text) in enumerate(case['notes']):
        new = note('note%d' % i, style, text)
        try:            # the YAML parsers say what it means, if anything
            text = '\n'.join(lines + new) + '\n'
            both, c = [yaml.load(text, Loader=l) for l in LOADERS]
        except (yaml.YAMLError, ValueError, TypeError):
            continue
        if set(both) != {'eft', 'basis', 'scale', 'values', 'note%d' % i} | set(notes) \
                or same(both, c):
            continue
        notes = {k: v for k, v in both.items() if k[:4] == 'note'}
        lines += new
    s = '\n'.join(lines) + '\n'
    if case['end'] and not notes:
        s = s[:-1]
    wc = call(wcxf.WC.load, io.StringIO(s, newline='') if case['stream'] else s)
    for k, v in notes.items():
        r = same(v, getattr(wc, k, Ellipsis))
        if r:
            fail('%s of the file\n%r\nread as %r instead of %r', k, s,
                 getattr(wc, k, None), v)
    if wc.scale != float(case['scale'].strip('"')):
        fail('scale %s read as %r', case['scale'], wc.scale)
    got = call(lambda: wc.dict)
    if {k: complex(v) for k, v in got.items()} != exp:
        fail('file\n%s\nread as %r', s, got)


c01 = [Sub('roundtrip', rt_case(), prop_rt, 400, 12000,
           'the object has at least one sector or value', rt_nontriv),
       Sub('format', badfmt_case(), prop_badfmt, 30, 200, 'unknown format name'),
       Sub('hand-written', hand_case(), prop_hand, 150, 3000,
           'YAML spellings of numbers')]


# --- C02 ---------------------------------------------------------------------------
@st.composite
def conv_case(draw):
    return {'data': draw(st.one_of(
                mapping, mapping, wccase, st.lists(data(), max_size=3), deep(),
                bulk(lambda r: r.choice([r.random(), str(r.random()), r.randrange(10**9)])))),
            'style': draw(st.sampled_from([{}, {'default_flow_style': True},
                                           {'default_flow_style': False},
                                           {'default_style': '"'}, {'default_style': "'"},
                                           {'allow_unicode': True}, {'width': 30}])),
            'jstyle': draw(st.sampled_from([{}, {'indent': 2}, {'ensure_ascii': False}]))}


def conv(f, s):
    out = io.StringIO()
    r = call(f, io.StringIO(s), out)
    if r not in (None, 0):
        fail('conversion of valid input returned %r', r)
    return out.getvalue()


def prop_conv(case):
    d = case['data']
    ytext = yaml.dump(d, Dumper=yaml.SafeDumper, sort_keys=False, **case['style'])
    if same(d, yaml.load(ytext, Loader=yaml.SafeLoader)):
        return {'skipped': 1}           # PyYAML itself does not round-trip it
    j = conv(yamljson.convert_json, ytext)
    r = same(d, json.loads(j), order=True)
    if r:
        fail('YAML -> JSON: %s', r)
    jtext = json.dumps(d, **case['jstyle'])
    y = conv(yamljson.convert_yaml, jtext)
    r = same(d, yaml.load(y, Loader=yaml.SafeLoader))
    if r:
        fail('JSON -> YAML: %s', r)
    r = same(d, json.loads(conv(yamljson.convert_json, y)))
    if r:
        fail('JSON -> YAML -> JSON: %s', r)
    y2 = conv(yamljson.convert_yaml, j)
    r = same(d, yaml.load(y2, Loader=yaml.SafeLoader))
    if r:
        fail('YAML -> JSON -> YAML: %s', r)


@st.composite
def wcconv_case(draw):
    return {'obj': draw(wccase), 'extra': draw(extra)}


def prop_wcconv(case):
    """a WC file means the same before and after conversion"""
    o, d = build(case['obj'], case['extra'])
    j = call(o.dump, fmt='json')
    y = call(o.dump, fmt='yaml')
    for s, f in ((j, yamljson.convert_yaml), (y, yamljson.convert_json)):
        o2 = call(wcxf.WC.load, conv(f, s))
        r = same(public(o), public(o2)) or same(call(lambda: o.dict), call(lambda: o2.dict))
        if r:
            fail('converted WC file differs: %s', r)


@st.composite
def broken_case(draw):
    which = draw(st.sampled_from(['json', 'yaml']))
    if which == 'yaml':      # input of convert_json
        s = draw(st.sampled_from(['a: [1, 2', 'a: {b', '"x', 'a: b: c', '- a\n b: :\n  -', '%x', "a: 'x",
                                  'a: *b', '{a: 1]', '\t- x\n - :',
                                  'a: 1\n---\nb: 2\n',
                                  # valid, but without counterpart in JSON
                                  'b: 1\na: 2018-01-01\n', 'a: [1, !!set {x}]\n',
                                  'a: !!binary aGVsbG8=\n', '? [1, 2]\n: 3\n',
                                  '2018-01-01: 3\nb: 2\n', 'a: {b: 1, 2018-01-01: x}\n',
                                  'b: {c: 2}\na: &x [1, *x]\n',
                                  'x: 1\nd: 2018-01-01 10:00:00\n']))
    else:
        s = draw(st.one_of(
            st.sampled_from(['', '{', '{"a": }', '[1,', 'a: 1', "{'a': 1}", '{"a" 1}',
                             '{"a": 1,}', 'nul', '1 2', '{"a": 1}}']),
            mapping.map(lambda m: json.dumps(m)[:-1])))
    return {'which': which, 's': s}


def prop_broken(case):
    f = yamljson.convert_json if case['which'] == 'yaml' else yamljson.convert_yaml
    out = io.StringIO()
    s, r = outcome(f, io.StringIO(case['s']), out)
    if s == 'error':
        fail('conversion of malformed %s raised %r', case['which'], r)
    if not r:
        fail('malformed %s %r converted without an error status', case['which'], case['s'])
    if out.getvalue():
        fail('malformed input produced output %r', out.getvalue()[:80])


@st.composite
def alias_case(draw):
    """anchors, aliases and merge keys"""
    ks = ['aa', 'bb', 'cc', 'dd', 'ee']
    part = st.dictionaries(st.sampled_from(ks), scal, max_size=4)
    return {'parts': draw(st.lists(part, min_size=1, max_size=3)),
            'uses': draw(st.lists(st.tuples(
                st.sampled_from(['alias', 'merge', 'merge', 'multi']),
                st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True), part,
                st.booleans()), min_size=1, max_size=4)),
            'wc': draw(st.booleans())}


def prop_alias(case):
    n = len(case['parts'])
    lines, exp = [], {}
    for i, p in enumerate(case['parts']):
        lines.append('p%d: &a%d %s' % (i, i, json.dumps(p)))
        exp['p%d' % i] = p
    for j, (how, which, own, first) in enumerate(case['uses']):
        which = [w for w in which if w < n] or [0]
        name = 'u%d' % j
        if how == 'alias':
            lines.append('%s: [%s]' % (name, ', '.join('*a%d' % w for w in which)))
            exp[name] = [case['parts'][w] for w in which]
            continue
        if how == 'merge':
            which = which[:1]
            m = '*a%d' % which[0]
        else:
            m = '[%s]' % ', '.join('*a%d' % w for w in which)
        body = ['  %s: %s' % (json.dumps(k), json.dumps(v)) for k, v in own.items()]
        merge = ['  <<: ' + m]
        lines += [name + ':'] + (merge + body if first else body + merge)
        exp[name] = {}
        for w in reversed(which):
            exp[name].update(case['parts'][w])
        exp[name].update(own)
    text = '\n'.join(lines) + '\n'
    if same(exp, yaml.load(text, Loader=yaml.SafeLoader)):
        return {'skipped': 1}
    r = same(exp, json.loads(conv(yamljson.convert_json, text)))
    if r:
        fail('YAML -> JSON: %s in\n%s', r, text)
    if case['wc']:
        # ... also in the files the library reads
        t = 'eft: E\nbasis: b\nscale: 10\nvalues: {}\n' + text
        o = call(wcxf.WC.load, t)
        r = same(exp, {k: v for k, v in public(o).items() if k in exp})
        if r:
            fail('WC.load: %s in\n%s', r, t)


c02 = [Sub('aliases', alias_case(), prop_alias, 80, 2000,
           'the document contains aliases or merge keys',
           lambda c, l: not l.get('skipped')),
       Sub('convert', conv_case(), prop_conv, 500, 15000,
           'the document contains at least one nested value',
           lambda c, l: bool(c['data']) and not l.get('skipped')),
       Sub('wc', wcconv_case(), prop_wcconv, 100, 2000, 'at least one coefficient',
           lambda c, l: bool(c['obj']['values'])),
       Sub('malformed', broken_case(), prop_broken, 60, 500, 'input is not parseable')]


# --- C03 ---------------------------------------------------------------------------
@st.composite
def num_case(draw):
    n = draw(st.integers(1, 6))
    out = {}
    for i in range(n):
        kind = draw(st.sampled_from(['float', 'int', 'reim', 'im', 're', 'empty',
                                     'str', 'strdict', 'npfloat', 'order', 'reimint']))
        a, b = draw(finite), draw(finite)
        if kind in ('int', 'reimint'):
            a, b = draw(st.integers(-1000, 1000)), draw(st.integers(-1000, 1000))
        out[draw(names)] = [kind, a, b]
    return {'vals': out, 'scale': draw(st.one_of(
        st.integers(1, 1000), st.floats(1e-3, 1e6), st.sampled_from(['91.1876', '1e3'])))}


def as_value(kind, a, b):
    if kind in ('float', 'int'):
        return a, complex(a)
    if kind in ('reim', 'reimint'):
        return {'Re': a, 'Im': b}, complex(a, b)
    if kind == 'order':
        return OrderedDict([('Im', b), ('Re', a)]), complex(a, b)
    if kind == 'im':
        return {'Im': b}, complex(0, b)
    if kind == 're':
        return {'Re': a}, complex(a)
    if kind == 'empty':
        return {}, 0j
    if kind == 'str':
        return repr(a), complex(a)
    if kind == 'strdict':
        return {'Re': repr(a), 'Im': repr(b)}, complex(a, b)
    return np.float64(a), complex(a)


def prop_num(case):
    vals, exp = {}, {}
    for k, (kind, a, b) in case['vals'].items():
        vals[k], exp[k] = as_value(kind, a, b)
    snap = {k: (dict(v) if isinstance(v, dict) else v) for k, v in vals.items()}
    wc = call(wcxf.WC, 'E', 'B', case['scale'], vals)
    if type(wc.scale) is not float or wc.scale != float(case['scale']):
        fail('scale %r became %r', case['scale'], wc.scale)
    for rep in (1, 2):
        d = call(lambda: wc.dict)
        if list(d) != list(vals):
            fail('coefficients differ: %s', sorted(set(d) ^ set(vals)))
        for k in exp:
            g = d[k]
            if isinstance(g, (str, dict, bool)) or not isinstance(g, (float, complex, int)):
                fail('%s is not a number: %r', k, g)
            if complex(g) != exp[k]:
                fail('%s: file value %r read as %r (access %d)', k, vals[k], g, rep)
    for k in snap:
        if wc.values[k] != snap[k]:
            fail('reading the numbers changed the stored value of %s', k)
    # back to file values
    v2 = call(wcxf.WC.dict2values, d)
    for k in exp:
        e = exp[k]
        if set(v2) != set(exp):
            fail('dict2values loses coefficients')
        if e.imag != 0:
            if not isinstance(v2[k], dict) or set(v2[k]) != {'Re', 'Im'} or \
                    type(v2[k]['Re']) is not float or type(v2[k]['Im']) is not float or \
                    complex(v2[k]['Re'], v2[k]['Im']) != e:
                fail('%s = %r written as %r', k, e, v2[k])
        elif type(v2[k]) is not float or v2[k] != e.real:
            fail('%s = %r written as %r', k, e, v2[k])
    d2 = call(lambda: wcxf.WC('E', 'B', 1, v2).dict)
    if {k: complex(v) for k, v in d2.items()} != exp:
        fail('values written and read differ: %r', d2)
    json.loads(json.dumps(v2))
    return {k[0]: 1 for k in case['vals'].values()}


@st.composite
def out_case(draw):
    vals = {}
    for i in range(draw(st.integers(1, 5))):
        vals[draw(names)] = [draw(st.sampled_from(
            ['complex', 'float', 'int', 'np.complex128', 'np.float64', 'realcomplex', 'np.int64'])),
            draw(finite), draw(finite)]
    return {'vals': vals}


def prop_out(case):
    """numbers of any numeric type -> file values -> numbers"""
    d, exp = {}, {}
    for k, (t, a, b) in case['vals'].items():
        if t == 'complex':
            d[k] = complex(a, b)
        elif t == 'np.complex128':
            d[k] = np.complex128(complex(a, b))
        elif t == 'realcomplex':
            d[k] = complex(a, 0)
        elif t == 'float':
            d[k] = a
        elif t == 'np.float64':
            d[k] = np.float64(a)
        elif t == 'int':
            d[k] = int(max(-1e9, min(1e9, a)))
        else:
            d[k] = np.int64(max(-1e9, min(1e9, a)))
        exp[k] = complex(d[k])
    v = call(wcxf.WC.dict2values, d)
    txt = json.dumps(v)                        # must be plain data
    wc = call(wcxf.WC.load, '{"eft": "E", "basis": "B", "scale": 1, "values": %s}' % txt)
    g = call(lambda: wc.dict)
    if set(g) != set(exp):
        fail('coefficients differ: %s', sorted(set(g) ^ set(exp)))
    for k in exp:
        if complex(g[k]) != exp[k]:
            fail('%s: %r written as %r and read as %r', k, exp[k], v[k], g[k])
        if exp[k].imag == 0 and isinstance(v[k], dict):
            fail('real number %s written as %r', k, v[k])


c03 = [Sub('numbers', num_case(), prop_num, 500, 15000,
           'contains a value with an imaginary part or a non-float encoding',
           lambda c, l: any(v[0] != 'float' for v in c['vals'].values())),
       Sub('output', out_case(), prop_out, 250, 6000, 'contains a non-float number',
           lambda c, l: any(v[0] != 'float' for v in c['vals'].values()))]


# --- C26 rendering -----------------------------------------------------------------
plain = st.text(alphabet='abcdefgABC0123456789_ ->=', min_size=1, max_size=10) \
    .filter(lambda s: s.strip() == s)
maybe = st.one_of(plain, plain, plain, st.sampled_from(['', '\u00fc', '0', '#', '*', '**', '-']))
tex = st.text(alphabet='abc_^{}\\ 12', max_size=10)
rmeta = st.one_of(st.none(), st.just({}), st.fixed_dictionaries({'tex': tex}),
                  st.fixed_dictionaries({'real': st.booleans()}),
                  st.fixed_dictionaries({'tex': tex, 'real': st.booleans()}))


@st.composite
def many(draw, what):
    """a long table"""
    r = random.Random(draw(st.integers(0, 999)))
    ws = draw(st.lists(what, min_size=1, max_size=4))
    ks = ['c%s_%d' % (r.choice('abXYZ1'), r.randrange(10**4))
          for _ in range(draw(st.integers(10, 150)))]
    return {k: ws[r.randrange(len(ws))] for k in ks}


@st.composite
def md_case(draw):
    return {'eft': draw(maybe), 'basis': draw(maybe),
            'sectors': draw(st.dictionaries(
                maybe, st.one_of(st.none(), st.dictionaries(maybe, rmeta, max_size=4),
                                 many(rmeta)), max_size=4)),
            'desc': draw(st.one_of(st.none(), plain)),
            'meta': draw(st.booleans()),
            'scale': draw(st.floats(1, 1e4)),
            'values': draw(st.one_of(st.dictionaries(maybe, value, max_size=5),
                                     many(value)))}


def rows(md, head):
    """table rows following a header line starting with `head`"""
    out, on = [], False
    for l in md.split('\n'):
        if l.startswith(head):
            on = True
        elif on and l.startswith('|--'):
            continue
        elif on and l.startswith('|'):
            out.append(l)
        else:
            on = False
    return out


def tables(md, n, cols):
    """there are n tables, each with a header and a separator line below it"""
    ls = md.split('\n')
    seps = [i for i, l in enumerate(ls) if re.fullmatch(r'\|(-+\|)+', l)]
    if len(seps) != n:
        fail('%d table separators for %d tables', len(seps), n)
    for i in seps:
        if ls[i].count('|') != cols + 1 or ls[i - 1].count('|') != cols + 1:
            fail('separator %r below %r', ls[i], ls[i - 1])


def prop_md(case):
    clear()
    try:
        kw = {}
        if case['meta'] or case['desc'] is not None:
            kw['metadata'] = {} if case['desc'] is None else {'description': case['desc']}
        b = wcxf.Basis(case['eft'], case['basis'],
                       json.loads(json.dumps(case['sectors'])), **kw)
        head = call(b._repr_markdown_)
        md = call(str, b)
        rep = call(repr, b)
        for s in (case['eft'], case['basis']):
            if s not in rep or '`%s`' % s not in md:
                fail('%r missing in the rendering', s)
        if not md.startswith(head):
            fail('text does not start with the header')
        if case['desc'] is not None and case['desc'] not in md:
            fail('description missing')
        exp, secs = [], []
        for s, wcs in case['sectors'].items():
            secs.append('### `%s`' % s)
            for n, d in (wcs or {}).items():
                d = d or {}
                exp.append('| `%s` | $%s$ | %s |' % (n, d.get('tex', ''),
                                                     'R' if d.get('real') else 'C'))
        tables(md, sum(bool(w) for w in case['sectors'].values()), 3)
        if not re.search(r'`%s`.*`%s`' % (re.escape(case['basis']), re.escape(case['eft'])),
                         head.split('\n')[0]):
            fail('heading %r', head.split('\n')[0])
        if not re.search(r"'%s'.*'%s'" % (re.escape(case['eft']), re.escape(case['basis'])), rep):
            fail('repr %r', rep)
        got = [l for l in md.split('\n') if l.startswith('| `')]
        if got != exp:
            d = [x for x in got if x not in exp] + [x for x in exp if x not in got]
            fail('table rows differ: %r', d[:3] or (got[:3], exp[:3]))
        if [l for l in md.split('\n') if l.startswith('### ')] != secs:
            fail('sector headings differ')
        # every row stands below the heading of its sector
        pos, cur = [], None
        for l in md.split('\n'):
            if l.startswith('### '):
                cur = l[5:-1]
            elif l.startswith('| `'):
                pos.append((cur, l))
        if [p[0] for p in pos] != [s for s, w in case['sectors'].items() for _ in (w or {})]:
            fail('coefficients listed under the wrong sector')
        w = wcxf.WC(case['eft'], case['basis'], case['scale'],
                    json.loads(json.dumps(case['values'])))
        for md in (call(str, w), call(w._repr_markdown_)):
            for s in ('`%s`' % case['eft'], '`%s`' % case['basis'],
                      '%s GeV' % float(case['scale'])):
                if s not in md:
                    fail('%r missing in WC rendering', s)
            tables(md, 1, 2)
            ls = [l for l in md.split('\n') if l.startswith('**')]
            for key, v in (('EFT', '`%s`' % case['eft']), ('Basis', '`%s`' % case['basis'])):
                if not any(l.startswith('**' + key) and v in l for l in ls):
                    fail('%s %s missing in %r', key, v, ls)
            got = []
            for l in md.split('\n'):
                if l.startswith('| `'):
                    k, v = l[3:].rsplit('` | ', 1)
                    got.append((k, complex(v.rstrip(' |').strip())))
            exp = [(k, complex(float(v.get('Re', 0)), float(v.get('Im', 0)))
                    if isinstance(v, dict) else complex(float(v)))
                   for k, v in case['values'].items()]
            if got != exp:
                fail('WC table shows %r for %r', got[:4], case['values'])
        if case['eft'] not in call(repr, w) or case['basis'] not in call(repr, w):
            fail('repr of WC')
    finally:
        clear()


c26 = [Sub('markdown', md_case(), prop_md, 400, 10000,
           'the basis has at least one coefficient or the WC at least one value',
           lambda c, l: any(c['sectors'].values()) or bool(c['values']))]

CHECKS = {'C01': Check('C01', c01), 'C02': Check('C02', c02),
          'C03': Check('C03', c03), 'C26': Check('C26', c26)}
