"""C25: the command line programs do what the library does."""
import io
import json
import os
import subprocess
import sys

import yaml
from hypothesis import strategies as st

from vf import bases, env, gen
from vf.core import Check, Sub, call, fail, outcome, scratch
from . import convert as cv
from . import io as cio
from . import objects as ob
from . import pure
from .common import install

import wcxf
import wcxf.cli
from wcxf.converters import eos, yamljson

SCRIPTS = {'wcxf': wcxf.cli.wcxf_cli, 'wcxf2eos': wcxf.cli.eos,
           'wcxf2smeftsim': wcxf.cli.smeftsim}


DRIVER = """import sys
sys.path.insert(0, %r)
from vf import env, bases%s
import wcxf.cli
prog = %r
sys.argv[0] = prog
sys.exit({'wcxf': wcxf.cli.wcxf_cli, 'wcxf2eos': wcxf.cli.eos,
          'wcxf2smeftsim': wcxf.cli.smeftsim}[prog]())
"""


class Out(io.StringIO):
    def close(self):            # keep the text readable
        pass


def run(prog, args, stdin='', proc=False):
    """(exit status, standard output) of a program; None if it crashed in a
    way no exit status describes"""
    if proc:
        cmd = [sys.executable, '-c', DRIVER % (
            env.VERIF, '; bases.install()' if proc == 'bases' else '', prog)]
        r = subprocess.run(cmd + args,
                           input=stdin.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300,
                           env=env.child_env())
        return r.returncode, r.stdout.decode()
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    sys.argv = [prog] + args
    sys.stdin, sys.stdout, sys.stderr = io.StringIO(stdin), Out(), io.StringIO()
    out = sys.stdout
    try:
        try:
            r = SCRIPTS[prog]()
        except SystemExit as e:
            r = e.code
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException:
            r = 1               # traceback, status 1
        if r is None:
            r = 0
        elif not isinstance(r, int):
            r = 1
        return r & 0xff, out.getvalue()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old


ways = st.fixed_dictionaries({
    'in': st.sampled_from(['file', 'file', 'dash', 'implicit']),
    'old': st.sampled_from([None, 'old text\n' * 3, '{"eft": "old"}' * 9999]),
    'out': st.sampled_from(['stdout', 'stdout', 'file', 'file-first'])})


def invoke(prog, args, way, text, opts=(), proc=False):
    """run with the text as input; -> (status, output text)"""
    d = scratch('vf-cli')
    args = list(args)
    stdin = ''
    if way['in'] == 'file':
        p = os.path.join(d, 'input')
        with open(p, 'w') as f:
            f.write(text)
        args.append(p)
    else:
        stdin = text
        if way['in'] == 'dash':
            args.append('-')
    opts = list(opts)
    target = None
    if way['out'] != 'stdout':
        target = os.path.join(d, 'output')
        if way['old'] is not None:      # to be replaced
            with open(target, 'w') as f:
                f.write(way['old'])
        opts = ['--output', target] + opts
    if way['out'] == 'file-first':
        args = args[:1] + opts + args[1:] if prog == 'wcxf' else opts + args
    else:
        args = args + opts
    code, out = run(prog, args, stdin, proc)
    if target is not None:
        if out.strip():
            fail('%r wrote %r to standard output', args, out[:80])
        out = ''
        if os.path.exists(target):
            with open(target) as f:
                out = f.read()
        if out == way['old']:
            out = ''                    # nothing was written
    return code, out


# --- convert -----------------------------------------------------------------------
@st.composite
def convert_case(draw):
    kind = draw(st.sampled_from(['good', 'good', 'good', 'broken', 'format']))
    c = {'kind': kind, 'way': draw(ways)}
    if kind == 'broken':
        c.update(draw(cio.broken_case()))
    else:
        c['data'] = draw(st.one_of(cio.mapping, cio.wccase))
        c['fmt'] = draw(st.sampled_from(
            ['xml', 'jsn', '', 'js on', 'yml', 'json5']
            if kind == 'format' else
            ['json', 'yaml', 'json', 'yaml', 'JSON', 'Yaml', 'YAML', 'Json']))
    return c


def prop_convert(case):
    if case['kind'] == 'broken':
        fmt = 'json' if case['which'] == 'yaml' else 'yaml'
        code, out = invoke('wcxf', ['convert', fmt], case['way'], case['s'])
        if code == 0:
            fail('malformed input, but exit status 0')
        if out.strip():
            fail('malformed input, but output %r', out[:100])
        return {'refused': 1}
    d, fmt = case['data'], case['fmt']
    ytext = yaml.safe_dump(d)
    if cio.same(d, yaml.safe_load(ytext)):
        return {'skipped': 1}
    text = json.dumps(d) if fmt.lower() == 'yaml' else ytext
    code, out = invoke('wcxf', ['convert', fmt], case['way'], text)
    if case['kind'] == 'format':
        if code == 0:
            fail('unknown format %r, but exit status 0', fmt)
        if out.strip():
            fail('unknown format, but output %r', out[:100])
        return {'refused': 1}
    if code != 0:
        fail('exit status %r', code)
    try:
        got = json.loads(out) if fmt.lower() == 'json' else yaml.safe_load(out)
    except Exception as e:
        fail('output is not %s: %s', fmt, e)
    r = cio.same(d, got)
    if r:
        fail('convert %s: %s', fmt, r)
    return {'converted': bool(d)}


# --- translate / match ---------------------------------------------------------------
install()
TRANS = sorted((o[1], o[2], o[4]) for o in pure.OPS if o[0] == 'T')
MATCH = sorted(o[1:] for o in pure.OPS if o[0] == 'M')


@st.composite
def job_case(draw):
    which = draw(st.sampled_from(['translate', 'match']))
    job = draw(st.sampled_from(TRANS if which == 'translate' else MATCH))
    keys = bases.keys(job[0], job[1])
    c = draw(gen.inputs(keys, dense=draw(st.booleans()), n=5))
    c.update(which=which, job=list(job), way=draw(ways),
             scale=draw(gen.scale5()), infmt=draw(st.sampled_from(['json', 'yaml'])),
             fmt=draw(st.sampled_from([None, None, 'json', 'yaml', 'YAML',
                                       'JSON', 'xml'])),
             target=draw(st.sampled_from([None, None, None, None, None, 'basis',
                                          'eft', 'same'])),
             how=draw(gen.hows()), meta=draw(st.booleans()))
    return c


def job_prop(case, proc=False):
    job = case['job']
    keys = bases.keys(job[0], job[1])
    x = gen.values(case, keys)
    d = {'eft': job[0], 'basis': job[1], 'scale': case['scale'],
         'values': gen.wc_values(x, case['how'])}
    if case['meta']:
        d['metadata'] = {'generator': 'test'}
    text = json.dumps(d) if case['infmt'] == 'json' else yaml.safe_dump(d)
    target = list(job[2:])
    if case['target'] == 'basis':
        target[-1] = 'no such basis'
    elif case['target'] == 'eft' and case['which'] == 'match':
        target[0] = 'no such EFT'
    elif case['target'] == 'same':
        target = [job[1]] if case['which'] == 'translate' else [job[0], job[1]]
    wc = wcxf.WC.load(text)
    if case['which'] == 'translate':
        kind, ref = outcome(wc.translate, *target)
    else:
        kind, ref = outcome(wc.match, *target)
    opts = [] if case['fmt'] is None else ['--format', case['fmt']]
    code, out = invoke('wcxf', [case['which']] + target, case['way'], text,
                       opts, proc)
    fmt = (case['fmt'] or 'json').lower()
    if kind != 'ok' or fmt == 'xml':
        if code == 0:
            fail('%s to %r (format %s) must fail but has exit status 0',
                 case['which'], target, fmt)
        if out.strip():
            fail('failed %s, but output %r', case['which'], out[:100])
        return {'refused': 1}
    if code != 0:
        fail('exit status %r of %s %r', code, case['which'], target)
    try:
        got = json.loads(out) if fmt == 'json' else yaml.safe_load(out)
    except Exception as e:
        fail('output is not %s: %s', fmt, e)
    want = {'eft': ref.eft, 'basis': ref.basis, 'scale': ref.scale,
            'values': ref.values}
    for k in want:
        if k not in got:
            fail('%s missing in the output', k)
    if [got['eft'], got['basis']] != (
            [job[0]] + target if case['which'] == 'translate' else target):
        fail('output claims %s/%s', got['eft'], got['basis'])
    if float(got['scale']) != float(case['scale']):
        fail('scale %r became %r', case['scale'], got['scale'])
    g, w = wcxf.WC.load(out).dict, ref.dict
    if set(g) != set(w):
        fail('coefficients differ: %r', sorted(set(g) ^ set(w))[:5])
    for k in w:
        if complex(g[k]) != complex(w[k]):
            fail('%s = %r, the library gives %r', k, g[k], w[k])
    return {case['which']: len(w)}


# --- validate ------------------------------------------------------------------------
@st.composite
def validate_case(draw):
    c = draw(ob.val_case())
    c['way'] = draw(ways.map(lambda w: dict(w, out='stdout')))
    c['fmt'] = draw(st.sampled_from(['json', 'yaml']))
    c['type'] = draw(st.sampled_from(['basis', 'wc', 'wc', 'basis', 'eft',
                                      'basi', 'WC', 'all']))
    c['broken'] = draw(st.sampled_from([None] * 6 + ['syntax', 'field', 'list']))
    return c


FIELDS = {'eft': 'sectors', 'basis': 'sectors', 'wc': 'values'}


def prop_validate(case):
    typ = case['type']
    names = list(case['efts'])
    try:
        for n, s in case['efts'].items():
            wcxf.EFT(n, ob.cp(s))
        d, good = None, True
        if typ in ('basis', 'eft') and not (case['bases'] if typ == 'basis'
                                            else names):
            return {'skipped': 1}
        if typ == 'basis':
            e, b, s = case['bases'][0]
            d = {'eft': e, 'basis': b, 'sectors': s}
            ks = [k for w in s.values() for k in w]
            good = (e in case['efts'] and set(s) <= set(case['efts'][e])
                    and len(ks) == len(set(ks)))
        elif typ == 'eft':
            d = {'eft': names[0], 'sectors': case['efts'][names[0]]}
        else:
            known = {}
            for e, b, s in case['bases']:
                wcxf.Basis(e, b, ob.cp(s))
                known[e, b] = {k for w in s.values() for k in w}
            e, b, ks = case['wcs'][0]
            d = {'eft': e, 'basis': b, 'scale': 91., 'values': {k: 1. for k in ks}}
            good = (e in case['efts'] and (e, b) in known
                    and set(ks) <= known[e, b])
            if typ != 'wc':
                good = False
        if case['broken'] == 'field' and typ in FIELDS:
            del d[FIELDS[typ]]
            good = False
        text = json.dumps(d) if case['fmt'] == 'json' else yaml.safe_dump(d)
        if case['broken'] == 'syntax':
            text, good = text + '\n}{', False
        elif case['broken'] == 'list':
            text, good = '[1, 2]', False
        code, out = invoke('wcxf', ['validate', typ], case['way'], text)
        said = 'successful' in out
        if good and (code != 0 or not said):
            fail('valid %s: exit status %r, output %r\n%s', typ, code, out[:80], text)
        if not good and (code == 0 or said):
            fail('invalid %s: exit status %r, output %r\n%s', typ, code,
                 out[:80], text)
        return {'valid' if good else 'invalid': 1}
    finally:
        for n in names:
            outcome(wcxf.EFT.del_instance, n)
        for k in {(e, b) for e, b, _ in case['bases']}:
            outcome(wcxf.Basis.del_instance, k)


# --- wcxf2eos ------------------------------------------------------------------------
@st.composite
def eos_case(draw):
    c = draw(cv.dirs())
    for f in c['files'][:1]:
        f['meta'], f['name'] = 'true', 'p0.yaml'
    x = draw(cv.wc_eos(list(cv.KEYS)))
    near = cv._near(x)
    used = {k for f in c['files'] for k, _ in f['entries']}
    for k in near[:6]:
        if k not in used and draw(st.booleans()):
            c['files'][0]['entries'].append([k, draw(cv.sm_entry())])
    bad = draw(st.sampled_from([None] * 5 + ['key', 'basis']))
    return dict(c, x=x, bad=bad, way=draw(ways), how=draw(gen.hows()),
                infmt=draw(st.sampled_from(['json', 'yaml'])),
                home=draw(st.sampled_from(['no', 'no', 'no', 'yes', 'missing',
                                           'both'])))


def prop_eos(case):
    x = {k: complex(*v) for k, v in case['x'].items()}
    d = {'eft': 'WET', 'basis': 'EOS', 'scale': 4.2,
         'values': gen.wc_values(x, case['how'])}
    good = True
    if case['bad'] == 'key':
        d['values']['no such coefficient'] = 1.
        good = False
    elif case['bad'] == 'basis':
        d['basis'] = 'unknown'
        good = False
    root = scratch('vf-eos')
    pdir = os.path.join(root, 'share', 'eos', 'parameters')
    os.makedirs(pdir)
    sm = cv.write_dir(case, pdir)
    try:
        for k in sm:
            cv.np_model(k, x)
    except ValueError:
        good = False
    home = os.path.join(root, 'home')
    os.makedirs(os.path.join(home, 'parameters') if case['home'] != 'missing'
                else home)
    hf = os.path.join(home, 'parameters', 'wcxf.yaml')
    if case['way']['old'] is not None and case['home'] != 'missing':
        with open(hf, 'w') as f:
            f.write(case['way']['old'])
    opts = ['--eosprefix', root]
    way = dict(case['way'])
    if case['home'] != 'no':
        opts += ['--eoshome', home]
        if case['home'] == 'both':
            way['out'] = 'file'
            good = False
        else:
            way['out'] = 'stdout'
            good = good and case['home'] == 'yes'
    text = json.dumps(d) if case['infmt'] == 'json' else yaml.safe_dump(d)
    code, out = invoke('wcxf2eos', [], way, text, opts)
    written = None
    if os.path.exists(hf):
        with open(hf) as f:
            written = f.read()
        if written == case['way']['old']:
            written = None
    if not good:
        if code == 0:
            fail('exit status 0 for an input that cannot be converted')
        if out.strip() or written:
            fail('failed, but wrote %r', (out or written)[:100])
        return {'refused': 1}
    if code != 0:
        fail('exit status %r', code)
    if case['home'] == 'yes':
        if written is None:
            fail('EOSHOME/parameters/wcxf.yaml was not written')
        if out.strip():
            fail('output %r although --eoshome was used', out[:80])
        out = written
    elif written is not None:
        fail('wrote to the EOS home directory without being asked')
    try:
        got = yaml.load(out, Loader=yaml.Loader)
    except Exception as e:
        fail('output is not YAML: %s', e)
    if set(got or {}) != set(sm):
        fail('parameters %r instead of %r', sorted(got or {}), sorted(sm))
    n = cv.check_eos({k: got[k] for k in sm}, list(sm.items()), x) if sm else 0
    return {'parameters': len(sm), 'contributions': n}


# --- wcxf2smeftsim ---------------------------------------------------------------------
WARSAW = bases.keys('SMEFT', 'Warsaw')


@st.composite
def sim_case(draw):
    c = draw(cv.card_cases())
    c['basis'] = draw(st.sampled_from(['Warsaw mass'] * 3 + ['Warsaw']))
    c['answer'] = draw(st.sampled_from(['i', 'I', 'n', '', 'y', 'ii']))
    c['bad'] = draw(st.sampled_from([None] * 5 + ['key', 'scheme', 'set',
                                                  'cutoff', 'nofile']))
    # options left out take their documented defaults
    c['omit'] = draw(st.lists(st.sampled_from(
        ['set', 'scheme', 'lam', 'output']), unique=True, max_size=3))
    for k, v in (('set', 'A'), ('scheme', 'alpha'), ('lam', 1000.)):
        if k in c['omit']:
            c[k] = v
    c['opts'] = draw(st.permutations([0, 1, 2, 3, 4]))
    c['infmt'] = draw(st.sampled_from(['json', 'yaml']))
    c['dash'] = c['basis'] == 'Warsaw mass' and draw(st.booleans())
    c['old'] = draw(st.booleans())
    return c


OLD = 'Block OLD\n  1 1.0 # old\n' * 9999
DEFAULT_CARD = 'wcxf2smeftsim_param_card.dat'


def prop_sim(case):
    keys = {k: v for k, v in cv.MASS.items() if k in WARSAW}
    x = gen.values(case, keys)
    x = {k: v for k, v in x.items() if k in keys}
    d = {'eft': 'SMEFT', 'basis': case['basis'], 'scale': 1000.,
         'values': gen.wc_values(x, case['how'], case['order'])}
    good = True
    root = scratch('vf-sim')
    src, dst = os.path.join(root, 'wc.json'), os.path.join(root, 'card.dat')
    words = {'set': ['--model-set', case['set']],
             'scheme': ['--input-scheme', case['scheme']],
             'lam': ['--cutoff-scale', repr(case['lam'])],
             'output': ['--output', dst], 'file': [src]}
    for k in case['omit']:
        if not (k == 'lam' and case['bad'] == 'cutoff') and k != case['bad']:
            words[k] = []
            if k == 'output':
                dst = os.path.join(root, DEFAULT_CARD)
    if case['dash']:
        words['file'] = ['-']
    if case['bad'] == 'key':
        d['values']['nonsense'] = 1.
    elif case['bad'] == 'scheme':
        words['scheme'][1] = 'gf'
    elif case['bad'] == 'set':
        words['set'][1] = 'C'
    elif case['bad'] == 'cutoff':
        words['lam'][1] = 'high'
    elif case['bad'] == 'nofile':
        words['file'] = [os.path.join(root, 'absent')]
    if case['bad']:
        good = False
    argv = []
    for i in case['opts']:
        argv += words[('file', 'output', 'set', 'scheme', 'lam')[i]]
    text = json.dumps(d) if case['infmt'] == 'json' else yaml.safe_dump(d)
    with open(src, 'w') as f:
        f.write(text)
    if case['old']:         # a card to be replaced
        with open(dst, 'w') as f:
            f.write(OLD)
    here = os.getcwd()
    os.chdir(root)
    try:
        code, out = run('wcxf2smeftsim', argv,
                        text if case['dash'] else case['answer'] + '\n')
    finally:
        os.chdir(here)
    extra = set(os.listdir(root)) - {'wc.json', os.path.basename(dst)}
    if extra:
        fail('%r left the files %r', argv, sorted(extra))
    written = os.path.exists(dst)
    if written and case['old']:
        with open(dst) as f:
            written = f.read() != OLD
    if not good:
        if code == 0:
            fail('invalid request %r, but exit status 0', case['bad'])
        if written:
            fail('invalid request %r, but a card was written', case['bad'])
        return {'refused': 1}
    if case['basis'] != 'Warsaw mass':
        if 'WARNING' not in out:
            fail('no warning about the basis %s', case['basis'])
        if case['answer'] not in ('i', 'I'):
            if written:
                fail('a card was written although the user declined')
            return {'declined': 1}
    elif 'WARNING' in out:
        fail('warning %r for a valid basis', out[:80])
    if code != 0 or not written:
        fail('exit status %r', code)
    with open(dst) as f:
        n = cv.check_file(f.read(), case, x)
    return {'entries': n}


# --- programs as processes --------------------------------------------------------------
@st.composite
def proc_case(draw):
    what = draw(st.sampled_from(['convert', 'format', 'broken', 'help', 'eos',
                                 'validate', 'translate']))
    return {'what': what, 'way': draw(ways),
            'fmt': draw(st.sampled_from(['json', 'yaml'])),
            'data': draw(cio.mapping),
            'val': draw(gen.comp()), 'sm': draw(gen.comp()),
            'bad': draw(st.booleans())}


def prop_proc(case):
    w, fmt = case['what'], case['fmt']
    if w == 'help':
        code, out = run('wcxf', [], proc=True)
        if code != 0 or 'translate' not in out or 'convert' not in out:
            fail('without subcommand: status %r, output %r', code, out[:80])
        code, out = run('wcxf', ['frobnicate'], proc=True)
        if code == 0:
            fail('unknown subcommand, but exit status 0')
        return
    if w in ('convert', 'format', 'broken'):
        d = case['data']
        if cio.same(d, yaml.safe_load(yaml.safe_dump(d))):
            return
        text = json.dumps(d) if fmt == 'yaml' else yaml.safe_dump(d)
        if w == 'broken':
            text = '{a: [' + text
        code, out = invoke('wcxf', ['convert', 'toml' if w == 'format' else fmt],
                           case['way'], text, proc=True)
        if w != 'convert':
            if code == 0 or out.strip():
                fail('%s: status %r, output %r', w, code, out[:80])
            return
        if code != 0:
            fail('exit status %r', code)
        got = json.loads(out) if fmt == 'json' else yaml.safe_load(out)
        r = cio.same(d, got)
        if r:
            fail('convert %s: %s', fmt, r)
    elif w == 'translate':
        d = {'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': 1000.,
             'values': {'phil1_12': {'Re': case['val'], 'Im': case['sm']}}}
        text = json.dumps(d)
        b = 'nowhere' if case['bad'] else 'Warsaw up'
        code, out = invoke('wcxf', ['translate', b], case['way'], text,
                           ['--format', fmt], proc='bases')
        if case['bad']:
            if code == 0 or out.strip():
                fail('translate to %s: status %r, output %r', b, code, out[:80])
            return
        if code != 0:
            fail('exit status %r', code)
        g = wcxf.WC.load(out)
        ref = wcxf.WC.load(text).translate(b)
        if (g.eft, g.basis, g.scale) != ('SMEFT', b, 1000.) or \
                dict(g.dict) != dict(ref.dict):
            fail('translate gives %r, library %r', g.dict, ref.dict)
    elif w == 'validate':
        d = {'eft': 'X', 'sectors': {'s': {}}}
        if case['bad']:
            del d['sectors']
        code, out = invoke('wcxf', ['validate', 'eft'],
                           dict(case['way'], out='stdout'), json.dumps(d),
                           proc=True)
        if (code == 0) == case['bad'] or ('successful' in out) == case['bad']:
            fail('validate: status %r, output %r', code, out[:80])
    else:
        # an undefined basis has to be refused
        d = {'eft': 'Nope', 'basis': 'EOS', 'scale': 4.2, 'values': {}}
        code, out = invoke('wcxf2eos', [], case['way'], json.dumps(d),
                           proc=True)
        if code == 0 or out.strip():
            fail('wcxf2eos: status %r, output %r', code, out[:80])


CHECKS = {'C25': Check('C25', [
    Sub('convert', convert_case(), prop_convert, 250, 6000,
        'non-empty data was converted or a bad request refused',
        lambda c, l: l.get('converted') or l.get('refused')),
    Sub('jobs', job_case(), job_prop, 200, 3000,
        'the library call gives at least one coefficient, or the request has '
        'to fail', lambda c, l: any(l.values()),
        gen.explicit_with(lambda c: bases.keys(*c['job'][:2]))),
    Sub('validate', validate_case(), prop_validate, 300, 6000,
        'a file was judged', lambda c, l: 'skipped' not in l),
    Sub('eos', eos_case(), prop_eos, 120, 2500,
        'parameters were written or the request has to fail',
        lambda c, l: l.get('parameters') or l.get('refused'), setup=install),
    Sub('smeftsim', sim_case(), prop_sim, 50, 1000,
        'a card was written, declined or refused',
        lambda c, l: any(l.values()), setup=install),
    Sub('programs', proc_case(), prop_proc, 12, 120,
        'the program was started as a process of its own')])}
