"""JMS four-fermion operators (arXiv:1709.04486, tables 13-17) as tensors."""
from functools import lru_cache
from . import flavour as fl
from . import lagr

# name -> (kind, chirality1, chirality2, colour)
OPS = {}
for n in fl.JMS_SYM:
    if len(fl.JMS_RANGE[n]) != 4:
        continue
    kind = n[0]                       # V, S or T
    ch = n[-2:]
    colour = n[1] if n[1] in '18' else None
    OPS[n] = (kind, ch[0], ch[1], colour)

QUARKS = 'ud'
FLAV = {'u': ['u', 'c', 't'], 'd': ['d', 's', 'b'],
        'e': ['e', 'mu', 'tau'], 'n': ['nue', 'numu', 'nutau']}
_cache = {}


def ncol(fields):
    return tuple(3 if f in QUARKS else 1 for f in fields)


def base_tensor(name):
    if name not in _cache:
        kind, c1, c2, colour = OPS[name]
        rng = fl.JMS_RANGE[name]
        if all(f in QUARKS for f in rng):
            t = lagr.fourfermion(kind, c1, c2, colour or '1')
        else:
            t = lagr.fourfermion(kind, c1, c2, None, ncol(rng))
        _cache[name] = (t, lagr.hc(t))
    return _cache[name]


@lru_cache(1)
def _index():
    """sorted flavour content -> [(key, real, operator, fields)]"""
    d = {}
    for k, real in fl.jms_keys('WET').items():
        n, _, ind = k.partition('_')
        if n not in OPS:
            continue
        fields = [FLAV[r][int(i) - 1] for r, i in zip(fl.JMS_RANGE[n], ind)]
        d.setdefault(tuple(sorted(fields)), []).append((k, real, n, fields))
    return d


def terms(target):
    """All contributions of the JMS Lagrangian to the monomials
    b1bar f1 b2bar f2 = target (flavour names): list of (key, conj, tensor)."""
    res = []
    for k, real, n, fields in _index().get(tuple(sorted(target)), ()):
        t, th = base_tensor(n)
        x = lagr.canonical(t, fields, target)
        if x is not None:
            res.append((k, False, x))
        if not real:
            g = [fields[1], fields[0], fields[3], fields[2]]
            x = lagr.canonical(th, g, target)
            if x is not None:
                res.append((k, True, x))
    return res
