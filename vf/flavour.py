"""Flavour structure of the WCxf operator bases, written as index symmetries.

Nothing here is taken from the code under test: an operator class is given by
its fields and by the index permutations under which its coefficient tensor is
invariant (optionally with complex conjugation).  Independent elements ("keys")
are the lexicographically smallest member of every orbit.
"""
import itertools
from collections import OrderedDict

# ---------------------------------------------------------------------------
# symmetry generators: (permutation of index positions, conjugate?)
HERM2 = [((1, 0), True)]
SYMM2 = [((1, 0), False)]
HERM4 = [((1, 0, 3, 2), True)]
CURR4 = [((2, 3, 0, 1), False)]
FIERZ4 = [((0, 3, 2, 1), False)]
QQUE = [((1, 0, 2, 3), False)]

SYM = {
    'gen2': [], 'herm2': HERM2, 'symm2': SYMM2,
    'gen4': [], 'herm4': HERM4, 'curr4': CURR4,
    'hermcurr4': HERM4 + CURR4,
    'hermcurrfierz4': HERM4 + CURR4 + FIERZ4,
    'qque': QQUE,
}


def orbit(idx, sym):
    """All (index tuple, conjugated?) related to idx by the symmetry class."""
    gens = SYM[sym]
    seen = {(tuple(idx), False)}
    todo = list(seen)
    while todo:
        t, c = todo.pop()
        for perm, conj in gens:
            n = (tuple(t[p] for p in perm), c != conj)
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return seen


def rep(idx, sym):
    """(representative, conjugated?, self_conjugate?)"""
    o = orbit(idx, sym)
    r = min(t for t, c in o)
    flags = {c for t, c in o if t == r}
    real = len(flags) == 2
    return r, (False if real else flags.pop()), real


# ---------------------------------------------------------------------------
# SMEFT Warsaw basis
SMEFT_0F = ["G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG",
            "phiB", "phiW", "phiWB", "phiGtilde", "phiBtilde", "phiWtilde",
            "phiWtildeB"]
SMEFT_SYM = OrderedDict()
for n in ("uphi dphi ephi eW eB uG uW uB dG dW dB phiud").split():
    SMEFT_SYM[n] = 'gen2'
for n in ("phil1 phil3 phie phiq1 phiq3 phiu phid").split():
    SMEFT_SYM[n] = 'herm2'
SMEFT_SYM['llphiphi'] = 'symm2'
for n in "ledq quqd1 quqd8 lequ1 lequ3 duql duue".split():
    SMEFT_SYM[n] = 'gen4'
for n in "ll qq1 qq3 uu dd".split():
    SMEFT_SYM[n] = 'hermcurr4'
for n in "lq1 lq3 eu ed ud1 ud8 le lu ld qe qu1 qd1 qu8 qd8".split():
    SMEFT_SYM[n] = 'herm4'
SMEFT_SYM['ee'] = 'hermcurrfierz4'
SMEFT_SYM['qque'] = 'qque'
SMEFT_SYM['qqql'] = 'qqql'

# fields of every SMEFT operator in index order; a trailing ~ marks the
# conjugate (barred) field
SMEFT_FIELDS = {
    'uphi': 'q~ u', 'dphi': 'q~ d', 'ephi': 'l~ e',
    'eW': 'l~ e', 'eB': 'l~ e',
    'uG': 'q~ u', 'uW': 'q~ u', 'uB': 'q~ u',
    'dG': 'q~ d', 'dW': 'q~ d', 'dB': 'q~ d',
    'phiud': 'u~ d',
    'phil1': 'l~ l', 'phil3': 'l~ l', 'phie': 'e~ e',
    'phiq1': 'q~ q', 'phiq3': 'q~ q', 'phiu': 'u~ u', 'phid': 'd~ d',
    'llphiphi': 'l l',
    'll': 'l~ l l~ l', 'qq1': 'q~ q q~ q', 'qq3': 'q~ q q~ q',
    'uu': 'u~ u u~ u', 'dd': 'd~ d d~ d', 'ee': 'e~ e e~ e',
    'lq1': 'l~ l q~ q', 'lq3': 'l~ l q~ q', 'eu': 'e~ e u~ u',
    'ed': 'e~ e d~ d', 'ud1': 'u~ u d~ d', 'ud8': 'u~ u d~ d',
    'le': 'l~ l e~ e', 'lu': 'l~ l u~ u', 'ld': 'l~ l d~ d',
    'qe': 'q~ q e~ e', 'qu1': 'q~ q u~ u', 'qu8': 'q~ q u~ u',
    'qd1': 'q~ q d~ d', 'qd8': 'q~ q d~ d',
    'ledq': 'l~ e d~ q', 'quqd1': 'q~ u q~ d', 'quqd8': 'q~ u q~ d',
    'lequ1': 'l~ e q~ u', 'lequ3': 'l~ e q~ u',
    'duql': 'd u q l', 'qque': 'q q u e', 'qqql': 'q q q l', 'duue': 'd u u e',
}

# independent flavour combinations (first three indices) of Q_qqql, for
# C_prst + C_rpst = C_sprt + C_srpt (arXiv:1312.2014)
QQQL_REPS = [(0, 0, 0), (0, 0, 1), (0, 0, 2), (0, 1, 0), (0, 1, 1), (0, 1, 2),
             (0, 2, 0), (0, 2, 1), (0, 2, 2), (1, 0, 1), (1, 0, 2), (1, 1, 1),
             (1, 1, 2), (1, 2, 0), (1, 2, 1), (1, 2, 2), (2, 0, 2), (2, 1, 2),
             (2, 2, 2)]


def qqql_expand():
    """dict idx3 -> {rep3: coefficient} for the q indices of Q_qqql."""
    ex = {r: {r: 1} for r in QQQL_REPS}
    ex[1, 0, 0] = {(0, 0, 1): 1}
    ex[1, 1, 0] = {(0, 1, 1): 1}
    ex[2, 0, 0] = {(0, 0, 2): 1}
    ex[2, 1, 1] = {(1, 1, 2): 1}
    ex[2, 2, 0] = {(0, 2, 2): 1}
    ex[2, 2, 1] = {(1, 2, 2): 1}
    # C_021 + C_201 = C_102 + C_120 ;  C_120 + C_210 = C_012 + C_021
    ex[2, 0, 1] = {(1, 0, 2): 1, (1, 2, 0): 1, (0, 2, 1): -1}
    ex[2, 1, 0] = {(0, 1, 2): 1, (0, 2, 1): 1, (1, 2, 0): -1}
    return ex


_QQQL = qqql_expand()


def key(name, idx):
    return name + '_' + ''.join(str(i + 1) for i in idx)


def smeft_keys():
    """OrderedDict key -> is_real for all independent Warsaw coefficients."""
    out = OrderedDict()
    for n in SMEFT_0F:
        out[n] = True
    for n, s in SMEFT_SYM.items():
        d = 2 if s.endswith('2') else 4
        for idx in itertools.product(range(3), repeat=d):
            if s == 'qqql':
                if idx[:3] in QQQL_REPS:
                    out[key(n, idx)] = False
                continue
            r, c, real = rep(idx, s)
            if r == idx:
                out[key(n, idx)] = real
    return out


def smeft_element(name, idx):
    """Tensor element as combination of independent keys: list of
    (coefficient, key, conjugated?)."""
    s = SMEFT_SYM[name]
    if s == 'qqql':
        return [(c, key(name, r + (idx[3],)), False)
                for r, c in _QQQL[idx[:3]].items()]
    r, c, real = rep(idx, s)
    return [(1, key(name, r), c)]


# ---------------------------------------------------------------------------
# WET, JMS basis (arXiv:1709.04486 tables 11-17)
JMS_SYM = OrderedDict()     # name -> symmetry class
JMS_RANGE = OrderedDict()   # name -> field of every index


def _j(names, sym):
    for n, fields in names:
        JMS_SYM[n] = sym
        JMS_RANGE[n] = fields


_j([('egamma', 'ee'), ('ugamma', 'uu'), ('dgamma', 'dd'), ('uG', 'uu'),
    ('dG', 'dd')], 'gen2')
_j([('VnunuLL', 'nnnn'), ('VeeLL', 'eeee'), ('VeeRR', 'eeee')],
   'hermcurrfierz4')
_j([('VnueLL', 'nnee'), ('VnuuLL', 'nnuu'), ('VnudLL', 'nndd'),
    ('VeuLL', 'eeuu'), ('VedLL', 'eedd'), ('V1udLL', 'uudd'),
    ('V8udLL', 'uudd'), ('VeuRR', 'eeuu'), ('VedRR', 'eedd'),
    ('V1udRR', 'uudd'), ('V8udRR', 'uudd'), ('VnueLR', 'nnee'),
    ('VeeLR', 'eeee'), ('VnuuLR', 'nnuu'), ('VnudLR', 'nndd'),
    ('VeuLR', 'eeuu'), ('VedLR', 'eedd'), ('VueLR', 'uuee'),
    ('VdeLR', 'ddee'), ('V1uuLR', 'uuuu'), ('V8uuLR', 'uuuu'),
    ('V1udLR', 'uudd'), ('V8udLR', 'uudd'), ('V1duLR', 'dduu'),
    ('V8duLR', 'dduu'), ('V1ddLR', 'dddd'), ('V8ddLR', 'dddd')], 'herm4')
_j([('VuuLL', 'uuuu'), ('VddLL', 'dddd'), ('VuuRR', 'uuuu'),
    ('VddRR', 'dddd')], 'hermcurr4')
_j([('VnueduLL', 'nedu'), ('VnueduLR', 'nedu'), ('V1udduLR', 'uddu'),
    ('V8udduLR', 'uddu'), ('SeuRL', 'eeuu'), ('SedRL', 'eedd'),
    ('SnueduRL', 'nedu'), ('SeuRR', 'eeuu'), ('TeuRR', 'eeuu'),
    ('SedRR', 'eedd'), ('TedRR', 'eedd'), ('SnueduRR', 'nedu'),
    ('TnueduRR', 'nedu'), ('S1udRR', 'uudd'), ('S8udRR', 'uudd'),
    ('S1udduRR', 'uddu'), ('S8udduRR', 'uddu')], 'gen4')
_j([('SeeRR', 'eeee'), ('S1uuRR', 'uuuu'), ('S8uuRR', 'uuuu'),
    ('S1ddRR', 'dddd'), ('S8ddRR', 'dddd')], 'curr4')

NGEN = {
    'WET': {'u': 2, 'd': 3, 'e': 3, 'n': 3},
    'WET-4': {'u': 2, 'd': 2, 'e': 3, 'n': 3},
    'WET-3': {'u': 1, 'd': 2, 'e': 3, 'n': 3},
    'WET-2': {'u': 1, 'd': 1, 'e': 2, 'n': 3},
}


def jms_keys(eft='WET'):
    """OrderedDict key -> is_real for all independent JMS coefficients."""
    ng = NGEN[eft]
    out = OrderedDict([('G', True), ('Gtilde', True)])
    for n, s in JMS_SYM.items():
        for idx in itertools.product(*[range(ng[f]) for f in JMS_RANGE[n]]):
            r, c, real = rep(idx, s)
            if r == idx:
                out[key(n, idx)] = real
    return out


_jms_cache = {}


def jms_element(name, idx):
    """(key, conjugated?) of the independent JMS coefficient that equals the
    tensor element name[idx] (0-based indices)."""
    k = (name, tuple(idx))
    if k not in _jms_cache:
        r, c, real = rep(idx, JMS_SYM[name])
        _jms_cache[k] = (key(name, r), c)
    return _jms_cache[k]
