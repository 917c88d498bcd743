"""Key sets of all bases (from the reference models) and their registration
with the package under test, which ships without its basis files here."""
from collections import OrderedDict
from functools import lru_cache
from . import flavour as fl
from . import ref_smeft, ref_wet, ref_flavorkit

EFTS = OrderedDict([
    ('SMEFT', ['dim0f', 'dim2f', 'dim4f']),
    ('WET', ['dipole', 'vector', 'scalar', 'other']),
    ('WET-4', ['dipole', 'vector', 'scalar', 'other']),
    ('WET-3', ['dipole', 'vector', 'scalar', 'other']),
    ('WET-2', ['dipole', 'vector', 'scalar', 'other']),
])


def _sector(eft, k):
    if eft == 'SMEFT':
        return {0: 'dim0f', 2: 'dim2f', 4: 'dim4f'}[
            len(k.split('_')[1]) if '_' in k else 0]
    n = k.split('_')[0]
    if n.endswith('gamma') or n in ('uG', 'dG'):
        return 'dipole'
    return {'V': 'vector', 'S': 'scalar'}.get(n[0], 'other')


@lru_cache(None)
def _content():
    """(basis, key) -> set of JMS keys it is built from"""
    out = {}
    for b, tab in (('Bern', ref_wet.jms_to_bern()),
                   ('flavio', ref_wet.jms_to_flavio())):
        for name, ent in tab.items():
            out[b, name] = {k for f, lin in ent for k, c in lin.clean().t}
    return out


@lru_cache(None)
def keys(eft, basis):
    """OrderedDict key -> real?"""
    if eft == 'SMEFT':
        s = fl.smeft_keys()
        if basis in ('Warsaw', 'Warsaw up'):
            return s
        return OrderedDict((k, s[k] or k.startswith('llphiphi'))
                           for k in ref_smeft.warsaw_mass_keys())
    if basis == 'JMS':
        return fl.jms_keys(eft)
    if basis in ('Bern', 'flavio'):
        tab = ref_wet.jms_to_bern() if basis == 'Bern' else ref_wet.jms_to_flavio()
        ks = list(tab)
        if basis == 'Bern':
            ks += [k for k in ref_wet.flavio_to_bern() if k not in tab]
        if eft == 'WET':
            return OrderedDict((k, False) for k in ks)
        allowed = set(fl.jms_keys(eft))
        con = _content()
        return OrderedDict((k, False) for k in ks
                           if con.get((basis, k), {None}) <= allowed)
    if basis == 'EOS':
        return OrderedDict((k, False) for k in ref_wet.jms_to_eos())
    if basis == 'formflavor':
        return OrderedDict((k, False) for k in ref_wet.jms_to_formflavor())
    if basis == 'FlavorKit':
        jr = fl.jms_keys('WET')
        return OrderedDict((k, jr[ref_flavorkit.TABLE[k][0]])
                           for k in ref_flavorkit.KEYS)
    raise KeyError((eft, basis))


ALL = [('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up'), ('SMEFT', 'Warsaw mass'),
       ('WET', 'JMS'), ('WET', 'Bern'), ('WET', 'flavio'), ('WET', 'EOS'),
       ('WET', 'formflavor'), ('WET', 'FlavorKit'),
       ('WET-4', 'JMS'), ('WET-4', 'Bern'), ('WET-4', 'flavio'),
       ('WET-3', 'JMS'), ('WET-3', 'Bern'), ('WET-3', 'flavio'),
       ('WET-2', 'JMS')]


def sectors(eft, basis):
    sec = OrderedDict()
    for k, real in keys(eft, basis).items():
        sec.setdefault(_sector(eft, k), OrderedDict())[k] = (
            {'tex': 'O', 'real': True} if real else {'tex': 'O'})
    return sec


def install(which=None):
    """Register EFTs and bases with the package under test."""
    import wcxf
    which = ALL if which is None else which
    for eft in OrderedDict.fromkeys(e for e, _ in which):
        wcxf.EFT(eft=eft, sectors={s: {} for s in EFTS[eft]})
    for eft, b in which:
        wcxf.Basis(eft=eft, basis=b, sectors=sectors(eft, b))
