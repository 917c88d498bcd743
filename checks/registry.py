"""property id -> module in this package"""
MODULES = {}
for _m, _ids in {
        'io': 'C01 C02 C03 C26',
        'objects': 'C04 C05 C06 C07 C28',
        'pure': 'C08',
        'smeft': 'C09 C10 C11 C12 C19',
        'wet': 'C13 C14 C15 C16 C17 C18 C21',
        'matching': 'C20',
        'qcd': 'C22 C27',
        'convert': 'C23 C24',
        'cli': 'C25'}.items():
    for _i in _ids.split():
        MODULES[_i] = _m

# multiples of the basic numbers of cases in the quick tier, chosen so that
# every check takes some 200 s of processor time (on 8 cores 20 to 40 s)
FACTOR = {'C01': 20, 'C02': 9, 'C03': 64, 'C04': 24, 'C05': 80, 'C06': 48,
          'C07': 24, 'C08': 2, 'C09': 4, 'C10': 30, 'C11': 3, 'C12': 7,
          'C13': 8, 'C14': 25, 'C15': 13, 'C16': 64, 'C17': 48, 'C18': 48,
          'C19': 27, 'C20': 6, 'C21': 16, 'C22': 40, 'C23': 8, 'C24': 12,
          'C25': 4.5, 'C26': 80, 'C27': 24, 'C28': 16}
