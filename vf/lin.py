"""Sparse real-linear forms: sum_i c_i * x_{k_i} or c_i * conj(x_{k_i})."""


class Lin(object):
    __slots__ = ('t',)

    def __init__(self, terms=None):
        self.t = dict(terms or {})

    @staticmethod
    def var(key, conj=False, coeff=1.):
        return Lin({(key, conj): coeff})

    def __add__(self, o):
        if o == 0:
            return self
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(t)

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, c):
        return Lin({k: v * c for k, v in self.t.items()})

    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1. / c)

    def conj(self):
        return Lin({(k, not c): complex(v).conjugate()
                    for (k, c), v in self.t.items()})

    def clean(self, eps=1e-13):
        return Lin({k: v for k, v in self.t.items() if abs(v) > eps})

    def eval(self, x):
        """(value, sum of absolute contributions)"""
        s, a = 0., 0.
        for (k, c), v in self.t.items():
            y = x.get(k)
            if y is None or y == 0:
                continue
            z = v * (y.conjugate() if c else y)
            s += z
            a += abs(z)
        return s, a


def apply_map(m, x):
    """Evaluate dict name -> Lin on x; returns name -> (value, amplitude)."""
    return {k: f.eval(x) for k, f in m.items()}


def compose(outer, inner):
    """outer(inner(x)): outer maps names of inner's outputs."""
    res = {}
    for k, f in outer.items():
        acc = Lin()
        for (n, c), v in f.t.items():
            if n in inner:
                g = inner[n]
                acc = acc + (g.conj() if c else g) * v
        res[k] = acc
    return res
