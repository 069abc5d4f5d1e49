"""Scenario building blocks shared by the checks."""
from .. import terms as tm
from .. import npcore as nc
from .. import interp as ip
from ..scen import *  # noqa
from ..scen import Missing
from ..terms import num, T
from ..values import Arr, Bound, Builtin, Buf, Choice, Cls, ExcV, Ext, Func, LDict, LEnv, LList, LObj, Method, ModuleV, Opaque, Ref, isnumeric  # noqa
from ..engine import HOLDS, VIOLATED, UNDECIDED  # noqa


def I_call(s, obj, meth, args, kw):
    return s.I.call(s.I.getattr(obj, meth), list(args), dict(kw))


def item(s, v, k):
    return s.I.getitem(v, k)


class Case:
    """a symbolic dataset (D, N), points (D, M), optional weights, a symbolic covariance matrix and bandwidth h"""

    def __init__(self, s, D, weights=False, cov='sym', oned=None, nlo=5, bandwidth='h', dtype='f'):
        self.s, self.D = s, D
        I = s.I
        self.N = s.int('N', nlo)
        self.M = s.int('M', 2)
        oned = D == 1 if oned is None else oned
        self.data = s.arr('data', (self.N,) if oned else (D, self.N), dtype)
        self.points = s.arr('pts', (self.M,) if oned else (D, self.M))
        self.data2 = I.np.call(I, Builtin('numpy.atleast_2d'), [self.data], {})
        self.points2 = I.np.call(I, Builtin('numpy.atleast_2d'), [self.points], {})
        self.w = s.arr('w', (self.N,), lo=0, lo_open=True) if weights else None
        self.names = {'N', 'M', 'data', 'pts', 'w', 'h'}
        self.h = s.num('h', lo=0, lo_open=True) if bandwidth == 'h' else bandwidth
        self.cov = None
        if cov == 'sym':
            self.cov = self.symcov(D)
        elif cov == 'diag':
            self.cov = self.symcov(D, diag=True)

    def symcov(self, D, diag=False):
        """a symmetric positive definite matrix of symbols"""
        s = self.s
        cells = {}
        for i in range(D):
            for j in range(i, D):
                if i == j:
                    nm = f'c{i}{i}'
                    self.names.add(nm)
                    t = s.num(nm, lo=1, lo_open=True)
                elif diag:
                    t = tm.ZERO
                else:
                    nm = f'c{i}{j}'
                    self.names.add(nm)
                    t = s.num(nm, lo=-0.4, hi=0.4)
                cells[(i, j)] = cells[(j, i)] = t
        return nc.build(s.I, (D, D), lambda i: cells[(int(i[0]), int(i[1]))], 'f', owner='arg:covariance')

    @property
    def H(self):
        """kernel covariance for a scalar bandwidth"""
        return self.spec('matrix', self.cov, self.h)

    def kde(self, **kw):
        kw.setdefault('bandwidth', self.h)
        if self.cov is not None:
            kw.setdefault('covariance', self.cov)
        if self.w is not None:
            kw.setdefault('weights', self.w)
        return self.s.I.call(self.s.get('kalepy.KDE'), [kw.pop('data', self.data)], kw)

    def spec(self, name, *args, **kw):
        I = self.s.I
        return I.call(self.s.get('spec.' + name), list(args), kw)
