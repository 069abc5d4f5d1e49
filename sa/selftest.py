"""Quick checks of the analyser itself: value numbers of small numpy programs."""
import os
import tempfile

from . import interp as ip
from . import terms as tm
from .scen import World

PROGRAM = '''
import numpy as np
def f1(x):
    s = 0.0
    for i in range(len(x)):
        s += x[i] * 2
    return s
def g1(x):
    return 2 * np.sum(x)
def f2(x, y):
    return np.where(x > y, x, y)
def g2(x, y):
    return np.maximum(y, x)
def f3(x):
    x = np.array(x)
    x -= np.mean(x)
    return np.mean(x ** 2)
def g3(x):
    return np.mean(x * x) - np.mean(x) ** 2
def f4(x):
    a, b = x[1:], x[:-1]
    return np.sum(0.5 * (a + b))
def g4(x):
    return np.trapz(x)
def f5(x):
    return x[x > 0].sum()
def g5(x):
    return np.sum(x)
'''


def main():
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'prog.py')
        open(p, 'w').write(PROGRAM)
        w = World()
        w.I.load_file('prog', p)
        w.base = w.I.st
    bad = 0
    for k, same in ((1, True), (2, True), (3, True), (4, True), (5, False)):
        s = w.scenario()
        n = s.int('N', 5)
        x, y = s.arr('x', (n,)), s.arr('y', (n,))
        args = [x, y] if k == 2 else [x]
        rs = []
        for f in 'fg':
            o = s.run(f'prog.{f}{k}', *args)
            rs.append(s.cell(o.value, [tm.var('q')] if k == 2 else []))
        if (rs[0] is rs[1]) != same or rs[0] is None:
            print(f'selftest {k}: {rs[0]}  /  {rs[1]}')
            bad += 1
    print('selftest', 'failed' if bad else 'ok')
    return 1 if bad else 0
