"""Contract of a distance functor."""
from specs.data import *

DISTF = z3.Function('distance_value', z3.ArraySort(I, R), z3.ArraySort(I, R), I, R)


def dvalue(v, this, args):
    x, y = v.f(args[0], 'x'), v.f(args[1], 'x')
    return DISTF(x.arr, y.arr, x.len)


metric = Pure('distance functor: a function of the two points (its value is proved under P07), no side effects', [('Euclidean', 'operator()')], dvalue)
