"""Contract of an arbitrary trained learner."""
from specs.data import *

LEARN = ('cls', 'AnyLearner', ())
PRED = z3.Function("prediction", z3.ArraySort(I, R), I, R)


def predict(v, this, args):
    x = v.f(args[0], 'x')
    return PRED(x.arr, x.len)


evaluate = Pure('Learner::evaluate: a function of the point, no side effects', [('AnyLearner', 'evaluate'), ('Learner', 'evaluate')], predict)


def pred(d, k):
    x = d.x(k)
    return PRED(x.arr, x.len)
