"""Common prelude of the parameter-inference clients."""

PRE = '''
from inference.pie import *
from inference.pie.param import ParamError, ParamRangeError, undef, fixed, stepping, varying
from inference.pie.signalmodel import StopStepping
from numpy import array
'''

MODEL = PRE + '''
l = __arr__('l', 2); v = __arr__('v', 2); s = __arr__('s', 2, dom='pos')
sig = __fun__('sig')
class M(SignalModel):
    p = RealParam(1.5, 'first')
    q = RealParam(3.5)
    def signal(self, x):
        return sig(self.p, self.q, x)
class D(PredictorSet):
    d1 = SampledGaussian(l, v, s)
class X(ChisqrInference, M, D):
    pass
'''

MODEL3 = PRE + '''
l = __arr__('l', 1); v = __arr__('v', 1); s = __arr__('s', 1, dom='pos')
sig = __fun__('sig')
class M(SignalModel):
    p = RealParam(1.5, 'first')
    q = RealParam(3.5)
    r = RealParam(0.5)
    def signal(self, x):
        return sig(self.p, self.q, self.r, x)
class D(PredictorSet):
    d1 = SampledGaussian(l, v, s)
class X(ChisqrInference, M, D):
    pass
'''


def stub(name):
    """analyse calls of a repository function through the client function NAME (its contract) instead of its body"""
    def hook(it, f, args, kw):
        return it.call(it.st.get(it.mods['client']).d[name], args, kw)
    return hook


POWELL = {('inference.utils.nrmin', 'powell'): stub('any_minimiser')}

# A minimiser about which only its contract is known: it may evaluate the function anywhere, ends on an arbitrary
# evaluation, and returns a point, the value there (not above the value at the start) and a count.
MINIMISER = '''
BIG = 1.e9
_n = [0]
_starts = []
_hooks = []
_ftols = []
_drxns = []
def _anywhere(what, n):
    _n[0] += 1
    t = __arr__(what + str(_n[0]) + '_', n)
    for k in range(n):
        __assume__(t[k] > -BIG); __assume__(t[k] < BIG)
    return t
def any_minimiser(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False, **kw):
    n = len(p)
    _ftols.append(ftol)
    _drxns.append(None if drxns is None else [[t + 0 for t in r] for r in drxns])
    fp = f(p)
    f(_anywhere('trial', n))
    best = _anywhere('opt', n)
    fb = f(best)
    __assume__(fb <= fp)
    f(_anywhere('last', n))
    for h in _hooks:
        h([t + 0 for t in best])
    return best, fb, 3
'''
KINDS = ('ChisqrInference', 'MaxLikeInference', 'BayesianInference')


def model(kind, nd=2, preds=1, params='pq', body='', how='signal', dbody=''):
    """client prelude: a model with the given parameters, predictors of nd data and an independent score"""
    args = ', '.join('self.' + c for c in params)
    src = PRE + ''.join("l%d = __arr__('l%d_', %d); v%d = __arr__('v%d_', %d); s%d = __arr__('s%d_', %d, dom='pos')\n" % (
        k, k, nd, k, k, nd, k, k, nd) for k in range(preds))
    src += "sig = __fun__('sig'); pri = __fun__('pri')\nclass M(SignalModel):\n"
    for j, c in enumerate(params):
        src += '    %s = RealParam(%r)\n' % (c, 1.5 + j)
    if how == 'signal':
        src += '    def signal(self, x):\n        return sig(%s, x)\n' % args
    else:
        src += '    def signals(self, xs):\n        return array([sig(%s, x) for x in xs])\n' % args
    src += body + 'class D(PredictorSet):\n'
    for k in range(preds):
        src += '    d%d = SampledGaussian(l%d, v%d, s%d)\n' % (k, k, k, k)
    src += dbody
    src += 'class X(%s, M, D):\n    def log_prior(self):\n        return pri(%s)\n' % (kind, args)
    cargs = ', '.join(params)
    src += 'def want(%s):\n    chi = 0.\n' % cargs
    for k in range(preds):
        src += '    for j in range(%d):\n        chi = chi + ((v%d[j] - sig(%s, l%d[j]))/s%d[j])**2\n' % (nd, k, cargs, k, k)
    src += '    return ' + {'ChisqrInference': 'chi', 'MaxLikeInference': '-chi/2',
                            'BayesianInference': '-chi/2 + pri(%s)' % cargs}[kind] + '\n'
    return src
