"""What belongs to an inference: the parameters and predictors its classes declare."""
from sa.report import Check, Client
from ._pie import PRE

TOP = PRE + '''
l = __arr__('l', 1); v = __arr__('v', 1); s = __arr__('s', 1, dom='pos')
v2 = __arr__('w', 1); s2 = __arr__('t', 1, dom='pos')
sig = __fun__('sig')
BASE = ChisqrInference
'''
END = '''
def all_of(x, what):
    __check__('every parameter is listed once, in order of declaration' + what, list(x.params) == PARAMS)
    __check__('every predictor is listed once, in order of declaration' + what, list(x.predictors) == PREDS)
    pv = x.get_params()
    __check__('saved values are those of every parameter' + what, list(pv.names) == PARAMS)
    for n in PARAMS:
        __eq__('saved value' + what, getattr(pv, n), getattr(x, n))
def stat(x):
    tot = 0.
    for n in PREDS:
        vv, ss = DATA[n]
        tot = tot + ((vv[0] - sig(SIGNAL(x), l[0]))/ss[0])**2
    return tot
x = X(); y = X()
all_of(x, ''); all_of(y, ', second instance')
for k, n in enumerate(PARAMS):
    setattr(x, n, __sym__('val%d' % k))
__eq__('the statistic covers every predictor', x.score(), stat(x))
pv = x.get_params()
y.set_params(pv)
for k, n in enumerate(PARAMS):
    __eq__('every parameter is restored', getattr(y, n), __sym__('val%d' % k))
__eq__('the statistic after restoring', y.score(), stat(x))
z = X()
all_of(z, ', third instance')
x.params.append('extra'); x.predictors.append('extra')
all_of(X(), ', after the lists of another instance were changed')
'''

PLAIN = '''
class D(PredictorSet):
    d1 = SampledGaussian(l, v, s)
    d2 = SampledGaussian(l, v2, s2)
PREDS = ['d1', 'd2']
DATA = {'d1': (v, s), 'd2': (v2, s2)}
'''
MODELS = {
    'plain': ('''
class M(SignalModel):
    b = RealParam(1.5)
    a = RealParam(2.5)
    c = RealParam(3.5)
    def signal(self, x):
        return sig(self.a + 2*self.b + 3*self.c, x)
''', ['b', 'a', 'c'], 'x.a + 2*x.b + 3*x.c'),
    'aligned': ('''
class M(SignalModel):
    slope  = RealParam(1.5)
    c      = RealParam(2.5)
    offset = RealParam(3.5)
    def signal(self, x):
        return sig(self.slope + 2*self.c + 3*self.offset, x)
''', ['slope', 'c', 'offset'], 'x.slope + 2*x.c + 3*x.offset'),
    'crowded': ('''
class M(SignalModel):
    slope=RealParam(1.5)   # the slope
    c	=	RealParam(2.5); k=3
    offset =RealParam(
        3.5, 'c = offset')
    def signal(self, x):
        return sig(self.slope + 2*self.c + 3*self.offset, x)
''', ['slope', 'c', 'offset'], 'x.slope + 2*x.c + 3*x.offset'),
    'prefixes': ('''
class M(SignalModel):
    abc = RealParam(1.5)
    a = RealParam(2.5)
    ab = RealParam(3.5)
    def signal(self, x):
        return sig(self.a + 2*self.ab + 3*self.abc, x)
''', ['abc', 'a', 'ab'], 'x.a + 2*x.ab + 3*x.abc'),
    'one': ('''
class M(SignalModel):
    a = RealParam(2.5)
    def signal(self, x):
        return sig(self.a + 0, x)
''', ['a'], 'x.a + 0'),
    'none': ('''
class M(SignalModel):
    def signal(self, x):
        return sig(7., x)
''', [], '7.'),
    'documented': ('''
class M(SignalModel):
    """
    A line, with
    b = its slope
    a = its offset
    """
    def half(self):
        b = .5
        return b
    a = RealParam(2.5)
    b = RealParam(3.5)
    def signal(self, x):
        return sig(self.a + 2*self.b, x)
''', ['a', 'b'], 'x.a + 2*x.b'),
    'derived': ('''
class M0(SignalModel):
    a = RealParam(2.5)
    b = RealParam(3.5)
    def signal(self, x):
        return sig(self.a + 2*self.b, x)
class M(M0):
    c = RealParam(1.5)
    def signal(self, x):
        return sig(self.a + 2*self.b + 3*self.c, x)
''', ['a', 'b', 'c'], 'x.a + 2*x.b + 3*x.c'),
    'derived, nothing new': ('''
class M0(SignalModel):
    a = RealParam(2.5)
    b = RealParam(3.5)
class M(M0):
    def signal(self, x):
        return sig(self.a + 2*self.b, x)
''', ['a', 'b'], 'x.a + 2*x.b'),
    'derived, new default': ('''
class M0(SignalModel):
    a = RealParam(2.5)
    b = RealParam(3.5)
class M(M0):
    b = RealParam(4.5)
    def signal(self, x):
        return sig(self.a + 2*self.b, x)
''', ['a', 'b'], 'x.a + 2*x.b'),
}
SETS = {
    'plain': (PLAIN, []),
    'with a parameter': ('''
class D(PredictorSet):
    d1 = SampledGaussian(l, v, s)
    extra = RealParam(8.5)
    d2 = SampledGaussian(l, v2, s2)
PREDS = ['d1', 'd2']
DATA = {'d1': (v, s), 'd2': (v2, s2)}
''', ['extra']),
    'aligned': ('''
class D(PredictorSet):
    d      = SampledGaussian(l, v, s)
    extra2 = RealParam(8.5)
    e      = RealParam(8.5)
    dd=SampledGaussian(l, v2, s2)
PREDS = ['d', 'dd']
DATA = {'d': (v, s), 'dd': (v2, s2)}
''', ['extra2', 'e']),
    'derived': ('''
class D0(PredictorSet):
    d2 = SampledGaussian(l, v2, s2)
class D(D0):
    d1 = SampledGaussian(l, v, s)
PREDS = ['d2', 'd1']
DATA = {'d1': (v, s), 'd2': (v2, s2)}
''', []),
}
KIND = {
    'mixed': 'class X(BASE, M, D):\n    pass\n',
    'other order': 'class X(BASE, D, M):\n    pass\n',
    'derived': 'class X0(BASE, M, D):\n    pass\nclass X(X0):\n    pass\n',
    'twice derived': 'class X0(BASE, M, D):\n    pass\nclass X1(X0):\n    limit = 3\nclass X(X1):\n    pass\n',
}

TWO = '''
class M0(SignalModel):
    b = RealParam(1.5)
class M(M0):
    a = RealParam(2.5)
    def signal(self, x):
        return sig(self.a + 2*self.b, x)
class E1(PredictorSet):
    d1 = SampledGaussian(l, v, s)
    e = RealParam(9.5)
class E2(PredictorSet):
    d2 = SampledGaussian(l, v2, s2)
    f = RealParam(7.5)
DATA = {'d1': (v, s), 'd2': (v2, s2)}
'''
# name -> (classes, parameters, predictors)
SEVERAL = {
    'two sets': ('class X(BASE, M, E1, E2):\n    pass\n', ['b', 'a', 'e', 'f'], ['d1', 'd2']),
    'two sets, other order': ('class X(BASE, E2, M, E1):\n    pass\n', ['b', 'a', 'f', 'e'], ['d2', 'd1']),
    'two sets, derived inference': ('class X0(BASE, M, E1, E2):\n    pass\nclass X(X0):\n    pass\n', ['b', 'a', 'e', 'f'], ['d1', 'd2']),
    'one set added later': ('class X0(BASE, M, E1):\n    pass\nclass X(X0, E2):\n    pass\n', ['b', 'a', 'e', 'f'], ['d1', 'd2']),
    'own data': ('class X(BASE, M):\n    d2 = SampledGaussian(l, v2, s2)\n', ['b', 'a'], ['d2']),
    'own data besides a set': ('class X(BASE, M, E1):\n    d2 = SampledGaussian(l, v2, s2)\n', ['b', 'a', 'e'], ['d1', 'd2']),
    'own data in a derived inference': ('class X0(BASE, M, E1):\n    pass\nclass X(X0):\n    d2 = SampledGaussian(l, v2, s2)\n', ['b', 'a', 'e'], ['d1', 'd2']),
    'own parameter': ('class X(BASE, M, E1):\n    c = RealParam(.5)\n', ['b', 'a', 'e', 'c'], ['d1']),
    'own parameter, set and data': ('class X(BASE, E2, M):\n    d1 = SampledGaussian(l, v, s)\n    c = RealParam(.5)\n', ['b', 'a', 'f', 'c'], ['d2', 'd1']),
    'own parameter, redefined': ('class X(BASE, M, E1):\n    a = RealParam(.5)\n', ['b', 'a', 'e'], ['d1']),
}


def several(k, base):
    src, params, preds = SEVERAL[k]
    stat = END if base == 'ChisqrInference' else END.replace('    return tot\n', '    return -tot/2%s\n' % (' + pri(x.a)' if base[0] == 'B' else ''))
    if base[0] == 'B':
        src = src.replace('    pass\n', '    def log_prior(self):\n        return pri(self.a)\n', 1) if 'pass' in src else src + '    def log_prior(self):\n        return pri(self.a)\n'
    return Client('%s, %s' % (k, base), TOP + "BASE = %s\npri = __fun__('pri')\n" % base + TWO + src + 'PARAMS = %r\nPREDS = %r\ndef SIGNAL(x):\n    return x.a + 2*x.b\n' % (params, preds) + stat)


def client(m, d, k, source=True):
    src, names, sg = MODELS[m]
    dsrc, extra = SETS[d]
    return Client('model %s, data %s, %s%s' % (m, d, k, '' if source else ', no source'),
                  TOP + ('' if source else '__no_source__()\n') + src + dsrc + KIND[k] +
                  'PARAMS = %r\ndef SIGNAL(x):\n    return %s\n' % (names + extra, sg) + END)


CL = []
for m in MODELS:
    CL.append(client(m, 'plain', 'mixed'))
    CL.append(client(m, 'plain', 'mixed', False))
for d in SETS:
    if d != 'plain':
        CL.append(client('plain', d, 'mixed'))
        CL.append(client('aligned', d, 'other order'))
        CL.append(client('plain', d, 'mixed', False))
for k in KIND:
    if k != 'mixed':
        CL.append(client('plain', 'with a parameter', k))
        CL.append(client('prefixes', 'plain', k, False))

CL += [several(k, b) for k in SEVERAL for b in ('ChisqrInference', 'MaxLikeInference', 'BayesianInference')]
CL.append(Client('models sharing a base', TOP + PLAIN + '''
class M0(SignalModel):
    a = RealParam(2.5)
    def signal(self, x):
        return sig(self.a + 0, x)
class M1(M0):
    b = RealParam(3.5)
class M2(M0):
    c = RealParam(4.5)
for rep in range(2):
    class X0(BASE, M0, D):
        pass
    class X1(BASE, M1, D):
        pass
    class X2(BASE, M2, D):
        pass
    __check__('parameters of the base', list(X0().params) == ['a'])
    __check__('parameters of the first extension', list(X1().params) == ['a', 'b'])
    __check__('parameters of the second extension', list(X2().params) == ['a', 'c'])
'''))
CL.append(Client('the same name in the model and the data', TOP + '''
class M(SignalModel):
    a = RealParam(2.5)
    b = RealParam(3.5)
    def signal(self, x):
        return sig(self.a + 0, x)
class D(PredictorSet):
    b = RealParam(1.5)
    d1 = SampledGaussian(l, v, s)
class X(BASE, M, D):
    pass
try:
    X()
    __reach__('a parameter declared twice is refused')
except Exception:
    pass
'''))

P30 = Check('P30', 'for every layout of the declarations, with and without source code, by derivation and for repeated instances, the '
            'lists of parameters and predictors, what is saved and restored, and the statistic cover exactly the declared ones in order', CL)
CHECKS = [P30]
