"""Histories of stepping requests, with an independent account of which parameters step through which values."""
from ._pie import model

ACCOUNT = '''
a0 = __sym__('a0', dom='pos'); a1 = a0 + __sym__('a1', dom='pos'); b0 = __sym__('b0', dom='pos'); b1 = b0 + __sym__('b1', dom='pos')
z = __sym__('z')
W = 1.e9
for t in (a1, b1):
    __assume__(t < W)
__assume__(-W < z); __assume__(z + .25 < W)
def lin(lo, hi, n, k):
    return lo + k*(hi - lo)/(n - 1.)
def geo(lo, hi, n, k):
    return lo*(hi/lo)**(k/(n - 1.))
class Account(object):
    def __init__(self):
        self.order = []        # names of the stepping parameters, in order of request
        self.steps = {}        # name -> (lo, hi, n, rule)
        self.restarted = False # whether all of them have to be at their first values
        self.rest = {'p': 1.5, 'q': 2.5, 'r': 3.5}
    def steps_now(self, name, lo, hi, n, rule):
        if name not in self.order:
            self.order.append(name)
        self.steps[name] = (lo, hi, n, rule)
        self.restarted = True
    def stops(self, name, value):
        if name in self.order:
            self.order.remove(name)
            self.restarted = True
        self.rest[name] = value
def walk(x, acc, k):
    acc.restarted = False
    for j in range(k):
        if acc.order:
            try:
                x.next_step()
            except StopStepping:
                pass
def do(x, acc, op):
    if op == 'p lin':
        x.p.linstep(a0, a1, 3); acc.steps_now('p', a0, a1, 3, lin)
    elif op == 'p lin other':
        x.p.linstep(a1, a0, 2); acc.steps_now('p', a1, a0, 2, lin)
    elif op == 'p log':
        x.p.logstep(a0, a1, 3); acc.steps_now('p', a0, a1, 3, geo)
    elif op == 'q lin':
        x.q.step(b0, b1, 3); acc.steps_now('q', b0, b1, 3, lin)
    elif op == 'q log':
        x.q.logstep(b1, b0, 2); acc.steps_now('q', b1, b0, 2, geo)
    elif op == 'r lin':
        x.r.linstep(a0, b1, 2); acc.steps_now('r', a0, b1, 2, lin)
    elif op == 'p fixed':
        x.p = z; acc.stops('p', z)
    elif op == 'q frozen':
        v = x.q + 0.
        x.q.fix(); acc.stops('q', v)
    elif op == 'p varied':
        x.p.vary(z, .5, (-W, W)); acc.stops('p', z)
        x.p.set_value(z + .25); acc.stops('p', z + .25)
    elif op == 'q varied':
        x.q.vary(b0, .5, (W, -W)); acc.stops('q', b0)
    elif op == 'p default':
        x.p.range(a1, a0)
        x.p.linstep(n=2); acc.steps_now('p', a0, a1, 2, lin)
        x.p.range(-W, W)
    elif op == 'q default':
        x.q.range(b0, b1)
        x.q.logstep(b1, n=3); acc.steps_now('q', b1, b1, 3, geo)
        x.q.logstep(hi=b0, n=2); acc.steps_now('q', b0, b0, 2, geo)
        x.q.logstep(n=3); acc.steps_now('q', b0, b1, 3, geo)
        x.q.range(-W, W)
    elif op == 'walk 1':
        walk(x, acc, 1)
    elif op == 'walk 4':
        walk(x, acc, 4)
    elif op == 'last':
        acc.restarted = False
        for n in acc.order:
            getattr(x, n).last_step()
    elif op == 'refused':
        for f in (lambda: x.p.logstep(-1., 1., 5), lambda: x.q.linstep(1., 2., 1), lambda: x.p.vary(1., .1, (5., 6.)), lambda: x.q.vary(7., 2., (6., 5.)), lambda: x.p.range()):
            try:
                f()
            except Exception:
                pass
    elif op == 'reset':
        x.reset_steps()
        acc.restarted = True
OPS = %r
'''
OPS = ['p lin', 'p lin other', 'p log', 'q lin', 'q log', 'r lin', 'p default', 'q default', 'p fixed', 'q frozen', 'p varied', 'q varied', 'walk 1', 'walk 4', 'last', 'refused', 'reset']
STARTS = {'nothing stepped': [], 'one stepped': ['p lin', 'walk 1'], 'two stepped': ['p lin', 'q log', 'walk 4'], 'three stepped': ['q lin', 'r lin', 'p log', 'walk 4'],
          'one varied': ['p varied'], 'two varied': ['q varied', 'p varied'], 'walked to the end': ['p log', 'q lin', 'last']}
EXPECT = '''
def expect(acc, ind):
    """parameter values at a grid index"""
    vals = dict(acc.rest)
    for n, k in zip(acc.order, ind):
        lo, hi, num, rule = acc.steps[n]
        vals[n] = rule(lo, hi, num, k)
    return vals['p'], vals['q'], vals['r']
def indices(acc):
    out = [()]
    for n in acc.order:
        out = [t + (k,) for t in out for k in range(acc.steps[n][2])]
    return out
'''


def source(body, start, firsts, trace='', pre='', seconds=None):
    return model('ChisqrInference', 1, 1, 'pqr', trace) + ACCOUNT % (OPS,) + EXPECT + pre + '''
for first in %r:
    for second in %r:
        x = X()
        x.p, x.q, x.r
        acc = Account()
        for op in %r + [first, second]:
            do(x, acc, op)
''' % (firsts, seconds or OPS, STARTS[start]) + body
