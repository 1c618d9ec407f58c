from sa.report import Check, Client
from ._pie import PRE, MODEL, MODEL3, MINIMISER, POWELL
from . import _grids

BOUNDED = MODEL + '''
lo = __sym__('lo'); hi = __sym__('hi'); z = __sym__('z'); a = __sym__('a')
__assume__(lo < hi)
__assume__(lo <= a); __assume__(a <= hi)
x = X()
x.p = a
'''

ROUTES = {
    'attribute': 'x.p = z',
    'fix': 'x.p.fix(z)',
    'vary start': 'x.p.vary(z, 0.25)',
    'vary named start': 'x.p.vary(start=z, delta=0.25)',
}

RANGES = {'two values': 'x.p.range(lo, hi)', 'swapped': 'x.p.range(hi, lo)', 'pair': 'x.p.range((hi, lo))',
          'with vary': 'x.p.vary(a, 0.25, (lo, hi))', 'with vary swapped': 'x.p.vary(a, 0.25, (hi, lo))'}


def route(rng, how, pre=''):
    return BOUNDED + rng + '\n' + pre + '''
__eq__('value before the attempt', x.p, a)
st = x.p.status
try:
    %s
    ok = True
except ParamRangeError:
    ok = False
inside = lo <= z and z <= hi
if inside:
    __check__('a value inside the range is accepted', ok)
    __eq__('an accepted value is the one read back', x.p, z)
else:
    __check__('a value outside the range is refused', not ok)
    __eq__('a refused value leaves the old one', x.p, a)
    __check__('a refused value leaves the status', x.p.status == st)
__check__('value stays inside its range', lo <= x.p and x.p <= hi)
''' % how


def stepc(call, bad):
    return BOUNDED + '''
__assume__(lo > 0)
x.p.range(lo, hi)
b = __sym__('b')
__assume__(lo <= b); __assume__(b <= hi); __assume__(a < b)
__assume__(z > 0); __assume__(b > 0)
st = x.p.status
try:
    %s
    ok = True
except ParamRangeError:
    ok = False
if lo <= z and z <= hi:
    __check__('a stepping end inside the range is accepted', ok)
else:
    __check__('a stepping end outside the range is refused', not ok)
    __eq__('a refused stepping end leaves the value', x.p, a)
    __check__('a refused stepping end leaves the status', x.p.status == st)
__check__('value stays inside its range', lo <= x.p and x.p <= hi)
''' % call


# every route, from every earlier history of the parameter
EARLIER = {
    'unread': '',
    'fixed': 'x.p = a',
    'varying': 'x.p.vary(a, 0.25)',
    'frozen': 'x.p.vary(a, 0.25)\nx.p.fix()',
    'stepping': 'x.p.linstep(a, b, 4)',
    'inside its steps': 'x.p.linstep(a, b, 4)\nx.p.next_step()',
    'log stepping': 'x.p.logstep(a, b, 4)\nx.p.last_step()',
    'stopped stepping': 'x.p.linstep(a, b, 4)\nx.p.last_step()\nx.p.fix()',
    'stepping, then varying': 'x.p.linstep(a, b, 4)\nx.p.vary(b, 0.25)',
    'varying, then stepping': 'x.p.vary(b, 0.25)\nx.p.logstep(a, b, 4)',
    'refused before': 'try:\n    x.p = hi + 1\nexcept ParamRangeError:\n    pass',
}
GIVE = {
    'assignment': ('x.p = z', 'fixed', 'z'),
    'fix': ('x.p.fix(z)', 'fixed', 'z'),
    'vary': ('x.p.vary(z, 0.5)', 'varying', 'z'),
    'vary, named': ('x.p.vary(delta=0.5, start=z)', 'varying', 'z'),
    'linstep lo': ('x.p.linstep(z, b, 3)', 'stepping', 'z'),
    'linstep hi': ('x.p.linstep(b, z, 3)', 'stepping', 'b'),
    'step hi': ('x.p.step(b, hi=z, n=3)', 'stepping', 'b'),
    'logstep lo': ('x.p.logstep(z, b, 3)', 'stepping', 'z'),
    'logstep hi': ('x.p.logstep(b, z, 3)', 'stepping', 'b'),
    'set_value': ('x.p.set_value(z)', 'varying', 'z'),
    'restore': ('x.set_params(saved)', None, 'z'),
}


def history(e, g):
    how, then, val = GIVE[g]
    return BOUNDED.replace('x.p = a\n', '') + '''
b = __sym__('b')
__assume__(lo > 0); __assume__(a < b); __assume__(b <= hi); __assume__(z > 0); __assume__(a > 0); __assume__(b > 0); __assume__(hi > 0)
y = X()
y.p = z; y.q = 2.
saved = y.get_params()
x.p.range(lo, hi)
x.p = a
x.q = 2.
''' + EARLIER[e] + '''
was = x.p + 0.
st = x.p.status
lists = ([h.name for h in x.fixed_params], [h.name for h in x.varying_params], [h.name for h in x.stepping_params])
nums = x.step_nums()
try:
    %s
    ok = True
except ParamRangeError:
    ok = False
if lo <= z and z <= hi:
    __check__('a value inside the range is accepted', ok)
    __eq__('an accepted value is the one read back', x.p, %s)
    __check__('and the status is the one asked for', x.p.status == %s)
else:
    __check__('a value outside the range is refused', not ok)
    __eq__('a refused value leaves the old one', x.p, was)
    __check__('a refused value leaves the status', x.p.status == st)
    __check__('a refused value leaves the lists', ([h.name for h in x.fixed_params], [h.name for h in x.varying_params], [h.name for h in x.stepping_params]) == lists)
    __check__('a refused value leaves the step', x.step_nums() == nums)
''' % (how, val, then or 'st')


def histories():
    out = []
    for e in EARLIER:
        for g in GIVE:
            if g == 'set_value' and e not in ('varying', 'stepping, then varying'):
                continue
            if g == 'restore' and ('stepping' in e or 'steps' in e) and e not in ('stopped stepping', 'stepping, then varying'):
                continue
            out.append(Client('%s, then %s' % (e, g), history(e, g)))
    return out


P01 = Check('P01', 'for every declared range and every way of giving a parameter a value (assignment, fix, set_value, '
            'vary, stepping ends, restoring a snapshot), values inside are accepted and read back, values outside raise '
            'and leave the parameter as it was', histories() + [
                Client('range(%s) %s' % (rn, hn), route(r, h)) for rn, r in RANGES.items() for hn, h in ROUTES.items()
            ] + [
                Client('set_value', route('x.p.range(lo, hi)', 'x.p.set_value(z)', 'x.p.vary(a, 0.25)')),
                Client('refix', route('x.p.range(lo, hi)', 'x.p = z', 'x.p.vary(a, 0.25)\nx.p.fix()')),
                Client('refused while varying', route('x.p.range(lo, hi)', 'x.p.fix(z)', 'x.p.vary(a, 0.25)')),
                Client('range moved', route('x.p.range(lo - 1, hi + 1)\nx.p = a\nx.p.range(lo, hi)', 'x.p = z')),
                Client('other parameter has its own range', route('x.q.range(-1, 1)\nx.p.range(lo, hi)', 'x.p = z')),
                Client('linstep lo', stepc('x.p.linstep(z, b, 3)', 'z')),
                Client('linstep hi', stepc('x.p.linstep(b, z, 3)', 'z')),
                Client('logstep lo', stepc('x.p.logstep(z, b, 3)', 'z')),
                Client('logstep hi', stepc('x.p.logstep(b, z, 3)', 'z')),
                Client('unbounded', MODEL + '''
x = X()
z = __sym__('z')
x.p = z
__eq__('without a range any value is accepted', x.p, z)
x.q.fix(2*z)
__eq__('without a range any value is accepted', x.q, 2*z)
'''),
                Client('not varying', BOUNDED + '''
x.p.range(lo, hi)
for how in ('fixed', 'stepping', 'frozen'):
    if how == 'stepping':
        x.p.linstep(lo, a, 3)
    if how == 'frozen':
        x.p.vary(a, 0.25)
        x.p.fix()
    was = x.p + 0.
    try:
        x.p.set_value(hi)
        __reach__('setting the value of a parameter that does not vary is refused: ' + how)
    except ParamError:
        pass
    __eq__('the value is kept: ' + how, x.p, was)
'''),
                Client('not a range', BOUNDED + '''
x.p.range(lo, hi)
for bad in ((), (1., 2., 3.)):
    try:
        x.p.range(*bad)
        __reach__('anything but two limits is refused')
    except ValueError:
        pass
x.p = hi
x.p = lo
try:
    x.p = hi + 1
    __reach__('the old range stays in force')
except ParamRangeError:
    pass
__eq__('the value is kept', x.p, lo)
y = X()
y.p = 1.
try:
    y.p.range()
except ValueError:
    pass
y.p = z
__eq__('a refused range does not bound the parameter', y.p, z)
'''),
                Client('distance from the ends', MODEL + '''
for side in (0, 1):
    lo = __sym__('lo'); w = __sym__('w', dom='pos'); t = __sym__('t', dom='unit'); pc = __sym__('pc', dom='pos')
    __assume__(t < .5)
    x = X()
    x.p.vary(lo + t*w if side == 0 else lo + w - t*w, 0.25, (lo, lo + w))
    for r, lim in ((x.p.check(), 1), (x.p.check(pc), pc), (x.p.check(percent=2*pc), 2*pc)):
        if 100*t >= lim:
            __check__('far enough from the ends', r)
        else:
            __check__('too close to an end', not r)
    x.p.fix()
    try:
        x.p.check()
        __reach__('checking a parameter that does not vary is refused')
    except RuntimeError:
        pass
'''),
                Client('variation outside a new range', MODEL + '''
a = __sym__('a'); lo = __sym__('lo'); hi = __sym__('hi'); z = __sym__('z'); u = __sym__('u')
__assume__(lo < hi)
__assume__(lo <= a); __assume__(a <= hi)
for bounded in (True, False):
    for how in ('positional', 'named', 'swapped', 'current'):
        x = X()
        x.p = a
        if bounded:
            x.p.vary(a, .5, (lo, hi))
            x.p.fix()
        nl, nh = __sym__('nl'), __sym__('nh')
        __assume__(nl < nh)
        start = a if how == 'current' else z
        try:
            if how == 'positional':
                x.p.vary(z, .25, (nl, nh))
            elif how == 'named':
                x.p.vary(range=(nl, nh), delta=.25, start=z)
            elif how == 'swapped':
                x.p.vary(z, .25, (nh, nl))
            else:
                x.p.vary(delta=.25, range=(nl, nh))
            ok = True
        except ParamRangeError:
            ok = False
        if nl <= start and start <= nh:
            __check__('a start inside the new range is accepted', ok)
            __eq__('and is the value', x.p, start)
            __check__('and the parameter varies', x.p.status == varying)
        else:
            __check__('a start outside the new range is refused', not ok)
            __eq__('a refused start leaves the value', x.p, a)
            __check__('a refused start leaves the status', x.p.status == fixed)
            if bounded:
                if lo <= u and u <= hi:
                    x.p = u
                    __eq__('a refused start leaves the range', x.p, u)
                else:
                    try:
                        x.p = u
                        __reach__('a refused start leaves the range')
                    except ParamRangeError:
                        pass
            else:
                x.p = u
                __eq__('a refused start leaves the parameter without a range', x.p, u)
'''),
                Client('variation from a value outside the range', MODEL + '''
a = __sym__('a'); lo = __sym__('lo'); hi = __sym__('hi')
__assume__(lo < hi)
if True:
    x = X()
    x.p = a
    x.p.range(lo, hi)
    try:
        x.p.vary(delta=.5)
        ok = True
    except ParamRangeError:
        ok = False
    if lo <= a and a <= hi:
        __check__('a current value inside the range may vary', ok)
        __eq__('from where it is', x.p, a)
    else:
        __check__('a current value outside the range cannot vary', not ok)
        __check__('and the status stays', x.p.status == fixed)
'''),
                Client('incomplete variation', MODEL + '''
x = X()
a = __sym__('a')
x.p = a
for bad in (dict(), dict(start=1.), dict(start=1., delta=.1), dict(delta=.1), dict(start=1., range=(0., 2.)), dict(range=(0., 2.))):
    y = X()
    y.p = a
    try:
        y.p.vary(**bad)
        __reach__('a variation without range or step is refused')
    except ValueError:
        pass
    __eq__('the value is kept', y.p, a)
    __check__('the status is kept', y.p.status == fixed)
    __check__('the lists are kept', len(y.varying_params) == 0)
'''),
                Client('snapshot', BOUNDED + '''
x.p.range(lo, hi)
y = X()
y.p = z
y.q = 7.
pv = y.get_params()
x.q = 5.
try:
    x.set_params(pv)
    ok = True
except ParamRangeError:
    ok = False
if lo <= z and z <= hi:
    __check__('restoring an inside value is accepted', ok)
    __eq__('restored', x.p, z)
else:
    __check__('restoring an outside value is refused', not ok)
    __eq__('a refused restore leaves the value', x.p, a)
'''),
            ])

STATUS = '''
def partition(x, names):
    for n in names:
        st = getattr(x, n).status
        inf = [h.name for h in x.fixed_params].count(n)
        inv = [h.name for h in x.varying_params].count(n)
        ins = [h.name for h in x.stepping_params].count(n)
        __check__('a fixed parameter is listed once and only as fixed', (inf, inv, ins) == (1, 0, 0) if st == fixed else True)
        __check__('a varying parameter is listed once and only as varying', (inf, inv, ins) == (0, 1, 0) if st == varying else True)
        __check__('a stepping parameter is listed once and only as stepping', (inf, inv, ins) == (0, 0, 1) if st == stepping else True)
        __check__('status is one of the three', st == fixed or st == varying or st == stepping)
    __check__('nothing else is listed', len(x.fixed_params) + len(x.varying_params) + len(x.stepping_params) == len(names))
ops = {
 'fix': lambda P: P.fix(2.), 'freeze': lambda P: P.fix(), 'vary': lambda P: P.vary(1.5, 0.1, (0., 4.)),
 'step': lambda P: P.linstep(1., 3., 3), 'log': lambda P: P.logstep(1., 4., 3), 'revary': lambda P: P.vary(2.5, 0.2, (0., 4.)),
}
want = {'fix': fixed, 'freeze': fixed, 'vary': varying, 'step': stepping, 'log': stepping, 'revary': varying}
def do(x, name, op):
    ops[op](getattr(x, name))
    __check__('the status follows the request', getattr(x, name).status == want[op])
'''


def seqs():
    out = []
    names = ['fix', 'freeze', 'vary', 'step', 'log', 'revary']
    for i in names:
        out.append(Client('two-step histories after ' + i, MODEL3 + STATUS + '''
for second in %r:
    for third in %r:
        x = X()
        x.p, x.q, x.r
        do(x, 'p', %r); partition(x, ['p', 'q', 'r'])
        do(x, 'p', second); partition(x, ['p', 'q', 'r'])
        do(x, 'p', third); partition(x, ['p', 'q', 'r'])
''' % (names, names, i)))
        out.append(Client('interleaved histories after ' + i, MODEL3 + STATUS + '''
for second in %r:
    for third in %r:
        x = X()
        x.p, x.q, x.r
        do(x, 'q', 'vary'); do(x, 'r', 'step')
        do(x, 'p', %r); partition(x, ['p', 'q', 'r'])
        do(x, 'q', second); partition(x, ['p', 'q', 'r'])
        do(x, 'r', third); partition(x, ['p', 'q', 'r'])
        x.p = 1.25
        __check__('assignment fixes', x.p.status == fixed)
        partition(x, ['p', 'q', 'r'])
''' % (names, names, i)))
    return out


P02 = Check('P02', 'every sequence of up to three status changes over one parameter, and over three interleaved '
            'parameters, leaves each parameter in exactly the list of its status; order of declaration is kept', seqs() + [
                Client('order', MODEL3 + STATUS + '''
x = X()
x.p, x.q, x.r
do(x, 'r', 'vary'); do(x, 'p', 'vary')
__check__('varying order is request order', [h.name for h in x.varying_params] == ['r', 'p'])
do(x, 'r', 'revary')
__check__('adjusting a varying parameter keeps its place', [h.name for h in x.varying_params] == ['r', 'p'])
do(x, 'q', 'step')
do(x, 'r', 'step')
__check__('stepping order is request order', [h.name for h in x.stepping_params] == ['q', 'r'])
do(x, 'q', 'log')
__check__('adjusting a stepping parameter keeps its place', [h.name for h in x.stepping_params] == ['q', 'r'])
__check__('shape follows the order', x.step_shape() == (3, 3))
__check__('parameters are listed in source order', x.params == ['p', 'q', 'r'])
'''),
            ])

NOTIFY = PRE + '''
l = __arr__('l', 2); v = __arr__('v', 2); s = __arr__('s', 2, dom='pos')
sig = __fun__('sig')
class M(SignalModel):
    p = RealParam(1.5)
    q = RealParam(3.5)
    def signal(self, x):
        self.trace.append('eval')
        return sig(self.p, self.q, x)
    def on_param_change(self, param):
        self.trace.append(param.name)
        self.seen[param.name] = getattr(self, param.name) + 0
    def on_use(self):
        self.trace.append('use')
        self.derived = (self.seen['p'], self.seen['q'])
        self.used = (self.p + 0, self.q + 0)
class D(PredictorSet):
    d1 = SampledGaussian(l, v, s)
    d2 = SampledGaussian(l, v, s)
class X(%s, M, D):
    def log_prior(self):
        return 0.
x = X.__new__(X)
x.trace = []; x.seen = {}
X.__init__(x)
x.p, x.q
def current(what):
    __eq__('the hook saw the value the parameter now has: ' + what, (x.seen['p'], x.seen['q']), (x.p + 0, x.q + 0))
def changed(name, what):
    __check__('change is reported: ' + what, name in x.trace)
    __check__('only the changed parameter is reported: ' + what, [n for n in x.trace if n in ('p', 'q') and n != name] == [])
    current(what)
    x.trace = []
'''

CHANGES = NOTIFY + '''
x.trace = []
x.p = __sym__('a'); changed('p', 'assign')
x.p.fix(__sym__('b')); changed('p', 'fix')
x.q.vary(1., .1, (0., 9.)); changed('q', 'vary')
x.q.set_value(2.); changed('q', 'set_value')
x.q.fix(); x.trace = []
x.p.linstep(0., 1., 4); changed('p', 'linstep')
x.p.next_step(); changed('p', 'next_step')
x.p.next_step(); changed('p', 'next_step again')
x.p.prev_step(); changed('p', 'prev_step')
x.p.last_step(); changed('p', 'last_step')
x.p.prev_step(); changed('p', 'prev_step from the end')
x.p.first_step(); changed('p', 'first_step')
x.next_step(); changed('p', 'grid step')
x.reset_steps(); changed('p', 'reset')
x.p.logstep(1., 8., 4); changed('p', 'logstep')
x.p.next_step(); changed('p', 'log next_step')
x.p.prev_step(); changed('p', 'log prev_step')
x.p = 1.
x.q = 2.
y = X.__new__(X)
y.trace = []; y.seen = {}
X.__init__(y)
y.p = 5.; y.q = 6.
x.trace = []
x.set_params(y.get_params())
__check__('restoring reports the first parameter', 'p' in x.trace)
__check__('restoring reports the second parameter', 'q' in x.trace)
current('restoring')
'''

USE = NOTIFY + '''
a = __sym__('a'); b = __sym__('b')
def fresh(what):
    """every evaluation follows a use notification issued after the last change"""
    seen = False
    for t in x.trace:
        if t == 'use':
            seen = True
        elif t == 'eval':
            __check__('model set up before evaluation: ' + what, seen)
        else:
            seen = False
    __check__('model was evaluated: ' + what, 'eval' in x.trace)
    current(what)
    __eq__('derived values agree with the parameters at set up: ' + what, x.derived, x.used)
    if what != 'grid fit':      # a finished grid fit moves the stepping parameters back to their start
        __eq__('set up saw the current values: ' + what, x.used, (x.p + 0, x.q + 0))
    x.trace = []
x.trace = []
x.p = a; x.q = b
x.score(); fresh('first score')
x.p = b
x.score(); fresh('score after a change')
x.q.linstep(0., 1., 3)
x.fit(); fresh('grid fit')
x.q = a
x.d1.sim(); fresh('simulation')
x.p = a
x.d1.sim1(0); fresh('single simulation')
'''

OPT = NOTIFY + MINIMISER + '''
lo = __sym__('lo'); hi = __sym__('hi'); a = __sym__('a'); b = __sym__('b')
__assume__(lo < a); __assume__(a + .25 < hi); __assume__(-BIG < a); __assume__(a < BIG)
def every(what):
    seen = False
    for t in x.trace:
        if t == 'use':
            seen = True
        elif t == 'eval':
            __check__('model set up before every evaluation: ' + what, seen)
        else:
            seen = False
    current(what)
    x.trace = []
x.q = b
x.p.vary(a, .25%s)
%s
x.trace = []
x.fit()
every('fit')
x.score(); every('score after a fit')
'''

P03 = Check('P03', 'every route that changes a parameter value notifies the model, naming that parameter; every model '
            'evaluation is preceded by a set-up notification issued after the last change', [
                Client('changes ' + b, CHANGES % b) for b in ('ChisqrInference', 'MaxLikeInference', 'BayesianInference')
            ] + [
                Client('use ' + b, USE % b) for b in ('ChisqrInference', 'MaxLikeInference', 'BayesianInference')
            ] + [
                Client('optimisation %s%s' % (b, m), OPT % (b, r, c), opaque=POWELL)
                for b in ('ChisqrInference', 'BayesianInference')
                for m, r, c in (('', ', (-2*BIG, 2*BIG)', ''), (' mapped', ', (lo, hi)', 'x.map_bounds()'))
            ])

STEP = MODEL + '''
n = %d
lo = __sym__('lo'%s); hi = __sym__('hi'%s)
%s
x = X()
x.p, x.q
%s
def at(k):
    return %s
def is_at(k, what):
    __check__('index ' + what, x.p.step_index() == k)
    __check__('reported index ' + what, x.step_nums() == (k,))
    __eq__('value ' + what, x.p, at(k))
is_at(0, 'at the start')
for k in range(1, n):
    x.p.next_step()
    is_at(k, 'going up')
try:
    x.p.next_step()
    __reach__('stepping past the last value is refused')
except ParamRangeError:
    pass
is_at(n - 1, 'after a refused step up')
for k in range(n - 2, -1, -1):
    x.p.prev_step()
    is_at(k, 'going down')
try:
    x.p.prev_step()
    __reach__('stepping below the first value is refused')
except ParamRangeError:
    pass
is_at(0, 'after a refused step down')
x.p.last_step()
is_at(n - 1, 'jumping to the end')
x.p.prev_step(); is_at(n - 2, 'down from the end')
x.p.next_step(); is_at(n - 1, 'back to the end')
x.p.first_step()
is_at(0, 'jumping to the start')
x.p.next_step(); is_at(1, 'up from the start')
x.p.prev_step(); is_at(0, 'back to the start')
__check__('shape', x.step_shape() == (n,))
'''


def steps(n, kind, neg=False, rev=False, named=False):
    dom = '' if kind != 'log' else ", dom='%s'" % ('neg' if neg else 'pos')
    asm = '__assume__(lo > hi)' if rev else '__assume__(lo < hi)'
    fn = {'lin': 'linstep', 'step': 'step', 'log': 'logstep'}[kind]
    call = 'x.p.%s(lo=lo, hi=hi, n=n)' % fn if named else 'x.p.%s(lo, hi, n)' % fn
    val = 'lo * (hi / lo)**(k / (n - 1.))' if kind == 'log' else 'lo + k * (hi - lo) / (n - 1.)'
    return Client('%s %d%s%s%s' % (kind, n, ' negative' if neg else '', ' reversed' if rev else '',
                                   ' named' if named else ''), STEP % (n, dom, dom, asm, call, val))


# after any history: every stepping parameter goes through its own values, both ways, independently of the others
EACH = '''
        __check__('stepping parameters in order of request', [h.name for h in x.stepping_params] == acc.order)
        __check__('numbers of steps', x.step_shape() == tuple([acc.steps[n][2] for n in acc.order]))
        if acc.restarted:
            __check__('restart from the first values', x.step_nums() == (0,)*len(acc.order))
        for n in acc.order:
            lo, hi, num, rule = acc.steps[n]
            P = lambda: getattr(x, n)
            others = [m for m in ('p', 'q', 'r') if m != n]
            was = [getattr(x, m) + 0. for m in others]
            __eq__('the value belongs to the index', P(), rule(lo, hi, num, P().step_index()))
            P().first_step()
            for k in range(num):
                __check__('index going up', P().step_index() == k)
                __eq__('value going up', P(), rule(lo, hi, num, k))
                try:
                    P().next_step()
                    __check__('steps up inside', k < num - 1)
                except ParamRangeError:
                    __check__('stepping past the last value is refused', k == num - 1)
            for k in range(num - 1, -1, -1):
                __check__('index going down', P().step_index() == k)
                __eq__('value going down', P(), rule(lo, hi, num, k))
                try:
                    P().prev_step()
                    __check__('steps down inside', k > 0)
                except ParamRangeError:
                    __check__('stepping below the first value is refused', k == 0)
            __eq__('the others stay', [getattr(x, m) + 0. for m in others], was)
        for m in ('p', 'q', 'r'):
            if m not in acc.order:
                __eq__('a parameter that does not step keeps its value', getattr(x, m), acc.rest[m])
'''

def each():
    return [Client('%s, %s ...' % (st, ' or '.join(firsts)), _grids.source(EACH, st, firsts), timeout=200)
            for st in _grids.STARTS for firsts in (_grids.OPS[:5], _grids.OPS[5:11], _grids.OPS[11:])]


P04 = Check('P04', 'stepping from lo to hi in n steps visits exactly the n equally (or geometrically) spaced values '
            'including both ends, upwards and downwards, with the matching index; stepping past an end is refused', each() + [
                steps(n, k) for n in (2, 3, 4) for k in ('lin', 'log')] + [
                steps(3, 'step'), steps(3, 'lin', rev=True), steps(3, 'log', rev=True), steps(3, 'log', neg=True),
                steps(4, 'lin', named=True), steps(4, 'log', named=True)] + [
                Client('range defaults', MODEL + '''
lo = __sym__('lo'); hi = __sym__('hi')
__assume__(lo < hi)
x = X()
x.p = lo
x.p.range(lo, hi)
x.p.linstep(n=3)
__eq__('default start is the range start', x.p, lo)
x.p.next_step(); x.p.next_step()
__eq__('default end is the range end', x.p, hi)
'''), Client('log range defaults', MODEL + '''
lo = __sym__('lo', dom='pos'); hi = __sym__('hi', dom='pos')
__assume__(lo < hi)
x = X()
x.p = lo
x.p.range(lo, hi)
x.p.logstep(n=3)
__eq__('default start is the range start', x.p, lo)
x.p.next_step(); x.p.next_step()
__eq__('default end is the range end', x.p, hi)
'''), Client('default count', MODEL + '''
x = X()
lo = __sym__('lo'); hi = __sym__('hi')
__assume__(lo < hi)
x.p.linstep(lo, hi)
__check__('ten steps by default', x.step_shape() == (10,))
for k in range(1, 10):
    x.p.next_step()
    __eq__('value', x.p, lo + k*(hi - lo)/9.)
'''), Client('default count, other kinds', MODEL + '''
lo = __sym__('lo', dom='pos'); hi = __sym__('hi', dom='pos')
__assume__(lo < hi)
x = X()
x.p.step(lo, hi)
__check__('ten steps by default', x.step_shape() == (10,))
x.p.next_step()
__eq__('value', x.p, lo + (hi - lo)/9.)
x.p.logstep(lo, hi)
__check__('ten steps by default', x.step_shape() == (10,))
for k in range(1, 10):
    x.p.next_step()
    __eq__('value', x.p, lo*(hi/lo)**(k/9.))
'''), Client('steps that are no longer wanted', MODEL + '''
lo = __sym__('lo', dom='pos'); hi = __sym__('hi', dom='pos'); z = __sym__('z')
__assume__(lo < hi)
for how in ('lin', 'log'):
    for then in ('fix', 'freeze', 'assign', 'vary'):
        x = X()
        x.p.linstep(lo, hi, 3) if how == 'lin' else x.p.logstep(lo, hi, 3)
        x.p.next_step()
        if then == 'fix':
            x.p.fix(z)
        elif then == 'assign':
            x.p = z
        elif then == 'vary':
            x.p.vary(z, .1, (z - 1, z + 1))
        else:
            x.p.fix()
        was, st = x.p + 0., x.p.status
        for f in (lambda: x.p.next_step(), lambda: x.p.prev_step(), lambda: x.p.first_step(), lambda: x.p.last_step(), lambda: x.p.step_index()):
            try:
                f()
                __reach__('stepping a parameter that no longer steps is refused')
            except (ParamError, RuntimeError):
                pass
        __eq__('value kept', x.p, was)
        __check__('status kept', x.p.status == st)
'''), Client('zero end', MODEL + '''
hi = __sym__('hi'); z = __sym__('z')
for a, b in ((0., hi), (hi, 0.), (0., 0.)):
    x = X()
    x.p = z
    try:
        x.p.logstep(a, b, 3)
        __reach__('log stepping to or from zero is refused')
    except ValueError:
        pass
    __eq__('value kept', x.p, z)
    __check__('status kept', x.p.status == fixed)
'''), Client('refused steps', MODEL + '''
lo = __sym__('lo', dom='pos'); hi = __sym__('hi', dom='pos')
__assume__(lo < hi)
REQ = (lambda P: P.linstep(), lambda P: P.linstep(lo), lambda P: P.linstep(hi=hi, n=4), lambda P: P.logstep(), lambda P: P.logstep(lo, n=4),
       lambda P: P.logstep(hi=hi), lambda P: P.linstep(1., 2., 1), lambda P: P.step(1., 2., 1), lambda P: P.logstep(-1., 2., 5),
       lambda P: P.logstep(0., 2., 5))
for kind in ('lin', 'log', 'none'):
    for k in range(len(REQ)):
        x = X()
        if kind == 'lin':
            x.p.linstep(lo, hi, 3)
        elif kind == 'log':
            x.p.logstep(lo, hi, 3)
        else:
            x.p = lo
        if kind != 'none':
            x.p.next_step()
        was, st = x.p + 0., x.p.status
        try:
            REQ[k](x.p)
            __reach__('steps without ends, or fewer than two, are refused')
        except Exception:
            pass
        __eq__('value kept', x.p, was)
        __check__('status kept', x.p.status == st)
        if kind != 'none':
            __check__('steps kept', x.step_shape() == (3,) and x.step_nums() == (1,))
            x.p.next_step()
            __eq__('last value kept', x.p, hi)
            x.p.prev_step()
            __eq__('spacing kept', x.p, was)
            x.p.prev_step()
            __eq__('first value kept', x.p, lo)
            x.p.next_step()
            __eq__('spacing kept', x.p, was)
'''), Client('opposite signs', MODEL + '''
x = X()
lo = __sym__('lo', dom='neg'); hi = __sym__('hi', dom='pos')
try:
    x.p.logstep(lo, hi, 3)
    __reach__('log stepping across zero is refused')
except ValueError:
    pass
'''), Client('not stepping', MODEL + '''
x = X()
x.p = 1.
for f in (lambda: x.p.next_step(), lambda: x.p.prev_step(), lambda: x.p.first_step(), lambda: x.p.last_step(), lambda: x.p.step_index()):
    try:
        f()
        __reach__('stepping a parameter that is not stepping is refused')
    except Exception:
        pass
__eq__('value kept', x.p, 1.)
''')]+ [Client('restart when %s' % what, MODEL3 + '''
lo = __sym__('lo', dom='pos'); hi = __sym__('hi', dom='pos'); z = __sym__('z', dom='pos')
__assume__(lo < hi)
for k in range(4):
    x = X()
    x.p.linstep(lo, hi, 2)
    x.q.logstep(lo, hi, 3)
    if %r not in ('a third steps', 'a varying one steps', 'the first is stepped anew', 'the last is stepped anew'):
        x.r.linstep(0., z, 2)
    if %r == 'a varying one steps':
        x.r.vary(z, .1, (-1, z + 1))
    for j in range(k):
        x.next_step()
    %s
    names = [h.name for h in x.stepping_params]
    __check__('all indices are back to zero', x.step_nums() == (0,)*len(names))
    for n in names:
        __eq__('back at the first value: ' + n, getattr(x, n), {'p': lo, 'q': lo, 'r': 0.}[n])
    # and all directions are upwards again
    size = 1
    for m in x.step_shape():
        size = size*m
    for j in range(size - 1):
        before = x.step_nums()
        x.next_step()
        after = x.step_nums()
        __check__('one step of one parameter', sum([abs(a - b) for a, b in zip(before, after)]) == 1)
        if j == 0:
            __check__('the first one steps up first', after[0] == 1)
    __check__('ends where every point has been visited', x.step_nums()[-1] == x.step_shape()[-1] - 1)
    try:
        x.next_step()
        __reach__('stepping past the last point of the grid is refused')
    except StopStepping:
        pass
    __check__('and leads back to the start', x.step_nums() == (0,)*len(names))
''' % (what, what, how)) for what, how in (
    ('a varying one steps', 'x.r.linstep(0., z, 2)'),
    ('a third steps', 'x.r.linstep(0., z, 2)'), ('the first is stepped anew', 'x.p.linstep(lo, 2*hi, 2)'),
    ('the last is stepped anew', 'x.q.logstep(lo, 2*hi, 3)'), ('one is fixed', 'x.r.fix(z)'),
    ('one is assigned', 'x.p = z'), ('one is frozen', 'x.q.fix()'), ('one varies', 'x.q.vary(z, .1, (z - 1, z + 1))'),
    ('asked', 'x.reset_steps()'))],
            thorough=[steps(n, k) for n in (5, 6, 7) for k in ('lin', 'log')])

CHECKS = [P01, P02, P03, P04]
