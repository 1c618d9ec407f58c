from sa.report import Check, Client

STEP = '''
from inference.utils.numutils import lin_stepper, lin_enum_stepper, log_stepper, log_enum_stepper
from numpy import exp, log
n = %d
a = __sym__('a'); b = __sym__('b')
want = [a + (b - a)*k/(n - 1) for k in range(n)]
__eq__('linear steps are equally spaced and include both ends', list(lin_stepper(a, b, n)), want)
__eq__('the same for limits in the other order', list(lin_stepper(b, a, n)), want[::-1])
got = list(lin_enum_stepper(a, b, n))
__check__('enumerated linear steps: as many', len(got) == n)
__eq__('indices', [g[0] for g in got], list(range(n)))
__eq__('values', [g[1] for g in got], want)
p = __sym__('p', dom='pos'); q = __sym__('q', dom='pos')
want = [p*exp(log(q/p)*k/(n - 1)) for k in range(n)]
__eq__('logarithmic steps have a constant ratio and include both ends', list(log_stepper(p, q, n)), want)
got = list(log_enum_stepper(p, q, n))
__check__('enumerated logarithmic steps: as many', len(got) == n)
__eq__('indices', [g[0] for g in got], list(range(n)))
__eq__('values', [g[1] for g in got], want)
u = lin_stepper(a, b, n); v = lin_stepper(p, q, n); x = log_stepper(p, q, n)
first = [next(u), next(v), next(x)]
second = [next(u), next(v), next(x)]
__eq__('steppers in use at the same time do not disturb each other', first + second, [a, p, p, a + (b - a)/(n - 1), p + (q - p)/(n - 1), p*exp(log(q/p)/(n - 1))])
for s in (lin_stepper, lin_enum_stepper, log_stepper, log_enum_stepper):
    g = s(1, 3, n)
    got = list(g)
    last = got[-1][1] if s in (lin_enum_stepper, log_enum_stepper) else got[-1]
    __eq__('integer limits are no different', last, 3)
g = list(lin_stepper(0, 1, n))
__eq__('integer limits give fractions', g[1], 1./(n - 1))
'''

SUM = '''
from inference.utils.numutils import LogSummer
from numpy import exp, log, sqrt
n = %d
zero = %r
v = __arr__('v', n)
for k in range(n):
    __assume__(v[k] > -5.); __assume__(v[k] < 5.)
s = LogSummer(%r)
m = 0
for k in range(n):
    if k in zero:
        s.add_zero(); m += 1
    s = s + v[k]; m += 1
S = sum([exp(v[k]) for k in range(n)])
r = s.status()
__eq__('number of values, zeros included', r[0], m)
__eq__('log of the sum', exp(r[1]), S)
__eq__('log of the mean', exp(r[-1] if len(r) == 3 else r[3]), S/m)
if len(r) > 3:
    S2 = sum([exp(2*v[k]) for k in range(n)])
    __eq__('log of the sum of squares', exp(r[2]), S2)
    __eq__('log of the standard deviation', exp(2*r[4]), S2/m - (S/m)**2)
%s
'''
MORE = '''
c = __sym__('c')
__assume__(c > -5.); __assume__(c < 5.)
t = LogSummer()
for k in range(n):
    t += v[n - 1 - k]
__eq__('the order does not matter', exp(t.status()[1]), S)
t = LogSummer(start=(7, c))
t += v[0]
__eq__('an earlier sum is continued: number', t.status()[0], 8)
__eq__('an earlier sum is continued: sum', exp(t.status()[1]), exp(c) + exp(v[0]))
t = LogSummer(); t += 0.; t += c; t += 0.
__eq__('a log of zero is a value like any other', exp(t.status()[1]), 2. + exp(c))
__eq__('and counted', t.status()[0], 3)
t = LogSummer(start=(1, 0.)); t += c
__eq__('an earlier sum of log zero is continued', exp(t.status()[1]), 1. + exp(c))
t = LogSummer(); t += c; t += c
__eq__('equal values', exp(t.status()[1]), 2*exp(c))
t = LogSummer(); u = LogSummer()
t += v[0]; u += v[1]; u += c
__eq__('two sums are independent', exp(t.status()[1]), exp(v[0]))
e = LogSummer()
e.add_zero()
try:
    e.status()
    __reach__('the log of a sum of zeros')
except ValueError:
    pass
'''
FAR = '''
from inference.utils.numutils import LogSummer
a = __sym__('a'); b = __sym__('b')
__assume__(a > b + 100.)
s = LogSummer(); s += a; s += b
__eq__('a negligible term changes nothing', s.status()[1], a)
s = LogSummer(); s += b; s += a
__eq__('a dominating term replaces the sum', s.status()[1], a)
__eq__('both counted', s.status()[0], 2)
'''
ZB = '''
from inference.utils.numutils import zbracket
f = __fun__('f'); a = __sym__('a'); b = __sym__('b')
__assume__(a %(r)s b)
e = __sym__('e', dom='pos')
k = __sym__('k')
args = %(args)s
calls = []
M = %(m)d
class Endless(Exception):
    pass
def g(*z):
    calls.append(z)
    if len(calls) > M + 2:
        __reach__('more attempts than allowed')
        raise Endless()
    return f(*z)
def val(x):
    return f(*((x,) + args)) if args else f(x)
try:
    x, y = zbracket(g, a, b, %(kw)s)
    __check__('the function changes sign over the bracket', val(x)*val(y) < 0)
    if a < b:
        __check__('the bracket contains the initial interval (left)', x <= a)
        __check__('the bracket contains the initial interval (right)', y >= b)
    else:
        __check__('the bracket contains the initial interval (right)', x >= a)
        __check__('the bracket contains the initial interval (left)', y <= b)
except RuntimeError:
    __check__('a failure means there was no sign change at first', val(a)*val(b) >= 0)
    x, y = a, b
    for i in range(M - 1):
        if abs(val(x)) < abs(val(y)):
            x = x + %(e)s*(x - y)
        else:
            y = y + %(e)s*(y - x)
        __check__('a failure means that none of the intervals tried brackets a zero', val(x)*val(y) >= 0)
except Endless:
    pass
for z in calls:
    __check__('the extra arguments are passed on', len(z) == 1 + len(args))
'''
ZB1 = '''
from inference.utils.numutils import zbracket
f = __fun__('f'); a = __sym__('a'); b = __sym__('b'); __assume__(a < b)
__assume__(f(a)*f(b) < 0)
__eq__('a bracket is returned as it is', zbracket(f, a, b), (a, b))
def no(x):
    __reach__('a function value that was supplied is computed again')
__eq__('values supplied are used', zbracket(no, a, b, vals=(f(a), f(b))), (a, b))
try:
    zbracket(f, a, a)
    __reach__('an empty interval accepted')
except ValueError:
    pass
'''

N = (2, 3, 5)
P15 = Check('P15', 'value numbers of every value a stepper yields and of every running log-sum equal the closed forms',
            [Client('%d steps' % n, STEP % n) for n in N] +
            [Client('sum of %d zeros %s%s' % (n, z, ' sd' if d else ''), SUM % (n, z, d, '' if d or n != 2 else MORE), abbrev=30)
             for n, z, d in ((2, (), False), (3, (1,), False), (2, (), True), (3, (0, 2), True))] + [Client('far apart', FAR)],
            thorough=[Client('%d steps' % n, STEP % n) for n in (4, 8, 16)] +
            [Client('sum of %d zeros %s%s' % (n, z, ' sd' if d else ''), SUM % (n, z, d, ''), abbrev=30)
             for n, z, d in ((4, (0, 3), False), (5, (), False), (4, (2,), True))])
zb = [Client('zbracket %d %s%s' % (m, r, ' extra arguments' if ar else ''),
             ZB % dict(m=m, e='e' if 'expand' in ex else '1.6', r=r, args='(k,)' if ar else '()', kw=('args=args, ' if ar else '') + 'maxtries=%d' % m + ex))
      for m in (1, 2, 3) for r in '<>' for ar in (0, 1) for ex in ('', ', vals=(val(a), val(b))', ', expand=e')[:3 if m == 2 else 1]]
P16 = Check('P16', 'on every exit of the bracketing loop the facts imply a sign change over the returned interval, or the failure is reported',
            zb + [Client('already a bracket', ZB1)],
            thorough=[Client('zbracket 4', ZB % dict(m=4, e='1.6', r='<', args='()', kw='maxtries=4'))])
CHECKS = [P15, P16]
