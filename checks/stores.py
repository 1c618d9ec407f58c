from sa.report import Check, Client

HEAD = '''
from inference.utils.ioutils import backup, safe_open, ArrayStore, AttrStore, read_column_vectors
from numpy import array
def refused(f, *args, **kwds):
    try:
        f(*args, **kwds)
    except Exception:
        return True
    return False
def absent(store, name):
    try:
        getattr(store, name)
    except AttributeError:
        return True
    return False
def lacks(store, name):
    return not hasattr(store, name)
'''
BACKUP = '''
F, F1, F2 = 'run/res.txt', 'run/res.txt%%', 'run/res.txt%%%%'
old = {}
for nm, there in ((F, %d), (F1, %d), (F2, %d)):
    if there:
        old[nm] = __opaque__(nm)
        __fs_put__(nm, old[nm])
if F in old:
    __fs_keep__('the latest version is never lost, even if interrupted', old[F])
    if F1 in old:
        __fs_keep__('the version before it is never lost, even if interrupted', old[F1])
__fs_put__('run/other', __opaque__('o'))
%s
now = {}
if F in old:
    now[F1] = old[F]
    if F1 in old:
        now[F2] = old[F1]
    elif F2 in old:
        now[F2] = old[F2]
else:
    now = old
for nm in (F1, F2):
    __check__('backups exist as documented: %%s' %% nm, __fs_exists__(nm) == (nm in now))
    if nm in now:
        __same__('backup has the right version: %%s' %% nm, __fs_get__(nm), now[nm])
__check__('nothing else is touched', __fs_exists__('run/other'))
__same__('nothing else is touched', __fs_get__('run/other'), __opaque__('o'))
__check__('no other files appear', not __fs_exists__(F2 + '%%'))
'''
DOB = '''
backup(F)
if F in old:
    __check__('the file was moved', not __fs_exists__(F))
else:
    __check__('no file appears', not __fs_exists__(F))
'''
DOOPEN = '''
f = safe_open(F%s)
__check__('the file is open for writing', not f.closed)
f.write(__opaque__('new'))
f.close()
__same__('the new file has what was written', __fs_get__(F), __opaque__('new'))
__check__('the mode is as asked', f.mode == '%s')
'''
OPENER = '''
got = []
class Fake(object):
    pass
fake = Fake()
def opener(*a, **k):
    got.append((a, k, __fs_exists__(F)))
    __fs_put__(F, __opaque__('new'))
    return fake
f = safe_open(F, False, opener, __opaque__('x'), 3, key=__opaque__('k'))
__check__('the object of the opener is returned', f is fake)
__check__('the opener is called once', len(got) == 1)
a, k, e = got[0]
__check__('the opener gets the name and the other arguments', len(a) == 3 and a[0] == F and a[2] == 3 and list(k.keys()) == ['key'])
__same__('the opener gets the name and the other arguments', [a[1], k['key']], [__opaque__('x'), __opaque__('k')])
__check__('the old version has been moved away first', not e)
'''
TWICE = '''
F = 'res'
v = [__opaque__('v%d' % i) for i in range(6)]
for i in range(6):
    __fs_unkeep__()
    for j in (i - 1, i - 2):
        if j >= 0:
            __fs_keep__('no version is lost before two newer ones exist', v[j])
    f = safe_open(F, 'b')
    f.write(v[i])
    f.close()
    __same__('latest', __fs_get__(F), v[i])
    if i > 0:
        __same__('last but one', __fs_get__(F + '%'), v[i-1])
    else:
        __check__('no backup yet', not __fs_exists__(F + '%'))
    if i > 1:
        __same__('last but two', __fs_get__(F + '%%'), v[i-2])
    else:
        __check__('no second backup yet', not __fs_exists__(F + '%%'))
'''

# one history for both kinds of store: {S} the class, {E} its suffix, {V} how a value is made
STORE = '''
S, E = %(S)s, '%(E)s'
def V(n, k=2):
    return %(V)s
'''
ROUND = STORE + '''
s = S()
__check__('an empty store has no contents', list(s.contents()) == [])
__check__('an empty store has no attributes', absent(s, 'a') and lacks(s, 'a'))
ok = False
try:
    s.save()
except ValueError:
    ok = True
__check__('a store without a name needs one for saving', ok)
__check__('nothing is written when saving is refused', not __fs_exists__('db' + E) and not __fs_exists__('None' + E))
a, b = V('a'), V('b', 3)
s.a = a
s.b = b
__same__('an attribute is what was set', [s.a, s.b], [a, b])
__check__('contents', sorted(s.contents()) == ['a', 'b'])
__check__('nothing is saved before it is asked for', not __fs_exists__('db' + E))
s.save('db')
__check__('the file has the right name', __fs_exists__('db' + E) and not __fs_exists__('db') and not __fs_exists__('db' + E + E))
__check__('no backup of nothing', not __fs_exists__('db' + E + '%%'))
__same__('saving changes no attribute', [s.a, s.b], [a, b])
__check__('contents unchanged by saving', sorted(s.contents()) == ['a', 'b'])
for name in ('db', 'db' + E):
    t = S(name)
    __check__('contents of what was saved', sorted(t.contents()) == ['a', 'b'])
    __eq__('loaded value', t.b, V('b', 3))
    __eq__('loaded value', t.a, V('a'))
    __check__('a loaded value stays the same object', t.a is t.a and t.b is t.b)
    __check__('contents after access', sorted(t.contents()) == ['a', 'b'])
    __check__('missing attributes are reported as such', absent(t, 'c') and absent(t, 'zz') and lacks(t, 'c'))
    __check__('contents after a miss', sorted(t.contents()) == ['a', 'b'])
s2 = S('db')
s.b = V('b2')
__eq__('a loaded store is separate from the one it was saved from', s2.b, V('b', 3))
'''
UPDATE = STORE + '''
s = S()
s.a = V('a'); s.b = V('b', 3); s.c = V('c'); s.d = V('d')
s.save('%(name)s')
t = S('%(open)s')
%(touch)s
t.a = V('a2', 5)
t.e = V('e')
%(post)s
__eq__('a new value replaces the archived one at once', t.a, V('a2', 5))
__check__('contents: each name once', sorted(t.contents()) == ['a', 'b', 'c', 'd', 'e'])
t.save(%(save)s)
W = '%(written)s' + E
__check__('saved where asked', __fs_exists__(W))
u = S(W)
__check__('saved contents', sorted(u.contents()) == ['a', 'b', 'c', 'd', 'e'])
__eq__('new value saved', [u.e, u.a], [V('e'), V('a2', 5)])
__eq__('archived values kept, accessed or not', [u.b, u.c, u.d], [V('b', 3), V('c'), V('d')])
__eq__('the store itself still has them', [t.a, t.b, t.c, t.d, t.e], [V('a2', 5), V('b', 3), V('c'), V('d'), V('e')])
old = 'db' + E
if W == old:
    __check__('the previous version is backed up', __fs_exists__(W + '%%') and not __fs_exists__(W + '%%%%'))
    __fs_copy__(W + '%%', 'prev' + E)
else:
    __check__('nothing to back up', not __fs_exists__(W + '%%') and not __fs_exists__(old + '%%'))
    __fs_copy__(old, 'prev' + E)
p = S('prev')
__check__('previous version unchanged', sorted(p.contents()) == ['a', 'b', 'c', 'd'])
__eq__('previous version unchanged', [p.a, p.b, p.c, p.d], [V('a'), V('b', 3), V('c'), V('d')])
# a second change and save
t.f = V('f'); t.b = V('b3')
t.save(W)
u = S(W)
__check__('second save', sorted(u.contents()) == ['a', 'b', 'c', 'd', 'e', 'f'])
__eq__('second save', [u.a, u.b, u.c, u.d, u.e, u.f], [V('a2', 5), V('b3'), V('c'), V('d'), V('e'), V('f')])
__fs_copy__(W + '%%', 'prev2' + E)
p = S('prev2')
__check__('version before the second save', sorted(p.contents()) == ['a', 'b', 'c', 'd', 'e'])
__eq__('version before the second save', [p.a, p.b], [V('a2', 5), V('b', 3)])
'''
INPLACE = STORE + '''
s = S()
s.a = V('a'); s.b = V('b')
s.save('db')
t = S('db')
x = __sym__('x')
t.b[1] = x
t.save()
u = S('db')
__eq__('values changed in place are saved as they are', u.b, [V('b')[0], x])
__eq__('others unchanged', u.a, V('a'))
s.a[0] = x
s.save('db2')
__eq__('a new value changed in place is saved as it is', S('db2').a, [x, V('a')[1]])
__eq__('earlier files are not affected', S('db').a, V('a'))
'''
CRASH = STORE + '''
s = S()
s.a = V('a')
s.save('db')
t = S('db')
t.b = V('b')
__fs_keepfile__('the version being replaced is never lost, even if interrupted', 'db' + E)
t.save()
__fs_unkeep__()
__fs_keepfile__('the version being replaced is never lost, even if interrupted', 'db' + E)
t.b = V('b2')
t.save()
'''
EMPTY = STORE + '''
s = S()
s.save('nil')
t = S('nil')
__check__('an empty store can be saved and loaded', list(t.contents()) == [] and absent(t, 'a'))
t.a = V('a')
t.save()
u = S('nil.x') if False else S('nil')
__eq__('and added to', u.a, V('a'))
__check__('and added to', list(u.contents()) == ['a'])
__check__('a file that does not exist is refused', refused(S, 'nosuch'))
__check__('and not created', not __fs_exists__('nosuch' + E))
p = S(); q = S()
p.a = V('pa'); q.b = V('qb')
__check__('stores are separate', list(p.contents()) == ['a'] and list(q.contents()) == ['b'] and absent(q, 'a') and absent(p, 'b'))
p.save('two'); q.save('two')
r = S('two')
__check__('the last one saved is what is found', list(r.contents()) == ['b'])
__fs_copy__('two' + E + '%%', 'one' + E)
__eq__('the other is its backup', S('one').a, V('pa'))
'''
ARRONLY = '''
s = ArrayStore()
s.a = array([1., 2.])
for bad in (3, 2.5, [1., 2.], 'x', None, (1., 2.)):
    ok = False
    try:
        s.b = bad
    except ValueError:
        ok = True
    __check__('only arrays can be stored', ok)
    ok = False
    try:
        s.a = bad
    except ValueError:
        ok = True
    __check__('only arrays can be stored', ok)
__check__('a refused value leaves nothing', absent(s, 'b') and list(s.contents()) == ['a'])
__eq__('a refused value changes nothing', s.a, [1., 2.])
s.save('db')
__check__('a refused value is not saved', list(ArrayStore('db').contents()) == ['a'])
'''
ATTRKW = '''
x = __sym__('x')
s = AttrStore(c=42, y=x, d=['a', 'b'])
s.s = 'text'
s.n = None
s.z = {'k': x}
__check__('keywords are attributes', sorted(s.contents()) == ['c', 'd', 'n', 's', 'y', 'z'])
__check__('values', s.c == 42 and s.d == ['a', 'b'] and s.s == 'text' and s.n is None)
s.save('mix')
t = AttrStore('mix', w=7, c=43)
__check__('keywords add to what is loaded', sorted(t.contents()) == ['c', 'd', 'n', 's', 'w', 'y', 'z'])
__check__('keywords supersede what is loaded', t.c == 43 and t.w == 7 and t.d == ['a', 'b'] and t.s == 'text' and t.n is None)
__eq__('loaded values', [t.y, t.z['k']], [x, x])
t.save()
u = AttrStore('mix')
__check__('saved values', u.c == 43 and u.w == 7 and u.d == ['a', 'b'] and u.s == 'text' and u.n is None)
__eq__('saved values', [u.y, u.z['k']], [x, x])
s.d.append('c')
__check__('a loaded value is independent', u.d == ['a', 'b'])
'''
UNSAVED = '''
def failing(s, *a):
    try:
        s.save(*a)
    except Exception:
        return
    __reach__('a value that cannot be saved is reported')
def bad():
    return lambda: 1
x = __arr__('x', 2); y = __arr__('y', 2)
s = AttrStore(a=x)
s.save('db')
t = AttrStore('db')
t.a = y
t.save()
for name in ('db', 'new'):
    for val in (bad(), [1, bad()], {'k': bad()}, (x, bad())):
        u = AttrStore('db')
        u.b = val
        failing(u, name)
        if name == 'new':
            __check__('nothing is left behind', not __fs_exists__('new.pkl'))
        v = AttrStore('db')
        __check__('the saved version stays', list(v.contents()) == ['a'])
        __eq__('the saved version stays', v.a, y)
        __fs_copy__('db.pkl%', 'was.pkl')
        __eq__('and so does its backup', AttrStore('was').a, x)
        __check__('no further backup is made', not __fs_exists__('db.pkl%%'))
u.b = 5
u.save('db')
__check__('afterwards it can be saved', AttrStore('db').b == 5)
'''
COLS = '''
class Lines(object):
    def __init__(self, lines):
        self.lines = lines
        self.pos = 0
    def readline(self):
        if self.pos == len(self.lines):
            return ''
        self.pos += 1
        return self.lines[self.pos - 1]
    def readlines(self):
        r = self.lines[self.pos:]
        self.pos = len(self.lines)
        return r
    def __iter__(self):
        return iter(self.readlines())
    def read(self):
        return ''.join(self.readlines())
f = Lines(['# head\\n', ' 1 2.5  x extra\\n', '3\\t-4e1 y\\n', '  5 6.25 zz'])
f.readline()
seen = []
def conv(s):
    seen.append(s)
    return len(s)
r = read_column_vectors(f, [int, float, conv]%s)
__check__('one vector per column', len(r) == 3)
__check__('one entry per line', [len(x) for x in r] == [3, 3, 3])
__check__('converted values in order of lines', [x for x in r[0]] == [1, 3, 5] and [x for x in r[1]] == [2.5, -40., 6.25] and [x for x in r[2]] == [1, 1, 2])
__check__('each entry is converted once', seen == ['x', 'y', 'zz'])
from numpy import ndarray
__check__('arrays if asked', [isinstance(x, ndarray) for x in r] == [%s]*3)
f = Lines([])
r = read_column_vectors(f, [int, float]%s)
__check__('no lines', [len(x) for x in r] == [0, 0])
f = Lines(['1 2'])
r = read_column_vectors(f, [float]%s)
__check__('a single column', len(r) == 1 and [x for x in r[0]] == [1.])
'''


def clients(tier):
    out = []

    def c(name, src, **kw):
        out.append(Client(name, HEAD + src, **kw))
    for n in range(8):
        ex = (n & 1, n >> 1 & 1, n >> 2 & 1)
        tag = ''.join('-x'[e] for e in ex)
        c('backup ' + tag, BACKUP % (ex + (DOB,)))
        c('safe_open ' + tag, BACKUP % (ex + (DOOPEN % ('', 'w'),)))
        c('opener ' + tag, BACKUP % (ex + (OPENER,)))
    for arg, mode in ((', True', 'wb'), (", 'b'", 'wb'), (', False', 'w'), (', binary=True', 'wb')):
        c('safe_open' + arg, BACKUP % (1, 1, 0, DOOPEN % (arg, mode)))
    c('versions', TWICE)
    c('AttrStore unsaved', UNSAVED)
    kinds = [dict(S='ArrayStore', E='.npz', V='__arr__(n, k)'), dict(S='AttrStore', E='.pkl', V='__arr__(n, k)')]
    for kd in kinds:
        nm = kd['S'] + ' '
        c(nm + 'round trip', ROUND % kd)
        c(nm + 'in place', INPLACE % kd)
        c(nm + 'crash', CRASH % kd)
        c(nm + 'empty', EMPTY % kd)
        for touch, post in (('', ''), ('t.b; t.a', ''), ('t.b', 't.c'), ('t.a; t.b; t.c; t.d', ''), ("absent(t, 'q')", 't.a; t.d; t.contents()')):
            for save, written, open_ in (('', 'db', 'db'), ("'db'", 'db', 'db'), ("'other'", 'other', 'db'), ("'other" + kd['E'] + "'", 'other', 'db' + kd['E']),
                                         ('', 'db', 'db' + kd['E']), ("fname='db" + kd['E'] + "'", 'db', 'db' + kd['E'])):
                for name in ('db', 'db' + kd['E']):
                    if name != open_ and not (touch == 't.b' or tier == 'thorough'):
                        continue
                    c(nm + 'update %s|%s|%s|%s|%s' % (touch, post, name, open_, save),
                      UPDATE % dict(kd, touch=touch, post=post, save=save, written=written, name=name, open=open_))
    c('only arrays', ARRONLY)
    c('attribute keywords', ATTRKW)
    for a, b in (('', 'True'), (', True', 'True'), (', False', 'False'), (', as_arrays=False', 'False')):
        c('columns' + a, COLS % (a, b, a, a))
    return out


P21 = Check('P21', 'abstract file system: which version is under which name after (and, for the kept ones, during) every operation; value numbers of '
            'what a store returns equal what was last assigned, for every way of opening, touching, naming and saving it', clients('quick'),
            thorough=[c for c in clients('thorough') if c.name not in {q.name for q in clients('quick')}])
CHECKS = [P21]
