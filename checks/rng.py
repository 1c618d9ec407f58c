from sa.report import Check, Client

HEAD = '''
from inference.utils.rng import save_rng, restore_rng
from inference.utils import rng as module
from numpy import random
def draw(n=2):
    return [random.normal(0., 1.) for i in range(n)] + [random.uniform(0., 1.)]
'''
ROUND = '''
draw(%d)
s0 = __rng_state__()
save_rng(%s)
__same__('saving does not disturb the generator', __rng_state__(), s0)
__check__('the state file exists', __fs_exists__('%s'))
a = draw()
b = draw(3)
restore_rng(%s)
__same__('restoring returns to the saved state, pending Gaussian included', __rng_state__(), s0)
__eq__('the draws after the save are repeated', draw(), a)
__eq__('the draws after the save are repeated', draw(3), b)
restore_rng(%s)
__same__('a state can be restored again', __rng_state__(), s0)
__check__('restoring writes nothing', not __fs_exists__('%s.1'))
'''
MISSING = '''
draw(1)
s0 = __rng_state__()
restore_rng(%s)
__same__('without a file the generator goes on', __rng_state__(), s0)
__check__('and its state is saved', __fs_exists__('%s'))
a = draw()
restore_rng(%s)
__same__('and can be restored later', __rng_state__(), s0)
__eq__('and can be restored later', draw(), a)
'''
VERSIONS = '''
F = '%s'
states = []
for i in range(5):
    states.append(__rng_state__())
    if i:
        __fs_unkeep__()
        __fs_keepfile__('the last state is never lost, even if interrupted', F)
        if i > 1:
            __fs_keepfile__('nor the one before', F + '.1')
    save_rng(F)
    draw(i + 1)
    for n, name in ((0, F), (1, F + '.1'), (2, F + '.2')):
        __check__('backups exist as documented', __fs_exists__(name) == (n <= i))
    __check__('at most two backups', not __fs_exists__(F + '.3') and not __fs_exists__(F + '.1.1'))
__fs_unkeep__()
for n, name in ((2, F + '.2'), (0, F), (1, F + '.1')):
    restore_rng(name)
    __same__('each file has the state saved at the time', __rng_state__(), states[4 - n])
'''
GAP = '''
F = 'st'
s = [__rng_state__()]
save_rng(F + '.2'); draw(1); s.append(__rng_state__())
save_rng(F); draw(1); s.append(__rng_state__())
save_rng(F)
restore_rng(F + '.2')
__same__('a second backup is replaced only by the first', __rng_state__(), s[0])
restore_rng(F + '.1')
__same__('the first backup', __rng_state__(), s[1])
restore_rng(F)
__same__('the state', __rng_state__(), s[2])
'''
TWO = '''
s0 = __rng_state__(); save_rng('a'); draw(1)
s1 = __rng_state__(); save_rng('b'); draw(2)
restore_rng('a')
__same__('files are separate', __rng_state__(), s0)
draw(4)
restore_rng('b', False)
__same__('files are separate', __rng_state__(), s1)
restore_rng('a', notify=False)
__same__('files are separate', __rng_state__(), s0)
__check__('the default file is not used', not __fs_exists__('.numpy-rng-state'))
'''
BAD = '''
import pickle
draw(1)
f = open('bad', 'wb')
pickle.dump(('%s', ([1, 2, 3], 5)), f)
f.close()
s0 = __rng_state__()
ok = False
try:
    restore_rng('bad')
except ValueError:
    ok = True
__check__('the state of another generator is refused', ok)
__same__('a refused state changes nothing', __rng_state__(), s0)
__check__('a refused file is not touched', __fs_exists__('bad') and not __fs_exists__('bad.1'))
'''
OLD = '''
# what versions before 1.0 wrote: no pending Gaussian
import pickle
st = random.get_state()
f = open('old', 'wb')
pickle.dump(('MT19937', (st[1], st[2])), f)
f.close()
k, p = st[1], st[2]
draw(2)
restore_rng('old')
st = random.get_state()
__same__('key and position of an older file are restored', [st[1], st[2]], [k, p])
'''
D = '.numpy-rng-state'
N = "'sub/my.rng'"
P22 = Check('P22', 'value numbers of the generator state before saving, after drawing and after restoring; abstract file system for the backups',
            [Client('round trip, %d draws' % n, HEAD + ROUND % (n, '', D, '', 'notify=False', D)) for n in (0, 1, 2)] +
            [Client('round trip, named, %d draws' % n, HEAD + ROUND % (n, N, N[1:-1], N, 'fname=' + N, N[1:-1])) for n in (0, 1)] +
            [Client('missing', HEAD + MISSING % ('', D, '')), Client('missing, named', HEAD + MISSING % (N, N[1:-1], N))] +
            [Client('versions', HEAD + VERSIONS % D), Client('versions, named', HEAD + VERSIONS % N[1:-1]), Client('gap', HEAD + GAP),
             Client('two files', HEAD + TWO), Client('other generator', HEAD + BAD % 'PCG64'), Client('older file', HEAD + OLD)])
CHECKS = [P22]
