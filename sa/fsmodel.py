"""Abstract file system (paths are constants in the analysed clients)."""
import ast
from .values import *

CALLS = {}


def call(*names):
    def deco(f):
        for n in names:
            CALLS[n] = f
        return f
    return deco


def fs(it):
    return it.st.get(it.fs)


def key(it, p):
    if isinstance(p, str):
        return p
    if isinstance(p, SStr):
        return ('s',) + p.parts
    if p is None:
        it.exc('TypeError', 'a path cannot be None')
    from .lib import T_giveup
    raise T_giveup('path %r' % (p,))


def exists(it, p):
    return key(it, p) in fs(it).d and fs(it).d[key(it, p)] is not UNDEF


def ex_cond(it, p):
    d = fs(it).d
    k = key(it, p)
    if k not in d:
        return False
    v = d[k]
    if isinstance(v, Alt):
        return it.split(v, lambda x: x is not UNDEF)
    return v is not UNDEF


def put(it, p, v):
    w = it.st.w(it.fs)
    w.d[key(it, p)] = v
    w.keys[key(it, p)] = p
    watch(it)


def rm(it, p):
    w = it.st.w(it.fs)
    w.d[key(it, p)] = UNDEF
    watch(it)


def watch(it):
    """the contents a client asked to keep are in some file after every single operation"""
    for label, v in getattr(it, 'kept', ()):
        for x in fs(it).d.values():
            if x == v or isinstance(x, Alt) and any(y == v for _, y in getattr(x, 'alts', ())):
                break
        else:
            from .client import Result, VIOL, UNDEC, feasible
            ok, w = feasible(it)
            it.results.append(Result(label, VIOL if ok else UNDEC, w, it.where()))


def get(it, p):
    v = fs(it).d.get(key(it, p), UNDEF)

    def f(x):
        if x is UNDEF:
            it.exc('FileNotFoundError', 'No such file')
        return x
    return it.split(v, f) if isinstance(v, Alt) else f(v)


def open_(it, a, k):
    p = a[0]
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    if not isinstance(mode, str):
        from .lib import T_giveup
        raise T_giveup('open mode')
    if 'w' in mode:
        put(it, p, Tup(('file', Tup(()))))
    elif 'x' in mode:
        c = ex_cond(it, p)
        it.branch(c, lambda: it.exc('FileExistsError', 'exists'), lambda: put(it, p, Tup(('file', Tup(())))))
    elif 'a' in mode:
        c = ex_cond(it, p)
        it.branch(c, lambda: None, lambda: put(it, p, Tup(('file', Tup(())))))
    else:
        get(it, p)
    return it.st.alloc(HInst(it.natives['file'].o, {'path': p, 'mode': mode, 'pos': 0, 'closed': False}))


def close(it, f):
    it.st.w(f).d['closed'] = True


def append(it, f, item):
    ob = it.st.get(f)
    p = ob.d['path']
    if ob.d['closed'] is True:
        it.exc('ValueError', 'I/O operation on closed file')
    v = get(it, p)
    put(it, p, Tup(('file', Tup(v.l[1].l + (item,)))))


def file_attr(it, o, ob, name):
    def m(f):
        return (BM(o, Builtin('nl:file.' + name, f)),)
    if name == 'close':
        return m(lambda it, a, k: close(it, a[0]))
    if name == 'write':
        return m(lambda it, a, k: append(it, a[0], Tup(('pickle', a[1].l[1])) if _pickled(a[1]) else Tup(('text', a[1]))))
    if name == 'read':
        return m(x_read)
    if name in ('readlines', 'read', 'readline', '__iter__'):
        return m(lambda it, a, k: Opq(('filedata', key(it, it.st.get(a[0]).d['path']), name, it.st.get(a[0]).d['pos'])))
    if name in ('flush', 'fileno'):
        return m(lambda it, a, k: None)
    if name == '__enter__':
        return m(lambda it, a, k: a[0])
    if name == '__exit__':
        return m(lambda it, a, k: close(it, a[0]))
    if name == 'name':
        return (ob.d['path'],)
    return None


def _pickled(v):
    return isinstance(v, Tup) and len(v.l) == 2 and v.l[0] == 'pickled'


def x_read(it, a, k):
    ob = it.st.get(a[0])
    v = get(it, ob.d['path'])
    items = v.l[1].l if v.l[0] == 'file' else ()
    if len(a) == 1 and ob.d['pos'] == 0 and len(items) == 1 and items[0].l[0] == 'pickle':
        it.st.w(a[0]).d['pos'] = 1
        return Tup(('pickled', items[0].l[1]))
    return Opq(('filedata', key(it, ob.d['path']), 'read', ob.d['pos']))


@call('os.path.exists', 'os.path.isfile', 'os.path.lexists')
def x_exists(it, a, k):
    return ex_cond(it, a[0])


@call('os.path.isdir')
def x_isdir(it, a, k):
    return False


@call('os.access')
def x_access(it, a, k):
    return ex_cond(it, a[0])


@call('os.rename', 'os.replace', 'shutil.move')
def x_rename(it, a, k):
    v = get(it, a[0])
    if key(it, a[0]) == key(it, a[1]):
        return
    put(it, a[1], v)
    rm(it, a[0])


@call('shutil.copy', 'shutil.copyfile', 'shutil.copy2')
def x_copy(it, a, k):
    put(it, a[1], get(it, a[0]))


@call('os.remove', 'os.unlink')
def x_remove(it, a, k):
    get(it, a[0])
    rm(it, a[0])


@call('os.path.splitext')
def x_splitext(it, a, k):
    import os.path
    if isinstance(a[0], str):
        return Tup(os.path.splitext(a[0]))
    p = a[0].parts
    if isinstance(p[-1], str):
        r, e = os.path.splitext('x' + p[-1])
        return Tup((SStr(p[:-1] + (r[1:],)), e))
    return Tup((SStr((('splitext', p, 0),)), SStr((('splitext', p, 1),))))


@call('os.path.join')
def x_join(it, a, k):
    import os.path
    if all(isinstance(x, str) for x in a):
        return os.path.join(*a)
    out = []
    for i, x in enumerate(a):
        if i:
            out.append('/')
        out += [x] if isinstance(x, str) else list(x.parts)
    return SStr(out)


@call('os.path.basename')
def x_base(it, a, k):
    import os.path
    return os.path.basename(a[0]) if isinstance(a[0], str) else SStr((('basename', a[0].parts),))


@call('os.path.dirname')
def x_dir(it, a, k):
    import os.path
    return os.path.dirname(a[0]) if isinstance(a[0], str) else SStr((('dirname', a[0].parts),))


@call('os.getcwd')
def x_cwd(it, a, k):
    return '/cwd'


@call('os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser')
def x_abs(it, a, k):
    return a[0]


def _binary(it, f, need):
    ob = it.st.get(f)
    if isinstance(ob, HInst) and 'mode' in ob.d:
        m = ob.d['mode']
        if need == 'w':
            if not any(c in m for c in 'wax+'):
                it.exc('OSError', 'not writable')
            if 'b' not in m:
                it.exc('TypeError', "write() argument must be str, not bytes")
        else:
            if 'b' not in m:
                it.exc('TypeError', "a bytes-like object is required, not 'str'")


def _picklable(it, v, seen=None):
    """anonymous functions cannot be pickled, nor anything that holds one"""
    seen = set() if seen is None else seen
    if isinstance(v, Fn) and isinstance(v.node, ast.Lambda):
        it.exc('AttributeError', "Can't pickle local object")
    if isinstance(v, Tup):
        for x in v.l:
            _picklable(it, x, seen)
    elif isinstance(v, Ref) and v.o not in seen:
        seen.add(v.o)
        ob = it.st.get(v)
        for x in ob.l if isinstance(ob, HList) else ob.d.values() if isinstance(ob, (HDict, HInst)) else ():
            _picklable(it, x, seen)


@call('pickle.dump', 'cPickle.dump')
def x_dump(it, a, k):
    from .lib import deepcopy
    _binary(it, a[1], 'w')
    _picklable(it, a[0])
    append(it, a[1], Tup(('pickle', deepcopy(it, a[0]))))


@call('pickle.load', 'cPickle.load')
def x_load(it, a, k):
    from .lib import deepcopy
    _binary(it, a[0], 'r')
    ob = it.st.get(a[0])
    v = get(it, ob.d['path'])
    pos = ob.d['pos']
    items = v.l[1].l
    if pos >= len(items):
        it.exc('EOFError', 'Ran out of input')
    it.st.w(a[0]).d['pos'] = pos + 1
    item = items[pos]
    if item.l[0] != 'pickle':
        if isinstance(item.l[1], (str, SStr)):
            it.exc('ValueError', 'not a pickle')
        from .lib import T_giveup
        raise T_giveup('contents of a file')
    return deepcopy(it, item.l[1])


@call('pickle.dumps')
def x_dumps(it, a, k):
    from .lib import deepcopy
    _picklable(it, a[0])
    return Tup(('pickled', deepcopy(it, a[0])))


@call('pickle.loads')
def x_loads(it, a, k):
    from .lib import deepcopy
    if not _pickled(a[0]):
        from .lib import T_giveup
        raise T_giveup('unknown pickle')
    return deepcopy(it, a[0].l[1])


def _npz_name(p):
    if isinstance(p, str):
        return p if p.endswith('.npz') else p + '.npz'
    last = p.parts[-1]
    if isinstance(last, str) and last.endswith('.npz'):
        return p
    return SStr(p.parts + ('.npz',))


@call('numpy.savez', 'numpy.savez_compressed')
def x_savez(it, a, k):
    from .lib import np_array, setitem, deepcopy
    hd = it.st.alloc(HDict())
    for i, v in enumerate(a[1:]):
        k = dict(k)
        k['arr_%d' % i] = v
    for kk, v in k.items():
        setitem(it, hd, kk, it.lift(lambda v: np_array(it, [v], {}), v))
    it.st.w(hd).kind = 'npz'
    if isinstance(a[0], (str, SStr)):
        put(it, _npz_name(a[0]), Tup(('npz', hd)))
    else:
        put(it, it.st.get(a[0]).d['path'], Tup(('npz', hd)))


@call('numpy.load')
def x_npload(it, a, k):
    from .lib import deepcopy
    p = a[0] if isinstance(a[0], (str, SStr)) else it.st.get(a[0]).d['path']
    v = get(it, p)
    if v.l[0] == 'npz':
        return deepcopy(it, v.l[1])
    it.exc('ValueError', 'not an npz file')


@call('tempfile.mkstemp')
def x_mkstemp(it, a, k):
    return Opq(('tmp', next(it.choice)))
