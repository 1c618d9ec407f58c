"""Runs the clients of one property, matches violations against the known findings, writes evidence, sets the exit code."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET, GRACE = 700, 20       # seconds: one quick check; what is left once a violation is known
ROOT = os.environ.get('VERIF_ROOT', '/repo/package')

TRUSTED = [
    'the abstract semantics of Python, numpy, scipy and f2py in /verif/sa (interp, lib, frt, fsmodel)',
    'numbers are exact reals: rounding, overflow and NaN propagation are outside the model',
    'term equality that canonical forms do not settle is decided by random interpretation (one-sided error)',
]


class Check:
    def __init__(self, pid, rule, clients, thorough=(), assumptions=()):
        self.pid, self.rule, self.clients = pid, rule, list(clients)
        self.thorough, self.assumptions = list(thorough), list(assumptions)


class Client:
    def __init__(self, name, src, opaque=None, setup=None, maxsteps=None, timeout=120, analyse=None, abbrev=0, unroll=None, cut=False, partition=()):
        self.abbrev, self.unroll, self.cut, self.partition = abbrev, unroll, cut, partition
        self.name, self.src, self.opaque, self.setup = name, src, opaque, setup
        self.maxsteps, self.timeout, self.analyse = maxsteps, timeout, analyse


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_one(c):
    """-> dict of plain data (crosses a process boundary)"""
    from .client import run_client, Result, UNDEC, HOLDS
    t0 = time.time()
    out = dict(name=c.name, results=[], functions=[], files=[], steps=0, unknown=[])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(c.timeout))
    try:
        if c.analyse is not None:
            res, fns, files, steps = c.analyse()
            out['results'] = [(r.label, r.status, r.why, r.where, r.method) for r in res]
            out['functions'], out['files'], out['steps'] = sorted(fns), sorted(files), steps
        else:
            parts = [] if c.partition else None
            rs, fns, files, n = [], set(), set(), 0
            while True:
                it = run_client(c.name, c.src, opaque=c.opaque() if callable(c.opaque) else c.opaque, setup=c.setup,
                                root=ROOT, maxsteps=c.maxsteps, abbrev=c.abbrev, unroll=c.unroll, cut=c.cut, parts=parts,
                                part_mods=c.partition)
                rs += it.results
                fns |= set(str(x) for x in it.analysed)
                files |= set(it.files)
                n += 1
                out['steps'] += it.steps
                out['unknown'] = sorted(set(out['unknown']) | set(str(x) for x in it.unknown_calls))
                out['results'] = [(r.label, r.status, r.why, r.where, r.method) for r in rs]
                out['functions'], out['files'] = sorted(fns), sorted(files)
                if not parts:
                    break
                parts = parts[:it.part_pos]
                while parts and parts[-1][0] + 1 >= parts[-1][1]:
                    parts.pop()
                if not parts:
                    break
                parts[-1][0] += 1
            if not any(r.label.endswith('client runs to completion') or r.status != HOLDS for r in rs):
                out['results'].append((c.name + ': analysis', UNDEC, 'no path of the client completes', '', ''))
    except Timeout:
        from . import client as _c
        it = _c.CURRENT[0]
        if it is not None:      # what was decided before the time ran out stands
            out['results'] += [('%s: %s' % (c.name, r.label), r.status, r.why, r.where, r.method) for r in it.results if not r.label.startswith(c.name + ': ')]
            out['functions'] = sorted(set(out['functions']) | set(str(x) for x in it.analysed))
            out['files'] = sorted(set(out['files']) | set(it.files))
        out['results'].append((c.name + ': analysis', 'undecided', 'time budget of %d s used up' % c.timeout, '', ''))
    except BaseException as e:
        out['results'].append((c.name + ': analysis', 'undecided', 'analysis error: %s: %s' % (type(e).__name__, e), '',
                               ''))
        out['trace'] = traceback.format_exc()
    finally:
        signal.alarm(0)
    out['wall'] = time.time() - t0
    return out


_CLIENTS = []


def _go(i):
    return run_one(_CLIENTS[i])


def known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh)['findings'] if k['property'] == pid]


def fn_of(where):
    """construct of a location, without the line number"""
    if '(' in where:
        mod = where.split(':')[0]
        return mod + ' ' + where[where.index('('):]
    return where


def run(check, tier='quick', verbose=False, jobs=8):
    global _CLIENTS
    t0 = time.time()
    clients = check.clients + (check.thorough if tier == 'thorough' else [])
    _CLIENTS = clients
    if len(clients) == 1:
        outs = [run_one(c) for c in clients]
    else:
        from . import client  # noqa: F401  (loaded once, before forking)
        ctx = mp.get_context('fork')     # one process per client: symbols and their domains are interned per process
        with ctx.Pool(min(jobs, len(clients)), maxtasksperchild=1) as pool:
            outs, left = [], t0 + (BUDGET if tier == 'quick' else 40 * BUDGET)
            res = pool.imap_unordered(_go, range(len(clients)), chunksize=1)
            kn = known(check.pid)
            try:
                while len(outs) < len(clients):
                    o = res.next(timeout=max(left - time.time(), .01))
                    outs.append(o)
                    if any(r[1] == 'violated' and not any(k['label'] == r[0] for k in kn) for r in o['results']):
                        left = min(left, time.time() + GRACE)      # the verdict is known: do not finish the long ones
            except mp.TimeoutError:
                pool.terminate()
            names = [c.name for c in clients]
            outs.sort(key=lambda o: names.index(o['name']))
            for n in set(names) - set(o['name'] for o in outs):
                outs.append(dict(name=n, results=[(n + ': analysis', 'undecided', 'not analysed: time budget of the check used up', '', '')],
                                 functions=[], files=[], steps=0, unknown=[], wall=0.))
    obligations, discharged, methods = 0, 0, {}
    viol, undec = {}, {}
    files, fns = set(), set()
    for o in outs:
        files |= set(o['files'])
        fns |= set(o['functions'])
        for label, status, why, where, method in o['results']:
            obligations += 1
            if status == 'holds':
                discharged += 1
                methods[method or 'reached'] = methods.get(method or 'reached', 0) + 1
            elif status == 'violated':
                viol.setdefault((label, fn_of(where)), (why, where))
            else:
                undec.setdefault((label, fn_of(where)), (why, where))
        if verbose:
            print('-- %-30s %6.2f s %7d steps %d obligations' % (o['name'], o['wall'], o['steps'], len(o['results'])))
            if o.get('trace'):
                print(o['trace'])
    kn = known(check.pid)
    new, hit = {}, {}
    for (label, fn), (why, where) in viol.items():
        k = next((k for k in kn if k['label'] == label and k.get('where', fn) == fn), None)
        if k is not None:
            hit[k['what']] = why
        else:
            new[(label, fn)] = (why, where)
    for what in hit:
        print('KNOWN-FINDING: property=%s %s' % (check.pid, what))
    for (label, fn), (why, where) in undec.items():
        print('UNDECIDED property=%s %s [%s] %s' % (check.pid, label, where, why))
    print('%s: %d clients, %d repository functions in %d files analysed, %d obligations, %d discharged, %d undecided, '
          '%d violated (%d known)' % (check.pid, len(clients), len(fns), len(files), obligations, discharged,
                                      len(undec), len(viol), len(hit)))
    wall = time.time() - t0
    ev = dict(property=check.pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(
                  explanation='Static analysis of the current source: %s' % check.rule,
                  clients=[o['name'] for o in outs], functions_analysed=sorted(fns), files=sorted(files),
                  obligations=obligations, discharged=discharged, discharged_by=methods,
                  undecided=[dict(label=l, where=w[1], why=w[0]) for (l, f), w in undec.items()],
                  abstract_steps=sum(o['steps'] for o in outs),
                  checker_cmd='python3-vt /verif/run.py %s --tier %s' % (check.pid, tier),
                  trusted_base=TRUSTED),
              assumptions=check.assumptions, wall_s=round(wall, 3), violations=len(new))
    evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, check.pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if new:
        rp = os.path.join(evd, check.pid + '.violation.json')
        srcs = {c.name: c.src for c in clients}
        with open(rp, 'w') as fh:
            json.dump([dict(obligation=l, construct=f, where=w[1], why=w[0],
                            client=srcs.get(l.split(':')[0])) for (l, f), w in new.items()], fh, indent=1)
        for (label, fn), (why, where) in new.items():
            print('  %s [%s] %s' % (label, where, why))
        print('VIOLATION property=%s replay=%s' % (check.pid, rp))
        return 1
    return 0
