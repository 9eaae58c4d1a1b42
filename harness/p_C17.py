"""C17: arrays written to files come back as they were when written."""
import json
import os
import shutil
import tempfile
import h5py
import numpy as np
import mpnum as mp
from mpnum.povm import MPPovm
from obs import observe, digest
import gen
import ops

KIND = [mp.MPArray, ops.SubMPA, MPPovm]


def run(R, rng, tier, mine):
    R.units = True
    k = 0
    for name in ('store4.jsonl', 'storesim.jsonl'):
        scripts = [json.loads(x) for x in open(os.path.join(R.gen, name))]
        rng.shuffle(scripts)
        scripts = scripts[:8000 if tier == 'thorough' else 320]
        for s in scripts:
            k += 1
            sub = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C17:%s' % [(x['k'], x['i'], x['f'], x['g']) for x in s], case, R, sub, s)


def case(R, rng, s):
    tmp = tempfile.mkdtemp(prefix='vf_h5_')
    try:
        script(R, rng, s, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def fresh(R, rng, cls):
    n = int(rng.randint(1, 6)) if rng.randint(8) else 11      # more than ten sites as well
    dt = gen.DTYPES[rng.randint(len(gen.DTYPES))]
    if cls is MPPovm:
        sh = [(int(rng.randint(1, 3)), d, d) for d in rng.randint(1, 3, size=n)] if n < 5 else [(2, 1, 1)] * n
        sh = [tuple(int(x) for x in t) for t in sh]
        if np.prod([np.prod(x) for x in sh]) > 600:
            sh = sh[:2]
    elif n == 11:
        sh = [(2,) if i < 5 else (1,) for i in range(n)]
    else:
        sh = gen.rshape(rng, n)
    i = R.new(gen.rmpa(rng, sh, 3 if n < 6 else 2, dt, lim=500), p=gen.prec(dt), cls=cls)
    if i is not None and rng.randint(2):
        ops.prep(R, rng, i)
    return i


def script(R, rng, s, tmp):
    cls = KIND[rng.randint(3)]
    first = fresh(R, rng, cls)
    if first is None:
        return
    objs = {1: (first, cls)}
    store = {}
    for st in s:
        if st['k'] == 'change':
            i, c = objs[st['i']]
            j = rng.randint(4)
            if j == 0:
                ops.imul(R, rng, i, [(2, 0), (-1, 0), (-2, 0)][rng.randint(3)])
            elif j == 1 and R.obj[i].ndims[0] is not None:
                R.op('svals', [i], lambda m: list(m.singularvals()), out='none') if len(R.obj[i]) > 1 and \
                    np.any(np.asarray(R.obj[i].to_array())) else ops.rand_canon(R, rng, i)
            else:
                ops.rand_canon(R, rng, i)
        elif st['k'] == 'dump':
            i, c = objs[st['i']]
            # another object may be stored as well as the one of the script
            loc = dump(R, rng, i, tmp, st['f'], st['g'])
            if loc is None:
                return
            if st['g'] == 0:
                store = {k: v for k, v in store.items() if k[0] != st['f']}
            store[st['f'], st['g']] = (loc, c)
        else:
            loc, c = store[st['f'], st['g']]
            c2 = c if rng.randint(3) else mp.MPArray
            r = load(R, rng, loc, c2, tmp, st['f'], st['g'])
            if r is None:
                return
            objs[st['i']] = (r, c2)
    for i, c in objs.values():
        ops.to_array(R, i)


def path(tmp, f):
    return os.path.join(tmp, 'data%d.h5' % f if f == 1 else 'other.hdf5')


def dump(R, rng, i, tmp, f, g):
    p = path(tmp, f)
    style = rng.randint(3)

    def go(m):
        if g == 0 and style:
            m.dump(p)
        elif g == 0:
            with h5py.File(p, 'w') as h:
                m.dump(h)
        else:
            with h5py.File(p, 'a') as h:
                if style == 0:
                    m.dump(h.create_group('deep/er/g%d' % g))
                else:
                    m.dump(h.create_group('g%d' % g))
    loc = R.newid()
    m = R.obj[i]
    info = dict(irk=R.ranks(i), icf=[int(c) for c in m.canonical_form], unit=R.unit.get(i, 0), lts=[np.array(t) for t in m.lt],
                dts=[np.asarray(t).dtype for t in m.lt], deep=style == 0 and g > 0, id=loc)
    e = dict(op='dump', a=dict(loc=loc), p=1, outs=[], vals=[], irk=[info['irk']])
    e['in'] = [i]
    _, e['exc'] = R.call(lambda: go(m))
    e['chg'] = R.changes()
    R.events.append(e)
    R.cases.append('%s dump(%s)' % (R.case, 'path' if g == 0 and style else 'group'))
    return None if e['exc'] else info


def load(R, rng, info, cls, tmp, f, g):
    p = path(tmp, f)

    def go():
        if g == 0 and rng.randint(2):
            return cls.load(p)
        with h5py.File(p, 'r') as h:
            return cls.load(h if g == 0 else h[('deep/er/g%d' if info['deep'] else 'g%d') % g])
    e = dict(op='load', a=dict(ty=cls.__name__, same=False), p=1, outs=[], vals=[], irk=[info['irk']], icf=info['icf'], chg=[])
    e['in'] = [info['id']]
    m, e['exc'] = R.call(go)
    r = None
    if not e['exc']:
        try:
            r = R.newid()
            e['outs'] = [observe(m, r, unit=info['unit'])]
            lts = [np.asarray(t) for t in m.lt]
            e['a']['same'] = bool(len(lts) == len(info['lts']) and all(
                a.shape == b.shape and a.dtype == d and np.array_equal(a, b) for a, b, d in zip(lts, info['lts'], info['dts'])))
            R.obj[r] = m
            R.unit[r] = info['unit']
            R.dig[r] = digest(m)
            e['chg'] = R.changes()
        except Exception as err:        # noqa
            e['exc'] = 'ObservationFailed:' + type(err).__name__
            e['outs'] = []
            r = None
    R.events.append(e)
    R.cases.append('%s load' % R.case)
    return r
