"""C06: the canonical form an object claims is true after every history."""
import itertools as it
import json
import os
import numpy as np
import mpnum as mp
from obs import iso_left, iso_right, clampi, contract
import gen
import ops
from p_C05 import make, FLAV, DT, scale_lt


def run(R, rng, tier, mine):
    k = 0
    # 1. every transition of the model, replayed
    for n in (1, 2, 3, 4, 5):
        path = os.path.join(R.gen, 'cf%d.jsonl' % n)
        if not os.path.exists(path):
            continue
        for line in open(path):
            k += 1
            sd = rng.randint(2**31 - 1)
            if mine(k) and (n < 4 or tier == 'thorough' or sd % 2 == 0):
                sub = np.random.RandomState(sd)
                d = json.loads(line)
                R.run_case('C06:replay', replay, R, sub, d)
    # 2. random exact histories
    for rep in range(3000 if tier == 'thorough' else 300):
        k += 1
        s2 = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            n = s2.randint(1, 7)
            flav = FLAV[s2.randint(len(FLAV))]
            dt = DT[s2.randint(5)]
            R.run_case('C06:walk n=%d %s %s' % (n, flav, dt), walk, R, s2, n, flav, dt)
    for rep in range(200 if tier == 'thorough' else 40):
        k += 1
        s2 = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C06:bad', bad, R, s2)


def unit(rng, shape, kind, cplx):
    t = rng.randn(*shape)
    if cplx:
        t = t + 1j * rng.randn(*shape)
    if kind == 'left':
        q, _ = np.linalg.qr(t.reshape((-1, shape[-1])))
        return q.reshape(shape)
    if kind == 'right':
        q, _ = np.linalg.qr(t.reshape((shape[0], -1)).T)
        return np.ascontiguousarray(q.T).reshape(shape)
    return t


def cfobs(m, vdev, ndev, exc=''):
    lts = [np.asarray(t) for t in m.lt]
    return dict(cf=[int(c) for c in m.canonical_form], rk=[int(x) for x in m.ranks],
                lr=[[int(t.shape[0]), int(t.shape[-1])] for t in lts],
                ld=[iso_left(t) for t in lts], rd=[iso_right(t) for t in lts],
                vdev=vdev, ndev=ndev, exc=exc)


def dev(a, b):
    if a.shape != b.shape:
        return 10 ** 9
    s = max(1.0, np.abs(a).max() if a.size else 1.0)
    return clampi(np.abs(a - b).max() / s * 1e9) if a.size else 0


def value(m):
    return contract([np.asarray(t) for t in m.lt])[0, ..., 0]


def fits(shape, kind):
    """a tensor of this shape can be normalised"""
    if kind == 'left':
        return np.prod(shape[:-1]) >= shape[-1]
    if kind == 'right':
        return np.prod(shape[1:]) >= shape[0]
    return True


def replay(R, rng, d):
    n = d['n']
    cplx = bool(rng.randint(2))
    legs = (2, 2) if rng.randint(3) == 0 else (2,)
    D = 2
    rk = [1] + [D] * (n - 1) + [1]
    m = mp.MPArray([unit(rng, (rk[i],) + legs + (rk[i + 1],), None, cplx) for i in range(n)])
    obs, txt = [], []
    for st in d['path']:
        op = st['op']
        before = value(m)
        want = before
        ndev = 0
        box = {}

        def act():
            x = m
            if op == 'update':
                t = unit(rng, x.lt[st['i']].shape, st['k'], cplx)
                box['lts'] = [np.array(q) for q in x.lt]
                box['lts'][st['i']] = t
                if st['k'] == 'none' and rng.randint(2):
                    x.lt[st['i']] = t
                else:
                    x.lt.update(st['i'], t, canonicalization=None if st['k'] == 'none' else st['k'])
            elif op == 'slice':
                i, j = st['i'], st['j']
                sh = [np.asarray(q).shape for q in x.lt]
                ts = [unit(rng, sh[q], kk, cplx) for q, kk in zip(range(i, j), st['ks'])]
                box['lts'] = [np.array(q) for q in x.lt]
                box['lts'][i:j] = ts
                ks = [None if kk == 'none' else kk for kk in st['ks']]
                form = rng.randint(3)
                sl = [slice(i, j), slice(i - n, j if j == n else j - n), slice(None if i == 0 else i, None if j == n else j)][form]
                if st['single']:
                    if ks[0] is None and rng.randint(2):
                        x.lt[sl] = ts
                    else:
                        x.lt.update(sl, iter(ts) if rng.randint(2) else ts, canonicalization=ks[0])
                else:
                    x.lt.update(sl, ts, canonicalization=tuple(ks))
            elif op == 'mul':
                box['m'] = x * 3
                box['f'] = 3
            elif op == 'imul':
                x *= -2
                box['f'] = -2
            elif op == 'canonicalize':
                x.canonicalize(st['a'], st['b'])
            elif op == 'norm':
                box['norm'] = mp.norm(x)
            elif op == 'compress':
                box['ov'] = x.compress('svd', rank=100, direction=st['d'])
            elif op == 'vleg2leg':
                box['m'] = x.vleg2leg(st['i'])
                box['reshaped'] = True
            elif op == 'leg2vleg':
                box['m'] = x.leg2vleg(st['i'])
                box['reshaped'] = True
            elif op == 'copy':
                box['m'] = x.copy()
            elif op == 'conj':
                box['m'] = x.conj()
                box['conj'] = True
            elif op == 'T':
                box['m'] = x.T
                box['T'] = True
            elif op == 'adj':
                box['m'] = x.adj()
                box['T'] = box['conj'] = True
            elif op == 'reshape':
                sh = x.shape
                box['m'] = x.reshape([tuple(s) + (1,) for s in sh]).reshape(sh)
            else:
                raise KeyError(op)
        _, exc = R.call(act)
        if exc:
            obs.append(cfobs(m, 0, 0, exc))
            txt.append(st)
            break
        m = box.get('m', m)
        if 'lts' in box:
            want = contract(box['lts'])[0, ..., 0]
        if 'f' in box:
            want = before * box['f']
        if box.get('conj'):
            want = want.conj()
        if box.get('T') and len(legs) == 2:
            ax = [a + b for a in range(0, 2 * n, 2) for b in (1, 0)]
            want = want.transpose(ax)
        vd = 0 if box.get('reshaped') else dev(want, value(m))
        if 'norm' in box:
            x = np.linalg.norm(want)
            ndev = clampi(abs(box['norm'] - x) / max(1, x) * 1e9)
        if 'ov' in box:
            x = np.linalg.norm(want) ** 2
            ndev = clampi(abs(box['ov'] - x) / max(1, x) * 1e9)
        obs.append(cfobs(m, vd, ndev))
        txt.append(st)
    # the claim must be usable: the norm computed from it is right
    c = m.copy() if rng.randint(2) else m
    vm = value(m)
    x = np.linalg.norm(vm)
    nr, exc = R.call(lambda: mp.norm(c))
    obs.append(cfobs(c, dev(vm, value(c)), 0 if exc else clampi(abs(nr - x) / max(1, x) * 1e9), exc))
    R.stateless(dict(op='replay', fam='cf', n=n, obs=obs,
                     drift=0 if tuple(obs[-2]['cf']) == (d['l'], d['r']) else 1),
                'path=%s' % (txt,))


def walk(R, rng, n, flav, dt):
    """exact history over many operations; every object is checked after every step"""
    cur = [make(R, rng, n, flav, dt)]
    mag = 1
    for _ in range(14):
        i = cur[rng.randint(len(cur))]
        N = len(R.obj[i])
        k = rng.randint(17)
        if R.open.get(i):
            k = [0, 1, 2, 3, 12][rng.randint(5)]
        new = None
        if k <= 1:
            ops.rand_canon(R, rng, i)
        elif k == 2:
            grow = mag < 16 and bool(rng.randint(2))
            mag *= 1 + grow
            scale_lt(R, i, int(rng.randint(N)), bool(rng.randint(2)), rng, grow)
        elif k == 3:
            new = ops.unary(R, ['copy', 'conj'][rng.randint(2)], i)
        elif k == 4:
            new = ops.unary(R, ['T', 'adj', 'reverse', 'ravel', 'neg'][rng.randint(5)], i)
        elif k == 5 and mag < 16:
            mag *= 2
            ops.imul(R, rng, i, [(2, 0), (-2, 0), (-1, 0)][rng.randint(3)])
        elif k == 6 and mag < 16:
            mag *= 2
            new = ops.mul(R, rng, i, [(2, 0), (-2, 0), (0, 1)][rng.randint(3)])
        elif k == 7:
            ops.norm(R, i)
        elif k == 8:
            compress_exact(R, rng, i)
        elif k == 9:
            svals(R, i)
        elif k == 10 and N > 1:
            new = ops.vleg2leg(R, i, int(rng.randint(N - 1)))
            if new is not None and rng.randint(2):
                new2 = ops.leg2vleg(R, new, R.open[new] - 1)
                if new2 is not None:
                    cur.append(new2)
                    new = None
        elif k == 11 and N > 1:
            p = int(rng.randint(N - 1))
            r = ops.split(R, i, p)
        elif k == 12 and R.open.get(i):
            p = R.open[i] - 1
            if R.obj[i].ranks[p] == 1:
                new = ops.leg2vleg(R, i, p)
        elif k == 13:
            new = ops.reshape(R, i, [tuple(s) + (1,) for s in R.obj[i].shape])
        elif k == 14 and N > 1:
            new = ops.pad_ranks(R, i, int(rng.randint(1, 5)), bool(rng.randint(2)))
        elif k == 15 and mag < 16:
            mag *= 2
            new = ops.add(R, i, i)
        elif k == 16:
            swap_pair(R, rng, i)
        if new is not None:
            cur.append(new)
        if len(cur) > 4:
            R.free([cur.pop(rng.randint(len(cur) - 1))])
    for i in list(cur):
        if not R.open.get(i):
            ops.norm(R, i)
            ops.to_array(R, i)


def compress_exact(R, rng, i):
    N = len(R.obj[i])
    kw = dict(direction=[None, 'left', 'right'][rng.randint(3)])
    if rng.randint(2):
        kw['rank'] = 50
    return R.op('compress_exact', [i], lambda m: m.compress('svd', **kw), out='val', desc='compress(%r)' % (kw,))


def svals(R, i):
    return R.op('svals', [i], lambda m: [np.array(x) for x in m.singularvals()], out='none', desc='singularvals')


def swap_pair(R, rng, i):
    """replace two neighbouring tensors (A, B) by (2A, B/2): same value, nothing canonical"""
    N = len(R.obj[i])
    if N < 2 or all(np.asarray(t).dtype.kind == "i" for t in R.obj[i].lt):
        return
    p = int(rng.randint(N - 1))
    neg = bool(rng.randint(2))

    def f(m):
        a, b = np.array(m.lt[p]) * 2, np.array(m.lt[p + 1]) / 2
        s = slice(p - len(m), p + 2 - len(m) or None) if neg else slice(p, p + 2)
        m.lt[s] = (a, b)
    R.op('imul', [i], f, a=dict(c=[1, 0]), out='none', desc='lt[%d:%d] = (2A, B/2)' % (p, p + 2))


def bad(R, rng):
    """inconsistent updates/constructions are rejected and leave the object alone"""
    n = rng.randint(1, 5)
    sh = gen.rshape(rng, n, legs=(1, 2), dims=(1, 3), maxsize=32)
    t = gen.rmpa(rng, sh, 3, 'f8')
    i = R.new(t)
    ops.prep(R, rng, i)
    for _ in range(4):
        p = int(rng.randint(n))
        lt = np.array(R.obj[i].lt[p])
        ax = rng.randint(2)
        badt = np.concatenate([lt, lt], axis=0 if ax else lt.ndim - 1)
        R.op('bad_update', [i], lambda m: m.lt.update(p, badt), out='none', desc='lt.update with wrong rank')
        R.op('bad_update', [i], lambda m: m.lt.__setitem__(p, badt), out='none', desc='lt[i]= with wrong rank')
        R.op('bad_update', [i], lambda m: m.lt.update(p - n, badt), out='none', desc='lt.update with wrong rank')
        if n > 1:
            q = int(rng.randint(n - 1))
            a, b = np.array(R.obj[i].lt[q]), np.array(R.obj[i].lt[q + 1])
            a2 = np.concatenate([a, a], axis=a.ndim - 1)
            R.op('bad_update', [i], lambda m: m.lt.update(slice(q, q + 2), (a2, b)), out='none', desc='slice update wrong')
            a3 = np.concatenate([a, a], axis=0)
            R.op('bad_update', [i], lambda m: m.lt.update(slice(q, q + 2), (a3, b)), out='none', desc='slice update wrong')
            b3 = np.concatenate([b, b], axis=b.ndim - 1)
            R.op('bad_update', [i], lambda m: m.lt.update(slice(q, q + 2), (a, b3)), out='none', desc='slice update wrong')
            # number of tensors (or of declared forms) does not fit
            new = [np.array(x) for x in R.obj[i].lt[q:n]]
            if new[0].shape[-1] != new[-1].shape[-1]:
                short = [np.ones(new[0].shape[:-1] + (new[-1].shape[-1],))]
                R.op('bad_update', [i], lambda m: m.lt.update(slice(q, n), short), out='none',
                     desc='slice update with too few tensors')
                R.op('bad_update', [i], lambda m: m.lt.__setitem__(slice(q, n), short), out='none',
                     desc='lt[a:b] = too few tensors')
            w = [np.ones(new[0].shape[:-1] + (new[0].shape[-1] + 1,)),
                 np.ones((new[0].shape[-1] + 1,) + new[1].shape[1:])]
            ex = np.ones((w[0].shape[-1], 1, new[0].shape[-1]))
            R.op('bad_update', [i], lambda m: m.lt.update(slice(q, q + 1), [w[0], ex]), out='none',
                 desc='slice update with too many tensors')
            R.op('bad_update', [i], lambda m: m.lt.update(slice(q, q + 2), w, canonicalization=(None,)), out='none',
                 desc='slice update with too few declared forms')
            lts = [np.array(x) for x in t]
            lts[q] = np.concatenate([lts[q], lts[q]], axis=lts[q].ndim - 1)
            R.op('bad_new', [], lambda: mp.MPArray(lts), outopen=0, desc='MPArray(non-matching ranks)')
    ops.to_array(R, i)
    ops.norm(R, i)
