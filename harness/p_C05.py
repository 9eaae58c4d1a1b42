"""C05: canonicalization: every argument pair from every reachable internal state."""
import itertools as it
import numpy as np
import mpnum as mp
import gen
import ops

DT = ['f8', 'c16', 'f4', 'c8', 'i8']
FLAV = ['plain', 'over', 'defi', 'zero', 'one', 'legs', 'hugeones']


def make(R, rng, n, flav, dt):
    """objects that exercise ranks above the full rank, rank deficiency, zeros, trivial sites"""
    if flav == 'legs':
        sh = gen.rshape(rng, n, legs=(0, 3), dims=(1, 3), maxsize=64)
    elif flav == 'one':
        sh = [((1,), (2,), (1, 1))[rng.randint(3)] for _ in range(n)]
        sh = [s if i < 7 else (1,) for i, s in enumerate(sh)]
        rng.shuffle(sh)
        sh = [tuple(s) for s in sh]
    else:
        sh = gen.rshape(rng, n, legs=(1, 2), dims=(1, 2) if n > 4 else (1, 3), maxsize=64)
    if flav == 'over':
        rk = [1] + [rng.randint(3, 7) for _ in range(n - 1)] + [1]
        t = gen.lts(rng, sh, dt=dt, ranks=rk)
        for _ in range(20):
            if np.abs(gen.val(t)).max() < 5000:
                break
            t = gen.lts(rng, sh, dt=dt, ranks=rk)
        else:
            t = gen.rmpa(rng, sh, 3, dt)
    elif flav == 'defi':
        t = gen.rmpa(rng, sh, 2, dt)
        # duplicated bond directions: rank deficient
        k = rng.randint(0, n)
        t = [np.array(x) for x in t]
        for b in range(n - 1):
            if rng.randint(2):
                t[b] = np.concatenate([t[b], t[b]], axis=-1)
                t[b + 1] = np.concatenate([t[b + 1], 0 * t[b + 1]], axis=0)
    elif flav == 'zero':
        t = gen.rmpa(rng, sh, 3, dt)
        t[rng.randint(n)] *= 0
    else:
        t = gen.rmpa(rng, sh, 3, dt)
    return R.new(t, p=gen.prec(dt))


def args_for(n):
    v = [None, 'afull'] + list(range(-n - 1, n + 2))
    return list(it.product(v, v))


def run(R, rng, tier, mine):
    R.units = True
    nmax = 6 if tier == 'thorough' else 5
    reps = 3 if tier == 'thorough' else 1
    k = 0
    for rep in range(reps):
        for n in range(1, nmax + 1):
            forms = [None] + [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
            for form in forms:
                al = args_for(n)
                sub = np.random.RandomState(rng.randint(2**31 - 1))
                chunk = max(1, len(al) // 4)
                sub.shuffle(al)
                for c in range(0, len(al), chunk):
                    k += 1
                    s2 = np.random.RandomState(sub.randint(2**31 - 1))
                    if mine(k):
                        flav = FLAV[s2.randint(len(FLAV))]
                        dt = DT[s2.randint(5)]
                        R.run_case('C05:n=%d form=%s %s %s' % (n, form, flav, dt), table, R, s2, n, form, flav, dt,
                                   al[c:c + chunk])
    for rep in range(800 if tier == 'thorough' else 150):
        k += 1
        s2 = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            n = s2.randint(1, 8) if rep % 3 else s2.randint(8, 15)
            flav = FLAV[s2.randint(len(FLAV))]
            dt = DT[s2.randint(5)]
            R.run_case('C05:walk n=%d %s %s' % (n, flav, dt), walk, R, s2, n, flav, dt)


def table(R, rng, n, form, flav, dt, args):
    m = make(R, rng, n, flav, dt)
    if form is not None:
        ops.canonicalize(R, m, *form)
    for left, right in args:
        c = ops.unary(R, 'copy', m)
        ops.canonicalize(R, c, left, right, kw=bool(rng.randint(2)))
        R.free([c])


def walk(R, rng, n, flav, dt):
    """sequences of canonicalizations interleaved with other operations on the same object"""
    m = make(R, rng, n, flav, dt)
    al = args_for(n)
    for _ in range(12):
        k = rng.randint(8)
        if k == 0:
            ops.imul(R, rng, m, [(2, 0), (-1, 0), (0, 1)][rng.randint(3)] if dt[0] != 'f' and dt[0] != 'i' else (-1, 0))
        elif k == 1:
            ops.norm(R, m)
        elif k == 2:
            x = ops.unary(R, ['copy', 'conj', 'T'][rng.randint(3)], m)
            R.free([m])
            m = x
        elif k == 3 and n > 1:
            i = rng.randint(n)
            scale_lt(R, m, int(i), rng=rng)
        elif n > 7 and rng.randint(2):
            ops.rand_canon(R, rng, m)
        else:
            ops.canonicalize(R, m, *al[rng.randint(len(al))])
    ops.to_array(R, m)


def scale_lt(R, m, i, neg=False, rng=None, grow=False):
    """m.lt[i] = c * m.lt[i] through the documented update interface"""
    c = -1
    if rng is not None:
        c = [-1, 1j, -1j, 2, -2][rng.randint(5 if grow else 3)]
    if R.obj[m].lt[i].dtype.kind == 'c' or c.imag == 0:
        form = rng.randint(3) if rng is not None else 0
    else:
        form = rng.randint(3)       # the element type of the site changes

    def f(x):
        k = i - len(x) if neg else i
        if form == 0:
            x.lt[k] = c * x.lt[k]
        elif form == 1:
            x.lt.update(k, x.lt[k] * c)
        else:
            x.lt.update(slice(i, i + 1), [c * x.lt[i]])
    return R.op('imul', [m], f, a=dict(c=[int(c.real), int(c.imag)]), out='none', desc='lt[%d] = %s * lt[%d]' % (i, c, i))
