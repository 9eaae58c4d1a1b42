"""C19: dense helpers."""
import numpy as np
import scipy.sparse
from scipy.sparse.linalg import aslinearoperator
import mpnum as mp
from mpnum import utils
from mpnum.utils import extmath
from mpnum.utils.pmf import project_nonneg, project_pmf
from obs import enc_int, enc_dense, clampi
import gen
from p_C18 import state_key

named_ndarray = mp.mparray.named_ndarray


def run(R, rng, tier, mine):
    k = 0
    reps = dict(dense=(1600, 16000), named=(260, 2500), proj=(400, 4000), svd=(320, 3000))
    for name in ('dense', 'named', 'proj', 'svd'):
        for rep in range(reps[name][tier == 'thorough']):
            k += 1
            s = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C19:' + name, globals()[name], R, s)


DT = ['f8', 'c16', 'i8', 'f4', 'c8']


def shp(rng, nd, lo=1, hi=4, lim=300):
    while True:
        s = tuple(int(x) for x in rng.randint(lo, hi, size=nd))
        if np.prod(s, dtype=int) <= lim:
            return s


def layout(rng, a):
    """same array in another memory layout"""
    k = rng.randint(4)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1 and a.ndim:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if k == 2 and a.ndim:
        return a[::-1][::-1]
    return a


def dense(R, rng):
    f = ['gtl', 'ltg', 'ptrace', 'matdot', 'mkron', 'block_diag', 'block_diag', 'ptrace'][rng.randint(8)]
    dt = DT[rng.randint(5)]
    e = dict(op=f, fam='densefun', f=f, n=0, l=0, r=0, ax=[], bx=[], back=True)
    desc = f
    if f in ('gtl', 'ltg'):
        n, p = int(rng.randint(1, 4)), int(rng.randint(1, 4))
        l, r = (int(rng.randint(0, 3)), int(rng.randint(0, 3))) if rng.randint(2) else (0, 0)
        if n * p + l + r > 9:
            l = r = 0
        t = gen.tens(rng, shp(rng, n * p + l + r, 1, 4 if n * p + l + r < 6 else 3), dt, -5, 5)
        kw = {}
        if l or rng.randint(2):
            kw['left_skip'] = l
        if r or rng.randint(2):
            kw['right_skip'] = r
        g, h = (utils.global_to_local, utils.local_to_global)[::1 if f == 'gtl' else -1]
        if rng.randint(12) == 0 and n > 1:
            # number of legs does not fit
            t = gen.tens(rng, shp(rng, n * p + l + r + 1), dt)
            e['f'] = 'reject'
        ts = [layout(rng, t)]

        def go():
            x = g(ts[0], n, **kw)
            e['back'] = bool(np.array_equal(h(x, n, **kw), ts[0]))
            return x
        e.update(n=n, l=l, r=r)
        desc = '%s(%s, %d, %s)' % (f, t.shape, n, kw)
    elif f == 'ptrace':
        n = [1, 2, 3, 3, 3, 4, 4, 4][rng.randint(8)]
        while True:
            d = [[1, 2, 2, 2, 3][rng.randint(5)] for _ in range(n)]
            if np.prod(d) <= 24:
                break
        t = gen.tens(rng, tuple(d + d), dt, -5, 5)
        out = sorted(int(x) for x in rng.permutation(n)[:rng.randint(rng.randint(3) > 0, n + 1)])
        arg = [out, tuple(out), np.array(out, int)][rng.randint(3)]
        if rng.randint(15) == 0 and out:
            t = gen.tens(rng, tuple(d + d + [1]), dt)
            e['f'] = 'reject'
        ts = [layout(rng, t)]
        go = lambda: utils.partial_trace(ts[0], arg)     # noqa
        e.update(ax=out)
        desc = 'partial_trace(dims=%s, %s)' % (d, out)
    elif f == 'matdot':
        if rng.randint(2):
            a = gen.tens(rng, shp(rng, rng.randint(1, 4)), dt, -4, 4)
            b = gen.tens(rng, (a.shape[-1],) + shp(rng, rng.randint(0, 3), lim=30), DT[rng.randint(5)], -4, 4)
            ax, bx = [-1], [0]
            go = lambda: utils.matdot(ts[0], ts[1])      # noqa
        else:
            nd = int(rng.randint(2, 5))
            a = gen.tens(rng, shp(rng, nd, lim=100), dt, -4, 4)
            m = int(rng.randint(1, nd + 1))
            ax = [int(x) for x in rng.permutation(nd)[:m]]
            nb = m + int(rng.randint(0, 3))
            sb = [int(x) for x in rng.randint(1, 4, size=nb)]
            bx = [int(x) for x in rng.permutation(nb)[:m]]
            for i, j in zip(ax, bx):
                sb[j] = a.shape[i]
            b = gen.tens(rng, tuple(sb), DT[rng.randint(5)], -4, 4)
            ax = [x - nd if rng.randint(2) else x for x in ax]
            bx = [x - nb if rng.randint(2) else x for x in bx]
            go = lambda: utils.matdot(ts[0], ts[1], axes=(ax, bx))   # noqa
        ts = [layout(rng, a), layout(rng, b)]
        e.update(ax=ax, bx=bx)
        desc = 'matdot(%s, %s, %s)' % (a.shape, b.shape, (ax, bx))
    elif f == 'mkron':
        nd = [2, 2, 1][rng.randint(3)]
        while True:
            ss = [shp(rng, nd) for _ in range(rng.randint(1, 5))]
            if np.prod([np.prod(s) for s in ss]) <= 400:
                break
        ts = [layout(rng, gen.tens(rng, s, DT[rng.randint(5)], -3, 3)) for s in ss]
        go = lambda: utils.mkron(*ts)       # noqa
        desc = 'mkron(%s)' % ss
    else:
        nd = int(rng.randint(1, 5))
        m = int(rng.randint(1, nd + 1))
        ax = [int(x) for x in rng.permutation(nd)[:m]]
        while True:
            base = shp(rng, nd)
            ss = []
            for _ in range(rng.randint(1, 4)):
                s = list(base)
                for i in ax:
                    s[i] = int(rng.randint(1, 4))
                ss.append(tuple(s))
            tot = [sum(s[i] for s in ss) if i in ax else base[i] for i in range(nd)]
            if np.prod(tot) <= 300:
                break
        ts = [layout(rng, gen.tens(rng, s, DT[rng.randint(5)], -4, 4)) for s in ss]
        ax = [x - nd if rng.randint(2) else x for x in ax]
        arg = [tuple(ax), list(ax)][rng.randint(2)]
        if sorted(x % nd for x in ax) == [0, 1] and nd >= 2 and rng.randint(2):
            go = lambda: utils.block_diag(ts)      # noqa
        else:
            go = lambda: utils.block_diag([ts, tuple(ts)][rng.randint(2)], axes=arg)      # noqa
        e.update(ax=ax)
        desc = 'block_diag(%s, axes=%s)' % (ss, ax)
    before = [t.copy() for t in ts]
    res, exc = R.call(go)
    e['ts'] = [enc_int(t) for t in ts]
    e['kept'] = all(np.array_equal(a, b) for a, b in zip(before, ts))
    e['exc'] = exc
    if not exc:
        e['got'], e['exc'] = R.call(lambda: enc_dense(res))
        e['dt'] = np.asarray(res).dtype.str[1:]
        e['wantdt'] = np.result_type(*ts).str[1:]
    R.stateless(e, desc)


NAMES = ['a', 'b', 'c', 'left', 'right', 'phys', 'x1']


def named(R, rng):
    steps, objs, arrs = [], [], []
    cur = []       # names as the harness believes

    def some(n, uniq=True):
        return [NAMES[k] for k in rng.permutation(len(NAMES))[:n]]

    def record(st, f):
        res, exc = R.call(f)
        st['exc'] = exc
        if not exc:
            names = list(res.axisnames)
            order = [names[k] for k in rng.permutation(len(names))]
            got, exc2 = R.call(lambda: enc_dense(res.to_array(tuple(order) if rng.randint(2) else order)))
            st['exc'] = exc2
            st['order'] = order
            if not exc2:
                st['got'] = dict(n=names, t=got)
        objs.append(res if not st['exc'] else None)
        steps.append(st)
    for _ in range(2):
        nd = int(rng.randint(1, 5))
        t = gen.tens(rng, (2,) * nd if rng.randint(2) else shp(rng, nd, 1, 4, 40), DT[rng.randint(5)], -3, 3)
        names = some(nd)
        if rng.randint(12) == 0:
            names[-1] = names[0]
        if rng.randint(15) == 0:
            names = names + ['extra']
        arrs.append((t, t.copy()))
        record(dict(k='make', t=enc_int(t), names=names), lambda: named_ndarray(t, names if rng.randint(2) else tuple(names)))
    for _ in range(rng.randint(1, 4)):
        live = [i for i, o in enumerate(objs) if o is not None]
        if not live:
            break
        i = live[rng.randint(len(live))]
        k = rng.randint(3)
        if k == 0:
            record(dict(k='conj', i=i + 1), lambda: objs[i].conj())
        elif k == 1:
            old = list(objs[i].axisnames)
            m = int(rng.randint(min(1, len(old)), len(old) + 1))
            pairs = [[old[q], NAMES[rng.randint(len(NAMES))]] for q in rng.permutation(len(old))[:m]]
            if len(old) > 1 and rng.randint(3) == 0:
                pairs = [[old[0], old[1]], [old[1], old[0]]]        # exchange
            if rng.randint(12) == 0:
                pairs.append(['unknown', 'y'])
            record(dict(k='rename', i=i + 1, pairs=pairs), lambda: objs[i].rename([tuple(p) for p in pairs]))
        else:
            j = live[rng.randint(len(live))]
            ni, nj = list(objs[i].axisnames), list(objs[j].axisnames)
            si, sj = [np.shape(o.to_array(o.axisnames)) for o in (objs[i], objs[j])]
            pairs = []
            freej = list(range(len(nj)))
            for a in rng.permutation(len(ni)):
                c = [b for b in freej if sj[b] == si[a]]
                if c and rng.randint(4):
                    b = c[rng.randint(len(c))]
                    freej.remove(b)
                    pairs.append([ni[a], nj[b]])
            if np.prod(si) * np.prod(sj) > 3000 or len(ni) + len(nj) - 2 * len(pairs) > 6:
                continue
            record(dict(k='dot', i=i + 1, j=j + 1, pairs=pairs), lambda: objs[i].tensordot(objs[j], [tuple(p) for p in pairs]))
    big = [s for s in steps if not s['exc'] and max(map(abs, s['got']['t']['re'] or [0])) > 1e8]
    if big:
        return
    R.stateless(dict(op='named', fam='named', steps=steps, kept=all(np.array_equal(a, b) for a, b in arrs)),
                'named arrays %s' % [s['k'] for s in steps])


U = 2.0 ** -20
ONE = 1 << 20


def proj(R, rng):
    f = ['nonneg', 'pmf'][rng.randint(2)]
    cplx = bool(rng.randint(2))
    n = int(rng.randint(1, 7)) if rng.randint(3) else 1
    ieps, reps, trunc = int(rng.randint(0, 4)), int(rng.randint(0, 4)), int(rng.randint(0, 3))
    re = rng.randint(0, 2000, size=n)
    k = rng.randint(n)
    if rng.randint(3):
        re[k] = rng.randint(-reps - 1, trunc + 3)
    im = rng.randint(-ieps, ieps + 1, size=n)
    if rng.randint(5) == 0:
        im[rng.randint(n)] = [-1, 1][rng.randint(2)] * (ieps + 1)
    if f == 'pmf':
        j = rng.randint(n)
        kept = int(sum(int(x) for q, x in enumerate(re) if q != j and x > trunc))
        re[j] = ONE - kept + int(rng.randint(-reps - 1, reps + 2)) if rng.randint(4) else rng.randint(0, ONE)
    shape = (n,)
    if n in (4, 6) and rng.randint(2):
        shape = (2, n // 2)
    v = (re * U + 1j * im * U if cplx else re * U).reshape(shape)
    scalar = f == 'nonneg' and n == 1 and rng.randint(2)
    if scalar:
        v = v.ravel()[0]
    v0 = v.copy()
    g = project_nonneg if f == 'nonneg' else project_pmf
    args = (ieps * U, reps * U, trunc * U)
    kw = {}
    if trunc == 0 and rng.randint(2):
        args = args[:2]
    elif rng.randint(2):
        kw, args = dict(zip(('imag_eps', 'real_eps', 'real_trunc'), args)), ()
    res, exc = R.call(lambda: g(v, *args, **kw))
    e = dict(op=f, fam='proj', f=f, re=[int(x) for x in re], im=[int(x) for x in im] if cplx else [],
             ieps=ieps, reps=reps, trunc=trunc, exc=exc)
    if not exc:
        e['real'] = bool(np.asarray(res).dtype.kind == 'f')
        if scalar:
            e['place'] = np.ndim(res) == 0
        elif cplx:
            e['place'] = res is not v and np.array_equal(v, v0) and np.shape(res) == shape
        else:
            e['place'] = res is v
        S = int(sum(int(x) for x in re if x > trunc))
        x = np.asarray(res, float).ravel() * (S if f == 'pmf' else 1 / U)
        e['S'] = S
        e['got'] = [int(q) for q in np.rint(x)]
        e['gres'] = clampi(np.abs(x - np.rint(x)).max() * 1e6)
        e['sumdev'] = clampi(np.abs(np.asarray(res).sum() - 1) * 1e12 - 1) if f == 'pmf' else 0
    R.stateless(e, 'project_%s' % f)


def svd(R, rng):
    f = ['trunc', 'rand', 'rand'][rng.randint(3)]
    dt = ['f8', 'c16', 'f4', 'c8', 'i8'][rng.randint(5)] if f == 'trunc' else ['f8', 'c16'][rng.randint(2)]
    m, n = int(rng.randint(1, 9)), int(rng.randint(1, 9))
    if rng.randint(6) == 0:
        m = int(rng.randint(10, 30))
        if rng.randint(2):
            m, n = n, m
    r = int(rng.randint(1, min(m, n) + 1))
    A = gen.tens(rng, (m, r), dt, -2, 2).dot(gen.tens(rng, (r, n), dt, -2, 2))
    if not np.any(A):
        A[0, 0] = 1
    Ad = A.astype(complex)
    full = np.linalg.svd(Ad, compute_uv=False)
    rk = int((full > full[0] * 1e-9).sum())
    k = int(rng.randint(1, min(m, n) + 3))
    e = dict(op='svd_' + f, fam='svd', f=f, k=k, over=0, rankA=rk, t=enc_int(A), again=True)
    A0 = A.copy()
    g0 = state_key(np.random)
    if f == 'trunc':
        go = lambda: utils.truncated_svd(A, k)      # noqa
        desc = 'truncated_svd(%dx%d rank %d, %d) %s' % (m, n, rk, k, dt)
    else:
        kw = {}
        over = 10
        if rng.randint(2):
            over = int(rng.randint(0, 4))
            kw['n_oversamples'] = over
        e['over'] = over
        if rng.randint(2):
            kw['transpose'] = [True, False, 'auto'][rng.randint(3)]
        if rng.randint(2):
            kw['piter_normalizer'] = ['QR', 'LU', 'auto', 'none'][rng.randint(4)]
            kw['n_iter'] = int(rng.randint(0, 6)) if kw['piter_normalizer'] != 'none' else int(rng.randint(0, 2))
        form = rng.randint(3)
        X = [A, scipy.sparse.csr_matrix(A), aslinearoperator(A)][form]
        seed = int(rng.randint(2**31 - 1))
        go = lambda: utils.randomized_svd(X, k, randstate=np.random.RandomState(seed), **kw)     # noqa
        desc = 'randomized_svd(%s %dx%d rank %d, %d, %s) %s' % (['array', 'sparse', 'operator'][form], m, n, rk, k, kw, dt)
    res, exc = R.call(go)
    e['exc'] = exc
    if not exc:
        def more():
            u, s, v = [np.asarray(x) for x in res]
            sc = full[0]
            w = float((full ** 2).sum())
            d = dict(s=[int(np.rint(x / sc * 1e6)) for x in s], ush=list(u.shape), vsh=list(v.shape),
                     udev=clampi(np.abs(u.conj().T.dot(u) - np.eye(u.shape[1])).max() * (1e9 if dt not in ('f4', 'c8') else 1e7)),
                     vdev=clampi(np.abs(v.dot(v.conj().T) - np.eye(v.shape[0])).max() * (1e9 if dt not in ('f4', 'c8') else 1e7)),
                     err=int(np.rint(np.linalg.norm(Ad - (u * s).dot(v)) ** 2 / w * 1e6)),
                     tail=int(np.rint((full[k:] ** 2).sum() / w * 1e6)),
                     full=[int(np.rint(x / sc * 1e6)) for x in full], tr=int(np.rint(w)),
                     fullsum=int(np.rint((full ** 2).sum() / (np.abs(Ad) ** 2).sum() * 1e6)))
            kept = np.array_equal(A, A0) and (f == 'trunc' or state_key(np.random) == g0)
            if f == 'rand':
                r2 = go()
                d['again'] = all(np.array_equal(a, b) for a, b in zip(res, r2))
            d['kept'] = bool(kept)
            return d
        d, e['exc'] = R.call(more)
        e.update(d or {})
    R.stateless(e, desc)
