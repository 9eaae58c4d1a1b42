"""C16: linear functions of outcomes: values, variances, estimates."""
import numpy as np
import mpnum as mp
from mpnum.povm import MPPovm, MPPovmList
import povm
from obs import enc_int, clampi
from p_C13 import MODES, setup
from p_C15 import elements, draw, want, mess
import p_C15

LIM = 1.2e9


def run(R, rng, tier, mine):
    k = 0
    reps = dict(lfun=(140, 1400), est=(180, 1800), lists=(100, 1000), lfrom=(120, 1200), efrom=(140, 1400), counts=(40, 400))
    for name in ('lfun', 'est', 'lists', 'lfrom', 'efrom', 'counts'):
        for rep in range(reps[name][tier == 'thorough']):
            k += 1
            s = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C16:' + name, globals()[name], R, s)


def small(rng, lim=12, maxc=12, maxD=12, outs=None):
    while True:
        n, ds = setup(rng, 1, 3, 8)
        outs = povm.rand_outs(rng, n)
        if np.prod(outs) > lim:
            continue
        pv = povm.rand_povm(rng, outs, ds, bool(rng.randint(3)), int(rng.randint(2)), maxc=maxc)
        mode = MODES[rng.randint(3)]
        st = povm.St(rng, ds, mode, maxD=maxD)
        if rng.randint(2):
            povm.messup(rng, pv.obj)
        return pv, st, mode


def funs_of(rng, ns, none_ok=True):
    """tables of integer functions and the functions themselves"""
    m = int(np.prod(ns))
    if none_ok and rng.randint(3) == 0:
        return [], None, m
    nf = int(rng.randint(1, 4))
    tabs = [[int(x) for x in rng.randint(-3, 4, size=m)] for _ in range(nf)]

    def mk(t):
        t = np.array(t).reshape(ns)

        def f(s):
            return t[tuple(np.asarray(s).astype(int).T)].astype([float, int][t.ravel()[0] % 2])
        return f
    return tabs, [mk(t) for t in tabs], nf


def scale(v, den):
    v = np.asarray(v, float)
    if not np.isfinite(v).all():
        raise ValueError('not finite')
    v = np.atleast_1d(v).ravel() * den
    r = np.rint(v)
    if (np.abs(r) > 2.1e9).any():
        return [0] * len(r), 10**9
    return [int(x) for x in r], (np.abs(v - r).max() / max(1.0, np.abs(v).max()) * 1e9 if v.size else 0)


def result(res, dval, dvar):
    a, r1 = scale(res[0], dval)
    b, r2 = scale(res[1], dvar)
    return dict(val=a, var=b, res=clampi(max(r1, r2)))


def record(R, e, call, dval, dvar, desc, nan_ok=False, warm=()):
    R.warm(warm, call, 3)
    res, exc = R.call(call)
    nan = False
    if not exc:
        try:
            if nan_ok and np.ndim(res[0]) == 0 and np.isnan(res[0]) and np.isnan(res[1]):
                nan = True
            else:
                e['r'] = result(res, dval, dvar)
        except Exception as err:        # noqa
            exc = 'ObservationFailed:' + type(err).__name__
    e['exc'] = exc
    if nan_ok:
        e['nan'] = nan
    R.stateless(e, desc)
    return None if exc else res


def coeff_of(rng, nf):
    return [] if rng.randint(3) == 0 else [int(x) for x in rng.randint(-3, 4, size=nf)]


def worst(tabs, coeff, m):
    F = np.array(tabs) if tabs else np.eye(m)
    G = np.abs(F) if not coeff else np.abs(np.array(coeff).dot(F))[None]
    return max(1.0, G.max()) ** 2


def lfun(R, rng):
    while True:
        pv, st, mode = small(rng)
        N = pv.c * st.D
        tabs, funs, nf = funs_of(rng, pv.ns)
        co = coeff_of(rng, nf)
        if N * N * worst(tabs, co, nf) < LIM:
            break
    c = np.array(co, float) if co else None
    call = 'auto' if mode != 'pmps' and rng.randint(2) else mode
    e = dict(op='lfun', fam='lfun', povm=[enc_int(t) for t in pv.lts], state=[enc_int(t) for t in st.lts], mode=mode,
             funs=tabs, coeff=co)
    record(R, e, lambda: pv.obj.lfun(c, funs, st.obj, call), N, N * N, 'lfun coeff=%s funs=%s outs=%s' % (co, tabs, pv.outs),
           warm=[(st.mode, st.obj), ('povm', pv.obj)])


def weights_of(rng, N):
    """integer numerators, denominator q, array to pass (or None)"""
    k = rng.randint(4)
    if k == 0:
        return [1] * N, 1, None
    while True:
        w = [int(x) for x in rng.randint(0, 4, size=N)]
        q = 2 if k == 3 else 1
        if sum(w) > q:
            break
    a = np.array(w) if k == 1 else np.array(w, float) / q
    if k == 1 and rng.randint(2):
        a = a.astype(np.uint64 if rng.randint(2) else np.int32)
    return w, q, a


def est(R, rng):
    while True:
        n = int(rng.randint(1, 4)) if rng.randint(5) else int(rng.randint(4, 9))
        outs = povm.rand_outs(rng, n)
        if np.prod(outs) > 12:
            continue
        ns = [o for o in outs if o > 1]
        N = int(rng.randint(2, 14))
        w, q, arr = weights_of(rng, N)
        tabs, funs, nf = funs_of(rng, ns)
        co = coeff_of(rng, nf)
        H = sum(w)
        if H * H * (H - q) * worst(tabs, co, nf) < LIM:
            break
    obj = MPPovm.from_kron([np.array([np.eye(2) / o] * o) for o in outs])
    sam = np.array([[rng.randint(o) for o in ns] for _ in range(N)], np.uint8)
    e = dict(op='estlfun', fam='estlfun', dims=ns, samples=sam.tolist(), w=w, q=q, funs=tabs, coeff=co)
    kw = {} if arr is None and rng.randint(2) else dict(weights=arr)
    c = np.array(co, float) if co else None
    rep = 1         # many samples: all of them rep times, or rep times the weights
    if rng.randint(5) == 0:
        rep = int([300, 33000, 66000][rng.randint(3)] // H) + 1
        if arr is not None:
            kw = dict(weights=arr * arr.dtype.type(rep))
        else:
            sam = np.repeat(sam, rep, axis=0)
    # value: mean of the functions; variance of the mean of n = H rep / q samples
    record(R, e, lambda: obj.est_lfun(c, funs, sam, **kw), H, H * H * (H * rep - q),
           'est_lfun coeff=%s funs=%s outs=%s w=%s/%d*%d' % (co, tabs, outs, w, q, rep),
           warm=[('arr', sam)] + [('arr', x) for x in kw.values() if isinstance(x, np.ndarray)])


def lists(R, rng):
    k = int(rng.randint(1, 4))
    if rng.randint(2):
        while True:
            n, ds = setup(rng, 1, 3, 6)
            pvs = [povm.rand_povm(rng, povm.rand_outs(rng, n, 2), ds, maxc=8) for _ in range(k)]
            mode = MODES[rng.randint(3)]
            st = povm.St(rng, ds, mode, maxD=8)
            den = int(np.lcm.reduce([p.c * st.D for p in pvs]))
            nofun = rng.randint(3) == 0
            fs = [funs_of(rng, p.ns) if not nofun else ([], None, int(np.prod(p.ns))) for p in pvs]
            cs = [[int(x) for x in rng.randint(-2, 3, size=f[2])] for f in fs]
            if den * den * sum(worst(f[0], c, f[2]) for f, c in zip(fs, cs)) < LIM:
                break
        L = MPPovmList([p.obj for p in pvs])
        e = dict(op='listlfun', fam='listlfun', state=[enc_int(t) for t in st.lts], mode=mode, den=den,
                 parts=[dict(povm=[enc_int(t) for t in p.lts], funs=f[0], coeff=c) for p, f, c in zip(pvs, fs, cs)])
        record(R, e, lambda: L.lfun([np.array(c, float) for c in cs], None if nofun else [f[1] for f in fs], st.obj, mode),
               den, den * den, 'MPPovmList.lfun', warm=[(st.mode, st.obj)] + [('povm', q.obj) for q in pvs])
        return
    while True:
        n = int(rng.randint(1, 4)) if rng.randint(5) else int(rng.randint(4, 9))
        outss = [povm.rand_outs(rng, n, 2) for _ in range(k)]
        if max(np.prod(o) for o in outss) > 8:
            continue
        H = int(rng.randint(2, 10))
        weighted = bool(rng.randint(3) == 0)
        parts, call = [], []
        N0 = int(rng.randint(2, 5))
        H = max(H, N0)
        bound = 0
        for outs in outss:
            ns = [o for o in outs if o > 1]
            if weighted:
                N, w = N0, [1] * N0
                while sum(w) < H:
                    w[rng.randint(N)] += 1
            else:
                N, w = H, [1] * H
            tabs, funs, nf = funs_of(rng, ns)
            co = [int(x) for x in rng.randint(-2, 3, size=nf)]
            sam = np.array([[rng.randint(o) for o in ns] for _ in range(N)], np.uint8)
            bound += worst(tabs, co, nf)
            parts.append(dict(dims=ns, samples=sam.tolist(), w=w, funs=tabs, coeff=co))
            call.append((np.array(co, float), funs, sam, np.array(w, float)))
        if H * H * (H - 1) * bound < LIM:
            break
    L = MPPovmList([MPPovm.from_kron([np.array([np.eye(2) / o] * o) for o in outs]) for outs in outss])
    e = dict(op='listest', fam='listest', parts=parts, weighted=weighted)
    kw = dict(weights=[c[3] for c in call]) if weighted else {}
    f = lambda: L.est_lfun([c[0] for c in call], [c[1] for c in call], [c[2] for c in call], **kw)
    desc = 'MPPovmList.est_lfun %s' % ('with weights' if weighted else '')
    if weighted:
        # the same result in the scale it has if the weights were ignored
        res, exc = R.call(f)
        try:
            e['u'] = result(res, N0, N0 * N0 * (N0 - 1)) if not exc else dict(val=[], var=[], res=0)
        except Exception:       # noqa
            e['u'] = dict(val=[], var=[], res=0)
    record(R, e, f, H, H * H * (H - 1), desc)


def basis(rng, d):
    """small-denominator local POVMs"""
    if d == 2:
        X = np.array([[[1, 1], [1, 1]], [[1, -1], [-1, 1]]], complex), 2
        Y = np.array([[[1, -1j], [1j, 1]], [[1, 1j], [-1j, 1]]], complex), 2
        Z = np.array([[[1, 0], [0, 0]], [[0, 0], [0, 1]]], complex), 1
        W = np.array([[[1, 0], [0, 0]], [[1, 0], [0, 2]]], complex), 2
        S = [X, Y, Z, W]
    else:
        Z = np.array([np.diag([1, 0, 0]), np.diag([0, 1, 0]), np.diag([0, 0, 1])]).astype(complex), 1
        B = np.array([np.diag([1, 0, 0]), np.diag([0, 1, 1])]).astype(complex), 1
        S = [Z, B, Z]
    p = rng.permutation(len(S))
    return S[p[0]], S[p[1]]


class Site(p_C15.Site):
    def __init__(self, rng, d):
        self.d = d
        self.A, self.B = basis(rng, d)


def chain(rng):
    n = int(rng.randint(1, 4))
    sites = [Site(rng, 3 if rng.randint(5) == 0 else 2) for _ in range(n)]
    if rng.randint(5) == 0:
        for _ in range(rng.randint(1, 8 - n)):
            sites.insert(rng.randint(len(sites) + 1), p_C15.Scalar(rng))
    return sites


def source(rng, nso):
    while True:
        sites = chain(rng)
        selfs = [p_C15.make(rng, sites, ['1AU', '1ABU', 'AU', '1ABCD'][rng.randint(4)]) for _ in range(rng.randint(1, 3))]
        others = [p_C15.make(rng, sites, ['1AB', 'AB', 'ABU'][rng.randint(3)]) for _ in range(nso)]
        cost = sum(np.prod(s.outs) * np.prod([b if a > 1 else 1 for a, b in zip(s.outs, o.outs)])
                   * np.prod([l.shape[2] for l in s.lts]) ** 2 for s in selfs for o in others)
        if cost < 20000:
            return sites, selfs, others


def matchmax(selfs, others, ws, coeff):
    """denominator of all estimator coefficients and size (harness only)"""
    Q = 1
    G = 0.0
    for s, cf in zip(selfs, coeff):
        A = elements(s)
        D = A.shape[-1]
        A = A.reshape(-1, D, D)
        Bs = []
        for o in others:
            E = elements(o)
            for i, k in enumerate(s.outs):
                if k == 1:
                    E = E.sum(i, keepdims=True)
            Bs.append(E.reshape(-1, D, D))
        for y, a in enumerate(A):
            if cf.ravel()[y] == 0:
                continue
            ta = np.trace(a).real
            W = 0
            hit = []
            for j, B in enumerate(Bs):
                for b in B:
                    tb = np.trace(b).real
                    if ta > 0 and tb > 0 and np.abs(tb * a - ta * b).max() < 1e-9:
                        W += ws[j]
                        hit.append((j, tb, ta))
            for j, tb, ta in hit:
                Q = int(np.lcm(Q, int(round(W * s.c * tb))))
                G += abs(cf.ravel()[y]) * ta / s.c * others[j].c / tb
    return Q, max(G, 1.0)


def coeffs(rng, selfs):
    out = []
    for s in selfs:
        c = rng.randint(-2, 3, size=want(s))
        if rng.randint(2):
            c = c * (rng.randint(2, size=c.shape))
        out.append(np.asarray(c))
    return out


def from_head(fam, selfs, others, coeff, ws, Q):
    return dict(op=fam, fam=fam, selfs=[dict(lts=[enc_int(t) for t in s.lts], c=int(s.c)) for s in selfs],
                others=[dict(lts=[enc_int(t) for t in o.lts], c=int(o.c)) for o in others],
                coeff=[[int(x) for x in c.ravel()] for c in coeff], ws=[int(w) for w in ws], Q=int(Q))


def lfrom(R, rng):
    for _ in range(300):
        sites, selfs, others = source(rng, int(rng.randint(1, 4)))
        coeff = coeffs(rng, selfs)
        kind = rng.randint(3)
        ws = [1] * len(others) if kind == 0 else [int(x) for x in rng.randint(1, 4, size=len(others))]
        if np.prod([s.c for s in selfs] + [o.c for o in others]) > 3000:
            continue
        Q, G = matchmax(selfs, others, ws, coeff)
        st = povm.St(rng, [s.d for s in sites], MODES[rng.randint(3)], maxD=6)
        den = int(np.lcm.reduce([o.c * st.D for o in others]))
        vden = int(np.lcm.reduce([s.c * st.D for s in selfs]))
        if (Q * den * G) ** 2 < LIM:
            break
    else:
        return
    mess(rng, selfs + others)
    e = from_head('lfunfrom', selfs, others, coeff, ws, Q)
    e.update(state=[enc_int(t) for t in st.lts], mode=st.mode, den=den, vden=vden)
    SL, OL = MPPovmList([s.obj for s in selfs]), MPPovmList([o.obj for o in others])
    kw = {} if kind == 0 else dict(other_weights=np.array(ws) if kind == 1 else np.array(ws) / 4.0)
    record(R, e, lambda: SL.lfun_from(OL, [c.astype(float) for c in coeff], st.obj, st.mode, **kw), vden, (Q * den) ** 2,
           'lfun_from selfs=%s others=%s coeff=%s %s' % ([s.outs for s in selfs], [o.outs for o in others],
                                                       [c.tolist() for c in coeff], kw), nan_ok=True,
           warm=[(st.mode, st.obj)] + [('povm', q.obj) for q in selfs + others])


def efrom(R, rng):
    for _ in range(300):
        sites, selfs, others = source(rng, int(rng.randint(1, 4)))
        coeff = coeffs(rng, selfs)
        ws = [int(x) for x in rng.randint(2, 5, size=len(others))] if rng.randint(2) else [int(rng.randint(2, 8))] * len(others)
        Q, G = matchmax(selfs, others, ws, coeff)
        den = int(np.lcm.reduce([n * n * (n - 1) for n in ws]))
        vden = int(np.lcm.reduce(ws))
        if den * (Q * G) ** 2 < LIM:
            break
    else:
        return
    mess(rng, selfs + others)
    sam = [draw(rng, o, n) for o, n in zip(others, ws)]
    e = from_head('estlfunfrom', selfs, others, coeff, ws, Q)
    e.update(den=den, vden=vden, samples=[s.tolist() for s in sam], odims=[want(o) for o in others])
    SL, OL = MPPovmList([s.obj for s in selfs]), MPPovmList([o.obj for o in others])
    record(R, e, lambda: SL.est_lfun_from(OL, [c.astype(float) for c in coeff], sam), vden * Q, den * Q * Q,
           'est_lfun_from selfs=%s others=%s n=%s coeff=%s' % ([s.outs for s in selfs], [o.outs for o in others], ws,
                                                             [c.tolist() for c in coeff]), nan_ok=True,
           warm=[('povm', q.obj) for q in selfs + others] + [('arr', x) for x in sam])


def counts(R, rng):
    """wrong numbers of coefficient lists, function lists or samples"""
    k = int(rng.randint(1, 4))
    n = int(rng.randint(1, 3))
    L = MPPovmList([MPPovm.from_kron([np.array([np.diag([1., 0.]), np.diag([0., 1.])])] * n) for _ in range(k)])
    st = mp.MPArray.from_kron([np.array([0.6, 0.8])] * n)
    f = ['lfun', 'lfunfuns', 'est', 'estfuns', 'estsamples', 'lfunfrom', 'estlfunfrom', 'inner'][rng.randint(8)]
    bad = k + 1 if k == 1 or rng.randint(2) else k - 1
    nc = bad if f in ('lfun', 'est', 'lfunfrom', 'estlfunfrom') else k
    nf = bad if f in ('lfunfuns', 'estfuns') else k
    ns = bad if f == 'estsamples' else k
    m = 2 ** n
    if f in ('lfunfrom', 'estlfunfrom'):
        co = [np.arange(1., m + 1).reshape((2,) * n) for _ in range(nc)]
    else:
        co = [np.arange(1., m + 1 + (f == 'inner')) for _ in range(nc)]
    fu = [[(lambda s, q=q: s[:, 0] * q + 1.) for q in range(m)] for _ in range(nf)]
    sa = [np.array([[rng.randint(2) for _ in range(n)] for _ in range(5)], np.uint8) for _ in range(ns)]
    o = rng.randint(2)
    go = dict(lfun=lambda: L.lfun(co, [fu[0]] * k if o else None, st, 'mps'), lfunfuns=lambda: L.lfun(co, fu, st, 'mps'),
              est=lambda: L.est_lfun(co, [fu[0]] * k if o else None, sa), estfuns=lambda: L.est_lfun(co, fu, sa),
              estsamples=lambda: L.est_lfun(co, fu if o else None, sa), lfunfrom=lambda: L.lfun_from(L, co, st, 'mps'),
              estlfunfrom=lambda: L.est_lfun_from(L, co, sa),
              inner=lambda: L.lfun(co, fu if o else None, st, 'mps'))[f]
    res, exc = R.call(go)
    R.stateless(dict(op='reject', fam='reject', exc=exc), '%s of %d POVMs: %d coefficient lists, %d function lists, %d samples' % (
        f, k, nc, nf, ns))
