"""C15: estimating probabilities of one POVM from samples of others."""
import numpy as np
import mpnum as mp
from mpnum.povm import MPPovm, MPPovmList
import povm
from obs import enc_int, clampi


def run(R, rng, tier, mine):
    k = 0
    reps = dict(match=(160, 1600), single=(280, 2800), several=(140, 1400), balanced=(60, 600), labels=(120, 1200), mixed=(60, 600))
    for name in ('match', 'single', 'several', 'balanced', 'labels', 'mixed'):
        for rep in range(reps[name][tier == 'thorough']):
            k += 1
            s = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C15:' + name, globals()[name], R, s)


def dup(K):
    t = [np.trace(k).real for k in K]
    return any(np.abs(K[i] * t[j] - K[j] * t[i]).max() < 1e-9 for i in range(len(K)) for j in range(i))


def base(rng, d, m):
    """local POVM with non-zero, pairwise independent elements"""
    while True:
        K, c = povm.elems(rng, d, m, bool(rng.randint(2)), 1)
        if c <= 6 and all(np.abs(k).max() > 0 for k in K) and not dup(K):
            return K, c


def union(rng, A, B):
    """both POVMs in one, each with weight 1/2 (or 1/3, 2/3)"""
    (K, c), (M, b) = A, B
    l = np.lcm(c, b)
    w = [(1, 1), (1, 2)][rng.randint(2)]
    E = np.concatenate([K * (l // c) * w[0], M * (l // b) * w[1]])
    p = rng.permutation(len(E))
    return E[p], int(l * sum(w)), p < len(K), w


class Site:
    def __init__(self, rng, d):
        self.d = d
        self.A = base(rng, d, int(rng.randint(2, 4)))
        self.B = base(rng, d, 2)

    def pick(self, rng, kinds):
        k = kinds[rng.randint(len(kinds))]
        if k == '1':
            return np.eye(self.d)[None].astype(complex), 1
        if k == 'A':
            return self.A
        if k == 'B':
            return self.B
        if k == 'P':            # the same elements in another order
            K, c = self.A
            return K[rng.permutation(len(K))], c
        if k == 'U':
            if not hasattr(self, 'U'):
                self.U = union(rng, self.A, self.B)
            return self.U[:2]
        if k == 'C':            # coarser
            K, c = self.A
            return (np.array([K[0], K[1:].sum(0)]), c) if len(K) > 2 else self.A
        if k == 'D':            # one element split in two: linearly dependent elements
            K, c = self.A
            return np.concatenate([K[:1], K[:1], 2 * K[1:]]), 2 * c
        raise ValueError(k)


class Pair:
    """joint (entangled) measurement of two qubits"""

    def __init__(self, rng):
        while True:
            K, c = povm.elems(rng, 4, 4, bool(rng.randint(2)), 1)
            if c <= 6 and all(np.abs(k).max() > 0 for k in K) and not dup(K):
                break
        self.K, self.c = K.reshape(2, 2, 4, 4), c
        self.d = 4

    def pick(self, rng, kinds):
        k = kinds[rng.randint(len(kinds))]
        K, c = self.K, self.c
        if k == '1':
            K, c = np.eye(4)[None, None], 1
        elif k == 'C':
            K = K.sum(0, keepdims=True) if rng.randint(2) else K.sum(1, keepdims=True)
        elif k == 'P':
            K = K[::-1]
        o1, o2 = K.shape[:2]
        M = K.reshape(o1, o2, 2, 2, 2, 2).transpose(0, 2, 4, 1, 3, 5).reshape(o1 * 4, o2 * 4)
        return [np.eye(o1 * 4).reshape(1, o1, 2, 2, -1), M.reshape(o1 * 4, o2, 2, 2, 1)], c


class Scalar:
    """one-dimensional site: nothing to measure, or a coin"""

    def __init__(self, rng):
        self.d, self.coin = 1, rng.randint(6) == 0
        self.w = int(rng.randint(1, 3))

    def pick(self, rng, kinds):
        if kinds[rng.randint(len(kinds))] == '1' or not self.coin:
            return np.ones((1, 1, 1), complex), 1
        return np.array([1, self.w], complex).reshape(2, 1, 1), 1 + self.w


def make(rng, sites, kinds, need=True):
    while True:
        loc = [s.pick(rng, kinds) for s in sites]
        lts = [t for K, c in loc for t in (K if isinstance(K, list) else [K[None, ..., None]])]
        if not need or any(t.shape[1] > 1 for t in lts):
            break
    c = int(np.prod([c for K, c in loc]))
    p = povm.Pv(lts, c, [t.shape[1] for t in lts])
    return p


def mess(rng, pvs):
    for p in pvs:
        if rng.randint(2):
            povm.messup(rng, p.obj)


def elements(pv):
    """dense elements [outcomes flattened] (harness only: scaling, never oracle)"""
    n = len(pv.lts)
    from obs import contract
    t = contract(pv.lts)[0, ..., 0]
    t = t.transpose([3 * i for i in range(n)] + [3 * i + 1 for i in range(n)] + [3 * i + 2 for i in range(n)])
    D = int(np.prod([l.shape[2] for l in pv.lts]))
    return t.reshape(tuple(pv.outs) + (D, D))


def denominators(selfs, others):
    L = 1
    for s in selfs:
        for o in others:
            E = elements(o)
            for i, k in enumerate(s.outs):
                if k == 1:
                    E = E.sum(i, keepdims=True)
            for t in np.rint(np.trace(E, axis1=-2, axis2=-1).real.ravel()):
                if t > 0:
                    L = int(np.lcm(L, int(t)))
    return L


def fits(selfs, others, N, lim=10**9):
    L = denominators(selfs, others)
    cost = 0
    for s in selfs:
        for o in others:
            red = [b if a > 1 else 1 for a, b in zip(s.outs, o.outs)]
            cost += np.prod(s.outs) * np.prod(red) * np.prod([l.shape[2] for l in s.lts]) ** 2
            if N * s.c * L * o.c * 8 > lim:
                return None
    return L if cost < 25000 else None


def want(s):
    return [int(o) for o in s.outs if o > 1]


def head(fam, selfs, others, samples, L, rep=1):
    return dict(op=fam, rep=rep, fam=fam, selfs=[dict(lts=[enc_int(t) for t in s.lts], c=int(s.c)) for s in selfs],
                others=[dict(lts=[enc_int(t) for t in o.lts], c=int(o.c)) for o in others],
                samples=[[[int(x) for x in r] for r in s] for s in samples], L=int(L), want=[want(s) for s in selfs])


def scaled(a, den):
    """array -> integers after scaling, residual, nan flags"""
    a = np.asarray(a, float).ravel()
    nan = np.isnan(a)
    v = np.where(nan, 0, a) * den
    r = np.rint(v)
    res = np.abs(v - r).max() / max(1.0, np.abs(v).max()) if v.size else 0
    if np.abs(r).max() > 2e9:
        return [0] * len(a), 10**9, [bool(x) for x in nan]
    return [int(x) for x in r], clampi(res * 1e9), [bool(x) for x in nan]


def draw(rng, o, N):
    ns = [x for x in o.outs if x > 1]
    k = rng.randint(3)
    if k == 0:
        s = np.array([[rng.randint(x) for x in ns] for _ in range(N)], np.uint8)
    elif k == 1:
        s = np.array([[0 for x in ns] for _ in range(N)], np.uint8)
        s[rng.randint(N)] = [x - 1 for x in ns]
    else:
        few = [[rng.randint(x) for x in ns] for _ in range(2)]
        s = np.array([few[rng.randint(2)] for _ in range(N)], np.uint8)
    return s.reshape(N, len(ns))


def repeat(rng, sams):
    """every sample the same number of times: enough of them to leave the small integer types"""
    rep = 1
    if rng.randint(5) == 0:
        rep = int([300, 33000, 66000][rng.randint(3)] // min(len(s) for s in sams)) + 1
    return rep, [rng.permutation(np.repeat(s, rep, axis=0)) if rep > 1 else s for s in sams]


def chainsites(rng):
    """in some cases a long chain with sites of dimension one in between"""
    sites = fewsites(rng)
    if rng.randint(4) == 0:
        for _ in range(rng.randint(1, 8 - sum(2 if isinstance(s, Pair) else 1 for s in sites))):
            sites.insert(rng.randint(len(sites) + 1), Scalar(rng))
    return sites


def fewsites(rng):
    n = int(rng.randint(1, 4))
    if rng.randint(5) == 0:
        return [[Pair(rng)], [Pair(rng), Site(rng, 2)], [Site(rng, 2), Pair(rng)]][rng.randint(3)]
    while True:
        ds = [int(x) for x in rng.randint(1, 4, size=n)]
        if max(ds) > 1 and np.prod(ds) <= 8:
            break
    return [Site(rng, d) for d in ds] if min(ds) > 1 else [Site(rng, max(d, 2)) for d in ds]


def pairs(rng, kinds1, kinds2, k=1, m=1, N=20):
    for _ in range(200):
        sites = chainsites(rng)
        selfs = [make(rng, sites, kinds1) for _ in range(k)]
        others = [make(rng, sites, kinds2) for _ in range(m)]
        L = fits(selfs, others, N)
        if L:
            mess(rng, selfs + others)
            return selfs, others, L
    raise RuntimeError('no instance')


def match(R, rng):
    selfs, others, L = pairs(rng, '1ABPUCD', '1ABPUCD', N=1)
    s, o = selfs[0], others[0]
    ex = [x for x in ('self', 'other') if rng.randint(3) == 0]
    go = lambda: s.obj.match_elems(o.obj, exclude_dup=tuple(ex)) if ex else s.obj.match_elems(o.obj)
    R.warm([('povm', s.obj), ('povm', o.obj)], go)
    res, exc = R.call(go)
    e = head('match', selfs, others, [], L)
    e.update(exc=exc, exself='self' in ex, exother='other' in ex)
    if not exc:
        mt, pf = res
        pref, r, nan = scaled(pf, s.c * L)
        red = [int(b) for a, b in zip(s.outs, o.outs) if a > 1 and b > 1]
        e.update(match=[bool(x) for x in np.ravel(mt)], pref=pref, res=r, pnan=nan, shape=[int(x) for x in mt.shape])
        e['want'] = [want(s) + red]
        if pf.shape != mt.shape:
            e['shape'] = [-1]
    R.stateless(e, 'match_elems self=%s other=%s %s' % (s.outs, o.outs, ex))


def single(R, rng):
    k = rng.randint(5)
    k1, k2 = [('1AU', 'A'), ('1APU', 'AB'), ('1AU', '1A'), ('1ABPUCD', '1ABPUC'), ('1APUD', 'AD')][k]
    N = int(rng.randint(1, 20))
    selfs, others, L = pairs(rng, k1, k2)
    s, o = selfs[0], others[0]
    sam = draw(rng, o, N)
    rep, big = repeat(rng, [sam])
    go = lambda: s.obj.est_pmf_from(o.obj, big[0])
    R.warm([('povm', s.obj), ('povm', o.obj), ('arr', big[0])], go)
    res, exc = R.call(go)
    e = head('estfrom', selfs, others, [sam], L, rep)
    r = dict(exc=exc)
    if not exc:
        num, rs, nan = scaled(res[0], N * s.c * L)
        r.update(num=num, res=rs, nan=nan, used=int(res[1]), shape=[int(x) for x in np.shape(res[0])])
    e['res'] = [r]
    R.stateless(e, 'est_pmf_from self=%s other=%s N=%d*%d %s' % (s.outs, o.outs, N, rep, exc))


def balanced(R, rng):
    """only part of the samples is of use, in just the right proportion"""
    while True:
        s0 = Site(rng, int(rng.randint(2, 4)))
        s0.pick(rng, 'U')
        E, c, mask, w = s0.U
        K, b = s0.A
        N = int(rng.randint(1, 7)) * sum(w)
        ext = [(), ('l',), ('r',), ('l', 'r')][rng.randint(4)]
        pre, post = [Site(rng, 2) for x in ext if x == 'l'], [Site(rng, 2) for x in ext if x == 'r']
        def chain(loc):
            lts = [t[None, ..., None] for t, _ in loc]
            return povm.Pv(lts, int(np.prod([cc for _, cc in loc])), [t.shape[1] for t in lts])
        s = chain([x.pick(rng, '1') for x in pre] + [(K, b)] + [x.pick(rng, '1') for x in post])
        o = chain([x.pick(rng, '1A') for x in pre] + [(E, c)] + [x.pick(rng, '1A') for x in post])
        L = fits([s], [o], N)
        if L:
            break
    mess(rng, [s, o])
    sam = draw(rng, o, N)
    col = sum(1 for x in o.outs[:len(pre)] if x > 1)
    inA, inB = np.nonzero(mask)[0], np.nonzero(~mask)[0]
    nA = N * w[0] // sum(w)
    v = [int(inA[rng.randint(len(inA))]) if i < nA else int(inB[rng.randint(len(inB))]) for i in range(N)]
    sam[:, col] = [v[i] for i in rng.permutation(N)]
    go = lambda: s.obj.est_pmf_from(o.obj, sam)
    R.warm([('povm', s.obj), ('povm', o.obj), ('arr', sam)], go)
    res, exc = R.call(go)
    e = head('estfrom', [s], [o], [sam], L)
    r = dict(exc=exc)
    if not exc:
        num, rs, nan = scaled(res[0], N * s.c * L)
        r.update(num=num, res=rs, nan=nan, used=int(res[1]), shape=[int(x) for x in np.shape(res[0])])
    e['res'] = [r]
    R.stateless(e, 'est_pmf_from part of the samples self=%s other=%s N=%d %s' % (s.outs, o.outs, N, exc))


def mixed(R, rng):
    """several sources: all samples of some and a part of those of others are of use"""
    while True:
        s0 = Site(rng, int(rng.randint(2, 4)))
        s0.pick(rng, 'U')
        E, c, mask, w = s0.U
        kinds = ['U'] + [['A', 'P', 'U', 'B'][rng.randint(4)] for _ in range(rng.randint(1, 3))]
        kinds = [kinds[i] for i in rng.permutation(len(kinds))]
        K, b = s0.A
        s = povm.Pv([K[None, ..., None]], b, [len(K)])
        others = []
        for k in kinds:
            M, m = s0.pick(rng, k)
            others.append(povm.Pv([M[None, ..., None]], m, [len(M)]))
        L = fits([s], others, 60, 2 * 10**7)
        if L:
            break
    mess(rng, [s] + others)
    inA, inB = np.nonzero(mask)[0], np.nonzero(~mask)[0]
    sam = []
    for k, o in zip(kinds, others):
        N = int(rng.randint(1, 7)) * sum(w)
        x = draw(rng, o, N)
        if k == 'U':
            nA = N * w[0] // sum(w)
            v = [int(inA[rng.randint(len(inA))]) if i < nA else int(inB[rng.randint(len(inB))]) for i in range(N)]
            x[:, 0] = [v[i] for i in rng.permutation(N)]
        sam.append(x)
    OL = MPPovmList([o.obj for o in others])
    if rng.randint(2):
        go = lambda: s.obj.est_pmf_from_mpps(OL, sam)
    else:
        go = lambda: list(MPPovmList([s.obj]).est_pmf_from(OL, sam))[0]
    R.warm([('povm', s.obj)] + [('povm', q.obj) for q in others] + [('arr', x) for x in sam], go)
    res, exc = R.call(go)
    e = head('estpart', [s], others, sam, L)
    r = dict(exc=exc)
    if not exc:
        p, n = res
        num, rs, nan = scaled(p, np.ravel(n) * s.c * L)
        r.update(num=num, nan=nan, w=[int(x) for x in np.ravel(n)], shape=[int(x) for x in np.shape(p)],
                 wshape=[int(x) for x in np.shape(n)])
    e['res'] = [r]
    R.stateless(e, 'est_pmf_from_mpps self=%s others=%s kinds=%s N=%s %s' % (
        s.outs, [o.outs for o in others], kinds, [len(x) for x in sam], exc))


# directions of POVM elements; the specification only sees their numbers
DIRS = [np.array(v, complex) for v in ([1, 0], [0, 1], [1, 1], [1, -1], [1, 1j], [1, -1j], [2, 1], [1, 3j])]
# ... 9 to 16: close to 1 to 8 but different
DIRS += [v / np.linalg.norm(v) + 10.0 ** -(2 + k % 3) * np.array([-v[1], v[0]]).conj() / np.linalg.norm(v) for k, v in enumerate(DIRS)]


def labels(R, rng):
    """elements of very different weights"""
    n = int(rng.randint(1, 6))
    hi = [3, 12, 25, 35][rng.randint(4)]

    def make():
        while True:
            outs = [int(x) for x in rng.randint(1, 4, size=n)]
            if 1 < np.prod(outs) <= 8:
                break
        return [[[int(rng.randint(8)) + 1, int(rng.randint(0, hi))] for _ in range(o)] for o in outs]
    while True:
        s, o = make(), make()
        for i in range(n):      # what is known on fewer sites is not asked here
            if len(s[i]) == 1:
                o[i] = o[i][:1]
            if rng.randint(2):
                near = rng.randint(3) == 0
                o[i] = [[x + 8 if near and x <= 8 and rng.randint(2) else x, int(rng.randint(0, hi))] for x, _ in s[i]][:len(o[i])]
        if any(len(x) > 1 for x in o):
            break

    def obj(p):
        ts = []
        for site in p:
            ts.append(np.array([np.outer(DIRS[l - 1], DIRS[l - 1].conj()) / np.linalg.norm(DIRS[l - 1]) ** 2 * 2.0 ** -e for l, e in site]))
        return MPPovm.from_kron(ts)
    S, O = obj(s), obj(o)
    if rng.randint(2):
        povm.messup(rng, S)
    res, exc = R.call(lambda: S.match_elems(O))
    e = dict(op='match', fam='matchlab', exc=exc, s=s, o=o, match=[], pref=[], res=0)
    if not exc:
        mt, pf = res
        ok = np.ravel(mt).astype(bool)
        pf = np.where(ok & (np.ravel(pf) > 0), np.ravel(pf), 1.0)
        lg = np.log2(pf)
        e.update(match=[bool(x) for x in ok], pref=[int(x) for x in np.rint(lg)], res=clampi(np.abs(lg - np.rint(lg)).max() * 1e9))
    R.stateless(e, 'match_elems of products %s %s' % (s, o))


def several(R, rng):
    k1, k2 = [('1AU', 'AB'), ('1U', 'A'), ('1AU', '1AB'), ('1AU', 'AD')][rng.randint(4)]
    m = int(rng.randint(1, 4))
    k = int(rng.randint(1, 3))
    selfs, others, L = pairs(rng, k1, k2, k, m, N=60)
    sam = [draw(rng, o, int(rng.randint(1, 20))) for o in others]
    rep, big = repeat(rng, sam)
    OL = MPPovmList([o.obj for o in others])
    if k == 1 and rng.randint(2):
        go = lambda: [selfs[0].obj.est_pmf_from_mpps(OL, big)]
    else:
        SL = MPPovmList([s.obj for s in selfs])
        go = lambda: list(SL.est_pmf_from(OL, big))
    R.warm([('povm', q.obj) for q in selfs + others] + [('arr', x) for x in big], go)
    res, exc = R.call(go)
    e = head('estmpps', selfs, others, sam, L, rep)
    e['res'] = []
    for i, s in enumerate(selfs):
        r = dict(exc=exc)
        if not exc:
            p, w = res[i]
            num, rs, nan = scaled(p, np.ravel(w) / rep * s.c * L)
            r.update(num=num, res=rs, nan=nan, w=[int(x) for x in np.ravel(w)], shape=[int(x) for x in np.shape(p)],
                     wshape=[int(x) for x in np.shape(w)])
        e['res'].append(r)
    R.stateless(e, 'est_pmf_from(_mpps) selfs=%s others=%s N=%s*%d %s' % (
        [s.outs for s in selfs], [o.outs for o in others], [len(s) for s in sam], rep, exc))
