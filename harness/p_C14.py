"""C14: samples follow the probabilities; packing; counting."""
import json
import os
import numpy as np
import mpnum as mp
from mpnum.povm import MPPovm, MPPovmList
import povm
from obs import enc_int, clampi
from p_C13 import MODES, setup, emit, hd


def run(R, rng, tier, mine):
    k = 0
    reps = dict(tree=(260, 2600), stat=(60, 400), pack=(160, 1000), lists=(60, 600), packtype=(80, 800), packbig=(60, 600),
                repro=(40, 300), unnorm=(30, 200))
    for name in ('tree', 'stat', 'pack', 'lists', 'packtype', 'packbig', 'repro', 'unnorm'):
        for rep in range(reps[name][tier == 'thorough']):
            k += 1
            s = np.random.RandomState(rng.randint(2**31 - 1))
            if mine(k):
                R.run_case('C14:' + name, globals()[name], R, s)
    todo = [json.loads(x) for x in open(os.path.join(R.gen, 'sampling.jsonl'))]
    if tier != 'thorough':
        todo = [todo[i] for i in rng.permutation(len(todo))[:200]]
    for t in todo:
        k += 1
        s = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C14:model %s' % t, grouped, R, s, t)


class Ns:
    pass


def grouped(R, rng, t):
    """distributions and group sizes from the model Sampling"""
    dims, w, g = t['dims'], np.array(t['w']).reshape(t['dims']), t['g']
    n = len(dims)
    st, pv = Ns(), Ns()
    st.mode, st.D, st.lts = 'mpdo', int(w.sum()), []
    b = 1
    for i, d in enumerate(dims):
        if i + 1 < n:
            x = np.zeros((b, d, d, b * d), complex)
            for a in range(b):
                for o in range(d):
                    x[a, o, o, a * d + o] = 1
        else:
            x = np.zeros((b, d, d, 1), complex)
            for o in range(d):
                x[:, o, o, 0] = w.reshape(b, d)[:, o]
        st.lts.append(x)
        b *= d
    f = [np.array(x) for x in st.lts]
    f[-1] = f[-1] / st.D
    st.obj = mp.MPArray(f)
    if rng.randint(2):
        povm.messup(rng, st.obj)
    pv.c, pv.ns = 1, [d for d in dims if d > 1]
    pv.lts = [np.array([np.diag(r) for r in np.eye(d)])[None, ..., None].astype(complex) for d in dims]
    pv.obj = MPPovm(pv.lts)
    kw = dict(mode='mpdo', method='cond', n_group=g)
    other = []

    def h():
        try:
            return [distribution(lambda r: pv.obj.sample(r, st.obj, 1, **kw), pv.ns, 1)]
        except Other:
            other.append(1)
            return [np.zeros(())]
    res, exc = R.call(h)
    if not other:
        emit(R, [pv], st, [[1, 0, n]], (lambda: res) if not exc else (lambda: 1 / 0), 'sample %s weights %s %s' % (kw, t['w'], exc),
             den=[st.D])


class Other(Exception):
    """randomness was drawn in another way"""


class Script(np.random.RandomState):
    """random source that follows a script of decisions; records their probabilities"""

    def start(self, script):
        self.script, self.pos, self.prob, self.width = script, 0, 1.0, []
        return self

    def decide(self, p):
        p = np.asarray(p, float).ravel()
        if (p < 0).any() or not abs(p.sum() - 1) < 1e-8:
            raise ValueError('probabilities do not sum to one')
        if self.pos == len(self.script):
            self.script.append(0)
            self.width.append(len(p))
        else:
            self.width.append(len(p))
        k = self.script[self.pos]
        self.pos += 1
        self.prob *= p[k]
        if p[k] <= 1e-12:       # all probabilities that are not zero are much larger: rounding
            raise Impossible()
        return k

    def choice(self, a, size=None, replace=True, p=None):
        if np.ndim(a) == 0:
            a = np.arange(int(a))
        a = np.asarray(a)
        p = np.full(len(a), 1.0 / len(a)) if p is None else np.array(list(p), float)
        if size is None:
            return a[self.decide(p)]
        return np.array([a[self.decide(p)] for _ in range(int(np.prod(size)))]).reshape(size)

    def _no(self, *args, **kw):
        raise Other()

    multinomial = random_sample = rand = randint = uniform = random = permutation = _no
    tomaxint = bytes = random_integers = shuffle = standard_exponential = exponential = _no


class Impossible(BaseException):
    pass


def distribution(f, ns, copies, limit=3000):
    """joint distribution of the samples: all decision sequences are tried"""
    joint = np.zeros([d for _ in range(copies) for d in ns])
    script = []
    rng = Script(0)
    runs = 0
    while True:
        rng.start(script)
        try:
            s = f(rng)
            if s.shape != (copies, len(ns)):
                raise ValueError('shape of samples %s' % (s.shape,))
            if s.dtype != np.uint8:
                raise ValueError('type of samples')
            joint[tuple(int(x) for x in s.ravel())] += rng.prob
        except Impossible:
            pass
        runs += 1
        if runs > limit:
            raise Other()
        script = script[:rng.pos]
        while script and script[-1] + 1 >= rng.width[len(script) - 1]:
            script.pop()
        if not script:
            return joint
        script[-1] += 1


def pick(rng, maxjoint, n=None, lim=8):
    while True:
        n, ds = setup(rng, 1, 4, lim)
        outs = povm.rand_outs(rng, n)
        if np.prod(outs) <= maxjoint:
            break
    pv = povm.rand_povm(rng, outs, ds, bool(rng.randint(4)), int(rng.randint(2)), maxc=150)
    mode = MODES[rng.randint(3)]
    st = povm.St(rng, ds, mode, bool(rng.randint(4)), maxD=40)
    if rng.randint(2):
        povm.messup(rng, pv.obj)
    return n, ds, outs, pv, mode, st


def tree(R, rng):
    copies = 1 + (rng.randint(4) == 0)
    n, ds, outs, pv, mode, st = pick(rng, 24 if copies == 1 else 6)
    while copies == 2 and (pv.c * st.D) ** 2 > 10**9:
        n, ds, outs, pv, mode, st = pick(rng, 6)
    if rng.randint(2):
        povm.messup(rng, st.obj)
    call = 'auto' if mode != 'pmps' and rng.randint(2) else mode
    kw = dict(mode=call)
    if rng.randint(3):
        kw['method'] = 'cond'
        if rng.randint(2):
            kw['n_group'] = int(rng.randint(1, n + 2))
    else:
        kw['method'] = 'direct'
    packed = rng.randint(5) == 0

    def f(r):
        if packed:
            return pv.obj.unpack_samples(pv.obj.sample(r, st.obj, copies, pack=True, **kw))
        return pv.obj.sample(r, st.obj, copies, **kw)
    other = []

    def g():
        try:
            return [distribution(f, pv.ns, copies)]
        except Other:
            other.append(1)
            return [np.zeros(())]
    R.warm([(st.mode, st.obj), ('povm', pv.obj)], g, 3)
    if other:
        return
    res, exc = R.call(g)
    if other:
        return
    emit(R, [pv], st, [[1, 0, n]], (lambda: res) if not exc else (lambda: 1 / 0),
         'sample %s outs=%s dims=%s copies=%d %s' % (kw, outs, ds, copies, exc), den=[(pv.c * st.D) ** copies], copies=copies)


def stat(R, rng):
    n, ds, outs, pv, mode, st = pick(rng, 30)
    N = int([300, 300, 1100, 2400][rng.randint(4)])
    method = ['cond', 'direct', 'direct'][rng.randint(3)]
    if method == 'cond':
        N = 80
    kw = dict(method=method, mode=mode, n_group=int(rng.randint(1, 3)))
    r = np.random.RandomState(rng.randint(2**31 - 1))

    def f():
        s = pv.obj.sample(r, st.obj, N, **kw)
        if s.shape != (N, len(pv.ns)):
            raise ValueError('shape')
        cnt = np.zeros(pv.ns, int)
        for row in s:
            cnt[tuple(int(x) for x in row)] += 1
        return cnt
    res, exc = R.call(f)
    desc = 'sample(%d) %s outs=%s dims=%s' % (N, kw, outs, ds)
    if exc:
        R.stateless(dict(op='stat', fam='stat', exc=exc), desc)
        return
    R.stateless(dict(op='stat', fam='stat', exc='', povms=[[enc_int(t) for t in pv.lts]], state=[enc_int(t) for t in st.lts],
                     mode=mode, n=N, counts=[int(x) for x in res.ravel()]), desc)


def repro(R, rng):
    """samples are determined by the random state that is passed"""
    n, ds, outs, pv, mode, st = pick(rng, 30)
    method = ['cond', 'direct', 'direct'][rng.randint(3)]
    N = int(rng.randint(1, 20)) if method == 'cond' else int([5, 200, 1500, 3000][rng.randint(4)])
    kw = dict(method=method, mode=mode, n_group=int(rng.randint(1, 3)))
    seed = int(rng.randint(2**31 - 1))
    L = rng.randint(3) == 0

    def f():
        out = []
        for k in range(2):
            np.random.seed(k)
            g0 = np.random.get_state()[1].copy()
            r = np.random.RandomState(seed)
            if L:
                s = [np.array(x) for x in MPPovmList([pv.obj, pv.obj]).sample(r, st.obj, N, **kw)]
                out.append(np.concatenate(s))
            else:
                out.append(pv.obj.sample(r, st.obj, N, **kw))
            if (np.random.get_state()[1] != g0).any():
                return False, False
        return bool((out[0] == out[1]).all()), True
    res, exc = R.call(f)
    R.stateless(dict(op='repro', fam='repro', exc=exc, again=bool(res and res[0]), globalkept=bool(res and res[1])),
                'sample(%d) %s outs=%s dims=%s' % (N, kw, outs, ds))


def unnorm(R, rng):
    """no samples from something that is not a state"""
    n, ds, outs, pv, mode, st = pick(rng, 12)
    f = [1.5, 0.5, 1.01, 0.99, 3.0][rng.randint(5)]
    bad = st.obj * f
    kw = dict(method=['cond', 'direct'][rng.randint(2)], mode=mode)
    if rng.randint(2):
        kw['n_group'] = int(rng.randint(1, n + 1))
    r = np.random.RandomState(rng.randint(2**31 - 1))
    res, exc = R.call(lambda: pv.obj.sample(r, bad, 3, **kw))
    R.stateless(dict(op='reject', fam='reject', exc=exc), 'sample, state times %r, %s outs=%s' % (f, kw, outs))


def anypovm(rng, outs):
    """product POVM with given numbers of outcomes on qubits (values irrelevant)"""
    return povm.messup(rng, MPPovm.from_kron([np.array([np.eye(2) / o] * o) for o in outs]))


def packev(R, obj, outs, samples, desc, viaList=False, rep=1):
    """counts are taken of every sample rep times"""
    ns = [int(o) for o in outs if o > 1]
    N = len(samples)
    big = np.repeat(samples, rep, axis=0)

    def f():
        if viaList:
            L = MPPovmList([obj])
            packed = next(iter(L.pack_samples([samples])))
            unp = next(iter(L.unpack_samples([packed])))
            cnt = next(iter(L.est_pmf([big], False)))
            fr = next(iter(L.est_pmf([big])))
        else:
            packed = obj.pack_samples(samples)
            unp = obj.unpack_samples(packed)
            cnt = obj.est_pmf(big, normalize=False)
            fr = obj.est_pmf(big)
        pc = obj.est_pmf(np.repeat(packed, rep), normalize=False)
        if unp.dtype != np.uint8:
            raise ValueError('type of unpacked samples')
        if np.shape(cnt) != np.shape(fr) or np.shape(pc) != np.shape(cnt):
            raise ValueError('shape')
        return packed, unp, cnt, fr, pc
    res, exc = R.call(f)
    if exc:
        R.stateless(dict(op='pack', fam='pack', exc=exc), desc)
        return
    packed, unp, cnt, fr, pc = res
    fr = np.asarray(fr, float).ravel() * N
    R.stateless(dict(op='pack', fam='pack', exc='', rep=rep, dims=ns, nsoutdims=[int(x) for x in obj.nsoutdims],
                     samples=[[int(x) for x in s] for s in samples], packed=[int(x) for x in packed],
                     unpacked=[[int(x) for x in s] for s in unp], counts=[int(x) for x in np.ravel(cnt)],
                     pcounts=[int(x) for x in np.ravel(pc)], freq=[int(x) for x in np.rint(fr)],
                     fres=clampi(np.abs(fr - np.rint(fr)).max() * 1e9), cshape=[int(x) for x in np.shape(cnt)]), desc)


def pack(R, rng):
    n = int(rng.randint(1, 6))
    while True:
        if rng.randint(8) == 0:
            outs = [1] * n
            outs[rng.randint(n)] = int(rng.randint(250, 256))
            if n > 1 and rng.randint(2):
                outs[(outs.index(max(outs)) + 1) % n] = 2
        else:
            outs = [int(x) for x in rng.randint(1, 5, size=n)]
        if 1 < np.prod(outs) <= 600:
            break
    obj = anypovm(rng, outs)
    ns = [o for o in outs if o > 1]
    N = int(rng.randint(1, 25))
    samples = np.array([[rng.randint(o) for o in ns] for _ in range(N)], dtype=[np.uint8, int, np.uint8][rng.randint(3)])
    if rng.randint(3) == 0:
        samples[0] = np.array(ns) - 1
    rep = 1 if rng.randint(5) else int([300, 33000, 66000][rng.randint(3)] // N) + 1
    packev(R, obj, outs, samples, 'pack outs=%s N=%d*%d' % (outs, N, rep), rng.randint(3) == 0, rep)


def packtype(R, rng):
    """packing into a given integer type"""
    dt = [np.uint8, np.uint8, np.int8, np.int16, np.uint16, np.int32, np.int64][rng.randint(7)]
    n = int(rng.randint(1, 7))
    while True:
        outs = [int(x) for x in rng.randint(1, 8 if rng.randint(2) else 4, size=n)]
        if 1 < np.prod(outs) < 10**6 and (np.prod(outs) > np.iinfo(dt).max or dt not in (np.uint8, np.int8, np.uint16) or rng.randint(8) == 0):
            break
    obj = anypovm(rng, outs)
    ns = [o for o in outs if o > 1]
    N = int(rng.randint(1, 20))
    samples = np.array([[rng.randint(o) for o in ns] for _ in range(N)], dtype=np.uint8)
    if rng.randint(2):
        samples[rng.randint(N)] = np.array(ns) - 1
    if rng.randint(2):
        samples[:, 0] = 0
    def f():
        p = obj.pack_samples(samples, dtype=dt)
        return p, obj.unpack_samples(p)
    res, exc = R.call(f)
    e = dict(op='packtype', fam='packtype', exc=exc, dims=ns, tmax=int(min(np.iinfo(dt).max, 2**31 - 1)),
             samples=[[int(x) for x in s] for s in samples], packed=[], unpacked=[])
    if not exc:
        e.update(packed=[int(x) for x in res[0]], unpacked=[[int(x) for x in s] for s in res[1]])
    R.stateless(e, 'pack_samples(dtype=%s) outs=%s' % (dt.__name__, outs))


def packbig(R, rng):
    """many sites: packed samples above 32 bit"""
    n = int(rng.randint(8, 30))
    while True:
        outs = [int(x) for x in rng.choice([1, 2, 3, 4, 6], size=n)]
        if 2.0**20 < np.prod([float(o) for o in outs]) < 2.0**62:
            break
    obj = anypovm(rng, outs)
    ns = [o for o in outs if o > 1]
    N = int(rng.randint(1, 12))
    samples = np.array([[rng.randint(o) for o in ns] for _ in range(N)], dtype=np.uint8)
    samples[0] = np.array(ns) - 1
    if N > 3:
        samples[1] = samples[2]
        samples[3] = samples[2]
        samples[3, -1] = (samples[3, -1] + 1) % ns[-1]

    def f():
        p = obj.pack_samples(samples)
        return p, obj.unpack_samples(p)
    res, exc = R.call(f)
    e = dict(op='packbig', fam='packbig', exc=exc, dims=ns, samples=[[int(x) for x in s] for s in samples], order=[], unpacked=[],
             top=0)
    if not exc:
        v = [int(x) for x in res[0]]
        e.update(order=[sorted(set(v)).index(x) for x in v], unpacked=[[int(x) for x in s] for s in res[1]],
                 top=int(v[0] + 1 == int(np.prod([int(o) for o in ns], dtype=object))))
    R.stateless(e, 'pack_samples, %d outcomes' % int(np.prod([float(o) for o in outs])))


def lists(R, rng):
    """list of POVMs: one block of samples per POVM"""
    n, ds = setup(rng, 1, 3, 6)
    k = int(rng.randint(2, 4))
    pvs = []
    while len(pvs) < k:
        outs = povm.rand_outs(rng, n, 2)
        if np.prod(outs) <= 4:
            pvs.append(povm.rand_povm(rng, outs, ds, bool(rng.randint(4)), maxc=60))
    mode = MODES[rng.randint(3)]
    st = povm.St(rng, ds, mode, maxD=20)
    L = MPPovmList([p.obj for p in pvs])
    method = ['cond', 'direct'][rng.randint(2)]
    other = []
    # the distribution of one list entry
    j = int(rng.randint(k))

    def g():
        try:
            return [dist_entry(L, j, st, method, mode, pvs[j].ns)]
        except Other:
            other.append(1)
            return [np.zeros(())]
    res, exc = R.call(g)
    if other:
        return
    emit(R, [pvs[j]], st, [[1, 0, n]], (lambda: res) if not exc else (lambda: 1 / 0),
         'MPPovmList.sample entry %d of %d %s %s %s' % (j, k, method, mode, exc), den=[pvs[j].c * st.D])


def dist_entry(L, j, st, method, mode, ns):
    def f(r):
        ss = list(L.sample(r, st.obj, 1, method, mode=mode))
        if len(ss) != len(L.mpps):
            raise ValueError('number of results')
        return ss[j]
    return distribution(f, ns, 1)
