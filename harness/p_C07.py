"""C07: operations leave their operands and all other live objects alone."""
import itertools as it
import json
import os
import tempfile
import numpy as np
import mpnum as mp
from obs import enc_int, contract, observe
import gen
import ops
from p_C05 import scale_lt


def run(R, rng, tier, mine):
    k = 0
    scripts = [json.loads(x) for x in open(os.path.join(R.gen, 'alias2.jsonl'))]
    for s in scripts:
        for n in (1, 2, 3):
            k += 1
            sub = np.random.RandomState(rng.randint(2**31 - 1))
            use = n == 2 + k % 2 or (n == 1 and sub.randint(3) == 0) or tier == 'thorough'
            if use and mine(k):
                R.run_case('C07:n=%d %s' % (n, [(x['op'], x['i']) for x in s]), script, R, sub, n, s)
    scripts = [json.loads(x) for x in open(os.path.join(R.gen, 'aliassim.jsonl'))]
    rng.shuffle(scripts)
    for s in scripts[:20000 if tier == 'thorough' else 700]:
        k += 1
        sub = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            n = int(sub.randint(1, 5))
            R.run_case('C07:n=%d %s' % (n, [(x['op'], x['i']) for x in s]), script, R, sub, n, s)


    for rep in range(400 if tier == 'thorough' else 60):
        k += 1
        sub = np.random.RandomState(rng.randint(2**31 - 1))
        if mine(k):
            R.run_case('C07:own', own, R, sub)


def own(R, rng):
    """a copy does not depend on the arrays the original was made of"""
    n = int(rng.randint(1, 5))
    sh = gen.rshape(rng, n, legs=(0, 2), dims=(1, 3), maxsize=64)
    lts = gen.rmpa(rng, sh, 3, ['f8', 'c16'][rng.randint(2)])
    src = []
    for t in lts:
        k = rng.randint(4)
        t = np.array(t)
        if k == 0:
            t = np.asfortranarray(t)
        elif k == 1:
            t = np.concatenate([t, t])[:len(t)]
        elif k == 2:
            t = t.reshape(-1).reshape(t.shape)
        src.append(t)
    m = mp.MPArray(src)
    how = rng.randint(3)
    if how == 1:
        m.canonicalize(left=int(rng.randint(n)))
    c = R.op('new', [], lambda: m.copy(), a=dict(lts=[enc_int(t) for t in lts]), outopen=0, desc='copy()')
    d = R.op('new', [], lambda: 1 * m, a=dict(lts=[enc_int(t) for t in lts]), outopen=0, desc='1 * mpa') if how == 2 else None

    def f():
        for t in src:
            t[...] = 17
    if c is not None:
        if d is not None:
            R.free([d])
        R.op('observe', [c], lambda x: f(), out='none', desc='arrays of the original overwritten')
        ops.to_array(R, c)


def script(R, rng, n, s):
    d = 2 if rng.randint(8) else 1
    dt = ['f8', 'c16'][rng.randint(2)]
    cls = [mp.MPArray, ops.SubMPA][rng.randint(4) == 0]
    ids = [R.new(gen.rmpa(rng, [(d, d)] * n, 2, dt, lim=60), cls=cls)]
    if rng.randint(2):
        ops.prep(R, rng, ids[0], 1)
    for st in s:
        i = ids[min(st['i'], len(ids)) - 1]
        if st['k'] == 'derive':
            r = derive(R, rng, st['op'], i)
            if r is None:
                r = ops.unary(R, 'copy', i)
            ids.append(r)
        else:
            inplace(R, rng, st['op'], i)
        if any(x is None for x in ids):
            return
    for i in ids:           # everything can still be read
        if not R.open.get(i):
            ops.to_array(R, i)


def total(sh):
    return int(np.prod([np.prod(s, dtype=int) for s in sh], dtype=int))


def big(R, i, f=1):
    m = R.obj[i]
    v = contract([np.asarray(t) for t in m.lt])
    return total(m.shape) * f > 300 or np.abs(v).max() ** 2 * f > 20000


def derive(R, rng, op, i):
    m = R.obj[i]
    n = len(m)
    sh = [tuple(s) for s in m.shape]
    legs = [len(s) for s in sh]
    if R.open.get(i) and op not in ('copy', 'neg', 'mul', 'conj'):
        return None
    if op in ('copy', 'neg', 'conj', 'T', 'adj', 'ravel', 'reverse'):
        return ops.unary(R, op, i)
    if op == 'mul':
        return ops.mul(R, rng, i, [(1, 0), (-1, 0), (2, 0)][rng.randint(3)])
    if op == 'transpose':
        if len(set(legs)) > 1 or legs[0] == 0:
            return ops.transpose(R, i, None)
        return ops.transpose(R, i, [int(x) for x in rng.permutation(legs[0])])
    if op == 'reshape':
        return ops.reshape(R, i, [s + (1,) for s in sh] if rng.randint(2) else sh)
    if op == 'prune_reshape':
        return ops.reshape(R, i, 'prune')
    if op == 'group_sites':
        ks = [k for k in range(2, n + 1) if n % k == 0]
        return ops.group_sites(R, i, ks[rng.randint(len(ks))]) if ks else None
    if op == 'split_sites':
        if any(l != 2 for l in legs) or n > 3:
            return None
        return ops.split_sites(R, i, 2)
    if op == 'vleg2leg':
        return ops.vleg2leg(R, i, int(rng.randint(n - 1))) if n > 1 else None
    if op == 'vleg2leg_leg2vleg':
        if n < 2:
            return None
        p = int(rng.randint(n - 1))
        return R.op('copy', [i], lambda x: x.vleg2leg(p).leg2vleg(p), desc='vleg2leg.leg2vleg')
    if op in ('split_l', 'split_r'):
        lts = [np.asarray(t) for t in m.lt]
        if n < 2 or any(np.abs(t - np.rint(t.real) - 1j * np.rint(t.imag)).max() > 0 for t in lts):
            return None
        p = int(rng.randint(n - 1))
        if op == 'split_l':
            part = lts[:p] + [lts[p][..., None]]
        else:
            part = [lts[p + 1][None]] + lts[p + 2:]
        return R.op('new', [], lambda: m.split(p)[0 if op == 'split_l' else 1],
                    a=dict(lts=[enc_int(t) for t in part]), outopen=0, desc=op)
    if op == 'get':
        if min(legs) < 1:
            return None
        return ops.get(R, i, [int(rng.randint(s[0])) for s in sh])
    if op in ('axis_iter', 'diag'):
        if min(legs) < (2 if op == 'diag' else 1) or total([s[:1] for s in sh]) > 16:
            return None
        if op == 'diag' and (len(set(s[0] for s in sh)) > 1 or len(set(legs)) > 1):
            return None
        ids = ops.axis_iter(R, i) if op == 'axis_iter' else ops.diag(R, i)
        if not ids:
            return None
        keep = ids[rng.randint(len(ids))]
        R.free([x for x in ids if x != keep])
        return keep
    if op == 'add':
        return None if big(R, i, 2) else ops.add(R, i, i)
    if op == 'sub':
        return ops.sub(R, i, i)
    if op == 'iadd':
        return None if big(R, i, 2) else ops.iadd(R, i, i)
    if op == 'sumup':
        return None if big(R, i, 2) else ops.sumup(R, rng, [i, i], weights=[[1, 0], [1, 0]] if rng.randint(2) else [])
    if op == 'sumup1':
        return ops.sumup(R, rng, [i], weights=[[1, 0]] if rng.randint(2) else [])
    if op == 'special_sumup':
        return None if big(R, i, 2) or n < 2 or max(m.ranks) > 1 else ops.special_sumup(R, rng, [i, i], 64)
    if op == 'chain':
        return None if big(R, i, total(sh)) else ops.chain(R, [i, i])
    if op == 'chain1':
        return ops.chain(R, [i])
    if op == 'inject':
        return None if big(R, i, 2) else ops.inject(R, i, int(rng.randint(n + 1)), 1, np.array([1., -1.]))
    if op == 'inject_id':
        if big(R, i, 4) or min(legs) < 1 or max(s[0] for s in sh) > 2:
            return None
        return ops.inject(R, i, int(rng.randint(n + 1)), int(rng.randint(0, 2)))
    if op == 'embed_slice':
        return None if big(R, i, 2) else ops.embed_slice(R, i, n + 1, int(rng.randint(2)), np.array([1., 2.]))
    if op == 'embed_same':
        return ops.embed_slice(R, i, n, 0, np.array([1., 2.]))
    if op == 'local_sum':
        return None if big(R, i, 4) else ops.local_sum(R, [i, i], emb=np.array([1., 1.]).reshape((2,) + (1,) * 0)
                                                      if all(s == (2,) for s in sh) else np.eye(2)) \
            if all(s in ((2, 2),) for s in sh) or all(s == (2,) for s in sh) else None
    if op == 'local_sum1':
        return ops.local_sum(R, [i], emb=np.array([1., 1.]))
    if op == 'pad_ranks':
        return ops.pad_ranks(R, i, 3, True) if n > 1 else None
    if op == 'pad_same':
        return ops.pad_ranks(R, i, 1) if n > 1 else None
    if op == 'dot':
        if any(len(s) < 1 or s[-1] != s[0] for s in sh) or big(R, i, 2):
            return None
        return ops.dot(R, i, i)
    if op == 'partialdot':
        if any(len(s) < 1 or s[-1] != s[0] for s in sh) or big(R, i, 2):
            return None
        return ops.partialdot(R, i, i, 0)
    if op == 'localouter':
        return None if big(R, i, total(sh)) else ops.localouter(R, i, i)
    if op == 'partialtrace':
        if any(len(s) < 2 or s[0] != s[1] for s in sh):
            return None
        ax = [(0, 1) if rng.randint(2) else None for _ in range(n)]
        ax[rng.randint(n)] = None
        return ops.partialtrace(R, i, ax)
    if op == 'partialtrace_none':
        return ops.partialtrace(R, i, [None] * n)
    if op == 'prune':
        return ops.prune(R, i, bool(rng.randint(2)))
    if op == 'sum_part':
        if min(legs) < 1 or max(legs) < 2:
            return None
        return ops.sum_(R, i, 0)
    if op == 'sum_nothing':
        return ops.sum_(R, i, []) if sum(legs) else None
    if op == 'compression_svd':
        return R.op('copy_rankfree', [i], lambda x: x.compression('svd', rank=100)[0], desc=op)
    if op == 'compression_var':
        return None
    if op == 'compression_var_big':
        return R.op('copy_rankfree', [i], lambda x: x.compression('var', rank=1000, num_sweeps=1)[0], desc=op)
    if op == 'dumpload':
        def f(x):
            d = tempfile.mkdtemp(prefix='vf_h5_')
            p = os.path.join(d, 'x.h5')
            try:
                x.dump(p)
                return type(x).load(p)
            finally:
                if os.path.exists(p):
                    os.remove(p)
                os.rmdir(d)
        return R.op('copy', [i], f, desc='dump/load')
    raise KeyError(op)


def inplace(R, rng, op, i):
    m = R.obj[i]
    n = len(m)
    legs = [len(s) for s in m.shape]
    if op == 'imul':
        return ops.imul(R, rng, i, [(2, 0), (-1, 0), (0, 1), (1, 0)][rng.randint(4)])
    if op == 'idiv':
        return ops.div(R, rng, i, True)
    if op == 'canon_left':
        return ops.canonicalize(R, i, left='afull')
    if op == 'canon_right':
        return ops.canonicalize(R, i, right='afull')
    if op == 'canon_mid':
        k = int(rng.randint(n))
        return ops.canonicalize(R, i, left=k, right=k + 1)
    if op == 'canon_none':
        return ops.canonicalize(R, i)
    if op == 'norm':
        return None if R.open.get(i) else ops.norm(R, i)
    if op in ('compress_l', 'compress_r', 'compress_var', 'compress_nocanon'):
        kw = dict(compress_l=dict(method='svd', direction='left'), compress_r=dict(method='svd', direction='right'),
                  compress_nocanon=dict(method='svd', rank=100),
                  compress_var=dict(method='var', rank=1000, num_sweeps=1))[op]
        if R.open.get(i):
            return R.op('canonicalize_any', [i], lambda x: x.compress(**kw), out='none', desc=op)
        return R.op('compress_exact', [i], lambda x: x.compress(**kw), out='val', desc='compress(%r)' % kw)
    if op == 'svals':
        return R.op('svals', [i], lambda x: list(x.singularvals()), out='none', desc='singularvals')
    if op == 'svals_partial':
        def f(x):
            g = x.singularvals()
            for _ in range(int(rng.randint(1, 3))):
                next(g, None)
            g.close()
        return R.op('svals', [i], f, out='none', desc='singularvals, abandoned')
    if op == 'setlt':
        return scale_lt(R, i, int(rng.randint(n)), rng=rng)
    if op == 'setlt_neg':
        return scale_lt(R, i, int(rng.randint(n)), True, rng=rng)
    if op == 'setslice':
        def f(x):
            x.lt[0:n] = [-1 * np.array(x.lt[0])] + [np.array(t) for t in x.lt][1:]
        return R.op('imul', [i], f, a=dict(c=[-1, 0]), out='none', desc='lt[:] = [-A, B, ...]')
    if op == 'iter_then_set':
        def f(x):
            keep = list(x.lt)
            x.lt[0] = -1 * keep[0]
            if not all(t.size for t in keep):
                raise ValueError
        return R.op('imul', [i], f, a=dict(c=[-1, 0]), out='none', desc='views taken, then lt[0] = -lt[0]')
    if op == 'write_lt':
        k = int(rng.randint(n))
        form = rng.randint(3)

        def f(x):
            v = [lambda: x.lt[k], lambda: list(x.lt)[k], lambda: list(x.lt[:])[k]][form]()
            v[...] = 17
        return R.op('write_lt', [i], f, out='none', desc='write into lt view')
    if R.open.get(i):
        return None
    if op in ('poke_array', 'poke_global', 'poke_sum', 'poke_diag'):
        def f(x):
            if op == 'poke_array':
                v = x.to_array()
            elif op == 'poke_global':
                if len(set(legs)) > 1:
                    return
                v = x.to_array_global()
            elif op == 'poke_sum':
                v = x.sum()
                if isinstance(v, mp.MPArray):
                    return
            else:
                if set(legs) != {1} or len(set(x.shape)) > 1:
                    return
                v = mp.diag(x)
            if isinstance(v, np.ndarray):
                v[...] = 17
        return R.op('poke_val', [i], f, out='none', desc=op)
    if op == 'poke_sv':
        def f(x):
            for v in list(x.singularvals()):
                v[...] = 17
        return R.op('svals', [i], f, out='none', desc='singular values overwritten afterwards')
    raise KeyError(op)
