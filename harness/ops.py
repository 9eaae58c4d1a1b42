"""Interface operations with randomly chosen valid arguments."""
import itertools as it
import numpy as np
import mpnum as mp
from obs import enc_int
import gen


def sh_of(R, i):
    return [tuple(int(d) for d in s) for s in R.obj[i].shape]


def canon_arg(v):
    if v is None:
        return dict(k='none', v=0)
    if v == 'afull':
        return dict(k='afull', v=0)
    return dict(k='int', v=int(v))


def canonicalize(R, i, left=None, right=None, kw=True):
    def f(m):
        if left is None and right is None and kw:
            m.canonicalize()
        elif right is None and kw:
            m.canonicalize(left=left)
        elif left is None and kw:
            m.canonicalize(right=right)
        else:
            m.canonicalize(left, right)
    return R.op('canonicalize', [i], f, a=dict(l=canon_arg(left), r=canon_arg(right)),
                out='none', post=True, desc='canonicalize(left=%r, right=%r)' % (left, right))


def rand_canon(R, rng, i):
    """valid random canonicalization"""
    n = len(R.obj[i])
    k = rng.randint(6)
    if k == 0:
        return canonicalize(R, i)
    if k == 1:
        return canonicalize(R, i, left='afull')
    if k == 2:
        return canonicalize(R, i, right='afull')
    l = rng.randint(0, n)
    r = rng.randint(l + 1, n + 1)
    if k == 3:
        return canonicalize(R, i, left=int(l))
    if k == 4:
        return canonicalize(R, i, right=int(r))
    return canonicalize(R, i, left=int(l), right=int(r))


def prep(R, rng, i, strength=2):
    """bring object into some reachable internal state without changing value"""
    for _ in range(rng.randint(0, strength + 1)):
        rand_canon(R, rng, i)
    return i


def mk(R, rng, sh, rmax=3, dt='f8', prep_=True, lim=3000):
    i = R.new(gen.rmpa(rng, sh, rmax, dt, lim), p=gen.prec(dt))
    if prep_ and i is not None:
        prep(R, rng, i)
    return i


SCALARS = [(2, 0), (-1, 0), (3, 0), (0, 1), (1, -1), (-2, 1), (0, 0), (1, 0)]


def pyscalar(c, rng=None):
    re, im = c
    if im:
        return complex(re, im)
    k = 0 if rng is None else rng.randint(3)
    return [int(re), float(re), np.float64(re)][k]


def mul(R, rng, i, c=None):
    c = c or SCALARS[rng.randint(len(SCALARS))]
    s = pyscalar(c, rng)
    if rng.randint(2):
        return R.op('mul', [i], lambda m: m * s, a=dict(c=list(c)), desc='mpa * %r' % (s,))
    return R.op('mul', [i], lambda m: s * m, a=dict(c=list(c)), desc='%r * mpa' % (s,))


def imul(R, rng, i, c=None):
    c = c or SCALARS[rng.randint(len(SCALARS))]
    s = pyscalar(c, rng)

    def f(m):
        m0 = m
        m *= s
        if m is not m0:
            raise TypeError('in-place multiplication returned a new object')
    return R.op('imul', [i], f, a=dict(c=list(c)), out='none', desc='mpa *= %r' % (s,))


def divisors(R, i):
    """Gaussian integers dividing all entries of the current value"""
    from obs import contract
    v = contract(list(R.obj[i].lt)).reshape(-1) * 2.0 ** -R.unit.get(i, 0)
    v = np.rint(v.real) + 1j * np.rint(v.imag)
    out = []
    for c in [(2, 0), (-1, 0), (0, 1), (4, 0), (-2, 0), (1, 1), (0, -2), (3, 0)]:
        q = v / complex(*c)
        if np.abs(q.real - np.rint(q.real)).max() < 1e-9 and np.abs(q.imag - np.rint(q.imag)).max() < 1e-9:
            out.append(c)
    return out


def div(R, rng, i, inplace=False):
    if R.open.get(i):
        return None
    cs = divisors(R, i)
    c = cs[rng.randint(len(cs))]
    s = pyscalar(c, rng)
    if inplace:
        def f(m):
            m0 = m
            m /= s
            if m is not m0:
                raise TypeError('in-place division returned a new object')
        return R.op('idiv', [i], f, a=dict(c=list(c)), out='none', desc='mpa /= %r' % (s,))
    return R.op('div', [i], lambda m: m / s, a=dict(c=list(c)), desc='mpa / %r' % (s,))


def add(R, i, j):
    return R.op('add', [i, j], lambda a, b: a + b)


def sub(R, i, j):
    return R.op('sub', [i, j], lambda a, b: a - b)


def iadd(R, i, j):
    """a += b must bind a new value and leave the old object alone"""
    def f(a, b):
        a += b
        return a
    return R.op('add', [i, j], f, desc='a += b')


def isub(R, i, j):
    def f(a, b):
        a -= b
        return a
    return R.op('sub', [i, j], f, desc='a -= b')


def sumup(R, rng, ids, weights='rand', lazy=False):
    w = []
    if weights == 'rand' and rng.randint(2):
        w = [list(SCALARS[rng.randint(len(SCALARS))]) for _ in ids]
    elif isinstance(weights, list):
        w = weights
    ws = [pyscalar(tuple(c)) for c in w]

    def f(*ms):
        ms = (m for m in ms) if lazy else list(ms)
        return mp.sumup(ms, weights=ws) if w else mp.sumup(ms)
    return R.op('sumup', ids, f, a=dict(w=w), desc='sumup(weights=%r, lazy=%r)' % (ws, lazy))


def unary(R, op, i):
    f = dict(copy=lambda m: m.copy(), pos=lambda m: +m, neg=lambda m: -m, conj=lambda m: m.conj(),
             T=lambda m: m.T, adj=lambda m: m.adj(), ravel=lambda m: m.ravel(),
             reverse=lambda m: m.reverse())[op]
    return R.op(op, [i], f)


def to_array(R, i):
    return R.op('to_array', [i], lambda m: m.to_array(), out='val')


def to_array_global(R, i):
    return R.op('to_array_global', [i], lambda m: m.to_array_global(), out='val')


def transpose(R, i, axes):
    a = dict(k='none', v=[]) if axes is None else dict(k='ints', v=[int(x) for x in axes])
    return R.op('transpose', [i], lambda m: m.transpose(axes) if axes is not None else m.transpose(),
                a=a, desc='transpose(%r)' % (axes,))


def sum_(R, i, axes, form='tuple'):
    if axes is None:
        a = dict(k='none', v=0)
    elif isinstance(axes, (int, np.integer)):
        a = dict(k='int', v=int(axes))
    elif len(axes) == 0 or not any(x is None or hasattr(x, '__iter__') for x in axes):
        a = dict(k='ints', v=[int(x) for x in axes])
    else:
        a = dict(k='per', v=[dict(k='none', v=[]) if x is None else dict(k='ints', v=[int(y) for y in x])
                             for x in axes])
    return R.op('sum', [i], lambda m: m.sum() if axes is None else m.sum(axes), a=a, out='auto',
                desc='sum(%r)' % (axes,))


def reshape(R, i, new, lazy=False):
    if isinstance(new, str):
        a = dict(k='prune', v=0)
    elif len(new) and hasattr(new[0], '__iter__'):
        a = dict(k='per', v=[[int(d) for d in s] for s in new])
    else:
        a = dict(k='one', v=[int(d) for d in new])
    return R.op('reshape', [i], lambda m: m.reshape(iter(new) if lazy else new), a=a,
                desc='reshape(%r)' % (new,))


def group_sites(R, i, k):
    return R.op('group_sites', [i], lambda m: m.group_sites(k), a=dict(v=int(k)), desc='group_sites(%d)' % k)


def split_sites(R, i, k):
    return R.op('split_sites', [i], lambda m: m.split_sites(k), a=dict(v=int(k)), desc='split_sites(%d)' % k)


def vleg2leg(R, i, pos):
    return R.op('vleg2leg', [i], lambda m: m.vleg2leg(pos), a=dict(v=int(pos)), outopen=pos + 1,
                desc='vleg2leg(%d)' % pos)


def leg2vleg(R, i, pos):
    return R.op('leg2vleg', [i], lambda m: m.leg2vleg(pos), a=dict(v=int(pos)), outopen=0,
                desc='leg2vleg(%d)' % pos)


def split(R, i, pos):
    from obs import contract

    def f(m):
        left, right = m.split(pos)
        lv = contract(list(left.lt))[0, ..., 0]
        rv = contract(list(right.lt))[0, ..., 0]
        return left, right, np.tensordot(lv, rv, axes=([lv.ndim - 1], [0]))
    return R.op('split', [i], f, a=dict(v=int(pos)), out='parts', desc='split(%d)' % pos)


def get(R, i, idx):
    return R.op('get', [i], lambda m: m.get(idx), a=dict(v=[int(x) for x in idx]), desc='get(%r)' % (idx,))


def axis_iter(R, i, axes=0):
    a = dict(k='int', v=int(axes)) if not hasattr(axes, '__iter__') else dict(k='ints', v=[int(x) for x in axes])
    return R.op('axis_iter', [i], lambda m: m.axis_iter(axes), a=a, out='objs', desc='axis_iter(%r)' % (axes,))


def diag(R, i, axis=0):
    one = all(len(s) == 1 for s in R.obj[i].shape)
    return R.op('diag', [i], lambda m: mp.diag(m, axis), a=dict(v=int(axis)),
                out='val' if one else 'objs', desc='diag(axis=%d)' % axis)


def axarg(x):
    return dict(k='int', v=int(x)) if not hasattr(x, '__iter__') else dict(k='ints', v=[int(y) for y in x])


def dot(R, i, j, axes=None, astype=None):
    ax = (-1, 0) if axes is None else axes
    a = dict(l=axarg(ax[0]), r=axarg(ax[1]))
    return R.op('dot', [i, j], lambda x, y: mp.dot(x, y) if axes is None else mp.dot(x, y, axes=axes),
                a=a, desc='dot(axes=%r)' % (axes,))


def partialdot(R, i, j, start, axes=None):
    ax = (-1, 0) if axes is None else axes
    a = dict(l=axarg(ax[0]), r=axarg(ax[1]), start=int(start))
    return R.op('partialdot', [i, j],
                lambda x, y: mp.partialdot(x, y, start) if axes is None else mp.partialdot(x, y, start, axes=axes),
                a=a, desc='partialdot(start_at=%d, axes=%r)' % (start, axes))


def localouter(R, i, j):
    return R.op('localouter', [i, j], lambda x, y: mp.localouter(x, y))


def inner(R, i, j):
    return R.op('inner', [i, j], lambda x, y: mp.inner(x, y), out='val')


def inner_prod_mps(R, i, j):
    from mpnum import special
    return R.op('inner_prod_mps', [i, j], lambda x, y: special.inner_prod_mps(x, y), out='val')


def sandwich(R, o, i, j=None):
    if j is None:
        return R.op('sandwich', [o, i], lambda m, x: mp.sandwich(m, x), out='val')
    return R.op('sandwich', [o, i, j], lambda m, x, y: mp.sandwich(m, x, y), out='val')


def norm(R, i):
    return R.op('norm2', [i], lambda m: mp.norm(m) ** 2, out='val', desc='norm')


def normdist(R, i, j):
    return R.op('normdist2', [i, j], lambda x, y: mp.normdist(x, y) ** 2, out='val', desc='normdist')


def trace_axes(n, axes):
    """documented meaning of `axes` as list per site"""
    if axes is None:
        return [[0, 1]] * n
    if axes[0] is not None and not hasattr(axes[0], '__iter__'):
        return [[int(x) for x in axes]] * n
    return [[] if x is None else [int(y) for y in x] for x in axes]


def trace(R, i, axes=None):
    n = len(R.obj[i])
    return R.op('trace', [i], lambda m: mp.trace(m) if axes is None else mp.trace(m, axes),
                a=dict(v=trace_axes(n, axes)), out='val', desc='trace(%r)' % (axes,))


def partialtrace(R, i, axes=None):
    n = len(R.obj[i])
    return R.op('partialtrace', [i], lambda m: mp.partialtrace(m) if axes is None else mp.partialtrace(m, axes),
                a=dict(v=trace_axes(n, axes)), desc='partialtrace(%r)' % (axes,))


def prune(R, i, singletons=False):
    return R.op('prune', [i], lambda m: mp.prune(m, singletons=singletons), a=dict(v=bool(singletons)),
                desc='prune(singletons=%r)' % singletons)


def chain(R, ids, lazy=False):
    return R.op('chain', ids, lambda *ms: mp.chain((m for m in ms) if lazy else ms), desc='chain')


def inject(R, i, pos, num=None, ten=None):
    """pos int or list; num int/None/list; ten None/array/list"""
    multi = hasattr(pos, '__iter__')
    P = list(pos) if multi else [pos]
    N = (list(num) if num is not None else [None] * len(P)) if multi else [num]
    Te = (list(ten) if ten is not None else [None] * len(P)) if multi else [ten]
    a = dict(pos=[int(x) for x in P], kind=[], num=[], ten=[])
    for nn, tt in zip(N, Te):
        if nn is None:
            a['kind'].append('seq')
            a['num'].append(0)
            a['ten'].append([enc_int(t) for t in tt])
        else:
            a['kind'].append('num')
            a['num'].append(int(nn))
            a['ten'].append([] if tt is None else [enc_int(tt)])
    return R.op('inject', [i], lambda m: mp.inject(m, pos, num, ten), a=a,
                desc='inject(pos=%r, num=%r, ten=%s)' % (pos, num, [None if t is None else np.shape(t) for t in Te]
                                                        if all(t is None or hasattr(t, 'shape') for t in Te) else '...'))


def embed_slice(R, i, length, start, emb=None):
    k = len(R.obj[i])
    return R.op('embed_slice', [i], lambda m: mp.embed_slice(length, anyslice(start, start + k, length, (start + length + k) % 3), m, emb),
                a=dict(length=int(length), start=int(start), emb=[] if emb is None else [enc_int(emb)]),
                desc='embed_slice(%d, %d)' % (length, start))


def anyslice(a, b, n, style):
    # different ways to write the same slice of a sequence of length n
    if style == 1:
        return slice(a or None, b if b < n else None)
    if style == 2:
        return slice(a - n, b - n or None)
    return slice(a, b)


def local_sum(R, ids, emb=None, starts=None, length=None, lazy=False, style=0):
    w = len(R.obj[ids[0]])
    regular = starts is None
    N = len(ids) + w - 1 if regular else length
    st = list(range(len(ids))) if regular else list(starts)

    def f(*ms):
        ms = (m for m in ms) if lazy else list(ms)
        if regular:
            return mp.local_sum(ms, embed_tensor=emb)
        return mp.local_sum(ms, embed_tensor=emb, length=length,
                            slices=[anyslice(s, s + len(R.obj[i]), length, style) for s, i in zip(starts, ids)])
    return R.op('local_sum', ids, f,
                a=dict(length=int(N), starts=st, emb=[] if emb is None else [enc_int(emb)], width=int(w),
                       regular=bool(regular)),
                desc='local_sum(starts=%r)' % (starts,))


def pad_ranks(R, i, rank=None, force=False):
    return R.op('pad_ranks', [i], lambda m: m.pad_ranks(rank=rank, force_rank=force),
                a=dict(rank=int(rank or 0), force=bool(force)), desc='pad_ranks(%r, %r)' % (rank, force))


def from_array(R, arr, ndims=None, p=1, glob=False, lazy=False, cls=mp.MPArray):
    """ndims int / list / None"""
    if glob:
        nd = arr.ndim if ndims is None else ndims
        sc, = R.scaled([arr])
        return R.op('from_array_global', [], lambda: cls.from_array_global(sc, ndims),
                    a=dict(t=enc_int(arr), n=int(arr.ndim // nd)), p=p, outopen=0, unit=R.case_unit,
                    desc='from_array_global(ndims=%r)' % (ndims,))
    if ndims is None:
        nd = [arr.ndim]
    elif hasattr(ndims, '__iter__'):
        nd = list(ndims)
    else:
        nd = [ndims] * (arr.ndim // ndims)
    lazy = lazy and hasattr(ndims, '__iter__')
    sc, = R.scaled([arr])
    return R.op('from_array', [], lambda: cls.from_array(sc, (x for x in ndims) if lazy else ndims), a=dict(t=enc_int(arr), nd=nd), p=p,
                outopen=0, unit=R.case_unit, desc='from_array(shape=%r, ndims=%r)' % (arr.shape, ndims))


def from_kron(R, ts, p=1, lazy=False):
    sc = R.scaled(ts)
    return R.op('from_kron', [], lambda: mp.MPArray.from_kron((t for t in sc) if lazy else sc),
                a=dict(ts=[enc_int(t) for t in ts]), p=p, outopen=0, unit=R.case_unit, desc='from_kron')


def from_array_virtual(R, arr, ndims):
    """arr has virtual legs first and last"""
    from obs import contract

    sc, = R.scaled([arr])

    def f():
        m = mp.MPArray.from_array(sc, ndims, has_virtual=True)
        return contract(list(m.lt))
    return R.op('from_array_virtual', [], f, unit=R.case_unit, a=dict(t=enc_int(arr)), out='val', desc='from_array(has_virtual=True)')


def special_sumup(R, rng, ids, rank, weights=None, lazy=False, svdfunc=None):
    from mpnum import special
    w = weights or []
    ws = [pyscalar(tuple(c)) for c in w]

    def f(*ms):
        ms = (m for m in ms) if lazy else list(ms)
        # documented: "Iterator of same length as mpas"
        kw = dict(weights=iter(ws) if lazy else ws) if w else {}
        if svdfunc is not None:
            kw['svdfunc'] = svdfunc
        return special.sumup(ms, rank, **kw)
    return R.op('special_sumup', ids, f, a=dict(w=w, rank=int(rank)),
                desc='special.sumup(rank=%d, weights=%r)' % (rank, ws))


def typed(R, op, ins, fun, ty, a):
    """type of the result is documented"""
    a = dict(a, ty=ty)
    return R.op(op, ins, fun, a=a, desc='%s -> %s' % (op, ty))


class SubMPA(mp.MPArray):
    """user-defined subclass"""
