"""Observation of mpnum objects through the public interface only.

Values are reported as integers plus a residual (deviation of the floating
point value from that integer, in units of 1e-9 relative to the largest entry),
so that the specification can judge them exactly.
"""
import numpy as np

BIG = 10 ** 9


def clampi(x):
    if not np.isfinite(x):
        return BIG
    return int(min(BIG, np.ceil(abs(x))))


def enc_dense(arr, unit=0):
    """Dense array/scalar -> {s, re, im, res}, in units of 2**unit"""
    arr = np.asarray(arr)
    if arr.dtype == object:
        raise TypeError('object array')
    arr = arr.astype(complex) if arr.dtype.kind == 'c' else arr.astype(float)
    if unit:
        arr = arr * 2.0 ** -unit          # exact
    fin = np.isfinite(arr)
    bad = not fin.all()
    arr = np.where(fin, arr, 0)
    flat = arr.reshape(-1)
    re = np.rint(flat.real)
    scale = max(1.0, np.abs(flat).max() if flat.size else 1.0)
    res = np.abs(flat.real - re).max() if flat.size else 0.0
    im = np.zeros(0)
    if arr.dtype.kind == 'c':
        im = np.rint(flat.imag)
        if flat.size:
            res = max(res, np.abs(flat.imag - im).max())
        if not im.any():
            im = np.zeros(0)
    if (np.abs(re) >= 2**31 - 1).any() or (im.size and (np.abs(im) >= 2**31 - 1).any()):
        bad = True
        re = np.clip(re, -BIG, BIG)
        im = np.clip(im, -BIG, BIG)
    return dict(s=[int(d) for d in arr.shape], re=[int(v) for v in re],
                im=[int(v) for v in im],
                res=BIG if bad else clampi(res / scale * 1e9))


def enc_int(arr):
    """Exact integer tensor (spec input)"""
    arr = np.asarray(arr)
    d = enc_dense(arr)
    assert d['res'] == 0, arr
    return dict(s=d['s'], re=d['re'], im=d['im'])


def contract(lts):
    """Independent contraction of a list of local tensors"""
    res = np.array(lts[0])
    if res.dtype.kind in 'iub':
        res = res.astype(float)
    for lt in lts[1:]:
        res = np.tensordot(res, np.asarray(lt), axes=([res.ndim - 1], [0]))
    return res


def close_pair(arr, ax1, ax2):
    return np.trace(arr, axis1=ax1, axis2=ax2)


def iso_left(lt):
    m = np.asarray(lt).reshape(-1, lt.shape[-1]).astype(complex)
    return clampi(np.abs(m.conj().T.dot(m) - np.eye(m.shape[1])).max() * 1e9)


def iso_right(lt):
    m = np.asarray(lt).reshape(lt.shape[0], -1).astype(complex)
    return clampi(np.abs(m.dot(m.conj().T) - np.eye(m.shape[0])).max() * 1e9)


def digest(mpa):
    lts = [np.asarray(lt) for lt in mpa.lt]
    return tuple((lt.shape, lt.dtype.str, lt.tobytes()) for lt in lts) + (tuple(mpa.canonical_form),)


def observe(mpa, ident, open_at=0, value=True, unit=0):
    lts = [np.asarray(lt) for lt in mpa.lt]
    n = len(lts)
    osh = [[int(d) for d in s] for s in mpa.shape]
    sh = [list(s) for s in osh]
    o = dict(id=ident, len=int(len(mpa)), osh=osh,
             lr=[[int(lt.shape[0]), int(lt.shape[-1])] for lt in lts],
             psz=[int(np.prod(lt.shape[1:-1], dtype=int)) for lt in lts],
             size=int(mpa.size),
             nd=[int(d) for d in mpa.ndims], rk=[int(r) for r in mpa.ranks],
             cf=[int(c) for c in mpa.canonical_form],
             ld=[iso_left(lt) for lt in lts], rd=[iso_right(lt) for lt in lts],
             ty=type(mpa).__name__, dt=np.dtype(mpa.dtype).str[1:],
             ldt=sorted(set(lt.dtype.str[1:] for lt in lts)), open=[0, 0])
    if open_at:
        k = open_at - 1
        o['open'] = [sh[k][-1], sh[k + 1][0]]
    if value:
        if any(l[-1] != r[0] for l, r in zip([lt.shape for lt in lts[:-1]], [lt.shape for lt in lts[1:]])):
            raise ValueError('bond mismatch in observed object')
        many = not open_at and sum(len(s) for s in sh) > 28      # numpy has at most 32 dimensions
        if many and [list(lt.shape[1:-1]) for lt in lts] != sh:
            raise ValueError('shape attribute inconsistent with local tensors')
        arr = contract([lt.reshape(lt.shape[0], -1, lt.shape[-1]) for lt in lts] if many else lts)
        if arr.shape[0] != 1 or arr.shape[-1] != 1:
            raise ValueError('boundary rank')
        arr = arr[0, ..., 0]
        if open_at:
            off = sum(len(s) for s in sh[:open_at])
            arr = close_pair(arr, off - 1, off)
            sh[open_at - 1] = sh[open_at - 1][:-1]
            sh[open_at] = sh[open_at][1:]
        e = enc_dense(arr, unit)
        if not many and e['s'] != [d for s in sh for d in s]:
            raise ValueError('shape attribute inconsistent with local tensors')
        o.update(re=e['re'], im=e['im'], res=e['res'])
    o['sh'] = sh
    return o
