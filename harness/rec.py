"""Recorder: performs interface calls on the real code and logs events."""
import copy
import json
import time
import zlib
import traceback
import signal
import numpy as np
import mpnum as mp
from obs import observe, digest, enc_dense, enc_int


class CaseTimeout(Exception):
    pass


class StopRecording(BaseException):
    """the code under test hangs: judge what was recorded so far"""


def _alarm(signum, frame):
    raise CaseTimeout()


INPLACE = ('imul', 'idiv', 'canonicalize', 'compress', 'setlt', 'new')
UNITS = [-27, -33, -40, -41, -44, -47, -50, -53, -90, 12, 34, 60]
ADDITIVE = ('add', 'sub', 'sumup', 'special_sumup', 'local_sum')
MULTIPLICATIVE = ('dot', 'partialdot', 'localouter', 'chain', 'inner', 'inner_prod_mps', 'sandwich')
QUADRATIC = ('norm2', 'normdist2', 'mps_to_mpo', 'pmps_to_mpo', 'pmps_dm', 'pmps_dmval', 'reductions_pmps',
             'pmps_reduction', 'svals_bpp')
OVERLAP = ('compress_bpp', 'compression_bpp', 'compress_exact', 'compression_exact')


class Rec:
    """`unit`: the objects of a case may be given in units of 2**unit (exact scaling of
    all site tensors), observations are reported in the same units.  The specification
    judges integers and is unaware of the units."""

    def __init__(self, call_timeout=120):
        self.units = False       # profile uses units
        self.again = 0           # one of so many operations is repeated after changing an object
        self.repeating = False
        self.case_unit = 0
        self.unit = {}
        self.urng = np.random.RandomState(0)
        self.events = []
        self.cases = []          # per event: replayable description
        self.obj = {}            # id -> MPArray
        self.open = {}           # id -> open bond
        self.dig = {}
        self.nid = 0
        self.call_timeout = call_timeout
        signal.signal(signal.SIGALRM, _alarm)
        self.case = ''
        self.timeouts = 0
        self.deadline = time.time() + 500

    # -- calling the implementation ------------------------------------
    def call(self, fun):
        """run fun, return (result, exception name)"""
        signal.alarm(self.call_timeout)
        try:
            return fun(), ''
        except CaseTimeout:
            self.timeouts += 1
            self.call_timeout = 20
            return None, 'Timeout'
        except MemoryError:
            raise
        except Exception as e:                      # noqa
            return None, type(e).__name__
        finally:
            signal.alarm(0)

    def warm(self, things, fun, one_in=4):
        """In some cases perform the call with other content of one of the objects first (result
        ignored) and restore the content: the call must see the objects as they are.
        things: pairs (kind, object) with kind povm, mps, pmps, mpdo, neg or arr"""
        rng = np.random.RandomState((zlib.crc32(self.case.encode()) + 17 * len(self.events)) % 2**32)
        if rng.randint(one_in) or not things:
            return
        kind, x = things[rng.randint(len(things))]
        if kind == 'arr':
            if x.ndim == 0 or len(x) < 2 or not x.flags.writeable:
                return
            old = x.copy()
            x[:-1] = x[-1]
            self.call(fun)
            x[...] = old
            return
        sites = [k for k in range(len(x)) if kind == 'neg' or x.lt[k].shape[1] > 1 or kind == 'povm' and x.lt[k].shape[2] > 1]
        if not sites:
            return
        k = sites[rng.randint(len(sites))]
        content = [np.array(t) for t in x.lt]
        old = content[k]
        if kind == 'neg':
            new = -2 * old
        elif kind == 'mpdo' or kind == 'povm' and old.shape[1] == 1:
            new = np.roll(old, 1, (1, 2) if kind == 'mpdo' else (2, 3))
        else:
            new = np.roll(old, 1, 1)
        x.lt[k] = new
        self.call(fun)
        x.lt[:] = content        # the call may have changed the internal form

    def newid(self):
        self.nid += 1
        return self.nid

    def reset(self):
        if self.obj or self.nid:
            self.events.append(dict(op='reset'))
            self.cases.append('')
        self.obj.clear()
        self.open.clear()
        self.dig.clear()
        self.unit.clear()
        self.nid = 0

    def run_case(self, desc, fun, *args):
        """one independent history; trouble outside of a recorded call is an event as well"""
        if self.timeouts > 4 or (self.timeouts and time.time() > self.deadline):
            raise StopRecording()
        self.reset()
        self.case = desc
        self.case_unit = 0
        if self.units:
            self.urng = np.random.RandomState((zlib.crc32(desc.encode()) + 7919 * len(self.events)) % 2**32)
            self.case_pos = self.urng.randint(4)
            if self.urng.randint(3) == 0:
                self.case_unit = UNITS[self.urng.randint(len(UNITS))]
                self.case = '%s [unit 2**%d]' % (desc, self.case_unit)
        try:
            fun(*args)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception:                           # noqa
            self.events.append(dict(op='abort', text=traceback.format_exc()[-1500:]))
            self.cases.append(desc)

    def ranks(self, i):
        return [int(r) for r in self.obj[i].ranks]

    def changes(self):
        out = []
        for i, o in self.obj.items():
            d = digest(o)
            if d != self.dig[i]:
                self.dig[i] = d
                out.append(observe(o, i, self.open.get(i, 0), unit=self.unit.get(i, 0)))
        return out

    def out_unit(self, op, ins, a):
        """units of the objects / dense values an operation returns"""
        us = [self.unit.get(i, 0) for i in ins]
        if not any(us):
            return 0, 0
        if op in MULTIPLICATIVE:
            if op == 'sandwich' and len(us) == 2:
                us.append(us[1])
            return (sum(us),) * 2
        if op in ADDITIVE or op == 'normdist2':
            assert len(set(us)) == 1, 'harness: units differ'
        if op in QUADRATIC or op == 'reductions_mpo' and a['mode'] == 'mps':
            return (2 * us[0],) * 2
        if op in OVERLAP:
            return us[0], 2 * us[0]
        return us[0], us[0]

    def op(self, op, ins, fun, a=None, p=1, out='obj', **kw):
        """Perform an operation; in some cases change its result or an operand in place
        and perform it once more: the operation must see the objects as they are."""
        a = {} if a is None else a
        if not self.again or self.repeating or op in INPLACE:
            return self.op1(op, ins, fun, a, p, out, **kw)
        rng = np.random.RandomState((zlib.crc32((self.case + op).encode()) + 31 * len(self.events)) % 2**32)
        if rng.randint(self.again):
            return self.op1(op, ins, fun, a, p, out, **kw)
        self.repeating = True
        try:
            ids = sorted(i for i in set(ins) if self.single(i))
            first, how = None, rng.randint(3)
            if how and ids:
                # the operand is different at first
                i = ids[rng.randint(len(ids))]
                c = -1 if how == 1 or any(t.dtype.kind not in 'fc' for t in self.obj[i].lt) else 2
                k = int(rng.randint(len(self.obj[i])))
                self.scale(i, k, c)
                first = self.op1(op, ins, fun, copy.deepcopy(a), p, out, **kw)
                self.free([j for j in self.out_ids(out, first) if j not in ins])
                self.scale(i, k, c, back=True)
            else:
                first = self.op1(op, ins, fun, copy.deepcopy(a), p, out, **kw)
                for i in self.out_ids(out, first):
                    if self.single(i):
                        self.scale(i, int(rng.randint(len(self.obj[i]))), 0)
            self.free([i for i in self.out_ids(out, first) if i not in ins])
        finally:
            self.repeating = False
        kw['desc'] = '(again) %s' % (kw.get('desc') or op)
        return self.op1(op, ins, fun, a, p, out, **kw)

    def single(self, i):
        """not one object under several names (group_sites(1) and the like return self)"""
        return len(self.obj[i]) and sum(self.obj[i] is o for o in self.obj.values()) == 1

    def out_ids(self, out, ret):
        if ret is None or out not in ('obj', 'objs', 'objval', 'auto'):
            return []
        ids = ret if isinstance(ret, list) else [ret]
        return [i for i in ids if isinstance(i, int) and i in self.obj]

    def scale(self, i, k, c, back=False):
        """replace a site tensor by a multiple of it"""
        def f(x):
            t = x.lt[k]
            x.lt[k] = (t / c if back else t * c).astype(t.dtype)
        self.op1('idiv' if back else 'imul', [i], f, dict(c=[c, 0]), out='none',
                 desc='lt[%d] = lt[%d] %s %d' % (k, k, '/' if back else '*', c))

    def op1(self, op, ins, fun, a=None, p=1, out='obj', post=False, outopen=None,
            keep=True, desc=None, parts=None, extra=None, unit=None):
        """Perform fun(*objects).

        out: 'obj'  - result is an MPArray
             'objs' - iterable of MPArrays
             'val'  - dense array or scalar
             'none' - result ignored
             'auto' - by type of result
        Returns id (or list of ids) / raw result
        """
        a = {} if a is None else a
        e = dict(op=op, a=a, p=p, outs=[], vals=[], exc='', chg=[])
        e['in'] = list(ins)
        e['irk'] = [self.ranks(i) for i in ins]
        if op == 'dumpload':
            e['icf'] = [int(c) for c in self.obj[ins[0]].canonical_form]
        ou, vu = self.out_unit(op, ins, a) if unit is None else (unit, unit)
        objs = [self.obj[i] for i in ins]
        res, exc = self.call(lambda: fun(*objs))
        ret = None
        if not exc:
            try:
                kind = out
                if kind == 'auto':
                    kind = 'obj' if isinstance(res, mp.MPArray) else 'val'
                if kind == 'obj':
                    res = [res]
                    kind = 'objs'
                    single = True
                else:
                    single = False
                if kind == 'objs':
                    res, exc = self.call(lambda: list(res))
                    ids = []
                    if not exc:
                        oo = (self.open.get(ins[0], 0) if ins else 0) if outopen is None else outopen
                        new = []
                        for r in res:
                            i = self.newid()
                            new.append((i, r, observe(r, i, oo, unit=ou)))
                        for i, r, o in new:
                            e['outs'].append(o)
                            self.obj[i] = r
                            self.dig[i] = digest(r)
                            self.unit[i] = ou
                            if oo:
                                self.open[i] = oo
                            ids.append(i)
                    ret = ids[0] if single and ids else ids
                elif kind == 'val':
                    e['vals'].append(enc_dense(res, vu))
                    ret = res
                elif kind == 'vals':
                    for r in res:
                        e['vals'].append(enc_dense(r, vu))
                    ret = res
                elif kind == 'objval':
                    r, v = res
                    i = self.newid()
                    e['outs'].append(observe(r, i, 0, unit=ou))
                    e['vals'].append(enc_dense(v, vu))
                    self.unit[i] = ou
                    self.obj[i] = r
                    self.dig[i] = digest(r)
                    ret = i
                elif kind == 'parts':
                    left, right, val = res
                    e['parts'] = [observe(left, 0, value=False), observe(right, 0, value=False)]
                    e['vals'].append(enc_dense(val, vu))
                    ret = (left, right)
                else:
                    ret = res
            except Exception as err:                # noqa: observation failed
                exc = 'ObservationFailed:' + type(err).__name__
        if exc:
            e['exc'] = exc
            e['outs'] = []
            e['vals'] = []
            ret = None
        try:
            if post:
                e['post'] = observe(self.obj[ins[0]], ins[0], self.open.get(ins[0], 0), value=False)
            if extra is not None and not exc:
                e['a'].update(extra(ret))
            e['chg'] = self.changes()
        except Exception as err:                    # noqa
            e['exc'] = e['exc'] or ('ObservationFailed:' + type(err).__name__)
            for i, o in self.obj.items():
                self.dig[i] = digest(o)
        self.events.append(e)
        self.cases.append('%s %s' % (self.case, desc or op))
        return ret

    def free(self, ids):
        ids = [i for i in ids if i in self.obj]
        if not ids:
            return
        for i in ids:
            self.obj.pop(i, None)
            self.open.pop(i, None)
            self.dig.pop(i, None)
        self.events.append(dict(op='free', a={}, p=1, outs=[], vals=[], exc='', chg=[],
                                irk=[], **{'in': list(ids)}))
        self.cases.append('')

    def stateless(self, ev, desc=''):
        self.events.append(ev)
        self.cases.append('%s %s' % (self.case, desc))

    def dump(self, path):
        with open(path, 'w') as f:
            json.dump(self.events, f)
        with open(path + '.cases', 'w') as f:
            json.dump(self.cases, f)

    # -- creation --------------------------------------------------------
    def scaled(self, ts):
        """site tensors in units of 2**case_unit, in some gauge"""
        ts = [np.array(t) for t in ts]
        if not self.units:
            return ts
        if self.case_unit:
            big = abs(self.case_unit) > 14
            ts = [t.astype({'i8': 'f8', 'i4': 'f8', 'f4': 'f8' if big else 'f4',
                            'c8': 'c16' if big else 'c8'}.get(t.dtype.str[1:], t.dtype.str[1:])) for t in ts]
            k = [0, len(ts) - 1, len(ts) // 2, -1][self.case_pos]
            if k >= 0:
                ts[k] = self.times(ts[k], self.case_unit)
            else:       # spread over the sites
                q, r = divmod(self.case_unit, len(ts))
                ts = [self.times(t, q + (j < r)) for j, t in enumerate(ts)]
        if len(ts) > 1 and self.urng.randint(4) == 0 and all(t.dtype.kind in 'fc' for t in ts):
            i, j = self.urng.permutation(len(ts))[:2]
            g = int(self.urng.randint(1, 4 if any(t.dtype.str[1:] in ('f4', 'c8') for t in ts) else 9))
            ts[i], ts[j] = self.times(ts[i], g), self.times(ts[j], -g)
        return ts

    @staticmethod
    def times(t, e):
        return (t * 2.0 ** e).astype(t.dtype)

    def new(self, lts, p=1, cls=None):
        cls = cls or mp.MPArray
        ts = self.scaled(lts)
        return self.op('new', [], lambda: cls(ts), a=dict(lts=[enc_int(t) for t in lts]), p=p, outopen=0,
                       unit=self.case_unit)
