# Python 2.7.  Records calls of the real code as events for Trace.tla.
# Nothing here judges an outcome: values are only written down.
import datetime
import json
import signal
import math
import zlib
from fractions import Fraction

import numpy as np

NOAXIS = -99


class Hang(BaseException):
    pass


def _onalarm(signum, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _onalarm)


# Argument wrappers ----------------------------------------------------------
class Lb(object):
    "a label"
    def __init__(self, v):
        self.v = v


class Lbs(object):
    "a list of labels"
    def __init__(self, v):
        self.v = list(v)


class Ce(object):
    "a cell"
    def __init__(self, v):
        self.v = v


class Rows(object):
    "a list of (label tuple, cell)"
    def __init__(self, rows):
        self.rows = rows


class Sn(object):
    "an object to be written down as a value, as it is now"
    def __init__(self, obj, flat=False):
        self.s = snap(obj)
        self.flat = flat


def kind_of(dtype):
    k = np.dtype(dtype).kind
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'S': 'S', 'U': 'S',
            'O': 'O'}.get(k, 'X' + k)


def tolist(x):
    return np.array(x, order='C', copy=True).reshape(-1).tolist()


def is_larry(o):
    return type(o).__name__ == 'larry' and hasattr(o, 'label')


# Snapshots ------------------------------------------------------------------
def snap(o, scalar_kind=None):
    if is_larry(o):
        x = o.x
        try:
            lab = [list(z) for z in o.label]
        except Exception:
            lab = [['unreadable label']]
        try:
            k = kind_of(x.dtype)
            sh = list(x.shape)
            d = tolist(x)
        except Exception:
            return ('L', 'X', [-1], [repr(x)], lab, 0, 0, '')
        return ('L', k, sh, d, lab, 0, x.dtype.itemsize if k == 'f' else 0,
                x.dtype.str)
    if isinstance(o, np.ndarray):
        k = kind_of(o.dtype)
        return ('L', k, list(o.shape), tolist(o), [], 1,
                o.dtype.itemsize if k == 'f' else 0, o.dtype.str)
    if o is None and scalar_kind is None:
        return ('N',)
    if isinstance(o, VIs):
        return ('I', list(o.v), o.lab)
    if isinstance(o, (tuple, list)):
        return ('V', [snap(z) for z in o])
    if scalar_kind is not None:
        return ('S', scalar_kind, o, 8)
    return ('S', skind(o), o, getattr(o, 'itemsize', 8))


class VIs(object):
    "integers or labels as a result"
    def __init__(self, v, lab=False):
        self.v = list(v)
        self.lab = lab


def skind(o):
    if isinstance(o, (bool, np.bool_)):
        return 'b'
    if isinstance(o, (int, long, np.integer)):
        return 'i'
    if isinstance(o, (float, np.floating)):
        return 'f'
    if isinstance(o, basestring):
        return 'S'
    return 'O'


# Universe of labels and strings -------------------------------------------
def _group(v):
    if v is None:
        return 0
    if isinstance(v, (bool, int, long, float, np.number, np.bool_)):
        return 1
    if isinstance(v, basestring):
        return 2
    if isinstance(v, tuple):
        return 3
    if isinstance(v, datetime.datetime):
        return 5
    if isinstance(v, datetime.date):
        return 4
    if isinstance(v, datetime.time):
        return 6
    return 7


def _key(v):
    if isinstance(v, unicode):
        return v
    return v


def _bytes(v):
    return v.encode('utf-8') if isinstance(v, unicode) else v


class Universe(object):

    def __init__(self, strict=False):
        self.strict = strict
        # floats as they are, not as the closest fraction
        self.bits = False
        self.labs = []
        self.seen = {}
        self.strs = set()
        self.ids = None
        self.extra = {}
        self.sextra = {}

    def k(self, v):
        if self.strict:
            return (type(v).__name__, v)
        return v

    def addlab(self, v):
        try:
            k = self.k(v)
            if k not in self.seen:
                self.seen[k] = 1
                self.labs.append(v)
        except TypeError:
            pass

    def addstr(self, v):
        if isinstance(v, basestring) and v != '':
            self.strs.add(str(v))

    def freeze(self):
        groups = {}
        for v in self.labs:
            groups.setdefault(_group(v), []).append(v)
        self.ids = {}
        n = 0
        for gk in sorted(groups):
            for v in sorted(groups[gk], key=_bytes):
                self.ids[self.k(v)] = n
                n += 1
        self.sid = dict((s, i + 1) for i, s in enumerate(sorted(self.strs)))
        self.n = n
        # a tuple label that looks like a tuple of other labels
        self.collide = any(isinstance(v, tuple) and len(v) > 0 and
                           all(self.known(z) for z in v) for v in self.labs)

    def known(self, v):
        try:
            return self.k(v) in self.ids
        except TypeError:
            return False

    def lab(self, v):
        try:
            i = self.ids.get(self.k(v))
        except TypeError:
            return 2999999
        if i is not None:
            return i
        if isinstance(v, tuple):
            code = 1
            for z in v:
                try:
                    i = self.ids.get(self.k(z))
                except TypeError:
                    i = None
                if i is None or i > 63 or code > 2 ** 24:
                    code = None
                    break
                code = code * 64 + i
            if code is not None and len(v) > 0:
                return code
        r = repr(v)
        if r not in self.extra:
            self.extra[r] = 2000000000 + len(self.extra)
        return self.extra[r]

    def str_(self, s):
        s = str(s)
        if s == '':
            return 0
        if s in self.sid:
            return self.sid[s]
        if s not in self.sextra:
            self.sextra[s] = 900000 + len(self.sextra)
        return self.sextra[s]

    # cells
    def cell(self, v, size=8):
        if v is None:
            return [4, 0, 0]
        if isinstance(v, (bool, np.bool_)):
            return [5, int(v), 0]
        if isinstance(v, (int, long, np.integer)):
            if abs(int(v)) < 2 ** 31:
                return [0, int(v), 1]
            return [9, int(v) % 1000003, 1]
        if isinstance(v, (float, np.floating)):
            return self.flt(float(v), size)
        if isinstance(v, basestring):
            return [3, self.str_(v), 0]
        return [9, hash(repr(v)) % 1000003, 2]

    def flt(self, v, size=8):
        if v != v:
            return [1, 0, 0]
        if math.isinf(v):
            return [2, 1 if v > 0 else -1, 0]
        if size >= 8:
            den, tol = 20000, 2e-11
        else:
            den, tol = 150, 5e-6
        f = Fraction(v).limit_denominator(den)
        if abs(f.numerator) >= 2 ** 31:
            return [9, int(abs(v)) % 1000003, 3]
        if self.bits:
            # operations that do not calculate
            if float(f) != v:
                return [9, zlib.crc32(repr(v)) % 1000003, 5]
            return [0, f.numerator, f.denominator]
        if abs(float(f) - v) <= tol * max(1.0, abs(v)):
            return [0, f.numerator, f.denominator]
        return [9, int(abs(v) * 1000) % 1000003, 4 if size >= 8 else 6]


def collect(s, u):
    t = s[0]
    if t == 'L':
        for l in s[4]:
            for v in l:
                u.addlab(v)
        if s[1] in ('S', 'O'):
            for v in s[3]:
                u.addstr(v)
    elif t == 'V':
        for z in s[1]:
            collect(z, u)
    elif t == 'S':
        u.addstr(s[2])


def enc_snap(s, u, tr=None):
    t = s[0]
    if t == 'L':
        d = s[3]
        if tr is not None:
            d = [tr(v) for v in d]
        return {'t': 'L', 'k': s[1], 'sh': s[2],
                'd': [u.cell(v, s[6] or 8) for v in d],
                'lab': [[u.lab(v) for v in l] for l in s[4]],
                'arr': s[5], 'dt': s[7]}
    if t == 'N':
        return {'t': 'N'}
    if t == 'I':
        if s[2]:
            return {'t': 'I', 'i': [u.lab(v) for v in s[1]]}
        return {'t': 'I', 'i': [int(v) for v in s[1]]}
    if t == 'V':
        return {'t': 'V', 'v': [enc_snap(z, u, tr) for z in s[1]]}
    v = s[2]
    if tr is not None:
        v = tr(v)
    return {'t': 'S', 'k': s[1], 'c': u.cell(v, s[3])}


def collect_arg(a, u):
    if isinstance(a, Lb):
        u.addlab(a.v)
    elif isinstance(a, Lbs):
        for v in a.v:
            u.addlab(v)
    elif isinstance(a, Ce):
        u.addstr(a.v)
    elif isinstance(a, Sn):
        collect(a.s, u)
    elif isinstance(a, dict):
        for z in a.values():
            collect_arg(z, u)
    elif isinstance(a, (list, tuple)):
        for z in a:
            collect_arg(z, u)


def enc_arg(a, u):
    if isinstance(a, Lb):
        return u.lab(a.v)
    if isinstance(a, Lbs):
        return [u.lab(v) for v in a.v]
    if isinstance(a, Ce):
        return u.cell(a.v)
    if isinstance(a, Sn):
        return enc_snap(a.s, u)
    if isinstance(a, Rows):
        out = []
        for l, c in a.rows:
            out.append({'l': [u.lab(v) for v in l], 'c': u.cell(c)})
        return out
    if isinstance(a, dict):
        return dict((k, enc_arg(v, u)) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return [enc_arg(v, u) for v in a]
    if isinstance(a, (bool, np.bool_)):
        return int(a)
    if isinstance(a, (int, long, np.integer)):
        return int(a)
    if isinstance(a, str):
        return a
    raise TypeError('cannot encode %r' % (a,))


# Sharing --------------------------------------------------------------------
def poke_data(x):
    if x.size == 0:
        return
    try:
        k = x.dtype.kind
        if k == 'b':
            x[...] = ~x
        elif k in 'iu':
            x[...] = x + 77
        elif k == 'f':
            x[...] = 9876.5
        elif k == 'S':
            x[...] = 'zzzz'
        elif k == 'O':
            x[...] = 'poked'
    except (ValueError, RuntimeError):
        pass


def poke_labels(o):
    for l in o.label:
        if isinstance(l, list):
            l.append('poked')
    if isinstance(o.label, list):
        o.label.append(['poked'])


def parts(o):
    if is_larry(o) or isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, VIs):
        return [o]
    if isinstance(o, (list, tuple)):
        r = []
        for z in o:
            r.extend(parts(z))
        return r
    return []


def handed(fn, inputs, outputs):
    """The lists and arrays that a call hands over besides its operands."""
    own = [id(outputs)]
    for o in inputs:
        own.append(id(o))
        if is_larry(o):
            own += [id(o.x), id(o.label)] + [id(l) for l in o.label]
    found = []

    def walk(o, depth=0):
        if id(o) in own or depth > 4:
            return
        if isinstance(o, (list, np.ndarray)):
            found.append(o)
        if isinstance(o, dict):
            o = list(o.values())
        if isinstance(o, (list, tuple)):
            for z in o:
                if isinstance(z, (list, tuple, dict, slice, np.ndarray)):
                    walk(z, depth + 1)
        elif isinstance(o, slice):
            walk((o.start, o.stop, o.step), depth + 1)
    for c in getattr(fn, '__closure__', None) or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if isinstance(v, (list, tuple, dict, slice, np.ndarray)):
            walk(v)
    return found


def repr_given(given):
    return repr([(o.tolist() if isinstance(o, np.ndarray) else
                  [z for z in o if not is_larry(z)]) for o in given])


def sharing(result, others, given=()):
    """Which parts of a result share memory or lists with `others`: found by
    changing the result and looking.  1 data, 2 labels, 4 two results, 8 a list
    or an array among the arguments."""
    flag = 0
    args = repr_given(given)
    try:
        flag = sharing_(result, others)
    finally:
        if repr_given(given) != args:
            flag |= 8
    return flag


def sharing_(result, others):
    flag = 0
    ps = parts(result)
    for i, p in enumerate(ps):
        before = [snap(o) for o in others]
        rest = [snap(q) for q in ps[i + 1:]]
        raw = getattr(p, 'live', None)
        if isinstance(p, VIs):
            if isinstance(raw, list):
                raw.append('poked')
                if repr(before) != repr([snap(o) for o in others]):
                    flag |= 2
                    raw.pop()
            continue
        poke_data(p.x if is_larry(p) else p)
        after = [snap(o) for o in others]
        if repr(before) != repr(after):
            flag |= 1
            before = after
        if is_larry(p):
            poke_labels(p)
            after = [snap(o) for o in others]
            if repr(before) != repr(after):
                flag |= 2
        if repr(rest) != repr([snap(q) for q in ps[i + 1:]]):
            flag |= 4
    return flag


class Recorder(object):

    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0
        self.counts = {}
        self.timeout = 20
        self.gen = None
        self.hangs = 0
        self.bits = False
        self.again = 0.1

    def call(self, fn, *a):
        signal.setitimer(signal.ITIMER_REAL, self.timeout)
        try:
            try:
                r = fn(*a)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            self.hangs += 1
            return 'hang', None, 'Hang'
        except Exception as e:
            return 'err', None, type(e).__name__
        return 'ok', r, ''

    def kind_of_result(self, op, pre, r, inplace, sk):
        "Cells of object arrays are objects, None included."
        if sk is None and pre and pre[0][0] == 'L' and pre[0][1] == 'O' \
           and not (is_larry(r) or isinstance(r, (np.ndarray, VIs, list,
                                                  tuple))) \
           and not (r is None and inplace is None and op != 'getitem'
                    and op != 'get' and op != 'lix' and op != 'pull'):
            sk = 'O'
        return sk

    def event(self, op, inputs, fn, args=None, inplace=None, out=None,
              tr=None, share=True, strict=False, scalar_kind=None, intr=None,
              outputs=None, again=True):
        """Call fn(*inputs) and write it down.

        inplace: number of the input whose state afterwards is the outcome.
        out: turns the returned object into the one that is written down.
        tr/intr: applied to cells of the outcome/inputs when written.
        outputs: dict filled with what fn wants to add to the event.
        """
        args = args or {}
        start = dict(outputs) if outputs is not None else None
        u = Universe(strict)
        u.bits = self.bits or op == 'assert_equal'
        pre = [snap(o) for o in inputs]
        given = handed(fn, inputs, outputs)
        given0 = repr_given(given)
        st, r, exc = self.call(fn, *inputs)
        changed = 16 if repr_given(given) != given0 else 0
        live = r
        if st == 'ok' and out is not None:
            r = out(r)
        if st == 'ok' and inplace is not None:
            r = inputs[inplace]
        osnap = None
        if st == 'ok':
            sk = self.kind_of_result(op, pre, r, inplace, scalar_kind)
            osnap = snap(r, sk)
        post = [snap(o) for o in inputs]
        for s in pre:
            collect(s, u)
        extra = dict(args)
        if outputs is not None:
            collect_arg(extra, u)
        else:
            collect_arg(extra, u)
        u.freeze()
        if u.collide and op in ('flatten', 'unflatten', 'panel', 'flattenlabel'):
            return st, r
        ev = {'id': self.n, 'op': op}
        ev['x'] = [enc_snap(s, u, intr) for s in pre]
        for k, v in extra.items():
            ev[k] = enc_arg(v, u)
        if outputs:
            for k, v in outputs.items():
                ev[k] = enc_arg(v, u)
        o = {'st': st, 'exc': exc}
        if st == 'ok':
            o['v'] = enc_snap(osnap, u, tr)
        ev['out'] = o
        p = [enc_snap(s, u, intr) for s in post]
        if inplace is not None and st == 'ok':
            p[inplace] = ev['x'][inplace]
        ev['post'] = [] if p == ev['x'] else p
        ev['alias'] = 0
        if st == 'ok' and share and inplace is None:
            try:
                ev['alias'] = sharing(live if out is None else r, inputs, given)
            except Exception:
                ev['alias'] = 0
        ev['alias'] |= changed
        if self.gen is not None:
            # operands that the search for sharing has not changed
            same = [o for o, s in zip(inputs, post)
                    if is_larry(o) and repr(snap(o)) == repr(s)]
            self.gen.unused([o for o in inputs if is_larry(o)])
            if len(same) == len(inputs) and st != 'hang':
                self.gen.used(same)
        self.write(ev)
        if again and self.gen is not None and st != 'hang' and inputs and \
                op not in ('maplabel', 'assert_equal', 'construct') and self.gen.p(self.again):
            # the same call on the same objects, changed in between
            now = [snap(o) for o in inputs]
            if repr(now) == repr(post):
                # (further operands of these are also written among the arguments)
                few = op in ('getitem', 'setitem', 'setmask', 'lix', 'lixset')
                if self.gen.reorder(inputs[:1] if few else inputs):
                    if outputs is not None:
                        outputs.clear()
                        outputs.update(start)
                    self.event(op, inputs, fn, args, inplace, out, tr, share, strict,
                               scalar_kind, intr, outputs, False)
        return st, r

    def write(self, ev):
        ev['id'] = self.n
        self.f.write(json.dumps(ev, sort_keys=True) + '\n')
        self.n += 1
        self.counts[ev['op']] = self.counts.get(ev['op'], 0) + 1

    def close(self):
        self.f.close()
