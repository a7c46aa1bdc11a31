# Python 2.7.  Random larrys, labels and arguments.
import datetime
import random

import numpy as np

nan = float('nan')
inf = float('inf')

D = datetime.date
DT = datetime.datetime

POOLS = {
    'int': list(range(-6, 40)),
    'bigint': [10 ** k for k in range(1, 9)] + list(range(1001, 1030)) + [-5000, -77],
    'str': ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'aa', 'ab', 'B', 'C', 'Z',
            'x1', 'x2', 'x10', 'long label', 'long label 2', '', ' ', 'None',
            'nan', '1', '2', '10', 'a,b', 'q"q', 'k1', 'k2', 'k3', 'k4', 'k5'],
    'float': [k + 0.5 for k in range(-5, 16)] + [-0.25, 0.125, 1e10, 3.75, 0.1, 1 / 3.,
                                                 0.3, 0.30000000000000004],
    'mixnum': list(range(-3, 12)) + [k + 0.5 for k in range(-3, 12)],
    'date': [D(2000, 1, 1) + datetime.timedelta(13 * k) for k in range(-10, 26)],
    'datetime': [DT(2001, 2, 3, 4, 5) + datetime.timedelta(0, 86399 * k, k)
                 for k in range(-8, 24)],
    'time': [datetime.time(k, 3 * k, k, 1000 * k) for k in range(0, 19)] +
            [datetime.time(0, k, 7) for k in range(1, 15)],
    'mix': list(range(-2, 12)) + ['a', 'b', 'c', 'd', 'e', '0', '1', 'zz'],
    'tuple': [(i, j) for i in range(4) for j in range(5)] +
             [('a', i) for i in range(8)],
    # at the edges of types, for archives
    'xint': [0, 1, -1, 127, -129, 255, 256, 32768, -32769, 65536] +
            [int(f * 2 ** k + d) for k in (31, 32, 53, 62) for f in (1, -1)
             for d in (-1, 0, 1)] + [int(2 ** 63 - 1), int(-2 ** 63 + 1), int(-2 ** 63)],
    'xfloat': [0.1, 1 / 3., 1e300, -1e300, 5e-324, -1e-5, 16777217.0, inf, -inf,
               2.5, 1e-300, 1.7976931348623157e308, 2.0 ** 53, 0.30000000000000004],
    'xstr': ['a' * 300, 'a' * 299 + 'b', '\xc3\xa9', '\xff\xfe', 'a\nb', '\t', ' ',
             '  ', 'a ', ' a', '\0a', 'a\0b', '', 'None', '1e5', '/', 'a/b', '.',
             '\\', '"', "'", '0'],
    'xdate': [D(1, 1, 1), D(9999, 12, 31), D(1582, 10, 4), D(1900, 2, 28),
              D(2000, 2, 29), D(1969, 12, 31), D(1970, 1, 1), D(2038, 1, 20),
              D(4, 3, 2), D(256, 1, 1), D(65, 12, 11)],
    'xdatetime': [DT(1, 1, 1), DT(9999, 12, 31, 23, 59, 59, 999999),
                  DT(1970, 1, 1, 0, 0, 0, 1), DT(2000, 2, 29, 23, 59, 59),
                  DT(1969, 12, 31, 23, 59, 59, 999999), DT(2038, 1, 19, 3, 14, 8),
                  DT(2001, 1, 1), DT(2001, 1, 1, 0, 0, 0, 128),
                  DT(2001, 1, 1, 0, 0, 0, 32768), DT(2001, 1, 1, 0, 0, 0, 65536)],
    'xtime': [datetime.time(), datetime.time(23, 59, 59, 999999),
              datetime.time(0, 0, 0, 1), datetime.time(0, 0, 1), datetime.time(0, 1),
              datetime.time(1), datetime.time(12, 0, 0, 65536),
              datetime.time(12, 0, 0, 32768), datetime.time(12, 0, 0, 255)],
    'unicode': [u'', u'a', u'b', u'c', u'd', u'e', u'Z', u'zz', u'\xe9', u'\xe9a', u'\u20ac',
                u'a b', u'aa', u'B', u'\uffff', u'\xdf', u'10', u'9', u'x1', u'x10',
                u'x2', u'k', u'l', u'm', u'n', u'o'],
    'npint': [np.int64(k) for k in range(-6, 30)],
    'none': ['a', 'b', 'c', 'd', 'e', 'f', '', 'g', 'None', 1, 2, 3, 0, 7, -1, 2.5, None, 10,
             20, 30],
}
POOLNAMES = ['int', 'int', 'int', 'str', 'str', 'str', 'float', 'mixnum',
             'date', 'mix', 'tuple', 'bigint', 'datetime', 'time', 'unicode',
             'npint', 'none']
SIMPLE = ['int', 'str', 'float', 'date']


def many(like, n):
    "n labels of the type of `like`."
    if isinstance(like, DT):
        return [DT(1990, 1, 1) + datetime.timedelta(k, 61 * k) for k in range(n)]
    if isinstance(like, D):
        return [D(1990, 1, 1) + datetime.timedelta(3 * k) for k in range(n)]
    if isinstance(like, datetime.time):
        return [datetime.time(k // 60 % 24, k % 60, k // 1440) for k in range(n)]
    if isinstance(like, str):
        return ['s%d' % k for k in range(n)]
    if isinstance(like, float):
        return [0.5 * k - 9 for k in range(n)]
    if isinstance(like, unicode):
        return [u'\xe9%d' % k for k in range(n)]
    if isinstance(like, np.int64):
        return [np.int64(k - 6) for k in range(n)]
    if isinstance(like, tuple):
        return [(k // 10, k % 10) for k in range(n)]
    return list(range(-6, n - 6))


class G(object):

    def __init__(self, la, seed):
        self.la = la
        self.r = random.Random(seed)
        # further styles of values, for operations that do not calculate
        self.exact = []
        # ints of all sizes
        self.small = False
        # how often an axis is long
        self.long = 0.0
        # larrys of earlier calls, by the arguments that made them
        self.reuse = 0
        self.pool = {}
        self.made = {}

    # basic choices
    def p(self, x):
        return self.r.random() < x

    def ri(self, a, b):
        return self.r.randint(a, b)

    def ch(self, seq):
        return self.r.choice(seq)

    def shuffled(self, seq):
        s = list(seq)
        self.r.shuffle(s)
        return s

    # labels
    def universe(self, n, pool=None):
        pool = pool or self.ch(POOLNAMES)
        base = POOLS[pool]
        if n > len(base):
            base = many(base[0], n + 40)
        return self.r.sample(base, n)

    def order(self, lab):
        z = self.r.random()
        if z < 0.6:
            return self.shuffled(lab)
        try:
            lab = sorted(lab)
        except TypeError:
            return self.shuffled(lab)
        if z < 0.8:
            lab.reverse()
        elif z > 0.97:
            # in the order of what is printed
            lab.sort(key=repr)
        return lab

    def labels(self, n, uni=None, pool=None):
        if uni is None:
            uni = self.universe(n + self.ri(0, 3), pool)
        return self.order(self.r.sample(uni, n))

    # values
    def values(self, n, kind, style=None, nanp=None, infp=0.0):
        r = self.r
        if kind == 'b':
            return [r.random() < 0.5 for _ in range(n)]
        if kind == 'S':
            base = ['', 'a', 'bb', 'ccc', 'd', 'E', 'ff', 'zz9', 'b', ' ', 'a ',
                    '0', ' b']
            if self.p(0.4):
                base = base[1:]
            return [r.choice(base) for _ in range(n)]
        if kind == 'O':
            base = [None, 'a', 'b', 'c', 'dd', 'e', None, '', ' ']
            if self.p(0.3):
                base = [None, 1, 2, 3, 2.5, 7, 0]
            return [r.choice(base) for _ in range(n)]
        if style is None:
            style = r.choice(['distinct', 'distinct', 'small', 'quarter',
                              'const', 'wide'] + self.exact)
        if style == 'distinct':
            v = [k - n // 3 for k in range(n)]
            r.shuffle(v)
            if kind == 'f' and self.p(0.4):
                v = [z + 0.5 for z in v]
        elif style == 'small':
            v = [r.randint(-3, 4) for _ in range(n)]
        elif style == 'quarter':
            v = [r.randint(-12, 12) / 4.0 for _ in range(n)]
        elif style == 'const':
            c = r.randint(-3, 4)
            v = [c] * n
        elif style == 'pos':
            v = [r.randint(1, 5) for _ in range(n)]
        elif style == 'wide':
            v = [r.randint(-90, 90) for _ in range(n)]
        elif style == 'posdistinct':
            v = list(range(1, n + 1))
            r.shuffle(v)
        elif style == 'bigint':
            # not exact in single precision
            v = [2 ** 24 + 1 + 2 * r.randint(0, 2 * n) for _ in range(n)]
        elif style == 'frac':
            d = r.choice([3, 7, 10, 1000]) if kind == 'f' else 1
            v = [r.randint(-3 * d, 3 * d) / float(d) for _ in range(n)]
        elif style == 'offset':
            # far from zero, compared with the differences
            c = r.choice([1000, -2000, 500, 3000])
            v = [c + r.randint(-2, 2) for _ in range(n)]
        elif style == 'ties':
            v = [r.randint(0, 2) for _ in range(n)]
        else:
            raise ValueError(style)
        if kind == 'i':
            return [int(z) for z in v]
        v = [float(z) for z in v]
        if nanp is None:
            nanp = r.choice([0, 0, 0.15, 0.3, 0.5, 0.9, 1.0])
        for i in range(n):
            if r.random() < nanp:
                v[i] = nan
            elif infp and r.random() < infp:
                v[i] = r.choice([inf, -inf])
        return v

    def dtype(self, kind, f4=True):
        if kind == 'f':
            return np.float32 if f4 and self.p(0.06) and not self.exact \
                else np.float64
        if kind == 'i':
            return self.ch([np.int64, np.int64, np.int64, np.int32])
        return {'b': np.bool_, 'S': 'S5', 'O': object}[kind]

    def layout(self, x):
        "The same array with another memory layout."
        z = self.r.random()
        if z < 0.6 or x.ndim == 0:
            return x
        if z < 0.72:
            return np.array(x, order='F')
        if z < 0.84:
            big = np.empty([2 * n + 1 for n in x.shape], dtype=x.dtype)
            big[...] = 0 if x.dtype.kind in 'fibu' else (
                '' if x.dtype.kind == 'S' else None)
            idx = [slice(0, 2 * n, 2) for n in x.shape]
            big[idx] = x
            return big[idx]
        if z < 0.92:
            idx = [slice(None, None, -1)] * x.ndim
            return np.array(x[idx])[idx]
        return np.ascontiguousarray(x.T).T

    def array(self, sh, kind, f4=True, layout=True, **kw):
        n = 1
        for s in sh:
            n *= s
        v = self.values(n, kind, **kw)
        dt = self.dtype(kind, f4)
        if self.exact and kind == 'S' and self.p(0.5):
            dt = self.ch(['S3', 'S4', 'S11'])
        if self.small and kind == 'i' and v and self.p(0.4):
            lo, hi = min(v), max(v)
            dt = self.ch([t for t in (np.int8, np.uint8, np.int16, np.uint16,
                                      np.int32, np.uint32, np.int64)
                          if lo >= np.iinfo(t).min and hi <= np.iinfo(t).max])
        x = np.empty(n, dtype=dt)
        for i in range(n):
            x[i] = v[i]
        x = x.reshape(sh)
        return self.layout(x) if layout else x

    def shape(self, ndim=None, maxn=5, minn=0, big=True, maxsize=160):
        if ndim is None:
            ndim = self.ch([1, 1, 1, 2, 2, 2, 2, 3, 3, 4])
            if ndim == 4 and big and self.p(0.2):
                ndim = 5
        while 1:
            sh = []
            for _ in range(ndim):
                z = self.r.random()
                if z < 0.04:
                    n = 0
                elif z < 0.18:
                    n = 1
                elif z < 0.92 or not big:
                    n = self.ri(2, maxn)
                else:
                    n = self.ri(2, {1: 30, 2: 12, 3: 6, 4: 4, 5: 3}[ndim])
                sh.append(max(n, minn))
            t = 1
            for s in sh:
                t *= s
            if t <= maxsize:
                break
        if self.long and big and maxn >= 4 and self.p(self.long):
            # up to 300 on one axis
            a = self.ri(0, ndim - 1)
            sh = [2 if n > 2 else n for n in sh]
            sh[a] = self.ri(33, max(34, 300 // 2 ** sum(n > 1 for n in sh)))
        return sh

    KINDS = ['f', 'f', 'f', 'f', 'f', 'i', 'i', 'b', 'S', 'O']

    def kind(self, kinds=None):
        return self.ch(kinds or self.KINDS)

    def larry(self, sh=None, kind=None, kinds=None, unis=None, labs=None,
              pool=None, ndim=None, maxn=5, minn=0, big=True, maxsize=160,
              **kw):
        key = None
        if self.reuse and sh is None and unis is None and labs is None and \
                'style' not in kw:
            key = repr((kind, kinds, pool, ndim, maxn, minn, big, maxsize,
                        sorted(kw.items()), bool(self.exact), self.small))
            old = self.pool.get(key)
            if old and self.p(self.reuse):
                y = self.ch(old)
                if self.p(0.7):
                    self.disturb(y, pool)
                return y
        if sh is None:
            sh = self.shape(ndim, maxn=maxn, minn=minn, big=big,
                            maxsize=maxsize)
        kind = kind or self.kind(kinds)
        x = self.array(sh, kind, **kw)
        if labs is None:
            labs = [self.labels(n, unis[a] if unis else None, pool)
                    for a, n in enumerate(sh)]
        y = self.la.larry(x, labs)
        if key is not None:
            self.made[id(y)] = (key, y)
        return y

    def disturb(self, y, pool):
        "Change a larry in place, without the help of la."
        a = self.ri(0, y.ndim - 1)
        n = y.shape[a]
        z = self.ri(0, 6)
        if z == 0:
            y.label[a].reverse()
        elif z == 1:
            self.r.shuffle(y.label[a])
        elif z == 2:
            y.label[a] = self.shuffled(y.label[a])
        elif z == 3 and n > 1:
            l = y.label[a]
            i = self.ri(0, n - 2)
            l[i], l[i + 1] = l[i + 1], l[i]
        elif z == 4 and n:
            new = [l for l in self.extras(y.label[a]) if l not in y.label[a]]
            if new:
                y.label[a][self.ri(0, n - 1)] = new[0]
        elif z == 5 and y.size > 1:
            i, j = self.cell(y.shape), self.cell(y.shape)
            v = y.x[i]
            y.x[i] = y.x[j]
            y.x[j] = v
        elif z == 6:
            y.x = y.x.copy()[::-1]

    def reorder(self, objs):
        """Change some of the objects in place, without the help of la: put
        cells or labels in another order.  False if none could be changed."""
        done = False
        for o in objs:
            if len(objs) > 1 and self.p(0.4):
                continue
            lar = hasattr(o, 'label')
            x = o.x if lar else o
            if not hasattr(x, 'dtype') or x.ndim == 0 or x.size < 2:
                continue
            z = self.ri(0, 5) if lar else 0
            if z < 2:
                if not x.flags.writeable:
                    continue
                i, j = self.cell(x.shape), self.cell(x.shape)
                v = x[i]
                x[i] = x[j]
                x[j] = v
            elif z < 4:
                # (a new list: the old one may be an argument of the call)
                a = self.ri(0, o.ndim - 1)
                o.label[a] = self.shuffled(o.label[a])
            elif z == 4:
                o.label = [self.shuffled(l) for l in o.label]
            else:
                o.x = o.x.copy()[::-1]
            done = True
        return done

    def cell(self, sh):
        return tuple([self.ri(0, n - 1) for n in sh])

    def used(self, objs):
        "Larrys that were the operands of a call and are as they should be."
        for o in objs:
            key = self.made.get(id(o), (None, None))[0]
            if key is not None:
                l = self.pool.setdefault(key, [])
                if not any(z is o for z in l):
                    l.append(o)
                    if len(l) > 6:
                        del l[0]
                    if len(self.made) > 3000:
                        keep = [z for v in self.pool.values() for z in v]
                        self.made = dict((i, v) for i, v in self.made.items()
                                         if any(z is v[1] for z in keep))

    def unused(self, objs):
        for l in self.pool.values():
            for o in objs:
                l[:] = [z for z in l if z is not o]

    def axis(self, nd, none=0.0, bad=0.03):
        z = self.r.random()
        if z < none:
            return None
        if z < none + bad:
            return self.ch([nd, nd + 1, -nd - 1])
        return self.ri(-nd, nd - 1)

    # pairs of larrys with related labels
    def related(self, lab, uni):
        "Labels related to lab, from the universe uni (a superset)."
        z = self.r.random()
        if z < 0.25:
            return list(lab)
        if z < 0.45:
            return self.order(lab)
        if z < 0.55:
            return self.labels(len(lab), uni)
        rest = [u for u in uni if u not in lab]
        if z < 0.6 and lab:
            # almost the same
            l = list(lab)
            w = self.ri(0, 3)
            i = self.ch([0, len(l) - 1, self.ri(0, len(l) - 1)])
            if w == 0:
                l[i], l[i - 1] = l[i - 1], l[i]
            elif w == 1 and rest:
                l[i] = self.ch(rest)
            elif w == 2:
                del l[i]
            elif rest:
                l.insert(self.ch([0, len(l), i]), self.ch(rest))
            return l
        if z < 0.65 and rest:
            return self.order(self.r.sample(rest, self.ri(1, len(rest))))
        if z < 0.75 and lab:
            return self.order(self.r.sample(lab, self.ri(0, len(lab))))
        if z < 0.87:
            return self.order(list(lab) + self.r.sample(rest, self.ri(0, len(rest))))
        return self.labels(self.ri(0, len(uni)), uni)

    def pair(self, kinds=None, kind1=None, kind2=None, ndim=None, badnd=0.03,
             maxsize=60, kw1={}, kw2={}, **kw):
        nd = ndim or self.ch([1, 1, 2, 2, 2, 3])
        sh = self.shape(nd, maxn=4, maxsize=maxsize)
        unis = [self.universe(n + self.ri(0, 4)) for n in sh]
        k1 = kind1 or self.kind(kinds)
        k2 = kind2 or (k1 if self.p(0.6) else self.kind(kinds))
        a = dict(kw)
        a.update(kw1)
        b = dict(kw)
        b.update(kw2)
        while 1:
            x = self.larry(sh, k1, unis=unis, **a)
            labs = [self.related(x.label[i], unis[i]) for i in range(nd)]
            if self.p(0.15):
                labs = [list(l) for l in x.label]
            t = 1
            for l in labs:
                t *= len(l)
            if t <= 2 * max(maxsize, x.size):
                break
        if self.p(badnd):
            if nd > 1 and self.p(0.5):
                labs = labs[:-1]
            else:
                labs = labs + [self.labels(self.ri(1, 3))]
        y = self.larry([len(l) for l in labs], k2, labs=labs, **b)
        if k1 == k2 and a == b and self.p(0.03):
            return x, x
        return x, y

    def extras(self, lab):
        "Labels comparable with those of lab and different from them."
        out = []
        for _ in range(4):
            l = self.like_label(lab)
            if l not in lab and l not in out:
                out.append(l)
        return out

    def like_label(self, lab):
        "A label comparable with those of lab, most likely not one of them."
        if lab:
            for name in ('int', 'str', 'float', 'mixnum', 'date', 'bigint',
                         'datetime', 'time', 'mix', 'tuple'):
                if all(type(l) is type(POOLS[name][0]) for l in lab) and \
                   name in ('int', 'str', 'float', 'date', 'datetime', 'time',
                            'tuple'):
                    return self.ch(POOLS[name])
            if all(isinstance(l, unicode) for l in lab):
                return self.ch(POOLS['unicode'])
            if all(isinstance(l, np.int64) for l in lab):
                return self.ch(POOLS['npint'])
            if any(l is None for l in lab):
                return self.ch(POOLS['none'])
            if all(isinstance(l, (int, float)) for l in lab):
                return self.ch(POOLS['mixnum'])
            return self.ch(POOLS['mix'])
        return 'no such label'
