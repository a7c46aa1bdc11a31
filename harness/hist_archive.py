# Python 2.7.  hist_archive.py LADIR PROP N SEED OUT: histories of archives.
#
# Drives IO, lara and the archive functions of the real code on HDF5 files in
# a scratch directory and writes down, for every step, the operation, its
# outcome, and what can be seen of the archive afterwards.  The histories are
# judged by ArchiveTrace.tla.  With a PLAN file (LA_PLAN), replays the
# behaviours in it instead of making up random ones.
import json
import os
import random
import shutil
import sys
import tempfile
import traceback
import warnings

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
ladir, prop, n, seed, out = sys.argv[1:6]
n = int(n)
sys.path.insert(0, ladir)

import numpy as np
np.seterr(all='ignore')
warnings.simplefilter('ignore')
import h5py

import la
import rec
import gen
from rec import Lb, Lbs, Ce, Sn, VIs, Universe, NOAXIS, is_larry, snap
from rec import collect_arg, enc_arg
import ops_core as oc

assert os.path.abspath(la.__file__).startswith(os.path.abspath(ladir)), la.__file__

DATEPOOLS = ['int', 'int', 'str', 'str', 'float', 'date', 'datetime', 'time',
             'bigint', 'xint', 'xfloat', 'xstr', 'xdate', 'xdatetime', 'xtime']
KEYS = ['a', 'b', 'a/b', 'a/1', 'a/b/c', 'b/0', 'c/d', 'c', 'a/x', '0',
        'x', 'key one', 'b/1', 'a/b/x', 'c/d/e/f', 'larry', 'A']


def path_of(key):
    return [z for z in key.split('/')]


def axis_types(label):
    r = []
    for l in label:
        t = []
        for v in l:
            z = type(v).__name__
            if z == 'str' and v.endswith('\0'):
                z = 'str with a trailing null'
            if z not in t:
                t.append(z)
        r.append(t)
    return r


class History(object):

    def __init__(self, g, base, R):
        self.g = g
        self.dir = tempfile.mkdtemp(prefix='h', dir=base)
        self.fn = os.path.join(self.dir, 'arch.hdf5')
        h5py.File(self.fn).close()
        self.io = [la.IO(self.fn)]
        self.R = R
        self.ev = []
        self.shadow = {}
        self.dead = False
        self.laras = {}
        self.old = []

    # making things
    def larry(self, bad=0.0, small=False, shape=None):
        g = self.g
        z = g.r.random()
        sh = shape or g.shape(g.ch([1, 1, 2, 2, 3]), maxn=3 if small else 4,
                              big=False, maxsize=30)
        k = g.ch(['f', 'f', 'f', 'i', 'b', 'S'])
        labs = []
        for m in sh:
            pool = g.ch(DATEPOOLS)
            if m <= 2 and g.p(0.03):
                labs.append(g.r.sample([True, False], m))
            else:
                labs.append(g.labels(m, pool=pool))
        y = g.larry(list(sh), k, labs=labs)
        if k == 'f' and g.p(0.1) and not g.exact:
            y.x = y.x.astype(np.float32)
        elif k == 'i' and g.p(0.3):
            y.x = y.x.astype(g.ch([np.int32, np.int64] if g.exact else
                                  [np.int8, np.int16, np.int32, np.int64]))
        if z < bad and y.size:
            w = g.ri(0, 6)
            a = g.ri(0, y.ndim - 1)
            if w == 0:
                y.x = y.x.astype(object)
            elif w == 1:
                y.x = np.array(['u'] * y.size).astype('U').reshape(y.shape)
            elif w == 2:
                y.label[a] = [(i, i + 1) for i in range(y.shape[a])]
            elif w == 3:
                y.label[a][-1] = None
            elif w == 4:
                y.label[a][-1] = u'u'
            elif w == 5:
                y.label[a] = [str(i) for i in range(y.shape[a])]
                y.label[a][g.ri(0, y.shape[a] - 1)] += '\0'
            elif y.shape[a] > 1:
                y.label[a] = [0.5 + i for i in range(y.shape[a] - 1)] + ['s']
            else:
                y.label[a] = [frozenset([1])]
        return y

    def existing(self):
        ks = sorted(self.shadow)
        return self.g.ch(ks) if ks else None

    def key(self, there=0.5):
        g = self.g
        if self.shadow and g.p(there):
            return self.existing()
        if self.shadow and g.p(0.25):
            # near an existing one
            k = self.existing()
            return g.ch([k + '/x', k + '/0', k + '/1', k + '/2', k + '/n',
                         k.rsplit('/', 1)[0]])
        return g.ch(KEYS)

    def who(self):
        g = self.g
        if g.p(0.1) and len(self.io) < 3:
            self.io.append(la.IO(self.fn))
        return g.ch(self.io)

    def lara(self, key):
        if key in self.laras and self.g.p(0.5):
            return self.laras[key]
        l = self.who()[key]
        self.laras[key] = l
        return l

    # what can be seen
    def observe(self):
        ks = la.archive_directory(self.fn)
        obs = []
        for k in ks:
            k = str(k)
            y = la.load(self.fn, k)
            obs.append((k, y))
        return obs

    def enc_obs(self, obs):
        return [{'key': path_of(k), 'v': Sn(y), 'dt': y.x.dtype.str}
                for k, y in obs]

    def step(self, op, fn, key=None, x=(), out=None, args=None, keyok=1,
             post=None):
        e = {'op': op, 'key': path_of(key) if isinstance(key, str) else [],
             'keyok': keyok, 'x': [Sn(z) for z in x]}
        e.update(args or {})
        st, r, exc = self.R.call(fn)
        o = {'st': st, 'exc': exc}
        if st == 'ok':
            if out is not None:
                r = out(r)
            e['outv'] = Sn(r)
        e['out'] = o
        if post is not None and st == 'ok':
            e.update(post())
        st2, obs, exc2 = self.R.call(self.observe)
        if st2 == 'ok':
            e['usable'] = 1
            e['obs'] = self.enc_obs(obs)
            self.shadow = dict(obs)
        else:
            e['usable'] = 0
            e['obs'] = []
            e['why'] = exc2
            self.dead = True
        e['files'] = len(os.listdir(self.dir)) - (1 if os.path.exists(self.fn) else 0)
        self.ev.append(e)
        return st

    def forget(self, key=None):
        for k in list(self.laras):
            if key is None or k == key:
                self.old.append((k, self.laras.pop(k)))

    # operations
    def do_save(self, key=None, y=None, over=None, bad=0.15):
        g = self.g
        key = self.key() if key is None else key
        y = self.larry(bad=bad) if y is None else y
        over = g.ri(0, 2) > 0 if over is None else over
        keyok, isl, val = 1, 1, y
        z = g.r.random()
        kk = key
        if bad and z < 0.02:
            kk, keyok = g.ch([5, None, unicode(key), ('a',)]), 0
        elif bad and z < 0.04:
            val, isl = g.ch([y.x, [1, 2], 5, None, 'a']), 0
        args = {'lt': axis_types(y.label), 'dt': y.x.dtype.kind,
                'dts': y.x.dtype.str, 'isl': isl, 'over': 1 if over else 0}
        w = g.ri(0, 2)
        if over:
            io = self.who()

            def fn():
                io[kk] = val
        elif w:
            fn = lambda: la.save(self.fn, val, kk)
        else:
            def fn():
                f = h5py.File(self.fn)
                try:
                    return la.save(f, val, kk)
                finally:
                    f.close()
        self.forget(key)
        self.step('setitem' if over else 'save', fn, key, [y], args=args,
                  keyok=keyok)

    def do_delete(self, key=None, way=None):
        g = self.g
        key = self.key(0.8) if key is None else key
        keyok = 1
        kk = key
        if g.p(0.02):
            kk, keyok = g.ch([5, None, unicode(key)]), 0
        w = g.ri(0, 3) if way is None else way
        if w == 0:
            fn = lambda: la.io.delete(self.fn, kk)
        elif w == 1:
            def fn():
                f = h5py.File(self.fn)
                try:
                    return la.io.delete(f, kk)
                finally:
                    f.close()
        else:
            io = self.who()

            def fn():
                del io[kk]
        self.forget(key)
        self.step('delete' if w < 2 else 'del', fn, key, keyok=keyok)

    def do_load(self, key=None):
        g = self.g
        key = self.key(0.8) if key is None else key
        w = g.ri(0, 3)
        keyok = 1
        kk = key
        if w < 2 and g.p(0.03):
            kk, keyok = g.ch([5, None, unicode(key)]), 0
        if w == 0:
            fn = lambda: la.load(self.fn, kk)
        elif w == 1:
            def fn():
                f = h5py.File(self.fn)
                try:
                    return la.load(f, kk)
                finally:
                    f.close()
        else:
            io = self.who()
            fn = lambda: io[kk][:]
        self.step('load', fn, key, keyok=keyok)

    def do_contains(self, key=None):
        g = self.g
        key = self.key(0.6) if key is None else key
        io = self.who()
        kk, keyok = key, 1
        if g.p(0.03):
            kk, keyok = g.ch([5, None]), 0
        fn = g.ch([lambda: kk in io, lambda: io.has_key(kk)])
        self.step('contains', fn, key, out=lambda r: VIs([1 if r else 0]),
                  keyok=keyok)

    def do_len(self):
        io = self.who()
        self.step('len', lambda: len(io), out=lambda r: VIs([r]))

    def do_listing(self):
        g = self.g
        io = self.who()
        w = g.ri(0, 8)
        got = []

        def full(z):
            return z[:] if not is_larry(z) else z

        def fn():
            if w in (0, 1, 2, 3):
                ks = [lambda: io.keys(), lambda: list(io.iterkeys()),
                      lambda: list(io), lambda: la.archive_directory(self.fn)][w]()
                got.extend([(k, la.load(self.fn, str(k))) for k in ks])
            elif w in (4, 5):
                vs = io.values() if w == 4 else list(io.itervalues())
                ks = io.keys()
                if len(ks) != len(vs):
                    got.append(('#', full(vs[0]) if vs else la.larry([1])))
                got.extend([(k, full(v)) for k, v in zip(ks, vs)])
            elif w in (6, 7):
                it = io.items() if w == 6 else list(io.iteritems())
                got.extend([(k, full(v)) for k, v in it])
            else:
                # the printed table: sorted keys, dtypes and shapes
                rows = [l.split('  ') for l in repr(io).split('\n')[2:] if l.strip()]
                ks = []
                for r in rows:
                    r = [z.strip() for z in r if z.strip()]
                    y = la.load(self.fn, r[0])
                    if r[1] != str(y.x.dtype) or r[2] != str(y.shape):
                        y = la.larry([1], [['wrong row']])
                    got.append((r[0], y))
                    ks.append(r[0])
                if ks != sorted(ks):
                    got.append((ks[0], y))
            return None
        self.step('listing', fn, post=lambda: {
            'list': self.enc_obs([(str(k), y) for k, y in got])})

    def do_isarch(self):
        key = self.key(0.6)
        w = self.g.ri(0, 1)

        def fn():
            if w:
                return la.io.is_archived_larry(self.fn, key)
            f = h5py.File(self.fn)
            try:
                return la.io.is_archived_larry(f, key)
            finally:
                f.close()
        self.step('is_larry', fn, key, out=lambda r: VIs([1 if r else 0]))

    def do_meta(self, key=None):
        key = self.key(0.9) if key is None else key

        def fn():
            z = self.lara(key)
            y = la.larry(np.zeros(z.shape, dtype=z.dtype), z.copylabel()
                         if self.g.p(0.5) else z.label, validate=False)
            return [y, z.ndim, z.size]

        def out(r):
            s = r[0]
            s2 = la.larry(np.zeros(0, dtype=s.x.dtype), [[]])
            return Meta(s, r[1], r[2])
        self.step('meta', fn, key, out=out)

    def do_stale(self):
        """A lara reports what is in the archive now, not what was once."""
        if not self.old:
            return
        key, z = self.g.ch(self.old)

        def fn():
            y = la.larry(np.zeros(z.shape, dtype=z.dtype), [], validate=False)
            return [y, z.ndim, z.size]
        self.step('stale', fn, key, out=lambda r: Meta(*r))

    def do_lookup(self):
        g = self.g
        key = self.existing()
        if key is None:
            return
        y = self.shadow[key]
        w = g.ri(0, 3)
        ax = g.axis(y.ndim, none=0, bad=0.03)
        a = ax if -y.ndim <= ax < y.ndim else 0
        if w == 0:
            name = g.ch(y.label[a]) if y.label[a] and g.p(0.9) else \
                g.like_label(y.label[a])
            self.step('labelindex', lambda: self.lara(key).labelindex(name, ax),
                      key, args={'name': Lb(name), 'ax': ax, 'exact': 1},
                      out=lambda r: VIs([r]))
        elif w == 1:
            self.step('getlabel', lambda: self.lara(key).getlabel(ax), key,
                      args={'ax': ax}, out=lambda r: VIs(r, True))
        else:
            none = g.p(0.3)
            if none and (len(set(type(v) for l in y.label for v in l)) > 1):
                none = False
            if not y.size:
                return
            op = ['maxlabel', 'minlabel'][w - 2]
            self.step(op, lambda: getattr(self.lara(key), op)(
                None if none else ax), key,
                args={'ax': NOAXIS if none else ax},
                out=lambda r: VIs([r], True))

    def do_partget(self, key=None):
        g = self.g
        key = self.existing() if key is None else key
        if key is None or self.shadow[key].ndim == 0:
            return
        y = self.shadow[key]
        o, t = oc.index(g, y)
        self.step('partget', lambda: self.lara(key)[o], key, args={'ix': t})

    def do_partset(self, key=None):
        g = self.g
        key = self.existing() if key is None else key
        if key is None:
            return
        y = self.shadow[key]
        if y.x.dtype.kind in 'i' and y.x.dtype.itemsize < 2:
            return
        z = g.r.random()
        if z < 0.1:
            labs = [list(l) for l in y.label]
            if g.p(0.2):
                a = g.ri(0, y.ndim - 1)
                labs[a] = g.related(labs[a], labs[a] + g.extras(labs[a]))
            m = g.larry([len(l) for l in labs], 'b', labs=labs)
            k, c = oc.scalar_for(g, y)

            def fn():
                self.lara(key)[m] = c
            self.step('maskset', fn, key, [m], args={
                'v': {'y': 's', 'k': k, 'c': Ce(c), 'sh': [], 'd': [], 'lab': []}})
            return
        if z < 0.6:
            o, t = oc.index(g, y, seqs=(), strict=True) if False else \
                self.simple_index(y)
        else:
            o, t = oc.index(g, y, seqs=('q', 'b'), strict=True)
        v, enc = oc.value_for(g, y, oc.mksel(g, y, t))

        def fn():
            self.lara(key)[o] = v
        self.step('partset', fn, key, args={'ix': t, 'v': enc})

    def simple_index(self, y):
        g = self.g
        m = g.ri(1, y.ndim)
        objs, toks = [], []
        for a in range(m):
            while 1:
                o, t = oc.token(g, y, a, ['i', 's', 's'])
                if t['y'] == 'i' or t['v'][2] == NOAXIS or t['v'][2] > 0:
                    break
            objs.append(o)
            toks.append(t)
        if m == 1 and g.p(0.5):
            return objs[0], toks
        return tuple(objs), toks

    def do_clear(self):
        io = self.who()
        self.forget()
        self.step('clear', lambda: io.clear())

    def do_repack(self):
        g = self.g
        w = g.ri(0, 3)
        io = self.who()

        def fn():
            if w < 2:
                return io.repack()
            if w == 2:
                return la.io.repack(self.fn)
            f = h5py.File(self.fn)
            f2 = la.io.repack(f)
            try:
                ks = la.archive_directory(f2)
                if len(ks) and g.p(0.5):
                    la.load(f2, str(ks[0]))
            finally:
                f2.close()
            return None
        self.step('repack', fn)

    def do_reopen(self):
        """Read the bytes on disk through a copy of the file; start anew."""
        def fn():
            if not os.path.exists(self.fn):
                return None
            d = tempfile.mkdtemp(prefix='c', dir=os.path.dirname(self.dir))
            try:
                c = os.path.join(d, 'copy.hdf5')
                shutil.copyfile(self.fn, c)
                a = [(str(k), la.load(c, str(k))) for k in la.archive_directory(c)]
                b = self.observe()
                if repr([snap(z) for z in a]) != repr([snap(z) for z in b]):
                    raise ValueError('the file on disk differs')
            finally:
                shutil.rmtree(d)
            self.io = [la.IO(self.fn)]
            self.laras = {}
            return None
        self.step('reopen', fn)

    def do_big(self):
        """A large larry, in a file of its own."""
        g = self.g
        nd = g.ri(1, 3)
        if nd == 1:
            sh = [g.ch([32767, 32768, 65536, 70001])]
        elif nd == 2:
            sh = g.ch([[200, 200], [2, 40000], [70000, 1], [257, 256]])
        else:
            sh = g.ch([[40, 41, 30], [2, 3, 12000], [33, 1, 1000]])
        kind = g.ch(['f8', 'i8', 'i4', 'b1', 'f4'])
        x = (np.arange(int(np.prod(sh))) * 7 % 1009 % g.ch([2, 10, 1009])).astype(kind)
        if g.p(0.5):
            x[g.ri(0, x.size - 1)] = 1
        x = x.reshape(sh)
        label = []
        for m in sh:
            z = g.ri(0, 2)
            label.append([i * 3 for i in range(m)] if z == 0 else
                         ['n%d' % i for i in range(m)] if z == 1 else
                         [i / 2.0 for i in range(m)])
        y = la.larry(x, label)
        over = g.p(0.3)

        def fn():
            d = tempfile.mkdtemp(prefix='c', dir=os.path.dirname(self.dir))
            try:
                f = os.path.join(d, 'big.hdf5')
                io = la.IO(f)
                if over:
                    io['k'] = la.larry([1, 2])
                io['k'] = y
                l = io['k']
                meta = [l.ndim, l.size] + list(l.shape)
                same = [1 if l.dtype == x.dtype else 0]
                z = g.ch([lambda: io['k'][:], lambda: la.load(f, 'k')])()
                same.append(int((z.x == x).sum()))
                same.append(1 if z.label == label and l.label[0][:] is not None else 0)
                b = [g.ri(0, m - 1) for m in sh]
                w = io['k'][tuple(slice(i, i + 1) for i in b)]
                same.append(1 if w.x.reshape(-1)[0] == x[tuple(b)] and
                            [q[0] for q in w.label] == [label[a][i] for a, i in enumerate(b)]
                            else 0)
                return [int(v) for v in meta + same]
            finally:
                shutil.rmtree(d)
        self.step('big', fn, out=lambda r: VIs(r), args={'dims': sh})

    def do_foreign(self, key=None):
        g = self.g
        key = g.ch(['f', 'g/data', 'a/note', 'b', 'n/x']) if key is None else key

        def fn():
            f = h5py.File(self.fn)
            try:
                if key in f:
                    return 'there'
                f[key] = np.arange(3)
            finally:
                f.close()
            return None
        st, r, exc = self.R.call(fn)
        if st == 'ok' and r is None:
            self.step('foreign', lambda: None, key)


class Meta(object):
    def __init__(self, y, ndim, size):
        self.y, self.ndim, self.size = y, ndim, size


def snap_meta(m):
    s = list(snap(m.y))
    s[3] = []
    return ('V', [tuple(s), ('I', [m.ndim, m.size], False)])


_snap = rec.snap


def snap2(o, scalar_kind=None):
    if isinstance(o, Meta):
        return snap_meta(o)
    return _snap(o, scalar_kind)


rec.snap = snap2

WEIGHTS = {
    'C27': dict(save=10, delete=5, load=3, contains=3, len=1, listing=4, isarch=2,
                meta=1, partget=1, partset=2, clear=0.5, repack=1, reopen=1,
                foreign=0.7, lookup=0.5),
    'C28': dict(save=10, delete=1, load=6, meta=5, lookup=4, listing=2, partset=1,
                reopen=2, repack=0.5, partget=1, big=0.15, stale=1),
    'C29': dict(save=4, delete=0.5, partget=14, partset=12, load=1, lookup=1,
                repack=0.3, reopen=0.5, meta=0.5, stale=0.7),
    'C30': dict(save=14, delete=5, load=2, foreign=1.5, contains=1, partset=2,
                reopen=1, isarch=1, repack=0.5, listing=1),
    'C31': dict(save=6, delete=2, partset=2, repack=8, load=1, foreign=1, reopen=1),
}
STEPS = {'C27': 24, 'C28': 14, 'C29': 24, 'C30': 22, 'C31': 16}


def one_history(g, base, R):
    h = History(g, base, R)
    w = WEIGHTS[prop]
    names = sorted(w)
    tot = sum(w.values())
    # start with something
    for _ in range(g.ri(0, 2) if prop in ('C27', 'C30') else g.ri(1, 3)):
        h.do_save(bad=0)
    m = g.ri(STEPS[prop] // 3, STEPS[prop] * 4 // 3)
    while len(h.ev) < m and not h.dead:
        z = g.r.random() * tot
        for nm in names:
            z -= w[nm]
            if z <= 0:
                break
        if nm == 'save':
            h.do_save(bad=0.45 if prop == 'C30' else 0.08)
        else:
            getattr(h, 'do_' + nm)()
        if R.hangs > 2:
            break
    shutil.rmtree(h.dir, ignore_errors=True)
    return h.ev


# Behaviours generated by TLC --------------------------------------------------
def planned_history(g, base, R, plan):
    """plan: list of steps {op, key, v} from the model ArchiveModel."""
    h = History(g, base, R)
    shapes = {'p': [2], 'q': [2, 2], 'r': [1, 2, 2]}
    for s in plan:
        key = str('/'.join(s['key']))
        op = s['op']
        if op in ('setitem', 'save'):
            y = h.larry(shape=shapes[s['v']], small=True)
            h.do_save(key, y, op == 'setitem', bad=0)
        elif op == 'badsave':
            y = h.larry(shape=[2], small=True)
            y.label[0] = [1, 'a']
            h.do_save(key, y, True, bad=0)
        elif op == 'delete':
            h.do_delete(key)
        elif op == 'foreign':
            h.do_foreign(key)
        elif op == 'load':
            h.do_load(key)
        else:
            getattr(h, 'do_' + op)()
        if h.dead or R.hangs > 2:
            break
    shutil.rmtree(h.dir, ignore_errors=True)
    return h.ev


def encode(ev, num):
    u = Universe(True)
    u.bits = True
    for e in ev:
        collect_arg(e, u)
    u.freeze()
    res = []
    for e in ev:
        d = enc_arg(e, u)
        if 'outv' in d:
            d['out']['v'] = d.pop('outv')
        res.append(d)
    return {'id': num, 'ev': res}


def main():
    g = gen.G(la, 'h%s-%s' % (seed, prop))
    np.random.seed(g.ri(0, 10 ** 6))
    R = rec.Recorder(os.devnull)
    base = tempfile.mkdtemp(prefix='laarch')
    plans = None
    if os.environ.get('LA_PLAN'):
        plans = [json.loads(l) for l in open(os.environ['LA_PLAN'])]
    skipped = 0
    k = 0
    try:
        f = open(out, 'w')
        for i in range(len(plans) if plans is not None else n):
            g.exact = ['bigint', 'frac'] if g.p(0.5) else []
            try:
                if plans is not None:
                    ev = planned_history(g, base, R, plans[i])
                else:
                    ev = one_history(g, base, R)
            except Exception:
                skipped += 1
                if skipped < 4:
                    traceback.print_exc()
                continue
            f.write(json.dumps(encode(ev, k), sort_keys=True) + '\n')
            k += 1
            if R.hangs > 2:
                break
        f.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print('recorded %d' % k)
    print('skipped %d' % skipped)


if __name__ == '__main__':
    main()
