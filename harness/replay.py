# Python 2.7.  replay.py LADIR PROP CALLS OUT SEED FIRST STEP: make the calls that
# Small.tla lists, with real labels in place of their numbers, and record them.
import json
import os
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
ladir, prop, calls, out, seed, first, step = sys.argv[1:8]
sys.path.insert(0, ladir)

import numpy as np
np.seterr(all='ignore')
warnings.simplefilter('ignore')

import la
__import__('la.flabel')
import rec
import gen
import ops_calc
from gen import D, DT, nan, inf
from rec import NOAXIS, Lb, Lbs, Ce, VIs, Sn
from ops_core import ARITH
from ops_calc import t_sq, t_ssq, t_ndtr, LN2, MOVEF, folds_of, listmaps
import datetime

assert os.path.abspath(la.__file__).startswith(os.path.abspath(ladir)), la.__file__

# label number i is the i-th of one of these
POOLS = [list(range(10)), list(range(-5, 5)), [10 * k + 3 for k in range(10)],
         list('abcdefghij'), ['', ' ', '0', '1', '10', 'A', 'B', 'a', 'aa', 'b'],
         [k + 0.5 for k in range(-4, 6)], [0.1, 0.2, 0.3, 0.30000000000000004, 0.5, 1.0, 1e3,
                                           1e10, 1e10 + 1, 1e300],
         [D(1999, 12, 28) + datetime.timedelta(k) for k in range(10)],
         [DT(2000, 1, 1) + datetime.timedelta(0, 0, k) for k in range(10)],
         [datetime.time(k, 59 - k, 3) for k in range(10)],
         [0, 0.5, 1, 1.5, 2, 2.5, 3, 4, 5, 6], [-1, 0, 2, 'a', 'b', 'c', 'd', 'e', 'f', 'g'],
         [(0, k) for k in range(10)], [('a', k) for k in range(10)],
         [2 ** 31 - 2 + k for k in range(10)], [10 ** k for k in range(10)]]
STRUCT = ('C01', 'C02', 'C03', 'C04', 'C05', 'C08', 'C09', 'C10', 'C11', 'C12', 'C15', 'C24')


def plain(z):
    "JSON with texts as str."
    if isinstance(z, unicode):
        return str(z)
    if isinstance(z, list):
        return [plain(v) for v in z]
    if isinstance(z, dict):
        return dict((str(k), plain(v)) for k, v in z.items())
    return z


def axn(a):
    return None if a == NOAXIS else a


class Made(object):
    "The real operands and arguments of one call."

    def __init__(self, e, g):
        self.e, self.g = e, g
        p = POOLS
        if prop == 'C18':
            # (old labels and new ones)
            p = [z for z in POOLS if not isinstance(z[0], tuple)]
        if prop in ('C02', 'C14', 'C15'):
            # these make tuples of labels, or compare labels of different types
            p = [z for z in POOLS if not isinstance(z[0], tuple)]
        if e['op'] == 'stack':
            p = [POOLS[3]]
        if prop == 'C15':
            p = [z for z in p if z[0] != -1]
        self.pool = g.ch(p)
        # (arrays are made by those who need them)
        self.x = [] if e['op'] == 'construct' else [self.larry(z) for z in e['x']]

    def lab(self, i):
        return self.pool[i]

    def labs(self, s):
        return [self.pool[i] for i in s]

    def cell(self, c, k=None):
        if c[0] == 0:
            if k == 'i':
                return c[1] // c[2]
            return float(c[1]) / c[2]
        if c[0] == 1:
            return nan
        if c[0] == 2:
            return inf * c[1]
        if c[0] == 3:
            return '' if c[1] == 0 else chr(96 + c[1]) * c[1]
        if c[0] == 4:
            return None
        return bool(c[1])

    def num(self, c):
        "A number for an argument."
        v = self.cell(c)
        if v == v and abs(v) != inf and v == int(v) and self.g.p(0.5):
            return int(v)
        return v

    def array(self, z):
        g, k = self.g, z['k']
        dt = {'f': np.float64, 'i': np.int64, 'b': np.bool_, 'S': 'S4', 'O': object}[k]
        if k == 'i' and g.p(0.3) and prop in STRUCT:
            dt = g.ch([np.int32, np.int16, np.uint8])
        if k == 'f' and g.p(0.1) and prop in ('C02', 'C03', 'C04', 'C10', 'C11', 'C24'):
            dt = np.float32
        x = np.empty(len(z['d']), dtype=dt)
        for i, c in enumerate(z['d']):
            x[i] = self.cell(c, k)
        return g.layout(x.reshape(z['sh']))

    def larry(self, z):
        return la.larry(self.array(z), [self.labs(l) for l in z['lab']])


OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


def simple(keys, fn):
    "A call whose arguments are plain numbers and texts."
    def f(m, R):
        e = m.e
        a = [axn(e[k]) if k.startswith('ax') and not isinstance(e[k], list) else e[k]
             for k in keys]
        R.event(e['op'], m.x, lambda *x: fn(*(list(x) + a)),
                args=dict((k, e[k]) for k in keys))
    return f


OPS['sortaxis'] = simple(['ax', 'rev'], lambda y, a, r: y.sortaxis(a, reverse=bool(r)))
OPS['T'] = simple([], lambda y: y.T)
OPS['squeeze'] = simple([], lambda y: y.squeeze())
OPS['panel'] = simple([], lambda y: la.panel(y))
OPS['swapaxes'] = simple(['ax', 'ax2'], lambda y, a, b: y.swapaxes(a, b))
OPS['flatten'] = simple(['order'], lambda y, o: y.flatten(o))
OPS['morph_like'] = simple([], lambda x, y: x.morph_like(y))
OPS['lag'] = simple(['nlag', 'ax'], lambda y, n, a: y.lag(n, a))
OPS['merge'] = simple(['upd'], lambda x, y, u: x.merge(y, update=bool(u)))
OPS['pred'] = simple(['f'], lambda y, f: getattr(y, f)())
OPS['push'] = simple(['w', 'ax'], lambda y, w, a: y.push(w, a))
OPS['unary'] = simple(['f'], lambda y, f: {
    'neg': lambda: -y, 'pos': lambda: +y, 'abs': lambda: abs(y), 'sign': y.sign,
    'invert': lambda: ~y}[f]())
OPS['power'] = simple(['q'], lambda y, q: y.power(q))
OPS['astype'] = simple(['k'], lambda y, k: y.astype({'f': float, 'i': int, 'b': bool}[k]))
OPS['cum'] = simple(['f', 'ax'], lambda y, f, a: getattr(y, f)(a))
OPS['lastrank'] = simple(['ax', 'm'], lambda y, a, m: y.lastrank(axis=a, decay=m * LN2))
OPS['quantile'] = simple(['q', 'ax'], lambda y, q, a: y.quantile(q, a))
OPS['cov'] = simple([], lambda y: la.cov(y))


@op('flipaxis')
def flipaxis(m, R):
    e, a = m.e, axn(m.e['ax'])
    args = {'ax': e['ax'], 'copy': e['copy']}
    if e['copy']:
        R.event('flipaxis', m.x, lambda y: y.flipaxis(a), args=args)
    elif a is None or -m.x[0].ndim <= a < m.x[0].ndim:
        R.event('flipaxis', m.x, lambda y: y.flipaxis(a, copy=False), args=args, inplace=0)


@op('insertaxis')
def insertaxis(m, R):
    l = m.lab(m.e['label'])
    R.event('insertaxis', m.x, lambda y: y.insertaxis(m.e['ax'], l),
            args={'ax': m.e['ax'], 'label': Lb(l)})


@op('take')
def take(m, R):
    i = m.e['idx']
    arg = m.g.ch([list(i), tuple(i), np.array(i, dtype=int)])
    R.event('take', m.x, lambda y: y.take(arg, m.e['ax']),
            args={'idx': i, 'ax': m.e['ax']})


@op('morph')
def morph(m, R):
    l = m.labs(m.e['label'])
    R.event('morph', m.x, lambda y: y.morph(l, m.e['ax']),
            args={'label': Lbs(l), 'ax': m.e['ax']})


@op('keep_label')
def keep_label(m, R):
    c, a, v = m.e['cmp'], m.e['ax'], m.labs(m.e['v'])
    if c in ('in', 'not in'):
        arg = m.g.ch([list, tuple])(v)
    elif len(v) == 1:
        arg = v[0]
    else:
        return
    R.event('keep_label', m.x, lambda y: y.keep_label(c, arg, axn(a)),
            args={'cmp': c, 'v': Lbs(v), 'ax': a})


@op('keep_x')
def keep_x(m, R):
    c, b = m.num(m.e['c']), m.e['vac']
    R.event('keep_x', m.x, lambda y: y.keep_x(m.e['cmp'], c, vacuum=bool(b)),
            args={'cmp': m.e['cmp'], 'c': Ce(c), 'vac': b})


@op('vacuum')
def vacuum(m, R):
    a = m.e['axs']
    if any(not -m.x[0].ndim <= z < m.x[0].ndim for z in a):
        return
    arg = None if not a else a[0] if len(a) == 1 else list(a)
    R.event('vacuum', m.x, lambda y: y.vacuum(arg), args={'axs': a})


@op('cut_missing')
def cut_missing(m, R):
    e, a = m.e, axn(m.e['ax'])
    if a is not None and not -m.x[0].ndim <= a < m.x[0].ndim:
        return
    fr = float(e['fn']) / e['fd']
    R.event('cut_missing', m.x, lambda y: y.cut_missing(fr, axis=a),
            args={'fn': e['fn'], 'fd': e['fd'], 'ax': e['ax']})


@op('pull')
def pull(m, R):
    l, a = m.lab(m.e['name']), m.e['ax']
    R.event('pull', m.x, lambda y: y.pull(l, axn(a)), args={'name': Lb(l), 'ax': a})


@op('sortby')
def sortby(m, R):
    e, l, nd = m.e, m.lab(m.e['name']), m.x[0].ndim
    if not -nd <= e['ax'] < nd:
        return
    R.event('sortby', m.x, lambda y: la.sortby(y, l, e['ax'], reverse=bool(e['rev'])),
            args={'name': Lb(l), 'ax': e['ax'], 'rev': e['rev']})


@op('align')
def align(m, R):
    js, c = m.e['js'], m.e['cast']
    arg = js[0] if len(js) == 1 and m.g.p(0.5) else list(js)
    R.event('align', m.x, lambda x, y: la.align(x, y, arg, bool(c)),
            args={'js': js, 'cast': c})


@op('align_raw')
def align_raw(m, R):
    js, c = m.e['js'], m.e['cast']

    def out(r):
        return [np.asarray(r[0]), np.asarray(r[1])] + \
            [VIs([-1]) if l is None else VIs(l, True) for l in r[2]]
    R.event('align_raw', m.x, lambda x, y: la.flarry.align_raw(x, y, list(js), bool(c)),
            out=out, args={'js': js, 'cast': c}, share=False)


@op('op_ll')
def op_ll(m, R):
    R.event('op_ll', m.x, ARITH[m.e['f']], args={'f': m.e['f']})


@op('op_ls')
def op_ls(m, R):
    f, c = ARITH[m.e['f']], m.cell(m.e['c'])
    fn = (lambda y: f(c, y)) if m.e['refl'] else (lambda y: f(y, c))
    R.event('op_ls', m.x, fn, args={'f': m.e['f'], 'k': 'f', 'c': Ce(c), 'refl': m.e['refl']})


@op('binaryop')
def binaryop(m, R):
    e = m.e
    one, two = [m.num(c) for c in e['one']], [m.num(c) for c in e['two']]
    kw = {'join': e['js'][0] if m.g.p(0.5) else list(e['js']), 'cast': bool(e['cast'])}
    if one:
        kw['missone'] = one[0]
    if two:
        kw['misstwo'] = two[0]
    fun = {'add': la.add, 'sub': la.subtract}[e['f']]
    uf = {'add': np.add, 'sub': np.subtract}[e['f']]
    fn = (lambda x, y: fun(x, y, **kw)) if m.g.p(0.5) else \
        (lambda x, y: la.binaryop(uf, x, y, **kw))
    R.event('binaryop', m.x, fn,
            args={'f': e['f'], 'js': e['js'], 'cast': e['cast'],
                  'one': [Ce(z) for z in one], 'two': [Ce(z) for z in two]})


@op('union', 'intersection')
def union(m, R):
    f, a = getattr(la, m.e['op']), m.e['ax']
    R.event(m.e['op'], m.x, lambda *z: f(a, *z), args={'ax': a}, share=False,
            out=lambda r: VIs(r, True))


@op('align_axis')
def align_axis(m, R):
    a, j = m.e['axs'], m.e['j']
    arg = a[0] if len(set(a)) == 1 and m.g.p(0.5) else m.g.ch([list, tuple])(a)
    R.event('align_axis', m.x, lambda *z: la.align_axis(list(z), axis=arg, join=j),
            args={'axs': a, 'j': j})


@op('isaligned')
def isaligned(m, R):
    a = axn(m.e['ax'])
    if a is not None and (m.x[0].ndim != m.x[1].ndim or not -m.x[0].ndim <= a < m.x[0].ndim):
        return
    R.event('isaligned', m.x, lambda x, y: la.isaligned(x, y, axis=a), share=False,
            args={'ax': m.e['ax']}, out=lambda r: VIs([int(r)]))


@op('stack')
def stack(m, R):
    n = m.labs(m.e['names'])
    R.event('stack', m.x, lambda *z: la.stack(m.e['mode'], **dict(zip(n, z))),
            args={'mode': m.e['mode'], 'names': Lbs(n)})


def index(m, n):
    "The index that tokens stand for, and the tokens."
    objs, toks = [], []
    for t in n:
        v = t['v']
        toks.append({'y': t['y'], 'v': v, 'lab': []})
        if t['y'] == 'i':
            objs.append(v[0] if m.g.p(0.7) else np.int64(v[0]))
        elif t['y'] == 's':
            objs.append(slice(*[axn(z) for z in v]))
        elif t['y'] == 'l':
            l = m.labs(t['lab'])
            toks[-1]['lab'] = Lbs(l)
            objs.append(la.larry(np.array(v, dtype=bool), [l]))
        elif t['y'] == 'q':
            objs.append(list(v) if len(n) == 1 or m.g.p(0.5) else np.array(v, dtype=int))
        else:
            objs.append(np.array(v, dtype=bool))
    if len(objs) == 1 and m.g.p(0.7):
        return objs[0], toks
    if len(objs) == 1 and isinstance(objs[0], list):
        objs = [np.array(objs[0], dtype=int)]
    return tuple(objs), toks


@op('getitem')
def getitem(m, R):
    o, t = index(m, m.e['ix'])
    R.event('getitem', m.x, lambda y: y[o], args={'ix': t})


def value(m, v):
    "The value to assign, and how it is written down."
    if v['y'] == 's':
        c = int(m.cell(v['c']))
        return c, {'y': 's', 'k': 'i', 'c': Ce(c), 'sh': [], 'd': [], 'lab': []}
    x = np.array([m.cell(c) for c in v['d']], dtype=float)
    w = {'y': v['y'], 'k': 'f', 'c': [4, 0, 0], 'sh': list(x.shape),
         'd': [Ce(z) for z in x.tolist()], 'lab': []}
    if 'sh' in v:
        x = m.g.layout(x.reshape(v['sh']))
        w['sh'] = v['sh']
    elif m.g.p(0.5):
        x = m.g.ch([list, tuple])(x.tolist())
    if v['y'] == 'l':
        l = [m.labs(z) for z in v['lab']]
        w['lab'] = [Lbs(z) for z in l]
        x = la.larry(x, l)
    return x, w


@op('setitem')
def setitem(m, R):
    o, t = index(m, m.e['ix'])
    c, v = value(m, m.e['v'])

    def fn(y, *r):
        y[o] = c
    R.event('setitem', m.x + ([c] if isinstance(c, (np.ndarray, la.larry)) else []), fn,
            inplace=0, args={'ix': t, 'v': v})


@op('setmask')
def setmask(m, R):
    c, v = value(m, m.e['v'])

    def fn(y, f):
        y[f] = c
    R.event('setmask', m.x, fn, inplace=0, args={'v': v})


@op('lixset')
def lixset(m, R):
    o, t = lixindex(m)
    c, v = value(m, m.e['v'])

    def fn(y):
        y.lix[o] = c
    R.event('lixset', m.x, fn, inplace=0, args={'ix': t, 'tup': m.e['tup'], 'v': v})


@op('set')
def set_(m, R):
    l, c = m.labs(m.e['labs']), m.num(m.e['c'])
    arg = m.g.ch([list, tuple])(l)
    R.event('set', m.x, lambda y: y.set(arg, c), inplace=0, args={'labs': Lbs(l), 'c': Ce(c)})


@op('fill')
def fill(m, R):
    c = m.num(m.e['c'])
    R.event('fill', m.x, lambda y: y.fill(c), inplace=0, args={'c': Ce(c)})


@op('labelindex')
def labelindex(m, R):
    e, l = m.e, m.lab(m.e['name'])
    R.event('labelindex', m.x, lambda y: y.labelindex(l, axn(e['ax']), exact=bool(e['exact'])),
            share=False, out=lambda r: VIs([r]),
            args={'name': Lb(l), 'ax': e['ax'], 'exact': e['exact']})


@op('get')
def get(m, R):
    l = m.labs(m.e['labs'])
    arg = m.g.ch([list, tuple])(l)
    R.event('get', m.x, lambda y: y.get(arg), args={'labs': Lbs(l)})


@op('maxlabel', 'minlabel')
def maxlabel(m, R):
    a = axn(m.e['ax'])
    if a is not None and not -m.x[0].ndim <= a < m.x[0].ndim:
        return
    R.event(m.e['op'], m.x, lambda y: getattr(y, m.e['op'])(a), args={'ax': m.e['ax']},
            share=False, out=lambda r: VIs([r], True))


@op('getlabel')
def getlabel(m, R):
    def wrap(r):
        v = VIs(r, True)
        v.live = r
        return v
    R.event('getlabel', m.x, lambda y: y.getlabel(m.e['ax'], copy=bool(m.e['copy'])), out=wrap,
            args={'ax': m.e['ax'], 'copy': m.e['copy']})


def lixindex(m):
    objs, toks = [], []
    for t in m.e['ix']:
        v = t['v']
        if t['y'] == 'n':
            objs.append(m.labs(v))
            toks.append({'y': 'n', 'v': Lbs(m.labs(v)), 'la': 0, 'lb': 0})
        elif t['y'] == 'i':
            objs.append(v[0])
            toks.append({'y': 'i', 'v': v, 'la': 0, 'lb': 0})
        else:
            w = list(v)
            b = [axn(z) for z in v]
            for i, k in ((0, 'la'), (1, 'lb')):
                if t[k]:
                    w[i] = Lb(m.lab(v[i]))
                    b[i] = [m.lab(v[i])]
            objs.append(slice(*b))
            toks.append({'y': 's', 'v': w, 'la': t['la'], 'lb': t['lb']})
    return (tuple(objs) if m.e['tup'] else objs[0]), toks


@op('lix')
def lix(m, R):
    o, t = lixindex(m)
    R.event('lix', m.x, lambda y: y.lix[o], args={'ix': t, 'tup': m.e['tup']})


@op('listmap')
def listmap(m, R):
    l1, l2, i = m.labs(m.e['l1']), m.labs(m.e['l2']), m.e['ignore']
    for name, z in sorted(listmaps(la).items()):
        R.event('listmap', [], lambda: z.listmap(l1, l2, ignore_unmappable=bool(i)),
                share=False, out=lambda r: VIs(r),
                args={'l1': Lbs(l1), 'l2': Lbs(l2), 'ignore': i, 'impl': name})


@op('listmap_fill')
def listmap_fill(m, R):
    l1, l2, f = m.labs(m.e['l1']), m.labs(m.e['l2']), m.e['fill']
    for name, z in sorted(listmaps(la).items()):
        R.event('listmap_fill', [], lambda: z.listmap_fill(l1, l2, f), share=False,
                out=lambda r: [VIs(r[0]), VIs(r[1])],
                args={'l1': Lbs(l1), 'l2': Lbs(l2), 'fill': f, 'impl': name})


@op('roundtrip')
def roundtrip(m, R):
    f = {'tuples': lambda y: la.larry.fromtuples(y.totuples()),
         'list': lambda y: la.larry.fromlist(y.tolist()),
         'dict': lambda y: la.larry.fromdict(y.todict())}[m.e['way']]
    R.event('roundtrip', m.x, f)


@op('reduce')
def reduce_(m, R):
    e, a = m.e, axn(m.e['ax'])
    kw = {'ddof': e['ddof']} if e['f'] in ('var', 'std') else {}
    R.event('reduce', m.x, lambda y: getattr(y, e['f'])(a, **kw),
            tr=t_sq if e['f'] == 'std' else None,
            args={'f': e['f'], 'ax': e['ax'], 'ddof': e['ddof']})


@op('nx')
def nx(m, R):
    R.event('nx', m.x, lambda y: y.nx, share=False, out=lambda r: VIs([r]))


@op('nan_replace')
def nan_replace(m, R):
    c = m.num(m.e['c'])
    R.event('nan_replace', m.x, lambda y: y.nan_replace(c), args={'c': Ce(c)})


@op('clip')
def clip(m, R):
    lo, hi = m.num(m.e['lo']), m.num(m.e['hi'])
    R.event('clip', m.x, lambda y: y.clip(lo, hi), args={'lo': Ce(lo), 'hi': Ce(hi)})


@op('move')
def move(m, R):
    e = m.e
    y, f, w, a = m.x[0], e['f'], e['w'], e['ax']
    if y.size == 0:
        return
    ways = [{}]
    if f in MOVEF or f == 'median' or (f == 'ranking' and y.ndim < 4):
        ways = [{'method': 'loop'}, {'method': 'strides'}]
    for kw in ways:
        if f in MOVEF:
            kw['par'] = e['par']
            fn = lambda y: y.move_func(MOVEF[f], w, axis=a, **kw)
        else:
            fn = lambda y: getattr(y, 'move_' + f)(w, axis=a, **kw)
        R.event('move', m.x, fn, tr=t_sq if f == 'std' else None,
                args={'f': f, 'w': w, 'ax': a, 'par': e['par']})
        if len(ways) > 1:
            m.x = [m.larry(z) for z in e['x']]


@op('movingsum')
def movingsum(m, R):
    e = m.e
    w, s, a, n, b = [e[k] for k in ('w', 'skip', 'ax', 'norm', 'back')]
    if b:
        mod = sys.modules['la.farray.move']
        fn = lambda y: la.larry(mod.movingsum(y.x, w, skip=s, axis=a, norm=bool(n)),
                                y.copylabel())
    else:
        fn = lambda y: y.movingsum_forward(w, skip=s, axis=a, norm=bool(n))
    R.event('movingsum', m.x, fn,
            args={'w': w, 'skip': s, 'ax': a, 'norm': n, 'back': b})


@op('ranking')
def ranking(m, R):
    e, a = m.e, axn(m.e['ax'])
    R.event('ranking', m.x, lambda y: y.ranking(axis=a, norm=e['norm']),
            tr=t_ndtr if e['norm'] == 'gaussian' else None,
            args={'ax': e['ax'], 'norm': e['norm']})


@op('normalize')
def normalize(m, R):
    e, a = m.e, axn(m.e['ax'])
    R.event('normalize', m.x, lambda y: getattr(y, e['f'])(a),
            tr=t_ssq if e['f'] == 'zscore' else None, args={'f': e['f'], 'ax': e['ax']})


@op('group')
def group(m, R):
    e = m.e
    R.event('group', m.x, lambda y, G: getattr(y, e['f'])(G, e['ax']),
            args={'f': e['f'], 'ax': e['ax'], 'norm': '-1,1'})


@op('cv')
def cv(m, R):
    from la.util import resample
    n, k = m.e['n'], m.e['kf']
    order = m.g.shuffled(range(n))
    outs = {'folds': []}

    def shuffle(index):
        index[:] = [order[i] for i in index]

    def fn():
        outs['folds'] = folds_of(list(resample.cross_validation(n, k, shuffle)))
    R.event('cv', [], fn, share=False, outputs=outs,
            args={'n': n, 'kf': k, 'known': 1, 'order': order})


@op('split')
def split(m, R):
    from la.util import resample
    e = m.e
    R.event('split', m.x, lambda y: resample.split(y, e['tr'], e['te'], e['ax']),
            args={'tr': e['tr'], 'te': e['te'], 'ax': e['ax']})


@op('shuffle', 'shufflelabel')
def shuffle(m, R):
    a = axn(m.e['ax'])
    R.event(m.e['op'], m.x, lambda y: getattr(y, m.e['op'])(a), inplace=0,
            args={'ax': m.e['ax']})


@op('correlation')
def correlation(m, R):
    a = axn(m.e['ax'])
    # (of arrays, not larrys)
    xs = [m.array(z) for z in m.e['x']]
    R.event('correlation', xs, lambda x, y: la.farray.correlation(x, y, axis=a), tr=t_ssq,
            args={'ax': m.e['ax']})


@op('construct')
def construct(m, R):
    e, x = m.e, m.array(m.e['x'][0])
    if not e['haslab']:
        R.event('construct', [x], lambda x: la.larry(x), share=False,
                args={'haslab': 0, 'lab': [], 'range': [Lbs(range(n)) for n in x.shape]})
        return
    lab = []
    for z in e['lab']:
        l = m.labs(z['v'])
        if m.g.p(0.5):
            # equal labels that are not the same objects
            l = [twin(v) if v in l[:i] else v for i, v in enumerate(l)]
        lab.append(l if z['list'] else tuple(l))
    R.event('construct', [x], lambda x: la.larry(x, lab), share=False,
            args={'haslab': 1, 'range': [],
                  'lab': [{'list': z['list'], 'v': Lbs(l)} for z, l in zip(e['lab'], lab)]})


def twin(v):
    if isinstance(v, str):
        return unicode(v)
    if isinstance(v, (int, float)) and v == int(v):
        return float(v) if isinstance(v, int) else v
    return v


def wanted(m):
    "Shape and labels for a new larry."
    e = m.e
    kw, args = {}, {'sh': e['sh'], 'hassh': e['hassh'], 'haslab': e['haslab'],
                    'lab': [], 'range': [Lbs(range(n)) for n in e['sh']]}
    if e['haslab']:
        kw['label'] = [m.labs(l) for l in e['lab']]
        args['lab'] = [Lbs(l) for l in kw['label']]
        args['range'] = []
    if e['hassh']:
        kw['shape'] = m.g.ch([list, tuple])(e['sh'])
    args['k'] = e['k']
    return kw, args


DTYPES = {'f': [float, np.float64, 'f8'], 'i': [int, np.int64, np.int32, 'i2'],
          'b': [bool, np.bool_]}


@op('lrange')
def lrange(m, R):
    kw, args = wanted(m)
    e = m.e
    kw['dtype'] = m.g.ch(DTYPES[e['k']])
    args['dt'] = np.dtype(kw['dtype']).str
    start, step = m.cell(e['start'], e['k']), m.cell(e['step'], e['k'])
    if start != 0 or m.g.p(0.5):
        kw['start'] = start
    if step != 1 or m.g.p(0.5):
        kw['step'] = step
    R.event('lrange', [], lambda: la.lrange(**kw),
            args=dict(args, start=Ce(start), step=Ce(step)))


@op('const', 'empty')
def const(m, R):
    kw, args = wanted(m)
    e = m.e
    if e['k'] != 'f' or m.g.p(0.5):
        kw['dtype'] = m.g.ch(DTYPES[e['k']])
    args['dt'] = np.dtype(kw.get('dtype', float)).str
    f = la.empty
    if e['op'] == 'const':
        args['c'] = Ce(m.cell(e['c'], e['k']))
        f = la.ones if m.cell(e['c'], e['k']) else la.zeros
    R.event(e['op'], [], lambda: f(**kw), args=args)


@op('assert_equal')
def assert_equal(m, R):
    e, kw = m.e, {}
    x, y = m.x
    if not e['dtype'] or m.g.p(0.3):
        kw['dtype'] = bool(e['dtype'])
    if e['iscopy'] >= 0:
        kw['original'] = la.larry(x.x if e['shd'] else x.x.copy(),
                                  [l if s else list(l) for l, s in zip(x.label, e['shl'])])
        kw['iscopy'] = bool(e['iscopy'])
    f = la.util.testing.assert_larry_equal
    R.event('assert_equal', [x, y], lambda x, y: f(x, y, **kw), share=False,
            args={'kinds': 1, 'dtype': e['dtype'], 'iscopy': e['iscopy'],
                  'shd': e['shd'], 'shl': e['shl']})


@op('unique')
def unique(m, R):
    ri, rv = m.e['ri'], m.e['rv']
    kw = {}
    if ri or m.g.p(0.3):
        kw['return_index'] = bool(ri)
    if rv or m.g.p(0.3):
        kw['return_inverse'] = bool(rv)
    R.event('unique', m.x, lambda y: la.unique(y, **kw), args={'ri': ri, 'rv': rv},
            out=lambda r: [r[0]] + [VIs(v.tolist()) for v in r[1:]] if ri or rv else [r])


@op('maplabel')
def maplabel(m, R):
    e, a = m.e, axn(m.e['ax'])
    d = [(m.lab(k), m.lab(v)) for k, v in e['fm']]

    def f(l):
        return [v for k, v in d if k == l][0]
    args = {'fm': [[Lb(k), Lb(v)] for k, v in d], 'ax': e['ax'], 'copy': e['copy']}
    if e['copy']:
        R.event('maplabel', m.x, lambda y: y.maplabel(f, axis=a), args=args)
    elif a is None or -m.x[0].ndim <= a < m.x[0].ndim:
        R.event('maplabel', m.x, lambda y: y.maplabel(f, axis=a, copy=False), args=args,
                inplace=0)


@op('flattenlabel')
def flattenlabel(m, R):
    labs = [m.labs(l) for l in m.e['labs']]
    f = sys.modules['la.flabel'].flattenlabel
    R.event('flattenlabel', [], lambda: f(labs, m.e['order']), share=False,
            out=lambda r: [VIs(l, True) for l in r],
            args={'labs': [Lbs(l) for l in labs], 'order': m.e['order']})


def main():
    R = rec.Recorder(out)
    R.bits = prop in STRUCT
    R.again = 0.03
    skipped = 0
    with open(calls) as f:
        for i, l in enumerate(f):
            if i % int(step) != int(first):
                continue
            e = plain(json.loads(l))
            g = gen.G(la, 's%s-%s-%d' % (seed, prop, i))
            np.random.seed(i % 10 ** 6)
            R.gen = g
            try:
                OPS[e['op']](Made(e, g), R)
            except Exception:
                where = [os.path.abspath(z[0]) for z in
                         traceback.extract_tb(sys.exc_info()[2])]
                if any(w.startswith(os.path.abspath(ladir)) for w in where):
                    R.write({'op': 'setup', 'x': [], 'post': [], 'alias': 0,
                             'what': e['op'], 'text': traceback.format_exc()[-1500:],
                             'out': {'st': 'err', 'exc': 'setup'}})
                else:
                    skipped += 1
                    if skipped < 4:
                        traceback.print_exc()
            if R.hangs > 2:
                break
    R.close()
    print('recorded %d' % R.n)
    print('skipped %d' % skipped)


main()
