# Python 2.7.  Generators of calls: calculations, creation, label maps.
import math
import os
import imp
import sys

import numpy as np

from rec import NOAXIS, Lb, Lbs, Ce, VIs, is_larry
from gen import nan, inf
from ops_core import op, ax_, POOLS_ORD

LN2 = math.log(2)


# Transformations of recorded cells ------------------------------------------
def t_sq(v):
    return v * v


def t_ssq(v):
    v = float(v)
    return v * abs(v)


def t_log2(v):
    v = float(v)
    if v != v or v == inf:
        return v
    if v == 0:
        return -inf
    if v < 0:
        return nan
    return math.log(v, 2)


def t_ln(v):
    v = float(v)
    if v != v or v == inf:
        return v
    if v == 0:
        return -inf
    if v < 0:
        return nan
    return math.log(v)


def t_ndtr(v):
    v = float(v)
    if v != v:
        return v
    return 0.5 * math.erfc(-v / math.sqrt(2))


def kwargs_or_positional(g, name, default, value):
    "Leave a default out sometimes."
    if value == default and g.p(0.5):
        return {}
    return {name: value}


# C14 ------------------------------------------------------------------------
_impl = {}


def listmaps(la):
    """The implementations of the label maps: the one that la uses, the pure
    Python one and (if its path is given) a build of the C file."""
    if _impl:
        return _impl
    __import__('la.flabel')
    flabel = sys.modules['la.flabel']
    _impl['la'] = flabel
    old = sys.modules.get('la.cflabel')
    path = os.path.splitext(flabel.__file__)[0] + '.py'
    sys.modules['la.cflabel'] = None
    try:
        _impl['py'] = imp.load_source('flabel_pure', path)
    finally:
        if old is None:
            del sys.modules['la.cflabel']
        else:
            sys.modules['la.cflabel'] = old
    cpath = os.environ.get('LA_CFLABEL_C')
    if cpath:
        _impl['c'] = imp.load_dynamic('cflabel', cpath)
    return _impl


CROSS = [0, 1, 2, 0.0, 1.0, 2.0, True, False, 1.5, 'a', 'b', '1', '0', None,
         (1, 2), (1.0, 2.0), ('a',), -1, -1.0, '', 3]


def maplists(g):
    if g.p(0.25):
        uni = CROSS
    else:
        uni = g.universe(g.ri(1, 14))
    l1 = g.r.sample(uni, g.ri(0, len(uni)))
    if g.p(0.1) and l1:
        l1.append(g.ch(l1))
    z = g.r.random()
    if z < 0.35:
        l2 = g.r.sample(l1, g.ri(0, len(l1)))
    elif z < 0.45:
        l2 = list(l1)
    else:
        l2 = [g.ch(uni) for _ in range(g.ri(0, len(uni) + 2))]
    return l1, l2


@op('C14', 5)
def listmap(g, R):
    l1, l2 = maplists(g)
    ign = g.ri(0, 1)
    for name, m in sorted(listmaps(g.la).items()):
        z = g.ri(0, 2)
        if z == 0 and not ign:
            fn = lambda: m.listmap(l1, l2)
        elif z == 1:
            fn = lambda: m.listmap(l1, l2, bool(ign))
        else:
            fn = lambda: m.listmap(l1, l2, ignore_unmappable=bool(ign))
        R.event('listmap', [], fn, share=False, out=lambda r: VIs(r),
                args={'l1': Lbs(l1), 'l2': Lbs(l2), 'ignore': ign,
                      'impl': name})


@op('C14', 4)
def listmap_fill(g, R):
    l1, l2 = maplists(g)
    fill = g.ch([0, 0, -1, 7, 999])
    for name, m in sorted(listmaps(g.la).items()):
        if fill == 0 and g.p(0.5):
            fn = lambda: m.listmap_fill(l1, l2)
        elif g.p(0.5):
            fn = lambda: m.listmap_fill(l1, l2, fill)
        else:
            fn = lambda: m.listmap_fill(l1, l2, fill=fill)
        R.event('listmap_fill', [], fn, share=False,
                out=lambda r: [VIs(r[0]), VIs(r[1])],
                args={'l1': Lbs(l1), 'l2': Lbs(l2), 'fill': fill,
                      'impl': name})


@op('C14', 1)
def flattenlabel(g, R):
    n = g.ri(1, 3)
    pool = g.ch(['int', 'str', 'date', 'mix'])
    uni = g.universe(7, pool)
    labs = [g.labels(g.ri(0 if g.p(0.05) else 1, 3), uni) for _ in range(n)]
    o = g.ch(['C', 'C', 'F', 'F', 'x'] if g.p(0.1) else ['C', 'F'])
    __import__('la.flabel')
    f = sys.modules['la.flabel'].flattenlabel
    if o == 'C' and g.p(0.5):
        fn = lambda: f(labs)
    else:
        fn = lambda: f(labs, o)

    def out(r):
        return [VIs(l, True) for l in r]
    R.event('flattenlabel', [], fn, share=False, out=out,
            args={'labs': [Lbs(l) for l in labs], 'order': o})


def on_array(g, fn, y, f, *a, **kw):
    "Now and then the function for arrays instead of the method."
    if not g.p(0.15) or y.x.dtype != np.float64:
        return fn
    la = g.la

    def g1(y):
        return la.larry(f(y.x, *a, **kw), y.copylabel())
    return g1


# C16 ------------------------------------------------------------------------
def small_larry(g, kinds, infp=(0, 0, 0, 0.1), f4=False, **kw):
    kw.setdefault('maxn', 5)
    return g.larry(kinds=kinds, infp=g.ch(infp), f4=f4, **kw)


@op('C16', 8)
def reduce_(g, R):
    f = g.ch(['sum', 'prod', 'mean', 'median', 'std', 'var', 'max', 'min',
              'any', 'all', 'gmean'])
    kinds = ['f', 'f', 'f', 'f', 'i', 'b']
    kw = {}
    tr = intr = None
    if f in ('prod',):
        kw = {'style': 'small', 'big': False, 'maxsize': 14}
        if g.p(0.7):
            kw['style'] = 'pos'
            kw['maxsize'] = 10
    elif f in ('std', 'var'):
        kinds = ['f', 'f', 'f', 'i']
        kw = {'style': g.ch(['small', 'small', 'offset', 'const']), 'maxsize': 24,
              'infp': (0,)}
    elif f == 'gmean':
        kinds = ['f', 'f', 'f', 'i']
        kw = {'style': 'pos', 'maxsize': 40, 'infp': (0, 0, 0.15)}
    elif f in ('sum', 'max', 'min', 'median'):
        kw = {'f4': True}
        if f != 'sum' and g.p(0.15):
            kw = {'style': 'bigint'}
    if f in ('mean', 'median'):
        kinds = ['f', 'f', 'f', 'i']
    sh = g.shape(maxn=5, maxsize=kw.pop('maxsize', 120),
                 big=kw.pop('big', True))
    if f in ('std', 'var') and np.prod(sh) > 100:
        # denominators get too big
        sh = g.shape(maxn=5, maxsize=24, big=False)
    y = small_larry(g, kinds, sh=sh, **kw)
    if f == 'gmean':
        intr = t_log2
        tr = t_log2
        if y.x.dtype.kind == 'i':
            y.x[...] = 2 ** y.x
        else:
            y.x[...] = np.exp2(y.x)
            y.x[y.x == 0] = np.inf
    if f == 'std':
        tr = t_sq
    ax = g.axis(y.ndim, none=0.3)
    ddof = 0
    a = {}
    if f in ('std', 'var') and g.p(0.5):
        ddof = g.ri(0, 2) if g.p(0.2) else 1
        a['ddof'] = ddof
    name = 'geometric_mean' if f == 'gmean' else f
    if ax is None and g.p(0.5):
        fn = lambda y: getattr(y, name)(**a)
    elif g.p(0.5):
        fn = lambda y: getattr(y, name)(ax, **a)
    else:
        fn = lambda y: getattr(y, name)(axis=ax, **a)
    n = y.shape[ax] if ax is not None and -y.ndim <= ax < y.ndim else y.size
    if ddof and n <= ddof and y.x.dtype.kind != 'f':
        return
    if ddof == 2:
        # dividing by zero or less: left to bottleneck
        if n < 3 or (y.x.dtype.kind == 'f' and np.isnan(y.x).any()):
            return
    R.event('reduce', [y], fn, tr=tr, intr=intr,
            args={'f': f, 'ax': ax_(ax), 'ddof': ddof})


@op('C16', 1)
def gmean_bad(g, R):
    y = g.larry(kind='f', style='pos', minn=1, maxsize=30, f4=False)
    y.x.flat[0] = g.ch([0., -1., -2.])
    ix = tuple([g.ri(0, n - 1) for n in y.shape])
    y.x[ix] = g.ch([0., -1., -0.5])
    ax = g.axis(y.ndim, none=0.3, bad=0)
    R.event('must_raise', [y], lambda y: y.geometric_mean(ax))


# C17 ------------------------------------------------------------------------
@op('C17', 5)
def pred(g, R):
    f = g.ch(['ismissing', 'ismissing', 'isnan', 'isfinite', 'isinf'])
    kinds = g.KINDS if f == 'ismissing' else ['f', 'f', 'f', 'f', 'i', 'b']
    y = g.larry(kinds=kinds, infp=g.ch([0, 0.2]))
    z = g.ri(0, 3)
    if f == 'ismissing' and z == 0:
        R.event('pred', [y.x], lambda x: g.la.missing.ismissing(x),
                args={'f': f})
    elif f == 'ismissing' and z == 1:
        R.event('pred', [y], lambda y: g.la.larry(
            g.la.missing.ismissing(y), y.copylabel()), args={'f': f})
    else:
        extreme(g, y)
        R.event('pred', [y], lambda y: getattr(y, f)(), args={'f': f})


def extreme(g, y):
    "Some values beyond all others."
    if y.x.dtype == np.float64 and y.size and g.p(0.2):
        for _ in range(g.ri(1, 3)):
            y.x[g.cell(y.shape)] = g.ch([1e300, -1e300, 1e39, 5e-324, 1e-300,
                                         1.7976931348623157e308])


@op('C17', 1)
def nx(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'i', 'b'], infp=g.ch([0, 0.2]))
    extreme(g, y)
    R.event('nx', [y], lambda y: y.nx, share=False, out=lambda r: VIs([r]))


@op('C17', 1)
def attributes(g, R):
    y = g.larry()
    R.event('attrs', [y], lambda y: [y.size, y.ndim] + list(y.shape),
            share=False, out=lambda r: VIs(r))


@op('C17', 2)
def nans(g, R):
    sh = g.shape(maxn=4)
    k = g.kind()
    dt = g.dtype(k)
    if k == 'S' and g.p(0.6):
        dt = 'S%d' % g.ri(1, 40)
    arg = tuple(sh) if g.p(0.7) else list(sh)
    if len(sh) == 1 and g.p(0.5):
        arg = sh[0]
    f = g.la.missing.nans
    if dt is np.float64 and g.p(0.5):
        fn = lambda: f(arg)
    else:
        fn = lambda: f(arg, dt) if g.p(0.5) else f(arg, dtype=dt)
    R.event('nans', [], fn, args={'sh': list(sh), 'k': k,
                                'dt': np.dtype(dt).str})


@op('C17', 1)
def missing_marker(g, R):
    y = g.larry(maxsize=20)
    k = y.x.dtype.kind
    fn = lambda z: g.la.missing.missing_marker(z)
    R.event('missing_marker', [y if g.p(0.5) else y.x], fn, share=False,
            out=lambda r: None if r is NotImplemented else r,
            scalar_kind=None if k in 'ib' else 'O')


@op('C17', 2)
def nan_replace(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'i'], f4=False, infp=g.ch([0, 0.1]))
    c = g.ri(-5, 5) if g.p(0.7) else 0
    if c == 0 and g.p(0.7):
        fn = lambda y: y.nan_replace()
    elif g.p(0.5):
        fn = lambda y: y.nan_replace(c)
    else:
        fn = lambda y: y.nan_replace(replace_with=float(c))
    R.event('nan_replace', [y], fn, args={'c': Ce(c)})


@op('C17', 5)
def push(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'f', 'i'], maxn=7,
                nanp=g.ch([0.3, 0.6, 0.8, None]))
    ax = g.axis(y.ndim)
    w = g.ri(0, 6)
    if ax == -1 and g.p(0.5):
        fn = lambda y: y.push(w)
    elif g.p(0.5):
        fn = lambda y: y.push(w, ax)
    else:
        fn = lambda y: y.push(window=w, axis=ax)
    if y.size:
        fn = on_array(g, fn, y, g.la.farray.push, w, axis=ax)
    R.event('push', [y], fn, args={'w': w, 'ax': ax_(ax)})


# C18 ------------------------------------------------------------------------
@op('C18', 6)
def unary(g, R):
    f = g.ch(['neg', 'pos', 'abs', 'sign', 'invert', 'sqrt', 'log', 'exp'])
    tr = intr = None
    if f == 'invert':
        y = g.larry(kinds=['b', 'b', 'b', 'f', 'i'])
    elif f == 'sqrt':
        y = g.larry(kinds=['f', 'f', 'i'], style='small', f4=False,
                    infp=g.ch([0, 0.1]))
        y.x[...] = np.sign(y.x) * y.x * y.x if y.x.dtype.kind == 'f' \
            else y.x * y.x
    elif f in ('log', 'exp'):
        y = g.larry(kinds=['f'], style=g.ch(['small', 'quarter']), f4=False,
                    infp=g.ch([0, 0.2]))
        if f == 'log':
            intr = t_ln
            y.x[...] = np.exp(y.x)
            if y.size and g.p(0.3):
                y.x.flat[0] = g.ch([0., -1.])
        else:
            tr = t_ln
    elif f == 'pos':
        y = g.larry(infp=g.ch([0, 0.1]))
    else:
        y = g.larry(kinds=['f', 'f', 'i'], infp=g.ch([0, 0.1]))
    fns = {'neg': lambda y: -y, 'pos': lambda y: +y,
           'abs': (lambda y: y.abs()) if g.p(0.5) else (lambda y: abs(y)),
           'sign': lambda y: y.sign(),
           'invert': (lambda y: ~y) if g.p(0.5) else (lambda y: y.invert()),
           'sqrt': lambda y: y.sqrt(), 'log': lambda y: y.log(),
           'exp': lambda y: y.exp()}
    R.event('unary', [y], fns[f], tr=tr, intr=intr, args={'f': f})


@op('C18', 2)
def power(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'i'], style=g.ch(['small', 'quarter']),
                f4=False, infp=g.ch([0, 0.1]))
    q = g.ri(0, 3) if y.x.dtype.kind == 'i' else g.ri(-2, 3)
    if q < 0 and y.x.dtype.kind == 'f':
        # a signed zero would show
        y.x[y.x == 0] = 1
    fn = (lambda y: y ** q) if g.p(0.5) else (lambda y: y.power(q))
    R.event('power', [y], fn, args={'q': q})


@op('C18', 1)
def halfpower(g, R):
    y = g.larry(kind='f', style=g.ch(['small', 'quarter', 'wide']), f4=False)
    y.x = y.x * y.x
    v = y.x.reshape(-1)
    for i in range(y.size):
        if g.p(0.1):
            v[i] = g.ch([inf, -inf, -1.0, -4.0])
    y.x = v.reshape(y.shape)
    h = g.ch([1, 1, 1, 3])
    q = h / 2.0
    fn = (lambda y: y ** q) if g.p(0.5) else (lambda y: y.power(q))
    R.event('halfpower', [y], fn, args={'q': h})


@op('C18', 2)
def clip(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'i'], infp=g.ch([0, 0.1]))
    lo, hi = g.ri(-6, 6), g.ri(-6, 6)
    if lo > hi and g.p(0.8):
        lo, hi = hi, lo
    if y.x.dtype.kind == 'f' and g.p(0.4):
        lo, hi = lo + 0.5, hi + 0.75
    R.event('clip', [y], lambda y: y.clip(lo, hi) if g.p(0.5)
            else y.clip(lo=lo, hi=hi),
            args={'lo': Ce(lo), 'hi': Ce(hi)})


@op('C18', 2)
def astype(g, R):
    k = g.ch(['f', 'i', 'b'])
    kinds = ['f', 'f', 'i', 'b']
    kw = {'nanp': 0} if k == 'i' else {}
    y = g.larry(kinds=kinds, f4=False, **kw)
    t = {'f': [float, np.float64, 'f8', np.float32],
         'i': [int, np.int64, np.int32, 'i8', np.int16, 'u1'],
         'b': [bool, np.bool_]}[k]
    t = g.ch(t)
    if t == 'u1' and y.x.dtype.kind != 'b':
        y = y.abs()
    R.event('astype', [y], lambda y: y.astype(t),
            args={'k': k, 'dt': np.dtype(t).str})


@op('C18', 5)
def cumulative(g, R):
    f = g.ch(['cumsum', 'cumprod'])
    kw = {'style': 'small', 'maxn': 6, 'big': False} if f == 'cumprod' else {}
    y = g.larry(kinds=['f', 'f', 'f', 'i', 'b'], f4=False,
                infp=g.ch([0, 0, 0.1]), **kw)
    ax = g.axis(y.ndim, none=0.05)
    R.event('cum', [y], lambda y: getattr(y, f)(ax) if g.p(0.5)
            else getattr(y, f)(axis=ax), args={'f': f, 'ax': ax_(ax)})


@op('C18', 3)
def maplabel(g, R):
    y = g.larry()
    ax = g.axis(y.ndim, none=0.35)
    labs = []
    for l in y.label:
        for v in l:
            if v not in labs:
                labs.append(v)
    to = g.universe(len(labs) + 1)[:len(labs)]
    if g.p(0.3) and len(labs) > 1:
        to = g.shuffled(labs)
    d = dict(zip(labs, to))
    f = lambda z: d[z]
    cp = 1 if g.p(0.7) else 0
    a = {} if ax is None and g.p(0.5) else {'axis': ax}
    fm = [[Lb(k), Lb(d[k])] for k in labs]
    args = {'fm': fm, 'ax': ax_(ax), 'copy': cp}
    if cp:
        R.event('maplabel', [y], lambda y: y.maplabel(f, **a), args=args)
    elif ax is None or -y.ndim <= ax < y.ndim:
        R.event('maplabel', [y], lambda y: y.maplabel(f, copy=False, **a),
                args=args, inplace=0)


# C19 ------------------------------------------------------------------------
def f_first(arr, axis, par=0):
    return np.rollaxis(arr, axis)[0] * 1.0


def f_lastval(arr, axis, par=0):
    return np.rollaxis(arr, axis)[-1] * 1.0


def f_wsum(arr, axis, par=0):
    a = np.rollaxis(arr, axis)
    t = 0.0
    for i in range(len(a)):
        t = t + (i + par) * a[i]
    return t


def f_count(arr, axis, par=0):
    return (~np.isnan(arr)).sum(axis) * 1.0 + par


MOVEF = {'first': f_first, 'lastval': f_lastval, 'wsum': f_wsum,
         'count': f_count}


def window(g, n):
    if g.p(0.06) or n == 0:
        return g.ch([0, n + 1, n + 2, -1])
    return g.ri(1, n)


@op('C19', 8)
def move(g, R):
    f = g.ch(['sum', 'mean', 'min', 'max', 'std', 'median', 'ranking',
              'first', 'lastval', 'wsum', 'count', 'sum', 'mean'])
    kw = {}
    if f == 'std':
        kw = {'style': g.ch(['small', 'const'])}
    if f == 'ranking':
        kw = {'style': g.ch(['distinct', 'small', 'wide'])}
    nd = None
    a = {}
    par = 0
    method = None
    generic = f in MOVEF
    sh = None
    if g.p(0.12):
        # axes that are easily taken for each other
        n = g.ri(2, 4)
        sh = g.shuffled([n] * g.ri(1, 3) + [n + 1] * g.ri(0, 2))[:3]
    if generic or f in ('median', 'ranking'):
        method = g.ch([None, 'loop', 'strides'])
        if method == 'strides' or (f == 'ranking' and method is None):
            nd = g.ch([1, 1, 2, 2, 3])
        if method:
            a['method'] = method
        if g.p(0.02):
            a['method'] = 'x'
    y = g.larry(sh, kinds=['f', 'f', 'f', 'f', 'i'], ndim=nd, maxn=7, f4=False,
                maxsize=90, **kw)
    ax = g.axis(y.ndim)
    n = y.shape[ax] if -y.ndim <= ax < y.ndim else 3
    w = window(g, n)
    if f == 'std' and 100 < w <= n:
        w = g.ri(1, 100)
    if not (ax == -1 and g.p(0.4)):
        a['axis'] = ax
    if generic:
        if g.p(0.6):
            par = g.ri(0, 3)
            a['par'] = par
        fn = lambda y: y.move_func(MOVEF[f], w, **a)
    else:
        fn = lambda y: getattr(y, 'move_' + f)(w, **a)
    if a.get('method') == 'x':
        R.event('must_raise', [y], fn)
        return
    if y.size == 0 and 1 <= w <= n and -y.ndim <= ax < y.ndim:
        return
    F = g.la.farray
    if generic:
        def mf(x, *p, **q):
            return F.move_func(MOVEF[f], x, *p, **q)
        fn = on_array(g, fn, y, mf, w, **a)
    elif f in ('median', 'ranking'):
        fn = on_array(g, fn, y, getattr(F, 'move_nan' + f), w, **a)
    R.event('move', [y], fn, tr=t_sq if f == 'std' else None,
            args={'f': f, 'w': w, 'ax': ax_(ax), 'par': par})


@op('C19', 3)
def movingsum_forward(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'i'], maxn=7, f4=False)
    ax = g.axis(y.ndim)
    n = y.shape[ax] if -y.ndim <= ax < y.ndim else 3
    w = window(g, n)
    skip = g.ri(0, max(0, n - w)) if g.p(0.9) else g.ri(0, n + 2)
    norm = g.ri(0, 1)
    a = {}
    if skip or g.p(0.5):
        a['skip'] = skip
    if norm or g.p(0.5):
        a['norm'] = bool(norm)
    if not (ax == -1 and g.p(0.4)):
        a['axis'] = ax
    back = 0
    fn = lambda y: y.movingsum_forward(w, **a)
    if g.p(0.2):
        F = sys.modules['la.farray.move']
        back = g.ri(0, 1)
        fm = F.movingsum if back else F.movingsum_forward
        fn = lambda y: g.la.larry(fm(y.x, w, **a), y.copylabel())
    R.event('movingsum', [y], fn, args={'w': w, 'skip': skip, 'ax': ax_(ax), 'norm': norm,
                                             'back': back})


# C20 ------------------------------------------------------------------------
@op('C20', 5)
def ranking(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'f', 'i'], f4=False,
                infp=g.ch([0, 0, 0.1]), minn=1 if g.p(0.97) else 0,
                style=g.ch(['distinct', 'small', 'ties', 'wide']))
    ax = g.axis(y.ndim, none=0.2)
    norm = g.ch(['-1,1', '-1,1', '0,N-1', 'gaussian'])
    if g.p(0.03):
        norm = g.ch(['x', '', 'N'])
    if y.size == 0:
        return
    if norm == 'gaussian' and max(y.shape + (y.size if ax is None else 0,)) > 90:
        # denominators get too big
        norm = '-1,1'
    a = {}
    if norm != '-1,1' or g.p(0.3):
        a['norm'] = norm
    if ax == 0 and g.p(0.5):
        fn = lambda y: y.ranking(**a)
    else:
        fn = lambda y: y.ranking(axis=ax, **a)
    fn = on_array(g, fn, y, g.la.farray.ranking, axis=ax, **a)
    R.event('ranking', [y], fn, tr=t_ndtr if norm == 'gaussian' else None,
            args={'ax': ax_(ax), 'norm': norm})


@op('C20', 4)
def lastrank(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'i'], f4=False, maxn=6,
                style=g.ch(['distinct', 'small', 'ties']))
    ax = g.axis(y.ndim)
    m = g.ch([0, 0, 0, 1, 1, 2])
    if g.p(0.03):
        m = -1
    n = y.shape[ax] if -y.ndim <= ax < y.ndim else 0
    if m * n > 12:
        m = 1 if n <= 12 and m > 0 else min(m, 0)
    decay = m * LN2 if m else 0
    a = {}
    if m or g.p(0.3):
        a['decay'] = decay
    if not (ax == -1 and g.p(0.5)):
        a['axis'] = ax
    fn = lambda y: y.lastrank(**a)
    if y.ndim > 1 and -y.ndim <= ax < y.ndim and y.size and g.p(0.15):
        fn = lambda y: g.la.larry(g.la.farray.lastrank(y.x, **a),
                                  [l for i, l in enumerate(y.copylabel())
                                   if i != ax % y.ndim])
    R.event('lastrank', [y], fn,
            args={'ax': ax_(ax), 'm': m})


@op('C20', 3)
def quantile(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'f', 'i'], style='distinct', f4=False,
                maxn=9, minn=1)
    ax = g.axis(y.ndim, none=0.2, bad=0)
    n = y.size if ax is None else y.shape[ax]
    q = g.ri(1, max(1, min(n, 6))) if g.p(0.95) else g.ch([0, n + 1, -1])
    if ax == 0 and g.p(0.5):
        fn = lambda y: y.quantile(q)
    else:
        fn = lambda y: y.quantile(q, ax)
    fn = on_array(g, fn, y, g.la.farray.quantile, q, axis=ax)
    R.event('quantile', [y], fn, args={'q': q, 'ax': ax_(ax)})


# C21 ------------------------------------------------------------------------
@op('C21', 6)
def normalize(g, R):
    f = g.ch(['demean', 'demedian', 'zscore'])
    kw = {'style': g.ch(['small', 'distinct', 'const', 'quarter'])}
    maxsize = 60
    if f == 'zscore':
        kw['style'] = g.ch(['small', 'small', 'ties', 'offset', 'const'])
        maxsize = 24
    elif g.p(0.3):
        kw['infp'] = 0.1
    y = g.larry(sh=g.shape(maxn=5, big=False, maxsize=maxsize),
                kinds=['f', 'f', 'f', 'f', 'i'], f4=False, **kw)
    ax = g.axis(y.ndim, none=0.3)
    if y.size == 0 or (f == 'zscore' and y.size > 12):
        if y.size == 0 or ax is None:
            return
    if ax is None and g.p(0.5):
        fn = lambda y: getattr(y, f)()
    else:
        fn = lambda y: getattr(y, f)(ax)
    fn = on_array(g, fn, y, getattr(g.la.farray, f), axis=ax)
    R.event('normalize', [y], fn, tr=t_ssq if f == 'zscore' else None,
            args={'f': f, 'ax': ax_(ax)})


# C22 ------------------------------------------------------------------------
def la_float(g, y):
    return g.la.larry(y.x.astype(float), y.copylabel())


@op('C22', 6)
def group(g, R):
    la = g.la
    f = g.ch(['group_mean', 'group_median', 'group_ranking'])
    y = g.larry(kinds=['f', 'f', 'f', 'f', 'i'], f4=False, maxn=7,
                style=g.ch(['distinct', 'small', 'ties']))
    ax = g.axis(y.ndim)
    a = ax if -y.ndim <= ax < y.ndim else 0
    lab = list(y.label[a])
    if y.size == 0:
        return
    extra = [l for l in g.universe(g.ri(0, 4)) if l not in lab]
    glab = lab + extra
    if g.p(0.7):
        glab = g.shuffled(glab)
    if g.p(0.05) and glab:
        glab.pop()
    n = len(glab)
    k = g.ch(['S', 'O', 'f', 'i'])
    G = g.larry([n], k, labs=[glab], style='ties' if k in 'fi' else None,
                f4=False)
    if k in 'SO':
        few = {'S': ['a', 'b', 'x y'], 'O': ['a', 'b', None]}[k]
        for i in range(n):
            G.x[i] = g.ch(few)
    if g.p(0.03):
        G = g.larry([2, 2], 'S')
    if ax == 0 and g.p(0.5):
        fn = lambda y, G: getattr(y, f)(G)
    else:
        fn = lambda y, G: getattr(y, f)(G, ax) if g.p(0.5) \
            else getattr(y, f)(G, axis=ax)
    norm, tr = '-1,1', None
    if g.p(0.25) and G.ndim == 1 and -y.ndim <= ax < y.ndim:
        # the functions of arrays
        y = la_float(g, y)
        G = la.larry(G.morph(lab, 0).x if set(lab) <= set(G.label[0]) else
                     np.zeros(len(lab)), [list(lab)])
        kw = {'axis': ax}
        if f == 'group_ranking':
            norm = g.ch(['-1,1', '0,N-1', '0,N-1', 'gaussian'])
            kw['norm'] = norm
            tr = t_ndtr if norm == 'gaussian' else None
            few = y.shape[ax] <= 90
            if not few:
                return
        # (a negative zero or NaN group is of no interest)
        fn = lambda y, G: la.larry(getattr(la.farray, f)(y.x, G.x.tolist(), **kw),
                                   y.copylabel())
        R.event('group', [y, G], fn, tr=tr, again=False,
                args={'f': f, 'ax': ax_(ax), 'norm': norm})
        return
    R.event('group', [y, G], fn, args={'f': f, 'ax': ax_(ax), 'norm': norm})


# C23 ------------------------------------------------------------------------
def folds_of(pairs):
    return [{'train': [int(i) for i in a], 'test': [int(i) for i in b]}
            for a, b in pairs]


@op('C23', 4)
def crossval(g, R):
    from la.util import resample
    n = g.ri(0, 14) if g.p(0.8) else g.ri(15, 60)
    k = g.ri(2, max(2, n)) if g.p(0.9) else g.ch([0, 1, n + 1])
    known = g.ri(0, 1)
    order = list(range(n))
    g.r.shuffle(order)
    outs = {'folds': []}

    def shuffle(index):
        index[:] = [order[i] for i in index]

    def fn():
        if known:
            it = resample.cross_validation(n, k, shuffle)
        else:
            it = resample.cross_validation(n, k)
        outs['folds'] = folds_of(list(it))
        return None
    R.event('cv', [], fn, share=False, outputs=outs,
            args={'n': n, 'kf': k, 'known': known, 'order': order})


@op('C23', 4)
def boot(g, R):
    from la.util import resample
    n = g.ri(0, 8) if g.p(0.9) else g.ri(9, 40)
    b = g.ri(1, 5) if g.p(0.9) else g.ch([0, -1])
    known = g.ri(0, 1)
    outs = {'folds': [], 'draws': []}

    def randint(lo, hi, size):
        if lo != 0 or hi != n or size != n:
            raise RuntimeError('randint called with other arguments')
        if g.p(0.3):
            v = g.shuffled(range(n))
        else:
            v = [g.ri(0, n - 1) for _ in range(n)]
        outs['draws'] = outs['draws'] + [v]
        return np.array(v)

    def fn():
        if known:
            it = resample.bootstrap(n, b, randint)
        else:
            it = resample.bootstrap(n, b)
        outs['folds'] = folds_of(list(it))
        return None
    R.event('boot', [], fn, share=False, outputs=outs,
            args={'n': n, 'b': b, 'known': known})


@op('C23', 3)
def split(g, R):
    from la.util import resample
    y = g.larry()
    ax = g.axis(y.ndim)
    n = y.shape[ax] if -y.ndim <= ax < y.ndim else 2
    order = g.shuffled(range(n))
    if n < 2:
        return
    c = g.ri(1, n - 1)
    te, tr = order[:c], order[c:]
    if g.p(0.6):
        R.event('split', [y], lambda y: resample.split(y, tr, te, ax),
                args={'tr': tr, 'te': te, 'ax': ax})
    elif -y.ndim <= ax < y.ndim:
        tr = [g.ch(tr) for _ in tr]
        R.event('splitarr', [y.x], lambda x: resample.split(x, tr, te, ax),
                args={'tr': tr, 'te': te, 'ax': ax})


# C24 ------------------------------------------------------------------------
@op('C24', 4)
def shuffle(g, R):
    y = g.larry(sh=g.shape(maxn=4, maxsize=36), kinds=['f', 'i'],
                style='distinct', nanp=0, f4=False)
    ax = g.axis(y.ndim, none=0.3)
    if ax == 0 and g.p(0.5):
        fn = lambda y: y.shuffle()
    else:
        fn = lambda y: y.shuffle(ax)
    R.event('shuffle', [y], fn, inplace=0, args={'ax': ax_(ax)})


@op('C24', 4)
def shufflelabel(g, R):
    y = g.larry(maxsize=60)
    ax = g.axis(y.ndim, none=0.3)
    if ax == 0 and g.p(0.5):
        fn = lambda y: y.shufflelabel()
    else:
        fn = lambda y: y.shufflelabel(ax)
    R.event('shufflelabel', [y], fn, inplace=0, args={'ax': ax_(ax)})


@op('C24', 1)
def shuffle_reaches(g, R):
    """Many shuffles of one larry: every order of three slices turns up."""
    nd = g.ri(1, 3)
    ax = g.ri(0, nd - 1)
    sh = [2] * nd
    sh[ax] = 3
    kind = g.ch(['data', 'label'])
    seen = set()
    y0 = g.larry(sh, 'i', style='distinct')

    def fn(y):
        for _ in range(200):
            z = y.copy()
            if kind == 'data':
                z.shuffle(ax)
                s = np.rollaxis(z.x, ax).reshape(3, -1).tolist()
                t = np.rollaxis(y.x, ax).reshape(3, -1).tolist()
            else:
                z.shufflelabel(ax)
                s, t = z.label[ax], y.label[ax]
            seen.add(tuple([t.index(v) for v in s]))
        return None
    outs = {'orders': []}
    R.event('orders', [y0], lambda y: (fn(y), outs.update(
        orders=[list(z) for z in sorted(seen)]))[0], outputs=outs,
        share=False, args={'m': 3})


# C25 ------------------------------------------------------------------------
@op('C25', 4)
def cov(g, R):
    r, c = g.ri(1, 4), g.ri(2, 6)
    if g.p(0.03):
        r = 0
    y = g.larry(sh=[r, c] if g.p(0.96) else None, kinds=['f', 'f', 'f', 'i'],
                f4=False, style=g.ch(['small', 'distinct']),
                nanp=g.ch([0, 0.1, 0.25, 0.5]))
    if y.ndim != 2:
        y = g.larry(ndim=g.ch([1, 3]), kind='f')
    R.event('cov', [y], g.la.cov)


@op('C25', 5)
def correlation(g, R):
    sh = g.shape(g.ch([1, 2, 2, 3]), maxn=4, big=False, minn=1, maxsize=24)
    if g.p(0.3):
        sh[g.ri(0, len(sh) - 1)] = 5
    kw = {'f4': False, 'nanp': g.ch([0, 0, 0.15, 0.3, 0.6])}
    st = g.ch(['ties', 'ties', 'offset', 'const'])
    a = g.array(sh, 'f', style=st, **kw)
    b = g.array(sh, 'f', style='ties', **kw)
    if g.p(0.1):
        b = np.array(a) * g.ch([1, -1])
    if g.p(0.07):
        b = a
    ax = g.axis(len(sh), none=0.3)
    f = g.la.farray.correlation
    if ax is None and a.size > 8:
        ax = g.ri(-len(sh), len(sh) - 1)
    if ax is None and g.p(0.5):
        fn = lambda a, b: f(a, b)
    else:
        fn = lambda a, b: f(a, b, axis=ax)
    R.event('correlation', [a, b], fn, tr=t_ssq, args={'ax': ax_(ax)})


# C26 ------------------------------------------------------------------------
def creation(g):
    sh = g.shape(maxn=4, big=False, maxsize=60)
    rng = [Lbs(range(n)) for n in sh]
    z = g.r.random()
    lab = [g.labels(n) for n in sh]
    if z < 0.03:
        return None, None, dict(sh=[], hassh=0, lab=[], haslab=0, range=[])
    if z < 0.45:
        return (tuple(sh) if g.p(0.6) else list(sh)), None, \
            dict(sh=sh, hassh=1, lab=[], haslab=0, range=rng)
    a = g.ri(0, len(lab) - 1)
    if z < 0.5 and len(lab[a]) > 1:
        lab[a][0] = lab[a][-1]
    arg = None
    hassh = 0
    if z > 0.85:
        arg, hassh = tuple(sh), 1
    return arg, lab, dict(sh=sh if hassh else [], hassh=hassh,
                          lab=[Lbs(l) for l in lab], haslab=1, range=[])


@op('C26', 3)
def lrange(g, R):
    la = g.la
    sh, lab, args = creation(g)
    k = g.ch(['f', 'i', 'i'])
    kw = {}
    start, step = 0, 1
    if g.p(0.5):
        start = g.ri(-9, 9)
        kw['start'] = start
    if g.p(0.5):
        step = g.ch([1, 2, 3, -1, -2, 7])
        kw['step'] = step
    if k == 'f':
        if g.p(0.5):
            step = g.ch([0.5, -0.25, 1.5, 2.0, 0.1, 0.2, 0.3, 0.7, -0.1, 1.1, -0.3])
            kw['step'] = step
            if g.p(0.6):
                start = g.ch([0.1, -0.3, 0.7, 2.5, 100.1, -7.2])
                kw['start'] = start
        kw['dtype'] = g.ch([float, np.float64])
        if step * 4 % 1 == 0 and start * 4 % 1 == 0 and g.p(0.3):
            kw['dtype'] = 'f4'
    elif g.p(0.4):
        kw['dtype'] = g.ch([int, np.int32, np.int16])
    if 'dtype' in kw:
        args['dt'] = np.dtype(kw['dtype']).str
    if lab is not None:
        kw['label'] = lab
    if sh is None:
        fn = lambda: la.lrange(**kw)
    elif g.p(0.6):
        fn = lambda: la.lrange(sh, **kw)
    else:
        fn = lambda: la.lrange(shape=sh, **kw)
    args.update(k=k, start=Ce(start), step=Ce(step))
    R.event('lrange', [], fn, args=args)


@op('C26', 4)
def const(g, R):
    la = g.la
    sh, lab, args = creation(g)
    name = g.ch(['ones', 'zeros', 'empty'])
    k = g.ch(['f', 'f', 'i', 'b'])
    kw = {}
    if name != 'empty' and g.p(0.1):
        k = 'S'
    if k != 'f' or g.p(0.3):
        kw['dtype'] = g.ch({'S': ['S1', 'S3', 'S9'],'f': [np.float64, float, 'f4'],
                            'i': [int, np.int32, 'i1', 'u2'], 'b': [bool]}[k])
    args['dt'] = np.dtype(kw.get('dtype', float)).str
    if g.p(0.2):
        kw['order'] = g.ch(['C', 'F'])
    if lab is not None:
        kw['label'] = lab
    f = getattr(la, name)
    fn = (lambda: f(**kw)) if sh is None else (lambda: f(sh, **kw))
    args['k'] = k
    if name == 'empty':
        R.event('empty', [], fn, args=args)
    else:
        c = 1 if name == 'ones' else 0
        args['c'] = Ce(bool(c) if k == 'b' else str(c) if k == 'S' else c)
        R.event('const', [], fn, args=args)


@op('C26', 3)
def rand(g, R):
    la = g.la
    sh, lab, args = creation(g)
    name = g.ch(['rand', 'randn'])
    f = getattr(la, name)
    drawn = {}          # (the numbers drawn last, kept away from the arguments)

    def gen(*s):
        n = 1
        for i in s:
            n *= i
        v = tuple([g.ri(-99, 99) / 4.0 for _ in range(n)])
        drawn['last'] = v
        return np.array(v).reshape(s) if s else v[0]
    kw = {name: gen}
    if lab is not None:
        kw['label'] = lab
    pos = () if sh is None else tuple(sh)
    if not pos and lab is None or g.p(0.05):
        outs = {'draws': []}
        own = g.p(0.6)
        kw = {name: gen} if own else {}
        bad = g.p(0.3)
        if bad:
            kw.update(g.ch([{'validate': True}, {'dtype': float}, {'shape': (2,)},
                            {'rand' if name == 'randn' else 'randn': gen}]))

        def fn0():
            r = f(**kw)
            outs['draws'] = [Ce(v) for v in drawn.get('last', ())]
            return r
        R.event('rand0', [], fn0, args={'bad': bad, 'drawn': own}, outputs=outs)
        return
    if g.p(0.15):
        kw['validate'] = True
    if g.p(0.15):
        kw['dtype'] = g.ch(['f4', 'f8', np.float32])
        args['dt'] = np.dtype(kw['dtype']).str
    if len(pos) and g.p(0.04) and lab is not None:
        pos = (pos[0] + 1,) + pos[1:]
        R.event('must_raise', [], lambda: f(*pos, **kw))
        return
    outs = {'draws': []}

    def fn():
        r = f(*pos, **kw)
        outs['draws'] = [Ce(v) for v in drawn.get('last', ())]
        return r
    R.event('rand', [], fn, args=args, outputs=outs)


@op('C26', 1)
def rand_default(g, R):
    """Without a random function: shape and labels, values between 0 and 1
    (rand) or any (randn)."""
    la = g.la
    sh, lab, args = creation(g)
    name = g.ch(['rand', 'randn'])
    f = getattr(la, name)
    if lab is None and sh is None:
        return
    pos = () if sh is None else tuple(sh)
    kw = {} if lab is None else {'label': lab}
    args['k'] = 'f'
    R.event('empty', [], lambda: f(*pos, **kw), args=args)


# C32 ------------------------------------------------------------------------
@op('C32', 8)
def assert_equal(g, R):
    la = g.la
    ale = la.util.testing.assert_larry_equal
    # (bounds on what numpy says about int8 etc are not of interest)
    k = g.ch(['f', 'f', 'f', 'i', 'b', 'S', 'O'])
    x = g.larry(sh=g.shape(maxn=4, maxsize=40, big=False), kind=k, f4=False,
                layout=False)
    single = k == 'f' and not g.exact and g.p(0.15)
    if single:
        x.x = x.x.astype(np.float32)
    if k == 'i':
        x.x = x.x.astype(np.int64)
    z = g.r.random()
    lab = [list(l) for l in x.label]
    y = la.larry(x.x.copy(), lab)
    if z < 0.35:
        pass
    elif z < 0.55 and y.size:
        i = g.ri(0, y.size - 1)
        v = y.x.reshape(-1)
        old = v[i]
        if k == 'f':
            new = g.ch([nan, old + 1, old - 0.25, 1e6, inf, old + 1e-9, old * 1.0001])
            if single and 0.1 < abs(old) < 1000 and g.p(0.5):
                new = np.nextafter(old, np.float32(2000))
        elif k == 'i':
            new = old + 1
        elif k == 'b':
            new = not old
        else:
            new = 'diff'
        v[i] = new
        y.x = v.reshape(y.shape)
    elif z < 0.7 and y.ndim:
        a = g.ri(0, y.ndim - 1)
        if y.shape[a] > 1 and g.p(0.5):
            i = g.ri(0, y.shape[a] - 2)
            l = y.label[a]
            l[i], l[i + 1] = l[i + 1], l[i]
        elif y.shape[a]:
            i = g.ri(0, y.shape[a] - 1)
            e = g.extras(y.label[a])
            if e:
                y.label[a][i] = e[0]
    elif z < 0.8 and k in 'ib':
        y = la.larry(y.x.astype(float if k == 'i' or g.p(0.5) else int), lab)
    elif z < 0.83 and k in 'if' and not g.exact:
        y = la.larry(y.x.astype(np.float32 if k == 'f' else np.int32), lab)
    elif z < 0.86 and k == 'f' and not np.isnan(y.x).any():
        y = la.larry(np.floor(y.x).astype(np.int64), lab)
    elif z < 0.93:
        w = g.ri(0, 2)
        if w == 0:
            y = y.insertaxis(0, g.labels(1)[0])
        elif w == 1 and y.shape[0] > 1:
            y = y[:-1]
        elif y.ndim > 1:
            y = y.swapaxes(0, 1)
    else:
        y = g.larry(sh=list(x.shape), kind='f', f4=False)
    if g.p(0.3):
        x, y = y, x
    if x.x.dtype.kind != y.x.dtype.kind and \
       (x.x.dtype.kind in 'SO' or y.x.dtype.kind in 'SO'):
        return
    dt = 1 if g.p(0.6) else 0
    kw = {}
    if not dt or g.p(0.3):
        kw['dtype'] = bool(dt)
    iscopy, shd, shl = -1, 0, []
    if g.p(0.5) and x.size:
        iscopy = g.ri(0, 1)
        shd = g.ri(0, 1)
        shl = [g.ri(0, 1) for _ in range(x.ndim)]
        if g.p(0.5):
            shd = 1 - iscopy
            shl = [1 - iscopy] * x.ndim
            if g.p(0.4):
                i = g.ri(0, x.ndim)
                if i:
                    shl[i - 1] = iscopy
                else:
                    shd = iscopy
        orig = la.larry(x.x if shd else x.x.copy(),
                        [l if s else list(l) for l, s in zip(x.label, shl)])
        if g.p(0.2):
            orig.x = orig.x[...]
        kw['original'] = orig
        if not iscopy or g.p(0.5):
            kw['iscopy'] = bool(iscopy)
    if g.p(0.3):
        kw['msg'] = 'a message'
    # differences that are only rounding do not count
    eps = g.ch([4e-15, -4e-15]) if g.p(0.3) and not g.exact and \
        y.x.dtype == np.float64 else 0

    def fn(x, y):
        if eps:
            y = la.larry(np.where(np.abs(y.x) < 16, y.x + eps, y.x), y.label)
        return ale(x, y, **kw)
    R.event('assert_equal', [x, y], fn, share=False,
            args={'kinds': 1, 'dtype': dt, 'iscopy': iscopy, 'shd': shd,
                  'shl': shl})


@op('C32', 2)
def assert_scalar(g, R):
    la = g.la
    ale = la.util.testing.assert_larry_equal

    def sc():
        return g.ch([1, 2, 1.0, 2.5, 0.0, 0, True, False, 'a', 'b', nan, inf])
    a, b = sc(), sc()
    if g.p(0.4):
        b = a
    if isinstance(a, str) != isinstance(b, str):
        return
    dt = g.ri(0, 1)
    kinds = 3
    if g.p(0.3):
        b = g.larry(kind='f', maxsize=6)
        kinds = 2
        if g.p(0.5):
            a, b = b, a
    R.event('assert_equal', [a, b], lambda x, y: ale(x, y, dtype=bool(dt)),
            share=False, args={'kinds': kinds, 'dtype': dt, 'iscopy': -1,
                               'shd': 0, 'shl': []})


@op('C32', 1)
def assert_copyview(g, R):
    "assert_iscopy and assert_isview, noreference and nocopy by themselves."
    la = g.la
    t = la.util.testing
    x = g.larry(kind='f', minn=1, maxsize=30, layout=False)
    shd = g.ri(0, 1)
    shl = [g.ri(0, 1) for _ in range(x.ndim)]
    if g.p(0.5):
        shl = [shd] * x.ndim
    o = la.larry(x.x if shd else x.x.copy(),
                 [l if s else list(l) for l, s in zip(x.label, shl)])
    f = g.ch(['iscopy', 'isview', 'noreference', 'nocopy'])
    fns = {'iscopy': t.assert_iscopy, 'isview': t.assert_isview,
           'noreference': t.noreference, 'nocopy': t.nocopy}

    def fn(x, o):
        if f in ('noreference', 'nocopy'):
            if not fns[f](x, o):
                raise AssertionError('said no')
        else:
            fns[f](x, o)
        return None
    R.event('assert_equal', [x, o], fn, share=False,
            args={'kinds': 1, 'dtype': 1, 'shd': shd, 'shl': shl,
                  'iscopy': 1 if f in ('iscopy', 'noreference') else 0})


# C33 ------------------------------------------------------------------------
@op('C33', 5)
def unique(g, R):
    la = g.la
    y = g.larry(kinds=['f', 'f', 'i', 'S', 'b'], nanp=0, f4=False, maxsize=60,
                style=None, maxn=5)
    ri, rv = g.ri(0, 1), g.ri(0, 1)
    a = {}
    if ri or g.p(0.3):
        a['return_index'] = bool(ri)
    if rv or g.p(0.3):
        a['return_inverse'] = bool(rv)

    def out(r):
        if not (ri or rv):
            return [r]
        return [r[0]] + [VIs(v.tolist()) for v in r[1:]]
    R.event('unique', [y], lambda y: la.unique(y, **a), out=out,
            args={'ri': ri, 'rv': rv})


class Text(str):
    pass


@op('C33', 3)
def typepred(g, R):
    from la.util import misc
    import datetime
    vals = [(1, 'i'), (0, 'i'), (-5, 'i'), (np.int32(3), 'i'),
            (np.int64(-3), 'i'), (1.5, 'f'), (2.0, 'f'), (nan, 'f'),
            (-inf, 'f'), (np.float32(1.5), 'f'), (np.float64(2), 'f'),
            (5L, 'i'), (2 ** 70, 'i'), (np.int8(-1), 'i'), (np.uint8(3), 'i'),
            (np.uint16(0), 'i'), (np.uint32(7), 'i'), (np.uint64(2), 'i'),
            (np.int16(9), 'i'), (np.float16(0.5), 'f'), (np.longdouble(1), 'f'),
            (1j, 'o'), (np.complex128(1), 'o'), (np.arange(2), 'o'),
            (np.array(1.5), 'o'), (Text('sub'), 's'), (object(), 'o'),
            (int, 'o'), (float, 'o'), (np.float64, 'o'), (str, 'o'),
            (True, 'b'), (False, 'b'), (np.bool_(True), 'b'),
            ('a', 's'), ('', 's'), ('1', 's'), (np.str_('s'), 's'),
            (None, 'o'), ([], 'o'), ([1], 'o'), ((1,), 'o'), ({}, 'o'),
            (set(), 'o'), (datetime.date(2000, 1, 1), 'o'),
            (g.larry(maxsize=6), 'o'), (slice(1), 'o')]
    v, k = g.ch(vals)
    f = g.ch(['isint', 'isfloat', 'isscalar', 'isstring'])
    R.event('typepred', [], lambda: getattr(misc, f)(v), share=False,
            out=lambda r: VIs([1 if r else 0]), args={'f': f, 'k': k})
