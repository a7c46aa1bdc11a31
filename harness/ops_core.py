# Python 2.7.  Generators of calls: labels, selection, alignment, indexing.
import operator
import os

import numpy as np

import rec
from rec import (NOAXIS, Lb, Lbs, Ce, Rows, Sn, VIs, snap, is_larry)
from gen import nan, inf, POOLS

OPS = {}


def op(prop, weight=1):
    def deco(f):
        OPS.setdefault(prop, []).append((f, weight))
        return f
    return deco


def ax_(a):
    return NOAXIS if a is None else a


# C01 ------------------------------------------------------------------------
@op('C01', 6)
def construct(g, R):
    la = g.la
    sh = g.shape(g.ch([0, 1, 1, 2, 2, 2, 3, 3, 4]))
    x = g.array(sh, g.kind(), f4=False)
    rng = [list(range(n)) for n in sh]
    how = g.ch(['ok', 'ok', 'default', 'short', 'long', 'dup', 'dup', 'extra',
                'missing', 'notlist', 'perm', 'empty'])
    if g.p(0.2):
        x = x.tolist() if x.size and x.dtype.kind in 'fi' else x
    as_in = x if isinstance(x, np.ndarray) else np.array(x)
    dt = None
    if g.p(0.25) and as_in.dtype.kind in 'fib' and np.isfinite(as_in).all():
        dt = g.ch([float, int, bool, 'f4', 'i2', np.int32, np.float64, object])
        as_in = as_in.astype(dt)
    more = {} if dt is None or not as_in.size else {'dt': as_in.dtype.str}
    if how == 'default':
        R.event('construct', [as_in], lambda z: la.larry(x, dtype=dt), share=False,
                args=dict(more, haslab=0, lab=[], range=[Lbs(l) for l in rng]))
        return
    lab = [g.labels(n) for n in sh]
    typ = [1] * len(lab)
    if lab:
        a = g.ri(0, len(lab) - 1)
        if how == 'short' and lab[a]:
            lab[a].pop()
        elif how == 'long':
            lab[a].append('one more')
        elif how == 'dup' and len(lab[a]) > 1:
            i, j = g.r.sample(range(len(lab[a])), 2)
            lab[a][i] = lab[a][j]
            if g.p(0.5):
                # equal, but not the same
                l = lab[a][i]
                if isinstance(l, str):
                    lab[a][i] = unicode(l)
                elif isinstance(l, (int, float)) and l == int(l):
                    lab[a][i] = g.ch([float(l), long(l), np.int64(l),
                                      np.float64(l)])
                elif isinstance(l, float):
                    lab[a][i] = np.float64(l)
                elif isinstance(l, tuple):
                    lab[a][i] = tuple(list(l))
        elif how == 'extra':
            lab.append(g.labels(g.ri(0, 2)))
            typ.append(1)
        elif how == 'missing':
            lab.pop(a)
            typ.pop(a)
        elif how == 'notlist':
            lab[a] = tuple(lab[a])
            typ[a] = 0
        elif how == 'perm' and len(lab) > 1:
            lab = g.shuffled(lab)
        elif how == 'empty':
            lab = []
            typ = []
    given = lab
    if how == 'notlist' and g.p(0.3) and lab and isinstance(lab[a], tuple):
        given = list(lab)
        given[a] = np.array([0] * len(lab[a])) if len(lab[a]) < 2 else \
            np.array(list(range(len(lab[a]))))
        lab = list(lab)
        lab[a] = [int(z) for z in given[a]]
    R.event('construct', [as_in], lambda z: la.larry(x, given, dtype=dt),
            share=False,
            args=dict(more, haslab=1, range=[],
                      lab=[{'list': t, 'v': Lbs(l)} for t, l in zip(typ, lab)]))


# C02 ------------------------------------------------------------------------
@op('C02', 3)
def sortaxis(g, R):
    y = g.larry()
    ax = g.axis(y.ndim, none=0.25)
    rev = g.ri(0, 1)
    z = g.ri(0, 2)
    if z == 0 and ax is None:
        fn = lambda y: y.sortaxis(reverse=bool(rev))
    elif z == 1 and not rev:
        fn = lambda y: y.sortaxis(ax)
    else:
        fn = lambda y: y.sortaxis(axis=ax, reverse=bool(rev))
    R.event('sortaxis', [y], fn, args={'ax': ax_(ax), 'rev': rev})


@op('C02', 3)
def flipaxis(g, R):
    y = g.larry()
    ax = g.axis(y.ndim, none=0.25)
    cp = 1 if g.p(0.75) else 0
    if cp and g.p(0.5):
        fn = lambda y: y.flipaxis(ax)
    else:
        fn = lambda y: y.flipaxis(axis=ax, copy=bool(cp))
    if cp:
        R.event('flipaxis', [y], fn, args={'ax': ax_(ax), 'copy': 1})
    else:
        if ax is not None and (ax >= y.ndim or ax < -y.ndim):
            return
        R.event('flipaxis', [y], fn, args={'ax': ax_(ax), 'copy': 0},
                inplace=0)


@op('C02', 2)
def transpose(g, R):
    R.event('T', [g.larry()], lambda y: y.T)


@op('C02', 3)
def swapaxes(g, R):
    y = g.larry()
    a, b = g.axis(y.ndim), g.axis(y.ndim)
    R.event('swapaxes', [y], lambda y: y.swapaxes(a, b),
            args={'ax': a, 'ax2': b})


@op('C02', 2)
def insertaxis(g, R):
    y = g.larry(maxsize=80)
    a = g.ri(-y.ndim - 1, y.ndim) if g.p(0.95) else None
    lab = g.labels(1)[0]
    R.event('insertaxis', [y], lambda y: y.insertaxis(a, lab),
            args={'ax': ax_(a), 'label': Lb(lab)})


@op('C02', 2)
def squeeze(g, R):
    sh = g.shape()
    sh = [1 if g.p(0.4) else n for n in sh]
    R.event('squeeze', [g.larry(sh)], lambda y: y.squeeze())


@op('C02', 3)
def take(g, R):
    y = g.larry()
    ax = g.axis(y.ndim)
    n = y.shape[ax] if -y.ndim <= ax < y.ndim else 3
    idx = g.r.sample(range(n), g.ri(0, n))
    if idx and g.p(0.2):
        idx = [i - n if g.p(0.5) else i for i in idx]
    z = g.r.random()
    if idx and z < 0.07:
        idx.append(g.ch(idx))
    elif z < 0.1:
        idx.append(g.ch([n, n + 2, -n - 1]))
    elif idx and z < 0.13:
        i = g.ch(idx)
        idx.append(i - n if i >= 0 else i + n)
    form = g.ri(0, 2)
    arg = idx if form == 0 else tuple(idx) if form == 1 else \
        np.array(idx, dtype=int)
    R.event('take', [y], lambda y: y.take(arg, ax),
            args={'idx': list(idx), 'ax': ax})


@op('C02', 3)
def flatten(g, R):
    y = g.larry(sh=g.shape(maxn=4, big=False), pool=None, maxsize=60)
    o = g.ch(['C', 'C', 'F', 'F', 'A', 'x'] if g.p(0.1) else ['C', 'F'])
    if o == 'A':
        o = 'c'
    if o == 'C' and g.p(0.5):
        fn = lambda y: y.flatten()
    else:
        fn = lambda y: y.flatten(o)
    R.event('flatten', [y], fn, args={'order': o})


@op('C02', 2)
def panel(g, R):
    la = g.la
    y = g.larry(sh=g.shape(3 if g.p(0.9) else None, maxn=4, big=False))
    R.event('panel', [y], la.panel)


# C03 ------------------------------------------------------------------------
@op('C03', 6)
def morph(g, R):
    sh = g.shape()
    unis = [g.universe(n + g.ri(0, 4)) for n in sh]
    y = g.larry(sh, unis=unis)
    ax = g.axis(y.ndim)
    a = ax if -y.ndim <= ax < y.ndim else 0
    lab = g.related(y.label[a], unis[a])
    if len(lab) > 1 and g.p(0.06):
        lab = list(lab)
        lab[g.ri(0, len(lab) - 1)] = g.ch(lab)
    z = g.r.random()
    if z < 0.75:
        fn = lambda y: y.morph(list(lab), ax)
    elif z < 0.9:
        # the caller's list is his own
        fn = lambda y: y.morph(lab, ax)
    else:
        lab = list(y.label[a])
        fn = lambda y: y.morph(y.label[a], ax)
    R.event('morph', [y], fn, args={'label': Lbs(lab), 'ax': ax}, again=z < 0.9)


@op('C03', 4)
def morph_like(g, R):
    x, y = g.pair(maxsize=80)
    R.event('morph_like', [x, y], lambda x, y: x.morph_like(y))


# C04 ------------------------------------------------------------------------
@op('C04', 4)
def keep_label(g, R):
    y = g.larry(pool=g.ch(POOLS_ORD))
    ax = g.axis(y.ndim, none=0.03)
    a = ax if ax is not None and -y.ndim <= ax < y.ndim else 0
    cmp_ = g.ch(['==', '!=', '>', '<', '>=', '<=', 'in', 'not in', 'in',
                 'not in'])
    if g.p(0.02):
        cmp_ = g.ch(['=', 'is', '', 'IN', '<>'])
    lab = y.label[a]
    other = g.like_label(lab)
    if cmp_ in ('in', 'not in'):
        v = g.r.sample(lab, g.ri(0, len(lab)))
        if g.p(0.4):
            v.append(other)
        g.r.shuffle(v)
        arg = v if g.p(0.7) else tuple(v)
        vv = v
    else:
        arg = g.ch(lab) if lab and g.p(0.7) else other
        vv = [arg]
    R.event('keep_label', [y], lambda y: y.keep_label(cmp_, arg, ax),
            args={'cmp': cmp_, 'v': Lbs(vv), 'ax': ax_(ax)})


POOLS_ORD = ['int', 'str', 'float', 'mixnum', 'date', 'bigint', 'datetime',
             'time', 'mix']


@op('C04', 3)
def keep_x(g, R):
    y = g.larry(kind='f', ndim=g.ch([1, 2, 2, 2, 2, 3]), infp=g.ch([0, 0, 0.2]))
    vac = 1 if y.ndim == 2 and g.p(0.7) or g.p(0.1) else 0
    cmp_ = g.ch(['==', '!=', '>', '<', '>=', '<='])
    if g.p(0.03):
        cmp_ = g.ch(['=', 'in', ''])
    fl = [v for v in y.x.reshape(-1).tolist() if v == v and abs(v) != inf]
    c = g.ch(fl) if fl and g.p(0.7) else g.ri(-4, 5)
    if vac and g.p(0.5):
        fn = lambda y: y.keep_x(cmp_, c)
    else:
        fn = lambda y: y.keep_x(cmp_, c, vacuum=bool(vac))
    R.event('keep_x', [y], fn, args={'cmp': cmp_, 'c': Ce(float(c)),
                                     'vac': vac})


@op('C04', 4)
def vacuum(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'f', 'f', 'i', 'b'],
                nanp=g.ch([0.3, 0.6, 0.8, 0.9]), infp=g.ch([0, 0, 0.2]))
    holes(g, y)
    nd = y.ndim
    z = g.r.random()
    if z < 0.3:
        axs, arg = [], None
    elif z < 0.75:
        arg = g.ri(-nd, nd - 1)
        axs = [arg]
    else:
        axs = [g.ri(-nd, nd - 1) for _ in range(g.ri(1, nd))]
        arg = g.ch([list, tuple])(axs)
    if arg is None and g.p(0.5):
        fn = lambda y: y.vacuum()
    else:
        fn = lambda y: y.vacuum(arg)
    R.event('vacuum', [y], fn, args={'axs': axs})


def holes(g, y, miss=nan):
    "Make whole slices missing."
    if y.x.dtype.kind != 'f':
        return
    for a in range(y.ndim):
        for i in range(y.shape[a]):
            if g.p(0.2):
                idx = [slice(None)] * y.ndim
                idx[a] = i
                y.x[idx] = miss


@op('C04', 4)
def cut_missing(g, R):
    y = g.larry(kinds=['f', 'f', 'f', 'f', 'f', 'i'],
                nanp=g.ch([0.1, 0.3, 0.6, 0.8]),
                infp=g.ch([0, 0, 0.1]))
    holes(g, y)
    fn_, fd = g.ch([(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 2), (3, 8),
                    (5, 8)])
    ax = g.axis(y.ndim, none=0.4, bad=0)
    fr = float(fn_) / fd
    if ax is None and g.p(0.6):
        f = lambda y: y.cut_missing(fr)
    else:
        f = lambda y: y.cut_missing(fr, axis=ax)
    R.event('cut_missing', [y], f, args={'fn': fn_, 'fd': fd, 'ax': ax_(ax)})


@op('C04', 3)
def pull(g, R):
    y = g.larry()
    ax = g.axis(y.ndim, none=0.02)
    a = ax if ax is not None and -y.ndim <= ax < y.ndim else 0
    lab = y.label[a]
    name = g.ch(lab) if lab and g.p(0.92) else g.like_label(lab)
    R.event('pull', [y], lambda y: y.pull(name, ax),
            args={'name': Lb(name), 'ax': ax_(ax)})


@op('C04', 3)
def lag(g, R):
    y = g.larry()
    ax = g.axis(y.ndim, bad=0.02, none=0.01)
    a = ax if ax is not None and -y.ndim <= ax < y.ndim else 0
    n = y.shape[a]
    k = g.ri(-n - 1, n + 1) if g.p(0.6) else g.ch([1, -1, 2, 0])
    if ax == -1 and g.p(0.5):
        fn = lambda y: y.lag(k)
    else:
        fn = lambda y: y.lag(k, ax)
    R.event('lag', [y], fn, args={'nlag': k, 'ax': ax_(ax)})


@op('C04', 3)
def sortby(g, R):
    la = g.la
    y = g.larry(ndim=2 if g.p(0.96) else None, kinds=['f', 'f', 'f', 'i', 'S',
                                                      'b'],
                maxn=7, nanp=g.ch([0, 0, 0.2]))
    ax = g.axis(y.ndim, bad=0)
    a = ax if -y.ndim <= ax < y.ndim else 0
    lab = y.label[a]
    name = g.ch(lab) if lab and g.p(0.95) else g.like_label(lab)
    rev = g.ri(0, 1)
    if not rev and g.p(0.5):
        fn = lambda y: la.sortby(y, name, ax)
    else:
        fn = lambda y: la.sortby(y, name, ax, reverse=bool(rev))
    R.event('sortby', [y], fn, args={'name': Lb(name), 'ax': ax, 'rev': rev})


# C05 ------------------------------------------------------------------------
JOINS = ['inner', 'outer', 'left', 'right', 'skip']


def joins(g, nd, skip=True):
    js = JOINS if skip else JOINS[:-1]
    z = g.r.random()
    if z < 0.5:
        j = g.ch(js)
        return j, [j] * nd
    lst = [g.ch(js) for _ in range(nd)]
    if z < 0.53:
        lst[g.ri(0, nd - 1)] = g.ch(['Inner', 'x', ''])
    elif z < 0.55:
        lst.append('inner')
    return list(lst), lst


def callj(f, js, cast, dflt_cast=True):
    """f with the join given by keyword, by position or left out."""
    kw = {}
    if js != 'inner':
        kw['join'] = js
    if cast != 1:
        kw['cast'] = False
    return kw


@op('C05', 5)
def align(g, R):
    la = g.la
    x, y = g.pair()
    js, lst = joins(g, x.ndim)
    cast = 1 if g.p(0.75) else 0
    if g.p(0.5):
        kw = callj(None, js, cast)
        fn = lambda x, y: la.align(x, y, **kw)
    else:
        fn = lambda x, y: la.align(x, y, js, bool(cast))
    R.event('align', [x, y], fn, args={'js': lst, 'cast': cast})


@op('C05', 3)
def align_raw(g, R):
    la = g.la
    x, y = g.pair()
    js, lst = joins(g, x.ndim)
    cast = 1 if g.p(0.75) else 0
    raw = la.flarry.align_raw

    def out(r):
        res = [np.asarray(r[0]), np.asarray(r[1])]
        for l in r[2]:
            res.append(VIs([-1]) if l is None else VIs(l, True))
        return res
    R.event('align_raw', [x, y], lambda x, y: raw(x, y, js, bool(cast)),
            out=out, args={'js': lst, 'cast': cast}, share=False)


# C06 ------------------------------------------------------------------------
ARITH = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
         'div': operator.div, 'truediv': operator.truediv,
         'floordiv': operator.floordiv, 'and': operator.and_,
         'or': operator.or_, '==': operator.eq, '!=': operator.ne,
         '<': operator.lt, '<=': operator.le, '>': operator.gt,
         '>=': operator.ge}
NUM = ['f', 'f', 'f', 'i', 'i', 'b']


@op('C06', 5)
def op_ll(g, R):
    f = g.ch(sorted(ARITH))
    if g.p(0.1):
        x, y = g.pair(kind1='S', kind2='S')
        f = g.ch(['==', '!=', '<', '<=', '>', '>='])
    elif g.p(0.05):
        x, y = g.pair(kind1='O', kind2='O')
        f = g.ch(['==', '!='])
    else:
        x, y = g.pair(kinds=NUM, infp=g.ch([0, 0, 0.1]))
    if g.p(0.05):
        y = x
    fn = ARITH[f]
    R.event('op_ll', [x, y], fn, args={'f': f})


@op('C06', 3)
def op_ls(g, R):
    y = g.larry(kinds=NUM, infp=g.ch([0, 0, 0.1]), maxsize=60)
    k = g.ch(NUM)
    c = g.values(1, k, nanp=0.03)[0]
    if g.p(0.3):
        c = {'f': np.float64, 'i': np.int64, 'b': np.bool_}[k](c)
        npc = True
    else:
        npc = False
    f = g.ch(sorted(ARITH))
    refl = 1 if g.p(0.4) and not npc else 0
    if refl and f == 'sub' and y.x.dtype.kind == 'b':
        refl = 0
    fn = ARITH[f]
    if refl:
        call = lambda y: fn(c, y)
    else:
        call = lambda y: fn(y, c)
    R.event('op_ls', [y], call, args={'f': f, 'k': k, 'c': Ce(c),
                                      'refl': refl})


@op('C06', 3)
def op_la(g, R):
    y = g.larry(kinds=NUM, infp=g.ch([0, 0, 0.1]), maxsize=60)
    a = g.array(y.shape, g.ch(NUM), f4=False)
    f = g.ch(sorted(ARITH))
    refl = 1 if g.p(0.4) and f in ('add', 'sub', 'mul', 'div', 'truediv',
                                   'floordiv') else 0
    if refl and (y.x.dtype.kind == 'b' or a.dtype.kind == 'b'):
        refl = 0
    if not refl and f == 'sub' and False:
        return
    fn = ARITH[f]
    if refl:
        call = lambda y, a: fn(a, y)
    else:
        call = lambda y, a: fn(y, a)
    R.event('op_la', [y, a], call, args={'f': f, 'refl': refl})


# C07 ------------------------------------------------------------------------
@op('C07', 6)
def binaryop(g, R):
    la = g.la
    f = g.ch(['add', 'sub', 'mul', 'div', 'max', 'wsub', 'add', 'subtract',
              'multiply', 'divide'])
    p = g.ch([0.2, 0.4, 0.6])
    x, y = g.pair(kinds=['f', 'f', 'f', 'f', 'i', 'b'], kw1={'nanp': p},
                  kw2={'nanp': p})
    js, lst = joins(g, x.ndim, skip=False)
    cast = 1 if g.p(0.8) else 0

    def fill():
        z = g.r.random()
        if z < 0.3:
            return None
        if z < 0.4:
            return nan
        return float(g.ri(-3, 4)) if g.p(0.5) else g.ri(-3, 4)
    one, two = fill(), fill()
    kw = {}
    if js != 'inner' or g.p(0.3):
        kw['join'] = js
    if not cast or g.p(0.3):
        kw['cast'] = bool(cast)
    if one is not None:
        kw['missone'] = one
    elif g.p(0.2):
        kw['missone'] = 'ignore'
    if two is not None:
        kw['misstwo'] = two
    elif g.p(0.2):
        kw['misstwo'] = 'ignore'
    # missing values can be asked for only where they can be stored
    name = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'div': 'div',
            'subtract': 'sub', 'multiply': 'mul', 'divide': 'div',
            'max': 'max', 'wsub': 'wsub'}[f]
    if f in ('subtract', 'multiply', 'divide') or (f == 'add' and g.p(0.5)):
        func = getattr(la, f)
        call = lambda x, y: func(x, y, **kw)
        if name == 'div':
            name = 'divide'
    else:
        uf = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply,
              'div': np.divide, 'max': np.maximum, 'wsub': wsub}[f]
        if f == 'div':
            name = 'divide'
        kw2 = dict(kw)
        if f == 'wsub':
            kw2['w'] = 2
        call = lambda x, y: la.binaryop(uf, x, y, **kw2)
    R.event('binaryop', [x, y], call,
            args={'f': name, 'js': lst, 'cast': cast,
                  'one': [] if one is None else [Ce(one)],
                  'two': [] if two is None else [Ce(two)]})


def wsub(a, b, w=1):
    return w * a - b


# C08 ------------------------------------------------------------------------
def several(g, n, nd=None, kinds=None, common=None):
    """n larrys; the labels of axis `common[i]` of larry i are related."""
    uni = g.universe(g.ri(1, 6))
    base = g.labels(g.ri(0 if g.p(0.1) else 1, len(uni)), uni)
    lars, axs = [], []
    for i in range(n):
        d = nd or g.ch([1, 2, 2, 3])
        a = g.ri(0, d - 1) if common is None else common
        lab = g.related(base, uni)
        if g.p(0.3):
            lab = list(base)
        sh = g.shape(d, maxn=3, big=False)
        sh[a] = len(lab)
        labs = [g.labels(m) for m in sh]
        labs[a] = lab
        lars.append(g.larry(sh, kinds and g.ch(kinds), labs=labs))
        axs.append(a)
    return lars, axs


@op('C08', 4)
def align_axis(g, R):
    la = g.la
    n = g.ch([1, 2, 2, 3, 3, 4])
    same = g.p(0.4)
    if same:
        a = g.ch([0, 0, -1])
        lars, axs = several(g, n, None, None, a)
        axs = [a] * n
        arg = a
    else:
        lars, axs = several(g, n)
        axs = [a - l.ndim if g.p(0.2) else a for a, l in zip(axs, lars)]
        arg = list(axs) if g.p(0.5) else tuple(axs)
    j = g.ch(['inner', 'outer', 'left', 'right'])
    if g.p(0.03):
        j = g.ch(['skip', 'x'])
    kw = {}
    if j != 'inner' or g.p(0.5):
        kw['join'] = j
    tup = g.p(0.3)

    def fn(*z):
        zz = tuple(z) if tup else list(z)
        if same and g_default:
            return la.align_axis(zz, **kw)
        return la.align_axis(zz, axis=arg, **kw)
    g_default = same and a == 0 and g.p(0.3)
    R.event('align_axis', lars, fn, args={'axs': list(axs), 'j': j})


@op('C08', 2)
def union_inter(g, R):
    la = g.la
    n = g.ch([1, 2, 2, 3, 4])
    d = g.ch([1, 2, 2, 3])
    a = g.ri(0, d - 1)
    lars, _ = several(g, n, d, None, a)
    if g.p(0.3):
        a -= d
    elif g.p(0.03):
        a = d
    name = g.ch(['union', 'intersection'])
    f = getattr(la, name)
    R.event(name, lars, lambda *z: f(a, *z), args={'ax': a},
            out=lambda r: VIs(r, True), share=False)


@op('C08', 2)
def isaligned(g, R):
    la = g.la
    x, y = g.pair(maxsize=30)
    ax = g.axis(x.ndim, none=0.4, bad=0)
    if x.ndim != y.ndim and ax is not None:
        return
    if g.p(0.5):
        if g.p(0.5):
            x = g.larry(maxn=7, maxsize=60, kind='f')
        labs = [list(l) for l in x.label]
        l = g.ch(labs)
        if l and g.p(0.7):
            # almost the same
            i, j = g.ri(0, len(l) - 1), g.ri(0, len(l) - 1)
            if g.p(0.7):
                l[i], l[j] = l[j], l[i]
            else:
                l[i] = g.like_label(l)
        if all(len(set(map(repr, l))) == len(l) for l in labs):
            y = g.larry([len(l) for l in labs], labs=labs)
            if y.ndim != x.ndim or ax is not None and not -x.ndim <= ax < x.ndim:
                ax = None
    if ax is None and g.p(0.5):
        fn = lambda x, y: la.isaligned(x, y)
    else:
        fn = lambda x, y: la.isaligned(x, y, axis=ax)
    R.event('isaligned', [x, y], fn, args={'ax': ax_(ax)}, share=False,
            out=lambda r: VIs([int(r)]))


@op('C08', 3)
def stack(g, R):
    la = g.la
    n = g.ri(1, 4)
    lars = []
    ur = g.universe(5)
    uc = g.universe(4)
    for i in range(n):
        nr, nc = g.ri(1, 3), g.ri(1, 3)
        lars.append(g.larry([nr, nc], g.ch(['f', 'f', 'f', 'i', 'b']),
                            unis=[ur, uc], f4=False))
    if g.p(0.03):
        lars[0] = g.larry(ndim=1, kind='f')
    names = g.r.sample(['a', 'b', 'zz', 'x1', 'B', 'name', '_q', 'c3'], n)
    mode = g.ch(['union', 'intersection'])
    if g.p(0.03):
        mode = 'x'

    def fn(*z):
        return la.stack(mode, **dict(zip(names, z)))
    R.event('stack', lars, fn, args={'mode': mode, 'names': Lbs(names)})


# C09 ------------------------------------------------------------------------
@op('C09', 5)
def merge(g, R):
    k = g.ch(['num', 'num', 'num', 'same', 'S', 'O'])
    p = g.ch([0.2, 0.5, 0.8])
    kw = {'nanp': p, 'infp': g.ch([0, 0, 0, 0.1])}
    if k == 'num':
        x, y = g.pair(kinds=['f', 'f', 'f', 'i', 'b'], f4=False, kw1=kw, kw2=kw)
    elif k == 'same':
        x, y = g.pair(kind1='f', kind2='f', f4=False, kw1=kw, kw2=kw)
    else:
        x, y = g.pair(kind1=k, kind2=k if g.p(0.9) else 'f')
    if g.p(0.35):
        disjointify(g, x, y)
    upd = g.ri(0, 1)
    if not upd and g.p(0.5):
        fn = lambda x, y: x.merge(y)
    else:
        fn = lambda x, y: x.merge(y, update=bool(upd))
    R.event('merge', [x, y], fn, args={'upd': upd})


def disjointify(g, x, y):
    "Make each common cell missing in x or y."
    if x.ndim != y.ndim:
        return
    if x.x.dtype.kind not in 'fSO' or y.x.dtype.kind not in 'fSO':
        return
    mx = {'f': nan, 'S': '', 'O': None}
    pos = [dict((l, i) for i, l in enumerate(z)) for z in y.label]
    for ix in np.ndindex(*x.shape):
        labs = [x.label[a][i] for a, i in enumerate(ix)]
        if all(l in pos[a] for a, l in enumerate(labs)):
            iy = tuple(pos[a][l] for a, l in enumerate(labs))
            if g.p(0.5):
                x.x[ix] = mx[x.x.dtype.kind]
            else:
                y.x[iy] = mx[y.x.dtype.kind]


# C10 ------------------------------------------------------------------------
def slice_(g, n):
    def e():
        z = g.r.random()
        if z < 0.35:
            return None
        if z < 0.9:
            return g.ri(-n, n)
        return g.ri(-n - 3, n + 3)
    st = g.ch([None, None, None, 1, 2, -1, -1, -2, 3])
    return slice(e(), e(), st)


def stok(s):
    return {'y': 's', 'v': [NOAXIS if z is None else z
                            for z in (s.start, s.stop, s.step)],
            'lab': []}


def token(g, y, a, kinds, bare=False, strict=False):
    """One index for axis a of y: (python object, encoded token)."""
    n = y.shape[a]
    k = g.ch(kinds)
    if k == 'i':
        v = g.ri(-n, n - 1) if n and g.p(0.95) else g.ch([n, n + 1, -n - 1])
        z = np.int64(v) if g.p(0.25) else v
        return z, {'y': 'i', 'v': [v], 'lab': []}
    if k == 's':
        s = slice_(g, n)
        return s, stok(s)
    if k == 'q':
        v = g.r.sample(range(n), g.ri(0 if g.p(0.2) else min(1, n), n))
        if g.p(0.3):
            v.sort()
        v = [i - n if g.p(0.12) else i for i in v]
        z = g.r.random()
        if v and z < 0.04:
            v.append(g.ch(v))
        elif v and z < 0.06:
            i = g.ch(v)
            v.append(i - n if i >= 0 else i + n)
        elif z < 0.09:
            # (numpy may have assigned some cells when it finds the bad one)
            v = ([] if strict else v) + [g.ch([n, n + 3, -n - 1])]
        f = g.ri(0, 2)
        if f == 0 or not v:
            o = list(v)
        elif f == 1 and not bare:
            o = tuple(v)
        else:
            o = np.array(v, dtype=int)
        return o, {'y': 'q', 'v': v, 'lab': []}
    flags = [1 if g.p(0.5) else 0 for _ in range(n)]
    if g.p(0.1):
        flags = [0] * n
    b = np.array(flags, dtype=bool)
    if k == 'b':
        return b, {'y': 'b', 'v': flags, 'lab': []}
    lab = list(y.label[a])
    if g.p(0.1):
        lab = g.related(lab, lab + g.extras(lab))
        flags = [1 if g.p(0.5) else 0 for _ in lab]
    bl = g.la.larry(np.array(flags, dtype=bool), [lab])
    return bl, {'y': 'l', 'v': flags, 'lab': Lbs(lab)}


def index(g, y, seqs=('q', 'b', 'l'), strict=False):
    """A whole index: (object, tokens)."""
    nd = y.ndim
    if g.p(0.4) and nd:
        o, t = token(g, y, 0, ['i', 'i', 's', 's', 's'] + list(seqs), bare=True,
                     strict=strict)
        return o, [t]
    m = nd if g.p(0.6) else g.ri(1, nd)
    if g.p(0.02):
        m = nd + 1
    nseq = g.ch([0, 0, 1, 1, 1] + ([2] if g.p(0.3) else []))
    if not seqs:
        nseq = 0
    where = set(g.r.sample(range(min(m, nd)), min(nseq, m, nd)))
    objs, toks = [], []
    for a in range(m):
        if a >= nd:
            o, t = 0, {'y': 'i', 'v': [0], 'lab': []}
        elif a in where:
            o, t = token(g, y, a, list(seqs), strict=strict)
        else:
            o, t = token(g, y, a, ['i', 's', 's'])
        objs.append(o)
        toks.append(t)
    return tuple(objs), toks


def live_larrys(o):
    if is_larry(o):
        return [o]
    if isinstance(o, (tuple, list)):
        return [z for z in o if is_larry(z)]
    return []


def oddtoken(g, y, a):
    "Something that is not an index of axis a."
    n = y.shape[a]
    k = g.ri(0, 8)
    z = {'y': 'z', 'v': [], 'lab': []}
    if k == 0:
        o = np.array([g.r.sample(range(n), n)])
    elif k == 1:
        o = np.ones((n, g.ri(1, 2)), dtype=bool)
    elif k == 2:
        o = g.la.larry(np.array(g.r.sample(range(n), n), dtype=int), [list(y.label[a])])
    elif k == 3:
        o = g.la.larry(np.array([g.ri(0, 1) for _ in range(n)], dtype=float),
                       [list(y.label[a])])
    elif k == 4:
        o = g.la.larry(np.ones((n, n), dtype=bool), [list(y.label[a]), list(y.label[a])])
    elif k == 5:
        # flags for more positions than there are
        o = np.array([g.p(0.5) for _ in range(n + g.ri(0, 2))] + [True], dtype=bool)
    elif k == 6:
        o = y > y if y.ndim > 1 else None
    elif k == 7:
        o = g.ch([None, 'a', '', {}, set([0])])
    else:
        o = g.ch([[n], (n,), np.array([n]), np.array([-n - 1, 0]), [0, -n - 1]])
    return o, z


@op('C10', 1)
def getitem_odd(g, R):
    y = g.larry(maxn=4)
    if y.ndim > 1 and g.p(0.5):
        m = g.ri(1, y.ndim)
        a = g.ri(0, m - 1)
        o, t = zip(*[oddtoken(g, y, b) if b == a else token(g, y, b, ['i', 's', 's'])
                     for b in range(m)])
        t = list(t)
    else:
        o, t = oddtoken(g, y, 0)
        if type(o) is tuple:
            o = list(o)
        t = [t]
    R.event('getitem', [y] + live_larrys(o), lambda y, *r: y[o],
            args={'ix': t})


@op('C10', 8)
def getitem(g, R):
    y = g.larry(maxn=6)
    o, t = index(g, y)
    R.event('getitem', [y] + live_larrys(o), lambda y, *r: y[o],
            args={'ix': t})


# C11 ------------------------------------------------------------------------
@op('C11', 2)
def get(g, R):
    y = g.larry()
    labs = [g.ch(l) if l and g.p(0.97) else g.like_label(l) for l in y.label]
    if g.p(0.03):
        labs = labs + [labs[0]] if g.p(0.5) else labs[:-1]
    arg = labs if g.p(0.6) else tuple(labs)
    R.event('get', [y], lambda y: y.get(arg), args={'labs': Lbs(labs)})


@op('C11', 2)
def labelindex(g, R):
    y = g.larry(pool=g.ch(POOLS_ORD), kind='f')
    ax = g.axis(y.ndim, none=0.02)
    a = ax if ax is not None and -y.ndim <= ax < y.ndim else 0
    lab = y.label[a]
    name = g.ch(lab) if lab and g.p(0.5) else g.like_label(lab)
    ex = g.ri(0, 1)
    if ex and g.p(0.5):
        fn = lambda y: y.labelindex(name, ax)
    else:
        fn = lambda y: y.labelindex(name, ax, exact=bool(ex))
    R.event('labelindex', [y], fn, share=False, out=lambda r: VIs([r]),
            args={'name': Lb(name), 'ax': ax_(ax), 'exact': ex})


@op('C11', 2)
def getlabel(g, R):
    y = g.larry(kind='f', maxsize=40)
    ax = g.axis(y.ndim)

    def wrap(r):
        v = VIs(r, True)
        v.live = r
        return v
    cp = g.ri(0, 1)
    if cp and g.p(0.5):
        fn = lambda y: y.getlabel(ax)
    else:
        fn = lambda y: y.getlabel(ax, copy=bool(cp))
    R.event('getlabel', [y], fn, out=wrap, args={'ax': ax, 'copy': cp})


@op('C11', 2)
def maxminlabel(g, R):
    pool = g.ch(POOLS_ORD)
    y = g.larry(pool=pool, kind='f', maxsize=40, maxn=8)
    if g.p(0.2):
        # one axis, in an order of its own
        lab = g.labels(g.ri(1, 10), pool=pool)
        lab = g.ch([sorted(lab), sorted(lab, reverse=True), sorted(lab, key=repr),
                    sorted(lab, key=repr, reverse=True), sorted(lab, key=lambda z: (len(repr(z)), z))])
        y = g.la.larry(np.zeros(len(lab)), [lab])
    ax = g.axis(y.ndim, none=0.4, bad=0)
    name = g.ch(['maxlabel', 'minlabel'])
    if ax is None and g.p(0.5):
        fn = lambda y: getattr(y, name)()
    else:
        fn = lambda y: getattr(y, name)(ax)
    R.event(name, [y], fn, args={'ax': ax_(ax)}, share=False,
            out=lambda r: VIs([r], True))


def lixtoken(g, y, a):
    n = y.shape[a]
    lab = y.label[a]
    z = g.r.random()
    if z < 0.4:
        v = g.r.sample(lab, g.ri(1, n)) if g.p(0.7) or not n else [g.ch(lab)]
        w = g.r.random()
        if w < 0.03:
            v.append(g.like_label(lab))
        elif w < 0.06:
            v.append(g.ch(v))
        return list(v), {'y': 'n', 'v': Lbs(v), 'la': 0, 'lb': 0}
    if z < 0.6:
        i = g.ri(-n, n - 1) if g.p(0.95) else g.ch([n, -n - 1])
        return i, {'y': 'i', 'v': [i], 'la': 0, 'lb': 0}
    s = slice_(g, n)
    la_ = lb = 0
    st, sp = s.start, s.stop
    vs = [NOAXIS if st is None else st, NOAXIS if sp is None else sp]
    if g.p(0.5):
        l = g.ch(lab) if g.p(0.95) else g.like_label(lab)
        st, la_ = [l], 1
        vs[0] = Lb(l)
    if g.p(0.5):
        l = g.ch(lab) if g.p(0.95) else g.like_label(lab)
        sp, lb = [l], 1
        vs[1] = Lb(l)
    return slice(st, sp, s.step), {
        'y': 's', 'v': vs + [NOAXIS if s.step is None else s.step],
        'la': la_, 'lb': lb}


def lixindex(g, y):
    if g.p(0.35):
        o, t = lixtoken(g, y, 0)
        return o, [t], 0
    m = y.ndim if g.p(0.6) else g.ri(1, y.ndim)
    os_, ts = [], []
    for a in range(m):
        o, t = lixtoken(g, y, a)
        os_.append(o)
        ts.append(t)
    if g.p(0.02):
        while len(os_) <= y.ndim:
            os_.append(slice(None))
            ts.append({'y': 's', 'v': [NOAXIS] * 3, 'la': 0, 'lb': 0})
    return tuple(os_), ts, 1


@op('C11', 6)
def lix(g, R):
    y = g.larry(minn=0 if g.p(0.05) else 1, maxn=6)
    if 0 in y.shape:
        o, t, tup = 0, [{'y': 'i', 'v': [0], 'la': 0, 'lb': 0}], 0
    else:
        o, t, tup = lixindex(g, y)
    R.event('lix', [y], lambda y: y.lix[o], args={'ix': t, 'tup': tup})


# C12 ------------------------------------------------------------------------
def scalar_for(g, y):
    k = y.x.dtype.kind
    if k == 'f':
        return ('f', float(g.ri(-50, 50))) if g.p(0.6) else \
            ('i', g.ri(-50, 50)) if g.p(0.6) else ('f', nan)
    if k in 'iu':
        return ('i', g.ri(-50, 50))
    if k == 'b':
        return ('b', g.p(0.5))
    if k == 'S':
        return ('S', g.ch(['', 'n', 'new', 'aa']))
    return ('O', g.ch([None, 'n', 'new']))


def kindof(y):
    return {'f': 'f', 'i': 'i', 'b': 'b', 'S': 'S', 'O': 'O'}[y.x.dtype.kind]


def value_for(g, y, sel, forbid_array=False):
    """Value to assign to the selection sel (a larry or scalar got by
    indexing): (object, encoded)."""
    z = g.r.random()
    if z < 0.4 or not is_larry(sel):
        k, c = scalar_for(g, y)
        return c, {'y': 's', 'k': k, 'c': Ce(c), 'sh': [], 'd': [], 'lab': []}
    kind = kindof(y)
    if z < 0.65:
        a = g.array(sel.shape, kind, f4=False)
        return a, {'y': 'a', 'k': kind, 'c': [4, 0, 0], 'sh': list(a.shape),
                   'd': [Ce(v) for v in a.reshape(-1).tolist()], 'lab': []}
    labs = [list(l) for l in sel.label]
    if g.p(0.25) and labs:
        a = g.ri(0, len(labs) - 1)
        labs[a] = g.related(labs[a], labs[a] + g.extras(labs[a]))
    if g.p(0.08) and labs:
        # another number of dimensions
        z = g.ri(0, 3)
        if z < 2 and len(labs) > 1:
            labs.pop(-z)
        elif z == 2:
            labs.insert(0, g.labels(1))
        else:
            labs.append(g.labels(g.ri(1, 2)))
    v = g.larry([len(l) for l in labs], kind, labs=labs, f4=False)
    return v, {'y': 'l', 'k': kind, 'c': [4, 0, 0], 'sh': list(v.shape),
               'd': [Ce(z) for z in v.x.reshape(-1).tolist()],
               'lab': [Lbs(l) for l in labs]}


def sel_of(y, toks):
    """The selection's shape and labels, found without the code under test."""
    labs = []
    for a in range(y.ndim):
        l = list(y.label[a])
        if a < len(toks):
            t = toks[a]
            n = len(l)
            if t['y'] == 'i':
                continue
            if t['y'] == 's':
                v = [None if z == NOAXIS else z for z in t['v']]
                l = l[slice(*v)]
            elif t['y'] == 'q':
                try:
                    l = [l[i] for i in t['v']]
                except IndexError:
                    return None
            else:
                l = [z for z, f in zip(l, t['v']) if f]
        labs.append(l)
    return labs


class FakeSel(object):
    pass


def mksel(g, y, toks):
    labs = sel_of(y, toks)
    if not labs:
        return None
    if any(len(set(l)) != len(l) for l in labs):
        return None
    return g.larry([len(l) for l in labs], 'f', labs=labs)


@op('C12', 6)
def setitem(g, R):
    y = g.larry(maxn=6, maxsize=80)
    o, t = index(g, y, seqs=('q', 'b'), strict=True)
    v, enc = value_for(g, y, mksel(g, y, t))

    def fn(y, *r):
        y[o] = v
    R.event('setitem', [y] + ([v] if is_larry(v) or isinstance(v, np.ndarray)
                              else []), fn, inplace=0,
            args={'ix': t, 'v': enc})


@op('C12', 2)
def setmask(g, R):
    y = g.larry(maxn=6, maxsize=80)
    labs = [list(l) for l in y.label]
    if g.p(0.2):
        a = g.ri(0, y.ndim - 1)
        labs[a] = g.related(labs[a], labs[a] + g.extras(labs[a]))
    m = g.larry([len(l) for l in labs], 'b', labs=labs)
    n = int(m.x.sum())
    if g.p(0.25) and n and m.label == y.label:
        # one value for each cell
        v = g.array([n], rec.kind_of(y.x.dtype), f4=False, layout=False)
        c = g.ch([lambda: v, lambda: v.tolist(), lambda: tuple(v.tolist())])()

        def fn(y, m):
            y[m] = c
        R.event('setmask', [y, m], fn, inplace=0,
                args={'v': {'y': 'a', 'k': rec.kind_of(y.x.dtype), 'c': Ce(0),
                            'sh': [n], 'd': [Ce(z) for z in v], 'lab': []}})
        return
    k, c = scalar_for(g, y)

    def fn(y, m):
        y[m] = c
    R.event('setmask', [y, m], fn, inplace=0,
            args={'v': {'y': 's', 'k': k, 'c': Ce(c), 'sh': [], 'd': [],
                        'lab': []}})


@op('C12', 2)
def set_(g, R):
    y = g.larry()
    labs = [g.ch(l) if l and g.p(0.97) else g.like_label(l) for l in y.label]
    if g.p(0.03):
        labs = labs + [labs[0]] if g.p(0.5) else labs[:-1]
    k, c = scalar_for(g, y)
    arg = labs if g.p(0.6) else tuple(labs)
    R.event('set', [y], lambda y: y.set(arg, c), inplace=0,
            args={'labs': Lbs(labs), 'c': Ce(c)})


@op('C12', 1)
def fill(g, R):
    y = g.larry()
    k, c = scalar_for(g, y)
    R.event('fill', [y], lambda y: y.fill(c), inplace=0, args={'c': Ce(c)})


def lixsel(y, toks, tup):
    labs = []
    for a in range(y.ndim):
        l = list(y.label[a])
        if a < len(toks):
            t = toks[a]
            if t['y'] == 'n':
                if not all(z in l for z in t['v'].v):
                    return None
                l = list(t['v'].v)
            elif t['y'] == 'i':
                try:
                    l = [l[t['v'][0]]]
                except IndexError:
                    return None
            else:
                v = list(t['v'])
                for i in (0, 1):
                    if isinstance(v[i], Lb):
                        if v[i].v not in l:
                            return None
                        v[i] = l.index(v[i].v)
                    elif v[i] == NOAXIS:
                        v[i] = None
                if v[2] == NOAXIS:
                    v[2] = None
                l = l[slice(*v)]
            if not tup and (t['y'] == 'i' or
                            (t['y'] == 'n' and len(t['v'].v) == 1)):
                continue
        labs.append(l)
    return labs


@op('C12', 4)
def lixset(g, R):
    y = g.larry(minn=1, maxn=6, maxsize=80)
    o, t, tup = lixindex(g, y)
    labs = lixsel(y, t, tup)
    sel = None
    if labs and all(len(set(l)) == len(l) for l in labs):
        sel = g.larry([len(l) for l in labs], 'f', labs=labs)
    v, enc = value_for(g, y, sel)

    def fn(y, *r):
        y.lix[o] = v
    R.event('lixset', [y] + ([v] if is_larry(v) or isinstance(v, np.ndarray)
                             else []), fn, inplace=0,
            args={'ix': t, 'tup': tup, 'v': enc})


# C13 ------------------------------------------------------------------------
@op('C13', 3)
def copies(g, R):
    y = g.larry()
    name = g.ch(['copy', 'copyx', 'copylabel', 'getx'])

    def out(r):
        res = []
        for l in r:
            v = VIs(l, True)
            v.live = l
            res.append(v)
        return res
    if name == 'copylabel':
        R.event(name, [y], lambda y: y.copylabel(), out=out)
    elif name == 'copy':
        R.event(name, [y], lambda y: y.copy())
    else:
        cp = 1
        if name == 'getx':
            cp = g.ri(0, 1)
            fn = lambda y: y.getx(copy=bool(cp)) if not cp or g.p(0.5) \
                else y.getx()
        else:
            fn = lambda y: y.copyx()

        def arr(r):
            return g.la.larry(r, [list(l) for l in y.label], validate=False)
        R.event(name, [y], fn, out=arr, args={'copy': cp})


# C15 ------------------------------------------------------------------------
def rows_of(tuples):
    return [(t[:-1], t[-1]) for t in tuples]


CONV_POOLS = ['int', 'str', 'float', 'date', 'mix', 'bigint', 'unicode', 'npint', 'none',
              'datetime', 'time', 'mixnum']


@op('C15', 4)
def torows(g, R):
    y = g.larry(sh=g.shape(maxn=4, big=False), pool=g.ch(CONV_POOLS),
                maxsize=60)
    how = g.ch(['totuples', 'tolist', 'todict'])
    outs = {}

    def fn(y):
        r = getattr(y, how)()
        if how == 'totuples':
            rows = [(tuple(t[:-1]), t[-1]) for t in r]
        elif how == 'tolist':
            if len(r) != 2 or len(r[0]) != len(r[1]):
                rows = [(('bad',), 0)]
            else:
                rows = list(zip([tuple(z) for z in r[1]], r[0]))
        else:
            rows = list(r.items())
        outs['rows'] = Rows(rows)
        return None
    outs['rows'] = Rows([])
    R.event('rows', [y], fn, outputs=outs,
            args={'ordered': 0 if how == 'todict' else 1}, share=False)


@op('C15', 4)
def roundtrip(g, R):
    la = g.la
    how = g.ch(['tuples', 'list', 'dict', 'flatC', 'flatF'])
    kinds = ['f', 'f', 'f', 'i'] if how[0] == 'f' else ['f', 'f', 'i', 'b']
    y = g.larry(sh=g.shape(maxn=5, big=False), pool=g.ch(CONV_POOLS),
                kinds=kinds, maxsize=60, f4=False)
    f = {'tuples': lambda y: la.larry.fromtuples(y.totuples()),
         'list': lambda y: la.larry.fromlist(y.tolist()),
         'dict': lambda y: la.larry.fromdict(y.todict()),
         'flatC': lambda y: y.flatten().unflatten(),
         'flatF': lambda y: y.flatten('F').unflatten()}[how]
    if y.size == 0 and how in ('list', 'dict', 'tuples'):
        return empty_conv(g, R, y, how)
    R.event('roundtrip', [y], f)


def empty_conv(g, R, y, how):
    la = g.la
    f = {'tuples': lambda y: la.larry.fromtuples(y.totuples()),
         'list': lambda y: la.larry.fromlist(y.tolist()),
         'dict': lambda y: la.larry.fromdict(y.todict())}[how]
    R.event('roundtrip', [y], f)


@op('C15', 4)
def fromrows(g, R):
    """Partial and repeated-free rows in any order."""
    la = g.la
    nd = g.ch([1, 2, 2, 3])
    pool = g.ch(CONV_POOLS)
    unis = [g.universe(g.ri(1, 4), pool) for _ in range(nd)]
    seen = {}
    for _ in range(g.ri(1, 12)):
        t = tuple(g.ch(u) for u in unis)
        seen[t] = g.values(1, 'f')[0]
    items = g.shuffled(sorted(seen.items(), key=repr))
    how = g.ch(['tuples', 'list', 'dict', 'unflatten'])
    if how == 'tuples':
        fn = lambda: la.larry.fromtuples([t + (v,) for t, v in items])
    elif how == 'list':
        fn = lambda: la.larry.fromlist([[v for t, v in items],
                                        [t for t, v in items]])
    elif how == 'dict':
        fn = lambda: la.larry.fromdict(dict(items))
    else:
        fn = lambda: la.larry(np.array([v for t, v in items]),
                              [[t for t, v in items]]).unflatten()
    args = {'rows': Rows(items), 'labpool': [Lbs(u) for u in unis]}
    R.event('fromrows', [], fn, args=args)


@op('C15', 3)
def csvtrip(g, R):
    """tocsv then fromcsv: labels come back as text and are mapped back."""
    la = g.la
    pool = g.ch(['int', 'str', 'bigint'])
    y = g.larry(sh=g.shape(maxn=4, big=False), pool=pool,
                kinds=['f', 'f', 'f', 'i'], maxsize=50, f4=False)
    if y.size == 0:
        return
    delim = g.ch([',', ',', ';', '\t', '|'])
    skip = g.ch([0, 0, 1, 2])
    path = R.scratch('x.csv')

    def fn(y):
        if delim == ',' and g.p(0.5):
            y.tocsv(path)
        else:
            y.tocsv(path, delim)
        if skip:
            with open(path) as f:
                s = f.read()
            with open(path, 'w') as f:
                f.write('head%s er\n' % delim * skip + s)
        if delim == ',' and not skip:
            z = la.larry.fromcsv(path)
        else:
            z = la.larry.fromcsv(path, delim, skip)
        if pool != 'str':
            z = z.maplabel(int)
        return z.sortaxis()
    R.event('roundtrip', [y], fn, share=False)


@op('C15', 1)
def csvbad(g, R):
    "A row without a number in it is not passed over."
    la = g.la
    nd = g.ri(1, 3)
    rows = [[g.ch('abcd') for _ in range(nd)] + [repr(g.ri(-9, 9) / 4.0)]
            for _ in range(g.ri(1, 6))]
    i = g.ri(0, len(rows) - 1)
    w = g.ri(0, 2)
    if w == 0:
        rows[i][-1] = ''
    elif w == 1:
        rows[i][-1] = g.ch(['x', '1.5.2', '--', 'one', '1 2'])
    else:
        rows[i][-1:] = []
    delim = g.ch([',', ';', '\t'])
    path = R.scratch('x.csv')
    with open(path, 'w') as f:
        for r in rows:
            f.write(delim.join(r) + '\n')
    R.event('must_raise', [], lambda: la.larry.fromcsv(path, delim))


@op('C15', 2)
def tofile(g, R):
    y = g.larry(sh=g.shape(g.ch([1, 1, 2, 2, 2, 3]), maxn=5, big=False),
                pool=g.ch(['int', 'bigint']), kind=g.ch(['f', 'f', 'i']),
                f4=False)
    delim = g.ch([',', ',', ';', '\t'])
    path = R.scratch('x.txt')
    outs = {'glab': [], 'gd': []}

    def fn(y):
        if g.p(0.5):
            if delim == ',':
                y.tofile(path)
            else:
                y.tofile(path, delim)
        else:
            with open(path, 'w') as f:
                y.tofile(f, delimiter=delim)
        with open(path) as f:
            lines = f.read().split('\n')
        if lines[-1] != '':
            raise RuntimeError('no newline at the end')
        lines = [l.split(delim) for l in lines[:-1]]
        if y.ndim == 1:
            outs['glab'] = [Lbs([int(l[0]) for l in lines])]
            d = [l[1] for l in lines]
            if any(len(l) != 2 for l in lines):
                raise RuntimeError('bad line')
        else:
            cols = lines[0][1:]
            if cols == [''] and y.shape[1] == 0:
                cols = []
            outs['glab'] = [Lbs([int(l[0]) for l in lines[1:]]),
                            Lbs([int(c) for c in cols])]
            d = []
            for l in lines[1:]:
                d.extend(l[1:] if cols else [])
        isint = y.x.dtype.kind == 'i'
        outs['gd'] = [Ce(int(v) if isint else float(v)) for v in d]
        return None
    R.event('grid', [y], fn, outputs=outs, share=False)
