# Python 2.7.  Generators of calls: printed forms, use of space, quotes.
import datetime
import os
import sys
import urllib2
import urlparse

import h5py
import numpy as np

import rec
from rec import Lb, Lbs, Ce, VIs
from gen import nan, inf
from ops_core import op, OPS

NAMES = dict((n, getattr(np, n)) for n in (
    'array', 'nan', 'inf', 'float32', 'float64', 'int8', 'int16', 'int32', 'int64',
    'uint8', 'uint16', 'uint32', 'uint64', 'bool_'))
NAMES.update({'bool': bool, 'object': object, 'True': True, 'False': False, 'None': None})


# C34 ------------------------------------------------------------------------
@op('C34', 3)
def printed(g, R):
    kind = g.ch(['f', 'f', 'i', 'b', 'S'])
    y = g.larry(pool=g.ch(['int', 'str', 'str', None]), maxn=14,
                ndim=g.ch([1, 1, 2, 2, 3]), kind=kind, minn=g.ch([0, 1]), maxsize=900)
    if kind == 'f':
        x = np.array([g.ch([0, 1, -2, .5, 3.25, -7.75, 12, nan, inf, -inf])
                      for i in range(y.x.size)], dtype=y.x.dtype).reshape(y.x.shape)
        y = g.la.larry(x, y.label)
    texts = [dict((str(v), v) for v in l) for l in y.label]
    if any(len(t) != len(l) for t, l in zip(texts, y.label)) or \
       any('\n' in t or t == '...' or t != t.strip() for d in texts for t in d):
        return
    outs = {'txt': [], 'gd': [], 'gk': ''}

    def fn(y):
        lines = repr(y).split('\n')
        txt = []
        i = 0
        a = 0
        while lines[i] != 'x':
            if lines[i] != 'label_%d' % a:
                raise RuntimeError('unexpected line')
            i += 1
            cur = []
            while lines[i].startswith('    '):
                t = lines[i][4:]
                cur.append(-5 if t == '...' else Lb(texts[a].get(t, 'unknown: ' + t)))
                i += 1
            a += 1
            txt.append(cur)
        outs['txt'] = txt
        if y.x.size:
            x = eval('\n'.join(lines[i + 1:]), NAMES.copy())
            outs['gd'] = [Ce(v) for v in rec.tolist(x)]
            outs['gk'] = rec.kind_of(x.dtype)
        else:
            outs['gk'] = rec.kind_of(y.x.dtype)
        return None
    R.event('text', [y], fn, outputs=outs, share=False)


def archive(g, R, n):
    name = R.scratch('c34.hdf5')
    if os.path.exists(name):
        os.remove(name)
    keys = []
    ys = []
    for k in g.r.sample(['a', 'b', 'B', 'ab', 'a b', 'c/d', 'c/e', 'z', '10', '9',
                         'longer name'], n):
        y = g.larry(pool=g.ch(['int', 'str', 'date']), kind=g.ch('fibS'), maxn=4)
        try:
            g.la.save(name, y, k)
        except Exception:
            continue
        keys.append(k)
        ys.append(y)
    return name, keys, ys


@op('C34', 1)
def archive_table(g, R):
    name, keys, ys = archive(g, R, g.ri(1, 5))
    if not keys:
        return
    outs = {'rows': []}

    def fn(*ys):
        lines = repr(g.la.IO(name)).rstrip('\n').split('\n')
        head = lines[0]
        at = [head.index(w) for w in ('larry', 'dtype', 'shape')]
        rows = []
        for l in lines[2:]:
            k, d, s = l[:at[1]].rstrip(), l[at[1]:at[2]].strip(), l[at[2]:].strip()
            rows.append({'key': Lb(k), 'dt': np.dtype(d).str,
                         'sh': [int(z) for z in s.strip('(), ').split(',') if z.strip()]})
        outs['rows'] = rows
        return None
    R.event('table', ys, fn, args={'keys': Lbs(keys)}, outputs=outs, share=False)


@op('C34', 1)
def archive_space(g, R):
    name, keys, ys = archive(g, R, g.ri(1, 4))
    la = g.la
    try:
        if keys and g.p(0.5):
            del la.IO(name)[g.ch(keys)]
        if g.p(0.3):
            la.repack(name)
    except Exception:
        pass
    if not os.path.exists(name):
        return
    stored = []
    with h5py.File(name, 'r') as f:
        f.visititems(lambda k, v: stored.append(v.id.get_storage_size())
                     if isinstance(v, h5py.Dataset) else None)
    R.event('space', [], lambda: VIs([la.IO(name).space, la.IO(name).freespace]),
            args={'fsize': os.path.getsize(name), 'stored': sum(stored)}, share=False)


# C35 ------------------------------------------------------------------------
ITEMS = ['open', 'close', 'high', 'low', 'volume', 'adjclose']
TICKERS = ['aapl', 'msft', 'ibm', 'X', 'Brk.a', 'zz', '^gspc']


class Handle(object):
    def __init__(self, text):
        self.text = text

    def readlines(self):
        return self.text.splitlines(True)

    def read(self):
        return self.text

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        pass


class Web(object):
    "stands in for urlopen: answers with the tables in turn"
    def __init__(self, texts):
        self.texts = list(texts)
        self.urls = []

    def __call__(self, url, *a, **k):
        self.urls.append(url)
        return Handle(self.texts[len(self.urls) - 1])


def day(g):
    return datetime.date(2010, 1, 1) + datetime.timedelta(g.ri(0, 40))


def table(g, tick, days):
    lines = []
    text = []

    def add(t, nf, date=None, v=(), ok=1):
        text.append(t)
        lines.append({'nf': nf, 'ok': ok, 'date': Lb(date or tick),
                      'v': [Ce(z) for z in v]})
    add('Date,Open,High,Low,Close,Volume,Adj Close', 7)
    for d in days:
        if g.p(0.05):
            t = g.ch(['', 'nothing', '2010-01-01,1,2,3', '1,2,3,4,5,6,7,8'])
            add(t, t.count(',') + 1)
        close = g.ch([1, 2, 4, 8, .5, 16] + ([0] if g.p(0.05) else []))
        o, h, l = [g.ri(0, 4000) / 4. for i in range(3)]
        if g.p(0.03):
            o = nan
        vol = g.ri(0, 10 ** 6)
        adj = close * g.ch([1, 1, .5, .25, 2, 1.5, .75]) if close else float(g.ri(0, 2))
        close = float(close)
        ok = 1
        cells = [o, h, l, close, vol, adj]
        words = ['%d-%02d-%02d' % (d.year, d.month, d.day)] + [repr(z) for z in cells]
        if g.p(0.01):
            words[g.ri(1, 6)] = 'n/a'
            ok = 0
        if g.p(0.01):
            words[0] = g.ch(['2010-02-31', 'today'])
            ok = 0
        add(','.join(words), 7, d, cells, ok)
    return lines, g.ch(['\n', '\n', '\r\n']).join(text) + g.ch(['', '\n'])


def get_quotes(g, R):
    from la.data import yahoo
    n = g.ch([0, 1, 1, 2, 2, 2, 3, 3, 4]) if g.p(0.3) else g.ri(1, 3)
    ticks = g.r.sample(TICKERS, n)
    if n > 1 and g.p(0.07):
        ticks[-1] = ticks[0]
    common = [day(g) for i in range(g.ri(1, 4))]
    tabs = []
    texts = []
    for t in ticks:
        days = set(g.r.sample(common, g.ri(0, len(common))) +
                   [day(g) for i in range(g.ri(0 if g.p(0.1) else 1, 3))])
        days = sorted(days, reverse=True)
        how = g.ch(['down', 'down', 'up', 'any', 'any'])
        if how == 'up':
            days = days[::-1]
        elif how == 'any':
            g.r.shuffle(days)
        if days and g.p(0.03):
            days.append(g.ch(days))
        lines, text = table(g, t, days)
        tabs.append({'tick': Lb(t), 'up': Ce(t.upper()), 'lines': lines})
        texts.append(text)
    d1 = g.ch([None, day(g), datetime.date(g.ri(1901, 2015), g.ri(1, 12), g.ri(1, 28))])
    d2 = g.ch([None, day(g), datetime.date(g.ri(1901, 2015), g.ri(1, 12), g.ri(1, 28))])
    tup = lambda d: (d.year, d.month, d.day)
    a1 = tup(d1) if d1 and g.p(0.5) else d1
    a2 = tup(d2) if d2 and g.p(0.5) else d2
    adjust = g.p(0.7)
    today = datetime.date.today()
    e1 = d1 or datetime.date(1900, 1, 1)
    e2 = d2 or today + datetime.timedelta(10)
    web = Web(texts)
    import la.external.matplotlib as mod
    old = urllib2.urlopen
    urllib2.urlopen = web
    if hasattr(mod, 'urlopen'):
        mod.urlopen = web
    kw = {'adjust': adjust} if not adjust or g.p(0.5) else {}
    try:
        st, r = R.event('quotes', [], lambda: yahoo.quotes(ticks, a1, a2, **kw),
                        args={'tabs': tabs, 'items': Lbs(ITEMS), 'adjust': adjust},
                        share=False)
    finally:
        urllib2.urlopen = old
        if hasattr(mod, 'urlopen'):
            mod.urlopen = old
    if today != datetime.date.today():
        return
    urls = []
    for u in web.urls:
        q = dict((k, v[0]) for k, v in urlparse.parse_qs(u.split('?', 1)[-1]).items())
        urls.append({'sym': Ce(q.get('s', '')),
                     'q': [int(q.get(k, -1)) for k in 'abcdef']})
    R.event('request', [], lambda: None, share=False,
            args={'tabs': [{'up': t['up']} for t in tabs], 'd1': list(tup(e1)),
                  'd2': list(tup(e2)), 'urls': urls, 'done': st == 'ok'})


OPS.setdefault('C35', []).append((get_quotes, 1))
