# Python 2.7.  Replays behaviours of HeapModel on real larrys.
import numpy as np

import rec
import ops_core as oc
from rec import Lb, Lbs, Ce, NOAXIS


def index_of(ix):
    o = []
    for t in ix:
        v = t['v']
        if t['y'] == 'i':
            o.append(v[0])
        elif t['y'] == 's':
            o.append(slice(*[None if z == NOAXIS else z for z in v]))
        else:
            o.append(list(v))
    return o[0] if len(o) == 1 else tuple(o)


def replay(g, P, plan):
    la = g.la
    labs = sorted(g.uni)[:3]
    swap = {labs[0]: labs[1], labs[1]: labs[0], labs[2]: labs[2]}
    slots = {}
    P.MAXPOOL = 99
    count = [0]

    def value():
        count[0] += 1
        return float(count[0] % 97) + 0.5

    def settle(at=None, o=None):
        if at is not None:
            slots[at] = o
        P.pool = list(slots.values())
        keep = set(P.var[id(o)] for o in P.pool if id(o) in P.var)
        P.tmp = [num for num, o in P.live if num not in keep]

    for s in plan:
        op, e = str(s['op']), s['e']
        for t in e['ix']:
            t['y'] = str(t['y'])
        y = slots.get(s['on'])
        if op in ('new2', 'new1'):
            sh = (2, 2) if op == 'new2' else (2,)
            x = np.array([value() for _ in range(int(np.prod(sh)))]).reshape(sh)
            lab = [[labs[0], labs[1]], [labs[0], labs[1]]] if op == 'new2' else \
                [[labs[1], labs[0]]]
            slots[s['to']] = la.larry(x, lab)
            continue
        if op == 'drop':
            slots.pop(s['on'], None)
            settle()
            continue
        if y is None or (op == 'assign' and s['w'] not in slots):
            # an earlier step was refused
            return
        inplace = None
        args = {}
        other = []
        if op == 'getitem':
            ix = index_of(e['ix'])
            fn = lambda y: y[ix]
            args['ix'] = e['ix']
        elif op == 'squeeze':
            fn = lambda y: y.squeeze()
        elif op == 'copy':
            fn = lambda y: y.copy()
        elif op == 'T':
            fn = lambda y: y.T
        elif op == 'sortaxis':
            fn = lambda y: y.sortaxis()
            args.update({'ax': NOAXIS, 'rev': 0})
        elif op == 'flipaxis':
            cp = e['copy']
            fn = lambda y: y.flipaxis(0, copy=bool(cp))
            args.update({'ax': 0, 'copy': cp})
            inplace = None if cp else 0
        elif op == 'morph':
            lab = [labs[i - 1] for i in e['label']]
            fn = lambda y: y.morph(lab, 0)
            args.update({'label': Lbs(lab), 'ax': 0})
        elif op == 'fill':
            c = value()
            fn = lambda y: y.fill(c)
            args['c'] = Ce(c)
            inplace = 0
        elif op == 'tamper':
            c = value()

            def fn(y):
                y.x[(0,) * y.ndim] = c
            args.update({'at': 0, 'c': Ce(c), 'tax': -1, 'v': Lbs([])})
            inplace = 0
        elif op == 'maplabel':
            fn = lambda y: y.maplabel(lambda l: swap[l], axis=0, copy=False)
            args.update({'ax': 0, 'copy': 0,
                         'fm': [[Lb(k), Lb(swap[k])] for k in labs]})
            inplace = 0
        elif op == 'assign':
            w = slots[s['w']]
            ix = index_of(e['ix'])

            def fn(y, w):
                y[ix] = w
            other = [w]
            op = 'setitem'
            args.update({'ix': e['ix'],
                         'v': {'y': 'l', 'k': 'f', 'c': [4, 0, 0],
                               'sh': list(w.shape),
                               'd': [Ce(z) for z in rec.tolist(w.x)],
                               'lab': [Lbs(l) for l in w.label]}})
            inplace = 0
        else:
            raise RuntimeError('unknown step ' + op)
        st, r = P.event(op, [y] + other, fn, args=args, inplace=inplace)
        if st != 'ok':
            return
        if inplace is None:
            r = [o for num, o in P.live if o is r] or \
                [P.live[-1][1]]
            settle(s['to'], r[0])
        else:
            settle()
