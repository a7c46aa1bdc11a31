"""Walks through a state graph printed by TLC that take every transition.

TLC prints <<"EDGE", "[from, step, to]">> (JSON in a string) for each
transition, see the modules *Model.tla.
"""
import collections
import json
import random
import re


def edges(tlc_output):
    res = []
    for m in re.finditer(r'^<<"EDGE", "(.*)">>$', tlc_output, re.M):
        a, step, b = json.loads(json.loads('"' + m.group(1) + '"'))
        res.append((a, step, b))
    return res


def walks(es, maxlen=120, seed=0, fraction=1.0):
    """Walks from the first state.  With fraction < 1 only the transitions out
    of a part of the states have to be taken."""
    r = random.Random(seed)
    out = collections.OrderedDict()
    seen = set()
    for a, step, b in es:
        k = (a, json.dumps(step, sort_keys=True), b)
        if k in seen:
            continue
        seen.add(k)
        out.setdefault(a, []).append((step, b))
    start = es[0][0]
    states = list(out)
    wanted = set(s for s in states if fraction >= 1 or r.random() < fraction)
    todo = {}
    for s in states:
        if s in wanted:
            todo[s] = collections.deque(sorted(
                out[s], key=lambda e: (e[1] != s, r.random())))
    res = []
    total = sum(len(q) for q in todo.values())

    def nearest(s):
        q, prev = collections.deque([s]), {s: None}
        while q:
            u = q.popleft()
            if todo.get(u):
                p = []
                while prev[u] is not None:
                    u, step = prev[u]
                    p.append(step)
                return p[::-1]
            for step, v in out.get(u, ()):
                if v not in prev:
                    prev[v] = (u, step)
                    q.append(v)
        return None

    nxt = {}
    for a in out:
        for step, b in out[a]:
            nxt[(a, json.dumps(step, sort_keys=True))] = b
    while True:
        s, walk, took = start, [], 0
        while len(walk) < maxlen:
            if not todo.get(s):
                p = nearest(s)
                if p is None:
                    break
                for step in p:
                    walk.append(step)
                    s = nxt[(s, json.dumps(step, sort_keys=True))]
                continue
            step, b = todo[s].popleft()
            walk.append(step)
            took += 1
            s = b
        if not took:
            break
        res.append(walk)
    return res, total, len(states)
