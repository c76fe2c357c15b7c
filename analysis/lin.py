"""Linear facts about integers: which orderings of the quantities of a path are possible (the polyhedral domain: Fourier-Motzkin, exact on
rationals, so an empty answer is definite)."""
from terms import *

INF = None


class Lin:
    """a linear expression: coefficients of opaque terms, and a constant"""
    def __init__(self, co=None, k=0):
        self.co = {x: c for x, c in (co or {}).items() if c}
        self.k = k

    def __add__(self, o):
        co = dict(self.co)
        for x, c in o.co.items():
            co[x] = co.get(x, 0) + c
        return Lin(co, self.k + o.k)

    def scale(self, m):
        return Lin({x: c * m for x, c in self.co.items()}, self.k * m)

    def __sub__(self, o):
        return self + o.scale(-1)


def const(n):
    return Lin({}, n)


def of(t, norm=lambda t: t):
    """the linear form of a term"""
    t = norm(t)
    if t.t == 'i':
        return const(t.a[0])
    if t.t == 'cast':
        return of(t.a[0], norm)
    if t.t == 'add':
        return of(t.a[0], norm) + of(t.a[1], norm)
    if t.t == 'sub':
        return of(t.a[0], norm) - of(t.a[1], norm)
    if t.t == 'neg':
        return of(t.a[0], norm).scale(-1)
    if t.t == 'mul':
        a, b = of(t.a[0], norm), of(t.a[1], norm)
        if not a.co:
            return b.scale(a.k)
        if not b.co:
            return a.scale(b.k)
    return Lin({t: 1})


def facts(st, norm=lambda t: t):
    """[Lin >= 0] known in the state"""
    out = []
    for k, v in st.facts.items():
        kind, val = v[0], v[1]
        if isinstance(val, T):
            val = val.a[0] if val.t == 'i' else None
        if kind == '=' and k.t in ('lt', 'eq') and isinstance(k.a[0], T) and val in (0, 1):
            a, b = of(k.a[0], norm), of(k.a[1], norm)
            if k.t == 'lt':
                out.append(b - a + const(-1) if val else a - b)
            elif val:
                out += [a - b, b - a]
        elif kind == '=' and isinstance(val, int):
            a = of(k, norm)
            out += [a - const(val), const(val) - a]
        elif kind == 'iv':
            lo, hi = v[1], v[2]
            a = of(k, norm)
            if lo is not None:
                out.append(a - const(lo))
            if hi is not None and hi < 2 ** 62:
                out.append(const(hi) - a)
    return out


def possible(cs, cap=4000):
    """False only if no numbers satisfy every expression >= 0"""
    cs = [c for c in cs]
    while True:
        nxt = []
        for c in cs:
            if not c.co:
                if c.k < 0:
                    return False
            else:
                nxt.append(c)
        cs = nxt
        if not cs:
            return True
        count = {}
        for c in cs:
            for x, m in c.co.items():
                p = count.setdefault(x, [0, 0])
                p[m > 0] += 1
        x = min(count, key=lambda x: count[x][0] * count[x][1])
        pos = [c for c in cs if c.co.get(x, 0) > 0]
        neg = [c for c in cs if c.co.get(x, 0) < 0]
        rest = [c for c in cs if x not in c.co]
        for p in pos:
            for q in neg:
                rest.append(p.scale(-q.co[x]) + q.scale(p.co[x]))
        seen, cs = set(), []
        for c in rest:
            key = (frozenset(c.co.items()), c.k)
            if key not in seen:
                seen.add(key)
                cs.append(c)
        if len(cs) > cap:
            return True


def differs(cs, a, b):
    """can the two expressions differ under the constraints? (integers)"""
    d = a - b
    return possible(cs + [d + const(-1)]) or possible(cs + [d.scale(-1) + const(-1)])
