"""Flow- and path-sensitive abstract interpreter over MIR (trace partitioning by branch facts and a
client-supplied typestate monitor; disjunctive states joined above a cap; widening at loop heads).

Values are uninterpreted terms with known constructors where the program text fixes them; local
functions and closures are analysed in the context of their call site; recursive or large callees
are summarised by the set of fields they may modify."""
import prog, terms
from terms import *
from prog import norm

ALL = frozenset(['*all*'])


class Limit(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'mon')

    def __init__(self, mem=None, facts=None, mon=None):
        self.mem = mem or {}
        self.facts = facts or {}
        self.mon = mon

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.mon)

    def key(self):
        return (self.mon, frozenset(self.mem.items()), frozenset(self.facts.items()))


class Ctx:
    """where an operation happens"""
    __slots__ = ('fid', 'bb', 'body', 'span', 'chain')

    def __init__(self, fid, bb, body, span, chain):
        self.fid, self.bb, self.body, self.span, self.chain = fid, bb, body, span, chain

    def inst(self, tag=None):
        return mk('inst', self.fid, self.bb, tag)

    def sub(self, tag):
        c = Ctx(mk('ctx', self.fid, self.bb, tag), 0, self.body, self.span, self.chain)
        return c

    def loc(self):
        return '%s:%s' % (self.span[0], self.span[1]) if self.span else self.body.name

    def where(self):
        return ' <- '.join(['%s (%s)' % (self.body.name, self.loc())] + ['%s (%s)' % x for x in reversed(self.chain)])

    def fns(self):
        return [x[0] for x in self.chain] + [self.body.name]


class Client:
    """Override what is needed. Hooks returning None mean 'default'."""
    relevant = None   # predicate on facts worth keeping apart when states are merged
    known = None      # term -> ('=', const) | ('!', frozenset): facts true by assumption of this exploration
    max_reach = 260   # blocks of code reachable from a callee for it to be analysed in context
    stops = frozenset()   # functions this client never enters; code behind them does not count
    def inline(self, I, body):
        return I.reach_size(body.id) <= self.max_reach
    def call(self, I, st, ctx, name, args, cal): return None
    def store(self, I, st, ctx, root, path, val, rv): pass
    def agg(self, I, st, ctx, path, variant, ops): pass
    def borrow_mut(self, I, st, ctx, root, path): pass
    def drop(self, I, st, ctx, val, ty): pass
    def overflow(self, I, st, ctx, op, a, b, ty): pass
    def cast(self, I, st, ctx, kind, v, fr, to): pass
    def loop_back(self, I, st, ctx, head, key): pass
    def end(self, I, st, ctx): pass     # an iterator has no more elements
    def each(self, I, st, ctx, blocks=None): pass   # one element of an iterator has been dealt with
    def taken(self, I, st, ctx, e): pass   # a collecting operation took this element
    def enter(self, I, st, ctx, body, args): pass
    def leave(self, I, st, ctx, body, ret): pass
    def opaque(self, I, st, ctx, body, args): return None


class Interp:
    CAP = 40

    def __init__(self, P, client, limit=400000):
        import models
        self.P = P
        self._uns = {}
        self.c = client
        self.steps = 0
        self.limit = limit
        self.models = models.MODELS
        self.models_suffix = models.SUFFIX
        self._mod = {}
        self._moddir = {}
        self._rs = {}
        self._prom = {}
        self.stack = []
        self.visited = set()
        self.unknown = {}
        self.advanced = set()     # (frame, block) of iterations that begin in the middle
        self.head_now = None     # the loop that is being looked at: (state at its start, where it is, state before it)
        self.final_heads, self.keep = set(), []     # the states in which the rounds of loops start in the end
        self.merged = {}         # symbol of a loop or join -> the values it stands for
        self.iters = {}   # element symbol -> {(base collection, adapters)} it ranges over
        terms._V.update(P.adts)

    # ---------------------------------------------------------- summaries
    def reach_size(self, id):
        r = self._rs.get(id)
        if r is None:
            stops = self.c.stops
            if stops:
                cg, seen, work = self.P.call_graph(), {id}, [id]
                while work:
                    for y in cg.get(work.pop(), ()):
                        if y not in seen and y not in stops:
                            seen.add(y)
                            work.append(y)
            else:
                seen = self.P.reach([id])
            r = sum(self.P.bodies[x].size for x in seen if x in self.P.bodies)
            self._rs[id] = r
        return r

    def mod_direct(self, id):
        m = self._moddir.get(id)
        if m is not None:
            return m
        m = set()
        b = self.P.bodies[id]
        for blk in b.blocks:
            if blk['c']:
                continue
            for s in blk['s']:
                if s[0] == '=':
                    self._mod_place(b, s[1], m, False)
                    rv = s[2]
                    if rv[0] == 'ref' and rv[1]:
                        self._mod_place(b, rv[2], m, True)
                    elif rv[0] == 'addr' or rv[0] == 'rawptr':
                        pass
                elif s[0] == 'setd':
                    self._mod_place(b, s[1], m, False)
            t = blk['t']
            if t[0] == 'call':
                self._mod_place(b, t[3], m, False)
                cal = t[1]
                if 'ptr' not in cal and not self.P.targets(cal, b):
                    # external function given a `&mut Adt`
                    for a in t[2]:
                        ty = self.op_ty(b, a)
                        if ty is not None and ty['k'] == 'ref' and ty['m']:
                            u = b.types[ty['t']]
                            if u['k'] == 'adt':
                                m.add((u['p'], '*'))
        self._moddir[id] = m = frozenset(m)
        return m

    def _mod_place(self, b, place, m, borrow):
        if len(place) == 1:
            return
        tys = self.place_tys(b, place)
        last = place[-1]
        if last == '*':
            ty = tys[-1]
            if not borrow and ty is not None and ty['k'] == 'adt':
                m.add((ty['p'], '*'))
            return
        # innermost field of an adt
        for k in range(len(place) - 1, 0, -1):
            e = place[k]
            if e == '*':
                break
            if isinstance(e, list) and e[0] == 'f':
                ct = tys[k - 1]
                if ct is not None and ct['k'] == 'adt':
                    m.add((ct['p'], e[1]))
                    break

    def modset(self, id):
        m = self._mod.get(id)
        if m is None:
            m = set()
            for x in self.P.reach([id]):
                if x in self.P.bodies:
                    m |= self.mod_direct(x)
            m = self._mod[id] = frozenset(m)
        return m

    # ---------------------------------------------------------- types
    def place_tys(self, b, place):
        ts = b.types
        out = [ts[b.locals[place[0]][0]]]
        for e in place[1:]:
            t = out[-1]
            if e == '*':
                if t is None:
                    out.append(None)
                elif t['k'] in ('ref', 'ptr'):
                    out.append(ts[t['t']])
                elif t['k'] == 'adt' and t.get('a'):
                    out.append(ts[t['a'][0]])
                else:
                    out.append(None)
            elif e[0] == 'f':
                out.append(ts[e[3]] if len(e) > 3 and e[3] is not None else None)
            elif e[0] in ('i', 'ci'):
                out.append(ts[t['t']] if t is not None and t['k'] in ('slice', 'array') and isinstance(t.get('t'), int) else None)
            else:
                out.append(t)
        return out

    def op_ty(self, b, o):
        if o[0] in ('c', 'm'):
            return self.place_tys(b, o[1])[-1]
        if o[0] == 'k':
            return b.types[o[1]['ty']] if o[1].get('ty') is not None else None
        return None

    # ---------------------------------------------------------- values
    def disc(self, st, v, path=None):
        if v.t == 'adt':
            return I(self.discr_of(v.a[0], v.a[1]))
        if v.t == 'as':
            return I(self.discr_of(v.a[2], v.a[1]))
        if v.t == 'upd':
            return self.disc(st, v.a[0], path)
        if v.t == 'hv' and v.a[2] is not ALL and path and (path, '*') not in v.a[2]:
            return self.disc(st, v.a[1], path)
        return mk('disc', v, path)

    def discr_of(self, path, vi):
        a = self.P.adts.get(path)
        if a and a['enum'] and vi < len(a['variants']):
            d = a['variants'][vi]['discr']
            if d is not None:
                return d
        return vi

    def vi_of(self, path, d):
        a = self.P.adts.get(path)
        if a:
            for i, v in enumerate(a['variants']):
                if v['discr'] == d:
                    return i
        return d

    def project(self, v, e):
        k = e[0]
        t = v.t
        if k == 'f':
            i = e[1]
            if t == 'adt':
                if i < len(v.a[2]):
                    return v.a[2][i]
            elif t in ('tup', 'arr'):
                if i < len(v.a[0]):
                    return v.a[0][i]
            elif t == 'clo':
                if i < len(v.a[1]):
                    return v.a[1][i]
            elif t == 'upd':
                if v.a[1][0] == 'f':
                    return v.a[2] if v.a[1][1] == i else self.project(v.a[0], e)
            elif t == 'hv':
                ms = v.a[2]
                if ms is not ALL and (e[3], i) not in ms and (e[3], '*') not in ms:
                    sub = self.project(v.a[1], e)
                    if e[4] is not None and e[4] in ('prim',):
                        return sub
                    return self.hv(v.a[0], sub, ms)
            if e[3] in ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull'):
                return v
            return mk('fld', v, i, e[3], e[2])
        if k == 'd':
            if t == 'adt' or t == 'as':
                return v
            if t == 'upd' and v.a[1][0] == 'f':
                return v
            if t == 'hv' and v.a[2] is not ALL and (e[2], '*') not in v.a[2]:
                return self.hv(v.a[0], self.project(v.a[1], e), v.a[2])
            return mk('as', v, e[1], e[2])
        if k == 'x':
            if t in ('arr', 'tup') and e[1].t == 'i' and 0 <= e[1].a[0] < len(v.a[0]):
                return v.a[0][e[1].a[0]]
            if t == 'upd' and v.a[1] == e:
                return v.a[2]
            if t == 'app' and v.a[0] == 'subslice' and v.a[2].t == 'adt' and v.a[2].a[0] == 'std::ops::RangeFrom' and e[1].t in ('i', 'add'):
                # an element of the rest of a sequence
                return mk('idx', v.a[1], self.binop('Add', v.a[2].a[2][0], e[1]))
            return mk('idx', v, e[1])
        if k == 'sub':
            return mk('app', 'subslice', v, *[I(x) if isinstance(x, int) else S(str(x)) for x in e[1:]])
        raise KeyError(k)

    def hv(self, inst, old, ms):
        if old.t == 'hv':
            old2 = old.a[1]
            ms2 = ALL if (ms is ALL or old.a[2] is ALL) else ms | old.a[2]
            return mk('hv', inst, old2, ms2)
        if old.t in ('i', 's', 'fn'):
            if ms is not ALL:
                return old
        return mk('hv', inst, old, ms)

    def inject(self, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == 'd':
            return self.inject(self.project(v, e), path[1:], val)
        sub = self.inject(self.project(v, e), path[1:], val)
        if e[0] == 'f':
            i = e[1]
            if v.t == 'adt' and i < len(v.a[2]):
                fs = list(v.a[2])
                fs[i] = sub
                return mk('adt', v.a[0], v.a[1], tuple(fs))
            if v.t in ('tup', 'arr') and i < len(v.a[0]):
                fs = list(v.a[0])
                fs[i] = sub
                return mk(v.t, tuple(fs))
            if v.t == 'clo' and i < len(v.a[1]):
                fs = list(v.a[1])
                fs[i] = sub
                return mk('clo', v.a[0], tuple(fs))
            base = v
            # drop an earlier update of the same field
            chain = []
            while base.t == 'upd' and base.a[1][0] == 'f':
                if base.a[1][1] != i:
                    chain.append((base.a[1], base.a[2]))
                base = base.a[0]
            chain.append((e, sub))
            chain.sort(key=lambda c: c[0][1])
            for ee, vv in chain:
                base = mk('upd', base, ee, vv)
            return base
        if e[0] == 'x':
            if v.t in ('arr',) and e[1].t == 'i' and 0 <= e[1].a[0] < len(v.a[0]):
                fs = list(v.a[0])
                fs[e[1].a[0]] = sub
                return mk('arr', tuple(fs))
            return mk('upd', v, e, sub)
        return mk('upd', v, e, sub)

    def base(self, root):
        if root[0] == '*':
            v = root[1]
            if v.t in ('s', 'arr', 'tup'):
                return v
            if v.t == 'box':
                return v.a[0]
            if v.t == 'adt':
                return v
            return mk('deref', v)
        if root[0] == 'const':
            return root[1]
        if root[0] == 'static':
            return mk('static', root[1])
        return mk('uninit', root[0], root[1])

    def rd(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = self.base(root)
        for e in path:
            v = self.project(v, e)
        return v

    def wr(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        v = st.mem.get(root)
        if v is None:
            v = self.base(root)
        st.mem[root] = self.inject(v, path, val)

    def deref(self, v):
        """the location a pointer value designates"""
        if v.t == 'ref':
            return v.a[0], v.a[1]
        return ('*', v), ()

    def ld(self, st, v):
        """value behind a reference value"""
        r, p = self.deref(v)
        return self.rd(st, r, p)

    def canon(self, st, v, depth=0):
        """strip references: the value a chain of references ends in"""
        while True:
            if v.t == 'ref':
                v = self.rd(st, v.a[0], v.a[1])
            elif v.t == 'deref':
                r = ('*', v.a[0])
                w = st.mem.get(r)
                if w is not None and w is not v:
                    v = w
                else:
                    v = v.a[0]
            elif v.t == 'box':
                v = self.rd(st, ('*', v))
            else:
                break
        if depth < 3:
            if v.t == 'adt' and v.a[2]:
                fs = tuple(self.canon(st, x, depth + 1) for x in v.a[2])
                if fs != v.a[2]:
                    v = mk('adt', v.a[0], v.a[1], fs)
            elif v.t in ('tup', 'arr') and len(v.a[0]) < 12:
                fs = tuple(self.canon(st, x, depth + 1) for x in v.a[0])
                if fs != v.a[0]:
                    v = mk(v.t, fs)
        return v

    def elem(self, b, tys, k, e, st, fid):
        ct = tys[k]
        if e[0] == 'f':
            fty = b.types[e[3]] if len(e) > 3 and e[3] is not None else None
            kind = None
            if fty is not None:
                kind = fty['k']
                if kind == 'ref':
                    kind = 'prim'
            return ('f', e[1], e[2], ct['p'] if ct is not None and ct['k'] == 'adt' else None, kind)
        if e[0] == 'd':
            return ('d', e[1], ct['p'] if ct is not None and ct['k'] == 'adt' else None)
        if e[0] == 'i':
            return ('x', self.rd(st, (fid, e[1])))
        if e[0] == 'ci':
            # constant index (offset, min_len, from_end)
            if len(e) > 3 and e[3]:
                return ('x', mk('fromend', I(e[1])))
            return ('x', I(e[1]))
        return ('sub',) + tuple(x for x in e[1:] if not isinstance(x, list))

    def place(self, st, b, fid, place):
        root, path = (fid, place[0]), ()
        if len(place) == 1:
            return root, path
        tys = self.place_tys(b, place)
        for k, e in enumerate(place[1:]):
            if e == '*':
                v = self.rd(st, root, path)
                root, path = self.deref(v)
            elif root[0] == 'heap' and e[0] == 'f' and e[2] == 'value' and not path:
                pass            # MaybeUninit, ManuallyDrop
            else:
                path = path + (self.elem(b, tys, k, e, st, fid),)
        return root, path

    # ---------------------------------------------------------- constants
    def const(self, v, types, ty=None):
        if v is None:
            return None
        if 'str' in v:
            return S(v['str'])
        if 'int' in v:
            n = v['int']
            if ty is not None and types[ty]['s'] in ('i8', 'i16', 'i32', 'i64', 'isize', 'i128'):
                bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}[types[ty]['s']]
                if n >= 1 << (bits - 1):
                    n -= 1 << bits
            return I(n)
        if 'st' in v:
            return mk('adt', norm(v['st']), 0, tuple(self.const(x, types) or mk('app', '?') for x in v.get('f') or []))
        if 'en' in v:
            return mk('adt', norm(v['en']), v['vi'], tuple(self.const(x, types) or mk('app', '?') for x in v.get('f') or []))
        if 'arr' in v:
            return mk('arr', tuple(self.const(x, types) or mk('app', '?') for x in v['arr']))
        if 'tup' in v:
            return mk('tup', tuple(self.const(x, types) or mk('app', '?') for x in v['tup']))
        if 'fn' in v:
            return mk('fn', v.get('id'), norm(v['fn']))
        if 'static' in v:
            return mk('ref', ('static', v['static']), (), False)
        if 'closure' in v:
            return mk('clo', v['closure'], ())
        if 'zst' in v:
            return UNIT
        return None

    def operand(self, st, b, fid, o):
        if o[0] in ('c', 'm'):
            r, p = self.place(st, b, fid, o[1])
            return self.rd(st, r, p)
        if o[0] == 'k':
            c = o[1]
            if c.get('fn'):
                return mk('fn', c.get('id'), norm(c['fn']))
            v = self.const(c.get('val'), b.types, c.get('ty'))
            ty = b.types[c['ty']] if c.get('ty') is not None else None
            if v is not None and v.t == 'tup' and not v.a[0] and ty is not None:
                if ty['k'] == 'fndef':
                    return mk('fn', ty.get('id'), ty.get('p'))
                if ty['k'] == 'closure':
                    return mk('clo', ty.get('id'), ())
                if ty['k'] == 'adt' and ty['p'] in self.P.adts:
                    return mk('adt', ty['p'], 0, ())
            if v is not None:
                return v
            if c.get('promoted'):
                return self.promoted(c['promoted'])
            if ty is not None:
                if ty['k'] == 'fndef':
                    return mk('fn', ty.get('id'), ty.get('p'))
                if ty['k'] == 'closure':
                    return mk('clo', ty.get('id'), ())
            return mk('app', 'const', S(str(c.get('item') or c.get('id') or (ty or {}).get('s'))))
        return mk('app', 'rt')

    def promoted(self, id):
        v = self._prom.get(id)
        if v is None:
            b = self.P.bodies.get(id)
            v = mk('app', 'promoted', S(str(id)))
            if b is not None:
                self._prom[id] = v
                try:
                    saved, self.c = self.c, Client()
                    outs = self.exec_body(b, [], State(), mk('ctx', None, 0, id), (), keep=True)
                    if len(outs) == 1:
                        st, r = outs[0]
                        v = self.close(st, r)
                finally:
                    self.c = saved
            self._prom[id] = v
        return v

    def close(self, st, v, d=0):
        """turn refs to a finished frame's memory into refs to constants"""
        if d > 6:
            return v
        if v.t == 'ref':
            x = self.close(st, self.rd(st, v.a[0], v.a[1]), d + 1)
            return mk('ref', ('const', x), (), False)
        if v.t == 'adt':
            return mk('adt', v.a[0], v.a[1], tuple(self.close(st, x, d + 1) for x in v.a[2]))
        if v.t in ('tup', 'arr'):
            return mk(v.t, tuple(self.close(st, x, d + 1) for x in v.a[0]))
        return v

    # ---------------------------------------------------------- facts
    def fact(self, st, t):
        f = st.facts.get(t)
        if f is None and self.c.known is not None:
            f = self.c.known(self, t)
        return f

    def ev(self, st, t):
        """constant value of t under the state's facts, or None"""
        if t.t == 'i' or t.t == 's':
            return t
        f = self.fact(st, t)
        if f is not None and f[0] == '=':
            return f[1]
        k = t.t
        if k == 'not':
            x = self.ev(st, t.a[0])
            if x is not None:
                return I(1 - x.a[0]) if x.a[0] in (0, 1) else None
        elif k == 'eq':
            a, b = t.a
            x, y = self.ev(st, a), self.ev(st, b)
            if x is not None and y is not None and x.t == y.t:
                return TRUE if x is y else FALSE
            for u, w in ((a, y), (b, x)):
                if w is not None:
                    f = self.fact(st, u)
                    if f is not None and f[0] == '!' and w in f[1]:
                        return FALSE
                    if w.t == 'i':
                        lo, hi = self.iv(st, u)
                        if (lo is not None and w.a[0] < lo) or (hi is not None and w.a[0] > hi):
                            return FALSE
        elif k == 'lt':
            a, b = t.a
            la, ha = self.iv(st, a)
            lb, hb = self.iv(st, b)
            if ha is not None and lb is not None and ha < lb:
                return TRUE
            if la is not None and hb is not None and la >= hb:
                return FALSE
            # a<b known false both ways / equal
            if st.facts.get(mk('lt', b, a), (0, 0))[1] is TRUE:
                return FALSE
        elif k == 'and':
            x, y = self.ev(st, t.a[0]), self.ev(st, t.a[1])
            if x is FALSE or y is FALSE:
                return FALSE
            if x is TRUE and y is TRUE:
                return TRUE
        elif k == 'or':
            x, y = self.ev(st, t.a[0]), self.ev(st, t.a[1])
            if x is TRUE or y is TRUE:
                return TRUE
            if x is FALSE and y is FALSE:
                return FALSE
        elif k == 'disc':
            v = t.a[0]
            d = self.disc(st, v, t.a[1])
            if d is not t:
                return self.ev(st, d)
        elif k == 'cast':
            pass
        return None

    def iv(self, st, t, d=0):
        if t.t == 'i':
            return t.a[0], t.a[0]
        lo = hi = None
        f = self.fact(st, t)
        if f is not None and f[0] == '=' and f[1].t == 'i':
            return f[1].a[0], f[1].a[0]
        r = st.facts.get(mk('iv', t))
        if r is not None:
            lo, hi = r[1], r[2]
        if d < 6:
            k = t.t
            if k in ('add', 'sub', 'min', 'max', 'neg', 'ovf'):
                xs = [self.iv(st, x, d + 1) for x in t.a]
                n = p = None
                if k == 'add':
                    n = None if None in (xs[0][0], xs[1][0]) else xs[0][0] + xs[1][0]
                    p = None if None in (xs[0][1], xs[1][1]) else xs[0][1] + xs[1][1]
                elif k == 'sub':
                    n = None if None in (xs[0][0], xs[1][1]) else xs[0][0] - xs[1][1]
                    p = None if None in (xs[0][1], xs[1][0]) else xs[0][1] - xs[1][0]
                elif k == 'min':
                    n = None if None in (xs[0][0], xs[1][0]) else min(xs[0][0], xs[1][0])
                    p = [x for x in (xs[0][1], xs[1][1]) if x is not None]
                    p = min(p) if p else None
                elif k == 'max':
                    p = None if None in (xs[0][1], xs[1][1]) else max(xs[0][1], xs[1][1])
                    n = [x for x in (xs[0][0], xs[1][0]) if x is not None]
                    n = max(n) if n else None
                if n is not None and (lo is None or n > lo):
                    lo = n
                if p is not None and (hi is None or p < hi):
                    hi = p
            elif k == 'app' and t.a[0] in ('len', 'count', 'find', 'index'):
                lo = 0 if lo is None else max(lo, 0)
                hi = (1 << 63) - 1 if hi is None else hi
                x = t.a[1] if len(t.a) > 1 else None
                if t.a[0] == 'len' and x.t == 'app' and x.a[0] == 'push':
                    l2, h2 = self.iv(st, self.t_len(st, x.a[1]), d + 1)
                    lo = max(lo, (l2 or 0) + 1)
                    if h2 is not None:
                        hi = min(hi, h2 + 1)
            elif k in ('lt', 'eq', 'not', 'and', 'or'):
                return 0, 1
            elif lo is None or lo < 0:
                if self.unsigned(t):
                    lo = 0
                    if f is not None and f[0] == '!':
                        while I(lo) in f[1]:
                            lo += 1
        return lo, hi

    def unsigned(self, t):
        while t.t == 'hv' and isinstance(t.a[1], T):
            t = t.a[1]
        if t.t != 'fld':
            return False
        k = (t.a[2], t.a[1])
        r = self._uns.get(k)
        if r is None:
            r = False
            a = self.P.adts.get(t.a[2])
            if a is not None and len(a['variants']) == 1 and t.a[1] < len(a['variants'][0]['fields']):
                f = a['variants'][0]['fields'][t.a[1]]
                tys = self.P.types.get(a.get('crate')) or []
                ty = tys[f[1]] if f[1] is not None and f[1] < len(tys) else None
                r = ty is not None and ty.get('s') in ('usize', 'u8', 'u16', 'u32', 'u64', 'u128')
            self._uns[k] = r
        return r

    def set_iv(self, st, t, lo, hi):
        if t.t == 'i':
            return (lo is None or t.a[0] >= lo) and (hi is None or t.a[0] <= hi)
        l0, h0 = self.iv(st, t)
        if lo is None or (l0 is not None and l0 > lo):
            lo = l0
        if hi is None or (h0 is not None and h0 < hi):
            hi = h0
        if lo is not None and hi is not None and lo > hi:
            return False
        # an excluded endpoint tightens the interval
        f = self.fact(st, t)
        if f is not None and f[0] == '!':
            while lo is not None and I(lo) in f[1]:
                lo += 1
            while hi is not None and I(hi) in f[1]:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return False
        st.facts[mk('iv', t)] = ('iv', lo, hi)
        if lo is not None and lo == hi and t not in st.facts:
            st.facts[t] = ('=', I(lo))
        return True

    def set_eq(self, st, t, c):
        if is_const(t):
            if t.t == c.t:
                return t is c
            return True
        f = self.fact(st, t)
        if f is not None:
            if f[0] == '=':
                return f[1] is c or f[1].t != c.t
            if c in f[1]:
                return False
        if c.t == 'i':
            lo, hi = self.iv(st, t)
            if (lo is not None and c.a[0] < lo) or (hi is not None and c.a[0] > hi):
                return False
        st.facts[t] = ('=', c)
        return True

    def set_ne(self, st, t, c):
        if is_const(t):
            return t is not c
        f = self.fact(st, t)
        if f is not None and f[0] == '=':
            return f[1] is not c
        ex = (f[1] if f is not None else frozenset()) | {c}
        if t.t == 'disc':
            a = self.P.adts.get(t.a[1])
            if a and a['enum']:
                left = [v['discr'] for v in a['variants'] if I(v['discr'] if v['discr'] is not None else -1) not in ex]
                if not left:
                    return False
                if len(left) == 1:
                    st.facts[t] = ('=', I(left[0]))
                    return True
        st.facts[t] = ('!', ex)
        if c.t == 'i' and (mk('iv', t) in st.facts or self.iv(st, t) != (None, None)):
            return self.set_iv(st, t, None, None)
        return True

    def assume(self, st, t, val):
        """make t true (val=1) / false (val=0); False if infeasible"""
        x = self.ev(st, t)
        if x is not None:
            return x.t != 'i' or (x.a[0] != 0) == bool(val)
        k = t.t
        if k == 'not':
            return self.assume(st, t.a[0], 1 - val)
        if k == 'eq':
            a, b = t.a
            x, y = self.ev(st, a) or (a if is_const(a) else None), self.ev(st, b) or (b if is_const(b) else None)
            st.facts[t] = ('=', I(val))
            if y is not None:
                return self.set_eq(st, a, y) if val else self.set_ne(st, a, y)
            if x is not None:
                return self.set_eq(st, b, x) if val else self.set_ne(st, b, x)
            return True
        if k == 'lt':
            a, b = t.a
            st.facts[t] = ('=', I(val))
            la, ha = self.iv(st, a)
            lb, hb = self.iv(st, b)
            if val:
                return self.set_iv(st, a, None, hb - 1 if hb is not None else None) and \
                    self.set_iv(st, b, la + 1 if la is not None else None, None)
            return self.set_iv(st, a, lb, None) and self.set_iv(st, b, None, ha)
        if k == 'and' and val:
            return self.assume(st, t.a[0], 1) and self.assume(st, t.a[1], 1)
        if k == 'or' and not val:
            return self.assume(st, t.a[0], 0) and self.assume(st, t.a[1], 0)
        return self.set_eq(st, t, I(val))

    def split_bool(self, st, t):
        """-> [(state, 0|1)] feasible"""
        x = self.ev(st, t)
        if x is not None and x.t == 'i':
            return [(st, 1 if x.a[0] else 0)]
        out = []
        for v in (1, 0):
            s = st.copy()
            if self.assume(s, t, v):
                out.append((s, v))
        return out

    def split(self, st, v, path):
        """split on the variant of enum value v -> [(state, variant index)]"""
        d = self.disc(st, v, path)
        x = self.ev(st, d)
        if x is not None:
            return [(st, self.vi_of(path, x.a[0]))]
        out = []
        for i, var in enumerate(self.P.adts[path]['variants']):
            s = st.copy()
            if self.set_eq(s, d, I(self.discr_of(path, i))):
                out.append((s, i))
        return out

    def payload(self, v, vi, path, i=0, name='0'):
        return self.project(self.project(v, ('d', vi, path)), ('f', i, name, path, None))

    # ---------------------------------------------------------- arithmetic / comparison terms
    def t_eq(self, a, b):
        if a is b:
            return TRUE
        if a.t == 'i' and b.t == 'i' or a.t == 's' and b.t == 's':
            return FALSE
        if a.t == 'adt' and b.t == 'adt' and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            if len(a.a[2]) == 0:
                return TRUE
            if len(a.a[2]) == 1:
                return self.t_eq(a.a[2][0], b.a[2][0])
        for x, y in ((a, b), (b, a)):
            if x.t == 'adt':
                info = self.P.adts.get(x.a[0])
                if info is not None and info['enum'] and not x.a[2]:
                    return self.t_eq(self.disc(None, y, x.a[0]), I(self.discr_of(x.a[0], x.a[1]))) if y.t != 'adt' else FALSE
                if (info is None or not info['enum']) and len(x.a[2]) == 1 and y.t not in ('i', 's'):
                    f = self.project(y, ('f', 0, '0', x.a[0], None))
                    return self.t_eq(f, x.a[2][0])
        if a.n > b.n:
            a, b = b, a
        return mk('eq', a, b)

    def t_not(self, t):
        if t.t == 'i':
            return I(1 - t.a[0])
        if t.t == 'not':
            return t.a[0]
        return mk('not', t)

    def t_lt(self, a, b):
        if a is b:
            return FALSE
        if a.t == 'i' and b.t == 'i':
            return TRUE if a.a[0] < b.a[0] else FALSE
        return mk('lt', a, b)

    def binop(self, op, a, b):
        if op == 'Eq':
            return self.t_eq(a, b)
        if op == 'Ne':
            return self.t_not(self.t_eq(a, b))
        if op == 'Lt':
            return self.t_lt(a, b)
        if op == 'Gt':
            return self.t_lt(b, a)
        if op == 'Ge':
            return self.t_not(self.t_lt(a, b))
        if op == 'Le':
            return self.t_not(self.t_lt(b, a))
        if op in ('BitAnd', 'BitOr'):
            n = 'and' if op == 'BitAnd' else 'or'
            for x, y in ((a, b), (b, a)):
                if x is TRUE or x is FALSE:
                    if (n == 'and') == (x is TRUE):
                        return y
                    return x
            return mk(n, a, b)
        o = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'AddUnchecked': 'add', 'SubUnchecked': 'sub'}.get(op)
        if o:
            if a.t == 'i' and b.t == 'i':
                x, y = a.a[0], b.a[0]
                return I(x + y if o == 'add' else x - y if o == 'sub' else x * y)
            if b.t == 'i' and b.a[0] == 0 and o in ('add', 'sub'):
                return a
            if a.t == 'i' and a.a[0] == 0 and o == 'add':
                return b
            if o == 'sub' and b.t == 'i':
                o, b = 'add', I(-b.a[0])
            if o == 'add' and b.t == 'i' and a.t == 'add' and a.a[1].t == 'i':
                return self.binop('Add', a.a[0], I(a.a[1].a[0] + b.a[0]))
            if o == 'add' and a.t == 'i':
                a, b = b, a
            return mk(o, a, b)
        return mk('app', 'op' + op, a, b)

    # ---------------------------------------------------------- statements
    def rvalue(self, st, b, fid, rv, ctx, dest):
        k = rv[0]
        if k == 'use':
            return self.operand(st, b, fid, rv[1])
        if k == 'ref' or k == 'rawref':
            r, p = self.place(st, b, fid, rv[2])
            if rv[1]:
                self.c.borrow_mut(self, st, ctx, r, p)
            if r[0] == '*' and not p and r[1].t not in ('s',):
                return r[1] if r[1].t != 'box' else mk('ref', r, p, bool(rv[1]))
            return mk('ref', r, p, bool(rv[1]))
        if k == 'agg':
            ops = tuple(self.operand(st, b, fid, o) for o in rv[2])
            kind = rv[1]
            if kind[0] == 'tuple':
                return mk('tup', ops)
            if kind[0] == 'array':
                return mk('arr', ops)
            if kind[0] == 'adt':
                path = norm(kind[1])
                self.c.agg(self, st, ctx, path, kind[2], ops)
                return mk('adt', path, kind[3], ops)
            if kind[0] == 'closure':
                return mk('clo', kind[1], ops)
            return mk('app', 'agg', *ops)
        if k == 'discr':
            r, p = self.place(st, b, fid, rv[1])
            v = self.rd(st, r, p)
            ty = self.place_tys(b, rv[1])[-1]
            return self.disc(st, v, ty['p'] if ty is not None and ty['k'] == 'adt' else None)
        if k == 'bin':
            a, c = self.operand(st, b, fid, rv[2]), self.operand(st, b, fid, rv[3])
            op = rv[1]
            if op.endswith('WithOverflow'):
                op = op[:-12]
                v = self.binop(op, a, c)
                return mk('tup', (v, mk('ovf', S(op), a, c)))
            return self.binop(op, a, c)
        if k == 'un':
            a = self.operand(st, b, fid, rv[2])
            op = rv[1]
            if op == 'Not':
                ty = self.op_ty(b, rv[2])
                if ty is not None and ty['s'] == 'bool':
                    return self.t_not(a)
                return mk('app', 'bitnot', a)
            if op == 'Neg':
                return I(-a.a[0]) if a.t == 'i' else mk('neg', a)
            if op == 'PtrMetadata':
                return self.t_len(st, a)
            return mk('app', 'un' + op, a)
        if k == 'cast':
            kind = rv[1]
            if kind == 'BoxDerefTransmute' and len(rv[2][1]) > 1:
                r, p = self.place(st, b, fid, rv[2][1][:-1])
                a = self.rd(st, r, p)
                if a.t == 'ref' and a.a[0][0] == 'heap':
                    return a
            a = self.operand(st, b, fid, rv[2])
            fr, to = b.types[rv[3]], b.types[rv[4]]
            self.c.cast(self, st, ctx, kind, a, fr, to)
            if 'IntToInt' in kind:
                lo, hi = self.iv(st, a)
                if a.t == 'i':
                    bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(to['s'])
                    return I(a.a[0] % (1 << bits)) if bits else a
                if lo is not None and lo >= 0 or fr['s'][0] == 'u' or fr['s'] in ('bool', 'char'):
                    return a
                return mk('cast', a, fr['s'], to['s'])
            return a
        if k == 'repeat':
            return mk('app', 'repeat', self.operand(st, b, fid, rv[1]))
        if k == 'len':
            r, p = self.place(st, b, fid, rv[1])
            return self.t_len(st, self.rd(st, r, p))
        if k == 'tls':
            return mk('app', 'tls')
        return mk('app', 'rv_' + str(k))

    def t_len(self, st, v):
        v = self.canon(st, v)
        if v.t == 'arr':
            return I(len(v.a[0]))
        if v.t == 's':
            return I(len(v.a[0].encode()))
        return mk('app', 'len', v)

    def stmt(self, st, b, fid, s, ctx):
        k = s[0]
        if k == '=':
            ctx.span = s[3]
            v = self.rvalue(st, b, fid, s[2], ctx, s[1])
            self.assign(st, b, fid, s[1], v, ctx, s[2])
        elif k == 'dead':
            st.mem.pop((fid, s[1]), None)
        elif k == 'setd':
            r, p = self.place(st, b, fid, s[1])
            ty = self.place_tys(b, s[1])[-1]
            old = self.rd(st, r, p)
            self.wr(st, r, p, mk('as', old, s[2], ty['p'] if ty else None))

    def assign(self, st, b, fid, place, v, ctx, rv=None):
        if len(place) == 1:
            st.mem[(fid, place[0])] = v
            return
        r, p = self.place(st, b, fid, place)
        self.c.store(self, st, ctx, r, p, v, rv)
        self.wr(st, r, p, v)

    # ---------------------------------------------------------- blocks
    def block(self, st, b, fid, bb, chain):
        """-> [(target block | 'ret', state)]"""
        self.steps += 1
        if self.steps > self.limit:
            raise Limit('analysis budget exceeded in ' + b.name)
        blk = b.blocks[bb]
        ctx = Ctx(fid, bb, b, None, chain)
        for s in blk['s']:
            self.stmt(st, b, fid, s, ctx)
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [('ret', st)]
        if k == 'switch':
            v = self.operand(st, b, fid, t[1])
            ctx.span = t[5]
            isbool = b.types[t[4]]['s'] == 'bool'
            out = []
            if isbool:
                for s2, val in self.split_bool(st, v):
                    tgt = next((x[1] for x in t[2] if x[0] == val), t[3])
                    if tgt is not None:
                        out.append((tgt, s2))
                return out
            x = self.ev(st, v)
            if x is not None and x.t == 'i':
                tgt = next((y[1] for y in t[2] if y[0] == x.a[0]), t[3])
                return [(tgt, st)] if tgt is not None else []
            for val, tgt in t[2]:
                s2 = st.copy()
                if self.set_eq(s2, v, I(val)):
                    out.append((tgt, s2))
            if t[3] is not None and b.blocks[t[3]]['t'][0] != 'unreach':
                good = True
                for val, _ in t[2]:
                    if not self.set_ne(st, v, I(val)):
                        good = False
                        break
                if good:
                    out.append((t[3], st))
            return out
        if k == 'drop':
            ctx.span = None
            r, p = self.place(st, b, fid, t[1])
            ty = self.place_tys(b, t[1])[-1]
            self.c.drop(self, st, ctx, self.rd(st, r, p), ty)
            return [(t[2], st)]
        if k == 'assert':
            ctx.span = t[6]
            v = self.operand(st, b, fid, t[1])
            if v.t == 'ovf':
                self.c.overflow(self, st, ctx, v.a[0].a[0], v.a[1], v.a[2], t)
                return [(t[5], st)]
            if t[3] == 'overflow:Neg':
                self.c.overflow(self, st, ctx, 'Neg', self.operand(st, b, fid, t[4][0]), None, t)
            if self.assume(st, v, 1 if t[2] else 0):
                return [(t[5], st)]
            return []
        if k == 'call':
            ctx.span = t[6]
            cal = t[1]
            args = [self.operand(st, b, fid, o) for o in t[2]]
            outs = self.call(st, ctx, cal, args, t)
            res = []
            if t[4] is None:
                return res
            for s2, rvv in outs:
                self.assign(s2, b, fid, t[3], rvv, ctx, ('call', cal))
                res.append((t[4], s2))
            return res
        return []

    # ---------------------------------------------------------- calls
    def call(self, st, ctx, cal, args, t=None):
        if 'ptr' in cal:
            f = self.operand(st, ctx.body, ctx.fid, cal['ptr'])
            r = self.c.call(self, st, ctx, '<fnptr>', [f] + args, cal)
            if r is not None:
                return r
            return self.call_value(st, ctx, f, args)
        name = norm(cal['def'])
        r = self.c.call(self, st, ctx, name, args, cal)
        if r is not None:
            return r
        rid = cal.get('rid') or cal.get('id')
        if rid in self.P.bodies and not self.transparent(rid) and not name.startswith('std::ops::Fn'):
            return self.call_local(st, ctx, rid, args)
        return self.call_ext(st, ctx, name, args, cal)

    def transparent(self, rid):
        """derived impls with a model: Clone is identity, PartialEq structural"""
        b = self.P.bodies[rid]
        if b.raw.get('derived') and b.raw.get('trait') in ('std::clone::Clone', 'std::cmp::PartialEq', 'std::cmp::PartialOrd'):
            return True
        return False

    def call_local(self, st, ctx, id, args):
        b = self.P.bodies[id]
        if id in self.stack or len(self.stack) > 24 or not self.c.inline(self, b):
            return self.opaque_local(st, ctx, b, args)
        fid = mk('ctx', ctx.fid, ctx.bb, id)
        self.stack.append(id)
        try:
            self.c.enter(self, st, ctx, b, args)
            outs = self.exec_body(b, args, st, fid, ctx.chain + ((ctx.body.name, ctx.loc()),))
            res = []
            for s2, r in outs:
                x = self.c.leave(self, s2, ctx, b, r)
                res.append((s2, r))
            return res
        finally:
            self.stack.pop()

    def opaque_local(self, st, ctx, b, args):
        r = self.c.opaque(self, st, ctx, b, args)
        if r is not None:
            return r
        ms = self.modset(b.id)
        inst = ctx.inst(b.id)
        tys = [b.types[b.locals[i + 1][0]] for i in range(min(len(args), b.argc))]
        self.havoc_args(st, ctx, args, ms, inst, tys)
        return [(st, mk('sym', b.name, inst))]

    def havoc_args(self, st, ctx, args, ms, inst, tys=None):
        seen = set()

        def go(v, d, ty=None):
            if v in seen or d > 4:
                return
            seen.add(v)
            if v.t == 'ref':
                if v.a[2]:
                    old = self.rd(st, v.a[0], v.a[1])
                    go(old, d + 1)
                    self.wr(st, v.a[0], v.a[1], self.hv(inst, old, ms))
                else:
                    go(self.rd(st, v.a[0], v.a[1]), d + 1)
            elif v.t == 'adt':
                for x in v.a[2]:
                    go(x, d + 1)
            elif v.t in ('tup', 'arr'):
                for x in v.a[0]:
                    go(x, d + 1)
            elif v.t == 'clo':
                for x in v.a[1]:
                    go(x, d + 1)
            elif v.t == 'upd':
                go(v.a[2], d)
                go(v.a[0], d)
            elif ty is not None and ty['k'] == 'ref' and ty['m']:
                old = self.rd(st, ('*', v))
                st.mem[('*', v)] = self.hv(inst, old, ms)
            if v.t not in ('ref', 'i', 's') and ('*', v) in st.mem and not (ty is not None and ty['k'] == 'ref'):
                # pointer-valued term whose pointee has been tracked
                old = st.mem[('*', v)]
                st.mem[('*', v)] = self.hv(inst, old, ms)
            elif v.t in ('deref', 'upd', 'hv', 'sym', 'arg', 'fld'):
                # tracked pointees reachable through fields of this value
                for r in list(st.mem):
                    if r[0] == '*' and r[1].t == 'fld' and self._under(r[1], v):
                        st.mem[r] = self.hv(inst, st.mem[r], ms)
        for i, a in enumerate(args):
            go(a, 0, tys[i] if tys and i < len(tys) else None)
            if a.t not in ('ref', 'i', 's'):
                # `*a` tracked: havoc what hangs off it too
                if tys and i < len(tys) and tys[i]['k'] == 'ref' and tys[i]['m']:
                    d = mk('deref', a)
                    for r in list(st.mem):
                        if r[0] == '*' and r[1] is not a and self._under(r[1], d):
                            st.mem[r] = self.hv(inst, st.mem[r], ms)

    def _under(self, t, v):
        while True:
            if t is v:
                return True
            if t.t in ('fld', 'as', 'deref', 'idx'):
                t = t.a[0]
            else:
                return False

    def call_value(self, st, ctx, f, args):
        """call of a closure / function item / opaque callable with the given argument values"""
        selfv = f
        n = 0
        while f.t in ('ref', 'box') and n < 5:
            selfv = f
            f = self.rd(st, f.a[0], f.a[1]) if f.t == 'ref' else self.rd(st, ('*', f))
            n += 1
        if f.t == 'clo':
            b = self.P.bodies.get(f.a[0])
            if b is not None:
                lty = b.types[b.locals[1][0]] if b.argc >= 1 else None
                if lty is not None and lty['k'] == 'ref':
                    if selfv.t != 'ref':
                        root = (mk('ctx', ctx.fid, ctx.bb, 'env', f.a[0]), 'env')
                        st.mem[root] = f
                        selfv = mk('ref', root, (), lty['m'])
                    a0 = selfv
                else:
                    a0 = f
                return self.call_local(st, ctx, b.id, [a0] + list(args))
        if f.t == 'fn':
            id, path = f.a
            r = self.c.call(self, st, ctx, path, list(args), {'def': path, 'id': id, 'a': [], 'value': True})
            if r is not None:
                return r
            if id in self.P.bodies and not self.transparent(id):
                return self.call_local(st, ctx, id, list(args))
            v = self.ctor(path)
            if v:
                self.c.agg(self, st, ctx, v[0], v[2], tuple(args))
                return [(st, mk('adt', v[0], v[1], tuple(args)))]
            return self.call_ext(st, ctx, path, list(args), {'def': path, 'id': id, 'a': []})
        h = getattr(self.c, 'unknown', None)
        r = h(self, st, ctx, f, list(args)) if h else None
        if r is not None:
            return r
        inst = ctx.inst('callv')
        self.havoc_args(st, ctx, list(args) + [selfv], ALL, inst)
        return [(st, mk('sym', 'callv', inst, f))]

    def ctor(self, path):
        if path is None:
            return None
        if path.startswith('std::prelude::'):
            last = path.rsplit('::', 1)[1]
            path = {'Some': OPT, 'None': OPT, 'Ok': RES, 'Err': RES}.get(last, path) + '::' + last
        a = self.P.adts.get(path)
        if a and not a['enum']:
            return path, 0, a['variants'][0]['name']
        if '::' in path:
            p, v = path.rsplit('::', 1)
            if p.endswith('>'):
                # Option::<T>::Some
                i = p.find('::<')
                if i > 0:
                    p = p[:i]
            a = self.P.adts.get(p)
            if a and a['enum']:
                for i, x in enumerate(a['variants']):
                    if x['name'] == v:
                        return p, i, v
        return None

    def call_ext(self, st, ctx, name, args, cal):
        m = self.models.get(name)
        if m is None:
            m = self.models_suffix.get(name.rsplit('::', 1)[-1]) if cal.get('trait') or name.startswith(('std::', 'core::', 'alloc::')) else None
        if m is not None:
            r = m(self, st, args, cal, ctx)
            if r is not None:
                return r
        return self.opaque_ext(st, ctx, name, args, cal)

    IMPURE = ('std::fs::', 'std::io::', 'std::time::', 'std::env::', 'std::process::', 'reqwest::', 'walkdir::', 'glob::')

    def opaque_ext(self, st, ctx, name, args, cal):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        inst = ctx.inst(name)
        mut = any(self.has_mut(st, a) for a in args)
        tys = None
        if not mut and cal.get('a') is not None:
            mut = False
        canon = [self.canon(st, a) for a in args]
        # a local trait impl reached through an external generic (unresolved): be conservative about closures
        clos = [a for a in args if self.callable(st, a)]
        for c in clos:
            st = self.call_many(st, ctx, c)
        if mut:
            self.havoc_args(st, ctx, args, ALL, inst)
            return [(st, mk('sym', name, inst, *canon))]
        if name.startswith(self.IMPURE):
            return [(st, mk('sym', name, inst, *canon))]
        return [(st, mk('app', name, *canon))]

    def callable(self, st, a):
        n = 0
        while a.t == 'ref' and n < 3:
            a = self.rd(st, a.a[0], a.a[1])
            n += 1
        return a.t == 'clo' and a.a[0] in self.P.bodies

    def has_mut(self, st, v, d=0):
        if v.t == 'ref':
            return bool(v.a[2]) or (d < 2 and self.has_mut(st, self.rd(st, v.a[0], v.a[1]), d + 1))
        if d > 3:
            return False
        if v.t == 'adt':
            return any(self.has_mut(st, x, d + 1) for x in v.a[2])
        if v.t in ('tup', 'arr'):
            return any(self.has_mut(st, x, d + 1) for x in v.a[0])
        if v.t == 'clo':
            return any(self.has_mut(st, x, d + 1) for x in v.a[1])
        return False

    def call_many(self, st, ctx, f, nargs=None):
        """0..n calls of a closure with unknown arguments; returns one joined state"""
        g = f
        while g.t == 'ref':
            g = self.rd(st, g.a[0], g.a[1])
        b = self.P.bodies[g.a[0]]
        n = b.argc - 1
        sub = ctx.sub(('many', g.a[0]))

        def step(s):
            outs = self.call_value(s, sub, f, [mk('sym', 'cbarg', sub.fid, i) for i in range(n)])
            return [], [o[0] for o in outs]
        exits, heads = self.fix(st, sub, step)
        hs = list(heads.values())
        r = hs[0]
        for h in hs[1:]:
            m = r.mon
            r = self.widen(r, h, ('jn', sub.fid, 'many'), None)
            r.mon = m if m == h.mon else h.mon
        return r

    # ---------------------------------------------------------- function bodies
    def run(self, id, args=None, mon=None, st=None, setup=None):
        """analyse a function from an unconstrained entry state"""
        b = self.P.bodies[id]
        if st is None:
            st = State(mon=mon)
        if args is None:
            args = [self.symarg(b, i) for i in range(1, b.argc + 1)]
        if setup:
            setup(self, st, args)
        self.stack.append(id)
        try:
            fid = mk('ctx', None, 0, id)
            return self.exec_body(b, args, st, fid, ())
        finally:
            self.stack.pop()

    def symarg(self, b, i):
        n = b.locals[i][1] if len(b.locals[i]) > 1 else 'a%d' % i
        return mk('arg', i, n)

    def exec_body(self, b, args, st, fid, chain, keep=False):
        self.visited.add(b.id)
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        rets, exits = self.region(b, fid, 0, [st], None, None, chain)
        out = []
        for s in rets:
            r = s.mem.get((fid, 0))
            if r is None:
                r = UNIT
            for l in range(0 if keep else len(b.locals)):
                s.mem.pop((fid, l), None)
            out.append((s, r))
        return self.dedupe_outs(out, fid)

    def shape(self, r, d=0):
        if r.t == 'adt' and d < 4:
            return (r.a[0], r.a[1]) + tuple(self.shape(x, d + 1) for x in r.a[2][:3])
        if r.t in ('i', 's'):
            return r
        return None

    def dedupe_outs(self, outs, fid):
        if len(outs) < 2:
            return outs
        seen, res = set(), []
        for s, r in outs:
            k = (r, s.key())
            if k not in seen:
                seen.add(k)
                res.append((s, r))
        if len(res) > self.CAP:
            groups = {}
            for s, r in res:
                kk = (s.mon, self.shape(r))
                groups.setdefault(kk, []).append((s, r))
            res2 = []
            for g in groups.values():
                while len(g) > 3:
                    (s1, r1), (s2, r2) = g.pop(), g.pop()
                    key = ('jn', fid, 'ret', len(g))
                    s3 = self.widen(s1, s2, key, None)
                    s3.mon = s1.mon
                    r3 = self.w_val(r1, r2, key + ('r',), s1, s2, s3.facts)
                    g.insert(0, (s3, r3))
                res2 += g
            res = res2
        return res

    def region(self, b, fid, start, sts, R, head, chain):
        """explore from `start` inside the block set R (None: whole body).
        -> (returning states, [(exit block, state)]) and appends back-edge states to head.backs"""
        rpo, loops = b.order()
        pend = {start: list(sts)}
        rets, exits = [], []
        first = True
        while pend:
            bb = min(pend, key=lambda x: rpo.get(x, 1 << 30))
            states = self.reduce(pend.pop(bb), (fid, bb))
            for st in states:
                if bb in loops and not (first and head is not None and bb == start):
                    r2, e2 = self.loop(b, fid, bb, loops[bb], st, chain)
                    outs = [('ret', s) for s in r2] + e2
                else:
                    outs = self.block(st, b, fid, bb, chain)
                for tgt, s in outs:
                    if tgt == 'ret':
                        rets.append(s)
                    elif head is not None and tgt == start:
                        head.append(s)
                    elif R is None or tgt in R:
                        pend.setdefault(tgt, []).append(s)
                    else:
                        exits.append((tgt, s))
            first = False
        return rets, exits

    def loop(self, b, fid, h, R, st, chain):
        ctx = Ctx(fid, h, b, None, chain)

        def step(s):
            backs = []
            rets, exits = self.region(b, fid, h, [s], R, backs, chain)
            for x in backs:
                self.c.loop_back(self, x, ctx, h, R)
            return [('ret', x) for x in rets] + exits, backs
        exits, heads = self.fix(st, ctx, step, blocks=R)
        return [s for t, s in exits if t == 'ret'], [(t, s) for t, s in exits if t != 'ret']

    def fix(self, st, ctx, step, blocks=None):
        """fixpoint of a loop: step(head state) -> (exits, back states)"""
        fid = ctx.fid
        memo = {}

        def inloop(t):
            r = memo.get(t)
            if r is None:
                r = False
                for x in subterms(t):
                    if x.t in ('ctx', 'inst', 'lv', 'jn', 'el') and self.owned(x, fid, blocks):
                        r = True
                        break
                memo[t] = r
            return r
        h = getattr(self.c, 'loop_enter', None)
        if h:
            st = st.copy()
            h(self, st, ctx)
        entry = st.copy()
        heads = {st.mon: st}
        work = [st.mon]
        results = {}
        rounds = 0
        while work:
            rounds += 1
            hard = rounds > 24
            if rounds > 300:
                raise Limit('loop does not stabilise in ' + ctx.body.name)
            m = work.pop(0)
            prev, self.head_now = self.head_now, (heads[m], (fid, ctx.bb), entry)
            exits, backs = step(heads[m].copy())
            self.head_now = prev
            results[m] = exits
            for x in backs:
                m2 = x.mon
                old = heads.get(m2)
                base = old if old is not None else entry
                new = State(mon=m2)
                # facts: immutable truths about pre-loop terms survive
                fresh = {}
                for k, v in x.facts.items():
                    if not inloop(k) and (v[0] != '=' or not inloop(v[1])):
                        fresh[k] = v
                key = ('lv', fid, ctx.bb)
                for root, bv in base.mem.items():
                    xv = x.mem.get(root)
                    if xv is None:
                        if root[0] == '*' or isinstance(root[0], str):
                            xv = bv
                        else:
                            continue
                    if bv.t == 'i' and xv is not bv and x.facts.get(xv) == ('=', bv):
                        # known to be what it was
                        xv = bv
                    if xv is bv:
                        new.mem[root] = bv
                        continue
                    if old is None and not inloop(xv):
                        new.mem[root] = xv
                        continue
                    new.mem[root] = mk('lv', key + (root, 'hard')) if hard else self.w_val(bv, xv, key + (root,), base, x, fresh)
                for root, xv in x.mem.items():
                    if root not in base.mem and (root[0] == '*'):
                        # pointee first materialised inside the loop
                        if inloop(root[1]):
                            continue
                        bv = self.base(root)
                        if xv is not bv:
                            new.mem[root] = mk('lv', key + (root, 'hard')) if hard else self.w_val(bv, xv, key + (root,), base, x, fresh)
                if hard:
                    fresh = {k: v for k, v in fresh.items() if not inloop(k)}
                if old is None:
                    new.facts = fresh
                    heads[m2] = new
                    work.append(m2)
                else:
                    f = {}
                    for k, v in old.facts.items():
                        if inloop(k) and k not in fresh:
                            f[k] = v
                        elif fresh.get(k) == v:
                            f[k] = v
                    for k, v in fresh.items():
                        if k.t == 'iv' and inloop(k):
                            ov = old.facts.get(k)
                            if ov is None:
                                f[k] = v
                            else:
                                lo = v[1] if (v[1] is not None and ov[1] is not None and v[1] >= ov[1]) else None
                                hi = v[2] if (v[2] is not None and ov[2] is not None and v[2] <= ov[2]) else None
                                lo = ov[1] if lo is not None else None
                                hi = ov[2] if hi is not None else None
                                f[k] = ('iv', lo, hi)
                    new.facts = f
                    if new.mem != old.mem or new.facts != old.facts:
                        heads[m2] = new
                        if m2 not in work:
                            work.append(m2)
        out = []
        for ex in results.values():
            out += ex
        for m, x in heads.items():
            self.final_heads.add(id(x))
            self.keep.append(x)
        return out, heads

    def owned(self, x, fid, blocks):
        """does symbol/context x originate inside the loop (fid, blocks)?"""
        if x.t == 'lv' or x.t == 'jn':
            key = x.a[0]
            f, bb = key[1], key[2]
            if not isinstance(f, T):
                return False
            if f is fid and (blocks is None or bb in blocks):
                return True
            x = f
        elif x.t == 'inst' or x.t == 'el':
            if x.a[0] is fid and (blocks is None or x.a[1] in blocks):
                return True
            x = x.a[0]
        while isinstance(x, T) and x.t == 'ctx':
            if x is fid and blocks is None:
                return True
            if x.a[0] is fid and (blocks is None or x.a[1] in blocks):
                return True
            x = x.a[0]
        return False

    def w_val(self, a, b, key, sa, sb, facts):
        """join/widen two values; differing parts become a symbol named by the place"""
        if a is b:
            return a
        if a.t == b.t:
            if a.t == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
                return mk('adt', a.a[0], a.a[1], tuple(self.w_val(x, y, key + (i,), sa, sb, facts)
                                                       for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))))
            if a.t in ('tup', 'arr') and len(a.a[0]) == len(b.a[0]):
                return mk(a.t, tuple(self.w_val(x, y, key + (i,), sa, sb, facts)
                                     for i, (x, y) in enumerate(zip(a.a[0], b.a[0]))))
            if a.t == 'clo' and a.a[0] == b.a[0]:
                return mk('clo', a.a[0], tuple(self.w_val(x, y, key + (i,), sa, sb, facts)
                                               for i, (x, y) in enumerate(zip(a.a[1], b.a[1]))))
            if a.t == 'iter' and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
                return mk('iter', a.a[0], a.a[1], self.w_val(a.a[2], b.a[2], key + ('p',), sa, sb, facts))
            if a.t == 'upd' and a.a[1] == b.a[1]:
                return mk('upd', self.w_val(a.a[0], b.a[0], key + ('b',), sa, sb, facts), a.a[1],
                          self.w_val(a.a[2], b.a[2], key + (a.a[1],), sa, sb, facts))
        for x, y in ((a, b), (b, a)):
            if y.t == 'adt' and x.t in ('fld', 'idx', 'as', 'arg', 'lv', 'jn') and y.a[2] and any(f.t == 'fld' and f.a[0] is x and f.a[1] == i for i, f in enumerate(y.a[2])) \
                    and not self.P.adts.get(y.a[0], {}).get('enum', True):
                # a structure vs one made of some of its fields
                d = self.P.adts[y.a[0]]['variants'][0]['fields']
                ex = mk('adt', y.a[0], y.a[1], tuple(f if f.t == 'fld' and f.a[0] is x else mk('fld', x, i, y.a[0], d[i][0]) for i, f in enumerate(y.a[2])))
                return self.w_val(ex if a is x else y, y if a is x else ex, key, sa, sb, facts)
        if b.t == 'upd' and b.a[1][0] == 'f':
            # a vs a with updated fields
            x = self.project(a, b.a[1])
            return self.inject(self.w_val(a, b.a[0], key + ('b',), sa, sb, facts), (b.a[1],),
                               self.w_val(x, b.a[2], key + (b.a[1],), sa, sb, facts))
        if a.t == 'upd' and a.a[1][0] == 'f':
            x = self.project(b, a.a[1])
            return self.inject(self.w_val(a.a[0], b, key + ('b',), sa, sb, facts), (a.a[1],),
                               self.w_val(a.a[2], x, key + (a.a[1],), sa, sb, facts))
        if a.t == 'hv' and b.t == 'hv' and a.a[2] is not ALL and b.a[2] is not ALL:
            return mk('hv', mk('inst', key[1] if isinstance(key[1], T) else None, key[2] if len(key) > 2 else None, key),
                      self.w_val(a.a[1], b.a[1], key + ('h',), sa, sb, facts), a.a[2] | b.a[2])
        if b.t == 'hv' and b.a[2] is not ALL and b.a[1] is a:
            return mk('hv', mk('inst', key[1] if isinstance(key[1], T) else None, key[2] if len(key) > 2 else None, key), a, b.a[2])
        if a.t == 'hv' and a.a[2] is not ALL and a.a[1] is b:
            return mk('hv', mk('inst', key[1] if isinstance(key[1], T) else None, key[2] if len(key) > 2 else None, key), b, a.a[2])
        s = mk('lv' if key[0] == 'lv' else 'jn', key)
        m = self.merged.setdefault(s, set())
        m.add(a)
        m.add(b)
        la, ha = self.iv(sa, a)
        lb, hb = self.iv(sb, b)
        lo = min(la, lb) if la is not None and lb is not None else None
        hi = max(ha, hb) if ha is not None and hb is not None else None
        if lo is not None or hi is not None:
            facts[mk('iv', s)] = ('iv', lo, hi)
        return s

    def widen(self, a, b, key, _):
        key = ('jn',) + tuple(key) if key[0] != 'jn' else key
        facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        # facts that differ only as sets of exclusions
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if w is None or w == v:
                continue
            if v[0] == 'iv' and w[0] == 'iv':
                lo = min(v[1], w[1]) if v[1] is not None and w[1] is not None else None
                hi = max(v[2], w[2]) if v[2] is not None and w[2] is not None else None
                if lo is not None or hi is not None:
                    facts[k] = ('iv', lo, hi)
            elif v[0] == '!' and w[0] == '!':
                x = v[1] & w[1]
                if x:
                    facts[k] = ('!', x)
            elif v[0] == '!' and w[0] == '=' and w[1] not in v[1] or v[0] == '=' and w[0] == '!' and v[1] not in w[1]:
                s, e = (v, w) if v[0] == '!' else (w, v)
                x = frozenset(c for c in s[1] if c is not e[1] and c.t == e[1].t)
                if x:
                    facts[k] = ('!', x)
        new = State(mon=a.mon)
        for root, av in a.mem.items():
            bv = b.mem.get(root)
            if bv is None:
                if root[0] == '*':
                    bv = self.base(root)
                else:
                    continue
            new.mem[root] = av if av is bv else self.w_val(av, bv, key + (root,), a, b, facts)
        for root, bv in b.mem.items():
            if root not in a.mem and root[0] == '*':
                av = self.base(root)
                new.mem[root] = av if av is bv else self.w_val(av, bv, key + (root,), a, b, facts)
        new.facts = facts
        return new

    def reduce(self, states, key):
        if len(states) < 2:
            return states
        seen, res = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                res.append(s)
        rel = self.c.relevant
        if rel is not None and len(res) > 1:
            # same memory and monitor, differing only in facts the client does not care about
            g = {}
            for s in res:
                k = (s.mon, frozenset(s.mem.items()), frozenset((f, v) for f, v in s.facts.items() if rel(f)))
                o = g.get(k)
                if o is None:
                    g[k] = s
                else:
                    o.facts = {f: v for f, v in o.facts.items() if s.facts.get(f) == v}
            res = list(g.values())
        if len(res) > self.CAP:
            groups = {}
            for s in res:
                k = s.mon
                if rel is not None:
                    k = (k, frozenset((f, v) for f, v in s.facts.items() if rel(f)))
                groups.setdefault(k, []).append(s)
            res = []
            keep = max(2, min(6, self.CAP // max(1, len(groups))))
            for gi, (m, g) in enumerate(groups.items()):
                m = g[0].mon
                g = list(g)
                n = gi * 1000
                while len(g) > keep:
                    a, b = g.pop(0), g.pop(0)
                    w = self.widen(a, b, ('jn',) + tuple(key) + (n,), None)
                    w.mon = m
                    n += 1
                    g.append(w)
                res += g
        return res
