"""Where a type is expected: evaluation yields values of the expected type, and conversions of them cannot fail."""
from rules import prop
from rulelib import *
from rules.args import walk, ival, poss_kind
from rules.coerce import K, Types, TYPE, VAL, KINDS, start, vspec, top, uf, same, deep, vname, names_of, expected, go, fact, mk_payload, el_of

PARAMS = 'param'


class Conv:
    """the trait by which values become Rust values: its method that names the type, and the one that converts"""
    def __init__(self, C):
        P = self.P = C.P
        self.C = C
        by = {}
        for (tr, m), bs in P._impls.items():
            for b in bs:
                if b.argc == 0 and b.ty(0)['s'] == TYPE:
                    by.setdefault(tr, {})['type'] = m
                if b.argc == 1 and b.ty(1)['s'] == VAL and b.ty(0)['s'].startswith(RES + '<'):
                    by.setdefault(tr, {})['conv'] = m
        both = [(tr, d) for tr, d in by.items() if len(d) == 2]
        self.trait = both[0][0] if both else None
        self.m_type = both[0][1]['type'] if both else None
        self.m_conv = both[0][1]['conv'] if both else None
        self.types_of = P._impls.get((self.trait, self.m_type), [])
        self.convs = P._impls.get((self.trait, self.m_conv), [])
        # functions that turn a value into what their caller asks for, without a way to fail
        self.must = {b.id for b in C.lib() if b.argc == 1 and b.ty(1)['s'] == VAL and b.ty(0)['k'] == PARAMS and b.kind not in ('closure', 'promoted') and not b.raw.get('trait')}
        self.memo = {}

    def call_type(self, st, name, types, ty):
        return name == self.trait + '::' + self.m_type

    def astype(self, types, ty, env=None, depth=0):
        """the type that this Rust type stands for, as a term; None: not known"""
        t = types[ty]
        if t['k'] == PARAMS:
            return (env or {}).get(t['p'], mk('app', 'as_type', t['p']))
        key = t['s'] + repr(sorted((env or {}).items(), key=repr))
        if key in self.memo:
            return self.memo[key]
        b = self.P.find_impl(self.trait, self.m_type, ty, types)
        if b is None or depth > 6:
            return None
        sub = {}
        self.P.match_ty(b.raw['self'], b.types, ty, types, sub)
        env2 = {}
        for p, x in sub.items():
            for i, t2 in enumerate(types):
                if t2.get('s') == x:
                    r = self.astype(types, i, env, depth + 1)
                    if r is not None:
                        env2[p] = r
                    break
        me = self

        class Q(K):
            def call(s, I, st, ctx, name, args, cal):
                if name == me.trait + '::' + me.m_type:
                    r = me.astype(ctx.body.types, cal['a'][0], env2, depth + 1) if ctx.body.types[cal['a'][0]]['k'] != PARAMS else env2.get(ctx.body.types[cal['a'][0]]['p'])
                    if r is not None:
                        return [(st, r)]
                return None
        cl = Q(self.C)
        I = ai.Interp(self.P, cl, 100000)
        cl.I = I
        outs = I.run(b.id, args=[], st=ai.State(mon=()))
        rs = {deep(I.canon(s, r)) for s, r in outs}
        r = rs.pop() if len(rs) == 1 else None
        self.memo[key] = r
        return r


def accepts(K_, I, st, t, w):
    """w is a value of type t"""
    t, w = walk(t), walk(w)
    if w.t == 'app' and w.a[0] == 'value' and weaker(K_, st, t, w.a[1]):
        return True
    if w.t == 'app' and w.a[0] == 'coerced' and weaker(K_, st, t, w.a[1]):
        return True
    return K_.accepts(I, st, t, w)


def weaker(K_, st, t, h):
    """every value of type h is one of type t"""
    if same(st, t, h):
        return True
    t, h = deep(t), deep(h)
    if t.t == 'adt' and h.t == 'adt':
        if vname(K_.P, h) == 'Optional' and vname(K_.P, t) != 'Optional':
            return K_.upper(st, t, h) or vname(K_.P, t) == 'Any'
        if vname(K_.P, t) in ('List', 'Dict') and vname(K_.P, t) == vname(K_.P, h):
            return weaker(K_, st, t.a[2][0], h.a[2][0])
        if vname(K_.P, t) == 'Optional':
            x = t.a[2][0]
            return vname(K_.P, h) == 'Unit' or weaker(K_, st, x, h) or vname(K_.P, h) == 'Optional' and weaker(K_, st, x, h.a[2][0])
        return K_.upper(st, t, h)
    if t.t == 'adt' and vname(K_.P, t) == 'Optional':
        return weaker(K_, st, t.a[2][0], h)
    return t.t == 'adt' and vname(K_.P, t) == 'Any'


class E(K):
    def __init__(self, C, K_, V, fam, terms=(), self_id=None):
        K.__init__(self, C, terms=terms)
        self.K_, self.V, self.fam = K_, V, fam
        self.sites = []
        self.coerce = {b.id for b in K_.coerce}
        self.rec = {b.id for b in K_.rec} | K_.cyc
        self.me = self_id

    def inline(self, I, b):
        if b.id in self.fam or b.id in self.coerce or b.id in self.rec:
            return False
        if b.id in self.V.must:
            return False
        return K.inline(self, I, b)

    def each(self, I, st, ctx, blocks=None):
        pass

    def end(self, I, st, ctx):
        pass

    def opaque(self, I, st, ctx, b, args):
        if b.id in self.fam or b.id in self.coerce or b.id in self.rec:
            n = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == '&' + TYPE][0]
            h = top(I, st, args[n - 1])
            u = ctx.inst('value')
            rs = [mk('adt', RES, 0, (mk('app', 'value', h, u),)), mk('adt', RES, 1, (mk('app', 'failure', u),))]
            if b.ty(0)['s'].startswith(MAYBE):
                rs = [mk('adt', OPT, 0, ())] + [mk('adt', OPT, 1, (x,)) for x in rs]
            return [(st.copy(), x) for x in rs]
        return K.opaque(self, I, st, ctx, b, args)

    def call(self, I, st, ctx, name, args, cal):
        rid = cal.get('rid') or cal.get('id')
        if rid in self.V.must or cal.get('id') in self.V.must:
            a = cal.get('a') or []
            self.sites.append((ctx, cal, a[-1] if a else None, walk(I.canon(st, args[0])), st.copy()))
            return [(st, mk('sym', 'converted', ctx.inst('must')))]
        if name == self.V.trait + '::' + self.V.m_type:
            r = self.V.astype(ctx.body.types, cal['a'][0])
            if r is not None:
                return [(st, r)]
        return None


MAYBE = OPT + '<' + RES + '<' + VAL


def family(C, K_):
    """functions that evaluate something where a type is expected"""
    skip = {b.id for b in K_.coerce + K_.rec} | K_.cyc
    out = []
    for b in C.lib():
        if b.kind in ('promoted', 'closure') or b.parent or b.id in skip:
            continue
        if b.ty(0)['s'].startswith((RES + '<' + VAL, MAYBE)) and any(b.ty(i)['s'] == '&' + TYPE for i in range(1, b.argc + 1)):
            out.append(b)
    return out


@prop('P20')
def p20(C):
    P = C.P
    C.rule('evaluation', 'a function that evaluates something where a type is expected returns a value coerced to that type, on every path')
    C.rule('use', 'where a value is converted without a way to fail, it was evaluated where a type was expected whose values all convert')
    C.rule('conversion', 'every value of the type a conversion stands for is converted, to the same value')
    C.rule('built-in', 'built-in functions convert each argument to the type that is declared for its parameter; their default values have that type')
    K_ = Types(C)
    V = Conv(C)
    C.floor('conversions', len(V.convs), 8)
    C.floor('conversions that cannot fail', len(V.must), 1)
    fam = family(C, K_)
    C.floor('functions that evaluate where a type is expected', len(fam), 4)
    evaluation(C, K_, V, fam)
    uses(C, K_, V, fam)
    conversions(C, K_, V)
    builtin(C, K_, V)


def explore(C, b, cl):
    I = ai.Interp(C.P, cl, 600000)
    I.CAP = 300
    cl.I = I
    args = [I.symarg(b, i + 1) for i in range(b.argc)]
    outs = I.run(b.id, args=args, st=ai.State(mon=()))
    C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
    C.lastI = I
    return I, args, outs


def evaluation(C, K_, V, fam):
    ids = {b.id for b in fam}
    for b in fam:
        cl = E(C, K_, V, ids, self_id=b.id)
        I, args, outs = explore(C, b, cl)
        n = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == '&' + TYPE][0]
        key = 'result of ' + b.name
        oks = 0
        for st, r in outs:
            h = top(I, st, args[n - 1])
            r = walk(I.canon(st, r))
            if r.t == 'adt' and r.a[0] == OPT and b.ty(0)['s'].startswith(MAYBE):
                if r.a[1] == 0:
                    continue
                r = walk(r.a[2][0])
            if r.t == 'adt' and r.a[0] == RES:
                if r.a[1] == 1:
                    continue
                oks += 1
                w = walk(r.a[2][0])
                C.ob('evaluation', key, accepts(K_, I, st, h, w), 'the result is not coerced to the type that is expected: ' + show(w), b.name)
            else:
                oks += 1
                C.ob('evaluation', key, False, 'the result is not coerced to the type that is expected: ' + show(r), b.name)
        C.ob('evaluation', key + ' seen', oks > 0, 'no result was found')


def must_calls(P, V, b):
    for i, cal, args, dest, span in P.calls(b):
        if cal.get('rid') in V.must or cal.get('id') in V.must:
            yield i, cal


def uses(C, K_, V, fam):
    P = C.P
    ids = {b.id for b in fam}
    roots = {}
    for b in C.lib():
        n = len(list(must_calls(P, V, b)))
        if n and b.id not in V.must:
            o = C.owner(b)
            roots[o.id] = roots.get(o.id, 0) + n
    many = max(roots.values(), default=0)
    sites = 0
    for id, n in sorted(roots.items()):
        if n >= 20:
            continue         # the built-in functions
        b = P.bodies[id]
        cl = E(C, K_, V, ids, self_id=id)
        I, args, outs = explore(C, b, cl)
        for ctx, cal, ty, w, st in cl.sites:
            t = V.astype(ctx.body.types, ty) if ty is not None else None
            key = '%s to %s' % (b.name, ctx.body.types[ty]['s'])
            r = root(w)
            if 'cbarg' in (r.t,) + r.a[:1]:
                C.count('conversions of parts of collections, not analysed')
                continue
            sites += 1
            C.ob('use', key, t is not None and accepts(K_, I, st, t, w), 'a value of this type is needed, but the value was not evaluated as one: ' + show(w), b.name)
    C.floor('conversions of evaluated values', sites, 8)


def root(t):
    t = walk(t)
    while t.t in ('fld', 'as', 'idx', 'upd'):
        t = walk(t.a[0])
    return t


def conversions(C, K_, V):
    """every value of the type is converted"""
    P = C.P
    for b in V.convs:
        t = V.astype(b.types, b.raw['self'])
        me = b.types[b.raw['self']]['s']
        inner = mk('app', 'as_type', 'T')
        if t is None:
            t = mk('adt', TYPE, names_of(P, TYPE).index('Optional'), (inner,))
        for k in KINDS:
            class Q(K):
                def each(s, I, st, ctx, blocks=None):
                    pass

                def inline(s, I, x):
                    return x.id in conv or K.inline(s, I, x)

                def call(s, I, st, ctx, name, args, cal):
                    if name == V.trait + '::' + V.m_conv and (not cal.get('a') or ctx.body.types[cal['a'][0]]['k'] == PARAMS):
                        v = walk(I.canon(st, args[0]))
                        out = []
                        for q, r in I.split_bool(st, mk('app', 'accepts', inner, v)):
                            out.append((q, mk('adt', RES, 0, (mk('app', 'conversion', v),)) if r else mk('adt', RES, 1, (mk('tup', ()),))))
                        return out
                    return None
            conv = {x.id for x in V.convs}
            cl = Q(C)
            I, args, outs = go(C, b, cl, {1: vspec(k)}, k)
            key = '%s to %s' % (k, me)
            n = 0
            for st, r in outs:
                r = walk(I.canon(st, r))
                v = top(I, st, args[0])
                exp = expected(vname(P, t), k) if t.t == 'adt' else 1
                if r.t == 'app' and r.a[0] in ('collect_try', 'collect', 'sum'):
                    n += 1
                    continue
                if r.t != 'adt' or r.a[0] != RES:
                    C.ob('conversion', key, exp == 0, 'the result is ' + show(r))
                    continue
                n += 1
                if exp == 0:
                    continue
                if r.a[1] == 1:
                    els = [(x, ival(f)) for x, f in st.facts.items() if x.t == 'app' and x.a[0] == 'accepts']
                    ok = exp in ('inner', 'each') and (any(f == 0 and (walk(x.a[2]) is v if exp == 'inner' else el_of(I, x.a[2], v)) for x, f in els) or exp == 'each' and any(x.t == 'app' and x.a[0] == 'collect_err' for x in subterms(r)))
                    C.ob('conversion', key, ok, 'a value of the type is not converted')
                else:
                    w = walk(r.a[2][0])
                    if t.t == 'adt' and vname(P, t) == 'Optional':
                        ok = w.t == 'adt' and w.a[0] == OPT and ((w.a[1] == 0) == (k == 'HTML/Empty'))
                        if ok and w.a[1] == 1:
                            x = walk(w.a[2][0])
                            ok = x.t == 'app' and x.a[0] == 'conversion' and same(st, x.a[1], v)
                    elif t.t == 'adt' and vname(P, t) in ('List', 'Dict') and V.trait and generic_impl(b):
                        ok = w.t in ('lv', 'jn') or w.t == 'adt' or w.t == 'app' and w.a[0] in ('collect', 'push', 'insert', 'default', 'ok_of', 'collect_ok') or w.t == 'default'
                    elif vname(P, t) == 'Html':
                        ok = k.startswith('HTML') and w is walk(v.a[2][0]) or k == 'Str'
                    else:
                        ok = w is v or v.t == 'adt' and w is walk(v.a[2][0])
                    C.ob('conversion', key, ok, 'the value changes when it is converted: ' + show(w))
            C.ob('conversion', key + ' seen', n > 0, 'no outcome was found')


def generic_impl(b):
    return bool(b.raw.get('generics')) or any(x['k'] == PARAMS for x in b.types) and b.types[b.raw['self']]['s'].find('<T') >= 0 or ', T,' in b.types[b.raw['self']]['s']


def builtin(C, K_, V):
    P = C.P
    from rules.args import shapes
    s = shapes(C)
    C.floor('structure for parameters', s.param is not None, 1)
    if s.param is None:
        return
    fields = P.adts[s.param]['variants'][0]['fields']
    T_ = P.types['papyri_lang']
    ti = [i for i, f in enumerate(fields) if T_[f[1]]['s'] == TYPE][0]
    di = [i for i, f in enumerate(fields) if T_[f[1]]['s'].startswith(OPT) and VAL in T_[f[1]]['s']][0]
    ni = [i for i, f in enumerate(fields) if T_[f[1]]['s'].endswith('NameID')][0]
    fam = family(C, K_)
    ids = {b.id for b in fam}
    params = []

    class N(E):
        def agg(s2, I, st, ctx, path, variant, ops):
            if path == FUNC and len(ops) >= 3:
                s2.funcs.append((st.copy(), [I.canon(st, o) for o in ops]))
    # where parameters are made
    declared = {}
    lib = {b.id for b in C.lib()}
    makers = {C.owner(P.bodies[x]).id for x in constructors(C, s.param) if x in lib}
    funcs = {C.owner(P.bodies[x]).id for x in constructors(C, FUNC) if x in lib}
    nat = 0
    for id in sorted(funcs):
        b = P.bodies[id]
        if b.argc:
            continue
        cl = N(C, K_, V, ids, self_id=id)
        cl.funcs = []
        I, args, outs = explore(C, b, cl)
        for st, ops in cl.funcs:
            fs = [o for o in ops if walk(o).t == 'adt' and walk(o).a[0].startswith('compiler::native')]
            ps = [x for o in ops for x in subterms(o) if x.t == 'adt' and x.a[0] == s.param]
            if not fs:
                continue
            nat += 1
            d = declared.setdefault(walk(fs[0]), {})
            for x in ps:
                d[raw_of(x.a[2][ni])] = x.a[2][ti]
                dv = walk(x.a[2][di])
                if dv.t == 'adt' and dv.a[1] == 1:
                    C.ob('built-in', 'default of a parameter of %s' % show(walk(fs[0])), accepts(K_, I, st, x.a[2][ti], strip(dv.a[2][0])), 'the default value does not have the type of its parameter: ' + show(dv))
                elif dv.t != 'adt':
                    C.ob('built-in', 'default of a parameter of %s' % show(walk(fs[0])), False, 'the default value is not known: ' + show(dv))
    C.floor('built-in functions', nat, 20)
    # user-defined functions
    for id in sorted(makers - funcs):
        b = P.bodies[id]
        if not any(x in b.ty(i)['s'] for i in range(1, b.argc + 1) for x in ('ast::',)):
            continue

        class M(E):
            def agg(s2, I, st, ctx, path, variant, ops):
                if path == s.param:
                    s2.ps.append((st.copy(), [I.canon(st, o) for o in ops]))
        cl = M(C, K_, V, ids, self_id=id)
        cl.ps = []
        I, args, outs = explore(C, b, cl)
        for st, ops in cl.ps:
            dv = walk(ops[di])
            key = 'default of a parameter, in ' + b.name
            if dv.t != 'adt' or dv.a[0] != OPT:
                C.ob('built-in', key, False, 'the default value is not known: ' + show(dv))
            elif dv.a[1] == 1:
                w = strip(dv.a[2][0])
                ok = accepts(K_, I, st, ops[ti], w) or w.t == 'adt' and unit(P, w) and poss_kind(P, st, ops[ti], TYPE) <= {'Any', 'Html', 'Block', 'Inline', 'Unit', 'Optional'}
                C.ob('built-in', key, ok, 'the default value does not have the type of its parameter: %s as %s' % (show(w), show(ops[ti])))
        C.floor('parameters made in ' + b.name, len(cl.ps), 1)
    # and what the built-in functions make of their arguments
    seen = 0
    for b in C.lib():
        if b.id in V.must or len(list(must_calls(P, V, b))) < 20:
            continue
        cl = E(C, K_, V, ids, self_id=b.id)
        I, args, outs = explore(C, b, cl)
        for ctx, cal, ty, w, st in cl.sites:
            if w.t != 'idx' or root(w).t not in ('arg', 'app'):
                C.ob('built-in', 'argument in ' + b.name, w.t != 'idx' and accepts(K_, I, st, V.astype(ctx.body.types, ty), w), 'a value is converted that is no argument: ' + show(w))
                continue
            f = None
            for k, d in declared.items():
                if here(P, I, st, args, b, k):
                    f = k
            key = 'argument of %s' % (show(f) if f is not None else 'an unknown function')
            raw = raw_of(w.a[1])
            dt = declared.get(f, {}).get(raw) if f is not None else None
            t = V.astype(ctx.body.types, ty)
            seen += 1
            C.ob('built-in', key, dt is not None and t is not None and weaker(K_, st, t, dt), 'it is converted to %s, but declared as %s' % (ctx.body.types[ty]['s'], show(dt) if dt is not None else 'nothing'))
    C.floor('arguments of built-in functions', seen, 40)


FUNC = 'compiler::func::Func'


def unit(P, w):
    return vname(P, w) == 'HTML' and walk(w.a[2][0]).t == 'adt' and vname(P, walk(w.a[2][0])) == 'Empty'


def strip(t):
    t = walk(t)
    while t.t == 'box':
        t = walk(t.a[0])
    return t


def raw_of(t):
    xs = {x.a[0] for x in subterms(t) if x.t == 'i'} if isinstance(t, T) else set()
    return xs.pop() if len(xs) == 1 else None


def here(P, I, st, args, b, f):
    """on this path, the function called is f"""
    for i, a in enumerate(args):
        if b.ty(i + 1)['s'] == f.a[0]:
            return match_variant(P, I, st, walk(I.canon(st, a)), f)
    return False


def match_variant(P, I, st, a, f):
    if a.t == 'adt':
        return a.a[1] == f.a[1]
    if poss_kind(P, st, a, f.a[0]) != {vname(P, f)}:
        return False
    for i, x in enumerate(f.a[2]):
        x = walk(x)
        if x.t == 'adt':
            v = P.adts[f.a[0]]['variants'][f.a[1]]
            y = I.project(mk('as', a, f.a[1], f.a[0]), ('f', i, v['fields'][i][0], f.a[0], None))
            if not match_variant(P, I, st, walk(I.canon(st, y)), x):
                return False
    return True
