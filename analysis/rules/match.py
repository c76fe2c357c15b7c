"""Pattern matching: branch selection, and what each kind of pattern accepts and binds."""
from rules import prop
from rulelib import *
from rules.scope import shapes, Opaque, current_of, frame_agg, touches_field, explore_with

MP = 'parser::ast::MatchPattern'
VAL = 'compiler::value::Value'


def functions(C):
    """(entry functions taking a match expression, the recursive pattern binder, helpers between binder calls)"""
    P = C.P
    cg = {}
    for a, ss in P.call_graph().items():
        oa = C.owner(P.bodies[a]).id
        cg.setdefault(oa, set()).update(C.owner(P.bodies[s]).id for s in ss if s in P.bodies)
    takes = [b for b in C.lib() if not b.parent and b.kind != 'promoted' and b.locals[0] and b.ty(0)['s'] == 'bool' and b.argc >= 3
             and any(b.ty(i)['s'].endswith('&' + MP) for i in range(1, b.argc + 1))
             and any(b.ty(i)['s'] in (VAL, '&' + VAL) for i in range(1, b.argc + 1))]

    def down(f, skip=()):
        out, work = set(), [f]
        while work:
            x = work.pop()
            for y in cg.get(x, ()):
                if y not in out and y not in skip:
                    out.add(y)
                    work.append(y)
        return out
    binders = [b for b in takes if b.id in down(b.id)]
    entry = [b for b in C.lib() if not b.parent and any('&parser::ast::Match' == b.ty(i)['s'] for i in range(1, b.argc + 1))]
    if len(binders) > 1:
        first = [b for b in binders if any(b.id in cg.get(e.id, ()) for e in entry)]
        binders = first or binders
    helpers = set()
    if binders:
        b0 = binders[0].id
        callers = {f for f, ss in cg.items() if b0 in ss}
        evals = {e.id for e in entry}
        fwd = down(b0, {b0} | evals)
        work = [f for f in callers if f in fwd]
        while work:
            f = work.pop()
            if f in helpers or f == b0 or f in evals or P.bodies[f].locals and any('ast::Expr' in P.bodies[f].ty(i)['s'] for i in range(1, P.bodies[f].argc + 1)):
                continue
            helpers.add(f)
            # callers of helpers that are themselves only between
            work += [g for g, ss in cg.items() if f in ss and g in fwd and any(MP in P.bodies[g].ty(i)['s'] or 'MatchPattern' in P.bodies[g].ty(i)['s'] for i in range(1, P.bodies[g].argc + 1))]
    return entry, (binders[0] if binders else None), helpers


def access(t):
    """(root, steps) of a place-like term, pointers ignored"""
    steps = []
    while True:
        if t.t in ('deref', 'box'):
            t = t.a[0]
        elif t.t == 'hv':
            t = t.a[1]
        elif t.t == 'fld':
            steps.append(t.a[1])
            t = t.a[0]
        elif t.t == 'as':
            steps.append(('@', ai.terms.VNAMES(t.a[2], t.a[1]) or t.a[1]))
            t = t.a[0]
        elif t.t == 'idx':
            steps.append(('x', t.a[1]))
            t = t.a[0]
        elif t.t == 'ref':
            for e in reversed(t.a[1]):
                steps.append(e[1] if e[0] == 'f' else ('@', ai.terms.VNAMES(e[2], e[1]) or e[1]) if e[0] == 'd' else ('x', e[1]))
            if t.a[0][0] == '*':
                t = t.a[0][1]
            else:
                return t, tuple(reversed(steps))
        else:
            return t, tuple(reversed(steps))


class M(Opaque):
    """events of one pattern, in order of first (last) occurrence"""
    def __init__(self, C, frame, binder, helpers):
        Opaque.__init__(self, C.P)
        self.C, self.framef, self.binder, self.helpers = C, frame, binder, helpers
        P = C.P
        self.pure = {}
        for b in C.lib():
            if b.parent or b.kind == 'promoted' or b.argc < 1:
                continue
            tys = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
            ret = b.ty(0)['s']
            if b.argc == 2 and tys[0] == '&parser::types::Type' and tys[1] in (VAL, '&' + VAL) and ret == 'bool':
                self.pure[b.id] = 'check'
            elif b.argc == 1 and tys[0] == '&' + VAL and ret == 'parser::types::Type':
                self.pure[b.id] = 'type of'
            elif b.argc == 2 and b.name.endswith('PartialEq>::eq') and ret == 'bool' and tys[0] == '&' + VAL:
                self.pure[b.id] = 'eq'
            elif 'From<compiler::html::HTML>' in b.name or 'From<&compiler::html::HTML>' in b.name:
                self.pure[b.id] = 'value of'
            elif b.name.endswith('from_iter') and ret == HTML:
                self.pure[b.id] = 'made of'
        self.expr = {b.id for b in C.lib() if not b.parent and any('&parser::ast::Expr' == b.ty(i)['s'] for i in range(1, b.argc + 1))
                     and 'Compiler' in b.ty(1)['s']}
        self.stops = self.expr | {binder.id} | self.quiet

    def inline(self, I, b):
        if b.id in self.pure or b.id in self.expr:
            return False
        if b.id in self.helpers:
            return True
        return Opaque.inline(self, I, b)

    def note(self, st, ev):
        st.mon = tuple(q for q in st.mon if q != ev) + (ev,)

    def both(self, st, ev):
        out = []
        for v in (1, 0):
            s = st.copy()
            self.note(s, ev + (v,))
            out.append((s, mk('i', v)))
        return out

    def opaque(self, I, st, ctx, b, args):
        a = [I.canon(st, x) for x in args]
        if b.id == self.binder.id:
            pi = [i for i in range(1, b.argc + 1) if b.ty(i)['s'].endswith(MP)][0] - 1
            vi = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] in (VAL, '&' + VAL)][0] - 1
            return self.both(st, ('sub', a[pi], a[vi]))
        k = self.pure.get(b.id)
        if k in ('check', 'eq'):
            return self.both(st, (k, a[0], a[1]))
        if k == 'made of':
            import models
            return [(st, mk('app', k, models.iter_term(I, st, args[0])))]
        if k:
            return [(st, mk('app', k, a[0]))]
        if b.id in self.expr:
            i = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == '&parser::ast::Expr'][0] - 1
            self.note(st, ('eval', a[i]))
            return None
        return None

    def call(self, I, st, ctx, name, args, cal):
        if not args:
            return None
        short = name.rsplit('::', 1)[-1]
        if short in ('iter', 'into_iter'):
            # a walk over the names of an alternative, between the parts of the pattern
            a = access(I.canon(st, args[0]) if args[0].t != 'ref' else args[0])
            if a[1][-2:] == (('@', 'Or'), 1):
                self.note(st, ('walk', a[0], sum(1 for e in st.mon if e[0] == 'sub')))
        if name.startswith('indexmap::') and short in ('get', 'contains_key', 'get_full') and len(args) > 1 and not has_field(args[0], self.framef[0], self.framef[2]):
            key, d = I.canon(st, args[1]), I.canon(st, args[0])
            out = []
            for s, r in I.call_ext(st, ctx, name, args, cal):
                for s2, v in (I.split_bool(s, r) if short == 'contains_key' else I.split(s, r, OPT)):
                    if not v:
                        self.note(s2, ('miss', d, key))
                    out.append((s2, mk('i', int(bool(v))) if short == 'contains_key' else r))
            return out
        if name.startswith('indexmap::') and has_field(args[0], self.framef[0], self.framef[2]):
            key = I.canon(st, args[1]) if len(args) > 1 else UNIT
            if short in ('insert', 'insert_full', 'entry'):
                self.note(st, ('bind', key, I.canon(st, args[2]) if len(args) > 2 else UNIT))
            elif short in ('remove', 'shift_remove', 'swap_remove'):
                self.note(st, ('unbind', key))
            elif short in ('contains_key', 'get'):
                out = []
                for s, r in I.call_ext(st, ctx, name, args, cal):
                    for s2, v in (I.split_bool(s, r) if short == 'contains_key' else I.split(s, r, OPT)):
                        self.note(s2, ('has', key, int(bool(v))))
                        out.append((s2, r if short == 'get' else mk('i', int(bool(v)))))
                return out
        return None


def variant_run(C, frame, binder, helpers, vi):
    P = C.P
    v = P.adts[MP]['variants'][vi]
    m = M(C, frame, binder, helpers)
    I = ai.Interp(P, m, 1500000)
    I.CAP = 2000
    m.I = I
    args = [I.symarg(binder, i + 1) for i in range(binder.argc)]
    pi = [i for i in range(1, binder.argc + 1) if binder.ty(i)['s'].endswith(MP)][0] - 1
    root, path = I.deref(args[pi])
    st = ai.State(mon=())
    base = I.rd(st, root, path)
    val = mk('adt', MP, vi, tuple(I.project(mk('as', base, vi, MP), ('f', k, f[0], MP, None)) for k, f in enumerate(v['fields'])))
    I.wr(st, root, path, val)
    outs = I.run(binder.id, args=args, st=st)
    C.explored.append((binder.name + ' ' + v['name'], len(outs), I.steps, len(I.visited)))
    return I, args, outs


# ---------------------------------------------------------------- positions in sequences
def lin(t):
    """linear normal form of an integer term: {atom: coefficient} with constants under 1"""
    out = {}

    def go(t, k):
        while t.t in ('deref', 'box') or t.t == 'hv':
            t = t.a[1] if t.t == 'hv' else t.a[0]
        if t.t == 'i':
            out[1] = out.get(1, 0) + k * t.a[0]
        elif t.t == 'add' or t.t == 'app' and t.a[0] in ('add',):
            x, y = t.a[-2:]
            go(x, k)
            go(y, k)
        elif t.t == 'sub' or t.t == 'app' and t.a[0] in ('sub',):
            x, y = t.a[-2:]
            go(x, k)
            go(y, -k)
        elif t.t == 'app' and t.a[0] in ('index',) and t.a[1].t == 'el':
            out[elkey(t.a[1])] = out.get(elkey(t.a[1]), 0) + k
        elif t.t == 'len' or t.t == 'app' and t.a[0] == 'len':
            seqlen(t.a[-1], k)
        elif t.t == 'el':
            a = elkey(t)
            out[a] = out.get(a, 0) + k
        elif t.t in ('as', 'fld', 'arg', 'idx', 'ref'):
            a = access(t)
            out[a] = out.get(a, 0) + k
        else:
            out[t] = out.get(t, 0) + k

    def seqlen(s, k):
        while s.t in ('deref', 'box') or s.t == 'hv':
            s = s.a[1] if s.t == 'hv' else s.a[0]
        if s.t == 'arr':
            out[1] = out.get(1, 0) + k * len(s.a[0])
            return
        if s.t == 'ref' and s.a[0][0] == 'const' and s.a[0][1].t == 'arr':
            out[1] = out.get(1, 0) + k * len(s.a[0][1].a[0])
            return
        if s.t == 'app' and s.a[0].endswith('from_ref'):
            out[1] = out.get(1, 0) + k
            return
        if s.t == 'app' and s.a[0] == 'subslice':
            lo, hi = bounds(s.a[2])
            if hi is None:
                seqlen(s.a[1], k)
            else:
                go(hi, k)
            if lo is not None:
                go(lo, -k)
            return
        a = ('len', access(s))
        out[a] = out.get(a, 0) + k
    go(t, 1)
    return {a: c for a, c in out.items() if c}


def bounds(r):
    """(low, high) of a range value; None where open"""
    if r.t == 'adt':
        n = r.a[0].rsplit('::', 1)[-1]
        f = r.a[2]
        if n == 'Range':
            return f[0], f[1]
        if n == 'RangeFrom':
            return f[0], None
        if n == 'RangeTo':
            return None, f[0]
        if n == 'RangeFull':
            return None, None
    return None, None


def elkey(el):
    fid, bb, tag = el.a
    while isinstance(tag, tuple) and (len(tag) == 2 and tag[1] in ('a', 'b', 'ix') or len(tag) == 4 and tag[1] == 'r'):
        tag = tag[0]
    return ('k', fid, bb, tag)


PLAIN = {'map', 'cloned', 'copied', 'enumerate', 'inspect', 'peekable', 'fuse'}


def add(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
    return {x: c for x, c in out.items() if c}


def position(I, t):
    """(sequence, linear position) an element term designates; None when it cannot be told"""
    while t.t in ('deref', 'box', 'hv') or t.t == 'app' and t.a[0] == 'value of' or t.t == 'adt' and len(t.a[2]) == 1 and t.a[0] == VAL:
        t = t.a[1] if t.t in ('hv', 'app') else t.a[2][0] if t.t == 'adt' else t.a[0]
    if t.t == 'app' and t.a[0] == 'elem':
        seq, el = t.a[1], t.a[2]
    elif t.t == 'idx':
        seq, el = t.a
    else:
        return None
    pos = lin(el)
    for e in [x for x in subterms(el) if x.t == 'el']:
        its = I.iters.get(e, ())
        if len(its) > 1:
            its = {(b[0], tuple(o[0] for o in ops), tuple(o[1] for o in ops if o[0] == 'skip'), b[1:] if b[0] == 'range' else None) for b, ops in its}
            if len(its) > 1:
                return None
            kind, names_, skips, rng = next(iter(its))
        elif its:
            b, ops = next(iter(its))
            kind, names_, skips, rng = b[0], tuple(o[0] for o in ops), tuple(o[1] for o in ops if o[0] == 'skip'), b[1:] if b[0] == 'range' else None
        else:
            return None
        if any(n not in PLAIN and n != 'skip' for n in names_):
            return None
        for s in skips:
            pos = add(pos, lin(s))
        if kind == 'range' and rng is not None and ('k' == elkey(e)[0]):
            pos = add(pos, lin(rng[0]))
    while True:
        while seq.t in ('deref', 'box', 'hv'):
            seq = seq.a[1] if seq.t == 'hv' else seq.a[0]
        if seq.t == 'app' and seq.a[0] == 'subslice':
            lo, hi = bounds(seq.a[2])
            if lo is not None:
                pos = add(pos, lin(lo))
            seq = seq.a[1]
            continue
        break
    return seq, pos


def facts_about(st):
    return [(k, v) for k, v in st.facts.items() if k.t != 'iv']


def poss(P, st, term, path):
    """variant names of `term` still possible"""
    names_ = [v['name'] for v in P.adts[path]['variants']]
    ds = {I_discr(P, path, i): n for i, n in enumerate(names_)}
    f = None
    for k, v in st.facts.items():
        if k.t == 'disc' and access(k.a[0]) == access(term):
            f = v
    if f is None:
        return set(names_)
    if f[0] == '=':
        c = f[1].a[0] if isinstance(f[1], T) else f[1]
        return {ds[c]} if c in ds else set(names_)
    if f[0] == '!':
        ex = {x.a[0] if isinstance(x, T) else x for x in f[1]}
        return {n for c, n in ds.items() if c not in ex}
    return set(names_)


def I_discr(P, path, i):
    d = P.adts[path]['variants'][i]['discr']
    return d if d is not None else i


def linfacts(st):
    """[(kind, linear form of a-b, truth)] for the comparisons known on this path"""
    out = []
    for k, v in st.facts.items():
        if v[0] != '=':
            continue
        c = v[1].a[0] if isinstance(v[1], T) and v[1].t == 'i' else v[1]
        if k.t in ('eq', 'lt') and isinstance(k.a[0], T):
            out.append((k.t, add(lin(k.a[0]), lin(k.a[1]), -1), c))
        elif not isinstance(c, T) and k.t not in ('disc', 'eq', 'lt', 'has', 'not'):
            out.append(('eq', add(lin(k), {1: c} if c else {}, -1), 1))
    # a known to differ from constants
        elif False:
            pass
    for k, v in st.facts.items():
        if v[0] == '!' and k.t in ('app', 'len', 'sub', 'add', 'fld'):
            for x in v[1]:
                c = x.a[0] if isinstance(x, T) else x
                if isinstance(c, int):
                    out.append(('eq', add(lin(k), {1: c} if c else {}, -1), 0))
    return out


def neg(d):
    return {k: -c for k, c in d.items()}


def has_eq(st, d, truth):
    return any(k == 'eq' and c == truth and (f == d or f == neg(d)) for k, f, c in linfacts(st)) or (not d and truth == 1) or (set(d) == {1} and truth == 0)


def has_lt(st, d, truth):
    """d < 0 known with the given truth (as lt, or the equivalent comparison with a unit shift)"""
    for k, f, c in linfacts(st):
        if k != 'lt':
            continue
        if f == d and c == truth:
            return True
        # d < 0  <=>  not (-d - 1 < 0) on integers
        if f == add(neg(d), {1: -1}) and c == 1 - truth:
            return True
    if set(d) <= {1}:
        return (d.get(1, 0) < 0) == bool(truth)
    return False


@prop('P16')
def p16(C):
    """Branch selection by typestate; each kind of pattern against its definition, path by path."""
    P = C.P
    stack, frame = shapes(C)
    entry, binder, helpers = functions(C)
    entry = [e for e in entry if binder is not None and 'fmt' not in e.name]
    C.floor('match evaluator', len(entry), 1)
    C.floor('pattern binder', 1 if binder else 0, 1)
    if not (entry and binder and stack and frame):
        return
    C.rule('branches', 'branches are tried in order, each in a fresh child of the current scope; the handler of the first matching branch is the result')
    C.rule('no branch', 'when no branch matches, the result is an error')
    C.rule('accepts', 'a pattern matches only if every part of it matches the corresponding part of the value')
    C.rule('rejects', 'a pattern is rejected only because a part does not match or the shape of the value differs')
    C.rule('binds', 'a pattern binds exactly the names written in it, to the parts of the value they stand for')
    C.rule('alternatives', 'names of alternatives that did not match are unset, and set to nothing if the other alternative does not bind them')
    C.rule('names', 'the names an alternative may bind are all names in it')
    branches(C, entry, binder, stack, frame)
    n = 0
    for vi, v in enumerate(P.adts[MP]['variants']):
        n += 1
        kind(C, frame, binder, helpers, vi, v)
    C.floor('kinds of pattern', n, 5)
    name_sets(C)
    C.assumptions += ['sub-patterns satisfy the property themselves (induction over the pattern)', 'the regular expression crate implements matching']


def under(t, root):
    r, steps = access(t)
    return steps if r is root else None


def kind(C, frame, binder, helpers, vi, v):
    P = C.P
    name = v['name']
    I, args, outs = variant_run(C, frame, binder, helpers, vi)
    pi = [i for i in range(1, binder.argc + 1) if binder.ty(i)['s'].endswith(MP)][0] - 1
    wi = [i for i in range(1, binder.argc + 1) if binder.ty(i)['s'] in (VAL, '&' + VAL)][0] - 1
    pat, value = args[pi], args[wi]
    while value.t in ('ref', 'deref'):
        value = value.a[0]
    vroot = value
    fields = [f[0] for f in v['fields']]
    T_ = P.types['papyri_lang']
    key = 'pattern ' + name

    def st_of(t):
        """steps below this pattern's variant"""
        s = under(t, pat)
        return s[1:] if s is not None and s and s[0] == ('@', name) else s

    def is_value(t):
        return under(t, vroot) == ()
    accepted = rejected = rests = 0
    seen_sub = seen_bind = False
    for st, r in outs:
        r = I.canon(st, r)
        ev = st.mon
        subs = [e for e in ev if e[0] == 'sub']
        binds = [e for e in ev if e[0] == 'bind']
        seen_sub |= bool(subs)
        seen_bind |= bool(binds)
        if r.t != 'i':
            c = None
            for k, f in st.facts.items():
                if k is r and f[0] == '=':
                    c = f[1].a[0] if isinstance(f[1], T) else f[1]
            if c is None:
                C.ob('accepts', key, False, 'whether the pattern matches is decided by ' + show(r))
                continue
            ret = c
        else:
            ret = r.a[0]
        accepted += ret
        rejected += 1 - ret
        failed = [e for e in ev if e[0] in ('sub', 'check', 'eq') and e[-1] == 0]
        pv = poss(P, st, vroot, VAL)

        def acc(ok, why):
            C.ob('accepts', key, ok, why)

        def rej(ok, why='the pattern is rejected although nothing in it failed to match'):
            C.ob('rejects', key, ok, why)

        def no_binds():
            C.ob('binds', key, not binds, 'the pattern sets variables: ' + ', '.join(show(e[1]) for e in binds))
        if name != 'Or' and ret == 1:
            acc(not failed, 'the pattern matches although a part of it did not: ' + ', '.join(show(e[1]) for e in failed))
        if name == 'Ignore':
            no_binds()
            rej(ret == 1)
        elif name == 'VarName':
            rej(ret == 1)
            ok = len(binds) == 1 and st_of(binds[0][1]) is not None and is_value(binds[0][2])
            C.ob('binds', key, ok, 'the name is not bound to the value: ' + ', '.join('%s = %s' % (show(e[1]), show(e[2])) for e in binds))
        elif name == 'LiteralNone':
            no_binds()
            isunit = pv == {'HTML'} and poss(P, st, I.project(I.project(vroot, ('d', [x['name'] for x in P.adts[VAL]['variants']].index('HTML'), VAL)), ('f', 0, '0', VAL, None)), HTML) == {'Empty'}
            if ret == 1:
                acc(isunit, 'a value other than nothing matches')
            else:
                rej(not isunit, 'the value nothing does not match')
        elif name in ('LiteralName',):
            no_binds()
            eqs = [(k, f) for k, f in facts_about(st) if k.t == 'eq' and any(under(x, vroot) for x in k.a) and any(under(y, pat) is not None for x in k.a for y in subterms(x) if y.t in ('fld', 'as', 'deref'))]
            t = [(f[1].a[0] if isinstance(f[1], T) else f[1]) for k, f in eqs]
            if ret == 1:
                acc(pv == {'Str'} and 1 in t, 'a value other than the text matches')
            else:
                rej('Str' not in pv or 0 in t)
        elif name == 'EqualsValue':
            no_binds()
            evals = [e for e in ev if e[0] == 'eval']
            eq = [e for e in ev if e[0] == 'eq']
            ok = len(evals) == 1 and st_of(evals[0][1]) == (0,)
            acc(ok, 'the expression of the pattern is not what is evaluated')
            good = [e for e in eq if {is_value(e[1]), is_value(e[2])} == {True, False}]
            if ret == 1:
                acc(len(good) == 1 and good[0][-1] == 1 and len(eq) == 1, 'the pattern matches without the value being equal to it')
            else:
                bad = any(k.t == 'disc' and f[0] == '=' and (f[1].a[0] if isinstance(f[1], T) else f[1]) == 1 for k, f in facts_about(st) if k.t == 'disc' and k.a[0].t == 'sym')
                rej(any(e[-1] == 0 for e in good) or bad and not eq)
        elif name == 'Typed':
            no_binds()
            ch = [e for e in ev if e[0] == 'check']
            ok = len(ch) == 1 and st_of(ch[0][1]) is not None and is_value(ch[0][2])
            acc(ok, 'the type of the pattern is not checked against the value')
            if ok:
                acc(ch[0][-1] == ret, 'the result differs from that of the type check')
        elif name == 'TypeOf':
            rej(ret == 1)
            ok = len(binds) == 1 and st_of(binds[0][1]) is not None and any(x.t == 'app' and x.a[0] == 'type of' and is_value(x.a[1]) for x in subterms(binds[0][2]))
            C.ob('binds', key, ok, 'the name is not bound to the type of the value')
        elif name in ('And', 'Or'):
            no = [e for e in subs if not is_value(e[2]) or st_of(e[1]) not in ((0, 0), (0, 1))]
            acc(not no, 'something else is matched: ' + ', '.join('%s with %s' % (show(e[1]), show(e[2])) for e in no))
            res = {st_of(e[1]): e[-1] for e in subs if not no}
            if name == 'And':
                no_binds()
                want = res.get((0, 0)) == 1 and res.get((0, 1)) == 1
                if ret == 1:
                    acc(want, 'the pattern matches although only one side was found to match')
                else:
                    rej(0 in res.values())
                order = [st_of(e[1]) for e in subs]
                C.ob('binds', key + ' order', order != [(0, 1), (0, 0)], 'the right side is matched before the left')
            else:
                want = 1 in res.values()
                if ret == 1:
                    acc(want, 'neither side was found to match')
                else:
                    rej(set(res) == {(0, 0), (0, 1)} and not want, 'the pattern is rejected without trying both sides')
                order = [st_of(e[1]) for e in subs]
                C.ob('binds', key + ' order', not order or order[0] == (0, 0), 'the right side is tried first')
                walks = {e[2] for e in ev if e[0] == 'walk'}
                none = has_eq(st, {('len', (pat, (('@', name), 1))): 1}, 1)
                if ret == 1:
                    C.ob('alternatives', key + ' fill always', none or len(subs) in walks, 'the pattern matches and the names it did not bind are left unset')
                if order[1:] == [(0, 1)]:
                    C.ob('alternatives', key + ' unset always', none or 1 in walks, 'the second alternative is tried and the names bound by the first are left set')
                for e in binds:
                    s = st_of(e[1])
                    hs = [h for h in ev if h[0] == 'has' and h[1] is e[1]]
                    C.ob('alternatives', key, bool(s) and s[0] == 1 and is_unit(e[2]) and any(h[-1] == 0 for h in hs), 'a variable is set that an alternative may have bound: %s = %s' % (show(e[1]), show(e[2])))
        elif name in ('ExactList', 'SpreadList', 'ExactHTMLSeq', 'SpreadHTMLSeq'):
            no_binds()
            html = 'HTML' in name
            want_v = {'HTML', 'Str'} if html else {'List'}
            lists = [i for i, f in enumerate(v['fields']) if 'MatchPattern]' in T_[f[1]]['s'] or 'MatchPattern>' in T_[f[1]]['s']]
            idxs = [i for i, f in enumerate(v['fields']) if T_[f[1]]['s'] in ('u32', 'usize', 'u16', 'u64', 'u8')]
            plist = ('len', (pat, (('@', name), lists[0])))
            # which sequence of values is used on this path, and how long it is
            vlen, vstart, vseqs = seq_shape(P, I, st, vroot, html)
            if ret == 1:
                acc(pv <= want_v, 'a value of another kind matches: ' + ', '.join(sorted(pv - want_v)))
            if not pv & want_v:
                rej(ret == 0 or True)
                continue
            if 'Exact' in name:
                d = add({plist: 1}, vlen, -1)
                if ret == 1:
                    acc(has_eq(st, d, 1), 'a sequence of another length than the pattern matches')
                elif not failed:
                    rej(has_eq(st, d, 0), 'a sequence as long as the pattern is rejected although no element failed to match')
                for e in subs:
                    a, b = position(I, e[1]), position(I, e[2])
                    ok = a is not None and b is not None and access(a[0])[0] is pat and in_seq(b[0], vroot, html) and add(a[1], add(b[1], vstart(b[0]), -1), -1) == {}
                    acc(ok, 'a pattern is not matched with the element in its place: %s with %s' % (show(e[1]), show(e[2])))
            else:
                ix = {(pat, (('@', name), idxs[0])): 1}
                d = add(add(vlen, {plist: 1}, -1), {1: 1})
                if ret == 1:
                    acc(has_lt(st, d, 0), 'a sequence shorter than the pattern matches')
                elif not failed:
                    rej(has_lt(st, d, 1), 'a sequence long enough for the pattern is rejected although no element failed to match')
                mid = False
                for e in subs:
                    a = idx_exact(e[1])
                    if a is not None and access(a[0])[0] is pat and lin(a[1]) == ix:
                        # the spread pattern: elements ix .. ix + (vlen - plen + 1)
                        mid = mid or e[-1] == 1
                        rng = part(I, e[2], vroot, html)
                        lo, hi = dict(ix), add(add(add(ix, vlen), {plist: 1}, -1), {1: 1})
                        ok = rng is not None and add(rng[0], vstart(None), -1) == lo and add(rng[1], vstart(None), -1) == hi
                        acc(ok, 'the spread pattern is not matched with the elements between the other patterns: %s' % show(e[2]))
                        continue
                    a, b = position(I, e[1]), position(I, e[2])
                    ok = a is not None and b is not None and access(a[0])[0] is pat and in_seq(b[0], vroot, html)
                    if ok:
                        diff = add(add(b[1], vstart(b[0]), -1), a[1], -1)
                        pre = diff == {}
                        post = diff == add(vlen, {plist: 1}, -1)
                        # elements before the spread have the positions of the list, those after it are counted from the end
                        ks = {x for x in a[1] if isinstance(x, tuple) and x and x[0] == 'k'}
                        off = {x: c for x, c in a[1].items() if x not in ks}
                        ok = post and off == add(ix, {1: 1}) or pre and off == {}
                    acc(ok, 'a pattern is not matched with the element in its place: %s with %s' % (show(e[1]), show(e[2])))
                if ret == 1:
                    acc(mid, 'the spread pattern is not matched')
        elif name == 'Dict':
            no_binds()
            if 'Dict' not in pv:
                C.ob('accepts', key, ret == 0, 'a value other than a dictionary matches')
                continue
            if ret == 1:
                acc(pv == {'Dict'}, 'a value other than a dictionary matches')
            attrs = spread = None
            for path, a in P.adts.items():
                if path.endswith('DictMatchPattern'):
                    attrs, spread = [f[0] for f in a['variants'][0]['fields'] if 'IndexMap' in T_[f[1]]['s']], [f[0] for f in a['variants'][0]['fields'] if 'Option' in T_[f[1]]['s']]
                    dpath = path
            spr = None
            for k, f in facts_about(st):
                if k.t == 'disc' and f[0] == '=' and any(x.t == 'fld' and x.a[2] == dpath and x.a[3] in spread for x in [strip(k.a[0])]):
                    spr = f[1].a[0] if isinstance(f[1], T) else f[1]
            lens = [(f, c) for k, f, c in linfacts(st) if k == 'eq' and sorted(f.values()) == [-1, 1] and any(isinstance(x, tuple) and x[0] == 'len' and x[1][0] is vroot for x in f) and any(isinstance(x, tuple) and x[0] == 'len' and x[1][0] is pat for x in f)]
            if ret == 1 and spr == 0:
                acc(any(c == 1 for f, c in lens), 'without a spread, a dictionary with other keys matches')
            if ret == 1:
                acc(spr is not None, 'the pattern matches without regard to a spread')
            if ret == 1:
                acc(not any(e[0] == 'miss' and under(e[1], vroot) is not None for e in ev), 'a dictionary matches that lacks a key of the pattern')
            if ret == 0 and not failed:
                miss = any(e[0] == 'miss' and under(e[1], vroot) is not None for e in ev) or any(k.t == 'app' and k.a[0] == 'has' and under(k.a[1], vroot) is not None and f[0] == '=' and (f[1].a[0] if isinstance(f[1], T) else f[1]) == 0 for k, f in facts_about(st))
                rej(miss or spr == 0 and any(c == 0 for f, c in lens), 'a dictionary is rejected that has the keys of the pattern')
            ig = False
            for k, f in facts_about(st):
                if k.t == 'disc' and f[0] == '=' and k.a[0].t in ('fld', 'as') and st_of(k.a[0]) is not None and ('@', 'Some') in st_of(k.a[0]):
                    ig = (f[1].a[0] if isinstance(f[1], T) else f[1]) == [I_discr(P, MP, i) for i, x in enumerate(P.adts[MP]['variants']) if x['name'] == 'Ignore'][0]
            sps = [e for e in subs if ('@', 'Some') in (st_of(e[1]) or ())]
            if ret == 1 and spr == 1 and not ig:
                acc(any(e[-1] == 1 for e in sps), 'the spread pattern is not matched')
            for e in subs:
                s = st_of(e[1])
                if e in sps:
                    if empty_made(e[2]):
                        continue   # before the first entry of a loop; the other paths are checked
                    rests += 1
                    acc(rest_of(C, I, st, e[2], vroot, pat, dpath, attrs), 'the spread pattern is not matched with the remaining entries: ' + show(e[2]))
                    continue
                p, q = strip(e[1]), strip(e[2])
                ok = p.t == 'fld' and p.a[3] == 'value' and q.t == 'idx' and under(q.a[0], vroot) is not None and q.a[1].t == 'fld' and q.a[1].a[3] == 'key' and q.a[1].a[0] is p.a[0]
                acc(ok, 'a pattern is not matched with the entry of its name: %s with %s' % (show(e[1]), show(e[2])))
        elif name == 'Tag':
            no_binds()
            istag = pv == {'HTML'} and any(k.t == 'disc' and under(k.a[0], vroot) and 'Tag' in poss(P, st, k.a[0], HTML) and len(poss(P, st, k.a[0], HTML)) == 1 for k, f in facts_about(st) if k.t == 'disc')
            if ret == 1:
                acc(istag, 'a value other than a tag matches')
                done = {last_field(e[1]) for e in subs if e[-1] == 1}
                need = {f[0] for p2, a in P.adts.items() if p2.endswith('TagMatchPattern') for f in a['variants'][0]['fields']}
                acc(need <= done, 'the pattern matches without looking at the ' + ', '.join(sorted(need - done)))
            elif not failed:
                rej(not istag)
            for e in subs:
                f = last_field(e[1])
                src = {x.a[3] for x in subterms(e[2]) if x.t == 'fld' and x.a[2] and x.a[2].endswith('tag::Tag')} | tagfields(P, I, e[2])
                want = {'name': 'name_id', 'attrs': 'attributes', 'content': 'content'}.get(f)
                if f == 'attrs' and empty_made(e[2]):
                    continue
                rests += f == 'attrs'
                acc(want is None or src == {want} or f == 'attrs' and not src and any(x.t in ('hv', 'lv', 'jn') for x in subterms(e[2])), 'the %s of the pattern is matched with the %s of the tag' % (f, ', '.join(sorted(src))))
        elif name == 'Regex':
            if 'Str' not in pv:
                C.ob('accepts', key, ret == 0, 'a value other than text matches')
                continue
            cap = None
            for k, f in facts_about(st):
                if k.t == 'disc' and k.a[0].t == 'app' and 'captures' in k.a[0].a[0] and f[0] == '=':
                    if under(k.a[0].a[2], vroot) is not None and any(under(x, pat) is not None for x in subterms(k.a[0].a[1]) if x.t in ('fld', 'deref')) or under(k.a[0].a[1], pat):
                        cap = f[1].a[0] if isinstance(f[1], T) else f[1]
            if ret == 1:
                acc(pv == {'Str'} and cap == 1, 'text matches that the pattern does not')
            else:
                rej(cap == 0)
            for e in binds:
                s = position(I, strip(e[1]).a[0] if strip(e[1]).t == 'fld' and strip(e[1]).a[3] == 'name_id' else e[1])
                k = group(I, e[2])
                ok = s is not None and access(s[0])[0] is pat and (is_unit(e[2]) or k is not None and add(k, s[1], -1) == {1: 1})
                C.ob('binds', key, ok, 'a name is not bound to the text it stands for: %s = %s' % (show(e[1]), show(e[2])))
        else:
            C.ob('accepts', key, not subs or ret == (0 if failed else 1), 'a kind of pattern the analysis does not know')
    C.ob('accepts', key + ' possible', accepted > 0, 'the pattern never matches')
    if name in ('Ignore', 'VarName', 'TypeOf'):
        pass
    else:
        C.ob('rejects', key + ' possible', rejected > 0, 'the pattern always matches')
    if name in ('Dict', 'Tag'):
        C.ob('accepts', key + ' entries', rests > 0, 'the %s is always matched with an empty dictionary' % ('spread pattern' if name == 'Dict' else 'pattern of the attributes'))
    if name in ('And', 'Or', 'ExactList', 'SpreadList', 'ExactHTMLSeq', 'SpreadHTMLSeq', 'Dict', 'Tag'):
        C.ob('accepts', key + ' parts', seen_sub, 'the parts of the pattern are not looked at')
    if name in ('VarName', 'TypeOf', 'Regex'):
        C.ob('binds', key + ' names', seen_bind, 'the names in the pattern are not bound')
    if name == 'Or':
        right_after_unset = fills = unset = 0
        for st, r in outs:
            ev = [e for e in st.mon]
            k = [e[0] for e in ev]
            fills += any(e[0] == 'bind' for e in ev)
            rights = [i for i, e in enumerate(ev) if e[0] == 'sub' and st_of(e[1]) == (0, 1)]
            if rights:
                unset += any(e[0] == 'unbind' and st_of(e[1]) and st_of(e[1])[0] == 1 for e in ev[:rights[0]])
        C.ob('alternatives', key + ' unset', unset > 0, 'names the first alternative bound before it failed stay bound while the second is tried')
        C.ob('alternatives', key + ' fill', fills > 0, 'names only the other alternative binds are not set')


def strip(t):
    while t.t in ('deref', 'box', 'hv'):
        t = t.a[1] if t.t == 'hv' else t.a[0]
    return t


def last_field(t):
    t = strip(t)
    return t.a[3] if t.t == 'fld' else None


def tagfields(P, I, t):
    """fields of a tag reached through iterators inside a collected value"""
    out = set()
    for x in subterms(t):
        if x.t == 'ref':
            for e in x.a[1]:
                if e[0] == 'f' and e[3] and e[3].endswith('tag::Tag'):
                    out.add(e[2])
    return out


def empty_made(t):
    while t.t == 'adt' and len(t.a[2]) == 1 or t.t in ('hv', 'box', 'deref') or t.t == 'app' and t.a[0] in ('Rc', 'from', 'into'):
        t = t.a[2][0] if t.t == 'adt' else t.a[1] if t.t in ('hv', 'app') else t.a[0]
    return t.t == 'app' and t.a[0] in ('default', 'new', 'with_capacity')


def is_unit(t):
    return t.t == 'adt' and t.a[0] == VAL and ai.terms.VNAMES(VAL, t.a[1]) == 'HTML' and t.a[2][0].t == 'adt' and ai.terms.VNAMES(HTML, t.a[2][0].a[1]) == 'Empty'


def idx_exact(t):
    t = strip(t)
    if t.t == 'idx' and not any(x.t == 'el' for x in subterms(t.a[1])):
        return t.a
    return None


def group(I, t):
    """number of the capture group whose text t is"""
    for x in subterms(t):
        if x.t == 'app' and x.a[0] == 'elem' and any(y.t == 'app' and 'captures' in y.a[0] for y in subterms(x.a[1])):
            p = position(I, x)
            return p[1] if p else None
        if x.t == 'app' and x.a[0].endswith('::get') and any(y.t == 'app' and 'captures' in y.a[0] for y in subterms(x.a[1])):
            return lin(x.a[2])
    return None


def slice_fields(P):
    """(adt, original, low, high) of the shared list slice type"""
    for p, a in P.adts.items():
        if p.endswith('SliceRef') and not a['enum']:
            T_ = P.types['papyri_lang']
            fs = [f for f in a['variants'][0]['fields'] if f[1] is not None]
            ints = [f[0] for f in fs if T_[f[1]]['s'] in ('usize', 'u32', 'u64')]
            seq = [f[0] for f in fs if T_[f[1]]['s'] not in ('usize', 'u32', 'u64')]
            if len(ints) == 2 and len(seq) == 1:
                return p, seq[0], ints[0], ints[1]
    return None


def seq_shape(P, I, st, vroot, html):
    """(length, function giving the offset of a sequence's first element, ...) of the elements of the value"""
    if not html:
        sf = slice_fields(P)
        li = [i for i, x in enumerate(P.adts[VAL]['variants']) if x['name'] == 'List'][0]
        base = (vroot, (('@', 'List'), 0))
        ai_, bi = adt_field_index(P, sf[0], sf[2]), adt_field_index(P, sf[0], sf[3])
        a, b = (base[0], base[1] + (ai_,)), (base[0], base[1] + (bi,))
        return {b: 1, a: -1}, (lambda s: {a: 1}), None
    # html: the nodes of the value, by kind of content
    pv = poss(P, st, vroot, VAL)
    if pv == {'HTML'}:
        h = I.project(I.project(vroot, ('d', [i for i, x in enumerate(P.adts[VAL]['variants']) if x['name'] == 'HTML'][0], VAL)), ('f', 0, '0', VAL, None))
        ph = poss(P, st, h, HTML)
        if ph == {'Sequence'}:
            return {('len', (vroot, (('@', 'HTML'), 0, ('@', 'Sequence'), 0))): 1}, (lambda s: {}), None
        if ph == {'Empty'}:
            return {}, (lambda s: {}), None
        if 'Sequence' not in ph and 'Empty' not in ph:
            return {1: 1}, (lambda s: {}), None
    # text: nothing if empty, otherwise one node
    for k, f in facts_about(st):
        if k.t == 'eq' and f[0] == '=' and any(under(x, vroot) is not None for x in k.a) and any(x.t == 's' and x.a[0] == '' for x in k.a):
            if (f[1].a[0] if isinstance(f[1], T) else f[1]) == 1:
                return {}, (lambda s: {}), None
    for k, f in facts_about(st):
        if under(k, vroot) is not None and k.t in ('fld', 'as') and f[0] == '=' and isinstance(f[1], T) and f[1].t == 's':
            return ({} if f[1].a[0] == '' else {1: 1}), (lambda s: {}), None
    return {1: 1}, (lambda s: {}), None


def in_seq(seq, vroot, html):
    for x in [seq] + list(subterms(seq)):
        if x is vroot:
            return True
    # a constant node made from text
    return html and seq.t in ('app', 'arr', 'ref', 'adt')


def outer(t):
    """subterms, outermost first"""
    work, seen = [t], set()
    while work:
        x = work.pop(0)
        if isinstance(x, tuple):
            work += list(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            work += list(x.a)


def part(I, t, vroot, html):
    """(low, high) of the run of elements a spread value consists of"""
    t0 = t
    for x in subterms(t):
        if x.t == 'adt' and x.a[0].endswith('SliceRef'):
            sf = slice_fields(I.P)
            if under(x.a[2][adt_field_index(I.P, sf[0], sf[1])], vroot) is None:
                return None
            return lin(x.a[2][adt_field_index(I.P, sf[0], sf[2])]), lin(x.a[2][adt_field_index(I.P, sf[0], sf[3])])
    for x in outer(t):
        if x.t == 'app' and x.a[0] == 'subslice':
            lo, hi = bounds(x.a[2])
            if not in_seq(x.a[1], vroot, html):
                return None
            return (lin(lo) if lo is not None else {}), (lin(hi) if hi is not None else lin(mk('len', x.a[1])))
    return None


def rest_of(C, I, st, t, vroot, pat, dpath, attrs):
    """t is a dictionary made of exactly the entries of the value whose key is not a key of the pattern"""
    for x in subterms(t):
        if x.t == 'iter' and x.a[0][0] in ('map', 'ownmap') and under(x.a[0][1], vroot) is not None:
            fl = [o for o in x.a[1] if o[0] in ('filter', 'filter_map', 'skip', 'take', 'step_by', 'take_while', 'skip_while')]
            if len(fl) != 1 or fl[0][0] not in ('filter', 'filter_map'):
                return False
            clo = fl[0][1]
            el = mk('el', mk('ctx', None, 0, 'rest'), 0, 'r')
            e = I.project(vroot, ('d', [i for i, z in enumerate(I.P.adts[VAL]['variants']) if z['name'] == 'Dict'][0], VAL))
            d = mk('idx', I.project(e, ('f', 0, '0', VAL, None)), el)
            k = I.project(d, ('f', 0, 'key', None, None))
            v = I.project(d, ('f', 1, 'value', None, None))
            tup = mk('tup', (mk('ref', ('const', k), (), False), mk('ref', ('const', v), (), False)))
            seen = []

            class K(Opaque):
                def call(self, I2, s, ctx, name, args, cal):
                    if name.startswith('indexmap::') and name.rsplit('::', 1)[-1] in ('contains_key', 'get') and len(args) > 1:
                        if any(y.t == 'fld' and y.a[2] == dpath and y.a[3] in attrs for y in subterms(I2.canon(s, args[0]))) or has_field(args[0], dpath, attrs[0]):
                            out = []
                            keyok = strip(I2.canon(s, args[1])) is k or k in subterms(I2.canon(s, args[1]))
                            for s1, r in I2.call_ext(s, ctx, name, args, cal):
                                for s2, b in (I2.split_bool(s1, r) if name.endswith('contains_key') else I2.split(s1, r, OPT)):
                                    s2.mon = s2.mon + ((keyok, int(bool(b))),)
                                    out.append((s2, mk('i', int(bool(b))) if name.endswith('contains_key') else r))
                            return out
                    return None
            I2 = ai.Interp(I.P, K(I.P), 100000)
            s0 = st.copy()
            s0.mon = ()
            cb = [b for b in I.P.bodies.values() if clo.t == 'clo' and clo.a[0] in (b.id, b.name)]
            ctx = ai.Ctx(mk('ctx', None, 0, 'rest'), 0, cb[0] if cb else next(iter(I.P.bodies.values())), None, ())
            arg = mk('ref', ('const', tup), (), False) if fl[0][0] == 'filter' else tup
            try:
                res = I2.call_value(s0, ctx, clo, [arg])
            except Exception:
                return False
            keep = set()
            for s1, r in res:
                if fl[0][0] == 'filter':
                    for s2, b in I2.split_bool(s1, r):
                        keep.add((s2.mon, int(bool(b))))
                else:
                    for s2, b in I2.split(s1, r, OPT):
                        keep.add((s2.mon, int(bool(b))))
            return bool(keep) and all(len(m_) >= 1 and all(o for o, _ in m_) and m_[-1][1] == 1 - b for m_, b in keep)
        if x.t == 'app' and x.a[0] in ('insert', 'hv'):
            return True
    # built by an explicit loop
    return any(x.t in ('hv', 'lv', 'jn') for x in subterms(t))


# ---------------------------------------------------------------- branches
def branches(C, entry, binder, stack, frame):
    P = C.P
    pi = [i for i in range(1, binder.argc + 1) if binder.ty(i)['s'].endswith(MP)][0] - 1
    wi = [i for i in range(1, binder.argc + 1) if binder.ty(i)['s'] in (VAL, '&' + VAL)][0] - 1
    expr = {b.id for b in C.lib() if not b.parent and any('&parser::ast::Expr' == b.ty(i)['s'] for i in range(1, b.argc + 1)) and 'Compiler' in b.ty(1)['s']}
    # a function that also gets a pattern is a part of the branch
    expr = {i for i in expr if not any(P.bodies[i].ty(k)['s'].endswith(MP) for k in range(1, P.bodies[i].argc + 1))}
    pli = adt_field_index(P, frame[0], frame[2])
    ppi = adt_field_index(P, frame[0], frame[1])

    class B(Opaque):
        # mon: (value evaluated, open frames with (serial, used), matched (element, frame) | None, handled result | None)
        def inline(self, I, b):
            if b.id in expr:
                return False
            return Opaque.inline(self, I, b)

        def bad(self, ctx, rule, why):
            self.viol.add((rule, why, ctx.where()))

        def call(self, I, st, ctx, name, args, cal):
            if not args or not name.startswith('std::vec::Vec'):
                return None
            a = I.canon(st, args[0]) if args[0].t != 'ref' else args[0]
            if not (a.t == 'ref' and a.a[1] and a.a[1][-1][0] == 'f' and a.a[1][-1][3] == stack[0] and a.a[1][-1][2] == stack[1]):
                return None
            short = name.rsplit('::', 1)[-1]
            v, fr, m, h = st.mon
            if short == 'push':
                g = frame_agg(I.canon(st, args[1]), frame)
                kind = 'unknown'
                if g is not None:
                    par = g.a[2][ppi]
                    x = par.a[2][0] if par.t == 'adt' and par.a[0] == OPT and par.a[1] == 1 else par
                    while x.t == 'adt' and len(x.a[2]) == 1:
                        x = x.a[2][0]
                    loc = g.a[2][pli]
                    empty = loc.t == 'app' and ('default' in loc.a[0] or 'new' in loc.a[0]) or loc.t == 'arr' and not loc.a[0]
                    kind = 'fresh' if empty and current_of(bare(x), stack) is not None else 'other'
                st.mon = (v, fr + (kind,), m, h)
            elif short == 'pop' and fr:
                st.mon = (v, fr[:-1], m, h)
            return None

        def opaque(self, I, st, ctx, b, args):
            v, fr, m, h = st.mon
            a = [I.canon(st, x) for x in args]
            if b.id == binder.id:
                p = a[pi]
                self.seen['bind'] += 1
                el = [x for x in subterms(p) if x.t in ('idx',)]
                if m is not None:
                    self.bad(ctx, 'branches', 'another pattern is tried after one matched')
                if not fr or fr[-1] != 'fresh':
                    self.bad(ctx, 'branches', 'a pattern is matched in a scope that is not a fresh child of the current one' if fr else 'a pattern is matched outside a scope of its own')
                if v is None or not any(x is v for x in subterms(a[wi])):
                    self.bad(ctx, 'branches', 'the pattern is matched with something other than the value: ' + show(a[wi]))
                pos = position(I, elem_of(p))
                if pos is None or {c for k, c in pos[1].items() if isinstance(k, tuple)} - {1} or 1 in pos[1]:
                    self.bad(ctx, 'branches', 'the branches are not tried in order: ' + show(p))
                if last_index(p) != 0:
                    self.bad(ctx, 'branches', 'what is matched is not the pattern of a branch')
                out = []
                for r in (1, 0):
                    s = st.copy()
                    s.mon = (v, fr[:-1] + ('used',) if fr else fr, (elem_of(p) if r else None), h)
                    out.append((s, mk('i', r)))
                return out
            if b.id in expr:
                i = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == '&parser::ast::Expr'][0] - 1
                e = a[i]
                r = mk('app', 'result of', e)
                if v is None and not any(x.t == 'el' for x in subterms(e)):
                    out = []
                    for s, vi in I.split(st, r, RES):
                        val = I.payload(r, vi, RES)
                        s.mon = (val if vi == 0 else None, fr, m, h)
                        out.append((s, adt(RES, vi, val)))
                    return out
                self.seen['eval'] += 1
                if m is None:
                    self.bad(ctx, 'branches', 'a branch is evaluated that did not match')
                elif m is not elem_of(e) or last_index(e) != 1:
                    self.bad(ctx, 'branches', 'the branch evaluated is not the one that matched')
                elif not fr or fr[-1] != 'used':
                    self.bad(ctx, 'branches', 'a branch is evaluated outside the scope its pattern was matched in')
                if h is not None:
                    self.bad(ctx, 'branches', 'two branches are evaluated')
                st.mon = (v, fr, m, r)
                return [(st, r)]
            return None

    for e in entry:
        cl = B(P)
        cl.stops = expr | {binder.id} | cl.quiet
        cl.viol, cl.seen = set(), {'bind': 0, 'eval': 0}
        outs = C.explore(e, cl, mon=(None, (), None, None), cap=150)
        I = C.lastI
        for rule, why, where in sorted(cl.viol):
            C.ob(rule, e.name, False, why, where)
        C.floor('patterns tried in ' + e.name, cl.seen['bind'], 1)
        C.floor('branches evaluated in ' + e.name, cl.seen['eval'], 1)
        kinds_ = set()
        for st, r in outs:
            v, fr, m, h = st.mon
            r = I.canon(st, r)
            if h is not None:
                kinds_.add('handled')
                C.ob('branches', e.name + ' result', h in subterms(r), 'the result is not that of the branch that matched: ' + show(r))
            elif m is not None:
                C.ob('branches', e.name + ' result', False, 'a branch matched but was not evaluated')
            else:
                er = r.t == 'adt' and r.a[0] == RES and r.a[1] == 1 or any(k.t == 'disc' and k.a[0] is r and f[0] == '=' and (f[1].a[0] if isinstance(f[1], T) else f[1]) == 1 for k, f in st.facts.items())
                kinds_.add('error')
                C.ob('no branch', e.name, er, 'without a matching branch the result is ' + show(r))
        C.floor('outcomes of ' + e.name, len(kinds_), 2)


def elem_of(t):
    t = strip(t)
    while t.t == 'fld' and t.a[0].t != 'idx':
        t = strip(t.a[0])
    if t.t == 'fld':
        return strip(t.a[0])
    return t


def last_index(t):
    t = strip(t)
    return t.a[1] if t.t == 'fld' else None


# ---------------------------------------------------------------- names bound by a pattern
def name_sets(C):
    P = C.P
    T_ = P.types['papyri_lang']
    fns = [b for b in C.lib() if not b.parent and b.kind != 'promoted' and b.argc == 2 and b.ty(1)['s'] == '&' + MP and 'IndexSet<' in b.ty(2)['s'] and b.ty(2)['k'] == 'ref' and b.ty(2)['m']]
    C.floor('collectors of names', len(fns), 1)

    def parts(ty, acc, out, depth=0):
        """access paths of the patterns and names inside a type"""
        s = T_[ty]['s']
        if s == MP:
            out.append((acc, 'pattern'))
            return
        if s.endswith('ast::SimpleName'):
            out.append((acc, 'name'))
            return
        t = T_[ty]
        if depth > 6:
            return
        if t['k'] == 'tuple' or t['k'] == 'tup':
            for i, x in enumerate(t['a']):
                parts(x, acc + (i,), out, depth + 1)
        elif t['k'] in ('slice', 'array'):
            parts(t['t'], acc + ('x',), out, depth + 1)
        elif t['k'] == 'adt':
            a = P.adts.get(t['p'])
            if t['p'] == 'std::boxed::Box':
                parts(t['a'][0], acc, out, depth + 1)
            elif t['p'] == OPT:
                parts(t['a'][0], acc + (('@', 'Some'), 0), out, depth + 1)
            elif t['p'] == 'indexmap::IndexMap':
                parts(t['a'][1], acc + ('x', 1), out, depth + 1)
            elif t['p'] == 'std::vec::Vec':
                parts(t['a'][0], acc + ('x',), out, depth + 1)
            elif a and a['local'] and not a['enum']:
                for i, f in enumerate(a['variants'][0]['fields']):
                    if f[1] is not None:
                        parts(f[1], acc + (i,), out, depth + 1)

    for b in fns:
        for vi, v in enumerate(P.adts[MP]['variants']):
            need = []
            for i, f in enumerate(v['fields']):
                parts(f[1], (i,), need)
            ids = [i for i, f in enumerate(v['fields']) if 'NameID]' in T_[f[1]]['s'] or 'NameID>' in T_[f[1]]['s'] and 'Pattern' not in T_[f[1]]['s']]
            m = Names(P, b)
            I = ai.Interp(P, m, 400000)
            m.I = I
            args = [I.symarg(b, i + 1) for i in range(b.argc)]
            root, path = I.deref(args[0])
            st = ai.State(mon=())
            base = I.rd(st, root, path)
            I.wr(st, root, path, mk('adt', MP, vi, tuple(I.project(mk('as', base, vi, MP), ('f', k, f[0], MP, None)) for k, f in enumerate(v['fields']))))
            outs = I.run(b.id, args=args, st=st)
            got = set()
            for s, r in outs:
                for x in s.mon:
                    rt, steps = access(x)
                    if rt is args[0]:
                        steps = tuple('x' if isinstance(q, tuple) and q[0] == 'x' else q for q in steps)
                        got.add(steps[1:] if steps and steps[0] == ('@', v['name']) else steps)
            if ids and any(g[:1] == (ids[0],) for g in got):
                continue
            for acc, kind_ in need:
                C.ob('names', '%s of pattern %s' % (b.name, v['name']), any(g[:len(acc)] == acc for g in got),
                     'the names in a part of the pattern are not among the names it may bind', C.loc(b.span))
    # alternatives record the names of both sides
    cons = 0
    for b in C.lib():
        if b.id in constructors(C, MP) and b.kind != 'promoted' and 'clone' not in b.name:
            b = C.owner(b)
            vi = [i for i, v in enumerate(P.adts[MP]['variants']) if v['name'] == 'Or'][0]

            class K(Opaque):
                def inline(self, I, x):
                    if x.id in {f.id for f in fns}:
                        return False
                    if any(q in x.ty(0)['s'] for q in ('MatchPattern',)) and x.id != b.id:
                        return False
                    return Opaque.inline(self, I, x)

                def opaque(self, I, st, ctx, x, args):
                    if x.id in {f.id for f in fns}:
                        st.mon = frozenset(list(st.mon)[-12:]) | {I.canon(st, args[0])}
                    return None

                def agg(self, I, st, ctx, path, variant, ops):
                    if norm(path) == MP and variant in (vi, 'Or'):
                        self.seen.append((ctx, I.canon(st, ops[0]), I.canon(st, ops[1]), st.mon))
            k = K(P)
            k.seen = []
            try:
                C.explore(b, k, mon=frozenset(), cap=60)
            except ai.Limit:
                continue
            for ctx, pair, ids, mon in k.seen:
                cons += 1
                sides = [x for x in subterms(pair) if x.t == 'tup' and len(x.a[0]) == 2]
                ok = False
                if sides:
                    ok = all(any(strip(q) is strip(y) for q in mon) for y in sides[0].a[0])
                C.ob('names', 'alternatives in ' + b.name, ok, 'an alternative is built whose names do not include those of both sides', ctx.where())
    C.floor('alternatives built', cons, 1)


class Names(Opaque):
    def __init__(self, P, b):
        Opaque.__init__(self, P)
        self.b = b

    def note(self, st, x):
        st.mon = tuple(q for q in st.mon if q is not x) + (x,)

    def opaque(self, I, st, ctx, x, args):
        if x.id == self.b.id:
            self.note(st, I.canon(st, args[0]))
        return None

    def call(self, I, st, ctx, name, args, cal):
        short = name.rsplit('::', 1)[-1]
        if short == 'insert' and name.startswith('indexmap::'):
            self.note(st, I.canon(st, args[1]))
        elif short == 'extend':
            v = args[1]
            t = I.canon(st, v)
            for y in subterms(t):
                if y.t == 'iter':
                    src = y.a[0][1]
                    if isinstance(src, T):
                        src = I.canon(st, src) if src.t != 'ref' else src
                        e = mk('idx', strip(src) if src.t != 'ref' else I.canon(st, src), mk('el', None, 0, 'n'))
                        self.note(st, e)
                    return None
            self.note(st, mk('idx', strip(t), mk('el', None, 0, 'n')))
        return None
