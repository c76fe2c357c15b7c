"""Scopes: the stack of frames, lexical lookup, closures, match branches."""
from rules import prop
from rulelib import *

COMP = 'compiler::base::Compiler'


def tyname(P, crate, i):
    return P.types[crate][i]


def shapes(C):
    """(compiler adt, stack field, active frame adt, frame adt, names of its fields) found by their types"""
    P = C.P
    T = P.types['papyri_lang']
    frame = None
    for p, a in P.adts.items():
        if a['enum'] or not p.startswith('compiler::'):
            continue
        fs = [f for f in a['variants'][0]['fields'] if f[1] is not None]
        loc = [f[0] for f in fs if 'IndexMap<' in T[f[1]]['s'] and 'Value' in T[f[1]]['s']]
        par = [f[0] for f in fs if T[f[1]]['s'].startswith('std::option::Option<') and T[f[1]]['s'].endswith('Frame>')]
        imp = [f[0] for f in fs if 'IndexSet<' in T[f[1]]['s']]
        if len(loc) == 1 and len(par) == 1 and len(imp) == 1:
            frame = (p, par[0], loc[0], imp[0])
    stack = None
    for p, a in P.adts.items():
        if a['enum'] or not p.startswith('compiler::'):
            continue
        fs = [f for f in a['variants'][0]['fields'] if f[1] is not None]
        if any(T[f[1]]['k'] == 'ref' and 'Context' in T[f[1]]['s'] for f in fs):
            for f in fs:
                t = T[f[1]]
                if t['k'] == 'adt' and t['s'].startswith('std::vec::Vec<') and 'Frame' in t['s']:
                    stack = (p, f[0], T[t['a'][0]]['p'])
    return stack, frame


class Opaque(ai.Client):
    """reporting diagnostics does not touch frames"""
    def __init__(self, P):
        self.quiet = {b.id for b in P.bodies.values() if b.name.startswith('errors::') or '::report' in b.name or b.name.endswith(('::stack_trace', '::range'))}

    def inline(self, I, b):
        if b.id in self.quiet:
            return False
        if b.kind == 'closure':
            return True
        return ai.Client.inline(self, I, b)


POP = ('pop', 'pop_if')
GONE = ('truncate', 'clear', 'insert', 'remove', 'swap_remove', 'drain', 'extend', 'append', 'split_off', 'retain', 'resize', 'swap', 'reverse', 'rotate_left')


class Stack(Opaque):
    """mon: (frames pushed here and not yet popped, lowest depth)"""
    def __init__(self, C, stack, frame, extra=()):
        Opaque.__init__(self, C.P)
        self.C, self.stackf, self.framef = C, stack, frame
        self.must = set(extra)
        self.pushes = []
        self.bad = []

    def inline(self, I, b):
        if b.id in self.must:
            return True
        return Opaque.inline(self, I, b)

    def is_stack(self, I, st, a):
        a = I.canon(st, a) if a.t != 'ref' else a
        if a.t == 'ref' and a.a[1]:
            e = a.a[1][-1]
            return e[0] == 'f' and e[3] == self.stackf[0] and e[2] == self.stackf[1]
        return False

    def call(self, I, st, ctx, name, args, cal):
        if not args:
            return None
        short = name.rsplit('::', 1)[-1]
        if name.startswith('std::vec::Vec') or name.startswith('std::mem::') or name.startswith('core::'):
            if self.is_stack(I, st, args[0]) or name.startswith('std::mem::swap') and self.is_stack(I, st, args[1]):
                pushed, low = st.mon
                if short == 'push':
                    r, p = I.deref(args[0])
                    cur = I.rd(st, r, p)
                    F = I.canon(st, args[1])
                    self.pushes.append((ctx, F, cur, st))
                    st.mon = (pushed + (F,), low)
                elif short in POP:
                    if pushed:
                        st.mon = (pushed[:-1], low)
                    else:
                        st.mon = (pushed, low - 1)
                elif short in GONE or name.startswith('std::mem::'):
                    self.bad.append((ctx, short))
        return None


def stack_bodies(C, stack):
    """functions that change the stack of frames (not those that merely build a compiler)"""
    out = set()
    for b, n, kind, rv, span in field_writes(C, {stack[1]}, C.lib()):
        if not touches_field(b, stack[0], stack[1]):
            continue
        out.add(b.id)
        if kind == 'store':
            C.ob('confined', 'assignment in ' + C.owner(b).name, False, 'the stack of scopes is replaced', C.loc(span))
    return out


def balanced(C, stack, frame):
    """-> [(body, client, outs)] for the functions in which pushes and pops match, violations reported"""
    P = C.P
    direct = {C.owner(P.bodies[b]).id for b in stack_bodies(C, stack)}
    rev = {}
    for a, ss in P.call_graph().items():
        for s in ss:
            rev.setdefault(s, set()).add(C.owner(P.bodies[a]).id)
    work, done, inl = sorted(direct), {}, {}
    helpers = set()
    level = {b: 0 for b in work}
    while work:
        f = work.pop(0)
        if f in done:
            continue
        b = P.bodies[f]
        cl = Stack(C, stack, frame, helpers)
        outs = C.explore(b, cl, mon=((), 0), cap=150)
        for ctx, what in cl.bad:
            C.ob('confined', '%s in %s' % (what, C.owner(ctx.body).name), False, 'the stack of scopes is changed other than by entering or leaving one', ctx.where())
        net = {(len(st.mon[0]), st.mon[1]) for st, r in outs}
        if net <= {(0, 0)} or not outs:
            done[f] = (cl, outs, True)
        elif len(net) == 1 and level[f] < 2 and rev.get(f):
            done[f] = (cl, outs, False)
            helpers.add(f)
            for c in rev[f]:
                if c not in done or done[c][2]:
                    done.pop(c, None)
                    level[c] = max(level.get(c, 0), level[f] + 1)
                    work.append(c)
        else:
            done[f] = (cl, outs, None)
    return done


@prop('P14')
def p14(C):
    """Typestate: each function that changes the stack of scopes is explored path by path, counting scopes entered and left."""
    P = C.P
    C.rule('balance', 'on every path to a return, each scope entered has been left, and no scope of a caller was left')
    C.rule('confined', 'the stack of scopes is changed only by entering and leaving scopes')
    C.rule('initial', 'every compilation starts with one scope, so that there always is a current scope')
    stack, frame = shapes(C)
    C.floor('stack of scopes', 1 if stack and frame else 0, 1)
    if not (stack and frame):
        return
    done = balanced(C, stack, frame)
    npush = 0
    for f, (cl, outs, ok) in sorted(done.items()):
        b = P.bodies[f]
        npush += len(cl.pushes)
        if ok is False:
            C.count('helpers that only enter or leave')
            continue
        for st, r in outs:
            d, low = len(st.mon[0]), st.mon[1]
            kind = ''
            C.ob('balance', b.name, d == 0 and low == 0,
                 'returns with %s' % ('a scope still entered' if d else 'a scope of its caller left') if (d or low) else '', C.loc(b.span))
    C.floor('scopes entered', npush, 1)
    # construction
    n = 0
    for b in C.lib():
        if b.id not in constructors(C, stack[0]) or b.kind == 'promoted':
            continue
        o = C.owner(b)

        class K(Opaque):
            def agg(self, I, st, ctx, path, variant, ops):
                if norm(path) == stack[0]:
                    i = adt_field_index(P, stack[0], stack[1])
                    self.seen.append((ctx, I.canon(st, ops[i])))
        k = K(P)
        k.seen = []
        C.explore(o, k, cap=50)
        for ctx, v in k.seen:
            n += 1
            els, leaves = producers(k.I, v)
            C.ob('initial', o.name, len(els) == 1, 'a compilation starts with %d scopes: %s' % (len(els), show(v)), ctx.where())
    C.floor('compilations started', n, 1)
    C.assumptions += ['functions called on the way are balanced themselves (induction over the call depth)', 'a panic ends the process']


def frame_agg(t, frame):
    """the Frame aggregate inside an active frame value"""
    for x in subterms(t):
        if x.t == 'adt' and x.a[0] == frame[0]:
            return x
    return None


def current_of(t, stackf):
    """t is the frame pointer of the last element of a version of the stack"""
    t = bare(t)
    if t.t == 'fld':
        t = bare(t.a[0])
    if t.t == 'idx' and t.a[1].t == 'fromend' and t.a[1].a[0].t == 'i' and t.a[1].a[0].a[0] == 1:
        return t.a[0]
    return None


@prop('P15')
def p15(C):
    """Value flow of frames: what each scope that is entered has as its parent, what each closure captures, and how
    a lookup walks the parents."""
    P = C.P
    stack, frame = shapes(C)
    C.floor('stack of scopes', 1 if stack and frame else 0, 1)
    if not (stack and frame):
        return
    FN = [p for p in P.adts if p.endswith('NonNativeFunc')]
    T = P.types['papyri_lang']
    fa = None
    for p, a in P.adts.items():
        if a['enum'] or not p.startswith('compiler::'):
            continue
        fs = [f for f in a['variants'][0]['fields'] if f[1] is not None]
        clo = [f[0] for f in fs if T[f[1]]['s'].endswith('Frame') and 'compiler::frame' in T[f[1]]['s']]
        body = [f[0] for f in fs if 'ast::Expr' in T[f[1]]['s']]
        if len(clo) == 1 and len(body) == 1:
            fa = (p, clo[0], body[0])
    C.floor('user-defined functions', 1 if fa else 0, 1)
    if not fa:
        return
    C.rule('parent', 'the parent of a scope is the scope the function was defined in, or for a block the scope it occurs in')
    C.rule('body', 'the body of a function is evaluated only in a scope whose parent is the scope that function was defined in')
    C.rule('args', 'the variables of a called function\'s scope are its bound arguments and nothing else')
    C.rule('capture', 'a function captures the scope it is defined in')
    C.rule('initial', 'a source file sees the built-in functions and the standard library, and no scope of an importer')
    C.rule('lookup', 'a name is looked up in its own scope first and in the parent only if it is not found there; implicit lookups skip variables that are not implicit')
    C.rule('assign', 'a declaration changes the current scope only')
    C.rule('implicit', 'a variable becomes implicit exactly when it is declared so')
    fi, pi, li, ii = [adt_field_index(P, frame[0], n) if n in [f[0] for f in P.adts[frame[0]]['variants'][0]['fields']] else None for n in (frame[1], frame[1], frame[2], frame[3])]

    def classify(F, cur):
        g = frame_agg(F, frame)
        if g is None:
            return 'unknown', None
        par = g.a[2][pi]
        if par is NONE or par.t == 'adt' and par.a[0] == OPT and par.a[1] == 0:
            return 'none', None
        x = par.a[2][0] if par.t == 'adt' and par.a[0] == OPT else par
        while x.t == 'adt' and len(x.a[2]) == 1:
            x = x.a[2][0]
        x = bare(x)
        s = current_of(x, stack)
        if s is not None:
            return 'current', s
        y = x
        while y.t == 'fld':
            if y.a[2] == fa[0] and y.a[3] == fa[1]:
                return 'closure', bare(y.a[0])
            y = bare(y.a[0])
        return 'other', x

    # every function that enters a scope, or evaluates a body, or defines a function
    rev = rev_graph_owner(C)
    done = balanced(C, stack, frame)
    helpers = {f for f, d in done.items() if d[2] is False}
    entry = {f for f, d in done.items() if d[2] is not False}
    # generic helpers that enter a scope given to them are looked at from their callers
    targets_ = set()
    work = list(entry)
    seen = set()
    generic = set()
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        cl = Stack(C, stack, frame, helpers | generic)
        C.explore(P.bodies[f], cl, mon=((), 0), cap=150)
        if any(classify(F, cur)[0] == 'unknown' and any(x.t == 'arg' for x in subterms(F)) for _, F, cur, _ in cl.pushes) and rev.get(f):
            generic.add(f)
            work += list(rev[f])
        else:
            targets_.add(f)
    users = {C.owner(b).id for b in C.lib() if touches_field(b, fa[0], fa[2])}
    nbody = npush = 0

    class W(Stack):
        def inline(self, I, b):
            if b.id in generic or b.id in helpers:
                return True
            return Stack.inline(self, I, b)

        def opaque(self, I, st, ctx, b, args):
            self.uses(I, st, ctx, args, b.name)
            return None

        def uses(self, I, st, ctx, args, what):
            for a in args:
                a = I.canon(st, a)
                for x in subterms(a):
                    hit = None
                    if x.t == 'fld' and x.a[2] == fa[0] and x.a[3] == fa[2]:
                        hit = bare(x.a[0])
                    elif x.t == 'ref' and x.a[0][0] == '*' and any(e[0] == 'f' and e[3] == fa[0] and e[2] == fa[2] for e in x.a[1]):
                        hit = bare(x.a[0][1])
                    if hit is not None:
                        self.bodies.append((ctx, hit, st.mon[0][-1] if st.mon[0] else None))
    for f in sorted(targets_ | users):
        b = P.bodies[f]
        if f in generic:
            continue
        w = W(C, stack, frame, helpers | generic)
        w.bodies = []
        C.explore(b, w, mon=((), 0), cap=200)
        for ctx, F, cur, st in w.pushes:
            npush += 1
            kind, info = classify(F, cur)
            C.ob('parent', '%s scope in %s' % (kind, b.name), kind in ('current', 'closure'),
                 'a scope is entered whose parent is neither the current scope nor the scope a function was defined in: ' + show(F), ctx.where())
            if kind == 'closure':
                g = frame_agg(F, frame)
                loc = g.a[2][li]
                C.ob('args', b.name, loc.t in ('arg', 'sym', 'fld', 'as') or is_binding(loc), 'the scope of a called function holds something other than the bound arguments: ' + show(loc), ctx.where())
        for ctx, fn, top in w.bodies:
            nbody += 1
            kind, info = classify(top, None) if top is not None else ('caller\'s', None)
            C.ob('body', b.name, kind == 'closure' and same_func(info, fn),
                 'the body of a function is evaluated in a scope whose parent is %s' % ('not the scope it was defined in' if kind != 'closure' else 'the definition scope of another function'), ctx.where())
    C.floor('scopes entered', npush, 2)
    C.floor('evaluations of function bodies', nbody, 1)
    # closures capture the current frame
    ncap = 0
    for b in C.lib():
        if b.id in constructors(C, fa[0]) and b.kind != 'promoted':
            ci = adt_field_index(P, fa[0], fa[1])

            class K(Stack):
                def agg(self, I, st, ctx, path, variant, ops):
                    if norm(path) == fa[0]:
                        self.seen.append((ctx, I.canon(st, ops[ci])))
            k = K(C, stack, frame)
            k.seen = []
            C.explore(C.owner(b), k, mon=((), 0), cap=50)
            for ctx, v in k.seen:
                ncap += 1
                while v.t == 'adt' and len(v.a[2]) == 1:
                    v = v.a[2][0]
                C.ob('capture', b.name, current_of(v, stack) is not None and ctx is not None, 'a function captures something other than the current scope: ' + show(v), ctx.where())
    C.floor('function definitions', ncap, 1)
    # the initial frame
    ninit = 0
    for b in C.lib():
        if b.id not in constructors(C, stack[0]) or b.kind == 'promoted':
            continue
        si = adt_field_index(P, stack[0], stack[1])

        class K2(Opaque):
            def agg(self, I, st, ctx, path, variant, ops):
                if norm(path) == stack[0]:
                    self.seen.append((ctx, I.canon(st, ops[si])))
        k = K2(P)
        k.seen = []
        C.explore(C.owner(b), k, cap=50)
        for ctx, v in k.seen:
            els, leaves = producers(k.I, v)
            for e in els:
                ninit += 1
                g = frame_agg(e, frame)
                ok = False
                if g is not None:
                    fs = {x.a[3] for x in subterms(g.a[2][pi]) if x.t == 'fld' and x.a[2] in (CTX, 'compiler::module_loader::ModuleCache')}
                    ok = bool(fs) and fs <= {'module_cache', 'stdlib', 'natives_frame', 'natives'} and not any(
                        x.t == 'fld' and x.a[3] == stack[1] for x in subterms(g)) and is_empty_map(g.a[2][li])
                C.ob('initial', C.owner(b).name, ok, 'a compilation starts in a scope that is not a fresh child of the standard library: ' + show(e), ctx.where())
    C.floor('initial scopes', ninit, 1)
    lookup(C, stack, frame)
    assign(C, stack, frame)
    C.assumptions += ['scopes are never shared other than by the pointers followed here', 'RefCell borrows do not panic']


def is_binding(t):
    while t.t in ('hv', 'fld', 'as', 'deref'):
        if t.t == 'hv':
            t = t.a[1]
        else:
            t = t.a[0]
    return t.t in ('arg', 'sym') or (t.t == 'app' and t.a[0] not in ('push', 'insert'))


def is_empty_map(t):
    return t.t == 'app' and t.a[0] == 'default' or t.t == 'app' and 'new' in t.a[0] or t.t == 'arr' and not t.a[0]


def same_func(a, b):
    strip = lambda t: strip_fn(t)
    return strip(a) is strip(b)


def strip_fn(t):
    while t.t in ('hv', 'deref', 'box'):
        t = t.a[1] if t.t == 'hv' else t.a[0]
    return t


def touches_field(b, adt, field):
    for blk in b.blocks:
        if blk['c']:
            continue
        from rules.modules import places
        for pl in places(blk):
            for e in pl[1:]:
                if isinstance(e, list) and e[0] == 'f' and e[2] == field and norm(e[3] if len(e) > 3 and isinstance(e[3], str) else adt) == adt:
                    return True
    return False


def rev_graph_owner(C):
    P = C.P
    rev = {}
    for a, ss in P.call_graph().items():
        for s in ss:
            oa, os_ = C.owner(P.bodies[a]).id, C.owner(P.bodies[s]).id
            if oa != os_:
                rev.setdefault(os_, set()).add(oa)
    return rev


def lookup(C, stack, frame):
    """explore the recursive lookup in a frame"""
    P = C.P
    fns = []
    for b in C.lib():
        if b.kind == 'promoted':
            continue
        hit = touches_field(b, frame[0], frame[1])
        b = C.owner(b)
        if b in fns:
            continue
        if hit and b.id not in constructors(C, frame[0]) and 'fmt' not in b.name and 'drop' not in b.name.lower():
            fns.append(b)
    C.floor('lookup functions', len(fns), 1)
    for b in fns:
        fi, li, ii = (adt_field_index(P, frame[0], n) for n in (frame[1], frame[2], frame[3]))

        class L(Opaque):
            # mon: (own variable found, is implicit, parent asked with)
            def call(self, I, st, ctx, name, args, cal):
                if not args or not name.startswith('indexmap::'):
                    return None
                short = name.rsplit('::', 1)[-1]
                if has_field(args[0], frame[0], frame[2]) and short in ('get', 'contains_key', 'get_full', 'get_index_of'):
                    out = []
                    known = st.mon[0]
                    for s, r in I.call_ext(st, ctx, name, args, cal):
                        for s2, v in (I.split_bool(s, r) if short == 'contains_key' else I.split(s, r, OPT)):
                            v = int(bool(v))
                            if known is not None and known != v:
                                continue
                            s2.mon = (v,) + s2.mon[1:]
                            out.append((s2, r if short != 'contains_key' else (TRUE if v else FALSE)))
                    return out
                if has_field(args[0], frame[0], frame[3]) and short in ('contains', 'get', 'contains_key'):
                    out = []
                    for s, r in I.call_ext(st, ctx, name, args, cal):
                        for s2, v in (I.split_bool(s, r) if short.startswith('contains') else I.split(s, r, OPT)):
                            v = int(bool(v))
                            if s2.mon[1] is not None and s2.mon[1] != v:
                                continue
                            s2.mon = (s2.mon[0], v, s2.mon[2])
                            out.append((s2, r if not short.startswith('contains') else (TRUE if v else FALSE)))
                    return out
                return None

            def opaque(self, I, st, ctx, body, args):
                if body.id == b.id:
                    st.mon = st.mon[:2] + (tuple(I.canon(st, a) for a in args),)
                return None
        # the name and the flag, among the arguments
        for flag in (0, 1):
            l = L(P)
            argv, nm, fl = [], None, None
            for i in range(1, b.argc + 1):
                t = b.ty(i)
                if t['k'] == 'bool' or t['s'] == 'bool':
                    argv.append(mk('i', flag)); fl = i - 1
                else:
                    argv.append(None)
                    if 'NameID' in t['s']:
                        nm = i - 1
            if nm is None:
                continue
            outs = explore_with(C, b, l, argv, (None, None, None))
            I = C.lastI
            for st, r in outs:
                own, imp, par = st.mon
                r = I.canon(st, r)
                key = '%s, %s lookup' % (b.name, 'implicit' if flag else 'plain')
                visible = own == 1 and (not flag or imp == 1)
                hidden = own == 0 or (flag and imp == 0)
                fs = {x.a[3] for x in subterms(r) if x.t == 'fld' and x.a[2] == frame[0]}
                is_own = r.t == 'adt' and r.a[0] == OPT and r.a[1] == 1 and any(x.t == 'idx' and has_field(x.a[0], frame[0], frame[2]) for x in subterms(r)) and par is None
                if is_own:
                    C.ob('lookup', key + ', found', visible, 'a variable is found that is not visible here (present %s, implicit %s)' % (own, imp))
                elif par is not None:
                    C.ob('lookup', key + ', in the parent', hidden, 'the parent scope is asked although the variable is in its own scope')
                    pa = par[0]
                    C.ob('lookup', key + ', parent', any(x.t == 'fld' and x.a[3] == frame[1] for x in subterms(pa)) and par[nm] is C_arg(b, nm)
                         and (fl is None or par[fl] is mk('i', flag)), 'the parent scope is asked for something else: ' + ', '.join(show(x) for x in par))
                else:
                    C.ob('lookup', key + ', not found', r.t == 'adt' and r.a[1] == 0 and hidden, 'a lookup ends with %s (own variable %s, implicit %s)' % (show(r), own, imp))


def C_arg(b, i):
    return mk('arg', i + 1, b.locals[i + 1][1])


def explore_with(C, b, client, argv, mon):
    I = ai.Interp(C.P, client, 400000)
    client.I = I
    args = [a if a is not None else I.symarg(b, i + 1) for i, a in enumerate(argv)]
    outs = I.run(b.id, args=args, mon=mon)
    C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
    C.lastI = I
    return outs


MUT = ('insert', 'remove', 'extend', 'insert_full', 'shift_remove', 'swap_remove', 'clear', 'entry', 'retain', 'drain', 'append', 'get_mut', 'iter_mut', 'values_mut')


def assign(C, stack, frame):
    P = C.P
    muts = set()
    for b, n, kind, rv, span in field_writes(C, {frame[2], frame[3]}, C.lib()):
        if touches_field(b, frame[0], frame[2]) or touches_field(b, frame[0], frame[3]):
            if b.id not in constructors(C, frame[0]):
                muts.add(b.id)
    rev = rev_graph_owner(C)
    work, seen, tops = sorted({C.owner(P.bodies[m]).id for m in muts}), set(), set()
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        b = P.bodies[f]
        if any(stack[0].rsplit('::', 1)[1] in b.ty(i)['s'] for i in range(1, b.argc + 1)) or not rev.get(f):
            tops.add(f)
        else:
            work += sorted(rev[f])
    n = ni = 0
    for f in sorted(tops):
        b = P.bodies[f]
        if 'Debug' in b.name or 'Drop' in b.name:
            continue

        class A(Stack):
            def call(self, I, st, ctx, name, args, cal):
                if args and name.startswith('indexmap::') and name.rsplit('::', 1)[1] in MUT:
                    for fld in (frame[2], frame[3]):
                        r = args[0]
                        if has_field(r, frame[0], fld):
                            self.hits.append((ctx, fld, name.rsplit('::', 1)[1], r))
                return Stack.call(self, I, st, ctx, name, args, cal)
        a = A(C, stack, frame, seen - {f})
        a.hits = []
        C.explore(b, a, mon=((), 0), cap=60)
        for ctx, fld, what, r in a.hits:
            n += 1
            ok = False
            for y in subterms(r):
                if y.t == 'fld' and y.a[2] == frame[0]:
                    y = y.a[0]
                    while y.t in ('hv', 'deref', 'box', 'fld') :
                        z = y
                        y = y.a[1] if y.t == 'hv' else y.a[0]
                        if current_of(z, stack) is not None:
                            ok = True
                    ok = ok or current_of(y, stack) is not None
                elif y.t == 'ref' and any(e[0] == 'f' and e[3] == frame[0] for e in y.a[1]) and y.a[0][0] == '*':
                    ok = ok or any(current_of(z, stack) is not None for z in subterms(y.a[0][1]))
            C.ob('assign', '%s of %s in %s' % (what, fld, b.name), ok, 'a variable is changed in a scope other than the current one: ' + show(r), ctx.where())
    C.floor('changes of variables', n, 2)
    for b in C.lib():
        if b.kind != 'fn' and b.kind != 'method' and b.parent or b.id in constructors(C, frame[0]):
            continue
        bools = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == 'bool']
        if len(bools) != 1 or not any(C.owner(P.bodies[m]).id == b.id for m in muts):
            continue
        got = {}
        for flag in (0, 1):
            class F(Opaque):
                def call(self, I, st, ctx, name, args, cal):
                    if args and name.startswith('indexmap::') and name.rsplit('::', 1)[1] in MUT and has_field(args[0], frame[0], frame[3]):
                        st.mon += 1
                    return None
            outs = explore_with(C, b, F(P), [mk('i', flag) if i in bools else None for i in range(1, b.argc + 1)], 0)
            got[flag] = {st.mon for st, r in outs}
        if got[1] | got[0] == {0}:
            continue
        ni += 1
        C.ob('implicit', b.name, got == {0: {0}, 1: {1}}, 'declaring a variable changes the set of implicit variables %s' % got, C.loc(b.span))
    C.count('declaring functions', ni)
