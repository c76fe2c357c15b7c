"""Argument binding: which value each parameter of a called function receives."""
from rules import prop
from rulelib import *
from rules.scope import Opaque
from rules.match import access, lin, add, linfacts, strip, bounds, elkey, PLAIN

TRYC = 'value_convert'
VAL = 'compiler::value::Value'
TYPE = 'parser::types::Type'


class S:
    pass


def shapes(C):
    """the structures that hold parameters, signatures and arguments bound so far, found by the types of their fields"""
    P = C.P
    T_ = P.types['papyri_lang']
    s = S()
    s.param = s.sig = s.part = s.binder = s.rc = None

    def fields(p):
        a = P.adts[p]
        return [(f[0], T_[f[1]]['s']) for f in a['variants'][0]['fields'] if f[1] is not None]
    structs = [p for p, a in P.adts.items() if a['local'] and not a['enum'] and p.startswith('compiler::')]
    for p in structs:
        f = fields(p)
        ty = [t for _, t in f]
        if len(f) == 4 and TYPE in ty and 'bool' in ty and any(t.startswith('std::option::Option<') and VAL in t for t in ty):
            s.param = p
            s.p_type = [n for n, t in f if t == TYPE][0]
            s.p_impl = [n for n, t in f if t == 'bool'][0]
            s.p_def = [n for n, t in f if t.startswith('std::option::Option<')][0]
            s.p_name = [n for n, t in f if n not in (s.p_type, s.p_impl, s.p_def)][0]
    for p in structs:
        f = fields(p)
        if s.param and sum(s.param in t for _, t in f) == 5 and len(f) == 5:
            s.sig = p
            s.s_pos = [n for n, t in f if t.startswith('std::vec::Vec<')][0]
            s.s_named = [n for n, t in f if 'IndexMap' in t][0]
            opts = [n for n, t in f if t.startswith('std::option::Option<')]
            s.s_nsp = [n for n in opts if 'named' in n][0] if any('named' in n for n in opts) else opts[1]
            s.s_sp = [n for n in opts if n != s.s_nsp][0]
            s.s_cont = [n for n, t in f if t == s.param][0]
        ty = sorted(t.split('<')[0] for _, t in f)
        if ty == ['indexmap::IndexMap', 'indexmap::IndexMap', 'std::vec::Vec', 'usize']:
            s.part = p
            s.b_count = [n for n, t in f if t == 'usize'][0]
            s.b_list = [n for n, t in f if t.startswith('std::vec::Vec')][0]
            maps = [n for n, t in f if t.startswith('indexmap')]
            s.b_extra = [n for n in maps if 'spread' in n or 'extra' in n][0] if any('spread' in n or 'extra' in n for n in maps) else maps[0]
            s.b_map = [n for n in maps if n != s.b_extra][0]
    for p in structs:
        f = fields(p)
        if s.sig and len(f) == 1 and s.sig in f[0][1]:
            s.rc = p
        if s.part and any(t == s.part for _, t in f) and any('Compiler' in t for _, t in f):
            s.binder = p
            s.k_part = [n for n, t in f if t == s.part][0]
            s.k_sig = [n for n, t in f if t != s.part and 'Compiler' not in t][0]
    s.ok = bool(s.param and s.sig and s.part and s.binder)
    return s


def s_binder(s, b):
    return s.binder in b.ty(1)['s']


def ival(f):
    """the constant a fact fixes a term to"""
    if f[0] != '=':
        return None
    return f[1].a[0] if isinstance(f[1], T) else f[1]


def walk(t):
    """strip pointers, newtypes and copies down to the place a term denotes"""
    while True:
        if t.t in ('deref', 'box'):
            t = t.a[0]
        elif t.t == 'hv':
            t = t.a[1]
        elif t.t == 'ref' and t.a[0][0] == '*' and not t.a[1]:
            t = t.a[0][1]
        elif t.t == 'ref' and t.a[0][0] == 'const' and not t.a[1]:
            t = t.a[0][1]
        else:
            return t


def field_of(t, adt_, name):
    """base place, if t is <base>.<name> of the given type"""
    t = walk(t)
    if t.t == 'fld' and t.a[2] == adt_ and t.a[3] == name:
        return walk(t.a[0])
    if t.t == 'ref' and t.a[1] and t.a[1][-1][0] == 'f' and t.a[1][-1][3] == adt_ and t.a[1][-1][2] == name:
        b = mk('ref', t.a[0], t.a[1][:-1], False)
        return walk(b)
    return None


class A(Opaque):
    """the events of binding arguments. mon: tuple of events"""
    def __init__(self, C, s, roots=()):
        Opaque.__init__(self, C.P)
        self.C, self.s = C, s
        self.ends = []      # (state at the end of an iteration)
        self.kinds = {}
        self.roots = {}
        for k, b in roots:
            self.roots[b] = k
        P = C.P
        self.role = {}
        for b in C.lib():
            if b.parent or b.kind == 'promoted' or not b.argc:
                continue
            tys = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
            ret = b.ty(0)['s']
            if 'Compiler' in tys[0] and VAL in tys and '&' + TYPE in tys and ret.startswith('std::result::Result<' + VAL):
                self.role[b.id] = 'coerce'
            elif tys == ['&' + TYPE] and ret == '&' + TYPE:
                self.role[b.id] = 'component'
            elif 'Compiler' in tys[0] and '&parser::ast::Expr' in tys and '&' + TYPE in tys and VAL in ret:
                self.role[b.id] = 'evaluate'
            elif 'Compiler' in tys[0] and b.argc == 3 and 'NameID' in tys[1] and tys[2] == 'std::option::Option<%s>' % VAL:
                self.role[b.id] = 'implicit'
            elif 'Compiler' in tys[0] and '&parser::ast::Name' in tys and '&' + TYPE in tys:
                self.role[b.id] = 'name'
        self.stops = frozenset(self.role) | frozenset(self.roots) | frozenset(self.quiet)

    def inline(self, I, b):
        if b.id in self.stops:
            return False
        if b.argc and s_binder(self.s, b):
            return True
        return Opaque.inline(self, I, b)

    def note(self, st, ev):
        st.mon = tuple(q for q in st.mon if q != ev) + (ev,)

    def fallible(self, I, st, term, ev, value):
        """[(state, Ok(value)), (state, Err)]"""
        out = []
        for s, vi in I.split(st, term, RES):
            if vi == 0:
                self.note(s, ev)
                out.append((s, adt(RES, 0, value)))
            else:
                out.append((s, adt(RES, 1, I.payload(term, 1, RES))))
        return out

    def opaque(self, I, st, ctx, b, args):
        a = [I.canon(st, x) for x in args]
        k = self.role.get(b.id)
        inst = ctx.inst('bind')
        tys = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
        if k == 'coerce':
            v, t = a[tys.index(VAL)], a[tys.index('&' + TYPE)]
            return self.fallible(I, st, mk('sym', 'coercion', inst), ('coerce', v, t), mk('app', 'coerced', v, t))
        if k == 'component':
            return [(st, mk('app', 'component', walk(a[0])))]
        if k == 'evaluate':
            e, t = a[tys.index('&parser::ast::Expr')], a[tys.index('&' + TYPE)]
            return self.fallible(I, st, mk('sym', 'evaluation', inst), ('eval', e, t), mk('app', 'evaluated', e))
        if k == 'name':
            e = a[tys.index('&parser::ast::Name')]
            return self.fallible(I, st, mk('sym', 'lookup', inst), ('lookup', e), mk('app', 'evaluated', e))
        if k == 'implicit':
            return self.fallible(I, st, mk('sym', 'implicit', inst), ('implicit', a[1], a[2]), mk('app', 'implicit', a[1], a[2]))
        if tys == [VAL] and not b.parent and TRYC in b.name:
            return [(st, mk('app', 'converted', a[0]))]
        r = self.roots.get(b.id)
        if r:
            rt = b.ty(0)['s']
            rest = tuple(a[1:])
            term = mk('sym', r, inst)
            ev = (r, a[0]) + rest
            if rt.startswith('std::result::Result<()') or rt == 'std::result::Result<(), errors::AlreadyReported>':
                return self.fallible(I, st, term, ev, UNIT)
            if rt.startswith('std::result::Result<'):
                return self.fallible(I, st, term, ev, mk('app', r, *a))
            self.note(st, ev)
            return None
        return None

    def which(self, I, st, ref):
        """which of the collections of bound arguments a reference points to"""
        s = self.s
        if ref.t == 'ref' and ref.a[1]:
            e = ref.a[1][-1]
            if e[0] == 'f' and e[3] == s.part:
                return e[2]
        k = self.kinds.get(ref)
        if k:
            return k
        if ref.t == 'ref':
            r, p = I.deref(ref)
            v = I.rd(st, r, p)
            k = self.origin(v)
            if k:
                self.kinds[ref] = k
            return k
        return None

    def origin(self, v):
        s = self.s
        while True:
            v = walk(v)
            if v.t == 'fld' and v.a[2] == s.part:
                return v.a[3]
            if v.t == 'app' and v.a[0] in ('insert', 'push'):
                v = v.a[1]
                continue
            return None

    def call(self, I, st, ctx, name, args, cal):
        if not args:
            return None
        short = name.rsplit('::', 1)[-1]
        s = self.s
        if name.startswith('indexmap::'):
            w = self.which(I, st, args[0])
            if w in (s.b_map, s.b_extra):
                key = I.canon(st, args[1]) if len(args) > 1 else UNIT
                if short in ('insert', 'insert_full'):
                    val = I.canon(st, args[2])
                    out = []
                    for s1, r in I.call_ext(st, ctx, name, args, cal):
                        if short == 'insert_full':
                            self.note(s1, ('set', w, key, val, None))
                            out.append((s1, r))
                            continue
                        for s2, old in I.split(s1, r, OPT):
                            self.note(s2, ('set', w, key, val, old))
                            out.append((s2, r))
                    return out
                if short in ('contains_key', 'get'):
                    out = []
                    for s1, r in I.call_ext(st, ctx, name, args, cal):
                        for s2, v in (I.split_bool(s1, r) if short == 'contains_key' else I.split(s1, r, OPT)):
                            self.note(s2, ('has', w, key, int(bool(v))))
                            out.append((s2, mk('i', int(bool(v))) if short == 'contains_key' else r))
                    return out
                if short in ('entry', 'remove', 'swap_remove', 'shift_remove', 'extend', 'clear', 'retain', 'drain', 'get_mut', 'iter_mut', 'values_mut', 'append', 'pop'):
                    self.note(st, ('other', w, short))
        if name.startswith('std::vec::Vec'):
            w = self.which(I, st, args[0])
            if w == s.b_list:
                if short == 'push':
                    self.note(st, ('push', I.canon(st, args[1])))
                elif short in ('insert', 'extend', 'pop', 'remove', 'truncate', 'clear', 'append', 'retain', 'swap_remove', 'dedup', 'reverse', 'extend_from_slice', 'drain', 'resize'):
                    self.note(st, ('other', w, short))
        if short in ('iter', 'into_iter', 'values'):
            x = args[0]
            b = seq_field(I, st, x, s)
            if b:
                self.note(st, ('walk', b))
            else:
                x = I.canon(st, x)
                cs = conv_in(x)
                self.note(st, ('walk', cs[0] if cs else walk(x)))
        return None

    def each(self, I, st, ctx, blocks=None):
        """what was done with one element is judged here; what is carried on does not mention the element"""
        if blocks is None and ctx.fid.t == 'ctx' and ctx.fid.a[2] == 'consume' and self.counting(ctx):
            return
        self.ends.append(((ctx.fid, blocks), st.copy()))
        st.mon = tuple(e for e in st.mon if not any(x.t in ('el', 'lv', 'jn') for y in e if isinstance(y, T) for x in subterms(y)))

    def counting(self, ctx):
        """the elements are only counted"""
        t = ctx.body.blocks[ctx.fid.a[1]]['t']
        return 'std::iter::Iterator::count' in str(t)[:400]

    def loop_back(self, I, st, ctx, head, key):
        self.each(I, st, ctx, key)


def seq_field(I, st, x, s):
    """the collection of parameters a sequence is (a part of)"""
    for _ in range(6):
        x = walk(I.canon(st, x) if x.t != 'ref' else x)
        if x.t == 'app' and x.a[0] == 'subslice':
            x = x.a[1]
            continue
        for n in (s.s_pos, s.s_named):
            if field_of(x, s.sig, n) is not None:
                return n
        return None
    return None


def roots(C, s):
    """the operations on arguments bound so far, by what they take and give; helpers called only by them are left out"""
    P = C.P
    found = {}
    for b in C.lib():
        if b.parent or b.kind == 'promoted' or not b.argc:
            continue
        tys = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
        if s.binder.rsplit('::', 1)[-1] not in tys[0] or s.binder not in tys[0]:
            continue
        ret = b.ty(0)['s']
        own = not tys[0].startswith('&')
        rest = tys[1:]
        k = None
        if not own and rest == [VAL]:
            k = 'value'
        elif not own and len(rest) == 2 and 'NameID' in rest[0] and rest[1] == VAL:
            k = 'named'
        elif not own and rest == [] and ret.startswith('std::result::Result<()'):
            k = 'step'
        elif own and rest == []:
            k = 'build'
        elif own and len(rest) == 1 and rest[0].endswith('Func'):
            k = 'close'
        elif not own and rest == ['&parser::ast::Arg']:
            k = 'arg'
        elif not own and rest == ['&parser::ast::Expr']:
            k = 'content expr'
        if k:
            found.setdefault(k, []).append(b)
    cg = {}
    for a, ss in P.call_graph().items():
        oa = C.owner(P.bodies[a]).id
        for x in ss:
            cg.setdefault(C.owner(P.bodies[x]).id, set()).add(oa)
    all_ = {b.id: k for k, bs in found.items() for b in bs}

    def helper(b, k):
        callers = cg.get(b.id, set()) - {b.id}
        if k in ('arg', 'content expr'):
            inner = {f for f, kk in all_.items() if kk == k}
        else:
            inner = {f for f, kk in all_.items() if kk not in ('arg', 'content expr')}
        return bool(callers) and callers <= inner
    out = {}
    for k, bs in found.items():
        bs = [b for b in bs if not helper(b, k)]
        if bs:
            out[k] = bs
    # adding a value: positionally (counts), or as content
    writes = lambda b: any(n == s.b_count for x, n, *_ in field_writes(C, {s.b_count}, [y for y in C.lib() if C.owner(y).id == b.id or y.id in P.reach([b.id]) and s.binder in (y.ty(1)['s'] if y.argc else '')]))
    vals = out.pop('value', [])
    out['positional'] = [b for b in vals if writes(b)]
    out['content'] = [b for b in vals if not writes(b)]
    # steps without arguments: binding implicit arguments sets variables
    steps = out.pop('step', [])
    out['implicit'] = []
    for b in steps:
        a = A(C, s)
        outs = C.explore(b, a, mon=(), cap=60)
        if any(e[0] == 'set' for st, r in outs + [(y, x) for x, y in a.ends] for e in st.mon):
            out['implicit'].append(b)
    return out


def val_of(t):
    """the value a term denotes, copies ignored"""
    return walk(t)


def type_is(t, want):
    """t is the type stored at place `want` (a parameter's type)"""
    return walk(t) is walk(want)


def coerced(v):
    v = walk(v)
    if v.t == 'app' and v.a[0] == 'coerced':
        return walk(v.a[1]), walk(v.a[2])
    return None


def param_of_name(key, s):
    return field_of(key, s.param, s.p_name)


def el_of(E):
    """(collection term, element symbol) of a parameter that is an element of one"""
    E = walk(E)
    if E.t == 'fld' and E.a[3] == 'value':
        E = walk(E.a[0])
    if E.t == 'idx':
        return walk(E.a[0]), E.a[1]
    return None


def is_err(I, st, r):
    r = I.canon(st, r)
    if r.t == 'adt' and r.a[0] == RES:
        return r.a[1] == 1
    for k, f in st.facts.items():
        if k.t == 'disc' and k.a[0] is r:
            v = ival(f)
            if v is not None:
                return v == 1
    return None


def ok_value(I, st, r):
    r = I.canon(st, r)
    if r.t == 'adt' and r.a[0] == RES and r.a[1] == 0:
        return r.a[2][0]
    return None


@prop('P17')
def p17(C):
    """Value flow of argument binding: the operations of the binder are explored path by path; every value stored is
    traced to the parameter it is stored under and to that parameter's type."""
    P = C.P
    s = shapes(C)
    C.floor('structures of bound arguments', 1 if s.ok else 0, 1)
    if not s.ok:
        return
    C.rule('positional', 'a positional argument is coerced to the type of the next positional parameter and stored under its name, or goes to the spread, or is counted as one too many; each is counted once')
    C.rule('named', 'a named argument is coerced to the type of the parameter of that name and stored under it once, or goes to the named spread, or is an error')
    C.rule('content', 'the content is coerced to the type of the content parameter and stored under its name; content given twice is an error')
    C.rule('implicit', 'exactly the implicit parameters that have no value yet get the implicit variable of their name, or their default, coerced to their type')
    C.rule('complete', 'a call is made only when each parameter has a value: its argument or its default; too many or missing arguments are errors')
    C.rule('argument', 'each argument of a call is evaluated once and bound as what it is: positional, named, or each element of a spread')
    C.rule('call', 'a call binds all its arguments, then the implicit ones, then the content, to the signature and earlier arguments of the function called')
    C.rule('definition', 'a parameter has the name, type, default and implicitness it was declared with, in the place of its kind')
    R = roots(C, s)
    for k in ('positional', 'named', 'content', 'implicit', 'build', 'close', 'arg', 'content expr'):
        C.floor('operations: ' + k, len(R.get(k, ())), 1)
    rl = [(k, b.id) for k, bs in R.items() for b in bs]
    seen = set()

    def run(b, cap=250, drop=(), **kw):
        a = A(C, s, [(k, i) for k, i in rl if i != b.id and k not in drop])
        outs = C.explore(b, a, mon=(), cap=cap, **kw)
        seen.update(C.lastI.visited)
        return a, C.lastI, outs
    positional(C, s, R, run)
    named(C, s, R, run)
    content(C, s, R, run)
    implicit(C, s, R, run)
    complete(C, s, R, run)
    argument(C, s, R, run)
    calls(C, s, R, rl)
    definition(C, s)
    # nothing else changes the arguments bound
    for b, n, kind, rv, span in field_writes(C, {s.b_map, s.b_extra, s.b_list, s.b_count}, C.lib()):
        from rules.scope import touches_field
        if not touches_field(b, s.part, n) or b.kind == 'promoted':
            continue
        vis = b.id in {getattr(x, 'id', x if isinstance(x, str) else x[0]) for x in seen}
        C.ob('complete', 'change of %s in %s' % (n, C.owner(b).name), vis, 'arguments are bound outside the operations that check them', C.loc(span))


def events(st, *kinds):
    return [e for e in st.mon if e[0] in kinds]


def fact_of(I, st, adt_, field):
    """value of the discriminant (or boolean) of <x>.<field> on this path, None if it was not looked at"""
    for k, f in st.facts.items():
        x = k.a[0] if k.t == 'disc' else k
        if isinstance(x, T) and field_of(x, adt_, field) is not None:
            v = ival(f)
            if v is not None:
                return v
    return None


def lincount(st, s, P, want):
    """is the comparison of the number of positional arguments with the number of positional parameters decided?
    want: 'more' (count > parameters), 'less' (count < parameters) -> True/False/None"""
    ci, si = adt_field_index(P, s.part, s.b_count), adt_field_index(P, s.sig, s.s_pos)
    for k, f, c in linfacts(st):
        cs = [a for a in f if isinstance(a, tuple) and a[0] != 'len' and a[0] != 'k' and isinstance(a[1], tuple) and a[1][-1:] == (ci,)]
        ls = [a for a in f if isinstance(a, tuple) and a[0] == 'len' and a[1][1][-1:] == (si,)]
        if len(cs) != 1 or len(ls) != 1 or set(f) - {1, cs[0], ls[0]}:
            continue
        x, y, z = f[cs[0]], f[ls[0]], f.get(1, 0)
        if k == 'eq' and (x, y) in ((1, -1), (-1, 1)) and z == 0:
            if c == 1:
                return False
            continue
        if k != 'lt':
            continue
        # x*count + y*len + z < 0 (c) or >= 0
        if (x, y) == (1, -1):
            # count < len - z
            if want == 'less':
                if z == 0:
                    return bool(c)
                if z == -1:            # count <= len
                    if not c:
                        return False
                if z == 1 and c:
                    return True
            else:
                if z == -1:            # count - 1 < len  <=> count <= len
                    return not c
                if z == 0 and c:
                    return False
        elif (x, y) == (-1, 1):
            # len + z < count
            if want == 'more':
                if z == 0:
                    return bool(c)
                if z == -1 and not c:  # len - 1 >= count
                    return False
            else:
                if z == -1:            # len - 1 < count <=> len <= count
                    return not c
                if z == 0 and c:
                    return False
    return None


def positional(C, s, R, run):
    P = C.P
    for b in R.get('positional', ()):
        a, I, outs = run(b)
        vi = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == VAL][0]
        v = I.symarg(b, vi)
        kinds = set()
        for st, r in outs:
            er = is_err(I, st, r)
            sets, pushes, others = events(st, 'set'), events(st, 'push'), events(st, 'other')
            key = b.name
            C.ob('positional', key + ' ways', not others and er is not None, 'arguments bound so far are changed otherwise: %s' % others)
            if er:
                continue
            n = len(sets) + len(pushes)
            for e in sets:
                p = param_of_name(e[2], s)
                q = el_of(p) if p is not None else None
                good = q is not None and field_of(q[0], s.sig, s.s_pos) is not None and field_of(q[1], s.part, s.b_count) is not None and e[1] == s.b_map
                C.ob('positional', key + ' name', good, 'a positional argument is stored under something other than the name of the next positional parameter: ' + show(e[2]))
                c = coerced(e[3])
                C.ob('positional', key + ' type', bool(c) and c[0] is walk(v) and p is not None and field_of(c[1], s.param, s.p_type) is p,
                     'a positional argument is stored without being coerced to the type of its parameter: ' + show(e[3]))
                kinds.add('param')
            for e in pushes:
                c = coerced(e[1])
                t = c[1] if c else None
                if t is not None and t.t == 'app' and t.a[0] == 'component':
                    q = field_of(t.a[1], s.param, s.p_type)
                    q = field_in(q, s.sig, s.s_sp)
                else:
                    q = False
                C.ob('positional', key + ' spread', bool(c) and c[0] is walk(v) and q, 'a further positional argument is stored without being coerced to the element type of the spread: ' + show(e[1]))
                C.ob('positional', key + ' spread only when full', has_param(st, s, P) == 0, 'a positional argument goes to the spread although there is a positional parameter for it')
                kinds.add('spread')
            C.ob('positional', key + ' once', n <= 1, 'one positional argument is stored %d times' % n)
            if n == 0:
                sp = fact_of(I, st, s.sig, s.s_sp)
                C.ob('positional', key + ' dropped', has_param(st, s, P) == 0 and sp == 0, 'a positional argument is dropped although there is a parameter for it')
                kinds.add('extra')
            # counted once
            root, path = I.deref(I.symarg(b, 1))
            bi, pi = adt_field_index(P, s.binder, s.k_part), adt_field_index(P, s.part, s.b_count)
            cur = I.rd(st, root, path + (('f', bi, s.k_part, s.binder, None), ('f', pi, s.b_count, s.part, None))) if False else count_now(I, st, b, s)
            C.ob('positional', key + ' counted', cur == 1, 'an argument is counted %s times' % cur)
        C.floor('outcomes of ' + b.name, len(kinds), 3)


def count_now(I, st, b, s):
    """by how much the number of positional arguments has grown"""
    P = I.P
    a = I.symarg(b, 1)
    root, path = I.deref(a)
    v = I.rd(st, root, path)
    v = I.project(v, ('f', adt_field_index(P, s.binder, s.k_part), s.k_part, s.binder, None))
    v = I.project(v, ('f', adt_field_index(P, s.part, s.b_count), s.b_count, s.part, None))
    st0 = ai.State(mon=())
    w = I.rd(st0, root, path)
    w = I.project(w, ('f', adt_field_index(P, s.binder, s.k_part), s.k_part, s.binder, None))
    w = I.project(w, ('f', adt_field_index(P, s.part, s.b_count), s.b_count, s.part, None))
    d = add(lin(I.canon(st, v)), lin(I.canon(st0, w)), -1)
    if set(d) <= {1}:
        return d.get(1, 0)
    return None


def field_in(q, adt_, field):
    """the parameter q is the one stored in <sig>.<field>"""
    if q is None or q is False:
        return False
    q = walk(q)
    while q.t in ('as', 'fld') and field_of(q, adt_, field) is None:
        if q.t == 'fld' and q.a[2] not in (OPT, None) and q.a[2] != adt_ and not str(q.a[2]).startswith('std::'):
            return False
        q = walk(q.a[0])
    return field_of(q, adt_, field) is not None


def has_param(st, s, P=None):
    """whether a positional parameter exists at the index looked up"""
    for k, f in st.facts.items():
        if k.t == 'app' and k.a[0] == 'has' and field_of(k.a[1], s.sig, s.s_pos) is not None and field_of(k.a[2], s.part, s.b_count) is not None:
            return ival(f)
    if P is not None:
        less = lincount(st, s, P, 'less')
        return None if less is None else int(less)
    return None


def named(C, s, R, run):
    for b in R.get('named', ()):
        a, I, outs = run(b)
        ni = [i for i in range(2, b.argc + 1) if 'NameID' in b.ty(i)['s']][0]
        vi = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == VAL][0]
        n, v = I.symarg(b, ni), I.symarg(b, vi)
        kinds = set()
        key = b.name
        for st, r in outs:
            er = is_err(I, st, r)
            sets, others = events(st, 'set'), events(st, 'other', 'push')
            C.ob('named', key + ' ways', not others and er is not None, 'arguments bound so far are changed otherwise: %s' % others)
            hasn = has_named(st, s, n)
            for e in sets:
                C.ob('named', key + ' name', walk(e[2]) is walk(n), 'a named argument is stored under another name: ' + show(e[2]))
                c = coerced(e[3])
                t = c[1] if c else None
                good = False
                if t is not None and e[1] == s.b_map:
                    p = field_of(t, s.param, s.p_type)
                    q = el_of(p) if p is not None else None
                    good = hasn == 1 and q is not None and field_of(q[0], s.sig, s.s_named) is not None and walk(q[1]) is walk(n)
                    kinds.add('param')
                elif t is not None and e[1] == s.b_extra:
                    good = hasn == 0 and t.t == 'app' and t.a[0] == 'component' and bool(field_in(field_of(t.a[1], s.param, s.p_type), s.sig, s.s_nsp))
                    kinds.add('spread')
                C.ob('named', key + ' type', bool(c) and c[0] is walk(v) and good, 'a named argument is stored without being coerced to the type of its parameter, or in the wrong place: ' + show(e[3]))
                dup = e[4] == 1 or any(h[0] == 'has' and h[1] == e[1] and walk(h[2]) is walk(n) and h[3] == 1 for h in st.mon)
                if not er:
                    known = e[4] == 0 or any(h[0] == 'has' and h[1] == e[1] and walk(h[2]) is walk(n) and h[3] == 0 for h in st.mon)
                    C.ob('named', key + ' twice', known and not dup, 'a second value for a parameter is accepted')
            if not er:
                C.ob('named', key + ' stored', len(sets) == 1, 'a named argument is %s' % ('dropped' if not sets else 'stored twice'))
            elif not sets:
                # an error without a value stored: unknown name, coercion failed, or a second value
                sp = fact_of(I, st, s.sig, s.s_nsp)
                co = any(k.t == 'disc' and k.a[0].t == 'sym' and k.a[0].a[0] == 'coercion' and ival(f) == 1 for k, f in st.facts.items())
                dup = any(h[0] == 'has' and walk(h[2]) is walk(n) and h[3] == 1 for h in st.mon)
                C.ob('named', key + ' refused', co or dup or hasn == 0 and sp == 0, 'a named argument is refused although there is a parameter for it')
                if hasn == 0 and sp == 0:
                    kinds.add('unknown')
        C.floor('outcomes of ' + b.name, len(kinds), 3)


def has_named(st, s, n):
    for k, f in st.facts.items():
        if k.t == 'app' and k.a[0] == 'has' and field_of(k.a[1], s.sig, s.s_named) is not None and walk(k.a[2]) is walk(n):
            return ival(f)
    return None


def content(C, s, R, run):
    for b in R.get('content', ()):
        a, I, outs = run(b)
        vi = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == VAL][0]
        v = I.symarg(b, vi)
        kinds = set()
        key = b.name
        for st, r in outs:
            er = is_err(I, st, r)
            sets, others = events(st, 'set'), events(st, 'other', 'push')
            C.ob('content', key + ' ways', not others and er is not None, 'arguments bound so far are changed otherwise: %s' % others)
            had = [h[3] for h in events(st, 'has') if is_content_name(h[2], s) and h[1] == s.b_map]
            unit = is_unit_fact(I, st, v)
            for e in sets:
                c = coerced(e[3])
                ok = bool(c) and c[0] is walk(v) and is_content_type(c[1], s) and is_content_name(e[2], s) and e[1] == s.b_map
                C.ob('content', key + ' value', ok, 'the content is stored under another name, or without being coerced to the type of the content parameter: %s = %s' % (show(e[2]), show(e[3])))
                C.ob('content', key + ' twice', 0 in had and 1 not in had, 'content that was bound before is replaced')
                kinds.add('stored')
            if not er and not sets:
                if 1 in had:
                    C.ob('content', key + ' given twice', unit == 1, 'content given a second time is dropped')
                    kinds.add('kept')
                else:
                    anon = anonymous(st, s)
                    co = [e for e in events(st, 'coerce') if walk(e[1]) is walk(v) and is_content_type(walk(e[2]), s)]
                    C.ob('content', key + ' unchecked', bool(co) and anon == 1, 'content is accepted by a function that has no parameter for it, or dropped')
                    kinds.add('none')
            if er and not events(st, 'coerce'):
                co = any(k.t == 'disc' and k.a[0].t == 'sym' and k.a[0].a[0] == 'coercion' and ival(f) == 1 for k, f in st.facts.items())
                C.ob('content', key + ' refused', co or 1 in had and unit != 1, 'content is refused although it can be bound')
        C.floor('outcomes of ' + b.name, len(kinds), 3)


def is_content_name(t, s):
    p = param_of_name(t, s)
    return p is not None and field_of(p, s.sig, s.s_cont) is not None


def is_content_type(t, s):
    p = field_of(t, s.param, s.p_type)
    return p is not None and field_of(p, s.sig, s.s_cont) is not None


def is_unit_fact(I, st, v):
    """1 known to be nothing, 0 known not to be, None unknown"""
    P = I.P
    hv = [x['name'] for x in P.adts[VAL]['variants']].index('HTML')
    c = I.project(I.project(walk(v), ('d', hv, VAL)), ('f', 0, '0', VAL, None))
    from rules.match import poss
    pv = poss(P, st, walk(v), VAL)
    if 'HTML' not in pv:
        return 0
    ph = poss(P, st, c, HTML)
    if pv == {'HTML'} and ph == {'Empty'}:
        return 1
    if 'Empty' not in ph:
        return 0
    return None


def anonymous(st, s):
    """whether the function has no content parameter, as far as it was looked at"""
    for k, f in st.facts.items():
        if k.t == 'eq':
            ts = [x for x in k.a if isinstance(x, T)]
            if any(is_content_name(y, s) for x in ts for y in subterms(x) if y.t == 'fld'):
                return ival(f)
    return None


def element_params(st, s, fields):
    """the elements of the given collections of parameters that the state talks about"""
    out = set()
    terms_ = [k for k in st.facts] + [x for e in st.mon for x in e if isinstance(x, T)]
    for t in terms_:
        for x in subterms(t):
            if x.t == 'fld' and x.a[2] == s.param:
                e = el_of(x.a[0])
                if e is not None and e[1].t == 'el' and seq_of(e[0], s) in fields:
                    out.add(walk(x.a[0]))
    return out


def begun(I, st, s):
    """elements of a collection of parameters this path stopped at"""
    out = set()
    for E in element_params(st, s, {s.s_named, s.s_pos}):
        el = el_of(E)[1]
        filtered = any(o[0] == 'filter' for b, ops in I.iters.get(el, ()) for o in ops)
        if not filtered or any(x is el for e in st.mon for y in e if isinstance(y, T) for x in subterms(y)):
            out.add(E)
    return out


def seq_of(t, s):
    for _ in range(6):
        t = walk(t)
        if t.t == 'app' and t.a[0] == 'subslice':
            t = t.a[1]
            continue
        for n in (s.s_pos, s.s_named):
            if field_of(t, s.sig, n) is not None:
                return n
        return None
    return None


def elem_fact(st, E, s, field):
    for k, f in st.facts.items():
        x = k.a[0] if k.t == 'disc' else k
        if isinstance(x, T):
            b = field_of(x, s.param, field)
            if b is not None and walk(b) is walk(E):
                v = ival(f)
                if v is not None:
                    return v
    return None


def elem_has(st, E, s, w):
    return [h[3] for h in events(st, 'has') if h[1] == w and param_of_name(h[2], s) is not None and walk(param_of_name(h[2], s)) is walk(E)]


def whole(I, E, s):
    """the iteration E comes from covers its collection without leaving elements out"""
    q = el_of(E)
    its = I.iters.get(q[1], ())
    # what a filter rejects is judged like any other element
    also = ('filter', 'skip') if seq_of(q[0], s) == s.s_pos else ('filter',)
    return bool(its) and all(all(o[0] in PLAIN or o[0] in also for o in ops) for b, ops in its)


def implicit(C, s, R, run):
    for b in R.get('implicit', ()):
        a, I, outs = run(b)
        key = b.name
        nset = 0
        for ctx, st in a.ends:
            for E in element_params(st, s, {s.s_named, s.s_pos}):
                if not I.owned(el_of(E)[1], *ctx):
                    continue
                imp = elem_fact(st, E, s, s.p_impl)
                had = elem_has(st, E, s, s.b_map)
                sets = [e for e in events(st, 'set') if param_of_name(e[2], s) is not None and walk(param_of_name(e[2], s)) is walk(E)]
                C.ob('implicit', key + ' each', imp == 0 or 1 in had or bool(sets), 'an implicit parameter is passed over')
        for st, r in outs + [(x, None) for _, x in a.ends]:
            for e in events(st, 'set', 'push', 'other'):
                E = param_of_name(e[2], s) if e[0] == 'set' else None
                if E is None or el_of(E) is None or seq_of(el_of(E)[0], s) != s.s_named or e[1] != s.b_map:
                    C.ob('implicit', key + ' name', False, 'an implicit argument is stored under something other than the name of its parameter: ' + show(e[2] if e[0] == 'set' else UNIT))
                    continue
                nset += 1
                c = coerced(e[3])
                v = c[0] if c else None
                ok = v is not None and v.t == 'app' and v.a[0] == 'implicit' and walk(param_of_name(v.a[1], s) or UNIT) is walk(E)
                C.ob('implicit', key + ' variable', ok, 'the value of an implicit argument is not the implicit variable of its name: ' + show(e[3]))
                if ok:
                    d = v.a[2]
                    C.ob('implicit', key + ' default', default_ok(I, st, d, E, s), 'the default of an implicit parameter is not used: ' + show(d))
                C.ob('implicit', key + ' type', bool(c) and walk(field_of(c[1], s.param, s.p_type) or UNIT) is walk(E), 'an implicit argument is not coerced to the type of its parameter')
                C.ob('implicit', key + ' whole', whole(I, E, s), 'some implicit parameters are left out')
            if r is not None and is_err(I, st, r) is None:
                C.ob('implicit', key + ' result', False, 'the result is ' + show(r))
            if r is not None and is_err(I, st, r) is False:
                C.ob('implicit', key + ' stops', not begun(I, st, s), 'implicit parameters after one are left out')
        # the conditions a value is set under
        for ctx, st in a.ends:
            for E in element_params(st, s, {s.s_named}):
                if not I.owned(el_of(E)[1], *ctx):
                    continue
                sets = [e for e in events(st, 'set') if walk(param_of_name(e[2], s) or UNIT) is walk(E)]
                # in the first iteration that sets it, the events are those of this iteration
                if sets:
                    C.ob('implicit', key + ' only implicit', elem_fact(st, E, s, s.p_impl) == 1 and elem_has(st, E, s, s.b_map) == [0], 'a parameter that is not implicit, or has a value, gets the implicit variable')
        walks = [st for st, r in outs if is_err(I, st, r) is False]
        C.ob('implicit', key + ' looked at', bool(walks) and all(('walk', s.s_named) in st.mon for st in walks), 'implicit parameters are not looked at on some path')
        C.floor('implicit arguments stored in ' + b.name, nset, 1)


def default_ok(I, st, d, E, s):
    """d is the default of parameter E as an option"""
    d = walk(d)
    if d.t == 'adt' and d.a[0] == OPT:
        if d.a[1] == 0:
            return elem_fact(st, E, s, s.p_def) == 0
        return is_default(d.a[2][0], E, s)
    return any(field_of(x, s.param, s.p_def) is not None and walk(field_of(x, s.param, s.p_def)) is walk(E) for x in subterms(d) if x.t in ('fld', 'ref'))


def is_default(v, E, s):
    v = walk(v)
    while v.t in ('as', 'fld') and field_of(v, s.param, s.p_def) is None:
        v = walk(v.a[0])
    p = field_of(v, s.param, s.p_def)
    return p is not None and walk(p) is walk(E)


def complete(C, s, R, run):
    P = C.P
    for k in ('build', 'close'):
        for b in R.get(k, ()):
            a, I, outs = run(b, cap=400)
            key = b.name
            oks = 0
            for st, r in outs:
                er = is_err(I, st, r)
                if er:
                    continue
                oks += 1
                C.ob('complete', key + ' stops', not begun(I, st, s), 'parameters after one are left out')
                sp = fact_of(I, st, s.sig, s.s_sp)
                more = lincount(st, s, P, 'more')
                C.ob('complete', key + ' too many', sp == 1 or more is False, 'a call with too many positional arguments is made')
                if k == 'close':
                    sets = events(st, 'set', 'push', 'other')
                    C.ob('complete', key + ' unchanged', not sets, 'binding some arguments changes others')
                    v = ok_value(I, st, r)
                    f = I.symarg(b, 2)
                    good = v is not None and any(x is walk(f) for x in subterms(v)) and any(x.t == 'fld' and x.a[2] == s.binder and x.a[3] == s.k_part for x in subterms(v))
                    C.ob('complete', key + ' kept', good, 'a partially applied function does not keep the function and the arguments bound: ' + show(v if v is not None else UNIT))
                    continue
                ns = fact_of(I, st, s.sig, s.s_nsp)
                sets = events(st, 'set')
                for flag, fld_, src, nm in ((sp, s.s_sp, s.b_list, 'positional'), (ns, s.s_nsp, s.b_extra, 'named')):
                    mine = [e for e in sets if field_in(param_of_name(e[2], s), s.sig, fld_)]
                    C.ob('complete', key + ' spread looked at', flag is not None, 'the %s spread parameter is not looked at' % nm)
                    if flag == 1:
                        C.ob('complete', key + ' %s spread' % nm, len(mine) == 1, 'the %s spread parameter gets %d values' % (nm, len(mine)))
                    for e in mine:
                        c = coerced(e[3])
                        ok = bool(c) and any(x.t == 'fld' and x.a[2] == s.part and x.a[3] == src for x in subterms(c[0])) and field_in(field_of(c[1], s.param, s.p_type), s.sig, fld_) and e[1] == s.b_map
                        if ok and src == s.b_list:
                            ok = whole_list(c[0], s)
                        C.ob('complete', key + ' %s spread value' % nm, ok, 'the %s spread parameter gets something other than the further arguments, coerced to its type: %s' % (nm, show(e[3])))
                less = lincount(st, s, P, 'less')
                C.ob('complete', key + ' positional looked at', less is False or ('walk', s.s_pos) in st.mon, 'positional parameters without an argument are not looked at')
                C.ob('complete', key + ' named looked at', ('walk', s.s_named) in st.mon, 'named parameters without an argument are not looked at')
                v = ok_value(I, st, r)
                bad = v is None or any(x.t == 'fld' and x.a[2] == s.part and x.a[3] != s.b_map for x in [walk(v)])
                C.ob('complete', key + ' result', not bad, 'the arguments passed are not those bound: ' + show(v if v is not None else UNIT))
                C.ob('complete', key + ' otherwise', not events(st, 'other', 'push'), 'arguments bound are changed otherwise')
            nset = 0
            for st, r in outs + [(x, None) for _, x in a.ends]:
                for e in events(st, 'set'):
                    p = param_of_name(e[2], s)
                    if p is not None and (field_in(p, s.sig, s.s_sp) or field_in(p, s.sig, s.s_nsp)):
                        continue
                    q = el_of(p) if p is not None else None
                    n = seq_of(q[0], s) if q else None
                    C.ob('complete', key + ' default of', n is not None and is_default(e[3], p, s) and e[1] == s.b_map, 'a parameter without an argument gets something other than its default: %s = %s' % (show(e[2]), show(e[3])))
                    if n:
                        nset += 1
                        C.ob('complete', key + ' %s left out' % n, whole(I, p, s) and (n != s.s_pos or from_count(I, p, s)), 'some parameters without an argument are left out')
                    if n == s.s_named and e[4] == 1:
                        # only with the key known to be absent
                        C.ob('complete', key + ' replaced', any(h[3] == 0 and walk(h[2]) is walk(e[2]) for h in events(st, 'has')), 'a default replaces an argument')
            for ctx, st in a.ends:
                for E in element_params(st, s, {s.s_pos, s.s_named}):
                    q = el_of(E)
                    if not I.owned(q[1], *ctx):
                        continue
                    n = seq_of(q[0], s)
                    sets = [e for e in events(st, 'set') if walk(param_of_name(e[2], s) or UNIT) is walk(E)]
                    had = n == s.s_named and 1 in elem_has(st, E, s, s.b_map)
                    before = n == s.s_pos and has_before(I, st, E, s)
                    C.ob('complete', key + ' each %s' % n, bool(sets) or had or before, 'a parameter without an argument or default is passed over')
            if k == 'build':
                C.floor('defaults used in ' + b.name, nset, 2)
            C.floor('successful outcomes of ' + b.name, oks, 1)


def whole_list(v, s):
    for x in subterms(v):
        if x.t == 'app' and x.a[0] in ('subslice', 'split_at'):
            return False
    return True


def from_count(I, E, s):
    """the iteration over positional parameters starts at the first without an argument (or the beginning)"""
    q = el_of(E)
    t = walk(q[0])
    if t.t == 'app' and t.a[0] == 'subslice':
        lo, hi = bounds(t.a[2])
        return hi is None and (lo is None or field_of(lo, s.part, s.b_count) is not None)
    its = I.iters.get(q[1], ())
    for b, ops in its:
        for o in ops:
            if o[0] == 'skip' and field_of(o[1], s.part, s.b_count) is None:
                return False
    return True


def has_before(I, st, E, s):
    """the parameter's position is known to be below the number of positional arguments"""
    ci = adt_field_index(I.P, s.part, s.b_count)
    q = el_of(E)
    for k, f, c in linfacts(st):
        if k == 'lt' and any(isinstance(a, tuple) and a[0] == 'k' for a in f):
            cs = [a for a in f if isinstance(a, tuple) and a[0] not in ('len', 'k') and isinstance(a[1], tuple) and a[1][-1:] == (ci,)]
            ks = [a for a in f if isinstance(a, tuple) and a[0] == 'k']
            if len(cs) == 1 and len(ks) == 1:
                if f[ks[0]] == 1 and f[cs[0]] == -1 and f.get(1, 0) == 0 and c == 1:
                    return True
                if f[ks[0]] == -1 and f[cs[0]] == 1 and f.get(1, 0) == -1 and c == 0:
                    return True
    return False



ARG = 'parser::ast::Arg'
CALL = 'parser::ast::FuncCall'
FUNC = 'compiler::func::Func'


def at(t, adt_, ty, P, base=None):
    """t is the field of type `ty` of an `adt_` (that is `base`)"""
    t = walk(t)
    if t.t == 'ref' and t.a[1] and t.a[1][-1][0] == 'f' and t.a[1][-1][3] == adt_:
        return P.field_type(adt_, t.a[1][-1][2]) == ty
    return t.t == 'fld' and t.a[2] == adt_ and P.field_type(adt_, t.a[3]) == ty


def src_value(v):
    """the expression a value was evaluated from, and whether it is used as a collection"""
    conv = False
    v = walk(v)
    while v.t == 'app' and v.a[0] == 'converted':
        conv = True
        v = walk(v.a[1])
    if v.t == 'app' and v.a[0] == 'evaluated':
        return walk(v.a[1]), conv
    return None, conv


def conv_in(t):
    return [x for x in subterms(t) if x.t == 'app' and x.a[0] == 'converted']


def each_of(I, t):
    """(converted term, component) if t is an element of the whole of a collection converted from a value"""
    t = walk(t)
    part = 'value'
    if t.t == 'fld' and t.a[3] in ('key', 'value'):
        part = t.a[3]
        t = walk(t.a[0])
    if t.t != 'idx' or t.a[1].t != 'el':
        return None
    cs = conv_in(t)
    its = I.iters.get(t.a[1], ())
    plain = bool(its) and all(all(o[0] in PLAIN for o in ops) for b, ops in its)
    subs = [x for x in subterms(t.a[0]) if x.t == 'app' and x.a[0] == 'subslice']
    if not cs or not plain or len(subs) > 1:
        return None
    return cs[0], part


def hint_ok(P, st, h, s, kind, I):
    h = walk(h)
    if h.t == 'adt' and h.a[0] == TYPE:
        return P.adts[TYPE]['variants'][h.a[1]]['name'] == 'Any'
    comp = False
    if h.t == 'app' and h.a[0] == 'component':
        h, comp = walk(h.a[1]), True
    p = field_of(h, s.param, s.p_type)
    if p is None:
        return False
    if kind == 'positional':
        if comp:
            return bool(field_in(p, s.sig, s.s_sp)) and has_param(st, s, P) == 0
        q = el_of(p)
        return q is not None and field_of(q[0], s.sig, s.s_pos) is not None and field_of(q[1], s.part, s.b_count) is not None
    if kind == 'named':
        if comp:
            return bool(field_in(p, s.sig, s.s_nsp))
        q = el_of(p)
        return q is not None and field_of(q[0], s.sig, s.s_named) is not None and at(q[1], ARG, NAMEID(P), P)
    return not comp and field_of(p, s.sig, s.s_cont) is not None


def NAMEID(P):
    return [t for t in (P.field_type(ARG, f) for f in P.field_names(ARG)) if t and 'NameID' in t][0]


OPS = ('positional', 'named', 'content', 'implicit', 'arg', 'content expr', 'build', 'close')


def failed(st, *names):
    """a fallible operation of that name failed on this path"""
    return any(k.t == 'disc' and k.a[0].t == 'sym' and k.a[0].a[0] in names and ival(f) == 1 for k, f in st.facts.items())


def argument(C, s, R, run):
    P = C.P
    sk = [t for t in (P.field_type(ARG, f) for f in P.field_names(ARG)) if t and t.endswith('SpreadKind')]
    C.floor('kinds of argument', len(sk), 1)
    if not sk:
        return
    kindfld = [f for f in P.field_names(ARG) if P.field_type(ARG, f) == sk[0]][0]
    for b in R.get('arg', ()):
        a, I, outs = run(b, cap=500)
        key = b.name
        found = set()

        def kinds_of(st):
            left = None
            for k in st.facts:
                for x in subterms(k):
                    if x.t == 'fld' and x.a[2] == ARG and x.a[3] == kindfld:
                        left = poss_kind(P, st, x, sk[0])
            return left or {'NoSpread', 'Positional', 'Named'}

        def anon(st):
            for k, f in st.facts.items():
                if k.t == 'eq' and any(x.t == 'fld' and x.a[2] == ARG and x.a[3] != kindfld for y in k.a if isinstance(y, T) for x in subterms(y)):
                    return ival(f)
            return None

        def judge(st, e):
            """one value bound"""
            kd, an = kinds_of(st), anon(st)
            good = False
            if e[0] == 'positional':
                x, conv = src_value(e[2])
                if x is not None and not conv:
                    good = at(x, ARG, 'parser::ast::Expr', P) and kd == {'NoSpread'} and an == 1
                    found.add('positional')
                else:
                    q = each_of(I, e[2])
                    good = q is not None and q[1] == 'value' and at(src_value(q[0])[0] or UNIT, ARG, 'parser::ast::Expr', P) and 'Positional' in kd and 'NoSpread' not in kd and ('Named' not in kd or an == 1 and kd == {'Positional'})
                    found.add('spread')
            elif e[0] == 'named':
                x, conv = src_value(e[3])
                if x is not None and not conv:
                    good = at(x, ARG, 'parser::ast::Expr', P) and 'NoSpread' in kd and an == 0 and at(e[2], ARG, NAMEID(P), P)
                    found.add('named')
                else:
                    q, n = each_of(I, e[3]), each_of(I, e[2])
                    good = q is not None and n is not None and q[0] is n[0] and q[1] == 'value' and n[1] == 'key' and at(src_value(q[0])[0] or UNIT, ARG, 'parser::ast::Expr', P) and 'NoSpread' not in kd
                    found.add('named spread')
            C.ob('argument', key + ' as ' + e[0], good, 'an argument (%s, %s) is bound as %s: %s' % ('/'.join(sorted(kd)), 'anonymous' if an else 'named', e[0], ', '.join(show(x) for x in e[2:])))
        for ctx, st in a.ends:
            for e in events(st, *OPS):
                if not any(x.t == 'el' for y in e if isinstance(y, T) for x in subterms(y)):
                    continue
                if e[0] in ('positional', 'named'):
                    judge(st, e)
                else:
                    C.ob('argument', key + ' as ' + e[0], False, 'an argument is bound as ' + e[0])
            if any(x.t == 'el' and I.owned(x, *ctx) for e in events(st, 'positional', 'named') for y in e if isinstance(y, T) for x in subterms(y)) is False and ctx_walks(I, ctx, a, st):
                C.ob('argument', key + ' each', False, 'an element of a spread argument is passed over')
        for st, r in outs:
            er = is_err(I, st, r)
            if er:
                C.ob('argument', key + ' refused', failed(st, 'evaluation', 'positional', 'named'), 'an argument is refused although it can be bound')
                continue
            ops = events(st, *OPS)
            evs = events(st, 'eval')
            C.ob('argument', key + ' evaluated', len(evs) == 1 and at(evs[0][1], ARG, 'parser::ast::Expr', P) and er is False, 'an argument is evaluated %d times' % len(evs))
            for e in ops:
                if e[0] in ('positional', 'named'):
                    judge(st, e)
                else:
                    C.ob('argument', key + ' as ' + e[0], False, 'an argument is bound as ' + e[0])
            if not ops:
                spread = any(e[0] == 'walk' and isinstance(e[1], T) for e in st.mon)
                C.ob('argument', key + ' dropped', spread and 'NoSpread' not in kinds_of(st), 'an argument is dropped')
            C.ob('argument', key + ' bound once', len(ops) <= 1, 'an argument is bound %d times' % len(ops))
            for e in evs:
                if 'NoSpread' in kinds_of(st):
                    C.ob('argument', key + ' hint', hint_ok(P, st, e[2], s, 'positional' if anon(st) else 'named', I), 'an argument is evaluated as the type of another parameter: ' + show(e[2]))
        C.floor('kinds of argument bound by ' + b.name, len(found), 4)
    for b in R.get('content expr', ()):
        a, I, outs = run(b)
        key = b.name
        node = I.symarg(b, 2)
        n = 0
        for st, r in outs:
            er = is_err(I, st, r)
            if er:
                C.ob('argument', key + ' refused', failed(st, 'evaluation', 'content'), 'the content is refused although it can be bound')
                continue
            n += 1
            ops, evs = events(st, *OPS), events(st, 'eval')
            C.ob('argument', key + ' evaluated', len(evs) == 1 and walk(evs[0][1]) is walk(node) and hint_ok(P, st, evs[0][2], s, 'content', I), 'the content is not evaluated once, as the type of the content parameter')
            C.ob('argument', key + ' bound', len(ops) == 1 and ops[0][0] == 'content' and src_value(ops[0][2]) == (walk(node), False), 'the content of a call is not bound as its content')
        C.floor('outcomes of ' + b.name, n, 1)


def ctx_walks(I, ctx, a, st):
    return True


def poss_kind(P, st, x, path):
    """variants still possible, looking at comparisons of discriminants"""
    left = {v['name'] for v in P.adts[path]['variants']}
    names_ = [v['name'] for v in P.adts[path]['variants']]
    for k, f in st.facts.items():
        if k.t == 'disc' and walk(k.a[0]) is walk(x):
            if f[0] == '=':
                left &= {names_[ival(f)]}
            elif f[0] == '!':
                left -= {names_[c.a[0] if isinstance(c, T) else c] for c in f[1]}
    return left


def the_func(t, f, I):
    """t is the function value given by argument f"""
    t = walk(t)
    return t is walk(f)


def calls(C, s, R, rl):
    P = C.P
    rootids = {i for k, i in rl}
    binders = []
    cg = P.call_graph()
    for b in C.lib():
        if b.parent or b.kind == 'promoted' or not b.argc or s_binder(s, b):
            continue
        mine = [x for x in C.lib() if C.owner(x).id == b.id]
        if any(c in {i for k, i in rl if k in ('build', 'close')} for x in mine for c in cg.get(x.id, ())):
            binders.append(b)
    sigs = {b.id for b in C.lib() if b.argc == 1 and b.ty(1)['s'] in ('&' + FUNC,) and s.rc and b.ty(0)['s'] == s.rc}
    invoke = {b.id for b in C.lib() if not b.parent and b.argc >= 3 and FUNC in [b.ty(i)['s'] for i in range(1, b.argc + 1)] and any('IndexMap' in b.ty(i)['s'] for i in range(2, b.argc + 1)) and VAL in b.ty(0)['s'] and '&' + TYPE in [b.ty(i)['s'] for i in range(1, b.argc + 1)]}
    C.floor('functions that bind the arguments of a call', len(binders), 4)
    C.floor('signature of a function', len(sigs), 1)
    C.floor('functions that run a call', len(invoke), 1)

    class B(A):
        def opaque(self, I, st, ctx, b, args):
            if b.id in sigs:
                return [(st, mk('app', 'signature', walk(I.canon(st, args[0]))))]
            if b.id in self.run:
                tys = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
                a = [I.canon(st, x) for x in args]
                f, m, h = a[tys.index(FUNC)], a[[i for i, t in enumerate(tys) if 'IndexMap' in t][0]], a[tys.index('&' + TYPE)]
                return self.fallible(I, st, mk('sym', 'call', ctx.inst('bind')), ('invoke', f, m, h), mk('app', 'result', f, m, h))
            tys = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
            if any(t.endswith('NativeFunc') for t in tys) and any('IndexMap' in t for t in tys) and VAL in b.ty(0)['s']:
                a = [I.canon(st, x) for x in args]
                f, m = a[[i for i, t in enumerate(tys) if t.endswith('NativeFunc')][0]], a[[i for i, t in enumerate(tys) if 'IndexMap' in t][0]]
                return self.fallible(I, st, mk('sym', 'native', ctx.inst('bind')), ('native', f, m), mk('app', 'native result', f, m))
            if b.id in self.bind:
                a = [I.canon(st, x) for x in args]
                return self.fallible(I, st, mk('sym', 'binding', ctx.inst('bind')), ('bind',) + tuple(a), mk('app', 'bindings', *a))
            return A.opaque(self, I, st, ctx, b, args)

        def loop_back(self, I, st, ctx, head, key):
            A.loop_back(self, I, st, ctx, head, key)

    def go(b, run=(), bind=(), cap=400):
        a = B(C, s, [(k, i) for k, i in rl if i != b.id])
        a.run, a.bind = set(run) - {b.id}, set(bind) - {b.id}
        a.stops = a.stops | sigs | a.run | a.bind
        a.stops -= {b.id}
        outs = C.explore(b, a, mon=(), cap=cap)
        return a, C.lastI, outs

    for b in binders:
        tys = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
        fi = [i for i, t in enumerate(tys) if t in (FUNC, '&' + FUNC)]
        key = b.name
        C.ob('call', key + ' of a function', len(fi) == 1, 'arguments are bound for something other than a function')
        if len(fi) != 1:
            continue
        a, I, outs = go(b)
        f = walk(I.symarg(b, fi[0] + 1))
        ci = [i for i, t in enumerate(tys) if t == '&' + CALL]
        vals = [walk(I.symarg(b, i + 1)) for i, t in enumerate(tys) if t == VAL]
        flags = [walk(I.symarg(b, i + 1)) for i, t in enumerate(tys) if t == 'bool']
        colls = {walk(I.symarg(b, i + 1)): ('positional' if '[' in t else 'named') for i, t in enumerate(tys) if t in ('&[%s]' % VAL,) or 'IndexMap' in t}
        inloop = set()
        for ctx, st in a.ends:
            for e in events(st, *OPS):
                els = [x for y in e[2:] if isinstance(y, T) for x in subterms(y) if x.t == 'el' and I.owned(x, *ctx)]
                if not els:
                    continue
                for el in els:
                    its = I.iters.get(el, ())
                    plain = bool(its) and all(all(o[0] in PLAIN for o in ops) for bs, ops in its)
                    C.ob('call', key + ' all', plain, 'some arguments of a call are left out')
                v = walk(e[-1])
                while v.t == 'fld' and v.a[3] in ('value',):
                    v = walk(v.a[0])
                base = walk(v.a[0]) if v.t == 'idx' else None
                if e[0] == 'arg':
                    C.ob('call', key + ' arguments', bool(ci) and base is not None and base.t == 'fld' and base.a[2] == CALL and base.a[3] == 'args', 'the arguments bound are not those of the call')
                    inloop.add('args')
                elif e[0] in ('positional', 'named'):
                    C.ob('call', key + ' ' + e[0], colls.get(base) == e[0], 'the arguments bound are not those given')
                    inloop.add(base)
                else:
                    C.ob('call', key + ' repeats', False, 'an argument is bound again and again')
        n = 0
        for st, r in outs:
            if is_err(I, st, r):
                C.ob('call', key + ' refused', failed(st, *OPS), 'a call is refused although its arguments can be bound')
                continue
            n += 1
            ops = events(st, *OPS)
            fin = [e for e in ops if e[0] in ('build', 'close')]
            C.ob('call', key + ' made', len(fin) == 1 and ops[-1] is fin[0], 'the arguments bound are not checked')
            if len(fin) != 1:
                continue
            k = walk(fin[0][1])
            sig, bound = None, None
            if k.t == 'adt' and k.a[0] == s.binder:
                sig = walk(k.a[2][adt_field_index(P, s.binder, s.k_sig)])
                bound = walk(k.a[2][adt_field_index(P, s.binder, s.k_part)])
            C.ob('call', key + ' signature', sig is not None and sig.t == 'app' and sig.a[0] == 'signature' and the_func(sig.a[1], f, I), 'arguments are bound to the signature of another function')
            fv = poss_kind(P, st, f, FUNC)
            if fv == {'Bound'}:
                ok = bound is not None and any(x is f for x in subterms(bound)) and bound.t != 'adt'
                C.ob('call', key + ' earlier arguments', ok, 'arguments bound earlier are dropped: ' + show(bound or UNIT))
            else:
                ok = bound is not None and 'Bound' not in fv and fresh(P, bound, s)
                C.ob('call', key + ' no earlier arguments', ok, 'a call starts with arguments it was not given: ' + show(bound or UNIT))
            if fin[0][0] == 'close':
                C.ob('call', key + ' function', the_func(fin[0][2], f, I), 'arguments are bound to another function')
            v = ok_value(I, st, r)
            C.ob('call', key + ' result', v is not None and walk(v).t == 'app' and walk(v).a[0] == fin[0][0] and walk(v).a[1] is fin[0][1], 'the result is not the arguments bound: ' + show(v or UNIT))
            kinds_ = [e[0] for e in ops]
            if ci:
                ce = [e for e in ops if e[0] == 'content expr']
                C.ob('call', key + ' content', len(ce) == 1 and field_of(ce[0][2], CALL, 'content') is not None, 'the content of the call is not bound once')
                C.ob('call', key + ' implicit', kinds_.count('implicit') == 1, 'implicit arguments are bound %d times' % kinds_.count('implicit'))
                w = [i for i, e in enumerate(st.mon) if e[0] == 'walk' and isinstance(e[1], T) and walk(e[1]).t == 'fld' and walk(e[1]).a[2] == CALL]
                ii = [i for i, e in enumerate(st.mon) if e[0] == 'implicit']
                C.ob('call', key + ' order', bool(w) and bool(ii) and w[0] < ii[0], 'arguments are bound after the implicit ones')
            if flags:
                on = None
                for kf, ff in st.facts.items():
                    if walk(kf) is flags[0]:
                        on = ival(ff)
                C.ob('call', key + ' implicit', on is not None and kinds_.count('implicit') == on, 'implicit arguments are bound %d times' % kinds_.count('implicit'))
            for v in vals:
                mine = [e for e in ops if e[0] in ('positional', 'content') and walk(e[2]) is v]
                unit = is_unit_fact(I, st, v)
                C.ob('call', key + ' value', len(mine) == 1 or not mine and unit == 1, 'a value given for a parameter is bound %d times' % len(mine))
            for c, k in colls.items():
                C.ob('call', key + ' collection', c in inloop and any(e[0] == 'walk' and isinstance(e[1], T) and walk(e[1]) is c for e in st.mon), 'the arguments given are not all bound')
        if ci:
            C.ob('call', key + ' has arguments', 'args' in inloop, 'the arguments of a call are not bound')
        C.floor('calls bound in ' + b.name, n, 1)
    bids = {b.id for b in binders}
    # making a call
    callers = [b for b in C.lib() if not b.parent and b.argc and '&' + CALL in [b.ty(i)['s'] for i in range(1, b.argc + 1)] and VAL in b.ty(0)['s'] and b.id not in bids]
    C.floor('functions that evaluate a call', len(callers), 1)
    for b in callers:
        a, I, outs = go(b, run=invoke, bind=bids)
        tys = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
        hint = walk(I.symarg(b, tys.index('&' + TYPE) + 1)) if '&' + TYPE in tys else None
        callv = walk(I.symarg(b, tys.index('&' + CALL) + 1))
        key = b.name
        made = 0
        for st, r in outs:
            if is_err(I, st, r):
                none = failed(st, 'coercion') and not events(st, 'bind') and not events(st, 'invoke') and all(unit_value(P, e[1]) for e in events(st, 'coerce'))
                C.ob('call', key + ' refused', none or failed(st, 'lookup', 'binding', 'call', 'evaluation'), 'a call fails although it can be made')
                continue
            lk, bd, iv = events(st, 'lookup'), events(st, 'bind'), events(st, 'invoke')
            C.ob('call', key + ' function', len(lk) == 1 and field_of(lk[0][1], CALL, 'func') is not None, 'the function called is not looked up once')
            v = ok_value(I, st, r)
            if not iv:
                C.ob('call', key + ' not made', not bd and v is not None and unit_value(P, v), 'a call is not made, and the result is something other than nothing')
                continue
            made += 1
            fn = src_value(iv[0][1])[0]
            fn = fn if fn is not None else next((x.a[1] for x in subterms(iv[0][1]) if x.t == 'app' and x.a[0] == 'evaluated'), None)
            ok = len(bd) == 1 and len(iv) == 1 and fn is not None and field_of(fn, CALL, 'func') is not None
            C.ob('call', key + ' function called', ok, 'the function called is not the one named')
            m = walk(iv[0][2])
            ok = len(bd) == 1 and m.t == 'app' and m.a[0] == 'bindings' and any(walk(x) is callv for x in m.a[1:] if isinstance(x, T)) and any(same_func(x, iv[0][1]) for x in m.a[1:] if isinstance(x, T))
            C.ob('call', key + ' bindings', ok, 'the function is called with the arguments of another')
            C.ob('call', key + ' type', hint is None or walk(iv[0][3]) is hint, 'the result is wanted as another type')
            C.ob('call', key + ' result', v is not None and walk(v).t == 'app' and walk(v).a[0] == 'result', 'the result of a call is something else: ' + show(v or UNIT))
        C.floor('calls made by ' + b.name, made, 1)
    for i in sorted(invoke):
        b = P.bodies[i]
        tys = [b.ty(j)['s'] for j in range(1, b.argc + 1)]
        a = B(C, s, rl)
        a.run, a.bind = set(invoke), set(bids)
        a.stops = a.stops | sigs | a.bind | a.run
        outs = C.explore(b, a, mon=(), cap=400)
        I = C.lastI
        f = walk(I.symarg(b, tys.index(FUNC) + 1))
        m = walk(I.symarg(b, [j for j, t in enumerate(tys) if 'IndexMap' in t][0] + 1))
        hint = walk(I.symarg(b, tys.index('&' + TYPE) + 1))
        key = b.name
        ways = set()
        for st, r in outs:
            if is_err(I, st, r):
                continue
            fv = poss_kind(P, st, f, FUNC)
            nat, iv, co = events(st, 'native'), events(st, 'invoke'), events(st, 'coerce')
            v = walk(ok_value(I, st, r) or UNIT)
            if fv == {'Native'}:
                ways.add('Native')
                ok = len(nat) == 1 and walk(nat[0][2]) is m and any(x is f for x in subterms(nat[0][1])) and not iv
                C.ob('call', key + ' native', ok, 'a built-in function is called otherwise than with the arguments bound')
                c = coerced(v)
                C.ob('call', key + ' native type', bool(c) and c[0].t == 'app' and c[0].a[0] == 'native result' and c[1] is hint, 'the result of a built-in function is not coerced to the type wanted: ' + show(v))
            elif fv == {'Bound'}:
                ways.add('Bound')
                ok = len(iv) == 1 and walk(iv[0][2]) is m and any(x is f for x in subterms(iv[0][1])) and walk(iv[0][1]) is not f and walk(iv[0][3]) is hint and not nat
                C.ob('call', key + ' partially applied', ok, 'calling a partially applied function calls another, or with other arguments')
                C.ob('call', key + ' partially applied result', v.t == 'app' and v.a[0] == 'result', 'the result of a partially applied function is something else')
            else:
                ways.add('NonNative')
                C.ob('call', key + ' defined', fv == {'NonNative'} and not nat and not iv, 'a call of a defined function calls something else')
                ev = events(st, 'eval')
                C.ob('call', key + ' body', len(ev) == 1 and any(x is f for x in subterms(ev[0][1])) and walk(ev[0][2]) is hint, 'the body of the function is not evaluated once, as the type wanted')
        C.floor('kinds of function called by ' + b.name, len(ways), 3)
    for i in sorted(sigs):
        b = P.bodies[i]
        a = B(C, s, rl)
        a.run, a.bind = set(invoke), set(bids)
        a.stops = a.stops | sigs
        outs = C.explore(b, a, mon=(), cap=100)
        I = C.lastI
        f = walk(I.symarg(b, 1))
        n = set()
        for st, r in outs:
            fv = poss_kind(P, st, f, FUNC)
            n |= fv
            v = walk(I.canon(st, r))
            if fv == {'Bound'}:
                x = walk(v.a[1]) if v.t == 'app' and v.a[0] == 'signature' else None
                C.ob('call', b.name + ' partially applied', x is not None and x is not f and any(y is f for y in subterms(x)), 'the signature of a partially applied function is not that of the function applied: ' + show(v))
            else:
                C.ob('call', b.name + ' own', v.t != 'app' and any(y is f for y in subterms(v)), 'the signature of a function is another: ' + show(v))
        C.floor('kinds of function with a signature in ' + b.name, len(n), 3)


def same_func(x, y):
    x, y = walk(x), walk(y)
    return x is y


def unit_value(P, v):
    v = walk(v)
    return any(x.t == 'adt' and x.a[0] == HTML and P.adts[HTML]['variants'][x.a[1]]['name'] == 'Empty' for x in subterms(v)) or v.t == 'const' and 'UNIT' in str(v.a)


def fresh(P, t, s):
    """no arguments bound yet"""
    t = walk(t)
    if t.t != 'adt' or t.a[0] != s.part:
        return False
    for n, x in zip([f[0] for f in P.adts[s.part]['variants'][0]['fields']], t.a[2]):
        if n == s.b_count:
            if not (x.t == 'i' and x.a[0] == 0):
                return False
        elif any(y.t in ('sym', 'arg') or y.t == 'app' and y.a[0] in ('insert', 'push') for y in subterms(x) if y is not x or True) and x.t == 'app' and x.a[0] in ('insert', 'push'):
            return False
    return True


PAR = 'parser::ast::Param'
SIG = 'parser::ast::Signature'


def definition(C, s):
    P = C.P
    opt = {b.id for b in C.lib() if not b.parent and b.argc == 1 and b.ty(1)['s'] == TYPE and b.ty(0)['s'] == TYPE}

    class D(A):
        def opaque(self, I, st, ctx, b, args):
            if b.id in opt:
                return [(st, mk('app', 'optional', walk(I.canon(st, args[0]))))]
            if b.id in self.defs:
                return [(st, mk('app', 'parameter', walk(I.canon(st, args[1]))))]
            return A.opaque(self, I, st, ctx, b, args)
    defs = [b for b in C.lib() if not b.parent and b.argc and '&' + PAR in [b.ty(i)['s'] for i in range(1, b.argc + 1)] and b.ty(0)['s'] == s.param]
    sigs = [b for b in C.lib() if not b.parent and b.argc and '&' + SIG in [b.ty(i)['s'] for i in range(1, b.argc + 1)] and b.ty(0)['s'] == s.rc]
    C.floor('functions that declare a parameter', len(defs), 1)
    C.floor('functions that declare a signature', len(sigs), 1)
    pf = {}
    for n in P.field_names(PAR):
        pf[n] = P.field_type(PAR, n)
    tyf = [n for n, t in pf.items() if t == TYPE]
    deff = [n for n, t in pf.items() if 'Expr' in t]
    idf = [n for n, t in pf.items() if 'NameID' in t]
    bools = [n for n, t in pf.items() if t == 'bool']
    impf = [n for n in bools if 'implicit' in n]
    qf = [n for n in bools if n not in impf]
    good = len(tyf) == len(deff) == len(idf) == len(impf) == len(qf) == 1
    C.floor('parts of a parameter declaration', int(good), 1)
    if not good:
        return
    for b in defs:
        a = D(C, s)
        a.defs = set()
        a.stops = a.stops | opt
        outs = C.explore(b, a, mon=(), cap=200)
        I = C.lastI
        key = b.name

        def val(st, n):
            for k, f in st.facts.items():
                x = k.a[0] if k.t == 'disc' else k
                if field_of(x, PAR, n) is not None:
                    return ival(f)
            return None
        n = set()
        for st, r in outs:
            v = I.canon(st, r)
            if v.t != 'adt' or v.a[0] != s.param:
                C.ob('definition', key + ' result', False, 'the parameter is ' + show(v))
                continue
            g = {f: v.a[2][adt_field_index(P, s.param, f)] for f in (s.p_name, s.p_impl, s.p_type, s.p_def)}
            C.ob('definition', key + ' name', field_of(g[s.p_name], PAR, idf[0]) is not None, 'a parameter has another name: ' + show(g[s.p_name]))
            imp = walk(g[s.p_impl])
            ok = field_of(imp, PAR, impf[0]) is not None or imp.t == 'i' and val(st, impf[0]) == imp.a[0]
            C.ob('definition', key + ' implicit', ok, 'a parameter is implicit other than as declared: ' + show(imp))
            q = val(st, qf[0])
            ty = walk(g[s.p_type])
            op = ty.t == 'app' and ty.a[0] == 'optional'
            inner = walk(ty.a[1]) if op else ty
            C.ob('definition', key + ' type', field_of(inner, PAR, tyf[0]) is not None and q is not None and op == bool(q), 'a parameter has another type than declared: ' + show(ty))
            ev = events(st, 'eval')
            d = walk(g[s.p_def])
            given = val(st, deff[0])
            C.ob('definition', key + ' default looked at', given is not None, 'the default of a parameter is not looked at')
            if given == 1 and not failed(st, 'evaluation'):
                ok = len(ev) == 1 and any(field_of(x, PAR, deff[0]) is not None for x in subterms(ev[0][1])) and (walk(ev[0][2]) is ty or strip(ev[0][2]) is strip(ty))
                C.ob('definition', key + ' default evaluated', ok, 'the default of a parameter is not evaluated once, as the type of the parameter')
                x = walk(d.a[2][0]) if d.t == 'adt' and d.a[0] == OPT and d.a[1] == 1 else UNIT
                C.ob('definition', key + ' default', x.t == 'app' and x.a[0] == 'evaluated', 'the default of a parameter is something else: ' + show(d))
                n.add('given')
            elif d.t == 'adt' and d.a[0] == OPT:
                some_ = d.a[1] == 1
                C.ob('definition', key + ' optional', q is not None and some_ == bool(q) and (not some_ or unit_value(P, d.a[2][0])), 'a parameter without a default %s' % ('is optional' if some_ else 'declared optional is not'))
                n.add('none')
            else:
                C.ob('definition', key + ' default known', False, 'the default of a parameter is ' + show(d))
        C.floor('declarations seen in ' + key, len(n), 2)
    defids = {b.id for b in defs}
    for b in sigs:
        a = D(C, s)
        a.defs = defids
        a.stops = a.stops | opt | defids
        outs = C.explore(b, a, mon=(), cap=400)
        I = C.lastI
        key = b.name
        n = 0
        flags = [f for f in P.field_names(SIG) if P.field_type(SIG, f) == 'bool']

        def flag(st, part):
            for k, f in st.facts.items():
                for fl in flags:
                    if part(fl) and field_of(k, SIG, fl) is not None:
                        return ival(f)
            return None
        for st, r in outs:
            v = walk(I.canon(st, r))
            w = [x for x in subterms(v) if x.t == 'adt' and x.a[0] == s.sig]
            if not w:
                C.ob('definition', key + ' result', False, 'the signature is ' + show(v))
                continue
            n += 1
            for fld_, part, nm in ((s.s_sp, lambda f: 'positional' in f, 'positional spread'), (s.s_nsp, lambda f: 'named' in f, 'named spread')):
                x = walk(w[0].a[2][adt_field_index(P, s.sig, fld_)])
                if x.t == 'adt' and x.a[0] == OPT:
                    C.ob('definition', key + ' ' + nm, flag(st, part) == x.a[1], 'a function has a %s parameter other than as declared' % nm)
                    if x.a[1]:
                        C.ob('definition', key + ' %s parameter' % nm, any(y.t == 'app' and y.a[0] == 'parameter' for y in subterms(x)), 'the %s parameter is something else' % nm)
            x = walk(w[0].a[2][adt_field_index(P, s.sig, s.s_cont)])
            own = any(y.t == 'app' and y.a[0] == 'parameter' for y in subterms(x))
            C.ob('definition', key + ' content', flag(st, lambda f: 'content' in f) == int(own), 'a function has a content parameter other than as declared')
        C.floor('signatures seen in ' + key, n, 2)
