"""Built-in functions: what each gives for its arguments."""
from rules import prop
from rulelib import *
from rules.coerce import K, names_of, vname, walk, same, poss_kind, ival, deep, Opaque

VEC = 'std::vec::Vec'
HTML = 'compiler::html::HTML'
POST = ('end', 'reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'dedup', 'retain',
        'truncate', 'clear', 'swap', 'rotate_left', 'rotate_right', 'drain', 'swap_remove', 'sort_keys', 'remove', 'next_back', 'pop', 'dedup_by',
        'dedup_by_key', 'retain_mut', 'resize', 'split_off', 'nth', 'pop_if', 'shift_remove', 'split_at_mut', 'fill', 'extract_if', 'splice', 'reserve_first')
SLICE = 'utils::sliceref::SliceRef'
FUNC = 'compiler::func::Func'
VAL = 'compiler::value::Value'
TYPE = 'parser::types::Type'
RES, OPT = 'std::result::Result', 'std::option::Option'
NATIVE = 'compiler::native'


class Natives:
    """the built-in functions and the function that runs them"""
    def __init__(self, C):
        from rules import convert, coerce
        self.C, P = C, C.P
        self.P = P
        T_ = P.types['papyri_lang']
        self.T_ = T_
        es = [p for p, a in P.adts.items() if a['local'] and a['enum'] and p.startswith(NATIVE) and any(
            v['fields'] and T_[v['fields'][0][1]].get('p', '').startswith(NATIVE) for v in a['variants'])]
        self.enum = es[0] if len(es) == 1 else None
        C.floor('enumeration of built-in functions', len(es), 1)
        self.body = None
        if self.enum:
            bs = [b for b in C.lib() if not b.parent and b.kind != 'promoted' and any(b.ty(i)['s'] == self.enum for i in range(1, b.argc + 1))
                  and b.ty(0)['s'].startswith(RES + '<' + VAL)]
            C.floor('function that runs built-in functions', len(bs), 1)
            if bs:
                self.body = max(bs, key=lambda b: len(b.blocks))
        self.ids = str_ids(P)
        self.byid = {v: k for k, v in self.ids.items()} if self.ids else {}

    def all(self):
        P = self.P
        for i, v in enumerate(P.adts[self.enum]['variants']):
            sub = self.T_[v['fields'][0][1]].get('p') if v['fields'] else None
            if sub and sub.startswith(NATIVE):
                for j, w in enumerate(P.adts[sub]['variants']):
                    yield v['name'] + '::' + w['name'], mk('adt', self.enum, i, (mk('adt', sub, j, ()),))
            else:
                yield v['name'], mk('adt', self.enum, i, ())


def method_of(b, path):
    """name, if this is a method of the type"""
    if b.parent or not b.argc or b.kind in ('closure', 'promoted'):
        return None
    t = b.ty(1)
    s = t['s'].lstrip('&').replace('mut ', '')
    return b.name.rsplit('::', 1)[-1] if s.startswith(path) else None


class N(K):
    """events: what is pushed, collected, stored for each element"""
    def __init__(self, C, nat, V, extra=None):
        K.__init__(self, C)
        self.nat, self.V = nat, V
        self.slices = {}
        for b in C.lib():
            n = method_of(b, SLICE)
            if n and (b.name.startswith('utils::sliceref') or '<' + SLICE in b.name):
                self.slices[b.id] = n
        self.binders = {b.id for b in C.lib() if not b.parent and b.kind != 'promoted' and b.argc >= 3 and b.ty(1)['s'] == '&' + FUNC
                        and any(b.ty(i)['s'] == 'bool' for i in range(2, b.argc + 1)) and b.ty(0)['s'].startswith(RES)}
        self.callers = {b.id for b in C.lib() if not b.parent and b.kind != 'promoted' and b.argc >= 3 and b.ty(0)['s'].startswith(RES + '<' + VAL)
                        and any(b.ty(i)['s'] == FUNC for i in range(1, b.argc + 1)) and any(b.ty(i)['s'] == '&' + TYPE for i in range(1, b.argc + 1))}
        self.partial = {b.id for b in C.lib() if not b.parent and b.kind != 'promoted' and b.argc >= 3 and b.ty(1)['s'] == '&' + FUNC and b.id not in self.binders
                        and b.ty(0)['s'].startswith(RES)}
        self.eqs = set()
        for b in C.lib():
            if b.name.endswith('::eq') and b.argc == 2 and b.ty(1)['s'] == '&' + VAL:
                self.eqs.add(b.id)
        self.extra = extra or {}
        self.ends = []
        self.naming, self.idof, self.joins, self.typeof = set(), set(), set(), set()
        for b in C.lib():
            if b.parent or b.kind in ('closure', 'promoted'):
                continue
            ins = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
            if len(ins) == 2 and ins[1].endswith('NameID') and not ins[1].startswith('&') and ('str' in b.ty(0)['s'] or 'Str' in b.ty(0)['s']) and ('StringPool' in ins[0] or 'Compiler' in ins[0] or 'Context' in ins[0]):
                self.naming.add(b.id)
            if len(ins) == 2 and 'StringPool' in ins[0] and ins[1].lstrip('&').endswith('str') and b.ty(0)['s'].startswith(OPT + '<') and 'NameID' in b.ty(0)['s']:
                self.idof.add(b.id)
            if ins == ['&' + VAL] and b.ty(0)['s'] == TYPE:
                self.typeof.add(b.id)
            if b.name.endswith('::from_iter') and b.ty(0)['s'] == HTML:
                self.joins.add(b.id)
        self.native_helpers = {b.id for b in C.lib() if not b.parent and b.kind not in ('closure', 'promoted') and b.id != nat.body.id
                               and any(SLICE in b.ty(i)['s'] or b.ty(i)['s'] in ('&[%s]' % VAL, VEC + '<%s>' % VAL) for i in range(1, b.argc + 1))}

    def inline(self, I, b):
        if b.id in self.V.must or b.id in self.slices or b.id in self.binders or b.id in self.callers or b.id in self.partial or b.id in self.eqs or b.id in self.extra or b.id in self.naming or b.id in self.typeof or b.id in self.idof or b.id in self.joins:
            return False
        if b.kind != 'closure' and {FUNC, VAL} <= {b.ty(i)['s'] for i in range(1, b.argc + 1)} and b.ty(0)['s'].startswith(RES):
            return True
        if b.id in self.native_helpers:
            return True
        if b.name.startswith('compiler::value_convert') and b.kind != 'closure' and self.small(I, b):
            return True
        return K.inline(self, I, b)

    def small(self, I, b):
        return I.reach_size(b.id) < 600

    def note(self, st, e):
        if e[0] in POST and st.mon.count(e) > 1:
            return
        if len(st.mon) < 40:
            st.mon = st.mon + (e,)

    def opaque(self, I, st, ctx, b, args):
        if b.id in self.slices:
            n = self.slices[b.id]
            x = walk(I.canon(st, args[0]))
            rest = [I.canon(st, a) for a in args[1:]]
            if n in ('as_ref', 'deref', 'borrow'):
                return [(st, mk('app', 'items', x))]
            if n == 'len':
                return [(st, I.t_len(st, mk('app', 'items', x)))]
            if n == 'is_empty':
                return [(st, I.t_eq(I.t_len(st, mk('app', 'items', x)), terms.I(0)))]
            if n == 'get':
                return [(st, mk('idx', mk('app', 'items', x), rest[0]))]
            if n == 'clone':
                return [(st, x)]
            return [(st, mk('app', 'slice.' + n, x, *rest))]
        if b.id in self.binders:
            vs = [walk(I.canon(st, a)) for i, a in enumerate(args) if b.ty(i + 1)['s'] in ('&' + FUNC, VAL)]
            return self.either(st, ctx, mk('app', 'bound', *vs))
        if b.id in self.callers:
            vs = [walk(I.canon(st, a)) for i, a in enumerate(args) if b.ty(i + 1)['s'] not in ('&' + TYPE, 'utils::sourcefile::SourceRange') and 'Compiler<' not in b.ty(i + 1)['s']]
            t = [walk(I.canon(st, a)) for i, a in enumerate(args) if b.ty(i + 1)['s'] == '&' + TYPE]
            return self.either(st, ctx, mk('app', 'called', *vs))
        if b.id in self.partial:
            vs = [walk(I.canon(st, a)) for i, a in enumerate(args) if 'Compiler<' not in b.ty(i + 1)['s']]
            return self.either(st, ctx, mk('app', 'partial', *vs))
        if b.id in self.naming:
            return [(st, mk('app', 'name', deep(I.canon(st, args[1]))))]
        if b.id in self.typeof:
            return [(st, mk('app', 'type', deep(I.canon(st, args[0]))))]
        if b.id in self.joins:
            return [(st, mk('app', 'joined', deep(I.canon(st, args[0]))))]
        if b.id in self.idof:
            k = deep(I.canon(st, args[1]))
            a, b_ = st.copy(), st.copy()
            out = []
            if I.assume(a, mk('app', 'known', k), 1):
                out.append((a, some(mk('app', 'id', k))))
            if I.assume(b_, mk('app', 'known', k), 0):
                out.append((b_, NONE))
            return out
        if b.id in self.eqs:
            return [(st, mk('app', 'equal', walk(I.canon(st, args[0])), walk(I.canon(st, args[1]))))]
        if b.id in self.extra:
            return self.extra[b.id](I, st, ctx, b, args)
        return K.opaque(self, I, st, ctx, b, args)

    def either(self, st, ctx, t):
        return [(st.copy(), ok(t)), (st.copy(), err(mk('app', 'failure', t)))]

    def call(self, I, st, ctx, name, args, cal):
        rid = cal.get('rid') or cal.get('id')
        if rid in self.V.must or cal.get('id') in self.V.must:
            w = walk(I.canon(st, args[0]))
            if w.t == 'idx':
                ids = {x.a[0] for x in subterms(w.a[1]) if x.t == 'i'}
                if len(ids) == 1:
                    return [(st, mk('app', 'given', terms.I(ids.pop())))]
            return [(st, mk('app', 'converted', w))]
        short = name.rsplit('::', 1)[-1]
        if short in ('push', 'insert', 'insert_full', 'extend', 'extend_from_slice', 'append', 'reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by_key', 'sort_unstable_by', 'dedup', 'retain', 'truncate', 'pop', 'remove',
                     'clear', 'swap', 'rotate_left', 'rotate_right', 'drain', 'swap_remove', 'push_str', 'sort_keys', 'sort_by_cached_key', 'push_back', 'push_front', 'next_back', 'nth') + POST and name.startswith(('std::vec', 'core::slice', 'std::slice', 'indexmap', 'std::collections', 'std::iter::Extend', 'std::string', 'std::iter')):
            self.note(st, (short,) + tuple(deep(I.canon(st, a)) for a in args[1:]))
        return None

    def taken(self, I, st, ctx, e):
        self.note(st, ('take', deep(I.canon(st, e))))

    def each(self, I, st, ctx, blocks=None):
        self.ends.append((ctx.fid, st.copy()))
        st.mon = tuple(e for e in st.mon if e[0] in POST)

    def end(self, I, st, ctx):
        if not st.mon or st.mon[-1] != ('end',):
            self.note(st, ('end',))


def run(C, nat, V, f, cl=None, cap=400):
    cl = cl or N(C, nat, V)
    I = ai.Interp(C.P, cl, 600000)
    I.CAP = cap
    cl.I = I
    b = nat.body
    args = [f if b.ty(i + 1)['s'] == nat.enum else I.symarg(b, i + 1) for i in range(b.argc)]
    outs = I.run(b.id, args=args, st=ai.State(mon=()))
    C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
    return cl, I, outs


# ---------------------------------------------------------------- lists and dicts
CUT = ('rev', 'skip', 'take', 'step_by', 'take_while', 'skip_while', 'map_while', 'peekable', 'chain', 'cycle', 'filter', 'filter_map', 'flat_map', 'fuse')
FCUT = tuple(x for x in CUT if x not in ('filter', 'filter_map'))


class Run:
    """the paths of one built-in function"""
    def __init__(self, C, nat, V, name, f, **kw):
        self.C, self.P, self.name, self.nat = C, C.P, name, nat
        self.cl, self.I, self.outs = run(C, nat, V, f, **kw)
        self.res = []
        for st, r in self.outs:
            r = deep(self.I.canon(st, r))
            if r.t == 'adt' and r.a[0] == RES:
                self.res.append((st, r.a[1] == 0, r.a[2][0]))
            else:
                self.res.append((st, None, r))
        self.each = [st for _, st in self.cl.ends]

    def given(self, name):
        r = self.nat.ids.get(name)
        return mk('app', 'given', terms.I(r[0])) if r else None

    def val(self, t, kind):
        """the payload, if the term is a value of this kind"""
        return t.a[2][0] if t.t == 'adt' and t.a[0] == VAL and vname(self.P, t) == kind else None

    def fact(self, st, t):
        """what is known of the term: truth, or None"""
        for k, v in st.facts.items():
            if v[0] == '=' and v[1].t == 'i' and deep(k) is t:
                return v[1].a[0]
        return None

    def disc(self, st, t):
        """('=', name) or ('!', names) of the variant of a term, or None"""
        for k, v in st.facts.items():
            if k.t == 'disc' and deep(k.a[0]) is t:
                ns = names_of(self.P, k.a[1]) if isinstance(k.a[1], str) else None
                if ns is None:
                    return None
                ds = [x['discr'] for x in self.P.adts[k.a[1]]['variants']]
                nm = lambda i: ns[ds.index(i.a[0])] if i.a[0] in ds else ns[i.a[0]]
                return ('=', nm(v[1])) if v[0] == '=' else ('!', {nm(x) for x in v[1]})
        return None

    def is_variant(self, st, t, n):
        """True, False or None (not known)"""
        d = self.disc(st, t)
        if d is None:
            return None
        if d[0] == '=':
            return d[1] == n
        return False if n in d[1] else None

    def contrib(self, st):
        return [e for e in st.mon if e[0] not in POST]

    def post(self, st):
        return [e[0] for e in st.mon if e[0] in POST and e[0] != 'end']

    def el(self, t, coll, no=None):
        """the term is an arbitrary element of the collection, met in order, with none left out"""
        t = deep(t)
        if t.t == 'fld' and t.a[3] in ('key', 'value'):
            t = t.a[0]
        if t.t != 'idx' or t.a[1].t != 'el':
            return 'this is not an element: ' + show(t)
        if t.a[0] is not coll and t.a[0] is not mk('app', 'items', coll):
            return 'elements of something else: ' + show(t.a[0])
        e = t.a[1]
        return self.in_order(e, coll, no or CUT)

    def in_order(self, e, coll, no=CUT):
        if (e.a[0], e.a[1]) in self.I.advanced:
            return 'elements are left out before the first'
        n = self.I.t_len(ai.State(), coll if coll.t == 'app' and coll.a[0] == 'items' else mk('app', 'items', coll))
        for base, ops in self.I.iters.get(e, ()):
            for op in ops:
                if op[0] in no:
                    return 'not all elements in order: ' + op[0]
            if base[0] == 'range':
                if not (base[1].t == 'i' and base[1].a[0] == 0 and (deep(base[2]) is deep(n) or deep(base[2]) is deep(mk('len', coll)))):
                    return 'not all indices: %s to %s' % (show(base[1]), show(base[2]))
            elif base[0] in ('zip', 'chain'):
                return 'not the elements alone'
        return None

    def reversals(self, st, t=None):
        """how often the elements were turned round"""
        n = len([1 for x in self.post(st) if x == 'reverse'])
        return n

    def whole(self, t, coll):
        """the term is a list of just the elements of the collection, in order; (ok, reversals)"""
        n = 0
        t = deep(t)
        items = mk('app', 'items', coll)
        for _ in range(8):
            if t is coll or t is items:
                return True, n
            if t.t == 'app' and t.a[0] in ('reverse',):
                n += 1
                t = t.a[1]
            elif t.t == 'adt' and t.a[0] == SLICE:
                t = t.a[2][0]
            elif t.t == 'app' and t.a[0] == 'slice.from':
                t = t.a[1]
            elif t.t in ('collect',) or t.t == 'app' and t.a[0] == 'collect':
                x = t.a[0] if t.t == 'collect' else t.a[1]
                if x.t != 'iter':
                    return False, n
                if any(o[0] not in ('cloned', 'copied', 'rev') for o in x.a[1]):
                    return False, n
                n += len([1 for o in x.a[1] if o[0] == 'rev'])
                base = x.a[0]
                if base[0] not in ('slice', 'own', 'values', 'keys') or not isinstance(base[1], T):
                    return False, n
                t = deep(base[1])
            else:
                return False, n
        return False, n


@prop('P24')
def p24(C):
    P = C.P
    C.rule('elements', 'the built-in list functions deal with each element of their list once, in order, and keep exactly those that belong in the result')
    C.rule('decision', 'all, any and find answer by the function\'s answers: they stop only at the element that decides, and otherwise look at the whole list')
    C.rule('position', 'list::get and list::slice take positions from the start, or from the end when negative; out of range is an error, or the nearest bound')
    C.rule('order', 'list::sorted is a stable sort by integer or string keys')
    C.rule('slice', 'a part of a list holds the elements of the list between the two positions, and no others')
    C.rule('dict', 'dict functions give the entries of the dict')
    from rules import convert
    V = convert.Conv(C)
    nat = Natives(C)
    if nat.body is None or not nat.ids:
        C.floor('built-in functions', 0, 1)
        return
    fs = dict(nat.all())
    n = 0
    for name, spec in SPECS.items():
        C.ob('elements', name + ' exists', name in fs, 'there is no such built-in function')
        if name not in fs:
            continue
        n += 1
        R = Run(C, nat, V, name, fs[name])
        C.lastI = R.I
        C.ob('elements', name + ' gives something', any(o for _, o, _ in R.res), 'no path gives a result', nat.body.name)
        try:
            spec(C, R)
        except Bad as e:
            C.ob(e.args[0], e.args[1], False, e.args[2], nat.body.name)
    C.floor('list and dict functions analysed', n, 20)
    slices(C, nat)


class Bad(Exception):
    pass


def oks(R):
    return [(st, x) for st, o, x in R.res if o]


def errs(R):
    return [(st, x) for st, o, x in R.res if o is False]


def failed_callback(x):
    return any(t.t == 'app' and t.a[0] in ('failure', 'collect_err') for t in subterms(x)) or x.t == 'adt' and not x.a[2]


def result(f, x):
    return mk('app', 'converted', mk('app', 'called', f, mk('app', 'bound', f, x)))


def result_of(t):
    """(f, x) if the term is the result of calling f with x"""
    t = deep(t)
    if t.t == 'app' and t.a[0] == 'converted':
        t = t.a[1]
        if t.t == 'app' and t.a[0] == 'called' and len(t.a) == 3:
            b = t.a[2]
            if b.t == 'app' and b.a[0] == 'bound' and len(b.a) == 3 and b.a[1] is t.a[1]:
                return t.a[1], b.a[2]
    return None


def say(C, R, rule, key, ok, detail=''):
    C.ob(rule, R.name + ': ' + key, ok, detail, R.nat.body.name)


def one_each(C, R, coll, good, names='each element gives one', rev=0):
    """every round of the loop ends with the contributions that are due; the loop ends at the end of the list"""
    rounds = 0
    for st in R.each:
        cs = R.contrib(st)
        rounds += 1
        why = good(st, cs)
        say(C, R, 'elements', names, why is None, why or '')
    for st, x in oks(R):
        say(C, R, 'elements', 'the whole list', any(e[0] == 'end' for e in st.mon) or empty(R, st, coll), 'a result without having seen the whole list')
        say(C, R, 'elements', 'result as built', not R.post(st), 'the result is changed afterwards: ' + ', '.join(R.post(st)))
        say(C, R, 'elements', 'a list', R.val(x, 'List') is not None or x.t == 'app' and x.a[0] == 'slice.from', 'the result is not a list: ' + show(x))
    return rounds


def empty(R, st, coll):
    return R.fact(st, deep(R.I.t_eq(R.I.t_len(st, mk('app', 'items', coll)), terms.I(0)))) == 1 or \
        R.fact(st, deep(R.I.t_eq(R.I.t_len(st, coll), terms.I(0)))) == 1


def no_errors(C, R, allow=lambda st, x: failed_callback(x)):
    for st, x in errs(R):
        say(C, R, 'elements', 'errors', allow(st, x), 'an error that is not the function\'s: ' + show(x))


def plain(C, R, coll, rule='elements', rev=0):
    """no loop: the result is the collection itself. True if so"""
    ok = None
    for st, x in oks(R):
        ns = R.post(st)
        w, n = R.whole(R.val(x, 'List') or x, coll)
        if w:
            ok = True
            n = max(n, 0)
            say(C, R, rule, 'order', n % 2 == rev, 'the elements are in the wrong order')
            extra = [e for e in ns if e != 'reverse']
            say(C, R, rule, 'result as built', not extra, 'the result is changed afterwards: ' + ', '.join(extra))
        else:
            return False
    return ok


def sp_map(C, R):
    L, F = R.given('LIST'), R.given('FUNCTION')

    def good(st, cs):
        if len(cs) != 1:
            return '%d results for an element' % len(cs)
        y = cs[0][-1]
        if y.t == 'adt' and y.a[0] == RES:
            if y.a[1] == 1:
                return None
            y = y.a[2][0]
        r = result_of(y)
        if r is None or cs[0][0] not in ('push', 'take') or r[0] is not F:
            return 'not the result of the function: ' + show(cs[0][-1])
        return R.el(r[1], L)
    n = one_each(C, R, L, good)
    C.ob('elements', 'list::map has rounds', n > 0, 'no loop')
    no_errors(C, R)


def sp_filter(C, R):
    L, F = R.given('LIST'), R.given('FUNCTION')
    Fs = [None]

    def preds(st):
        for k, v in st.facts.items():
            r = result_of(k)
            if r is not None and v[0] == '=':
                yield r, v[1].a[0]

    def good(st, cs):
        ps = list(preds(st))
        mode = R.is_variant(st, F, 'Some')
        if ps:
            if len(ps) != 1:
                return 'the function is asked more than once'
            (f, x), yes = ps[0]
            if f is not mk('as_', F) and not (f.t == 'fld' and deep(f.a[0]).t == 'as' and f.a[0].a[0] is F):
                return 'another function: ' + show(f)
            why = R.el(x, L, FCUT)
            if why:
                return why
            if not yes:
                return None if not cs else 'an element is kept that the function refuses'
            if len(cs) != 1 or cs[0][0] not in ('push', 'take') or cs[0][-1] is not x:
                return 'an element that the function accepts is not kept once: ' + ', '.join(show(c[-1]) for c in cs)
            return None
        if mode is True:
            return 'the function is not asked'
        # without a function: those that are not empty
        if len(cs) > 1:
            return '%d results for an element' % len(cs)
        x = cs[0][-1] if cs else None
        if x is None:
            x = [deep(k.a[0]) for k in st.facts if k.t == 'disc' and deep(k.a[0]).t == 'idx']
            if not x:
                return 'an element is left out, whatever it is'
            x = x[0]
        why = R.el(x, L, FCUT)
        if why:
            return why
        html = R.is_variant(st, x, 'HTML')
        inner = mk('fld', mk('as', x, names_of(R.P, VAL).index('HTML'), VAL), 0, None, '0')
        emp = None
        for k, v in st.facts.items():
            if k.t == 'disc' and R.I.P.adts.get(k.a[1]) and k.a[1] == HTML and any(y is x for y in subterms(deep(k.a[0]))):
                emp = R.is_variant(st, deep(k.a[0]), 'Empty')
        unit = html is True and emp is True
        known = html is False or emp is False or unit
        if not known:
            return 'it is not tested whether the element is empty'
        if unit != (not cs):
            return 'an empty element is kept' if unit else 'an element that is not empty is left out'
        return None
    n = one_each(C, R, L, good)
    C.ob('elements', 'list::filter has rounds', n > 1, 'no loop')
    no_errors(C, R)


def sp_flat(C, R):
    L = R.given('LIST')

    def good(st, cs):
        if not cs and st.mon and st.mon[-1][0] == 'end':
            # the end of a loop over the elements of an element
            xs = [deep(k.a[0]) for k, v in st.facts.items() if k.t == 'disc' and k.a[1] == VAL and R.el(deep(k.a[0]), L) is None and R.is_variant(st, deep(k.a[0]), 'List')]
            if xs:
                return None
        if len(cs) != 1:
            return '%d steps for an element' % len(cs)
        x = cs[0][-1]
        if cs[0][0] in ('push', 'take'):
            why = R.el(x, L)
            if why is None:
                return None if R.is_variant(st, x, 'List') is False else 'a list is kept as a list'
            # an element of an element
            if x.t == 'idx':
                return nested(st, x.a[0], R.in_order(x.a[1], x.a[0]) if x.a[1].t == 'el' else 'not an element')
            return why
        if cs[0][0] in ('extend', 'extend_from_slice', 'append'):
            if x.t == 'iter':
                if any(o[0] not in ('cloned', 'copied') for o in x.a[1]):
                    return 'the elements of a nested list are not kept as they are'
                x = deep(x.a[0][1])
            return nested(st, x, None)
        return 'unexpected step: ' + cs[0][0]

    def nested(st, c, why):
        if why:
            return why
        c = deep(c)
        if c.t == 'app' and c.a[0] == 'items':
            c = c.a[1]
        if c.t == 'fld' and c.a[0].t == 'as' and R.is_variant(st, c.a[0].a[0], 'List') is True:
            return R.el(c.a[0].a[0], L)
        return 'elements of something else: ' + show(c)
    n = one_each(C, R, L, good)
    C.ob('elements', 'list::flat has rounds', n > 1, 'no loop')
    no_errors(C, R)


def sp_enumerate(C, R):
    L, F = R.given('LIST'), R.given('FROM')

    def good(st, cs):
        if len(cs) != 1:
            return '%d results for an element' % len(cs)
        x = cs[0][-1]
        if x.t == 'adt' and x.a[0] in (OPT, RES):
            if x.a[0] == OPT and x.a[1] == 0 or x.a[0] == RES and x.a[1] == 1:
                return None
            x = x.a[2][0]
        pair = x
        while pair.t == 'adt' and pair.a[0] in (VAL, SLICE):
            pair = pair.a[2][0]
        if pair.t not in ('arr', 'tup') or len(pair.a[0]) != 2:
            return 'not a pair: ' + show(x)
        i, v = pair.a[0]
        i = R.val(i, 'Int')
        if i is None:
            return 'not a number: ' + show(pair.a[0][0])
        why = R.el(v, L)
        if why:
            return why
        f = lof(i) - lof(F)
        (one,) = [t for t in f.co] if len(f.co) == 1 else [None]
        if one is None or f.co[one] != 1 or f.k != 0:
            return 'not the position counted from the first number: ' + show(i)
        if one.t == 'app' and one.a[0] == 'index':
            return None
        if one is v.a[1] or one.t == 'el':
            return None
        return 'not the position of the element: ' + show(one)
    n = one_each(C, R, L, good)
    C.ob('elements', 'list::enumerate has rounds', n > 0, 'no loop')
    no_errors(C, R, lambda st, x: 'Overflow' in show(x))


def sp_reversed(C, R):
    L = R.given('LIST')
    if plain(C, R, L, rev=1) is not True:
        for st, x in oks(R):
            say(C, R, 'elements', 'order', False, 'not the elements of the list in reverse order: ' + show(x))
    no_errors(C, R, lambda st, x: False)


def sp_nodes(C, R):
    H = R.given('HTML')
    seen = 0
    for st in R.each:
        cs = R.contrib(st)
        if len(cs) == 1 and cs[0][0] in ('take', 'push'):
            t = deep(cs[0][-1])
            t2 = unvalue(R, st, t)
            e = t2.a[1] if t2.t == 'idx' and t2.a[1].t == 'el' else None
            base = t2.a[0] if e is not None else None
            seqs = base is not None and (base.t == 'fld' and base.a[0].t == 'as' and base.a[0].a[0] is H and R.is_variant(st, H, 'Sequence') is True)
            single = base is not None and base.t in ('app', 'from_ref', 'arr') and any(x is H for x in subterms(base)) and not seqs and R.is_variant(st, H, 'Sequence') is False
            ok = bool(seqs or single)
            say(C, R, 'elements', 'each node', ok, 'not a node of the content: ' + show(t))
            if e is not None:
                why = R.in_order(e, base)
                say(C, R, 'elements', 'nodes in order', why is None, why or '')
            seen += 1
        else:
            say(C, R, 'elements', 'each node', False, '%d results for a node' % len(cs))
    for st, x in oks(R):
        say(C, R, 'elements', 'the whole list', any(e[0] == 'end' for e in st.mon) or R.is_variant(st, H, 'Sequence') is not True, 'a result without having seen the whole list')
        say(C, R, 'elements', 'result as built', not R.post(st), 'the result is changed afterwards')
        if R.is_variant(st, H, 'Empty') is True:
            say(C, R, 'elements', 'no nodes', not any(t is H for t in subterms(x)), 'empty content has no nodes')
    C.floor('rounds of list::html_nodes', seen, 2)


def unvalue(R, st, t):
    """the content that was turned into a value"""
    t = deep(t)
    if t.t == 'adt' and t.a[0] == VAL:
        k = vname(R.P, t)
        x = t.a[2][0]
        if k == 'HTML':
            return x
        if k == 'Str':
            if x.t == 'fld' and x.a[0].t == 'as' and x.a[0].a[2] == HTML:
                return x.a[0].a[0]
            for f, v in st.facts.items():
                if f.t == 'disc' and f.a[1] == HTML and v[0] == '=' and deep(f.a[0]).t in ('idx',):
                    return deep(f.a[0])
    return t


def sp_join(C, R):
    L, S_ = R.given('LIST'), R.given('SEP')
    later = set()
    for st in R.each:
        cs = R.contrib(st)
        xs = [c[-1] for c in cs]
        bad = None
        if any(c[0] not in ('push', 'take') for c in cs) or not xs:
            bad = 'unexpected steps: ' + ', '.join(c[0] for c in cs)
        else:
            bad = R.el(xs[-1], L)
            if bad is None:
                first = None
                for k, v in st.facts.items():
                    if k.t in ('lt', 'eq') and isinstance(k.a[0], T) and any(t.t == 'app' and t.a[0] == 'index' or t is xs[-1].a[1] for y in k.a if isinstance(y, T) for t in subterms(y)):
                        a, b = deep(k.a[0]), deep(k.a[1])
                        tv = v[1].a[0] if v[0] == '=' else None
                        if k.t == 'lt' and a is terms.I(0):
                            first = not tv
                        elif k.t == 'eq' and (a is terms.I(0) or b is terms.I(0)):
                            first = bool(tv)
                        elif k.t == 'lt' and b is terms.I(1):
                            first = bool(tv)
                nosep = R.is_variant(st, S_, 'Empty') is True
                if first is None and not nosep:
                    # told by a variable that the loop carries: the first round is the one where it is not joined yet
                    carried = [k for k, v in st.facts.items() if any(t.t in ('lv', 'jn') for t in subterms(k)) and k.t not in ('iv',) and k.t != 'disc']
                    indexed = any(t.t == 'app' and t.a[0] == 'index' for k in st.facts for t in subterms(k))
                    if not indexed:
                        if carried:
                            later.add(len(xs))
                            first = len(xs) == 1
                        else:
                            first = True
                want = [xs[-1]] if first or nosep else [S_, xs[-1]]
                if first is None and not nosep:
                    bad = 'the first element is not told from the others'
                elif xs != want and not (nosep and xs == [S_, xs[-1]]):
                    bad = 'the separator does not go between each two elements: ' + ', '.join(map(show, xs))
        say(C, R, 'elements', 'separators', bad is None, bad or '')
    C.ob('elements', R.name + ': separators between later elements', not later or 2 in later, 'no separator')
    for st, x in oks(R):
        j = [t for t in subterms(x) if t.t == 'app' and t.a[0] == 'joined']
        j += [deep(k.a[0]) for k in st.facts if k.t == 'disc' and deep(k.a[0]).t == 'app' and deep(k.a[0]).a[0] == 'joined']
        src = {t.a[1] for t in j}
        e = empty(R, st, L)
        nosep = R.is_variant(st, S_, 'Empty') is True
        if any(y[0] == 'end' for y in st.mon):
            ok = bool(src) and L not in src
        elif e:
            ok = not j or src == {L}
        else:
            ok = nosep and src == {L}
        say(C, R, 'elements', 'joined', ok, 'the result is not made of the elements with the separator between them: ' + show(x))
        say(C, R, 'elements', 'result as built', not R.post(st), 'the result is changed afterwards: ' + ', '.join(R.post(st)))
    no_errors(C, R, lambda st, x: False)


def sp_decide(stop, there, at_end):
    """a search: `stop` is the answer of the function that decides"""
    def spec(C, R):
        L, F = R.given('LIST'), R.given('FUNCTION')
        for st in R.each:
            ps = [(result_of(k), v[1].a[0]) for k, v in st.facts.items() if result_of(k) is not None and v[0] == '=']
            if not ps:
                say(C, R, 'decision', 'each element is asked about', False, 'the search goes on without asking')
                continue
            (f, x), yes = ps[0]
            why = R.el(x, L)
            say(C, R, 'decision', 'each element is asked about', f is F and why is None, why or 'another function')
            say(C, R, 'decision', 'goes on', yes == (not stop), 'the search goes on after the answer that decides')
        seen = set()
        for st, r in oks(R):
            ended = any(e[0] == 'end' for e in st.mon)
            if ended or empty(R, st, L):
                seen.add('end')
                say(C, R, 'decision', 'at the end', r is at_end, 'the wrong result when no element decides: ' + show(r))
                continue
            ps = [(result_of(k), v[1].a[0]) for k, v in st.facts.items() if result_of(k) is not None and v[0] == '=']
            seen.add('found')
            if not ps:
                say(C, R, 'decision', 'stops', False, 'the search ends without asking the function')
                continue
            (f, x), yes = ps[0]
            why = R.el(x, L)
            say(C, R, 'decision', 'stops', f is F and why is None and yes == stop, why or 'the search ends at the wrong answer')
            want = x if there is None else there
            b = R.val(r, 'Bool')
            if b is not None and b.t != 'i' and R.fact(st, deep(b)) is not None:
                r = boolean(C, R.fact(st, deep(b)))
            say(C, R, 'decision', 'the result when found', r is want, 'the wrong result: ' + show(r))
        # an answer may also be given as the negation of the other search
        C.ob('decision', R.name + ' both ends', seen == {'end', 'found'}, 'only: ' + ', '.join(sorted(seen)))
        no_errors(C, R)
    return spec


def sp_contains(C, R):
    L, X = R.given('LIST'), R.given('PARAM')
    items = mk('app', 'items', L)
    loops = bool(R.each)
    for st, r in oks(R):
        b = R.val(r, 'Bool')
        b = deep(b) if b is not None else None
        if b is not None and b.t == 'app' and b.a[0].endswith('contains') and len(b.a) == 3:
            say(C, R, 'decision', 'contains', b.a[1] is items and b.a[2] is X, 'not the list and the value: ' + show(b))
        else:
            es = [(k, v) for k, v in st.facts.items() if deep(k).t == 'app' and deep(k).a[0] == 'equal']
            end = any(e[0] == 'end' for e in st.mon)
            if es and not end:
                k, v = es[0]
                a, c = deep(k).a[1:]
                x = a if c is X else c
                say(C, R, 'decision', 'contains', X in (a, c) and R.el(x, L) is None and v[1].a[0] == 1 and b is terms.TRUE, 'the wrong result: ' + show(r))
            else:
                say(C, R, 'decision', 'contains', end and b is terms.FALSE, 'not whether the value is in the list: ' + show(r))
    for st in R.each:
        es = [(deep(k), v) for k, v in st.facts.items() if deep(k).t == 'app' and deep(k).a[0] == 'equal']
        say(C, R, 'decision', 'goes on', bool(es) and es[0][1][1].a[0] == 0, 'the search goes on without comparing')
    no_errors(C, R, lambda st, x: False)


def sp_len(of, kind='len', coll='items'):
    def spec(C, R):
        L = R.given(of)
        n = deep(R.I.t_len(ai.State(), mk('app', 'items', L) if coll == 'items' else L))
        for st, r in oks(R):
            if kind == 'len':
                x = R.val(r, 'Int')
                say(C, R, 'elements' if coll == 'items' else 'dict', 'length', x is not None and uncast(x) is n, 'not the number of elements: ' + show(r))
            else:
                x = R.val(r, 'Bool')
                x = deep(x) if x is not None else None
                ok = x is not None and x is deep(R.I.t_eq(n, terms.I(0)))
                say(C, R, 'elements' if coll == 'items' else 'dict', 'empty', ok, 'not whether there are no elements: ' + show(r))
        no_errors(C, R, lambda st, x: False)
    return spec


def uncast(t):
    t = deep(t)
    while t.t == 'cast':
        t = t.a[0]
    return t


import lin


def leaf(t):
    t = uncast(t)
    if t.t == 'app' and t.a[0].rsplit('::', 1)[-1] == 'len' and len(t.a) == 2:
        return mk('len', t.a[1])
    return t


def lof(t, norm=leaf):
    return lin.of(t, norm)


def bounds_of(R, st):
    return lin.facts(st, leaf)


def beyond(st, given):
    """what is known of numbers where a checked sum or difference does not exist: one list for each way"""
    top, bottom = lin.const(2 ** 63 - 1), lin.const(2 ** 63)
    outs = [[]]
    for k, v in st.facts.items():
        if k.t == 'app' and k.a[0] in ('checked_Add', 'checked_Sub') and v[0] == '=' and (v[1].a[0] if isinstance(v[1], T) else v[1]) == 0:
            x, y = lof(deep(k.a[1])), lof(deep(k.a[2]))
            z = x + y if k.a[0] == 'checked_Add' else x - y
            outs = [o + e for o in outs for e in ([z - lin.const(2 ** 63)], [z.scale(-1) - lin.const(2 ** 63 + 1)])]
    # each number itself is within bounds
    return [o + [e for g in given for e in (top - g, g + bottom)] for o in outs] if outs != [[]] else outs


def sp_get(C, R):
    L, A = R.given('LIST'), R.given('I')
    items = mk('app', 'items', L)
    a = lof(A)
    n = lof(deep(R.I.t_len(ai.State(), items)))
    base = [n]                       # a length is not negative
    one = lin.const(-1)
    inside = [('from the start', [a, n - a + one], a), ('from the end', [a.scale(-1) + one, a + n], a + n)]
    outside = [[a - n], [a.scale(-1) - n + one]]
    for st, r in oks(R):
        cs = bounds_of(R, st) + base
        t = deep(r)
        if t.t != 'idx' or t.a[0] is not items:
            say(C, R, 'position', 'an element', False, 'not an element of the list: ' + show(t))
            continue
        i = lof(t.a[1], leaf)
        for w, c, want in inside:
            say(C, R, 'position', w, not lin.possible(cs + c) or not lin.differs(cs + c, i, want), 'the wrong element: position ' + show(t.a[1]))
        for c in outside:
            say(C, R, 'position', 'out of range', not lin.possible(cs + c), 'a position out of range gives an element')
    for st, r in errs(R):
        for more in beyond(st, [a, n]):
            cs = bounds_of(R, st) + base + more
            for w, c, want in inside:
                say(C, R, 'position', w + ' is accepted', not lin.possible(cs + c), 'a position in range is refused')
    C.floor('paths of list::get', len(R.res), 3)


def sp_slice(C, R):
    L, A, B = R.given('LIST'), R.given('A'), R.given('B')
    n = lof(deep(R.I.t_len(ai.State(), mk('app', 'items', L))))
    one = lin.const(-1)

    def cases(x):
        """(constraints, the bound that is meant)"""
        return [([x - n], n), ([x, n - x + one], x), ([x.scale(-1) + one, x + n], x + n), ([x.scale(-1) - n + one], lin.const(0))]
    paths = 0
    for st, r in oks(R):
        t = deep(r)
        while t.t == 'adt' and t.a[0] == VAL or t.t == 'app' and t.a[0] == 'slice.from':
            t = t.a[2][0] if t.t == 'adt' else t.a[1]
        if t is L:
            i, j = lin.const(0), n
        elif t.t == 'app' and t.a[0] == 'slice.slice' and t.a[1] is L:
            i, j = lof(t.a[2], leaf), lof(t.a[3], leaf)
        elif nothing(t):
            i = j = lin.const(0)
        else:
            say(C, R, 'position', 'a part of the list', False, 'not a part of the list: ' + show(t))
            continue
        paths += 1
        cs = bounds_of(R, st) + [n]
        bsome = R.is_variant(st, B, 'Some')
        pay = None
        for k in list(st.facts) + [r]:
            for x in subterms(deep(k)) if k is r or isinstance(k, T) else ():
                if x.t == 'fld' and x.a[0].t == 'as' and x.a[0].a[0] is B:
                    pay = x
        b_cases = [([], n)] if bsome is False or pay is None and bsome is not True else cases(lof(pay)) if pay is not None else []
        if not b_cases:
            say(C, R, 'position', 'second position', False, 'the second position is not used')
            continue
        for ca, s in cases(lof(A)):
            for cb, e in b_cases:
                c = cs + ca + cb
                if not lin.possible(c):
                    continue
                good = not lin.possible(c + [e - s + one]) or not lin.differs(c + [e - s + one], i, s) and not lin.differs(c + [e - s + one], j, e)
                say(C, R, 'position', 'the part between the positions', good, 'the part from %s to %s' % (show(t.a[2]) if t.t == 'app' and len(t.a) > 3 else '0', show(t.a[3]) if t.t == 'app' and len(t.a) > 3 else 'the end'))
                none = not lin.possible(c + [s - e]) or not lin.differs(c + [s - e], i, j)
                say(C, R, 'position', 'nothing if they cross', none, 'positions that cross give elements')
    no_errors(C, R, lambda st, x: False)
    C.floor('paths of list::slice', paths, 2)


def nothing(t):
    while t.t == 'adt' and t.a[0] == SLICE:
        t = t.a[2][0]
    return t.t == 'arr' and not t.a[0]


def sp_sorted(C, R):
    L, K1, RV = R.given('LIST'), R.given('KEY'), R.given('REVERSED')
    kinds, rounds = set(), 0
    for st in R.each:
        cs = R.contrib(st)
        if not cs and any(q.startswith('sort') for q in R.post(st)):
            continue
        if len(cs) != 1:
            say(C, R, 'order', 'each element', False, '%d results for an element' % len(cs))
            continue
        x = cs[0][-1]
        if x.t == 'tup' and len(x.a[0]) == 2:
            rounds += 1
            k, v = x.a[0]
            r = result_of(k)
            if r is None and result_of(v) is not None:
                k, v = v, k
                r = result_of(k)
            why = R.el(v, L)
            say(C, R, 'order', 'each element', why is None, why or '')
            some_ = R.is_variant(st, K1, 'Some')
            if r is not None:
                ok = r[1] is v and any(y is K1 for y in subterms(r[0])) and some_ is not False
            else:
                ok = k is v and some_ is False
            say(C, R, 'order', 'keys', ok, 'the key is not the function\'s result for the element, or the element: ' + show(k))
            d = R.disc(st, k)
            say(C, R, 'order', 'kinds of keys', d is not None and d[0] == '=' and d[1] in ('Int', 'Str'), 'a key that is neither an integer nor a string')
            if d is not None and d[0] == '=':
                kinds.add(d[1])
                other = {'Int': 'Str', 'Str': 'Int'}.get(d[1])
                for f, v2 in st.facts.items():
                    if f.t == 'disc' and f.a[1] == TYPE and deep(f.a[0]).t in ('lv', 'jn', 'hv') and v2[0] == '=':
                        say(C, R, 'order', 'one kind of keys', names_of(C.P, TYPE)[v2[1].a[0]] != other, 'integers and strings are mixed')
        elif cs[0][0] in ('take', 'push') and x.t in ('fld', 'idx') :
            ok = x.t == 'fld' and x.a[1] == 1 or x.t == 'idx'
            say(C, R, 'order', 'elements, not keys', ok, 'the result is not the elements: ' + show(x))
    C.ob('order', R.name + ' kinds of keys seen', {'Int', 'Str'} <= kinds, 'seen: ' + ', '.join(sorted(kinds)))
    mixed = set()
    for st, x in errs(R):
        for f, v2 in st.facts.items():
            if f.t == 'disc' and f.a[1] == TYPE and v2[0] == '=' and deep(f.a[0]).t in ('lv', 'jn', 'hv'):
                mixed.add(names_of(C.P, TYPE)[v2[1].a[0]])
    C.ob('order', R.name + ' mixed keys are refused', {'Int', 'Str'} <= mixed or not any(
        f.t == 'disc' and f.a[1] == TYPE for st in R.each for f in st.facts) and len(errs(R)) >= 2, 'no error for mixed keys')
    sorts = 0
    for st, x in oks(R):
        rv = R.fact(st, RV)
        ev = [e for e in st.mon if e[0] in POST and e[0] != 'end']
        if not ev:
            e_ = empty(R, st, L)
            single = any(k.t == 'lt' for k in st.facts)
            say(C, R, 'order', 'sorted', e_ or single, 'a list that is not sorted')
            continue
        ns = [e[0] for e in ev]
        so = [i for i, q in enumerate(ns) if q.startswith('sort')]
        say(C, R, 'order', 'sorted', len(so) == 1, 'sorted %d times' % len(so))
        if len(so) != 1:
            continue
        sorts += 1
        i = so[0]
        say(C, R, 'order', 'stable', 'unstable' not in ns[i], 'equal keys may change places')
        before, after = ns[:i].count('reverse'), ns[i + 1:].count('reverse')
        rest = [q for q in ns[:i] + ns[i + 1:] if q != 'reverse']
        say(C, R, 'order', 'only sorted', not rest, 'the list is changed: ' + ', '.join(rest))
        swapped = comparator(C, R, st, ev[i])
        if swapped is None:
            continue
        # reversed: descending, equal keys in their order
        down = (after % 2 == 1) != swapped
        stable_flip = (before + after) % 2 == 1
        if rv is None:
            say(C, R, 'order', 'direction', False, 'the order does not depend on the choice')
        else:
            say(C, R, 'order', 'direction', down == bool(rv), 'sorted the wrong way round')
            say(C, R, 'order', 'stable when reversed', not stable_flip, 'equal keys change places')
        t = deep(R.val(x, 'List') if R.val(x, 'List') is not None else x)
    no_errors(C, R, lambda st, x: True)
    C.floor('paths of list::sorted that sort', sorts, 2)
    C.floor('rounds of list::sorted', rounds, 2)


def comparator(C, R, st, ev):
    """False: ascending by key; True: descending; None: already reported"""
    if len(ev) < 2:
        say(C, R, 'order', 'by the key', False, 'not sorted by the key')
        return None
    I = R.I
    f = ev[1]
    two = ev[0].startswith('sort_by') and not ev[0].startswith('sort_by_key') and 'key' not in ev[0] or ev[0] == 'sort_unstable_by'
    b = nat_body(R)
    a1 = mk('sym', 'one', mk('inst', 's', 1))
    a2 = mk('sym', 'two', mk('inst', 's', 2))
    s0 = st.copy()
    s0.mem[('cmp', 1)] = a1
    s0.mem[('cmp', 2)] = a2
    args = [mk('ref', ('cmp', 1), (), False)] + ([mk('ref', ('cmp', 2), (), False)] if two else [])
    ctx = ai.Ctx(('cmp',), 0, R.nat.body, None, ())
    try:
        res = I.call_value(s0, ctx, I.clo.get(f, f) if hasattr(I, 'clo') else f, args)
    except Exception as e:
        res = None
    keyof = lambda t, a: t is not None and 'converted' in show(t) and any(y is a for y in subterms(t)) and first_part(t, a)
    if not res:
        say(C, R, 'order', 'by the key', False, 'not sorted by the key: ' + show(f))
        return None
    out = None
    for s, r in res:
        r = deep(I.canon(s, r))
        if two:
            if r.t == 'app' and r.a[0].endswith('cmp') and len(r.a) == 3:
                if first_part(r.a[1], a1) and first_part(r.a[2], a2):
                    out = False
                    continue
                if first_part(r.a[1], a2) and first_part(r.a[2], a1):
                    out = True
                    continue
            say(C, R, 'order', 'by the key', False, 'not a comparison of the keys: ' + show(r))
            return None
        rev = False
        if r.t == 'adt' and r.a[0].endswith('cmp::Reverse'):
            rev, r = True, r.a[2][0]
        if not first_part(r, a1):
            say(C, R, 'order', 'by the key', False, 'not the key: ' + show(r))
            return None
        out = rev
    say(C, R, 'order', 'by the key', out is not None, 'not sorted by the key')
    return out


def nat_body(R):
    return R.nat.body


def first_part(t, a):
    """the term is the first part of the pair, perhaps unpacked"""
    t = deep(t)
    while t.t == 'app' and t.a[0] in ('converted',) or t.t == 'fld' and t.a[0].t == 'as':
        t = t.a[1] if t.t == 'app' else t.a[0].a[0]
    return t.t == 'fld' and t.a[1] == 0 and t.a[0] is a


def sp_dict_list(parts):
    def spec(C, R):
        D = R.given('DICT')
        if not R.each:
            ok = False
            for st, x in oks(R):
                l = deep(R.val(x, 'List') if R.val(x, 'List') is not None else x)
                it = [t for t in subterms(l) if t.t == 'iter']
                ok = len(parts) == 1 and len(it) == 1 and it[0].a[0][0] == parts[0] and deep(it[0].a[0][1]) is D and all(o[0] in ('cloned', 'copied') for o in it[0].a[1])
                say(C, R, 'dict', 'entries', ok and not R.post(st), 'not the entries of the dict in order: ' + show(x))
            return
        for st in R.each:
            cs = R.contrib(st)
            if len(cs) != 1 or cs[0][0] not in ('push', 'take'):
                say(C, R, 'dict', 'each entry', False, '%d results for an entry' % len(cs))
                continue
            t = deep(cs[0][-1])
            xs = [t]
            if len(parts) == 2:
                p = t
                while p.t == 'adt' and p.a[0] in (VAL, SLICE):
                    p = p.a[2][0]
                xs = list(p.a[0]) if p.t in ('arr', 'tup') else []
            ok = len(xs) == len(parts)
            why = None if ok else 'not an entry: ' + show(t)
            for x, p in zip(xs, parts):
                if p == 'keys':
                    x = R.val(x, 'Str')
                    x = x.a[1] if x is not None and x.t == 'app' and x.a[0] == 'name' else None
                    if x is None or x.t != 'fld' or x.a[3] != 'key':
                        why = why or 'not the name of the key: ' + show(t)
                        continue
                elif x.t != 'fld' or x.a[3] != 'value':
                    why = why or 'not the value: ' + show(t)
                    continue
                why = why or R.el(x, D)
            say(C, R, 'dict', 'each entry', why is None, why or '')
        for st, x in oks(R):
            say(C, R, 'dict', 'all entries', any(e[0] == 'end' for e in st.mon), 'a result without having seen all entries')
            say(C, R, 'dict', 'result as built', not R.post(st), 'the result is changed afterwards')
        no_errors(C, R, lambda st, x: False)
    return spec


def sp_dict_get(C, R):
    D, K1 = R.given('DICT'), R.given('KEY')
    key = mk('app', 'id', K1)
    for st, r in oks(R):
        say(C, R, 'dict', 'the value of the key', deep(r) is mk('idx', D, key), 'not the value of the key: ' + show(r))
        has = [v for k, v in st.facts.items() if k.t in ('has',) or k.t == 'app' and k.a[0] == 'has']
    known = 0
    for st, x in errs(R):
        known += R.fact(st, mk('app', 'known', K1)) == 1
        say(C, R, 'dict', 'no such key', has_fact(R, st, D, key) is False or R.fact(st, mk('app', 'known', K1)) == 0, 'an error although the dict has the key')
    C.ob('dict', R.name + ' missing keys', known > 0, 'a key that is not in the dict is no error')


def has_fact(R, st, D, key):
    for k, v in st.facts.items():
        d = deep(k)
        if d.t in ('has', 'app') and any(x is key for x in subterms(d)) and any(x is D for x in subterms(d)) and v[0] == '=':
            return bool(v[1].a[0])
        if d.t == 'disc' and any(x is key for x in subterms(d)) and any(x is D for x in subterms(d)) and v[0] == '=':
            return bool(v[1].a[0])
    return None


def sp_same(name, kind):
    def spec(C, R):
        X = R.given(name)
        for st, r in oks(R):
            say(C, R, 'dict', 'unchanged', R.val(r, kind) is X, 'not what was given: ' + show(r))
        no_errors(C, R, lambda st, x: False)
    return spec


SPECS = {
    'LIST::MAP': sp_map, 'LIST::FILTER': sp_filter, 'LIST::FLAT': sp_flat, 'LIST::ENUMERATE': sp_enumerate, 'LIST::REVERSED': sp_reversed,
    'LIST::HTML_NODES': sp_nodes, 'LIST::JOIN': sp_join,
    'LIST::ALL': lambda C, R: sp_decide(0, boolean(C, 0), boolean(C, 1))(C, R),
    'LIST::ANY': lambda C, R: sp_decide(1, boolean(C, 1), boolean(C, 0))(C, R),
    'LIST::FIND': lambda C, R: sp_decide(1, None, unit(C))(C, R),
    'LIST::CONTAINS': sp_contains, 'LIST::LEN': sp_len('LIST'), 'LIST::IS_EMPTY': sp_len('LIST', 'empty'),
    'LIST::GET': sp_get, 'LIST::SLICE': sp_slice, 'LIST::SORTED': sp_sorted,
    'DICT::LEN': sp_len('DICT', 'len', 'dict'), 'DICT::IS_EMPTY': sp_len('DICT', 'empty', 'dict'),
    'DICT::ITEMS': sp_dict_list(('keys', 'values')), 'DICT::KEYS': sp_dict_list(('keys',)), 'DICT::VALUES': sp_dict_list(('values',)),
    'DICT::GET': sp_dict_get, 'DICT::NEW': sp_same('KWARGS', 'Dict'),
}


def boolean(C, b):
    return mk('adt', VAL, names_of(C.P, VAL).index('Bool'), (terms.I(b),))


def unit(C):
    return mk('adt', VAL, names_of(C.P, VAL).index('HTML'), (mk('adt', HTML, names_of(C.P, HTML).index('Empty'), ()),))


def view(t):
    """(collection, from, to) of a part of a collection; to: None for its end"""
    t = deep(t)
    if t.t == 'app' and t.a[0] == 'subslice' and t.a[2].t == 'adt':
        r = t.a[2]
        k = r.a[0].rsplit('::', 1)[-1]
        base, lo, hi = view(t.a[1])
        fs = [lof(x, leaf) for x in r.a[2]]
        if k == 'Range':
            return base, lo + fs[0], lo + fs[1]
        if k == 'RangeFrom':
            return base, lo + fs[0], hi
        if k == 'RangeTo':
            return base, lo, lo + fs[0]
    return t, lin.const(0), None


def at(t):
    """(collection, position) of an element"""
    t = deep(t)
    if t.t == 'idx':
        base, lo, hi = view(t.a[0])
        return base, lo + lof(t.a[1], leaf)
    return None, None


def subst(l, me, new):
    """the linear expression over the fields of `me`, over those of the struct term `new`"""
    out = lin.const(l.k)
    for x, c in l.co.items():
        if x.t == 'fld' and x.a[0] is me and new.t == 'adt':
            out = out + lof(new.a[2][x.a[1]], leaf).scale(c)
        elif x.t == 'len' and deep(x.a[0]).t == 'fld' and x.a[0].a[0] is me and new.t == 'adt':
            out = out + lof(mk('len', deep(new.a[2][x.a[0].a[1]])), leaf).scale(c)
        else:
            out = out + lin.Lin({x: c})
    return out


def slices(C, nat):
    """a list holds part of a shared collection; every method means the same part"""
    P = C.P
    ms, makers = {}, []
    for b in C.lib():
        if b.parent or b.kind in ('closure', 'promoted'):
            continue
        n = method_of(b, SLICE)
        if n and (b.name.startswith('utils::sliceref') or '<' + SLICE in b.name):
            ms[n] = b
        elif b.ty(0)['s'].startswith(SLICE) and b.argc == 1 and b.name.startswith('<' + SLICE):
            makers.append(b)

    def go(b):
        cl = K(C)
        I = ai.Interp(P, cl, 100000)
        cl.I = I
        args = [I.symarg(b, i + 1) for i in range(b.argc)]
        outs = [(st, deep(I.canon(st, r))) for st, r in I.run(b.id, args=args, st=ai.State(mon=()))]
        C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
        return I, [deep(I.canon(ai.State(), a)) for a in args], outs
    same_ = lambda cs, x, y: not lin.differs(cs, x, y)
    ref = ms.get('as_ref')
    C.floor('ways to see a list as a slice', ref is not None, 1)
    if ref is None:
        return
    I, args, outs = go(ref)
    me = args[0]
    vs = [view(r) for st, r in outs]
    C.ob('slice', 'elements of a list', len(vs) == 1 and vs[0][0].t == 'fld' and vs[0][0].a[0] is me, 'not a part of the shared collection: ' + ', '.join(show(r) for _, r in outs), ref.name)
    if len(vs) != 1 or vs[0][0].t != 'fld':
        return
    base, lo, hi = vs[0]
    if hi is None:
        hi = lof(mk('len', base))
    ok = [hi - lo, lo]          # what holds of every list
    n = 0
    # names of arguments differ between methods: express everything over this method's own receiver
    mine = lambda l, a0: lin.Lin({(rename(x, me, a0)): c for x, c in l.co.items()}, l.k)
    for name, b in sorted(ms.items()):
        if name in ('as_ref', 'fmt'):
            continue
        I, args, outs = go(b)
        a0 = args[0]
        l, h, bs = mine(lo, a0), mine(hi, a0), rename(base, me, a0)
        inv = [h - l, l]
        n += 1
        for st, r in outs:
            cs = lin.facts(st, leaf) + inv
            key = 'method ' + name
            good, what = True, ''
            if name == 'len':
                good = same_(cs, lof(r, leaf), h - l)
            elif name == 'is_empty':
                if r.t == 'eq':
                    d1, d2 = lof(r.a[0], leaf) - lof(r.a[1], leaf), h - l
                    good = same_(cs, d1, d2) or same_(cs, d1, d2.scale(-1))
                elif r.t == 'lt' or r.t == 'not':
                    neg = r.t == 'not'
                    q = r.a[0] if neg else r
                    d = lof(q.a[0], leaf) - lof(q.a[1], leaf)       # x < y
                    good = neg and same_(cs, d, l - h) or not neg and same_(cs, d, h - l + lin.const(-1))
                elif r in (terms.TRUE, terms.FALSE):
                    good = not lin.possible(cs + ([h - l + lin.const(-1)] if r is terms.TRUE else [l - h]))
                else:
                    good = False
            elif name == 'get':
                x, i = at(r)
                good = x is bs and same_(cs, i, l + lof(args[1], leaf))
            elif name == 'slice':
                if r.t != 'adt' or r.a[0] != SLICE:
                    good = False
                else:
                    nb = r.a[2][base.a[1]]
                    good = deep(nb) is bs and same_(cs, subst(lo, me, r), l + lof(args[1], leaf)) and same_(cs, subst(hi, me, r), l + lof(args[2], leaf))
            elif name == 'clone':
                good = r is a0 or r.t == 'adt' and all(deep(x) is mk_field(a0, k, x) for k, x in enumerate(r.a[2]))
            elif name == 'eq':
                good = r.t == 'eq' and {view_key(r.a[0]), view_key(r.a[1])} == {(rename(base, me, a), key_of(mine(lo, a)), key_of(mine(hi, a))) for a in args}
            else:
                n -= 1
                continue
            C.ob('slice', key, good, 'does not mean the part of the collection that the list holds: ' + show(r), b.name)
    for b in makers:
        I, args, outs = go(b)
        for st, r in outs:
            if r.t != 'adt' or r.a[0] != SLICE:
                C.ob('slice', 'new list', False, 'not a new list: ' + show(r), b.name)
                continue
            nb = deep(r.a[2][base.a[1]])
            good = nb is args[0] and same_([], subst(lo, me, r), lin.const(0)) and same_([], subst(hi, me, r), lof(mk('len', nb), leaf))
            C.ob('slice', 'new list', good, 'a new list does not hold the whole collection: ' + show(r), b.name)
            n += 1
    C.floor('methods of lists', n, 6)


def rename(t, a, b):
    if t is a:
        return b
    if not isinstance(t, T):
        return t
    return mk(t.t, *[rename(x, a, b) if isinstance(x, T) else x for x in t.a])


def key_of(l):
    return (frozenset(l.co.items()), l.k)


def view_key(t):
    b, lo, hi = view(t)
    return (b, key_of(lo), key_of(hi) if hi is not None else None)


def mk_field(a0, k, x):
    x = deep(x)
    return x if x.t == 'fld' and x.a[0] is a0 and x.a[1] == k else None
