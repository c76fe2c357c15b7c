"""HTML content: its normal form, and where content may be placed."""
from rules import prop
from rulelib import *
from rules.scope import Opaque
from rules.match import PLAIN, poss, lin
from rules.args import walk, ival, field_of, poss_kind

TAG = 'compiler::tag::Tag'
VAL = 'compiler::value::Value'
SPECIAL = {'', ' ', '\n'}


def variants(P, path=HTML):
    return [v['name'] for v in P.adts[path]['variants']]


def payload_of(t, path, names_, P):
    """t is the payload of an existing value of one of these variants"""
    t = walk(t)
    if t.t == 'fld' and t.a[2] == path:
        b = t.a[0]
        while b.t in ('deref', 'box'):
            b = b.a[0]
        return b.t == 'as' and P.adts[path]['variants'][b.a[1]]['name'] in names_
    return False


def len_of(k):
    return k.a[-1] if k.t == 'len' or k.t == 'app' and k.a[0] == 'len' and len(k.a) == 2 else None


def length(st, t):
    """the bounds known for the number of elements of t"""
    lo, hi = 0, None
    for k, f in st.facts.items():
        l = k.a[0] if k.t == 'iv' else k
        x = len_of(l)
        if x is None:
            continue
        d = 0
        while x.t == 'app' and x.a[0] == 'push' and walk(x) is not walk(t):
            x, d = x.a[1], d + 1
        if walk(x) is not walk(t):
            continue
        if f[0] == 'iv':
            lo = max(lo, (f[1] or 0) - d)
            if f[2] is not None:
                hi = f[2] - d if hi is None else min(hi, f[2] - d)
        elif f[0] == '=':
            lo = hi = ival(f) - d
        elif f[0] == '!' and d == 0:
            ne = {(c.a[0] if isinstance(c, T) else c) for c in f[1]}
            while lo in ne:
                lo += 1
    return lo, hi


def excluded(st, t):
    """strings t is known not to be; None if it is known to be a particular one"""
    out = set()
    for k, f in st.facts.items():
        if k is t or walk(k) is walk(t):
            if f[0] == '=':
                return None
            if f[0] == '!':
                out |= {(c.a[0] if isinstance(c, T) else c) for c in f[1]}
        if k.t == 'eq' and any(x is t or walk(x) is walk(t) for x in k.a):
            o = [x for x in k.a if not (x is t or walk(x) is walk(t))]
            if o and walk(o[0]).t in ('s', 'str', 'const') and ival(f) == 0:
                v = walk(o[0]).a[0]
                if isinstance(v, str):
                    out.add(v)
    return {x.encode().decode('unicode_escape') if x in ('\\n',) else x for x in out if isinstance(x, str)}


class N(Opaque):
    """constructions of HTML values, and what is added to the builder"""
    def __init__(self, C, self_id=None):
        Opaque.__init__(self, C.P)
        self.C = C
        self.made = []
        self.vals = []
        self.ends = []
        self.rec = self_id or set()
        self.stops = frozenset(self.quiet)

    def inline(self, I, b):
        if b.id in self.stops or b.id in self.rec:
            return False
        return Opaque.inline(self, I, b)

    def agg(self, I, st, ctx, path, variant, ops):
        if path == VAL and variant == 'HTML':
            self.vals.append((ctx, st.copy(), I.canon(st, ops[0])))
        if path == HTML and variant in ('Text', 'Sequence'):
            self.made.append((ctx, st.copy(), variant, I.canon(st, ops[0])))

    @property
    def P_(self):
        return self.C.P

    def note(self, st, ev):
        st.mon = tuple(q for q in st.mon if q != ev) + (ev,)

    def call(self, I, st, ctx, name, args, cal):
        short = name.rsplit('::', 1)[-1]
        if len(args) >= 2 and (name.startswith('std::ops::AddAssign') or name.startswith('std::string::String::') and short in ('push_str', 'push', 'extend', 'insert_str')):
            self.note(st, ('piece', I.canon(st, args[1])))
        return None

    def taken(self, I, st, ctx, e):
        self.note(st, ('piece', I.canon(st, e)))

    def opaque(self, I, st, ctx, b, args):
        if b.id in self.rec:
            self.note(st, ('again',) + tuple(I.canon(st, a) for a in args))
        return None

    def each(self, I, st, ctx, blocks=None):
        self.ends.append(((ctx.fid, blocks), st.copy()))
        st.mon = tuple(e for e in st.mon if e[0] != 'piece' and not any(x.t in ('el', 'lv', 'jn') for y in e if isinstance(y, T) for x in subterms(y)))

    def loop_back(self, I, st, ctx, head, key):
        self.each(I, st, ctx, key)


def builders(C):
    """structs that collect HTML items and make a sequence of them: {struct: (items field, text buffer fields)}"""
    P = C.P
    T_ = P.types['papyri_lang']
    out = {}
    for p, a in P.adts.items():
        if not a['local'] or a['enum']:
            continue
        f = [(x[0], T_[x[1]]['s']) for x in a['variants'][0]['fields'] if x[1] is not None]
        v = [n for n, t in f if t == 'std::vec::Vec<%s>' % HTML]
        if len(v) == 2 and len(f) == 2:
            out[p] = v
    return out


@prop('P18')
def p18(C):
    P = C.P
    C.rule('text', 'a text item is only made of text known not to be empty, a single space or a single newline, or of another text item')
    C.rule('value', 'HTML that is text becomes a string value, never an HTML value')
    C.rule('sequence', 'a sequence is only made of the items collected by the builder, when there are at least two, or of another sequence')
    C.rule('items', 'the builder drops empty items, flattens sequences, merges texts that touch into one and keeps everything else, in order')
    C.rule('all', 'collecting HTML items passes every one of them to the builder, in order')
    C.rule('equal', 'two HTML values are equal only if they are of the same kind and their parts are equal')
    mk_ = set()
    for i in constructors(C, HTML):
        b = P.bodies[i]
        if any(s[2][0] == 'agg' and s[2][1][0] == 'adt' and norm(s[2][1][1]) == HTML and s[2][1][2] in ('Text', 'Sequence') for s in stmts(b)):
            mk_.add(C.owner(b).id)
    for b in C.lib():
        for path, i in P.fn_refs(b):
            if path and norm(path) in (HTML + '::Text', HTML + '::Sequence'):
                mk_.add(C.owner(b).id)
    C.floor('functions that make text items or sequences', len(mk_), 3)
    B = builders(C)
    fields = {f for v in B.values() for f in v}
    items = {}
    nt = ns = 0
    for i in sorted(mk_):
        b = P.bodies[i]
        a = N(C)
        outs = C.explore(b, a, mon=(), cap=200)
        I = C.lastI
        found = 0
        for ctx, st, v, x in a.made:
            found += 1
            if v == 'Text':
                nt += 1
                ex = excluded(st, x)
                w = walk(x)
                ok = payload_of(x, HTML, ('Text',), P) or ex is not None and SPECIAL <= ex or w.t in ('s', 'str') and w.a[0] not in SPECIAL
                C.ob('text', 'text made in ' + C.owner(ctx.body).name, ok, 'a text item may be empty or a single space or newline: ' + show(x), ctx.loc())
            else:
                ns += 1
                own = payload_of(x, HTML, ('Sequence',), P)
                base = x
                while base.t == 'app' and base.a[0] in ('push', 'box', 'into') or base.t in ('deref', 'box'):
                    base = base.a[1] if base.t == 'app' else base.a[0]
                base = walk(base)
                fb = base.t == 'fld' and base.a[2] in B
                if fb:
                    items[base.a[2]] = base.a[3]
                C.ob('sequence', 'sequence made in ' + C.owner(ctx.body).name, own or fb and length(st, x)[0] >= 2, 'a sequence may have fewer than two items, or other items than those collected: ' + show(x), ctx.loc())
        C.ob('sequence', 'seen ' + b.name, found > 0, 'the construction was not reached by the analysis')
    vk = set()
    for b in C.lib():
        if any(s[2][0] == 'agg' and s[2][1][0] == 'adt' and norm(s[2][1][1]) == VAL and s[2][1][2] == 'HTML' for s in stmts(b)) and b.kind != 'promoted':
            vk.add(C.owner(b).id)
        for path, i in P.fn_refs(b):
            if path and norm(path) == VAL + '::HTML':
                vk.add(C.owner(b).id)
    nv = 0
    for i in sorted(vk):
        b = P.bodies[i]
        if b.argc == 0:
            continue
        a = N(C)
        C.explore(b, a, mon=(), cap=200)
        for ctx, st, x in a.vals:
            nv += 1
            k = poss_kind(P, st, x, HTML) if walk(x).t != 'adt' else {variants(P)[walk(x).a[1]]}
            C.ob('value', 'HTML value made in ' + C.owner(ctx.body).name, payload_of(x, VAL, ('HTML',), P) or not (k & {'Text', 'Whitespace', 'RawNewline'}), 'a text may become an HTML value instead of a string: ' + show(x), ctx.loc())
        C.ob('value', 'seen ' + b.name, bool(a.vals), 'the construction was not reached by the analysis')
    C.floor('HTML values made', nv, 1)
    C.floor('text items made', nt, 1)
    C.floor('sequences made', ns, 1)
    C.floor('builders of sequences', len(items), 1)
    for B_, f in items.items():
        builder(C, B_, f, [x for x in B[B_] if x != f][0])
    equal(C)


def builder(C, B, items, buf):
    P = C.P
    meth = [b for b in C.lib() if not b.parent and b.argc and B in b.ty(1)['s'] and b.kind != 'promoted']
    adds = [b for b in meth if b.argc == 2 and HTML == b.ty(2)['s'] and b.ty(1)['s'].startswith('&')]
    fins = [b for b in meth if b.argc == 1 and b.ty(1)['s'] == B and b.ty(0)['s'] == HTML]
    cg = P.call_graph()
    ids = {b.id for b in meth}

    def owner_callers(b):
        return {C.owner(P.bodies[a]).id for a, ss in cg.items() if b.id in ss} - {b.id}
    adds = [b for b in adds if not owner_callers(b) or not owner_callers(b) <= ids] or adds
    C.floor('operations that add an item', len(adds), 1)
    C.floor('operations that make the result', len(fins), 1)
    fi, bi = adt_field_index(P, B, items), adt_field_index(P, B, buf)
    T3 = {'Text', 'Whitespace', 'RawNewline'}
    seen = set()

    def now(I, st, b, which):
        v = I.symarg(b, 1)
        if v.t in ('ref', 'arg') and b.ty(1)['s'].startswith('&'):
            r, p = I.deref(v)
            v = I.rd(st, r, p)
        else:
            r = None
            v = I.canon(st, v)
        return I.canon(st, I.project(v, ('f', fi if which == items else bi, which, B, None)))

    def flushed(I, st, elem, cur0):
        """elem is made of everything in the text buffer"""
        return length(st, cur0)[1] == 1 or not last_of(elem, cur0)

    def known_len(st, t):
        lo, hi = length(st, t)
        return lo if lo == hi else 'many' if lo >= 2 else None

    def judge(b, a, I, st, child, done):
        """the items added on this path"""
        key = b.name
        st0 = ai.State(mon=())
        it0, cu0 = now(I, st0, b, items), now(I, st0, b, buf)
        it1 = done if done is not None else now(I, st, b, items)
        cu1 = now(I, st, b, buf)
        new = []
        t = it1
        while t.t == 'app' and t.a[0] == 'push' and t is not it0:
            new.append(t.a[2])
            t = t.a[1]
        new.reverse()
        tail = []
        u = cu1
        while u.t == 'app' and u.a[0] == 'push' and u is not cu0:
            tail.append(u.a[2])
            u = u.a[1]
        emptied = u.t == 'arr' and not u.a[0] or u.t == 'app' and u.a[0] in ('default', 'new') or u.t == 'const'
        kinds = poss(P, st, child, HTML) if child is not None else None
        n0 = known_len(st, cu0)
        return it0, cu0, t, new, tail, u, emptied, kinds, n0

    for b in adds:
        a = N(C, {b.id})
        outs = C.explore(b, a, mon=(), cap=300)
        I = C.lastI
        child = I.symarg(b, 2)
        key = b.name
        for st, r in outs:
            it0, cu0, t, new, tail, u, emptied, kinds, n0 = judge(b, a, I, st, child, None)
            if kinds == {'Empty'}:
                seen.add('Empty')
                C.ob('items', key + ' empty', not new and not tail and t is it0 and u is cu0, 'an empty item changes what is collected')
            elif kinds == {'Sequence'}:
                seen.add('Sequence')
                C.ob('items', key + ' sequence', not new and not tail, 'a sequence is kept as one item')
            elif kinds == {'Tag'}:
                seen.add('Tag')
                ok = t is it0 and bool(new) and walk(new[-1]) is walk(child) and not tail and len(new) <= 2
                C.ob('items', key + ' tag', ok, 'a tag is not added once, after what came before it: %s' % ', '.join(show(x) for x in new))
                C.ob('items', key + ' text before', (len(new) == 2 and emptied or len(new) == 1 and n0 == 0), 'text before a tag is dropped, or comes after it')
                if len(new) == 2:
                    C.ob('items', key + ' text joined', flushed(I, st, new[0], cu0), 'some text before a tag is lost: ' + show(new[0]))
            elif kinds <= T3:
                seen.add('text')
                C.ob('items', key + ' text', t is it0 and not new and u is cu0 and len(tail) == 1 and walk(tail[0]) is walk(child), 'a text item is not kept with the text before it')
            else:
                C.ob('items', key + ' kind', False, 'items of kinds %s are treated alike' % '/'.join(sorted(kinds)))
        loops = [(ctx, st) for ctx, st in a.ends if poss(P, st, child, HTML) == {'Sequence'}]
        C.ob('items', key + ' flattened', bool(loops), 'the items of a sequence are not added one by one')
        for ctx, st in loops:
            ev = [e for e in st.mon if e[0] == 'again']
            ok = len(ev) == 1 and whole_of(I, ev[0][2], lambda x: payload_of(x, HTML, ('Sequence',), P))
            C.ob('items', key + ' each of a sequence', ok, 'an item of a sequence is left out')
        pieces(C, I, a, key, B, buf)
    for b in fins:
        a = N(C, {x.id for x in adds})
        outs = C.explore(b, a, mon=(), cap=400)
        I = C.lastI
        key = b.name
        ways = set()
        for st, r in outs:
            it0, cu0, t, new, tail, u, emptied, kinds, n0 = judge(b, a, I, st, None, None)
            v = walk(I.canon(st, r))
            # what was collected when the result is made
            x = v
            how = None
            if v.t == 'adt' and v.a[0] == HTML and variants(P)[v.a[1]] == 'Sequence':
                how, x = 'many', v.a[2][0]
            elif v.t == 'adt' and v.a[0] == HTML and not v.a[2]:
                nm = variants(P)[v.a[1]]
                how = 'none' if nm == 'Empty' else 'text'
            elif v.t == 'app' and v.a[0] == 'last':
                how, x = 'one', v.a[1]
            else:
                how = 'other'
            seq = []
            while x.t == 'app' and x.a[0] == 'push':
                seq.append(x.a[2])
                x = x.a[1]
            if how == 'many':
                ways.add('many')
                C.ob('items', key + ' all', walk(x) is walk(it0) and len(seq) <= 1 and (len(seq) == 1 or n0 == 0), 'the result is not made of everything collected: ' + show(v))
                if seq:
                    C.ob('items', key + ' text joined', flushed(I, st, seq[0], cu0), 'some text at the end is lost: ' + show(seq[0]))
            elif how == 'none':
                # nothing collected; texts that were joined to nothing were empty
                ways.add('none')
                C.ob('items', key + ' nothing', n0 in (0, 'many') and length(st, it0)[1] == 0, 'content is lost when the result is made')
            elif n0 == 0:
                ways.add('one')
                C.ob('items', key + ' one', length(st, it0)[1] == 1 and last_of(v, it0), 'content is lost when the result is made: ' + show(v))
            else:
                ways.add('one')
                C.ob('items', key + ' one', length(st, it0)[1] == 0 and flushed(I, st, v, cu0), 'content is lost when the result is made: ' + show(v))
        C.floor('results of ' + b.name, len(ways), 3)
        pieces(C, I, a, key, B, buf)
    for k in ('Empty', 'Sequence', 'Tag', 'text'):
        C.floor('kind of item: ' + k, int(k in seen), 1)
    # everything collected goes through these operations
    for b, n, span in field_changes(C, B):
        if n not in (items, buf):
            continue
        o = C.owner(b)
        C.ob('items', 'change of %s in %s' % (n, o.name), o.id in ids, 'items are collected outside the builder', C.loc(span))
    # collecting: every item of an iterator
    froms = [b for b in C.lib() if not b.parent and b.argc == 1 and b.ty(0)['s'] == HTML and 'FromIterator' in b.name]
    C.floor('conversions of a list of items', len(froms), 1)
    for b in froms:
        a = N(C, {x.id for x in adds} | {x.id for x in fins})
        a.stops = a.stops | a.rec
        outs = C.explore(b, a, mon=(), cap=60)
        I = C.lastI
        src = I.symarg(b, 1)
        addid = {x.id for x in adds}
        n = 0
        for ctx, st in a.ends:
            ev = [e for e in st.mon if e[0] == 'again' and len(e) == 3]
            n += 1
            C.ob('all', b.name + ' each', len(ev) == 1 and any(x.t == 'el' for x in subterms(ev[0][2])) and plain(I, ev[0][2]), 'an item is left out')
        for st, r in outs:
            v = I.canon(st, r)
            ev = [e for e in st.mon if e[0] == 'again' and len(e) == 2]
            C.ob('all', b.name + ' result', len(ev) == 1, 'the result is not what was collected: ' + show(v))
            C.ob('all', b.name + ' to the end', not [e for e in st.mon if e[0] == 'again' and len(e) == 3], 'the items after one are left out')
        C.floor('items collected by ' + b.name, n, 1)


def last_of(v, base):
    v = walk(v)
    return v.t == 'app' and v.a[0] == 'last' and walk(v.a[1]) is walk(base) or v.t == 'idx' and walk(v.a[0]) is walk(base)


def plain(I, t):
    els = [x for x in subterms(t) if x.t == 'el']
    return bool(els) and all(I.iters.get(e) and all(all(o[0] in PLAIN for o in ops) for b, ops in I.iters[e]) for e in els)


def whole_of(I, t, good):
    """t is an element of the whole of a collection that satisfies good"""
    t = walk(t)
    if t.t != 'idx' or not plain(I, t):
        return False
    return not any(x.t == 'app' and x.a[0] == 'subslice' for x in subterms(t.a[0])) and good(t.a[0])


def pieces(C, I, a, key, B, buf):
    """joining texts: each text of the buffer is appended as what it is"""
    P = C.P
    n = 0
    for ctx, st in a.ends:
        ps = [e for e in st.mon if e[0] == 'piece']
        els = {x for k in st.facts for x in subterms(k) if x.t == 'idx' and x.a[1].t == 'el' and I.owned(x.a[1], *ctx) and field_of(x.a[0], B, buf) is not None}
        for E in els:
            n += 1
            kinds = poss(P, st, E, HTML)
            C.ob('items', key + ' joins all', len(ps) == 1 and plain(I, E), 'a text that touches another is left out, or added twice')
            for e in ps:
                x = walk(e[1])
                if kinds == {'Text'}:
                    ok = payload_of(x, HTML, ('Text',), P) and any(y is E for y in subterms(x))
                elif kinds == {'Whitespace'}:
                    ok = x.t in ('s', 'str') and x.a[0] == ' ' or x.t == 'i' and x.a[0] == 32
                elif kinds == {'RawNewline'}:
                    ok = x.t in ('s', 'str') and x.a[0] in ('\n', '\\n') or x.t == 'i' and x.a[0] == 10
                else:
                    ok = False
                C.ob('items', key + ' joins', ok, 'a text (%s) is joined as %s' % ('/'.join(sorted(kinds)), show(x)))
    C.count('texts joined', n)


def equal(C):
    P = C.P
    fns = [b for b in C.lib() if not b.parent and b.argc == 2 and b.name.rsplit('::', 1)[-1] == 'eq' and b.ty(1)['s'] in ('&' + HTML, '&' + TAG, '&' + VAL) and b.ty(2)['s'] == b.ty(1)['s']]
    C.floor('comparisons of values', len(fns), 3)
    for b in fns:
        ty = b.ty(1)['s'][1:]

        class Q(Opaque):
            def __init__(s):
                Opaque.__init__(s, P)
                s.stops = frozenset(x.id for x in fns)

            def inline(s, I, x):
                return x.id not in s.stops and Opaque.inline(s, I, x)

            def compare(s, I, st, args):
                out = []
                a = [walk(I.canon(st, x)) for x in args[:2]]
                for v in (0, 1):
                    s2 = st.copy()
                    s2.mon = st.mon + (('eq', a[0], a[1], v),)
                    out.append((s2, mk('i', v)))
                return out

            def opaque(s, I, st, ctx, x, args):
                return s.compare(I, st, args) if x.id in s.stops else None

            def call(s, I, st, ctx, name, args, cal):
                if name.rsplit('::', 1)[-1] in ('eq', 'ne') and len(args) == 2:
                    a = [walk(I.canon(st, x)) for x in args]
                    if any(x.t in ('as', 'fld', 'idx') for x in a) and not any(x.t in ('i', 'disc') for x in a):
                        r = s.compare(I, st, args)
                        return r if name.endswith('eq') else [(q, mk('i', 1 - v.a[0])) for q, v in r]
                return None

            ends = ()

            def each(s, I, st, ctx, blocks=None):
                s.ends += (st.copy(),)
                st.mon = tuple(e for e in st.mon if not any(x.t in ('el', 'lv', 'jn') for y in e if isinstance(y, T) for x in subterms(y)))

            def loop_back(s, I, st, ctx, head, key):
                s.each(I, st, ctx, key)
        q = Q()
        outs = C.explore(b, q, mon=(), cap=400)
        I = C.lastI
        x, y = walk(I.symarg(b, 1)), walk(I.symarg(b, 2))
        n = 0
        for st, r in outs:
            v = I.canon(st, r)
            cmpd = [e for e in st.mon if e[0] == 'eq'] + [('eq',) + k.a + (ival(f),) for k, f in st.facts.items() if k.t == 'eq']
            if v.t == 'eq' and ty != TAG:
                # the result is that of one comparison
                kx, ky = poss_kind(P, st, x, ty), poss_kind(P, st, y, ty)
                n += 1
                C.ob('equal', b.name + ' equal', len(kx) == 1 and kx == ky and pair(('eq',) + v.a, x, y), 'values of kinds %s and %s are equal whatever their parts: %s' % ('/'.join(sorted(kx)), '/'.join(sorted(ky)), show(v)))
                continue
            if v.t != 'i':
                C.ob('equal', b.name + ' decided', False, 'the result is ' + show(v))
                continue
            if ty != TAG:
                kx, ky = poss_kind(P, st, x, ty), poss_kind(P, st, y, ty)
                pay = {q_['name'] for q_ in P.adts[ty]['variants'] if q_['fields']}
                if v.a[0]:
                    n += 1
                    same = len(kx) == 1 and kx == ky
                    ok = same and (not (kx & pay) or any(e[3] == 1 and pair(e, x, y) for e in cmpd) or kx == {'Sequence'} and one_by_one(I, q, st, x, y))
                    C.ob('equal', b.name + ' equal', ok, 'values of kinds %s and %s are equal whatever their parts' % ('/'.join(sorted(kx)), '/'.join(sorted(ky))))
                else:
                    ok = not (kx & ky) or any(e[3] == 0 for e in cmpd) or kx == {'Sequence'} and one_by_one(I, q, st, x, y) is None
                    if not ok:
                        # the same payload-less kind on both sides must be equal
                        ok = len(kx) > 1 or len(ky) > 1 or 'Func' in kx
                    C.ob('equal', b.name + ' different', ok, 'values of kind %s are never equal' % '/'.join(sorted(kx)))
            else:
                cmpd = [e for e in st.mon if e[0] == 'eq']
                fs = {walk(e[1]).a[3] for e in cmpd if walk(e[1]).t == 'fld' and walk(e[1]).a[2] == TAG and walk(e[2]).t == 'fld' and walk(e[2]).a[3] == walk(e[1]).a[3] and e[3] == 1}
                for k, f in st.facts.items():
                    if k.t == 'eq' and ival(f) == 1:
                        for fl in P.field_names(TAG):
                            if len(k.a) == 2 and all(walk(z).t == 'fld' and walk(z).a[2] == TAG and walk(z).a[3] == fl for z in k.a):
                                fs.add(fl)
                if v.a[0]:
                    n += 1
                    C.ob('equal', b.name + ' equal', fs >= set(P.field_names(TAG)), 'tags are equal although %s was not compared' % ', '.join(sorted(set(P.field_names(TAG)) - fs)))
        C.floor('outcomes of ' + b.name, n, 1)


def one_by_one(I, q, st, x, y):
    """the items of two sequences of equal length are compared pairwise"""
    def parts(k):
        a = [len_of(z) for z in k.a] if k.t == 'eq' and len(k.a) == 2 else []
        return len(a) == 2 and all(z is not None for z in a) and any(w is x for w in subterms(a[0])) != any(w is x for w in subterms(a[1])) \
            and any(w is y for z in a for w in subterms(z))
    if any(parts(k) and ival(f) == 0 for k, f in st.facts.items()):
        return None
    if not any(parts(k) and ival(f) == 1 for k, f in st.facts.items()):
        return False
    ok = bool(q.ends)
    for s in q.ends:
        ev = [e for e in s.mon if e[0] == 'eq' and e[3] == 1 and e[1].t == 'idx' and e[2].t == 'idx']
        ok = ok and len(ev) == 1 and pair(ev[0], x, y) and plain(I, ev[0][1]) and plain(I, ev[0][2])
    return ok


def pair(e, x, y):
    """the comparison is of a whole part of x with a whole part of y"""
    def whole(t, z):
        t = walk(t)
        while t.t in ('app', 'sym') and len(t.a) >= 2 and isinstance(t.a[0], str) and t.a[0].rsplit('::', 1)[-1] in ('as_str', 'as_ref', 'borrow', 'as_slice', 'deref', 'as_bytes', 'slice'):
            t = walk(t.a[-1])
        while t.t in ('fld', 'as', 'deref', 'box', 'idx'):
            t = walk(t.a[0])
            if t is z:
                return True
        return False
    return whole(e[1], x) and whole(e[2], y) or whole(e[1], y) and whole(e[2], x)
