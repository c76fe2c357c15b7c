"""Types: which values belong to a type, coercion, the type of a value; block and inline HTML."""
from rules import prop
from rulelib import *
from rules.scope import Opaque
from rules.html import VAL, TAG, payload_of, plain, whole_of, length
from rules.args import walk, ival, poss_kind

TYPE = 'parser::types::Type'
KINDS = ['Bool', 'Int', 'Str', 'List', 'Dict', 'Func', 'Regex', 'HTML/Empty', 'HTML/Tag', 'HTML/Sequence']


def names_of(P, path):
    return [v['name'] for v in P.adts[path]['variants']]


class K(Opaque):
    """HTML predicates and recursive calls are uninterpreted functions of their arguments"""
    def __init__(self, C, stops=(), terms=()):
        Opaque.__init__(self, C.P)
        self.C = C
        self.stops = set(stops)
        self.ends = []
        self.pred = {}
        for b in C.lib():
            if b.parent or b.kind == 'promoted':
                continue
            if b.argc == 1 and b.ty(0)['s'] == 'bool' and b.ty(1)['s'].endswith('NameID'):
                self.pred[b.id] = b.name
        self.memo = dict(terms)      # body id -> function(I, st, args) -> outs

    def inline(self, I, b):
        if b.id in self.stops or b.id in self.pred or b.id in self.memo:
            return False
        return Opaque.inline(self, I, b)

    def opaque(self, I, st, ctx, b, args):
        if b.id in self.pred:
            return [(st, mk('app', self.pred[b.id], walk(I.canon(st, args[0]))))]
        if b.id in self.memo:
            return self.memo[b.id](I, st, args)
        return None

    def each(self, I, st, ctx, blocks=None):
        self.ends.append(((ctx.fid, blocks), st.copy()))
        st.mon = tuple(e for e in st.mon if not any(x.t in ('el', 'lv', 'jn') for y in e if isinstance(y, T) for x in subterms(y)))

    def end(self, I, st, ctx):
        if ('end',) not in st.mon:
            st.mon = st.mon + (('end',),)

    def loop_back(self, I, st, ctx, head, key):
        self.each(I, st, ctx, key)


def start(C, body, client, kinds):
    """args, state for a run of body with the variants of its arguments fixed: kinds = {arg number: (path, variant name, nested (path, variant) or None)}"""
    P = C.P
    I = ai.Interp(P, client, 600000)
    I.CAP = 400
    client.I = I
    st = ai.State(mon=())
    args = [I.symarg(body, i + 1) for i in range(body.argc)]
    for n, spec in kinds.items():
        a = args[n - 1]
        ref = body.ty(n)['k'] == 'ref'
        if ref:
            root, p = I.deref(a)
            base = I.rd(st, root, p)
        else:
            base = a

        def make(base, spec):
            path, name = spec[0], spec[1]
            vi = names_of(P, path).index(name)
            v = P.adts[path]['variants'][vi]
            fs = [I.project(mk('as', base, vi, path), ('f', k, f[0], path, None)) for k, f in enumerate(v['fields'])]
            if len(spec) > 2 and spec[2]:
                fs[0] = make(fs[0], spec[2])
            return mk('adt', path, vi, tuple(fs))
        val = make(base, spec)
        if ref:
            I.wr(st, root, p, val)
        else:
            args[n - 1] = val
    return I, args, st


def top(I, st, a):
    """the value an argument holds or points to"""
    a = I.canon(st, a)
    if a.t != 'adt':
        root, p = I.deref(a)
        a = I.canon(st, I.rd(st, root, p))
    return walk(a)


def vspec(kind):
    if '/' in kind:
        return (VAL, 'HTML', (HTML, kind.split('/')[1]))
    return (VAL, kind)


def uf(name, note=False, value=False):
    """an uninterpreted function of its (dereferenced) arguments"""
    def f(I, st, args):
        v = mk('app', name, *[top(I, st, a) if value else walk(I.canon(st, a)) for a in args])
        if note:
            st = st.copy()
            st.mon = st.mon + (('uf', v),)
        return [(st, v)]
    return f


def adt(t, path=None):
    t = walk(t)
    return t if t.t == 'adt' and (path is None or t.a[0] == path) else None


def vname(P, t):
    return names_of(P, t.a[0])[t.a[1]]


def conj(n):
    return n if n.startswith('a ') or n.startswith('an ') else n


_deep = {}


def deep(t):
    """a term without pointers and copies in it"""
    if not isinstance(t, T):
        return t
    t = walk(t)
    r = _deep.get(t)
    if r is None:
        r = _deep[t] = mk(t.t, *[deep(x) if isinstance(x, T) else tuple(deep(y) for y in x) if isinstance(x, tuple) else x for x in t.a])
    return r


def same(st, a, b):
    a, b = deep(a), deep(b)
    if a is b:
        return True
    for k, f in st.facts.items():
        if k.t == 'eq' and ival(f) == 1 and {deep(x) for x in k.a} == {a, b}:
            return True
    if a.t == 'adt' and b.t == 'adt' and a.a[:2] == b.a[:2]:
        return len(a.a[2]) == len(b.a[2]) and all(same(st, x, y) for x, y in zip(a.a[2], b.a[2]))
    return False


def fact(st, t):
    f = st.facts.get(t)
    return ival(f) if f is not None and f[0] == '=' else None


TEXTS = {'Text', 'Whitespace', 'RawNewline'}


class Types:
    """what it means to be a value of a type (the meaning documented for each type), on terms"""
    def __init__(self, C):
        self.C, self.P = C, C.P
        P = C.P
        lib = [b for b in C.lib() if not b.parent and b.kind != 'promoted']
        ty = lambda b, i: b.ty(i)['s']
        self.blk = [b for b in lib if b.name == HTML + '::is_block']
        self.inl = [b for b in lib if b.name == HTML + '::is_inline']
        self.kind = [b for b in lib if b.argc == 1 and ty(b, 1) == '&' + HTML and ty(b, 0).startswith(OPT) and 'NameID' in ty(b, 0)]
        self.check = [b for b in lib if b.argc == 2 and ty(b, 1) == '&' + TYPE and ty(b, 2) in (VAL, '&' + VAL) and ty(b, 0) == 'bool']
        self.coerce = [b for b in lib if b.argc == 3 and {ty(b, 2), ty(b, 3)} == {VAL, '&' + TYPE} and ty(b, 0).startswith(RES + '<' + VAL) and 'compiler::base::Compiler' in ty(b, 1)]
        self.html = [b for b in lib if b.argc == 2 and ty(b, 2) == VAL and ty(b, 0) == HTML and 'compiler::base::Compiler' in ty(b, 1)]
        self.get = [b for b in lib if b.name == VAL + '::get_type']
        self.lub = [b for b in lib if b.argc == 2 and ty(b, 1) == ty(b, 2) == ty(b, 0) == TYPE]
        self.comp = [b for b in lib if b.argc == 1 and ty(b, 1) == ty(b, 0) == '&' + TYPE and not b.name.endswith('clone')]
        cg = P.call_graph()
        self.rec = []
        for b in lib:
            tys = [ty(b, i) for i in range(1, b.argc + 1)]
            if ty(b, 0).startswith(RES + '<' + VAL) and VAL in tys and '&' + TYPE in tys and self.reach(cg, b.id, b.id):
                self.rec.append(b)
        # helpers in the same cycle
        self.cyc = {b.id for b in lib for r in self.rec if b.id != r.id and self.reach(cg, b.id, r.id) and self.reach(cg, r.id, b.id)}
        self.block_preds = set()

    def reach(self, cg, a, b):
        work, seen = [a], set()
        while work:
            for y in cg.get(work.pop(), ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return False

    def preds(self):
        out = {}
        for b in self.blk:
            out[b.id] = uf('block')
        for b in self.inl:
            out[b.id] = uf('inline')

        def kind(I, st, args):
            x = walk(I.canon(st, args[0]))
            return [(s, mk('adt', OPT, 1, (mk('app', 'block_name', x),)) if r else mk('adt', OPT, 0, ())) for s, r in I.split_bool(st, mk('app', 'block', x))]
        for b in self.kind:
            out[b.id] = kind
        return out

    # -- HTML
    def hkinds(self, st, h):
        h = walk(h)
        return {vname(self.P, h)} if h.t == 'adt' else poss_kind(self.P, st, h, HTML) - {None}

    def impossible(self, st):
        """the path contradicts that content is empty, or block, or inline"""
        for k, f in st.facts.items():
            if k.t == 'app' and k.a[0] in ('block', 'inline'):
                h, v = k.a[1], ival(f)
                other = fact(st, mk('app', 'inline' if k.a[0] == 'block' else 'block', h))
                ks = self.hkinds(st, h)
                if v == 1 and (other == 1 or ks == {'Empty'} or k.a[0] == 'block' and ks <= TEXTS):
                    return True
                if v == 0 and (other == 0 and 'Empty' not in ks or k.a[0] == 'inline' and ks <= TEXTS):
                    return True
        return False

    def is_block(self, I, st, h):
        h = walk(h)
        if self.hkinds(st, h) == {'Empty'}:
            return True
        if h.t == 'adt':
            n = vname(self.P, h)
            if n == 'Tag':
                t = adt(h.a[2][0], TAG)
                if t is not None and self.block_name(walk(t.a[2][adt_field_index(self.P, TAG, 'name_id')])):
                    return True
        return fact(st, mk('app', 'block', h)) == 1 or fact(st, mk('app', 'inline', h)) == 0

    def is_inline(self, I, st, h):
        h = walk(h)
        if self.hkinds(st, h) <= TEXTS | {'Empty'}:
            return True
        return fact(st, mk('app', 'inline', h)) == 1 or fact(st, mk('app', 'block', h)) == 0

    def block_name(self, name):
        if name.t == 'fld' or name.t == 'arg':
            return False
        for b in self.C.lib():
            if b.name in self.block_preds:
                cl = Opaque(self.P)
                I = ai.Interp(self.P, cl, 100000)
                cl.I = I
                outs = I.run(b.id, args=[name], st=ai.State(mon=()))
                return all(I.canon(s, r).t == 'i' and I.canon(s, r).a[0] == 1 for s, r in outs)
        return False

    # -- values
    def accepts(self, I, st, t, w):
        """w is known to be a value of type t"""
        t, w = walk(t), walk(w)
        if w.t == 'app' and w.a[0] == 'coerced' and same(st, w.a[1], t):
            return True
        if any(x.t == 'app' and x.a[0] == 'accepts' and ival(f) == 1 and same(st, x.a[1], t) and same(st, x.a[2], w) for x, f in st.facts.items()):
            return True
        ns = {vname(self.P, t)} if t.t == 'adt' else poss_kind(self.P, st, t, TYPE)
        return all(self.accepts1(I, st, n, t, w) for n in ns)

    def accepts1(self, I, st, n, t, w):
        if n == 'Any':
            return True
        if w.t != 'adt':
            return False
        k = vname(self.P, w)
        h = walk(w.a[2][0]) if k == 'HTML' else None
        unit = h is not None and self.hkinds(st, h) == {'Empty'}
        if n in ('Bool', 'Int', 'Str', 'Regex'):
            return k == n
        if n == 'Function':
            return k == 'Func'
        if n == 'Unit':
            return unit
        if n == 'Html':
            return k in ('Str', 'HTML')
        if n == 'Inline':
            return k == 'Str' or h is not None and self.is_inline(I, st, h)
        if n == 'Block':
            return h is not None and self.is_block(I, st, h)
        if n == 'Optional':
            return unit or t.t == 'adt' and self.accepts(I, st, t.a[2][0], w)
        return False

    def upper(self, st, r, t):
        """every value of type t is one of type r"""
        r, t = walk(r), walk(t)
        if same(st, r, t):
            return True
        tn = vname(self.P, t) if t.t == 'adt' else None
        if r.t == 'adt':
            n = vname(self.P, r)
            if n == 'Any':
                return True
            if n == 'Html':
                return tn in ('Html', 'Block', 'Inline', 'Unit', 'Str')
            if n == 'Inline':
                return tn in ('Unit', 'Str', 'Inline')
            if n == 'Block':
                return tn in ('Unit', 'Block')
            if n == 'Optional':
                x = r.a[2][0]
                return tn == 'Unit' or (tn == 'Optional' and self.upper(st, x, t.a[2][0])) or self.upper(st, x, t)
            if n in ('List', 'Dict'):
                return tn == n and self.upper(st, r.a[2][0], t.a[2][0])
            return n == tn
        if r.t == 'app' and r.a[0] == 'lub':
            if tn == 'Unit' and poss_kind(self.P, st, r, TYPE) <= {'Any', 'Html', 'Block', 'Inline', 'Unit', 'Optional'}:
                return True
            if tn == 'Optional' and poss_kind(self.P, st, r, TYPE) <= {'Any', 'Html', 'Block', 'Inline', 'Unit', 'Optional'} and self.upper(st, r, t.a[2][0]):
                return True
            return any(same(st, x, t) for x in r.a[1:])
        return False


@prop('P19')
def p19(C):
    P = C.P
    C.rule('kinds', 'HTML content is empty, or block, or inline, and only one of them; a tag is block exactly if it is a block tag, or a link around block content')
    C.rule('membership', 'a value is accepted as a value of a type exactly if it is one, for every type and kind of value')
    C.rule('coercion', 'the result of a coercion is a value of the type; a value of the type is unchanged; other values are converted only as documented')
    C.rule('type of', 'the type reported for a value accepts it, and the common type of several accepts all of them')
    K_ = Types(C)
    for n, x, least in (('block test', K_.blk, 1), ('inline test', K_.inl, 1), ('membership test', K_.check, 1), ('coercion', K_.coerce, 1), ('conversion to HTML', K_.html, 1),
                        ('type of a value', K_.get, 1), ('common type', K_.lub, 1), ('type of components', K_.comp, 1), ('recursive coercion', K_.rec, 1)):
        C.floor(n, len(x), least)
    kinds(C, K_)
    membership(C, K_)
    coercion(C, K_)
    type_of(C, K_)


HKINDS = ['Empty', 'Tag', 'Sequence', 'Text', 'Whitespace', 'RawNewline']


def go(C, b, cl, spec, tag):
    I, args, st = start(C, b, cl, spec)
    outs = I.run(b.id, args=args, st=st)
    C.explored.append((b.name + ' ' + tag, len(outs), I.steps, len(I.visited)))
    C.lastI = I
    return I, args, outs


def kinds(C, K_):
    P = C.P
    K_.block_preds = set()
    for hk in HKINDS:
        res = {}
        for which, b in (('block', K_.blk[0]), ('inline', K_.inl[0])):
            pr = K_.preds()
            own = {x.id for x in (K_.blk + K_.kind if which == 'block' else K_.inl)}

            class Q(K):
                def inline(s, I, x):
                    if x.id in s.memo and x.id in own and x.id not in I.stack:
                        return True
                    return K.inline(s, I, x)
            cl = Q(C, terms=pr)
            I, args, outs = go(C, b, cl, {1: (HTML, hk)}, hk)
            r, p = I.deref(args[0])
            me = walk(I.canon(outs[0][0], args[0]))
            res[which] = (I, cl, me, [(st, I.canon(st, v)) for st, v in outs])
        # block_kind is the recursive one when the test is only derived from it
        exp = []
        for which in ('block', 'inline'):
            I, cl, me, outs = res[which]
            new = []
            for st, v in outs:
                for s2, x in (I.split_bool(st, v) if v.t != 'i' else [(st, v.a[0])]):
                    new.append((s2, int(x if not isinstance(x, T) else x.a[0])))
            exp.append((I, cl, me, new))
        (Ib, cb, mb, ob), (Ii, ci, mi, oi) = exp
        key = 'content ' + hk
        if hk != 'Sequence' and hk != 'Tag':
            C.ob('kinds', key + ' block', all(v == 0 for st, v in ob) and ob, '%s is block content' % hk)
            C.ob('kinds', key + ' inline', all(v == (hk in TEXTS) for st, v in oi) and oi, '%s is %sinline content' % (hk, 'not ' if hk in TEXTS else ''))
        elif hk == 'Tag':
            tag_kinds(C, K_, key, exp)
        else:
            seq_kinds(C, K_, key, exp)


def atoms(st):
    """what is known about block content and tag names on this path"""
    return {k: ival(f) for k, f in st.facts.items() if f[0] == '=' and k.t in ('app', 'eq')}


def name_of(P, t):
    t = walk(t)
    return t.t == 'fld' and t.a[2] == TAG and t.a[3] == 'name_id'


def tag_kinds(C, K_, key, exp):
    P = C.P
    (Ib, cb, mb, ob), (Ii, ci, mi, oi) = exp

    def link(st):
        """is this tag a link on this path? None: not asked"""
        for k, f in st.facts.items():
            if k.t == 'eq' and any(any(name_of(P, y) or y.t == 'fld' for y in subterms(x)) for x in k.a):
                return ival(f)
        for k, f in st.facts.items():
            if f[0] in '=!' and k.t == 'fld' and any(name_of(P, y) for y in subterms(k)):
                return 1 if f[0] == '=' else 0
        return None

    def rest(st):
        """(facts about the content, facts about the name)"""
        content = {}
        name = {}
        for k, f in st.facts.items():
            if k.t == 'app' and f[0] == '=':
                x = walk(k.a[1])
                if x.t == 'fld' and x.a[2] == TAG and x.a[3] == 'content':
                    content[k.a[0]] = ival(f)
                elif name_of(P, x):
                    name[k.a[0]] = ival(f)
                elif x is mb or x is mi:
                    content['self ' + k.a[0]] = ival(f)
        return content, name
    seen = set()
    for st, v in ob:
        l = link(st)
        c, n = rest(st)
        if l == 1:
            seen.add('link')
            C.ob('kinds', key + ' link', c.get('block') == v, 'a link is %sblock content whatever is in it' % ('' if v else 'not '))
        elif l == 0:
            seen.add('tag')
            K_.block_preds |= set(n)
            C.ob('kinds', key + ' tag', list(n.values()) == [v], 'a tag is %sblock content whatever its name' % ('' if v else 'not '))
        else:
            C.ob('kinds', key + ' decided', False, 'tags and links are treated alike')
    C.ob('kinds', key + ' cases', seen == {'link', 'tag'}, 'links and other tags are not told apart')
    for st, v in oi:
        l = link(st)
        c, n = rest(st)
        if 'self block' in c:
            ok = c['self block'] == 1 - v
        elif l == 1:
            ok = c.get('block') == 1 - v
        elif l == 0:
            ok = bool(n) and set(n) <= K_.block_preds and list(n.values()) == [1 - v]
        else:
            ok = False
        C.ob('kinds', key + ' inline', ok, 'a tag can be both block and inline content, or neither (%s)' % ('a link' if l == 1 else 'a tag'))
    C.floor('tests of block tag names', len(K_.block_preds), 1)


def seq_kinds(C, K_, key, exp):
    P = C.P
    for which, (I, cl, me, outs) in (('block', exp[0]), ('inline', exp[1])):
        n = 0
        for st, v in outs:
            own = [ival(f) for k, f in st.facts.items() if k.t == 'app' and k.a[0] == 'block' and walk(k.a[1]) is me]
            if which == 'inline' and own:
                n += 1
                C.ob('kinds', key + ' inline', own == [1 - v], 'a sequence can be both block and inline content, or neither')
                continue
            els = {(k.a[0], ival(f)) for k, f in st.facts.items() if k.t == 'app' and k.a[0] in ('block', 'inline') and whole_of(I, k.a[1], lambda x: payload_of(x, HTML, ('Sequence',), P))}
            early = 1 if which == 'block' else 0
            n += 1
            if v == early:
                C.ob('kinds', key + ' %s, an item' % which, ('block', 1) in els or ('inline', 0) in els, 'a sequence is %s content although no item is block content' % ('block' if which == 'block' else 'not inline'))
            else:
                ends = [s for c_, s in cl.ends]
                good = bool(ends) and ('end',) in st.mon
                for s in ends:
                    e2 = {(k.a[0], ival(f)) for k, f in s.facts.items() if k.t == 'app' and k.a[0] in ('block', 'inline') and whole_of(I, k.a[1], lambda x: payload_of(x, HTML, ('Sequence',), P))}
                    good = good and (('block', 0) in e2 or ('inline', 1) in e2)
                C.ob('kinds', key + ' %s, all items' % which, good, 'a sequence is %s content although not all of its items are inline' % ('inline' if which == 'inline' else 'not block'))
        C.floor('outcomes of %s %s' % (which, key), n, 2)


def membership(C, K_):
    P = C.P
    b = K_.check[0]
    for t in names_of(P, TYPE):
        for k in KINDS:
            terms = K_.preds()
            terms[b.id] = uf('accepts')
            cl = K(C, terms=terms)
            cl.must = True
            I, args, outs = go(C, b, cl, {1: (TYPE, t), 2: vspec(k)}, t + ' ' + k)
            st0 = outs[0][0]
            T_, V_ = top(I, st0, args[0]), top(I, st0, args[1])
            key = '%s as %s' % (k, t)
            exp = expected(t, k)
            for st, v in outs:
                v = I.canon(st, v)
                if exp in (0, 1):
                    C.ob('membership', key, v.t == 'i' and v.a[0] == exp, 'it is %s' % ('refused' if exp else 'accepted'))
                elif exp in ('block', 'inline'):
                    h = mk_payload(P, V_)
                    ok = (v.t == 'app' and v.a[0] == exp and walk(v.a[1]) is h) or v.t == 'i' and fact(st, mk('app', exp, h)) == v.a[0] \
                        or v.t == 'not' and v.a[0].t == 'app' and v.a[0].a[0] == ({'block', 'inline'} - {exp}).pop() and walk(v.a[0].a[1]) is h \
                        or v.t == 'i' and fact(st, mk('app', ({'block', 'inline'} - {exp}).pop(), h)) == 1 - v.a[0]
                    C.ob('membership', key, ok, 'it is accepted whether or not it is %s content: %s' % (exp, show(v)))
                elif exp == 'inner':
                    a = mk('app', 'accepts', walk(T_.a[2][0]), V_)
                    C.ob('membership', key, v is a or v.t == 'i' and fact(st, a) == v.a[0], 'it is not accepted exactly if it is a value of the inner type: ' + show(v))
                elif exp == 'each':
                    inner = walk(T_.a[2][0])
                    els = [(x, ival(f)) for x, f in st.facts.items() if x.t == 'app' and x.a[0] == 'accepts']
                    if v.t == 'i' and v.a[0] == 0:
                        ok = any(r == 0 and same(st, x.a[1], inner) and el_of(I, x.a[2], V_) for x, r in els)
                        C.ob('membership', key + ' refused', ok, 'it is refused although no element is refused')
                    elif v.t == 'i':
                        if poss_kind(P, st, inner, TYPE) == {'Any'}:
                            C.ob('membership', key + ' any', True)
                            continue
                        good = bool(cl.ends) and ('end',) in st.mon
                        for c_, s in cl.ends:
                            e2 = [(x, ival(f)) for x, f in s.facts.items() if x.t == 'app' and x.a[0] == 'accepts']
                            good = good and any(r == 1 and same(s, x.a[1], inner) and el_of(I, x.a[2], V_) for x, r in e2)
                        C.ob('membership', key + ' accepted', good, 'it is accepted although some elements are not values of the element type')
                    else:
                        C.ob('membership', key + ' decided', False, 'the result is ' + show(v))


def mk_payload(P, v):
    return walk(v.a[2][0])


def el_of(I, t, v):
    """t is an element (or value of an entry) of the whole collection v"""
    t = walk(t)
    if t.t == 'fld' and t.a[3] == 'value':
        t = walk(t.a[0])
    if t.t != 'idx' or not plain(I, t):
        return False
    return whole(t.a[0], walk(v.a[2][0]))


def whole(base, coll):
    """base is all of coll (a list or a dictionary)"""
    base, coll = walk(base), walk(coll)
    if base is coll:
        return True
    if base.t == 'app' and base.a[0] == 'subslice':
        f = walk(base.a[1])
        r = walk(base.a[2])
        if f.t == 'fld' and walk(f.a[0]) is coll and r.t == 'adt':
            ends = [walk(x) for x in r.a[2]]
            return len(ends) == 2 and all(x.t == 'fld' and walk(x.a[0]) is coll for x in ends) and ends[0] is not ends[1]
    return False


def expected(t, k):
    """the meaning of the types: 1 accepted, 0 refused, or what it depends on"""
    if k == 'HTML/Empty':
        return 1 if t in ('Unit', 'Any', 'Html', 'Block', 'Inline', 'Optional') else 0
    if t == 'Any':
        return 1
    if t == 'Optional':
        return 'inner'
    if t in ('Block', 'Inline') and k.startswith('HTML'):
        return t.lower()
    if t == 'Html' and k.startswith('HTML') or t in ('Html', 'Inline') and k == 'Str':
        return 1
    if t in ('List', 'Dict') and k == t:
        return 'each'
    return int(k == {'Function': 'Func'}.get(t, t))


def refused(P, st, t, v):
    """v is known not to be a value of type t"""
    t, v = walk(t), walk(v)
    if v.t != 'adt' or vname(P, v) == 'HTML':
        return False
    ns = {vname(P, t)} if t.t == 'adt' else poss_kind(P, st, t, TYPE)
    return all(expected(n, vname(P, v)) == 0 for n in ns)


def coercion(C, K_):
    P = C.P
    b = K_.coerce[0]
    vi = [i for i in (2, 3) if b.ty(i)['s'] == VAL][0]
    ti = 5 - vi
    recs = {x.id for x in K_.rec}
    # HTML converted to HTML is itself
    for hk in ('Empty', 'Tag', 'Sequence'):
        h = K_.html[0]
        cl = K(C)
        I, args, outs = go(C, h, cl, {2: (VAL, 'HTML', (HTML, hk))}, hk)
        for st, v in outs:
            a = top(I, st, args[1])
            C.ob('coercion', 'conversion of %s to HTML' % hk, walk(I.canon(st, v)) is walk(a.a[2][0]), 'HTML content changes when it is converted to HTML: ' + show(I.canon(st, v)))

    class Q(K):
        depth = 0

        def inline(s, I, x):
            if x.id in recs:
                return I.stack.count(x.id) == 0
            return True if x.id in K_.cyc else K.inline(s, I, x)

        def opaque(s, I, st, ctx, x, args):
            if x.id in recs:
                tys = [x.ty(i)['s'] for i in range(1, x.argc + 1)]
                t = walk(I.canon(st, args[tys.index('&' + TYPE)]))
                v = walk(I.canon(st, args[tys.index(VAL)]))
                out = []
                for q, r in I.split_bool(st, mk('app', 'coercible', t, v)):
                    w = mk('app', 'coerced', t, v)
                    q.mon = q.mon + (('coerce', t, v, r if not isinstance(r, T) else r.a[0]),)
                    out.append((q, mk('adt', RES, 0, (w,)) if r else mk('adt', RES, 1, (mk('app', 'refused', t, v),))))
                return out
            return K.opaque(s, I, st, ctx, x, args)

        def store(s, I, st, ctx, root, path, val, rv):
            xs = [e for e in path if e[0] == 'x']
            if xs:
                st.mon = tuple(e for e in st.mon if not (e[0] == 'put' and e[2] is xs[0][1])) + (('put', mk('tup', tuple(y for y in root if isinstance(y, T))) if isinstance(root, tuple) else root, xs[0][1], I.canon(st, val)),)

        def taken(s, I, st, ctx, e):
            st.mon = st.mon + (('put', mk('i', 0), mk('i', 0), I.canon(st, e)),)

        def call(s, I, st, ctx, name, args, cal):
            if name in ('std::vec::Vec::<T, A>::push', 'indexmap::IndexMap::<K, V, S>::insert'):
                st.mon = st.mon + (('put', mk('i', 0), mk('i', 0), I.canon(st, args[-1])),)
            return None

    for t in names_of(P, TYPE):
        for k in KINDS:
            key = '%s to %s' % (k, t)
            terms = K_.preds()
            for x in K_.get:
                terms[x.id] = uf('type')
            for x in K_.check:
                terms[x.id] = uf('accepts', value=True)

            def html(I, st, args):
                v = walk(I.canon(st, args[1]))
                if v.t == 'adt' and vname(P, v) == 'HTML':
                    return [(st, v.a[2][0])]
                return [(st, mk('app', 'html', v))]
            for x in K_.html:
                terms[x.id] = html
            cl = Q(C, terms=terms)
            I, args, outs = go(C, b, cl, {ti: (TYPE, t), vi: vspec(k)}, key)
            st0 = ai.State(mon=())
            V_ = args[vi - 1]
            n = 0
            for st, r in outs:
                if K_.impossible(st):
                    continue
                n += 1
                r = walk(I.canon(st, r))
                T_ = top(I, st, args[ti - 1])
                V = top(I, st, V_)
                if r.t != 'adt' or r.a[0] != RES:
                    C.ob('coercion', key + ' decided', False, 'the result is ' + show(r))
                    continue
                good = r.a[1] == 0
                if any(x.t == 'app' and x.a[0] == 'accepts' and (ival(f) == 0 and K_.accepts(I, st, x.a[1], x.a[2]) or ival(f) == 1 and refused(P, st, x.a[1], x.a[2])) for x, f in st.facts.items()):
                    continue
                if t == k and t in ('List', 'Dict'):
                    each(C, I, K_, cl, key, st, good, r, T_, V)
                    continue
                inner = T_
                if t == 'Optional' and k != 'HTML/Empty':
                    inner = walk(T_.a[2][0])
                    ns = poss_kind(P, st, inner, TYPE)
                    if ns <= {'List', 'Dict', 'Optional'} and (k in ns or 'Optional' in ns):
                        # an optional collection: like the collection
                        if good and K_.accepts(I, st, inner, V) and same(st, r.a[2][0], V):
                            continue
                        if k in ns and good:
                            it = mk('adt', TYPE, names_of(P, TYPE).index(k), (I.project(mk('as', inner, names_of(P, TYPE).index(k), TYPE), ('f', 0, '0', TYPE, None)),))
                            each(C, I, K_, cl, key, st, good, r, it, V)
                        continue
                mine = K_.accepts(I, st, T_, V) or t == 'Optional' and K_.accepts(I, st, inner, V)
                if mine:
                    C.ob('coercion', key + ' unchanged', good and same(st, unhtml(P, st, r.a[2][0]), unhtml(P, st, V)), 'a value of the type is refused or changed: ' + show(r))
                elif good:
                    w = walk(r.a[2][0])
                    C.ob('coercion', key + ' result', K_.accepts(I, st, T_, w) or t == 'Optional' and K_.accepts(I, st, inner, w), 'the result may not be a value of the type: ' + show(w))
                    C.ob('coercion', key + ' converted', converted(P, K_, st, {vname(P, inner)} if inner.t == 'adt' else poss_kind(P, st, inner, TYPE), k, V, w), 'it is converted to something else: ' + show(w))
                else:
                    ns = {vname(P, inner)} if inner.t == 'adt' else poss_kind(P, st, inner, TYPE)
                    C.ob('coercion', key + ' refused', refusable(K_, I, st, ns, k, V), 'a conversion that is possible is refused')
            C.count('cases of coercion')
            C.ob('coercion', key + ' seen', n > 0, 'no outcome was found')


def unhtml(P, st, w):
    """Value::HTML(h) where h is a text is the string"""
    return walk(w)


def each(C, I, K_, cl, key, st, good, r, T_, V):
    """collections are coerced element by element"""
    P = C.P
    inner = walk(T_.a[2][0])
    if not good:
        ok = any(x.t == 'app' and x.a[0] == 'coercible' and ival(f) == 0 for x, f in st.facts.items()) or any(x.t == 'app' and x.a[0] == 'collect_err' for x in subterms(r))
        C.ob('coercion', key + ' refused', ok, 'a collection is refused although no element was: ' + show(r))
        return
    w = adt(r.a[2][0], VAL)
    ok = w is not None and vname(P, w) == vname(P, V)
    if ok:
        x = walk(w.a[2][0])
        if x.t == 'adt':      # a view of the whole of a vector
            y = walk(x.a[2][0])
            ok = x.a[2][1].t == 'i' and x.a[2][1].a[0] == 0 and len_is(x.a[2][2], y)
            x = y
        if (poss_kind(P, st, inner, TYPE) == {'Any'} or K_.accepts(I, st, T_, w)) and same(st, w, V):
            C.ob('coercion', key + ' any', True)
            return
        ok = ok and (x.t == 'lv' or x.t == 'app' and x.a[0] in ('collect', 'push', 'insert') or x is walk(V.a[2][0])) and ('end',) in st.mon
    C.ob('coercion', key + ' kept', ok, 'a collection is not kept as a whole: ' + show(r))
    ends = cl.ends
    C.ob('coercion', key + ' each', bool(ends), 'the elements are not coerced')
    for (fid, blocks), s in ends:
        puts = [e for e in s.mon if e[0] == 'put']
        ok = len(puts) == 1
        if ok:
            v = walk(puts[0][3])
            if v.t == 'adt' and v.a[0] == RES:
                v = walk(v.a[2][0])
            while v.t == 'tup':
                v = walk(v.a[0][-1])
            ok = v.t == 'app' and v.a[0] in ('coerced', 'refused') and same(s, v.a[1], inner)
            if ok:
                src = walk(v.a[2])
                e = walk(src.a[0]) if src.t == 'fld' and src.a[3] == 'value' else src
                ok = e.t == 'idx' and plain(I, e) and (walk(e.a[0]).t == 'lv' or whole(e.a[0], V.a[2][0]) or walk(e.a[0]) is walk(V.a[2][0])) and (puts[0][2].t != 'el' or puts[0][2] is e.a[1])
            if ok and v.a[0] == 'refused':
                ok = puts[0][2].t != 'el'
        C.ob('coercion', key + ' each', ok, 'an element is not replaced by itself coerced to the element type: %s' % ', '.join(show(e[3]) for e in puts))


def len_is(t, y):
    t = walk(t)
    while t.t == 'cast':
        t = walk(t.a[-1])
    return t.t == 'app' and t.a[0] == 'len' and walk(t.a[1]) is y


def converted(P, K_, st, ns, k, V, w):
    """the documented conversions"""
    if ns == {'Str'} and k in ('Bool', 'Int'):
        if w.t != 'adt' or vname(P, w) != 'Str':
            return False
        s = walk(w.a[2][0])
        x = walk(V.a[2][0])
        if k == 'Bool':
            return s.t == 's' and s.a[0] == {1: 'True', 0: 'False'}.get(fact(st, x))
        return s.t == 'app' and s.a[0] in ('to_string', 'format') and walk(s.a[-1]) is x
    if ns <= {'Html', 'Block', 'Inline'} and k != 'Func' and not ('Inline' in ns and k in ('List', 'Dict')):
        h = mk('app', 'html', V) if not k.startswith('HTML') else walk(V.a[2][0])
        if w.t != 'adt':
            return False
        x = walk(w.a[2][0])
        if vname(P, w) == 'HTML':
            if x is h:
                return True
            if 'Block' in ns and fact(st, mk('app', 'inline', h)) == 1 or fact(st, mk('app', 'block', h)) == 0:
                t = adt(x.a[2][0], TAG) if x.t == 'adt' and vname(P, x) == 'Tag' else None
                return t is not None and walk(t.a[2][adt_field_index(P, TAG, 'content')]) is h and is_name(P, t.a[2][adt_field_index(P, TAG, 'name_id')], 'P')
            return False
        if vname(P, w) == 'Str':
            ks = poss_kind(P, st, h, HTML)
            return ks == {'Text'} and payload_of(x, HTML, ('Text',), P) or ks == {'Whitespace'} and x.t == 's' and x.a[0] == ' ' or ks == {'RawNewline'} and x.t == 's' and x.a[0] in ('\n', '\\n')
    return False


def is_name(P, t, n):
    ints = {x.a[0] for x in subterms(walk(t)) if x.t == 'i'}
    return ints == {str_ids(P)[n][0]}


def refusable(K_, I, st, ns, k, V):
    if ns & {'Any'}:
        return False
    if ns & {'Str'} and k in ('Bool', 'Int'):
        return False
    if ns & {'Html', 'Block'} and k != 'Func':
        return False
    if ns & {'Inline'} and k not in ('Func', 'List', 'Dict'):
        h = mk('app', 'html', V) if not k.startswith('HTML') else walk(V.a[2][0])
        return fact(st, mk('app', 'block', h)) == 1 or fact(st, mk('app', 'inline', h)) == 0
    return True


def acc(t):
    """a value accumulated in a loop"""
    t = walk(t)
    while t.t in ('fld', 'as'):
        t = walk(t.a[0])
    return t.t in ('lv', 'jn', 'hv')


def type_of(C, K_):
    P = C.P
    g = K_.get[0]
    l = K_.lub[0]
    commons = {b.id for b in C.lib() if not b.parent and b.ty(0)['s'] == TYPE and b.argc == 1 and b.id != g.id and b.kind != 'promoted'}
    for k in KINDS:
        terms = K_.preds()
        terms[l.id] = uf('lub', True)
        terms[g.id] = uf('type', True)

        class Q(K):
            def inline(s, I, x):
                return True if x.id in commons else K.inline(s, I, x)
        cl = Q(C, terms=terms)
        I, args, outs = go(C, g, cl, {1: vspec(k)}, k)
        for st, r in outs:
            if K_.impossible(st):
                continue
            r = walk(I.canon(st, r))
            V = top(I, st, args[0])
            key = 'type of ' + k
            if k in ('List', 'Dict'):
                ok = r.t == 'adt' and vname(P, r) == k
                inner = walk(r.a[2][0]) if ok else None
                some_ = bool(cl.ends)
                for c_, s in cl.ends:
                    ty = [e[1] for e in s.mon if e[0] == 'uf' and e[1].a[0] == 'type' and el_of(I, e[1].a[1], V)]
                    lb = [e[1] for e in s.mon if e[0] == 'uf' and e[1].a[0] == 'lub']
                    some_ = some_ and 1 <= len(ty) <= 2 and all(not lb and len(ty) == 1 or any(any(walk(x) is y for x in z.a[1:]) for z in lb) for y in ty) \
                        and all(all(acc(x) or walk(x).t == 'app' and walk(x).a[0] in ('type', 'lub') or walk(x).t == 'adt' and vname(P, walk(x)) == 'Unit' for x in z.a[1:]) and z.a[1] is not z.a[2] for z in lb)
                n = inner is not None and (inner.t == 'adt' and vname(P, inner) in ('Any', 'Unit') or acc(inner) or inner.t == 'app')
                C.ob('type of', key, ok and n, 'the type of a collection is ' + show(r))
                C.ob('type of', key + ' each', some_ or inner is not None and inner.t == 'adt' and vname(P, inner) == 'Any', 'not every element is looked at')
            else:
                C.ob('type of', key, K_.accepts(I, st, r, V), 'it is ' + show(r))
    for a in names_of(P, TYPE):
        for b in names_of(P, TYPE):
            terms = {l.id: uf('lub')}
            cl = K(C, terms=terms)
            I, args, outs = go(C, l, cl, {1: (TYPE, a), 2: (TYPE, b)}, a + ' ' + b)
            for st, r in outs:
                r = walk(I.canon(st, r))
                x, y = top(I, st, args[0]), top(I, st, args[1])
                for z, o in ((x, a), (y, b)):
                    C.ob('type of', 'common type of %s and %s' % (a, b), K_.upper(st, r, z), 'it is %s, which does not accept every value of %s' % (show(r), o))
    c = K_.comp[0]
    for a in names_of(P, TYPE):
        cl = K(C, terms={c.id: uf('component')})
        I, args, outs = go(C, c, cl, {1: (TYPE, a)}, a)
        for st, r in outs:
            r = walk(I.canon(st, r))
            t = top(I, st, args[0])
            if a in ('List', 'Dict'):
                ok = same(st, r, t.a[2][0])
            elif a == 'Optional':
                ok = r.t == 'app' and r.a[0] == 'component' and same(st, r.a[1], t.a[2][0])
            elif a in ('Html', 'Block', 'Inline'):
                ok = r.t == 'adt' and vname(P, r) in ('Any', 'Html')
            else:
                ok = r.t == 'adt' and vname(P, r) == 'Any'
            C.ob('type of', 'component of ' + a, ok, 'it is ' + show(r))
