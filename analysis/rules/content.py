"""The content model: what may be inside a tag, what is wrapped, and what is refused."""
from rules import prop
from rulelib import *
from rules.scope import Opaque
from rules.html import VAL, TAG, payload_of, plain, whole_of, length
from rules.args import walk, ival, poss_kind
from rules.coerce import K, Types, start, top, uf, adt, vname, names_of, fact, deep, same, TEXTS

AST = 'parser::ast::AST'


def find_model(C):
    """the enum that says what content a tag may have: made from a tag name, and kept by the builder"""
    P = C.P
    for b in C.lib():
        if not b.parent and b.kind != 'promoted' and b.argc == 1 and b.ty(1)['s'] == NAMEID and b.ty(0)['k'] == 'adt':
            p = norm(b.ty(0)['p'])
            if p in P.adts and P.adts[p]['enum'] and P.adts[p]['local'] and not p.startswith('std'):
                yield b, p


class Model:
    def __init__(self, C):
        P = self.P = C.P
        self.C = C
        T_ = P.types['papyri_lang']
        self.for_, self.kind, self.B = [], None, None
        for b, p in find_model(C):
            for q, a in P.adts.items():
                if not a['local'] or a['enum']:
                    continue
                f = [(x[0], T_[x[1]]['s'] if x[1] is not None else '') for x in a['variants'][0]['fields']]
                k = [n for n, t in f if t == p]
                v = [n for n, t in f if t == 'std::vec::Vec<%s>' % HTML]
                n = [x for x, t in f if q in t]
                if len(k) == len(v) == len(n) == 1:
                    self.kind, self.B = p, q
                    self.fk, self.fv, self.fn = k[0], v[0], n[0]
                    self.rest = [x for x, t in f if x not in (k[0], v[0], n[0])]
                    self.names = [x for x, t in f]
            if p == self.kind:
                self.for_.append(b)
        lib = [b for b in C.lib() if not b.parent and b.kind not in ('promoted', 'closure')]
        ty = lambda b, i: b.ty(i)['s']
        B = self.B
        if B is None:
            return
        meth = [b for b in lib if b.argc and ty(b, 1) in (B, '&mut ' + B, '&' + B)]
        ids = {b.id for b in meth}
        self.add = [b for b in meth if ty(b, 1) == '&mut ' + B and HTML in [ty(b, i) for i in range(2, b.argc + 1)]]
        self.fin = [b for b in meth if ty(b, 1) == B and HTML in ty(b, 0)]
        used = set()
        for b in lib:
            if b.id not in ids:
                for i, cal, args, dest, span in P.calls(b):
                    used.add(cal.get('id'))
        for b in C.lib():
            if b.id not in ids and C.owner(b).id not in ids:
                used |= P.call_graph().get(b.id, set())
        # a piece of another one is a part of that
        self.add = [b for b in self.add if b.id in used] or self.add
        self.brk = [b for b in meth if b.argc == 1 and ty(b, 1) == '&mut ' + B and b.id in used]
        self.new = [b for b in lib if ty(b, 0) == B and self.kind in [ty(b, i) for i in range(1, b.argc + 1)]]
        self.item = [b for b in lib if '&mut ' + B in [ty(b, i) for i in range(1, b.argc + 1)] and '&' + AST in [ty(b, i) for i in range(1, b.argc + 1)]]
        self.seq = [b for b in lib if '&[%s]' % AST in [ty(b, i) for i in range(1, b.argc + 1)] and ty(b, 0) == HTML]
        self.meth = ids
        self.T = Types(C)
        self.isall = [b for b in lib if b.argc == 2 and ty(b, 1) == '&' + HTML and ty(b, 2) == '&[%s]' % NAMEID and ty(b, 0) == 'bool']
        self.space = [b for b in lib if b.name == HTML + '::is_whitespace']
        self.from_ = [b for b in lib if b.argc == 1 and ty(b, 0) == HTML and 'FromIterator' in b.name]
        self.variants = names_of(P, self.kind)


def event(name, n=None):
    """an uninterpreted operation that may fail, and is recorded"""
    def f(I, st, args):
        vs = [top(I, st, a) for a in args]
        v = mk('app', name, len([e for e in st.mon if e[0] == name]), *vs)
        st = st.copy()
        st.mon = st.mon + ((name,) + tuple(vs) + (v,),)
        return [(st, v)]
    return f


class Q(K):
    def __init__(self, C, M, ops):
        terms = M.T.preds()
        for b in M.isall:
            terms[b.id] = uf('all')
        for b in M.space:
            terms[b.id] = uf('space')
        for b in M.from_:
            terms[b.id] = uf('content')
        for b in M.for_:
            terms[b.id] = uf('model')
        for name, bs in ops.items():
            for b in bs:
                terms[b.id] = event(name)
        K.__init__(self, C, terms=terms)
        self.M = M
        self.pops = []

    def inline(self, I, b):
        if b.id in self.M.meth and b.id not in self.memo and b.id not in I.stack:
            return True
        return K.inline(self, I, b)

    def call(self, I, st, ctx, name, args, cal):
        if name.startswith('std::vec::Vec') and name.rsplit('::', 1)[-1] in ('pop', 'truncate', 'clear', 'remove', 'swap_remove', 'drain', 'retain', 'split_off', 'dedup'):
            v = top(I, st, args[0])
            self.pops.append((ctx, st.copy(), name.rsplit('::', 1)[-1], v))
            if not any(e[0] == 'trim' for e in st.mon):
                st.mon = st.mon + (('trim', v),)
        return K.call(self, I, st, ctx, name, args, cal)


def begin(C, M, body, client, variant, pos=1):
    """a run of an operation on a builder of this kind, as its constructor makes it, with anything collected so far"""
    P = C.P
    # what the constructor makes of the other fields
    vi = M.variants.index(variant)
    made = None
    nb = M.new[0]
    I0, args, st = start(C, nb, K(C), {i: (M.kind, variant) for i in range(1, nb.argc + 1) if nb.ty(i)['s'] == M.kind})
    outs = I0.run(nb.id, args=args, st=st)
    rs = [adt(I0.canon(s, r), M.B) for s, r in outs]
    I = ai.Interp(P, client, 600000)
    I.CAP = 400
    client.I = I
    if len(rs) != 1 or rs[0] is None:
        return None
    st = ai.State(mon=())
    a = [I.symarg(body, i + 1) for i in range(body.argc)]
    ref = body.ty(pos)['k'] == 'ref'
    if ref:
        root, p = I.deref(a[pos - 1])
        base = I.rd(st, root, p)
    else:
        base = a[pos - 1]
    fs = []
    kindv = None
    for i, n in enumerate(M.names):
        sym = I.project(base, ('f', i, n, M.B, None))
        if n == M.fk:
            v = P.adts[M.kind]['variants'][vi]
            pl = mk('as', sym, vi, M.kind)
            kindv = sym = mk('adt', M.kind, vi, tuple(I.project(pl, ('f', k, f[0], M.kind, None)) for k, f in enumerate(v['fields'])))
        elif n == M.fn and M.role[variant] not in ('one of', 'blocks', 'mixed'):
            sym = mk('adt', OPT, 0, ())
        elif n in M.rest and walk(rs[0].a[2][i]).t == 'i':
            sym = rs[0].a[2][i]
        fs.append(sym)
    me = mk('adt', M.B, 0, tuple(fs))
    if ref:
        I.wr(st, root, p, me)
    else:
        a[pos - 1] = me
    return I, a, st, me, kindv, (root, p) if ref else None


HEADINGS = ['h1', 'h2', 'h3', 'h4', 'h5', 'h6']
ONE_OF = {
    'dl': ['dd', 'dt'], 'hgroup': ['p'] + HEADINGS, 'html': ['body', 'head'],
    'head': ['base', 'link', 'meta', 'noscript', 'script', 'style', 'template', 'title'],
    'menu': ['li'], 'ol': ['li'], 'ul': ['li'],
    'table': ['tr', 'tbody', 'tfoot', 'thead', 'caption', 'colgroup'],
    'tbody': ['tr'], 'tfoot': ['tr'], 'thead': ['tr'], 'tr': ['td', 'th'],
}
BLOCKS = ['article', 'aside', 'blockquote', 'footer', 'header', 'main', 'nav', 'section']
MIXED = ['a', '<anonymous>', 'address', 'body', 'details', 'div', 'fieldset', 'figcaption', 'figure', 'form', 'li']
LINES = HEADINGS + ['p']
VOID = ['!DOCTYPE', 'area', 'base', 'br', 'col', 'command', 'embed', 'hr', 'img', 'input', 'keygen', 'link', 'menuitem', 'meta', 'param', 'source', 'track', 'wbr']
BLOCK_TAGS = ['!DOCTYPE', 'address', 'article', 'aside', 'base', 'blockquote', 'body', 'dd', 'details', 'div', 'dl', 'dt', 'fieldset', 'figcaption', 'figure', 'footer', 'form'] + HEADINGS + [
    'head', 'header', 'hgroup', 'hr', 'html', 'iframe', 'li', 'link', 'main', 'menu', 'meta', 'nav', 'ol', 'p', 'pre', 'script', 'section', 'style', 'table', 'template', 'title', 'ul']


def expected_kind(n):
    if n in ONE_OF:
        return ('one of', tuple(ONE_OF[n]))
    if n in BLOCKS:
        return ('blocks', 'p')
    if n in MIXED:
        return ('mixed', 'p')
    if n in LINES:
        return ('one line',)
    if n in VOID:
        return ('nothing',)
    return ('inline',)


def raw_of(t):
    t = walk(t)
    while t.t == 'adt' and len(t.a[2]) == 1:
        t = walk(t.a[2][0])
    return t.a[0] if t.t == 'i' else None


ROLES = {'ol': 'one of', 'section': 'blocks', 'div': 'mixed', 'b': 'inline', 'p': 'one line', 'br': 'nothing'}


def by_name(C, b, pick=None, spec=None, label=''):
    """the result of a function of a tag name, for every name with a meaning of its own, and for any other (None)"""
    P = C.P
    ids = {s: raw for n, (raw, s) in str_ids(P).items()}

    def run(preset):
        cl = Opaque(P)
        if spec:
            I, args, st = start(C, b, cl, spec)
        else:
            I = ai.Interp(P, cl, 300000)
            I.CAP = 400
            cl.I = I
            args, st = [I.symarg(b, i + 1) for i in range(b.argc)], ai.State(mon=())
        for k, v in (preset or {}).items():
            st.facts[k] = ('=', mk('i', v))
        outs = I.run(b.id, args=args, st=st)
        return I, outs
    I, outs = run(None)
    C.explored.append((b.name + ' ' + label, len(outs), I.steps, len(I.visited)))
    keys = {}
    for st, r in outs:
        for k, f in st.facts.items():
            if k.t == 'fld' and f[0] in '=!' and any(isinstance(x, T) for x in k.a) and (not pick or pick(k)):
                keys[k] = keys.get(k, 0) + 1
    out = {}
    if not keys:
        return {None: [(st, I.canon(st, r)) for st, r in outs]}
    k = max(keys, key=lambda x: keys[x])
    for s, raw in ids.items():
        I2, o = run({k: raw})
        out[s] = [(st, I2.canon(st, r)) for st, r in o]
    out[None] = [(st, I.canon(st, r)) for st, r in outs if not (k in st.facts and st.facts[k][0] == '=')]
    return out


def table(C, M):
    """the content allowed in every tag, compared with the table"""
    P = C.P
    ids = {raw: s for n, (raw, s) in str_ids(P).items()}

    def nm(t):
        return ids.get(raw_of(t), show(t))

    def payload(v):
        if not v.a[2]:
            return ()
        x = walk(v.a[2][0])
        if x.t == 'ref':
            x = walk(x)
        els = None
        for y in subterms(x):
            if y.t == 'arr':
                els = [nm(e) for e in y.a[0]]
                break
        return (tuple(els),) if els is not None else (nm(x),)
    M.role = {}
    for b in M.for_:
        res = by_name(C, b)
        got = {}
        for s, outs in res.items():
            vs = {(vname(P, walk(r)),) + payload(walk(r)) if walk(r).t == 'adt' else ('?',) for st, r in outs}
            got[s] = vs
        for rep, role in ROLES.items():
            vs = {v[0] for v in got.get(rep, ())}
            if len(vs) == 1:
                M.role.setdefault(vs.pop(), role)
        n = 0
        for s in list(res):
            if s is None:
                continue
            e = expected_kind(s)
            vs = got[s]
            n += 1
            for v in vs:
                g = (M.role.get(v[0], v[0]),) + v[1:]
                ok = g[0] == e[0] and (e[0] != 'one of' or g[1][0] == e[1][0] and set(g[1]) == set(e[1])) and (e[0] not in ('blocks', 'mixed') or g[1] == e[1])
                C.ob('model', 'tag ' + s, ok, 'the content of <%s> is %s, not %s' % (s, says(g), says(e)))
            C.ob('model', 'tag ' + s + ' decided', len(vs) == 1, 'the content allowed in <%s> depends on more than its name' % s)
        C.ob('model', 'other tags', {M.role.get(v[0]) for v in got.get(None, ())} == {'inline'}, 'the content of a tag that is not in the table is not inline')
        C.floor('tags with a content model', n, 100)
    C.floor('kinds of content', len(set(M.role.values())), 6)
    # block tags
    for b in M.T.kind:
        res = by_name(C, b, spec={1: (HTML, 'Tag')}, label='block tags')
        n = 0
        for s, outs in res.items():
            if s is None or s == 'a':
                continue
            n += 1
            want = s in BLOCK_TAGS
            for st, r in outs:
                r = walk(r)
                g = r.t == 'adt' and r.a[0] == OPT and r.a[1] == 1
                C.ob('block', 'tag ' + s, r.t == 'adt' and g == want, '<%s> is %sa block tag' % (s, '' if g else 'not '))
        C.floor('tags that are blocks or not', n, 100)


def says(g):
    if g[0] == 'one of':
        return 'only <%s>, wrapped in <%s>' % ('>, <'.join(sorted(g[1])), g[1][0])
    return {'blocks': 'blocks', 'mixed': 'either blocks or inline', 'inline': 'inline', 'one line': 'inline without breaks', 'nothing': 'nothing'}.get(g[0], str(g[0])) + (', wrapped in <%s>' % g[1] if len(g) > 1 else '')


@prop('P21')
def p21(C):
    C.rule('model', 'which content each tag may have is as in the table')
    C.rule('block', 'which tags are blocks is as in the table')
    C.rule('place', 'content is placed as its tag allows: as it is if it is allowed there, otherwise in a tag that wraps it, or refused; in order, and nothing is lost')
    C.rule('break', 'a paragraph break ends what is being wrapped, or is a line break, or an error')
    C.rule('finish', 'the content of a tag is everything that was placed, without whitespace at its end, and nothing else; a tag that must be empty is')
    C.rule('all', 'every item of a sequence is placed, as what it is, where its tag says')
    C.rule('only', 'a tag name is allowed exactly if it is one of those listed; a sequence if each of its items is')
    M = Model(C)
    if M.B is None:
        C.floor('builders of content', 0, 1)
        return
    for n in ('add', 'fin', 'brk', 'new', 'item', 'seq', 'isall', 'space', 'from_', 'for_'):
        C.floor('operations: ' + n, len(getattr(M, n)), 1)
    if not all(getattr(M, n) for n in ('add', 'fin', 'brk', 'new', 'item', 'seq', 'isall', 'space', 'from_', 'for_')):
        return
    table(C, M)
    variants_of(C, M)
    placing(C, M)
    breaks(C, M)
    finishing(C, M)
    sequences(C, M)
    allowed(C, M)


WRAPS = ('one of', 'blocks', 'mixed')


def variants_of(C, M):
    """only the two collections of the builder change after it is made"""
    for b, f, span in field_changes(C, M.B):
        if f in (M.fv, M.fn):
            o = C.owner(b)
            C.ob('place', 'change of %s in %s' % (f, o.name), o.id in M.meth, 'content is collected outside the builder', C.loc(span))
        else:
            C.ob('place', 'change of %s in %s' % (f, C.owner(b).name), False, 'what a builder allows changes after it is made', C.loc(span))


def run(C, M, b, ops, v):
    cl = Q(C, M, ops)
    r = begin(C, M, b, cl, v)
    if r is None:
        return None
    I, a, st, me, kindv, rp = r

    class Me:
        pass
    outs = I.run(b.id, args=a, st=st)
    C.explored.append((b.name + ' ' + M.role[v], len(outs), I.steps, len(I.visited)))
    x = Me()
    x.I, x.a, x.me, x.kindv, x.rp, x.cl = I, a, me, kindv, rp, cl
    x.outs = [(s, I.canon(s, r)) for s, r in outs if not M.T.impossible(s)]
    x.c0 = walk(me.a[2][M.names.index(M.fv)])
    x.n0 = walk(me.a[2][M.names.index(M.fn)])
    return x


def field(M, I, s, x, n):
    m = adt(I.rd(s, *x.rp), M.B)
    return walk(m.a[2][M.names.index(n)]) if m is not None else None


def added(t, c0):
    """the items pushed on top of c0; None if it is not that collection"""
    if t is None:
        return None
    new = []
    t = walk(t)
    while t.t == 'app' and t.a[0] == 'push' and not same0(t, c0):
        new.append(t.a[2])
        t = walk(t.a[1])
    return new[::-1] if same0(t, c0) else None


def same0(a, b):
    return deep(a) is deep(b)


def opt(P, st, t):
    """is an option present on this path? None: unknown"""
    t = walk(t)
    if t.t == 'adt':
        return t.a[1]
    k = poss_kind(P, st, t, OPT)
    return None if len(k) != 1 else int(k == {'Some'})


def wrapper(M, x):
    """the name that content is wrapped in, for a kind of content that wraps"""
    v = x.kindv.a[2]
    return walk(v[0]) if v else None


def is_wrap(t, w, role):
    """t is the name that this kind wraps in"""
    t, w = deep(t), deep(w)
    if role == 'one of':
        while t.t in ('deref',):
            t = t.a[0]
        if t.t != 'idx' or not (t.a[1].t == 'i' and t.a[1].a[0] == 0):
            return False
        x = t.a[0]
        strip = lambda y: strip(y.a[0]) if y.t in ('deref', 'ref') and isinstance(y.a[0], T) else y
        return strip(x) is strip(w)
    return t is w


def is_tag(P, t, content=None):
    """(name, content) of a tag without attributes made here"""
    t = adt(t, HTML)
    if t is None or vname(P, t) != 'Tag':
        return None
    g = adt(t.a[2][0], TAG)
    if g is None:
        return None
    f = lambda n: walk(g.a[2][adt_field_index(P, TAG, n)])
    at = f('attributes')
    if not (at.t == 'app' and at.a[0] in ('default', 'new') or at.t == 'arr' and not at.a[0]):
        return None
    return f('name_id'), f('content')


def result_of(P, st, e):
    """the outcome of a recorded operation: 'ok', 'err' or None"""
    k = poss_kind(P, st, e[-1], RES)
    return None if len(k) != 1 else 'ok' if k == {'Ok'} else 'err'


def res_kind(P, st, r):
    r = walk(r)
    if r.t == 'adt' and r.a[0] == RES:
        return 'ok' if r.a[1] == 0 else 'err'
    k = poss_kind(P, st, r, RES)
    return None if len(k) != 1 else 'ok' if k == {'Ok'} else 'err'


def closed(C, M, x, s, events, new, key, final):
    """what was being wrapped is finished and placed before anything else; returns what was placed after it"""
    P = C.P
    role = M.role[vname(P, x.kindv)]
    n0 = opt(P, s, x.n0)
    fins = [e for e in events if e[0] == 'fin']
    if n0 == 0:
        C.ob('place', key + ' nothing to finish', not fins, 'something is finished that was not begun')
        return new
    if not fins:
        C.ob('place', key + ' finished before', False, 'content that is being wrapped comes after later content, or is lost')
        return new
    e = fins[0]
    C.ob('place', key + ' finished once', len(fins) == 1 and under(e[1], x.n0), 'content that is being wrapped is not finished once')
    if final is not None:
        C.ob('place', key + ' no longer open', opt(P, s, final) == 0, 'wrapped content is finished and still collected')
    ok = result_of(P, s, e)
    if ok == 'err':
        return None
    C.ob('place', key + ' error of wrapped content', ok == 'ok', 'an error in wrapped content is ignored')
    h = okval(e[-1])
    ks = poss_kind(P, s, h, HTML)
    if ks == {'Empty'}:
        return new
    C.ob('place', key + ' wrapped content', bool(new), 'wrapped content is lost')
    if new:
        t = is_tag(P, new[0])
        ok = t is not None and is_wrap(t[0], wrapper(M, x), role) and t[1].t == 'fld' and ishtml(t[1], e[-1])
        C.ob('place', key + ' wrapped in', ok, 'content is wrapped in another tag than the one its parent requires: ' + show(new[0]))
    return new[1:]


def okval(r):
    return mk('fld', mk('as', r, 0, RES), 0, RES, '0')


def ishtml(t, r):
    """t is the content of a successful result r"""
    t = walk(t)
    return t.t == 'fld' and any(same0(y, r) for y in subterms(t))


def under(t, box):
    t = deep(t)
    b = deep(box)
    return any(y is b for y in subterms(t)) or t is b


def placing(C, M):
    P = C.P
    for b in M.add:
        ci = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == HTML][0]
        for v in M.variants:
            role = M.role.get(v)
            key = '%s %s' % (b.name, role)
            x = run(C, M, b, {'add': M.add, 'fin': M.fin}, v)
            if x is None:
                C.ob('place', key + ' made', False, 'what its constructor makes of a builder is not determined')
                continue
            child = walk(x.a[ci - 1])
            seen = set()
            for s, r in x.outs:
                I = x.I
                ck = poss_kind(P, s, child, HTML) - {None}
                blk, spc = fact(s, mk('app', 'block', child)), fact(s, mk('app', 'space', child))
                al = [ival(f) for k, f in s.facts.items() if k.t == 'app' and k.a[0] == 'all' and same0(k.a[1], child) and f[0] == '=' and same0(strip(k.a[2]), strip(wrapper(M, x)))] if role == 'one of' else []
                al = al[0] if al else None
                if ck <= TEXTS or fact(s, mk('app', 'inline', child)) == 1:
                    blk = 0
                if spc == 1 and (blk == 1 or al == 1):
                    continue    # whitespace is neither
                if ck == {'Whitespace'} or ck == {'RawNewline'}:
                    spc = 1
                final = field(M, I, s, x, M.fv)
                new = added(final, x.c0)
                nf = field(M, I, s, x, M.fn)
                events = s.mon
                adds = [e for e in events if e[0] == 'add']
                rk = res_kind(P, s, r)
                if new is None:
                    C.ob('place', key + ' keeps', False, 'what was placed before is changed: ' + show(final))
                    continue
                may = blk if role in ('blocks', 'mixed') else al if role == 'one of' else (1 - blk if blk is not None else None) if role in ('inline', 'one line') else 1
                if ck == {'Empty'}:
                    seen.add('empty')
                    C.ob('place', key + ' empty', not new and not adds and rk == 'ok', 'empty content is placed, or refused')
                    continue
                if adds:
                    seen.add('wrapped')
                    e = adds[0]
                    C.ob('place', key + ' wrap once', len(adds) == 1 and not new and not [q for q in events if q[0] == 'fin'] and any(same0(y, child) for y in e[1:-1]), 'content is wrapped twice, or as something else')
                    C.ob('place', key + ' wraps what is not allowed', role in WRAPS and may == 0, 'content is wrapped although it is allowed where it is')
                    C.ob('place', key + ' error', rk is None and same0(walk(r), e[-1]) or rk is not None and (rk == result_of(P, s, e)), 'an error from the wrapped content is ignored')
                    n0 = opt(P, s, x.n0)
                    if n0 == 1:
                        C.ob('place', key + ' together', under(e[1], x.n0), 'inline content that belongs together is wrapped separately')
                    else:
                        nb = adt(e[1], M.B)
                        fk = walk(nb.a[2][M.names.index(M.fk)]) if nb else None
                        ok = nb is not None and n0 == 0 and opt(P, s, nb.a[2][M.names.index(M.fn)]) == 0 and len_zero(nb.a[2][M.names.index(M.fv)])
                        C.ob('place', key + ' begins wrapping', ok, 'wrapping begins with something that was not there: ' + show(e[1]))
                        # the kind is that of the wrapping tag (decided by splits over it)
                        C.ob('place', key + ' content of the wrapping tag', fk is not None and is_model(M, s, fk, wrapper(M, x), role), 'the content of a wrapping tag is not restricted to what that tag allows: ' + show(fk) if fk is not None else '')
                        C.ob('place', key + ' keeps wrapping', opt(P, s, nf) == 1, 'what is wrapped is lost')
                    continue
                if rk == 'err':
                    fe = [e for e in events if e[0] == 'fin' and result_of(P, s, e) == 'err']
                    seen.add('refused')
                    C.ob('place', key + ' refused', bool(fe) or role in ('inline', 'one line') and may == 0, 'content that is allowed is refused')
                    continue
                rest = closed(C, M, x, s, events, new, key, nf) if opt(P, s, x.n0) != 0 and (new or events) else new
                if rest is None:
                    C.ob('place', key + ' error of wrapped content', False, 'an error in wrapped content is ignored')
                    continue
                if not rest:
                    seen.add('dropped')
                    start_ = length(s, x.c0)[1] == 0 or role in WRAPS and may == 0
                    n0 = opt(P, s, x.n0)
                    C.ob('place', key + ' dropped', spc == 1, 'content is lost')
                    C.ob('place', key + ' whitespace', start_ and (n0 == 0 or may != 0), 'whitespace between other content is lost')
                else:
                    seen.add('placed')
                    C.ob('place', key + ' placed', len(rest) == 1 and same0(rest[0], child), 'something else than the content is placed: ' + ', '.join(show(y) for y in rest))
                    C.ob('place', key + ' allowed', may == 1 or role == 'nothing', 'content is placed where it is not allowed')
            for what in ('empty', 'placed') + (('wrapped',) if role in WRAPS else ('refused',) if role != 'nothing' else ()):
                C.floor('%s: %s' % (key, what), int(what in seen), 1)


def strip(y):
    y = deep(y)
    while y.t in ('deref', 'ref') and isinstance(y.a[0], T):
        y = y.a[0]
    return y


def len_zero(t):
    t = walk(t)
    return t.t == 'arr' and not t.a[0] or t.t == 'app' and t.a[0] in ('new', 'default')


def is_model(M, s, k, w, role):
    k = deep(k)
    return k.t == 'app' and k.a[0] == 'model' and is_wrap(k.a[1], w, role)


def breaks(C, M):
    P = C.P
    for b in M.brk:
        for v in M.variants:
            role = M.role.get(v)
            key = '%s %s' % (b.name, role)
            x = run(C, M, b, {'add': M.add, 'fin': M.fin}, v)
            if x is None:
                continue
            n = 0
            for s, r in x.outs:
                n += 1
                new = added(field(M, x.I, s, x, M.fv), x.c0)
                nf = field(M, x.I, s, x, M.fn)
                rk = res_kind(P, s, r)
                if new is None:
                    C.ob('break', key + ' keeps', False, 'what was placed before is changed')
                    continue
                if role in WRAPS:
                    if opt(P, s, x.n0) == 0:
                        C.ob('break', key + ' nothing', not new and rk == 'ok', 'a paragraph break adds content')
                    else:
                        rest = closed(C, M, x, s, s.mon, new, key, nf)
                        C.ob('break', key + ' ends', (rest is None) == (rk == 'err') and not rest, 'a paragraph break does not end what is being wrapped')
                elif role == 'inline':
                    t = is_tag(P, new[0]) if len(new) == 1 else None
                    ids = {s_: raw for n_, (raw, s_) in str_ids(P).items()}
                    ok = t is not None and raw_of(t[0]) == ids.get('br') and poss_kind(P, s, t[1], HTML) == {'Empty'} if t and t[1].t != 'adt' else t is not None and raw_of(t[0]) == ids.get('br') and vname(P, t[1]) == 'Empty'
                    C.ob('break', key + ' line break', ok and rk == 'ok', 'a paragraph break in inline content is not a line break')
                elif role == 'one line':
                    C.ob('break', key + ' error', rk == 'err' and not new, 'a paragraph break is accepted where there must be none')
                else:
                    C.ob('break', key + ' ignored', not new and rk == 'ok', 'a paragraph break where nothing is allowed is not ignored')
            C.floor(key + ' paths', n, 1)


def finishing(C, M):
    P = C.P
    for b in M.fin:
        for v in M.variants:
            role = M.role.get(v)
            key = '%s %s' % (b.name, role)
            x = run(C, M, b, {'fin': M.fin}, v)
            if x is None:
                continue
            for ctx, s, op, t in x.cl.pops:
                last = [k for k, f in s.facts.items() if k.t == 'app' and k.a[0] == 'space' and f[0] == '=' and ival(f) == 1 and k.a[1].t in ('idx', 'app') and same0(k.a[1].a[0] if k.a[1].t == 'idx' else k.a[1].a[1], t)]
                C.ob('finish', key + ' removes', op == 'pop' and bool(last), 'content that is not whitespace may be removed at the end', ctx.loc())
            ways = set()
            for s, r in x.outs:
                n0 = opt(P, s, x.n0)
                rk = res_kind(P, s, r)
                fins = [e for e in s.mon if e[0] == 'fin']
                none = length(s, x.c0)[1] == 0
                if role == 'mixed' and none and n0 == 1:
                    ways.add('alone')
                    e = fins[0] if fins else None
                    ok = e is not None and len(fins) == 1 and under(e[1], x.n0)
                    v = walk(r)
                    if ok and not same0(v, e[-1]):
                        ok = rk == result_of(P, s, e) and rk is not None and ishtml(v.a[2][0], e[-1])
                    C.ob('finish', key + ' alone', ok, 'inline content that stands alone is lost or wrapped: ' + show(r))
                    continue
                if rk == 'err':
                    bad = [e for e in fins if result_of(P, s, e) == 'err']
                    full = any(k.t == 'disc' and content_of(k.a[0]) is not None and f[0] == '!' and 0 in {z.a[0] if isinstance(z, T) else z for z in f[1]} for k, f in s.facts.items())
                    ways.add('refused' if not bad else 'error')
                    C.ob('finish', key + ' refused', bool(bad) or role == 'nothing' and full, 'content that is allowed is refused')
                    continue
                v = walk(r)
                h = walk(v.a[2][0]) if v.t == 'adt' else None
                x1 = content_of(h) if h is not None else None
                if x1 is None:
                    empty = h is not None and h.t == 'adt' and vname(P, h) == 'Empty'
                    known = [k for k, f in s.facts.items() if k.t == 'disc' and content_of(k.a[0]) is not None and poss_kind(P, s, k.a[0], HTML) == {'Empty'}]
                    ways.add('empty')
                    C.ob('finish', key + ' empty', empty and (none and n0 == 0 or bool(known)), 'content is lost at the end: ' + show(r))
                    continue
                if role == 'nothing':
                    C.ob('finish', key + ' must be empty', poss_kind(P, s, h, HTML) == {'Empty'}, 'content is accepted where there must be none')
                tr = [e for e in s.mon if e[0] == 'trim']
                base = tr[0][1] if tr else x1
                if tr:
                    C.ob('finish', key + ' only trims', x1.t in ('lv', 'jn', 'app'), 'content changes after whitespace at its end is removed')
                else:
                    end = length(s, x1)[1] == 0 or any(k.t == 'app' and k.a[0] == 'space' and ival(f) == 0 and any(same0(y, x1) for y in subterms(k.a[1])) for k, f in s.facts.items() if f[0] == '=')
                    C.ob('finish', key + ' trims', end, 'whitespace at the end is kept')
                new = added(base, x.c0)
                if new is None:
                    C.ob('finish', key + ' keeps', False, 'the content is not what was placed: ' + show(base))
                    continue
                rest = closed(C, M, x, s, s.mon, new, key, None) if n0 != 0 else new
                ways.add('all')
                C.ob('finish', key + ' nothing else', rest == [], 'something is added at the end, or an error is ignored')
            for w in ('all',) + (('alone',) if role == 'mixed' else ('refused',) if role == 'nothing' else ()):
                C.floor('%s: %s' % (key, w), int(w in ways), 1)


def content_of(t):
    t = walk(t)
    return walk(t.a[1]) if t.t == 'app' and t.a[0] == 'content' else None


def kind_param(M, b):
    return [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == M.kind]


def sequences(C, M):
    P = C.P
    ids = {b.id for b in M.seq}
    n = 0
    for b in M.seq:
        cl = Q(C, M, {'item': M.item, 'fin': M.fin, 'seq': [x for x in M.seq if x.id != b.id]})
        I = ai.Interp(P, cl, 600000)
        I.CAP = 400
        cl.I = I
        a = [I.symarg(b, i + 1) for i in range(b.argc)]
        outs = I.run(b.id, args=a, st=ai.State(mon=()))
        C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
        key = b.name
        seq = a[[i for i in range(1, b.argc + 1) if b.ty(i)['s'] == '&[%s]' % AST][0] - 1]
        kp = kind_param(M, b)
        np = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == NAMEID]
        want = deep(a[kp[0] - 1]) if kp else mk('app', 'model', deep(a[np[0] - 1])) if np else None
        C.ob('all', key + ' model', want is not None, 'nothing says what content is allowed')
        if want is None:
            continue

        def bkind(t):
            t = bare(walk(t))
            t = adt(t, M.B)
            return deep(t.a[2][M.names.index(M.fk)]) if t is not None else None
        loops = 0
        for c, s in cl.ends:
            ev = [e for e in s.mon if e[0] == 'item']
            loops += 1
            ok = len(ev) == 1 and any(whole_of(I, y, lambda z: same0(strip(z), strip(seq))) for y in ev[0][1:-1])
            C.ob('all', key + ' each', ok, 'an item of a sequence is left out, or placed twice')
            for e in ev:
                ks = [bkind(y) for y in e[1:-1] if bkind(y) is not None]
                C.ob('all', key + ' each where', any(k is want for k in ks), 'an item is placed where other content is allowed')
        for s, r in outs:
            n += 1
            r = walk(I.canon(s, r))
            sq = [e for e in s.mon if e[0] == 'seq']
            if sq:
                e = sq[0]
                ok = len(sq) == 1 and same0(r, e[-1]) and any(same0(strip(y), strip(seq)) for y in e[1:-1]) and any(deep(y) is want for y in e[1:-1])
                C.ob('all', key + ' as', ok, 'a sequence is placed where other content is allowed')
                continue
            fin = [e for e in s.mon if e[0] == 'fin']
            C.ob('all', key + ' to the end', ('end',) in s.mon and loops > 0, 'the items after one are left out')
            C.ob('all', key + ' finished', len(fin) == 1 and bkind(fin[0][1]) is want, 'the content is finished as other content than is allowed')
            if fin:
                ok = ishtml(r, fin[0][-1]) if result_of(P, s, fin[0]) == 'ok' else r.t == 'adt' and vname(P, r) == 'Empty'
                C.ob('all', key + ' result', ok, 'the result is not the content of the sequence: ' + show(r))
    C.floor('paths that compile sequences', n, 3)
    items(C, M)
    roots(C, M)


def items(C, M):
    """what each kind of item of a sequence becomes"""
    P = C.P
    from rules.convert import Conv
    V = Conv(C)
    ev = [b for b in C.lib() if not b.parent and b.kind not in ('promoted', 'closure') and '&parser::ast::Expr' in [b.ty(i)['s'] for i in range(1, b.argc + 1)] and b.ty(0)['s'].startswith(RES + '<' + VAL)]
    for b in M.item:
        ti = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == '&' + AST][0]
        bi = [i for i in range(1, b.argc + 1) if b.ty(i)['s'] == '&mut ' + M.B][0]
        for v in names_of(P, AST):
            cl = Q(C, M, {'add': M.add, 'brk': M.brk, 'eval': ev})
            for m in V.must:
                cl.memo[m] = uf('converted')
            I, args, st = start(C, b, cl, {ti: (AST, v)})
            outs = I.run(b.id, args=args, st=st)
            C.explored.append((b.name + ' ' + v, len(outs), I.steps, len(I.visited)))
            key = '%s %s' % (b.name, v)
            me = top(I, st, args[bi - 1])
            n = 0
            for s, r in outs:
                n += 1
                adds = [e for e in s.mon if e[0] == 'add']
                brks = [e for e in s.mon if e[0] == 'brk']
                evs = [e for e in s.mon if e[0] == 'eval']
                rk = res_kind(P, s, I.canon(s, r))
                if v == 'ParagraphBreak':
                    ok = len(brks) == 1 and not adds and rk == result_of(P, s, brks[0])
                    C.ob('all', key, ok, 'a paragraph break is not one, or an error is ignored')
                    continue
                C.ob('all', key + ' no break', not brks, 'an item breaks the paragraph it is in')
                if v in ('FuncDef', 'Export'):
                    C.ob('all', key, not adds, 'a definition becomes content')
                    continue
                if not adds:
                    C.ob('all', key, rk == 'err' and v in ('Expr', 'CodeFence'), 'an item is lost')
                    continue
                e = adds[0]
                if v == 'Expr' and evs:
                    C.ob('all', key + ' value', result_of(P, s, evs[0]) == 'ok', 'something else than the value is placed')
                C.ob('all', key, len(adds) == 1 and under(e[1], me) and (rk or result_of(P, s, e)) == result_of(P, s, e), 'an item is placed twice, or elsewhere, or an error is ignored')
                h = e[-2] if adt(e[-2], HTML) is not None or e[-2].t not in ('arg',) else e[-2]
                hs = [walk(y) for y in e[2:-1]]
                pay = lambda y: any(x.t == 'fld' and x.a[2] == AST for x in subterms(y))
                if v == 'Whitespace':
                    ok = any(y.t == 'adt' and y.a[0] == HTML and vname(P, y) == 'Whitespace' for y in hs)
                elif v in ('Text', 'Char'):
                    ok = any(y.t == 'adt' and y.a[0] == HTML and (vname(P, y) in ('Empty', 'Whitespace', 'RawNewline') and special(P, s, vname(P, y)) or pay(y)) for y in hs)
                elif v == 'Expr':
                    ok = bool(evs) and any(any(same0(x, evs[0][-1]) for x in subterms(y)) for y in hs)
                else:
                    ok = True
                C.ob('all', key + ' as', ok, 'an item becomes something else: ' + ', '.join(show(y) for y in hs))
            C.floor(key + ' paths', n, 1)


def special(P, s, n):
    """the text of the item is known to be the one that becomes this"""
    t = {'Empty': '', 'Whitespace': ' ', 'RawNewline': '\n'}[n]
    for k, f in s.facts.items():
        if f[0] == '=' and (k.t == 'fld' or k.t == 'app') and any(x.t == 'fld' and x.a[2] == AST for x in subterms(k)):
            c = f[1].a[0] if isinstance(f[1], T) else f[1]
            if isinstance(c, str) and c in (t, t.encode('unicode_escape').decode()):
                return True
    return False


def roots(C, M):
    """what is allowed in a document, in a group, and in a tag"""
    P = C.P
    users = {}
    for b in C.lib():
        for i, cal, args, d, s in P.calls(b):
            if cal.get('id') in {x.id for x in M.seq}:
                users.setdefault(C.owner(b).id, set()).add(cal['id'])
    ids = {raw: s for n, (raw, s) in str_ids(P).items()}

    def says_(t):
        t = walk(t)
        if t.t == 'adt' and t.a[0] == M.kind:
            return (M.role[vname(P, t)],) + tuple(ids.get(raw_of(x), '?') for x in t.a[2] if raw_of(x) is not None)
        if t.t == 'app' and t.a[0] == 'model':
            return ('model', t.a[1])
        return None
    seen = set()
    for u in sorted(users):
        b = P.bodies[u]
        if u in {x.id for x in M.seq}:
            continue
        ty = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
        tops = [b]
        if M.kind in ty:
            tops = []
            for x in C.lib():
                if any(cal.get('id') == u for i, cal, a, d, s in P.calls(x)):
                    o = C.owner(x)
                    if o.id not in {y.id for y in tops}:
                        tops.append(o)
        for t in tops:
            cl = Q(C, M, {'seq': M.seq, 'src': []})
            oi = cl.inline
            cl.inline = lambda I_, x, oi=oi: True if x.id == u and x.id not in I_.stack else oi(I_, x)
            cl.seqs = []
            for x in M.seq:
                f = cl.memo[x.id]

                def g(I, st, args, f=f, x=x, cl=cl):
                    cl.seqs.append((x, st.copy(), [I.canon(st, y) for y in args]))
                    return f(I, st, args)
                cl.memo[x.id] = g
            I = ai.Interp(P, cl, 600000)
            I.CAP = 200
            cl.I = I
            outs = I.run(t.id, args=[I.symarg(t, i + 1) for i in range(t.argc)], st=ai.State(mon=()))
            C.explored.append((t.name + ' sequences', len(outs), I.steps, len(I.visited)))
            for x, st, a in cl.seqs:
                seq = [y for i, y in enumerate(a) if x.ty(i + 1)['s'] == '&[%s]' % AST][0]
                key = t.name
                if t.ty(0)['s'].endswith('CompileResult') or t.argc == 1:
                    what = 'library' if t.argc == 1 else 'document'
                    k = [says_(y) for y in a if says_(y)]
                    want = ('nothing',) if what == 'library' else ('blocks', 'p')
                    C.ob('all', '%s: %s' % (key, what), k == [want], 'the content of a %s is %s, not %s' % (what, k and says(k[0]), says(want)))
                elif has_field(seq, 'parser::ast::Expr', '0') or any(y.t == 'as' and y.a[2] == 'parser::ast::Expr' for y in subterms(seq)):
                    what = 'group'
                    k = [says_(y) for y in a if says_(y)]
                    C.ob('all', '%s: group' % key, k == [('mixed', 'p')], 'the content of a group is %s' % (k and says(k[0])))
                else:
                    what = 'tag'
                seen.add(what)
            for s, r in outs:
                sq = [e for e in s.mon if e[0] == 'seq']
                r = walk(I.canon(s, r))
                v = adt(r.a[2][0]) if r.t == 'adt' and r.a[0] == RES and r.a[1] == 0 else r if r.t == 'adt' else None
                if v is None or v.a[0] != TAG:
                    continue
                f = lambda n: walk(v.a[2][adt_field_index(P, TAG, n)])
                ok = len(sq) == 1 and same0(f('content'), sq[0][-1]) and any(same0(strip(y), strip(f('name_id'))) for y in sq[0][1:-1])
                seen.add('tag made')
                C.ob('all', key + ': tag', ok, 'the content of a tag is not what its name allows')
    for w in ('document', 'library', 'group', 'tag', 'tag made'):
        C.floor('content of a ' + w, int(w in seen), 1)


def allowed(C, M):
    P = C.P
    for b in M.isall:
        for v in names_of(P, HTML):
            cl = Q(C, M, {})
            I, args, st = start(C, b, cl, {1: (HTML, v)})
            orig = cl.inline
            cl.inline = lambda I_, x: True if x.id == b.id and b.id not in I_.stack else orig(I_, x)
            outs = I.run(b.id, args=args, st=st)
            C.explored.append((b.name + ' ' + v, len(outs), I.steps, len(I.visited)))
            key = 'content ' + v
            names_ = strip(args[1])

            def isname(t):
                return has_field(t, TAG, 'name_id')

            def eqs(s):
                return [ival(f) for k, f in s.facts.items() if k.t == 'eq' and any(isname(y) for y in k.a) and any(y.t == 'el' for y in subterms(k)) and any(strip(z) is names_ for y in subterms(k) for z in [y])]
            n = 0
            for s, r in outs:
                r = walk(I.canon(s, r))
                n += 1
                if v == 'Empty':
                    ok = True
                elif v == 'Tag':
                    if r.t == 'app' and r.a[0].endswith('contains'):
                        ok = strip(r.a[1]) is names_ and isname(r.a[2])
                    else:
                        ok = r.t == 'i' and (1 in eqs(s) if r.a[0] else ('end',) in s.mon)
                elif v == 'Sequence':
                    no = [k for k, f in s.facts.items() if k.t == 'app' and k.a[0] == 'all' and ival(f) == 0]
                    ok = r.t == 'i' and (('end',) in s.mon if r.a[0] else bool(no))
                else:
                    ok = r.t == 'i' and r.a[0] == 0
                C.ob('only', key, ok, 'content is allowed by something else than the names of its tags: ' + show(r))
            for c, s in cl.ends:
                if v == 'Sequence':
                    yes = [k for k, f in s.facts.items() if k.t == 'app' and k.a[0] == 'all' and ival(f) == 1 and whole_of(I, k.a[1], lambda z: payload_of(z, HTML, ('Sequence',), P)) and strip(k.a[2]) is names_]
                    C.ob('only', key + ' each', len(yes) == 1, 'an item of a sequence is not looked at')
                elif v == 'Tag':
                    C.ob('only', key + ' each', eqs(s) == [0], 'a name is not looked at')
            C.floor(key + ' paths', n, 1)
