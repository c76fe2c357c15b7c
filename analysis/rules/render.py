"""The renderer: escaping, well-formed tags, plain text mode, fidelity."""
from rules import prop
from rulelib import *
import models

TAG = 'compiler::tag::Tag'
VOID = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr'}
VOID_OLD = {'param', 'command', 'keygen', 'menuitem'}
UNCLOSED = {'!DOCTYPE'}
ESC_TEXT = {'Html', 'SpecialChars', 'SpecialCharsAndNoASCII', 'All'}
ESC_ATTR = {'SpecialChars', 'SpecialCharsAndNoASCII', 'All'}
ENC_OK = {'Named', 'Hex', 'Decimal', 'NamedOrHex', 'NamedOrDecimal'}
ITER_DROP = ('filter', 'filter_map', 'skip', 'take', 'step_by', 'take_while', 'skip_while', 'rev', 'map_while', 'chain', 'zip')
CONSUME = ('for_each', 'try_for_each')


def strip_text(t):
    """look through conversions that keep the characters of a string"""
    while True:
        if t.t in ('disp', 'deref', 'box') and isinstance(t.a[0], T):
            t = t.a[0]
        elif t.t == 'app' and t.a[0] == 'collect':
            t = t.a[1]
        elif t.t == 'iter':
            b = t.a[0]
            if len(t.a) > 1 and t.a[1]:
                return t
            t = b[1] if isinstance(b, tuple) else b
        elif t.t == 'idx':
            t = t.a[0]
        elif t.t == 'own':
            t = t.a[0]
        elif t.t == 'cat' and len(t.a[0]) == 1:
            t = t.a[0][0]
        else:
            return t


def enc(t):
    """encode(x, set, type) -> (x, set name, type name)"""
    t = strip_text(t)
    if t.t == 'app' and t.a[0].endswith('encode') and len(t.a) >= 4:
        s, e = t.a[2], t.a[3]
        if s.t == 'adt' and e.t == 'adt':
            return t.a[1], VNAMES(s.a[0], s.a[1]), VNAMES(e.a[0], e.a[1])
        return t.a[1], '?', '?'
    return None


def src_text(t):
    """the text of a text node, unchanged"""
    t = strip_text(t)
    return t.t == 'fld' and t.a[0].t == 'as' and VNAMES(t.a[0].a[2], t.a[0].a[1]) == 'Text'


def pool_name(t):
    """text of an interned name -> the name's id term, and the one rewriting allowed (attributes: _ to -)"""
    t = strip_text(t)
    dash = False
    if t.t == 'app' and t.a[0] == 'replace' and t.a[2] in (I_(95), S('_')) and t.a[3] in (S('-'), I_(45)):
        t = strip_text(t.a[1])
        dash = True
    for x in subterms(t):
        if x.t == 'fld' and x.a[3] == 'name_id' and x.a[2] == TAG:
            return ('tag', t, dash)
        if x.t == 'fld' and x.a[3] == 'key' and isinstance(x.a[0], T):
            return ('attr', t, dash)
    return None


I_ = I


class Render(ai.Client):
    """Output automaton over the bytes written. mon = (html state, open elements, pending iteration, events, failed)"""
    max_reach = 400

    def __init__(self, C, mode, variant, nid=None, tag=''):
        self.C, self.mode, self.variant, self.nid, self.tag = C, mode, variant, nid, tag
        self.entry = {}
        self.bad = []

    def known(self, I, t):
        u = bare(t)
        if u.t == 'arg' and u.a[1] == self.boolname:
            return ('=', TRUE if self.mode == 'html' else FALSE)
        if t.t == 'disc' and t.a[1] == HTML:
            v = t.a[0]
            n = 0
            while v.t in ('deref', 'hv', 'ref') and n < 8:
                v = I.canon(None, v) if False else (v.a[0] if v.t == 'deref' else v.a[1])
                n += 1
            if v.t == 'arg' and v.a[1] == self.htmlname:
                vi = [i for i, x in enumerate(I.P.adts[HTML]['variants']) if x['name'] == self.variant][0]
                return ('=', I_(I.P.adts[HTML]['variants'][vi]['discr']))
        if self.nid is not None and t.t == 'fld' and name_field(t, TAG, 'name_id'):
            return self.nid
        return None

    def inline(self, I, body):
        return ai.Client.inline(self, I, body) or body.id in self.writers

    def sig(self, I, st, args):
        out = []
        for a in args:
            v = I.canon(st, a)
            if v.t == 'ref':
                v = I.ld(st, v)
            v = bare(v)
            fs = v.a[2] if v.t == 'adt' else (v,)
            for x in fs:
                y = I.ev(st, x)
                if y is not None and y.t in ('i', 'adt'):
                    out.append(y)
                elif x.t == 'adt' and not x.a[2]:
                    out.append(x)
        return tuple(out)

    def enter(self, I, st, ctx, body, args):
        if body.id in self.writers and body.id not in self.entry:
            self.entry[body.id] = self.sig(I, st, args)
        if body.kind == 'closure' and any(self.elem_of(I.canon(st, a)) for a in args):
            m = st.mon
            st.mon = (m[0], m[1], 'some', (), m[4])

    def note(self, I, st):
        if st.mon[2] == 'some' and 'noval' not in st.mon[3] and any(
                k.t == 'disc' and k.a[1] == OPT and has_value(k.a[0]) and v[0] == '=' and v[1] is I_(0) for k, v in st.facts.items()):
            self.event(st, 'noval')

    def loop_back(self, I, st, ctx, head, key):
        self.note(I, st)
        m = st.mon
        if self.variant == 'Sequence' and m[2] in ('', 'index') and not m[4]:
            # a loop over positions
            if m[3].count('child') != 1:
                self.v(ctx, 'sequence iteration', 'an item of a sequence is rendered %d times' % m[3].count('child'))
            st.mon = (m[0], m[1], 'index', (), m[4])

    def all_items(self, I, st):
        if st.mon[2] == 'end':
            return True
        for k, v in st.facts.items():
            if k.t == 'lt' and v[0] == '=' and v[1] is FALSE and k.a[1].t == 'app' and k.a[1].a[0] == 'len' and self.coll(k.a[1]):
                if st.mon[2] == 'index' or k.a[0] is I_(0):
                    return True
        return False

    def leave(self, I, st, ctx, body, ret):
        self.note(I, st)
        if body.kind == 'closure' and st.mon[2] == 'some' and not st.mon[4]:
            self.iteration_done(I, st, ctx)

    def elem_of(self, t):
        return any(x.t == 'idx' and self.coll(x.a[0]) for x in subterms(t))

    def coll(self, t):
        return any(x.t == 'as' and VNAMES(x.a[2], x.a[1]) == 'Sequence' for x in subterms(t)) or has_field(t, TAG, 'attributes')

    def v(self, ctx, key, text):
        self.bad.append((key, text, ctx.where()))

    def iteration_done(self, I, st, ctx):
        ev = st.mon[3]
        if self.variant == 'Sequence':
            if ev.count('child') != 1:
                self.v(ctx, 'sequence iteration', 'an item of a sequence is rendered %d times' % ev.count('child'))
        elif self.variant == 'Tag' and self.mode == 'html':
            if ev.count('attrname') != 1:
                self.v(ctx, 'attribute iteration', 'an attribute name is written %d times' % ev.count('attrname'))
            elif ev.count('attrval') + ev.count('attrchars') == 0 and 'noval' not in ev:
                self.v(ctx, 'attribute iteration', 'the value of an attribute is not written')
        st.mon = (st.mon[0], st.mon[1], 'done', (), st.mon[4])

    def call(self, I, st, ctx, name, args, cal):
        short = name.rsplit('::', 1)[-1]
        if short == 'next' and args and name not in I.P.bodies:
            it = I.canon(st, args[0])
            it = I.ld(st, args[0]) if args[0].t == 'ref' else it
            if not self.elem_of_iter(I, st, it):
                return None
            if st.mon[2] == 'some':
                self.iteration_done(I, st, ctx)
            self.check_iter(ctx, it)
            outs = I.call_ext(st, ctx, name, args, cal)
            for s, r in outs:
                m = s.mon
                some_ = r.t == 'adt' and r.a[1] == 1
                s.mon = (m[0], m[1], 'some' if some_ else 'end', () if some_ else m[3], m[4])
            return outs
        if short in CONSUME and args and any(self.elem_of_iter(I, st, I.ld(st, a) if a.t == 'ref' else a) for a in args[:1]):
            it = I.ld(st, args[0]) if args[0].t == 'ref' else args[0]
            self.check_iter(ctx, it)
            outs = I.call_ext(st, ctx, name, args, cal)
            for s, r in outs:
                m = s.mon
                s.mon = (m[0], m[1], 'end', m[3], m[4])
            return outs
        if name.startswith('std::io::Write::') and short in ('write_fmt', 'write_all', 'write', 'write_str'):
            self.count = getattr(self, 'count', 0) + 1
            if short == 'write':
                self.v(ctx, 'partial write', 'output is written with a call that may write only part of it')
            st2 = st.copy()
            st2.mon = st.mon[:4] + (True,)
            if not st.mon[4]:
                v = I.canon(st, args[1])
                for p in models.flat_fmt(I, strip_bytes(v)):
                    self.piece(I, st, ctx, I.canon(st, p))
            return [(st, ok(UNIT)), (st2, err(mk('sym', 'io error', ctx.inst('io'))))]
        return None

    def elem_of_iter(self, I, st, it):
        return self.coll(it)

    def check_iter(self, ctx, it):
        for x in subterms(it):
            if x.t == 'iter' and len(x.a) > 1 and isinstance(x.a[1], tuple):
                for op in x.a[1]:
                    nm = op[0] if isinstance(op, tuple) else str(op)
                    if any(str(nm) == d or str(nm).startswith(d) for d in ITER_DROP):
                        self.v(ctx, 'iteration', 'items are dropped or reordered while rendering (%s)' % nm)

    def opaque(self, I, st, ctx, body, args):
        if body.id not in self.writers:
            return None
        m = st.mon
        st2 = st.copy()
        st2.mon = m[:4] + (True,)
        if not m[4]:
            if self.mode == 'html' and m[0] != 'data':
                self.v(ctx, 'nested content', 'nested content is written inside a tag (%s)' % m[0])
            want = self.entry.get(body.id)
            if want is not None and self.sig(I, st, args) != want:
                self.v(ctx, 'mode', 'nested content is rendered in another mode')
            kind = None
            for a in args:
                a = I.canon(st, a)
                if has_field(a, TAG, 'content'):
                    kind = 'content'
                elif any(x.t == 'idx' and any(y.t == 'as' and VNAMES(y.a[2], y.a[1]) == 'Sequence' for y in subterms(x)) for x in subterms(a)):
                    kind = 'child'
            if kind is None:
                self.v(ctx, 'recursion', 'a recursive call renders something other than an item of a sequence or the content of a tag')
            else:
                self.event(st, kind)
        return [(st, ok(UNIT)), (st2, err(mk('sym', 'io error', ctx.inst('io'))))]

    def event(self, st, k):
        m = st.mon
        if m[3].count(k) < 2:
            st.mon = m[:3] + (m[3] + (k,), m[4])

    # ---- the bytes
    def piece(self, I, st, ctx, p):
        if p.t == 's':
            for ch in p.a[0]:
                self.lit(I, st, ctx, ch)
            if p.a[0]:
                self.event(st, 'lit:' + p.a[0])
        elif p.t == 'i' and False:
            pass
        else:
            self.dyn(I, st, ctx, p)

    def lit(self, I, st, ctx, ch):
        m = st.mon
        s, stack = m[0], m[1]
        if self.mode == 'text':
            if ch in '<>&':
                self.v(ctx, 'literal', 'plain text output contains the literal %r' % ch)
            return
        n = None
        if s == 'data':
            n = 'lt' if ch == '<' else 'data'
        elif s == 'lt':
            n = 'end' if ch == '/' else ('lname' if ch.isalpha() or ch == '!' else None)
            if n == 'lname':
                stack = stack + ('#' + ch,)
        elif s in ('name', 'lname', 'intag', 'attr', 'aftq'):
            if ch == '>':
                n = 'data'
            elif ch == ' ':
                n = 'intag'
            elif s == 'lname':
                n = 'lname'
                stack = stack[:-1] + (stack[-1] + ch,)
            elif s == 'attr' and ch == '=':
                n = 'eq'
            elif s in ('intag', 'attr') and (ch.isalnum() or ch in '-_:'):
                n = 'attr'
        elif s == 'end':
            n = 'elname:' + ch
        elif s.startswith('elname:'):
            if ch == '>':
                stack = self.pop(ctx, stack, '#' + s[7:])
                n = 'data'
            else:
                n = s + ch
        elif s == 'endname':
            n = 'data' if ch == '>' else None
        elif s == 'eq':
            n = 'dq' if ch == '"' else ('sq' if ch == "'" else None)
        elif s == 'dq':
            n = 'aftq' if ch == '"' else 'dq'
        elif s == 'sq':
            n = 'aftq' if ch == "'" else 'sq'
        if n is None:
            self.v(ctx, 'markup', 'malformed markup: %r in state %s' % (ch, s))
            n = s
        st.mon = (n, stack) + m[2:]

    def pop(self, ctx, stack, x):
        if not stack or stack[-1] is not x and stack[-1] != x:
            self.v(ctx, 'end tag', 'an end tag is written for %s while %s is open' % (shown(x), shown(stack[-1]) if stack else 'nothing'))
            return stack[:-1]
        return stack[:-1]

    def dyn(self, I, st, ctx, p):
        m = st.mon
        s, stack = m[0], m[1]
        if self.mode == 'text':
            if src_text(p):
                self.event(st, 'text')
            else:
                self.v(ctx, 'text output', 'plain text output contains something other than the text of a text node: ' + show(p)[:160])
            return
        e = enc(p)
        pn = pool_name(p) if e is None else None
        if s == 'data':
            if e and e[1] in ESC_TEXT and e[2] in ENC_OK and src_text(e[0]):
                self.event(st, 'text')
                return
            if p.t != 's' and self.char_ok(I, st, p, '<&'):
                self.event(st, 'chars')
                return
            self.v(ctx, 'text', 'text is written without escaping: ' + show(p)[:160])
        elif s == 'lt':
            if pn and pn[0] == 'tag':
                st.mon = ('name', stack + (pn[1],)) + m[2:]
            else:
                self.v(ctx, 'tag name', 'a tag is opened with something other than its name: ' + show(p)[:160])
        elif s == 'end':
            if pn and pn[0] == 'tag':
                st.mon = ('endname', self.pop(ctx, stack, pn[1])) + m[2:]
            else:
                self.v(ctx, 'end tag', 'an end tag is written with something other than the tag name: ' + show(p)[:160])
        elif s == 'intag':
            if pn and pn[0] == 'attr':
                st.mon = ('attr', stack) + m[2:]
                self.event(st, 'attrname')
            else:
                self.v(ctx, 'attribute name', 'an attribute is written with something other than its name: ' + show(p)[:160])
        elif s in ('dq', 'sq'):
            if e and e[1] in ESC_ATTR and e[2] in ENC_OK and has_value(e[0]):
                self.event(st, 'attrval')
            elif self.char_ok(I, st, p, '"&' if s == 'dq' else "'&"):
                self.event(st, 'attrchars')
            else:
                self.v(ctx, 'attribute value', 'an attribute value is written without escaping quotes: ' + show(p)[:160])
        else:
            self.v(ctx, 'markup', 'dynamic text in state %s: %s' % (s, show(p)[:160]))

    def char_ok(self, I, st, p, chars):
        f = I.fact(st, bare(p))
        return f is not None and f[0] == '!' and all(I_(ord(c)) in f[1] for c in chars)


def has_value(t):
    return any(x.t == 'fld' and x.a[3] == 'value' for x in subterms(t)) and has_field(t, TAG, 'attributes')


def shown(x):
    return show(x)[:60] if isinstance(x, T) else str(x)


def strip_bytes(v):
    u = v.a[1] if v.t == 'app' and v.a[0] == 'unsize' else v
    if u.t == 'arr' and all(x.t == 'i' for x in u.a[0]):
        return S(bytes(x.a[0] for x in u.a[0]).decode('utf-8', 'replace'))
    while v.t == 'app' and v.a[0] in ('as_bytes', 'core::str::<impl str>::as_bytes', 'into_bytes'):
        v = v.a[1]
    return v


def explore_all(C, modes=('html', 'text')):
    """run the renderer once per kind of node (and, for tags, per interned tag name) -> list of (client, outs)"""
    if getattr(C, '_render', None):
        return C._render
    P = C.P
    root = [b for b in C.lib() if b.name.startswith('compiler::') and b.name.endswith('Context>::render')]
    C.floor('public render function', len(root), 1)
    if not root:
        return []
    root = root[0]
    isw = lambda n: n.startswith('std::io::Write::')
    direct = {b.id for b, n, s in calls_of(P, isw, C.lib())}
    writers = P.rev_reach(direct) & P.reach([root.id])
    hn = bn = None
    for i in range(1, root.argc + 1):
        ts = root.types[root.locals[i][0]]['s']
        if 'HTML' in ts:
            hn = P and root.locals[i][1]
        elif ts == 'bool':
            bn = root.locals[i][1]
    C.floor('render parameters', (hn is not None) + (bn is not None), 2)
    ids = str_ids(P)
    C.floor('interned tag names', len(ids), 100)
    jobs = []
    for mode in modes:
        for v in P.adts[HTML]['variants']:
            if v['name'] == 'Tag' and mode == 'html':
                for n, (raw, s) in sorted(ids.items()):
                    jobs.append((mode, 'Tag', ('=', I_(raw)), s))
                jobs.append((mode, 'Tag', ('!', frozenset(I_(r) for r, s in ids.values())), 'any other name'))
            else:
                jobs.append((mode, v['name'], None, v['name']))
    res = []
    for mode, variant, nid, tag in jobs:
        cl = Render(C, mode, variant, nid, tag)
        cl.writers, cl.htmlname, cl.boolname = writers, hn, bn
        outs = C.explore(root, cl, mon=('data', (), '', (), False))
        res.append((cl, outs, C.lastI))
    C._render = res
    C.counts['render explorations'] = len(res)
    return res


INJ = {'text', 'tag name', 'end tag', 'attribute name', 'attribute value', 'markup', 'nested content', 'mode'}


@prop('P05')
def p05(C):
    """Every write of the renderer is fed to an automaton of HTML syntax, per kind of node and per known tag name: literal pieces drive it,
    and each dynamic piece must be of the kind its position requires."""
    C.rule('escape', 'text reaches the output in text position only entity-encoded; attribute values only inside quotes with quotes encoded; names only in name position')
    C.rule('end-state', 'every successful rendering of a node ends outside any tag')
    n = 0
    for cl, outs, I in explore_all(C, ('html',)):
        if cl.mode != 'html':
            continue
        mine = [b for b in cl.bad if b[0] in INJ]
        for k, text, where in mine:
            C.ob('escape', '%s (%s)' % (k, cl.variant), False, text, where)
        C.ob('escape', '%s %s' % (cl.variant, cl.tag), not mine)
        for st, r in outs:
            if st.mon[4]:
                continue
            n += 1
            C.ob('end-state', '%s %s' % (cl.variant, cl.tag), st.mon[0] == 'data', 'rendering ends in state ' + st.mon[0])
    C.floor('write calls explored', sum(getattr(cl, 'count', 0) for cl, o, i in explore_all(C)), 10)
    C.floor('successful renderings', n, 100)
    C.assumptions += ['htmlentity::encode encodes the characters its entity set names', 'tag and attribute names are valid (separate property)']


@prop('P06')
def p06(C):
    """The same exploration with HTML output off: every write is literal text without markup characters or the unchanged text of a text node."""
    C.rule('plain', 'plain text output consists of the text of text nodes and fixed layout characters')
    C.rule('text-nodes', 'each text node contributes its text exactly once, unescaped; nothing else of a tag but its content is written')
    n = 0
    for cl, outs, I in explore_all(C, ('text',)):
        if cl.mode != 'text':
            continue
        for k, text, where in cl.bad:
            C.ob('plain', '%s (%s)' % (k, cl.variant), False, text, where)
        C.ob('plain', cl.variant, not cl.bad)
        for st, r in outs:
            if st.mon[4]:
                continue
            n += 1
            ev = st.mon[3]
            if cl.variant == 'Text':
                C.ob('text-nodes', 'Text', ev == ('text',), 'a text node is written as ' + str(ev))
            if cl.variant == 'Tag':
                C.ob('text-nodes', 'Tag', ev.count('content') == 1, 'the content of a tag is written %d times' % ev.count('content'))
    C.floor('successful renderings', n, 5)


@prop('P07')
def p07(C):
    """End states of the output automaton with its stack of open elements, one exploration per tag name."""
    C.rule('balanced', 'each element is opened and closed exactly once with the same name, around its content; void elements are never closed')
    n = 0
    for cl, outs, I in explore_all(C, ('html',)):
        if cl.mode != 'html':
            continue
        for k, text, where in cl.bad:
            if k in ('end tag', 'markup', 'nested content', 'tag name'):
                C.ob('balanced', '%s (%s)' % (k, cl.variant), False, text, where)
        for st, r in outs:
            if st.mon[4]:
                continue
            n += 1
            stack = st.mon[1]
            if cl.variant != 'Tag':
                C.ob('balanced', cl.variant, not stack, 'elements are left open')
                continue
            void = cl.tag in VOID or cl.tag in UNCLOSED
            maybe = void or cl.tag in VOID_OLD
            if stack:
                C.ob('balanced', 'Tag ' + cl.tag, maybe and len(stack) == 1, '<%s> is opened and never closed' % cl.tag)
            else:
                C.ob('balanced', 'Tag ' + cl.tag, not void, 'the void element <%s> gets an end tag, or is not written at all' % cl.tag)
            C.ob('balanced', 'content of ' + cl.tag, st.mon[3].count('content') == 1, 'the content is rendered %d times' % st.mon[3].count('content'))
    C.floor('successful renderings', n, 100)


@prop('P08')
def p08(C):
    """Events of the output automaton per node kind; iterations over children and attributes; results of failed writes."""
    C.rule('each-once', 'every node of the document is rendered exactly once, in document order: each text, each item, each attribute, each content')
    C.rule('io-errors', 'when a write fails, rendering fails')
    n = 0
    for cl, outs, I in explore_all(C):
        for k, text, where in cl.bad:
            if k in ('sequence iteration', 'attribute iteration', 'iteration', 'recursion', 'partial write'):
                C.ob('each-once', '%s (%s, %s)' % (k, cl.variant, cl.mode), False, text, where)
        for st, r in outs:
            if st.mon[4]:
                bad = r.t == 'adt' and r.a[0] == RES and r.a[1] == 0 or r.t != 'adt' and not failed(I, st, r)
                C.ob('io-errors', '%s (%s)' % (cl.variant, cl.mode), not bad, 'a failed write is not reported to the caller')
                continue
            n += 1
            ev, what = st.mon[3], '%s (%s)' % (cl.variant, cl.mode)
            want = {'Text': ('text',), 'Whitespace': ('lit: ',), 'RawNewline': ('lit:\n',), 'Empty': ()}.get(cl.variant)
            if want is not None:
                C.ob('each-once', what, ev == want, 'written as %s instead of %s' % (ev, want))
            elif cl.variant == 'Sequence':
                C.ob('each-once', what, cl.all_items(I, st), 'the loop over the items can stop before the last one')
            elif cl.variant == 'Tag':
                C.ob('each-once', what + ' content', ev.count('content') == 1, 'the content is rendered %d times' % ev.count('content'))
                if cl.mode == 'html':
                    C.ob('each-once', what + ' attributes', st.mon[2] == 'end', 'the loop over the attributes can stop before the last one')
    C.floor('successful renderings', n, 100)


def failed(I, st, r):
    d = I.disc(st, r, RES)
    x = I.ev(st, d)
    return x is I_(1)
