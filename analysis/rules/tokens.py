"""Tokens: the text is cut into tokens without gaps, and each piece is what it looks like."""
import re
from rules import prop
from rulelib import *
import models
from rules.coerce import names_of, vname, deep
from rules.natives import *
from rules.answers import poss
from rules.access import sig
from rules.exprs import RANGE, noting
from rules.parse import Plain, TOKEN, KIND, PARSER
from rules.tags import CHARS, possible, START, CONT

WHITE = {'Whitespace', 'Newline'}
LEFT = {'Equals', 'LBrace', 'LPar', 'LSqb', 'RAngle', 'Newline', 'Whitespace'}
DIR = 'parser::token::QuoteDir'


class Cutter:
    """the function that cuts the text, over all of its rounds"""
    def __init__(self, C):
        self.C, self.P = C, C.P
        from rules import convert
        self.V, self.nat = convert.Conv(C), Natives(C)
        self.bodies, self.read, ex = [], [], {}
        for b in C.lib():
            if b.parent or b.kind in ('closure', 'promoted') or not b.argc:
                continue
            s = sig(b)
            if s[0] == '(usize, %s)' % KIND and s[1] == '&str':
                ex[b.id] = self.next
            elif s[0] == VEC + '<' + TOKEN + '>' and 'SourceFile' in s[1]:
                self.bodies.append(b)
            elif s[0] == '()' and 'DiagnosticSink' in s[1] and any(x == RANGE for x in s):
                ex[b.id] = noting('reported', give=lambda *a: mk('tup'))
        self.ex = ex
        self.readers = set()

    def next(self, I, st, ctx, b, args):
        x = deep(I.canon(st, args[0]))
        self.readers.add(b.id)
        v = mk('tup', (mk('app', 'length', x), mk('app', 'kind', x)))
        out = [(st.copy(), v)]
        if len(args) > 1:
            s = st.copy()
            I.c.note(s, ('wrong', x))
            out += [(z, v) for z, _ in I.call_value(s, ctx, args[1], [mk('app', 'trouble', x)])]
        return out

    def run(self, body):
        cl = Plain(self.C, self.nat, self.V, extra=self.ex)
        I = ai.Interp(self.P, cl, 900000)
        cl.I, I.CAP = I, 4000
        args = [I.symarg(body, i + 1) for i in range(body.argc)]
        outs = I.run(body.id, args=args, st=ai.State(mon=()))
        self.I, self.R = I, I
        self.given = [deep(I.canon(ai.State(), x)) for x in args]
        self.outs = [(st, deep(I.canon(st, r))) for st, r in outs]
        self.rounds = cl.rounds
        self.C.explored.append((body.name, len(outs) + len(cl.rounds), I.steps, len(I.visited)))


def truth(st, t):
    v = st.facts.get(t)
    for k, w in st.facts.items():
        if v is None and deep(k) is t:
            v = w
    if v is None or v[0] != '=':
        return None
    x = v[1].a[0] if isinstance(v[1], T) else v[1]
    return int(x)


def kinds_at(P, st, t):
    """the kinds that a term may be on this way"""
    ns = names_of(P, KIND)
    if t.t == 'adt':
        return {vname(P, t)}
    if t.t == 'upd':
        t = t.a[0].a[0] if t.a[0].t == 'as' else t
    left = set(ns)
    for k, v in st.facts.items():
        k = deep(k)
        if k.t == 'disc' and deep(k.a[0]) is t:
            if v[0] == '=':
                left &= {ns[v[1].a[0] if isinstance(v[1], T) else v[1]]}
            elif v[0] == '!':
                left -= {ns[i.a[0] if isinstance(i, T) else i] for i in v[1]}
        elif k.t == 'eq' and v[0] == '=':
            a, b = k.a
            if b.t == 'adt':
                a, b = b, a
            if a.t == 'adt' and a.a[0] == KIND and b is t:
                n = vname(P, a)
                if truth(st, k):
                    left &= {n}
                elif not a.a[2]:
                    left -= {n}
    return left


def plus(a, b):
    if a.t == 'i' and a.a[0] == 0:
        return {b}
    return {mk('add', a, b), mk('add', b, a), mk('app', 'add', a, b), mk('app', 'add', b, a)}


def is_sum(t, a, b):
    t = deep(t)
    if a.t == 'i' and not a.a[0]:
        return t is b
    return t.t in ('add', 'app') and [x for x in t.a if isinstance(x, T)] in ([a, b], [b, a]) and (t.t == 'add' or t.a[0] == 'add')


def tokens_of(t):
    """(from where, taken off, put on) of a list of tokens after a round"""
    on, off = [], 0
    while True:
        if t.t == 'app' and t.a[0] == 'push' or t.t == 'push':
            a = [x for x in t.a if isinstance(x, T)]
            on.insert(0, a[1])
            t = a[0]
        elif t.t == 'app' and t.a[0] == 'popped' or t.t == 'popped':
            off += 1
            t = [x for x in t.a if isinstance(x, T)][0]
        else:
            break
    return t, off, on


def root_of(t):
    return t.a[0][3] if t.t in ('lv', 'jn') and isinstance(t.a[0], tuple) and len(t.a[0]) > 3 else None


def pieces(C):
    """P30: the tokens are the text, cut without gap or overlap"""
    C.rule('piece', 'each round of the loop reads the text that follows the last token, and the next round goes on directly behind what was read')
    C.rule('range', 'a token has the range of what was read, in this file, and the kind that was read')
    C.rule('left out', 'a token is left out only if it is a comment and comments are not wanted, or white space next to white space')
    C.rule('white', 'there are no two pieces of white space in a row, and a paragraph break stays')
    C.rule('quote', 'a quote opens at the start, after white space, an opening bracket, = and >; it closes after everything else; a comment changes nothing')
    C.rule('wrong', 'what is wrong with a piece of text is reported there, once')
    C.rule('end', 'it goes on to the end of the text')
    C.rule('order', 'the parser takes the tokens in the order in which they are written')
    K = Cutter(C)
    C.floor('functions that cut a text into tokens', len(K.bodies), 1)
    for b in K.bodies:
        K.run(b)
        one_cutter(C, K, b)
    queue_order(C, K)
    return K


def one_cutter(C, K, b):
    P, nm = C.P, b.name
    src = next(g for g, t in zip(K.given, sig(b)[1:]) if 'SourceFile' in t)
    strip = next((g for g, t in zip(K.given, sig(b)[1:]) if t == 'bool'), None)
    where = C.loc(b.span) if getattr(b, 'span', None) else b.name

    def text_of(t):
        t = deep(t)
        while t.t in ('deref', 'ref'):
            t = t.a[0]
        return t.t == 'fld' and t.a[0] is src and t.a[3] == 'src'
    done = {}
    heads = 0
    for ctx, head, st in K.rounds:
        # what was read
        xs = []
        for r, v in st.mem.items():
            for y in subterms(deep(I_canon(K, st, v))):
                if y.t == 'app' and y.a[0] in ('length', 'kind') and y.a[1] not in xs:
                    xs.append(y.a[1])
        for k in st.facts:
            for y in subterms(deep(k)):
                if y.t == 'app' and y.a[0] in ('length', 'kind') and y.a[1] not in xs:
                    xs.append(y.a[1])
        heads += 1
        good = len(xs) == 1
        C.ob('piece', nm + ': one piece read in a round', good, 'a round reads %d pieces: %s' % (len(xs), ', '.join(show(x) for x in xs)), where=where)
        if not good:
            continue
        X = xs[0]
        cur = substr_from(X, text_of)
        C.ob('piece', nm + ': the text behind the last token', cur is not None, 'what is read is ' + show(X), where=where)
        if cur is None:
            continue
        L, kd = mk('app', 'length', X), mk('app', 'kind', X)
        croot = root_of(cur)
        done.setdefault('cur', set()).add(croot)
        if croot is None:
            C.ob('piece', nm + ': starts at the start', cur.t == 'i' and cur.a[0] == 0, 'the first piece starts at ' + show(cur), where=where)
        ks = kinds_at(P, st, kd)
        mem = {r: deep(I_canon(K, st, v)) for r, v in st.mem.items()}
        done.setdefault('rounds', []).append((st, X, cur, L, kd, ks, mem))
    roots = done.get('cur', set()) - {None}
    C.ob('piece', nm + ': one place in the text', len(roots) == 1, '%d places in the text' % len(roots), where=where)
    rounds = done.get('rounds', [])
    C.floor('rounds of the loop that cuts', len(rounds), 12)
    if len(roots) != 1:
        return
    cr = next(iter(roots))
    # the list of tokens
    lists = {r for st, X, cur, L, kd, ks, mem in rounds for r, v in mem.items() if any(y.t == 'adt' and y.a[0] == TOKEN for y in tokens_of(v)[2]) and root_of(tokens_of(v)[0]) == r}
    C.ob('range', nm + ': one list of tokens', len(lists) == 1, '%d lists' % len(lists), where=where)
    if len(lists) != 1:
        return
    lr = next(iter(lists))
    # the direction of the next quote
    qs = {root_of(deep(y.a[2])) for st, X, cur, L, kd, ks, mem in rounds for y in subterms(mem.get(lr, K_NONE)) if y.t == 'upd' and y.a[0] is mk_as(P, kd)} - {None}
    C.ob('quote', nm + ': one direction is kept', len(qs) == 1, '%d places hold the direction of a quote' % len(qs), where=where)
    qr = next(iter(qs)) if len(qs) == 1 else None
    seen = set()
    for st, X, cur, L, kd, ks, mem in rounds:
        seen |= ks
        first = cur.t == 'i'
        C.ob('piece', nm + ': goes on behind what was read', is_sum(mem[cr], cur, L), 'after a piece of length n at i the next is read at ' + show(mem[cr]), where=where)
        v = mem.get(lr, K_NONE)
        if v.t == 'arr':
            base, off, on = None, 0, list(v.a[0])
        else:
            base, off, on = tokens_of(v)
        ok_ = len(on) <= 1 and off <= 1 and (first or base is not None and root_of(base) == lr)
        C.ob('left out', nm + ': what is done with a token', ok_, 'after a round the tokens are ' + show(v), where=where)
        if not ok_:
            continue
        prev = None if first or base is None else mk('fld', mk('app', 'x'), 0, TOKEN, 'kind')
        pk = prev_kinds(P, st, base) if base is not None else set()
        what = ', '.join(sorted(ks)) if len(ks) < 5 else 'a token'
        if not on:
            if ks == {'Comment'}:
                C.ob('left out', nm + ': comment', strip is not None and truth(st, strip) == 1, 'a comment is left out though comments are wanted', where=where)
            elif ks == {'Whitespace'}:
                C.ob('left out', nm + ': white space', bool(pk) and pk <= WHITE and not off, 'white space is left out after ' + ', '.join(sorted(pk)[:6]), where=where)
            elif ks == {'Newline'} and pk and pk <= {'Newline'} and not off:
                pass
            else:
                C.ob('left out', nm + ': ' + what, False, '%s is left out' % what, where=where)
        else:
            t = on[0]
            good = t.t == 'adt' and t.a[0] == TOKEN
            C.ob('range', nm + ': a token is made', good, 'added is ' + show(t), where=where)
            if not good:
                continue
            f = dict(zip(fields_of(C, TOKEN), t.a[2]))
            rg = f.get('range')
            rf = dict(zip(fields_of(C, RANGE), rg.a[2])) if rg is not None and rg.t == 'adt' else {}
            okr = rf and is_start(rf.get('start'), cur) and is_sum(rf.get('end'), cur, L) and same_id(rf.get('src_id'), src)
            C.ob('range', nm + ': range', bool(okr), 'a piece of length n at i has the range ' + show(rg) if rg is not None else 'no range', where=where)
            kk = f.get('kind')
            if ks == {'Quote'}:
                dirs = quote_dir(P, kk, kd)
                okq = dirs is not None and (root_of(dirs) == qr or first and dirs.t == 'adt' and vname(P, dirs) == 'Left')
                C.ob('quote', nm + ': a quote has the direction kept', okq, 'a quote has the direction %s' % (show(dirs) if dirs is not None else 'read'), where=where)
            else:
                C.ob('range', nm + ': kind', kk is kd, 'a token read as k (%s) is made as %s' % (what, show(kk)), where=where)
            if 'Comment' in ks:
                C.ob('left out', nm + ': comment kept', strip is not None and truth(st, strip) == 0, 'a comment is kept though comments are not wanted', where=where)
            if off:
                C.ob('left out', nm + ': taken off', ks == {'Newline'} and bool(pk) and pk <= WHITE, 'for %s the last token (%s) is taken off again' % (what, ', '.join(sorted(pk)[:6])), where=where)
            elif ks & WHITE:
                C.ob('white', nm + ': white space', ks <= WHITE and (first or not pk & WHITE), '%s is added after %s' % (what, ', '.join(sorted(pk & WHITE))), where=where)
        # direction
        if qr is not None and qr in mem:
            d = mem[qr]
            if d.t == 'adt':
                n = vname(P, d)
                bad = {k for k in ks if k != 'Comment' and (k in LEFT) != (n == 'Left')}
                if 'Comment' in ks and not (first and n == 'Left') and not same_dir(P, st, d, qr):
                    bad.add('Comment')
                C.ob('quote', nm + ': direction after ' + what, not bad, 'after %s a quote is a %s quote' % (', '.join(sorted(bad)), n.lower()), where=where)
            else:
                C.ob('quote', nm + ': direction after ' + what, ks == {'Comment'} and root_of(d) == qr, 'after %s the direction of quotes is %s' % (what, show(d)), where=where)
        # errors
        w = [e for e in st.mon if e[0] == 'wrong']
        r = [e for e in st.mon if e[0] == 'reported']
        C.ob('wrong', nm + (': reported' if w else ': nothing wrong'), len(r) == len(w) and all(at_range(C, e, cur, L, src, mk('app', 'trouble', X)) for e in r),
             ('what is wrong is reported %d times, as %s' % (len(r), '; '.join(show(y) for e in r for y in e[1:] if isinstance(y, T)))) if w else 'something is reported though nothing is wrong', where=where)
    C.ob('quote', nm + ': every kind', seen >= set(names_of(P, KIND)), 'not judged: ' + ', '.join(sorted(set(names_of(P, KIND)) - seen)), where=where)
    for st, r in K.outs:
        good = root_of(r) == lr or r.t == 'arr' and not r.a[0]
        C.ob('end', nm + ': answer', good, 'the answer is ' + show(r), where=where)
        lens = [k for k in (deep(k) for k in st.facts) if k.t == 'lt' and truth(st, k) == 0 and (root_of(k.a[0]) == cr or k.a[0].t == 'i' and k.a[0].a[0] == 0) and k.a[1].t in ('app', 'len') and any(text_of(x) for x in k.a[1].a if isinstance(x, T))]
        C.ob('end', nm + ': ends at the end', bool(lens), 'the loop may end before the end of the text', where=where)


K_NONE = mk('tup', ())


def I_canon(K, st, v):
    return K.I.canon(st, v)


def mk_as(P, kd):
    return mk('as', kd, names_of(P, KIND).index('Quote'), KIND)


def fields_of(C, path):
    return [f[0] for f in C.P.adts[path]['variants'][0]['fields']]


def substr_from(x, is_text):
    """i, when x is the text from i on"""
    if x.t == 'app' and x.a[0] == 'substr' and is_text(x.a[1]) and x.a[2].t == 'adt' and x.a[2].a[0].endswith('RangeFrom'):
        return deep(x.a[2].a[2][0])
    return None


def is_start(t, cur):
    t = deep(t) if t is not None else None
    return t is cur or t is not None and t.t == 'i' and cur.t == 'i' and t.a[0] == cur.a[0]


def same_id(t, src):
    t = deep(t) if t is not None else None
    return t is not None and t.t == 'fld' and t.a[3] == 'id' and t.a[0] is src


def prev_kinds(P, st, base):
    """the kinds that the last token of a list may be"""
    ns = names_of(P, KIND)
    left, empty = set(ns), None
    for k, v in st.facts.items():
        k = deep(k)
        if k.t in ('app', 'len') and (k.t == 'len' or k.a[0] == 'len') and base in k.a and v[0] == '=' and not (v[1].a[0] if isinstance(v[1], T) else v[1]):
            return set()
        if k.t == 'disc':
            x = deep(k.a[0])
            if x.t == 'fld' and x.a[3] == 'kind' and base in list(subterms(x)):
                return kinds_at(P, st, x)
    return left


def quote_dir(P, kk, kd):
    """the direction put into a quote"""
    if kk is None:
        return None
    if kk.t == 'upd' and kk.a[0] is mk_as(P, kd) and isinstance(kk.a[1], tuple) and kk.a[1][1] == 1:
        return deep(kk.a[2])
    if kk.t == 'adt' and vname(P, kk) == 'Quote':
        q = deep(kk.a[2][0])
        if q.t == 'fld' and q.a[0] is mk_as(P, kd) and q.a[1] == 0:
            return deep(kk.a[2][1])
    return None


def same_dir(P, st, d, qr):
    """the direction is known to be the same as before"""
    return False


def at_range(C, e, cur, L, src, what):
    ts = [deep(y) for y in e[1:] if isinstance(y, T)]
    rs = [y for y in ts if y.t == 'adt' and y.a[0] == RANGE]
    for y in rs:
        rf = dict(zip(fields_of(C, RANGE), y.a[2]))
        if is_start(rf['start'], cur) and is_sum(rf['end'], cur, L) and same_id(rf['src_id'], src):
            return any(what in list(subterms(z)) for z in ts)
    return False


def queue_order(C, K):
    """what the parser takes first is what is written first"""
    ids = {b.id for b in K.bodies}
    made = 0

    def cut(I, st, ctx, b, args):
        return [(st, mk('app', 'cut', *[deep(I.canon(st, a)) for a, t in zip(args, sig(b)[1:]) if 'Diagnostic' not in t]))]
    for b in C.lib():
        s = sig(b) if b.argc and not b.parent and b.kind not in ('closure', 'promoted') else None
        if not s or not s[0].startswith(PARSER):
            continue
        cl = Plain(C, K.nat, K.V, extra=dict.fromkeys(ids, cut))
        I = ai.Interp(C.P, cl, 200000)
        cl.I = I
        args = [I.symarg(b, i + 1) for i in range(b.argc)]
        for st, r in I.run(b.id, args=args, st=ai.State(mon=())):
            r = deep(I.canon(st, r))
            if r.t != 'adt' or r.a[0] != PARSER:
                C.ob('order', b.name + ': a parser is made', False, 'made is ' + show(r), b.name)
                continue
            f = dict(zip(fields_of(C, PARSER), r.a[2]))
            q = [deep(v) for v in f.values() if any(y.t == 'app' and y.a[0] == 'cut' for y in subterms(deep(v)))]
            made += 1
            C.ob('order', b.name + ': one queue', len(q) == 1, '%d queues of tokens' % len(q), b.name)
            for t in q:
                turned = len(re.findall(r'\brev(?:erse|ersed)?\b', show(t)))
                c = [y for y in subterms(t) if y.t == 'app' and y.a[0] == 'cut'][0]
                C.ob('order', b.name + ': the first token is taken first', turned == 1 and (t is c or set(walk_apps(t)) <= {'reverse', 'rev', 'cut', 'collect'}),
                     'the parser takes its tokens from the end of ' + show(t), b.name)
                C.ob('order', b.name + ': comments', terms.TRUE in c.a, 'the parser is given comments', b.name)
    C.floor('places where a parser is made', made, 1)


def walk_apps(t):
    return [y.a[0] for y in subterms(t) if y.t == 'app']


class Lex(Plain):
    """the reader of one token: the text is a row of characters, what is tested of them is known on each way"""
    SRC = None

    def inline(self, I, b):
        if not b.parent and b.kind not in ('closure', 'promoted') and b.argc and ('&str' in sig(b)[1:] or 'char' in sig(b)[1:]):
            return True
        return Plain.inline(self, I, b)

    def unknown(self, I, st, ctx, f, args):
        st = st.copy()
        self.note(st, ('wrong',) + tuple(deep(I.canon(st, a)) for a in args))
        return [(st, mk('tup', ()))]

    def at(self, t):
        """k, when t is the text from its k-th character on"""
        t = deep(t)
        if t is self.SRC:
            return 0
        k = substr_from(t, lambda x: deep(x) is self.SRC)
        return k.a[0] if k is not None and k.t == 'i' else None

    def there(self, st, k):
        for e in st.mon:
            if e[0] == 'cell' and e[1] == k:
                return e[2]
        return True if any(e[0] == 'cell' and e[1] > k and e[2] for e in st.mon) else False if any(e[0] == 'cell' and e[1] < k and not e[2] for e in st.mon) else None

    def cells(self, st, k):
        """[(state, is there a k-th character)]"""
        w = self.there(st, k)
        if w is not None:
            return [(st, w)]
        out = []
        for v in (True, False):
            s = st.copy()
            s.mon = s.mon + (('cell', k, v),)
            out.append((s, v))
        return out

    def accepts(self, I, st, ctx, f, byref):
        """the characters for which a test says yes; None if that is not known"""
        x = mk('app', 'any character')
        s = st.copy()
        root = (ctx.sub('test').fid, 'tested')
        s.mem[root] = x
        yes, no = set(), set()
        for z, r in I.call_value(s, ctx.sub('test'), f, [mk('ref', root, (), False) if byref else x]):
            for y, v in I.split_bool(z, r):
                (yes if v else no).update(possible(y, x))
        return yes if not yes & no and yes | no == set(CHARS) else None

    def scanning(self, I, st, ctx, b, args):
        """a function that counts how far a text goes on with characters of a kind, by a loop: what it gives, or None"""
        s = sig(b)
        if b.parent or b.argc != 2 or s[0] != 'usize' or '&str' not in s[1:] or not b.order()[1] or not self.inline(I, b):
            return None
        t = deep(I.canon(st, args[s[1:].index('&str')]))
        n = len(self.rounds)
        outs = I.call_local(st.copy(), ctx, b.id, list(args))
        el, stop, ends = None, set(), 0
        for z, r in outs:
            r = deep(r)
            e = r.a[0] if r.t == 'fld' and r.a[1] == 0 else None
            if e is not None and e.t == 'app' and e.a[0] == 'elem' and last_name(deep(e.a[1])) == 'char_indices' and deep(deep(e.a[1]).a[1]) is t and el in (None, e):
                el = e
                stop |= chars_in(z, e)
            elif r is deep(I.t_len(z, t)):
                ends += 1
            else:
                return None
        if el is None or not ends or (el.a[2].a[0], el.a[2].a[1]) in I.advanced or any(ops for base, ops in I.iters.get(el.a[2], ())):
            return None
        on = set()
        for c2, h, z in self.rounds[n:]:
            on |= chars_in(z, el)
        if on & stop or on | stop != set(CHARS):
            return None
        rest = S(''.join(c for c in CHARS if c in on))
        s2 = st.copy()
        s2.mon = s2.mon + (('all', t, rest),)
        return [(st.copy(), mk('app', 'scan', t, rest)), (s2, I.t_len(s2, t))]

    def call(self, I, st, ctx, name, args, cal):
        n = name.rsplit('::', 1)[-1]
        rid = cal.get('rid') or cal.get('id')
        if rid in I.P.bodies and len(args) == 2 and not getattr(self, 'scans', None):
            self.scans = True
            try:
                r = self.scanning(I, st, ctx, I.P.bodies[rid], args)
            finally:
                self.scans = None
            if r is not None:
                return r
        if n in ('chars', 'starts_with', 'find') and args and 'str' in name:
            t = deep(I.canon(st, args[0]))
            k = self.at(t)
            if n == 'chars' and k is not None:
                return [(st, mk('app', 'cells', terms.I(k)))]
            if n == 'starts_with' and k is not None:
                w = deep(I.canon(st, args[1]))
                w = w.a[0] if w.t == 's' else chr(w.a[0]) if w.t == 'i' else None
                if w is not None and w.isascii():
                    todo, out = [(st, 0)], []
                    while todo:
                        s, i = todo.pop()
                        if i == len(w):
                            out.append((s, terms.TRUE))
                            continue
                        for z, there in self.cells(s, k + i):
                            if not there:
                                out.append((z, terms.FALSE))
                                continue
                            for y, v in I.split_bool(z, I.binop('Eq', mk('app', 'char', terms.I(k + i)), terms.I(ord(w[i])))):
                                if v:
                                    todo.append((y, i + 1))
                                else:
                                    out.append((y, terms.FALSE))
                    return out
            if n == 'find' and (I.callable(st, args[1]) or args[1].t in ('clo', 'fn')):
                yes = self.accepts(I, st, ctx, args[1], False)
                if yes is None:
                    return None
                rest = S(''.join(c for c in CHARS if c not in yes))
                s2 = st.copy()
                s2.mon = s2.mon + (('all', t, rest),)
                return [(st.copy(), some(mk('app', 'scan', t, rest))), (s2, models.NONE)]
        if n == 'next' and args and args[0].t == 'ref':
            r, p = I.deref(args[0])
            v = I.rd(st, r, p)
            if v.t == 'app' and v.a[0] == 'cells':
                out = []
                for s, there in self.cells(st, v.a[1].a[0]):
                    s = s.copy()
                    I.wr(s, r, p, mk('app', 'cells', terms.I(v.a[1].a[0] + 1)))
                    out.append((s, some(mk('app', 'char', v.a[1])) if there else models.NONE))
                return out
        if n in ('all', 'any') and args and 'Iterator' in name:
            v = models.as_iter(I, st, args[0])
            if v.a[0][0] == 'opq' and not v.a[1]:
                yes = self.accepts(I, st, ctx, args[1], False)
                if yes is not None:
                    if n == 'all':
                        return [(st, mk('app', 'every', chars_of(v.a[0][1]), S(''.join(c for c in CHARS if c in yes))))]
                    return [(st, mk('not', mk('app', 'every', chars_of(v.a[0][1]), S(''.join(c for c in CHARS if c not in yes)))))]
        if n == 'count' and args and 'Iterator' in name:
            v = models.as_iter(I, st, args[0])
            if v.a[0][0] == 'opq' and len(v.a[1]) == 1 and v.a[1][0][0] == 'filter':
                yes = self.accepts(I, st, ctx, v.a[1][0][1], True)
                if yes is not None:
                    return [(st, mk('app', 'number of', chars_of(v.a[0][1]), S(''.join(c for c in CHARS if c in yes))))]
        return Plain.call(self, I, st, ctx, name, args, cal)


def chars_in(st, e):
    """the characters that an element of the row of positions and characters may be"""
    xs = {y for f in st.facts for y in subterms(deep(f)) if y.t == 'fld' and y.a[1] == 1 and y.a[0] is e}
    return set(CHARS).intersection(*[possible(st, x) for x in xs])


def chars_of(t):
    t = deep(t)
    return deep(t.a[1]) if t.t == 'app' and last_name(t) in ('chars', 'bytes') else t


def last_name(t):
    return t.a[0].rsplit('::', 1)[-1] if isinstance(t.a[0], str) else None


class Open(Exception):
    pass


SPACE = {c for c in CHARS if c in ' \t\n\r\x0c'}
DIGIT, HEX, LETTER = set('0123456789'), set('0123456789abcdefABCDEF'), {c for c in CHARS if c.isascii() and c.isalpha()}
MARKS = set('()[]{}<>.,-=:*!?/|#@$&\\`\'"')
RAW = set(CHARS) - MARKS - CONT - SPACE
WORDS = {'True': 'Boolean(1)', 'False': 'Boolean(0)', '_': 'Underscore'}
KEYWORDS = {'export': 'Export', 'fn': 'Fn', 'implicit': 'Implicit', 'let': 'Let', 'match': 'Match'}
ONE = {'(': 'LPar', ')': 'RPar', '[': 'LSqb', ']': 'RSqb', '{': 'LBrace', '}': 'RBrace', '>': 'RAngle', '|': 'Bar', ',': 'Comma', '=': 'Equals', '!': 'ExclamationMark'}
LONGER = {'/>': 'RAngle', '->': 'Arrow', '**': 'DoubleAsterisk', '::': 'DoubleColon', '?::': 'QuestionMarkDoubleColon', '...': 'Ellipsis'}
SHORT = {'*': 'Asterisk', ':': 'Colon', '?': 'QuestionMark', '.': 'Dot', '&': 'Ampersand', '<': 'LAngle'}


def lin(c, *atoms):
    """a number: c and the sum of the atoms"""
    out = []
    for a in atoms:
        if a and a[0] == 'lin':
            c += a[1]
            out += a[2]
        else:
            out.append(a)
    return ('lin', c, tuple(sorted(out, key=repr)))


def scan(frm, cs):
    return ('scan', frm, ''.join(sorted(cs)))


class Way:
    """what is known on one way through the reader"""
    def __init__(self, P, src, st, r):
        self.P, self.src, self.st = P, src, st
        self.cell = {e[1]: (possible(st, mk('app', 'char', terms.I(e[1]))) if e[2] else None) for e in st.mon if e[0] == 'cell'}
        for k in list(self.cell):
            for j in range(k):
                if self.cell[k] is not None and j not in self.cell:
                    self.cell[j] = possible(st, mk('app', 'char', terms.I(j)))
        self.whole = {}
        for e in st.mon:
            if e[0] == 'all':
                self.whole.setdefault(self.slice(e[1]), self.text(e[2]))
        self.wrong = [e for e in st.mon if e[0] == 'wrong']
        self.answer = r

    def text(self, t):
        return t.a[0]

    def num(self, t):
        """the normal form of a number"""
        t = deep(t)
        if t.t == 'i':
            return lin(t.a[0])
        if t.t in ('add', 'app') and (t.t == 'add' or t.a[0] == 'add'):
            return lin(0, *[self.num(x) for x in t.a if isinstance(x, T)])
        if t.t == 'sub':
            a, b = self.num(t.a[0]), self.num(t.a[1])
            if b[2] == ():
                return lin(a[1] - b[1], *a[2])
            return lin(0, ('?', show(t)))
        if t.t == 'app' and t.a[0] == 'scan':
            return lin(0, scan(self.slice(t.a[1])[1], self.text(t.a[2])))
        if t.t == 'len' or t.t == 'app' and t.a[0] == 'len':
            x = deep([y for y in t.a if isinstance(y, T)][0])
            s = self.slice(x)
            if s[0] == 'from' and s in self.whole:
                return lin(0, scan(s[1], self.whole[s]))
            if s[0] == 'to':
                return s[1]
            if s[0] == 'mid':
                return self.less(s[2], s[1])
            if s == ('from', lin(0)):
                return lin(0, ('length of the text',))
            if s[0] == 'from':
                return lin(0, ('rest from', s[1]))
            if x.t == 's':
                return lin(len(x.a[0].encode()))
            return lin(0, ('?', show(t)))
        if t.t == 'app' and t.a[0].endswith('len_utf8') and deep(t.a[1]).t == 'app' and deep(t.a[1]).a[0] == 'char':
            return self.utf8(deep(t.a[1]).a[1].a[0])
        if t.t == 'fld' and t.a[0].t == 'as':
            f = deep(t.a[0].a[0])
            if f.t == 'app' and last_name(f) == 'find':
                return lin(0, ('found', self.slice(f.a[1]), self.what(f.a[2])))
        return lin(0, ('?', show(t)))

    def less(self, a, b):
        left = list(a[2])
        for x in b[2]:
            if x not in left:
                return lin(0, ('?', repr((a, b))))
            left.remove(x)
        return lin(a[1] - b[1], *left)

    def utf8(self, k):
        cs = self.cell.get(k)
        if cs and all(c.isascii() for c in cs):
            return lin(1)
        return lin(0, ('bytes of', k))

    def what(self, t):
        t = deep(t)
        return t.a[0] if t.t == 's' else chr(t.a[0]) if t.t == 'i' else self.slice(t)

    def slice(self, t):
        """the normal form of a part of the text"""
        t = deep(t)
        if t is self.src:
            return ('from', lin(0))
        if t.t == 'app' and last_name(t) in ('chars', 'bytes'):
            return self.slice(t.a[1])
        if t.t == 'app' and t.a[0] == 'cells':
            return ('from', lin(t.a[1].a[0]))
        g = t
        if t.t == 'fld' and t.a[0].t == 'as' and deep(t.a[0].a[0]).t == 'app' and last_name(deep(t.a[0].a[0])) == 'get':
            g = deep(t.a[0].a[0])
        if g.t == 'app' and last_name(g) in ('substr', 'get') and g.a[2].t == 'adt':
            b = self.slice(g.a[1])
            r = [self.num(x) for x in g.a[2].a[2]]
            n = g.a[2].a[0].rsplit('::', 1)[-1]
            lo = b[1] if b[0] != 'to' else lin(0)
            if n == 'RangeFrom':
                lo2 = lin(0, lo, r[0])
                return ('from', lo2) if b[0] == 'from' else ('mid', lo2, b[-1])
            if n == 'RangeTo':
                hi = lin(0, lo, r[0])
                return ('to', hi) if lo == lin(0) else ('mid', lo, hi)
            if n == 'Range':
                a, z = lin(0, lo, r[0]), lin(0, lo, r[1])
                return ('to', z) if a == lin(0) else ('mid', a, z)
        return ('?', show(t))

    # what is known
    def of(self, k, cs):
        """is the k-th character one of these?"""
        if k not in self.cell:
            raise Open('the character %d after the first is not looked at' % k)
        c = self.cell[k]
        if c is None or not c & cs:
            return False
        if c <= cs:
            return True
        raise Open('characters %s are not told from %s' % (some_of(c - cs), some_of(c & cs)))

    def begins(self, w):
        return all(self.of(i, {c}) for i, c in enumerate(w) if i)

    def breaks(self, s):
        """are there two line breaks in it?"""
        lo, hi = 0, 1 << 40
        for k, v in self.st.facts.items():
            k = deep(k)
            if k.t in ('lt', 'le', 'eq') and v[0] == '=':
                a, b = [deep(x) for x in k.a]
                yes = bool(v[1].a[0] if isinstance(v[1], T) else v[1])
                for n, c, flip in ((a, b, False), (b, a, True)):
                    if c.t == 'i' and n.t == 'app' and n.a[0] == 'number of' and self.text(n.a[2]) == '\n' and self.slice(n.a[1]) == s:
                        x = c.a[0]
                        if k.t == 'eq':
                            if yes:
                                lo, hi = max(lo, x), min(hi, x)
                            elif lo == x:
                                lo += 1
                            continue
                        strict = k.t == 'lt'
                        if (not flip) == yes:      # n < x, or not x < n
                            top = x - 1 if (strict == yes) else x
                            hi = min(hi, top)
                        else:
                            bot = x + 1 if (strict == yes) else x
                            lo = max(lo, bot)
        if lo >= 2:
            return True
        if hi <= 1:
            return False
        raise Open('it is not known whether there are two line breaks')

    def word(self, s, table, first):
        """what a part of the text is equal to; None: none of the table"""
        no = set()
        for k, v in self.st.facts.items():
            k = deep(k)
            if k.t == 'eq' and v[0] == '=':
                for a, b in (k.a, k.a[::-1]):
                    b = deep(b)
                    if b.t == 's' and self.slice(a) == s:
                        if v[1].a[0] if isinstance(v[1], T) else v[1]:
                            return b.a[0]
                        no.add(b.a[0])
        if {w for w in table if first is None or w[0] == first} - no:
            raise Open('not compared with ' + ', '.join(sorted(set(table) - no)))
        return None

    def test(self, n, *args):
        """the answer of a test of the text"""
        for k, v in self.st.facts.items():
            k = deep(k)
            if k.t == 'disc':
                x = deep(k.a[0])
                if n in ('find', 'get') and x.t == 'app' and last_name(x) == n:
                    got = (self.slice(x.a[1]), self.what(x.a[2])) if n == 'find' else (self.slice(x),)
                    if got == args:
                        return bool(v[1].a[0] if isinstance(v[1], T) else v[1])
            if k.t == 'app' and last_name(k) == n and v[0] == '=':
                if n == 'every' and (self.slice(k.a[1]), set(self.text(k.a[2]))) == args or n in ('starts_with', 'contains') and (self.slice(k.a[1]), self.what(k.a[2])) == args:
                    return bool(v[1].a[0] if isinstance(v[1], T) else v[1])
        if n == 'starts_with' and args[0] in self.whole_ends():
            return False
        raise Open('not asked: %s of %s' % (n, said(args)))

    def never(self):
        """no text goes this way: something is found behind the end of the text"""
        for k, v in self.st.facts.items():
            k = deep(k)
            if k.t == 'app' and last_name(k) == 'starts_with' and v[0] == '=' and (v[1].a[0] if isinstance(v[1], T) else v[1]) and self.slice(k.a[1]) in self.whole_ends():
                return True
        try:
            two = self.of(1, {'`'}) and self.of(2, {'`'})
            return two == self.less_than(lin(1, scan(lin(1), '`')), lin(3))
        except Open:
            return False

    def whole_ends(self):
        return {('from', lin(0, s[1], scan(s[1], cs))) for s, cs in self.whole.items()}

    def less_than(self, a, b):
        for k, v in self.st.facts.items():
            k = deep(k)
            if k.t in ('lt', 'le') and v[0] == '=':
                yes = bool(v[1].a[0] if isinstance(v[1], T) else v[1])
                x, y = self.num(k.a[0]), self.num(k.a[1])
                if k.t == 'lt' and cancel(x, y) == cancel(a, b):
                    return yes
                if k.t == 'lt' and cancel(y, x) == cancel(a, lin(b[1] - 1, *b[2])):
                    return not yes
                if k.t == 'le' and cancel(y, x) == cancel(b, a):
                    return not yes
                if k.t == 'le' and cancel(x, y) == cancel(a, lin(b[1] - 1, *b[2])):
                    return yes
        raise Open('not compared: %s and %s' % (said(a), said(b)))


def cancel(a, b):
    l, r = list(a[2]), list(b[2])
    for x in list(l):
        if x in r:
            l.remove(x)
            r.remove(x)
    return (a[1] - b[1], tuple(l), tuple(r))


def some_of(cs):
    return ' '.join(repr(c)[1:-1] for c in sorted(cs)[:6])


def said(x):
    return repr(x).replace("'lin', ", '')


def tick_run(w):
    """are there three or more backticks?"""
    try:
        return w.of(1, {'`'}) and w.of(2, {'`'})
    except Open:
        return not w.less_than(lin(1, scan(lin(1), '`')), lin(3))


def expected(c, w):
    """the token that a text that starts with c is, and whether something is wrong"""
    if c == '#':
        i = lin(1, scan(lin(1), set(CHARS) - {'\n'}))
        j = lin(0, i, scan(i, SPACE))
        return 'Comment', i if w.breaks(('mid', i, j)) else j, 0
    if c in SPACE:
        n = lin(1, scan(lin(1), SPACE))
        return ('Newline' if w.breaks(('to', n)) else 'Whitespace'), n, 0
    if c in START:
        n = lin(1, scan(lin(1), CONT))
        return WORDS.get(w.word(('to', n), WORDS, c), 'Name'), n, 0
    if c in DIGIT:
        return 'Number', lin(1, scan(lin(1), DIGIT)), 0
    if c in '$@' and w.of(1, START):
        n = lin(1, scan(lin(1), CONT))
        if c == '$':
            return 'VarName', n, 0
        k = KEYWORDS.get(w.word(('mid', lin(1), n), KEYWORDS, None))
        return 'Keyword(%s)' % k if k else 'FuncName', n, 0
    if c == '&' and w.of(1, LETTER | {'#'}):
        n = lin(2, scan(lin(2), set(CHARS) - SPACE - {';'}))
        if w.test('starts_with', ('from', n), ';'):
            return 'Entity', lin(1, n), 0
        return 'Entity', n, 1
    if c == '\\':
        if 1 in w.cell and w.cell[1] is None or w.of(1, {'\n'}):
            return 'RawText', lin(1), 1
        for x, n in (('x', 4), ('u', 6), ('U', 10)):
            if w.of(1, {x}):
                if w.test('get', ('mid', lin(2), lin(n))) and w.test('every', ('mid', lin(2), lin(n)), HEX):
                    return 'Escape', lin(n), 0
                return 'RawText', lin(2), 1
        return 'Escape', lin(1, w.utf8(1)), 0
    if c == '`':
        o = lin(1, scan(lin(1), '`'))
        kind = 'Verbatim(%s)' % ('Multiline' if tick_run(w) else 'Simple')
        if not w.test('find', ('from', o), ('to', o)):
            return kind, lin(0, ('length of the text',)), 1
        close = lin(0, o, ('found', ('from', o), ('to', o)))
        after = lin(0, close, o)
        more = scan(after, '`')
        end = lin(0, after, more)
        if w.less_than(o, lin(0, o, more)):
            return kind, end, 1
        if not kind.startswith('Verbatim(M') and w.test('contains', ('mid', o, close), '\n'):
            return kind, end, 1
        return kind, end, 0
    if c == '<':
        if 1 in w.cell and w.cell[1] is None:
            return 'LAngle', lin(1), 0
        if w.of(1, {'!'}) and w.begins('<!--'):
            if w.test('find', ('from', lin(4)), '-->'):
                return 'Comment', lin(7, ('found', ('from', lin(4)), '-->')), 0
            return 'Comment', lin(0, ('length of the text',)), 0
        if w.of(1, {'/'}):
            if w.of(2, START):
                n = lin(3, scan(lin(3), CONT))
                if w.test('starts_with', ('from', n), '>'):
                    return 'CloseTag', lin(1, n), 0
                return 'RawText', n, 1
            if w.of(2, {'>'}):
                return 'CloseTag', lin(3), 0
            return 'RawText', lin(2), 1
        return 'LAngle', lin(1), 0
    if c == '-' and w.of(1, DIGIT):
        return 'Number', lin(2, scan(lin(2), DIGIT)), 0
    for l, k in LONGER.items():
        if l[0] == c and w.begins(l):
            return k, lin(len(l)), 0
    if c in '\'"':
        return 'Quote(%s, ?)' % ('Single' if c == "'" else 'Double'), lin(1), 0
    if c in ONE or c in SHORT:
        return ONE.get(c) or SHORT[c], lin(1), 0
    n = w.utf8(0)
    return 'RawText', lin(0, n, scan(n, RAW)), 0


def kind_text(P, t):
    t = deep(t)
    if t.t != 'adt':
        return show(t)
    v = vname(P, t)
    if t.a[0] == KIND and v == 'Quote':
        return 'Quote(%s, ?)' % kind_text(P, t.a[2][0])
    return v + ('(%s)' % ', '.join(kind_text(P, x) for x in t.a[2]) if t.a[2] else '')


def looks(C):
    """P31: a piece of text is the kind of token that it looks like"""
    C.rule('token', 'on every way through the reader of tokens, the kind and the length are those that the characters tested on this way decide')
    C.rule('wrong', 'what is wrong is said exactly where a token is malformed')
    C.rule('every', 'there is an answer for every first character')
    K = Cutter(C)
    C.floor('functions that cut a text into tokens', len(K.bodies), 1)
    for b in K.bodies:
        K.run(b)
    C.floor('functions that read a token', len(K.readers), 1)
    for b in C.lib():
        if b.id not in K.readers:
            continue
        cl = Lex(C, K.nat, K.V, extra={})
        I = ai.Interp(C.P, cl, 900000)
        cl.I, I.CAP = I, 100000
        args = [I.symarg(b, i + 1) for i in range(b.argc)]
        cl.SRC = deep(I.canon(ai.State(), args[0]))
        outs = I.run(b.id, args=args, st=ai.State(mon=()))
        C.floor('ways through the reader of tokens', len(outs), 60)
        C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
        seen = set()
        for st, r in outs:
            r = deep(I.canon(st, r))
            w = Way(C.P, cl.SRC, st, r)
            first = w.cell.get(0)
            if w.never():
                continue
            if not first:
                if first is None:
                    C.ob('token', b.name + ': no text', False, 'a token is read where there is no text', b.name)
                continue
            classes = {}
            for c in sorted(first):
                try:
                    e = expected(c, w)
                except Open as x:
                    e = ('open', str(x))
                classes.setdefault(e, []).append(c)
                seen.add(c)
            got = (kind_text(C.P, r.a[0][1]), w.num(r.a[0][0])) if r.t == 'tup' else (show(r), None)
            for e, cs in classes.items():
                name = '%s: %s' % (b.name, 'a text that starts with ' + (some_of(cs) if len(cs) < 4 else 'one of ' + some_of(cs)))
                rest = ', '.join('then %s' % ('nothing' if w.cell[k] is None else some_of(w.cell[k])) for k in sorted(w.cell) if k)
                if e[0] == 'open':
                    C.ob('token', name, False, 'taken as %s of length %s%s though %s' % (got[0], said(got[1]), rest and ' (%s)' % rest, e[1]), b.name)
                    continue
                C.ob('token', name + ': kind', got[0] == e[0], 'is a token %s and not %s%s' % (got[0], e[0], rest and ' (%s)' % rest), b.name)
                C.ob('token', name + ': length', got[1] == e[1], 'has the length %s and not %s%s' % (said(got[1]), said(e[1]), rest and ' (%s)' % rest), b.name)
                C.ob('wrong', name, bool(w.wrong) == bool(e[2]) and len(w.wrong) <= 1, ('something is wrong though it is not' if w.wrong else 'nothing is said to be wrong') + (rest and ' (%s)' % rest), b.name)
        C.ob('every', b.name + ': every character', seen >= set(CHARS), 'no token for ' + some_of(set(CHARS) - seen), b.name)


@prop('P30')
def p30(C):
    pieces(C)


@prop('P31')
def p31(C):
    looks(C)
