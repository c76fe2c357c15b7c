"""Parsing: every token is used once, in order; what is built has all that was read; parsing ends."""
import re
from rules import prop
from rulelib import *
import models
from rules.coerce import names_of, vname, walk, deep
from rules.natives import *
from rules.answers import poss
from rules.access import AST, sig, field_type
from rules.exprs import Ev, RANGE, NID, failures, opaque

TOKEN = 'parser::token::Token'
KIND = 'parser::token::TokenKind'
PARSER = 'parser::base::Parser'
REP = 'errors::sink::AlreadyReported'
TYPES = 'parser::types::Type'


def value_of(s):
    """the type of what is parsed, errors aside"""
    p = RES + '<'
    if s.startswith(p) and s.endswith(', ' + REP + '>'):
        return s[len(p):-len(', ' + REP + '>')], True
    return s, False


class Grammar:
    """the functions that parse"""
    def __init__(self, C):
        self.C = C
        P = C.P
        ad = P.adts.get(PARSER)
        T_ = P.types['papyri_lang']
        self.field = None
        if ad:
            for i, f in enumerate(ad['variants'][0]['fields']):
                if T_[f[1]]['s'] == VEC + '<' + TOKEN + '>':
                    self.field = ('f', i, f[0], PARSER, 'adt')
        self.units, self.lists, self.chars, self.skips, self.reports, self.sources, self.interns, self.numbers = {}, {}, {}, {}, {}, {}, {}, {}
        for b in C.lib():
            if b.parent or b.kind in ('closure', 'promoted') or not b.argc:
                continue
            s = sig(b)
            v, r = value_of(s[0])
            if s[1].startswith('&') and PARSER in s[1]:
                if s[0] == REP:
                    self.reports[b.id] = b
                elif v.startswith('(' + VEC + '<T>'):
                    self.lists[b.id] = b
                elif AST in v and not (v.startswith('(%sSpreadKind' % AST) and len(s) > 2) or TYPES in v or 'parser::matcher::' in v:
                    self.units[b.id] = b
                elif v == 'char':
                    self.chars[b.id] = b
                elif v == '()' and len(s) == 2:
                    self.skips[b.id] = b
                elif v == 'i64':
                    self.numbers[b.id] = b
            elif len(s) == 3 and RANGE in s[2] and s[0] == '&str' and 'SourceFile' in s[1]:
                self.sources[b.id] = b
            elif s[0] == NID and len(s) == 3 and s[1] == '&mut utils::string_pool::StringPool':
                self.interns[b.id] = b
        for i in self.pieces():
            del self.units[i]

    def pieces(self):
        """the functions that are only a piece of the one that they are called from"""
        from prog import norm
        names = {b.name: b for b in self.units.values()}
        sites, inside, held = {}, {}, set()
        for b in self.C.lib():
            for i, cal, args, dest, span in self.C.P.calls(b):
                n = norm(cal['def']) if 'def' in cal else None
                if n in names:
                    sites[n] = sites.get(n, 0) + 1
                    inside.setdefault(self.C.owner(b).id, set()).add(n)
                    if self.C.owner(b) is not b or self.C.owner(b).name == n or self.C.owner(b).id not in self.units:
                        held.add(n)
            held |= set(self.held(b, names))
        out = []
        for n, b in names.items():
            if sites.get(n) != 1 or n in held:
                continue
            v, _ = value_of(sig(b)[0])
            made = any(not (PARSER in t or t == TOKEN or '::' not in t or t.endswith('Kind')) or t.endswith('SpreadKind') for t in sig(b)[1:])
            part = any(w.startswith('(' + v + ', ') for w in (value_of(sig(names[m])[0])[0] for m in inside.get(b.id, ())))
            if made or part or v.startswith('(') and not v.startswith('(' + VEC):
                out.append(b.id)
        return out

    def held(self, b, names):
        """the functions that are handed over to others"""
        import json
        out = []
        for blk in b.blocks:
            t = blk['t']
            text = json.dumps([blk['s'], t[2:] if t[0] == 'call' else t])
            if '{impl#' not in text and 'parse' not in text:
                continue
            out += [n for n, x in names.items() if '"%s"' % x.id in text or '"%s"' % n in text]
        return out


class Pz(Ev):
    """the queue of tokens is a term; taking one, looking at it and handing it to another function are known"""
    def __init__(self, C, nat, V, G, unit):
        self.G, self.unit = G, unit
        ex = {}
        for b in list(G.units.values()) + list(G.lists.values()) + list(G.numbers.values()):
            ex[b.id] = self.sub
        for b in G.chars.values():
            ex[b.id] = self.char
        for b in G.skips.values():
            ex[b.id] = self.skip
        for b in G.reports.values():
            ex[b.id] = self.report
        for b in G.sources.values():
            ex[b.id] = lambda I, st, ctx, b, args: [(st, mk('app', 'source', deep(I.canon(st, args[1]))))]
        for b in G.interns.values():
            n = 'lowered' if 'lower' in b.name else 'interned'
            ex[b.id] = lambda I, st, ctx, b, args, n=n: [(st, mk('app', n, bare(deep(I.canon(st, args[1])))))]
        for b in C.lib():
            s = sig(b) if b.argc and not b.parent and b.kind not in ('closure', 'promoted') else None
            if s and s[0] == '()' and len(s) == 3 and s[1] == '&' + AST + 'MatchPattern' and s[2].startswith('&mut ') and NID in s[2]:
                ex[b.id] = self.names
            if s and s[0] == RANGE and len(s) == 2 and s[1].startswith('&' + AST):
                ex[b.id] = opaque('range', False, 0)
        ex.pop(unit.id, None)
        self.rounds, self.calls, self.heads = [], [], {}
        self.heads_of = []      # for each round: the start of the loop it is one of
        Ev.__init__(self, C, nat, V, extra=ex)

    def inline(self, I, b):
        if b.id in self.extra:
            return False
        if not b.parent and b.kind != 'promoted' and any(PARSER in x or TOKEN in x for x in sig(b)[1:]):
            return True
        return Ev.inline(self, I, b)

    # the queue
    def place(self, I, st, a):
        r, p = I.deref(a)
        return r, p + (self.G.field,)

    def queue(self, I, st, a):
        r, p = self.place(I, st, a)
        return I.rd(st, r, p)

    def is_queue(self, t):
        if t.t == 'app':
            return t.a[0] in ('queue', 'rest', 'after')
        return t.t in ('lv', 'jn') and isinstance(t.a[0], tuple) and t.a[0] and isinstance(t.a[0][-1], tuple) and t.a[0][-1][:2] == self.G.field[:2] and t.a[0][-1][3] == PARSER

    def call(self, I, st, ctx, name, args, cal):
        short = name.rsplit('::', 1)[-1]
        if short == 'encode_utf8' and args:
            return [(st, mk('app', 'encoded', deep(I.canon(st, args[0]))))]
        if args and short in ('pop', 'last', 'is_empty', 'len', 'pop_front', 'front', 'truncate', 'clear', 'push', 'extend', 'append', 'insert', 'remove', 'swap', 'reverse', 'drain') and args[0].t == 'ref':
            r, p = args[0].a[0], args[0].a[1]
            q = I.rd(st, r, p)
            if self.is_queue(q):
                if short == 'pop':
                    out = []
                    for s, more in I.split_bool(st, mk('app', 'more', q)):
                        if more:
                            I.wr(s, r, p, mk('app', 'rest', q))
                            self.note(s, ('took', mk('app', 'token', q)))
                            out.append((s, models.some(mk('app', 'token', q))))
                        else:
                            out.append((s, models.NONE))
                    return out
                if short == 'last':
                    return [(s, models.some(mk('ref', ('const', mk('app', 'token', q)), (), False)) if more else models.NONE) for s, more in I.split_bool(st, mk('app', 'more', q))]
                if short == 'is_empty':
                    return [(s, terms.I(1 - more)) for s, more in I.split_bool(st, mk('app', 'more', q))]
                if short != 'len':
                    self.note(st, ('tampered', short))
        return Ev.call(self, I, st, ctx, name, args, cal)

    def sub(self, I, st, ctx, b, args):
        v, r = value_of(sig(b)[0])
        q = self.queue(I, st, args[0])
        fs = [a for a in args[1:]]
        t = mk('app', v, *[a if a.t in ('clo', 'fn') else deep(I.canon(st, a)) for a in fs], q)
        self.calls.append((b, t, st.copy(), [a for a in fs if a.t in ('clo', 'fn')]))
        st = st.copy()
        r_, p_ = self.place(I, st, args[0])
        I.wr(st, r_, p_, mk('app', 'after', t))
        self.note(st, ('sub', t))
        if not r:
            return [(st, t)]
        s2 = st.copy()
        self.note(s2, ('report', mk('app', 'failure', t)))
        return [(st, ok(t)), (s2, err(mk('app', 'failure', t)))]

    def unknown(self, I, st, ctx, f, args):
        """what is given to this function as a parameter: a reader of one part, or a test of the next token"""
        if not args or f.t == 'fn':
            return None
        if len(args) > 1:
            return [(st, mk('app', 'closes', *[deep(I.canon(st, a)) for a in args[1:]]))]
        q = self.queue(I, st, args[0])
        if not self.is_queue(q):
            return None
        st = st.copy()
        t = mk('app', 'part', q)
        r_, p_ = self.place(I, st, args[0])
        I.wr(st, r_, p_, mk('app', 'after', t))
        self.note(st, ('sub', t))
        s2 = st.copy()
        self.note(s2, ('report', mk('app', 'failure', t)))
        return [(st, ok(t)), (s2, err(mk('app', 'failure', t)))]

    def char(self, I, st, ctx, b, args):
        return [(st, mk('app', 'char', deep(I.canon(st, args[1]))))]

    def skip(self, I, st, ctx, b, args):
        st = st.copy()
        r_, p_ = self.place(I, st, args[0])
        q = I.rd(st, r_, p_)
        if not (q.t == 'app' and q.a[0] == 'after' and q.a[1].a[0] == 'skip'):
            I.wr(st, r_, p_, mk('app', 'after', mk('app', 'skip', q)))
        return [(st, mk('tup'))]

    def names(self, I, st, ctx, b, args):
        st = st.copy()
        self.note(st, ('names of', deep(I.canon(st, args[0]))))
        return [(st, mk('tup'))]

    def report(self, I, st, ctx, b, args):
        st = st.copy()
        a = [deep(I.canon(st, x)) for x in args[1:]]
        self.note(st, ('report',) + tuple(a))
        return [(st, mk('app', 'report', *a))]

    def loop_enter(self, I, st, ctx):
        st.mon = st.mon + (('round', ctx.fid, ctx.bb),)

    def loop_back(self, I, st, ctx, head, key):
        self.rounds.append((ctx, head, st.copy()))
        self.__dict__.setdefault("heads_of", []).append(I.head_now)
        m = ('round', ctx.fid, ctx.bb)
        if m in st.mon:
            st.mon = st.mon[:len(st.mon) - st.mon[::-1].index(m)]

    def each(self, I, st, ctx, blocks=None):
        self.loop_back(I, st, ctx, None, None)


class PUnit:
    def __init__(self, C, nat, V, G, body):
        self.C, self.P, self.G, self.body = C, C.P, G, body
        self.cl = Pz(C, nat, V, G, body)
        self.I = I = ai.Interp(C.P, self.cl, 900000)
        I.CAP = 400
        self.cl.I = I
        self.args = [I.symarg(body, i + 1) for i in range(body.argc)]
        st = ai.State(mon=())
        for i, a in enumerate(sig(body)[1:]):
            if a.startswith('&') and PARSER in a:
                r, p = self.cl.place(I, st, self.args[i])
                I.wr(st, r, p, mk('app', 'queue'))
        self.outs = I.run(body.id, args=list(self.args), st=st)
        C.explored.append((body.name, len(self.outs), I.steps, len(I.visited)))
        R = Run.__new__(Run)
        R.C, R.P, R.name, R.nat, R.cl, R.I = C, C.P, body.name, nat, self.cl, I
        self.R = R
        self.res = []
        for st, r in self.outs:
            r = deep(I.canon(st, r))
            if r.t == 'adt' and r.a[0] == RES:
                self.res.append((st, r.a[1] == 0, r.a[2][0] if r.a[2] else None))
            else:
                self.res.append((st, None, r))
        self.subs = {}
        for b, t, st, _ in self.cl.calls:
            self.subs.setdefault(t, []).append((b, st))
        self.given = [deep(I.canon(ai.State(), x)) for x in self.args]
        self.value, self.fails = value_of(sig(body)[0])

    def token_args(self):
        return [x for x, t in zip(self.given, sig(self.body)[1:]) if t == TOKEN]

    def kind(self, tok):
        return mk('fld', tok, *KFIELD)

    def kinds(self, st, tok):
        """the kinds a token may have"""
        for k, v in st.facts.items():
            if k.t == 'disc':
                x = deep(k.a[0])
                if x.t == 'fld' and x.a[0] is tok and x.a[3] == 'kind':
                    return poss(self.R, st, x, KIND)
        k = self.exactly(st, tok)
        return {vname(self.P, k)} if k is not None else set(names_of(self.P, KIND))

    def exactly(self, st, tok):
        """the kind that the token is known to be equal to"""
        for k, v in st.facts.items():
            if k.t == 'eq' and v[0] == '=' and v[1] in (1, terms.I(1)):
                a, b = [deep(y) for y in k.a]
                if b.t == 'adt':
                    a, b = b, a
                if a.t == 'adt' and a.a[0] == KIND and b.t == 'fld' and b.a[0] is tok and b.a[3] == 'kind':
                    return a
        return None

    def keyword(self, st, tok):
        for k, v in st.facts.items():
            if k.t == 'disc' and k.a[1] == KEYWORD and tok in subterms(deep(k.a[0])):
                x = deep(k.a[0])
                while x.t in ('fld', 'as'):
                    x = x.a[0]
                if x is tok:
                    return poss(self.R, st, deep(k.a[0]), KEYWORD)
        k = self.exactly(st, tok)
        if k is not None and k.a[2] and k.a[2][0].t == 'adt' and k.a[2][0].a[0] == KEYWORD:
            return {vname(self.P, k.a[2][0])}
        return set(names_of(self.P, KEYWORD))


KEYWORD = 'parser::token::Keyword'
CONTENT = {'Name', 'FuncName', 'VarName', 'Number', 'Boolean', 'Verbatim', 'Escape', 'Entity', 'RawText'}
PREDICATES = ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'starts_with', 'ends_with', 'contains', 'is_empty', 'len', 'range', 'not', 'closes', 'more', 'queue', 'rest', 'after', 'eq_ignore_ascii_case', 'failure')


def is_sub(t):
    return t.t == 'app' and isinstance(t.a[0], str) and ('::' in t.a[0] or t.a[0] in ('part', 'i64')) and len(t.a) > 1 and isinstance(t.a[-1], T) and (t.a[-1].t in ('lv', 'jn') or t.a[-1].t == 'app' and t.a[-1].a[0] in ('queue', 'rest', 'after'))


class Carried:
    """what of the tokens and parsed parts is in some values, their positions aside"""
    def __init__(self, U):
        self.U, self.P = U, U.P
        self.whole, self.some, self.iters = set(), set(), set()
        self.seen, self.expand = set(), False

    def only_range(self, path, vi):
        """a node whose content is the text at its range"""
        a = self.P.adts.get(path)
        if not a or not path.startswith('parser::'):
            return False
        T_ = self.P.types['papyri_lang']
        fs = [T_[f[1]]['s'] for f in a['variants'][vi]['fields']]
        return bool(fs) and RANGE in fs and all(f in (RANGE, 'bool') for f in fs)

    def add(self, v):
        v = deep(v)
        if not isinstance(v, T) or v in self.seen:
            return
        self.seen.add(v)
        k, a = v.t, v.a
        if k == 'adt':
            only = self.only_range(a[0], a[1])
            T_ = self.P.types['papyri_lang']
            d = self.P.adts.get(a[0])
            for i, x in enumerate(a[2]):
                ty = None
                if d and i < len(d['variants'][a[1]]['fields']):
                    ty = T_[d['variants'][a[1]]['fields'][i][1]]['s'] if d.get('crate', 'papyri_lang') == 'papyri_lang' and a[0].startswith(('parser::', 'utils::')) else None
                if ty == RANGE:
                    if only:
                        self.text(x)
                    continue
                self.add(x)
        elif k in ('tup', 'arr'):
            for x in a[0]:
                self.add(x)
        elif k == 'app':
            if a[0] in PREDICATES:
                return
            if a[0] == 'token':
                self.whole.add(v)
            elif a[0] == 'source':
                self.text(a[1])
            elif is_sub(v):
                self.whole.add(v)
                for x in a[1:-1]:
                    self.add(x)
            elif a[0] == 'collect':
                self.add(a[1])
                for x in a[2:]:
                    self.add(x)
            else:
                for x in a[1:]:
                    for y in x if isinstance(x, tuple) else (x,):
                        if isinstance(y, T):
                            self.add(y)
        elif k == 'iter':
            b = a[0]
            if len(b) > 1 and isinstance(b[1], T):
                self.iters.add(deep(b[1]))
        elif k in ('fld', 'as', 'idx'):
            x = v
            while x.t in ('fld', 'as', 'idx', 'disc') and isinstance(x.a[0], T):
                if x.t == 'fld' and x.a[3] == 'range' and x.a[2] == TOKEN:
                    return
                x = x.a[0]
            self.whole.add(v)
            part = k == 'idx'
            x = a[0]
            while isinstance(x, T):
                self.some.add(x)
                part = part or x.t == 'idx'
                if x.t not in ('fld', 'as', 'idx', 'disc'):
                    if part and x.t == 'arg':
                        break
                    if x.t == 'app' and x.a[0] == 'token' or x.t == 'arg':
                        self.whole.add(x)
                    elif is_sub(x):
                        for y in x.a[1:-1]:
                            self.add(y)
                    else:
                        self.add(x)
                    break
                x = x.a[0]
        elif k == 'arg':
            self.whole.add(v)
        elif k == 'upd' and a[0].t == 'fld' and a[0].a[0].t == 'as' and isinstance(a[0].a[2], str) and a[0].a[2].startswith('parser::') and isinstance(a[1], tuple) and RANGE in a[1]:
            # the range of a text is made longer
            self.add(a[0])
            x = a[2]
            while x.t == 'fld' and x.a[3] != 'range':
                x = x.a[0]
            self.text(x)
        elif k in ('lv', 'jn'):
            if self.expand:
                for x in self.U.I.merged.get(v, ()):
                    self.add(x)
        elif k in ('clo', 'fn', 'i', 's', 'el', 'not', 'eq', 'lt', 'le', 'disc'):
            pass
        else:
            for x in a:
                for y in x if isinstance(x, tuple) else (x,):
                    if isinstance(y, T):
                        self.add(y)

    def text(self, r):
        """the text at a range that is a token's"""
        r = deep(r)
        if r.t == 'fld' and r.a[3] == 'range' and (r.a[0].t == 'arg' or r.a[0].t == 'app' and r.a[0].a[0] == 'token'):
            self.whole.add(r.a[0])
        elif r.t == 'app':
            for x in r.a[1:]:
                if isinstance(x, T):
                    self.text(x)
        elif r.t in ('fld', 'as', 'upd'):
            self.add(r)


def decided(st, t):
    """the way taken depends on this"""
    for k in st.facts:
        if k.t in ('disc', 'eq', 'app') and t in subterms(deep(k)):
            return True
    return False


def components(C, ty):
    """the parts of a type that are content: (kind, field, type)"""
    if ty.startswith('('):
        out, d, cur = [], 0, ''
        for ch in ty[1:-1]:
            if ch in '<([':
                d += 1
            elif ch in '>)]':
                d -= 1
            if ch == ',' and not d:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out
    return None


SMALL = ('bool', AST + 'SpreadKind', 'u32', 'usize')


def lost(C, U, st, cv, t, ty, depth=0):
    """the first part of a parsed thing that is not used, if any"""
    if ty in (RANGE, TOKEN, '()', 'bool', OPT + '<' + TOKEN + '>', OPT + '<' + RANGE + '>') and (depth == 0 or ty != 'bool' or t.a[1] is not None and t.a[2] is None) or t in cv.whole:
        return None
    if ty in SMALL or ty == NID:
        return None if t in cv.some or decided(st, t) else show(t)
    flds = {}
    for x in cv.whole | cv.some | cv.iters:
        if x.t == 'fld' and x.a[0] is t:
            flds[x.a[1]] = x
    cs = components(C, ty)
    if cs is not None:
        for i, c in enumerate(cs):
            if c.startswith(VEC + '<') and empty(st, t, i):
                continue
            f = flds.get(i) or find_field(U, st, t, i)
            if f is None:
                if c in (RANGE, TOKEN, '()', 'bool', OPT + '<' + TOKEN + '>', OPT + '<' + RANGE + '>'):
                    continue
                return '%s.%d' % (show(t), i)
            w = lost(C, U, st, cv, f, c, depth + 1)
            if w:
                return w
        return None
    a = C.P.adts.get(ty)
    if a and not a['enum'] and ty.startswith('parser::') and depth < 3:
        T_ = C.P.types['papyri_lang']
        for i, f in enumerate(a['variants'][0]['fields']):
            fy = T_[f[1]]['s']
            x = flds.get(i) or find_field(U, st, t, i)
            if x is None:
                if fy == RANGE:
                    continue
                return '%s.%s' % (show(t), f[0])
            w = lost(C, U, st, cv, x, fy, depth + 1)
            if w:
                return w
        return None
    if ty.startswith(VEC + '<') and (t in cv.iters or t in cv.some):
        return None
    if a and a['enum'] and ty.startswith('parser::') and t not in cv.some and t not in cv.iters:
        T_ = C.P.types['papyri_lang']
        vs = [v for v in a['variants'] if v['name'] in poss(U.R, st, t, ty)]
        if all(T_[f[1]]['s'] == RANGE for v in vs for f in v['fields']) and len(vs) == 1 and not cv.only_range(ty, a['variants'].index(vs[0])):
            return None
    return None if t in cv.some or t in cv.iters else show(t)


def empty(st, t, i):
    """the list in this part of what was read is known to have nothing in it"""
    for k, v in st.facts.items():
        if v[0] != '=' or v[1].t != 'i':
            continue
        k = deep(k)
        ln = lambda y: isinstance(y, T) and (y.t == 'len' or y.t == 'app' and y.a[0] == 'len')
        if (ln(k) and v[1].a[0] == 0 or k.t == 'eq' and v[1].a[0] == 1 and terms.I(0) in k.a and any(ln(x) for x in k.a)) and any(x.t == 'fld' and x.a[0] is t and x.a[1] == i for x in subterms(deep(k))):
            return True
    return False


def known_empty(st):
    for k, v in st.facts.items():
        k = deep(k)
        if v[0] == '=' and num(v[1]) == 0 and (k.t == 'len' and k.a[0].t in ('lv', 'jn') or k.t == 'app' and k.a[0] == 'len' and k.a[1].t in ('lv', 'jn')):
            yield k.a[0] if k.t == 'len' else k.a[1]


def find_field(U, st, t, i):
    """the term for a field, if the facts mention it"""
    for k in st.facts:
        for x in subterms(deep(k)):
            if x.t == 'fld' and x.a[0] is t and x.a[1] == i:
                return x
    return None


def marks(mon):
    return [i for i, e in enumerate(mon) if e[0] == 'round']


def units_of(C, nat, V, G):
    """the functions that parse, and the closures that read one item of a list"""
    us, work, seen = [], sorted(list(G.units.values()) + list(G.lists.values()), key=lambda b: b.name), set()
    while work:
        b = work.pop(0)
        if b.id in seen:
            continue
        seen.add(b.id)
        U = PUnit(C, nat, V, G, b)
        us.append(U)
        for cb, t, st, fs in U.cl.calls:
            for f in fs:
                fb = C.P.bodies.get(f.a[0])
                if fb is not None and any(x.startswith('&mut') and PARSER in x for x in sig(fb)[1:]) and fb.id not in G.units:
                    work.append(fb)
    return us


KEPT = ('push', 'insert', 'take', 'add_assign', 'push_str', 'extend', 'insert_full')


def reported(mon):
    return any(e[0] == 'report' for e in mon)


def item_type(C, U, x):
    """the type of the elements of a parsed list"""
    if x.t == 'arg':
        ty = sig(U.body)[1 + U.given.index(x)] if x in U.given else ''
    elif is_sub(x):
        ty = x.a[0]
    elif x.t == 'fld' and is_sub(x.a[0]):
        cs = components(C, x.a[0].a[0])
        ty = cs[x.a[1]] if cs else ''
        if ty == VEC + '<T>':
            f = [y for y in x.a[0].a[1:-1] if y.t in ('fn', 'clo')]
            b = C.P.bodies.get(f[0].a[0]) if f else None
            return value_of(sig(b)[0])[0] if b is not None else None
    else:
        return None
    return ty[len(VEC) + 1:-1] if ty.startswith(VEC + '<') else None


def unused(C, U, st, ev, cv, ret):
    """what was read in these events and is nowhere in the values"""
    out = []
    for e in ev:
        if e[0] == 'took':
            ks = U.kinds(st, e[1])
            if ks & CONTENT and len(ks) < len(names_of(C.P, KIND)) - 8 and e[1] not in cv.whole and not decided(st, mk('app', 'source', range_of(e[1]))):
                out.append('a token (%s)' % ', '.join(sorted(ks & CONTENT)))
        elif e[0] == 'sub':
            w = lost(C, U, st, cv, e[1], e[1].a[0])
            if w:
                out.append('what was read as %s: %s' % (e[1].a[0].replace('parser::', ''), w[:120]))
    return out


def range_of(t):
    return mk('fld', t, *RFIELD)


RFIELD = None


def complete(C, us):
    """everything read is in what is made of it"""
    global RFIELD
    d = C.P.adts[TOKEN]['variants'][0]['fields']
    i = [f[0] for f in d].index('range')
    RFIELD = (i, TOKEN, 'range')
    n = m = 0
    for U in us:
        name = U.body.name
        C.lastI = U.I
        for st, good, x in U.res:
            if good is False or reported(st.mon):
                continue
            ms = marks(st.mon)
            k = ms[-1] if ms else 0
            cv = Carried(U)
            cv.expand = True
            cv.add(x)
            for s in known_empty(st):
                cv.add(s)
            w = unused(C, U, st, st.mon[:k], cv, x)
            c2 = cv
            if ms:
                c2 = Carried(U)
                c2.add(x)
            w += unused(C, U, st, st.mon[k:], c2, x)
            for t in U.token_args():
                ks = U.kinds(st, t)
                if ks & CONTENT and len(ks) < 15 and t not in cv.whole:
                    w.append('the first token (%s)' % ', '.join(sorted(ks & CONTENT)))
            n += 1
            C.ob('lost', short_name(name), not w, 'read without an error, but not in what is made: ' + '; '.join(w), name)
        # lists gone through
        over = {}
        for e, its in U.I.iters.items():
            for base, ops in its:
                if len(base) > 1 and isinstance(base[1], T):
                    x = deep(base[1])
                    if item_type(C, U, x):
                        over.setdefault(x, set()).add(e)
        needed = {}
        for x, els in over.items():
            kept = True
            for st, good, v in U.res:
                if good is False or reported(st.mon):
                    continue
                cv = Carried(U)
                cv.expand = True
                cv.add(v)
                if x not in cv.whole:
                    kept = False
            if not kept:
                needed[x] = els
                for e in els:
                    bad = U.R.in_order(e, x, tuple(o for o in CUT if o != 'filter_map'))
                    C.ob('lost', short_name(name) + ' list', bad is None, 'not all parts of a list read are used: %s' % bad, name)
        there = {}
        for ctx, head, st in U.cl.rounds if needed else ():
            ys = subterms_of(st)
            for els in needed.values():
                for e in els:
                    if e in ys:
                        there.setdefault(e, set()).add((ctx.fid, ctx.bb))
        for ctx, head, st in U.cl.rounds:
            mk_ = ('round', ctx.fid, ctx.bb)
            k = len(st.mon) - 1 - st.mon[::-1].index(mk_) if mk_ in st.mon else 0
            ev = st.mon[k:]
            if reported(ev):
                continue
            cv = Carried(U)
            for root, v in st.mem.items():
                v = U.I.canon(st, v)
                if isinstance(root[0], T) and isinstance(root[1], int) and not (v.t == 'app' and v.a[0] in ('char', 'token')):
                    cv.add(v)
            if head is None:
                for e in ev:
                    if e[0] == 'take':
                        for y in e[1:]:
                            for z in y if isinstance(y, tuple) else (y,):
                                if isinstance(z, T):
                                    cv.add(z)
            w = unused(C, U, st, [e for e in ev], cv, None)
            for x, els in needed.items():
                for e in els:
                    if e.a[0] is not ctx.fid or e in there and (ctx.fid, ctx.bb) not in there[e]:
                        continue
                    y = lost(C, U, st, cv, mk('idx', x, e), item_type(C, U, x))
                    if y:
                        w.append('a part of a list: ' + y[:120])
            m += 1
            C.ob('lost', short_name(name), not w, 'read without an error, but not in what is made: ' + '; '.join(w), name)
    C.floor('paths on which something is read', n, 200)
    C.floor('rounds of loops that read', m, 100)


def short_name(n):
    return n.rsplit('::', 1)[-1] if '{closure' not in n else n.split('::')[-2] + ' item'


def held(C, us):
    """what rounds of a loop gather is in the result; nothing but white space is taken out again"""
    n = 0
    for U in us:
        name = U.body.name
        M = U.I.merged
        inside = {}

        def content(v):
            c = inside.get(v)
            if c is None:
                cv = Carried(U)
                cv.add(v)
                c = inside[v] = {x for x in cv.whole | cv.some | cv.iters if x.t not in ('lv', 'jn')}
            return c
        items = {}
        for ctx, head, st in U.cl.rounds:
            m = ('round', ctx.fid, ctx.bb)
            k = len(st.mon) - 1 - st.mon[::-1].index(m) if m in st.mon else 0
            ev = st.mon[k:]
            if reported(ev):
                continue
            for e in ev:
                if e[0] == 'sub' or e[0] == 'took' and U.kinds(st, e[1]) & CONTENT and len(U.kinds(st, e[1])) < 15:
                    items.setdefault(e[1], set()).add(m)
            for y in subterms_of(st):
                if y.t == 'idx' and isinstance(y.a[1], T) and y.a[1].t == 'el' and item_type(C, U, y.a[0]):
                    items.setdefault(y, set()).add(m)
        where = {}
        for s, vs in M.items():
            if U.cl.is_queue(s):
                continue
            for v in vs:
                for x in content(v):
                    y = x
                    kept = None
                    while isinstance(y, T):
                        if y.t == 'as' and y.a[0] in items:
                            kept = y
                            items.setdefault(y, set()).update(items[y.a[0]])
                        if y in items and (kept is None or kept is y):
                            where.setdefault(y, set()).add(s)
                        y = y.a[0] if y.t in ('fld', 'as', 'idx', 'disc') else None
        res = [(st, x) for st, good, x in U.res if good is not False and not reported(st.mon)]
        for st, x in res:
            cv = Carried(U)
            cv.expand = True
            cv.add(x)
            for it, accs in where.items():
                if not items[it] & set(st.mon):
                    continue
                y = it
                while y.t in ('fld', 'as', 'idx'):
                    y = y.a[0]
                if it.t in ('idx', 'as') and is_sub(y) and ('sub', y) not in st.mon:
                    continue
                n += 1
                good = bool(accs & cv.seen) or all(nothing(st, a) for a in accs) or it in cv.whole or it.t in ('idx', 'as') and base_of(it) in cv.whole
                C.ob('held', short_name(name), good, 'a path returns without what a loop has gathered: %s' % show(it)[:80], name)
            for s in {a for accs in where.values() for a in accs} & cv.seen:
                r = place_of(s)
                for ctx, head, rst in U.cl.rounds:
                    m = ('round', ctx.fid, ctx.bb)
                    k = len(rst.mon) - 1 - rst.mon[::-1].index(m) if m in rst.mon else 0
                    if r is None or r not in rst.mem or (ctx.fid, ctx.bb) != s.a[0][1:3] or reported(rst.mon[k:]) or not has_symbol(rst, ctx, U):
                        continue
                    v = deep(U.I.canon(rst, rst.mem[r]))
                    if v.t in ('lv', 'jn'):
                        continue
                    n += 1
                    C.ob('held', short_name(name), all_of(v, s) or nothing(rst, s), 'a round loses what was gathered before it: %s' % show(v)[:80], name)
            for ctx, head, rst in U.cl.rounds:
                for root, v in rst.mem.items():
                    v = deep(v)
                    if v.t == 'app' and v.a[0] == 'popped' and v.a[1] in cv.seen:
                        C.ob('held', short_name(name), white(C, U, rst, v.a[1]), 'something other than white space is taken out again', name)
                        n += 1
    C.floor('results of loops', n, 15)


def base_of(it):
    while it.t == 'as':
        it = it.a[0]
    return it.a[0] if it.t == 'idx' else it


def all_of(v, s):
    """all of this is in the value"""
    if v is s:
        return True
    if not isinstance(v, T) or v.t in ('fld', 'as', 'idx', 'disc', 'eq', 'not', 'clo', 'fn'):
        return False
    todo = list(v.a[2]) if v.t == 'adt' else [y for x in v.a for y in (x if isinstance(x, tuple) else (x,))]
    return any(all_of(y, s) for y in todo if isinstance(y, T))


def subterms_of(st):
    out = set()
    for v in st.mem.values():
        out |= set(subterms(deep(v)))
    for e in st.mon:
        for y in e[1:]:
            if isinstance(y, T):
                out |= set(subterms(deep(y)))
    return out


def nothing(st, a):
    """this list or option is known to be empty"""
    for k, v in st.facts.items():
        k = deep(k)
        if v[0] != '=' or not isinstance(v[1], T) and not isinstance(v[1], int):
            continue
        w = v[1].a[0] if isinstance(v[1], T) and v[1].t == 'i' else v[1]
        if k.t == 'disc' and k.a[0] is a and w == 0 and k.a[1] == OPT:
            return True
        if k.t in ('len',) and k.a[0] is a and w == 0 or k.t == 'app' and k.a[0] in ('len', 'is_empty') and len(k.a) == 2 and k.a[1] is a and w == (k.a[0] == 'is_empty'):
            return True
        if k.t == 'eq' and w == 1 and terms.I(0) in k.a and any(isinstance(y, T) and (y.t == 'len' and y.a[0] is a or y.t == 'app' and y.a[0] == 'len' and y.a[1] is a) for y in k.a):
            return True
    return False


BLANK = {AST + 'AST': {'Whitespace', 'ParagraphBreak', 'Char'}, AST + 'TemplatePart': {'Whitespace'}}


def white(C, U, st, a):
    """the last of the list is known to be white space"""
    for k, v in st.facts.items():
        k = deep(k)
        if k.t == 'disc' and k.a[0].t == 'idx' and k.a[0].a[0] is a and k.a[1] in BLANK:
            vs = poss(U.R, st, k.a[0], k.a[1])
            if not vs <= BLANK[k.a[1]]:
                return False
            if 'Char' in vs:
                return any(f.t == 'app' and str(f.a[0]).endswith('is_ascii_whitespace') and k.a[0] in subterms(deep(f)) and w[0] == '=' and (w[1].a[0] if isinstance(w[1], T) else w[1]) == 1 for f, w in st.facts.items())
            return True
    return False


# the first token and what is made

EXPR = {'Dot': 'Unit', 'Boolean': 'Bool', 'Name': 'BareString', 'Number': 'Int', 'Verbatim': 'Verbatim', 'VarName': 'Name', 'FuncName': 'FuncCall',
        '@Fn': 'FuncDef', '@Implicit': 'LetIn', '@Let': 'LetIn', '@Match': 'Match', 'LBrace': 'Group Unit', 'LSqb': 'List', 'LAngle': 'Tag', 'Quote': 'Template', 'Ellipsis': 'Group Unit'}
NODE = dict({k: 'Text' for k in ('Name', 'Number', 'Boolean', 'LPar', 'RPar', 'RAngle', 'Ampersand', 'Arrow', 'Asterisk', 'Colon', 'Comma', 'Dot', 'DoubleAsterisk', 'DoubleColon', 'Equals', 'ExclamationMark',
                                 'QuestionMark', 'QuestionMarkDoubleColon', 'Underscore', 'RawText', 'Ellipsis', 'Quote', 'Bar')},
            **{'@Export': 'Export', '@Fn': 'FuncDef', '@Implicit': 'Expr', '@Let': 'Expr', '@Match': 'Expr', 'Verbatim': 'CodeFence', 'FuncName': 'Expr', 'VarName': 'Expr', 'LBrace': 'Expr', 'LSqb': 'Expr',
               'LAngle': 'Expr Text', 'Whitespace': 'Whitespace', 'Newline': 'ParagraphBreak', 'Escape': 'Char', 'Entity': 'Char'})
PATTERN = {'Underscore': 'Ignore Typed TypeOf', 'VarName': 'VarName And', 'Dot': 'LiteralNone', 'Boolean': 'EqualsValue', 'Number': 'EqualsValue', 'Verbatim': 'EqualsValue', 'Equals': 'EqualsValue',
           'LAngle': 'Tag', 'LSqb': 'ExactList SpreadList', 'LPar': 'Dict', 'LBrace': 'LiteralNone ExactHTMLSeq SpreadHTMLSeq', 'Quote': 'EqualsValue Regex'}
FAMILY = {AST + 'Expr': EXPR, AST + 'AST': NODE, AST + 'MatchPattern': PATTERN}
WRAPS = {AST + 'AST': 'Expr'}


def all_kinds(C):
    out = set()
    for k in names_of(C.P, KIND):
        if k == 'Keyword':
            out |= {'@' + w for w in names_of(C.P, KEYWORD)}
        else:
            out.add(k)
    return out


def kinds_of(U, st, tok):
    out = set()
    for k in U.kinds(st, tok):
        if k == 'Keyword':
            out |= {'@' + w for w in U.keyword(st, tok)}
        else:
            out.add(k)
    return out


class Made:
    """from the kind of the first token, the nodes that may be made"""
    def __init__(self, C, us):
        self.C, self.P = C, C.P
        self.by = {U.body.id: U for U in us}
        self.memo, self.busy = {}, set()

    def first(self, U, st):
        a = U.token_args()
        if a:
            return a[0]
        for e in st.mon:
            if e[0] == 'took':
                return e[1]
            if e[0] == 'sub':
                return None
        return None

    def pairs(self, b, K, args=(), later=False):
        """(kind, node) for a first token of these kinds"""
        key = (b, frozenset(K), tuple(args), later)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or b not in self.by:
            return set()
        self.busy.add(key)
        U, out = self.by[b], set()
        for st, good, x in U.res:
            if good is False or x is None:
                continue
            if any(a.t == 'adt' and g.t == 'arg' and a.a[0] in FAMILY and vname(self.P, a) not in poss(U.R, st, g, a.a[0]) for a, g in zip(args, U.given[1:])):
                continue
            t = self.first(U, st)
            k = kinds_of(U, st, t) & K if t is not None else K
            if later:
                k = K
            if k:
                out |= self.node(U, st, x, k, args, later or t is not None)
        self.busy.discard(key)
        self.memo[key] = out
        return out

    def node(self, U, st, x, K, args=(), begun=True):
        if x.t == 'adt' and x.a[0] in FAMILY:
            v = vname(self.P, x)
            return {(k, v) for k in K}
        if is_sub(x) and x.a[0] in FAMILY and x in U.subs:
            out, done = set(), set()
            for b, cst in U.subs[x]:
                toks = [a for a, ty in zip(x.a[1:-1], sig(b)[2:]) if ty == TOKEN]
                k = frozenset(kinds_of(U, cst, toks[0]) & K if toks else K)
                if k and (b.id, k) not in done:
                    done.add((b.id, k))
                    out |= self.pairs(b.id, k, x.a[1:-1], begun and not toks)
            return out
        if x.t == 'arg' and x in U.given:
            i = U.given.index(x) - 1
            if i < len(args):
                return self.node(U, st, args[i], K, (), begun)
        if x.t in ('lv', 'jn'):
            out = set()
            for y in U.I.merged.get(x, ()):
                if y.t not in ('lv', 'jn'):
                    out |= self.node(U, st, deep(y), K, args, begun)
            return out
        return {(k, '?') for k in K}


def kind_rule(C, us):
    """the first token decides what kind of node is made"""
    M = Made(C, us)
    n = 0
    seen = set()
    for U in us:
        name = U.body.name
        # parts given a token
        for b, t, st, _ in U.cl.calls:
            if t.a[0] not in FAMILY or b.id not in M.by:
                continue
            toks = [a for a, ty in zip(t.a[1:-1], sig(b)[2:]) if ty == TOKEN]
            if not toks:
                continue
            K = kinds_of(U, st, toks[0])
            key = (b.id, frozenset(K))
            if key in seen:
                continue
            seen.add(key)
            if toks[0].t != 'app':
                continue
            n += judge(C, M, M.pairs(b.id, K, t.a[1:-1]), K, t.a[0], b.name)
        # parts that take their first token themselves
        if U.value in FAMILY and not U.token_args() and U.value not in sig(U.body)[1:]:
            for st, good, x in U.res:
                if good is False or x is None:
                    continue
                t = M.first(U, st)
                if t is None:
                    continue
                K = kinds_of(U, st, t)
                if x.t == 'adt' and x.a[0] == U.value and vname(C.P, x) in ('Or', 'And') and U.value.endswith('MatchPattern') and len(K) > 20:
                    continue
                n += judge(C, M, M.node(U, st, x, K), K, U.value, name)
    # a sign that begins a tag where a name follows
    begins = {'Name', 'VarName', 'ExclamationMark'}
    tags = 0
    for U in us:
        a = U.token_args()
        if not a or U.value not in (AST + 'AST', AST + 'Expr'):
            continue
        nxt = mk('app', 'token', mk('app', 'queue'))
        made = {vname(C.P, x) for st, good, x in U.res if good is not False and x is not None and x.t == 'adt' and kinds_of(U, st, a[0]) == {'LAngle'}}
        if U.value == AST + 'AST' and not 'Expr' in made:
            continue
        for st, good, x in U.res:
            if good is False or x is None or kinds_of(U, st, a[0]) != {'LAngle'}:
                continue
            more = st.facts.get(mk('app', 'more', mk('app', 'queue')))
            there = more is not None and more[0] == '=' and more[1] in (1, terms.I(1))
            absent = more is not None and not there
            ks = set() if absent else kinds_of(U, st, nxt)
            tags += 1
            if x.t == 'adt' and vname(C.P, x) in ('Expr', 'Tag'):
                C.ob('kind', 'tags', there and ks <= begins, 'a tag where no name follows', U.body.name)
            elif U.value == AST + 'AST':
                C.ob('kind', 'tags', not ks & begins, 'text where a name follows: %s' % sorted(ks & begins)[:3], U.body.name)
    C.floor('ways to read <', tags, 2)
    # every kind that starts a node can be read
    for ty, table in FAMILY.items():
        got = set()
        for U in us:
            if U.value == ty:
                got |= M.pairs(U.body.id, all_kinds(C))
        for k in table:
            for v in table[k].split():
                if (k, v) in (('LAngle', 'Text'),):
                    continue
                C.ob('kind', '%s: %s' % (ty.rsplit('::', 1)[-1], k), (k, v) in got, 'nothing makes a node %s from a token %s' % (v, k), '')
                n += 1
    C.floor('kinds of tokens and what is made of them', n, 150)


def judge(C, M, ps, K, ty, name):
    n = 0
    table = FAMILY[ty]
    for k, v in sorted(ps):
        if v == '?' or v in ('Or',):
            continue
        n += 1
        C.ob('kind', '%s: %s' % (ty.rsplit('::', 1)[-1], k), v in table.get(k, '').split(), 'a token %s makes a node %s' % (k, v), name)
    return n


# what is said about a node besides its parts

TOOK = 'took'


def fld_i(C, path, name, v=0):
    fs = [f[0] for f in C.P.adts[path]['variants'][v]['fields']]
    return fs.index(name) if name in fs else None


def states(U):
    """(state, value, events) of the ways out and of the rounds of loops on which nothing is wrong"""
    for st, good, x in U.res:
        if good is not False and not reported(st.mon):
            yield st, x, st.mon, True
    for ctx, head, st in U.cl.rounds:
        m = ('round', ctx.fid, ctx.bb)
        k = len(st.mon) - 1 - st.mon[::-1].index(m) if m in st.mon else 0
        if not reported(st.mon[k:]):
            vs = [v for root, v in st.mem.items() if isinstance(root[0], T) and isinstance(root[1], int)]
            yield st, mk('tup', tuple(deep(U.I.canon(st, v)) for v in vs)), st.mon[k:], False


def taken(U, st, ev):
    """kinds certainly, and kinds possibly, among the tokens taken"""
    sure, maybe = set(), set()
    for e in ev:
        if e[0] == TOOK:
            ks = kinds_of(U, st, e[1])
            maybe |= ks
            if len(ks) == 1:
                sure |= ks
    return sure, maybe


def nodes_in(C, x, path):
    return [y for y in subterms(x) if y.t == 'adt' and y.a[0] == path]


def says(U, st, t, kind):
    """a test of one token's kind: whether it is this kind; None: no such test"""
    if t.t != 'eq':
        return None
    a, b = [deep(y) for y in t.a]
    if b.t in ('adt', 'i'):
        a, b = b, a
    if a.t == 'adt' and a.a[0] == KIND and b.t == 'fld' and b.a[3] == 'kind' and b.a[2] == TOKEN:
        n = vname(U.P, a)
        if n == 'Keyword' and a.a[2] and a.a[2][0].t == 'adt':
            n = '@' + vname(U.P, a.a[2][0])
        return n == kind, b.a[0]
    if a.t == 'i' and b.t == 'disc' and b.a[1] == KIND:
        return names_of(U.P, KIND)[a.a[0]] == kind, b.a[0].a[0]
    return None


FLAGS = [  # node, part, what it means when it is so
    ('Param', 'question_mark', 'QuestionMark'),
    ('Param', 'is_implicit', '@Implicit'),
    ('TagAttribute', 'question_mark', 'QuestionMark'),
    ('AttrName', 'is_coalescing', 'QuestionMarkDoubleColon'),
    ('IndexName', 'is_coalescing', 'QuestionMarkDoubleColon'),
    ('LetIn', 'is_implicit', '@Implicit'),
]
GIVEN = [  # node, part that is there if and only if there is this token
    ('Param', 'default_value', 'Equals'),
    ('TagAttribute', 'value', 'Equals'),
]
SPREADS = [('SpreadKind', 'Positional', {'Asterisk'}), ('SpreadKind', 'Named', {'DoubleAsterisk'}), ('TagAttrOrSpread', 'Spread', {'DoubleAsterisk'})]


def flag_rule(C, us):
    """marks in the text are marks of the nodes"""
    n = {}

    def ob(what, good, msg, U):
        n.setdefault(what, set()).add(msg)
        C.ob('flag', what, good, msg, U.body.name)
    for U in us:
        for st, x, ev, out in states(U):
            if x is None:
                continue
            sure, maybe = taken(U, st, ev)
            for node, part, kind in FLAGS:
                i = fld_i(C, AST + node, part)
                for y in nodes_in(C, x, AST + node):
                    if i is None or i >= len(y.a[2]):
                        continue
                    t = deep(y.a[2][i])
                    what = '%s.%s' % (node, part)
                    if t.t == 'i':
                        mine, poss_ = sure, maybe
                        for a in U.token_args():
                            ks = kinds_of(U, st, a)
                            poss_ = poss_ | ks
                            if len(ks) == 1:
                                mine = mine | ks
                        if t.a[0]:
                            ob(what, kind in mine, 'said to be so where no %s was read' % kind, U)
                        else:
                            ob(what, kind not in poss_ or kind not in mine and len(poss_) > 20, 'said not to be so where %s was read' % kind, U)
                    else:
                        w = says(U, st, t, kind)
                        if w is not None:
                            ob(what, w[0], 'depends on another kind of token than %s' % kind, U)
                        elif (t.t == 'app' and t.a[0] == 'not' or t.t == 'not') and any(z.t == 'fld' and z.a[2] == TOKEN for z in subterms(t)):
                            ob(what, False, 'it is the opposite of something: %s' % show(t)[:80], U)
            for node, part, kind in GIVEN:
                i = fld_i(C, AST + node, part)
                for y in nodes_in(C, x, AST + node):
                    t = deep(y.a[2][i])
                    if t.t == 'adt' and t.a[0] == OPT:
                        ob('%s.%s' % (node, part), (vname_opt(t) == 1) == (kind in sure), 'there without its sign, or not there with it', U)
            for node, variant, kinds in SPREADS if out else ():
                for y in nodes_in(C, x, AST + node):
                    v = vname(C.P, y)
                    if v == variant:
                        ob('%s::%s' % (node, variant), bool(kinds & sure), 'a spread (%s) where no such sign was read' % variant, U)
                    else:
                        ob('%s::%s' % (node, variant), not kinds & sure, 'the sign of a spread (%s) makes %s' % (variant, v), U)
            # other types of the parser that tell a spread from one thing
            if U.value.startswith('parser::matcher::') and x.t == 'adt' and x.a[0] == U.value:
                v = vname(C.P, x)
                w = {'Asterisk', 'DoubleAsterisk', 'Ellipsis'} & sure
                if v in ('One', 'Spread'):
                    ob(U.value.rsplit('::', 1)[-1], (v == 'Spread') == bool(w), 'the sign of a spread makes %s' % v if w else 'a spread where no sign of one was read', U)
            # types
            i = fld_i(C, AST + 'Param', 'type_annotation')
            for y in nodes_in(C, x, AST + 'Param'):
                t = deep(y.a[2][i])
                if t.t == 'adt' and 'Colon' not in maybe:
                    ob('Param.type_annotation', vname(C.P, t) == 'Any', 'without a type written, the type is %s' % vname(C.P, t), U)
            # names of arguments
            i, j = fld_i(C, AST + 'Arg', 'name_id'), fld_i(C, AST + 'Arg', 'spread_kind')
            for y in nodes_in(C, x, AST + 'Arg'):
                t = deep(y.a[2][i])
                if 'Equals' in sure:
                    ob('Arg.name_id', t.t == 'app' and t.a[0] == 'interned', 'an argument with a name is without it', U)
                else:
                    ob('Arg.name_id', t.t == 'adt', 'an argument with no name has one', U)
            # items of lists
            if x.t == 'tup' and U.value == '(%sExpr, bool)' % AST:
                t = deep(x.a[0][1])
                k = spread_test(C, U, st, t)
                if k is not None:
                    ob('items of lists', k, 'an item is a spread when %s' % show(t)[:80], U)
            # code
            for y in nodes_in(C, x, AST + 'AST'):
                if vname(C.P, y) == 'CodeFence' and len(y.a[2]) > 1:
                    t = deep(y.a[2][1])
                    want = names_of(C.P, 'parser::token::VerbatimKind').index('Multiline')
                    if t.t == 'eq' and any(z.t == 'disc' and z.a[1] == 'parser::token::VerbatimKind' for z in t.a):
                        ob('CodeFence', terms.I(want) in t.a, 'the wrong kind of code is a block', U)
                    elif t.t == 'i':
                        vk = [v for k, v in st.facts.items() if deep(k).t == 'disc' and deep(k).a[1] == 'parser::token::VerbatimKind']
                        ob('CodeFence', bool(vk) and ((vk[0][0] == '=' and vk[0][1] == want or vk[0][0] == '!' and want not in vk[0][1]) == bool(t.a[0])), 'the wrong kind of code is a block', U)
                    else:
                        ob('CodeFence', False, 'the wrong kind of code is a block', U)
            # truth values
            for y in nodes_in(C, x, AST + 'Expr'):
                if vname(C.P, y) == 'Bool':
                    t = deep(y.a[2][0])
                    if t.t == 'i':
                        v = [w for k, w in st.facts.items() if payload(C, deep(k), 'Boolean')]
                        ob('Bool', bool(v) and v[0][0] == '=' and num(v[0][1]) == t.a[0], 'the value is not that of the token', U)
                    else:
                        ob('Bool', payload(C, t, 'Boolean'), 'the value is %s' % show(t)[:80], U)
    for node, part, _ in FLAGS:
        C.floor('%s.%s told from the tokens' % (node, part), len(n.get('%s.%s' % (node, part), ())), 1)
    for k in ('Bool', 'SpreadKind::Positional', 'SpreadKind::Named', 'TagAttrOrSpread::Spread', 'Arg.name_id', 'CodeFence', 'items of lists', 'Param.default_value', 'TagAttribute.value', 'Param.type_annotation'):
        C.floor(k + ' told from the tokens', len(n.get(k, ())), 1)


def payload(C, t, kind):
    """what a token of this kind has in it"""
    return t.t == 'fld' and t.a[0].t == 'as' and t.a[0].a[0].t == 'fld' and t.a[0].a[0].a[3] == 'kind' and t.a[0].a[0].a[2] == TOKEN and kind in [z for z in t.a[0].a[1:] if isinstance(z, str)] + [names_of(C.P, KIND)[z] for z in t.a[0].a[1:] if isinstance(z, int)]


def num(v):
    return v.a[0] if isinstance(v, T) else v


def vname_opt(t):
    return t.a[1]


def spread_test(C, U, st, t):
    """true: it says that the argument read is a positional spread; None: not known"""
    path = AST + 'SpreadKind'
    pos = names_of(C.P, path).index('Positional')
    if t.t == 'eq':
        ds = [z for z in t.a if isinstance(z, T) and z.t == 'disc' and z.a[1] == path]
        ks = [z for z in t.a if isinstance(z, T) and z.t == 'i']
        if ds and ks:
            return ks[0].a[0] == pos
        return None
    if t.t == 'i':
        for k, v in st.facts.items():
            k = deep(k)
            if k.t == 'disc' and k.a[1] == path:
                p = poss(U.R, st, k.a[0], path)
                return (p == {'Positional'}) if t.a[0] else 'Positional' not in p
        return None
    return False if t.t in ('not', 'app') and (t.t == 'not' or t.a[0] == 'not') else None


def place_of(s):
    """the place in memory that a symbol of a loop stands for"""
    k = s.a[0]
    if s.t != 'lv' or len(k) != 4:
        return None
    return k[3]


def count_rule(C, us):
    """a signature counts the parameters that were read"""
    path = AST + 'Signature'
    names = ('positional_count', 'positional_spread', 'named_count', 'named_spread')
    n = m = 0
    for U in us:
        if U.value != path:
            continue
        C.lastI = U.I
        syms = {}
        for st, good, x in U.res:
            if good is False or x is None:
                continue
            for y in nodes_in(C, x, path):
                f = {a: deep(y.a[2][fld_i(C, path, a)]) for a in names + ('has_content',)}
                for a in names:
                    if f[a].t == 'lv':
                        syms.setdefault(a, set()).add(f[a])
                    else:
                        C.ob('counts', a, f[a] is terms.I(0), 'without parameters in parentheses it is %s' % show(f[a])[:60], U.body.name)
                hc = f['has_content']
                if reported(st.mon):
                    continue
                got = any(e[0] == 'sub' and e[1].a[0].startswith('(%sParam,' % AST) for e in st.mon)
                n += 1
                if hc.t == 'i':
                    C.ob('counts', 'has_content', bool(hc.a[0]) == got, 'said to be %s' % bool(hc.a[0]), U.body.name)
                if got:
                    ps = deep(y.a[2][fld_i(C, path, 'params')])
                    if ps.t == 'app' and ps.a[0] == 'insert' and ps.a[2].t == 'i':
                        C.ob('counts', 'the content is last', False, 'the content is put before the other parameters', U.body.name)
                    lastp = ps.a[2] if ps.t == 'app' and ps.a[0] == 'push' else ps.a[0][-1] if ps.t == 'arr' and ps.a[0] else None
                    if lastp is not None:
                        C.ob('counts', 'the content is last', lastp.t == 'fld' and is_sub(lastp.a[0]), 'the last of the parameters is not the one after the parentheses', U.body.name)
        for a in names:
            for s in syms.get(a, ()):
                r = place_of(s)
                if r is None:
                    continue
                for ctx, head, st in U.cl.rounds:
                    if (ctx.fid, ctx.bb) != s.a[0][1:3] and ctx.fid is not s.a[0][1]:
                        continue
                    mk_ = ('round', ctx.fid, ctx.bb)
                    k = len(st.mon) - 1 - st.mon[::-1].index(mk_) if mk_ in st.mon else 0
                    if reported(st.mon[k:]) or r not in st.mem:
                        continue
                    v = deep(U.I.canon(st, st.mem[r]))
                    kind, low = None, None
                    for key, w in st.facts.items():
                        key = deep(key)
                        if key.t == 'disc' and key.a[1] == AST + 'SpreadKind':
                            ps = poss(U.R, st, key.a[0], key.a[1])
                            kind = next(iter(ps)) if len(ps) == 1 else kind
                        if key.t == 'eq' and any(z.t == 'disc' and z.a[1] == AST + 'SpreadKind' for z in key.a if isinstance(z, T)):
                            z = [z for z in key.a if z.t == 'disc'][0]
                            ps = poss(U.R, st, z.a[0], z.a[1])
                            kind = next(iter(ps)) if len(ps) == 1 else kind
                        if key.t == 'fld' and key.a[1] == 2 and key.a[0].t == 'idx':
                            low = w[1] if w[0] == '=' else None
                            low = low.a[0] if isinstance(low, T) else low
                    if kind is None or kind == 'NoSpread' and low is None:
                        continue
                    want = {'Positional': 'positional_spread', 'Named': 'named_spread'}.get(kind) or ('positional_count' if low else 'named_count')
                    up = v.t == 'i' and v.a[0] == 1 and (a.endswith('spread') or not has_symbol(st, ctx, U)) or v is mk('add', s, terms.I(1)) or v.t in ('add', 'app') and v.a[0] in (s, 'add') and terms.I(1) in v.a and s in v.a
                    same = v is s or v.t == 'i' and v.a[0] == 0 and not has_symbol(st, ctx, U) or v.t == 'i' and a.endswith('spread') and U.I.canon(st, v) is s
                    m += 1
                    if a == want:
                        C.ob('counts', a, bool(up), 'a parameter (%s%s) makes it %s' % (kind, ', positional' if low else '', show(v)[:60]), U.body.name)
                    else:
                        C.ob('counts', a, bool(same) or v.t == 'i' and a.endswith('spread') and v.a[0] == 1 and was(st, s), 'a parameter (%s%s) makes it %s' % (kind, ', positional' if low else '', show(v)[:60]), U.body.name)
        for a in names:
            C.floor(a + ' counted in a loop', len(syms.get(a, ())), 1)
    C.floor('signatures', n, 4)
    C.floor('parameters counted', m, 16)


def was(st, s):
    v = st.facts.get(s)
    return v is not None and v[0] == '=' and (v[1].a[0] if isinstance(v[1], T) else v[1]) == 1


def has_symbol(st, ctx, U):
    """this is not the first round of the loop"""
    for v in st.mem.values():
        for y in subterms(deep(v)):
            if y.t == 'lv' and isinstance(y.a[0], tuple) and len(y.a[0]) > 2 and y.a[0][1] is ctx.fid and y.a[0][2] == ctx.bb:
                return True
    return False


def order_rule(C, us):
    """what is read first comes first"""
    n = pairs_ = 0
    MP = AST + 'MatchPattern'
    types = {names_of(C.P, MP).index('Typed'), names_of(C.P, MP).index('TypeOf')}
    for U in us:
        name = U.body.name
        for st, x, ev, out in states(U):
            if x is None:
                continue
            for y in nodes_in(C, x, MP):
                if vname(C.P, y) not in ('And', 'Or') or not y.a[2] or y.a[2][0].t != 'tup':
                    continue
                p, q = [deep(z) for z in y.a[2][0].a[0]]
                if p.t == 'adt' and p.a[0] == MP and p.a[1] in types or q.t == 'adt' and q.a[0] == MP and q.a[1] in types:
                    pairs_ += 1
                    C.ob('order', 'a typed pattern', p.t == 'adt' and p.a[1] in types, 'the type is not looked at first', name)
                    continue
                a, b = last_read(p), last_read(q)
                if vname(C.P, y) == 'Or' and b is not None:
                    pairs_ += 1
                    C.ob('order', vname(C.P, y), a is None or a in subterms(b), 'the second alternative is tried first', name)
            # what comes first is not put after what comes later
            for y in subterms(x):
                if y.t == 'app' and y.a[0] == 'push' and len(y.a) == 3 and y.a[1].t == 'app' and y.a[1].a[0] == 'push':
                    a, b = last_read(y.a[1].a[2]), last_read(y.a[2])
                    if a is not None and b is not None and a is not b:
                        n += 1
                        C.ob('order', 'lists', b not in subterms(a), 'two things in the wrong order', name)
        for s, vs in U.I.merged.items():
            if U.cl.is_queue(s):
                continue
            for v in vs:
                v = deep(v)
                if v.t == 'app' and v.a[0] in ('push', 'insert', 'reverse') and s in v.a[1:] and len(v.a) > 1:
                    n += 1
                    at = v.a[2] if v.a[0] == 'insert' and len(v.a) == 4 else None
                    bad = v.a[0] == 'reverse' or at is not None and at.t == 'i' or v.a[0] == 'push' and v.a[1] is not s
                    C.ob('order', 'lists', not bad, 'things are not put in the order in which they are read: %s' % show(v)[:80], name)
        for st, good, x in U.res:
            if good is False or x is None:
                continue
            for y in subterms(x):
                if y.t == 'app' and y.a[0] in ('reverse', 'rev', 'sort', 'sorted', 'swap', 'rotate_left', 'rotate_right', 'swap_remove') or y.t == 'app' and isinstance(y.a[0], str) and y.a[0].startswith('sort'):
                    C.ob('order', 'lists', False, 'the order is changed (%s)' % y.a[0], name)
            n += 1
            # lists in which one thing is marked by its number
            for v in ('SpreadList', 'SpreadHTMLSeq'):
                for y in nodes_in(C, x, MP):
                    if vname(C.P, y) == v and len(y.a[2]) == 3:
                        mark_rule(C, U, st, deep(y.a[2][2]), name)
                        pairs_ += 1
                    if vname(C.P, y).startswith('Exact') and len(y.a[2]) == 2:
                        for k, w in st.facts.items():
                            k = deep(k)
                            if k.t == 'disc' and k.a[1] == OPT and k.a[0].t == 'lv' and any(z.t == 'adt' and z.a[0] == OPT and z.a[1] == 1 and z.a[2][0].t == 'sym' for z in map(deep, U.I.merged.get(k.a[0], ()))):
                                C.ob('order', 'spread in a list', poss(U.R, st, k.a[0], OPT) == {'None'}, 'a list with a spread is made one without', name)
    C.floor('patterns of two parts', pairs_, 4)
    C.floor('lists made in order', n, 40)


def last_read(t):
    """the last token or part that a value has in it"""
    best = None
    for y in subterms(t):
        if is_sub(y) or y.t == 'app' and y.a[0] == 'token':
            if best is None or best in subterms(y):
                best = y
    return best


def counted(U, z):
    """the length of a list to which each round adds one thing"""
    if z.t != 'app' or z.a[0] != 'len' or len(z.a) != 2:
        return False
    s = deep(z.a[1])
    vs = [deep(v) for v in U.I.merged.get(s, ())] if s.t == 'lv' else []
    more = [v for v in vs if v is not s and any(y is s for y in subterms(v))]
    if not more or any(v.t != 'app' or v.a[0] != 'push' or len(v.a) != 3 or v.a[1] is not s for v in more):
        return False
    r = place_of(s)
    for ctx, head, rs in U.cl.rounds:
        if r is None or r not in rs.mem or (ctx.fid, ctx.bb) != s.a[0][1:3]:
            continue
        m = ('round', ctx.fid, ctx.bb)
        k = len(rs.mon) - 1 - rs.mon[::-1].index(m) if m in rs.mon else 0
        v = deep(U.I.canon(rs, rs.mem[r]))
        one = v.t == 'arr' and len(v.a[0]) == 1 or v.t == 'app' and v.a[0] == 'push' and deep(v.a[1]).t not in ('app', 'arr')
        if not reported(rs.mon[k:]) and not one:
            return False
    return True


def mark_rule(C, U, st, t, name):
    """the number of the item that is a spread"""
    x = t
    while x.t in ('fld', 'as'):
        x = x.a[0]
    vs = [deep(v) for v in U.I.merged.get(x, ())] if x.t in ('lv', 'jn') else [x]
    got = [v for v in vs if v.t == 'adt' and v.a[0] == OPT and v.a[1] == 1]
    good = bool(got)
    for v in got:
        z = deep(v.a[2][0])
        if any(counted(U, deep(w.a[2][0])) for w in got):
            # as many as were put into the list before it (none, in the first round)
            good = good and (counted(U, z) or z.t == 'i' and z.a[0] == 0)
            continue
        good = good and 'index(' in show(z) and z.t not in ('add', 'sub') and not show(z).startswith(('add', 'sub'))
    C.ob('order', 'spread in a list', good, 'the number of the spread is %s' % '; '.join(show(v)[:60] for v in vs)[:150], name)
    # in the rounds: set where, and only where, the item is a spread
    r = place_of(x) if x.t == 'lv' else None
    for ctx, head, rs in U.cl.rounds:
        if r is None or r not in rs.mem or (ctx.fid, ctx.bb) != x.a[0][1:3]:
            continue
        m = ('round', ctx.fid, ctx.bb)
        k = len(rs.mon) - 1 - rs.mon[::-1].index(m) if m in rs.mon else 0
        if reported(rs.mon[k:]):
            continue
        v = deep(U.I.canon(rs, rs.mem[r]))
        for key, w in rs.facts.items():
            key = deep(key)
            if key.t == 'disc' and key.a[1].startswith('parser::matcher::'):
                p = poss(U.R, rs, key.a[0], key.a[1])
                if len(p) == 1 and next(iter(p)) in ('One', 'Spread'):
                    setit = v.t == 'adt' and v.a[1] == 1
                    C.ob('order', 'spread in a list', setit == (p == {'Spread'}), 'a %s makes the number %s' % (next(iter(p)), show(v)[:60]), name)


def name_rule(C, us):
    """a name is the text of its token"""
    n = 0
    for U in us:
        for st, x, ev, out in states(U):
            if x is None:
                continue
            for y in subterms(x):
                if y.t == 'app' and y.a[0] in ('interned', 'lowered') and len(y.a) > 1:
                    t = deep(y.a[1])
                    cut = 0
                    if t.t == 'app' and t.a[0] == 'substr' and len(t.a) == 3:
                        r = t.a[2]
                        cut = show(r)
                        t = deep(t.a[1])
                    if t.t != 'app' or t.a[0] != 'source':
                        continue
                    r = deep(t.a[1])
                    if r.t != 'fld' or r.a[3] != 'range':
                        continue
                    ks = kinds_of(U, st, r.a[0])
                    if len(ks) > 12:
                        continue
                    n += 1
                    if ks <= {'Name'}:
                        C.ob('name', 'names', cut == 0, 'not all of a name is kept: %s' % cut, U.body.name)
                    elif ks <= {'VarName', 'FuncName'}:
                        C.ob('name', 'names', cut == 'RangeFrom(1)', 'a name is not all after its sign: %s' % cut, U.body.name)
                    else:
                        C.ob('name', 'names', False, 'a token that is not a name is made one: %s' % sorted(ks)[:4], U.body.name)
            for path, low in ((AST + 'TagName', True), (AST + 'TagAttribute', False), (AST + 'Param', False), (AST + 'Arg', False), (AST + 'SimpleName', False), (AST + 'AttrName', False)):
                for y in nodes_in(C, x, path):
                    if path.endswith('TagName') and vname(C.P, y) != 'Literal':
                        continue
                    for z in y.a[2]:
                        z = deep(z)
                        if z.t == 'app' and z.a[0] in ('interned', 'lowered'):
                            n += 1
                            C.ob('name', path.rsplit('::', 1)[-1], (z.a[0] == 'lowered') == low, 'the name is %sin lower case' % ('not ' if low else ''), U.body.name)
    C.floor('names taken from tokens', n, 60)


class Plain(Ev):
    """a function on the syntax tree: its events, also those of one round of each loop"""
    loop_enter, loop_back, each = Pz.loop_enter, Pz.loop_back, Pz.each

    def __init__(self, *a, **k):
        self.rounds = []
        Ev.__init__(self, *a, **k)


def path_of(t):
    """where in the tree this is; [] is any one of a list"""
    w = []
    while isinstance(t, T) and t.t in ('fld', 'as', 'idx'):
        if t.t == 'fld':
            w.append('.%s' % (t.a[3] if t.a[3] is not None else t.a[1]))
        elif t.t == 'as':
            w.append('@%s' % (terms.VNAMES(t.a[2], t.a[1]) or t.a[1]))
        else:
            w.append('[]')
        t = t.a[0]
    return ''.join(reversed(w)) if isinstance(t, T) and t.t == 'arg' else None


def names_within(C, ty, base):
    """the places, in a value of this type, where names are bound: (place, whole pattern or name)"""
    m = re.match(r'std::boxed::Box<(.*)>$', ty)
    if m:
        return names_within(C, m.group(1), base)
    if ty == AST + 'MatchPattern':
        return [(base, 'pattern')]
    if ty == NID:
        return [(base, 'name')]
    if ty.startswith('['):
        return names_within(C, ty[1:-1], base + '[]')
    if ty.startswith(OPT + '<'):
        return [(b, k + '?') for b, k in names_within(C, ty[len(OPT) + 1:-1], base + '@Some.0')]
    if ty.startswith('('):
        return [z for i, c in enumerate(components(C, ty) or ()) for z in names_within(C, c, '%s.%d' % (base, i))]
    if ty.startswith('indexmap::IndexMap<') and AST + 'MatchPattern' in ty:
        return [(base + '[].value', 'pattern')]
    a = C.P.adts.get(ty)
    if a and not a['enum'] and ty.startswith(AST) and ty != RANGE:
        T_ = C.P.types['papyri_lang']
        return [z for f in a['variants'][0]['fields'] for z in names_within(C, T_[f[1]]['s'], base + '.' + f[0])]
    return []


def joined_rule(C, us):
    """a text is made longer only by what follows it directly"""
    n = 0
    for U in us:
        seen = set()
        for ctx, head, st in U.cl.rounds:
            for v in st.mem.values():
                for y in subterms(deep(v)):
                    if y.t != 'upd' or not (isinstance(y.a[1], tuple) and RANGE in y.a[1]) or y.a[0].t != 'fld' or y.a[0].a[0].t != 'as':
                        continue
                    if not Carried(U).only_range(y.a[0].a[2], y.a[0].a[0].a[1]):
                        continue
                    x = deep(y.a[2])
                    good = False
                    if x.t == 'fld' and x.a[3] == 'end':
                        old = 'end' if 'end' in y.a[1] else None
                        for k, w in st.facts.items():
                            k = deep(k)
                            if k.t == 'eq' and w[0] == '=' and num(w[1]) == 1:
                                p, q = k.a
                                if p.t == 'fld' and p.a[3] == 'start':
                                    p, q = q, p
                                if p.t == 'fld' and q.t == 'fld' and p.a[3] == 'end' and q.a[3] == 'start' and q.a[0] is x.a[0] and p.a[0] is y.a[0] and old:
                                    good = True
                    n += 1
                    C.ob('joined', 'texts', good, 'a text is made longer by what may not follow it directly', U.body.name)
    if n == 0:
        C.ob('joined', 'texts', True, 'none is made longer', '')


def alts_rule(C, us, V, nat):
    """of alternatives, the names of both are known"""
    MP = AST + 'MatchPattern'
    getters = []
    for b in C.lib():
        s = sig(b) if b.argc and not b.parent and b.kind not in ('closure', 'promoted') else ()
        if len(s) == 3 and s[0] == '()' and s[1] == '&' + MP and s[2].startswith('&mut ') and NID in s[2]:
            getters.append(b)
    C.floor('functions that find the names of a pattern', len(getters), 1)
    n = 0
    for b in getters:
        def again(I, st, ctx, b, args):
            st = st.copy()
            I.c.note(st, ('pattern', deep(I.canon(st, args[0]))))
            return [(st, mk('tup'))]
        cl = Plain(C, nat, V, extra={b.id: again})
        I = cl.I = ai.Interp(C.P, cl, 900000)
        outs = I.run(b.id, args=[I.symarg(b, i + 1) for i in range(b.argc)], st=ai.State(mon=()))
        C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
        R = Run.__new__(Run)
        R.C, R.P, R.name, R.nat, R.cl, R.I = C, C.P, b.name, nat, cl, I
        me = I.symarg(b, 1)
        me = next((deep(y) for st, _ in outs for k in st.facts for y in subterms(deep(k)) if y.t == 'arg'), me)
        whole = set()
        for st, _ in outs:
            for e in st.mon:
                if e[0] == 'extend':
                    for y in e[1:]:
                        if isinstance(y, T) and y.t == 'iter' and not y.a[1] and isinstance(y.a[0][1], T):
                            whole.add(path_of(deep(y.a[0][1])))

        def found(mon):
            out = set()
            for e in mon:
                if e[0] in ('pattern', 'insert', 'take', 'push'):
                    for y in e[1:]:
                        for z in y if isinstance(y, tuple) else (y,):
                            if isinstance(z, T) and path_of(deep(z)) is not None:
                                out.add((path_of(deep(z)), 'pattern' if e[0] == 'pattern' else 'name'))
            return out
        d = C.P.adts[MP]
        T_ = C.P.types['papyri_lang']
        for v in d['variants']:
            vn = v['name']
            want = [z for i, f in enumerate(v['fields']) for z in names_within(C, T_[f[1]]['s'], '@%s.%s' % (vn, f[0]))]
            if vn in ('LiteralName',):
                want = []
            if vn == 'Or':
                want = [z for z in want if z[1] == 'name']
            for place, kind in want:
                n += 1
                what = 'names of ' + vn
                maybe = kind.endswith('?')
                kind = kind.rstrip('?')
                if '[]' in place:
                    L = place[:place.rindex('[]')]
                    if L in whole:
                        C.ob('names', what, place.endswith('[]'), 'the names in %s are not found' % place, b.name)
                        continue
                    els = sorted({(y.a[1], y.a[0]) for c_, h_, st in cl.rounds for y in subterms_of(st) if y.t == 'idx' and y.a[1].t == 'el' and path_of(y.a[0]) == L}, key=lambda z: (z[0].n, z[1].n))
                    if not els:
                        C.ob('names', what, False, 'the names in %s are not found' % place, b.name)
                    for e, x in els:
                        bad = [op[0] for base, ops in I.iters.get(e, ()) for op in ops if op[0] in CUT]
                        C.ob('names', what, not bad and (e.a[0], e.a[1]) not in I.advanced, 'not all of %s: %s' % (L, bad), b.name)
                        for ctx, head, st in cl.rounds:
                            if mk('idx', x, e) in subterms_of(st) and vn in poss(R, st, me, MP):
                                C.ob('names', what, (place, kind) in found(st.mon), 'the names in %s are not found' % place, b.name)
                    continue
                for st, _ in outs:
                    if vn not in poss(R, st, me, MP):
                        continue
                    if maybe and any(deep(k).t == 'disc' and path_of(deep(k).a[0]) == place[:-len('@Some.0')] and w[0] == '=' and num(w[1]) == 0 for k, w in st.facts.items()):
                        continue
                    C.ob('names', what, (place, kind) in found(st.mon), 'the names in %s are not found' % place, b.name)
    C.floor('places in patterns where names are', n, 12)
    # both sides of an alternative
    m = 0
    ids = {b.id for b in getters}
    for U in us:
        if U.value != MP:
            continue
        for st, x, ev, out in states(U):
            for y in nodes_in(C, x, MP) if x is not None else ():
                if vname(C.P, y) == 'Or' and y.a[2][0].t == 'tup':
                    have = [e[1] for e in ev if e[0] == 'names of']
                    m += 1
                    for side in y.a[2][0].a[0]:
                        C.ob('names', 'alternatives', deep(side) in have, 'the names of one side are not known: %s' % show(deep(side))[:80], U.body.name)
    C.floor('alternatives', m, 1)


@prop('P29')
def whole_tree(C):
    """P29: everything written is in the syntax tree, once, in order, as what it is"""
    C.rule('lost', 'on every way through every parsing function on which nothing is reported, each content token taken and each part parsed is in the node made')
    C.rule('held', 'what the rounds of a loop gather is in what is returned, and only white space is taken out of it again')
    C.rule('kind', 'the first token decides which kind of node is made')
    C.rule('flag', 'a mark of a node is set exactly where its token was read')
    C.rule('counts', 'a signature counts what was read')
    C.rule('order', 'parts are in the order in which they are read')
    C.rule('name', 'a name is the text of its token')
    C.rule('joined', 'a text is made longer only by what follows it directly')
    C.rule('names', 'all names that either of two alternative patterns binds are known')
    from rules import convert
    V = convert.Conv(C)
    nat = Natives(C)
    G = Grammar(C)
    C.floor('functions that parse', len(G.units), 25)
    us = units_of(C, nat, V, G)
    complete(C, us)
    held(C, us)
    kind_rule(C, us)
    flag_rule(C, us)
    count_rule(C, us)
    order_rule(C, us)
    name_rule(C, us)
    alts_rule(C, us, V, nat)
    joined_rule(C, us)
