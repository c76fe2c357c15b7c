"""Characters: literal text stands as it is written, with the typographic substitutions, and an escape or an entity for its character."""
from itertools import product
from rules import prop
from rulelib import *
import models
from rules.coerce import names_of, vname, deep
from rules.natives import *
from rules.access import sig
from rules.exprs import RANGE, noting
from rules.parse import *
from rules.tags import CHARS, possible
from rules.tokens import Lex, some_of, last_name

TEXT = AST + 'AST'
LQ = {('Single', 'Left'): '\u2018', ('Single', 'Right'): '\u2019', ('Double', 'Left'): '\u201c', ('Double', 'Right'): '\u201d'}
ITSELF = {'Name', 'Number', 'Boolean', 'LPar', 'RPar', 'LAngle', 'RAngle', 'Ampersand', 'Arrow', 'Asterisk', 'Colon', 'Comma', 'Dot', 'DoubleAsterisk', 'DoubleColon',
          'Equals', 'ExclamationMark', 'QuestionMark', 'QuestionMarkDoubleColon', 'Underscore', 'RawText'}
OTHER = {'Ellipsis': '\u2026', 'Bar': '\u2060'}
PAIRS = dict([('-%d' % d, '\u2212%d' % d) for d in range(10)] + [
    ('---', '\u2014'), ('--', '\u2013'), ('<->', '\u2194'), ('<-', '\u2190'), ('->', '\u2192'), ('!=', '\u2260'), ('<=', '\u2264'), ('>=', '\u2265'), ('+/-', '\u00b1'), ('(c)', '\u00a9'), ('~', '\u00a0')])
NEUTRAL = ('dfa', 'auto_configure', 'byte_classes', 'prefilter', 'premultiply', 'dense_depth')


class Chars(Lex):
    """a function that decodes one token: its text is a row of characters"""
    def inline(self, I, b):
        return b.id not in self.extra and Lex.inline(self, I, b)

    def call(self, I, st, ctx, name, args, cal):
        n = name.rsplit('::', 1)[-1]
        if args and n in ('nth', 'skip', 'as_str'):
            byref = args[0].t == 'ref'
            v = I.rd(st, *I.deref(args[0])) if byref else args[0]
            if v.t == 'app' and v.a[0] == 'cells':
                k = v.a[1].a[0]
                if n == 'as_str':
                    return [(st, mk('app', 'substr', self.SRC, mk('adt', 'std::ops::RangeFrom', 0, (v.a[1],))))]
                if args[1].t == 'i':
                    j = k + args[1].a[0]
                    if n == 'skip':
                        return [(st, mk('app', 'cells', terms.I(j)))]
                    out = []
                    for s, there in self.cells(st, j):
                        s = s.copy()
                        if byref:
                            I.wr(s, *I.deref(args[0]), mk('app', 'cells', terms.I(j + 1)))
                        out.append((s, some(mk('app', 'char', terms.I(j))) if there else models.NONE))
                    return out
        return Lex.call(self, I, st, ctx, name, args, cal)


class Building(Plain):
    """how the table of the substitutions is set up"""
    def call(self, I, st, ctx, name, args, cal):
        n = name.rsplit('::', 1)[-1]
        if 'AhoCorasick' in name:
            if n == 'new' and not args:
                return [(st, mk('app', 'builder'))]
            if n == 'new':
                return [(st, mk('app', 'build', mk('app', 'builder'), deep(I.canon(st, args[0]))))]
            if n == 'build' and len(args) == 2:
                return [(st, mk('app', 'build', deep(I.canon(st, I.rd(st, *I.deref(args[0])) if args[0].t == 'ref' else args[0])), deep(I.canon(st, args[1]))))]
            if args and args[0].t == 'ref' and len(args) == 2:
                st = st.copy()
                r, p = I.deref(args[0])
                I.wr(st, r, p, mk('app', n, I.rd(st, r, p), deep(I.canon(st, args[1]))))
                return [(st, args[0])]
        return Plain.call(self, I, st, ctx, name, args, cal)


class Unclear(Exception):
    pass


def strings(t):
    t = deep(t)
    if t.t == 'arr' and all(deep(x).t == 's' for x in t.a[0]):
        return [deep(x).a[0] for x in t.a[0]]
    raise Unclear('the table %s is not known' % show(t)[:60])


def table(C, nat, V, t):
    """(patterns, how) of a searching automaton"""
    t = deep(t)
    if t.t == 'static':
        name = t.a[0].split('::', 1)[1] if t.a[0].startswith('papyri_lang::') else t.a[0]
        for b in C.lib():
            if b.kind == 'closure' and b.name.startswith(name + '::'):
                cl = Building(C, nat, V, extra={})
                I = ai.Interp(C.P, cl, 100000)
                cl.I = I
                outs = I.run(b.id, args=[I.symarg(b, i + 1) for i in range(b.argc)], st=ai.State(mon=()))
                if len(outs) == 1:
                    return table(C, nat, V, deep(I.canon(outs[0][0], outs[0][1])))
        raise Unclear('%s is not known' % t.a[0])
    if t.t == 'app' and t.a[0] == 'build':
        how, b = 'Standard', deep(t.a[1])
        while b.t == 'app' and b.a[0] != 'builder':
            if b.a[0] == 'match_kind':
                how = vname(C.P, deep(b.a[2])) if deep(b.a[2]).t == 'adt' else None
                break
            if b.a[0] not in NEUTRAL and not (b.a[2].t == 'i' and not b.a[2].a[0]):
                raise Unclear('%s is set' % b.a[0])
            b = deep(b.a[1])
        return strings(t.a[2]), how
    raise Unclear('%s is not known' % show(t)[:60])


def replacing(ps, rs, how):
    """what the automaton makes of a text"""
    first = {}
    for i, p in enumerate(ps):
        first.setdefault(p[0], []).append(i)

    def f(s):
        out, k = [], 0
        while k < len(s):
            best = None
            for i in first.get(s[k], ()):
                if s.startswith(ps[i], k) and (best is None or how == 'LeftmostLongest' and len(ps[i]) > len(ps[best])):
                    best = i
            if how == 'Standard':
                # the match that ends first
                c = [(j + len(ps[i]), i) for j in range(k, len(s)) for i in first.get(s[j], ()) if s.startswith(ps[i], j)]
                if not c:
                    out.append(s[k:])
                    break
                e, i = min(c)
                out += [s[k:e - len(ps[i])], rs[i]]
                k = e
                continue
            if best is None:
                out.append(s[k])
                k += 1
            else:
                out.append(rs[best])
                k += len(ps[best])
        return ''.join(out)
    return f


def meaning(C, nat, V, t):
    """(the text that goes in, what is made of it)"""
    t = deep(t)
    if t.t == 'app':
        n = last_name(t)
        if n == 'replace_all' and len(t.a) == 4:
            ps, how = table(C, nat, V, t.a[1])
            rs = strings(t.a[3])
            if len(ps) != len(rs):
                raise Unclear('there are %d patterns and %d replacements' % (len(ps), len(rs)))
            if how not in ('Standard', 'LeftmostFirst', 'LeftmostLongest') or not all(ps):
                raise Unclear('how it searches is not known')
            x, f = meaning(C, nat, V, t.a[2])
            g = replacing(ps, rs, how)
            return x, lambda s: g(f(s))
        if n in ('replace', 'replacen') and len(t.a) == 4 and all(deep(y).t in ('s', 'i') for y in t.a[2:]):
            x, f = meaning(C, nat, V, t.a[1])
            a, b = [deep(y).a[0] if deep(y).t == 's' else chr(deep(y).a[0]) for y in t.a[2:]]
            return x, lambda s: f(s).replace(a, b)
        if n in ('concat',):
            return meaning(C, nat, V, t.a[1])
        if n == 'join' and deep(t.a[2]).t == 's' and not deep(t.a[2]).a[0]:
            return meaning(C, nat, V, t.a[1])
    return t, lambda s: s


SUBST = replacing(list(PAIRS), list(PAIRS.values()), 'LeftmostLongest')
LETTERS = '-0<>!=+/(c)~'


def samples():
    for n in range(1, 6):
        for p in product(LETTERS, repeat=n):
            yield ''.join(p)
    for d in '123456789':
        for x, y in product(['', '-', '--', '+/', '<', 'a'], ['', '-', '>', '=', '0']):
            yield x + '-' + d + y
            yield x + d + y
    for x in ('a-b', '(C)', '( c)', "'", '"', '...', '&lt;', '- 1', 'x', '\u2212', '\n', '->\u00a0', '(r)', '(tm)', '=>', '==', '*', '^', '1/2', '<>', '<<', '>>', ' ', '  ', '\\', 'c)', '(c'):
        yield x


def quote_kinds(U, st, tok):
    """the quotes that a token may be"""
    k = U.exactly(st, tok)
    if k is not None and k.a[2] and all(deep(y).t == 'adt' for y in k.a[2]):
        return {tuple(vname(U.P, deep(y)) for y in k.a[2])}
    out = []
    for i, path in enumerate(('parser::token::QuoteKind', 'parser::token::QuoteDir')):
        ns = set(names_of(U.P, path))
        for k, v in st.facts.items():
            if k.t == 'disc' and k.a[1] == path and tok in subterms(deep(k.a[0])):
                x = deep(k.a[0])
                while x.t in ('fld', 'as'):
                    x = x.a[0]
                if x is tok:
                    ns &= poss(U.R, st, deep(k.a[0]), path)
        out.append(ns)
    return set(product(*out))


def parts_of(t):
    t = deep(t)
    if t.t == 'cat':
        return [y for x in t.a[0] for y in parts_of(x)]
    if t.t == 'arr':
        return [y for x in t.a[0] for y in parts_of(x)]
    if t.t == 'push' or t.t == 'app' and t.a[0] in ('push', 'add', 'push_str', 'add_assign'):
        return [y for x in t.a for y in (parts_of(x) if isinstance(x, T) else [])]
    if t.t == 's':
        return [c for c in t.a[0]]
    if t.t == 'i':
        return [chr(t.a[0])]
    if t.t == 'app' and t.a[0] in ('encoded',):
        return parts_of(t.a[1])
    if t.t in ('vec', 'nil') and not any(isinstance(x, T) or x for x in t.a):
        return []
    return [t]


def text_of(U, st, tok):
    """[what the text of a token may be], None if it has none"""
    out = set()
    for k in U.kinds(st, tok):
        if k in ITSELF:
            out.add('the text itself')
        elif k in OTHER:
            out.add(OTHER[k])
        elif k == 'Quote':
            out |= {LQ[q] for q in quote_kinds(U, st, tok)}
        else:
            out.add(None)
    return out


def is_source(x, tok):
    return x.t == 'app' and x.a[0] == 'source' and deep(x.a[1]).t == 'fld' and deep(x.a[1]).a[0] is tok and deep(x.a[1]).a[3] == 'range'


def describe(p):
    return 'nothing' if not p else ' '.join(repr(x) if isinstance(x, str) else show(x)[:50] for x in p)


class Texts(Pz):
    def __init__(self, *a):
        self.entries = []
        Pz.__init__(self, *a)

    def loop_enter(self, I, st, ctx):
        self.entries.append((ctx, st.copy()))
        Pz.loop_enter(self, I, st, ctx)


def written(C, us):
    """literal text"""
    C.rule('text', 'each token that is taken into a literal text adds its own text, a quotation mark or an ellipsis the typographic one, and a bar the character that joins words')
    C.rule('all', 'each kind of token that is given to a function that reads literal text has a text, and the text goes on as long as there is one; only a left angle bracket ends it, as a tag may begin there')
    C.rule('once', 'the text of a node is the text that was gathered, with the substitutions made in the whole of it')
    units, made = {}, []
    for U in us:
        for st, good, x in U.res:
            if good is False or x is None:
                continue
            for y in subterms(x):
                if y.t == 'adt' and y.a[0] == TEXT and names_of(C.P, TEXT)[y.a[1]] == 'Text':
                    units.setdefault(U.body.id, U)
                    made.append((U, st, deep(y.a[2][0]), y))
    C.floor('functions that make a literal text', len(units), 1)
    stand = samples_of = None
    shapes = {}
    for U, st, t, y in made:
        name = U.body.name
        try:
            x, f = meaning(C, U.cl.nat if hasattr(U.cl, 'nat') else U.R.nat, C.V, t)
        except Unclear as e:
            C.ob('once', name, False, 'the text is %s: %s' % (show(t)[:80], e), name)
            continue
        shapes.setdefault((U, x), []).append((st, t, y, f))
    checked = {}
    for (U, x), l in shapes.items():
        name = U.body.name
        for st, t, y, f in l:
            k = skeleton(t, x)
            if k not in checked:
                checked[k] = next((s for s in samples() if f(s) != SUBST(s)), None)
            w = checked[k]
            C.ob('once', name + ': substitutions', w is None, w is not None and 'of %r it makes %r and not %r' % (w, f(w), SUBST(w)), name)
        one_text(C, U, x, l)
    return units


def skeleton(t, x):
    return show(t).replace(show(x), '_')


def one_text(C, U, x, l):
    name = U.body.name
    toks = U.token_args()

    def judge(st, tok, parts, what, first=False):
        want = text_of(U, st, tok)
        ks = '|'.join(sorted(U.kinds(st, tok)))
        if len(ks) > 60:
            ks = 'any'
        key = '%s: %s %s' % (name, what, ks)
        if None in want:
            C.ob('text', key, False, 'a token that has no text is taken into it', name)
            return
        if len(want) > 1:
            C.ob('text', key, False, 'different tokens give the same text', name)
            return
        w = next(iter(want))
        if w == 'the text itself':
            good = len(parts) == 1 and isinstance(parts[0], T) and is_source(parts[0], tok)
        else:
            good = parts == [w]
        C.ob('text', key, good, 'it adds %s and not %s' % (describe(parts), w if w == 'the text itself' else repr(w)), name)

    if x.t not in ('lv', 'jn'):
        # no loop: the tokens one after the other
        for st, t, y, f in l:
            got = toks[:1] + [e[1] for e in st.mon if e[0] == 'took']
            parts = parts_of(x)
            C.ob('text', name + ': as many', len(parts) == len(got), 'there are %d tokens and %d texts' % (len(got), len(parts)), name)
            for a, b in zip(got, parts):
                judge(st, a, [b], 'a token')
        return
    fid, bb, root = x.a[0][1], x.a[0][2], x.a[0][3]
    path = ()
    if len(x.a[0]) > 4:
        path = tuple(x.a[0][4:])
    if not isinstance(root, tuple):
        C.ob('text', name, False, 'how the text is gathered is not understood', name)
        return
    if x.t == 'lv' and isinstance(x.a[0][0], str) is False:
        pass
    n = 0
    for ctx, st in U.cl.entries:
        if ctx.fid != fid or ctx.bb != bb:
            continue
        v = deep(U.I.canon(st, U.I.rd(st, root, path)))
        parts = parts_of(v)
        got = toks[:1] + [e[1] for e in st.mon if e[0] == 'took']
        n += 1
        if not parts and not [e for e in st.mon if e[0] == 'took']:
            # all of them are read in the loop
            C.ob('text', name + ': the first token', not toks, 'the first token is left out', name)
            continue
        C.ob('text', name + ': as many at first', len(parts) == len(got), 'there are %d tokens and %d texts at first' % (len(got), len(parts)), name)
        for a, b in zip(got, parts):
            judge(st, a, [b], 'first a', True)
    C.floor('ways in which a literal text begins', n, 20)
    m = 0
    taken = set()
    for ctx, h, st in U.cl.rounds:
        if ctx.fid != fid or ctx.bb != bb:
            continue
        tail = list(st.mon)
        mark = ('round', fid, bb)
        if mark in tail:
            tail = tail[len(tail) - 1 - tail[::-1].index(mark):]
        got = [e[1] for e in tail if e[0] == 'took']
        if not got or not any(y.t in ('lv', 'jn') for k in got for y in subterms(k)):
            continue
        v = deep(U.I.canon(st, U.I.rd(st, root, path)))
        parts = parts_of(v)
        m += 1
        if not parts or parts[0] is not x:
            C.ob('text', name + ': goes on', False, 'what was gathered before is lost', name)
            continue
        C.ob('text', name + ': as many in a round', len(parts) - 1 == len(got), 'there are %d tokens and %d texts in a round' % (len(got), len(parts) - 1), name)
        for a, b in zip(got, parts[1:]):
            judge(st, a, [b], 'then a')
            ks = U.kinds(st, a)
            taken |= ks
            C.ob('all', name + ': where a tag may begin', 'LAngle' not in ks or followed(U, st, a), 'a left angle bracket is taken though a tag may begin there', name)
    C.floor('rounds of gathering a literal text', m, 20)
    have = ITSELF | set(OTHER) | {'Quote'}
    C.ob('all', name + ': the kinds', have - {'LAngle'} <= taken, 'the text ends before %s' % ', '.join(sorted(have - {'LAngle'} - taken)), name)
    for st, t, y, f in l:
        # why it ends
        q = ends_at(U, st)
        if q is not None:
            ks = U.kinds(st, q)
            C.ob('all', name + ': the end', not ks & (have - {'LAngle'}), 'the text may end before a token %s' % ', '.join(sorted(ks & (have - {'LAngle'}))[:3]), name)


def followed(U, st, tok):
    return False


def ends_at(U, st):
    """the token before which the text ends, None if there is no more"""
    for k, v in st.facts.items():
        k = deep(k)
        if k.t == 'app' and k.a[0] == 'more' and k.a[1].t in ('lv', 'jn'):
            return mk('app', 'token', k.a[1]) if v[0] == '=' and v[1] in (1, terms.I(1)) else None
    return None


def given(C, us, units):
    """the tokens that a function that reads literal text is given"""
    have = ITSELF | set(OTHER) | {'Quote'}
    n = 0
    for U in us:
        for b, t, st, fs in U.cl.calls:
            if b.id not in units:
                continue
            for a in t.a[1:-1]:
                if isinstance(a, T) and (a.t == 'app' and a.a[0] == 'token' or a in U.token_args()):
                    n += 1
                    bad = U.kinds(st, a) - have
                    C.ob('all', '%s: a token that is text' % U.body.name, not bad, 'a token %s is taken as text' % ', '.join(sorted(bad)[:3]), U.body.name)
    C.floor('calls of a function that reads literal text', n, 1)


def decoded(C, us, nat, V, G):
    """escapes and entities"""
    C.rule('escape', 'an escape is the character with the code that is written, a new line, a tab, or the character after the backslash itself')
    C.rule('entity', 'an entity is the one character that it decodes to')
    C.rule('malformed', 'what is no character is reported where it is written and stands as the replacement character')
    kinds = {}
    for U in us:
        for b, tok, st in U.cl.decoding:
            kinds.setdefault(b.id, set()).update(U.kinds(st, tok))
    C.floor('functions that decode a token', len(kinds), 1)
    ns = names_of(C.P, KIND)
    seen = set()
    for i, ks in sorted(kinds.items()):
        b = C.P.bodies[i]
        for kind in sorted(ks):
            if kind not in ('Escape', 'Entity'):
                C.ob('entity', '%s: what it decodes' % b.name, False, 'a token %s is decoded' % kind, b.name)
                continue
            seen.add(kind)
            ways(C, nat, V, G, b, kind)
    C.ob('entity', 'both', seen == {'Escape', 'Entity'}, 'nothing decodes %s' % ', '.join({'Escape', 'Entity'} - seen), sorted(kinds)[0] if kinds else '')


def ways(C, nat, V, G, b, kind):
    ex = {}
    for x in G.sources.values():
        ex[x.id] = lambda I, st, ctx, b, args: [(st, mk('app', 'source', deep(I.canon(st, args[1]))))]
    for x in G.reports.values():
        ex[x.id] = noting('reported', give=lambda *a: mk('tup', ()))
    for x in C.lib():
        if x.kind not in ('closure', 'promoted') and sig(x)[0] == '!':
            ex[x.id] = lambda I, st, ctx, b, args: []
    cl = Chars(C, nat, V, extra=ex)
    I = ai.Interp(C.P, cl, 100000)
    cl.I, I.CAP = I, 4000
    args = [I.symarg(b, i + 1) for i in range(b.argc)]
    tok = deep(I.canon(ai.State(), args[[x == TOKEN for x in sig(b)[1:]].index(True)]))
    rf = next((i, f[0]) for i, f in enumerate(C.P.adts[TOKEN]['variants'][0]['fields']) if f[0] == 'range')
    rng = mk('fld', tok, rf[0], TOKEN, rf[1])
    cl.SRC = src = mk('app', 'source', rng)
    st = ai.State(mon=())
    for t in I_kind(C, tok):
        st.facts[t] = ('=', terms.I(names_of(C.P, KIND).index(kind)))
    outs = I.run(b.id, args=args, st=st)
    C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
    C.floor('ways through the decoding of a token %s' % kind, len(outs), 2)
    name = b.name + ': ' + kind
    chars, single = set(), set()
    for st, r in outs:
        r = deep(I.canon(st, r))
        rep = [e for e in st.mon if e[0] == 'reported']
        wrong = r.t == 'i' and r.a[0] == 0xfffd
        if rep or wrong:
            C.ob('malformed', name + ': both', bool(rep) and wrong, 'it stands as the replacement character though nothing is reported' if wrong else 'it is reported and stands as ' + show(r)[:40], b.name)
            C.ob('malformed', name + ': where', len(rep) == 1 and any(isinstance(z, T) and deep(z) is rng for z in rep[0][1:]) if rep else True, 'it is not reported once, at the token', b.name)
        if kind == 'Entity':
            n = entity_count(st, src)
            if rep or wrong:
                C.ob('malformed', name + ': only when', n is not None and 1 not in n, 'an entity that is one character is refused', b.name)
            else:
                C.ob('entity', name, is_first(r, src) and n == {1}, 'it stands as %s' % show(r)[:60] if not is_first(r, src) else 'it stands as the first of several characters, or of none', b.name)
                single.add(True)
            continue
        c1 = mk('app', 'char', terms.I(1))
        cs = possible(st, c1)
        if cl.there(st, 1) is False:
            continue
        if rep or wrong:
            C.ob('malformed', name + ': only when', cs <= set('xuU') and no_code(C, st, src, cl), 'it is refused where the character after the backslash is %s' % some_of(cs) if not cs <= set('xuU') else 'it is refused though its code is a character', b.name)
            continue
        for grp, want in ((set('xuU'), 'code'), ({'n'}, 10), ({'t'}, 9), (set(CHARS) - set('xuUnt'), 'same')):
            if not cs & grp:
                continue
            chars |= cs & grp
            if want == 'code':
                C.ob('escape', name + ': code', of_code(r, src, cl), 'with %s after the backslash it stands as %s' % (some_of(cs & grp), show(r)[:60]), b.name)
            elif want == 'same':
                C.ob('escape', name + ': itself', r is c1 or r.t == 'i' and cs == {chr(r.a[0])}, 'with %s after the backslash it stands as %s' % (some_of(cs & grp), chr(r.a[0]) if r.t == 'i' else show(r)[:60]), b.name)
            else:
                C.ob('escape', name + ': ' + chr(want + 100 if want == 10 else 116), r.t == 'i' and r.a[0] == want, 'with %s after the backslash it stands as %s' % (some_of(cs & grp), show(r)[:60]), b.name)
    if kind == 'Escape':
        C.ob('escape', name + ': every', chars >= set(CHARS), 'no character for an escape with ' + some_of(set(CHARS) - chars), b.name)
    else:
        C.ob('entity', name + ': some', bool(single), 'no entity is a character', b.name)


def I_kind(C, tok):
    i, f = next((i, f[0]) for i, f in enumerate(C.P.adts[TOKEN]['variants'][0]['fields']) if f[0] == 'kind')
    k = mk('fld', tok, i, TOKEN, f)
    return [mk('disc', k, KIND)]


def radix(t, src, cl):
    """the number is what is written after the first two characters"""
    t = deep(t)
    if t.t == 'fld':
        t = deep(deep(t.a[0]).a[0])
    return t.t == 'app' and last_name(t) == 'from_str_radix' and cl.at(t.a[1]) == 2 and deep(t.a[2]) is terms.I(16)


def of_code(r, src, cl):
    while r.t in ('fld', 'as'):
        r = deep(r.a[0])
    return r.t == 'app' and last_name(r) == 'from_u32' and radix(r.a[1], src, cl)


def no_code(C, st, src, cl):
    """the way is one on which there is no such character"""
    for k, v in st.facts.items():
        k = deep(k)
        if k.t == 'disc' and deep(k.a[0]).t == 'app' and last_name(deep(k.a[0])) in ('from_u32', 'from_str_radix', 'try_from'):
            x = deep(k.a[0])
            if v[0] == '=' and (v[1].a[0] if isinstance(v[1], T) else v[1]) == (1 if last_name(x) != 'from_u32' else 0):
                return radix(x.a[1], src, cl) if last_name(x) != 'from_str_radix' else radix(x, src, cl)
    return False


def is_decoded(t, src):
    t = deep(t)
    return t.t == 'app' and last_name(t) == 'decode' and deep(t.a[1]) is src


def entity_count(st, src):
    """the numbers of characters that the entity may be (of 0, 1, 2)"""
    ns, known = {0, 1, 2}, False
    for k, v in st.facts.items():
        k = deep(k)
        if k.t in ('len', 'app') and any(isinstance(x, T) and is_decoded(x, src) for x in k.a) and (k.t == 'len' or last_name(k) in ('len', 'count')):
            known = True
            if v[0] == '=':
                ns &= {v[1].a[0] if isinstance(v[1], T) else v[1]}
            elif v[0] == '!':
                ns -= {x.a[0] if isinstance(x, T) else x for x in v[1]}
    return ns if known else None


def is_first(r, src):
    if r.t == 'idx' and is_decoded(r.a[0], src):
        return True
    x = r
    while x.t in ('fld', 'as'):
        x = deep(x.a[0])
    return x is not r and x.t == 'app' and last_name(x) in ('first', 'pop', 'last') and is_decoded(x.a[1], src)


def characters(C):
    """P32"""
    from rules import convert
    V = convert.Conv(C)
    nat = Natives(C)
    C.V = V
    G = Grammar(C)
    us = texts_of(C, nat, V, G)
    units = written(C, us)
    given(C, us, units)
    decoded(C, us, nat, V, G)


def texts_of(C, nat, V, G):
    import rules.parse as rp
    old = rp.Pz
    rp.Pz = Decoding
    try:
        return rp.units_of(C, nat, V, G)
    finally:
        rp.Pz = old


class Decoding(Texts):
    def __init__(self, *a):
        self.decoding = []
        Texts.__init__(self, *a)

    def char(self, I, st, ctx, b, args):
        i = [x == TOKEN for x in sig(b)[1:]]
        tok = deep(I.canon(st, args[i.index(True)] if True in i else args[-1]))
        self.decoding.append((b, tok, st.copy()))
        return Pz.char(self, I, st, ctx, b, args)


@prop('P32')
def p32(C):
    characters(C)
