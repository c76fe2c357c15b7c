"""Built-in functions on booleans, strings, regular expressions, html and functions."""
import itertools
from rules import prop
from rulelib import *
from rules.coerce import names_of, vname, walk, deep
from rules.natives import *
from rules import natives as nv

WS = 'is_ascii_whitespace'


def short(t):
    return t.a[0].rsplit('::', 1)[-1] if t.t == 'app' and isinstance(t.a[0], str) else None


def is_app(t, name, *args):
    """the result of this operation of the standard library (or the regex library) on these arguments"""
    return short(t) == name and len(t.a) == len(args) + 1 and all(x is y for x, y in zip(t.a[1:], args))


def atom(t):
    """(atom, truth) of a boolean term that is not made of others, or None"""
    t = deep(t)
    if t.t == 'eq':
        a, b = t.a
        if b.t in ('s', 'i') and not (a.t in ('s', 'i')):
            a, b = b, a
        if a.t == 's' and a.a[0] == '':
            return ('empty', b), True
        n = size_of(b)
        if a is terms.I(0) and n is not None:
            return ('empty', n), True
        if a.t == 'i' and b.t == 'disc':
            return ('disc', b.a[0]), a.a[0]
    if t.t == 'lt':
        a, b = t.a
        if a is terms.I(0) and size_of(b) is not None:
            return ('empty', size_of(b)), False
        if b is terms.I(1) and size_of(a) is not None:
            return ('empty', size_of(a)), True
    return ('t', t), True


def size_of(t):
    t = deep(t)
    if t.t == 'len':
        return t.a[0]
    if t.t == 'app' and t.a[0] == 'len':
        return t.a[1]
    return None


def known(R, st):
    """what is known of atoms on the path"""
    out = {}
    for k, v in st.facts.items():
        if v[0] == '=' and isinstance(v[1], T):
            if v[1].t == 'i':
                a, yes = atom(k)
                if isinstance(yes, bool):
                    out[a] = bool(v[1].a[0]) == yes
                if deep(k).t == 'disc':
                    out[('disc', deep(k).a[0])] = v[1].a[0]
                elif deep(k).t not in ('eq', 'lt', 'not', 'app'):
                    e = R.I.t_eq(deep(k), v[1])
                    if e.t == 'eq':
                        out[atom(e)[0]] = atom(e)[1]
            elif v[1].t == 's':
                out[('empty', deep(k))] = v[1].a[0] == ''
        elif v[0] == '!' and any(isinstance(x, T) and x.t == 's' and x.a[0] == '' for x in v[1]):
            out[('empty', deep(k))] = False
        elif v[0] == '!' and deep(k).t != 'disc':
            for x in v[1]:
                if isinstance(x, T) and x.t == 'i':
                    e = R.I.t_eq(deep(k), x)
                    if e.t == 'eq':
                        out[atom(e)[0]] = not atom(e)[1]
    return out


def atoms_of(t, out):
    t = deep(t)
    if t.t in ('and', 'or', 'xor', 'not') or t.t == 'eq' and all(logical(x) for x in t.a):
        for x in t.a:
            if isinstance(x, T):
                atoms_of(x, out)
    elif t.t != 'i':
        out.add(atom(t)[0])
    return out


def logical(t):
    return t.t in ('and', 'or', 'xor', 'not', 'eq', 'lt') or t.t == 'app' and t.a[0] == 'given'


def value(t, env):
    t = deep(t)
    if t.t == 'i':
        return bool(t.a[0])
    if t.t == 'and':
        return value(t.a[0], env) and value(t.a[1], env)
    if t.t == 'or':
        return value(t.a[0], env) or value(t.a[1], env)
    if t.t == 'xor':
        return value(t.a[0], env) != value(t.a[1], env)
    if t.t == 'not':
        return not value(t.a[0], env)
    if t.t == 'eq' and all(logical(x) for x in t.a):
        return value(t.a[0], env) == value(t.a[1], env)
    a, yes = atom(t)
    if a[0] == 'disc':
        return env[a] == yes
    return env[a] == yes


def agree(R, st, got, want):
    """the two boolean terms have the same value whenever the path is taken"""
    facts = known(R, st)
    ats = sorted(atoms_of(want, atoms_of(got, set())), key=str)
    if len(ats) > 6:
        return False
    dom = [([facts[a]] if a in facts else [0, 1] if a[0] == 'disc' else [False, True]) for a in ats]
    for vs in itertools.product(*dom):
        env = dict(zip(ats, vs))
        if value(got, env) != value(want, env):
            return False
    return True


def sp_bool(*wants):
    """the answer is this boolean"""
    def spec(C, R):
        for st, r in oks(R):
            b = R.val(r, 'Bool')
            ws = [w(R) for w in wants]
            good = b is not None and any(agree(R, st, b, w) for w in ws)
            say(C, R, 'answer', 'the answer', good, 'the wrong answer: ' + show(r))
        say(C, R, 'answer', 'no errors', not errs(R), 'an error')
    return spec


TEXT = {'ends_with', 'starts_with'}


def std(name, *ps):
    return lambda R: mk('app', STD[name], *[R.given(p) for p in ps])


STD = {'ends_with': 'core::str::<impl str>::ends_with', 'starts_with': 'core::str::<impl str>::starts_with'}


def sp_two(name):
    """a predicate of the standard library on two strings"""
    def spec(C, R):
        A, B = R.given('A'), R.given('B')
        for st, r in oks(R):
            b = R.val(r, 'Bool')
            b = deep(b) if b is not None else None
            if b is not None and b.t == 'i':
                f = [v[1].a[0] for k, v in st.facts.items() if is_app(deep(k), name, A, B) and v[0] == '=']
                good = f == [b.a[0]]
            else:
                good = b is not None and is_app(b, name, A, B)
            say(C, R, 'answer', 'the answer', good, 'the wrong answer: ' + show(r))
        say(C, R, 'answer', 'no errors', not errs(R), 'an error')
    return spec


def sp_regex_test(C, R):
    RX, S_ = R.given('REGEX'), R.given('STR')

    def test(t):
        t = deep(t)
        if short(t) == 'is_match' and len(t.a) == 3 and regex_of(R, t.a[1], RX) and t.a[2] is S_:
            return True
        return False
    for st, r in oks(R):
        b = R.val(r, 'Bool')
        b = deep(b) if b is not None else None
        good = False
        if b is not None and b.t == 'i':
            for k, v in st.facts.items():
                k = deep(k)
                if v[0] == '=' and (test(k) or k.t == 'disc' and short(k.a[0]) in ('find', 'captures', 'shortest_match') and regex_of(R, k.a[0].a[1], RX) and k.a[0].a[2] is S_):
                    good = v[1].a[0] == b.a[0]
        elif b is not None:
            a, yes = atom(b)
            good = test(b) or a[0] == 'disc' and yes == 1 and short(a[1]) in ('find', 'captures', 'shortest_match') and regex_of(R, a[1].a[1], RX) and a[1].a[2] is S_
        say(C, R, 'answer', 'the answer', good, 'not whether the expression matches the string: ' + show(r))
    say(C, R, 'answer', 'no errors', not errs(R), 'an error')


def regex_of(R, t, RX):
    t = deep(t)
    return t is RX or t.t == 'fld' and t.a[0] is RX or t.t == 'app' and len(t.a) == 2 and regex_of(R, t.a[1], RX)


def sp_truth(C, R):
    """bool::from: false for false, zero, and what is empty"""
    X = R.given('PARAM')
    seen = set()
    ns = names_of(C.P, VAL)
    for st, r in oks(R):
        b = R.val(r, 'Bool')
        b = deep(b) if b is not None else None
        d = R.disc(st, X)
        kinds = {d[1]} if d and d[0] == '=' else set(ns) - (d[1] if d else set())
        seen |= kinds
        for k in sorted(kinds):
            p = payload(C, X, k)
            if b is None:
                good = False
            elif k == 'Bool':
                good = agree(R, st, b, p)
            elif k == 'Int':
                good = agree(R, st, b, mk('not', R.I.t_eq(p, terms.I(0))))
            elif k == 'Str':
                good = agree(R, st, b, mk('not', R.I.t_eq(p, terms.S(''))))
            elif k in ('List', 'Dict'):
                z = mk('app', 'items', p) if k == 'List' else p
                good = any(agree(R, st, b, mk('not', R.I.t_eq(y, terms.I(0)))) for y in (mk('len', z), mk('app', 'len', z), deep(R.I.t_len(st, z))))
            elif k == 'HTML':
                e = poss(R, st, p, HTML) - {'Text', 'Whitespace', 'RawNewline'}      # these are strings as values
                good = not e or b.t == 'i' and (b.a[0] == 0 and e == {'Empty'} or b.a[0] == 1 and 'Empty' not in e)
            else:
                good = b is terms.TRUE
            say(C, R, 'answer', 'truth of ' + k, good, 'the wrong answer: ' + show(r))
    C.ob('answer', R.name + ': every kind', seen >= set(ns), 'no answer for ' + ', '.join(set(ns) - seen))
    say(C, R, 'answer', 'no errors', not errs(R), 'an error')


def poss(R, st, t, path):
    """the possible variants of a term"""
    ns = set(names_of(R.P, path))
    d = R.disc(st, t)
    if d is None:
        return ns
    return {d[1]} if d[0] == '=' else ns - d[1]


def payload(C, t, kind, path=VAL):
    vi = names_of(C.P, path).index(kind)
    return mk('fld', mk('as', t, vi, path), 0, path, '0')


def ws_loop(C, R, src):
    """all rounds and all answers of a loop that looks whether the characters are white space"""
    def src_of(t):
        t = deep(t)
        if t.t == 'app' and t.a[0] == 'elem' and short(t.a[1]) in ('chars', 'bytes') and len(t.a[1].a) == 2:
            return t.a[1].a[1], t.a[2]
        if t.t == 'idx' and t.a[1].t == 'el' and short(t.a[0]) == 'as_bytes':
            return t.a[0].a[1], t.a[1]
        return None, None

    def tests(st):
        out = []
        for k, v in st.facts.items():
            k = deep(k)
            if short(k) == WS and v[0] == '=':
                s, e = src_of(k.a[1])
                out.append((s, e, v[1].a[0]))
        return out
    for st in R.each:
        ts = tests(st)
        good = len(ts) == 1 and ts[0][0] is not None and src(st, ts[0][0]) and ts[0][2] == 1
        say(C, R, 'answer', 'every character', good, 'the search goes on past a character that decides, or without looking at it')
        if good:
            why = R.in_order(ts[0][1], ts[0][0])
            say(C, R, 'answer', 'all characters', why is None, why or '')
    return tests


def sp_str_ws(C, R):
    S_ = R.given('STR')
    tests = ws_loop(C, R, lambda st, x: x is S_)
    seen = set()
    for st, r in oks(R):
        b = R.val(r, 'Bool')
        end = any(e[0] == 'end' for e in st.mon)
        ts = tests(st)
        if end or known(R, st).get(('empty', S_)) is True:
            good = b is terms.TRUE
            seen.add(1)
        else:
            good = b is terms.FALSE and any(s is S_ and v == 0 for s, e, v in ts)
            seen.add(0)
        say(C, R, 'answer', 'the answer', good, 'the wrong answer: ' + show(r))
    C.ob('answer', R.name + ': both answers', seen == {0, 1}, 'only one answer')


def sp_html_ws(C, R):
    H = R.given('HTML')
    text = payload(C, H, 'Text', HTML)
    tests = ws_loop(C, R, lambda st, x: x is text or x.t == 'fld' and x.a[0].t == 'as' and x.a[0].a[0] is H)
    for st, r in oks(R):
        b = R.val(r, 'Bool')
        for k in sorted(poss(R, st, H, HTML)):
            if k in ('Empty', 'Whitespace', 'RawNewline'):
                good = b is terms.TRUE
            elif k == 'Text':
                end = any(e[0] == 'end' for e in st.mon)
                good = b is (terms.TRUE if end else terms.FALSE) and (end or any(v == 0 for s, e, v in tests(st)))
            elif k == 'Sequence':
                good = b is terms.FALSE
            else:
                good = b is terms.FALSE
            say(C, R, 'answer', 'content of kind ' + k, good, 'the wrong answer: ' + show(r))


def sp_html_empty(C, R):
    H = R.given('HTML')
    for st, r in oks(R):
        b = R.val(r, 'Bool')
        e = poss(R, st, H, HTML)
        b = deep(b) if b is not None else None
        if b is not None and b.t == 'i':
            good = b.a[0] == 1 and e == {'Empty'} or b.a[0] == 0 and 'Empty' not in e
        else:
            i = names_of(C.P, HTML).index('Empty')
            good = b is not None and agree(R, st, b, R.I.t_eq(mk('disc', H, HTML), terms.I(C.P.adts[HTML]['variants'][i]['discr'])))
        say(C, R, 'answer', 'the answer', good, 'the wrong answer: ' + show(r))


def sp_same_text(f, kind='Str'):
    def spec(C, R):
        for st, r in oks(R):
            x = R.val(r, kind)
            x = uncast(deep(x)) if x is not None else None
            say(C, R, 'answer', 'the answer', x is not None and f(R, x), 'the wrong answer: ' + show(r))
        say(C, R, 'answer', 'no errors', not errs(R), 'an error')
    return spec


def parts(C, R, source, what='the parts'):
    """a list of just the elements of a source"""
    for st in R.each:
        cs = R.contrib(st)
        good = len(cs) == 1 and cs[0][0] in ('push', 'take')
        x = deep(cs[0][-1]) if good else None
        if good:
            x = R.val(x, 'Str') if R.val(x, 'Str') is not None else x
            x = deep(x)
            good = x.t == 'app' and x.a[0] == 'elem' and source(x.a[1])
        say(C, R, 'parts', what, good, 'not each part once: ' + ', '.join(show(c[-1]) for c in cs))
        if good:
            why = R.in_order(x.a[2], x.a[1])
            say(C, R, 'parts', 'all parts in order', why is None, why or '')
    for st, r in oks(R):
        say(C, R, 'parts', 'result as built', not R.post(st) and any(e[0] == 'end' for e in st.mon), 'the parts are changed afterwards, or not all are looked at')
        say(C, R, 'parts', 'a list', R.val(r, 'List') is not None, 'not a list: ' + show(r))
    C.ob('parts', R.name + ' has rounds', bool(R.each), 'no loop')


def sp_str_split(C, R):
    S_, B = R.given('STR'), R.given('SEP')
    parts(C, R, lambda t: is_app(t, 'split', S_, B))


def sp_regex_split(C, R):
    S_, X = R.given('STR'), R.given('REGEX')
    parts(C, R, lambda t: short(t) == 'split' and len(t.a) == 3 and regex_of(R, t.a[1], X) and t.a[2] is S_)


def sp_count(C, R):
    S_, X = R.given('STR'), R.given('REGEX')
    for st, r in oks(R):
        n = R.val(r, 'Int')
        n = uncast(deep(n)) if n is not None else None
        good = False
        if n is not None and n.t == 'app' and n.a[0] == 'count':
            it = n.a[1]
            base = it.a[0] if it.t == 'iter' else None
            good = bool(base) and not it.a[1] and base[0] == 'opq' and matches(R, deep(base[1]), X, S_)
        elif n is not None and n.t == 'len':
            it = [t for t in subterms(n) if t.t == 'iter']
            good = len(it) == 1 and it[0].a[0][0] == 'opq' and matches(R, deep(it[0].a[0][1]), X, S_) and all(o[0] in ('map', 'cloned') for o in it[0].a[1])
        say(C, R, 'answer', 'the number of matches', good, 'not the number of all matches: ' + show(r))
    say(C, R, 'answer', 'no errors', not errs(R), 'an error')


def matches(R, t, X, S_):
    return short(t) in ('find_iter', 'captures_iter') and len(t.a) == 3 and regex_of(R, t.a[1], X) and t.a[2] is S_


class Match:
    """one match of a regular expression, as a value"""
    def __init__(self, C, R, kindpath):
        self.C, self.R, self.KP = C, R, kindpath
        self.X, self.S = R.given('REGEX'), R.given('STR')

    def match_of(self, t):
        """the match whose groups these are"""
        t = deep(t)
        return t

    def single(self, st, v, m):
        """the value for one whole match (simple expressions): why not, or None"""
        g = self.text(v)
        if g is not None and short(g) == 'get' and g.a[1] is m and g.a[2] is terms.I(0):
            return None
        if g is not None and short(g) == 'index' and g.a[1] is m and g.a[2] is terms.I(0):
            return None
        if g is not None and g.t == 'idx' and g.a[0] is m and g.a[1] is terms.I(0):
            return None
        if v is unit(self.C):
            for k, x in st.facts.items():
                k = deep(k)
                if k.t == 'disc' and short(k.a[0]) == 'get' and k.a[0].a[1] is m and k.a[0].a[2] is terms.I(0) and x[0] == '=' and x[1].a[0] == 0:
                    return None
        return 'not the text of the match: ' + show(v)

    def text(self, v):
        """the group whose text this is"""
        t = self.R.val(v, 'Str')
        if t is None:
            return None
        t = deep(t)
        if short(t) in ('as_str', 'index') and len(t.a) == 2:
            t = deep(t.a[1])
        if t.t == 'fld' and t.a[0].t == 'as':
            t = t.a[0].a[0]
        return t

    def group(self, st, v, skip):
        """an element of a list of groups: the text of a group, or unit where there is none"""
        e = self.text(v)
        if e is None and v is unit(self.C):
            for k, x in st.facts.items():
                k = deep(k)
                if k.t == 'disc' and k.a[0].t == 'app' and k.a[0].a[0] == 'elem' and x[0] == '=' and x[1].a[0] == 0:
                    e = k.a[0]
        if e is None or e.t != 'app' or e.a[0] != 'elem' or short(e.a[1]) != 'iter':
            return None, 'not the text of a group: ' + show(v)
        why = self.skips(e.a[2], skip)
        return e.a[1].a[1], why

    def skips(self, e, n):
        """all elements from the nth on, in order"""
        R = self.R
        got = 0
        for base, ops in R.I.iters.get(e, ()):
            for op in ops:
                if op[0] == 'skip' and isinstance(op[1], int):
                    got += op[1]
                elif op[0] == 'skip' and isinstance(op[1], T) and op[1].t == 'i':
                    got += op[1].a[0]
                elif op[0] in CUT:
                    return 'not all groups in order: ' + op[0]
        if (e.a[0], e.a[1]) in R.I.advanced:
            got += 1
        return None if got == n else 'groups from number %d on, not from %d on' % (got, n)


def kind_path(C, R):
    """the type that says what groups an expression has: a local enum in the regular expression's value"""
    vs = [v for v in C.P.adts[VAL]['variants'] if v['name'] == 'Regex']
    if not vs:
        return None, None
    for p, a in C.P.adts.items():
        if a['local'] and not a['enum'] and a['variants'] and any(C.P.types['papyri_lang'][f[1]]['s'] == 'regex::Regex' for f in a['variants'][0]['fields']):
            for i, f in enumerate(a['variants'][0]['fields']):
                q = C.P.types['papyri_lang'][f[1]].get('p')
                if q in C.P.adts and C.P.adts[q]['enum'] and C.P.adts[q]['local']:
                    return q, i
    return None, None


def variants_by_shape(C, kp):
    """names of the variants without names of groups, and of the one with them"""
    vs = C.P.adts[kp]['variants']
    return [v['name'] for v in vs if not v['fields']], [v['name'] for v in vs if v['fields']]


def kind_on(R, st, kp):
    """the group kind on a path: possible names"""
    for k, v in st.facts.items():
        k = deep(k)
        if k.t == 'disc' and k.a[1] == kp:
            return poss(R, st, k.a[0], kp)
    return set(names_of(R.P, kp))


def sp_find(many):
    def spec(C, R):
        kp, _ = kind_path(C, R)
        if kp is None:
            C.ob('groups', R.name, False, 'the kind of groups of an expression is not known')
            return
        M = Match(C, R, kp)
        X, S_ = M.X, M.S
        named = variants_by_shape(C, kp)[1]
        # which plain kind stands for a simple expression: decided where the expression is compiled
        simple, numbered = compile_kinds(C, R, kp)
        C.ob('groups', R.name + ': kinds', bool(simple and numbered and named), 'the kinds of groups are not told apart')

        def is_match(t):
            t = deep(t)
            if many:
                return t.t == 'app' and t.a[0] == 'elem' and short(t.a[1]) == 'captures_iter' and regex_of(R, t.a[1].a[1], X) and t.a[1].a[2] is S_
            return t.t == 'fld' and t.a[0].t == 'as' and short(t.a[0].a[0]) == 'captures' and regex_of(R, t.a[0].a[0].a[1], X) and t.a[0].a[0].a[2] is S_

        def value(st, v):
            """one match as a value: None, or what is wrong"""
            ks = kind_on(R, st, kp)
            v = deep(v)
            for k in sorted(ks):
                if k in simple:
                    why = 'not the text of the match: ' + show(v)
                    ms = [t for t in list(subterms(v)) + [y for f in st.facts for y in subterms(deep(f))] if is_match(t)]
                    for m in set(ms):
                        why = M.single(st, v, m) if why else why
                elif k in numbered:
                    why = None if R.val(v, 'List') is not None else 'not a list of groups: ' + show(v)
                else:
                    why = None if R.val(v, 'Dict') is not None else 'not a dict of groups: ' + show(v)
                if why:
                    return why
            return None
        seen = set()
        for st in R.each:
            cs = R.contrib(st)
            say(C, R, 'groups', 'one for each', len(cs) == 1 and cs[0][0] in ('take', 'push', 'insert'), '%d results in a round' % len(cs))
            if len(cs) != 1:
                continue
            v = deep(cs[0][-1])
            ks = kind_on(R, st, kp)
            pair = v.t in ('tup', 'arr') or len(cs[0]) == 3
            if pair:
                k_, g = (v.a[0] if v.t in ('tup', 'arr') else cs[0][1:])
                seen.add('named')
                m, why = M.group(st, deep(g), 1)
                k_ = deep(k_)
                kn = k_.t == 'idx' and k_.a[1].t == 'el' and k_.a[0].t == 'fld' and k_.a[0].a[0].t == 'as' and k_.a[0].a[0].a[2] == kp
                say(C, R, 'groups', 'named groups', why is None and m is not None and is_match(m) and ks <= set(named), why or 'groups of something else')
                say(C, R, 'groups', 'names of groups', kn and M.skips(k_.a[1], 0) is None, 'not the name of the group: ' + show(k_))
                continue
            m, why = M.group(st, v, 0)
            if m is not None and is_match(m):
                seen.add('numbered')
                say(C, R, 'groups', 'numbered groups', why is None and ks <= set(numbered), why or 'a list of groups for another kind of expression')
                continue
            if many:
                say(C, R, 'groups', 'the value of a match', value(st, v) is None, value(st, v) or '')
                ms = {t for t in list(subterms(v)) + [y for f in st.facts for y in subterms(deep(f))] if is_match(t)}
                for t in ms:
                    why = R.in_order(t.a[2], t.a[1])
                    say(C, R, 'groups', 'all matches in order', why is None, why or '')
                # what is built in rounds of its own is made of the groups that these rounds add
                built = v.t == 'adt' and len(v.a[2]) == 1 and deep(v.a[2][0]).t in ('lv', 'jn') and not ks <= set(simple)
                say(C, R, 'groups', 'a match of the expression', bool(ms) or built, 'not a match: ' + show(v))
                seen.add('match')
            else:
                say(C, R, 'groups', 'rounds', False, 'neither named nor numbered groups: ' + show(v))
        for st, r in oks(R):
            say(C, R, 'groups', 'result as built', not R.post(st), 'the result is changed afterwards')
            if many:
                say(C, R, 'groups', 'a list', R.val(r, 'List') is not None and any(e[0] == 'end' for e in st.mon), 'not a list of all matches: ' + show(r))
                continue
            none = None
            for k, v in st.facts.items():
                k = deep(k)
                if k.t == 'disc' and short(k.a[0]) in ('captures', 'find') and regex_of(R, k.a[0].a[1], X) and v[0] == '=':
                    none = v[1].a[0] == 0
            if none:
                say(C, R, 'groups', 'no match', r is unit(C), 'the wrong result without a match: ' + show(r))
            else:
                say(C, R, 'groups', 'the value of a match', none is False and value(st, r) is None, value(st, r) or 'it is not asked whether there is a match')
        C.ob('groups', R.name + ': kinds of groups', {'named', 'numbered'} <= seen, 'only ' + ', '.join(sorted(seen)))
        say(C, R, 'groups', 'no errors', not errs(R), 'an error')
    return spec


def compile_kinds(C, R, kp):
    """(kinds given to expressions with no groups, kinds with numbered groups), as the compiling function decides"""
    got = C.__dict__.get('_regex_kinds')
    return got if got else ((), ())


def sp_compile(C, R):
    kp, fi = kind_path(C, R)
    S_ = R.given('SOURCE')
    if kp is None:
        C.ob('groups', R.name, False, 'the kind of groups of an expression is not known')
        return
    plainv, named = variants_by_shape(C, kp)
    new = None
    simple, numbered = set(), set()

    def names_seen(st):
        """what is known about names of groups met: True (has a name), False (has none)"""
        out = []
        for k, v in st.facts.items():
            k = deep(k)
            if k.t == 'disc' and k.a[0].t == 'app' and k.a[0].a[0] == 'elem' and short(k.a[0].a[1]) == 'capture_names' and v[0] == '=':
                out.append((v[1].a[0] == 1, k.a[0].a[2]))
        return out

    def one_group(st):
        for k, v in st.facts.items():
            k = deep(k)
            if k.t == 'eq' and any(short(x) == 'captures_len' for x in k.a) and terms.I(1) in k.a and v[0] == '=':
                return bool(v[1].a[0])
            if k.t == 'lt' and short(k.a[0]) == 'captures_len' and k.a[1] is terms.I(2) and v[0] == '=':
                return bool(v[1].a[0])
            if k.t == 'lt' and short(k.a[1]) == 'captures_len' and k.a[0] is terms.I(1) and v[0] == '=':
                return not v[1].a[0]
        return None
    M = Match(C, R, kp)
    for st in list(R.each) + [s for s, _, _ in R.res]:
        for yes, e in names_seen(st):
            why = M.skips(e, 1)
            say(C, R, 'groups', 'the names of all groups', why is None, why or '')
    for st in R.each:
        ps = [c for c in R.contrib(st) if c[0] in ('push', 'take')]
        for c in ps:
            x = deep(c[-1])
            if x.t == 'adt' and x.a[0] in (OPT, RES):
                if not x.a[2] or x.a[0] == RES and x.a[1] == 1:
                    continue
                x = x.a[2][0]
            src = x.a[1] if x.t == 'app' and x.a[0] == 'id' else None
            good = src is not None and src.t == 'fld' and src.a[0].t == 'as' and src.a[0].a[0].t == 'app' and src.a[0].a[0].a[0] == 'elem' and short(src.a[0].a[0].a[1]) == 'capture_names'
            say(C, R, 'groups', 'names kept', good and len(ps) == 1, 'not the name of a group: ' + show(x))
            if good:
                why = M.skips(src.a[0].a[0].a[2], 1)
                say(C, R, 'groups', 'the names of all groups', why is None, why or '')
    nres = {}
    for st, r in oks(R):
        x = R.val(r, 'Regex')
        if x is None or x.t != 'adt':
            say(C, R, 'groups', 'an expression', False, 'not an expression: ' + show(r))
            continue
        k = deep(x.a[2][fi])
        rx = [deep(y) for i, y in enumerate(x.a[2]) if i != fi]
        good = len(rx) == 1 and rx[0].t == 'fld' and rx[0].a[0].t == 'as' and is_app(rx[0].a[0].a[0], 'new', S_)
        say(C, R, 'groups', 'the expression written', good, 'not the expression as written: ' + ', '.join(map(show, rx)))
        if k.t != 'adt' or k.a[0] != kp:
            say(C, R, 'groups', 'kind of groups', False, 'the kind of groups is not decided: ' + show(k))
            continue
        kn = vname(C.P, k)
        nres[kn] = nres.get(kn, 0) + 1
        seen = [y for y, e in names_seen(st)]
        end = any(e[0] == 'end' for e in st.mon)
        one = one_group(st)
        if kn in named:
            say(C, R, 'groups', 'named only if all are', end and all(seen) and not one, 'an expression with groups without names has named groups')
            say(C, R, 'groups', 'result as built', not R.post(st), 'the names are changed afterwards: ' + ', '.join(R.post(st)))
        elif one:
            simple.add(kn)
        else:
            say(C, R, 'groups', 'numbered only if none has a name', end and not seen and one is False, 'an expression with names or without groups has numbered groups')
            numbered.add(kn)
    say(C, R, 'groups', 'kinds apart', len(nres) == 3 and simple and numbered and not simple & numbered, 'the kinds of groups are not told apart')
    for st, x in errs(R):
        bad = [k for k, v in st.facts.items() if deep(k).t == 'disc' and is_app(deep(k).a[0], 'new', S_) and v[0] == '=' and v[1].a[0] == 1]
        seen = [y for y, e in names_seen(st)]
        mixed = True in seen and False in seen
        ident = any(t.t == 'app' and t.a[0] == 'elem' and short(t.a[1]) == 'capture_names' for t in subterms(x))
        say(C, R, 'groups', 'errors', bool(bad) or mixed or ident, 'an error for a good expression: ' + show(x))
        if mixed:
            nres['mixed'] = 1
        if bad:
            nres['bad'] = 1
    say(C, R, 'groups', 'expressions refused', 'mixed' in nres and 'bad' in nres, 'neither malformed expressions nor such with both kinds of groups are refused')
    C._regex_kinds = (simple, numbered)


def sp_fname(C, R):
    F = R.given('FUNCTION')
    idf = {}
    for st, r in oks(R):
        x = R.val(r, 'Str')
        x = deep(x) if x is not None else None
        good = x is not None and x.t == 'app' and x.a[0] == 'name'
        y = x.a[1] if good else None
        if good:
            d = R.disc(st, F)
            roots = [t for t in subterms(y) if t is F]
            good = bool(roots) and (y.t == 'fld' or y.t == 'app' and y.a[0] == 'nameid')
            if y.t == 'app' and y.a[0] == 'nameid':
                # the name of the function that arguments were bound to
                good = bool(d) and d[1] == 'Bound' or y.a[1] is F
        say(C, R, 'answer', 'the answer', good, 'not the name of the function: ' + show(r))


def sp_escape(name):
    def spec(C, R):
        X = R.given(name)
        for st, r in oks(R):
            x = R.val(r, 'Str')
            x = deep(x) if x is not None else None
            t = strip_text(x) if x is not None else None
            good = t is not None and t.t == 'app' and t.a[0] == 'rendered' and t.a[2] is terms.TRUE
            say(C, R, 'answer', 'rendered as HTML', good, 'not the content rendered as HTML: ' + show(r))
            if good:
                h = t.a[1]
                say(C, R, 'answer', 'the content', content_is(C, R, st, h, X), 'not the content given: ' + show(h))
    return spec


def content_is(C, R, st, h, X):
    """the html is what was given (a string as its text)"""
    h = deep(h)
    if h is X:
        return True
    if h.t == 'adt' and h.a[0] == HTML:
        n = vname(C.P, h)
        k = known(R, st)
        val = [v[1].a[0] for f, v in st.facts.items() if deep(f) is X and v[0] == '=' and v[1].t == 's']
        if n == 'Text':
            return h.a[2][0] is X
        if n == 'Empty':
            return k.get(('empty', X)) is True
        if n == 'Whitespace':
            return val == [' ']
        if n == 'RawNewline':
            return val == ['\n']
    return False


def strip_text(t):
    """what the text was made of"""
    t = deep(t)
    for _ in range(6):
        if t.t == 'fld' and t.a[0].t == 'as':
            t = t.a[0].a[0]
        elif short(t) in ('from_utf8', 'unwrap', 'from', 'into', 'from_utf8_unchecked', 'to_string', 'into_owned', 'from_utf8_lossy', 'as_str') and len(t.a) == 2:
            t = deep(t.a[1])
        else:
            break
    return t


class A(N):
    """also: names of functions, interning and rendering are opaque"""
    def __init__(self, C, nat, V):
        N.__init__(self, C, nat, V)
        self.nameids, self.interns, self.renders, self.texts = set(), set(), set(), set()
        for b in C.lib():
            if b.parent or b.kind in ('closure', 'promoted'):
                continue
            ins = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
            o = b.ty(0)['s']
            if ins == ['&' + FUNC] and o.endswith('NameID'):
                self.nameids.add(b.id)
            if len(ins) == 2 and 'StringPool' in ins[0] and ins[0].startswith('&mut') and o.endswith('NameID'):
                self.interns.add(b.id)
            if len(ins) == 4 and '&' + HTML in ins and 'bool' in ins and o.startswith(RES):
                self.renders.add(b.id)
            if HTML in ins and o in ('std::string::String', RES + '<std::string::String, errors::sink::PapyriError>'):
                self.texts.add(b.id)

        # one that adds to the pool by way of another changes the text before
        self.interns -= {i for i in self.interns if any((c.get('rid') or c.get('id')) in self.interns and (c.get('rid') or c.get('id')) != i for _, c, _, _, _ in C.P.calls(C.P.bodies[i]))}

    def inline(self, I, b):
        if b.id in self.interns or b.id in self.renders:
            return False
        if b.id in self.texts:
            return True
        return N.inline(self, I, b)

    def opaque(self, I, st, ctx, b, args):
        if b.id in self.nameids:
            return [(st, mk('app', 'nameid', deep(I.canon(st, args[0]))))]
        if b.id in self.interns:
            return [(st, mk('app', 'id', deep(I.canon(st, args[1]))))]
        if b.id in self.renders:
            ins = [b.ty(i)['s'] for i in range(1, b.argc + 1)]
            h = args[ins.index('&' + HTML)]
            f = args[ins.index('bool')]
            w = [a for a, s in zip(args, ins) if s.startswith('&mut') ]
            t = mk('app', 'rendered', deep(I.canon(st, h)), deep(I.canon(st, f)))
            for a in w:
                if a.t == 'ref':
                    old = I.rd(st, a.a[0], a.a[1])
                    empty = old.t == 'arr' and not old.a[0] or short(old) in ('new', 'default', 'with_capacity')
                    I.wr(st, a.a[0], a.a[1], t if empty else mk('app', 'appended', old, t))
            return [(st.copy(), ok(UNIT)), (st.copy(), err(mk('app', 'failure', t)))]
        return N.opaque(self, I, st, ctx, b, args)


ANSWERS = {
    'BOOL::AND': sp_bool(lambda R: mk('and', R.given('A'), R.given('B'))),
    'BOOL::OR': sp_bool(lambda R: mk('or', R.given('A'), R.given('B'))),
    'BOOL::NEGATE': sp_bool(lambda R: mk('not', R.given('PARAM'))),
    'BOOL::FROM': sp_truth,
    'STR::ENDS_WITH': sp_two('ends_with'), 'STR::STARTS_WITH': sp_two('starts_with'),
    'STR::IS_EMPTY': sp_bool(lambda R: mk('eq', terms.S(''), R.given('STR'))),
    'STR::IS_WHITESPACE': sp_str_ws,
    'STR::LEN': sp_same_text(lambda R, x: size_of(x) is R.given('STR'), 'Int'),
    'STR::LOWER': sp_same_text(lambda R, x: is_app(x, 'to_lowercase', R.given('STR'))),
    'STR::UPPER': sp_same_text(lambda R, x: is_app(x, 'to_uppercase', R.given('STR'))),
    'STR::TRIM': sp_same_text(lambda R, x: is_app(x, 'trim', R.given('STR'))),
    'STR::FROM': sp_same_text(lambda R, x: x is R.given('PARAM')),
    'STR::SPLIT': sp_str_split,
    'STR::ESCAPE_HTML': sp_escape('STR'), 'HTML::ESCAPE_HTML': sp_escape('HTML'),
    'HTML::IS_EMPTY': sp_html_empty, 'HTML::IS_WHITESPACE': sp_html_ws,
    'FUNCTION::NAME': sp_fname,
    'REGEX::COMPILE': sp_compile,
    'REGEX::TEST': sp_regex_test, 'REGEX::COUNT': sp_count, 'REGEX::SPLIT': sp_regex_split,
    'REGEX::FIND': sp_find(False), 'REGEX::FIND_ALL': sp_find(True),
}


@prop('P25')
def p25(C):
    C.rule('answer', 'the built-in functions on booleans, strings, html and functions answer about their whole arguments')
    C.rule('parts', 'splitting a string gives all its parts, in order')
    C.rule('groups', 'a match is given as its text, the list of its groups or the dict of its named groups, as the expression says')
    from rules import convert
    V = convert.Conv(C)
    nat = Natives(C)
    if nat.body is None or not nat.ids:
        C.floor('built-in functions', 0, 1)
        return
    fs = dict(nat.all())
    n = 0
    for name, spec in ANSWERS.items():
        C.ob('answer', name + ' exists', name in fs, 'there is no such built-in function')
        if name not in fs:
            continue
        n += 1
        R = Run(C, nat, V, name, fs[name], cl=A(C, nat, V))
        C.lastI = R.I
        C.ob('answer', name + ' gives something', any(o for _, o, _ in R.res), 'no path gives a result', nat.body.name)
        spec(C, R)
    C.floor('built-in functions analysed', n, 20)
