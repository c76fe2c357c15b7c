"""Lists whose items must fit together: what is refused, and nothing else. The rounds of the loop over such a list are an automaton (its state:
the loop's own variables); it is compared with the automaton of the language by following both from the start, item by item."""
import itertools
from rules import prop
from rulelib import *
from rules.coerce import names_of, vname, deep
from rules import convert
from rules.natives import *
from rules.access import AST, sig
from rules.exprs import RANGE, NID
from rules.parse import *

SPREAD = AST + 'SpreadKind'
TOP = 3


class Table:
    """one kind of list: the classes of its items, and what is said of an item after a list that is fine so far"""
    def __init__(self, name, errors, atoms, start, judge, step):
        self.name, self.errors, self.atoms, self.start, self.judge, self.step = name, errors, atoms, start, judge, step

    def classes(self):
        ks = list(self.atoms)
        for xs in itertools.product(*[self.atoms[k] for k in ks]):
            yield dict(zip(ks, xs))


NO, POS, NAMED = 'NoSpread', 'Positional', 'Named'


def args_judge(r, c):
    if c['kind'] != NO and c['named'] or c['dup'] and not (c['named'] and r[1]):
        return None
    out = set()
    if c['dup']:
        out.add('ArgDuplicateName')
    if not c['named'] and c['kind'] != NAMED and r[0]:
        out.add('ArgPositionalAfterNamed')
    return out


def args_step(r, c):
    return (int(r[0] or c['named'] or c['kind'] == NAMED), int(r[1] or c['named']))


def params_judge(r, c):
    named, optp, optn, sp, sn, any_ = r
    if c['dup'] and not any_:
        return None
    k, und = c['kind'], c['underscore']
    spread = k != NO
    pos = k == POS if spread else bool(und)
    req = not spread and not c['question_mark'] and not c['default']
    if spread and c['default']:
        return None                 # refused where the parameter itself is read
    out = set()
    if c['dup']:
        out.add('ParamDuplicateName')
    if pos and named:
        out.add('ParamPositionalAfterNamed')
    if req and (optp if pos else optn):
        out.add('ParamRequiredAfterOptional')
    if pos and c['is_implicit']:
        out.add('ParamPositionalImplicit')
    if spread and c['is_implicit']:
        out.add('ParamSpreadImplicit')
    if c['is_implicit'] and c['default']:
        out.add('ParamDefaultImplicit')
    if pos and sp or not pos and sn:
        out.add('ParamMultipleSpread' if spread else 'ParamAfterSpread')
    if k == NAMED and und:
        out.add('ParamNamedSpreadUnderscore')
    if k == POS and not und:
        out.add('ParamPositionalSpreadNoUnderscore')
    return out


def params_step(r, c):
    named, optp, optn, sp, sn, any_ = r
    k = c['kind']
    spread = k != NO
    pos = k == POS if spread else bool(c['underscore'])
    opt = bool(c['question_mark'] or c['default'])
    return (int(named or not pos), int(optp or pos and not spread and opt), int(optn or not pos and not spread and opt), int(sp or k == POS), int(sn or k == NAMED), 1)


def let_judge(r, c):
    if c['kind'] != NO and c['named']:
        return None
    return {'SpreadPositionalNotAllowed'} if c['kind'] == POS else {'SpreadNamedNotAllowed'} if c['kind'] == NAMED else set() if c['named'] else {'DeclPositionalArg'}


def dict_judge(r, c):
    if c['spread']:
        return None if c['dup'] else {'ParamMultipleSpread', 'PatternMultipleSpreads', 'PatternNamedAfterSpread'} if r[0] else set()
    if c['dup'] and not r[1]:
        return None
    out = set()
    if r[0]:
        out.add('PatternNamedAfterSpread')
    if c['dup']:
        out.add('PatternDuplicateName')
    return out


def seq_judge(r, c):
    return {'PatternMultipleSpreads'} if c['spread'] and r[0] else set()


def attr_judge(r, c):
    if c['dup'] and (c['spread'] or not r[0]):
        return None
    return {'TagDuplicateAttr'} if c['dup'] else set()


B2 = (0, 1)
KINDS3 = (NO, POS, NAMED)
TABLES = [
    Table('arguments of a call', {'ArgDuplicateName', 'ArgPositionalAfterNamed'}, {'kind': KINDS3, 'named': B2, 'dup': B2}, (0, 0), args_judge, args_step),
    Table('parameters of a function', {'ParamDuplicateName', 'ParamPositionalAfterNamed', 'ParamRequiredAfterOptional', 'ParamPositionalImplicit', 'ParamSpreadImplicit',
                                       'ParamDefaultImplicit', 'ParamAfterSpread', 'ParamNamedSpreadUnderscore', 'ParamPositionalSpreadNoUnderscore'},
          {'kind': KINDS3, 'underscore': B2, 'question_mark': B2, 'default': B2, 'is_implicit': B2, 'dup': B2}, (0, 0, 0, 0, 0, 0), params_judge, params_step),
    Table('variables that are declared', {'SpreadPositionalNotAllowed', 'SpreadNamedNotAllowed', 'DeclPositionalArg'}, {'kind': KINDS3, 'named': B2}, (), let_judge, lambda r, c: r),
    Table('parts of a dictionary pattern', {'PatternNamedAfterSpread', 'PatternDuplicateName'}, {'spread': B2, 'dup': B2}, (0, 0), dict_judge,
          lambda r, c: (int(r[0] or c['spread']), int(r[1] or not c['spread']))),
    Table('parts of a list pattern', {'PatternMultipleSpreads'}, {'spread': B2}, (0,), seq_judge, lambda r, c: (int(r[0] or c['spread']),)),
    Table('attributes of a tag', {'TagDuplicateAttr'}, {'spread': B2, 'dup': B2}, (0,), attr_judge, lambda r, c: (int(r[0] or not c['spread']),)),
]


def error_names(e):
    """the errors that a report is one of"""
    e = deep(e)
    if e.t == 'adt' and e.a[0].endswith('SyntaxError'):
        return e
    for x in e.a if e.t == 'app' else ():
        if isinstance(x, T):
            y = error_names(x)
            if y is not None:
                return y
    return None


class Auto:
    """the automaton of one loop"""
    def __init__(self, C, U):
        self.C, self.U, self.P, self.I = C, U, C.P, U.I
        self.spreads = names_of(C.P, SPREAD)

    def item(self, t):
        """is the term (part of) the element of a list that is looked at?"""
        t = deep(t)
        while t.t in ('fld', 'as', 'deref', 'box'):
            t = deep(t.a[0])
        return t.t == 'idx' and any(x.t == 'el' for x in subterms(t.a[1]))

    def ev(self, t, env, cls):
        """the value of a term: a number, ('variant', index), or None"""
        t = deep(t)
        if t.t == 'i':
            return t.a[0]
        if t.t == 'adt':
            return ('variant', t.a[1])
        if t.t in ('lv', 'jn'):
            return env.get(t)
        if t.t == 'disc':
            x = deep(t.a[0])
            adt_ = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], str) else getattr(t.a[1], 'a', [None])[0] if len(t.a) > 1 else None
            if adt_ == SPREAD and (self.item(x) or x.t not in ('adt', 'lv', 'jn')):
                return self.spreads.index(cls['kind']) if 'kind' in cls else None
            if x.t == 'fld' and x.a[3] == 'default_value' and 'default' in cls:
                return cls['default']
            if x.t == 'sym' and x.a[0] in ('insert_result',):
                return cls.get('dup')
            if self.item(x) and 'spread' in cls and adt_ in self.P.adts:
                ns = names_of(self.P, adt_)
                if 'Spread' in ns and len(ns) == 2 and x.t == 'idx':
                    i = ns.index('Spread')
                    return i if cls['spread'] else 1 - i
            v = self.ev(x, env, cls)
            return v[1] if isinstance(v, tuple) else None
        if t.t == 'sym' and t.a[0] == 'insert_result' and 'dup' in cls:
            return 1 - cls['dup']
        if t.t == 'app' and isinstance(t.a[0], str):
            n = t.a[0].rsplit('::', 1)[-1]
            if n == 'is_anonymous' and 'named' in cls:
                return 1 - cls['named']
            if n in ('has', 'contains', 'contains_key') and 'dup' in cls and self.item(t.a[-1]):
                return cls['dup']
            return None
        if t.t == 'fld' and self.item(t):
            n = t.a[3]
            if n in cls:
                return cls[n]
            if t.a[0].t == 'sym' and t.a[0].a[0] == 'insert_result':
                return 1 - cls['dup'] if 'dup' in cls else None
            if 'underscore' in cls and t.a[2] != AST + 'Param':
                return cls['underscore']
            return None
        if t.t == 'fld' and t.a[0].t == 'sym' and t.a[0].a[0] == 'insert_result' and 'dup' in cls:
            return 1 - cls['dup']
        if t.t in ('eq', 'lt', 'and', 'or', 'add', 'sub'):
            a, b = self.ev(t.a[0], env, cls), self.ev(t.a[1], env, cls)
            if t.t == 'and' and 0 in (a, b):
                return 0
            if t.t == 'or' and 1 in (a, b):
                return 1
            if a is None or b is None:
                return None
            if t.t == 'eq':
                return int(a == b)
            if not (isinstance(a, int) and isinstance(b, int)):
                return None
            return int(a < b) if t.t == 'lt' else min(a & b if t.t == 'and' else a | b if t.t == 'or' else a + b if t.t == 'add' else a - b, TOP)
        if t.t == 'not':
            a = self.ev(t.a[0], env, cls)
            return None if a is None else 1 - a
        return None

    def agrees(self, st, env, cls, before=()):
        for k, v in st.facts.items():
            if k in before and any(x.t == 'el' for x in subterms(k)):
                continue            # of an item of another list
            if k.t == 'iv':
                x = self.ev(k.a[0], env, cls)
                if isinstance(x, int) and (v[1] is not None and x < v[1] or v[2] is not None and x > v[2]):
                    return False
                continue
            x = self.ev(k, env, cls)
            if x is None:
                continue
            if v[0] == '=':
                c = v[1].a[0] if isinstance(v[1], T) else v[1]
                if c != x:
                    return False
            elif v[0] == '!' and x in {y.a[0] if isinstance(y, T) else y for y in v[1]}:
                return False
        return True

    def named_by(self, e):
        """is it the name of the item that is kept?"""
        for x in e[1:]:
            x = deep(x) if isinstance(x, T) else None
            if x is not None and x.t == 'fld' and self.item(x) and (x.a[3] == 'name_id' or self.I_type(x) == NID):
                return True
        return False

    def I_type(self, x):
        """the type of a part of an item, where it is a field of a variant"""
        a, i = x.a[2], x.a[1]
        d = self.P.adts.get(a)
        if d is None or x.a[0].t != 'as':
            return None
        vs = [v for v in d['variants'] if v['name'] == names_of(self.P, a)[x.a[0].a[1]]]
        return self.P.types['papyri_lang'][vs[0]['fields'][i][1]]['s'] if vs and i < len(vs[0]['fields']) else None

    def at(self, st, lv):
        """what the variable of the loop is in the state"""
        key = lv.a[0]
        v = st.mem.get(key[3])
        for i in key[4:]:
            if v is None:
                return None
            v = deep(v)
            if isinstance(i, int) and v.t == 'adt' and i < len(v.a[2]):
                v = v.a[2][i]
            elif isinstance(i, int) and v.t in ('tup', 'arr') and i < len(v.a[0]):
                v = v.a[0][i]
            else:
                return None
        return v


def loops(U):
    """{(frame, block): {head: (state before, the rounds)}} of the loops as they are in the end"""
    out = {}
    for (ctx, h, st), hd in zip(U.cl.rounds, U.cl.heads_of):
        if hd is None or id(hd[0]) not in U.I.final_heads:
            continue
        i = max([i for i, e in enumerate(st.mon) if e[0] == 'round'] or [-1])
        out.setdefault(hd[1], {}).setdefault(id(hd[0]), (hd[2], hd[0], []))[2].append((st, st.mon[i + 1:]))
    return out


def reports(C, mon):
    rs = [error_names(e[1]) for e in mon if e[0] == 'report']
    return {vname(C.P, e) if e is not None else '?' for e in rs}


def compare(C, U, tab, heads):
    """follow the loop and the language from the start; what is not refused, as {(state, item)}"""
    missed, seen_total = set(), 0
    name = '%s: %s' % (U.body.name, tab.name)
    for entry, head, rounds in heads.values():
        A = Auto(C, U)
        lvs = {x for st, ev in rounds for k in st.facts for x in subterms(k) if x.t in ('lv', 'jn') and x.a[0][0] == 'lv'}
        # what those depend on
        while True:
            more = {y for x in lvs for st, ev in rounds for v in [A.at(st, x)] if v is not None for y in subterms(v) if y.t == 'lv' and y not in lvs and A.at(entry, y) is not None}
            if not more:
                break
            lvs |= more
        lvs = sorted([x for x in lvs if A.at(entry, x) is not None], key=lambda x: str(x.a[0][3:]))
        init = tuple(A.ev(A.at(entry, x), {}, {}) for x in lvs)
        work, seen = [(init, tab.start, ())], set()
        while work:
            imp, ref, path = work.pop(0)
            if (imp, ref) in seen:
                continue
            seen.add((imp, ref))
            if len(seen) > 600:
                C.ob('lists', name, False, 'what is refused depends on more than can be followed', U.body.name)
                return missed
            env = {x: v for x, v in zip(lvs, imp) if v is not None}
            for cls in tab.classes():
                want = tab.judge(ref, cls)
                if want is None:
                    continue
                seen_total += 1
                fit = [(st, ev) for st, ev in rounds if A.agrees(st, env, cls, head.facts)]
                here = path + (describe(cls),)
                got = [reports(C, ev) for st, ev in fit]
                for g in got:
                    if g and not want:
                        C.ob('lists', name + ': nothing else', False, 'refused although nothing is wrong: %s (%s)' % (' then '.join(here), ', '.join(sorted(g))), U.body.name)
                    elif g and not g <= want:
                        C.ob('lists', name + ': the reason', False, 'refused as %s: %s' % (', '.join(sorted(g - want)), ' then '.join(here)), U.body.name)
                if not fit and not want:
                    C.ob('lists', name + ': nothing else', False, 'the list ends at an item with nothing wrong: %s' % ' then '.join(here), U.body.name)
                if want and any(not g for g in got):
                    missed.add((ref, tuple(sorted(cls.items())), ' then '.join(here), ', '.join(sorted(want))))
                if not want:
                    for st, ev in fit:
                        if reports(C, ev):
                            continue
                        if 'dup' in cls and cls.get('named', 1) and not cls.get('spread') and not any(e[0] in ('insert', 'push', 'insert_full') and A.named_by(e) for e in ev):
                            missed.add(('name', (), ' then '.join(here), 'the name is not kept to be compared with those that follow'))
                        vs = [A.ev(A.at(st, x), env, cls) if A.at(st, x) is not None else None for x in lvs]
                        work.append((tuple(vs), tab.step(ref, cls), here))
    C.count('items judged', seen_total)
    return missed


def describe(c):
    out = []
    for k, v in c.items():
        if k == 'kind':
            out.append({NO: 'plain', POS: '*', NAMED: '**'}[v])
        elif v:
            out.append(k)
    return '+'.join(out) or 'plain'


STARS = {'Asterisk', 'DoubleAsterisk'}


def tokens_read(U, st):
    """the kinds of the tokens that were read, in order"""
    return [U.kinds(st, e[1]) for e in st.mon if e[0] == 'took']


def known(st, pred):
    """what is known of the first term for which `pred` holds: 0, 1 or None"""
    for k, v in st.facts.items():
        if v[0] == '=' and isinstance(v[1], T) and v[1].t == 'i' and pred(deep(k)):
            return v[1].a[0]
    return None


def app_named(t, n):
    return t.t == 'app' and isinstance(t.a[0], str) and t.a[0].rsplit('::', 1)[-1] == n or t.t == 'sym' and isinstance(t.a[0], str) and t.a[0].rsplit('::', 1)[-1] == n


def has_tok(ks, names):
    return any(k <= set(names) for k in ks)


def maybe_tok(ks, names):
    return any(k & set(names) for k in ks)


def both(*names):
    """the item has tokens of all these kinds"""
    def f(C, U, st, ks):
        if all(has_tok(ks, n) for n in names):
            return True
        return False if any(not maybe_tok(ks, n) for n in names) else None
    return f


def unnamed(C, U, st, ks):
    """a function without a name where one is needed"""
    a = known(st, lambda k: app_named(k, 'is_anonymous'))
    if a == 0 or a is None and has_tok(ks, ('Name',)):
        return False
    allow = [a for a, s in zip(U.given, sig(U.body)[1:]) if s == 'bool']
    v = known(st, lambda k: any(k is a for a in allow))
    return None if v is None else v == 0


LITERAL = {'Unit', 'Bool', 'Int', 'BareString', 'Verbatim'}


def literal(C, U, st, ks):
    lit = None
    for k, v in st.facts.items():
        if k.t == 'disc' and k.a[1] == AST + 'Expr':
            ns = names_of(C.P, k.a[1])
            ks_ = {ns[v[1].a[0] if isinstance(v[1], T) else v[1]]} if v[0] == '=' else set(ns) - {ns[x.a[0] if isinstance(x, T) else x] for x in v[1]}
            lit = 1 if ks_ <= LITERAL else 0 if not ks_ & LITERAL else None
    exp = [a for a, s in zip(U.given, sig(U.body)[1:]) if s == 'bool']
    e = known(st, lambda k: any(k is a for a in exp))
    if lit == 0 or e == 1:
        return False
    return True if lit == 1 and e == 0 else None


def nothing(C, U, st, ks):
    for k, v in st.facts.items():
        k = deep(k)
        if k.t == 'app' and k.a[0] == 'len' and v[0] == '=':
            return v[1].a[0] == 0
        if k.t == 'eq' and k.a[0].t == 'i' and k.a[0].a[0] == 0 and k.a[1].t == 'app' and k.a[1].a[0] == 'len' and v[0] == '=':
            return v[1].a[0] == 1
        if k.t == 'app' and k.a[0] == 'len' and v[0] == '!' and any((x.a[0] if isinstance(x, T) else x) == 0 for x in v[1]):
            return False
    return None


ITEMS = [
    ('a spread argument with a name', 'ArgSpreadNamed', both(STARS, ('Equals',))),
    ('a spread parameter with a default value', 'ParamSpreadDefault', both(STARS, ('Equals',))),
    ('a function without a name', 'AnonymousFunctionNotAllowed', unnamed),
    ('variables for something that cannot use them', 'LetInLiteral', literal),
    ('a declaration of nothing', 'DeclMissingArgs', nothing),
]


def items(C, us):
    for what, err, pred in ITEMS:
        n, sides = 0, set()
        for U in us:
            rs = [(st, g, x) for st, g, x in U.res]
            if not any(err in reports(C, st.mon) for st, g, x in rs):
                continue
            n += 1
            for st, g, x in rs:
                got = reports(C, st.mon)
                if g is False and err not in got:
                    continue            # something else is wrong
                bad = pred(C, U, st, tokens_read(U, st))
                if bad is None:
                    C.ob('items', '%s: %s: told apart' % (U.body.name, what), err not in got, 'refused on a path on which it is not known to be wrong', U.body.name)
                    continue
                sides.add(bad)
                C.ob('items', '%s: %s' % (U.body.name, what), (err in got) == bad, 'not refused' if bad else 'refused although nothing is wrong', U.body.name)
        C.floor('places that refuse ' + what, n, 1)
        C.ob('items', what + ': both', sides == {True, False}, 'only: %s' % sides)


class Single(Auto):
    """the parameter after the list"""
    def item(self, t):
        t = deep(t)
        while t.t in ('fld', 'as', 'deref', 'box'):
            t = deep(t.a[0])
        return t is self.sub


def content_param(C, us):
    n = 0
    mine = {'ParamContentSpread', 'ParamContentDefault'}
    for U in us:
        if not any(mine & reports(C, st.mon) for st, g, x in U.res):
            continue
        A = Single(C, U)
        for st, g, x in U.res:
            if g is False:
                continue
            subs = [e for e in st.mon if e[0] == 'sub']
            last = [i for i, e in enumerate(st.mon) if e[0] == 'sub']
            rounds_ = [i for i, e in enumerate(st.mon) if e[0] == 'round']
            if not subs:
                continue
            A.sub = deep(subs[-1][1])
            # the last thing read is a parameter
            if not any(A.item(y) and y.t == 'fld' and y.a[2] == AST + 'Param' or y.t == 'disc' and A.item(y.a[0]) and y.a[1] == SPREAD for k in st.facts for y in subterms(k)):
                continue
            n += 1
            got = reports(C, st.mon[last[-1]:])
            listed = has_tok(tokens_read(U, st), ('LPar',))
            for kind in KINDS3:
                for default in B2:
                    for dup in B2 if listed else (0,):
                        c = dict(kind=kind, default=default, dup=dup, question_mark=0, is_implicit=0, underscore=0)
                        if kind != NO and default or not A.agrees(st, {}, c):
                            continue
                        want = ({'ParamDuplicateName'} if dup else set()) | ({'ParamContentSpread'} if kind != NO else set()) | ({'ParamContentDefault'} if default else set())
                        name = U.body.name + ': the parameter for the content'
                        C.ob('items', name, bool(got) == bool(want) and got <= want, ('refused as %s although it is %s' if got else 'not refused%s: %s') % (', '.join(sorted(got)), describe(c)), U.body.name)
    C.floor('ways to end a list of parameters with one for the content', n, 2)


@prop('P34')
def p34(C):
    C.rule('items', 'an argument, parameter or declaration that is ill-formed in itself is refused, and no other')
    C.rule('lists', 'an item of a list is refused where, and only where, it does not fit with the items before it')
    V, nat, G = convert.Conv(C), Natives(C), Grammar(C)
    us = units_of(C, nat, V, G)
    found = {t.name: 0 for t in TABLES}
    for U in us:
        ls = loops(U)
        for tab in TABLES:
            mine = [hs for hs in ls.values() if any(reports(C, ev) & tab.errors for _, _, rs in hs.values() for st, ev in rs)]
            if not mine:
                continue
            found[tab.name] += 1
            ms = [compare(C, U, tab, hs) for hs in mine]
            both = set.intersection(*[{m[:2] for m in x} for x in ms])
            name = '%s: %s' % (U.body.name, tab.name)
            bad = sorted((m for x in ms for m in x if m[:2] in both), key=lambda m: len(m[2]))
            C.ob('lists', name + ': refused', not bad, 'not refused: %s (%s)' % (bad[0][2:] if bad else ('', '')), U.body.name)
    items(C, us)
    content_param(C, us)
    for t in TABLES:
        C.floor('loops over the ' + t.name, found[t.name], 1)
