"""Expressions: literals, lists, templates, let, exports, function definitions; tags."""
from rules import prop
from rulelib import *
from rules.coerce import names_of, vname, walk, deep
from rules.natives import *
from rules.answers import payload, known, poss
from rules.access import Acc, AST, sig, field_type

EXPR = AST + 'Expr'
RANGE = 'utils::sourcefile::SourceRange'
ADDS = ('push', 'push_str', 'add_assign', 'extend', 'extend_from_slice', 'append', 'take', 'insert', 'insert_str', 'write_str', 'write_char')

END = tuple(x for x in ADDS if x not in ('insert', 'insert_str'))


class Ev(Acc):
    """events: also text added to strings, and effects of the operations given as opaque"""
    def call(self, I, st, ctx, name, args, cal):
        short = name.rsplit('::', 1)[-1]
        if short in ('add_assign', 'insert_str', 'write_str', 'write_char', 'write_fmt') and args:
            self.note(st, (short,) + tuple(deep(I.canon(st, a)) for a in args[1:]))
        return Acc.call(self, I, st, ctx, name, args, cal)


def noting(n, res=False, give=None):
    """an operation with an effect"""
    def f(I, st, ctx, b, args):
        a = tuple(deep(I.canon(st, x)) for x in args[1:])
        out = []
        s = st.copy()
        I.c.note(s, (n,) + a)
        out.append((s, ok(mk('tup')) if res else give(*a) if give else mk('tup')))
        if res:
            out.append((st.copy(), err(mk('app', 'failure', mk('app', n, *a)))))
        return out
    return f


def opaque(n, res, skip=1, noted=False):
    def f(I, st, ctx, b, args):
        t = mk('app', n, *[deep(I.canon(st, a)) for a in args[skip:]])
        if noted:
            st = st.copy()
            I.c.note(st, (n,) + t.a[1:])
        return [(st.copy(), ok(t)), (st.copy(), err(mk('app', 'failure', t)))] if res else [(st, t)]
    return f


def operations(C):
    ops = {}
    for b in C.lib():
        if b.parent or b.kind in ('closure', 'promoted') or not b.argc:
            continue
        s = sig(b)
        if len(s) == 2 and s[1] == '&' + FUNC and s[0] == NID:
            ops.setdefault('called as', []).append(b)
        if 'Compiler<' not in s[1] and 'Context' not in s[1]:
            continue

        def is_(k, *want):
            if len(s) == len(want) + 2 and all(w(x) if callable(w) else x == w for w, x in zip(want, s[2:])):
                ops.setdefault(k, []).append(b)
        val = s[0].startswith(RES + '<' + VAL)
        if 'Compiler<' in s[1]:
            if val:
                is_('eval', '&' + EXPR, '&' + TYPE)
                is_('named', '&' + AST + 'Name', '&' + TYPE)
                is_('call', '&' + AST + 'FuncCall', '&' + TYPE)
                is_('match', '&' + AST + 'Match', '&' + TYPE)
                is_('coerced', VAL, '&' + TYPE)
                is_('let', '&' + AST + 'LetIn', '&' + TYPE, 'bool')
            is_('tag', '&' + AST + 'Tag')
            is_('fdef', '&' + AST + 'FuncDef')
            is_('export', '&' + AST + 'Export')
            is_('signature', '&' + AST + 'Signature')
            if s[0] == HTML and len(s) >= 4 and s[2] == '&[%sAST]' % AST:
                ops.setdefault('sequence', []).append(b)
            if s[0] == '()':
                is_('set', NID, VAL, 'bool', RANGE)
                is_('exported', NID, VAL, RANGE)
            if s[0].endswith('AlreadyReported') and len(s) == 4 and s[3] == RANGE:
                ops.setdefault('report', []).append(b)
            if s[0] == '&str':
                is_('source', RANGE)
        if len(s) == 2 and 'Compiler<' in s[1] and s[0].startswith('&') and s[0].endswith('frame::ActiveFrame') and 'mut' not in s[0]:
            ops.setdefault('frame', []).append(b)
    return ops


NID = 'utils::string_pool::NameID'


class Unit:
    """the paths of one operation, all others being opaque"""
    def __init__(self, C, nat, V, ops, kind, open_=(), cls=Ev, more=None):
        self.C, self.P, self.ops = C, C.P, ops
        self.body = max(ops[kind], key=lambda b: len(b.blocks))
        P = C.P
        ex = {}
        for k, bs in ops.items():
            if k in open_:
                continue
            for b in bs:
                if k in ('set', 'exported', 'export'):
                    ex[b.id] = noting(k, b.ty(0)['s'].startswith(RES))
                elif k == 'frame':
                    ex[b.id] = opaque(k, False)
                elif k == 'report':
                    ex[b.id] = opaque(k, False, noted=True)
                else:
                    ex[b.id] = opaque(k, b.ty(0)['s'].startswith(RES), 0 if k == 'called as' else 1, noted=k == 'let')
        if more:
            ex.update(more)
        self.cl = cls(C, nat, V, extra=ex)
        self.I = I = ai.Interp(P, self.cl, 900000)
        I.CAP = 800
        self.cl.I = I
        self.args = [I.symarg(self.body, i + 1) for i in range(self.body.argc)]
        self.outs = I.run(self.body.id, args=list(self.args), st=ai.State(mon=()))
        C.explored.append((self.body.name, len(self.outs), I.steps, len(I.visited)))
        R = Run.__new__(Run)
        R.C, R.P, R.name, R.nat, R.cl, R.I = C, P, kind, nat, self.cl, I
        self.R = R
        self.res = []
        for st, r in self.outs:
            r = deep(I.canon(st, r))
            if r.t == 'adt' and r.a[0] == RES:
                self.res.append((st, r.a[1] == 0, r.a[2][0] if r.a[2] else None))
            else:
                self.res.append((st, None, r))
        self.each = [st for _, st in self.cl.ends]

    def arg(self, i):
        return deep(self.I.canon(ai.State(), self.args[i]))


def adds(st):
    return [e for e in st.mon if e[0] in ADDS]


def part(C, t, base, kind, adt=EXPR):
    """the term is (within) the payload of this variant of the node"""
    t = deep(t)
    return t.t == 'fld' and deep(t.a[0]).t == 'as' and deep(t.a[0]).a[0] is base and deep(t.a[0]).a[1] == names_of(C.P, adt).index(kind)


def failures(x):
    return [t for t in subterms(x) if t.t == 'app' and t.a[0] == 'failure'] if x is not None else []


@prop('P27')
def p27(C):
    P = C.P
    C.rule('literal', 'a literal, a group, a tag or a function is the value written; other expressions are what their kind means; each as the type expected')
    C.rule('list', 'a list has the values of its items in order, and for a spread item those of the elements of its value')
    C.rule('template', 'a template is its parts in order')
    C.rule('let', 'a let declares each name with its value, in order, before its body is evaluated')
    C.rule('export', 'what is exported is recorded under its name with its value; a second export of a name is reported')
    C.rule('define', 'a function has the name, signature and body it was defined with')
    from rules import convert
    V = convert.Conv(C)
    nat = Natives(C)
    if nat.body is None or not nat.ids:
        C.floor('built-in functions', 0, 1)
        return
    ops = operations(C)
    for k in ('eval', 'named', 'call', 'match', 'coerced', 'let', 'tag', 'fdef', 'export', 'signature', 'sequence', 'set', 'exported', 'report', 'source', 'frame'):
        C.floor('operation ' + k, len(ops.get(k, ())), 1)
    if any(k not in ops for k in ('eval', 'let', 'export', 'exported', 'fdef')):
        return
    expressions(C, nat, V, ops)
    lets(C, nat, V, ops)
    exports(C, nat, V, ops)
    definitions(C, nat, V, ops)


def expressions(C, nat, V, ops):
    P = C.P
    U = Unit(C, nat, V, ops, 'eval')
    C.lastI = U.I
    R, b = U.R, U.body
    node, hint = U.arg(1), U.arg(2)
    seen = {}
    text = []
    for st, good, x in U.res:
        ks = poss(R, st, node, EXPR)
        C.ob('literal', 'kind', len(ks) == 1, 'expressions of different kinds are not told apart: ' + ', '.join(sorted(ks)), b.name)
        if len(ks) != 1:
            continue
        k = ks.pop()
        if good is False:
            failed(C, 'literal', k, R, st, x, node, hint, b)
            continue
        C.ob('literal', 'result', good is True, 'not a result: ' + show(x), b.name)
        if not good:
            continue
        seen[k] = seen.get(k, 0) + 1
        why = value(C, R, st, k, x, node, hint)
        rule = {'List': 'list', 'Template': 'template'}.get(k, 'literal')
        C.ob(rule, k, why is None, why or '', b.name)
    for k in names_of(P, EXPR):
        C.ob('literal', 'value of ' + k, k in seen, 'no path gives a value', b.name)
    # rounds of the loops over items and parts
    rounds = {}
    for st in U.each:
        ks = poss(R, st, node, EXPR)
        if len(ks) != 1:
            continue
        k = ks.pop()
        if k == 'List':
            why = item(C, R, st, node, rounds)
            C.ob('list', 'each item', why is None, why or '', b.name)
        elif k == 'Template':
            why = piece(C, R, st, node, rounds)
            C.ob('template', 'each part', why is None, why or '', b.name)
    for k in ('single', 'spread', 'Literal', 'LiteralChar', 'Name', 'Whitespace', 'nothing'):
        C.ob('list' if k in ('single', 'spread') else 'template', 'rounds: ' + k, rounds.get(k, 0) > 0, 'no round for this', b.name)


def value(C, R, st, k, x, node, hint):
    """why this is not the value of an expression of kind k"""
    def sub(n):
        if x.t == 'app' and x.a[0] == n and part(C, x.a[1], node, k) and x.a[2] is hint:
            return None
        return 'not what the expression means: ' + show(x)
    if k == 'Name':
        return sub('named')
    if k == 'FuncCall':
        return sub('call')
    if k == 'Match':
        return sub('match')
    if k == 'LetIn':
        if x.t == 'app' and x.a[0] == 'let':
            return sub('let') or (None if x.a[3] is terms.I(0) else 'the variables are exported')
        return 'not what the expression means: ' + show(x)
    if not (x.t == 'app' and x.a[0] == 'coerced' and x.a[2] is hint):
        return 'not as the type expected: ' + show(x)
    v = x.a[1]
    pay = lambda n: deep(v.a[2][0]) if v.t == 'adt' and v.a[0] == VAL and vname(R.P, v) == n else None
    bad = 'not the value written: ' + show(v)
    if k == 'Unit':
        return None if v is unit(C) else bad
    if k in ('Bool', 'Int'):
        return None if pay(k) is not None and part(C, pay(k), node, k) else bad
    if k in ('BareString', 'Verbatim'):
        t = pay('Str')
        if t is None:
            return bad
        src = [y for y in subterms(t) if y.t == 'app' and y.a[0] == 'source']
        if len(src) != 1 or not part(C, src[0].a[1], node, k):
            return bad
        if k == 'BareString':
            return None if bare(t) is src[0] else bad
        return None if quoted(bare(t), src[0]) else bad
    if k == 'FuncDef':
        t = pay('Func')
        return None if t is not None and t.t == 'app' and t.a[0] == 'fdef' and part(C, t.a[1], node, k) else bad
    if k == 'Tag':
        t = pay('HTML')
        return None if t is not None and t.t == 'adt' and vname(R.P, t) == 'Tag' and deep(t.a[2][0]).t == 'app' and deep(t.a[2][0]).a[0] == 'tag' and part(C, deep(t.a[2][0]).a[1], node, k) else bad
    if k == 'Group':
        s = [y for f in list(st.facts) + [v] for y in subterms(deep(f)) if y.t == 'app' and y.a[0] == 'sequence']
        s = set(s)
        if len(s) != 1:
            return bad
        s = s.pop()
        if not part(C, s.a[1], node, k):
            return bad
        kinds = poss(R, st, s, HTML)
        t = pay('HTML')
        if t is s:
            return None
        t = pay('Str')
        if t is None:
            return bad
        if kinds == {'Text'}:
            return None if t is payload(C, s, 'Text', HTML) or deep(t).t == 'fld' and deep(deep(t).a[0]).t == 'as' and deep(deep(t).a[0]).a[0] is s else bad
        if kinds == {'Whitespace'}:
            return None if t is terms.S(' ') else bad
        if kinds == {'RawNewline'}:
            return None if t is terms.S('\n') else bad
        return bad
    if k == 'List':
        if v.t != 'adt' or vname(R.P, v) != 'List':
            return bad
        t = deep(v.a[2][0])
        if t.t == 'adt' and t.a[0] == SLICE:
            t0 = deep(t.a[2][0])
            rest = [deep(y) for y in t.a[2][1:]]
            if rest[:1] != [terms.I(0)] or rest[1] is not deep(R.I.t_len(st, t0)) and rest[1] is not mk('len', t0):
                return 'not the whole list: ' + show(t)
            t = t0
        if R.post(st):
            return 'the list is changed afterwards: ' + ', '.join(R.post(st))
        if not any(e[0] == 'end' for e in st.mon):
            return 'not all items are evaluated'
        return None if t.t in ('lv', 'hv', 'jn', 'app') and not failures(t) else bad
    if k == 'Template':
        t = pay('Str')
        if t is None:
            return bad
        if not any(e[0] == 'end' for e in st.mon):
            return 'not all parts are used'
        return None if t.t in ('lv', 'hv', 'jn') else 'the text is changed: ' + show(t)
    return 'a kind of expression that is not known'


def quoted(t, src):
    """the text between the quotes: without the quotes at both ends"""
    cut = []
    while t.t == 'app' and isinstance(t.a[0], str) and t.a[0].rsplit('::', 1)[-1].startswith('trim') and len(t.a) == 3:
        if t.a[2] not in (terms.I(96), terms.S('`')):
            return False
        cut.append(t.a[0].rsplit('::', 1)[-1])
        t = bare(deep(t.a[1]))
    if t is src:
        return sorted(cut) in (['trim_matches'], ['trim_end_matches', 'trim_start_matches'])
    if t.t in ('app', 'slice', 'substr') and not cut:
        k = [y for y in subterms(t) if y is src]
        lo = [y for y in subterms(t) if y.t == 'i']
        return bool(k) and terms.I(1) in lo
    return False


def failed(C, rule, k, R, st, x, node, hint, b):
    """an expression fails only when a part of it does, or its value is not of the type expected"""
    if failures(x):
        inner = [f.a[1] for f in failures(x)]
        ok_ = all(f.t == 'app' and f.a[0] == 'coerced' or any(part(C, y, node, k) or y is node for y in subterms(f)) for f in inner)
        C.ob(rule, k + ' fails', ok_, 'it fails for another reason: ' + show(x), b.name)
        return
    if k == 'FuncDef':
        ts = poss(R, st, hint, TYPE)
        C.ob(rule, k + ' fails', ts <= {'Html', 'Block', 'Inline'}, 'a function is refused where it may be given', b.name)
        return
    C.ob(rule, k + ' fails', False, 'it fails without a reason: ' + show(x), b.name)


def element(C, R, t, node, k):
    """the term is (a part of) an arbitrary item of the node, in order"""
    t = deep(t)
    while t.t in ('fld', 'as'):
        t = deep(t.a[0])
    if t.t != 'idx' or t.a[1].t != 'el':
        return None, 'not an item: ' + show(t)
    if not part(C, t.a[0], node, k):
        return None, 'items of something else: ' + show(t.a[0])
    return t, R.in_order(t.a[1], t.a[0])


def item(C, R, st, node, rounds):
    cs = adds(st)
    spread = None
    el = None
    for f, v in st.facts.items():
        d = deep(f)
        if d.t == 'fld' and deep(d.a[0]).t == 'idx' and v[0] == '=' and v[1].t == 'i' and part(C, deep(d.a[0]).a[0], node, 'List'):
            spread = bool(v[1].a[0])
            el = deep(d.a[0])
    if spread is None:
        return 'it is not looked at whether an item is spread'

    def evaluated(t, of=0):
        t = deep(t)
        if t.t == 'app' and t.a[0] == 'eval':
            x = deep(t.a[1])
            return x.t == 'fld' and deep(x.a[0]) is el
        return False
    if len(cs) == 0 and spread and st.mon and st.mon[-1][0] == 'end':
        return None     # the elements were added one by one
    if len(cs) != 1:
        return '%d steps for an item' % len(cs)
    e, why = element(C, R, el, node, 'List')
    if why:
        return why
    n, x = cs[0][0], deep(cs[0][-1])
    if not spread:
        rounds['single'] = rounds.get('single', 0) + 1
        return None if n in ('push', 'take') and evaluated(x) else 'not the value of the item: ' + show(x)
    rounds['spread'] = rounds.get('spread', 0) + 1

    def of_list(t):
        t = deep(t)
        while t.t == 'app' and t.a[0] in ('items', 'converted', 'to_vec', 'slice.as_ref') or t.t == 'fld' and deep(t.a[0]).t == 'as':
            t = deep(t.a[1]) if t.t == 'app' else deep(deep(t.a[0]).a[0])
        return evaluated(t)
    if n in ('extend', 'extend_from_slice', 'append'):
        if x.t == 'iter':
            if any(o[0] not in ('cloned', 'copied') for o in x.a[1]):
                return 'not the elements as they are'
            if x.a[0][0] not in ('slice', 'own') or not isinstance(x.a[0][1], T):
                return 'not the elements'
            x = x.a[0][1]
        return None if of_list(x) else 'elements of something else: ' + show(x)
    if n in ('push', 'take') and x.t == 'idx' and x.a[1].t == 'el' and of_list(x.a[0]):
        return R.in_order(x.a[1], x.a[0])
    return 'not an element of the value: ' + show(x)


def piece(C, R, st, node, rounds):
    cs = adds(st)
    el = None
    PART = AST + 'TemplatePart'
    for f, v in st.facts.items():
        d = deep(f)
        if d.t == 'disc' and deep(d.a[0]).t == 'idx' and part(C, deep(d.a[0]).a[0], node, 'Template'):
            el = deep(d.a[0])
    if el is None:
        return 'the kind of the part is not looked at'
    e, why = element(C, R, el, node, 'Template')
    if why:
        return why
    ks = poss(R, st, el, PART)
    if len(ks) != 1:
        return 'parts of different kinds are not told apart'
    k = ks.pop()
    if k == 'Name':
        v = None
        for f in st.facts:
            d = deep(f)
            if d.t == 'disc' and deep(d.a[0]).t == 'app' and deep(d.a[0]).a[0] == 'converted':
                v = deep(d.a[0])
        nm = deep(v.a[1]) if v is not None else None
        if nm is None:
            # tested as the unit value
            for f in st.facts:
                for y in subterms(deep(f)):
                    if y.t == 'app' and y.a[0] == 'named':
                        nm = y
        if nm is None or nm.t != 'app' or nm.a[0] != 'named' or not part(C, nm.a[1], el, k, PART):
            return 'not the value of the name'
        some_ = R.is_variant(st, v, 'Some') if v is not None else None
        if some_ is False:
            rounds['nothing'] = rounds.get('nothing', 0) + 1
            return None if not cs else 'something is added for nothing'
        if some_ is None:
            return 'it is not looked at whether there is a value'
        rounds[k] = rounds.get(k, 0) + 1
        if len(cs) != 1:
            return '%d texts for a name' % len(cs)
        if cs[0][0] not in END:
            return 'not put at the end'
        x = bare(deep(cs[0][-1]))
        return None if x.t == 'fld' and deep(x.a[0]).t == 'as' and deep(x.a[0]).a[0] is v else 'not the text of the value: ' + show(x)
    rounds[k] = rounds.get(k, 0) + 1
    if len(cs) != 1:
        return '%d texts for a part' % len(cs)
    if cs[0][0] not in END:
        return 'not put at the end'
    x = bare(deep(cs[0][-1]))
    if k == 'Literal':
        return None if x.t == 'app' and x.a[0] == 'source' and part(C, x.a[1], el, k, PART) else 'not the text written: ' + show(x)
    if k == 'LiteralChar':
        return None if part(C, x, el, k, PART) else 'not the character written: ' + show(x)
    if k == 'Whitespace':
        return None if x is terms.S(' ') or x is terms.I(32) else 'not a space: ' + show(x)
    return 'a kind of part that is not known'


def lets(C, nat, V, ops):
    P = C.P
    U = Unit(C, nat, V, ops, 'let')
    R, b = U.R, U.body
    node, hint, exp = U.arg(1), U.arg(2), U.arg(3)
    n = 0
    for st, good, x in U.res:
        if good is False:
            C.ob('let', 'fails', bool(failures(x)) and all(f.a[1].t == 'app' and f.a[1].a[0] in ('eval', 'exported', 'set') for f in failures(x)), 'it fails for another reason: ' + show(x), b.name)
            continue
        n += 1
        C.ob('let', 'value', x is not None and x.t == 'app' and x.a[0] == 'eval' and of_node(x.a[1], node) and field_type(C, deep(x.a[1])).endswith(EXPR) and x.a[2] is hint, 'not the value of the body: ' + show(x), b.name)
        C.ob('let', 'all names', any(e[0] == 'end' for e in st.mon), 'the body is evaluated before all names are declared', b.name)
    C.ob('let', 'has a value', n > 0, 'no path gives a value', b.name)
    rounds = {0: 0, 1: 0}
    for st in U.each:
        why = declared(C, R, st, node, exp, rounds)
        C.ob('let', 'each name', why is None, why or '', b.name)
    for k in rounds:
        C.ob('let', 'rounds: ' + ('exporting' if k else 'not exporting'), rounds[k] > 0, 'no round for this', b.name)


def of_node(t, node):
    t = deep(t)
    return t.t == 'fld' and deep(t.a[0]) is node


def declared(C, R, st, node, exp, rounds):
    ev = [e for e in st.mon if e[0] in ('set', 'exported')]
    want = known_flag(st, exp)
    if want is None:
        return 'it is not looked at whether the names are exported'
    rounds[want] += 1
    sets = [e for e in ev if e[0] == 'set']
    exps = [e for e in ev if e[0] == 'exported']
    if len(sets) != 1:
        return 'a name is declared %d times' % len(sets)
    nm, v, imp = [deep(y) for y in sets[0][1:4]]
    el = deep(nm.a[0]) if nm.t == 'fld' else None
    if el is None or el.t != 'idx' or el.a[1].t != 'el' or not of_node(el.a[0], node):
        return 'not the name declared: ' + show(nm)
    why = R.in_order(el.a[1], el.a[0])
    if why:
        return why
    if not (v.t == 'app' and v.a[0] == 'eval' and deep(v.a[1]).t == 'fld' and deep(deep(v.a[1]).a[0]) is el):
        return 'not the value given for this name: ' + show(v)
    if not (of_node(imp, node) and field_type(C, imp) == 'bool'):
        return 'not implicit as declared: ' + show(imp)
    if want and (len(exps) != 1 or deep(exps[0][1]) is not nm or deep(exps[0][2]) is not v):
        return 'it is not exported under its name with its value'
    if not want and exps:
        return 'it is exported'
    return None


def known_flag(st, t):
    for k, v in st.facts.items():
        if deep(k) is t and v[0] == '=' and v[1].t == 'i':
            return v[1].a[0]
    return None


def exports(C, nat, V, ops):
    P = C.P
    U = Unit(C, nat, V, ops, 'export')
    R, b = U.R, U.body
    node = U.arg(1)
    EX = AST + 'Export'
    seen = set()
    for st, good, x in U.res:
        ks = poss(R, st, node, EX)
        C.ob('export', 'kind', len(ks) == 1, 'exports of different kinds are not told apart', b.name)
        if len(ks) != 1:
            continue
        k = ks.pop()
        if good is False:
            C.ob('export', k + ' fails', bool(failures(x)), 'it fails without a reason: ' + show(x), b.name)
            continue
        seen.add(k)
        ev = [e for e in st.mon if e[0] in ('set', 'exported')]
        if k == 'Names':
            C.ob('export', k + ' all', any(e[0] == 'end' for e in st.mon), 'not all names are exported', b.name)
        elif k == 'FuncDef':
            f = [y for e in ev for a in e[1:] if isinstance(a, T) for y in subterms(a) if y.t == 'app' and y.a[0] == 'fdef']
            f = set(f)
            C.ob('export', k, len(f) == 1 and sorted(e[0] for e in ev) == ['exported', 'set'], 'the function is not declared and exported once each', b.name)
            if len(f) != 1:
                continue
            f = f.pop()
            C.ob('export', k + ' function', part(C, f.a[1], node, k, EX), 'another function is exported: ' + show(f), b.name)
            for e in ev:
                v = deep(e[2])
                C.ob('export', k + ' value', v.t == 'adt' and vname(P, v) == 'Func' and deep(v.a[2][0]) is f, 'another value: ' + show(v), b.name)
                C.ob('export', k + ' name', named_after(C, deep(e[1]), f, node, EX), 'another name: ' + show(e[1]), b.name)
                if e[0] == 'set':
                    C.ob('export', k + ' implicit', deep(e[3]) is terms.I(0), 'it is declared implicit', b.name)
        elif k == 'LetIn':
            C.ob('export', k + ' directly', not ev, 'more is exported: ' + ', '.join(e[0] for e in ev), b.name)
            lt = [y for f in st.facts for y in subterms(deep(f)) if y.t == 'app' and y.a[0] == 'let']
            ran = [e for e in st.mon if e[0] == 'let']
            C.ob('export', k, len(ran) == 1 and part(C, deep(ran[0][1]), node, k, EX) and deep(ran[0][3]) is terms.I(1), 'the let is not evaluated with its names exported', b.name)
    for k in names_of(P, EX):
        C.ob('export', 'paths: ' + k, k in seen, 'no path for this', b.name)
    n = 0
    for st in U.each:
        ev = [e for e in st.mon if e[0] in ('set', 'exported')]
        n += 1
        why = None
        if [e[0] for e in ev] != ['exported']:
            why = 'a name is not exported just once'
        else:
            nm, v = deep(ev[0][1]), deep(ev[0][2])
            el = deep(nm.a[0]) if nm.t == 'fld' else None
            if el is None or el.t != 'idx' or el.a[1].t != 'el' or not part(C, el.a[0], node, 'Names', EX):
                why = 'not the name: ' + show(nm)
            else:
                why = R.in_order(el.a[1], el.a[0])
                if not why and not (v.t == 'app' and v.a[0] == 'eval' and deep(v.a[1]).t == 'fld' and deep(deep(v.a[1]).a[0]) is el):
                    why = 'not the value given for this name: ' + show(v)
        C.ob('export', 'each name', why is None, why or '', b.name)
    C.ob('export', 'rounds', n > 0, 'no loop over the names', b.name)
    # recording
    U = Unit(C, nat, V, ops, 'exported')
    R, b = U.R, U.body
    nm, v = U.arg(1), U.arg(2)
    warn = {0: 0, 1: 0}
    for st, good, x in U.res:
        ins = [e for e in st.mon if e[0] in ('insert', 'insert_full')]
        C.ob('export', 'recorded', len(ins) == 1 and deep(ins[0][1]) is nm and deep(ins[0][2]) is v, 'it is not recorded under its name with its value: %s' % (ins,), b.name)
        rep = [e for e in st.mon if e[0] == 'report']
        again = None
        for f, w in st.facts.items():
            k = known_before(f, w, nm)
            again = k if k is not None else again
        C.ob('export', 'told apart', again is not None, 'it is not looked at whether the name was exported before', b.name)
        if again is not None:
            warn[int(again)] += 1
            C.ob('export', 'reported', bool(rep) == again, 'a second export is not reported' if again else 'a first export is reported', b.name)
    C.ob('export', 'both ways', all(warn.values()), 'first and second exports are not told apart', b.name)


def known_before(f, v, key=None):
    """does this fact say that the key is in the map (True) or not (False)?"""
    d = deep(f)
    if v[0] != '=' or v[1].t != 'i' or v[1].a[0] not in (0, 1):
        return None
    if d.t == 'disc':
        d = deep(d.a[0])
        names = ('insert_result', 'get', 'map_get')
    else:
        names = ('has', 'contains', 'contains_key')
    if d.t not in ('app', 'sym') or d.a[0] not in names or d.t == 'app' and key is not None and not any(y is key for y in subterms(d)):
        return None
    return v[1].a[0] == 1


def named_after(C, t, f, node, EX):
    """the name is the one in the definition, or the name of the function made of it"""
    if t.t == 'fld' and 'NameID' in field_type(C, t):
        return any(y is deep(f.a[1]) or y is f for y in subterms(t))
    return t.t == 'app' and any(y is f for y in subterms(t))


def definitions(C, nat, V, ops):
    P = C.P
    U = Unit(C, nat, V, ops, 'fdef')
    R, b = U.R, U.body
    d = U.arg(1)
    n = 0
    for st, good, x in U.res:
        n += 1
        f = [y for y in subterms(x) if y.t == 'adt' and y.a[0] not in (FUNC,) and len(y.a[2]) >= 3]
        C.ob('define', 'a function', x.t == 'adt' and x.a[0] == FUNC and len(f) >= 1, 'not a function: ' + show(x), b.name)
        if not f:
            continue
        f = f[0]
        fs = {i: (field[0], P.types['papyri_lang'][field[1]]['s']) for i, field in enumerate(P.adts[f.a[0]]['variants'][0]['fields'])}
        for i, (name, ty) in fs.items():
            v = deep(f.a[2][i])
            if ty == NID:
                C.ob('define', 'name', of_node(v, d) and field_type(C, v) == NID, 'another name: ' + show(v), b.name)
            elif 'Expr' in ty:
                C.ob('define', 'body', of_node(v, d) and 'Expr' in field_type(C, v), 'another body: ' + show(v), b.name)
            elif 'Signature' in ty:
                C.ob('define', 'signature', v.t == 'app' and v.a[0] == 'signature' and of_node(v.a[1], d), 'another signature: ' + show(v), b.name)
    C.ob('define', 'paths', n > 0, 'no path', b.name)
    # the name a function is declared under
    if not ops.get('called as'):
        return
    U = Unit(C, nat, V, ops, 'called as')
    R, b = U.R, U.body
    f = U.arg(0)
    seen = set()
    for st, good, x in U.res:
        ks = poss(R, st, f, FUNC)
        C.ob('define', 'kinds of function', len(ks) == 1, 'functions of different kinds are not told apart', b.name)
        if len(ks) != 1:
            continue
        k = ks.pop()
        seen.add(k)
        ok_ = any(y.t == 'as' and y.a[0] is f for y in subterms(x)) and (x.t == 'fld' and field_type(C, x) == NID or x.t == 'app' and x.a[0] == 'called as')
        C.ob('define', 'name of a function', ok_, 'not the name it was defined with: ' + show(x), b.name)
    C.ob('define', 'names of all functions', seen == set(names_of(P, FUNC)), 'not all kinds of function have a name', b.name)
