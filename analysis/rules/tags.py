"""Tags are built as written; values and code are shown in content as documented."""
from rules import prop
from rulelib import *
import models
from rules.coerce import names_of, vname, walk, deep
from rules.natives import *
from rules.answers import payload, known, poss
from rules.access import AST, sig, field_type
from rules.exprs import Unit, Ev, operations, opaque, noting, part, failures, of_node, known_before, EXPR, RANGE, NID

TAG = 'compiler::tag::Tag'
STR = 'std::rc::Rc<str>'


def pure(C):
    """operations with no effect that only the names of things depend on"""
    ex = {}
    for b in C.lib():
        if b.parent or b.kind in ('closure', 'promoted') or not b.argc:
            continue
        s = sig(b)
        if s[0] == RANGE and len(s) == 2 and s[1].startswith('&' + AST):
            ex[b.id] = opaque('range', False, 0)
        elif s[0] == NID and len(s) == 3 and s[1] == '&mut utils::string_pool::StringPool':
            ex[b.id] = opaque('interned', False) if 'lower' not in b.name else opaque('lowered', False)
        elif s == ['bool', '&str']:
            ex[b.id] = opaque(b.name.rsplit('::', 1)[-1], False, 0)
        elif s[0] == HTML and len(s) == 2 and b.name.endswith('::from') and s[1] not in (TAG, VAL):
            ex[b.id] = opaque('text', False, 0)
    return ex


class Sh(Ev):
    """the elements put together are looked at one by one"""
    def opaque(self, I, st, ctx, b, args):
        if b.id in self.joins and args[0].t == 'iter':
            t = mk('app', 'joined', deep(I.canon(st, args[0])))
            sts, _ = models.drain_multi(I, st, args[0], ctx)
            return [(s, t) for s in sts]
        return Ev.opaque(self, I, st, ctx, b, args)


def operations2(C):
    ops = operations(C)
    for b in C.lib():
        if b.parent or b.kind in ('closure', 'promoted') or not b.argc:
            continue
        s = sig(b)
        if 'Compiler<' not in s[1]:
            continue
        if len(s) == 3 and s[2] == VAL and s[0] == HTML:
            ops.setdefault('shown', []).append(b)
        if len(s) == 4 and s[2] == RANGE and s[3] == 'bool' and s[0].startswith(RES + '<' + HTML):
            ops.setdefault('fence', []).append(b)
        if len(s) == 3 and s[2] == NID and s[0].startswith(RES + '<' + VAL):
            ops.setdefault('var', []).append(b)
    return ops


@prop('P28')
def p28(C):
    C.rule('name', 'the name of a tag is the one written, or the value given if it can be the name of a tag, in lower case')
    C.rule('attrs', 'each attribute written or spread is there once, in order, with its value; one that is optional and has none is left out; one there twice is an error')
    C.rule('content', 'the content of a tag is what is written in it')
    C.rule('shown', 'a value in content is shown as documented: text, items of a list, rows of a table, code')
    C.rule('fence', 'code is the text between the quotes, given to the function for code or blocks of code')
    from rules import convert
    V = convert.Conv(C)
    nat = Natives(C)
    if nat.body is None or not nat.ids:
        C.floor('built-in functions', 0, 1)
        return
    ops = operations2(C)
    for k in ('tag', 'eval', 'named', 'sequence', 'report', 'shown', 'fence', 'var', 'called as'):
        C.floor('operation ' + k, len(ops.get(k, ())), 1)
    if any(k not in ops for k in ('tag', 'eval', 'shown', 'fence')):
        return
    ex = pure(C)
    ids = {v[1]: v[0] for v in nat.ids.values()}
    good, why = names_accepted(C, nat, V)
    C.ob('name', 'names', len(good) > 0, 'no function accepts exactly what a name may be: ' + '; '.join(why))
    tags(C, nat, V, ops, ex, ids, good)
    shown(C, nat, V, ops, ex, ids)
    fences(C, nat, V, ops, ex, ids)


def nid(t):
    """the number of a name that is always there"""
    t = deep(t)
    if t.t != 'adt':
        return None
    ns = [y.a[0] for y in subterms(t) if y.t == 'i']
    return ns[0] if len(ns) == 1 else None


ATTR = AST + 'TagAttrOrSpread'


def tags(C, nat, V, ops, ex, ids, good_names):
    P = C.P
    U = Unit(C, nat, V, ops, 'tag', cls=Sh, more=ex)
    R, b = U.R, U.body
    node = U.arg(1)
    n = 0
    kinds = set()
    for st, good, x in U.res:
        if good is False:
            refused(C, R, st, x, node, b, good_names)
            continue
        n += 1
        C.ob('name', 'a tag', good and x.t == 'adt' and x.a[0] == TAG, 'not a tag: ' + show(x), b.name)
        if not (good and x.t == 'adt' and x.a[0] == TAG):
            continue
        name, attrs, content = fields(P, x)
        k = named(C, R, st, name, node, ids, good_names)
        C.ob('name', 'name', k in (0, 1, 2), k if isinstance(k, str) else '', b.name)
        kinds.add(k)
        ok_ = content.t == 'app' and content.a[0] == 'sequence' and of_node(content.a[1], node) and name in [deep(y) for y in content.a[2:]]
        C.ob('content', 'content', ok_, 'not what is written in it: ' + show(content), b.name)
        C.ob('attrs', 'all', any(e[0] == 'end' for e in st.mon), 'not all attributes are there', b.name)
        C.ob('attrs', 'those', attrs.t in ('lv', 'hv', 'jn'), 'not the attributes collected: ' + show(attrs), b.name)
    for k in (0, 1, 2):
        C.ob('name', 'a name ' + ('written', 'given', 'of the document type')[k], k in kinds, 'no path gives this name', b.name)
    # each attribute
    seen = dict.fromkeys(('written', 'left out', 'without value', 'spread'), 0)
    for st in U.each:
        why = attribute(C, R, st, node, seen)
        C.ob('attrs', 'each', why is None, why or '', b.name)
    for k in seen:
        C.ob('attrs', 'rounds: ' + k, seen[k] > 0, 'no round for this', b.name)


def fields(P, x):
    """name, attributes and content of a tag, by their types"""
    r = {}
    for f, v in zip(P.adts[TAG]['variants'][0]['fields'], x.a[2]):
        s = P.types['papyri_lang'][f[1]]['s']
        r['name' if s == NID else 'content' if s == HTML else 'attrs'] = deep(v)
    return r.get('name'), r.get('attrs'), r.get('content')


def named(C, R, st, name, node, ids, names):
    TN = AST + 'TagName'
    n = None
    for f in st.facts:
        for y in subterms(deep(f)):
            if y.t == 'disc' and y.a[1] == TN and of_node(y.a[0], node):
                n = deep(y.a[0])
    if n is None:
        return 'it is not looked at how the name is given'
    ks = poss(R, st, n, TN)
    if ks == {'Literal'}:
        return 0 if part(C, name, n, 'Literal', TN) else 'not the name written: ' + show(name)
    if len(ks) != 1:
        return 'names written and given are not told apart'

    def given(t):
        t = bare(deep(t))
        while t.t == 'app' and isinstance(t.a[0], str) and t.a[0].rsplit('::', 1)[-1] in ('to_lowercase', 'to_ascii_lowercase', 'as_ref', 'deref'):
            t = bare(deep(t.a[1]))
        return t.t == 'app' and t.a[0] == 'converted' and deep(t.a[1]).t == 'app' and deep(t.a[1]).a[0] == 'named' and part(C, deep(t.a[1]).a[1], n, 'Name', TN)
    ident = [v[1].a[0] for f, v in st.facts.items() if v[0] == '=' and deep(f).t == 'app' and deep(f).a[0] in names and given(deep(f).a[1])]
    if name.t == 'app' and name.a[0] in ('lowered', 'interned'):
        low = name.a[0] == 'lowered' or 'to_lowercase' in show(name) or 'to_ascii_lowercase' in show(name)
        if not given(name.a[1]):
            return 'not the name given: ' + show(name)
        if not low:
            return 'not in lower case'
        return 1 if ident == [1] else 'any text is a name of a tag'
    if nid(name) == ids.get('!DOCTYPE'):
        same = [v[1].a[0] for f, v in st.facts.items() if v[0] == '=' and v[1].t == 'i' and deep(f).t in ('app', 'eq') and terms.S('!DOCTYPE') in subterms(deep(f)) and any(given(y) for y in subterms(deep(f)))]
        low = [v for f, v in st.facts.items() if v[0] == '=' and terms.S('!doctype') in list(subterms(deep(f))) + [v[1]]]
        return 2 if same == [1] or low else 'another name becomes this one'
    return 'not the name given: ' + show(name)


def refused(C, R, st, x, node, b, names):
    """a tag fails only if a part of it does, an attribute is there twice, or the name cannot be one"""
    if failures(x):
        ok_ = all(any(of_node(y, node) for y in subterms(f)) for f in failures(x))
        C.ob('name', 'fails for a part', ok_, 'it fails for another reason: ' + show(x), b.name)
        return
    dup = any(known_before(f, v) for f, v in st.facts.items())
    notname = [v[1].a[0] for f, v in st.facts.items() if v[0] == '=' and v[1].t == 'i' and deep(f).t == 'app' and deep(f).a[0] in names] == [0]
    C.ob('name', 'fails', dup or notname and not any(e[0] in ('insert', 'insert_full') for e in st.mon), 'it fails without a reason: ' + show(x), b.name)
    if notname and not dup:
        cmp_ = [deep(f) for f, v in st.facts.items() if v[0] == '=' and v[1].t == 'i' and v[1].a[0] == 0 and any(y.t == 's' and y.a[0].lower() == '!doctype' for y in subterms(deep(f)))]
        ok_ = any('ignore_ascii_case' in show(y) or 'to_lowercase' in show(y) or 'case(' in show(y) for y in cmp_)
        C.ob('name', 'refused', ok_, 'the name of the document type is not accepted in any case', b.name)


def attribute(C, R, st, node, seen):
    cs = [e for e in st.mon if e[0] in ('insert', 'insert_full')]
    el = None
    for f in st.facts:
        for y in subterms(deep(f)):
            if y.t == 'disc' and deep(y.a[0]).t == 'idx' and of_node(deep(y.a[0]).a[0], node) and y.a[1] == ATTR:
                el = deep(y.a[0])
    if el is None:
        return 'it is not looked at what kind of attribute it is'
    why = R.in_order(el.a[1], el.a[0])
    if why:
        return why
    ks = poss(R, st, el, ATTR)
    if len(ks) != 1:
        return 'attributes and spreads are not told apart'
    if len(cs) > 1:
        return 'an attribute is added %d times' % len(cs)
    if cs and not any(known_before(f, v, deep(cs[0][1])) is False for f, v in st.facts.items()):
        return 'it is not looked at whether the attribute is there already'
    k, v = [deep(y) for y in cs[0][1:3]] if cs else (None, None)
    if ks == {'Spread'}:
        if not cs:
            # the round of the outer loop: all entries were added
            return None if any(e[0] == 'end' for e in st.mon) else 'the entries of a spread are left out'
        seen['spread'] += 1
        if not (k.t == 'fld' and v.t == 'fld' and deep(k.a[0]) is deep(v.a[0]) and k.a[1] != v.a[1]):
            return 'not the name and value of an entry: ' + show(k) + ', ' + show(v)
        e = deep(k.a[0])
        if field_type(C, k) not in (NID, '') and 'NameID' not in field_type(C, k):
            return 'not the name of an entry'
        if e.t != 'idx' or e.a[1].t != 'el':
            return 'not an entry: ' + show(e)
        d = deep(e.a[0])
        if not (d.t == 'app' and d.a[0] == 'converted' and deep(d.a[1]).t == 'app' and deep(d.a[1]).a[0] == 'eval' and part(C, deep(d.a[1]).a[1], el, 'Spread', ATTR)):
            return 'entries of something else: ' + show(d)
        return R.in_order(e.a[1], e.a[0])
    inner = [deep(f) for f in st.facts if deep(f).t == 'disc' and deep(f).a[1] == OPT]
    hasv = [d for d in inner if under(deep(d.a[0]), el)]
    if len(hasv) < 1:
        return 'it is not looked at whether there is a value'
    val = hasv[0].a[0]
    if R.is_variant(st, deep(val), 'Some') is False:
        seen['without value'] += 1
        if not cs:
            return 'an attribute without value is left out'
        return named_attr(C, k, el) or (None if v.t == 'adt' and v.a[0] == OPT and v.a[1] == 0 else 'it has a value: ' + show(v))
    src = [y for d in inner for y in subterms(d) if y.t == 'app' and y.a[0] == 'eval'] + [y for c in cs for t in c[1:] for y in subterms(t) if y.t == 'app' and y.a[0] == 'eval']
    src = set(src)
    if len(src) != 1:
        return 'the value is not evaluated just once'
    src = src.pop()
    if not under(src.a[1], el):
        return 'another value is evaluated: ' + show(src)
    h = deep(src.a[2])
    opt = h.t == 'adt' and vname(C.P, h) == 'Optional'
    qm = [v_[1].a[0] for f, v_ in st.facts.items() if deep(f).t == 'fld' and under(deep(f), el) and v_[0] == '=' and v_[1].t == 'i' and field_type(C, deep(f)) == 'bool']
    if h.t != 'adt' or vname(C.P, h) not in ('Str', 'Optional') or qm != [int(opt)]:
        return 'nothing is accepted for an attribute that is not optional, or the other way round'
    value = mk('app', 'converted', src)
    some_ = R.is_variant(st, value, 'Some')
    if some_ is False:
        seen['left out'] += 1
        return None if not cs else 'an attribute that has no value is there'
    if not cs:
        return 'an attribute is left out'
    seen['written'] += 1
    v = deep(v)
    if v.t == 'adt' and v.a[0] == OPT and v.a[1] == 1:
        v = bare(deep(v.a[2][0]))
        ok_ = any(y is value for y in subterms(v)) and v.t in ('fld', 'app') and (v is value or v.t == 'fld' and deep(v.a[0]).t == 'as' and deep(v.a[0]).a[0] is value)
    else:
        ok_ = v is value
    return named_attr(C, k, el) or (None if ok_ else 'not its value: ' + show(v))


def named_attr(C, k, el):
    return None if k.t == 'fld' and field_type(C, k) == NID and under(k, el) else 'not the name of the attribute: ' + show(k)


def under(t, el):
    t = deep(t)
    while t.t in ('fld', 'as'):
        t = deep(t.a[0])
        if t is el:
            return True
    return t is el


def tag_of(P, t, ids, name):
    """the content, if this is a tag of this name"""
    t = deep(t)
    if t.t == 'adt' and t.a[0] == HTML and vname(P, t) == 'Tag':
        t = deep(t.a[2][0])
    if t.t != 'adt' or t.a[0] != TAG:
        return None
    n, a, c = fields(P, t)
    return c if nid(n) == ids.get(name) else None


def text_of(t):
    t = deep(t)
    return bare(deep(t.a[1])) if t.t == 'app' and t.a[0] == 'text' else None


def shown(C, nat, V, ops, ex, ids):
    P = C.P
    U = Unit(C, nat, V, ops, 'shown', cls=Sh, more=ex)
    R, b = U.R, U.body
    v = U.arg(1)
    seen = set()
    for st, good, x in U.res:
        ks = poss(R, st, v, VAL)
        C.ob('shown', 'kinds', len(ks) == 1, 'values of different kinds are not told apart', b.name)
        if len(ks) != 1:
            continue
        k = ks.pop()
        seen.add(k)
        why = shown_as(C, R, st, k, x, v, ids)
        C.ob('shown', k, why is None, why or '', b.name)
    for k in names_of(P, VAL):
        C.ob('shown', 'value: ' + k, k in seen, 'no path shows this', b.name)
    n = {'List': 0, 'Dict': 0}
    for st in U.each:
        ks = poss(R, st, v, VAL)
        if len(ks) != 1 or not ks <= set(n):
            continue
        k = ks.pop()
        n[k] += 1
        why = row(C, R, st, k, v, ids)
        C.ob('shown', k + ' each', why is None, why or '', b.name)
    for k in n:
        C.ob('shown', k + ' rounds', n[k] > 0, 'no element is shown', b.name)


def pays(C, t, v, k):
    return part(C, t, v, k, VAL)


def shown_as(C, R, st, k, x, v, ids):
    P = C.P
    bad = 'not shown as documented: ' + show(x)
    t = text_of(x)
    if k == 'Bool':
        w = [f[1].a[0] for d, f in st.facts.items() if f[0] == '=' and f[1].t == 'i' and pays(C, deep(d), v, k)]
        return None if len(w) == 1 and t is terms.S('True' if w[0] else 'False') else bad
    if k == 'Int':
        if t is None:
            return bad
        if t.t == 'app' and isinstance(t.a[0], str) and t.a[0].rsplit('::', 1)[-1] == 'replace_all':
            t = bare(deep(t.a[2]))
        return None if t.t == 'app' and isinstance(t.a[0], str) and t.a[0].rsplit('::', 1)[-1] == 'to_string' and pays(C, t.a[1], v, k) or t.t == 'cat' and len(t.a[0]) == 1 and pays(C, t.a[0][0], v, k) else bad
    if k == 'Str':
        return None if t is not None and pays(C, t, v, k) else bad
    if k == 'HTML':
        return None if pays(C, x, v, k) else bad
    if k in ('Func', 'Regex'):
        c = tag_of(P, x, ids, 'code')
        t = text_of(c) if c is not None else None
        if t is None:
            return bad
        inner = [bare(deep(y)) for y in (t.a[0] if t.t == 'cat' else [t])]
        if k == 'Func':
            ok_ = any(y.t == 'app' and y.a[0] == 'name' and deep(y.a[1]).t == 'app' and deep(y.a[1]).a[0] == 'called as' and pays(C, deep(y.a[1]).a[1], v, k) for y in inner)
        else:
            ok_ = any(y.t == 'app' and isinstance(y.a[0], str) and y.a[0].rsplit('::', 1)[-1] == 'as_str' and under(y.a[1], v) for y in inner)
        return None if ok_ else bad
    if k in ('List', 'Dict'):
        c = tag_of(P, x, ids, 'ul' if k == 'List' else 'table')
        if c is None:
            return bad
        if R.post(st):
            return 'the items are changed afterwards'
        if not any(e[0] == 'end' for e in st.mon):
            return 'not all elements are shown'
        return None if c.t == 'app' and c.a[0] == 'joined' or c.t in ('lv', 'hv', 'jn') else 'not its elements: ' + show(c)
    return 'a kind of value that is not known'


def row(C, R, st, k, v, ids):
    P = C.P
    cs = [e for e in st.mon if e[0] in ('take', 'push')]
    if len(cs) != 1:
        return '%d items for an element' % len(cs)
    x = cs[0][-1]
    c = tag_of(P, x, ids, 'li' if k == 'List' else 'tr')
    if c is None:
        return 'not an item: ' + show(x)

    def elem(t):
        t = deep(t)
        while t.t in ('fld', 'as'):
            t = deep(t.a[0])
        return t
    if k == 'List':
        if c.t != 'app' or c.a[0] != 'shown':
            return 'not the element shown: ' + show(c)
        e = elem(c.a[1])
        if e is not deep(c.a[1]) or e.t != 'idx' or not any(pays(C, y, v, k) for y in subterms(e.a[0])):
            return 'not an element: ' + show(c)
        return R.in_order(e.a[1], e.a[0])
    if c.t != 'app' or c.a[0] != 'joined' or deep(c.a[1]).t not in ('arr', 'tup', 'vec', 'list', 'iter', 'slice'):
        return 'not a row: ' + show(c)
    ts = [y for y in deep(c.a[1]).a if isinstance(y, T)] or [y for y in deep(c.a[1]).a[0] if isinstance(y, T)]
    if len(ts) != 2:
        return 'not a name and a value: ' + show(c)
    th, td = tag_of(P, ts[0], ids, 'th'), tag_of(P, ts[1], ids, 'td')
    if th is None or td is None:
        return 'not a name and a value: ' + show(c)
    n = text_of(th)
    if n is None or n.t != 'app' or n.a[0] != 'name' or td.t != 'app' or td.a[0] != 'shown':
        return 'not a name and a value: ' + show(c)
    a, e = deep(n.a[1]), deep(td.a[1])
    if not (a.t == 'fld' and e.t == 'fld' and deep(a.a[0]) is deep(e.a[0]) and a.a[1] != e.a[1]):
        return 'the name and the value are not of the same entry'
    e = elem(e)
    if e.t != 'idx' or not any(pays(C, y, v, k) for y in subterms(e.a[0])):
        return 'not an entry: ' + show(e)
    return R.in_order(e.a[1], e.a[0])


def fences(C, nat, V, ops, ex, ids):
    from rules.exprs import quoted
    U = Unit(C, nat, V, ops, 'fence', cls=Sh, more=ex)
    R, b = U.R, U.body
    rng, multi = U.arg(1), U.arg(2)
    seen = set()
    for st, good, x in U.res:
        if good is False:
            continue
        m = [f[1].a[0] for d, f in st.facts.items() if deep(d) is multi and f[0] == '=' and f[1].t == 'i']
        C.ob('fence', 'told apart', len(m) == 1, 'code and blocks of code are not told apart', b.name)
        if len(m) != 1:
            continue
        seen.add(m[0])
        y = bare(deep(x))
        if y.t == 'app' and y.a[0] == 'converted':
            y = deep(y.a[1])
        ok_ = y.t == 'app' and y.a[0] == 'called' and len(y.a) == 3
        C.ob('fence', 'called', ok_, 'not what the function gives: ' + show(x), b.name)
        if not ok_:
            continue
        f, args = deep(y.a[1]), deep(y.a[2])
        vs = [z for z in subterms(f) if z.t == 'app' and z.a[0] == 'var']
        want = ids.get('code_block' if m[0] else 'code')
        C.ob('fence', 'function', len(vs) == 1 and nid(vs[0].a[1]) == want, 'another function: ' + show(f), b.name)
        ok_ = args.t == 'app' and args.a[0] == 'bound' and len(args.a) == 3 and deep(args.a[1]) is f
        C.ob('fence', 'bound', ok_, 'not bound to the function: ' + show(args), b.name)
        if ok_:
            t = deep(args.a[2])
            src = [z for z in subterms(t) if z.t == 'app' and z.a[0] == 'source']
            ok_ = t.t == 'adt' and vname(C.P, t) == 'Str' and len(src) == 1 and deep(src[0].a[1]) is rng and quoted(bare(deep(t.a[2][0])), src[0])
            C.ob('fence', 'text', ok_, 'not the text between the quotes: ' + show(t), b.name)
    C.ob('fence', 'both', seen == {0, 1}, 'not both kinds of code', b.name)


# every ASCII character, and one of each other kind that the predicates of the standard library tell apart
CHARS = [chr(i) for i in range(128)] + list('\u00e9\u00c9\u0665\u4e2d\u00a0\u2028\u2019\u00b2\u01c5')
START = {c for c in CHARS if c.isascii() and (c.isalpha() or c == '_')}
CONT = {c for c in CHARS if c.isascii() and (c.isalnum() or c == '_')}
PRED = {
    'is_ascii_alphabetic': lambda c: c.isascii() and c.isalpha(), 'is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(),
    'is_ascii_digit': lambda c: c.isascii() and c.isdigit(), 'is_ascii_lowercase': lambda c: c.isascii() and c.islower(),
    'is_ascii_uppercase': lambda c: c.isascii() and c.isupper(), 'is_ascii': str.isascii, 'is_alphabetic': str.isalpha,
    'is_alphanumeric': lambda c: c.isalnum(), 'is_numeric': str.isnumeric, 'is_whitespace': str.isspace, 'is_lowercase': str.islower, 'is_uppercase': str.isupper,
    'is_ascii_whitespace': lambda c: c in ' \t\n\r\x0c', 'is_ascii_punctuation': lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != ' ',
    'is_ascii_graphic': lambda c: '!' <= c <= '~', 'is_ascii_hexdigit': lambda c: c in '0123456789abcdefABCDEF', 'is_control': lambda c: ord(c) < 32 or ord(c) == 127,
}


def truth(t, x, c):
    """what the term says when x is the character c; None: not known"""
    t = deep(t)
    if t.t == 'i':
        return bool(t.a[0])
    num = lambda y: ord(c) if deep(y) is x else deep(y).a[0] if deep(y).t == 'i' else ord(deep(y).a[0]) if deep(y).t == 's' and len(deep(y).a[0]) == 1 else None
    if t.t == 'app' and isinstance(t.a[0], str) and len(t.a) == 2 and deep(t.a[1]) is x:
        f = PRED.get(t.a[0].rsplit('::', 1)[-1])
        return bool(f(c)) if f else None
    if t.t == 'not':
        r = truth(t.a[0], x, c)
        return None if r is None else not r
    if t.t in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(t.a) == 2:
        a, b = num(t.a[0]), num(t.a[1])
        if a is None or b is None:
            return None
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[t.t]
    if t.t in ('and', 'or'):
        rs = [truth(y, x, c) for y in t.a]
        if t.t == 'and':
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    return None


def possible(st, x):
    """the characters that x may be"""
    out = set()
    for c in CHARS:
        good = True
        for f, v in st.facts.items():
            d = deep(f)
            if d is x:
                if v[0] == '=' and v[1].t == 'i':
                    good &= v[1].a[0] == ord(c)
                elif v[0] == '!':
                    good &= ord(c) not in {y.a[0] if isinstance(y, T) else y for y in v[1]}
            elif any(y is x for y in subterms(d)) and v[0] == '=' and v[1].t == 'i':
                r = truth(d, x, c)
                good &= r is None or r == bool(v[1].a[0])
            if not good:
                break
        if good:
            out.add(c)
    return out


def identifier(C, nat, V, b):
    """None if the function accepts exactly what matches [a-zA-Z_][a-zA-Z0-9_]*, else why not"""
    cl = Ev(C, nat, V)
    I = ai.Interp(C.P, cl, 100000)
    cl.I = I
    s = I.symarg(b, 1)
    outs = I.run(b.id, args=[s], st=ai.State(mon=()))
    s = deep(I.canon(ai.State(), s))

    def chars(st, extra=()):
        """the first character, and an arbitrary one of those after it, that are looked at"""
        one, each = set(), set()
        for f in list(st.facts) + list(extra):
            for y in subterms(deep(f)):
                if y.t == 'fld' and deep(y.a[0]).t == 'as' and deep(deep(y.a[0]).a[0]).t == 'sym' and deep(deep(y.a[0]).a[0]).a[0] == 'next':
                    one.add(y)
                if y.t == 'app' and y.a[0] == 'elem' and any(z is s for z in subterms(y)) or y.t == 'elem':
                    each.add(y)
        return one, each
    for st, r in outs:
        r = deep(I.canon(st, r))
        one, each = chars(st, [r])
        if len(one) > 1 or len(each) > 1:
            return 'several characters are looked at'
        one = one.pop() if one else None
        each = each.pop() if each else None
        for want in (True, False):
            if r.t == 'i' and bool(r.a[0]) != want:
                continue
            s2 = st
            x = each if each is not None and any(y is each for y in subterms(r)) else one
            A = possible(st, one) if one is not None else None
            B = possible(st, each) if each is not None else None
            if r.t != 'i':
                if x is None:
                    return 'it is not known what is accepted: ' + show(r)
                ok_ = {c for c in (B if x is each else A) if truth(r, x, c) in (want, None)}
                A, B = (A, ok_) if x is each else (ok_, B)
            if want:
                if A is None:
                    return 'the first character is not looked at'
                if not A <= START:
                    return 'it may begin with %r' % sorted(A - START)[0]
                if ('end',) not in st.mon and not (B is not None and r.t != 'i'):
                    return 'not all characters are looked at'
            else:
                if A is None and not any(deep(f).t == 'disc' for f in st.facts):
                    return 'a name is refused'
                if A is not None and A & START and not (B is not None and not B & CONT):
                    return 'a name is refused'
    for _, st in cl.ends:
        _, each = chars(st)
        for x in each:
            B = possible(st, x)
            if not B <= CONT:
                return 'it may contain %r' % sorted(B - CONT)[0]
        if not each:
            return 'a character is not looked at'
    return None if cl.ends else 'only the first character is looked at'


def names_accepted(C, nat, V):
    """the functions that say whether a text is a name: exactly those"""
    good, why = set(), []
    for b in C.lib():
        if not b.parent and b.kind not in ('closure', 'promoted') and b.argc == 1 and sig(b) == ['bool', '&str']:
            w = identifier(C, nat, V, b)
            if w is None:
                good.add(b.name.rsplit('::', 1)[-1])
            elif 'ident' in b.name:
                why.append('%s: %s' % (b.name, w))
    return good, why
