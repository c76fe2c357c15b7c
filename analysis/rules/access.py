"""Names: variables, attributes of values, positions in lists."""
from rules import prop
from rulelib import *
from rules.coerce import names_of, vname, walk, deep, poss_kind
from rules.natives import *
from rules.modules import places
from rules.answers import payload, known, poss

AST = 'parser::ast::'


def sig(b):
    return [b.ty(i)['s'] for i in range(b.argc + 1)]


def app(n, skip=1, res=True):
    def f(I, st, ctx, b, args):
        t = mk('app', n, *[deep(I.canon(st, a)) for a in args[skip:]])
        return [(st.copy(), ok(t)), (st.copy(), err(mk('app', 'failure', t)))] if res else [(st, t)]
    return f


class Acc(N):
    def inline(self, I, b):
        if b.id in self.extra:
            return False
        if not b.parent and b.kind not in ('closure', 'promoted') and any(AST in x for x in sig(b)[1:]):
            return True
        return N.inline(self, I, b)


def operations(C):
    """the operations that the meaning of names is made of, by their types"""
    ops = {}
    for b in C.lib():
        if b.parent or b.kind in ('closure', 'promoted') or not b.argc:
            continue
        s = sig(b)
        if 'Compiler<' not in s[1] and 'Frame' not in s[1]:
            continue
        val = s[0].startswith(RES + '<' + VAL)
        if len(s) == 4 and s[2] == '&' + AST + 'Name' and s[3] == '&' + TYPE and val:
            ops.setdefault('named', []).append(b)
        if len(s) == 4 and s[2] == VAL and s[3].endswith('NameID') and s[0].startswith(RES + '<' + FUNC):
            ops.setdefault('attr', []).append(b)
        if len(s) == 3 and s[2].endswith('NameID') and val and 'Compiler<' in s[1]:
            ops.setdefault('var', []).append(b)
        if len(s) == 4 and s[2] == '%s<%s>' % (SLICE, VAL) and s[3] == 'i64' and val:
            ops.setdefault('item', []).append(b)
        if len(s) == 4 and s[2] == VAL and s[3] == '&' + TYPE and val:
            ops.setdefault('coerced', []).append(b)
    return ops


@prop('P26')
def p26(C):
    P = C.P
    C.rule('name', 'a name is the variable of that name, an attribute or a position of what its subject is')
    C.rule('attr', 'an attribute is the entry of a dict, the name of a tag, or the built-in function of that name for the kind of value')
    C.rule('index', 'a position in a list is the element there')
    C.rule('coalesce', 'only a coalescing access to nothing gives nothing')
    C.rule('global', 'a name that is there from the start is the built-in function, or the group of functions, of that name')
    C.rule('function', 'a built-in function had as an attribute is the one of that name, with the value bound as what it works on')
    from rules import convert
    V = convert.Conv(C)
    nat = Natives(C)
    if nat.body is None or not nat.ids:
        C.floor('built-in functions', 0, 1)
        return
    ops = operations(C)
    for k in ('named', 'attr', 'var', 'item', 'coerced'):
        C.floor('operation ' + k, len(ops.get(k, ())), 1)
    if not ops.get('named'):
        return
    ev = max(ops['named'], key=lambda b: len(b.blocks))
    ex = {b.id: app(k) for k, bs in ops.items() for b in bs}
    ex[ev.id] = app('named')
    cl = Acc(C, nat, V, extra=ex)
    I = ai.Interp(P, cl, 600000)
    I.CAP = 600
    cl.I = I
    args = [I.symarg(ev, i + 1) for i in range(ev.argc)]
    outs = I.run(ev.id, args=args, st=ai.State(mon=()))
    C.explored.append((ev.name, len(outs), I.steps, len(I.visited)))
    C.lastI = I
    R = Run.__new__(Run)
    R.C, R.P, R.name, R.nat, R.cl, R.I = C, P, 'names', nat, cl, I
    name, hint = deep(I.canon(ai.State(), args[1])), deep(I.canon(ai.State(), args[2]))
    ns = names_of(P, AST + 'Name')
    seen = set()
    tagname = nat.ids.get('TAG_NAME')
    nm = {v[0]: v[1] for v in nat.ids.values()}
    HV = names_of(P, HTML)

    def fld_of(t, base, field):
        t = deep(t)
        return t.t == 'fld' and t.a[3] == field and deep(t.a[0]) is base

    def struct(kind):
        return mk('fld', mk('as', name, ns.index(kind), AST + 'Name'), 0, AST + 'Name', '0')

    def flag(st, base):
        for k, v in st.facts.items():
            d = deep(k)
            if d.t == 'fld' and deep(d.a[0]) is base and v[0] == '=' and v[1].t == 'i' and 'bool' in field_type(C, d):
                return bool(v[1].a[0])
        return None

    for st, r in outs:
        r = deep(I.canon(st, r))
        good = r.t == 'adt' and r.a[0] == RES
        if not good or r.a[1] == 1:
            C.ob('name', 'result', good, 'not a result: ' + show(r), ev.name)
            continue
        x = r.a[2][0]
        ks = poss(R, st, name, AST + 'Name')
        C.ob('name', 'kind of name', len(ks) == 1, 'names of different kinds are not told apart', ev.name)
        if len(ks) != 1:
            continue
        k = ks.pop()
        b = struct(k)
        c = x.t == 'app' and x.a[0] == 'coerced' and x.a[2] is hint
        C.ob('name', 'as the type expected', c, 'the value is not coerced to the type expected: ' + show(x), ev.name)
        if not c:
            continue
        x = x.a[1]
        if k == 'Simple':
            seen.add('var')
            C.ob('name', 'variable', x.t == 'app' and x.a[0] == 'var' and x.a[1].t == 'fld' and deep(x.a[1].a[0]) is b and 'NameID' in field_type(C, x.a[1]), 'not the variable of that name: ' + show(x), ev.name)
            continue
        subj = [t for t in subterms(x) if t.t == 'app' and t.a[0] == 'named']
        subj += [t for f in st.facts for t in subterms(deep(f)) if t.t == 'app' and t.a[0] == 'named']
        subj = set(subj)
        s = subj.pop() if len(subj) == 1 else None
        C.ob('name', 'subject', s is not None and s.a[1].t == 'fld' and deep(s.a[1].a[0]) is b and field_type(C, s.a[1]).endswith(AST + 'Name'), 'not the value of its subject: ' + show(x), ev.name)
        if s is None:
            continue
        co = flag(st, b)
        if k == 'Index':
            el = x.t == 'app' and x.a[0] == 'item'
            if el:
                seen.add('item')
                lst = deep(x.a[1])
                while lst.t == 'fld' and lst.a[0].t == 'as' or lst.t == 'app' and lst.a[0] == 'converted':
                    lst = lst.a[0].a[0] if lst.t == 'fld' else lst.a[1]
                C.ob('index', 'element', lst is s and x.a[2].t == 'fld' and deep(x.a[2].a[0]) is b and field_type(C, x.a[2]) == 'i64', 'not the element at the position: ' + show(x), ev.name)
            else:
                seen.add('no list')
                empty = [v for f, v in st.facts.items() if deep(f).t == 'disc' and deep(f).a[0].t == 'app' and deep(f).a[0].a[0] == 'converted' and deep(f).a[0].a[1] is s]
                unitv = empty and empty[0][0] == '=' and empty[0][1].a[0] == 0 or is_unit_on(R, st, s)
                C.ob('coalesce', 'index of nothing', x is unit(C) and bool(unitv), 'the wrong value where there is no list: ' + show(x), ev.name)
                hints = s.a[2]
                opt = hints.t == 'adt' and vname(P, hints) == 'Optional'
                C.ob('coalesce', 'only where written', co is True or co is False and not opt, 'nothing is accepted as a list without being coalesced', ev.name)
            continue
        if k != 'Attr':
            C.ob('name', 'kind of name ' + k, False, 'a kind of name that is not known', ev.name)
            continue
        d = payload(C, s, 'Dict')
        has = None
        for f, v in st.facts.items():
            f = deep(f)
            if f.t == 'app' and f.a[0] == 'has' and f.a[1] is d and v[0] == '=' and v[1].t == 'i':
                has = bool(v[1].a[0])
                C.ob('attr', 'key of a dict', attr_id(C, f.a[2], b), 'another key is looked up: ' + show(f.a[2]), ev.name)
            if f.t == 'disc' and f.a[0].t == 'app' and f.a[0].a[0] == 'get' and f.a[0].a[1] is d:
                has = v[0] == '=' and v[1].a[0] == 1
        kinds = poss(R, st, s, VAL)
        if x is unit(C):
            seen.add('coalesced')
            C.ob('coalesce', 'attribute of nothing', co is True and is_unit_on(R, st, s), 'nothing is given where there is something, or without being coalesced', ev.name)
        elif x.t == 'idx' and x.a[0] is d:
            seen.add('entry')
            C.ob('attr', 'entry of a dict', has is True and attr_id(C, x.a[1], b), 'not the entry of that name: ' + show(x), ev.name)
        elif x.t == 'fld' and x.a[0].t == 'as' and x.a[0].a[0].t == 'app' and x.a[0].a[0].a[0] == 'get' and x.a[0].a[0].a[1] is d:
            seen.add('entry')
            C.ob('attr', 'entry of a dict', attr_id(C, x.a[0].a[0].a[2], b), 'not the entry of that name: ' + show(x), ev.name)
        elif x.t == 'adt' and vname(P, x) == 'Str':
            seen.add('tag')
            n = deep(x.a[2][0])
            h = payload(C, s, 'HTML')
            tg = mk('fld', mk('as', h, HV.index('Tag'), HTML), 0, HTML, '0')
            good = n.t == 'app' and n.a[0] == 'name' and n.a[1].t == 'fld' and deep(n.a[1].a[0]) is tg and 'NameID' in field_type(C, n.a[1])
            C.ob('attr', 'name of a tag', good and attr_fact(C, st, b, tagname[0]) is True, 'not the name of the tag: ' + show(x), ev.name)
        else:
            y = x
            if y.t == 'adt' and y.a[0] == VAL and vname(P, y) == 'Func':
                y = deep(y.a[2][0])
            seen.add('function')
            C.ob('attr', 'function', y.t == 'app' and y.a[0] == 'attr' and y.a[1] is s and attr_id(C, y.a[2], b), 'not the function of that name: ' + show(x), ev.name)
            C.ob('attr', 'entries of a dict first', 'Dict' not in kinds or has is False, 'the entry of a dict is not looked for', ev.name)
            html = poss(R, st, payload(C, s, 'HTML'), HTML)
            C.ob('attr', 'name of a tag first', 'HTML' not in kinds or 'Tag' not in html or attr_fact(C, st, b, tagname[0]) is False, 'the name of a tag is not looked for', ev.name)
            C.ob('coalesce', 'attribute of something', not co or not is_unit_on(R, st, s), 'a coalesced attribute of nothing is not nothing', ev.name)
            C.ob('coalesce', 'looked at', 'HTML' not in kinds or co is False or 'Empty' not in html, 'it is not looked at whether the access is coalesced', ev.name)
    for k in ('var', 'item', 'no list', 'coalesced', 'entry', 'tag', 'function'):
        C.ob('name', 'ways: ' + k, k in seen, 'no path gives this', ev.name)
    functions(C, nat, V, ops)


def field_type(C, t):
    """type of a field, as text"""
    a = C.P.adts.get(t.a[2])
    if not a:
        return ''
    for v in a['variants']:
        for f in v['fields']:
            if f[0] == t.a[3]:
                return C.P.types['papyri_lang'][f[1]]['s']
    return ''


def attr_id(C, t, b):
    t = deep(t)
    return t.t == 'fld' and deep(t.a[0]) is b and 'NameID' in field_type(C, t)


def attr_fact(C, st, b, raw):
    """is the attribute this name? True, False, or None"""
    for k, v in st.facts.items():
        d = deep(k)
        if d.t == 'eq' and terms.I(raw) in d.a and any(x.t == 'fld' and any(deep(y) is b for y in subterms(x)) for x in d.a if isinstance(x, T)) and v[0] == '=':
            return bool(v[1].a[0])
    return None


def is_unit_on(R, st, s):
    if poss(R, st, s, VAL) != {'HTML'}:
        return False
    return poss(R, st, payload(R.C, s, 'HTML'), HTML) == {'Empty'}


def functions(C, nat, V, ops):
    """built-in functions as attributes"""
    P = C.P
    if not ops.get('attr'):
        return
    b = max(ops['attr'], key=lambda b: len(b.blocks))
    binds = {}
    for x in C.lib():
        s = sig(x)
        if x.parent or x.kind in ('closure', 'promoted') or len(s) != 4 or s[1] not in (FUNC, '&' + FUNC) or s[3] != VAL or not s[0].startswith(RES + '<' + FUNC):
            continue
        binds[x.id] = x
    C.floor('ways to bind a value to a function', len(binds), 2)
    how = {i: binding(C, nat, V, x) for i, x in binds.items()}

    def bind(I, st, ctx, x, args):
        t = mk('app', 'bind', terms.S(how[x.id] or '?'), deep(I.canon(st, args[0])), deep(I.canon(st, args[2])))
        return [(st.copy(), ok(t)), (st.copy(), err(mk('app', 'failure', t)))]
    cl = Acc(C, nat, V, extra={i: bind for i in binds})
    I = ai.Interp(P, cl, 600000)
    I.CAP = 1000
    cl.I = I
    args = [I.symarg(b, i + 1) for i in range(b.argc)]
    outs = I.run(b.id, args=args, st=ai.State(mon=()))
    C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
    R = Run.__new__(Run)
    R.C, R.P, R.name, R.nat, R.cl, R.I = C, P, 'attributes', nat, cl, I
    subj, aid = deep(I.canon(ai.State(), args[1])), deep(I.canon(ai.State(), args[2]))
    nm = {v[0]: v[1] for v in nat.ids.values()}
    defs = definitions(C, nat, V)
    globals_(C, nat, V, defs, nm)
    n, refused, pairs = 0, 0, {}
    for st, r in outs:
        r = deep(I.canon(st, r))
        if r.t != 'adt' or r.a[0] != RES:
            C.ob('function', 'result', False, 'not a result: ' + show(r), b.name)
            continue
        if r.a[1] == 1:
            if not any(t.t == 'app' and t.a[0] == 'failure' for t in subterms(r)):
                refused += 1
            continue
        x = r.a[2][0]
        kinds = poss(R, st, subj, VAL)
        eqs = [v for k, v in st.facts.items() if deep(k).t == 'eq' and any(t is aid for t in subterms(deep(k))) and v[0] == '=' and v[1].t == 'i' and v[1].a[0] == 1]
        raw = None
        for k, v in st.facts.items():
            d = deep(k)
            if v[0] == '=' and v[1].t == 'i':
                if d.t == 'eq' and v[1].a[0] == 1 and any(t is aid for t in subterms(d)):
                    raw = [y.a[0] for y in d.a if y.t == 'i'][0] if any(y.t == 'i' for y in d.a) else raw
        if x.t != 'app' or x.a[0] != 'bind':
            C.ob('function', 'bound', False, 'the value is not bound to the function: ' + show(x), b.name)
            continue
        f = defs.get(field_path(x.a[2]))
        key = 'attribute %s' % (nm.get(raw, raw),)
        C.ob('function', key + ' known', f is not None and raw is not None, 'not a function known: ' + show(x.a[2]), b.name)
        if f is None or raw is None:
            continue
        n += 1
        fname, fid, group, params = f
        if fid is None:
            C.ob('function', 'name of ' + fname, False, 'its name is not a constant', b.name)
        key = 'attribute %s of %s' % (nm.get(raw, raw), '/'.join(sorted(kinds)))
        C.ob('function', key + ' name', fid == raw, 'another function is given: ' + fname, b.name)
        C.ob('function', key + ' value', x.a[3] is subj, 'another value is bound: ' + show(x.a[3]), b.name)
        want = due(C, params, kinds)
        C.ob('function', key + ' bound as', want is not None and x.a[1].a[0] == want, 'the value is bound as %s, not as %s, of %s' % (x.a[1].a[0], want, fname), b.name)
        C.ob('function', key + ' kind', len(kinds) == 1 and want is not None, 'the function is not for values of this kind: ' + fname, b.name)
        pairs.setdefault((tuple(sorted(kinds)), raw), set()).add(fname)
    for (k, raw), fs in pairs.items():
        C.ob('function', 'one function for attribute %s of %s' % (nm.get(raw, raw), '/'.join(k)), len(fs) == 1, 'several: ' + ', '.join(sorted(fs)), b.name)
    for k, ns_ in ATTRS.items():
        for a in ns_.split():
            C.ob('function', 'attribute %s of %s is there' % (a, k), any(k in ks and nm.get(raw) == a for ks, raw in pairs), 'no path gives this function', b.name)
    C.floor('functions had as attributes', n, 40)
    C.floor('attributes refused', refused, 1)


def globals_(C, nat, V, defs, nm):
    """the names that are there from the start"""
    P = C.P
    C.floor('built-in functions defined', len(defs), 40)
    for path, (var, raw, _, _) in defs.items():
        C.ob('function', 'name of %s' % '.'.join([names_of_field(P, p) for p in path]), nm.get(raw) == var.lower(), 'the name of %s is %r' % (var, nm.get(raw)))
    n = 0
    for b in C.lib():
        if b.parent or b.kind in ('closure', 'promoted') or b.argc != 1 or not b.ty(1)['s'].lstrip('&').startswith(NATIVE) or 'Frame' not in b.ty(0)['s']:
            continue
        cl = N(C, nat, V)
        I = ai.Interp(P, cl, 900000)
        cl.I = I
        outs = I.run(b.id, args=[I.symarg(b, 1)], st=ai.State(mon=()))
        C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
        got = {}
        for st, r in outs:
            entries(P, deep(I.canon(st, r)), (), got, nm)
        n += len(got)
        for path, (var, raw, _, _) in defs.items():
            group = path[0][1] if len(path) == 2 else None
            fields = P.adts[path[0][0]]['variants'][0]['fields']
            want = ((fields[group][0].lower(),) if group is not None else ()) + (var.lower(),)
            C.ob('global', 'function ' + '.'.join(want), got.get(want) == path, 'the name stands for %s' % (got.get(want) and '.'.join(names_of_field(P, p) for p in got[want]),), b.name)
        C.ob('global', 'nothing else', len(got) == len(defs), 'there are %d names for %d functions' % (len(got), len(defs)), b.name)
    C.floor('names that are there from the start', n, 40)


def names_of_field(P, p):
    return P.adts[p[0]]['variants'][0]['fields'][p[1]][0]


def entries(P, t, path, out, nm):
    """(key, value) pairs of nested dicts"""
    t = deep(t)
    pairs = None
    if t.t == 'adt' and t.a[0] == VAL:
        if vname(P, t) == 'Func':
            out.setdefault(path, field_path(t.a[2][0]))
        else:
            for x in t.a[2]:
                entries(P, x, path, out, nm)
        return
    if t.t in ('arr', 'tup'):
        for x in t.a[0]:
            if isinstance(x, T) and deep(x).t == 'tup' and len(deep(x).a[0]) == 2:
                k, v = [deep(y) for y in deep(x).a[0]]
                entries(P, v, path + (nm.get(raw_id(k), '?'),), out, nm)
            elif isinstance(x, T):
                entries(P, x, path, out, nm)
        return
    for x in t.a:
        if isinstance(x, T):
            entries(P, x, path, out, nm)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    entries(P, y, path, out, nm)


def field_path(t):
    """names of the fields from the structure of built-in functions"""
    t = deep(t)
    out = []
    while t.t == 'fld':
        out.append((t.a[2], t.a[1]))
        t = deep(t.a[0])
    out = [x for x in out if x[0] and x[0].startswith(NATIVE)]
    return tuple(reversed(out))


def binding(C, nat, V, x):
    """is the value bound as content or as positional argument?"""
    adds = set()
    for i, cal, args, dest, span in C.P.calls(x):
        y = C.P.bodies.get(cal.get('rid') or cal.get('id'))
        if y is None:
            continue
        s = sig(y)
        if len(s) == 3 and s[2] == VAL and s[1].startswith('&mut') and s[0].startswith(RES + '<()'):
            adds.add(y.id)
    kinds = {adder(C, i) for i in adds}
    return kinds.pop() if len(kinds) == 1 else None


def adder(C, i):
    """what an operation of the binder adds to: it reads the positional parameters of the signature, or the content parameter"""
    from rules import args
    s = args.shapes(C)
    if not s.ok:
        return None
    want = {s.s_cont: 'content', s.s_pos: 'positional'}
    todo, seen = [i], set()
    while todo:
        hits = set()
        ids = set(todo)
        seen |= ids
        bs = [b for b in C.P.bodies.values() if b.id in ids or b.parent in ids]
        for b in bs:
            for blk in b.blocks:
                if not blk['c']:
                    for pl in places(blk):
                        hits |= {want[e[2]] for e in pl[1:] if isinstance(e, list) and e[0] == 'f' and e[2] in want}
        if hits:
            return hits.pop() if len(hits) == 1 else None
        todo = {c.get('rid') or c.get('id') for b in bs for _, c, _, _, _ in C.P.calls(b)}
        todo = [x for x in todo if x in C.P.bodies and x not in seen and any(s.binder in C.P.bodies[x].ty(k)['s'] or s.sig in C.P.bodies[x].ty(k)['s'] for k in range(1, C.P.bodies[x].argc + 1))]
    return None


FP = 'compiler::signature::FuncParam'
# the functions that can be had as attributes, by kind of value
ATTRS = {
    'Bool': 'and negate or',
    'Func': 'bind name',
    'HTML': 'escape_html is_empty is_whitespace',
    'Int': 'add negate',
    'List': 'all any contains enumerate filter find flat get is_empty join len map slice sorted',
    'Regex': 'count find find_all split test',
    'Str': 'ends_with escape_html is_empty is_whitespace len lower split starts_with trim unique_id upper',
}
KINDS = {'Bool': ('Bool',), 'Int': ('Int',), 'Str': ('Str',), 'List': ('List',), 'Dict': ('Dict',), 'Func': ('Function',), 'Regex': ('Regex', 'Regexp'), 'HTML': ('Html', 'Block', 'Inline')}


def definitions(C, nat, V):
    """the structure of built-in functions as it is built: path of fields -> (function, name, group, signature)"""
    P = C.P
    out = {}
    for b in C.lib():
        if b.parent or b.argc or not b.ty(0)['s'].startswith(NATIVE):
            continue
        cl = N(C, nat, V)
        I = ai.Interp(P, cl, 900000)
        cl.I = I
        for st, r in I.run(b.id, args=[], st=ai.State(mon=())):
            collect(P, deep(I.canon(st, r)), (), out)
        C.explored.append((b.name, 1, I.steps, len(I.visited)))
    return out


def collect(P, t, path, out):
    t = deep(t)
    if t.t == 'adt' and t.a[0] == FUNC:
        v = [deep(x) for x in t.a[2]]
        if vname(P, t) == 'Native' and len(v) == 3:
            out.setdefault(path, (vname(P, deep(v[0].a[2][0])) if v[0].a[2] else vname(P, v[0]), raw_id(v[1]), path, v[2]))
        return
    if t.t == 'adt' and t.a[0].startswith(NATIVE):
        for i, x in enumerate(t.a[2]):
            collect(P, x, path + ((t.a[0], i),), out)


def raw_id(t):
    while t.t == 'adt' and len(t.a[2]) == 1:
        t = deep(t.a[2][0])
    return t.a[0] if t.t == 'i' else None


def param_types(C, sg):
    """(type of the content parameter, type of the first positional parameter)"""
    from rules import args
    P = C.P
    s = args.shapes(C)
    names = {p: [f[0] for f in P.adts[p]['variants'][0]['fields']] for p in (s.sig, s.param)}
    while sg.t == 'adt' and sg.a[0] != s.sig and len(sg.a[2]) == 1:
        sg = deep(sg.a[2][0])
    if sg.t != 'adt' or sg.a[0] != s.sig:
        return None, None

    def get(t, n):
        return deep(t.a[2][names[t.a[0]].index(n)])

    def ty(p):
        p = deep(p)
        while p.t == 'adt' and p.a[0] != s.param and len(p.a[2]) == 1:
            p = deep(p.a[2][0])
        if p.t != 'adt' or p.a[0] != s.param:
            return None
        t = get(p, s.p_type)
        return vname(P, t) if t.t == 'adt' and t.a[0] == TYPE else show(t)
    pos = get(sg, s.s_pos)
    first = None
    if pos.t == 'arr' and pos.a[0]:
        first = ty(pos.a[0][0])
    elif pos.t == 'arr':
        sp = get(sg, s.s_sp)
        first = 'spread' if ty(sp) else None
    return ty(get(sg, s.s_cont)), first


def due(C, sg, kinds):
    """how a value of this kind is what the function works on"""
    c, p = param_types(C, sg)
    ts = {t for k in kinds for t in KINDS.get(k, ())}
    if c in ts:
        return 'content'
    if p in ts or p == 'spread':
        return 'positional'
    return None
