"""Places: a diagnostic names the file, line and column of what it is about, and the calls that led there; a node of the tree extends over what was read for it."""
from rules import prop
from rulelib import *
import models
from rules.coerce import names_of, vname, deep
from rules.natives import *
from rules.access import AST, sig
from rules.exprs import RANGE, noting
from rules.parse import *

SRC = 'utils::sourcefile::SourceFile'
DIAG = 'errors::sink_base::Diagnostic'


class Placing(Plain):
    """everything about files, ranges and diagnostics is looked into; what is written is noted"""
    def __init__(self, C, *a, **k):
        self.entries = []
        Plain.__init__(self, C, *a, **k)

    def loop_enter(self, I, st, ctx):
        self.entries.append((ctx, st.copy()))
        Plain.loop_enter(self, I, st, ctx)

    def inline(self, I, b):
        if b.id in self.extra:
            return False
        if b.name.startswith(('errors::sink', 'utils::sourcefile')) or b.kind == 'closure' or b.name.split('::<')[0] in self.opened:
            return True
        return Plain.inline(self, I, b)

    opened = ()

    def call(self, I, st, ctx, name, args, cal):
        n = name.rsplit('::', 1)[-1]
        if n in ('write_fmt', 'write_str', 'write_char') and 'fmt' in name:
            x = deep(I.canon(st, args[1]))
            ps = [deep(I.canon(st, p)) for p in models.flat_fmt(I, x)] if n == 'write_fmt' else [x]
            st, s2 = st.copy(), st.copy()
            self.note(st, ('wrote',) + tuple(ps))
            return [(st, ok(mk('tup', ()))), (s2, err(mk('app', 'write error')))]
        if n == 'get_or_init' and len(args) == 2:
            st = st.copy()
            self.note(st, ('kept in', deep(I.canon(st, args[0]))))
            return [(s, mk('ref', ('const', v), (), False)) for s, v in I.call_value(st, ctx, args[1], [])]
        return Plain.call(self, I, st, ctx, name, args, cal)


def explore(C, nat, V, b, extra=None, cls=Placing):
    cl = cls(C, nat, V, extra=extra or {})
    I = ai.Interp(C.P, cl, 200000)
    cl.I = I
    args = [I.symarg(b, i + 1) for i in range(b.argc)]
    outs = I.run(b.id, args=args, st=ai.State(mon=()))
    C.explored.append((b.name, len(outs), I.steps, len(I.visited)))
    given = [deep(I.canon(ai.State(), x)) for x in args]
    return I, cl, given, [(st, deep(I.canon(st, r))) for st, r in outs]


def shown(t, n=80):
    return show(t)[:n]


def fields(t):
    """the path of fields down from a root"""
    w = []
    while isinstance(t, T) and t.t in ('fld', 'as', 'idx', 'deref'):
        if t.t == 'fld':
            w.append(t.a[3] if t.a[3] is not None else t.a[1])
        t = t.a[0]
    return t, tuple(reversed(w))


# ---- the line and the column

def repeated(v, acc):
    """(element, how often) if v is acc with equal elements added at its end"""
    v = deep(v)
    if v.t != 'app' or deep(v.a[1]) is not acc:
        return None
    n = last(v)
    if n == 'extend' and deep(v.a[2]).t == 'iter':
        it = deep(v.a[2])
        src, ad = it.a[0], it.a[1]
        if src[0] == 'opq' and len(src) > 1 and isinstance(src[1], T):
            s = deep(src[1])
            if s.t == 'app' and last(s) == 'repeat' and len(ad) == 1 and ad[0][0] == 'take':
                return deep(s.a[1]), deep(ad[0][1])
            if s.t == 'app' and last(s) == 'repeat_n' and not ad:
                return deep(s.a[1]), deep(s.a[2])
    if n == 'resize' and len(v.a) == 4:
        k = deep(v.a[2])
        ys = [deep(y) for y in k.a] if k.t in ('add', 'app') else []
        ls = [y for y in ys if isinstance(y, T) and y.t == 'app' and y.a[0] == 'len' and deep(y.a[1]) is acc]
        if len(ls) == 1:
            return deep(v.a[3]), next(y for y in ys if y is not ls[0])
    return None


def last(t):
    return t.a[0].rsplit('::', 1)[-1] if isinstance(t.a[0], str) else None


def lines(C, nat, V):
    C.rule('line', 'the line is one more than the new lines before the place, and the column one more than the characters since the last of them')
    todo = [b for b in C.lib() if b.argc == 2 and not b.parent and b.kind not in ('closure', 'promoted') and sig(b)[0] == '(u32, u32)' and SRC in sig(b)[1] and sig(b)[2] == 'u32']
    C.floor('functions that find the line and the column', len(todo), 1)
    for b in todo:
        I, cl, given, outs = explore(C, nat, V, b)
        name = b.name
        for e in {e for st, r in outs for e in st.mon if e[0] == 'kept in'}:
            C.ob('line', name + ': kept', fields(e[1])[0] is given[0] and len(fields(e[1])[1]) == 1, 'what was found is not kept with the file', name)
        for st, r in outs:
            one_line(C, I, cl, b, given, st, r)


def one_line(C, I, cl, b, given, st, r):
    name = b.name
    if not (r.t == 'idx' and deep(r.a[1]) is given[1]):
        C.ob('line', name + ': looked up', False, 'what is found is %s' % shown(r), name)
        return
    v = deep(r.a[0])
    final = None
    if v.t == 'app' and last(v) == 'push':
        final, v = deep(v.a[2]), deep(v.a[1])
    if not (v.t in ('lv', 'jn') and final is not None and final.t == 'tup'):
        C.ob('line', name + ': the end', False, 'there is no place at the end of the file: %s' % shown(v), name)
        return
    pr = [deep(x) for x in (final.a[0] if isinstance(final.a[0], tuple) else final.a)]
    if not (len(pr) == 2 and all(x.t in ('lv', 'jn') for x in pr)):
        C.ob('line', name + ': the end', False, 'the place at the end is %s' % shown(final), name)
        return
    fid, bb = v.a[0][1], v.a[0][2]
    loc = [(x.a[0][3], tuple(x.a[0][4:])) for x in [v] + pr]
    rd = lambda s: [deep(I.canon(s, I.rd(s, *l))) for l in loc]
    n = 0
    for ctx, s in cl.entries:
        if (ctx.fid, ctx.bb) == (fid, bb):
            a, l, k = rd(s)
            n += 1
            C.ob('line', name + ': first', a.t == 'arr' and not a.a[0] and l is terms.I(1) and k is terms.I(1), 'the first character is at line %s, column %s' % (shown(l), shown(k)), name)
    C.floor('the start of the file', n, 1)
    both = set()
    for ctx, h, s in cl.rounds:
        if (ctx.fid, ctx.bb) != (fid, bb):
            continue
        a, l, k = rd(s)
        if v not in subterms(a):
            continue
        rep = repeated(a, v)
        if rep is None:
            C.ob('line', name + ': every byte', False, 'a character adds %s' % shown(a), name)
            continue
        el, cnt = rep
        x = deep(cnt.a[1]) if cnt.t == 'app' and last(cnt) == 'len_utf8' else None
        if cnt.t == 'add' and x is None:
            ys = [deep(y) for y in cnt.a]
            x = next((deep(y.a[1]) for y in ys if y.t == 'app' and last(y) == 'len_utf8'), None)
        ch = x is not None and x.t == 'app' and x.a[0] == 'elem'
        C.ob('line', name + ': every byte', ch and any(fields(deep(y))[1][:1] == ('src',) and fields(deep(y))[0] is given[0] for y in subterms(x) if y.t in ('fld', 'deref')), 'a character stands for %s places' % shown(cnt), name)
        es = el.a[0] if el.t == 'tup' else ()
        C.ob('line', name + ': place', tuple(deep(y) for y in es) == (pr[0], pr[1]), 'the place of a character is %s' % shown(el), name)
        if not ch:
            continue
        nl = newline(s, x)
        if nl is None:
            C.ob('line', name + ': a new line', False, 'whether a character is a new line is not looked at', name)
            continue
        both.add(nl)
        want = (mk('add', pr[0], terms.I(1)), terms.I(1)) if nl else (pr[0], mk('add', pr[1], terms.I(1)))
        C.ob('line', name + (': after a new line' if nl else ': after another character'), (l, k) == want, 'the next character is at %s, %s' % (shown(l), shown(k)), name)
    C.ob('line', name + ': both', both == {True, False}, 'new lines are not told apart', name)


def newline(st, c):
    v = next((v for k, v in st.facts.items() if k.t not in ('eq', 'lt', 'le') and deep(k) is c), None)
    n = lambda x: x.a[0] if isinstance(x, T) else x
    if v is not None:
        if v[0] == '=':
            return n(v[1]) == 10
        if v[0] == '!' and 10 in {n(x) for x in v[1]}:
            return False
    return None


# ---- the file

def files(C, nat, V):
    C.rule('file', 'the file is the one that the range was taken from')
    n = 0
    for b in C.lib():
        if b.parent or b.kind in ('closure', 'promoted') or not b.argc:
            continue
        s = sig(b)
        holds = [i for i, x in enumerate(s[1:]) if x == RANGE]
        cache = 'SourceFileCache' in s[1]
        if cache and s[1].startswith('&mut') and SRC in s[0]:
            made(C, nat, V, b)
            n += 1
        elif s[0] in ('std::rc::Rc<%s>' % SRC, '&str', '&' + SRC) and ('Compiler<' in s[1] or cache or 'Context' in s[1]) and len(s) == 3 and (holds or s[2].endswith('SourceFileID')):
            I, cl, given, outs = explore(C, nat, V, b, cls=Looking)
            for st, r in outs:
                x = deep(r)
                by = given[1]
                if s[0] == '&str':
                    x = x.a[1] if x.t == 'app' and last(x) in ('substr', 'index', 'slice') else x
                while x.t in ('fld', 'deref') and not (x.t == 'idx'):
                    x = deep(x.a[0])
                okay = x.t == 'idx' and within(by, x.a[1]) and (not holds or any(y.t == 'fld' and y.a[3] == 'src_id' for y in subterms(deep(x.a[1]))))
                C.ob('file', b.name, okay, 'the file is %s' % shown(r), b.name)
                n += 1
    C.floor('functions that give a file', n, 4)


def within(x, t):
    return x in subterms(deep(t))


class Looking(Placing):
    def inline(self, I, b):
        if b.id in self.extra:
            return False
        return 'SourceFile' in ' '.join(sig(b)) or Placing.inline(self, I, b)


def made(C, nat, V, b):
    """a file is added: its number is its place"""
    I, cl, given, outs = explore(C, nat, V, b, cls=Looking)
    name = b.name
    n = 0
    for st, r in outs:
        f = r
        if f.t == 'adt' and f.a[0] == RES:
            if f.a[1]:
                C.ob('file', name + ': not read', not [e for e in st.mon if e[0] == 'push'], 'a file that could not be read is kept', name)
                continue
            f = deep(f.a[2][0])
        pushed = [e for e in st.mon if e[0] == 'push']
        n += 1
        C.ob('file', name + ': kept', len(pushed) == 1 and deep(pushed[0][-1]) is f, 'the file given is not the one that is kept', name)
        if f.t != 'adt' or f.a[0] != SRC:
            C.ob('file', name + ': made', False, 'the file is %s' % shown(f), name)
            continue
        d = [x[0] for x in C.P.adts[SRC]['variants'][0]['fields']]
        at = dict(zip(d, f.a[2]))
        num = deep(at['id'])
        C.ob('file', name + ': number', any(y.t == 'app' and y.a[0] == 'len' and fields(deep(y.a[1]))[1] == ('files',) for y in subterms(num)) and not any(y.t in ('add', 'sub') for y in subterms(num)), 'its number is %s' % shown(num), name)
        src, ps, p = [deep(at[x]) for x in ('src', 'path_str', 'path')]
        strs = [g for g, t in zip(given[1:], sig(b)[2:]) if t == '&str']
        paths = [g for g, t in zip(given[1:], sig(b)[2:]) if 'Path' in t]
        if paths:
            C.ob('file', name + ': path', within(paths[0], p) and within(paths[0], ps) and not any(y.t in ('app', 'sym') and last(y) == 'read_to_string' for y in subterms(ps)), 'its path is %s' % shown(ps), name)
            C.ob('file', name + ': text', within(paths[0], src) and any(y.t in ('app', 'sym') and last(y) == 'read_to_string' for y in subterms(src)), 'its text is %s' % shown(src), name)
        elif len(strs) == 2:
            C.ob('file', name + ': path', bare(ps) is bare(strs[0]), 'its path is %s' % shown(ps), name)
            C.ob('file', name + ': text', bare(src) is bare(strs[1]), 'its text is %s' % shown(src), name)
    C.floor('ways to add a file', n, 1)


# ---- what is shown

def display(C, nat, V):
    C.rule('shown', 'a diagnostic is shown with its message, its file, its line and its column')
    C.rule('calls', 'the calls that led to a runtime error are shown oldest first, each at its place, with the function that it is in')
    P = C.P
    found = [x for x in C.lib() if not x.parent and x.argc == 2 and DIAG + '<' in sig(x)[1] and x.name.endswith('::fmt') and 'Display' in x.name]
    C.floor('functions that show a diagnostic', len(found), 1)
    ex = {x.id: (lambda I, st, ctx, b, args: [(st, mk('tup', tuple(mk('app', w, *[deep(I.canon(st, a)) for a in args]) for w in ('line', 'column'))))])
          for x in C.lib() if x.argc == 2 and x.kind not in ('closure', 'promoted') and sig(x)[0] == '(u32, u32)'}
    for b in found:
        I, cl, given, outs = explore(C, nat, V, b, ex)
        name = b.name
        me = given[0]

        def pieces(mon):
            out = []
            for e in mon:
                if e[0] == 'wrote':
                    out += [deep(x) for x in e[1:] if deep(x).t != 's']
                elif e[0] in ('round', 'end'):
                    out.append(e[0])
            return out

        def place(xs, holder):
            """xs are path, line, column of the holder"""
            f = [fields(x) if x.t != 'app' else None for x in xs]
            if len(xs) != 3 or xs[0].t == 'app' or xs[1].t != 'app' or xs[2].t != 'app' or xs[1].a[0] != 'line' or xs[2].a[0] != 'column':
                return False
            if not (xs[0].t == 'fld' and xs[0].a[3] == 'path_str'):
                return False
            src = src_of(xs[0])
            return all(src_of(mk('fld', deep(x.a[1]), 0, '', '')) is src and holder(deep(x.a[2])) and whole(x.a[2], 'start') for x in xs[1:]) and holder(src)

        def src_of(t):
            x = deep(t.a[0])
            while x.t == 'deref':
                x = deep(x.a[0])
            return x

        def whole(t, f):
            t = deep(t)
            return t.t == 'fld' and t.a[3] == f

        own = lambda t: fields(t)[0] is me and 'range' in fields(t)[1] and 'trace' not in fields(t)[1]
        elem = lambda t: fields(t)[0] is me and 'trace' in fields(t)[1] and any(y.t == 'idx' for y in subterms(t))
        n = 0
        carried = set()
        for st, r in outs:
            if not (r.t == 'adt' and r.a[1] == 0):
                continue
            ps = pieces(st.mon)
            n += 1
            if 'end' not in ps:
                C.ob('shown', name, len(ps) == 4 and own_msg(ps[0], me) and place(ps[1:], own), 'without calls it is shown as %s' % ', '.join(shown(x, 40) if isinstance(x, T) else x for x in ps), name)
                continue
            tail = ps[ps.index('end') + 1:]
            fn = None
            if len(tail) == 5:
                fn = tail.pop(3)
            C.ob('shown', name + ': after the calls', len(tail) == 4 and own_msg(tail[3], me) and place(tail[:3], own), 'after the calls it is shown as %s' % ', '.join(shown(x, 40) for x in tail), name)
            x = fn
            while x is not None and x.t in ('as', 'fld', 'deref'):
                x = deep(x.a[0])
            if fn is not None:
                carried.add(x)
        C.floor('ways in which a diagnostic is shown', n, 3)
        C.ob('calls', name + ': in the last', len(carried) == 1 and all(x.t in ('lv', 'jn') for x in carried), 'the function of the last call is not shown with the place', name)
        m, both = 0, set()
        for ctx, h, s in cl.rounds:
            for v in s.mem.values():
                for y in subterms(deep(v)):
                    if y.t == 'iter' and len(y.a[0]) > 1 and isinstance(y.a[0][1], T) and 'trace' in fields(deep(y.a[0][1]))[1]:
                        C.ob('calls', name + ': in order', not y.a[1] and y.a[0][-1] is not True, 'the calls are shown as %s' % shown(y), name)
        for c in carried:
            if c.t not in ('lv', 'jn'):
                continue
            fid, bb = c.a[0][1], c.a[0][2]
            for ctx, s in cl.entries:
                if (ctx.fid, ctx.bb) == (fid, bb) and c.t == 'lv':
                    v = deep(I.canon(s, I.rd(s, c.a[0][3], tuple(c.a[0][4:]))))
                    C.ob('calls', name + ': the first', v.t == 'adt' and not v.a[2] or v is c, 'the first call is shown in %s' % shown(v), name)
            for ctx, h, s in cl.rounds:
                if ctx.fid != fid:
                    continue
                mon = s.mon
                k = max([i for i, e in enumerate(mon) if e[0] == 'round'] or [-1])
                ps = pieces(mon[k + 1:])
                m += 1
                fn = ps.pop(3) if len(ps) == 4 else None
                z = fn
                while z is not None and z.t in ('as', 'fld', 'deref'):
                    z = deep(z.a[0])
                C.ob('calls', name + ': a call', len(ps) == 3 and place(ps, elem) and (fn is None or z is c), 'a call is shown as %s' % ', '.join(shown(x, 40) for x in ps), name)
                if c.t == 'lv':
                    v = deep(I.canon(s, I.rd(s, c.a[0][3], tuple(c.a[0][4:]))))
                    y = deep(v.a[2][0]) if v.t == 'adt' and v.a[2] else v
                    there = in_function(s)
                    C.ob('calls', name + ': in the next', there is False and v.t == 'adt' and not v.a[2] or there is not False and y is not v and elem(y) and 'in_func' in fields(y)[1], 'the next is shown in %s' % shown(v), name)
                    both.add(there)
        C.ob('calls', name + ': in a function or not', both == {True, False}, 'the function of a call is not shown with the next', name)
        C.floor('rounds that show a call', m, 1)


def in_function(st):
    """whether the call is known to have a function"""
    for k, v in st.facts.items():
        if k.t == 'disc' and 'in_func' in fields(deep(k.a[0]))[1][-1:]:
            x = v[1].a[0] if isinstance(v[1], T) else v[1]
            if v[0] == '=':
                return bool(x)
    return None


def own_msg(x, me):
    return isinstance(x, T) and fields(x)[0] is me and fields(x)[1][:1] == ('msg',)


# ---- where diagnostics are made

ONCE = ('errors::warning::Warning', 'errors::module_error::ModuleError')


def reporting(C, nat, V):
    C.rule('made', 'a diagnostic is made with the file and the start of the range that it is reported at')
    C.rule('trace', 'an error of a running program has all calls that have not returned, from the first to the last, each with the file and place of the call and the name of what is called')
    named = {x.id: (lambda I, st, ctx, b, args: [(st, mk('app', 'called as', deep(I.canon(st, args[0]))))]) for x in C.lib()
             if x.argc == 1 and not x.parent and x.kind not in ('closure', 'promoted') and sig(x) == [NID, '&' + FUNC]}
    traces = {x.id: x for x in C.lib() if not x.parent and x.argc == 1 and x.kind not in ('closure', 'promoted') and 'DiagSourceRange' in sig(x)[0] and 'Compiler<' in sig(x)[1]}
    C.floor('functions that list the calls', len(traces), 1)
    for b in traces.values():
        listed(C, nat, V, b, named)
    ex = {i: (lambda I, st, ctx, b, args: [(st, mk('app', 'the calls', deep(I.canon(st, args[0]))))]) for i in traces}
    ways = {}
    for b in C.lib():
        if b.parent or b.kind in ('closure', 'promoted') or not b.argc:
            continue
        s = sig(b)
        if RANGE not in s[1:] or not (s[0] == '()' or s[0].endswith('AlreadyReported')) or '<' in s[0] or not any(x in s[1] for x in ('Compiler<', PARSER + '<', 'DiagnosticSink<')):
            continue
        if not any(x.name.endswith(('::report', '::add', '::report_static')) or 'Diagnostic' in ' '.join(sig(x)) for x in reached(C, b)):
            continue
        I, cl, given, outs = explore(C, nat, V, b, ex, Looking)
        made = [e[-1] for st, r in outs for e in st.mon if e[0] == 'push' and isinstance(e[-1], T) and e[-1].t == 'adt' and e[-1].a[0] == DIAG]
        rng = given[s[1:].index(RANGE)]
        for d in set(made):
            at = dict(zip([x[0] for x in C.P.adts[DIAG]['variants'][0]['fields']], [deep(x) for x in d.a[2]]))
            w = at['range']
            if w.t != 'adt':
                C.ob('made', b.name + ': place', False, 'its place is %s' % shown(w), b.name)
                continue
            pl = dict(zip([x[0] for x in C.P.adts[w.a[0]]['variants'][0]['fields']], [deep(x) for x in w.a[2]]))
            st_ = pl['start']
            C.ob('made', b.name + ': place', st_.t == 'fld' and st_.a[3] == 'start' and deep(st_.a[0]) is rng, 'it is shown at %s' % shown(st_), b.name)
            src = pl['src']
            files_ = [g for g, t in zip(given, s[1:]) if t == 'std::rc::Rc<%s>' % SRC]
            if files_:
                okay = src is files_[0]
            elif PARSER in s[1]:
                okay = fields(src) == (given[0], ('src',))
            else:
                okay = src.t == 'idx' and fields(deep(src.a[0]))[0] is given[0] and any(y.t == 'fld' and y.a[3] == 'src_id' and deep(y.a[0]) is rng for y in subterms(deep(src.a[1])))
            C.ob('made', b.name + ': file', okay, 'its file is %s' % shown(src), b.name)
            msg = at['msg']
            gen = [g for g, t in zip(given, s[1:]) if t == 'T']
            C.ob('made', b.name + ': message', not gen or gen[0] in subterms(msg), 'its message is %s' % shown(msg), b.name)
            tr = at['trace']
            t = 'none' if tr.t == 'adt' and not tr.a[2] else 'calls' if tr.t == 'adt' and deep(tr.a[2][0]).t == 'app' and deep(tr.a[2][0]).a[0] == 'the calls' else 'given' if (deep(tr.a[2][0]) if tr.t == 'adt' else tr) in given else None
            C.ob('trace', b.name + ': calls', t is not None, 'the calls of a diagnostic are %s' % shown(tr), b.name)
            ways.setdefault(b.id, set()).add(t)
    called(C, nat, V)
    C.floor('functions that report', len(ways), 4)
    run = [i for i in ways if 'Compiler<' in sig(C.P.bodies[i])[1]]
    C.ob('trace', 'reports of a running program', any(ways[i] == {'calls'} for i in run), 'no report of the compiler lists the calls', '')
    once = {C.P.bodies[i].name for i in run if 'none' in ways[i]}
    n = 0
    for b in C.P.bodies.values():
        if not b.id.startswith('papyri_lang'):
            pass
        for i, cal, args, dest, span in C.P.calls(b):
            if 'def' not in cal or not {C.P.bodies[x].name for x in run} & {nm(cal)}:
                continue
            if len(args) < 3:
                continue
            n += 1
            if nm(cal) in once:
                ty = ai.Interp.op_ty(ai.Interp(C.P, ai.Client()), b, args[1])
                t = ty['s'] if isinstance(ty, dict) else str(ty)
                C.ob('trace', '%s: %s' % (C.owner(b).name if hasattr(C.owner(b), 'name') else C.owner(b), t), t in ONCE, 'a %s is reported without the calls that led to it' % t.rsplit('::', 1)[-1], C.loc(span))
    C.floor('places where the compiler reports', n, 20)


def nm(cal):
    from prog import norm
    return norm(cal['def'])


def reached(C, b):
    out = []
    for i, cal, args, dest, span in C.P.calls(b):
        if 'def' in cal:
            out += [x for x in C.P.bodies.values() if x.name == nm(cal)]
    return out


FRAME = 'compiler::frame::ActiveFrame'


class Calling(Looking):
    """the frames are looked into"""
    def inline(self, I, b):
        if b.id in self.extra:
            return False
        return not b.parent and b.kind not in ('closure', 'promoted') and (FRAME in sig(b)[0] or any(FRAME in x for x in sig(b)[1:])) or Looking.inline(self, I, b)


def called(C, nat, V):
    """a call is kept with the frame in which it runs"""
    n = 0
    for b in C.lib():
        if b.parent or b.kind in ('closure', 'promoted') or not b.argc:
            continue
        s = sig(b)
        if not (s[0].startswith(RES + '<' + VAL) and FUNC in s[1:] and RANGE in s[1:]):
            continue
        ex = {x.id: (lambda I, st, ctx, b, args: [(st, mk('app', 'result', *[deep(I.canon(st, a)) for a in args[:1]]))]) for x in C.lib()
              if x.argc and not x.parent and x.kind not in ('closure', 'promoted') and x.id != b.id and sig(x)[0].startswith((RES, 'errors::'))}
        I, cl, given, outs = explore(C, nat, V, b, ex, Calling)
        f, rng = given[s[1:].index(FUNC)], given[s[1:].index(RANGE)]
        for d in {e[-1] for st, r in outs for e in st.mon if e[0] == 'push' and isinstance(e[-1], T) and deep(e[-1]).t == 'adt' and deep(e[-1]).a[0] == FRAME}:
            d = deep(d)
            at = dict(zip([x[0] for x in C.P.adts[FRAME]['variants'][0]['fields']], [deep(x) for x in d.a[2]]))
            c = at['call']
            x = deep(c.a[2][0]) if c.t == 'adt' and c.a[2] else None
            es = [deep(y) for y in (x.a[0] if x is not None and x.t == 'tup' and isinstance(x.a[0], tuple) else x.a if x is not None and x.t == 'tup' else ())]
            n += 1
            C.ob('trace', b.name + ': what is called', f in es, 'the call that is kept is %s' % shown(c), b.name)
            C.ob('trace', b.name + ': where', rng in es, 'the call that is kept is %s' % shown(c), b.name)
    C.floor('ways in which a function is entered', n, 1)


def listed(C, nat, V, b, named):
    I, cl, given, outs = explore(C, nat, V, b, named, Looking)
    name = b.name
    def ordered(it):
        base = it.a[0]
        if base[0] == 'own' and deep(base[1]).t in ('lv', 'jn') and len(base) == 2 and not it.a[1]:
            return True    # a list that was built in rounds, handed on as it is
        return base[0] == 'slice' and fields(deep(base[1]))[1] == ('call_stack',) and base[2] is False and all(a[0] in ('map', 'filter_map', 'filter', 'copied', 'cloned', 'flat_map', 'inspect') for a in it.a[1])
    for ctx, h, st in cl.rounds:
        for e in {y for f in st.facts for y in subterms(deep(f)) if y.t == 'el'}:
            turned = [op[0] for base, ops in I.iters.get(e, ()) for op in ops if op[0] not in ('map', 'filter_map', 'filter', 'copied', 'cloned', 'flat_map', 'inspect')]
            early = (e.a[0], e.a[1]) in I.advanced
            C.ob('trace', name + ': in order', not turned and not early, 'the calls are listed %s' % (', '.join(turned) or 'without the first'), name)
    for st, r in outs:
        its = [x for x in subterms(r) if x.t == 'iter']
        for it in its:
            C.ob('trace', name + ': in order', ordered(it), 'the calls are taken from %s' % shown(it), name)
        C.ob('trace', name + ': all of them', bool(its) or r.t in ('lv', 'jn') or r.t == 'app', 'the calls are %s' % shown(r), name)
    n, had = 0, set()
    for ctx, h, st in cl.rounds:
        mon = st.mon
        k = max([i for i, e in enumerate(mon) if e[0] == 'round'] or [-1])
        got = [e[-1] for e in mon[k + 1:] if e[0] in ('take', 'push')]
        n += 1
        there = None
        for f, v in st.facts.items():
            if f.t == 'disc' and fields(deep(f.a[0]))[1][-1:] == ('call',) and v[0] == '=':
                there = bool(v[1].a[0] if isinstance(v[1], T) else v[1])
        had.add(there)
        C.ob('trace', name + ': each', there is not None and len(got) == there, 'a call is left out, or one is listed that is none', name)
        for x in got:
            x = deep(x)
            if x.t != 'adt':
                C.ob('trace', name + ': a call', False, 'a call is %s' % shown(x), name)
                continue
            pl = dict(zip([y[0] for y in C.P.adts[x.a[0]]['variants'][0]['fields']], [deep(y) for y in x.a[2]]))
            s_ = pl['start']
            rg = deep(s_.a[0]) if s_.t == 'fld' and s_.a[3] == 'start' else None
            C.ob('trace', name + ': its place', rg is not None and 'call' in fields(rg)[1], 'the place of a call is %s' % shown(s_), name)
            C.ob('trace', name + ': its file', pl['src'].t == 'idx' and rg is not None and any(y.t == 'fld' and y.a[3] == 'src_id' and deep(y.a[0]) is rg for y in subterms(deep(pl['src'].a[1]))), 'the file of a call is %s' % shown(pl['src']), name)
            f = pl['in_func']
            fn = [y for y in subterms(f) if y.t == 'app' and y.a[0] == 'called as']
            C.ob('trace', name + ': its function', f.t == 'adt' and bool(f.a[2]) and len(fn) == 1 and 'call' in fields(deep(fn[0].a[1]))[1], 'the function of a call is %s' % shown(f), name)
    C.floor('rounds that list a call', n, 1)
    C.ob('trace', name + ': some', True in had, 'no call is listed', name)


# ---- nodes of the tree

def range_field(P, path, vi):
    d = P.adts.get(path)
    if not d or not path.startswith('parser::') or vi >= len(d['variants']):
        return None
    T_ = P.types['papyri_lang']
    return next((i for i, f in enumerate(d['variants'][vi]['fields']) if T_[f[1]]['s'] == RANGE), None)


class Order:
    """which of the tokens and parts something is of, in the order in which they were read"""
    def __init__(self, U, st, round=False):
        self.U = U
        self.round = round
        self.at = {}
        for i, (a, t) in enumerate(zip(U.given, sig(U.body)[1:])):
            if PARSER not in t:
                self.at[a] = i - 100
        for i, e in enumerate(e for e in st.mon if e[0] == 'took' or e[0] == 'sub' and deep(e[1]).a[0] != 'i64'):
            self.at[deep(e[1])] = i

    def owner(self, t):
        """the token, part or given value that this is taken out of"""
        t = deep(t)
        while isinstance(t, T):
            if t in self.at:
                return t
            if t.t in ('fld', 'as', 'idx', 'deref', 'upd'):
                t = deep(t.a[0])
            elif t.t == 'app' and t.a[0] in ('range', 'collect'):
                t = deep(t.a[1])
            elif t.t == 'iter' and len(t.a[0]) > 1 and isinstance(t.a[0][1], T):
                t = deep(t.a[0][1])
            elif t.t == 'app' and t.a[0] in ('token',) or is_sub(t):
                return t
            elif t.t == 'adt' and str(t.a[0]).startswith('parser::'):
                j = range_field(self.U.P, t.a[0], t.a[1])
                t = deep(t.a[2][j or 0])
            else:
                return t if t.t in ('lv', 'jn') and not self.U.cl.is_queue(t) else None
        return None

    def when(self, t):
        # what a loop has built so far is before what its round reads
        if t is not None and t not in self.at and (t.t in ('lv', 'jn') or is_sub(t)) and self.round:
            return -1
        return self.at.get(t)

    def content(self, y, skip):
        """what the parts of a node, other than its range, are made of"""
        out, seen = set(), set()

        def go(t):
            t = deep(t)
            if not isinstance(t, T) or t in seen:
                return
            seen.add(t)
            if t in self.at:
                out.add(t)
                return
            if t.t in ('fld', 'as', 'idx', 'upd') and self.owner(t) is not None:
                out.add(self.owner(t))
                return
            if t.t == 'app' and t.a[0] == 'token' or is_sub(t):
                out.add(t)
                return
            if t.t in ('lv', 'jn') and not self.U.cl.is_queue(t):
                out.add(t)
                return
            if t.t in ('clo', 'fn', 'lv', 'jn', 'disc', 'eq', 'lt'):
                return
            if t.t == 'adt':
                for x in t.a[2]:
                    go(x)
                return
            for x in t.a:
                for z in x if isinstance(x, tuple) else (x,):
                    if isinstance(z, T):
                        go(z)
        for i, x in enumerate(y.a[2]):
            if i != skip:
                go(x)
        return out


def start_of(r):
    """(what its start is of, None) or (None, what is wrong); where a node ends is shown nowhere"""
    r = deep(r)
    if r.t == 'adt' and r.a[0] == RANGE:
        i, s = [deep(x) for x in r.a[2]][:2]
        if i.t == 'fld' and i.a[3] == 'src_id' and s.t == 'fld' and s.a[3] == 'start' and deep(i.a[0]) is deep(s.a[0]):
            return deep(s.a[0]), None
        return None, 'it starts at %s of %s' % (shown(s, 50), shown(i, 50))
    s = None
    while r.t == 'upd':
        w = str(r.a[1])
        if "'start'" in w and s is None:
            s = deep(r.a[2])
            if not (s.t == 'fld' and s.a[3] == 'start'):
                return None, 'its range starts at %s' % shown(s)
            s = deep(s.a[0])
        r = deep(r.a[0])
    return s if s is not None else r, None


def nodes(C, us):
    C.rule('node', 'a node of the syntax tree starts no later than what it is made of, at something that was read for it')
    n = 0
    for U in us:
        sts = [(st, [x], False) for st, g, x in U.res if g is not False and isinstance(x, T)]
        sts += [(st, list(st.mem.values()) + [z for e in st.mon for z in e if isinstance(z, T)], True) for c, h, st in U.cl.rounds]
        for st, xs, rd in sts:
            O = Order(U, st, rd)
            top = set() if rd else tops(deep(U.I.canon(st, xs[0])))
            seen = set()
            for x in xs:
                for y in subterms(deep(U.I.canon(st, x))):
                    if y.t != 'adt' or y in seen:
                        continue
                    seen.add(y)
                    i = range_field(C.P, y.a[0], y.a[1])
                    if i is None or y.a[0] == TOKEN:
                        continue
                    n += 1
                    node(C, U, st, O, y, i, y in top)
    C.floor('ways in which a node is built', n, 150)


def tops(x):
    """the node that is the result, and those that are all that is in it"""
    out = set()
    while isinstance(x, T) and x.t == 'adt':
        out.add(x)
        xs = [deep(z) for z in x.a[2]]
        x = xs[0] if len(xs) == 1 else None
    return out


def node(C, U, st, O, y, i, top):
    name = '%s: %s' % (U.body.name, (y.a[0].rsplit('::', 1)[-1] + ' ' + str(vname(C.P, y))) if len(C.P.adts[y.a[0]]['variants']) > 1 else y.a[0].rsplit('::', 1)[-1])
    a, bad = start_of(y.a[2][i])
    if bad:
        C.ob('node', name, False, bad, U.body.name)
        return
    s = O.owner(a)
    cs = O.content(y, i)
    know = [O.when(c) for c in cs if O.when(c) is not None]
    ws = O.when(s)
    toks = [t for t in U.token_args() if ws is not None and O.at[t] < ws and not (is_sub(s) and any(z is t for z in s.a[1:-1])) and s.t not in ('lv', 'jn')]
    if top:
        C.ob('node', name + ': first', not toks, 'it starts at %s, after the token that it begins with' % shown(a, 60), U.body.name)
    C.ob('node', name + ': start', ws is not None and (not know or ws <= min(know)), 'it starts at %s' % shown(a, 60), U.body.name)


# ---- reports of the parser

def about(C, us):
    C.rule('report', 'a syntax error is reported at the token that it names, at what was read, or at the end of the file if there is no more')
    n = 0
    for U in us:
        sts = [st for st, g, x in U.res] + [st for c, h, st in U.cl.rounds]
        for st in sts:
            O = Order(U, st)
            for e in st.mon:
                if e[0] != 'report' or len(e) < 3:
                    continue
                n += 1
                one_report(C, U, st, O, deep(e[1]), deep(e[2]))
    C.floor('ways in which a syntax error is reported', n, 200)


def one_report(C, U, st, O, err, rng):
    kind = vname(C.P, err) if err.t == 'adt' else shown(err, 30)
    name = '%s: %s' % (U.body.name, kind)
    if kind in ('UnexpectedEOF', 'TokenExpectedWasEOF'):
        okay = rng.t == 'adt' and all(any(z.t == 'app' and z.a[0] == 'len' and fields(deep(z.a[1]))[1][-1:] == ('src',) for z in subterms(deep(x))) for x in rng.a[2][1:])
        C.ob('report', name, okay, 'it is reported at %s' % shown(rng), U.body.name)
        return
    toks = {deep(z.a[0]) for x in (err.a[2] if err.t == 'adt' else ()) for z in subterms(deep(x)) if z.t == 'fld' and z.a[3] == 'kind' and z.a[2] == TOKEN}
    toks = {t for t in toks if t.t == 'app' and t.a[0] == 'token' or t in O.at}
    own = O.owner(rng)
    if rng.t == 'adt':
        a, bad = start_of(rng)
        own = None if bad else O.owner(a)
    if toks and kind.startswith('Token'):
        # the last one named is the one that is there
        there = [t for x in err.a[2][-1:] for t in toks if any(z is t for z in subterms(deep(x)))]
        C.ob('report', name, rng.t == 'fld' and rng.a[3] == 'range' and deep(rng.a[0]) in (there or toks), 'it is reported at %s' % shown(rng, 60), U.body.name)
        return
    elems = {base_elem(z) for x in (err.a[2] if err.t == 'adt' else ()) for z in subterms(deep(x)) if base_elem(z) is not None}
    if elems:
        C.ob('report', name + ': the one named', base_elem_in(rng) in elems, 'it is reported at %s' % shown(rng, 60), U.body.name)
        return
    C.ob('report', name, own is not None or rng.t in ('lv', 'jn'), 'it is reported at %s' % shown(rng, 60), U.body.name)


def base_elem(t):
    """the element of a list that this is, or is in"""
    return t if t.t == 'idx' and deep(t.a[1]).t == 'el' else None


def base_elem_in(t):
    t = deep(t)
    while isinstance(t, T):
        if t.t == 'idx':
            return t
        if t.t in ('fld', 'as', 'deref') or t.t == 'app' and t.a[0] == 'range':
            t = deep(t.a[0] if t.t != 'app' else t.a[1])
        else:
            return None
    return None


class Ranged(Pz):
    def inline(self, I, b):
        if b.id in self.extra:
            return False
        return b.argc == 1 and not b.parent and b.kind not in ('closure', 'promoted') and sig(b)[0] == RANGE or Pz.inline(self, I, b)


def placed(C, nat, V):
    import rules.parse as rp
    old = rp.Pz
    rp.Pz = Ranged
    try:
        return rp.units_of(C, nat, V, Grammar(C))
    finally:
        rp.Pz = old


def of_nodes(C, nat, V):
    """the functions that give the range of a node"""
    C.rule('of', 'the place of a node is its own, or that of the first thing in it')
    n = 0
    for b in C.lib():
        if b.parent or b.kind in ('closure', 'promoted') or b.argc != 1:
            continue
        s = sig(b)
        if s[0] != RANGE or not s[1].startswith('&parser::'):
            continue
        ex = {x.id: (lambda I, st, ctx, b, args: [(st, mk('app', 'range', deep(I.canon(st, args[0]))))]) for x in C.lib()
              if x.argc == 1 and not x.parent and x.kind not in ('closure', 'promoted') and sig(x)[0] == RANGE and sig(x)[1].startswith('&parser::')}
        ex.pop(b.id, None)

        class Own(Looking):
            def opaque(self, I, st, ctx, body, args):
                if body.id == b.id:
                    return [(st, mk('app', 'range', deep(I.canon(st, args[0]))))]
                return Looking.opaque(self, I, st, ctx, body, args)
        I, cl, given, outs = explore(C, nat, V, b, ex, Own)
        for st, r in outs:
            x, bad = start_of(r)
            n += 1
            if bad:
                C.ob('of', b.name, False, bad, b.name)
                continue
            steps = []
            while x is not given[0] and isinstance(x, T):
                if x.t in ('fld', 'as', 'deref', 'idx'):
                    steps.append(x)
                    x = deep(x.a[0])
                elif x.t == 'app' and x.a[0] == 'range':
                    x = deep(x.a[1])
                else:
                    break
            what = b.name + ''.join(': ' + str(terms.VNAMES(y.a[2], y.a[1])) for y in reversed(steps) if y.t == 'as')
            okay = x is given[0]
            for i, y in enumerate(reversed(steps)):
                # of the fields, the range itself, or else the first
                if y.t != 'fld' or y.a[2] is not None and 'Box' in str(y.a[2]) or y.a[2] not in C.P.adts and not str(y.a[2]).startswith(('(', 'tup', 'None')):
                    continue
                if y.a[2] not in C.P.adts:
                    okay = okay and y.a[1] == 0
                    continue
                z = deep(y.a[0])
                vi = z.a[1] if z.t == 'as' else 0
                j = range_field(C.P, y.a[2], vi)
                if j is None:
                    j = next((k for k, f in enumerate(C.P.adts[y.a[2]]['variants'][vi]['fields']) if 'parser::' in C.P.types['papyri_lang'][f[1]]['s']), 0)
                okay = okay and y.a[1] == j
            C.ob('of', what, okay, 'it is %s' % shown(r), b.name)
    C.floor('ways to find the place of a node', n, 40)


@prop('P33')
def p33(C):
    from rules import convert
    V = convert.Conv(C)
    nat = Natives(C)
    C.V = V
    lines(C, nat, V)
    files(C, nat, V)
    display(C, nat, V)
    reporting(C, nat, V)
    of_nodes(C, nat, V)
    us = placed(C, nat, V)
    nodes(C, us)
    about(C, us)
