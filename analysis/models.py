"""Models of the standard-library and dependency functions the analysed code uses.
Each model returns [(state, value)] or None (fall back to an opaque result)."""
from terms import *
from prog import norm

MODELS = {}
SUFFIX = {}


def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def one(st, v):
    return [(st, v)]


def tyname(I, cal, ctx, i=0):
    a = cal.get('a') or []
    if i < len(a):
        return ctx.body.types[a[i]]
    return None


def adt_of(I, cal, ctx):
    t = tyname(I, cal, ctx)
    if t is not None and t['k'] == 'adt':
        return t['p']
    return None


# ------------------------------------------------------------------ references and smart pointers
PTR = ('std::rc::Rc', 'std::sync::Arc', 'std::boxed::Box', 'std::cell::Ref', 'std::cell::RefMut',
       'once_cell::sync::Lazy', 'once_cell::unsync::Lazy', 'std::borrow::Cow', 'std::cell::RefCell')


def selfty(I, args, cal, ctx):
    t = cal.get('rself')
    if t is not None:
        t = ctx.body.types[t]
    else:
        t = tyname(I, cal, ctx)
    return t


@m('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref',
   'std::convert::AsMut::as_mut', 'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut')
def deref(I, st, args, cal, ctx):
    t = tyname(I, cal, ctx)
    # trait impl of a local type
    if t is not None:
        n = cal['def'].rsplit('::', 1)
        i = (cal.get('a') or [None])[0]
        if i is not None and t['k'] == 'adt' and cal.get('rk') != 'item':
            b = I.P.find_impl(norm(cal['trait']), n[1], i, ctx.body.types) if cal.get('trait') else None
            if b is not None:
                return I.call_local(st, ctx, b.id, args)
        if t['k'] == 'ref':
            # &T: AsRef
            return one(st, I.ld(st, args[0]))
        if t['k'] == 'adt' and t['p'] in PTR:
            v = I.ld(st, args[0])
            if v.t == 'ref':
                return one(st, v)
            return one(st, mk('ref', ('*', v), (), cal['def'].endswith('mut')))
    return one(st, args[0])


@m('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut', 'std::cell::RefCell::<T>::get_mut')
def refcell(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    return one(st, mk('ref', r, p, cal['def'].endswith('mut')))


@m('std::cell::RefCell::<T>::new', 'std::cell::Cell::<T>::new')
def ident0(I, st, args, cal, ctx):
    return one(st, args[0])


@m('std::rc::Rc::<T>::new', 'std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new')
def box_new(I, st, args, cal, ctx):
    return one(st, mk('box', args[0], ctx.inst('box')))


@m('std::boxed::Box::<T>::new_uninit')
def box_uninit(I, st, args, cal, ctx):
    st = st.copy()
    root = ('heap', ctx.inst('uninit'))
    I.wr(st, root, (), mk('app', 'uninit'))
    return one(st, mk('ref', root, (), True))


@m('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(I, st, args, cal, ctx):
    if args[0].t == 'ref':
        return one(st, I.rd(st, *I.deref(args[0])))


for n in ('std::hint::must_use', 'std::convert::identity', 'std::vec::Vec::<T, A>::into_boxed_slice',
          'std::path::PathBuf::into_boxed_path', 'std::string::String::into_boxed_str',
          'std::vec::Vec::<T, A>::as_slice', 'std::string::String::as_str', 'std::array::<impl [T; N]>::as_slice',
          'std::array::<impl [T; N]>::as_ref', 'core::str::<impl str>::as_bytes', 'std::string::String::as_bytes',
          'std::path::Path::as_os_str', 'std::path::PathBuf::as_path', 'std::vec::Vec::<T, A>::as_mut_slice',
          'std::string::String::into_bytes', 'std::string::String::leak', 'std::path::Path::new',
          'std::boxed::Box::<T>::into_inner', 'std::hint::black_box'):
    MODELS[n] = ident0


@m('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::path::Path::to_path_buf',
   'std::slice::<impl [T]>::to_vec', 'std::vec::Vec::<T, A>::to_vec', 'std::str::<impl str>::to_owned',
   'std::slice::<impl [T]>::into_vec', 'std::path::PathBuf::clone')
def clone(I, st, args, cal, ctx):
    v = args[0]
    t = tyname(I, cal, ctx)
    x = I.ld(st, v)
    if t is not None and t['k'] == 'ref' and x.t == 'ref':
        return one(st, x)
    if x.t == 'deref' and t is not None and (t['k'] in ('prim', 'slice') or t.get('p') in ('std::path::Path',)):
        return one(st, x)
    return one(st, x)


@m('std::option::Option::<&T>::cloned', 'std::option::Option::<&T>::copied', 'std::option::Option::<&mut T>::cloned')
def opt_cloned(I, st, args, cal, ctx):
    out = []
    for s, vi in I.split(st, args[0], OPT):
        if vi == 0:
            out.append((s, NONE))
        else:
            out.append((s, some(I.ld(s, I.payload(args[0], 1, OPT)))))
    return out


@m('std::result::Result::<&T, E>::cloned', 'std::result::Result::<&T, E>::copied')
def res_cloned(I, st, args, cal, ctx):
    out = []
    for s, vi in I.split(st, args[0], RES):
        p = I.payload(args[0], vi, RES)
        out.append((s, ok(I.ld(s, p)) if vi == 0 else err(p)))
    return out


def convert(I, st, v, frm, to, ctx, into=False):
    """From::from between type indices"""
    ts = ctx.body.types
    b = I.P.find_impl('std::convert::From', 'from', to, ts, frm)
    if b is not None:
        return I.call_local(st, ctx, b.id, [v])
    if frm is not None and ts[frm]['s'] == ts[to]['s']:
        return one(st, v)
    return one(st, I.canon(st, v) if v.t in ('s', 'cat', 'app', 'ref') else v)


@m('std::convert::Into::into')
def into(I, st, args, cal, ctx):
    a = cal['a']
    if len(a) >= 2:
        return convert(I, st, args[0], a[0], a[1], ctx)
    return one(st, args[0])


@m('std::convert::From::from')
def from_(I, st, args, cal, ctx):
    a = cal['a']
    if len(a) >= 2:
        return convert(I, st, args[0], a[1], a[0], ctx)
    return one(st, I.canon(st, args[0]))


@m('std::mem::take')
def mem_take(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    v = I.rd(st, r, p)
    t = tyname(I, cal, ctx)
    d = None
    if t is not None and t['k'] == 'adt':
        if t['p'] == OPT:
            d = NONE
        else:
            b = I.P.find_impl('std::default::Default', 'default', cal['a'][0], ctx.body.types)
            if b is not None:
                outs = I.call_local(st, ctx, b.id, [])
                res = []
                for s, x in outs:
                    v = I.rd(s, r, p)
                    I.c.store(I, s, ctx, r, p, x, ('take',))
                    I.wr(s, r, p, x)
                    res.append((s, v))
                return res
    if d is None:
        d = mk('app', 'default', S(t['s'] if t else '?'))
    I.c.store(I, st, ctx, r, p, d, ('take',))
    I.wr(st, r, p, d)
    return one(st, v)


@m('std::mem::replace')
def mem_replace(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    v = I.rd(st, r, p)
    I.c.store(I, st, ctx, r, p, args[1], ('replace',))
    I.wr(st, r, p, args[1])
    return one(st, v)


@m('std::mem::swap')
def mem_swap(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    q, o = I.deref(args[1])
    v, w = I.rd(st, r, p), I.rd(st, q, o)
    I.c.store(I, st, ctx, r, p, w, ('swap',))
    I.wr(st, r, p, w)
    I.c.store(I, st, ctx, q, o, v, ('swap',))
    I.wr(st, q, o, v)
    return one(st, UNIT)


@m('std::mem::drop', 'core::mem::drop')
def mem_drop(I, st, args, cal, ctx):
    t = tyname(I, cal, ctx)
    I.c.drop(I, st, ctx, args[0], t)
    return one(st, UNIT)


@m('std::default::Default::default')
def default(I, st, args, cal, ctx):
    a = cal.get('a') or []
    t = ctx.body.types[a[0]] if a else None
    if t is not None:
        if t['k'] == 'adt' and t['p'] == OPT:
            return one(st, NONE)
        b = I.P.find_impl('std::default::Default', 'default', a[0], ctx.body.types)
        if b is not None:
            return I.call_local(st, ctx, b.id, [])
        if t['s'] == 'bool':
            return one(st, FALSE)
        if t['k'] == 'prim' and t['s'] not in ('str', 'char'):
            return one(st, I_(0))
    return one(st, mk('app', 'default', S(t['s'] if t else '?')))


I_ = I


# ------------------------------------------------------------------ comparisons
def strip_eq(I, st, v):
    return I.canon(st, v)


@m('std::cmp::PartialEq::eq')
def eq(I, st, args, cal, ctx):
    return one(st, I.t_eq(strip_eq(I, st, args[0]), strip_eq(I, st, args[1])))


@m('std::cmp::PartialEq::ne')
def ne(I, st, args, cal, ctx):
    return one(st, I.t_not(I.t_eq(strip_eq(I, st, args[0]), strip_eq(I, st, args[1]))))


def ordval(I, st, v, t):
    v = I.canon(st, v)
    if t is not None and t['k'] == 'adt':
        a = I.P.adts.get(t['p'])
        if a is not None and a['enum'] and not any(x['fields'] for x in a['variants']):
            return I.disc(st, v, t['p'])
    return v


def cmpm(op):
    def f(I, st, args, cal, ctx):
        t = tyname(I, cal, ctx)
        return one(st, I.binop(op, ordval(I, st, args[0], t), ordval(I, st, args[1], t)))
    return f


MODELS['std::cmp::PartialOrd::lt'] = cmpm('Lt')
MODELS['std::cmp::PartialOrd::le'] = cmpm('Le')
MODELS['std::cmp::PartialOrd::gt'] = cmpm('Gt')
MODELS['std::cmp::PartialOrd::ge'] = cmpm('Ge')


@m('std::cmp::Ord::min', 'std::cmp::min')
def omin(I, st, args, cal, ctx):
    return minmax(I, st, args, 'min')


@m('std::cmp::Ord::max', 'std::cmp::max')
def omax(I, st, args, cal, ctx):
    return minmax(I, st, args, 'max')


def minmax(I, st, args, k):
    a, b = args
    out = []
    for s, v in I.split_bool(st, I.t_lt(a, b)):
        lower, upper = (a, b) if v else (b, a)
        out.append((s, lower if k == 'min' else upper))
    return out


# ------------------------------------------------------------------ bool
@m('core::bool::<impl bool>::then')
def bool_then(I, st, args, cal, ctx):
    out = []
    for s, v in I.split_bool(st, args[0]):
        if v:
            out += [(s2, some(r)) for s2, r in I.call_value(s, ctx, args[1], [])]
        else:
            out.append((s, NONE))
    return out


@m('core::bool::<impl bool>::then_some')
def bool_then_some(I, st, args, cal, ctx):
    return [(s, some(args[1]) if v else NONE) for s, v in I.split_bool(st, args[0])]


# ------------------------------------------------------------------ Option / Result
def cases(path, **h):
    """h: n/s for Option, o/e for Result -> function(I, s, payload, args, ctx)"""
    def f(I, st, args, cal, ctx):
        out = []
        v = args[0]
        for s, vi in I.split(st, v, path):
            if path == OPT:
                g = h['n'] if vi == 0 else h['s']
                p = None if vi == 0 else I.payload(v, 1, OPT)
            else:
                g = h['o'] if vi == 0 else h['e']
                p = I.payload(v, vi, RES)
            r = g(I, s, p, args, ctx)
            out += r if isinstance(r, list) else [(s, r)]
        return out
    return f


def callm(i, wrap=lambda x: x, pass_p=True, by=None):
    def f(I, s, p, args, ctx):
        return [(s2, wrap(r)) for s2, r in I.call_value(s, ctx, args[i], [p] if pass_p else [])]
    return f


idp = lambda I, s, p, args, ctx: p
none = lambda I, s, p, args, ctx: NONE
diverge = lambda I, s, p, args, ctx: []
const = lambda c: (lambda I, s, p, args, ctx: c)
arg = lambda i: (lambda I, s, p, args, ctx: args[i])
wsome = lambda I, s, p, args, ctx: some(p)
wok = lambda I, s, p, args, ctx: ok(p)
werr = lambda I, s, p, args, ctx: err(p)

O = 'std::option::Option::<T>::'
R = 'std::result::Result::<T, E>::'


def truthy(I, s, p, args, ctx):
    """filter-like: keep Some(p) if f(&p)"""
    out = []
    root = (mk('ctx', ctx.fid, ctx.bb, 'flt'), 'p')
    s.mem[root] = p
    for s2, r in I.call_value(s, ctx, args[1], [mk('ref', root, (), False)]):
        for s3, v in I.split_bool(s2, r):
            s3.mem.pop(root, None)
            out.append((s3, some(p) if v else NONE))
    return out


def refp(vi, path, mut):
    def f(I, s, p, args, ctx):
        r, q = I.deref(args[0])
        return mk('ref', r, q + (('d', vi, path), ('f', 0, '0', path, None)), mut)
    return f


def refcases(path, mut, both=False):
    def f(I, st, args, cal, ctx):
        out = []
        v = I.ld(st, args[0])
        for s, vi in I.split(st, v, path):
            if path == OPT:
                out.append((s, NONE if vi == 0 else some(refp(1, OPT, mut)(I, s, None, args, ctx))))
            else:
                out.append((s, (ok if vi == 0 else err)(refp(vi, RES, mut)(I, s, None, args, ctx))))
        return out
    return f


def is_case(path, vi, neg=False):
    def f(I, st, args, cal, ctx):
        v = I.ld(st, args[0])
        t = I.t_eq(I.disc(st, v, path), I_(vi))
        return one(st, I.t_not(t) if neg else t)
    return f


def is_and(path, vi, other):
    def f(I, st, args, cal, ctx):
        out = []
        v = args[0]
        for s, x in I.split(st, v, path):
            if x == vi:
                out += I.call_value(s, ctx, args[1], [I.payload(v, vi, path)])
            else:
                out.append((s, other))
        return out
    return f


MODELS.update({
    O + 'map': cases(OPT, n=none, s=callm(1, some)),
    O + 'map_or': cases(OPT, n=arg(1), s=callm(2)),
    O + 'map_or_else': cases(OPT, n=callm(1, pass_p=False), s=callm(2)),
    O + 'and_then': cases(OPT, n=none, s=callm(1)),
    O + 'or_else': cases(OPT, n=callm(1, pass_p=False), s=wsome),
    O + 'or': cases(OPT, n=arg(1), s=wsome),
    O + 'and': cases(OPT, n=none, s=arg(1)),
    O + 'unwrap': cases(OPT, n=diverge, s=idp),
    O + 'expect': cases(OPT, n=diverge, s=idp),
    O + 'unwrap_or': cases(OPT, n=arg(1), s=idp),
    O + 'unwrap_or_else': cases(OPT, n=callm(1, pass_p=False), s=idp),
    O + 'ok_or': cases(OPT, n=lambda I, s, p, a, c: err(a[1]), s=wok),
    O + 'ok_or_else': cases(OPT, n=callm(1, err, False), s=wok),
    O + 'filter': cases(OPT, n=none, s=truthy),
    O + 'as_ref': refcases(OPT, False),
    O + 'as_mut': refcases(OPT, True),
    O + 'as_deref': None,
    O + 'is_some': is_case(OPT, 1),
    O + 'is_none': is_case(OPT, 0),
    O + 'is_some_and': is_and(OPT, 1, FALSE),
    O + 'is_none_or': is_and(OPT, 1, TRUE),
    'std::option::Option::<std::option::Option<T>>::flatten': cases(OPT, n=none, s=idp),
    R + 'map': cases(RES, o=callm(1, ok), e=werr),
    R + 'map_err': cases(RES, o=wok, e=callm(1, err)),
    R + 'map_or': cases(RES, o=callm(2), e=arg(1)),
    R + 'map_or_else': cases(RES, o=callm(2), e=callm(1)),
    R + 'and_then': cases(RES, o=callm(1), e=werr),
    R + 'or_else': cases(RES, o=wok, e=callm(1)),
    R + 'unwrap': cases(RES, o=idp, e=diverge),
    R + 'expect': cases(RES, o=idp, e=diverge),
    R + 'unwrap_err': cases(RES, o=diverge, e=idp),
    R + 'unwrap_or': cases(RES, o=idp, e=arg(1)),
    R + 'unwrap_or_else': cases(RES, o=idp, e=callm(1)),
    R + 'ok': cases(RES, o=wsome, e=none),
    R + 'err': cases(RES, o=none, e=wsome),
    R + 'as_ref': refcases(RES, False),
    R + 'as_mut': refcases(RES, True),
    R + 'is_ok': is_case(RES, 0),
    R + 'is_err': is_case(RES, 1),
    R + 'is_ok_and': is_and(RES, 0, FALSE),
    R + 'is_err_and': is_and(RES, 1, FALSE),
})


def as_deref(I, st, args, cal, ctx):
    out = []
    v = I.ld(st, args[0])
    for s, vi in I.split(st, v, OPT):
        if vi == 0:
            out.append((s, NONE))
        else:
            p = refp(1, OPT, False)(I, s, None, args, ctx)
            t = tyname(I, cal, ctx)
            if t is not None and t['k'] == 'adt' and t['p'] in PTR:
                x = I.ld(s, p)
                p = x if x.t == 'ref' else mk('ref', ('*', x), (), False)
            out.append((s, some(p)))
    return out


MODELS[O + 'as_deref'] = MODELS[O + 'as_deref_mut'] = as_deref


def res_insp(which):
    def f(I, st, args, cal, ctx):
        out = []
        v = args[0]
        path = OPT if which == 's' else RES
        want = {'s': 1, 'o': 0, 'e': 1}[which]
        for s, vi in I.split(st, v, path):
            if vi == want:
                root = (mk('ctx', ctx.fid, ctx.bb, 'insp'), 'p')
                s.mem[root] = I.payload(v, vi, path)
                out += [(s2, v) for s2, _ in I.call_value(s, ctx, args[1], [mk('ref', root, (), False)])]
            else:
                out.append((s, v))
        return out
    return f


MODELS[O + 'inspect'] = res_insp('s')
MODELS[R + 'inspect'] = res_insp('o')
MODELS[R + 'inspect_err'] = res_insp('e')


@m(O + 'take')
def opt_take(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    v = I.rd(st, r, p)
    I.c.store(I, st, ctx, r, p, NONE, ('take',))
    I.wr(st, r, p, NONE)
    return one(st, v)


@m(O + 'replace')
def opt_replace(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    v = I.rd(st, r, p)
    I.c.store(I, st, ctx, r, p, some(args[1]), ('replace',))
    I.wr(st, r, p, some(args[1]))
    return one(st, v)


@m(O + 'insert')
def opt_insert(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    I.wr(st, r, p, some(args[1]))
    return one(st, mk('ref', r, p + (('d', 1, OPT), ('f', 0, '0', OPT, None)), True))


def goi(I, st, args, cal, ctx):
    out = []
    r, p = I.deref(args[0])
    v = I.rd(st, r, p)
    ref = mk('ref', r, p + (('d', 1, OPT), ('f', 0, '0', OPT, None)), True)
    for s, vi in I.split(st, v, OPT):
        if vi == 1:
            out.append((s, ref))
        elif cal['def'].endswith('with'):
            for s2, x in I.call_value(s, ctx, args[1], []):
                I.wr(s2, r, p, some(x))
                out.append((s2, ref))
        else:
            I.wr(s, r, p, some(args[1]))
            out.append((s, ref))
    return out


MODELS[O + 'get_or_insert_with'] = MODELS[O + 'get_or_insert'] = goi


@m('std::ops::Try::branch')
def try_branch(I, st, args, cal, ctx):
    t = tyname(I, cal, ctx)
    path = t['p'] if t is not None and t['k'] == 'adt' else RES
    out = []
    if path not in (OPT, RES):
        return None
    for s, vi in I.split(st, args[0], path):
        if path == OPT:
            out.append((s, adt(CF, 1, NONE) if vi == 0 else adt(CF, 0, I.payload(args[0], 1, OPT))))
        else:
            p = I.payload(args[0], vi, RES)
            out.append((s, adt(CF, 0, p) if vi == 0 else adt(CF, 1, err(p))))
    return out


@m('std::ops::FromResidual::from_residual')
def from_residual(I, st, args, cal, ctx):
    a = cal['a']
    ts = ctx.body.types
    t = ts[a[0]]
    v = args[0]
    if t['k'] == 'adt' and t['p'] == OPT:
        return one(st, NONE)
    if t['k'] == 'adt' and t['p'] == RES:
        e = I.payload(v, 1, RES)
        if len(a) > 1 and ts[a[1]]['k'] == 'adt' and ts[a[1]]['p'] == RES:
            frm, to = ts[a[1]]['a'][1], t['a'][1]
            return [(s, err(x)) for s, x in convert(I, st, e, frm, to, ctx)]
        return one(st, err(e))
    return None


@m('std::ops::Try::from_output')
def from_output(I, st, args, cal, ctx):
    t = tyname(I, cal, ctx)
    return one(st, some(args[0]) if t and t.get('p') == OPT else ok(args[0]))


# ------------------------------------------------------------------ closures
@m('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def fn_call(I, st, args, cal, ctx):
    a = args[1]
    vals = list(a.a[0]) if a.t == 'tup' else [I.project(a, ('f', i, None, None, None)) for i in range(1)]
    return I.call_value(st, ctx, args[0], vals)


# ------------------------------------------------------------------ strings and formatting
def cat(*xs):
    out = []
    for x in xs:
        for y in (x.a[0] if x.t == 'cat' else (x,)):
            if y.t == 's':
                if not y.a[0]:
                    continue
                if out and out[-1].t == 's':
                    out[-1] = S(out[-1].a[0] + y.a[0])
                    continue
            out.append(y)
    if not out:
        return S('')
    if len(out) == 1 and out[0].t == 's':
        return out[0]
    return mk('cat', tuple(out))


@m('std::string::String::new', 'std::string::String::with_capacity')
def str_new(I, st, args, cal, ctx):
    return one(st, S(''))


@m('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def vec_new(I, st, args, cal, ctx):
    return one(st, mk('arr', ()))


@m('std::string::ToString::to_string')
def to_string(I, st, args, cal, ctx):
    t = tyname(I, cal, ctx)
    v = I.canon(st, args[0])
    if t is not None and (t['s'] in ('str', 'std::string::String') or 'str>' in t['s'] or t['s'].endswith('str')):
        return one(st, v)
    return one(st, mk('app', 'to_string', v))


@m('std::str::<impl str>::to_string', 'std::str::<impl str>::into_string', 'std::path::Path::to_string_lossy',
   'std::borrow::Cow::<\'_, B>::into_owned', 'std::path::PathBuf::from', 'std::rc::Rc::<[T]>::from', 'std::convert::AsRef::to_owned')
def strid(I, st, args, cal, ctx):
    v = I.canon(st, args[0])
    if 'lossy' in cal['def']:
        return one(st, mk('app', 'lossy', v))
    return one(st, v)


@m('std::ops::AddAssign::add_assign', 'std::string::String::push_str', 'std::string::String::push')
def add_assign(I, st, args, cal, ctx):
    t = tyname(I, cal, ctx)
    r, p = I.deref(args[0])
    old = I.rd(st, r, p)
    if cal['def'].endswith('add_assign') and (t is None or t['s'] != 'std::string::String'):
        if t is not None and t['k'] == 'prim':
            new = I.binop('Add', old, I.canon(st, args[1]))
            I.c.overflow(I, st, ctx, 'Add', old, args[1], None)
        else:
            new = mk('app', 'add_assign', old, I.canon(st, args[1]))
    else:
        x = I.canon(st, args[1])
        if x.t == 'i':
            x = S(chr(x.a[0]))
        new = cat(old, x)
    I.c.store(I, st, ctx, r, p, new, ('append',))
    I.wr(st, r, p, new)
    return one(st, UNIT)


@m('std::ops::Add::add')
def addm(I, st, args, cal, ctx):
    t = tyname(I, cal, ctx)
    if t is not None and t['s'] == 'std::string::String':
        return one(st, cat(I.canon(st, args[0]), I.canon(st, args[1])))
    if t is not None and t['k'] == 'prim':
        return one(st, I.binop('Add', args[0], args[1]))
    return None


def dec_template(bs):
    """compiler-encoded format template -> list of literal str / argument index"""
    out, i, nxt = [], 0, 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode('utf-8', 'replace'))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + ln]).decode('utf-8', 'replace'))
            i += ln
        else:
            f = n & 0x3f
            idx, at = nxt, i
            if f & 1:
                i += 4
            if f & 2:
                i += 2
            if f & 4:
                i += 2
            spec = bytes(bs[at:i])
            if f & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            nxt = idx + 1
            # padding, precision and the like: another text than the plain one
            out.append((idx, spec.hex()) if f & 7 else idx)
    return out


def bytes_of(I, st, v):
    v = I.canon(st, v)
    if v.t == 's':
        return list(v.a[0].encode('latin-1', 'replace')) if all(ord(c) < 256 for c in v.a[0]) else list(v.a[0].encode())
    if v.t == 'arr':
        return [x.a[0] if x.t == 'i' else 0 for x in v.a[0]]
    return None


@m("std::fmt::Arguments::<'a>::new")
def args_new(I, st, args, cal, ctx):
    bs = bytes_of(I, st, args[0])
    av = args[1]
    a = I.ld(st, av) if av.t == 'ref' else av
    while a.t == 'ref':
        a = I.ld(st, a)
    if bs is None or a.t not in ('arr', 'tup'):
        return None
    out = []
    for x in dec_template(bs):
        if isinstance(x, str):
            out.append(S(x))
        else:
            x, spec = x if isinstance(x, tuple) else (x, None)
            y = a.a[0][x] if x < len(a.a[0]) else mk('app', 'fmtarg?')
            out.append(y if spec is None else mk('app', 'formatted ' + spec, y))
    return one(st, mk('fmt', tuple(out)))


@m("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new_const", "std::fmt::Arguments::<'a>::from_str_nonconst")
def args_str(I, st, args, cal, ctx):
    return one(st, mk('fmt', (I.canon(st, args[0]),)))


@m("core::fmt::rt::Argument::<'_>::new_display")
def arg_display(I, st, args, cal, ctx):
    t = tyname(I, cal, ctx, -1 if False else len(cal.get('a') or [0]) - 1)
    v = I.canon(st, args[0])
    tt = t
    while tt is not None and tt['k'] == 'ref':
        tt = ctx.body.types[tt['t']]
    if v.t == 's':
        return one(st, v)
    # a local Display impl
    name = tt['s'] if tt is not None else '?'
    return one(st, mk('disp', v, name))


@m("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex")
def arg_debug(I, st, args, cal, ctx):
    return one(st, mk('dbg', I.canon(st, args[0])))


def flat_fmt(I, v):
    """pieces of a formatted value: literals and displayed values"""
    if v.t == 'fmt':
        out = []
        for x in v.a[0]:
            out += flat_fmt(I, x)
        return out
    if v.t == 'disp':
        return flat_fmt(I, v.a[0]) if v.a[0].t in ('fmt', 'cat', 's') else [v.a[0]]
    if v.t == 'cat':
        out = []
        for x in v.a[0]:
            out += flat_fmt(I, x)
        return out
    if v.t == 'i':
        return [S(str(v.a[0]))]
    return [v]


@m('std::fmt::format')
def fmt_format(I, st, args, cal, ctx):
    return one(st, cat(*flat_fmt(I, args[0])))


@m('core::str::<impl str>::len', 'std::string::String::len', 'std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len',
   'indexmap::IndexMap::<K, V, S>::len', 'indexmap::IndexSet::<T, S>::len', 'std::iter::ExactSizeIterator::len',
   'std::collections::VecDeque::<T, A>::len', 'std::collections::HashMap::<K, V, S>::len')
def length(I, st, args, cal, ctx):
    return one(st, I.t_len(st, args[0]))


@m('core::str::<impl str>::is_empty', 'std::string::String::is_empty', 'std::vec::Vec::<T, A>::is_empty',
   'core::slice::<impl [T]>::is_empty', 'indexmap::IndexMap::<K, V, S>::is_empty', 'indexmap::IndexSet::<T, S>::is_empty')
def is_empty(I, st, args, cal, ctx):
    v = I.canon(st, args[0])
    if 'str' in cal['def'] or 'String' in cal['def']:
        return one(st, I.t_eq(v, S('')) if v.t != 'cat' or not any(x.t == 's' and x.a[0] for x in v.a[0]) else FALSE)
    return one(st, I.t_eq(I.t_len(st, v), I_(0)))


# ------------------------------------------------------------------ vectors
@m('std::vec::Vec::<T, A>::push', 'std::vec::Vec::<T, A>::insert', 'std::path::PathBuf::push')
def vec_push(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    old = I.rd(st, r, p)
    x = args[-1]
    if cal['def'].endswith('Vec::<T, A>::push') and old.t == 'arr' and len(old.a[0]) < 4:
        new = mk('arr', old.a[0] + (x,))
    elif cal['def'].endswith('::insert') and not (args[1] is I.t_len(st, old)):
        new = mk('app', 'insert', old, I.canon(st, args[1]), x)
    else:
        new = mk('app', 'push', old, x if not cal['def'].startswith('std::path') else I.canon(st, x))
    I.c.store(I, st, ctx, r, p, new, ('push',))
    I.wr(st, r, p, new)
    return one(st, UNIT)


@m('std::vec::Vec::<T, A>::pop')
def vec_pop(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    old = I.rd(st, r, p)
    if old.t == 'arr':
        if not old.a[0]:
            return one(st, NONE)
        I.wr(st, r, p, mk('arr', old.a[0][:-1]))
        return one(st, some(old.a[0][-1]))
    if old.t == 'app' and old.a[0] == 'push':
        I.wr(st, r, p, old.a[1])
        return one(st, some(old.a[2]))
    inst = ctx.inst('pop')
    new = mk('app', 'popped', old)
    out = []
    ln = I.t_len(st, old)
    for s, v in I.split_bool(st, I.t_eq(ln, I_(0))):
        if v:
            out.append((s, NONE))
        else:
            I.c.store(I, s, ctx, r, p, new, ('pop',))
            I.wr(s, r, p, new)
            out.append((s, some(mk('app', 'last', old))))
    return out


@m('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def vec_remove(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    old = I.rd(st, r, p)
    i = I.canon(st, args[1])
    new = mk('app', cal['def'].rsplit('::', 1)[1], old, i)
    I.c.store(I, st, ctx, r, p, new, ('remove',))
    I.wr(st, r, p, new)
    return one(st, mk('idx', old, i))


@m('std::vec::Vec::<T, A>::clear', 'std::string::String::clear', 'indexmap::IndexSet::<T, S>::clear', 'indexmap::IndexMap::<K, V, S>::clear')
def vec_clear(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    v = S('') if 'String' in cal['def'] else mk('arr', ())
    I.c.store(I, st, ctx, r, p, v, ('clear',))
    I.wr(st, r, p, v)
    return one(st, UNIT)


@m('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last_mut',
   'core::slice::<impl [T]>::first_mut')
def last(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    v = I.rd(st, r, p)
    which = 'last' if 'last' in cal['def'] else 'first'
    if v.t == 'arr':
        if not v.a[0]:
            return one(st, NONE)
        i = I_(len(v.a[0]) - 1 if which == 'last' else 0)
        return one(st, some(mk('ref', r, p + (('x', i),), 'mut' in cal['def'])))
    out = []
    for s, e in I.split_bool(st, I.t_eq(I.t_len(st, v), I_(0))):
        if e:
            out.append((s, NONE))
        else:
            k = mk('fromend', I_(1)) if which == 'last' else I_(0)
            out.append((s, some(mk('ref', r, p + (('x', k),), 'mut' in cal['def']))))
    return out


def subslice(I, v, k):
    """v[k]; a part of a part of a sequence is a part of the sequence"""
    n = k.a[0].rsplit('::', 1)[-1]
    if n == 'RangeFull':
        return v
    if n == 'RangeFrom' and v.t == 'app' and v.a[0] == 'subslice' and v.a[2].t == 'adt' and v.a[2].a[0].endswith('RangeFrom'):
        return mk('app', 'subslice', v.a[1], mk('adt', k.a[0], 0, (I.binop('Add', v.a[2].a[2][0], k.a[2][0]),)))
    return mk('app', 'subslice', v, k)


@m('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def index(I, st, args, cal, ctx):
    t = tyname(I, cal, ctx)
    k = args[1]
    r, p = I.deref(args[0])
    if t is not None and ('str' in t['s'] and t['k'] in ('prim',) or t['s'] == 'std::string::String'):
        return one(st, mk('app', 'substr', I.canon(st, args[0]), k))
    if k.t == 'adt':
        return one(st, subslice(I, I.canon(st, args[0]), k))
    return one(st, mk('ref', r, p + (('x', I.canon(st, k)),), 'mut' in cal['def']))


@m('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'indexmap::IndexMap::<K, V, S>::get',
   'indexmap::IndexMap::<K, V, S>::get_mut')
def get(I, st, args, cal, ctx):
    r, p = I.deref(args[0])
    v = I.canon(st, args[0])
    k = I.canon(st, args[1])
    has = mk('app', 'has', v, k)
    out = []
    for s, e in I.split_bool(st, has):
        out.append((s, some(mk('ref', r, p + (('x', k),), 'mut' in cal['def'])) if e else NONE))
    return out


@m('indexmap::IndexMap::<K, V, S>::contains_key')
def contains_key(I, st, args, cal, ctx):
    return one(st, mk('app', 'has', I.canon(st, args[0]), I.canon(st, args[1])))


@m('indexmap::IndexMap::<K, V, S>::insert', 'indexmap::IndexMap::<K, V, S>::insert_full', 'indexmap::IndexSet::<T, S>::insert',
   'indexmap::IndexSet::<T, S>::insert_full', 'indexmap::IndexMap::<K, V, S>::remove', 'indexmap::IndexSet::<T, S>::remove',
   'std::iter::Extend::extend', 'std::vec::Vec::<T, A>::extend_from_slice', 'core::slice::<impl [T]>::reverse',
   'std::slice::<impl [T]>::sort', 'indexmap::IndexSet::<T, S>::sort', 'core::str::<impl str>::make_ascii_lowercase',
   'std::vec::Vec::<T, A>::truncate', 'std::vec::Vec::<T, A>::append', 'std::vec::Vec::<T, A>::resize')
def mutate(I, st, args, cal, ctx):
    n = cal['def'].rsplit('::', 1)[1]
    r, p = I.deref(args[0])
    old = I.rd(st, r, p)
    rest = [I.canon(st, a) if n in ('remove',) else a for a in args[1:]]
    key = I.canon(st, args[1]) if len(args) > 1 else None
    if n == 'extend' and args[1].t == 'iter' or n == 'extend' and any(I.callable(st, a) for a in args[1:]):
        outs = drain(I, st, args[1], ctx)
        st = outs
        old = I.rd(st, r, p)
    new = mk('app', n, old, *rest)
    if n == 'extend':
        # nothing or one element added
        x = args[1]
        lo, hi = I.iv(st, I.t_len(st, x)) if x.t in ('app', 'fld', 'arr') else (None, None)
        if x.t == 'adt' and x.a[0] == OPT:
            new = old if x.a[1] == 0 else mk('app', 'push', old, x.a[2][0])
        elif x.t == 'arr':
            new = old
            for y in x.a[0]:
                new = mk('app', 'push', new, y)
        elif x.t in ('app', 'fld') and lo == hi and lo is not None and lo <= 1:
            new = mk('app', 'push', old, mk('app', 'last', x)) if lo else old
    I.c.store(I, st, ctx, r, p, new, (n,))
    I.wr(st, r, p, new)
    inst = ctx.inst(n)
    if n == 'insert':
        return one(st, mk('sym', 'insert_result', inst, I.canon(st, old), key))
    return one(st, mk('sym', n, inst, I.canon(st, old), *( [key] if key is not None else [])))


@m('std::slice::<impl [T]>::sort_by_key', 'std::slice::<impl [T]>::sort_by', 'std::slice::<impl [T]>::sort_by_cached_key',
   'core::slice::<impl [T]>::sort_unstable_by_key', 'core::slice::<impl [T]>::sort_unstable_by')
def sort_by(I, st, args, cal, ctx):
    n = cal['def'].rsplit('::', 1)[1]
    if I.callable(st, args[1]):
        st = I.call_many(st, ctx, args[1])
    r, p = I.deref(args[0])
    old = I.rd(st, r, p)
    I.wr(st, r, p, mk('app', n, old))
    return one(st, UNIT)


@m('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def split_at(I, st, args, cal, ctx):
    v, k = I.canon(st, args[0]), I.canon(st, args[1])
    a = mk('app', 'subslice', v, mk('adt', 'std::ops::RangeTo', 0, (k,)))
    b = subslice(I, v, mk('adt', 'std::ops::RangeFrom', 0, (k,)))
    return one(st, mk('tup', (a, b)))


@m('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def split_first(I, st, args, cal, ctx):
    v = I.canon(st, args[0])
    n = I.t_len(st, v)
    out = []
    for s, e in I.split_bool(st, I.t_eq(n, I_(0))):
        if e:
            out.append((s, NONE))
        elif cal['def'].endswith('first'):
            out.append((s, some(mk('tup', (I.project(v, ('x', I_(0))), subslice(I, v, mk('adt', 'std::ops::RangeFrom', 0, (I_(1),))))))))
        else:
            k = I.binop('Sub', n, I_(1))
            out.append((s, some(mk('tup', (I.project(v, ('x', mk('fromend', I_(1)))), mk('app', 'subslice', v, mk('adt', 'std::ops::RangeTo', 0, (k,))))))))
    return out


# ------------------------------------------------------------------ iterators
# iter(base, ops, pos); base: ('slice', ref) ('own', v) ('range', lo, hi) ('opq', v) ('map', ref) ('keys'..) ('zip', a, b)
def it(base, ops=(), pos=None):
    return mk('iter', base, ops, pos if pos is not None else I_(0))


@m('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def slice_iter(I, st, args, cal, ctx):
    v = args[0]
    return one(st, it(('slice', v, cal['def'].endswith('mut'))))


@m('indexmap::IndexMap::<K, V, S>::iter', 'indexmap::IndexMap::<K, V, S>::iter_mut')
def map_iter(I, st, args, cal, ctx):
    return one(st, it(('map', args[0], cal['def'].endswith('mut'))))


@m('indexmap::IndexMap::<K, V, S>::keys')
def map_keys(I, st, args, cal, ctx):
    return one(st, it(('keys', args[0], False)))


@m('indexmap::IndexMap::<K, V, S>::values', 'indexmap::IndexMap::<K, V, S>::values_mut')
def map_values(I, st, args, cal, ctx):
    return one(st, it(('values', args[0], cal['def'].endswith('mut'))))


@m('indexmap::IndexSet::<T, S>::iter')
def set_iter(I, st, args, cal, ctx):
    return one(st, it(('slice', args[0], False)))


RANGE = 'std::ops::Range'


@m('std::iter::IntoIterator::into_iter')
def into_iter(I, st, args, cal, ctx):
    v = args[0]
    if v.t == 'iter':
        return one(st, v)
    t = tyname(I, cal, ctx)
    mut = False
    if t is not None and t['k'] == 'ref':
        mut = t['m']
        u = ctx.body.types[t['t']]
        if u['k'] == 'adt' and u['p'] == 'indexmap::IndexMap':
            return one(st, it(('map', v, mut)))
        if u['k'] == 'adt' and (u['p'] in ('std::vec::Vec', 'indexmap::IndexSet', 'std::collections::VecDeque')) or u['k'] in ('slice', 'array'):
            return one(st, it(('slice', v, mut)))
    if v.t == 'adt' and v.a[0] == RANGE:
        return one(st, it(('range', v.a[2][0], v.a[2][1])))
    if t is not None and t['k'] == 'adt':
        a = I.P.adts.get(t['p'])
        if a is not None and a['local']:
            return one(st, v)
        if t['p'] == 'indexmap::IndexMap':
            return one(st, it(('ownmap', v)))
    if v.t in ('arr',) or (t is not None and (t['k'] == 'array' or t['k'] == 'adt' and t['p'] in ('std::vec::Vec', 'indexmap::IndexSet'))):
        return one(st, it(('own', v)))
    return one(st, it(('opq', I.canon(st, v))))


for nm in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'flat_map', 'map_while'):
    def _f(I, st, args, cal, ctx, nm=nm):
        v = as_iter(I, st, args[0])
        return one(st, mk('iter', v.a[0], v.a[1] + ((nm, args[1]),), v.a[2]))
    MODELS['std::iter::Iterator::' + nm] = _f
for nm in ('enumerate', 'cloned', 'copied', 'rev', 'peekable', 'fuse', 'flatten', 'by_ref'):
    def _g(I, st, args, cal, ctx, nm=nm):
        v = as_iter(I, st, args[0])
        if nm in ('peekable', 'fuse', 'by_ref'):
            return one(st, args[0] if nm == 'by_ref' else v)
        return one(st, mk('iter', v.a[0], v.a[1] + ((nm,),), v.a[2]))
    MODELS['std::iter::Iterator::' + nm] = _g


@m('std::iter::Iterator::skip', 'std::iter::Iterator::take', 'std::iter::Iterator::step_by')
def iter_skip(I, st, args, cal, ctx):
    v = as_iter(I, st, args[0])
    return one(st, mk('iter', v.a[0], v.a[1] + ((cal['def'].rsplit('::', 1)[1], args[1]),), v.a[2]))


@m('std::iter::Iterator::zip', 'std::iter::Iterator::chain')
def iter_zip(I, st, args, cal, ctx):
    v = as_iter(I, st, args[0])
    w = into_iter(I, st, [args[1]], {'def': '', 'a': []}, ctx)[0][1]
    n = cal['def'].rsplit('::', 1)[1]
    return one(st, mk('iter', (n, v, w), (), I_(0)))


def as_iter(I, st, v):
    if v.t == 'ref':
        x = I.rd(st, v.a[0], v.a[1])
        if x.t == 'iter':
            return x
        return it(('opq', I.canon(st, v)))
    if v.t == 'iter':
        return v
    if v.t == 'adt' and v.a[0] == RANGE:
        return it(('range', v.a[2][0], v.a[2][1]))
    return it(('opq', I.canon(st, v)))


def gen_base(I, st, base, ctx, tag, ops=()):
    """-> [(state, element)] an arbitrary element of the base collection"""
    k = base[0]
    el = mk('el', ctx.fid, ctx.bb, tag)
    if k == 'range':
        el = mk('el', ctx.fid, ctx.bb, (tag, 'r', base[1], base[2]))
    I.iters.setdefault(el, set()).add((base, ops))
    if k == 'slice':
        v = base[1]
        r, p = I.deref(v)
        cur = I.ld(st, v)
        if cur.t == 'arr' and not cur.a[0]:
            return []
        return [(st, mk('ref', r, p + (('x', el),), base[2]))]
    if k in ('map', 'keys', 'values'):
        r, p = I.deref(base[1])
        kr = mk('ref', r, p + (('x', el), ('f', 0, 'key', None, None)), False)
        vr = mk('ref', r, p + (('x', el), ('f', 1, 'value', None, None)), base[2])
        return [(st, mk('tup', (kr, vr)) if k == 'map' else kr if k == 'keys' else vr)]
    if k == 'own':
        if base[1].t == 'arr' and not base[1].a[0]:
            return []
        return [(st, I.project(I.canon(st, base[1]) if base[1].t != 'arr' else base[1], ('x', el)))]
    if k == 'ownmap':
        e = I.project(base[1], ('x', el))
        return [(st, mk('tup', (I.project(e, ('f', 0, 'key', None, None)), I.project(e, ('f', 1, 'value', None, None)))))]
    if k == 'range':
        lo, hi = base[1], base[2]
        out = []
        if I.assume(st, I.t_not(I.t_lt(el, lo)), 1) and I.assume(st, I.t_lt(el, hi), 1):
            out.append((st, el))
        return out
    if k == 'zip':
        out = []
        for s, a in gen(I, st, base[1], ctx, (tag, 'a')):
            for s2, b in gen(I, s, base[2], ctx, (tag, 'b')):
                out.append((s2, mk('tup', (a, b))))
        return out
    if k == 'chain':
        s2 = st.copy()
        return gen(I, st, base[1], ctx, (tag, 'a')) + gen(I, s2, base[2], ctx, (tag, 'b'))
    return [(st, mk('app', 'elem', base[1] if isinstance(base[1], T) else UNIT, el))]


def gen(I, st, itv, ctx, tag='e'):
    """-> [(state, element)] an arbitrary element the iterator yields"""
    if itv.a[2].t == 'inst' and itv.a[2] is not mk('inst', ctx.fid, ctx.bb, 'pos'):
        I.advanced.add((ctx.fid, ctx.bb))
    outs = gen_base(I, st, itv.a[0], ctx, tag, itv.a[1])
    for n, op in enumerate(itv.a[1]):
        k = op[0]
        nxt = []
        c = ctx.sub(('op', n, tag))
        for s, e in outs:
            if k == 'map':
                nxt += I.call_value(s, c, op[1], [e])
            elif k == 'filter':
                root = (c.fid, 'fe')
                s.mem[root] = e
                for s2, r in I.call_value(s, c, op[1], [mk('ref', root, (), False)]):
                    for s3, b in I.split_bool(s2, r):
                        s3.mem.pop(root, None)
                        if b:
                            nxt.append((s3, e))
                        else:
                            SKIPPED.append(s3)
            elif k == 'filter_map':
                for s2, r in I.call_value(s, c, op[1], [e]):
                    for s3, vi in I.split(s2, r, OPT):
                        if vi == 1:
                            nxt.append((s3, I.payload(r, 1, OPT)))
                        else:
                            SKIPPED.append(s3)
            elif k == 'enumerate':
                nxt.append((s, mk('tup', (mk('app', 'index', mk('el', ctx.fid, ctx.bb, (tag, 'ix'))), e))))
            elif k in ('cloned', 'copied'):
                nxt.append((s, I.ld(s, e)))
            elif k in ('skip', 'take', 'rev', 'inspect', 'step_by'):
                nxt.append((s, e))
            elif k in ('take_while', 'skip_while'):
                root = (c.fid, 'fe')
                s.mem[root] = e
                for s2, r in I.call_value(s, c, op[1], [mk('ref', root, (), False)]):
                    for s3, b in I.split_bool(s2, r):
                        s3.mem.pop(root, None)
                        nxt.append((s3, e))
            elif k == 'map_while':
                for s2, r in I.call_value(s, c, op[1], [e]):
                    for s3, vi in I.split(s2, r, OPT):
                        if vi == 1:
                            nxt.append((s3, I.payload(r, 1, OPT)))
            else:
                nxt.append((s, mk('app', k, e)))
        outs = nxt
    return outs


SKIPPED = []


def next_(I, st, args, cal, ctx):
    ref = args[0]
    v = I.ld(st, ref)
    t = tyname(I, cal, ctx)
    if v.t != 'iter':
        if t is not None and t['k'] == 'adt':
            b = I.P.find_impl('std::iter::Iterator', 'next', cal['a'][0], ctx.body.types)
            if b is not None:
                return I.call_local(st, ctx, b.id, args)
        if v.t == 'adt' and v.a[0] == RANGE:
            v = it(('range', v.a[2][0], v.a[2][1]))
        elif v.t == 'adt':
            # an iterator type defined in this crate, by value
            for b in I.P._impls.get(('std::iter::Iterator', 'next'), ()):
                st_ = b.raw.get('self')
                if st_ is not None and b.types[st_]['k'] == 'adt' and b.types[st_]['p'] == v.a[0]:
                    return I.call_local(st, ctx, b.id, args)
    if v.t != 'iter':
        inst = ctx.inst('next')
        r, p = I.deref(ref)
        I.wr(st, r, p, mk('hv', inst, v, frozenset(['*all*'])))
        x = mk('sym', 'next', inst)
        out = []
        for s, vi in I.split(st, x, OPT):
            out.append((s, NONE if vi == 0 else some(I.payload(x, 1, OPT))))
        return out
    r, p = I.deref(ref)
    global SKIPPED
    saved, SKIPPED = SKIPPED, []
    s_none = st.copy()
    outs = [(s, some(e)) for s, e in gen(I, st, v, ctx)]
    # elements rejected by a filter: the closure's effects happened, the search goes on (one more element, or the end)
    res = []
    for s, e in outs:
        I.wr(s, r, p, mk('iter', v.a[0], v.a[1], mk('inst', ctx.fid, ctx.bb, 'pos')))
        res.append((s, e))
    for s in SKIPPED:
        I.c.each(I, s.copy(), ctx, frozenset([ctx.bb]))
        if s.mon != s_none.mon or s.mem != s_none.mem:
            res.append((s, NONE))
    SKIPPED = saved
    I.c.end(I, s_none, ctx)
    res.append((s_none, NONE))
    return res


MODELS['std::iter::Iterator::next'] = next_
MODELS['std::iter::DoubleEndedIterator::next_back'] = next_


def consume(I, st, itv, ctx, body):
    """loop over all elements; body(state, element) -> [(state, exit value | None)].
    returns ([(state, exit value)] early exits, [states] at exhaustion)"""
    global SKIPPED
    sub = ctx.sub('consume')
    early = []

    def step(s):
        global SKIPPED
        saved, SKIPPED = SKIPPED, []
        exits, backs = [], []
        s0 = s.copy()
        for s1, e in gen(I, s, itv, sub):
            for s2, x in body(s1, e, sub):
                if x is None:
                    backs.append(s2)
                else:
                    exits.append((x, s2))
        backs += SKIPPED
        SKIPPED = saved
        for b in backs:
            I.c.each(I, b, sub)
        I.c.end(I, s0, sub)
        exits.append((None, s0))
        return exits, backs
    exits, heads = I.fix(st, sub, step)
    return [(s, x) for x, s in exits if x is not None], [s for x, s in exits if x is None]


def drain(I, st, v, ctx):
    """run an iterator for its effects; one joined state"""
    itv = as_iter(I, st, v)
    if not any(len(o) > 1 for o in all_ops(itv)):
        return st
    early, done = consume(I, st, itv, ctx, lambda s, e, c: [(s, I.c.taken(I, s, c, e))])
    r = done[0]
    for h in done[1:]:
        if h.mon != r.mon:
            # keep the state that saw more
            pass
        mm = h.mon
        r = I.widen(r, h, ('jn', ctx.fid, ctx.bb, 'drain'), None)
        r.mon = mm
    return r


def all_ops(itv):
    out = list(itv.a[1])
    b = itv.a[0]
    if b[0] in ('zip', 'chain'):
        out += all_ops(b[1]) + all_ops(b[2])
    return out


def drain_multi(I, st, v, ctx):
    itv = as_iter(I, st, v)
    if not any(len(o) > 1 for o in all_ops(itv)):
        return [st], None
    last = {}

    def body(s, e, c):
        e = I.canon(s, e)
        if e not in last and len(last) < 8:
            last[e] = 1
        I.c.taken(I, s, c, e)
        return [(s, None)]
    early, done = consume(I, st, itv, ctx, body)
    # one state per monitor value
    out = {}
    for s in done:
        if s.mon in out:
            m0 = s.mon
            out[m0] = I.widen(out[m0], s, ('jn', ctx.fid, ctx.bb, 'dm'), None)
            out[m0].mon = m0
        else:
            out[s.mon] = s
    return list(out.values()), mk('alts', *last) if last else None


def iter_term(I, st, v):
    v = as_iter(I, st, v)
    base = v.a[0]
    bs = tuple(I.canon(st, x) if isinstance(x, T) and x.t != 'iter' else x for x in base)
    return mk('iter', bs, v.a[1], I_(0))


@m('std::iter::Iterator::collect')
def collect(I, st, args, cal, ctx):
    a = cal.get('a') or []
    t = ctx.body.types[a[1]] if len(a) > 1 else None
    if t is not None and t['k'] == 'adt':
        b = I.P.find_impl('std::iter::FromIterator', 'from_iter', a[1], ctx.body.types)
        if b is not None:
            return I.call_local(st, ctx, b.id, [as_iter(I, st, args[0])])
    term = iter_term(I, st, args[0])
    sts, e = drain_multi(I, st, args[0], ctx)
    if t is not None and t['k'] == 'adt' and t['p'] in (OPT, RES):
        out = []
        for s in sts:
            c = mk('app', 'collect', term)
            for s2, vi in I.split(s, mk('app', 'collect_try', term, S(t['p'])), t['p']):
                good = (vi == 0) == (t['p'] == RES)
                if t['p'] == RES:
                    out.append((s2, ok(c) if good else err(mk('app', 'collect_err', term))))
                else:
                    out.append((s2, some(c) if good else NONE))
        return out
    return [(s, mk('app', 'collect', term, e) if e is not None else mk('app', 'collect', term)) for s in sts]


@m('std::iter::FromIterator::from_iter')
def from_iter(I, st, args, cal, ctx):
    a = cal.get('a') or []
    if a:
        b = I.P.find_impl('std::iter::FromIterator', 'from_iter', a[0], ctx.body.types)
        if b is not None:
            return I.call_local(st, ctx, b.id, args)
    v = args[0]
    if v.t != 'iter':
        v = into_iter(I, st, [v], {'def': '', 'a': a[1:] if len(a) > 1 else []}, ctx)[0][1]
    sts, e = drain_multi(I, st, v, ctx)
    return [(s, mk('app', 'collect', iter_term(I, s, v))) for s in sts]


@m('std::iter::Iterator::for_each')
def for_each(I, st, args, cal, ctx):
    v = as_iter(I, st, args[0])
    early, done = consume(I, st, v, ctx, lambda s, e, c: [(s2, None) for s2, _ in I.call_value(s, c, args[1], [e])])
    return [(s, UNIT) for s in done]


@m('std::iter::Iterator::try_for_each')
def try_for_each(I, st, args, cal, ctx):
    v = as_iter(I, st, args[0])
    t = ctx.body.types[(cal.get('a') or [None])[-1]] if cal.get('a') else None
    path = t['p'] if t is not None and t['k'] == 'adt' and t['p'] in (OPT, RES) else RES

    def body(s, e, c):
        out = []
        for s2, r in I.call_value(s, c, args[1], [e]):
            for s3, vi in I.split(s2, r, path):
                good = (vi == 0) == (path == RES)
                out.append((s3, None if good else (err(I.payload(r, 1, RES)) if path == RES else NONE)))
        return out
    early, done = consume(I, st, v, ctx, body)
    return early + [(s, ok(UNIT) if path == RES else some(UNIT)) for s in done]


def anyall(which):
    def f(I, st, args, cal, ctx):
        v = as_iter(I, st, args[0])

        def body(s, e, c):
            out = []
            for s2, r in I.call_value(s, c, args[1], [e]):
                for s3, b in I.split_bool(s2, r):
                    out.append((s3, None if bool(b) == (which == 'all') else (TRUE if which == 'any' else FALSE)))
            return out
        early, done = consume(I, st, v, ctx, body)
        return early + [(s, FALSE if which == 'any' else TRUE) for s in done]
    return f


MODELS['std::iter::Iterator::any'] = anyall('any')
MODELS['std::iter::Iterator::all'] = anyall('all')


def findm(which):
    def f(I, st, args, cal, ctx):
        v = as_iter(I, st, args[0])

        def body(s, e, c):
            out = []
            if which == 'find':
                root = (c.fid, 'fnd')
                s.mem[root] = e
                for s2, r in I.call_value(s, c, args[1], [mk('ref', root, (), False)]):
                    for s3, b in I.split_bool(s2, r):
                        s3.mem.pop(root, None)
                        out.append((s3, some(e) if b else None))
            elif which == 'position':
                for s2, r in I.call_value(s, c, args[1], [e]):
                    for s3, b in I.split_bool(s2, r):
                        out.append((s3, some(mk('app', 'index', mk('el', c.fid, c.bb, 'pos'))) if b else None))
            else:
                for s2, r in I.call_value(s, c, args[1], [e]):
                    for s3, vi in I.split(s2, r, OPT):
                        out.append((s3, some(I.payload(r, 1, OPT)) if vi == 1 else None))
            return out
        early, done = consume(I, st, v, ctx, body)
        return early + [(s, NONE) for s in done]
    return f


MODELS['std::iter::Iterator::find'] = findm('find')
MODELS['std::iter::Iterator::find_map'] = findm('find_map')
MODELS['std::iter::Iterator::position'] = findm('position')


@m('std::iter::Iterator::fold', 'std::iter::Iterator::try_fold', 'std::iter::Iterator::reduce')
def fold(I, st, args, cal, ctx):
    v = as_iter(I, st, args[0])
    n = cal['def'].rsplit('::', 1)[1]
    acc = (ctx.sub('fold').fid, 'acc')
    if n == 'reduce':
        f = args[1]
        outs = []
        s_none = st.copy()
        for s, e in gen(I, st, v, ctx.sub('first')):
            s.mem[('*', mk('app', 'acc', acc[0]))] = e
            outs.append(s)
        res = [(s_none, NONE)]
        root = ('*', mk('app', 'acc', acc[0]))
        for s in outs:
            def body(s1, e, c):
                return [(setm(s2, root, r), None) for s2, r in I.call_value(s1, c, f, [s1.mem[root], e])]
            early, done = consume(I, s, v, ctx, body)
            for d in done:
                x = d.mem.pop(root)
                res.append((d, some(x)))
        return res
    root = ('*', mk('app', 'acc', acc[0]))
    st.mem[root] = args[1]
    t = ctx.body.types[(cal.get('a') or [None])[-1]] if cal.get('a') else None
    path = t['p'] if t is not None and t['k'] == 'adt' else None

    def body(s1, e, c):
        out = []
        for s2, r in I.call_value(s1, c, args[2], [s1.mem[root], e]):
            if n == 'fold':
                out.append((setm(s2, root, r), None))
            else:
                pth = path if path in (OPT, RES) else OPT
                for s3, vi in I.split(s2, r, pth):
                    good = (vi == 0) == (pth == RES)
                    if good:
                        out.append((setm(s3, root, I.payload(r, vi, pth)), None))
                    else:
                        out.append((s3, NONE if pth == OPT else err(I.payload(r, vi, pth))))
        return out
    early, done = consume(I, st, v, ctx, body)
    pth = path if path in (OPT, RES) else OPT
    res = [(s, x) for s, x in early]
    for d in done:
        x = d.mem.pop(root)
        res.append((d, x if n == 'fold' else (some(x) if pth == OPT else ok(x))))
    return res


def setm(s, root, v):
    s.mem[root] = v
    return s


@m('std::iter::Iterator::count', 'std::iter::Iterator::sum', 'std::iter::Iterator::last', 'std::iter::Iterator::max',
   'std::iter::Iterator::min', 'std::iter::Iterator::product', 'std::iter::Iterator::nth')
def count(I, st, args, cal, ctx):
    term = iter_term(I, st, args[0])
    n = cal['def'].rsplit('::', 1)[1]
    sts, e = drain_multi(I, st, args[0], ctx)
    return [(s, mk('app', n, term, *args[1:])) for s in sts]


@m('std::cmp::Ord::clamp', 'core::num::<impl i64>::clamp')
def clamp(I, st, args, cal, ctx):
    out = []
    for s, v in minmax(I, st, [args[0], args[1]], 'max'):
        out += minmax(I, s, [v, args[2]], 'min')
    return out


@m('std::ops::Range::<Idx>::contains', 'std::ops::RangeInclusive::<Idx>::contains', 'core::ops::Range::<Idx>::contains')
def range_contains(I, st, args, cal, ctx):
    r, x = I.canon(st, args[0]), I.canon(st, args[1])
    if r.t != 'adt' or len(r.a[2]) < 2:
        return None
    lo, hi = r.a[2][0], r.a[2][1]
    incl = 'Inclusive' in cal['def']
    out = []
    for s, b in I.split_bool(st, I.binop('Le', lo, x)):
        if not b:
            out.append((s, FALSE))
            continue
        out += [(s2, TRUE if b2 else FALSE) for s2, b2 in I.split_bool(s, I.binop('Le' if incl else 'Lt', x, hi))]
    return out


# ------------------------------------------------------------------ integers
def checked(op):
    def f(I, st, args, cal, ctx):
        v = I.binop(op, args[0], args[1]) if op != 'Neg' else mk('neg', args[0])
        c = mk('app', 'checked_' + op, *args)
        return [(s, some(v) if b else NONE) for s, b in I.split_bool(st, c)]
    return f


for w in ('i64', 'u32', 'usize', 'i32', 'u64'):
    for a, b in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')):
        MODELS['core::num::<impl %s>::checked_%s' % (w, a)] = checked(b)
    MODELS['core::num::<impl %s>::checked_neg' % w] = checked('Neg')
    for a in ('saturating_add', 'saturating_sub', 'saturating_mul', 'saturating_neg', 'wrapping_add', 'unsigned_abs'):
        MODELS['core::num::<impl %s>::%s' % (w, a)] = (lambda a: lambda I, st, args, cal, ctx: one(st, mk('app', a, *args)))(a)


@m('std::process::exit', 'std::rt::panic_fmt', 'core::panicking::panic', 'std::process::abort')
def never(I, st, args, cal, ctx):
    return []
