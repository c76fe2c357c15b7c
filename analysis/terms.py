"""Hash-consed abstract values."""


class T:
    __slots__ = ('t', 'a', 'n')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(t, *a):
    k = (t, a)
    x = _tab.get(k)
    if x is None:
        x = T.__new__(T)
        x.t = t
        x.a = a
        x.n = len(_tab)
        _tab[k] = x
    return x


def I(n):
    return mk('i', int(n))


def S(s):
    return mk('s', s)


UNIT = mk('tup', ())
TRUE, FALSE = I(1), I(0)
OPT, RES, CF = 'std::option::Option', 'std::result::Result', 'std::ops::ControlFlow'


def adt(path, vi, *fs):
    return mk('adt', path, vi, tuple(fs))


def some(x):
    return adt(OPT, 1, x)


NONE = adt(OPT, 0)


def ok(x):
    return adt(RES, 0, x)


def err(x):
    return adt(RES, 1, x)


def is_const(t):
    if t.t in ('i', 's', 'fn'):
        return True
    if t.t == 'adt':
        return all(is_const(x) for x in t.a[2])
    if t.t in ('tup', 'arr'):
        return all(is_const(x) for x in t.a[0])
    return False


def subterms(t, seen=None):
    """all T's inside t (including through roots/paths of refs)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 9:
        return '…'
    k, a = t.t, t.a
    if k == 'i':
        return str(a[0])
    if k == 's':
        return repr(a[0])
    if k == 'adt':
        p = a[0].rsplit('::', 1)[-1]
        n = VNAMES(a[0], a[1])
        return '%s%s%s' % (p, ('::' + n) if n else '', '(' + ', '.join(show(x, d + 1) for x in a[2]) + ')' if a[2] else '')
    if k == 'tup':
        return '(' + ', '.join(show(x, d + 1) for x in a[0]) + ')'
    if k == 'arr':
        return '[' + ', '.join(show(x, d + 1) for x in a[0]) + ']'
    if k == 'fld':
        return '%s.%s' % (show(a[0], d + 1), a[3] if a[3] is not None else a[1])
    if k == 'as':
        return '%s@%s' % (show(a[0], d + 1), VNAMES(a[2], a[1]) or a[1])
    if k == 'deref':
        return '*' + show(a[0], d + 1)
    if k == 'disc':
        return 'disc(%s)' % show(a[0], d + 1)
    if k == 'arg':
        return str(a[1])
    if k in ('ctx',):
        return '#%d' % t.n
    if k in ('sym', 'lv', 'jn', 'el', 'inst'):
        return '%s#%d' % (a[0] if k == 'sym' else k, t.n)
    if k == 'app':
        return '%s(%s)' % (a[0].rsplit('::', 1)[-1], ', '.join(show(x, d + 1) for x in a[1:]))
    if k == 'hv':
        return "%s'" % show(a[1], d + 1)
    if k == 'ref':
        return '&' + showroot(a[0], d) + ''.join('.' + str(e[2] if e[0] == 'f' else e[0]) for e in a[1])
    return '%s(%s)' % (k, ', '.join(show(x, d + 1) for x in a))


def showroot(r, d):
    if r and r[0] == '*':
        return '*' + show(r[1], d + 1)
    if r and r[0] == 'const':
        return show(r[1], d + 1)
    return 'l%s' % (r[1],)


_V = {}


def VNAMES(path, vi):
    a = _V.get(path)
    if a and a['enum'] and isinstance(vi, int) and vi < len(a['variants']):
        return a['variants'][vi]['name']
    return None
