"""Integer arithmetic: nothing wraps, saturates or crashes; what does not fit is an error."""
from rules import prop
from rulelib import *

MIN, MAX = -(1 << 63), (1 << 63) - 1
LIMITS = {'u8': (0, 255), 'u16': (0, (1 << 16) - 1), 'u32': (0, (1 << 32) - 1), 'u64': (0, (1 << 64) - 1), 'usize': (0, (1 << 64) - 1),
          'i8': (-128, 127), 'i16': (-(1 << 15), (1 << 15) - 1), 'i32': (-(1 << 31), (1 << 31) - 1), 'isize': (MIN, MAX), 'i64': (MIN, MAX),
          'char': (0, 255), 'u128': (0, (1 << 128) - 1), 'i128': (-(1 << 127), (1 << 127) - 1)}
LOSSY = ('wrapping_', 'overflowing_', 'saturating_', 'unchecked_', 'carrying_', 'borrowing_', 'widening_', 'strict_', 'abs', 'pow', 'isqrt', 'ilog', 'signum',
         'rem_euclid', 'div_euclid', 'midpoint', 'rotate_', 'swap_bytes', 'reverse_bits', 'div_ceil', 'next_multiple_of')
FINE = ('abs_diff', 'unsigned_abs', 'signum', 'checked_', 'from_str', 'cmp', 'min', 'max', 'is_', 'clamp', 'to_string', 'fmt')
SMALL = ('u8', 'u16', 'i8', 'i16', 'i32')
OPS = ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl', 'Shr', 'Neg')
RES, OPT = 'std::result::Result', 'std::option::Option'


def opty(b, op):
    if op[0] in ('c', 'm') and len(op[1]) == 1:
        return b.ty(op[1][0])['s']
    if op[0] in ('c', 'm'):
        return place_ty(b, op[1])
    return None


def i64_sites(P, b):
    """what the body computes with 64-bit integers: (kind, block)"""
    for n, bl in enumerate(b.blocks):
        for s in bl['s']:
            if s[0] != '=':
                continue
            rv = s[2]
            if rv[0] == 'bin' and (rv[1].endswith('WithOverflow') or rv[1] in OPS):
                ty = opty(b, rv[2]) or opty(b, rv[3]) or (b.types[rv[4]]['s'] if len(rv) > 4 and isinstance(rv[4], int) else None)
                tt = b.types[rv[4]] if len(rv) > 4 and isinstance(rv[4], int) else None
                if ty == 'i64' or tt is not None and tt['s'].startswith('(i64'):
                    yield 'arithmetic', n, s[3]
            elif rv[0] == 'un' and rv[1] == 'Neg' and opty(b, rv[2]) == 'i64':
                yield 'arithmetic', n, s[3]
            elif rv[0] == 'cast':
                fr, to = b.types[rv[3]]['s'], b.types[rv[4]]['s']
                if (fr == 'i64') != (to == 'i64') and (fr in LIMITS or fr in ('f32', 'f64')) or fr in LIMITS and to in SMALL and LIMITS[fr][1] > LIMITS[to][1] and not from_char(b, rv):
                    yield 'cast', n, s[3]


def from_char(b, rv):
    return rv[3] is not None and b.types[rv[3]]['s'] == 'char'


def loc(span):
    return tuple(span[:3]) if span else None


def lin(t, k=1, out=None):
    """linear normal form: {atom: coefficient}, constants under None"""
    out = {} if out is None else out
    if t.t == 'i':
        out[None] = out.get(None, 0) + k * t.a[0]
    elif t.t in ('add', 'sub') and len(t.a) == 2:
        lin(t.a[0], k, out)
        lin(t.a[1], k if t.t == 'add' else -k, out)
    elif t.t == 'neg':
        lin(t.a[0], -k, out)
    else:
        out[t] = out.get(t, 0) + k
    return out


def plus(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
    return {x: c for x, c in out.items() if c or x is None}


def lower(I, st, d, top=MIN):
    """a lower bound of a linear form"""
    lo = d.get(None, 0)
    for x, c in d.items():
        if x is None:
            continue
        l, h = I.iv(st, x)
        v = l if c > 0 else h
        if v is None:
            return None
        lo += c * v
    return lo


def nonneg(st):
    """linear forms known not to be negative on this path"""
    for x, f in st.facts.items():
        if f[0] != '=' or x.t not in ('lt', 'eq') or f[1].t != 'i' or not isinstance(x.a[0], T):
            continue
        d = plus(lin(x.a[1]), lin(x.a[0]), -1)
        if x.t == 'lt' and f[1].a[0] == 1:
            yield plus(d, {None: -1})
        elif x.t == 'lt':
            yield {k: -c for k, c in d.items()}
        elif f[1].a[0] == 1:
            yield d
            yield {k: -c for k, c in d.items()}


FALSE_ = terms.I(0)


class A(ai.Client):
    """judges each computation where it happens"""
    def __init__(self, P, must=()):
        self.P, self.must = P, set(must)
        self.bad, self.done = [], set()

    def inline(self, I, b):
        if b.id in self.must:
            return True
        return ai.Client.inline(self, I, b)

    def bounds(self, I, st, v):
        lo, hi = I.iv(st, v)
        d = lin(v)
        if len(d) > 1:
            for e in [{}] + list(nonneg(st)):
                x = lower(I, st, plus(d, e, -1))
                if x is not None and (lo is None or x > lo):
                    lo = x
                x = lower(I, st, {k: -c for k, c in plus(d, e).items()})
                if x is not None and (hi is None or -x < hi):
                    hi = -x
        f = I.fact(st, v)
        no = {x.a[0] for x in f[1] if isinstance(x, T) and x.t == 'i'} if f is not None and f[0] == '!' else set()
        for x, g in st.facts.items():
            if x.t == 'eq' and g[0] == '=' and g[1] is FALSE_ and isinstance(x.a[0], T):
                p, q = x.a[0], x.a[1]
                if q is v:
                    p, q = q, p
                if p is v and q.t == 'i':
                    no.add(q.a[0])
        if no:
            lo, hi = MIN if lo is None else lo, MAX if hi is None else hi
            while lo in no:
                lo += 1
            while hi in no:
                hi -= 1
        return (MIN if lo is None else max(lo, MIN)), (MAX if hi is None else min(hi, MAX))

    def at(self, ctx):
        return (ctx.body.id, loc(ctx.span))

    def overflow(self, I, st, ctx, op, a, b, t):
        ty = self.width(ctx, t)
        if ty != 'i64':
            return
        self.done.add(self.at(ctx))
        (la, ha), (lb, hb) = self.bounds(I, st, a), self.bounds(I, st, b if b is not None else a)
        if op == 'Neg':
            lo, hi = -ha, -la
        elif op == 'Add':
            lo, hi = la + lb, ha + hb
        elif op == 'Sub':
            lo, hi = la - hb, ha - lb
        elif op == 'Mul':
            xs = [x * y for x in (la, ha) for y in (lb, hb)]
            lo, hi = min(xs), max(xs)
        else:
            lo, hi = None, None
        if lo is None or lo < MIN or hi > MAX:
            self.bad.append((ctx.body.id, loc(ctx.span), '%s may not fit into 64 bits: %s, %s' % (op, show(a)[:80], show(b)[:80] if b is not None else ''), ctx.where()))

    def width(self, ctx, t):
        return ai_assert_ty(ctx.body, t)

    def cast(self, I, st, ctx, kind, v, fr, to):
        if fr['s'] in ('usize', 'u8', 'u16', 'u32', 'u64'):
            # a length or an index: nothing in memory has more than 2^63 - 1 of anything
            I.set_iv(st, v, 0, min(MAX, LIMITS[fr['s']][1]))
        if fr['s'] in LIMITS and (fr['s'] == 'i64' and to['s'] != 'i64' or to['s'] in SMALL):
            self.done.add(self.at(ctx))
            lo, hi = self.bounds(I, st, v)
            lim = LIMITS.get(to['s'])
            if lim is None or lo < lim[0] or hi > lim[1]:
                self.bad.append((ctx.body.id, loc(ctx.span), 'converted to %s, which may not hold it: %s' % (to['s'], show(v)[:80]), ctx.where()))
        elif to['s'] == 'i64':
            self.done.add(self.at(ctx))
            if 'IntToInt' not in kind or fr['s'] not in ('usize', 'u64', 'u32'):
                self.bad.append((ctx.body.id, loc(ctx.span), 'converted from %s to an integer' % fr['s'], ctx.where()))


def ai_assert_ty(b, t):
    """type of the numbers an overflow check is about"""
    for op in t[4]:
        if op[0] in ('c', 'm'):
            return place_ty(b, op[1])
    return 'i64'    # constants


def place_ty(b, pl):
    if len(pl) == 1:
        return b.ty(pl[0])['s']
    e = pl[-1]
    if isinstance(e, list) and e[0] == 'f':
        return b.types[e[3]]['s']
    return 'i64'


def failing(st):
    """computations that failed on this path"""
    out = []
    for x, f in st.facts.items():
        if f[0] != '=':
            continue
        v = f[1].a[0] if f[1].t == 'i' else None
        if x.t == 'app' and isinstance(x.a[0], str) and x.a[0].startswith('checked_') and v == 0:
            out.append(x)
        if x.t == 'disc' and x.a[0].t == 'app':
            n = str(x.a[0].a[0]).rsplit('::', 1)[-1]
            if n == 'parse' and v == 1 or n == 'collect_try' and v == (1 if x.a[0].a[2] is S(RES) else 0):
                out.append(x)
    return out


class F(A):
    """does a computation that failed make the function fail?"""
    def __init__(self, P, must=()):
        A.__init__(self, P, must)
        self.loops, self.carried = [], False

    def relevant(self, x):
        return x.t == 'app' and isinstance(x.a[0], str) and x.a[0].startswith('checked_') or x.t == 'disc' and x.a[0].t == 'app' and str(x.a[0].a[0]).endswith(('parse', 'collect_try'))

    def loop_back(self, I, st, ctx, head, key):
        for x in failing(st):
            if any(isinstance(k, tuple) and k[0] is ctx.fid and v is NONE for k, v in st.mem.items()):
                self.carried = True
                continue    # carried into the next round
            self.loops.append((ctx.body.id, None, 'a computation failed and the loop goes on: ' + show(x)[:100], ctx.where()))


def fails(P, b, r):
    t = b.ty(0)
    if r is None:
        return True
    if r.t == 'adt':
        if r.a[0] == RES:
            return r.a[1] == 1
        if r.a[0] == OPT:
            return r.a[1] == 0
        if r.a[0].endswith('ControlFlow'):
            return r.a[1] == 1
    return False


CHECKED = lambda n: n.startswith('core::num::<impl i64>::checked_')


@prop('P23')
def p23(C):
    """Interval analysis of every computation with 64-bit integers, path by path; who-may-call over operations that lose digits; what happens on the
    failing branch of every operation that can fail."""
    P = C.P
    C.rule('fits', 'the result of every addition, subtraction, multiplication and conversion of integers is known to fit')
    C.rule('lossy', 'no operation that wraps, saturates or crashes instead of failing is used on integers')
    C.rule('reported', 'where a computation with integers fails, or a text is no integer, the function fails')
    bodies = [b for b in C.lib() if b.kind != 'promoted']
    by_owner = {}
    n = 0
    for b in bodies:
        for kind, blk, span in i64_sites(P, b):
            n += 1
            by_owner.setdefault(C.owner(b).id, set()).add((b.id, loc(span)))
    C.counts['computations'] = n
    C.floor('computations with integers', n, 8)
    callers = rev_calls(C)
    # every computation fits
    for id in sorted(by_owner):
        judge(C, P.bodies[id], by_owner[id], callers)
    # nothing lossy
    m = 0
    for b, name, span in calls_of(P, lambda x: True, bodies):
        if name.startswith('core::num::<impl i64>::') or name.startswith('std::num::<impl i64>::'):
            m += 1
            op = name.rsplit('::', 1)[1]
            if op.startswith(LOSSY) and not op.startswith(FINE):
                C.ob('lossy', '%s in %s' % (op, C.owner(b).name), False, 'integers are computed with %s' % name, C.loc(span))
        if name.startswith(('std::num::Wrapping', 'std::num::Saturating', 'core::num::wrapping', 'core::num::saturating', 'std::num::wrapping', 'std::num::saturating')):
            C.ob('lossy', 'wrapper in ' + C.owner(b).name, False, 'integers are computed with %s' % name, C.loc(span))
    for b in bodies:
        for i, cal, args, dest, span in P.calls(b):
            if 'def' not in cal:
                continue
            name = norm(cal['def'])
            tys = [b.types[x]['s'] for x in cal.get('a') or [] if isinstance(x, int) and x < len(b.types)]
            short = name.rsplit('::', 1)[-1]
            if name == 'std::convert::From::from' and tys and tys[0] == 'i64' and tys[-1] not in ('i64', 'u32') or name == 'std::convert::Into::into' and tys and tys[-1] == 'i64' and tys[0] not in ('i64', 'u32'):
                C.ob('lossy', 'conversion in ' + C.owner(b).name, False, 'an integer is made of a narrower number (%s)' % ', '.join(tys), C.loc(span))
            if name in ('std::iter::Iterator::sum', 'std::iter::Iterator::product') and any(t in ('i64', '&i64') for t in tys) \
                    or name.startswith('std::ops::') and short in ('add', 'sub', 'mul', 'neg', 'div', 'rem', 'shl', 'add_assign', 'sub_assign', 'mul_assign', 'neg_assign') and tys and tys[0] in ('i64', '&i64', '&mut i64'):
                C.ob('lossy', '%s in %s' % (short, C.owner(b).name), False, 'integers are computed with %s, which does not fail on overflow' % name, C.loc(span))
    C.ob('lossy', 'all', True, '%d operations on integers' % m)
    # what can fail
    sites = {}
    k = 0
    for b, name, span in calls_of(P, CHECKED, bodies):
        sites.setdefault(C.owner(b).id, []).append((name, b.id))
        sites.setdefault(b.id, [])
        k += 1
    for b in bodies:
        for i, cal, args, dest, span in P.calls(b):
            if 'def' in cal and norm(cal['def']) == 'core::str::<impl str>::parse':
                tys = [b.types[x]['s'] for x in cal.get('a') or [] if isinstance(x, int) and x < len(b.types)]
                if any(t in LIMITS and t not in ('i64', 'char') or t in ('f32', 'f64') for t in tys):
                    C.ob('lossy', 'parse in ' + C.owner(b).name, False, 'a number is read as %s' % ', '.join(tys), C.loc(span))
                if 'i64' in tys:
                    sites.setdefault(C.owner(b).id, []).append(('parse', b.id))
                    k += 1
            if 'def' in cal and norm(cal['def']) in ('std::str::FromStr::from_str', 'core::num::<impl i64>::from_str_radix', 'std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into'):
                tys = [b.types[x]['s'] for x in cal.get('a') or [] if isinstance(x, int) and x < len(b.types)]
                if 'i64' in tys:
                    C.ob('reported', '%s in %s' % (norm(cal['def']).rsplit('::', 1)[1], C.owner(b).name), False, 'not understood by the analysis', C.loc(span))
    C.floor('computations that can fail', k, 5)
    # adapters that drop what failed without failing
    clos = {b.id for b in bodies if b.id in sites and b.kind == 'closure'}
    for b in bodies:
        for i, cal, args, dest, span in P.calls(b):
            if 'def' not in cal or norm(cal['def']).rsplit('::', 1)[-1] not in DROPS or 'Iterator' not in cal['def']:
                continue
            for id in clos:
                if P.bodies[id].ty(0)['s'].startswith((OPT, RES)) and id in mentioned(b, cal):
                    C.ob('reported', '%s in %s' % (norm(cal['def']).rsplit('::', 1)[-1], C.owner(b).name), False, 'what failed is left out', C.loc(span))
    work, seen = sorted(sites), set()
    while work:
        id = work.pop(0)
        if id in seen:
            continue
        seen.add(id)
        b = P.bodies[id]
        cl = F(P, seen)
        outs = C.explore(b, cl)
        nf = 0
        for st, r in outs or []:
            f = failing(st)
            if f:
                nf += 1
                C.ob('reported', 'failure of %s in %s' % (sorted({kind_of(x) for x in f})[0], b.name), fails(P, b, r),
                     'a computation failed, but the result is ' + show(r)[:120])
        C.ob('reported', 'loops of ' + b.name, not cl.loops, cl.loops[0][2] if cl.loops else '')
        C.counts['failing paths'] = C.counts.get('failing paths', 0) + nf
        if sites.get(id) and b.kind != 'closure':
            C.ob('reported', 'failing paths of ' + b.name, nf > 0 or cl.carried, 'no failing path was found')
        rt = b.ty(0)['s']
        if not b.parent and (rt.startswith(OPT) or rt.startswith(RES) and 'PapyriError' not in rt and 'Report' not in rt):
            # the failure is handed to the callers
            for c in sorted(callers.get(id, ())):
                work.append(c)


DROPS = ('map_while', 'filter_map', 'flat_map', 'flatten', 'scan', 'find_map', 'take_while')


def mentioned(b, cal):
    out, work = set(), [x for x in cal.get('a') or [] if isinstance(x, int)]
    seen = set()
    while work:
        x = work.pop()
        if x in seen or x >= len(b.types):
            continue
        seen.add(x)
        t = b.types[x]
        if t['k'] == 'closure':
            out.add(t.get('p') or t.get('id'))
            out.add(t.get('id'))
        for k in ('t',):
            if isinstance(t.get(k), int):
                work.append(t[k])
        work += [y for y in t.get('a') or [] if isinstance(y, int)]
    return out


def kind_of(x):
    x = x.a[0] if x.t == 'disc' else x
    return x.a[0]


def rev_calls(C):
    P = C.P
    rev = {}
    for a, ss in P.call_graph().items():
        for s in ss:
            if s in P.bodies and a in P.bodies:
                x, y = C.owner(P.bodies[a]).id, C.owner(P.bodies[s]).id
                if x != y:
                    rev.setdefault(y, set()).add(x)
    return rev


def judge(C, b, want, callers, depth=0, must=()):
    P = C.P
    cl = A(P, must)
    C.explore(b, cl)
    done = {x for x in cl.done}
    bad = {(x[0], x[1]): x for x in cl.bad}
    for s in sorted(want, key=str):
        who = P.bodies[s[0]]
        key = 'computation in ' + C.owner(who).name
        if s not in done and s[0] != b.id and who.kind == 'closure':
            c2 = A(P)
            C.explore(who, c2)
            done |= c2.done
            for x in c2.bad:
                bad.setdefault((x[0], x[1]), x)
        if s in bad and depth < 3 and callers.get(b.id):
            # a helper: judge it where it is called
            for c in sorted(callers[b.id]):
                judge(C, P.bodies[c], {s}, callers, depth + 1, set(must) | {b.id})
            continue
        C.ob('fits', key, s in done and s not in bad, bad[s][2] if s in bad else 'the computation could not be judged', '%s:%s' % (s[1][0], s[1][1]) if s[1] else '')
