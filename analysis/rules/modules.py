"""Imports, the module cache, and state carried from one source to the next."""
from rules import prop
from rulelib import *

CR = 'compiler::base::CompileResult'
ME = 'errors::module_error::ModuleError'
MAPS = ('IndexMap<', 'HashMap<', 'BTreeMap<')


def cache_of(C):
    """(adt, field index, field name, state enum): the map from paths to module states inside the compilation context"""
    P = C.P
    for f in P.adts[CTX]['variants'][0]['fields']:
        t = P.types['papyri_lang'][f[1]]
        if t['k'] != 'adt' or t['p'] not in P.adts:
            continue
        for i, g in enumerate(P.adts[t['p']]['variants'][0]['fields']):
            u = P.types['papyri_lang'][g[1]]
            if u['k'] == 'adt' and u['p'].endswith(('IndexMap', 'HashMap', 'BTreeMap')) and 'Path' in u['s']:
                for a in u['a']:
                    v = P.types['papyri_lang'][a]
                    if v['k'] == 'adt' and v['p'] in P.adts and P.adts[v['p']]['enum']:
                        return t['p'], i, g[0], v['p'], f[0]
    return None


def touches(P, b, pairs):
    """the body mentions one of these (adt, field) places"""
    for blk in b.blocks:
        if blk['c']:
            continue
        for pl in places(blk):
            for e in pl[1:]:
                if isinstance(e, list) and e[0] == 'f' and e[2] in pairs:
                    return True
    return False


def places(blk):
    def ops(o):
        if o[0] in ('c', 'm'):
            yield o[1]
    for s in blk['s']:
        if s[0] == '=':
            yield s[1]
            rv = s[2]
            for x in rv:
                if isinstance(x, list) and x and x[0] in ('c', 'm'):
                    yield x[1]
                elif isinstance(x, list) and x and isinstance(x[0], int):
                    yield x
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, list) and y and y[0] in ('c', 'm'):
                            yield y[1]
    t = blk['t']
    if t[0] == 'call':
        for a in t[2]:
            if a[0] in ('c', 'm'):
                yield a[1]
        yield t[3]


def compiling(C):
    """functions in which a source file may get compiled"""
    P = C.P
    return P.rev_reach({C.owner(P.bodies[x]).id for x in constructors(C, CR)} | constructors(C, CR))


@prop('P13')
def p13(C):
    """Typestate of the module cache: the loader is explored with every possible cached state; the sequence of
    states stored around the compilation, the key used, and the output collector are checked on every path."""
    P = C.P
    C.rule('key', 'the cache is consulted and updated only under the canonical form of the path')
    C.rule('once', 'a module that has been loaded, is being loaded, or has failed is never compiled again')
    C.rule('busy', 'a module is marked as being loaded before it is compiled, so that a circular import is found')
    C.rule('settled', 'after compiling, the state of the module is its result, or failure if it could not be read')
    C.rule('result', 'a cached module yields the cached result; an import in progress yields a circular import error; a failed one an error')
    C.rule('no-output', 'while an imported module is compiled there is no output collector, and afterwards the importer\'s is back')
    C.rule('confined', 'nothing else changes the cache')
    got = cache_of(C)
    C.floor('module cache', 1 if got else 0, 1)
    if not got:
        return
    MC, fi, fname, EN, ctxfield = got
    variants = P.adts[EN]['variants']
    loaded = [i for i, v in enumerate(variants) if any('HTML' in P.types['papyri_lang'][f[1]]['s'] or 'Dict' in P.types['papyri_lang'][f[1]]['s']
                                                       for f in v['fields'])]
    C.floor('state holding a result', len(loaded), 1)
    L = loaded[0]
    comp = compiling(C)
    names_ = {'out_files', ctxfield, fname}
    oi = adt_field_index(P, CTX, 'out_files')
    entry = P.fn('load_cached')
    C.floor('cached loader', 1 if entry else 0, 1)
    stored = {}     # variant -> where
    is_map = lambda a: has_field(a, MC, fname)

    class M(ai.Client):
        # mon: (found, (stored variants...), compiled, result term of last store)
        def inline(self, I, b):
            if touches(P, b, names_):
                return True
            return b.id not in comp and ai.Client.inline(self, I, b)

        def call(self, I, st, ctx, name, args, cal):
            if not args:
                return None
            short = name.rsplit('::', 1)[-1]
            if name.startswith(('indexmap::', 'std::collections::', 'hashbrown::')) and is_map(args[0]):
                if short in ('get_index_mut', 'get_index', 'len', 'is_empty', 'iter', 'values', 'keys', 'reserve', 'values_mut'):
                    return None
                key = I.canon(st, args[1]) if len(args) > 1 else None
                canonical = key is not None and any(x.t == 'sym' and 'canonicalize' in str(x.a[0]) for x in subterms(key))
                C.ob('key', '%s in %s' % (short, C.owner(ctx.body).name), canonical,
                     'the module cache is accessed under a path that is not canonical: %s' % (show(key) if key is not None else '-'), ctx.where())
                if short in ('get', 'get_mut', 'get_full', 'remove', 'shift_remove', 'swap_remove', 'get_index_of', 'get_key_value'):
                    if 'remove' in short:
                        self.ev(st, None)
                    outs = I.call_ext(st, ctx, name, args, cal)
                    res = []
                    for s, r in outs:
                        for s2, vi in I.split(s, r, OPT):
                            if vi == 0:
                                s2.mon = (s2.mon[0] or 'none',) + s2.mon[1:]
                                res.append((s2, NONE))
                            else:
                                pl = I.payload(r, 1, OPT)
                                x = I.ld(s2, pl)
                                for s3, ev in I.split(s2, x, EN):
                                    if s3.mon[0] in (None, ev):
                                        s3.mon = (ev,) + s3.mon[1:]
                                        res.append((s3, some(pl)))
                    return res
                if short == 'contains_key':
                    res = []
                    for s, r in I.call_ext(st, ctx, name, args, cal):
                        for s2, v in I.split_bool(s, r):
                            if not v:
                                s2.mon = (s2.mon[0] or 'none',) + s2.mon[1:]
                                res.append((s2, FALSE))
                            else:
                                for ev in range(len(variants)):
                                    if s2.mon[0] in (None, ev):
                                        s3 = s2.copy()
                                        s3.mon = (ev,) + s3.mon[1:]
                                        res.append((s3, TRUE))
                    return res
                if short in ('insert', 'insert_full', 'insert_sorted'):
                    self.ev(st, I.canon(st, args[2]), ctx)
                    return None
            return None

        def ev(self, st, v, ctx=None):
            if v is not None and v.t == 'adt' and v.a[0] == EN:
                stored.setdefault(v.a[1], ctx.where() if ctx else '')
                st.mon = (st.mon[0], st.mon[1] + (v.a[1],), st.mon[2], v)
            else:
                st.mon = (st.mon[0], st.mon[1] + ('?',), st.mon[2], v)

        def store(self, I, st, ctx, root, path, val, rv):
            if root[0] != '*' and not (root[0] == 'arg'):
                return
            v = I.canon(st, val)
            if v.t == 'adt' and v.a[0] == EN:
                self.ev(st, v, ctx)

        def opaque(self, I, st, ctx, b, args):
            if b.id in comp:
                of = None
                for a in args:
                    r, p = I.deref(a)
                    v = I.rd(st, r, p + (('f', oi, 'out_files', CTX, None),))
                    of = v
                    break
                empty = of is not None and (of is NONE or of.t == 'adt' and of.a[1] == 0)
                C.ob('no-output', 'compilation in ' + C.owner(ctx.body).name, empty, 'an imported module is compiled while the output collector is in place', ctx.where())
                C.ob('busy', 'compilation in ' + C.owner(ctx.body).name, len(st.mon[1]) >= 1 and st.mon[1][-1] not in ('?', L),
                     'an imported module is compiled before it is marked as being loaded (stored so far: %s)' % (st.mon[1],), ctx.where())
                st.mon = (st.mon[0], st.mon[1] + ('C',), st.mon[2] + 1, st.mon[3])
                return None
            return None
    outs = C.explore(entry, M(), mon=(None, (), 0, None), cap=200)
    I = C.lastI
    n = {}
    seen_sets = set()
    for st, r in outs:
        r = I.canon(st, r)
        found, evs, k, last = st.mon
        vi = r.a[1] if r.t == 'adt' and r.a[0] == RES else None
        if vi is None:
            d = I.ev(st, I.disc(st, r, RES))
            vi = d.a[0] if d is not None and d.t == 'i' else None
        where = 'found %s' % ('nothing' if found == 'none' else variants[found]['name'] if isinstance(found, int) else 'not consulted')
        n[found] = n.get(found, 0) + 1
        if found is None:
            C.ob('once', where, k == 0 and vi != 0, 'a module is loaded without consulting the cache')
            continue
        if found == 'none':
            C.ob('once', where, k == 1 or vi == 1, 'an absent module is compiled %d times' % k)
        elif isinstance(found, int):
            seen_sets.add((found, k, vi, r))
        if k:
            C.ob('settled', where + ', ' + ('success' if vi == 0 else 'failure'), evs[-1] != 'C' and evs[-1] != '?',
                 'the state stored after compiling is missing or unknown: %s' % (evs,))
            if evs[-1] in ('C', '?'):
                continue
            if vi == 0:
                same = evs[-1] == L and last is not None and payload_of(I, st, last) is payload_of(I, st, r)
                C.ob('settled', where + ', success', evs[-1] == L, 'a module compiled successfully is stored as ' + variants[evs[-1]]['name'])
                C.ob('result', where + ', success', same, 'the cached result differs from the returned one: %s and %s' % (show(last), show(r)))
            elif vi == 1:
                C.ob('settled', where + ', failure', evs[-1] != L, 'a module that could not be loaded is stored as loaded')
                C.ob('settled', where + ', failure, no longer busy', evs[-1] not in busy_of(evs), 'a module that could not be loaded is left marked as being loaded')
            else:
                C.ob('settled', where, False, 'the result of compiling is unknown')
        # collector restored
        of = I.rd(st, ('*', mk('arg', 1, entry.locals[1][1])), (('f', oi, 'out_files', CTX, None),))
        init = I.rd(ai.State(), ('*', mk('arg', 1, entry.locals[1][1])), (('f', oi, 'out_files', CTX, None),))
        C.ob('no-output', where + ', afterwards', of is init, 'the importer\'s output collector is not restored: ' + show(of))
    busy = set()
    for st, r in outs:
        busy |= busy_of(st.mon[1])
    for found, k, vi, r in seen_sets:
        nm = variants[found]['name']
        if found not in stored:
            continue
        C.ob('once', 'found ' + nm, k == 0, 'a module found as %s is compiled again' % nm)
        if found == L:
            C.ob('result', 'found ' + nm, vi == 0 and r.t == 'adt' and is_map_elem(r.a[2][0], MC, fname), 'a loaded module does not yield its cached result: ' + show(r))
        else:
            C.ob('result', 'found ' + nm, vi == 1, 'a module found as %s yields a success' % nm)
            if found in busy:
                kinds = [x.a[1] for x in subterms(r) if x.t == 'adt' and x.a[0] == ME]
                C.ob('result', 'circular import', kinds and all(variant_name(P, ME, x) == 'CircularImport' for x in kinds),
                     'a circular import is not reported as such: ' + show(r))
    C.floor('cached states explored', len({f for f, *_ in seen_sets}), len(stored))
    C.floor('states stored', len(stored), 3)
    C.floor('paths that compile', sum(1 for st, r in outs if st.mon[2]), 2)
    # who else changes the cache
    for b in C.lib():
        o = C.owner(b)
        w = False
        for blk in b.blocks:
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'ref' and s[2][1] and any(isinstance(e, list) and e[0] == 'f' and e[2] == fname for e in s[2][2][1:]):
                    w = True
                if s[0] == '=' and len(s[1]) > 1 and any(isinstance(e, list) and e[0] == 'f' and e[2] == fname for e in s[1][1:]):
                    w = True
        if w and touches(P, b, {fname}):
            # every way to it leads through the cached loader
            up = set()
            work = [o.id]
            cg = rev_graph(P)
            while work:
                f = work.pop()
                if f in up or f == entry.id:
                    continue
                up.add(f)
                work += [c for c in cg.get(f, ())]
            tops = {f for f in up if not cg.get(f) and MC not in P.bodies[f].name} if o.id != entry.id else set()
            C.ob('confined', o.name, o.id == entry.id or not tops, 'the module cache is changed outside the cached loader, by way of %s'
                 % ', '.join(P.bodies[t].name for t in sorted(tops)[:3]))
    C.assumptions += ['canonicalize gives one path per file', 'a module whose state is stored under an index returned by the insertion keeps that index']


def busy_of(evs):
    return {evs[i] for i in range(len(evs) - 1) if evs[i + 1] == 'C' and evs[i] != 'C'}


def payload_of(I, st, t):
    t = I.canon(st, t)
    return t.a[2][0] if t.t == 'adt' and t.a[2] else t


def is_map_elem(t, adt, field):
    return any(x.t == 'idx' and has_field(x, adt, field) for x in subterms(t)) or has_field(t, adt, field)


_RG = {}


def rev_graph(P):
    if id(P) not in _RG:
        r = {}
        for a, ss in P.call_graph().items():
            for s in ss:
                r.setdefault(s, set()).add(a)
        _RG[id(P)] = r
    return _RG[id(P)]
