"""Effects: network, filesystem, standard output."""
from rules import prop
from rulelib import *

NET_OK_RECV = (CTX, 'http_client')
NET_CTORS = ('Client::new', 'Client::builder', 'Client::default', 'ClientBuilder', 'blocking::get', 'reqwest::get')


def http_allowed(I, st):
    return field_fact(I, st, 'ProgramArgs', 'allow_http') is TRUE or \
        any(v[0] == '=' and v[1] is TRUE and k.t == 'fld' and k.a[3] == 'allow_http' for k, v in st.facts.items())


class NetClient(ai.Client):
    def __init__(self, C):
        self.C = C

    def call(self, I, st, ctx, name, args, cal):
        if not name.startswith(NET):
            return None
        fn = self.C.owner(ctx.body).name
        short = name.split('::')[-1]
        if 1:
            ok = not any(c in name for c in NET_CTORS) and any(has_field(I.canon(st, a), *NET_OK_RECV) for a in args)
            self.C.ob('receiver', '%s:%s' % (fn, name), ok,
                      'a network operation whose receiver does not come from the caller-supplied client', ctx.where())
        return [(st, mk('sym', name, ctx.inst(name), *[I.canon(st, a) for a in args]))]


@prop('P01')
def p01(C):
    """Who-may-call over every network API in the program; value-flow of each receiver back to the context's client field; every
    write of that field; path facts at the place where the command line builds a client."""
    P = C.P
    C.rule('receiver', 'every call into a network crate from the library acts on a value obtained from Context.http_client')
    C.rule('client-field', 'Context.http_client is written only where a Context is constructed, from the constructor\'s parameter')
    C.rule('no-client', 'compile_str constructs its context with no client')
    C.rule('client-construction', 'the command line builds a client only on paths where allow_http is true')
    C.rule('other-network', 'no socket API and no subprocess is used')
    isnet = starts(NET)
    libroots, binroots = {}, {}
    for b, n, span in calls_of(P, isnet):
        o = C.owner(b)
        (libroots if b.crate == 'papyri_lang' else binroots)[o.id] = o
    C.floor('library functions using the network', len(libroots), 1)
    C.floor('command-line functions building a client', len(binroots), 1)
    for b, n, span in calls_of(P, starts(('std::net::',), PROC)):
        C.ob('other-network', '%s:%s' % (C.owner(b).name, n), False, 'uses ' + n, C.loc(span))
    for o in libroots.values():
        C.explore(o, NetClient(C))
    ung, gd = guard_closure(C, isnet, http_allowed, C.bin())
    for f, sites in gd.items():
        for (what, fn), (ok, w) in sites.items():
            C.ob('client-construction', '%s -> %s' % (P.bodies[f].name, what), ok, '', w)
    C.floor('functions that test --allow-http', len(gd), 1)
    mains = [b for b in C.bin() if b.name == 'main']
    C.floor('main', len(mains), 1)
    for b in mains:
        C.ob('client-construction', 'reach ' + b.name, b.id not in ung,
             'the HTTP client is built on a path where --allow-http is not known to be given: %s' % (ung.get(b.id),), '')
    # every syntactic call site must have been explored (unreached ones are dead code)
    # writes of the field
    idx = adt_field_index(P, CTX, 'http_client')
    C.floor('Context.http_client field', 0 if idx is None else 1, 1)

    class W(ai.Client):
        def inline(self, I, body):
            return body.id in ctors or ai.Client.inline(self, I, body)

        def agg(self, I, st, ctx, path, variant, ops):
            if path == CTX:
                v = I.canon(st, ops[idx])
                ok = v is NONE or v.t == 'arg'
                C.count('context constructions')
                C.ob('client-field', 'construct in ' + C.owner(ctx.body).name, ok,
                     'a Context is constructed with a client that is not the caller\'s: ' + show(v), ctx.where())

        def store(self, I, st, ctx, root, path, val, rv):
            for e in path:
                if e[0] == 'f' and e[3] == CTX and e[1] == idx:
                    C.ob('client-field', 'store in ' + C.owner(ctx.body).name, False, 'Context.http_client is overwritten', ctx.where())
    ctors = constructors(C, CTX)
    ctors |= P.rev_reach(ctors)
    for f in sorted({C.owner(P.bodies[f]).id for f in ctors if P.bodies[f].crate == 'papyri_lang'}):
        C.explore(P.bodies[f], W(), cap=200)
    C.floor('context constructions', C.counts.get('context constructions', 0), 1)
    for b in P.bodies.values():
        if b.parent and b.crate == 'papyri_lang':
            pass
        for blk in b.blocks:
            if blk['c']:
                continue
            for s in blk['s']:
                if s[0] == '=' and len(s[1]) > 1:
                    last = [e for e in s[1][1:] if isinstance(e, list) and e[0] == 'f']
                    if last and last[-1][2] == 'http_client' and b.crate == 'papyri_lang':
                        C.ob('client-field', 'store in ' + b.name, False, 'http_client is assigned', C.loc(s[3]))
                if s[0] == '=' and s[2][0] == 'ref' and s[2][1]:
                    fs = [e for e in s[2][2][1:] if isinstance(e, list) and e[0] == 'f']
                    if fs and fs[-1][2] == 'http_client':
                        C.ob('client-field', 'mutable borrow in ' + b.name, False, 'http_client is mutably borrowed', C.loc(s[3]))
    # compile_str
    cs = P.fn('compile_str')
    C.floor('compile_str', 1 if cs else 0, 1)
    if cs:
        class N(ai.Client):
            def inline(self, I, body):
                return body.id in ctors or ai.Client.inline(self, I, body)

            def agg(self, I, st, ctx, path, variant, ops):
                if path == CTX:
                    v = I.canon(st, ops[idx])
                    C.count('compile_str contexts')
                    C.ob('no-client', 'compile_str', v is NONE, 'compile_str compiles with a client: ' + show(v), ctx.where())
        C.explore(cs, N())
        C.floor('compile_str contexts', C.counts.get('compile_str contexts', 0), 1)
        for b, n, span in calls_of(P, isnet, [P.bodies[x] for x in P.reach([cs.id]) if x in P.bodies]):
            if any(c in n for c in NET_CTORS):
                C.ob('no-client', '%s:%s' % (b.name, n), False, 'a client is built in code reachable from compile_str', C.loc(span))
    # allow_http comes from the command line alone
    for b in C.bin():
        if b.raw.get('derived') or norm(b.raw.get('trait') or '').startswith('arg::'):
            continue
        for blk in b.blocks:
            for s in blk['s']:
                if s[0] == '=' and len(s[1]) > 1 and any(isinstance(e, list) and e[0] == 'f' and e[2] == 'allow_http' for e in s[1][1:]):
                    C.ob('client-construction', 'store allow_http in ' + b.name, False, 'allow_http is changed after parsing', C.loc(s[3]))
    C.assumptions += ['network access happens only through the listed network crates and std::net',
                      'call targets behind trait objects of external crates do not open connections on their own']


def allow(I, st):
    return field_fact(I, st, CTX, 'allow_file_access') is TRUE


@prop('P02')
def p02(C):
    """Bottom-up guard analysis: for every filesystem API call in the library, the functions that can reach it without
    first establishing that file access is allowed; none of them is reachable from compile_str after it has switched access off."""
    P = C.P
    C.rule('guard', 'no function that can touch the filesystem without testing allow_file_access is reachable from compile_str')
    C.rule('switch', 'compile_str turns file access off (and has no output collector) before any source text is compiled')
    C.rule('flag', 'allow_file_access is never switched on outside the construction of a Context')
    eff = lambda n: is_fs(n)
    ung, gd = guard_closure(C, eff, allow, C.lib())
    C.counts['functions touching the filesystem unguarded'] = len(ung)
    C.counts['functions guarded by allow_file_access'] = len(gd)
    C.floor('filesystem call sites', len([1 for _ in calls_of(P, eff, C.lib())]), 2)
    C.floor('guarded functions', len(gd), 1)
    for f, sites in gd.items():
        for (what, fn), (ok, w) in sites.items():
            C.ob('guard', '%s -> %s' % (P.bodies[f].name, what), ok, '', w)
    cs = P.fn('compile_str')
    C.floor('compile_str', 1 if cs else 0, 1)
    if not cs:
        return
    idx = adt_field_index(P, CTX, 'allow_file_access')
    oidx = adt_field_index(P, CTX, 'out_files')
    seen = {}

    class S(ai.Client):
        max_reach = 0

        def inline(self, I, body):
            return body.id in helpers or I.reach_size(body.id) < 30

        def opaque(self, I, st, ctx, body, args):
            for a in args:
                v = I.canon(st, a)
                if a.t == 'ref' and is_ctx(I, st, a):
                    got = I.project(I.ld(st, a), ('f', idx, 'allow_file_access', CTX, 'prim'))
                    if body.name.endswith('compile_stdlib') or reach_only_stdlib(body):
                        continue
                    seen[body.name] = 1
                    C.ob('switch', 'compile_str -> ' + body.name, got is FALSE, 'file access is still allowed when compile_str calls this', ctx.where())
            return None

        def agg(self, I, st, ctx, path, variant, ops):
            if path == CTX:
                C.ob('switch', 'compile_str (collector)', I.canon(st, ops[oidx]) is NONE,
                     'the context of compile_str has an output collector', ctx.where())

        def store(self, I, st, ctx, root, path, val, rv):
            if any(e[0] == 'f' and e[3] == CTX and e[2] == 'out_files' for e in path) and val is not NONE:
                C.ob('switch', 'compile_str (collector store)', False, 'compile_str sets an output collector', ctx.where())

    def is_ctx(I, st, a):
        v = I.ld(st, a)
        n = 0
        while v.t in ('hv', 'upd') and n < 20:
            v = v.a[1] if v.t == 'hv' else v.a[0]
            n += 1
        return v.t == 'adt' and v.a[0] == CTX

    # functions called only while the Context is being constructed
    cids = constructors(C, CTX)
    helpers = P.rev_reach(cids)
    def reach_only_stdlib(body):
        callers = {a for a, ss in P.call_graph().items() if body.id in ss}
        return bool(callers) and callers <= cids
    C.explore(cs, S())
    C.floor('compilations started by compile_str', len(seen), 1)
    # reachability, with the guarded edges removed and the standard library's compilation (a fixed text) apart
    cg = P.call_graph()
    par = {cs.id: None}
    work = [cs.id]
    while work:
        x = work.pop()
        for y in cg.get(x, ()):
            if y in par or y not in P.bodies:
                continue
            if x in gd and y in ung:
                continue
            if P.bodies[y].parent and C.owner(P.bodies[y]).id in gd:
                continue
            par[y] = x
            work.append(y)
    hits = [f for f in ung if f in par and any(eff(norm(c[1]['def'])) for c in P.calls(P.bodies[f]) if 'def' in c[1]) or
            f in par and isinstance(ung[f], dict) and any(eff(k[0]) for k in ung[f])]
    for f in hits:
        path, x = [], f
        while x is not None:
            path.append(P.bodies[x].name)
            x = par[x]
        C.ob('guard', 'reach ' + P.bodies[f].name, False, 'reachable from compile_str with no test of allow_file_access: ' + ' <- '.join(path[:8]),
             str(ung[f])[:300])
    C.counts['functions reachable from compile_str'] = len(par)
    # the flag is never switched on
    for b in P.bodies.values():
        if b.crate != 'papyri_lang':
            continue
        for blk in b.blocks:
            if blk['c']:
                continue
            for s in blk['s']:
                if s[0] != '=':
                    continue
                fs = [e for e in s[1][1:] if isinstance(e, list) and e[0] == 'f']
                if fs and fs[-1][2] == 'allow_file_access':
                    rv = s[2]
                    val = rv[1][1].get('val', {}) if rv[0] == 'use' and rv[1][0] == 'k' else {}
                    C.ob('flag', 'store in ' + b.name, val.get('int') == 0, 'file access is switched on', C.loc(s[3]))
                if s[2][0] == 'ref' and s[2][1]:
                    fs = [e for e in s[2][2][1:] if isinstance(e, list) and e[0] == 'f']
                    if fs and fs[-1][2] == 'allow_file_access':
                        C.ob('flag', 'borrow in ' + b.name, False, 'allow_file_access is mutably borrowed', C.loc(s[3]))
    C.assumptions += ['filesystem access happens through std::fs, std::path queries, walkdir or glob', 'the embedded standard library source imports nothing']


def bin_inline(I, b):
    if b.crate != 'papyri_lang':
        return True
    return I.reach_size(b.id) < 40


def no_errors(I, st):
    lo, hi = field_bounds(I, st, DIAG, 'num_errors')
    return hi == 0


@prop('P03')
def p03(C):
    """Effect classification of every external call in the library; path facts at every file-creating call of the command line."""
    P = C.P
    C.rule('library-effects', 'the library calls no API that writes files, prints to standard output, ends the process or starts another')
    C.rule('write-gate', 'every file-writing call of the command line is on paths where the error count of the compilation is zero')
    eff = starts(FS_WRITE, PROC, EXIT, STDOUT)
    n = 0
    for b in C.lib():
        for i, cal, args, dest, span in P.calls(b):
            if 'def' not in cal:
                continue
            n += 1
            d = norm(cal['def'])
            if eff(d):
                C.ob('library-effects', '%s:%s' % (C.owner(b).name, d), False, 'library code has this effect', C.loc(span))
        for path, _ in P.fn_refs(b):
            if path and eff(norm(path)):
                C.ob('library-effects', '%s:%s' % (C.owner(b).name, norm(path)), False, 'library code has this effect', C.loc(b.span))
    C.ob('library-effects', 'all external calls classified', True, '%d call sites' % n)
    C.floor('library call sites', n, 100)
    w = starts(FS_WRITE)
    sites = [(b, n2) for b, n2, s in calls_of(P, w, C.bin())]
    C.floor('file-writing calls in the command line', len(sites), 1)
    ung, gd = guard_closure(C, w, no_errors, C.bin(), inl=bin_inline, relevant=about('num_errors', 'num_warnings'), cap=200)
    for f, ss in gd.items():
        for (what, fn), (ok, where) in ss.items():
            C.ob('write-gate', '%s -> %s' % (P.bodies[f].name, what), ok, '', where)
    roots = [b for b in C.bin() if b.name == 'main']
    C.floor('main', len(roots), 1)
    for f in ung:
        callers = [a for a, ss in P.call_graph().items() if f in ss]
        isroot = not callers
        if isroot or P.bodies[f].name == 'main':
            C.ob('write-gate', 'reach ' + P.bodies[f].name, False,
                 'files are written although the compilation may have reported errors', str(ung[f])[:400])
    C.floor('gated functions', len(gd), 1)
    C.assumptions.append('the error count is read from the same diagnostics the compilation reported to')


OUTF = 'utils::outfiles::OutFiles'


@prop('P04')
def p04(C):
    """Value-flow of every path that reaches the output collector or a file-creating call."""
    P = C.P
    C.rule('collect', 'a path enters the output collector only as the remainder of a normalised path after stripping the collector\'s base')
    C.rule('drain', 'a path leaves the collector only joined back onto the base')
    C.rule('write', 'the command line writes only to drained paths, to the output directory joined with a confined path, or next to the source')
    flds = P.adts[OUTF]['variants'][0]['fields'] if OUTF in P.adts else []
    C.floor('output collector type', len(flds), 2)
    vname = bname = None
    for f in flds:
        s = P.types['papyri_lang'][f[1]]['s']
        if 'Vec<' in s:
            vname = f[0]
        elif 'Path' in s:
            bname = f[0]
    C.floor('collector fields', (vname is not None) + (bname is not None), 2)
    touch = {C.owner(b).id for b, n, k, rv, sp in field_writes(C, {vname}, C.lib())} | \
            {C.owner(P.bodies[b]).id for b in constructors(C, OUTF)}

    class S(ai.Client):
        def store(self, I, st, ctx, root, path, val, rv):
            if not any(e[0] == 'f' and e[3] == OUTF for e in path):
                return
            e = [e for e in path if e[0] == 'f' and e[3] == OUTF][-1]
            fn = C.owner(ctx.body).name
            if e[2] == bname:
                C.ob('collect', 'base in ' + fn, False, 'the collector\'s base path is changed', ctx.where())
                return
            if rv[0] in ('take', 'clear'):
                C.ob('drain', '%s in %s' % (rv[0], fn), True, '', ctx.where())
                return
            if rv[0] == 'push' and val.t in ('app', 'arr'):
                C.count('pushes')
                x = val.a[2] if val.t == 'app' else val.a[0][-1]
                p = I.canon(st, I.project(x, ('f', 0, '0', None, None)))
                base = I.canon(st, self.base_of(I, st, root, path))
                C.ob('collect', 'push in ' + fn, confined_rel(p) and strip_base(p) is base,
                     'the stored path is not confined to the base: ' + show(p)[:160], ctx.where())
                return
            C.ob('collect', '%s in %s' % (rv[0], fn), False, 'the collector\'s contents are changed in a way that is not checked', ctx.where())

        def base_of(self, I, st, root, path):
            k = [i for i, e in enumerate(path) if e[0] == 'f' and e[3] == OUTF][-1]
            return I.rd(st, root, path[:k] + (('f', adt_field_index(P, OUTF, bname), bname, OUTF, None),))

        def agg(self, I, st, ctx, path, variant, ops):
            if path == OUTF:
                v = I.canon(st, ops[adt_field_index(P, OUTF, vname)])
                C.ob('collect', 'construct in ' + C.owner(ctx.body).name, v.t == 'arr' and not v.a[0] or v.t == 'app' and v.a[0] == 'default',
                     'a collector starts with contents', ctx.where())

    def strip_base(t):
        t = walk_path(t)
        if t.t == 'fld' and t.a[0].t == 'as':
            t = t.a[0].a[0]
        return t.a[2]
    for f in sorted(touch):
        C.explore(P.bodies[f], S())
    C.floor('pushes', C.counts.get('pushes', 0), 1)
    # drain: public functions that return the contents
    n = 0
    for f in sorted(touch):
        b = P.bodies[f]

        class D(ai.Client):
            taken = None

            def store(self, I, st, ctx, root, path, val, rv):
                if rv[0] in ('take',) and any(e[0] == 'f' and e[3] == OUTF for e in path):
                    self.taken = I.canon(st, I.rd(st, root, path))
        d = D()
        outs = C.explore(b, d)
        if d.taken is None:
            continue
        for st, r in outs:
            I = C.lastI
            if r.t != 'iter':
                C.ob('drain', 'result of ' + b.name, False, 'the drained pairs are returned in an unchecked form: ' + show(r)[:120])
                continue
            import models
            for s, e in models.gen(I, st, r, ai.Ctx(mk('ctx', None, 0, 'drain'), 0, b, None, ())):
                n += 1
                p = I.canon(s, I.project(e, ('f', 0, '0', None, None)))
                ok = p.t == 'app' and p.a[0].endswith('::join') and has_field(p.a[1], OUTF, bname) and p.a[2].t == 'fld' and \
                    any(x.t == 'idx' for x in subterms(p.a[2]))
                C.ob('drain', 'element of ' + b.name, ok, 'a drained path is not base.join(stored path): ' + show(p)[:160])
    C.floor('drained elements', n, 1)
    # command line
    w = starts('std::fs::File::create', ) if False else (lambda x: x.startswith(('std::fs::File::create', 'std::fs::write', 'std::fs::OpenOptions::open', 'std::fs::rename', 'std::fs::copy')))
    roots = {C.owner(b).id for b, n2, s in calls_of(P, w, C.bin())}
    C.floor('file-creating functions of the command line', len(roots), 1)
    # start where the paths come from: the functions of the binary that compile a source file
    comp = [b for b in C.bin() if b.parent is None and any('def' in c[1] and norm(c[1]['def']).endswith('load_uncached') for c in P.calls(b))]
    tops = {b.id for b in comp} or roots

    class W(ai.Client):
        relevant = staticmethod(about('out_dir'))

        def inline(self, I, b):
            return bin_inline(I, b) or b.name.endswith('make_relative') or 'OutFiles' in b.name

        def call(self, I, st, ctx, name, args, cal):
            if w(name):
                p = I.canon(st, args[0])
                for q in resolve(I, p):
                    C.count('written paths')
                    q = walk_path(q)
                    C.ob('write', 'path in %s: %s' % (C.owner(ctx.body).name, kind(I, st, q)), good(I, st, q),
                         'a file is written to an unchecked path: ' + show(q)[:200], ctx.where())
            return None

    def kind(I, st, q):
        if q.t == 'app' and q.a[0].endswith('::join'):
            return 'joined'
        return q.t

    def good(I, st, q):
        if q.t == 'app' and q.a[0].endswith('::join'):
            base, rel = q.a[1], walk_path(q.a[2])
            if has_field(base, OUTF, bname) and any(x.t == 'fld' and x.a[2] == OUTF and x.a[3] == vname for x in subterms(rel)):
                return True
            if any(x.t == 'fld' and x.a[3] == 'out_dir' for x in subterms(base)):
                return confined_rel(rel)
            return False
        if q.t == 'arg':
            # next to the source file: only when no output directory is configured
            for k, v in st.facts.items():
                if k.t == 'disc' and v[0] == '=' and k.a[1] == OPT and k.a[0].t == 'fld' and k.a[0].a[3] == 'out_dir':
                    return v[1] is I_(0)
            return False
        return False
    for f in sorted(tops):
        C.explore(P.bodies[f], W(), cap=200)
    C.floor('written paths', C.counts.get('written paths', 0), 1)
    C.assumptions += ['normalize removes every parent-directory component (or keeps it only in front, where stripping the base fails)',
                      'symbolic links inside the output directory are the user\'s own']


I_ = I
