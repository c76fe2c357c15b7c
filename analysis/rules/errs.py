"""Diagnostics: nothing fails silently, results agree with the diagnostics, severities and counting."""
import re
from rules import prop
from rulelib import *
import models

OWN = re.compile(r'errors::(?:\w+::)*(PapyriError|RuntimeError|TypeError|ModuleError|NameError|SyntaxError|Warning)\b')
IOE = re.compile(r'\b(std::io::Error|walkdir::Error|reqwest::Error|glob::GlobError|glob::PatternError)\b')
SINK = re.compile(r'errors::sink_base::DiagnosticSink<[^<>]*>')
PE = 'errors::sink::PapyriError'
AR = 'errors::sink::AlreadyReported'
DENY = {'ok', 'unwrap_or', 'unwrap_or_default', 'or', 'iter', 'into_iter', 'is_ok_and', 'map_or', 'drop', 'forget', 'flatten', 'unwrap_unchecked'}


def errorish(ty):
    """does a value of this type hold an error that must not get lost?"""
    k = ty.get('k')
    s = ty['s']
    if k in ('param', 'closure', 'ref', 'ptr', 'fndef', 'fnptr', 'dyn') or s.startswith(('impl ', '{closure', '&', 'fn(')):
        return False
    s = SINK.sub('', s)
    return bool(OWN.search(s) or IOE.search(s))


def result_err(s):
    """error type of a Result type string"""
    if not s.startswith('std::result::Result<'):
        return None
    d, cut = 0, None
    body = s[len('std::result::Result<'):-1]
    for i, ch in enumerate(body):
        if ch in '<([':
            d += 1
        elif ch in ')]' or ch == '>' and body[i - 1:i] != '-':
            d -= 1
        elif ch == ',' and d == 0:
            cut = i
    return body[cut + 1:].strip() if cut is not None else None


@prop('P09')
def p09(C):
    """Linearity of error values on MIR with elaborated drops: every drop of a value that may hold an error, every library call that consumes
    one, and every creation of the token that says a diagnostic was already reported."""
    P = C.P
    C.rule('drop', 'no value holding an error goes out of scope on a path where it may be an error, unless its text was used')
    C.rule('consume', 'no Result with an error is turned into something that forgets the error')
    C.rule('token', 'the already-reported token is created only after a diagnostic has been reported, or from another token')
    C.rule('sink', 'diagnostics are collected in the context\'s sink; the only other one belongs to the syntax highlighter')
    ndrop = ncall = 0
    for b in C.lib():
        displayed = set()
        for i, cal, args, dest, span in P.calls(b):
            if 'def' in cal and ('Argument::<' in cal['def'] and 'new_' in cal['def'] or cal['def'].endswith('::to_string')):
                for a in args:
                    if a[0] in ('c', 'm'):
                        displayed.add(b.types[b.locals[a[1][0]][0]]['s'].lstrip('&'))
        sus = []
        for bi, blk in enumerate(b.blocks):
            t = blk['t']
            if blk['c'] or t[0] != 'drop':
                continue
            tys = I_dummy(P).place_tys(b, t[1])
            ty = tys[-1] if tys and tys[-1] is not None else b.types[b.locals[t[1][0]][0]]
            ndrop += 1
            if errorish(ty) and ty['s'] not in displayed and not replaced(b, t, ty):
                sus.append((bi, ty['s'], t[1]))
        if sus:
            o = C.owner(b)
            if o is not b:
                # a closure: what reaches it is known only where it is called; judge it on its own
                o = b
            bad = {}

            class D(ai.Client):
                def drop(self, I, st, ctx, val, ty):
                    if ctx.body.id == b.id and ty is not None and errorish(ty) and ty['s'] not in displayed and may_err(I, st, val):
                        bad[ty['s']] = (show(val)[:120], ctx.where())
            try:
                C.explore(o, D(), cap=60, mon=None)
            except ai.Limit:
                pass
            for bi, s, place in sus:
                short = re.sub(r'[\w]+::', '', s)[:80]
                C.ob('drop', '%s: %s' % (b.name, short), s not in bad, 'an error may go out of scope without being reported: %s' % (bad.get(s),),
                     bad[s][1] if s in bad else '')
        for i, cal, args, dest, span in P.calls(b):
            if 'def' not in cal:
                continue
            n = norm(cal['def'])
            ncall += 1
            short = n.rsplit('::', 1)[-1]
            if short not in DENY or (cal.get('rid') or cal.get('id')) in P.bodies:
                continue
            for a in args:
                if a[0] in ('c', 'm') and len(a[1]) == 1:
                    ty = b.types[b.locals[a[1][0]][0]]
                    s = ty['s']
                    if n.startswith('std::result::Result'):
                        e = result_err(s.lstrip('&'))
                        if e is not None and not e.startswith('&') and (OWN.search(e) or IOE.search(e)) and not s.startswith('&'):
                            C.ob('consume', '%s: Result::%s' % (b.name, short), False, 'the error in %s is discarded' % s[:100], C.loc(span))
                    elif short in ('drop', 'forget') and errorish(ty):
                        C.ob('consume', '%s: %s' % (b.name, short), False, 'the error in %s is discarded' % s[:100], C.loc(span))
        for path, id in P.fn_refs(b):
            if path and norm(path).startswith('std::result::Result') and norm(path).rsplit('::', 1)[-1] in ('ok', 'unwrap_or_default'):
                C.ob('consume', '%s: ref to %s' % (b.name, norm(path)), False, 'a function that discards errors is passed on', C.loc(b.span))
    C.counts['drops classified'] = ndrop
    C.ob('drop', 'all drops classified', True, '%d' % ndrop)
    C.ob('consume', 'all calls classified', True, '%d' % ncall)
    C.floor('drops', ndrop, 400)
    C.floor('calls', ncall, 2000)
    # tokens
    makers = sorted(constructors(C, AR))
    C.floor('creations of the already-reported token', len(makers), 2)
    for f in makers:
        b = P.bodies[f]
        if b.crate != 'papyri_lang':
            continue

        class T_(ai.Client):
            def call(self, I, st, ctx, name, args, cal):
                if name.startswith('errors::sink_base::DiagnosticSink') and name.endswith('::add') or name.endswith(('FnMut::call_mut', 'FnOnce::call_once', 'Fn::call')):
                    st.mon = True
                return None

            def opaque(self, I, st, ctx, body, args):
                if reports(body):
                    st.mon = True
                return None

            def agg(self, I, st, ctx, path, variant, ops):
                if path == AR:
                    C.ob('token', b.name, st.mon is True, 'the token is created without a diagnostic being reported', ctx.where())
        adds = {x.id for x in P.bodies.values() if x.name.startswith('errors::sink_base::DiagnosticSink') and x.name.endswith('::add')}

        def reports(body, adds=adds):
            return bool(P.reach([body.id]) & adds) and False
        C.explore(b, T_(), mon=False)
    for f in constructors(C, PE):
        b = P.bodies[f]
        for s in stmts(b):
            if s[2][0] == 'agg' and s[2][1][0] == 'adt' and norm(s[2][1][1]) == PE and len(s[2][2]) == 0:
                tys = [b.types[b.locals[i][0]]['s'] for i in range(1, b.argc + 1)]
                C.ob('token', 'conversion in ' + b.name, any(AR in t for t in tys), 'an already-reported error is created from nothing', C.loc(s[3]))
    # sinks
    n = 0
    for f in sorted({C.owner(P.bodies[x]).id for x in constructors(C, DIAG)}):
        pass
    news = {b.id for b in C.lib() if any(norm(s[2][1][1]) == DIAG for s in stmts(b) if s[2][0] == 'agg' and s[2][1][0] == 'adt')}
    for a, ss in sorted(P.call_graph().items()):
        if a in P.bodies and ss & news and a not in news:
            o = C.owner(P.bodies[a])
            n += 1
            ok = bool(constructors(C, CTX) & {a}) or 'highlight' in o.name or o.name.startswith('errors::')
            C.ob('sink', o.name, ok, 'a separate collection of diagnostics is created, whose contents nobody reports', '')
    C.floor('sinks', n, 1)
    C.assumptions += ['a callback given an error reports it', 'panics are not silent']


def replaced(b, t, ty):
    """the dropped error is overwritten at once by another one"""
    for s in b.blocks[t[2]]['s']:
        if s[0] == '=' and len(s[1]) > 1 and s[2][0] == 'use' and s[2][1][0] in ('m', 'c') and len(s[2][1][1]) == 1:
            tmp = s[2][1][1][0]
            if b.types[b.locals[tmp][0]]['s'] != ty['s']:
                continue
            defs = [x for x in stmts(b) if x[1] == [tmp]]
            if defs and all(x[2][0] == 'agg' and x[2][1][0] == 'adt' and x[2][1][2] in ('Some', 'Err') for x in defs):
                return True
    return False


_ID = []


def I_dummy(P):
    if not _ID:
        _ID.append(ai.Interp(P, ai.Client()))
    return _ID[0]


def may_err(I, st, v):
    """could the dropped value hold an error on this path?"""
    v = I.canon(st, v)
    if v.t == 'adt':
        if v.a[0] == OPT:
            return v.a[1] == 1
        if v.a[0] == RES:
            return v.a[1] == 1
        if v.a[0] == CF:
            return v.a[1] == 1
        return True
    for p, i in ((OPT, 0), (RES, 0), (CF, 0)):
        d = I.ev(st, mk('disc', v, p))
        if d is I_(i):
            return False
    return True


I_ = I


# ------------------------------------------------------------------ results agree with the diagnostics

def zero(I, st, name):
    lo, hi = field_bounds(I, st, DIAG, name)
    return hi == 0


def nonzero(I, st, name):
    lo, hi = field_bounds(I, st, DIAG, name)
    return lo is not None and lo > 0


def bin_or_small(I, b):
    if b.crate != 'papyri_lang':
        return True
    return I.reach_size(b.id) < 40


class Small(ai.Client):
    relevant = staticmethod(about('num_errors', 'num_warnings', 'silent', 'use_stdin', 'print_version'))

    def inline(self, I, b):
        return bin_or_small(I, b)


COMPILE = ('compiler::module_loader::', 'compiler::')


def compilers(C):
    """public library functions that compile a source (the diagnostics are complete once they return)"""
    return {b.id for b in C.lib() if b.name.endswith(('::compile_synthetic', '::load_uncached'))}


@prop('P10')
def p10(C):
    """Path-sensitive exploration of the string API and of the command line's main, with the error and warning counters tracked as intervals."""
    P = C.P
    C.rule('string-api', 'compiling a string succeeds exactly when neither an error nor a warning was counted, and otherwise returns the diagnostics')
    C.rule('stdin', 'with --stdin, output is printed and the result is a success exactly when there are no diagnostics')
    C.rule('exit-status', 'the process ends with a nonzero status whenever some source failed')
    cs = P.fn('compile_str')
    C.floor('compile_str', 1 if cs else 0, 1)
    comp = compilers(C)
    C.floor('compiling functions', len(comp), 2)
    C.explore  # noqa
    cl = Small()
    outs = C.explore(cs, cl, cap=200)
    I = C.lastI
    nok = nerr = 0
    for st, r in outs:
        r = I.canon(st, r)
        if r.t != 'adt' or r.a[0] != RES:
            C.ob('string-api', 'result', False, 'the result is neither success nor failure on a path: ' + show(r)[:100])
        elif r.a[1] == 0:
            nok += 1
            C.ob('string-api', 'success', zero(I, st, 'num_errors') and zero(I, st, 'num_warnings'), 'a compilation with diagnostics counted returns a success')
        else:
            nerr += 1
            C.ob('string-api', 'failure', nonzero(I, st, 'num_errors') or nonzero(I, st, 'num_warnings'), 'a compilation without diagnostics returns a failure')
            C.ob('string-api', 'diagnostics', has_field(r, CTX, 'diagnostics') or any(x.t == 'adt' and x.a[0] == DIAG for x in subterms(r)),
                 'the diagnostics are not what is returned: ' + show(r)[:120])
    C.floor('success paths of the string API', nok, 1)
    C.floor('failure paths of the string API', nerr, 1)
    # command line
    main = [b for b in C.bin() if b.name == 'main']
    C.floor('main', len(main), 1)

    class M(Small):
        """mon = (a source failed, an error result was made, finished compiling)"""
        def call(self, I, st, ctx, name, args, cal):
            if name == 'std::process::exit':
                c = I.ev(st, args[0])
                C.count('exits')
                failed, errs, _ = st.mon
                if c is I_(0):
                    C.ob('exit-status', 'exit(0) in ' + ctx.body.name, not failed, 'the process ends with status 0 although a source failed', ctx.where())
                return []
            if name == 'std::io::_print':
                st.mon = st.mon[:2] + (st.mon[2],)
            return None

        def opaque(self, I, st, ctx, body, args):
            if body.id in comp:
                st.mon = st.mon[:2] + ('compiled',)
            return None

        def agg(self, I, st, ctx, path, variant, ops):
            if path == RES and variant == 1 and ctx.body.crate != 'papyri_lang':
                st.mon = (st.mon[0], True, st.mon[2])

        def leave(self, I, st, ctx, body, ret):
            if st.mon[2] == 'compiled' and body.crate != 'papyri_lang' and body.id in owners:
                if body.id in stdin_like:
                    bad = not (zero(I, st, 'num_errors') and zero(I, st, 'num_warnings'))
                else:
                    bad = not zero(I, st, 'num_errors')
                st.mon = (st.mon[0] or bad, st.mon[1], '')
    owners, stdin_like = set(), set()
    for b in C.bin():
        for i, cal, args, dest, span in P.calls(b):
            if 'def' in cal and (cal.get('rid') or cal.get('id')) in comp:
                owners.add(C.owner(b).id)
                if norm(cal['def']).endswith('compile_synthetic'):
                    stdin_like.add(C.owner(b).id)
    C.floor('command-line functions that compile', len(owners), 2)
    if main:
        outs = C.explore(main[0], M(), mon=(False, False, ''), cap=300, limit=4000000)
        I = C.lastI
        for st, r in outs:
            C.count('normal ends')
            C.ob('exit-status', 'normal end of main', not st.mon[0], 'the process ends normally although a source failed')
        C.floor('normal ends', C.counts.get('normal ends', 0), 1)
        C.floor('exits', C.counts.get('exits', 0), 1)
    # --stdin
    for f in sorted(stdin_like):
        b = P.bodies[f]

        class S(Small):
            def call(self, I, st, ctx, name, args, cal):
                if name.endswith('::render') and 'Context' in name:
                    C.ob('stdin', 'output in ' + b.name, zero(I, st, 'num_errors') and zero(I, st, 'num_warnings'),
                         'output is printed although there are diagnostics', ctx.where())
                return None

            def opaque(self, I, st, ctx, body, args):
                if body.id in comp:
                    st.mon = 'compiled'
                return None
        outs = C.explore(b, S(), mon='', cap=200)
        I = C.lastI
        for st, r in outs:
            if st.mon != 'compiled':
                continue
            z = zero(I, st, 'num_errors') and zero(I, st, 'num_warnings')
            r = I.canon(st, r)
            if not z:
                C.ob('stdin', 'result with diagnostics', I.ev(st, I.disc(st, r, RES)) is I_(1), 'the result is not an error although there are diagnostics: ' + show(r)[:80])
            else:
                C.ob('stdin', 'result without diagnostics', True)
    C.assumptions.append('compilation reports every failure as a diagnostic (separate property)')


# ------------------------------------------------------------------ severities and counting

SEV = {'Warning': 'Warning', 'AlreadyReported': 'Debug'}


@prop('P11')
def p11(C):
    """Exhaustive case analysis (every severity x every reporting level, every kind of error) of the sink, by path exploration with the
    discriminants fixed; field-write confinement of the counters."""
    P = C.P
    C.rule('count', 'an error always increases the error count by one and a warning the warning count by one, whatever the reporting level; nothing else does')
    C.rule('keep', 'a diagnostic is kept for display exactly when its severity reaches the reporting level')
    C.rule('severity', 'every kind of error is counted as an error; only warnings are warnings')
    C.rule('level', 'the command line shows errors always and warnings unless --ignore-warnings; the string API shows both')
    C.rule('confined', 'the counters change only when a diagnostic is added or the collection is cleared, which clears both and the diagnostics')
    SEVT = 'errors::sink_base::Severity'
    LVL = 'errors::sink_base::ReportingLevel'
    add = [b for b in C.lib() if b.name.startswith('errors::sink_base::DiagnosticSink') and b.name.endswith('::add')]
    C.floor('DiagnosticSink::add', len(add), 1)
    C.floor('severities', len(P.adts[SEVT]['variants']), 3)
    C.floor('reporting levels', len(P.adts[LVL]['variants']), 4)
    order = {'Debug': 0, 'Warning': 1, 'Error': 2}
    need = {'All': 0, 'Warning': 1, 'Error': 2, 'IgnoreAll': 3}
    vname = [f[0] for f in P.adts[DIAG]['variants'][0]['fields'] if 'Vec<' in P.types['papyri_lang'][f[1]]['s']]
    for sv in P.adts[SEVT]['variants']:
        for lv in P.adts[LVL]['variants']:
            b = add[0]

            class A(ai.Client):
                def known(self, I, t):
                    if t.t == 'disc' and t.a[1] == LVL and has_field(t, DIAG, 'reporting_level'):
                        return ('=', I_(lv['discr']))
                    if t.t == 'disc' and t.a[1] == SEVT and bare(strip_d(t.a[0])).t == 'arg':
                        return ('=', I_(sv['discr']))
                    return None

                def store(self, I, st, ctx, root, path, val, rv):
                    f = [e for e in path if e[0] == 'f' and e[3] == DIAG]
                    if f and f[-1][2] in ('num_errors', 'num_warnings'):
                        st.mon = st.mon + ((f[-1][2], show(I.canon(st, val))),)
                    elif f and f[-1][2] in vname:
                        st.mon = st.mon + (('keep', rv[0] if isinstance(rv, (list, tuple)) else str(rv)),)
            svi = [i for i, x in enumerate(P.adts[SEVT]['variants']) if x['name'] == sv['name']][0]
            args = [adt(SEVT, svi) if b.types[b.locals[i][0]]['s'] == SEVT else mk('arg', i, b.locals[i][1]) for i in range(1, b.argc + 1)]
            outs = C.explore(b, A(), mon=(), args=args)
            C.ob('count', '%s/%s paths' % (sv['name'], lv['name']), len(outs) >= 1)
            for st, r in outs:
                want = {'Error': 'num_errors', 'Warning': 'num_warnings'}.get(sv['name'])
                got = [m for m in st.mon if m[0].startswith('num_')]
                okc = (len(got) == (1 if want else 0)) and all(g[0] == want and re.search(r'(add|ovf)?\(?.*%s.*\b1\b' % want, g[1]) for g in got)
                C.ob('count', '%s at level %s' % (sv['name'], lv['name']), okc, 'the counters change by %s' % (got,))
                keep = sum(1 for m in st.mon if m[0] == 'keep')
                wantk = 1 if order[sv['name']] >= need[lv['name']] else 0
                C.ob('keep', '%s at level %s' % (sv['name'], lv['name']), keep == wantk, 'kept %d times instead of %d' % (keep, wantk))
    # severity of each kind
    reps = [b for b in C.lib() if 'errors::sink' in b.name and b.name.endswith(('::report', '::report_static')) and b.parent is None]
    C.floor('report functions', len(reps), 1)
    for b in reps:
        for vi, v in enumerate(P.adts[PE]['variants']):
            seen = []

            class S(ai.Client):
                def known(self, I, t):
                    if t.t == 'disc' and t.a[1] == PE:
                        return ('=', I_(v['discr']))

                def call(self, I, st, ctx, name, args, cal):
                    if name.startswith('errors::sink_base::DiagnosticSink') and name.endswith('::add'):
                        seen.append(show(I.canon(st, args[1])))
                        return [(st, UNIT)]
                    return None
            C.explore(b, S())
            want = SEV.get(v['name'], 'Error')
            C.ob('severity', '%s in %s' % (v['name'], b.name.rsplit('::', 1)[-1]), seen and all(s.endswith('::' + want) for s in seen),
                 'a %s is added with severity %s instead of %s' % (v['name'], seen, want))
    # writes of the counters and of the level
    names_ = {'num_errors', 'num_warnings', 'reporting_level'} | set(vname)
    clears = set()
    for b, n, k, rv, span in field_writes(C, {'num_errors', 'num_warnings', 'reporting_level'}, C.P.bodies.values()):
        o = C.owner(b)
        inside = o.name.startswith('errors::sink_base::')
        C.ob('confined', '%s in %s' % (n, o.name), inside, 'a counter or the level is changed outside the diagnostics module', C.loc(span))
        if inside and o.id != add[0].id and n != 'reporting_level':
            clears.add(o.id)
    for f in sorted(clears - {x for x in P.rev_reach({add[0].id})}):
        b = P.bodies[f]
        if b.id in P.reach([add[0].id]):
            continue

        class Z(ai.Client):
            def store(self, I, st, ctx, root, path, val, rv):
                g = [e for e in path if e[0] == 'f' and e[3] == DIAG]
                if g:
                    v = I.canon(st, val)
                    st.mon = st.mon | {(g[-1][2], v is I_(0) or v.t == 'arr' and not v.a[0] or v.t == 'app' and v.a[0] in ('clear', 'default'))}
        for st, r in C.explore(b, Z(), mon=frozenset()):
            d = dict(st.mon)
            okz = all(d.get(n) is True for n in ['num_errors', 'num_warnings'] + vname)
            C.ob('confined', 'reset in ' + b.name, okz, 'a function changes the counters other than by adding a diagnostic or clearing everything: %s' % (dict(d),))
    # levels
    class L(ai.Client):
        want = None

        def known(self, I, t):
            if t.t == 'fld' and t.a[3] == 'ignore_warnings' and self.flag is not None:
                return ('=', self.flag)

        def inline(self, I, b):
            return bin_or_small(I, b)

        def agg(self, I, st, ctx, path, variant, ops):
            if path == DIAG:
                i = adt_field_index(P, DIAG, 'reporting_level')
                v = I.canon(st, ops[i])
                self.seen.append(v)

        def call(self, I, st, ctx, name, args, cal):
            if name.endswith('Context::new'):
                self.seen.append(I.canon(st, args[0]))
                self.n += 1
                return [(st, mk('sym', 'ctx', ctx.inst('ctx')))]
            return None
    lvl = {v['name']: i for i, v in enumerate(P.adts[LVL]['variants'])}
    roots = [(b, f) for b in C.bin() if b.parent is None and any('def' in c[1] and norm(c[1]['def']).endswith('Context::new') for c in P.calls(b)) for f in (TRUE, FALSE)]
    cs = P.fn('compile_str')
    roots.append((cs, None))
    C.floor('contexts created with a level', len(roots), 3)
    for b, flag in roots:
        cl = L()
        cl.flag, cl.seen, cl.n = flag, [], 0
        C.explore(b, cl, cap=200)
        want = 'Error' if flag is TRUE else 'Warning'
        C.ob('level', '%s ignore_warnings=%s' % (b.name, {None: '-', TRUE: 'yes', FALSE: 'no'}[flag]),
             cl.seen and all(v.t == 'adt' and v.a[0].endswith('ReportingLevel') and v.a[1] == lvl[want] for v in cl.seen),
             'the reporting level is %s instead of %s' % ([show(v) for v in cl.seen], want))
    C.assumptions.append('counters do not overflow 32 bits')


def strip_d(t):
    while t.t in ('deref', 'hv'):
        t = t.a[0] if t.t == 'deref' else t.a[1]
    return t


# ------------------------------------------------------------------ buffered output

BUF = ('std::io::BufWriter', 'std::io::LineWriter', 'std::io::Stdout', 'std::io::StdoutLock')


@prop('P12')
def p12(C):
    """Typestate of buffered writers in the command line: written, then flushed successfully, before success is reported."""
    P = C.P
    C.rule('flush', 'after rendering into a buffered writer, success is returned only once the buffer has been flushed successfully')
    C.rule('propagate', 'a failed write, flush or file creation makes the function fail')
    C.rule('all-written', 'after an error-free compilation every collected output is written before success is returned')
    n = 0
    sites = {}
    for b in C.bin():
        for i, cal, args, dest, span in P.calls(b):
            if 'def' in cal and norm(cal['def']).endswith('Context>::render'):
                sites[C.owner(b).id] = C.owner(b)
    C.floor('rendering functions of the command line', len(sites), 2)
    for f, b in sorted(sites.items()):
        class W(Small):
            def call(self, I, st, ctx, name, args, cal):
                if name.endswith('Context>::render'):
                    C.count('render calls')
                    ty = self.wty(ctx, args, cal)
                    s2 = st.copy()
                    s2.mon = (st.mon[0], True)
                    if ty:
                        st.mon = (True, st.mon[1])
                    return [(st, ok(UNIT)), (s2, err(mk('sym', 'io error', ctx.inst('io'))))]
                short = name.rsplit('::', 1)[-1]
                if name.startswith(('std::io::', 'std::fs::')) and short in ('flush', 'into_inner', 'sync_all', 'sync_data', 'create', 'create_dir_all', 'write_all', 'write_fmt'):
                    s2 = st.copy()
                    s2.mon = (st.mon[0], True)
                    s1 = st
                    if short in ('flush', 'into_inner'):
                        s1.mon = (False, st.mon[1])
                    r = mk('sym', name, ctx.inst('okv'))
                    return [(s1, ok(UNIT if short in ('flush', 'write_all', 'write_fmt', 'create_dir_all') else r)),
                            (s2, err(mk('sym', 'io error', ctx.inst('io'))))]
                return None

            def wty(self, ctx, args, cal):
                for bb, cal2, a2, d2, sp in P.calls(ctx.body):
                    if cal2 is cal or ('def' in cal2 and sp == ctx.span and norm(cal2['def']).endswith('Context>::render')):
                        for a in a2:
                            if a[0] in ('c', 'm'):
                                s = ctx.body.types[ctx.body.locals[a[1][0]][0]]['s']
                                if any(x in s for x in BUF):
                                    return s
                return None
        outs = C.explore(b, W(), mon=(False, False), cap=300)
        I = C.lastI
        for st, r in outs:
            r = I.canon(st, r)
            good = I.ev(st, I.disc(st, r, RES)) is not I_(1)
            n += 1
            if good:
                C.ob('flush', 'success of ' + b.name, not st.mon[0], 'success is returned although buffered output was not flushed (errors are lost when the buffer is dropped)')
                C.ob('propagate', 'success of ' + b.name, not st.mon[1], 'success is returned although an output operation failed')
    C.floor('ends of rendering functions', n, 2)
    C.floor('render calls', C.counts.get('render calls', 0), 2)
    # every output is written
    files = {f for f in sites if any('def' in c[1] and norm(c[1]['def']).startswith('std::fs::') for c in P.calls(sites[f]))}
    comp = compilers(C)
    tops = []
    for b in C.bin():
        if b.parent is None and any('def' in c[1] and (c[1].get('rid') or c[1].get('id')) in comp and norm(c[1]['def']).endswith('load_uncached') for c in P.calls(b)):
            tops.append(b)
    C.floor('command-line functions that compile files', len(tops), 1)
    for b in tops:
        class E(Small):
            """mon = (written since the item was taken, iteration state)"""
            def call(self, I, st, ctx, name, args, cal):
                short = name.rsplit('::', 1)[-1]
                if short in REMOVERS and name.startswith(('std::', 'core::', 'alloc::')) and args:
                    v = I.ld(st, args[0]) if args[0].t == 'ref' else args[0]
                    if not name.startswith('std::mem::') and any(is_out(x) for x in subterms(v)):
                        C.ob('all-written', '%s in %s' % (short, C.owner(ctx.body).name), False, 'a collected output is removed before the outputs are written', ctx.where())
                if short == 'next' and name.startswith('std::'):
                    it = I.ld(st, args[0]) if args[0].t == 'ref' else args[0]
                    if not any(is_out(x) for x in subterms(it)):
                        return None
                    if st.mon[1] == 'item' and not st.mon[0]:
                        C.ob('all-written', 'iteration in ' + ctx.body.name, False, 'a collected output is skipped', ctx.where())
                    outs = I.call_ext(st, ctx, name, args, cal)
                    for s, r in outs:
                        s.mon = (False, 'item' if r.t == 'adt' and r.a[1] == 1 else 'end')
                    return outs
                if name.startswith('std::fs::') and short in ('create', 'write'):
                    st.mon = (True, st.mon[1])
                if short in ('try_for_each', 'for_each') and args and any(is_out(x) for x in subterms(I.ld(st, args[0]) if args[0].t == 'ref' else args[0])):
                    outs = I.call_ext(st, ctx, name, args, cal)
                    for s, r in outs:
                        s.mon = (True, 'end')
                    return outs
                return None
        outs = C.explore(b, E(), mon=(False, ''), cap=300)
        I = C.lastI
        m = 0
        for st, r in outs:
            r = I.canon(st, r)
            if r.t == 'adt' and r.a[0] == RES and r.a[1] == 0:
                v = r.a[2][0]
                vn = VNAMES(v.a[0], v.a[1]) if v.t == 'adt' else None
                if vn and 'Ok' in vn:
                    m += 1
                    C.ob('all-written', 'success of ' + b.name, st.mon[1] == 'end', 'success is returned before all outputs were written %s' % (st.mon,))
        C.floor('success ends with output', m, 1)


REMOVERS = ('skip', 'take', 'step_by', 'take_while', 'skip_while', 'filter', 'filter_map', 'map_while', 'nth', 'pop', 'truncate', 'remove', 'swap_remove',
            'retain', 'drain', 'clear', 'dedup', 'dedup_by', 'dedup_by_key', 'split_off', 'find', 'find_map', 'last', 'reduce')


def is_out(x):
    return x.t == 'ref' and any(e[0] == 'f' and 'OutFiles' in str(e[3]) for e in x.a[1]) or x.t == 'fld' and 'OutFiles' in str(x.a[2]) or \
        x.t == 'fld' and x.a[3] == 'out' or x.t == 'app' and x.a[0] == 'take_iter' or x.t == 'sym' and 'take_iter' in str(x.a[0])
