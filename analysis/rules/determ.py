"""Determinism and independence: what the outcome of a compilation may depend on."""
from rules import prop
from rulelib import *

TIME = ('std::time::', 'std::fs::Metadata::modified', 'std::fs::Metadata::created', 'std::fs::Metadata::accessed', 'chrono::', 'time::')
ENV = ('std::env::',)
RAND = ('rand::', 'fastrand::', 'getrandom::', 'rand_core::', 'rand_chacha::', 'rand_pcg::', 'std::hash::RandomState', 'std::collections::hash_map::RandomState',
        'std::hash::random::RandomState', 'uuid::')
THREAD = ('std::thread::', 'rayon::', 'crossbeam', 'std::sync::mpsc', 'threadpool::', 'tokio::')
PROCID = ('std::process::id', 'std::os::unix::process::', 'std::any::type_id', 'std::any::TypeId::of')
ADDR = ('as_ptr', 'as_mut_ptr', 'into_raw', 'from_ref', 'addr', 'expose_provenance', 'addr_of')
HASHITER = ('hash_map::', 'hash_set::', 'hash::map::', 'hash::set::')
LISTING = ('walkdir::', 'glob::glob', 'std::fs::read_dir', 'std::path::Path::read_dir', 'ignore::Walk')
MUTABLE = ('cell::Cell<', 'cell::RefCell<', 'cell::UnsafeCell<', 'cell::OnceCell<', 'Mutex<', 'RwLock<', 'sync::atomic::', 'OnceLock<', 'OnceCell<',
           'LocalKey<', 'LazyCell<', 'unsync::Lazy<')


def listing_call(name):
    return name.startswith(LISTING) and ('into_iter' in name or name.startswith(('glob::glob', 'std::fs::read_dir', 'std::path::Path::read_dir')))


class Lists(ai.Client):
    """has what was last read from the file system been put into a fixed order?"""
    def __init__(self, C, unsorted):
        self.C, self.un = C, unsorted
        self.n = 0

    def mark(self, st, v):
        m = dict(st.mon)
        m['raw'] = v
        st.mon = tuple(sorted(m.items()))

    def call(self, I, st, ctx, name, args, cal):
        full = name
        t = cal.get('a')
        tys = [ctx.body.types[x]['s'] for x in t if isinstance(x, int) and x < len(ctx.body.types)] if t else []
        if listing_call(name) or name == 'std::iter::IntoIterator::into_iter' and tys and tys[0].startswith(('walkdir::WalkDir', 'glob::Paths', 'std::fs::ReadDir')):
            self.n += 1
            self.mark(st, True)
        last = name.rsplit('::', 1)[-1]
        if last.startswith('sort') or 'BTreeSet' in name or 'BTreeMap' in name:
            self.mark(st, False)
        if any(x.startswith(('std::collections::BTreeSet', 'std::collections::BTreeMap')) for x in tys[-1:]) and last in ('collect', 'from_iter'):
            self.mark(st, False)
        return None

    def opaque(self, I, st, ctx, body, args):
        if body.id in self.un:
            self.n += 1
            self.mark(st, True)
        return None


def is_end(P, b):
    return any('compiler::value::Value' in b.types[l[0]]['s'] for l in b.locals[:1])


def listings(C):
    """functions that hand out what they read from the file system in the order in which they read it, bottom-up"""
    P = C.P
    direct = set()
    for b in P.bodies.values():
        for i, cal, a, d, s in P.calls(b):
            if 'def' not in cal:
                continue
            n = norm(cal['def'])
            tys = [b.types[x]['s'] for x in cal.get('a') or [] if isinstance(x, int) and x < len(b.types)]
            if listing_call(n) or n == 'std::iter::IntoIterator::into_iter' and tys and tys[0].startswith(('walkdir::WalkDir', 'glob::Paths', 'std::fs::ReadDir')):
                direct.add(C.owner(b).id)
    rev = {}
    for a, ss in P.call_graph().items():
        for s in ss:
            rev.setdefault(s, set()).add(a)
    un, seen = {}, {}
    work = sorted(direct)
    while work:
        f = work.pop(0)
        o = C.owner(P.bodies[f])
        if seen.get(o.id, -1) == len(un):
            continue
        seen[o.id] = len(un)
        cl = Lists(C, set(un))
        bad = []
        outs = C.explore(o, cl, st=ai.State(mon=(('raw', False),)))
        for st, r in outs or []:
            if dict(st.mon).get('raw'):
                v = r
                if v is not None and v.t == 'adt' and v.a[0].startswith('std::result::Result') and v.a[1] == 1:
                    continue
                bad.append(show(v))
        if bad and o.id not in un:
            un[o.id] = bad
            if is_end(P, o):
                continue
            work += sorted(rev.get(o.id, ()))
    return direct, un, rev


def mentions(P, types, i, seen=None):
    """type names this type is made of (definitions of the program's own types included)"""
    seen = set() if seen is None else seen
    t = types[i]
    if t['s'] in seen:
        return seen
    seen.add(t['s'])
    if t['k'] == 'adt':
        a = P.adts.get(t['p'])
        if a and a.get('local'):
            ts = P.types[a['crate']]
            for v in a['variants']:
                for f in v['fields']:
                    mentions(P, ts, f[1], seen)
    for k in ('t',):
        if isinstance(t.get(k), int):
            mentions(P, types, t[k], seen)
    for x in t.get('a') or []:
        if isinstance(x, int):
            mentions(P, types, x, seen)
    return seen


@prop('P22')
def p22(C):
    """Who-may-call over every source of variation (clock, environment, randomness, threads, addresses, hash order) in the program; type of
    every global; typestate over listings read from the file system; contents of the context's memory when a source is loaded."""
    P = C.P
    C.rule('sources', 'no clock, environment variable, random number, thread or process number is asked for; the command line asks only for its '
           'working directory, and for times of files only when told to skip unchanged ones')
    C.rule('addresses', 'no address of memory becomes a value')
    C.rule('hash-order', 'nothing iterates over a collection whose order depends on a random hash')
    C.rule('globals', 'no global can change after it was initialised')
    C.rule('listing', 'lists of files are put into a fixed order before they are used')
    C.rule('reset', 'when the command line loads a source there are no diagnostics and no identifiers left from the source before')
    progs = list(P.bodies.values())
    C.counts['functions'] = len(progs)
    nb = 0

    def skipping(I, st):
        return field_fact(I, st, 'ProgramArgs', 'skip_unchanged') is TRUE

    for b, n, span in calls_of(P, lambda n: True):
        nb += 1
        o = C.owner(b)
        lib = b.crate == 'papyri_lang'
        key = '%s:%s' % (o.name, n)
        if n.startswith(RAND + THREAD + PROCID):
            C.ob('sources', key, False, 'uses ' + n, C.loc(span))
        elif n.startswith(ENV):
            ok = not lib and n in ('std::env::current_dir', 'std::env::args', 'std::env::args_os')
            C.ob('sources', key, ok, 'asks the environment: ' + n, C.loc(span))
        elif n.startswith(TIME) and lib:
            C.ob('sources', key, False, 'asks for the time: ' + n, C.loc(span))
        last = n.rsplit('::', 1)[-1]
        if last in ADDR and n.startswith(('std::', 'core::', 'alloc::')) and 'slice::from_ref' not in n and 'array::from_ref' not in n:
            C.ob('addresses', key, False, 'takes an address: ' + n, C.loc(span))
        if 'fmt::Pointer' in n or 'new_pointer' in n:
            C.ob('addresses', key, False, 'prints an address', C.loc(span))
    C.counts['call sites'] = nb
    C.floor('call sites', nb, 1500)
    # times of files
    istime = lambda n: n.startswith(TIME)
    ung, gd = guard_closure(C, istime, skipping, C.bin())
    for b in C.bin():
        if b.name == 'main':
            C.ob('sources', 'times of files', b.id not in ung, 'times of files are looked at although --skip-unchanged was not given', '')
    # raw pointers to integers, function items to integers
    for b in progs:
        for s in stmts(b):
            if s[2][0] == 'cast' and ('Expose' in s[2][1] or 'Transmute' in s[2][1] and b.types[s[2][4]]['s'] in ('usize', 'u64', 'isize', 'i64')
                                      and b.types[s[2][3]]['k'] in ('ptr', 'ref')):
                C.ob('addresses', 'cast in ' + C.owner(b).name, False, 'an address becomes a number', C.loc(s[3]))
    # hash order
    for b in progs:
        for l in b.locals:
            s = b.types[l[0]]['s']
            if any(h in s for h in HASHITER) and 'indexmap' not in s and any(x in s for x in ('std::collections', 'hashbrown', 'core::collections')):
                C.ob('hash-order', 'in ' + C.owner(b).name, False, 'iterates in hash order: ' + s, C.loc(b.raw.get('span')))
        for i, cal, a, d, sp in P.calls(b):
            tys = [b.types[x]['s'] for x in cal.get('a') or [] if isinstance(x, int) and x < len(b.types)]
            if any('RandomState' in t for t in tys):
                last = norm(cal.get('def', '?')).rsplit('::', 1)[1]
                bad = last in ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_iter', 'into_keys', 'into_values', 'fmt', 'retain', 'hash_one')
                C.ob('hash-order', '%s:%s' % (C.owner(b).name, last), not bad, 'depends on the order of a randomly seeded hash', C.loc(sp))
    # globals
    ng = 0
    for b in progs:
        if b.kind == 'static' or b.kind == 'const':
            t = b.locals[0][0]
            full = b.types[t]['s']
            if b.kind == 'const' and not any(x in full for x in ('LocalKey', 'thread')):
                continue
            if b.crate != 'papyri_lang' and b.crate != 'papyri':
                continue
            ng += 1
            inner = full
            lazy = full.startswith(('once_cell::sync::Lazy<', 'std::sync::LazyLock<', '&std::sync::LazyLock<'))
            if lazy:
                # initialised once, from nothing but constants
                ms = set()
                for x in b.types[t].get('a') or []:
                    if isinstance(x, int) and b.types[x]['k'] == 'adt':
                        ms |= mentions(P, b.types, x)
            else:
                ms = mentions(P, b.types, t)
            bad = [m for m in ms if any(x in m for x in MUTABLE) and not m.startswith(('once_cell::sync::Lazy<', 'std::sync::LazyLock<'))]
            C.ob('globals', b.name, not bad, 'a global that can change: %s' % (bad or full), C.loc(b.raw.get('span')))
    C.floor('globals', ng, 2)
    # listings
    direct, un, rev = listings(C)
    C.floor('functions that list files', len(direct), 2)
    roots = {b.id for b in C.bin() if b.name == 'main'}
    for f in sorted(direct | set(un)):
        o = C.owner(P.bodies[f])
        callers = {C.owner(P.bodies[x]).id for x in rev.get(o.id, ()) if x in P.bodies} - {o.id}
        # a helper may leave the order to its callers; a built-in function or the command line may not
        ok = o.id not in un or bool(callers) and f not in roots and not is_end(P, o)
        C.ob('listing', o.name, ok, 'files are used in the order in which the file system lists them: %s' % un.get(o.id, [])[:1], C.loc(o.raw.get('span')))
    # the state a source starts with
    UID = [a for a in P.adts if a.endswith('UniqueIDGenerator')]
    names_ = {a: P.field_names(a) for a in [DIAG, CTX] + UID}
    loads = {b.id for b in P.bodies.values() if b.name.endswith('load_uncached')}
    C.floor('loading a source', len(loads), 1)
    load_rev = P.rev_reach(loads)
    seen = [0]

    class Fresh(ai.Client):
        def inline(s, I, body):
            if body.id in loads or body.name.endswith('compile_synthetic'):
                return False
            return I.reach_size(body.id) <= 60

        def opaque(s, I, st, ctx, body, args):
            if body.id not in loads:
                return None
            seen[0] += 1
            r, p = I.deref(args[0])
            rd = lambda *path: I.rd(st, r, p + path)

            def fld(adt, name):
                i = names_[adt].index(name)
                return ('f', i, name, adt)
            bad = []
            d = fld(CTX, 'diagnostics')
            for nm in names_[DIAG]:
                ty = P.field_type(DIAG, nm)
                v = I.canon(st, rd(d, fld(DIAG, nm)))
                if nm == 'reporting_level':
                    continue
                ok = v.t == 'i' and v.a[0] == 0 or v.t == 'arr' and not v.a[0] or v.t == 'app' and v.a[0] == 'default'
                if not ok:
                    bad.append('diagnostics.%s is %s' % (nm, show(v)))
            for u in UID:
                ids = [x for x in names_[CTX] if P.field_type(CTX, x) == u]
                for x in ids:
                    for nm in names_[u]:
                        v = I.canon(st, rd(fld(CTX, x), fld(u, nm)))
                        if not (v.t == 'arr' and not v.a[0] or v.t == 'i' and v.a[0] == 0 or v.t == 'app' and v.a[0] == 'default'):
                            bad.append('%s.%s is %s' % (x, nm, show(v)))
            C.ob('reset', 'load in ' + C.owner(ctx.body).name, not bad, 'a source is loaded while something is left of the one before: %s' % '; '.join(bad), ctx.where())
            return None
    fns = [b for b in C.bin() if b.kind == 'fn' and any(x in loads for x in P.call_graph().get(b.id, ()))]
    C.floor('command-line functions that load a source', len(fns), 1)
    for b in fns:
        C.explore(b, Fresh())
    C.floor('loads explored', seen[0], 1)
    C.assumptions += ['reading, parsing, matching and highlighting libraries are deterministic themselves']
