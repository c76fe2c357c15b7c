"""Rule context: obligations, violations, exploration helpers shared by the property rules."""
import os, time
import prog, ai, terms
from terms import *
from prog import norm

CTX = 'compiler::context::Context'
DIAG = 'errors::sink_base::DiagnosticSink'
HTML = 'compiler::html::HTML'


class Check:
    def __init__(self, pid, tier='quick'):
        self.id = pid
        self.tier = tier
        self.P = prog.program()
        self.obs = []          # (rule, key, ok, detail, where)
        self.explored = []     # (function, paths, steps)
        self.counts = {}
        self.rules = {}
        self.notes = []
        self.assumptions = []

    # -- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, key, ok, detail='', where=''):
        """one decided obligation; `key` identifies the construct without line numbers"""
        self.obs.append((rule, key, bool(ok), detail, where))
        return ok

    def floor(self, name, n, least, what=''):
        """vacuity guard: the construct the rule is about must exist"""
        self.counts[name] = n
        self.obs.append(('vacuity', name, n >= least,
                         'the analysis found %d %s (needs at least %d): the construct this property is about has disappeared'
                         % (n, what or name, least), ''))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # -- exploration
    def explore(self, body, client, **kw):
        limit = kw.pop('limit', 400000)
        cap = kw.pop('cap', None)
        I = ai.Interp(self.P, client, limit)
        if cap:
            I.CAP = cap
        client.I = I
        outs = I.run(body.id, **kw)
        self.explored.append((body.name, len(outs), I.steps, len(I.visited)))
        self.lastI = I
        return outs

    def loc(self, span):
        return '%s:%s' % (span[0], span[1]) if span else ''

    def lib(self):
        return [b for b in self.P.bodies.values() if b.crate == 'papyri_lang']

    def bin(self):
        return [b for b in self.P.bodies.values() if b.crate != 'papyri_lang']

    def owner(self, b):
        """outermost enclosing function of a closure"""
        while b.parent and b.parent in self.P.bodies:
            b = self.P.bodies[b.parent]
        return b


def calls_of(P, pred, bodies=None):
    """call sites and function references whose callee path satisfies pred -> (body, name, span)"""
    for b in (bodies if bodies is not None else P.bodies.values()):
        for i, cal, args, dest, span in P.calls(b):
            if 'def' in cal and pred(norm(cal['def'])):
                yield b, norm(cal['def']), span
        for path, id in P.fn_refs(b):
            if path and pred(norm(path)):
                yield b, norm(path), b.span


# ---- effects of external functions
FS_WRITE = ('std::fs::write', 'std::fs::File::create', 'std::fs::OpenOptions', 'std::fs::File::options', 'std::fs::create_dir', 'std::fs::remove_',
            'std::fs::DirBuilder', 'std::fs::rename', 'std::fs::copy', 'std::fs::set_permissions', 'std::fs::hard_link', 'std::fs::soft_link',
            'std::os::unix::fs::', 'std::fs::File::set_', 'std::fs::exists_')
FS_READ = ('std::fs::', 'std::path::Path::canonicalize', 'std::path::Path::exists', 'std::path::Path::try_exists',
           'std::path::Path::is_dir', 'std::path::Path::is_file', 'std::path::Path::is_symlink', 'std::path::Path::metadata',
           'std::path::Path::symlink_metadata', 'std::path::Path::read_dir', 'std::path::Path::read_link', 'walkdir::WalkDir', 'glob::glob',
           'std::os::')
NET = ('reqwest::', 'std::net::', 'hyper::', 'tokio::', 'h2::', 'http::', 'ureq::')
PROC = ('std::process::Command', 'std::process::Child', 'std::os::unix::process')
EXIT = ('std::process::exit', 'std::process::abort')
STDOUT = ('std::io::_print', 'std::io::stdout', 'std::io::Stdout', 'std::io::stdio::stdout', 'std::io::stdio::_print')
STDERR = ('std::io::_eprint', 'std::io::stderr', 'std::io::Stderr')
STDIN = ('std::io::stdin', 'std::io::Stdin', 'std::io::read_to_string')
ENV = ('std::env::',)
TIME = ('std::time::', 'std::thread::', 'rand::', 'getrandom::', 'chrono::', 'uuid::', 'std::collections::hash_map::RandomState', 'std::hash::random')


def starts(*groups):
    ps = tuple(p for g in groups for p in g)
    return lambda n: n.startswith(ps)


def is_fs(n):
    return n.startswith(FS_READ) or n.startswith(FS_WRITE)


def fields_in(t):
    """(adt, field) pairs projected anywhere in the term"""
    return {(x.a[2], x.a[3]) for x in subterms(t) if x.t == 'fld'}


def has_field(t, adt_path, name):
    for x in subterms(t):
        if x.t == 'fld' and x.a[2] == adt_path and x.a[3] == name:
            return True
        if x.t == 'ref' and any(e[0] == 'f' and e[3] == adt_path and e[2] == name for e in x.a[1]):
            return True
    return False


def field_fact(I, st, adt_path, name):
    """constant known for a term that is exactly field adt.name, from the path facts (None: unknown)"""
    for k, v in st.facts.items():
        t = k
        while t.t in ('hv',):
            t = t.a[1]
        if t.t == 'fld' and t.a[2] == adt_path and t.a[3] == name and v[0] == '=':
            return v[1]
    return None


def field_bounds(I, st, adt_path, name):
    """best interval known for any value of field adt.name on this path -> (lo, hi)"""
    lo = hi = None
    for k in st.facts:
        t = k.a[0] if k.t == 'iv' else k
        if t.t == 'fld' and t.a[2] == adt_path and t.a[3] == name:
            a, b = I.iv(st, t)
            lo = a if lo is None or (a is not None and a > lo) else lo
            hi = b if hi is None or (b is not None and b < hi) else hi
    return lo, hi


def about(*names):
    """relevance predicate: facts about fields with these names"""
    def f(t):
        if t.t == 'iv':
            t = t.a[0]
        while t.t in ('lt', 'eq', 'not', 'disc', 'hv', 'and', 'or'):
            nxt = None
            for x in t.a:
                if isinstance(x, T) and x.t != 'i' and x.t != 'inst':
                    nxt = x
                    break
            if nxt is None:
                return False
            t = nxt
        return t.t == 'fld' and t.a[3] in names
    return f


def adt_field_index(P, path, name):
    a = P.adts[path]
    for i, f in enumerate(a['variants'][0]['fields']):
        if (f[0]) == name:
            return i
    return None


def variant_name(P, path, vi):
    return P.adts[path]['variants'][vi]['name']


class Guarded(ai.Client):
    """Which functions can perform an effect on a path where `fact(I, st)` does not hold?
    Used bottom-up: a function all of whose effect sites are dominated by the fact is 'guarded'."""
    def __init__(self, effect, fact, carriers, inl=None):
        self.effect, self.fact, self.carriers = effect, fact, carriers
        self.inl = inl
        self.sites = {}

    def inline(self, I, body):
        r = self.inl(I, body) if self.inl else None
        return ai.Client.inline(self, I, body) if r is None else r

    def _hit(self, I, st, ctx, what):
        ok = self.fact(I, st)
        k = (what, ctx.body.name)
        old = self.sites.get(k)
        self.sites[k] = (ok and (old[0] if old else True), ctx.where() if not ok else (old[1] if old else ctx.where()))

    def call(self, I, st, ctx, name, args, cal):
        if self.effect(name):
            self._hit(I, st, ctx, name)
        return None

    def opaque(self, I, st, ctx, body, args):
        if body.id in self.carriers:
            self._hit(I, st, ctx, body.name)
        for a in args:
            for x in subterms(a):
                if x.t == 'clo' and x.a[0] in self.carriers:
                    self._hit(I, st, ctx, 'closure passed to ' + body.name)
        return None


def guard_closure(C, effect, fact, bodies, inl=None, cap=None, relevant=None):
    """-> (unguarded: uid -> explanation, guarded: uid -> sites). Bottom-up over the call graph: the functions that
    can reach the effect without establishing the fact themselves."""
    P = C.P
    unguarded, guarded = {}, {}
    direct = {b.id for b in bodies for i, cal, a, d, s in P.calls(b) if 'def' in cal and effect(norm(cal['def']))}
    direct |= {b.id for b in bodies for path, _ in P.fn_refs(b) if path and effect(norm(path))}
    cg = P.call_graph()
    rev = {}
    for a, ss in cg.items():
        for s in ss:
            rev.setdefault(s, set()).add(a)
    ids = {b.id for b in bodies}
    work = sorted(direct)
    seen = set()
    while work:
        f = work.pop(0)
        if f in unguarded or f not in ids:
            continue
        b = P.bodies[f]
        if b.kind == 'closure' or b.parent:
            # closures are judged as part of the function that creates them
            o = C.owner(b).id
            unguarded[f] = 'closure of ' + P.bodies[o].name
            for c in rev.get(f, ()):
                work.append(c)
            continue
        cl = Guarded(effect, fact, dict(unguarded), inl)
        cl.relevant = relevant
        C.explore(b, cl, cap=cap)
        bad = {k: v[1] for k, v in cl.sites.items() if not v[0]}
        if bad:
            unguarded[f] = bad
            guarded.pop(f, None)
            for c in rev.get(f, ()):
                work.append(c)
        else:
            guarded[f] = cl.sites
    return unguarded, guarded


def constructors(C, path):
    """functions containing an aggregate of the given type"""
    return {b.id for b in C.P.bodies.values() if any(s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and norm(s[2][1][1]) == path
                                                   for blk in b.blocks if not blk['c'] for s in blk['s'])}


def stmts(b):
    for blk in b.blocks:
        if not blk['c']:
            for s in blk['s']:
                if s[0] == '=':
                    yield s


def field_writes(C, names, bodies=None):
    """direct assignments to / mutable borrows of a field with one of these names -> (body, name, kind, rvalue, span)"""
    for b in (bodies if bodies is not None else C.P.bodies.values()):
        for s in stmts(b):
            fs = [e for e in s[1][1:] if isinstance(e, list) and e[0] == 'f']
            if fs and fs[-1][2] in names:
                yield b, fs[-1][2], 'store', s[2], s[3]
            if s[2][0] == 'ref' and s[2][1]:
                fs = [e for e in s[2][2][1:] if isinstance(e, list) and e[0] == 'f']
                if fs and fs[-1][2] in names:
                    yield b, fs[-1][2], 'borrow', s[2], s[3]
        for blk in b.blocks:
            if not blk['c'] and blk['t'][0] == 'call':
                fs = [e for e in blk['t'][3][1:] if isinstance(e, list) and e[0] == 'f']
                if fs and fs[-1][2] in names:
                    yield b, fs[-1][2], 'store', ['call'], blk['t'][6]


def field_changes(C, adt, bodies=None):
    """direct assignments to / mutable borrows of (a place within) a field of this type -> (body, field, span)"""
    P = C.P

    def owner(b, pl):
        ts, out = b.types, []
        t = ts[b.locals[pl[0]][0]]
        for e in pl[1:]:
            if e == '*':
                t = None if t is None else ts[t['t']] if t['k'] in ('ref', 'ptr') else ts[t['a'][0]] if t['k'] == 'adt' and t.get('a') else None
            elif e[0] == 'f':
                if t is not None and t['k'] == 'adt' and norm(t['p']) == adt:
                    out.append(e[2])
                t = ts[e[3]] if len(e) > 3 and e[3] is not None else None
            elif e[0] in ('i', 'ci'):
                t = ts[t['t']] if t is not None and t['k'] in ('slice', 'array') and isinstance(t.get('t'), int) else None
        return out
    for b in (bodies if bodies is not None else P.bodies.values()):
        if b.kind == 'promoted':
            continue
        for s in stmts(b):
            for f in owner(b, s[1]):
                yield b, f, s[3]
            if s[2][0] in ('ref', 'rawref') and s[2][1]:
                for f in owner(b, s[2][2]):
                    yield b, f, s[3]
        for blk in b.blocks:
            if not blk['c'] and blk['t'][0] == 'call':
                for f in owner(b, blk['t'][3]):
                    yield b, f, blk['t'][6]


def producers(I, t, depth=0):
    """the values an element of collection term t can be: pushes, collected iterators, literal arrays.
    -> (list of element terms, list of leaf collections of unknown content)"""
    els, leaves = [], []
    work, seen = [t], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.t == 'arr':
            els += list(x.a[0])
        elif x.t == 'app' and x.a[0] in ('push', 'insert'):
            work.append(x.a[1])
            els.append(x.a[-1])
        elif x.t == 'app' and x.a[0] == 'collect' and len(x.a) > 2:
            els += list(x.a[2].a)
        elif x.t == 'app' and x.a[0] in ('extend', 'append'):
            work.append(x.a[1])
            y = x.a[2]
            if y.t == 'iter':
                leaves.append(y)
            else:
                work.append(y)
        elif x.t == 'app' and x.a[0] in ('reverse', 'sort', 'popped', 'truncate', 'default', 'clear'):
            if len(x.a) > 1 and x.a[0] != 'default':
                work.append(x.a[1])
        elif x.t == 'hv' and isinstance(x.a[0], T) and x.a[2] is ai.ALL:
            leaves.append(x)
        else:
            leaves.append(x)
    return els, leaves


def resolve(I, t, depth=0):
    """expand element-of-collection terms into the possible element values"""
    if depth > 6:
        return [t]
    if t.t == 'fld':
        out = []
        for b in resolve(I, t.a[0], depth + 1):
            x = I.project(b, ('f', t.a[1], t.a[3], t.a[2], None))
            out += [x] if x is t else resolve(I, x, depth + 1)
        return out
    if t.t in ('idx',):
        els, leaves = producers(I, t.a[0])
        if not els:
            return [t]
        out = []
        for e in els:
            out += resolve(I, e, depth + 1)
        return out + [mk('idx', l, t.a[1]) for l in leaves if l is not t.a[0]]
    return [t]


def walk_path(t):
    """strip wrappers that do not change which file a path value names"""
    while True:
        if t.t == 'hv' and isinstance(t.a[0], T) and t.a[0].t == 'inst' and 'set_extension' in str(t.a[0].a[2]):
            t = t.a[1]
        elif t.t == 'app' and t.a[0].endswith('with_extension'):
            t = t.a[1]
        elif t.t in ('deref', 'box'):
            t = t.a[0]
        elif t.t == 'app' and t.a[0] in ('lossy',):
            t = t.a[1]
        else:
            return t


def confined_rel(t, base=None):
    """t is the remainder of a normalised path after stripping a prefix (so it cannot climb out)"""
    t = walk_path(t)
    if t.t == 'fld' and t.a[0].t == 'as':
        t = t.a[0].a[0]
    if t.t == 'app' and t.a[0].endswith('strip_prefix'):
        n = t.a[1]
        if n.t == 'app' and n.a[0].endswith('::normalize'):
            return True if base is None else (base is t.a[2])
    return False


# ---- interned names
NAMEID = 'utils::string_pool::NameID'


def str_arrays(P):
    """string-slice statics: name -> [literals]"""
    out = {}
    for b in P.bodies.values():
        if b.kind == 'promoted':
            for s in stmts(b):
                if s[2][0] == 'agg' and s[2][1][0] == 'array':
                    vs = [o[1].get('val', {}) if o[0] == 'k' else {} for o in s[2][2]]
                    if vs and all('str' in (v or {}) for v in vs):
                        out.setdefault(b.name, [v['str'] for v in vs])
    return out


def names(P):
    """the strings that are always interned, in order"""
    for k, v in str_arrays(P).items():
        if k.endswith('CONST_STRS'):
            return v
    return []


def raw_int(v):
    """the scalar at the bottom of a chain of newtypes"""
    while isinstance(v, dict):
        if 'int' in v:
            return v['int']
        if 'f' in v and len(v['f']) == 1:
            v = v['f'][0]
        else:
            return None
    return None


def str_ids(P):
    """constant name -> (raw encoding, interned string)"""
    ns = names(P)
    out = {}
    for k, c in P.consts.items():
        if isinstance(c, tuple):
            c = c[0] if isinstance(c[0], dict) else c[1]
        if '::str_ids::' in k:
            r = raw_int(c.get('val'))
            if r is not None:
                i = r ^ 0xffffffff
                out[k.rsplit('::', 1)[1]] = (r, ns[i] if i < len(ns) else None)
    return out


def bare(t):
    while t.t == 'hv' and isinstance(t.a[1], T):
        t = t.a[1]
    return t


def name_field(t, adt, field):
    """t is the raw scalar inside <adt>.<field>, a NameID"""
    n = 0
    t = bare(t)
    while t.t == 'fld' and n < 6:
        if t.a[2] == adt and t.a[3] == field:
            return True
        t = bare(t.a[0])
        n += 1
    return False
