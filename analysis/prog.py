"""Program model over the extracted facts: bodies, types, call graph, loops, who-may-call."""
import re
from collections import defaultdict
import facts


def norm(p):
    return p.replace('papyri_lang::', '') if p else p


class Body:
    __slots__ = ('id', 'name', 'kind', 'span', 'argc', 'locals', 'blocks', 'crate', 'types', 'raw', 'parent',
                 '_succ', '_rpo', '_loops', '_size')

    def __init__(self, raw, crate, types):
        self.raw = raw
        self.id = raw['id']
        self.name = norm(raw['name'])
        self.kind = raw['kind']
        self.span = raw['span']
        self.argc = raw['argc']
        self.locals = raw['locals']
        self.blocks = raw['blocks']
        self.crate = crate
        self.types = types
        self.parent = raw.get('parent')
        self._succ = self._rpo = self._loops = self._size = None

    def ty(self, l):
        return self.types[self.locals[l][0]]

    @property
    def succ(self):
        if self._succ is None:
            out = []
            for b in self.blocks:
                out.append([] if b['c'] else list(dict.fromkeys(succ_of(b['t']))))
            self._succ = out
        return self._succ

    @property
    def size(self):
        if self._size is None:
            self._size = sum(1 for b in self.blocks if not b['c'])
        return self._size

    def order(self):
        """rpo index per block, and for every loop head its natural-loop body"""
        if self._rpo is None:
            succ = self.succ
            n = len(succ)
            post, state = [], [0] * n
            back = []
            stack = [(0, iter(succ[0]))]
            state[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if state[s] == 0:
                        state[s] = 1
                        stack.append((s, iter(succ[s])))
                        break
                    if state[s] == 1:
                        back.append((b, s))
                else:
                    stack.pop()
                    state[b] = 2
                    post.append(b)
            rpo = {b: i for i, b in enumerate(reversed(post))}
            preds = defaultdict(list)
            for b, ss in enumerate(succ):
                for s in ss:
                    preds[s].append(b)
            loops = {}
            for u, h in back:
                body = loops.setdefault(h, {h})
                work = [u]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += [p for p in preds[x] if p in rpo]
            self._rpo, self._loops = rpo, loops
        return self._rpo, self._loops


def succ_of(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    return []


class Program:
    def __init__(self):
        raw = facts.load()
        self.bodies = {}
        self.adts = {}
        self.consts = {}
        self.types = {}
        for crate, d in raw.items():
            ts = d['types']
            for t in ts:
                if 'p' in t and isinstance(t['p'], str):
                    t['p'] = norm(t['p'])
                t['s'] = norm(t['s'])
            self.types[crate] = ts
            for b in d['bodies']:
                bo = Body(b, crate, ts)
                self.bodies[bo.id] = bo
            for a in d['adts']:
                p = norm(a['path'])
                a['path'] = p
                a['crate'] = crate
                if p not in self.adts or (a['local'] and not self.adts[p]['local']):
                    self.adts[p] = a
            for c in d['consts']:
                self.consts[c['name']] = (c, ts)
        self.by_name = defaultdict(list)
        for b in self.bodies.values():
            self.by_name[b.name].append(b)
        self._cg = None
        self._kids = defaultdict(list)
        for b in self.bodies.values():
            if b.parent:
                self._kids[b.parent].append(b.id)
        self._impls = defaultdict(list)
        for b in self.bodies.values():
            tr = b.raw.get('trait')
            if tr and b.kind == 'fn':
                self._impls[(norm(tr), b.name.rsplit('::', 1)[1])].append(b)

    # ---- lookups
    def field_names(self, adt):
        a = self.adts.get(adt)
        return [f[0] for f in a['variants'][0]['fields']] if a else []

    def field_type(self, adt, field):
        for f in self.adts[adt]['variants'][0]['fields']:
            if f[0] == field and f[1] is not None:
                return self.types['papyri_lang'][f[1]]['s']
        return None

    def fns(self, suffix):
        """bodies of functions whose path ends in `suffix` (whole segments)"""
        out = []
        for n, bs in self.by_name.items():
            if n == suffix or n.endswith('::' + suffix):
                out += bs
        return out

    def fn(self, suffix):
        l = self.fns(suffix)
        return l[0] if len(l) == 1 else None

    def closures(self, id):
        return self._kids.get(id, [])

    # ---- call sites
    def calls(self, body):
        """(block, callee dict, args, dest, span) of each non-cleanup call"""
        for i, b in enumerate(body.blocks):
            if b['c']:
                continue
            t = b['t']
            if t[0] == 'call':
                yield i, t[1], t[2], t[3], t[6]

    def all_calls(self, crate=None):
        for b in self.bodies.values():
            if crate and b.crate != crate:
                continue
            for c in self.calls(b):
                yield (b,) + c

    def fn_refs(self, body):
        """function items / closures mentioned as values (not called directly)"""
        out = []

        def op(o):
            if o and o[0] == 'k':
                c = o[1]
                v = c.get('val')
                if isinstance(v, dict) and 'fn' in v:
                    out.append((v['fn'], v.get('id')))
                if 'fn' in c:
                    out.append((c['fn'], c.get('id')))
        for b in body.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s[0] == '=':
                    rv = s[2]
                    for x in rv[1:]:
                        if isinstance(x, list) and x and x[0] in ('k',):
                            op(x)
                        elif isinstance(x, list):
                            for y in x:
                                if isinstance(y, list) and y and y[0] == 'k':
                                    op(y)
                    if rv[0] == 'agg' and isinstance(rv[1], list) and rv[1][0] == 'closure':
                        out.append((None, rv[1][1]))
            if b['t'][0] == 'call':
                for a in b['t'][2]:
                    op(a)
        return out

    def call_graph(self):
        """uid -> set of local callee uids (calls, references, closures created, trait-dispatch candidates)"""
        if self._cg is None:
            cg = {}
            for b in self.bodies.values():
                s = set()
                for i, cal, args, dest, span in self.calls(b):
                    s |= set(self.targets(cal, b))
                for _, id in self.fn_refs(b):
                    if id in self.bodies:
                        s.add(id)
                for k in self.closures(b.id):
                    s.add(k)
                cg[b.id] = s
            self._cg = cg
        return self._cg

    def reach(self, roots, stop=()):
        cg = self.call_graph()
        seen, work = set(), [r for r in roots]
        while work:
            x = work.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            work += cg.get(x, ())
        return seen

    def rev_reach(self, targets, stop=()):
        """functions from which some target is reachable (without passing through stop)"""
        cg = self.call_graph()
        rev = defaultdict(set)
        for a, ss in cg.items():
            if a in stop:
                continue
            for s in ss:
                rev[s].add(a)
        seen, work = set(), list(targets)
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work += rev.get(x, ())
        return seen

    # ---- trait resolution
    def match_ty(self, pat, pts, ty, tts, sub):
        p, t = pts[pat], tts[ty]
        if p['k'] == 'param':
            n = p.get('n') or p['s']
            if n in sub:
                return sub[n] == t['s']
            sub[n] = t['s']
            return True
        if p['k'] != t['k']:
            return False
        if p['k'] == 'adt':
            if p['p'] != t['p']:
                return False
        elif p['k'] == 'ref':
            return p['m'] == t['m'] and self.match_ty(p['t'], pts, t['t'], tts, sub)
        elif p['k'] == 'slice':
            return self.match_ty(p['t'], pts, t['t'], tts, sub)
        elif p['k'] not in ('tuple',):
            return p['s'] == t['s']
        pa, ta = p.get('a') or [], t.get('a') or []
        if len(pa) != len(ta):
            return len(pa) == 0 or len(ta) == 0
        return all(self.match_ty(x, pts, y, tts, sub) for x, y in zip(pa, ta)
                   if isinstance(x, int) and isinstance(y, int))

    def find_impl(self, trait, method, self_ty, types, targ=None):
        """local impl body of trait::method for the given self type (and first trait argument)"""
        best = None
        for b in self._impls.get((trait, method), ()):
            st = b.raw.get('self')
            if st is None:
                continue
            sub = {}
            if not self.match_ty(st, b.types, self_ty, types, sub):
                continue
            if targ is not None:
                if b.argc < 1 or not self.match_ty(b.locals[1][0], b.types, targ, types, sub):
                    continue
            specific = b.types[st]['k'] != 'param'
            if best is None or specific:
                best = b
        return best

    def targets(self, cal, body):
        """possible local bodies of a call"""
        if 'ptr' in cal:
            return []
        rid = cal.get('rid') or cal.get('id')
        if rid in self.bodies:
            return [rid]
        d = cal.get('def', '')
        ts = body.types
        a = cal.get('a') or []
        out = []
        try:
            if d == 'std::convert::Into::into':
                b = self.find_impl('std::convert::From', 'from', a[1], ts, a[0])
                if b:
                    out.append(b.id)
            elif d.endswith('FromResidual::from_residual'):
                pass
            elif d == 'std::iter::Iterator::collect' and len(a) > 1:
                b = self.find_impl('std::iter::FromIterator', 'from_iter', a[1], ts)
                if b:
                    out.append(b.id)
            elif d == 'std::string::ToString::to_string':
                b = self.find_impl('std::fmt::Display', 'fmt', a[0], ts)
                if b:
                    out.append(b.id)
            elif 'Argument::<\'_>::new_display' in d or d.endswith('::new_display'):
                t = ts[a[-1]] if a else None
                i = a[-1] if a else None
                while t and t['k'] == 'ref':
                    i = t['t']
                    t = ts[i]
                if i is not None:
                    b = self.find_impl('std::fmt::Display', 'fmt', i, ts)
                    if b:
                        out.append(b.id)
            elif cal.get('trait') and cal.get('rk') != 'item':
                # unresolved: every local impl of the method
                m = d.rsplit('::', 1)[1]
                for b in self._impls.get((norm(cal['trait']), m), ()):
                    out.append(b.id)
                dm = cal.get('id')
                if dm in self.bodies:
                    out.append(dm)
        except (IndexError, KeyError, TypeError):
            pass
        return out


_P = None


def program():
    global _P
    if _P is None:
        _P = Program()
    return _P


if __name__ == '__main__':
    import sys, time
    t = time.time()
    p = program()
    print(len(p.bodies), len(p.adts), time.time() - t)
    for b in p.bodies.values():
        if b.raw.get('trait') and 'From' in b.raw['trait'] and b.crate == 'papyri_lang':
            print(b.id, b.raw.get('self'), b.raw.get('traitref'), b.raw['trait'])
            break
    cg = p.call_graph()
    print(sum(len(x) for x in cg.values()), time.time() - t)
    k = set(t['k'] for ts in p.types.values() for t in ts)
    print(k)
    print([t for t in p.types['papyri_lang'] if t['k'] not in ('adt', 'ref', 'prim', 'tuple')][:12])
