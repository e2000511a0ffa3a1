"""Abstract interpretation of the crate's MIR.

Values are terms over opaque leaves (terms.py), a state is a store for mutable places plus a
set of facts about the leaves (which variants are possible, intervals of linear combinations,
truth of opaque predicates).  A function is mapped to the set of its outcomes: pairs of a
state and a returned value, partitioned by the facts which decided its branches; outcomes with
the same value and store are joined, their facts weakened to what holds in all of them.
Library functions have transfer functions of their own (models.py, nomlib.py).  Panics are
collected together with the facts under which they are reached; whatever the domain cannot
express is collected as imprecision and never taken for a proof."""
from terms import *
from facts import short, fnkey, TRANSPARENT
import json
import time

ORD = 'std::cmp::Ordering'
CF = 'std::ops::ControlFlow'
IDENT_ADT = set(TRANSPARENT) | {'std::ptr::Unique', 'std::ptr::NonNull', 'core::ptr::Unique', 'std::mem::ManuallyDrop',
                                'std::num::NonZero', 'core::num::NonZero', 'std::mem::MaybeUninit',
                                'std::mem::MaybeDangling', 'core::mem::MaybeDangling', 'std::cell::UnsafeCell'}
BIG = ('num_bigint::BigInt', 'num_bigint::BigUint')
ATOMS = frozenset([chr(i) for i in range(128)] + ['\u03b1', '\u0663', '\u20ac', '\u2003'])
UNDEF = mk('undef')
DEADLINE = [time.time() + 600]


class Imprecise(Exception):
    pass


class St:
    __slots__ = ('store', 'cons', 'nxt')

    def __init__(self, store, cons, nxt):
        self.store, self.cons, self.nxt = store, cons, nxt

    def fact(self, k, v):
        c = dict(self.cons)
        c[k] = v
        return St(self.store, c, self.nxt)

    def put(self, cell, v):
        s = dict(self.store)
        s[cell] = v
        return St(s, self.cons, self.nxt)

    def alloc(self, v):
        s = dict(self.store)
        s[self.nxt] = v
        return St(s, self.cons, self.nxt + 1), self.nxt

    def free(self, base):
        if self.nxt == base:
            return self
        return St({k: v for k, v in self.store.items() if k < base}, self.cons, base)


EMPTY = St({}, {}, 0)


def join_facts(cs):
    """Facts which hold in every one of the given fact sets."""
    r = dict(cs[0])
    for c in cs[1:]:
        for k in list(r):
            v = c.get(k)
            w = r[k]
            if v is None:
                del r[k]
            elif v != w:
                if k[0] in ('var', 'chr'):
                    r[k] = v | w
                elif k[0] == 'int':
                    lo = None if v[0] is None or w[0] is None else min(v[0], w[0])
                    hi = None if v[1] is None or w[1] is None else max(v[1], w[1])
                    r[k] = (lo, hi)
                else:
                    del r[k]
    return r


def merge(outs):
    """Join outcomes with equal value and store."""
    if len(outs) < 2:
        return outs
    g = {}
    for st, v in outs:
        g.setdefault((v.id, tuple(sorted((k, x.id) for k, x in st.store.items()))), []).append((st, v))
    if len(g) == len(outs):
        return outs
    r = []
    for xs in g.values():
        if len(xs) == 1:
            r.append(xs[0])
        else:
            st = xs[0][0]
            r.append((St(st.store, join_facts([s.cons for s, _ in xs]), st.nxt), xs[0][1]))
    return r


def merge_exact(outs):
    """Join outcomes with equal value and store which differ in the variants of one value only: nothing is lost."""
    if len(outs) < 2 or len(outs) > 400:
        return outs
    g = {}
    for st, v in outs:
        g.setdefault((v.id, tuple(sorted((k, x.id) for k, x in st.store.items()))), []).append((st, v))
    if len(g) == len(outs):
        return outs
    r = []
    for xs in g.values():
        cs = [s.cons for s, _ in xs]
        again = len(cs) > 1
        while again:
            again = False
            for i in range(len(cs)):
                for j in range(i + 1, len(cs)):
                    a, b = cs[i], cs[j]
                    d = [k for k in a if k not in b or a[k] != b[k]]
                    d += [k for k in b if k not in a]
                    if len(d) == 1 and d[0][0] == 'var':
                        k = d[0]
                        c = dict(a)
                        if k in a and k in b:
                            c[k] = a[k] | b[k]
                        else:
                            c.pop(k, None)
                        cs[i] = c
                        del cs[j]
                        again = True
                        break
                    if not d:
                        del cs[j]
                        again = True
                        break
                if again:
                    break
        s0, v = xs[0]
        r += [(St(s0.store, c, s0.nxt), v) for c in cs]
    return r


def successors(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [bb for _, bb in t[2]] + [t[3]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[4]]
    return []


class Cx:
    """Context of a call: the callee reference and the static types."""
    __slots__ = ('f', 'ty', 'argtys', 'line')

    def __init__(self, f=None, ty=None, argtys=(), line=0):
        self.f, self.ty, self.argtys, self.line = f or {}, ty, argtys, line


class Body:
    __slots__ = ('heads', 'b', 'id', 'path', 'locals', 'blocks', 'argc', 'cells', 'file', 'local', 'promoted', 'loops', 'alives')


class Engine:
    def __init__(self, F, max_elems=2):
        self.F = F
        self.max_elems = max_elems
        self.prepared = {}
        self.fnrefs, self.fnidx = F.fnrefs, F.fnidx    # shared: constants are memoised in the facts
        self.panics, self.notes = [], []
        self.stack, self.frames = [], []
        self.over = {}          # function path -> transfer function, consulted first
        self.display_hook = None
        self.call_hook = None
        self.loop_hook = None
        self.anyitems = None
        self.unroll = 0             # how often repetitions are followed on texts nothing is known of; 0: summarised
        self.sink_errors = False
        self.domerge = True
        self.visit_limit = 48
        self.steps = 0
        self.curloc, self.curtag = None, None
        self.step_limit = 1000000
        self.analysed = set()
        self.natives = {}
        self.symcall = None
        self.symmetric = set()
        self.eq_expand = False
        self.streq = None
        self.nodrop = False
        self.hash_seed = None
        self.hash_used = False
        import models
        models.install(self)

    # ------------------------------------------------------------------ reporting
    def where(self):
        for b, line in reversed(self.stack):
            if b.local:
                return '%s (%s:%s)' % (b.path, b.file, line)
        return '?'

    def site(self):
        for b, line in reversed(self.stack):
            if b.local:
                return (b.path, b.file, line)
        return ('?', '?', 0)

    def panic(self, st, msg):
        self.panics.append((msg, self.site(), st, tuple(b.path for b, _ in self.stack if b.local)))

    def note(self, msg):
        self.notes.append((msg, self.where()))

    # ------------------------------------------------------------------ bodies
    def prep(self, inst):
        B = self.prepared.get(inst)
        if B is None:
            b = self.F.bodies[inst]
            B = Body()
            B.b, B.id, B.path, B.argc, B.blocks = b, inst, b['path'], b['argc'], b['blocks']
            B.locals = [l if isinstance(l, int) else l[0] for l in b['locals']]
            B.file = b['span'][0] if b.get('span') else '?'
            B.local = b['local']
            B.promoted = b.get('promoted') or []
            B.heads = B.alives = None
            cells = set()
            for bl in B.blocks:
                for s in bl['s']:
                    if s[0] == '=' and s[2][0] in ('ref', 'rawptr') and s[2][1]:
                        l, pr = s[2][2]
                        if '*' not in pr:
                            cells.add(l)
                t = bl['t']
                if t[0] == 'drop' and t[1][1] == [] and B.locals[t[1][0]] in self.F.drops:
                    cells.add(t[1][0])
            B.cells = sorted(cells)
            self.prepared[inst] = B
        return B

    def run(self, st, inst, args):
        """Outcomes of a body for the given arguments."""
        B = self.prep(inst)
        if B.local:
            self.analysed.add(B.path)
        if len(self.stack) > 400:
            raise Imprecise('call depth')
        base = st.nxt
        loc = [None] * len(B.locals)
        for i, a in enumerate(args):
            loc[i + 1] = a
        if B.cells:
            store = dict(st.store)
            n = base
            for l in B.cells:
                store[n] = loc[l] if loc[l] is not None else UNDEF
                loc[l] = ('cell', n)
                n += 1
            st = St(store, st.cons, n)
        self.stack.append((B, 0))
        self.frames.append((B.path, args))
        depth = len(self.stack)
        outs = []
        try:
            work = [(0, loc, st, {}, 0)]
            while work:
                bb, loc, st, vis, i0 = work.pop()
                try:
                    r = self.block(B, bb, loc, st, vis, work, i0)
                except Imprecise as e:
                    del self.stack[depth:]
                    del self.frames[depth:]
                    self.note(str(e))
                    continue
                if r is not None:
                    outs.append((r[0].free(base), r[1]))
        finally:
            del self.stack[depth - 1:]
            del self.frames[depth - 1:]
        return self.merged(outs)

    def merged(self, outs):
        if self.domerge == 'exact':
            return merge_exact(outs)
        return merge(outs) if self.domerge else outs

    def counted(self, B, bb, loc, st, vis, n):
        """Loops which count up to, or down from, a symbolic number, and do nothing else but append to texts:  one round
        is interpreted for an arbitrary value of the counter;  the state after the loop follows by induction."""
        key = ('counted', bb)
        c = vis.get(key)
        if n == 1:
            vis[key] = ('first', list(loc), st)
            return loc, st
        if c is None or c == 'done':
            return loc, st
        import models
        if c[0] == 'first':
            vis[key] = 'done'
            _, loc1, st1 = c
            found = [(i, o, v) for i, (o, v) in enumerate(zip(loc1, loc)) if isinstance(o, T) and isinstance(v, T) and o is not v
                     and o.k in ('int', 'sym', 'proj', 'elem', 'app', 'lin') and sub(v, o).k == 'int']
            if len(found) != 1:
                return loc, st
            i, o, v = found[0]
            alive = self.alive(B, bb)
            if any(a is not b and not (isinstance(a, tuple) and a == b) and j in alive and j != i for j, (a, b) in enumerate(zip(loc1, loc))):
                return loc, st
            step = sub(v, o).a[0]
            if step == 1 and o.k == 'int' and o.a[0] == 0:
                ns = set()
                for q in B.blocks[bb]['s']:         # the number it is compared with
                    if q[0] == '=' and q[2][0] == 'bin' and q[2][1] in ('Lt', 'Gt', 'Ne'):
                        ab = [(x[0], self.operand(st, B, loc, x)) for x in (q[2][2], q[2][3])]
                        for (m, z), (_, y) in (ab, ab[::-1]):
                            if m != 'const' and z is o and isinstance(y, T) and y.k in ('lin', 'sym', 'proj', 'app'):
                                ns.add(y)
                ns = list(ns)
            elif step == -1 and o.k != 'int':
                ns = [o]
            else:
                return loc, st
            if len(ns) != 1:
                return loc, st
            lim, hi = ns[0], self.bounds(st1, ns[0])[1]
            x = mk('sym', 'round.%d.%s' % (bb, B.path))
            g = st1.fact(('int', x), (0, None if hi is None else hi - 1) if step == 1 else (1, hi))
            gs = [s for s, b in self.truth(g, self.rng(sub(lim, x), 1 if step == 1 else 0, None)) if b]
            if len(gs) != 1:
                return loc, st
            l = list(loc1)
            for j, (a, b) in enumerate(zip(loc1, loc)):
                if a is not b and not (isinstance(a, tuple) and a == b):
                    l[j] = None
            l[i] = x
            vis[key] = ('round', loc1, st1, loc, st, i, step, lim, x, list(l), gs[0])
            return l, gs[0]
        _, loc1, st1, loc2, st2, i, step, lim, x, l0, g = c
        vis[key] = 'done'
        delta = {}
        good = sub(loc[i], x).k == 'int' and sub(loc[i], x).a[0] == step if isinstance(loc[i], T) else False
        for j, (a, b) in enumerate(zip(l0, loc)):
            if j != i and a is not b and not (isinstance(a, tuple) and a == b) and j in self.alive(B, bb):
                good = False
        for cell, v in g.store.items():
            w = st.store.get(cell)
            if w is v or w == v:
                continue
            d = models.appended(v, w) if w is not None and v.k in ('str', 'sym', 'app', 'proj') and w.k == 'str' else None
            if d is None or len(d) != 1 or not isinstance(d[0], str) or len(d[0]) != 1:
                good = False
                break
            delta[cell] = d[0]
        ends = [s for s, b in self.truth(st1, self.rng(lim, 1, None)) if b] if good else []
        if len(ends) != 1:
            return loc2, st2
        s = ends[0]
        for cell, d in delta.items():
            s = s.put(cell, text([s.store[cell], app('rep', d, lim)]))
        l = list(l0)
        l[i] = lim if step == 1 else I(0)
        return l, s

    def alive(self, B, bb):
        """The locals whose values may be used after the entry of a block (at most)."""
        if B.alives is None:
            def places(x, out):
                if isinstance(x, list):
                    if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                        out.add(x[0])
                        for y in x[1]:
                            out |= {z for z in (y if isinstance(y, list) else [y]) if isinstance(z, int)}
                        return out
                    for y in x:
                        places(y, out)
                return out
            live = [set() for _ in B.blocks]
            change = True
            while change:
                change = False
                for n in range(len(B.blocks) - 1, -1, -1):
                    bl = B.blocks[n]
                    t = bl['t']
                    cur = set().union(*[live[x] for x in successors(t)]) if successors(t) else set()
                    if t[0] == 'call':
                        if t[3] and t[3][1] == []:
                            cur = cur - {t[3][0]}
                            cur |= places(t[:3], set())
                        else:
                            cur |= places(t, set())
                    else:
                        cur = cur | places(t, set())
                    if t[0] == 'return':
                        cur = cur | {0}
                    for s in reversed(bl['s']):
                        if s[0] == '=' and s[1][1] == []:
                            cur = (cur - {s[1][0]}) | places(s[2], set())
                        else:
                            cur = cur | places(s, set())
                    if cur != live[n]:
                        live[n] = cur
                        change = True
            B.alives = live
        return B.alives[bb]

    def heads(self, B):
        """The blocks loops return to."""
        if B.heads is None:
            heads, state = set(), {}
            work = [(0, iter(successors(B.blocks[0]['t'])))]
            state[0] = 1
            while work:
                n, i = work[-1]
                for x in i:
                    if state.get(x) == 1:
                        heads.add(x)
                    elif x not in state:
                        state[x] = 1
                        work.append((x, iter(successors(B.blocks[x]['t']))))
                        break
                else:
                    state[n] = 2
                    work.pop()
            B.heads = heads
        return B.heads

    def block(self, B, bb, loc, st, vis, work, i0):
        """Run from a block until the path forks or ends; returns the outcome of a return."""
        while True:
            if not i0:
                n = vis.get(bb, 0) + 1
                if n > self.visit_limit:
                    raise Imprecise('loop not bounded by the domain')
                vis[bb] = n
                if self.loop_hook is not None and bb in self.heads(B):
                    st = self.loop_hook(B, bb, loc, st, vis)
                    if st is None:
                        return None
                elif self.loop_hook is None and n <= 4 and bb in self.heads(B):
                    loc, st = self.counted(B, bb, loc, st, vis, n)
            bl = B.blocks[bb]
            self.steps += 1
            if self.steps > self.step_limit or (self.steps & 1023 == 0 and time.time() > DEADLINE[0]):
                raise Imprecise('analysis budget')
            ss = bl['s']
            for idx in range(i0, len(ss)):
                s = ss[idx]
                if s[0] == '=':
                    self.stack[-1] = (B, s[3] if len(s) > 3 else 0)
                    rs = self.rvalue(st, B, loc, s[2])
                    if len(rs) == 1:
                        st = self.assign(rs[0][0], B, loc, s[1], rs[0][1])
                    else:
                        for st2, v in rs:
                            l2 = list(loc)
                            st2 = self.assign(st2, B, l2, s[1], v)
                            work.append((bb, l2, st2, dict(vis), idx + 1))
                        return None
                elif s[0] == 'setdiscr':
                    raise Imprecise('set discriminant')
            i0 = 0
            nx = self.term(B, bl['t'], loc, st, vis, work)
            if nx is None:
                return None
            if nx[0] == 'ret':
                return nx[1], nx[2]
            bb, st = nx[1], nx[2]

    def term(self, B, t, loc, st, vis, work):
        k = t[0]
        if k == 'goto':
            return ('go', t[1], st)
        if k == 'return':
            v = loc[0]
            if isinstance(v, tuple):
                v = st.store[v[1]]
            return ('ret', st, v if v is not None else UNIT)
        if k == 'switch':
            v = self.operand(st, B, loc, t[1])
            outs = self.switch(st, v, t[2], t[3], t[4])
            if len(outs) == 1:
                return ('go', outs[0][1], outs[0][0])
            for s2, bb in outs[:-1]:
                work.append((bb, list(loc), s2, dict(vis), 0))
            if not outs:
                return None
            s2, bb = outs[-1]
            work.append((bb, list(loc), s2, dict(vis), 0))
            return None
        if k == 'call':
            f, ops, dest, target = t[1], t[2], t[3], t[4]
            self.stack[-1] = (B, t[6] if len(t) > 6 else 0)
            args = [self.operand(st, B, loc, o) for o in ops]
            self.curloc, self.curtag = loc, (B.id, len(self.stack))
            cx = Cx(f, t[5] if len(t) > 5 else None, t[7] if len(t) > 7 else (), t[6] if len(t) > 6 else 0)
            if 'val' in f:
                cal = self.operand(st, B, loc, f['val'])
                outs = self.callv(st, cal, args, cx)
            else:
                outs = self.call(st, f, args, cx)
            if target is None:
                return None
            if not outs:
                return None
            if len(outs) == 1:
                return ('go', target, self.assign(outs[0][0], B, loc, dest, outs[0][1]))
            for s2, v in reversed(outs):
                l2 = list(loc)
                s2 = self.assign(s2, B, l2, dest, v)
                work.append((target, l2, s2, dict(vis), 0))
            return None
        if k == 'drop':
            place, target = t[1], t[2]
            if place[1] == [] and not self.nodrop and B.locals[place[0]] in self.F.drops:
                l = loc[place[0]]
                if isinstance(l, tuple):
                    outs = self.run(st, self.F.drops[B.locals[place[0]]], [mk('ptr', l[1], ())])
                    if len(outs) == 1:
                        return ('go', target, outs[0][0])
                    for s2, _ in outs:
                        work.append((target, list(loc), s2, dict(vis), 0))
                    return None
            return ('go', target, st)
        if k == 'assert':
            v = self.operand(st, B, loc, t[1])
            self.stack[-1] = (B, t[5] if len(t) > 5 else 0)
            good = None
            for s2, b in self.truth(st, v):
                if b == t[2]:
                    if good is None:
                        good = s2
                    else:
                        work.append((t[4], list(loc), s2, dict(vis), 0))
                else:
                    self.panic(s2, 'assertion: ' + str(t[3])[:80])
            if good is None:
                return None
            return ('go', t[4], good)
        if k in ('unreachable', 'unwind'):
            return None
        raise Imprecise('terminator ' + k)

    def switch(self, st, v, targets, otherwise, ty):
        F = self.F
        if v.k == 'int':
            for val, bb in targets:
                if int(val) == v.a[0] or self.wrap(int(val), ty) == v.a[0]:
                    return [(st, bb)]
            return [(st, otherwise)]
        if v.k == 'bool':
            for val, bb in targets:
                if bool(int(val)) == v.a[0]:
                    return [(st, bb)]
            return [(st, otherwise)]
        if v.k == 'char':
            for val, bb in targets:
                if int(val) == ord(v.a[0]):
                    return [(st, bb)]
            return [(st, otherwise)]
        if v.k == 'discr':
            x = v.a[0]
            vs = F.variants(x.ty)
            feas = self.feasible(st, x)
            byd = {int(vs[i]['discr']): i for i in feas}
            out = []
            left = set(feas)
            for val, bb in targets:
                i = byd.get(int(val))
                if i is not None:
                    left.discard(i)
                    out.append((bb, {i}))
            if left:
                out.append((otherwise, left))
            g = {}
            for bb, s in out:
                g.setdefault(bb, set()).update(s)
            return [(self.setvar(st, x, frozenset(s)), bb) for bb, s in g.items()]
        t = F.t(ty) if ty is not None else {'k': '?'}
        if t['k'] == 'bool':
            out = []
            for s2, b in self.truth(st, v):
                bb = otherwise
                for val, x in targets:
                    if bool(int(val)) == b:
                        bb = x
                        break
                out.append((s2, bb))
            return out
        if t['k'] == 'char':
            atoms = self.atoms(st, v)
            out = []
            rest = set(atoms)
            for val, bb in targets:
                c = chr(int(val))
                if c in rest:
                    rest.discard(c)
                    out.append((self.setatoms(st, v, frozenset([c])), bb))
                elif ord(c) > 127:
                    raise Imprecise('match on a non-ASCII character')
            if rest:
                out.append((self.setatoms(st, v, frozenset(rest)), otherwise))
            return out
        if t['k'] == 'int':
            out = []
            cur = [st]
            for val, bb in targets:
                val = self.wrap(int(val), ty)
                nxt = []
                for s in cur:
                    for s2, b in self.truth(s, self.rng(sub(v, I(val)), 0, 0)):
                        if b:
                            out.append((s2, bb))
                        else:
                            nxt.append(s2)
                cur = nxt
            out += [(s, otherwise) for s in cur]
            return out
        raise Imprecise('switch on ' + show(v))

    def wrap(self, val, ty):
        r = self.F.intrange(ty)
        if r and val > r[1]:
            return val - (r[1] - r[0] + 1)
        return val

    # ------------------------------------------------------------------ facts
    def feasible(self, st, x):
        vs = self.F.variants(x.ty)
        if vs is None:
            raise Imprecise('variants of %s : %s' % (show(x), x.ty is not None and self.F.t(x.ty)['s']))
        c = st.cons.get(('var', x))
        if c is not None:
            return c
        return frozenset(i for i in range(len(vs)) if not self.uninhabited(vs[i]))

    def uninhabited(self, v):
        return any(self.F.types[t]['k'] == 'never' or self.F.types[t]['s'] in ('!', 'std::convert::Infallible') for _, t, *_ in v['fields'])

    def setvar(self, st, x, vs):
        return st.fact(('var', x), vs)

    def variant(self, st, x):
        """The variant of a value if it is known."""
        if x.k == 'adt':
            return x.a[1]
        if is_sym(x) and x.ty is not None and self.F.variants(x.ty):
            f = self.feasible(st, x)
            if len(f) == 1:
                return next(iter(f))
        return None

    def cases(self, st, x):
        """Partition a state by the variant of an ADT value: (state, variant)."""
        if x.k == 'adt':
            return [(st, x.a[1])]
        if is_sym(x):
            f = self.feasible(st, x)
            if len(f) == 1:
                return [(st, next(iter(f)))]
            return [(self.setvar(st, x, frozenset([v])), v) for v in sorted(f)]
        raise Imprecise('case split on ' + show(x))

    def field(self, x, v, i):
        if x.k == 'adt':
            return x.a[2][i]
        if is_sym(x):
            ty = self.F.fieldty(x.ty, v, i) if x.ty is not None else None
            return mk('proj', x, v or 0, i, ty=ty)
        if x.k in ('tup', 'clo'):
            return project(x, v, i)
        raise Imprecise('field of ' + show(x))

    def atoms(self, st, c):
        if c.k == 'char':
            ch = c.a[0]
            return frozenset([ch])
        return st.cons.get(('chr', c), ATOMS)

    def setatoms(self, st, c, s):
        return st.fact(('chr', c), s)

    def splitchar(self, st, c, pred):
        """Partition by a predicate over characters."""
        if c.k == 'char':
            return [(st, pred(c.a[0]))]
        at = self.atoms(st, c)
        yes = frozenset(x for x in at if pred(x))
        if yes == at:
            return [(st, True)]
        if not yes:
            return [(st, False)]
        return [(self.setatoms(st, c, yes), True), (self.setatoms(st, c, at - yes), False)]

    # ---- integers
    def bounds(self, st, t):
        k = t.k
        if k == 'int':
            return t.a[0], t.a[0]
        if k == 'lin':
            lo = hi = t.a[1]
            for x, c in t.a[0]:
                l, h = self.bounds(st, x)
                if c < 0:
                    l, h = h, l
                lo = None if lo is None or l is None else lo + c * l
                hi = None if hi is None or h is None else hi + c * h
            p, sg, k0 = self.canon(t)
            c = st.cons.get(('int', p))
            if c:
                l, h = c
                if sg < 0:
                    l, h = (None if h is None else -h), (None if l is None else -l)
                l = None if l is None else l + k0
                h = None if h is None else h + k0
                lo = l if lo is None else lo if l is None else max(lo, l)
                hi = h if hi is None else hi if h is None else min(hi, h)
            return lo, hi
        r = None
        if t.ty is not None:
            r = self.F.intrange(t.ty)
            if r is None:
                p = self.F.path(t.ty)
                if p and short(p) == 'BigUint':
                    r = (0, None)
        lo, hi = r or (None, None)
        if k == 'app':
            op, a = t.a
            if op in ('len', 'bitlen', 'mult', 'strlen'):
                lo = 0 if lo is None else max(lo, 0)
                if op == 'len':
                    hi = 2 ** 48 if hi is None else min(hi, 2 ** 48)
                if op == 'bitlen':
                    l, h = self.bounds(st, a[0])
                    if l is not None and h is not None:
                        m = max(abs(l), abs(h)).bit_length()
                        hi = m if hi is None else min(hi, m)
                    if l is not None and l > 0:
                        lo = max(lo, l.bit_length())
            elif op in ('max', 'min') and len(a) == 2:
                b1, b2 = self.bounds(st, a[0]), self.bounds(st, a[1])
                fn = max if op == 'max' else min
                lo = fn(b1[0], b2[0]) if None not in (b1[0], b2[0]) else lo
                hi = fn(b1[1], b2[1]) if None not in (b1[1], b2[1]) else hi
            elif op in ('and',) and len(a) == 2 and a[1].k == 'int' and a[1].a[0] >= 0:
                lo, hi = 0, a[1].a[0]
            elif op == 'rem' and a[1].k == 'int' and a[1].a[0] > 0:
                l = self.bounds(st, a[0])[0]
                if l is not None and l >= 0:
                    lo, hi = 0, a[1].a[0] - 1
            elif op == 'shr' and a[1].k == 'int' and a[1].a[0] >= 0:
                l, h = self.bounds(st, a[0])
                lo = None if l is None else l >> a[1].a[0]
                hi = None if h is None else h >> a[1].a[0]
            elif op == 'shl' and a[0].k == 'int' and a[0].a[0] > 0:
                l, h = self.bounds(st, a[1])
                if l is not None and l >= 0:
                    lo = a[0].a[0] << l
                    if h is not None and h <= 4096:
                        hi = a[0].a[0] << h if hi is None else hi
        c = st.cons.get(('int', t))
        if c:
            lo = c[0] if lo is None else lo if c[0] is None else max(lo, c[0])
            hi = c[1] if hi is None else hi if c[1] is None else min(hi, c[1])
        return lo, hi

    def canon(self, t):
        """Linear term as (part without constant and with positive head, sign, constant)."""
        ps, k0 = lin_parts(t)
        if not ps:
            return None, 1, k0
        sg = 1 if ps[0][1] > 0 else -1
        return lin_sum([(sg * c, x) for x, c in ps], 0), sg, k0

    def rng(self, t, lo, hi):
        """The proposition lo <= t <= hi."""
        if t.k == 'int':
            return Bo((lo is None or t.a[0] >= lo) and (hi is None or t.a[0] <= hi))
        p, sg, k0 = self.canon(t)
        lo = None if lo is None else lo - k0
        hi = None if hi is None else hi - k0
        if sg < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        return mk('app', 'in', (p, lo, hi))

    def narrow(self, st, p, lo, hi, depth=0):
        l, h = self.bounds(st, p)
        nl = lo if l is None else l if lo is None else max(l, lo)
        nh = hi if h is None else h if hi is None else min(h, hi)
        if nl is not None and nh is not None and nl > nh:
            return None
        if (nl, nh) == (l, h) and depth:
            return st
        st = st.fact(('int', p), (nl, nh))
        if p.k == 'app' and p.a[0] == 'shr' and p.a[1][1].k == 'int' and p.a[1][0].k != 'int' and depth < 3:
            # what is shifted out
            x, n = p.a[1][0], p.a[1][1].a[0]
            q, sg, k0 = self.canon(x)
            a, b = None if nl is None else nl << n, None if nh is None else ((nh + 1) << n) - 1
            a, b = None if a is None else a - k0, None if b is None else b - k0
            if sg < 0:
                a, b = None if b is None else -b, None if a is None else -a
            return self.narrow(st, q, a, b, depth + 1)
        # propagate between a sum and its parts
        if p.k == 'lin':
            for x, c in p.a[0]:
                rest = lin_sum([(c2, y) for y, c2 in p.a[0] if y is not x], 0)
                rl, rh = self.bounds(st, rest)
                # c*x in [nl - rh, nh - rl]
                a = None if nl is None or rh is None else nl - rh
                b = None if nh is None or rl is None else nh - rl
                if c == -1:
                    a, b = (None if b is None else -b), (None if a is None else -a)
                elif c != 1:
                    continue
                xl, xh = self.bounds(st, x)
                zl = a if xl is None else xl if a is None else max(a, xl)
                zh = b if xh is None else xh if b is None else min(b, xh)
                if zl is not None and zh is not None and zl > zh:
                    return None
                if (zl, zh) != (xl, xh):
                    st = self.narrow(st, x, zl, zh, depth + 1) if depth < 3 else st.fact(('int', x), (zl, zh))
                    if st is None:
                        return None
        elif depth < 3:
            for k, v in st.cons.items():
                if k[0] == 'int' and k[1].k == 'lin' and any(x is p for x, _ in k[1].a[0]):
                    l, h = self.bounds(st, k[1])
                    if l is not None and h is not None and l > h:
                        return None
                    for x, c in k[1].a[0]:
                        if x is not p and c in (1, -1):
                            rest = lin_sum([(c2, y) for y, c2 in k[1].a[0] if y is not x], 0)
                            rl, rh = self.bounds(st, rest)
                            a = None if l is None or rh is None else l - rh
                            b = None if h is None or rl is None else h - rl
                            if c == -1:
                                a, b = (None if b is None else -b), (None if a is None else -a)
                            if a is None and b is None:
                                continue
                            st = self.narrow(st, x, a, b, depth + 1)
                            if st is None:
                                return None
        return st

    def truth(self, st, t):
        """Decide a proposition: (state, bool) alternatives."""
        if t.k == 'bool':
            return [(st, t.a[0])]
        if t.k == 'app':
            op, a = t.a
            if op == 'not':
                return [(s, not b) for s, b in self.truth(st, a[0])]
            if op == 'in':
                p, lo, hi = a
                l, h = self.bounds(st, p)
                if (lo is None or (l is not None and l >= lo)) and (hi is None or (h is not None and h <= hi)):
                    return [(st, True)]
                if (lo is not None and h is not None and h < lo) or (hi is not None and l is not None and l > hi):
                    return [(st, False)]
                c = st.cons.get(('b', t))
                if c is not None:
                    return [(st, c)]
                out = []
                s = self.narrow(st, p, lo, hi)
                if s is not None:
                    out.append((s.fact(('b', t), True), True))
                for l2, h2 in ((None, None if lo is None else lo - 1), (None if hi is None else hi + 1, None)):
                    if l2 is None and h2 is None:
                        continue
                    s = self.narrow(st, p, l2, h2)
                    if s is not None:
                        out.append((s.fact(('b', t), False), False))
                return out
            if op == 'or':
                out = []
                for s, b in self.truth(st, a[0]):
                    out += [(s, True)] if b else self.truth(s, a[1])
                return out
            if op == 'and' and t.ty is None:
                out = []
                for s, b in self.truth(st, a[0]):
                    out += [(s, False)] if not b else self.truth(s, a[1])
                return out
            if op == 'chareq':
                return self.splitchar(st, a[0], lambda c: c == a[1])
            if op == 'eq':
                c = st.cons.get(('b', t))
                if c is not None:
                    return [(st, c)]
        c = st.cons.get(('b', t))
        if c is not None:
            return [(st, c)]
        return [(st.fact(('b', t), True), True), (st.fact(('b', t), False), False)]

    # ---- equality of values
    def eq(self, st, a, b):
        """Structural equality: (state, bool) alternatives."""
        if a is b:
            return [(st, True)]
        if a.k == b.k == 'elem' and a.a[0] is b.a[0] and isinstance(a.a[1], tuple) and isinstance(b.a[1], tuple) \
                and a.a[1][1] == b.a[1][1] == 'k':
            return [(st, False)]
        ka, kb = a.k, b.k
        if ka == 'adt' or kb == 'adt':
            if ka != 'adt':
                a, b, ka, kb = b, a, kb, ka
            if kb == 'adt':
                if a.a[1] != b.a[1]:
                    return [(st, False)]
                return self.eqs(st, list(zip(a.a[2], b.a[2])))
            if not is_sym(b):
                raise Imprecise('equality of %s and %s' % (show(a), show(b)))
            out = []
            f = self.feasible(st, b)
            if a.a[1] in f:
                s2 = self.setvar(st, b, frozenset([a.a[1]]))
                out += self.eqs(s2, [(x, self.field(b, a.a[1], i)) for i, x in enumerate(a.a[2])])
                f = f - {a.a[1]}
            if f:
                out.append((self.setvar(st, b, f), False))
            return out
        if ka == 'tup' and kb == 'tup':
            return self.eqs(st, list(zip(a.a[0], b.a[0])))
        if ka in ('int', 'lin') or kb in ('int', 'lin'):
            return self.truth(st, self.rng(sub(a, b), 0, 0))
        if ka == 'char' or kb == 'char':
            if ka == kb:
                return [(st, False)]
            if ka == 'char':
                a, b = b, a
            return self.splitchar(st, a, lambda c: c == b.a[0])
        if ka == 'bool' or kb == 'bool':
            if ka == kb:
                return [(st, False)]
            if ka == 'bool':
                a, b = b, a
            return [(s, x == b.a[0]) for s, x in self.truth(st, a)]
        if ka == 'seq' or kb == 'seq':
            out = []
            for s1, xs in self.expand(st, a):
                for s2, ys in self.expand(s1, b):
                    if len(xs) != len(ys):
                        out.append((s2, False))
                    else:
                        out += self.eqs(s2, list(zip(xs, ys)))
            return out
        if self.streq is not None and ('input' in (ka, kb) or 'str' in (ka, kb) or (is_sym(a) and a.ty is not None and self.F.is_str(a.ty))):
            r = self.streq(st, a, b)
            if r is not None:
                return r
        if ka == 'str' or kb == 'str':
            if ka == kb and all(isinstance(p, str) for p in a.a[0] + b.a[0]):
                return [(st, False)]
            return self.atom_eq(st, a, b)
        if ka == 'float' or kb == 'float':
            if ka == kb:
                return [(st, a.a[0] == b.a[0])]
            return self.atom_eq(st, a, b)
        if is_sym(a) and is_sym(b):
            if self.isint(a) or self.isint(b):
                return self.truth(st, self.rng(sub(a, b), 0, 0))
            if a.ty is not None and b.ty is not None and self.F.variants(a.ty) and len(self.F.variants(a.ty)) > 1 \
                    and self.F.path(a.ty) in (OPT, RES, ORD):
                out = []
                for s1, v in self.cases(st, a):
                    for s2, w in self.cases(s1, b):
                        if v != w:
                            out.append((s2, False))
                        else:
                            n = len(self.F.variants(a.ty)[v]['fields'])
                            out += self.eqs(s2, [(self.field(a, v, i), self.field(b, v, i)) for i in range(n)])
                return out
            return self.atom_eq(st, a, b)
        raise Imprecise('equality of %s and %s' % (show(a), show(b)))

    def atom_eq(self, st, a, b):
        if a.id > b.id:
            a, b = b, a
        return self.truth(st, mk('app', 'eq', (a, b)))

    def eqs(self, st, pairs):
        cur, out = [st], []
        for x, y in pairs:
            nxt = []
            for s in cur:
                for s2, r in self.eq(s, x, y):
                    if r:
                        nxt.append(s2)
                    else:
                        out.append((s2, False))
            cur = nxt
        return [(s, True) for s in cur] + out

    # ---- collections
    def length(self, v):
        if v.k == 'seq':
            return I(len(v.a[0]))
        if v.k in ('map', 'set'):
            return I(len(v.a[0]))
        if v.k == 'str':
            if all(isinstance(p, str) for p in v.a[0]):
                return I(len(''.join(v.a[0]).encode()))
            return app('strlen', v)
        if v.ty is not None and self.F.is_str(v.ty):
            return app('strlen', v)
        if v.k == 'app' and v.a[0] == 'push':
            return add(self.length(v.a[1][0]), I(1))
        return app('len', v)

    def elem(self, v, i):
        et = self.F.elemty(v.ty) if v.ty is not None else None
        if isinstance(et, tuple):
            a, b = mk('elem', v, (i, 'k')), mk('elem', v, (i, 'v'))
            a.ty, b.ty = et[1], et[2]
            return tup(a, b)
        e = mk('elem', v, i)
        if e.ty is None:
            e.ty = et
        return e

    def expand(self, st, v):
        """Elements of a collection: (state, tuple of elements) alternatives."""
        if v.k in ('seq', 'set', 'map'):
            return [(st, v.a[0])]
        if v.k == 'app' and v.a[0] == 'sorted' or v.k == 'app' and v.a[0] == 'perm':
            return [(s, tuple(self.permuted(x, v) for x in xs)) for s, xs in self.expand(st, v.a[1][0])]
        if v.k == 'app' and v.a[0] == 'push':
            return [(s, tuple(xs) + (v.a[1][1],)) for s, xs in self.expand(st, v.a[1][0])]
        if not is_sym(v):
            raise Imprecise('elements of ' + show(v))
        n = app('len', v)
        lo, hi = self.bounds(st, n)
        out = []
        M = self.max_elems
        for k in range(0, M):
            if lo <= k and (hi is None or hi >= k):
                s = st if lo == hi else self.narrow(st, n, k, k)
                if s is not None:
                    out.append((s, tuple(self.elem(v, i) for i in range(k))))
        if hi is None or hi >= M:
            s = st if lo >= M else self.narrow(st, n, M, None)
            if s is not None:
                out.append((s, tuple(self.elem(v, i) for i in range(M))))
        return out

    def permuted(self, x, v):
        return x

    # ------------------------------------------------------------------ places
    def deref_is_ptr(self, ty):
        t = self.F.types[ty]
        return (t['k'] == 'ref' and t.get('mut')) or t['k'] == 'ptr'

    def load(self, st, p):
        v = st.store.get(p.a[0])
        if v is None:
            raise Imprecise('dangling pointer')
        for e in p.a[1]:
            v = self.step(st, v, e)
        return v

    def step(self, st, v, e):
        if e[0] == 'i':
            for s, xs in self.expand(st, v):
                if s is st or len(xs) > e[1]:
                    return xs[e[1]]
        if e[0] == 'm':
            if v.k != 'map' or e[1] >= len(v.a[0]):
                raise Imprecise('entry of ' + show(v, 2))
            return v.a[0][e[1]].a[0][1]
        return self.field(v, e[0], e[1])

    def deref(self, st, v):
        """Follow pointers to a value."""
        while v.k == 'ptr':
            v = self.load(st, v)
        return v

    def store(self, st, p, v):
        if p.k != 'ptr':
            raise Imprecise('write through ' + show(p))
        cell, path = p.a
        if not path:
            return st.put(cell, v)
        return st.put(cell, self.setpath(st, st.store[cell], path, v))

    def setpath(self, st, b, path, v):
        if not path:
            return v
        e = path[0]
        if e[0] == 'i':
            xs = list(self.expand(st, b)[0][1])
            xs[e[1]] = self.setpath(st, xs[e[1]], path[1:], v)
            return seq(xs)
        if e[0] == 'm':
            if b.k != 'map' or e[1] >= len(b.a[0]):
                raise Imprecise('entry of ' + show(b, 2))
            xs = list(b.a[0])
            xs[e[1]] = tup(xs[e[1]].a[0][0], self.setpath(st, xs[e[1]].a[0][1], path[1:], v))
            return mk('map', tuple(xs), ty=b.ty)
        var, i = e
        if b.k == 'ptr':
            raise Imprecise('nested pointer update')
        b = self.expose(st, b, var)
        fs = list(b.a[2] if b.k == 'adt' else b.a[0] if b.k == 'tup' else b.a[1])
        fs[i] = self.setpath(st, fs[i], path[1:], v)
        if b.k == 'adt':
            return mk('adt', b.a[0], b.a[1], tuple(fs), ty=b.ty)
        if b.k == 'tup':
            return tup(*fs)
        return mk('clo', b.a[0], tuple(fs), ty=b.ty)

    def expose(self, st, b, var=None):
        """A symbolic product as an explicit one."""
        if b.k in ('adt', 'tup', 'clo'):
            return b
        if is_sym(b) and b.ty is not None:
            i = self.F.strip(b.ty)
            t = self.F.types[i]
            if t['k'] == 'tuple':
                return tup(*[self.field(b, 0, j) for j in range(len(t['of']))])
            if t['k'] == 'adt':
                if var is None:
                    var = self.variant(st, b)
                if var is None:
                    raise Imprecise('variant of ' + show(b))
                n = len(t['variants'][var]['fields'])
                return mk('adt', t['path'], var, tuple(self.field(b, var, j) for j in range(n)), ty=i)
        raise Imprecise('fields of ' + show(b))

    def read(self, st, B, loc, place):
        l, proj = place
        v = loc[l]
        if v.__class__ is tuple:
            v = st.store[v[1]]
        if not proj:
            if v is None:
                t = self.F.types[B.locals[l]]
                if t['k'] in ('fndef', 'closure', 'tuple', 'adt'):
                    return self.zst(B.locals[l])
                raise Imprecise('uninitialised local')
            return v
        if v is None:
            v = self.zst(B.locals[l])
        ty = B.locals[l]
        var = None
        F = self.F
        for p in proj:
            if p == '*':
                if v.k == 'ptr' and self.deref_is_ptr(ty):
                    v = self.load(st, v)
                t = F.types[ty]
                ty = t['of'] if 'of' in t else (t['args'][0] if t.get('args') else None)
            elif p[0] == 'f':
                if self.identfield(ty, p[1]):
                    ty = p[2]
                    continue
                if v.k == 'ptr':
                    v = self.load(st, v)
                if v.k in SYMBOLIC:
                    t2 = F.fieldty(v.ty, var, p[1]) if v.ty is not None else None
                    v = mk('proj', v, var or 0, p[1], ty=t2 if t2 is not None else p[2])
                elif v.k in ('adt', 'tup', 'clo'):
                    try:
                        v = project(v, var, p[1])
                    except IndexError:
                        raise Imprecise('field %d of %s' % (p[1], show(v)))
                else:
                    raise Imprecise('field of ' + show(v))
                ty = p[2]
                var = None
            elif p[0] == 'v':
                var = p[1]
            elif p[0] == 'i':
                iv = loc[p[1]]
                if isinstance(iv, tuple):
                    iv = st.store[iv[1]]
                v = self.index(st, v, iv)
                ty = F.elemty(ty) if ty is not None else None
            elif p[0] == 'c':
                alts = self.expand(st, v)
                if len(alts) != 1:
                    raise Imprecise('index into a collection of unknown length')
                xs = alts[0][1]
                v = xs[len(xs) - p[1]] if p[2] else xs[p[1]]
                ty = F.elemty(ty)
            else:
                raise Imprecise('projection ' + str(p))
        return v

    def index(self, st, v, iv):
        if v.k == 'seq' and iv.k == 'int':
            return v.a[0][iv.a[0]]
        if is_sym(v) and iv.k == 'int':
            return self.elem(v, iv.a[0])
        if is_sym(v):
            return self.elem(v, iv)
        raise Imprecise('index %s of %s' % (show(iv), show(v)))

    def identfield(self, ty, i):
        if ty is None:
            return False
        t = self.F.types[ty]
        return t['k'] == 'adt' and t['path'] in IDENT_ADT

    def zst(self, ty):
        t = self.F.types[ty]
        if t['k'] == 'tuple' and not t['of']:
            return UNIT
        if t['k'] == 'closure':
            return mk('clo', t['inst'], (), ty=ty)
        if t['k'] == 'adt' and len(t['variants']) == 1 and not t['variants'][0]['fields']:
            return mk('adt', t['path'], 0, (), ty=ty)
        if t['k'] == 'adt':
            live = [n for n, v in enumerate(t['variants']) if not self.uninhabited(v)]
            if len(live) == 1 and not t['variants'][live[0]]['fields']:
                return mk('adt', t['path'], live[0], (), ty=ty)
            return UNDEF
        if t['k'] == 'tuple':
            return UNDEF
        raise Imprecise('value of type ' + t['s'][:60])

    def ptr_to(self, st, B, loc, place):
        """Pointer to a place (for mutable borrows)."""
        l, proj = place
        v = loc[l]
        ty = B.locals[l]
        F = self.F
        if isinstance(v, tuple):
            cell, path = v[1], []
            cur = st.store.get(cell)
        else:
            cell, path, cur = None, [], v
        var = None
        for p in proj:
            if p == '*':
                t = F.types[ty]
                if cur is not None and cur.k == 'ptr' and self.deref_is_ptr(ty):
                    cell, path = cur.a[0], list(cur.a[1])
                    cur = self.load(st, cur)
                elif t['k'] == 'ref' and cell is None and not t.get('mut'):
                    pass
                ty = t['of'] if 'of' in t else (t['args'][0] if t.get('args') else None)
            elif p[0] == 'f':
                if self.identfield(ty, p[1]):
                    ty = p[2]
                    continue
                path.append((var or 0, p[1]))
                cur = self.field(self.expose(st, cur, var) if cur.k not in ('adt', 'tup', 'clo') else cur, var, p[1])
                ty = p[2]
                var = None
            elif p[0] == 'v':
                var = p[1]
            elif p[0] in ('i', 'c'):
                if p[0] == 'i':
                    iv = loc[p[1]]
                    if isinstance(iv, tuple):
                        iv = st.store[iv[1]]
                    if iv.k != 'int':
                        raise Imprecise('borrow of an element at an unknown index')
                    n = iv.a[0]
                else:
                    n = p[1]
                    if p[2]:
                        raise Imprecise('borrow from the end')
                path.append(('i', n))
                cur = self.index(st, cur, I(n))
                ty = F.elemty(ty)
            else:
                raise Imprecise('borrow of projection')
        if cell is None:
            return None, cur
        return mk('ptr', cell, tuple(path)), cur

    def assign(self, st, B, loc, place, v):
        l, proj = place
        if not proj:
            c = loc[l]
            if c.__class__ is tuple:
                return st.put(c[1], v)
            loc[l] = v
            return st
        c = loc[l]
        if '*' not in proj:
            path = self.path_of(B.locals[l], proj, loc, st)
            if c.__class__ is tuple:
                old = st.store[c[1]]
                if old is UNDEF:
                    old = self.blank(B.locals[l], proj)
                return st.put(c[1], self.setpath(st, old, path, v))
            if c is None or c is UNDEF:
                c = self.blank(B.locals[l], proj)
            loc[l] = self.setpath(st, c, path, v)
            return st
        p, _ = self.ptr_to(st, B, loc, place)
        if p is None:
            raise Imprecise('assignment through a shared reference')
        return self.store(st, p, v)

    def blank(self, ty, proj):
        t = self.F.types[ty]
        if t['k'] == 'tuple':
            return tup(*[UNDEF] * len(t['of']))
        if t['k'] == 'adt':
            var = proj[0][1] if proj and proj[0][0] == 'v' else 0
            return mk('adt', t['path'], var, (UNDEF,) * len(t['variants'][var]['fields']), ty=ty)
        raise Imprecise('assignment to a part of an uninitialised place')

    def path_of(self, ty, proj, loc, st):
        path, var = [], None
        for p in proj:
            if p[0] == 'f':
                if self.identfield(ty, p[1]):
                    ty = p[2]
                    continue
                path.append((var or 0, p[1]))
                var, ty = None, p[2]
            elif p[0] == 'v':
                var = p[1]
            elif p[0] == 'i':
                iv = loc[p[1]]
                if isinstance(iv, tuple):
                    iv = st.store[iv[1]]
                if iv.k != 'int':
                    raise Imprecise('assignment at an unknown index')
                path.append(('i', iv.a[0]))
                ty = self.F.elemty(ty)
            else:
                raise Imprecise('assignment to projection')
        return tuple(path)

    # ------------------------------------------------------------------ operands and rvalues
    def operand(self, st, B, loc, o):
        if o[0] == 'const':
            return self.const(o[1], B)
        return self.read(st, B, loc, o[1])

    def fnval(self, f):
        key = json.dumps(f, sort_keys=True)
        i = self.fnidx.get(key)
        if i is None:
            i = len(self.fnrefs)
            self.fnidx[key] = i
            self.fnrefs.append(f)
        return mk('fn', i)

    def const(self, c, B=None):
        v = c.get('_t')
        if v is not None:
            return v
        v = self.const0(c, B)
        c['_t'] = v
        return v

    def const0(self, c, B):
        F = self.F
        if 'int' in c:
            return I(int(c['int']))
        if 'bool' in c:
            return Bo(c['bool'])
        if 'char' in c:
            x = c['char']
            return char(x if isinstance(x, str) else chr(x))
        if 'str' in c:
            return text([c['str']])
        if 'bytes' in c:
            return mk('bytes', bytes(c['bytes']))
        if 'fn' in c:
            f = c['fn']
            return self.fnval(f)
        if 'tuple' in c:
            return tup(*[self.const(x, B) for x in c['tuple']])
        if 'array' in c:
            return seq([self.const(x, B) for x in c['array']])
        if 'float' in c:
            return mk('float', c['float'])
        if 'adt' in c:
            t = F.types[c['adt']]
            fs = [self.const(x, B) for x in c.get('fields', [])]
            if t['path'] in IDENT_ADT and len(fs) >= 1:
                return fs[0]
            return mk('adt', t['path'], c.get('variant', 0), tuple(fs), ty=c['adt'])
        if 'promoted' in c:
            pb = self.F.bodies[c['owner']]['promoted'][c['promoted']] if 'owner' in c else B.promoted[c['promoted']]
            return self.promoted(pb, B)
        if 'zst' in c:
            ty = c.get('ty', c.get('cty'))
            t = F.types[ty]
            if t['k'] == 'closure':
                return mk('clo', t['inst'], (), ty=ty)
            return self.zst(ty)
        ty = c.get('cty')
        return mk('app', 'const', (json.dumps(c, sort_keys=True, default=str)[:200],), ty=ty)

    def promoted(self, pb, B):
        b = dict(pb)
        b.setdefault('path', B.path if B else 'promoted')
        b.setdefault('argc', 0)
        b.setdefault('local', False)
        key = -1 - id(pb)
        if key not in self.prepared:
            self.F.bodies[key] = b
            self.prep(key)
            del self.F.bodies[key]
            self.prepared[key].promoted = B.promoted if B else []
        outs = self.run(EMPTY, key, [])
        if len(outs) != 1:
            raise Imprecise('promoted constant')
        return outs[0][1]

    def rvalue(self, st, B, loc, r):
        k = r[0]
        F = self.F
        if k == 'use':
            return [(st, self.operand(st, B, loc, r[1]))]
        if k == 'ref' or k == 'rawptr':
            if r[1]:
                p, cur = self.ptr_to(st, B, loc, r[2])
                return [(st, p if p is not None else cur)]
            return [(st, self.read(st, B, loc, r[2]))]
        if k == 'adt':
            t = F.types[r[1]]
            fs = tuple(self.operand(st, B, loc, o) for o in r[3])
            if t['path'] in IDENT_ADT and fs:
                return [(st, fs[0])]
            return [(st, mk('adt', t['path'], r[2] or 0, fs, ty=r[1]))]
        if k == 'tuple':
            return [(st, tup(*[self.operand(st, B, loc, o) for o in r[1]]))]
        if k == 'array':
            return [(st, seq([self.operand(st, B, loc, o) for o in r[1]]))]
        if k == 'closure':
            return [(st, mk('clo', r[2], tuple(self.operand(st, B, loc, o) for o in r[3]), ty=r[1]))]
        if k == 'discr':
            v = self.read(st, B, loc, r[1])
            return [(st, self.discr(st, v, r[2]))]
        if k == 'bin':
            a, b = self.operand(st, B, loc, r[2]), self.operand(st, B, loc, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == 'un':
            a = self.operand(st, B, loc, r[2])
            return self.unop(st, r[1], a, r[3])
        if k == 'cast':
            a = self.operand(st, B, loc, r[2])
            return self.cast(st, r[1], a, r[3], r[4])
        if k == 'repeat':
            a = self.operand(st, B, loc, r[1])
            n = r[2] if len(r) > 2 else None
            if isinstance(n, int) and n <= 64:
                return [(st, seq([a] * n))]
        if k == 'len':
            return [(st, self.length(self.read(st, B, loc, r[1])))]
        raise Imprecise('rvalue ' + k + ' ' + str(r)[:80])

    def discr(self, st, v, ty):
        if v.k == 'adt':
            vs = self.F.variants(ty)
            if vs is None and v.ty is not None:
                vs = self.F.variants(v.ty)
            if vs:
                return I(int(vs[v.a[1]]['discr']))
            return I(v.a[1])
        if is_sym(v):
            if v.ty is None or self.F.variants(v.ty) is None:
                v.ty = self.F.strip(ty)
            x = self.variant(st, v)
            if x is not None:
                return I(int(self.F.variants(v.ty)[x]['discr']))
            return mk('discr', v)
        raise Imprecise('discriminant of ' + show(v))

    def binop(self, st, op, a, b, ty):
        F = self.F
        over = op.endswith('WithOverflow')
        base = op[:-12] if over else op[:-9] if op.endswith('Unchecked') else op
        if base in ('Eq', 'Ne'):
            if a.k == 'discr' or b.k == 'discr':
                return self.discr_eq(st, a, b, base == 'Eq')
            if self.isint(a) or self.isint(b):
                t = self.rng(sub(a, b), 0, 0)
                return [(st, t if base == 'Eq' else self.neg(t))]
            return [(s, Bo(x == (base == 'Eq'))) for s, x in self.eq(st, a, b)]
        if base in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            if a.k == 'char' or b.k == 'char' or (a.ty is not None and F.types[F.strip(a.ty)]['k'] == 'char'):
                return self.charcmp(st, base, a, b)
            if a.k == 'float' or (a.ty is not None and F.types[F.strip(a.ty)]['k'] == 'float'):
                return [(st, app('f' + base, a, b))]
            d = sub(a, b)
            if base == 'Cmp':
                out = []
                for lo, hi, v in ((None, -1, 0), (0, 0, 1), (1, None, 2)):
                    for s, x in self.truth(st, self.rng(d, lo, hi)):
                        if x:
                            out.append((s, adt(ORD, v)))
                return out
            lo, hi = {'Lt': (None, -1), 'Le': (None, 0), 'Gt': (1, None), 'Ge': (0, None)}[base]
            return [(st, self.rng(d, lo, hi))]
        if base in ('BitAnd', 'BitOr', 'BitXor') and F.types[ty]['k'] == 'bool':
            out = []
            for s, x in self.truth(st, a):
                for s2, y in self.truth(s, b):
                    out.append((s2, Bo({'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[base])))
            return out
        if base in ('Add', 'Sub', 'Mul'):
            if F.types[ty]['k'] == 'float':
                return [(st, app('f' + base, a, b, ty=ty))]
            if base == 'Add':
                v = add(a, b)
            elif base == 'Sub':
                v = sub(a, b)
            else:
                v = self.mul(a, b, ty)
            r = F.intrange(ty)
            if r is None:
                return [(st, v)]
            if over:
                if v.k == 'int':
                    inr = r[0] <= v.a[0] <= r[1]
                    return [(st, tup(v, Bo(not inr)))]
                return [(st, tup(v, self.neg(self.rng(v, r[0], r[1]))))]
            if op.endswith('Unchecked'):
                return [(st, v)]
            out = []
            for s, x in self.truth(st, self.rng(v, r[0], r[1])):
                out.append((s, v if x else app('wrap', v, ty=ty)))
            return out
        if base in ('Div', 'Rem'):
            if a.k == 'int' and b.k == 'int' and b.a[0]:
                q = abs(a.a[0]) // abs(b.a[0])
                q = q if (a.a[0] < 0) == (b.a[0] < 0) else -q
                return [(st, I(q if base == 'Div' else a.a[0] - q * b.a[0]))]
            if base == 'Div' and b.k == 'int' and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0 and (self.bounds(st, a)[0] is not None and self.bounds(st, a)[0] >= 0):
                return self.binop(st, 'Shr', a, I(b.a[0].bit_length() - 1), ty)
            return [(st, app(base.lower(), a, b, ty=ty))]
        if base in ('Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor'):
            if a.k == 'int' and b.k == 'int':
                x, y = a.a[0], b.a[0]
                v = {'Shl': lambda: x << y, 'Shr': lambda: x >> y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                     'BitXor': lambda: x ^ y}[base]()
                r = F.intrange(ty)
                if r and not r[0] <= v <= r[1]:
                    v &= (r[1] - r[0])
                return [(st, I(v))]
            if base == 'Shr' and b.k == 'int' and a.k == 'app' and a.a[0] == 'shr' and a.a[1][1].k == 'int':
                return [(st, app('shr', a.a[1][0], I(a.a[1][1].a[0] + b.a[0]), ty=ty))]
            return [(st, app({'BitAnd': 'and', 'BitOr': 'bor', 'BitXor': 'xor'}.get(base, base.lower()), a, b, ty=ty))]
        raise Imprecise('operator ' + op)

    def mul(self, a, b, ty=None):
        if a.k == 'int':
            return lin_sum([(a.a[0], b)])
        if b.k == 'int':
            return lin_sum([(b.a[0], a)])
        if a.id > b.id:
            a, b = b, a
        return app('mul', a, b)

    def isint(self, t):
        if t.k in ('int', 'lin'):
            return True
        if t.k == 'app' and t.a[0] in ('len', 'strlen', 'bitlen', 'max', 'min', 'mult'):
            return True
        return is_sym(t) and t.ty is not None and self.F.is_int(t.ty)

    def neg(self, t):
        if t.k == 'bool':
            return Bo(not t.a[0])
        if t.k == 'app' and t.a[0] == 'not':
            return t.a[1][0]
        return app('not', t)

    def discr_eq(self, st, a, b, pos):
        out = []
        xa = self.discr_cases(st, a)
        for s, i in xa:
            for s2, j in self.discr_cases(s, b):
                out.append((s2, Bo((i == j) == pos)))
        # alternatives with the same answer stay apart: the facts differ
        return out

    def discr_cases(self, st, a):
        if a.k == 'int':
            return [(st, a.a[0])]
        if a.k != 'discr':
            raise Imprecise('comparison of ' + show(a))
        vs = self.F.variants(a.a[0].ty)
        return [(s, int(vs[v]['discr'])) for s, v in self.cases(st, a.a[0])]

    def charcmp(self, st, op, a, b):
        import operator
        f = {'Lt': operator.lt, 'Le': operator.le, 'Gt': operator.gt, 'Ge': operator.ge}.get(op)
        if f is None:
            raise Imprecise('character comparison')
        if b.k == 'char':
            return [(s, Bo(x)) for s, x in self.splitchar(st, a, lambda c: f(c, b.a[0]))]
        if a.k == 'char':
            return [(s, Bo(x)) for s, x in self.splitchar(st, b, lambda c: f(a.a[0], c))]
        raise Imprecise('character comparison')

    def unop(self, st, op, a, ty):
        if op == 'Not':
            if self.F.types[ty]['k'] == 'bool':
                return [(st, self.neg(a))]
            return [(st, app('bitnot', a, ty=ty))]
        if op == 'Neg':
            if self.F.types[ty]['k'] == 'float':
                return [(st, app('fneg', a, ty=ty))]
            return [(st, lin_sum([(-1, a)]))]
        if op == 'PtrMetadata':
            return [(st, self.length(self.deref(st, a)))]
        raise Imprecise('operator ' + op)

    def cast(self, st, kind, a, to, frm):
        F = self.F
        if kind.startswith('IntToInt'):
            if a.k == 'char':
                a = I(ord(a.a[0]))
            if a.k == 'bool':
                return [(st, I(int(a.a[0])))]
            tt, ft = F.types[to], F.types[frm]
            if tt['k'] == 'char':
                if a.k == 'int':
                    return [(st, char(chr(a.a[0])))]
                raise Imprecise('cast to char')
            if ft['k'] in ('char', 'bool'):
                if ft['k'] == 'bool':
                    return [(s, I(int(b))) for s, b in self.truth(st, a)]
                if a.k != 'int':
                    return [(st, app('ord', a, ty=to))]
            if a.k == 'discr':
                return [(s, I(n)) for s, n in self.discr_cases(st, a)]
            r = F.intrange(to)
            if r is None:
                return [(st, a)]
            if a.k == 'int':
                v = a.a[0]
                if not r[0] <= v <= r[1]:
                    v = (v - r[0]) % (r[1] - r[0] + 1) + r[0]
                return [(st, I(v))]
            out = []
            for s, x in self.truth(st, self.rng(a, r[0], r[1])):
                out.append((s, a if x else app('wrap', a, ty=to)))
            return out
        if kind.startswith(('Pointer', 'PtrToPtr', 'Transmute', 'Subtype', 'BoxDeref', 'Unsize', 'Reify')) or 'Coercion' in kind or 'Transmute' in kind or 'Ptr' in kind:
            return [(st, a)]
        if 'Float' in kind:
            return [(st, app('cast' + kind, a, ty=to))]
        raise Imprecise('cast ' + kind)

    # ------------------------------------------------------------------ calls
    def call(self, st, f, args, cx):
        F = self.F
        if 'ctor' in f:
            ty, v = f['ctor']
            p = F.types[ty]['path']
            return [(st, mk('adt', p, v, tuple(args), ty=ty))]
        path = f.get('rpath') or f.get('path')
        o = self.over.get(path)
        if o is not None:
            r = o(self, st, args, cx)
            if r is not None:
                return r
        key = fnkey(f)
        inst = f.get('inst')
        if key in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once'):
            t = args[1]
            if t.k != 'tup':
                t = self.expose(st, t)
            return self.callv(st, args[0], list(t.a[0]), cx)
        local = f.get('local') and inst in F.bodies
        if not local:
            n = self.natives.get(key)
            if n is not None:
                cx2 = cx if cx.f is f else Cx(f, cx.ty, cx.argtys, cx.line)
                r = n(self, st, args, cx2)
                if r is not None:
                    return r
            # trait methods of local types, by the value of the receiver
            if f.get('trait'):
                it = self.dispatch(st, f, args, cx)
                if it is not None:
                    o = self.over.get(it['path'])
                    if o is not None:
                        r = o(self, st, args, cx)
                        if r is not None:
                            return r
                    return self.enter(st, it['inst'], it['path'], args, cx)
        if inst in F.bodies:
            return self.enter(st, inst, path, args, cx)
        return self.unknown(st, key, args, cx)

    def unknown(self, st, key, args, cx):
        if any(a.k == 'ptr' for a in args) or any(a.k == 'clo' for a in args):
            raise Imprecise('no transfer function for ' + key)
        self.note('no transfer function for ' + key)
        return [(st, mk('app', 'call:' + key, tuple(args), ty=cx.ty))]

    def dispatch(self, st, f, args, cx):
        if not args:
            return None
        v = args[0]
        v = self.deref(st, v)
        p = self.pathof(v)
        if p is None:
            return None
        tr = short(f['trait'])
        c = [it for it in self.F.trait_items(tr, f['name']) if self.F.path(it['self']) == p and it.get('inst') in self.F.bodies]
        if not c:
            return None
        if len(c) > 1 and len(args) > 1:
            q = self.pathof(self.deref(st, args[1]))
            c2 = [it for it in c if len(it.get('targs', [])) > 1 and self.F.path(it['targs'][1]) == q]
            c = c2 or c
        return c[0]

    def pathof(self, v):
        if v.k == 'adt':
            return v.a[0]
        if is_sym(v) and v.ty is not None:
            return self.F.path(v.ty)
        return None

    def enter(self, st, inst, path, args, cx):
        """Call of a function with a body, with the guard against unbounded recursion."""
        n = 0
        # an implementation for all types of some kind may be used for several types
        blanket = path.startswith('<std::') or path.startswith('<T as')
        for b, _ in self.stack:
            if b.path == path and (b.id == inst or not blanket):
                n += 1
        if n and self.F.bodies[inst]['local']:
            txt = any(a.k in ('str', 'input') for a in args)
            symarg = any(is_sym(self.deref(st, a)) and self.local_data(self.deref(st, a)) for a in args if a.k != 'undef')
            if not txt and symarg and '{closure' not in path and 'Display' not in path:
                if any(a.k == 'ptr' for a in args):
                    r = self.symcall and self.symcall(self, st, path, args, cx)
                    if r is not None:
                        return r
                    raise Imprecise('recursive call with mutable arguments: ' + path)
                if len(args) == 2 and args[0] is args[1] and path.endswith('::eq') and 'PartialEq' in path:
                    return [(st, TRUE)]
                return [(st, self.hypcall(self.alias(path), args, cx.ty))]
            if n > 40:
                raise Imprecise('recursion: ' + path)
        if self.call_hook is not None:
            r = self.call_hook(self, st, inst, path, args, cx)
            if r is not None:
                return r
        return self.run(st, inst, args)

    def hypcall(self, path, args, ty=None):
        """The result of a call the induction hypothesis speaks about."""
        args = tuple(args)
        if path in self.symmetric and len(args) == 2 and args[0].id > args[1].id:
            args = (args[1], args[0])
        return mk('app', 'call:' + path, args, ty=ty)

    def alias(self, path):
        """A helper which the analysed function hands all its arguments to recurses on its behalf."""
        root = self.frames[0]
        if root[0] != path:
            for p, a in self.frames:
                if p == path:
                    if len(a) == len(root[1]) and all(x is y for x, y in zip(a, root[1])):
                        return root[0]
                    break
        return path

    def local_data(self, v):
        if v.ty is None:
            return False
        i = self.F.strip(v.ty)
        t = self.F.types[i] if i is not None else None
        return t is not None and t['k'] == 'adt' and (t.get('local') or self.F.is_coll(i))

    def callv(self, st, f, args, cx=None):
        """Call of a function value."""
        cx = cx or Cx()
        k = f.k
        if k == 'clo':
            inst = f.a[0]
            B = self.prep(inst)
            t = self.F.types[B.locals[1]]
            if t['k'] == 'ref' and t.get('mut'):
                st2, c = st.alloc(f)
                outs = []
                for s, v in self.enter(st2, inst, B.path, [mk('ptr', c, ())] + args, cx):
                    if s.store.get(c) is not f:
                        raise Imprecise('closure with private state')
                    outs.append((s.free(c), v))
                return outs
            return self.enter(st, inst, B.path, [f] + args, cx)
        if k == 'fn':
            fr = self.fnrefs[f.a[0]]
            return self.call(st, fr, args, Cx(fr, cx.ty, cx.argtys, cx.line))
        if k == 'ptr':
            g = self.load(st, f)
            if g.k == 'clo':
                B = self.prep(g.a[0])
                t = self.F.types[B.locals[1]]
                if t['k'] == 'ref' and t.get('mut'):
                    return self.enter(st, g.a[0], B.path, [f] + args, cx)
            if g.k == 'adt':
                return self.parse_local(st, f, g, args, cx)
            return self.callv(st, g, args, cx)
        if k == 'nomp':
            return self.runparser(st, f, args, cx)
        if k == 'adt':
            st2, c = st.alloc(f)
            return [(s.free(c), v) for s, v in self.parse_local(st2, mk('ptr', c, ()), f, args, cx)]
        if k == 'native':
            return f.a[0](self, st, args, cx)
        if is_sym(f) and self.symcall is not None:
            r = self.symcall(self, st, f, args, cx)
            if r is not None:
                return r
        raise Imprecise('call of ' + show(f))

    def parse_local(self, st, p, g, args, cx):
        for it in self.F.trait_items('Parser', 'parse'):
            if self.F.path(it['self']) == g.a[0]:
                return self.enter(st, it['inst'], it['path'], [p] + args, cx)
        raise Imprecise('call of ' + show(g))

    def callm(self, st, f, args, cx=None):
        """Call of an owned function value: (state, value, function value afterwards)."""
        if f.k == 'clo':
            B = self.prep(f.a[0])
            t = self.F.types[B.locals[1]]
            if t['k'] == 'ref' and t.get('mut'):
                st2, c = st.alloc(f)
                return [(s.free(c), v, s.store[c]) for s, v in
                        self.enter(st2, f.a[0], B.path, [mk('ptr', c, ())] + args, cx or Cx())]
        return [(s, v, f) for s, v in self.callv(st, f, args, cx)]

    def runparser(self, st, f, args, cx):
        raise Imprecise('parser value')

    def call_item(self, st, item, args):
        """Analyse a local function as an entry point."""
        cx = Cx({}, item.get('output'), item.get('inputs', ()), 0)
        try:
            return self.run(st, item['inst'], args)
        except Imprecise as e:
            self.note(str(e))
            return []
