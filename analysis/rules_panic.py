"""No panic is reachable (C13)."""
import re
from core import *
from core import apps
from engine import Imprecise, EMPTY, St, OPT
from terms import *
from facts import short, fnkey
from anytext import AnyText, parserty
import models
import nomlib

DIVERGING = re.compile(r'(^|::)(panicking|option|result|rt|slice::index|str|slice)::\w*(panic|unwrap_failed|expect_failed|begin_panic|assert_failed|slice_index_fail|unreachable)')


def sites(F):
    """Every construct of the crate which can end in a panic: assertions and calls of functions which never return."""
    out = {}
    for b in F.bodies.values():
        if not b['local']:
            continue
        for bl in b['blocks']:
            t = bl['t']
            if t[0] == 'assert':
                out.setdefault((b['path'], t[5] if len(t) > 5 else 0, str(t[3])), b)
            elif t[0] == 'call' and t[-1] is None:
                pass
    return out


class Generic:
    """Runs a function on arbitrary arguments.  Calls of functions which are analysed on arbitrary arguments themselves
    are replaced by an arbitrary result."""

    def __init__(self, C):
        self.C, self.F = C, C.F
        self.E = E = C.engine()
        nomlib.install(E)
        E.anymode = True
        E.domerge = 'exact'
        E.visit_limit = 300
        E.produce = lambda st, v: None
        E.noprogress = lambda st, w: None
        E.call_hook = self.hook
        self.A = AnyText.__new__(AnyText)
        self.A.C, self.A.F, self.A.E = C, C.F, E
        self.roots = {it['path'] for it in self.F.items if (it['public'] or it.get('trait')) and it['inst'] in self.F.bodies}
        # conversions say what they yield
        self.inline = {it['path'] for it in self.F.items if short(it.get('trait') or '') in ('From', 'Into')}
        self.rec = {self.F.bodies[i]['path'] for i in recursive(self.F)}
        self.n = 0
        self.items = {it['path'] for it in self.F.trait_items('Iterator', 'next')}
        self.items = {p: True for p in self.items}
        E.natives['Read::read_to_string'] = self.read
        unknown = E.unknown

        def other(st, key, args, cx):
            """A method of an unknown implementation of a trait of the crate: all of them are analysed on their own."""
            f = cx.f or {}
            if f.get('trait') and any(i['path'] == f.get('path') or i.get('trait') == f['trait'] for i in self.F.items):
                return self.result(st, args, [], cx.ty)
            return unknown(st, key, args, cx)
        E.unknown = other
        E.symcall = lambda E, st, f, args, cx: self.result(st, args, [], cx.ty) if isinstance(f, T) and cx.ty is not None else None
        into = E.natives['Into::into']

        def convert(E, st, a, c):
            v = E.deref(st, a[0])
            if is_sym(v) and v.ty is not None and self.F.types[self.F.strip(v.ty)]['k'] in ('param', 'alias'):
                return self.result(st, [], [], c.ty)
            return into(E, st, a, c)
        E.natives['Into::into'] = convert

        def nodes(E, st, a, c):
            """Some of the nodes of a tree."""
            t = E.deref(st, a[0]).ty
            out = []
            for n in range(E.max_elems + 1):
                xs = []
                for i in range(n):
                    (st, v), = self.result(st, [], [], t)
                    xs.append(v)
                out.append((st, mk('it', 'list', tuple(xs))))
            return out
        E.anyitems = lambda st: self.result(st, [], [], None)
        E.natives['AutoTransIter::trans_iter'] = nodes
        for o in ('breadth_first', 'depth_first', 'depth_first_unordered'):
            E.natives['TransIter::' + o] = lambda E, st, a, c: [(st, a[0])]

    def read(self, E, st, a, c):
        """Reading fails at any point or yields any text."""
        self.n += 1
        s = E.store(st, a[1], mk('sym', 'read%d.%d' % (self.b, self.n), ty=self.F.named('str')))
        return self.result(s, [], [], c.ty)

    def result(self, st, args, tys, ty):
        self.n += 1
        name = 'result%d.%d' % (self.b, self.n)
        if any(a.k == 'ptr' for a in args):
            for a in args:
                if a.k == 'ptr':
                    q = models.sink_of(self.E, st, a)
                    old = self.E.load(st, q)
                    if old.ty is None:
                        raise Imprecise('an argument of an unknown method')
                    st = self.E.store(st, q, self.fresh(old.ty, name + '.a'))
        if ty is None:
            return [(st, mk('sym', name))]
        return [self.A.generic(st, self.fresh(ty, name), self.F.strip(ty), name)]

    def formatter(self, t):
        x = self.F.types[t]
        if x['k'] == 'ref':
            x = self.F.types[x['of']]
        return (x['k'] == 'adt' and short(x['path']) == 'Formatter')

    def arg(self, st, t, name):
        """An arbitrary value of a type."""
        F, E = self.F, self.E
        x = F.types[t]
        if x['k'] == 'ref':
            if self.formatter(t):
                st, c = st.alloc(text([]))
                return st, mk('ptr', c, ())
            if x.get('mut'):
                st, v = self.arg(st, x['of'], name)
                st, c = st.alloc(v)
                return st, mk('ptr', c, ())
            return self.arg(st, x['of'], name)
        i = F.strip(t)
        return self.A.generic(st, self.fresh(i, name), i, name)

    def fresh(self, i, name, d=0):
        F, E = self.F, self.E
        i = F.strip(i)
        x = F.types[i]
        if x['k'] == 'tuple':
            return tup(*[self.fresh(y, '%s.%d' % (name, n), d + 1) for n, y in enumerate(x['of'])])
        if x['k'] == 'adt' and len(x.get('variants') or ()) == 1 and x.get('local') and d < 3:
            return mk('adt', x['path'], 0, tuple(self.fresh(f[1], name + '.' + f[0], d + 1) for f in x['variants'][0]['fields']), ty=i)
        return mk('sym', name, ty=i)

    def hook(self, E, st, inst, path, args, cx):
        F = self.F
        b = F.bodies[inst]
        if not b['local'] or '{closure' in path:
            return None
        depth = sum(1 for x, _ in E.stack if x.local)
        if depth == 0 or path in self.inline or not (path in self.roots or path in self.rec):
            return None
        l = b['locals'][0]
        t = l if isinstance(l, int) else l[0]
        if lazy(F, t):
            return None
        rt, self.n = t, self.n + 1
        name = 'result%d.%d' % (self.b, self.n)
        for i, a in enumerate(args):
            l = b['locals'][i + 1]
            t = l if isinstance(l, int) else l[0]
            if a.k == 'ptr' and F.is_mutref(t):
                q = models.sink_of(E, st, a) if self.formatter(t) else None
                if q is not None:
                    st = E.store(st, q, text([E.load(st, q), mk('sym', name + '.w', ty=F.named('str'))]))
                    continue
                old = E.load(st, a)
                if old.k in ('ptr', 'clo', 'native', 'it', 'nomp'):
                    raise Imprecise('a mutable argument of ' + path)
                st, g = self.A.generic(st, self.fresh(t, name + '.a%d' % i), F.strip(t), name)
                st = E.store(st, a, g)
        t = rt
        if self.items.get(path):
            # an iterator: as many items as collections have
            n = st.cons.get(('items', path), 0)
            if n == E.max_elems:
                return [(st, mk('adt', OPT, 0, (), ty=F.strip(t)))]
            st = st.fact(('items', path), n + 1)
        if F.is_mutref(t):
            st, v = self.A.generic(st, self.fresh(t, name), F.strip(t), name)
            st, c = st.alloc(v)
            return [(st, mk('ptr', c, ()))]
        st, v = self.A.generic(st, self.fresh(t, name), F.strip(t), name)
        return [(st, v)]

    def run(self, b):
        E = self.E
        E.notes, E.panics, E.steps, self.n, self.b = [], [], 0, 0, b['id']
        st, vals = EMPTY, []
        try:
            for i in range(b['argc']):
                l = b['locals'][i + 1]
                st, v = self.arg(st, l if isinstance(l, int) else l[0], 'arg%d.%d' % (b['id'], i))
                vals.append(v)
            for s, v in E.run(st, b['id'], vals):
                if v.k == 'it':
                    self.items_of(s, v)
        except Imprecise as e:
            E.note(str(e))
        return E.notes, E.panics


    def items_of(self, st, v):
        """The first items of an iterator a function returns."""
        work = [(st, v, 0)]
        while work:
            s, j, n = work.pop()
            for s2, j2, x in models.norm_next(self.E, models.inext(self.E, s, j)):
                if x.a[1] == 1 and n < self.E.max_elems:
                    work.append((s2, j2, n + 1))


def lazy(F, t):
    """Types of iterators which work only when they are asked."""
    x = F.types[F.strip(t)]
    if x['k'] in ('alias', 'dyn', 'closure', 'param', 'opaque'):
        return True
    return x['k'] == 'adt' and ('iter' in x['path'].lower() or not x.get('local') and any(lazy(F, a) for a in x.get('args', ())))


INTERPRETED = {'in', 'eq', 'not', 'len', 'strlen', 'bitlen', 'max', 'min', 'mult', 'shl', 'shr', 'mul', 'cmp', 'rep', 'fmtint', 'display', 'const'}


def doubtful(st):
    """The path depends on calls which are not understood, or on several operations whose connection is not."""
    acc = set()
    for k in st.cons:
        if len(k) > 1 and isinstance(k[1], T):
            acc |= apps(k[1])
    acc -= INTERPRETED
    return any(a.startswith('call:') for a in acc) or len(acc) > 1


def report(R, E, what, notes, panics):
    seen = set()
    bad = False
    for msg, w, st, stack in panics:
        if (msg, w) in seen:
            continue
        seen.add((msg, w))
        key = '%s:%s' % (w[0], msg.split(' ')[0])
        desc = '%s can panic: %s (%s:%s) [%s]%s' % (w[0], msg, w[1], w[2], what, ' when ' + facts_text(E, st) if facts_text(E, st) else '')
        bad = True
        if doubtful(st) or witness(E, st, I(0), I(1)) is None:
            R.unknown('panics', desc)
        else:
            R.bad('panics', key, desc)
    return bad


def c13(C):
    R = Report('C13')
    F = C.F
    A = AnyText(C)
    A.standard()
    A.fix()
    R.analysed |= A.E.analysed
    for x, r in A.records.items():
        b = F.bodies.get(x)
        what = '%s on any text' % where(b) if b else 'entry point: ' + str(x)
        bad = report(R, A.E, what, r.notes, list(r.panics.values()))
        for n in r.notes[:2]:
            R.unknown('parsers', '%s: %s at %s' % (what, n[0], n[1]))
        if not bad and not r.notes:
            R.ok('parsers', what)
    G = Generic(C)
    done = set()
    for it in F.items:
        if it['path'] not in G.roots or it['path'] in done:
            continue
        done.add(it['path'])
        b = C.mono(it['path'])
        if b['id'] in A.roots or b['path'] in A.E.analysed and parserty(C, b) is not None:
            continue
        what = where(b) + ' on any arguments'
        notes, panics = G.run(b)
        bad = report(R, G.E, what, notes, panics)
        for n in notes[:2]:
            R.unknown('functions', '%s: %s at %s' % (what, n[0], n[1]))
        if not bad and not notes:
            R.ok('functions', what)
    R.analysed |= G.E.analysed
    R.unseen = []
    for (p, line, msg), b in sites(F).items():
        if p in R.analysed:
            R.ok('panic sites', '%s:%s %s' % (p, line, msg))
        else:
            R.unknown('panic sites', '%s:%s %s: the function is not reached by the analysis' % (p, line, msg))
    return R
