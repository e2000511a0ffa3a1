"""Shared parts of the rules: the model of the crate, obligations and reports."""
import itertools
import json
import os
import sys
import time
from terms import *
from engine import *
from engine import Imprecise, Engine, St, EMPTY, Cx, DEADLINE
from facts import Facts, short
import models

UINT_MAX = 65535


START = time.time()
BUDGET = 660            # seconds until an analysis is cut short
AFTER_FIRST = 30        # seconds others go on after the first violation


class Deadline(BaseException):
    """Time is up."""


class Missing(Exception):
    """An anchor of a property is not in the program."""


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.notify = None
        self.proved = 0
        self.obligations = 0
        self.violations = []      # (key, text)
        self.undecided = []
        self.groups = {}
        self.analysed = set()
        self.samples = []
        self.assumptions = []

    def group(self, g, n=1):
        self.groups[g] = self.groups.get(g, 0) + n

    def ok(self, g, what=None):
        self.obligations += 1
        self.proved += 1
        self.group(g)
        if what and len(self.samples) < 12 and not any(s.startswith(g) for s in self.samples):
            self.samples.append(g + ': ' + what)

    def bad(self, g, key, textv):
        self.obligations += 1
        self.group(g)
        if not any(k == key for k, _ in self.violations):
            self.violations.append((key, textv))
            if self.notify is not None:
                os.write(self.notify, b'!')
                self.notify = None

    def unknown(self, g, what):
        self.obligations += 1
        self.group(g)
        self.undecided.append(g + ': ' + what)

    def parallel(self, work, jobs=8):
        """Run work(i, jobs) in forked copies of this process and merge what they report.  work returns something to pickle."""
        import os
        import pickle
        import select
        import signal
        import sys
        n = max(1, min(jobs, len(os.sched_getaffinity(0))))
        procs = []
        tell, told = os.pipe()
        sys.stdout.flush()
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    self.__init__(self.prop)
                    self.notify = told
                    left = BUDGET - (time.time() - START)

                    def late(*_):
                        raise Deadline()
                    signal.signal(signal.SIGALRM, late)
                    signal.setitimer(signal.ITIMER_REAL, max(1, left))
                    x = None
                    try:
                        x = work(i, n)
                        signal.signal(signal.SIGALRM, signal.SIG_IGN)
                    except Deadline:
                        signal.signal(signal.SIGALRM, signal.SIG_IGN)
                        self.unknown('time', 'the analysis was cut short (share %d of %d)' % (i + 1, n))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump((self.proved, self.obligations, self.violations, self.undecided, self.groups, self.analysed, self.samples, x), f)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            procs.append((pid, r))
        out = []
        bad = 0
        got = {r: b'' for _, r in procs}
        live, found = set(got), None
        while live:
            for r in select.select(list(live) + [tell], [], [], 5)[0]:
                if r == tell:
                    os.read(tell, 4096)
                    found = found or time.time()
                    continue
                d = os.read(r, 1 << 20)
                got[r] += d
                if not d:
                    live.discard(r)
                    os.close(r)
            if found is not None and time.time() - found > AFTER_FIRST:
                # a violation is enough
                for pid, r in procs:
                    if r in live:
                        os.kill(pid, signal.SIGALRM)
                found = time.time() + 60
        os.close(tell)
        os.close(told)
        for pid, r in procs:
            data = got[r]
            _, st = os.waitpid(pid, 0)
            if st or not data:
                bad += 1
                continue
            p, o, v, u, g, a, sm, x = pickle.loads(data)
            self.proved += p
            self.obligations += o
            for k, t in v:
                if not any(k == k2 for k2, _ in self.violations):
                    self.violations.append((k, t))
            self.undecided += u
            for k, c in g.items():
                self.group(k, c)
            self.analysed |= a
            for t in sm:
                if len(self.samples) < 12:
                    self.samples.append(t)
            out.append(x)
        if bad and not self.violations:
            raise RuntimeError('%d analysis workers failed' % bad)
        return out


class Ctx:
    def __init__(self, raw, tier='quick'):
        self.F = Facts(raw)
        self.tier = tier
        self.cache = {}

    def engine(self, **kw):
        kw.setdefault('max_elems', 2 if self.tier == 'quick' else 3)
        E = Engine(self.F, **kw)
        E.ctx = self
        return E

    # ---- finding things
    def adt(self, name):
        """Type id of the local ADT with the given last path segment."""
        k = ('adt', name)
        if k not in self.cache:
            r = None
            for i, t in enumerate(self.F.types):
                if t['k'] == 'adt' and t.get('local') and (t['path'] == name or t['path'].endswith('::' + name)):
                    pri = 2 if 'Entity' in t['s'].split('<', 1)[-1] and '<' in t['s'] else 1
                    if '<' in t['s'] and pri == 1:
                        pri = 0
                    if name in ('Entity',):
                        pri = 1
                    if r is None or pri > r[0]:
                        r = (pri, i)
            if r is None:
                raise Missing('type ' + name)
            self.cache[k] = r[1]
        return self.cache[k]

    def path(self, name):
        return self.F.types[self.adt(name)]['path']

    def variant(self, tyname, vname):
        for i, v in enumerate(self.F.variants(self.adt(tyname))):
            if v['name'] == vname:
                return i
        raise Missing('%s::%s' % (tyname, vname))

    def fieldidx(self, tyname, fname, v=0):
        for i, f in enumerate(self.F.variants(self.adt(tyname))[v]['fields']):
            if f[0] == fname:
                return i
        raise Missing('%s.%s' % (tyname, fname))

    def fieldby(self, tyname, want, v=0):
        """Index of the only field whose type (behind pointers) is called so."""
        c = []
        for i, f in enumerate(self.F.variants(self.adt(tyname))[v]['fields']):
            t = self.F.strip(f[1])
            n = self.F.types[t]
            if n['s'] == want or (n['k'] == 'adt' and short(n['path']) == want) or n['k'] == want:
                c.append(i)
        if len(c) != 1:
            raise Missing('%s: field of type %s' % (tyname, want))
        return c[0]

    def retty(self, body):
        l = body['locals'][0]
        return l if isinstance(l, int) else l[0]

    def argty(self, body, i):
        l = body['locals'][i + 1]
        return self.F.strip(l if isinstance(l, int) else l[0])

    def sym(self, name, tyname):
        return sym(name, self.adt(tyname))

    def mono(self, path, self_ty=None):
        """The most concrete instance of a function."""
        best = None
        for b in self.F.bodies.values():
            if b['path'] == path:
                args = [self.F.types[a]['s'] for a in b['args']]
                pri = 0
                if any('Entity' in a for a in args):
                    pri = 2
                elif not any(self.F.types[a]['k'] in ('param', 'alias') for a in b['args']):
                    pri = 1
                if best is None or pri > best[0]:
                    best = (pri, b)
        if best is None:
            raise Missing('function ' + path)
        return best[1]

    def method(self, trait, name, tyname):
        """The body of a trait method of a local type."""
        p = self.path(tyname)
        for it in self.F.trait_items(trait, name):
            if self.F.path(it['self']) == p:
                return self.mono(it['path'])
        raise Missing('<%s as %s>::%s' % (tyname, trait, name))

    def fn(self, suffix, required=True):
        """The body of an inherent or free function by the end of its path."""
        segs = suffix.split('::')
        c = []
        for it in self.F.items:
            if it['name'] == segs[-1] and it.get('trait') is None:
                q = strip_generics(it['path']).replace('r#', '')
                if q == suffix or q.endswith('::' + suffix):
                    c.append(it['path'])
        if not c:
            if required:
                raise Missing('function ' + suffix)
            return None
        return self.mono(c[0])


def edges(F):
    """Call graph over bodies: calls, function values, closures and drops."""
    g = getattr(F, '_edges', None)
    if g is not None:
        return g
    g = {}

    def fns(x, acc):
        if isinstance(x, dict):
            if x.get('inst') and ('path' in x or 'rpath' in x):
                acc.add(x['inst'])
            for y in x.values():
                fns(y, acc)
        elif isinstance(x, list):
            for y in x:
                fns(y, acc)
    for i, b in F.bodies.items():
        acc = set()
        for l in b['locals']:
            t = F.types[l if isinstance(l, int) else l[0]]
            if t['k'] == 'closure':
                acc.add(t['inst'])
        for bl in b['blocks']:
            fns(bl['s'], acc)
            fns(bl['t'], acc)
        for p in b.get('promoted') or []:
            fns(p, acc)
        g[i] = {x for x in acc if x in F.bodies}
    F._edges = g
    return g


def reach(F, roots):
    g = edges(F)
    seen, work = set(), list(roots)
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            work += g.get(x, ())
    return seen


def recursive(F):
    """Local functions which can call themselves."""
    return {i for i, b in F.bodies.items() if b['local'] and any(i in reach(F, [j]) for j in edges(F)[i])}


def strip_generics(p):
    d, out = 0, []
    for c in p:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).replace('::::', '::')


# ---- terms

def evalint(t, env):
    """Value of an integer term under an assignment of its leaves, or None."""
    if t.k == 'int':
        return t.a[0]
    if t.k == 'lin':
        s = t.a[1]
        for x, c in t.a[0]:
            v = evalint(x, env)
            if v is None:
                return None
            s += c * v
        return s
    if t in env:
        return env[t]
    if t.k == 'app':
        op, a = t.a
        if op in ('max', 'min', 'shl', 'mul', 'bitlen', 'div', 'rem', 'shr', 'and'):
            v = [evalint(x, env) if isinstance(x, T) else x for x in a]
            if None in v:
                return None
            try:
                return {'max': lambda: max(v), 'min': lambda: min(v), 'shl': lambda: v[0] << v[1], 'mul': lambda: v[0] * v[1],
                        'bitlen': lambda: abs(v[0]).bit_length(), 'div': lambda: v[0] // v[1], 'rem': lambda: v[0] % v[1],
                        'shr': lambda: v[0] >> v[1], 'and': lambda: v[0] & v[1]}[op]()
            except (ZeroDivisionError, ValueError):
                return None
    return None


def intleaves(t, acc):
    if t.k == 'lin':
        for x, _ in t.a[0]:
            intleaves(x, acc)
    elif t.k == 'app' and t.a[0] in ('max', 'min', 'shl', 'mul', 'bitlen', 'div', 'rem', 'shr', 'and'):
        for x in t.a[1]:
            if isinstance(x, T):
                intleaves(x, acc)
    elif t.k != 'int' and isinstance(t, T):
        acc.append(t)
    return acc


def witness(E, st, a, b, pred=lambda x, y: x != y, limit=60000):
    """An assignment allowed by the facts under which two integer terms differ."""
    leaves = []
    for t in (a, b):
        intleaves(t, leaves)
    facts, rest = [], []
    for k, v in st.cons.items():
        if k[0] == 'int':
            ls = []
            intleaves(k[1], ls)
            rest.append((k[1], v, ls))
    # only what is related to the two terms matters
    more = True
    while more:
        more = False
        for f in list(rest):
            if any(x is y for x in f[2] for y in leaves):
                rest.remove(f)
                facts.append(f[:2])
                leaves += f[2]
                more = True
    leaves = list(dict.fromkeys(leaves))
    if len(leaves) > 6:
        return None
    doms = []
    for x in leaves:
        lo, hi = E.bounds(st, x)
        c = set()
        for v in (0, 1, 2, 3, 5, 7, 16, 100, 1000, 32767, 65535, -1, -2, -5, -100, -32768):
            c.add(v)
        for v in (lo, hi):
            if v is not None:
                c |= {v, v + 1, v - 1, v + 2}
        doms.append(sorted(v for v in c if (lo is None or v >= lo) and (hi is None or v <= hi)))
    n = 0
    for vals in itertools.product(*doms):
        n += 1
        if n > limit:
            return None
        env = dict(zip(leaves, vals))
        good = True
        for t, (lo, hi) in facts:
            v = evalint(t, env)
            if v is None or (lo is not None and v < lo) or (hi is not None and v > hi):
                good = False
                break
        if not good:
            continue
        x, y = evalint(a, env), evalint(b, env)
        if x is not None and y is not None and pred(x, y):
            return env, x, y
    return None


def provably_eq(E, st, a, b):
    """True, False (definitely different) or None."""
    rs = set(r for _, r in E.eq(st, a, b))
    if rs == {True}:
        return True
    if rs == {False}:
        return False
    return None


def same(E, st, a, b, depth=0):
    """Equality of two values as far as it is provable, looking through eta-expansion."""
    if a is b:
        return True
    if depth > 40:
        return False
    if a.k == 'adt' and b.k == 'adt':
        return a.a[0] == b.a[0] and a.a[1] == b.a[1] and all(same(E, st, x, y, depth + 1) for x, y in zip(a.a[2], b.a[2]))
    if a.k == 'adt' or b.k == 'adt':
        if a.k != 'adt':
            a, b = b, a
        if not is_sym(b) or b.ty is None:
            return False
        v = E.variant(st, b) if E.F.variants(b.ty) else None
        if v is None:
            f = st.cons.get(('var', b))
            return False
        return v == a.a[1] and all(same(E, st, x, E.field(b, v, i), depth + 1) for i, x in enumerate(a.a[2]))
    if a.k == 'tup' and b.k == 'tup':
        return len(a.a[0]) == len(b.a[0]) and all(same(E, st, x, y, depth + 1) for x, y in zip(a.a[0], b.a[0]))
    if a.k == 'tup' or b.k == 'tup':
        if a.k != 'tup':
            a, b = b, a
        return is_sym(b) and all(same(E, st, x, E.field(b, 0, i), depth + 1) for i, x in enumerate(a.a[0]))
    if a.k in ('seq', 'map', 'set') or b.k in ('seq', 'map', 'set'):
        if a.k not in ('seq', 'map', 'set'):
            a, b = b, a
        if b.k in ('seq', 'map', 'set'):
            return len(a.a[0]) == len(b.a[0]) and all(same(E, st, x, y, depth + 1) for x, y in zip(a.a[0], b.a[0]))
        if not is_sym(b):
            return False
        alts = E.expand(st, b)
        return len(alts) == 1 and len(alts[0][1]) == len(a.a[0]) and all(same(E, st, x, y, depth + 1) for x, y in zip(a.a[0], alts[0][1]))
    if a.k in ('int', 'lin') or b.k in ('int', 'lin'):
        l, h = E.bounds(st, sub(a, b))
        return l == 0 and h == 0
    if a.k == 'bool' and is_sym(b) or b.k == 'bool' and is_sym(a):
        if a.k != 'bool':
            a, b = b, a
        rs = E.truth(st, b)
        return len(rs) == 1 and rs[0][1] == a.a[0]
    if is_sym(a) and is_sym(b):
        if a.ty is not None and E.F.is_int(a.ty):
            l, h = E.bounds(st, sub(a, b))
            if l == 0 and h == 0:
                return True
        for x, y in ((a, b), (b, a)):
            vs = E.F.variants(x.ty) if x.ty is not None else None
            if vs:
                f = E.feasible(st, x)
                g = E.feasible(st, y) if y.ty is not None and E.F.variants(y.ty) else None
                if len(f) == 1 and g == f:
                    v = next(iter(f))
                    n = len(vs[v]['fields'])
                    if E.F.path(x.ty) == E.F.path(y.ty) and all(same(E, st, E.field(x, v, i), E.field(y, v, i), depth + 1) for i in range(n)) and (n or len(vs) > 1):
                        return True
        c = st.cons.get(('b', mk('app', 'eq', (a, b) if a.id < b.id else (b, a))))
        return c is True
    if a.k == 'str' or b.k == 'str':
        if a.k == 'str' and b.k == 'str':
            return all(p is q or p == q for p, q in zip(a.a[0], b.a[0])) and len(a.a[0]) == len(b.a[0])
        if a.k != 'str':
            a, b = b, a
        if all(isinstance(p, str) for p in a.a[0]):
            return st.cons.get(('str', b)) == ('eq', ''.join(a.a[0]))
        return False
    return False


def where(b):
    sp = b.get('span') or ['?', 0]
    return '%s (%s:%s)' % (b['path'], sp[0], sp[1])


def facts_text(E, st, leaf=None, limit=8):
    """The facts of a path in readable form."""
    out = []
    for k, v in st.cons.items():
        if k[0] == 'var':
            vs = E.F.variants(k[1].ty) if k[1].ty is not None else None
            if vs and len(v) <= 3:
                out.append('%s is %s' % (show(k[1], 10), '|'.join(vs[i]['name'] for i in sorted(v))))
        elif k[0] == 'b' and k[1].a[0] not in ('in',):
            out.append(('' if v else 'not ') + show(k[1]))
        elif k[0] == 'int':
            out.append('%s in %s..%s' % (show(k[1]), v[0], v[1]))
        elif k[0] == 'chr':
            s = sorted(v)
            out.append('%s in %s' % (show(k[1]), s if len(s) < 5 else '%d characters' % len(s)))
        elif k[0] == 'str':
            out.append('%s %s' % (show(k[1]), v))
    return '; '.join(out[:limit])


# ---- decision tables

def apps(t, acc=None, seen=None):
    """Operators of the uninterpreted applications in a value."""
    if acc is None:
        acc, seen = set(), set()
    if isinstance(t, tuple):
        for x in t:
            apps(x, acc, seen)
    elif isinstance(t, T) and t.id not in seen:
        seen.add(t.id)
        if t.k == 'app':
            acc.add(t.a[0])
        for x in t.a:
            if isinstance(x, (T, tuple)):
                apps(x, acc, seen)
    return acc


def foreign(st, vals, hyps):
    """Calls the analysis left uninterpreted although the oracle does not speak about them."""
    acc = set()
    for v in vals:
        apps(v, acc, set()) if isinstance(v, T) else None
    for k in st.cons:
        if isinstance(k[1], T):
            acc |= apps(k[1])
    return sorted(a for a in acc if a.startswith('call:') and a not in hyps)


def eqfact(E, st, a, b):
    """The path established that two values are equal."""
    for k, v in st.cons.items():
        if k[0] == 'b' and v is True and k[1].k == 'app' and len(k[1].a[1]) == 2:
            op = k[1].a[0]
            if op == 'eq' or (op.startswith('call:') and op.endswith('::eq') and 'PartialEq' in op):
                x, y = k[1].a[1]
                if (x is a and y is b) or (x is b and y is a):
                    return True
    return False


def compare(E, st, a, b, depth=0):
    """('same', None), ('diff', text) or ('unknown', text) for an actual and an expected value."""
    if a is b or same(E, st, a, b) or eqfact(E, st, a, b):
        return ('same', None)
    if depth > 30:
        return ('unknown', 'depth')
    D = lambda: ('diff', '%s instead of %s' % (show(a, 7), show(b, 7)))

    def all_of(pairs):
        u = None
        for x, y in pairs:
            r = compare(E, st, x, y, depth + 1)
            if r[0] == 'diff':
                return r
            if r[0] == 'unknown':
                u = r
        return u or ('same', None)
    for x, y in ((a, b), (b, a)):
        if x.k == 'adt':
            if y.k == 'adt':
                if x.a[0] != y.a[0]:
                    return ('unknown', 'types %s and %s' % (x.a[0], y.a[0]))
                if x.a[1] != y.a[1]:
                    return D()
                return all_of(zip(a.a[2], b.a[2]))
            if is_sym(y) and y.ty is not None and E.F.variants(y.ty):
                f = E.feasible(st, y)
                if len(f) == 1 or x.a[1] not in f:
                    v = next(iter(f))
                    if x.a[1] not in f:
                        return D()
                    ps = [(z, E.field(y, v, i)) for i, z in enumerate(x.a[2])]
                    return all_of(ps if x is a else [(q, p) for p, q in ps])
                return D() if pure_leaf(y) else ('unknown', show(y))
            return ('unknown', '%s and %s' % (show(a), show(b)))
    if a.k in ('tup',) or b.k in ('tup',):
        try:
            x, y = E.expose(st, a), E.expose(st, b)
        except Imprecise:
            return ('unknown', '%s and %s' % (show(a), show(b)))
        if x.k == 'tup' and y.k == 'tup' and len(x.a[0]) == len(y.a[0]):
            return all_of(zip(x.a[0], y.a[0]))
        return ('unknown', '%s and %s' % (show(a), show(b)))
    C_ = ('seq', 'map', 'set')
    if a.k in C_ or b.k in C_:
        try:
            xs, ys = E.expand(st, a), E.expand(st, b)
        except Imprecise as e:
            return ('unknown', str(e))
        if len(xs) != 1 or len(ys) != 1:
            return D() if all(z.k in C_ or pure_leaf(z) for z in (a, b)) else ('unknown', '%s and %s' % (show(a), show(b)))
        if len(xs[0][1]) != len(ys[0][1]):
            return D()
        return all_of(zip(xs[0][1], ys[0][1]))
    for x, y in ((a, b), (b, a)):
        if is_sym(y) and ('short', y) in st.cons:
            c = st.cons[('short', y)]
            ps = x.a[0] if x.k == 'str' else (x.a[0],) if x.k == 'char' else (x,)
            if ps == (c,) or c.k == 'char' and ps == (c.a[0],):
                return ('same', None)
            if all(isinstance(p, str) for p in ps):
                w = ''.join(ps)
                if len(w) != 1 or E.atoms(st, c) != frozenset(w) if c.k != 'char' else w != c.a[0]:
                    return ('diff', '%s instead of the text %s' % (show(x), show(c)))
            return ('unknown', '%s and %s' % (show(a), show(b)))
        if x.k == 'str' and y.k != 'str' and is_sym(y) and y.ty is not None and E.F.is_str(y.ty):
            lo, hi = E.bounds(st, app('strlen', y))
            if not x.a[0]:
                if hi == 0:
                    return ('same', None)
                if lo:
                    return D()
    num = lambda t: t.k in ('int', 'lin') or (t.ty is not None and E.F.is_int(t.ty))
    if num(a) or num(b):
        w = witness(E, st, a, b)
        if w:
            return ('diff', '%s instead of %s (e.g. %d instead of %d)' % (show(a, 7), show(b, 7), w[1], w[2]))
        return ('unknown', '%s and %s' % (show(a), show(b)))
    if a.k in ('bool', 'char', 'float', 'unit') and b.k == a.k:
        return D()
    if a.k == 'str' and b.k == 'str' and all(isinstance(p, str) for p in a.a[0] + b.a[0]):
        return D()
    for x, y in ((a, b), (b, a)):
        if x.k in ('bool', 'char') and is_sym(y):
            return D() if pure_leaf(y) else ('unknown', '%s and %s' % (show(a), show(b)))
    if is_sym(a) and is_sym(b) and a.ty is not None and b.ty is not None and E.F.path(a.ty) == E.F.path(b.ty) and E.F.path(a.ty) \
            and E.F.variants(a.ty) and depth < 6:
        va, vb = E.variant(st, a), E.variant(st, b)
        if va is not None and va == vb and E.F.variants(a.ty)[va]['fields']:
            r = all_of([(E.field(a, va, i), E.field(b, va, i)) for i in range(len(E.F.variants(a.ty)[va]['fields']))])
            if r[0] == 'same':
                return r
    if pure_leaf(a) and pure_leaf(b):
        return D()
    if a.k == 'app' and b.k == 'app' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        r = all_of([(x, y) for x, y in zip(a.a[1], b.a[1]) if isinstance(x, T) and isinstance(y, T)])
        if r[0] == 'same':
            return ('unknown', '%s and %s' % (show(a), show(b)))
        return r
    if is_sym(a) and is_sym(b) and (hypo(a) or pure_leaf(a)) and (hypo(b) or pure_leaf(b)):
        return D()
    return ('unknown', '%s and %s' % (show(a), show(b)))


def pure_leaf(t):
    """A leaf of the input: it can have any value of its type."""
    while t.k in ('proj', 'elem'):
        t = t.a[0]
    return t.k == 'sym'


def hypo(t):
    """A result the oracle speaks about, or a part of one."""
    while t.k in ('proj', 'elem'):
        t = t.a[0]
    return t.k == 'app' and (t.a[0].startswith('call:') or t.a[0] in ('typeof', 'comb', 'flowof', 'hyp'))


class Table:
    """Outcomes of one function compared with an oracle."""

    def __init__(self, C, R, E=None, hyps=()):
        self.C, self.R = C, R
        self.E = E or C.engine()
        self.E.domerge = False
        self.hyps = set('call:' + h for h in hyps)

    def run(self, st, body, args):
        E = self.E
        E.notes, E.panics = [], []
        E.steps = 0
        try:
            outs = E.run(st, body['id'] if isinstance(body, dict) else body, args)
        except Imprecise as e:
            E.note(str(e))
            outs = []
        self.R.analysed |= E.analysed
        return outs

    def check(self, group, key, body, args, oracle, st=EMPTY, view=None, what=''):
        """oracle(E, state) -> [(state, expected value)]; an expected value may be a predicate over (E, state, value)."""
        E, R = self.E, self.R
        outs = self.run(st, body, args)
        site = where(body)
        if E.panics:
            R.bad(group, key + ':panic', '%s%s can panic: %s [%s]' % (site, what, E.panics[0][0], facts_text(E, E.panics[0][2], limit=4)))
        if E.notes or not outs:
            R.unknown(group, '%s%s: %s' % (site, what, E.notes[:1]))
            if not outs:
                return outs
        t0 = time.time()
        for s, v in outs:
            if time.time() - t0 > 100 or time.time() > DEADLINE[0]:
                R.unknown(group, '%s%s: too many outcomes (%d)' % (site, what, len(outs)))
                break
            try:
                s, v = view(E, s, v) if view else (s, v)
                exp = oracle(E, s)
            except Imprecise as e:
                R.unknown(group, '%s%s: %s' % (site, what, e))
                continue
            for s2, w in exp:
                try:
                    if callable(w):
                        r = w(E, s2, v)
                    elif v.k == 'app' and w.k == 'bool' or w.k == 'app' and v.k == 'bool' or (v.k == 'app' and w.k == 'app' and boolish(E, v)):
                        r = self.boolcmp(s2, v, w)
                    else:
                        r = self.deepcmp(s2, v, w)
                except Imprecise as e:
                    r = ('unknown', str(e))
                if r[0] == 'same':
                    R.ok(group, '%s%s [%s] = %s' % (site, what, facts_text(E, s2, limit=4), show(v, 4)))
                elif r[0] == 'diff':
                    fr = foreign(s2, [v], self.hyps)
                    if fr or E.notes:
                        R.unknown(group, '%s%s: %s (%s)' % (site, what, r[1], fr))
                    else:
                        R.bad(group, key, '%s%s yields %s [%s]' % (site, what, r[1], facts_text(E, s2, limit=6)))
                else:
                    R.unknown(group, '%s%s: %s' % (site, what, r[1]))
        return outs

    def boolcmp(self, st, v, w):
        E = self.E
        good = True
        for s, x in E.truth(st, v):
            for s2, y in E.truth(s, w):
                if x != y:
                    return ('diff', '%s instead of %s' % (x, y))
        return ('same', None)

    def deepcmp(self, st, v, w):
        return compare(self.E, st, v, w)


def boolish(E, t):
    return t.a[0] in ('not', 'in', 'eq', 'and', 'or', 'chareq') or (t.ty is not None and E.F.types[t.ty]['k'] == 'bool')
