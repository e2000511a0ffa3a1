"""Parsers on texts nothing is known about.

Every parser function of the crate is interpreted abstractly on an arbitrary text, in isolation: calls of other
parser functions are replaced by what is known about them (they fail, or they succeed with an arbitrary value of
their type and, as long as nothing speaks against it, after having consumed something)."""
from core import *
from engine import Imprecise, Cx, EMPTY, OPT, RES, St
from terms import *
from facts import short
import nomlib
from nomlib import isany, after, progress, ERR, canon_err


def leaves(v, d=0):
    if v.k == 'adt' and d < 6:
        for x in v.a[2]:
            yield from leaves(x, d + 1)
    elif v.k == 'tup':
        for x in v.a[0]:
            yield from leaves(x, d + 1)
    else:
        yield v


def parserty(C, b):
    """The type a parser function yields, or None."""
    F = C.F
    try:
        t = F.types[F.strip(C.retty(b))]
    except Exception:
        return None
    if t['k'] != 'adt' or short(t['path']) != 'Result':
        return None
    a = F.types[F.strip(t['args'][0])]
    if a['k'] != 'tuple' or len(a['of']) != 2 or not F.is_str(F.strip(a['of'][0])):
        return None
    return F.strip(a['of'][1])


class Rec:
    """What was found out about one parser function or entry point."""

    def __init__(self):
        self.stuck = {}             # (function, line, what) -> (where, what)
        self.left = {}              # instance called before anything was read -> where
        self.panics = {}
        self.notes = []
        self.results = []           # [(state, value)] of successful outcomes
        self.produced = []          # further values made on the way


class AnyText:
    def __init__(self, C, rounds=3):
        self.C, self.F = C, C.F
        self.E = E = C.engine()
        nomlib.install(E)
        E.anymode = True
        E.domerge = 'exact'
        E.noprogress = self.noprogress
        E.produce = self.produce
        E.call_hook = self.hook
        E.loop_hook = self.loop
        E.visit_limit = 60
        self.rounds = rounds
        self.consumes = {}          # instance -> False once it was seen to succeed without reading
        self.kinds = {}             # instance -> kinds of errors
        self.records = {}           # instance or name of an entry point -> Rec
        self.root, self.start, self.rec = None, None, None
        self.paths = {}
        self.todo, self.given, self.callers, self.entries = [], {}, {}, {}
        self.loops = self.runs = 0
        self.roots = set()          # bodies which are run as entry points

    # ------------------------------------------------------------ hooks
    def noprogress(self, st, what):
        E = self.E
        k = (E.site()[:2], what)
        self.rec.stuck.setdefault(k, (E.where(), 'the repetition `%s` has an inner parser which can succeed without consuming' % what))

    def produce(self, st, v):
        self.rec.produced.append((st, v))

    def measure(self, st, loc):
        m = []
        for x in loc:
            if isinstance(x, tuple):
                x = st.store.get(x[1])
            if x is None:
                m.append(0)
                continue
            m.append(self.meas(st, x, 0))
        return tuple(m)

    def meas(self, st, x, d):
        if x.k == 'input':
            return x
        if x.k in ('it', 'int', 'lin'):
            return x.id
        if x.k == 'ptr' and d < 3:
            try:
                return self.meas(st, self.E.load(st, x), d + 1)
            except Exception:
                return 0
        if x.k == 'tup' and d < 3:
            return tuple(self.meas(st, y, d + 1) for y in x.a[0])
        return 0

    def loop(self, B, bb, loc, st, vis):
        """Called at the head of a loop.  The second round starts from an arbitrary state and stands for all later
        ones; the path ends when the head is reached for the third time."""
        if not B.local or not any(self.inputs(st, loc)):
            return st
        m = self.measure(st, loc)
        old = vis.get(('m', bb), ())
        self.loops += 1
        if any(not self.advanced(o, m) for o in old):
            self.rec.stuck.setdefault(((B.path, B.file), 'loop'), ('%s (%s)' % (B.path, B.file), 'a round of a loop ends without having consumed input'))
            return None
        vis[('m', bb)] = old + (m,)
        vals = self.values(st, loc)
        if not old:
            vis[('v', bb)] = vals
            return st
        if len(old) > 1:
            return None
        for l, (a, b) in enumerate(zip(vis[('v', bb)], vals)):
            if a is b or a is None or b is None:
                continue
            st, g = self.generic(st, b, B.locals[l], 'loop#%d.%d.%d' % (B.id, bb, l))
            if g is not b:
                if isinstance(loc[l], tuple):
                    st = st.put(loc[l][1], g)
                else:
                    loc[l] = g
        # what pointers lead to
        seen = set()
        for l, b in enumerate(vals):
            if b is not None and b.k == 'ptr' and b.a[0] not in seen:
                seen.add(b.a[0])
                c = st.store.get(b.a[0])
                if c is not None and c.k == 'adt' and self.F.types[self.F.strip(B.locals[l])]['k'] == 'adt' and not b.a[1]:
                    st, g = self.generic(st, c, self.F.strip(B.locals[l]), 'loop#%d.%d.%dp' % (B.id, bb, l))
                    st = st.put(b.a[0], g)
        return st

    def advanced(self, a, b):
        for x, y in zip(a, b):
            if isinstance(x, T) and isinstance(y, T):
                if x is not y and progress(x.a[0], y.a[0]):
                    return True
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if self.advanced(x, y):
                    return True
            elif x != y and x != 0 and y != 0:
                return True
        return False

    def values(self, st, loc):
        return [st.store.get(x[1]) if isinstance(x, tuple) else x for x in loc]

    def inputs(self, st, loc):
        for x in loc:
            if isinstance(x, tuple):
                x = st.store.get(x[1])
            yield x is not None and x.k == 'input' and isany(x.a[0])

    def hook(self, E, st, inst, path, args, cx):
        b = self.F.bodies[inst]
        if not b['local'] or '{closure' in path or path.startswith('<'):
            return None
        j = None
        for i, a in enumerate(args):
            if a.k == 'input' and isany(a.a[0]):
                j = i
        if j is None:
            return None
        if inst not in self.paths:
            self.paths[inst] = parserty(self.C, b)
        ty = self.paths[inst]
        if ty is None:
            return None
        here = args[j].a[0]
        self.callers.setdefault(inst, set()).add(self.root)
        if inst not in self.given:
            self.given[inst] = (list(args), st)
            self.todo.append(inst)
        if self.start is not None and not progress((self.start,), here):
            self.rec.left.setdefault(inst, E.where())
        # what the callee may do to what it is lent mutably
        for i, a in enumerate(args):
            l = b['locals'][i + 1]
            t = l if isinstance(l, int) else l[0]
            if a.k == 'ptr' and self.F.is_mutref(t):
                st, g = self.generic(st, E.load(st, a), self.F.strip(t), 'after#%d.%d.%d' % (inst, here[0].id, i))
                st = E.store(st, a, g)
        out = []
        for k in sorted(self.kinds.get(inst, {1})):
            out.append((st, canon_err(('err', k))))
        v = mk('sym', 'result#%d.%d' % (inst, here[0].id), ty=ty)
        if ty is not None and self.F.types[ty]['k'] == 'tuple':
            v = E.expose(st, v)
        out.append((st, ok(tup(mk('input', after(here[0], 'f%d' % inst, self.consumes.get(inst, True))), v))))
        return out

    def gen(self, st, v, ty, name, d=0):
        """Any other value of the same kind."""
        F, E = self.F, self.E
        if v.k in ('clo', 'fn', 'native', 'nomp', 'ptr', 'input', 'any') or v.k == 'it' and v.a[0] == 'nomiter':
            return v
        if v.k == 'it' and v.a[0] in ('list', 'more') and F.path(F.strip(ty)) == 'std::vec::IntoIter' and F.types[F.types[F.strip(ty)]['args'][0]]['k'] != 'ref':
            return mk('it', 'more', F.types[F.strip(ty)]['args'][0], name, 0)
        if v.k == 'tup':
            return tup(*[self.gen(st, x, F.types[ty]['of'][i], '%s.%d' % (name, i), d + 1) for i, x in enumerate(v.a[0])])
        t = F.types[F.strip(ty)]
        if v.k == 'adt' and t['k'] == 'adt' and len(t['variants']) == 1 and d < 4:
            fs = t['variants'][0]['fields']
            return mk('adt', v.a[0], v.a[1], tuple(self.gen(st, x, fs[i][1], '%s.%d' % (name, i), d + 1) for i, x in enumerate(v.a[2])), ty=v.ty)
        return mk('sym', name, ty=F.strip(ty))

    def generic(self, st, v, ty, name):
        """Like gen, with what is known about all values of the type: widths of indentations are numbers of characters."""
        E = self.E
        g = self.gen(st, v, ty, name)
        try:
            ind = self.C.adt('Indentation')
        except Missing:
            return st, g
        for x in leaves(g):
            if x.k == 'sym' and x.ty is not None and self.F.strip(x.ty) == ind:
                for k, var in enumerate(self.F.variants(ind)):
                    for j, f in enumerate(var['fields']):
                        if self.F.is_int(f[1]):
                            st = E.narrow(st, E.field(x, k, j), 0, 1 << 62) or st
        return st, g

    # ------------------------------------------------------------ running
    def isolate(self, inst, args, st):
        """A parser function on its own."""
        E, F = self.E, self.F
        b = F.bodies[inst]
        self.start = mk('any', 'in', inst)
        vals = []
        st = St(dict(st.store), {}, st.nxt)
        for i, a in enumerate(args):
            l = b['locals'][i + 1]
            t = l if isinstance(l, int) else l[0]
            if a.k == 'input':
                vals.append(mk('input', (self.start,)))
            elif a.k == 'ptr' and F.is_mutref(t):
                st, g = self.generic(st, E.load(st, a), F.strip(t), 'arg#%d.%d' % (inst, i))
                st, c = st.alloc(g)
                vals.append(mk('ptr', c, ()))
            else:
                st, g = self.generic(st, a, F.strip(t), 'arg#%d.%d' % (inst, i))
                vals.append(g)
        outs = self.attempt(lambda: E.run(st, inst, vals))
        kinds, loose = set(), False
        for s, v in outs:
            try:
                for s2, r in nomlib.outcome(E, s, v):
                    if r[0] == 'err':
                        kinds.add(r[1])
                    else:
                        if not isany(r[1]) or not progress((self.start,), r[1]):
                            loose = True
                        self.rec.results.append((s2, r[2]))
            except Imprecise as e:
                self.rec.notes.append((str(e), b['path']))
        changed = False
        if loose and self.consumes.get(inst, True):
            self.consumes[inst] = False
            changed = True
        if not kinds <= self.kinds.get(inst, {1}):
            self.kinds[inst] = kinds | self.kinds.get(inst, {1})
            changed = True
        if changed:
            for c in self.callers.get(inst, ()):
                if c not in self.todo:
                    self.todo.append(c)

    def attempt(self, f):
        """Run a function, collecting what happens."""
        E = self.E
        E.notes, E.panics, E.steps = [], [], 0
        self.runs += 1
        try:
            outs = f()
        except Imprecise as e:
            E.note(str(e))
            outs = []
        for p in E.panics:
            self.rec.panics.setdefault((p[0], p[1]), p)
        self.rec.notes += E.notes
        E.notes, E.panics = [], []
        return outs

    def entry(self, name, f):
        """An entry point: f(self) runs it."""
        self.entries[name] = f
        self.todo.append(name)

    def fix(self):
        """Chaotic iteration until the assumptions about the parsers hold."""
        while self.todo:
            x = self.todo.pop(0)
            self.rec = self.records[x] = Rec()
            self.root = x
            if x in self.entries:
                self.start = None
                self.entries[x](self)
            else:
                self.isolate(x, *self.given[x])
            if self.runs > 2000:
                raise Imprecise('the assumptions about the parsers do not settle')

    def merged(self, field):
        out = {}
        for r in self.records.values():
            for k, v in getattr(r, field).items():
                out.setdefault(k, v)
        return out


    # ------------------------------------------------------------ entry points
    def modules(self, name, texts):
        """The iterator over modules with the given inputs for its texts, in declaration order."""
        C, F, E = self.C, self.F, self.E
        M = C.adt('Modules')
        vals, st = [], EMPTY
        texts = list(texts)
        for f in F.variants(M)[0]['fields']:
            if F.is_str(F.strip(f[1])):
                vals.append(texts.pop(0))
            else:
                st, g = self.generic(st, mk('sym', '%s.%s' % (name, f[0]), ty=F.strip(f[1])), F.strip(f[1]), '%s.%s' % (name, f[0]))
                vals.append(g)
        return st, mk('adt', F.types[M]['path'], 0, tuple(vals), ty=M)

    def textfields(self):
        M = self.C.adt('Modules')
        return [i for i, f in enumerate(self.F.variants(M)[0]['fields']) if self.F.is_str(self.F.strip(f[1]))]

    def standard(self):
        """Reading a whole circuit, and asking for the next module."""
        C, F, E = self.C, self.F, self.E
        self.nexts = {}

        def start(A):
            b = C.fn('circuit::parsers::consumer')
            A.starts = A.attempt(lambda: E.run(EMPTY, b['id'], [mk('input', (mk('any', 'text', 0),))]))

        nx = C.method('Iterator', 'next', 'Modules')
        tf = self.textfields()

        def nxt(A, empty):
            ins = [mk('input', () if j == empty else (mk('any', 'current', j),)) for j in range(len(tf))]
            st, m = A.modules('self', ins)
            st, c = st.alloc(m)
            outs = A.attempt(lambda: E.run(st, nx['id'], [mk('ptr', c, ())]))
            A.nexts[empty] = [(s, v, [s.store[c].a[2][j] for j in tf], ins) for s, v in outs]
        self.nextfn = nx
        self.roots |= {nx['id'], C.fn('circuit::parsers::consumer')['id']}
        self.entry('start', start)
        for e in [None] + list(range(len(tf))):
            self.entry('next module' + ('' if e is None else ', text %d used up' % e), lambda A, e=e: nxt(A, e))
