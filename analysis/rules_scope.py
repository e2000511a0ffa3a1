"""References denote what was declared before under that name (C16)."""
import itertools
from core import *
from terms import *
from anytext import AnyText, Rec, leaves, parserty
from engine import Imprecise, EMPTY, St, Cx
from facts import short
from rules_parse import allparts
from rules_whole import has
import models
import nomlib

KINDS = ('entity', 'memory', 'module')


def root(s, parent):
    while s in parent:
        s = parent[s]
    return s


def consistent(st):
    """Equalities between names do not contradict each other."""
    parent, ne = {}, []
    for k, v in st.cons.items():
        if k[0] == 'b' and k[1].k == 'app' and k[1].a[0] == 'eq':
            a, b = k[1].a[1]
            if v:
                a, b = root(a, parent), root(b, parent)
                if a is not b:
                    parent[a] = b
            else:
                ne.append((a, b))
    return all(root(a, parent) is not root(b, parent) for a, b in ne)


class Scopes(AnyText):
    """Contexts are looked at through what they answer for an arbitrary name."""

    def __init__(self, C):
        AnyText.__init__(self, C)
        F, E = self.F, self.E
        self.ety, self.mty, self.dty = C.adt('Entity'), C.adt('memory::simple::Memory'), C.adt('Module')
        self.q = mk('sym', 'q', ty=F.named('str'))
        self.E.domerge = False
        self.tops = [F.path(it['self']) for it in F.trait_items('Context', 'entity')]
        paths = {F.types[x]['path'] for x in (self.ety, self.mty)}
        for m in ('name', 'name_ref'):
            for it in F.trait_items('Named', m):
                if F.path(it['self']) in paths:
                    E.over[it['path']] = self.name
            E.natives['Named::' + m] = self.name

    def name(self, E, st, a, c):
        x = E.deref(st, a[0])
        if not is_sym(x):
            return None
        t = E.F.path(x.ty) if x.ty is not None else None
        if t not in (E.F.types[self.ety]['path'], E.F.types[self.mty]['path']):
            for it in E.F.trait_items('Named', short(c.f['path']) if c.f else 'name'):
                if E.F.path(it['self']) == t and it['path'] not in E.over:
                    return E.run(st, it['inst'], [x])
            return None
        return [(st, self.nameof(x))]

    def nameof(self, x):
        return mk('app', 'name', (x,), ty=self.F.named('str'))

    # ------------------------------------------------------------ asking and telling
    def ctxcell(self, st, ctx):
        """A pointer to a context."""
        if ctx.k == 'ptr':
            v = self.E.load(st, ctx)
            if v.k == 'ptr':
                return self.ctxcell(st, v)
            return st, ctx
        st, c = st.alloc(ctx)
        return st, mk('ptr', c, ())

    def method(self, st, p, m):
        E, F = self.E, self.F
        v = E.load(st, p)
        for it in F.trait_items('Context', m):
            if v.k == 'adt' and F.path(it['self']) == v.a[0]:
                return it
        raise Imprecise('context ' + show(v, 3))

    def ask(self, st, ctx, kind, q=None):
        """What a context answers for a name: (state, variant, value)."""
        E = self.E
        st, p = self.ctxcell(st, ctx)
        it = self.method(st, p, kind)
        out = []
        for s, v in E.run(st, it['inst'], [p, q or self.q]):
            if not consistent(s):
                continue
            for s2, k in E.cases(s, v):
                out.append((s2, v.a[2][0] if k and v.k == 'adt' else E.field(v, 1, 0) if k else None))
        return out

    def tell(self, st, ctx, kind, x):
        E = self.E
        st, p = self.ctxcell(st, ctx)
        it = self.method(st, p, 'add_' + kind)
        return [s for s, _ in E.run(st, it['inst'], [p, x])]

    def end(self, st, ctx):
        """The end of the life of a context which is owned."""
        E, F = self.E, self.F
        if ctx.k == 'ptr':
            v = E.load(st, ctx)
            p = ctx
        else:
            st, p = self.ctxcell(st, ctx)
            v = ctx
        for it in F.trait_items('Drop', 'drop'):
            if v.k == 'adt' and F.path(it['self']) == v.a[0]:
                return [s for s, _ in E.run(st, it['inst'], [p])]
        return [st]

    def top(self, ports=()):
        """A context for a module with the given ports."""
        C, E, F = self.C, self.E, self.F
        mods = mk('native', self.modules_of)
        out = []
        new = C.fn('TopContext::new')
        with_ports = C.fn('TopContext::with_ports')
        for s, c in E.run(EMPTY, new['id'], [mods]):
            for s2, c2 in E.run(s, with_ports['id'], [c, seq(ports)]):
                if consistent(s2):
                    out.append((s2, c2))
        return out

    def modules_of(self, E, st, a, c):
        n = E.deref(st, a[0])
        v = mk('app', 'defined', (n,), ty=self.dty)
        return [(s, some(v) if b else NONE) for s, b in self.isdefined(st, n)]

    def isdefined(self, st, n):
        return self.E.truth(st, mk('app', 'isdefined', (n,)))

    def oracle(self, st, kind, decls):
        """The latest declaration of that name: (state, declared thing or None)."""
        E = self.E
        out, cur = [], [st]
        for k, x, n in reversed(decls):
            if k != kind:
                continue
            nxt = []
            for s in cur:
                for s2, b in E.eq(s, n, self.q):
                    if consistent(s2):
                        (out.append((s2, x)) if b else nxt.append(s2))
            cur = nxt
        return out + [(s, None) for s in cur]


def agree(S, got, want):
    """Whether what a context yields is what was declared."""
    if want is None or got is None:
        return want is got
    return want is got or has(got, want)


def histories(most):
    """Sequences of: declaring an entity or a memory, opening and closing a scope."""
    def go(h, depth):
        yield h
        if len(h) < most:
            for o in 'em(' + (')' if depth else ''):
                yield from go(h + o, depth + (o == '(') - (o == ')'))
    for h in go('', 0):
        # scopes nothing is declared in, at most two levels
        if '()' not in h and h.count('(') <= 2 and h.count('e') and h.count('m') <= 2:
            yield h


def contexts(C, R, S):
    """Histories of a context against the list of declarations."""
    E, F = S.E, S.F
    most = 5 if C.tier == "quick" else 6
    subb = C.fn('SubContext::of')
    portty = C.adt('module::Port')
    for np in range(3):
        ports = [mk('sym', 'port%d' % i, ty=portty) for i in range(np)]
        pname = C.fieldby('module::Port', 'str')
        decl0 = [('entity', p, E.field(p, 0, pname)) for p in ports]
        for h in histories(most - np):
            E.notes, E.panics, E.steps = [], [], 0
            what = 'ports: %d, history: %s' % (np, h or 'none')
            bad, n = None, 0
            try:
                work = []
                for s, c in S.top(ports):
                    s, cell = s.alloc(c)
                    work.append((s, (mk('ptr', cell, ()),), tuple(decl0)))
                for i, o in enumerate(h):
                    nxt = []
                    for s, stack, ds in work:
                        if o in 'em':
                            kind, ty = (('entity', S.ety), ('memory', S.mty))[o == 'm']
                            x = mk('sym', '%s%d' % (kind, i), ty=ty)
                            for s2 in S.tell(s, stack[-1], kind, x):
                                if consistent(s2):
                                    nxt.append((s2, stack, ds + ((kind, x, S.nameof(x)),)))
                        elif o == '(':
                            for s2, v in E.run(s, subb['id'], [stack[-1]]):
                                s2, cell = s2.alloc(v)
                                nxt.append((s2, stack + (mk('ptr', cell, ()),), ds))
                        else:
                            for s2 in S.end(s, stack[-1]):
                                nxt.append((s2, stack[:-1], ds))
                    work = nxt
                for s, stack, ds in work:
                    for kind in KINDS:
                        for s2, got in S.ask(s, stack[-1], kind):
                            if kind == 'module':
                                want = [(s3, mk('app', 'defined', (S.q,), ty=S.dty) if b else None) for s3, b in S.isdefined(s2, S.q)]
                            else:
                                want = S.oracle(s2, kind, ds)
                            for s3, w in want:
                                n += 1
                                if not agree(S, got, w):
                                    bad = bad or '%s `q` yields %s instead of %s%s' % (kind, show(got, 3) if got else 'nothing', show(w, 3) if w else 'nothing', tellfacts(E, s3))
            except Imprecise as e:
                E.note(str(e))
            for x in E.notes[:1]:
                R.unknown('contexts', '%s: %s at %s' % (what, x[0], x[1]))
            if bad:
                R.bad('contexts', 'context', '%s: %s' % (what, bad))
            elif not E.notes:
                R.ok('contexts', '%s (%d answers)' % (what, n))


class Blocks(Scopes):
    """Reads blocks of statements; inner blocks and everything below statements are replaced by what they may yield."""

    def __init__(self, C, most):
        Scopes.__init__(self, C)
        E, F = self.E, self.F
        E.domerge = 'exact'
        E.loop_hook = None
        self.most = most
        self.stmts, self.stmt = C.fn('stmt::parsers::stmts')['path'], C.fn('stmt::parsers::stmt')['path']
        b = C.fn('indented_condition', required=False)
        self.cond = b['path'] if b else None
        self.kind, self.sty = C.adt('stmt::Kind'), C.adt('Statement')
        self.kinds_of = {F.types[t]['path']: k for t, k in ((self.ety, 'entity'), (self.mty, 'memory'), (self.dty, 'module'))}
        self.root = 'block'
        self.rec, self.start = Rec(), None
        self.n = 0

    def isdefined(self, st, n):
        """Modules are looked up elsewhere; there is one of every name."""
        return [(st, True)]

    # facts: ('at',) the number of statements begun, ('looks',) what was asked, ('inner',) what inner blocks declared
    def get(self, st, k, d):
        return st.cons.get((k,), d)

    def look(self, st, kind, got, where_):
        at = self.get(st, 'at', 0)
        if at <= self.real + 1:
            # everything declared so far is known
            key = (at, kind, where_)
            t = self.judge(st, kind, got, self.outer, self.get(st, 'before', ()) + tuple(x[1:] for x in self.get(st, 'inner', ())))
            if t:
                self.bad.setdefault(key, t)
            else:
                self.done[key] = self.done.get(key, 0) + 1
            return st
        l = (at, kind, got, len(self.get(st, 'inner', ())))
        old = self.get(st, 'looks', frozenset())
        return st if l in old else st.fact(('looks',), old | {l})

    def lookups(self, st, args, where_):
        """Every way a parser can look something up."""
        E, F = self.E, self.F
        states = [st]
        for a in args:
            kind = self.lookup_kind(st, a)
            nxt = []
            for s in states:
                if kind is not None:
                    for s2, v in E.callv(s, a, [self.q]):
                        if not consistent(s2):
                            continue
                        for s3, k in E.cases(s2, v):
                            got = v.a[2][0] if k and v.k == 'adt' else E.field(v, 1, 0) if k else None
                            nxt.append(self.look(s3, kind, got, where_))
                elif self.isctx(s, a):
                    cur = [s]
                    for kd in KINDS:
                        cur = [self.look(s3, kd, got, where_) for s2 in cur for s3, got in self.ask(s2, a, kd)]
                    nxt += cur
                else:
                    nxt.append(s)
            states = nxt
        return states

    def isctx(self, st, a):
        n = 0
        while a.k == 'ptr' and n < 10:
            a, n = self.E.load(st, a), n + 1
        return a.k == 'adt' and a.a[0] in self.tops

    def lookup_kind(self, st, a):
        E, F = self.E, self.F
        n = 0
        while a.k == 'ptr' and n < 10:
            a, n = E.load(st, a), n + 1
        if a.k == 'native':
            return 'module' if a.a[0] == self.modules_of else None
        if a.k != 'clo':
            return None
        t = F.types[F.strip(E.prep(a.a[0]).locals[0])]
        if t['k'] == 'adt' and short(t['path']) == 'Option':
            return self.kinds_of.get(F.path(F.strip(t['args'][0])))
        return None

    def hook(self, E, st, inst, path, args, cx):
        F = self.F
        if path == self.stmts:
            return self.block(st, args)
        if path == self.stmt:
            n = self.get(st, 'at', 0)
            st = st.fact(('at',), n + 1)
            if n == self.real:
                return E.run(st, inst, args)
            out = []
            for s in self.lookups(st, args, 'statement'):
                if n < self.real:
                    for x, d in self.statements(n):
                        out.append((s.fact(('before',), self.get(s, 'before', ()) + d), ok(tup(self.rest(args), x))))
                else:
                    out.append((s, nomlib.canon_err(('err', 1))))
            return out
        if path == self.cond and any(b.path == self.cond for b, _ in E.stack):
            return self.chained(st, args, cx)
        if path == self.cond:
            return None
        b = F.bodies[inst]
        ty = parserty(self.C, b) if b['local'] and any(a.k == 'input' for a in args) else None
        if ty is None:
            return None
        if path.startswith('<') and 'Parser<' in path:
            # widths of indentations have no part in this
            v = mk('sym', 'parsed#%d' % ty, ty=ty)
            if F.types[ty]['k'] == 'tuple':
                v = E.expose(st, v)
            return [(st, nomlib.canon_err(('err', 1))), (st, ok(tup(self.rest(args), v)))]
        out = []
        for s in self.lookups(st, args, short(path)):
            r = AnyText.hook(self, E, s, inst, path, args, cx)
            if r is None:
                return None
            out += r
        return out

    def statements(self, n):
        """Statements which may have been read."""
        C, F = self.C, self.F
        p = F.types[self.kind]['path']
        out = []
        for v, kd, t in (('Declaration', 'entity', self.ety), ('SimpleMemDecl', 'memory', self.mty)):
            x = mk('sym', '%s%d' % (v, n), ty=t)
            out.append((self.wrap(mk('adt', p, C.variant('stmt::Kind', v), (x,), ty=self.kind)), ((kd, x),)))
        return out

    def wrap(self, k):
        F = self.F
        fs = tuple(k if F.strip(f[1]) == self.kind else NONE for f in F.variants(self.sty)[0]['fields'])
        return mk('adt', F.types[self.sty]['path'], 0, fs, ty=self.sty)

    def declare(self, st, ctx):
        """An inner block declares something: (state, statement)."""
        E, F, C = self.E, self.F, self.C
        n = len(self.get(st, 'inner', ()))
        kind, ty, var = (('entity', self.ety, 'Declaration'), ('memory', self.mty, 'SimpleMemDecl'))[self.what[min(n, 1)]]
        x = mk('sym', 'inner%s%d' % (kind, n), ty=ty)
        st = st.fact(('inner',), self.get(st, 'inner', ()) + ((self.get(st, 'at', 0), kind, x),))
        k = mk('adt', F.types[self.kind]['path'], C.variant('stmt::Kind', var), (x,), ty=self.kind)
        return [(s, self.wrap(k)) for s in self.tell(st, ctx, kind, x) if consistent(s)]

    def rest(self, args):
        j = next(i for i, a in enumerate(args) if a.k == 'input')
        return mk('input', nomlib.after(args[j].a[0][0], 'inner'))

    def block(self, st, args):
        """An inner block."""
        ctx = next(a for a in args if self.isctx(st, a))
        out = []
        own = ctx.k != 'ptr'
        if own:
            st, ctx = self.ctxcell(st, ctx)
        states = [st]
        for kd in KINDS:
            states = [self.look(s2, kd, got, 'inner block') for s in states for s2, got in self.ask(s, ctx, kd)]
        for s in states:
            for s2, stmt in self.declare(s, ctx):
                for s3 in (self.end(s2, ctx) if own else [s2]):
                    if consistent(s3):
                        out.append((s3, ok(tup(self.rest(args), seq([stmt])))))
        return out

    def chained(self, st, args, cx):
        """Another condition in place of an alternative."""
        F, C = self.F, self.C
        ctx = next(a for a in args if self.isctx(st, a))
        out = []
        states = [st]
        for kd in KINDS:
            states = [self.look(s2, kd, got, 'else when') for s in states for s2, got in self.ask(s, ctx, kd)]
        for s in states:
            for s2, stmt in self.declare(s, ctx):
                out.append((s2, ok(tup(self.rest(args), stmt))))
        return out

    # ------------------------------------------------------------ judging
    def declared(self, stmts, inner, upto, ninner):
        """What the statements before number `upto` and the inner blocks so far declare."""
        C = self.C
        kf = next(i for i, f in enumerate(self.F.variants(self.sty)[0]['fields']) if self.F.strip(f[1]) == self.kind)
        out = []
        for j, s in enumerate(stmts[:upto]):
            k = s.a[2][kf] if s.k == 'adt' else None
            if k is None or k.k != 'adt':
                raise Imprecise('statement ' + show(s, 3))
            if k.a[1] == C.variant('stmt::Kind', 'Declaration'):
                out.append(('entity', k.a[2][0]))
            elif k.a[1] == C.variant('stmt::Kind', 'SimpleMemDecl'):
                out.append(('memory', k.a[2][0]))
            out += [(kd, x) for a, kd, x in inner if a == j + 1]
        out += [(kd, x) for i, (a, kd, x) in enumerate(inner) if a > upto and i < ninner]
        return out

    def judge(self, st, kind, got, outer, decls):
        """A description of a wrong answer, or None."""
        E = self.E
        ds = tuple(outer) + tuple((k, x, self.nameof_any(st, x)) for k, x in decls)
        if kind == 'module':
            want = [(s3, mk('app', 'defined', (self.q,), ty=self.dty) if b else None) for s3, b in self.isdefined(st, self.q)]
        else:
            want = self.oracle(st, kind, ds)
        for s3, w in want:
            if not agree(self, got, w):
                return 'yields %s instead of %s%s' % (show(got, 3) if got is not None else 'nothing', show(w, 3) if w is not None else 'nothing', tellfacts(E, s3))
        return None

    def nameof_any(self, st, x):
        """The name of something declared, also of values the parser made on the spot."""
        E = self.E
        if is_sym(x):
            return self.nameof(x)
        for it in self.F.trait_items('Named', 'name'):
            if x.k == 'adt' and self.F.path(it['self']) == x.a[0]:
                outs = E.run(st, it['inst'], [x])
                if len(outs) == 1:
                    return E.deref(outs[0][0], outs[0][1])
        raise Imprecise('the name of ' + show(x, 3))


def blocks(C, R):
    """Statements of a block and what each of them can refer to."""
    F = C.F
    B = Blocks(C, 2 if C.tier == 'quick' else 3)
    E = B.E
    subb = C.fn('SubContext::of')
    portty = C.adt('module::Port')
    port = mk('sym', 'port', ty=portty)
    pname = C.fieldby('module::Port', 'str')
    insts = [b for b in F.bodies.values() if b['path'] == B.stmts]
    for inner, real, what in itertools.product((False, True), range(B.most), itertools.product((0, 1), repeat=2)):
        B.real, B.what = real, what
        # an instance for the kind of context
        b = None
        for x in insts:
            l = x['locals'][1]
            p = F.path(F.strip(l if isinstance(l, int) else l[0]))
            if p in B.tops and (short(p) == 'SubContext') == inner:
                b = x
        if b is None:
            raise Missing('stmts of a context')
        what = '%s in %s scope, statement %d, inner blocks declaring %s' % (where(b), 'an inner' if inner else 'the outermost', real + 1, ' and '.join(('an entity', 'a memory')[x] for x in what))
        E.notes, E.panics, E.steps = [], [], 0
        outs, outer, cell = [], [('entity', port, E.field(port, 0, pname))], None
        B.done, B.bad = {}, {}
        try:
            # fewer names in the longer histories
            ports = [] if inner and real else [port]
            outer = outer if ports else []
            for s, c in B.top(ports):
                s, cell = s.alloc(c)
                p0 = mk('ptr', cell, ())
                if inner:
                    x = mk('sym', 'outer', ty=B.ety)
                    m = mk('sym', 'outermem', ty=B.mty)
                    outer = outer[:1] + [('entity', x, B.nameof(x)), ('memory', m, B.nameof(m))]
                    ss = [s3 for s2 in B.tell(s, p0, 'entity', x) for s3 in B.tell(s2, p0, 'memory', m) if consistent(s3)]
                    begin = [(s3, v) for s2 in ss for s3, v in E.run(s2, subb['id'], [p0])]
                else:
                    begin = [(s, s.store[cell])]
                B.outer = outer
                for kd in KINDS:
                    begin = [(s3, ctx) for s2, ctx in begin for s3, got in B.ask(s2, ctx, kd)]
                for s2, ctx in begin:
                    vals = []
                    for i in range(b['argc']):
                        l = b['locals'][i + 1]
                        t = l if isinstance(l, int) else l[0]
                        if F.path(F.strip(t)) in B.tops:
                            vals.append(ctx)
                        elif F.is_str(F.strip(t)):
                            vals.append(mk('input', (mk('any', 'block', 0),)))
                        else:
                            s2, g = B.generic(s2, mk('sym', 'indent', ty=F.strip(t)), F.strip(t), 'indent')
                            s2, ci = s2.alloc(g)
                            vals.append(mk('ptr', ci, ()))
                    outs += [(s3, v, cell) for s3, v in E.run(s2, b['id'], vals)]
        except Imprecise as e:
            E.note(str(e))
        for x in E.notes[:2]:
            R.unknown('blocks', '%s: %s at %s' % (what, x[0], x[1]))
        done, bad, most = B.done, B.bad, 0
        for s, v, cell in outs:
            try:
                for s2, r in nomlib.outcome(E, s, v):
                    if r[0] != 'ok':
                        continue
                    st_ = r[2]
                    if st_.k != 'seq':
                        raise Imprecise('statements ' + show(st_, 3))
                    S, inn = list(st_.a[0]), B.get(s2, 'inner', ())
                    most = max(most, len(S))
                    looks = sorted(B.get(s2, 'looks', ()), key=lambda l: (l[0], l[1], l[3]))
                    if inner and not any(a > len(S) for a, _, _ in inn):
                        # afterwards, in the enclosing scope
                        after_ = [(s2, ())]
                        for kd in KINDS:
                            after_ = [(s4, l + ((kd, got),)) for s3, l in after_ for s4, got in B.ask(s3, mk('ptr', cell, ()), kd)]
                    else:
                        after_ = [(s2, ())]
                    for s3, l in after_:
                        for at, kd, got, ni, w in [l2 + ('statement',) for l2 in looks] + [(len(S) + 1, kd, got, len(inn), 'what follows the block') for kd, got in l]:
                            if at - 1 > len(S):
                                continue
                            t = B.judge(s3, kd, got, outer, B.declared(S, inn, at - 1, ni))
                            key = (at, kd, w)
                            if t:
                                bad.setdefault(key, 'after %s: the %s `q` %s' % (', '.join(show(x, 3) for x in S[:at - 1]) or 'no statement', kd, t))
                            else:
                                done[key] = done.get(key, 0) + 1
            except Imprecise as e:
                R.unknown('blocks', '%s: %s' % (what, e))
                break
        for (at, kd, w), n in sorted(done.items()):
            if (at, kd, w) not in bad:
                R.ok('blocks', '%s: the %s a name denotes, asked in statement %d by %s (%d paths)' % (what, kd, at, w, n))
        for (at, kd, w), t in sorted(bad.items(), key=str)[:4]:
            R.bad('blocks', 'scope:%s:%s' % (w, kd), '%s: in statement %d asked by %s: %s' % (what, at, w, t))
        if most <= real and not E.notes:
            R.unknown('blocks', '%s: nothing read' % what)
    R.analysed |= E.analysed


class Readers(Scopes):
    """Parsers below statements: what they refer to is what the lookups they are given answer for a name they read."""

    def __init__(self, C):
        Scopes.__init__(self, C)
        E, F = self.E, self.F
        self.kinds_of = {F.types[t]['path']: k for t, k in ((self.ety, 'entity'), (self.mty, 'memory'), (self.dty, 'module'))}
        self.tyof = {'entity': self.ety, 'memory': self.mty, 'module': self.dty}
        self.stmts = C.fn('stmt::parsers::stmts')['path']
        self.module = C.fn('module::parsers::module')['path']
        self.port = C.adt('module::Port')
        self.pending, self.seen = [], set()
        self.wrong, self.asked = {}, {}
        self.rec, self.start = Rec(), None
        for kd in KINDS:
            for it in F.trait_items('Context', kd):
                E.over[it['path']] = self.finder(kd)
        # texts read in identifiers
        self.names = {b['id'] for b in F.bodies.values() if parserty(C, b) is not None and F.is_str(parserty(C, b))}
        self.current = None

    def finder(self, kd):
        def find(E, st, a, c):
            n = E.deref(st, a[-1])
            v = mk('app', 'found', (kd, n), ty=self.tyof[kd])
            return [(s, some(v) if b else NONE) for s, b in E.truth(st, mk('app', 'isfound', (kd, n)))]
        return find

    def lookup_kind(self, st, a):
        E, F = self.E, self.F
        n = 0
        while a.k == 'ptr' and n < 10:
            a, n = E.load(st, a), n + 1
        if a.k == 'native':
            return 'module'
        if a.k != 'clo':
            return None
        t = F.types[F.strip(E.prep(a.a[0]).locals[0])]
        if t['k'] == 'adt' and short(t['path']) == 'Option':
            return self.kinds_of.get(F.path(F.strip(t['args'][0])))
        return None

    def isctx(self, st, a):
        n = 0
        while a.k == 'ptr' and n < 10:
            a, n = self.E.load(st, a), n + 1
        return a.k == 'adt' and a.a[0] in self.tops

    def hook(self, E, st, inst, path, args, cx):
        F = self.F
        b = F.bodies[inst]
        if inst == self.current and not any(x.id == inst for x, _ in E.stack):
            return None
        ty = parserty(self.C, b) if b['local'] and any(a.k == 'input' for a in args) else None
        if ty is None:
            return None
        if path.startswith('<') and 'Parser<' in path:
            v = mk('sym', 'parsed#%d' % ty, ty=ty)
            if F.types[ty]['k'] == 'tuple':
                v = E.expose(st, v)
            j = next(a for a in args if a.k == 'input')
            return [(st, nomlib.canon_err(('err', 1))), (st, ok(tup(mk('input', nomlib.after(j.a[0][0], 'inner')), v)))]
        passes = False
        key0 = (short(b['path']), short(F.bodies[self.current]['path']))
        for i, a in enumerate(args):
            kd = self.lookup_kind(st, a)
            if kd is not None:
                passes = True
                for s, v in E.callv(st, a, [self.q]):
                    for s2, k in E.cases(s, v):
                        got = v.a[2][0] if k and v.k == 'adt' else E.field(v, 1, 0) if k else None
                        want = [(s3, mk('app', 'found', (kd, self.q), ty=self.tyof[kd]) if y else None) for s3, y in E.truth(s2, mk('app', 'isfound', (kd, self.q)))]
                        for s3, w in want:
                            self.asked[key0 + (kd,)] = self.asked.get(key0 + (kd,), 0) + 1
                            if got is not w:
                                self.wrong.setdefault(key0 + (kd,), 'the %s lookup given to %s yields %s for `q`, not %s' % (kd, where(b), show(got, 3) if got is not None else 'nothing', show(w, 3) if w is not None else 'nothing'))
            elif self.isctx(st, a):
                passes = True
        if path == self.stmts:
            self.contexts_of(E, st, args)
        if passes and path != self.stmts and inst not in self.seen:
            self.seen.add(inst)
            self.pending.append((inst, list(args), st))
        r = AnyText.hook(self, E, st, inst, path, args, cx)
        if r is not None and ty == self.port:
            out = []
            for s, v in r:
                for s2, x in nomlib.outcome(E, s, v):
                    out.append((s2.fact(('ports',), s2.cons.get(('ports',), ()) + (x[2],)) if x[0] == 'ok' else s2, v))
            return out
        return r

    def contexts_of(self, E, st, args):
        """The context the statements of a module are given."""
        ctx = next(a for a in args if self.isctx(st, a))
        if self.current is None or self.F.bodies[self.current]['path'] != self.module:
            return
        pn = self.C.fieldby('module::Port', 'str')
        ports = st.cons.get(('ports',), ())
        decls = tuple(('entity', p, E.field(p, 0, pn)) for p in ports)
        over = {}
        for kd in KINDS:
            for it in self.F.trait_items('Context', kd):
                over[it['path']] = E.over.pop(it['path'])
        try:
            for kd in KINDS:
                for s2, got in self.ask(st, ctx, kd):
                    if kd == 'module':
                        want = [(s3, mk('app', 'found', (kd, self.q), ty=self.dty) if y else None) for s3, y in E.truth(s2, mk('app', 'isfound', (kd, self.q)))]
                    else:
                        want = self.oracle(s2, kd, decls)
                    for s3, w in want:
                        if not consistent(s3):
                            continue
                        key = ('statements', 'module', kd)
                        self.asked[key] = self.asked.get(key, 0) + 1
                        if not agree(self, got, w):
                            self.wrong.setdefault(key, 'with %d ports, the %s `q` is %s instead of %s%s' % (len(ports), kd, show(got, 3) if got is not None else 'nothing', show(w, 3) if w is not None else 'nothing', tellfacts(E, s3)))
        finally:
            E.over.update(over)

    # ------------------------------------------------------------ results
    def references(self, v, out, seen):
        """The values a result refers to by name: (kind, value)."""
        F, C = self.F, self.C
        if v.id in seen:
            return
        seen.add(v.id)
        if v.k == 'adt' and v.ty is not None:
            fs = F.variants(v.ty)
            t = F.types[F.strip(v.ty)]
            for f, x in zip(fs[v.a[1]]['fields'], v.a[2]):
                kd = self.kinds_of.get(F.path(F.strip(f[1]))) if F.strip(f[1]) is not None else None
                if kd is not None and t['path'] != F.types[C.adt('stmt::Kind')]['path']:
                    out.append((kd, x, '%s of %s' % (f[0], t['path'])))
                    continue
                self.references(x, out, seen)
            return
        for x in v.a:
            if isinstance(x, T):
                self.references(x, out, seen)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        self.references(y, out, seen)

    def isname(self, n):
        """A text an inner parser yielded, unchanged."""
        while n.k == 'str' and len(n.a[0]) == 1 and isinstance(n.a[0][0], T):
            n = n.a[0][0]
        return n.k == 'sym' and n.a[0].startswith('result#') and n.a[0].count('.') == 1 and int(n.a[0][7:].split('.')[0]) in self.names

    def run(self, inst, args, st):
        """One parser: (references which are found, descriptions of others, whether it succeeds)."""
        E, F = self.E, self.F
        b = F.bodies[inst]
        self.current = inst
        E.notes, E.panics, E.steps = [], [], 0
        st = St(dict(st.store), {}, st.nxt)
        vals = []
        for i, a in enumerate(args):
            l = b['locals'][i + 1]
            t = l if isinstance(l, int) else l[0]
            vals.append(mk('input', (mk('any', 'in', inst),)) if a.k == 'input' else a)
        good, bad, yes = 0, [], False
        for s, v in E.run(st, inst, vals):
            for s2, r in nomlib.outcome(E, s, v):
                if r[0] != 'ok':
                    continue
                yes = True
                refs = []
                self.references(r[2], refs, set())
                for kd, n in [x.a[1] for k, t in s2.cons.items() if k[0] == 'b' and t is False for x in [k[1]] if x.k == 'app' and x.a[0] == 'isfound']:
                    for kd2, x, fld in refs:
                        if n is not self.q and kd == kd2 and x.k == 'app' and x.a[0] == 'found' and x.a[1][1] is not n and self.isname(n):
                            bad.append('although there is no %s named %s, %s is %s' % (kd, show(n, 2), fld, show(x, 4)))
                for kd, x, fld in refs:
                    if x.k == 'app' and x.a[0] == 'found' and x.a[1][0] == kd and self.isname(x.a[1][1]):
                        good += 1
                    elif is_sym(x) and not (x.k == 'app' and x.a[0] == 'found') and root_result(x):
                        good += 1
                    else:
                        bad.append('%s is %s' % (fld, show(x, 4)))
                if F.strip(b['locals'][0] if isinstance(b['locals'][0], int) else b['locals'][0][0]) and b['path'] == self.module:
                    t = self.samemodule(s2, r[2])
                    if t:
                        bad.append(t)
        return good, bad, yes

    def samemodule(self, st, m):
        """The ports a module has are those its statements could refer to."""
        F, C = self.F, self.C
        ports = st.cons.get(('ports',), ())
        i = next((i for i, f in enumerate(F.variants(self.dty)[0]['fields']) if F.is_coll(F.strip(f[1])) and self.port in [F.strip(x) for x in F.types[F.strip(f[1])].get('args', ())]), None)
        if i is None or m.k != 'adt':
            raise Imprecise('ports of ' + show(m, 3))
        v = m.a[2][i]
        if v.k != 'seq' or len(v.a[0]) != len(ports) or any(x is not y and not has(x, y) for x, y in zip(v.a[0], ports)):
            return 'the ports read are %s, those of the module %s' % (', '.join(show(p, 2) for p in ports), show(v, 3))
        return None


def root_result(x):
    """Part of what an inner parser yielded."""
    while x.k in ('proj', 'elem', 'app') and x.a and any(isinstance(y, T) for y in x.a):
        x = next(y for y in x.a if isinstance(y, T))
    return x.k == 'sym' and x.a[0].startswith('result#')


def readers(C, R):
    S = Readers(C)
    E, F = S.E, S.F
    E.domerge = 'exact'
    E.loop_hook = None
    E.unroll = 2
    # the beginning: statements and modules
    mods = mk('native', S.finder('module'))
    first = []
    for b in F.bodies.values():
        if b['path'] == S.module:
            first.append((b['id'], [mods]))
        if b['path'] == C.fn('stmt::parsers::stmt')['path'] and any(F.path(F.strip(l if isinstance(l, int) else l[0])) in S.tops for l in b['locals'][1:b['argc'] + 1]):
            first.append((b['id'], None))
    new = C.fn('TopContext::new')
    for inst, given in first:
        b = F.bodies[inst]
        st, vals = EMPTY, []
        for i in range(b['argc']):
            l = b['locals'][i + 1]
            t = l if isinstance(l, int) else l[0]
            p = F.path(F.strip(t))
            if p in S.tops:
                cs = E.run(st, new['id'], [mods])
                (st, c), = cs
                if short(p) != 'TopContext':
                    st, p0 = S.ctxcell(st, c)
                    (st, c), = E.run(st, C.fn('SubContext::of')['id'], [p0])
                st, p0 = S.ctxcell(st, c)
                vals.append(p0)
            elif F.is_str(F.strip(t)):
                vals.append(mk('input', (mk('any', 'in', inst),)))
            elif F.types[t]['k'] == 'ref':
                st, c = st.alloc(mk('sym', 'indent', ty=F.strip(t)))
                vals.append(mk('ptr', c, ()))
            else:
                vals.append(mods)
        S.seen.add(inst)
        S.pending.append((inst, vals, st))
    while S.pending:
        inst, args, st = S.pending.pop(0)
        b = F.bodies[inst]
        try:
            good, bad, yes = S.run(inst, args, st)
        except Imprecise as e:
            E.note(str(e))
            good, bad, yes = 0, [], True
        for x in E.notes[:1]:
            R.unknown('readers', '%s: %s at %s' % (where(b), x[0], x[1]))
        if bad:
            R.bad('readers', 'reference:' + short(b['path']), '%s: %s' % (where(b), bad[0]))
        elif not E.notes:
            if yes:
                R.ok('readers', '%s (%d references)' % (where(b), good))
            else:
                R.unknown('readers', '%s never succeeds' % where(b))
    for k, n in sorted(S.asked.items()):
        if k in S.wrong:
            R.bad('readers', 'lookup:%s:%s' % (k[1], k[2]), 'in %s: %s' % (k[1], S.wrong[k]))
        else:
            R.ok('readers', '%s given to %s by %s (%d answers)' % (k[2], k[0], k[1], n))
    R.analysed |= E.analysed


class Sequence(Scopes):
    """The modules of a circuit, one after another, with anything in place of reading one."""

    def __init__(self, C):
        Scopes.__init__(self, C)
        self.module = C.fn('module::parsers::module')['path']
        self.rec, self.start = Rec(), None
        self.E.domerge = 'exact'
        self.E.loop_hook = None
        self.wrong, self.asked = None, 0

    def hook(self, E, st, inst, path, args, cx):
        if path != self.module:
            return None
        known = st.cons.get(('known',), ())
        n = len(known)
        out = []
        states = [st]
        for a in args:
            if a.k == 'clo' or a.k == 'ptr' and E.deref(st, a).k == 'clo':
                nxt = []
                for s in states:
                    for s2, v in E.callv(s, a, [self.q]):
                        for s3, k in E.cases(s2, v):
                            got = v.a[2][0] if k and v.k == 'adt' else E.field(v, 1, 0) if k else None
                            nxt += self.check(s3, got)
                states = nxt
        i = next((a for a in args if a.k == 'input' and a.a[0]), None)
        if i is None:
            raise Imprecise('the text a module is read from')
        m = mk('sym', 'module%d' % n, ty=self.dty)
        for s in states:
            out.append((s, nomlib.canon_err(('err', 1))))
            out.append((s.fact(('known',), known + (m,)), ok(tup(mk('input', nomlib.after(i.a[0][0], 'module')), m))))
        return out

    def modname(self, st, m):
        E = self.E
        return E.field(m, 0, self.C.fieldby('Module', 'str'))

    def check(self, st, got):
        known = st.cons.get(('known',), ())
        decls = tuple(('module', m, self.modname(st, m)) for m in known)
        out = []
        for s, w in self.oracle(st, 'module', decls):
            if not consistent(s):
                continue
            self.asked += 1
            if not agree(self, got, w):
                self.wrong = self.wrong or '`q` yields %s instead of %s%s' % (show(got, 3) if got is not None else 'nothing', show(w, 3) if w is not None else 'nothing', tellfacts(self.E, s))
            out.append(s)
        return out


def sequences(C, R):
    """A module can be instantiated in those after it."""
    F = C.F
    S = Sequence(C)
    E = S.E
    new, add, get = (C.fn('Modules::' + n, required=False) for n in ('new', 'add_module', 'module'))
    nx = C.method('Iterator', 'next', 'Modules')
    most = 4 if C.tier == "quick" else 5
    for h in itertools.chain(*(itertools.product('na' if add else 'n', repeat=k) for k in range(1, most + 1))):
        E.notes, E.panics, E.steps = [], [], 0
        S.wrong, S.asked = None, 0
        what = ', '.join({'n': 'next', 'a': 'add_module'}[x] for x in h)
        n = 0
        try:
            work = []
            for s, v in E.run(EMPTY, new['id'], [mk('input', (mk('any', 'in', 0),))]):
                s, c = s.alloc(v)
                work.append((s, mk('ptr', c, ())))
            for o in h:
                nxt = []
                for s, p in work:
                    if o == 'n':
                        for s2, v in E.run(s, nx['id'], [p]):
                            for s3, k in E.cases(s2, v):
                                if k:
                                    nxt.append((s3, p))
                    else:
                        known = s.cons.get(('known',), ())
                        m = mk('sym', 'module%d' % len(known), ty=S.dty)
                        for s2, _ in E.run(s, add['id'], [p, m]):
                            nxt.append((s2.fact(('known',), known + (m,)), p))
                work = [x for x in nxt if consistent(x[0])]
            for s, p in work:
                n += 1
                if get:
                    for s2, v in E.run(s, get['id'], [p, S.q]):
                        for s3, k in E.cases(s2, v):
                            got = E.deref(s3, v.a[2][0] if v.k == 'adt' else E.field(v, 1, 0)) if k else None
                            S.check(s3, got)
        except Imprecise as e:
            E.note(str(e))
        for x in E.notes[:1]:
            R.unknown('modules', '%s: %s at %s' % (what, x[0], x[1]))
        if S.wrong:
            R.bad('modules', 'modules', '%s: %s' % (what, S.wrong))
        elif not E.notes:
            if n and S.asked:
                R.ok('modules', '%s (%d paths, %d answers)' % (what, n, S.asked))
            else:
                R.unknown('modules', what + ': nothing read')
    R.analysed |= E.analysed


def tellfacts(E, st):
    t = facts_text(E, st)
    return ' when ' + t if t else ''


def c16(C):
    R = Report('C16')
    S = Scopes(C)
    contexts(C, R, S)
    R.analysed |= S.E.analysed
    blocks(C, R)
    readers(C, R)
    sequences(C, R)
    return R
