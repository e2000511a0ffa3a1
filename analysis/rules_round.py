"""Printed text parses back to the same value (C01 - C06).

For every kind of node, the writer is interpreted abstractly on a value with opaque leaves; each of its outcomes
is a text template: constant text, names, numbers, quoted strings, and the texts of nested nodes left closed.
The reader is interpreted abstractly on each template, followed by whatever may come next where such a node is
printed.  It must accept, leave exactly what follows, and yield the very value the template was written from.
A nested node is read back by the parser for its kind by the induction hypothesis, and the pair of its kind and of
the text following it becomes an obligation of its own."""
from core import *
import nomlib
from nomlib import REST, HOLES, inp, ps_of, heads, prun, result
from engine import Imprecise, Cx, St, EMPTY, is_sym, join_facts
import models

IND = 'Indentation'
DEPTH_MAX = 1 << 32


class Follow:
    """What may come after a node: (name, pieces)."""


class Node:
    def __init__(self, key, ty, writer, reader, lrec=()):
        self.key, self.ty, self.writer, self.reader, self.lrec = key, ty, writer, reader, lrec


def resty(C, body):
    """The type a parser function yields, behind pointers, or None."""
    F = C.F
    t = F.types[F.strip(C.retty(body))]
    if t['k'] != 'adt' or short(t['path']) != 'Result':
        return None
    a = F.types[F.strip(t['args'][0])]
    if a['k'] != 'tuple' or len(a['of']) != 2:
        return None
    return F.strip(a['of'][1])


class Rounds:
    def __init__(self, C, R):
        self.C, self.R, self.F = C, R, C.F
        F = C.F
        self.E = E = C.engine()
        nomlib.install(E)
        E.domerge = 'exact'
        E.nodrop = True
        E.visit_limit = 200
        E.eq_expand = True
        self.names = {}
        self.nodes = {}
        self.todo, self.done = [], set()
        self.current = None          # (node, root symbol)
        self.opened, self.first = {}, {}
        self.rt = {}
        self.paths = {}
        self.only = None             # restricts the statements looked at
        self.slice = None            # set in a worker process
        for key, tyname, reader, lrec in (
                ('Type', 'Type', 'types::parsers::type', ('Vector',)),
                ('Expression', 'Expression', 'expr::parsers::expr', ('SubField', 'SubIndex', 'SubAccess')),
                ('Port', 'module::Port', 'module::parsers::port', ()),
                ('ParamValue', 'ParamValue', 'module::parsers::param_value', ()),
                ('Statement', 'Statement', 'stmt::parsers::stmt', ())):
            ty = C.adt(tyname)
            n = Node(key, ty, None, C.fn(reader), frozenset(C.variant(tyname, v) for v in lrec))
            self.nodes[F.types[ty]['path']] = n
            self.paths[key] = n
        self.capturing = False
        self.exact, self.more = C.variant(IND, 'Exact'), C.variant(IND, 'MoreThan')
        self.ipath = C.path(IND)
        self.lock = C.fn('Indentation::lock')
        self.stfmt = self.method('DisplayIndented', 'fmt', 'Statement')
        self.cond = C.fn('fmt_indendet_cond', required=False)
        E.display_hook = self.display
        E.call_hook = self.hook
        E.hole_rule = self.ntl
        E.openhole = self.openhole
        E.firsts = self.firsts
        E.strclass = self.strclass
        E.symcall = self.symcall
        for it in F.trait_items('DisplayIndented', 'fmt'):
            if F.path(it['self']) == C.path('Statement'):
                E.over[it['path']] = self.nested_stmt
        for m in ('name', 'name_ref'):
            for it in F.trait_items('Named', m):
                if F.path(it['self']) == C.path('Entity'):
                    E.over[it['path']] = self.entity_name
            E.natives['Named::' + m] = self.entity_name
        ctxs = set()
        for m in ('entity', 'memory', 'module', 'add_entity', 'add_memory', 'sub'):
            fn = (lambda E, st, a, c, m=m: self.context(st, m, a))
            E.natives['Context::' + m] = fn
            for it in F.trait_items('Context', m):
                E.over[it['path']] = fn
                ctxs.add(F.path(it['self']))
        for it in F.trait_items('Context', 'entity'):
            ctxs.add(F.path(it['self']))
        for b in F.bodies.values():
            if b['local'] and b['path'].endswith('Context::sub'):
                E.over[b['path']] = lambda E, st, a, c: self.context(st, 'sub', a)
        self.ctxs = ctxs

    def method(self, trait, name, ty):
        return self.C.method(trait, name, ty)

    # ------------------------------------------------------------------ names
    def strclass(self, st, p):
        """ident: an identifier, fname: a field name, None: any text."""
        if not (isinstance(p, T) and is_sym(p)) or p.ty is None or not self.F.is_str(p.ty):
            return None
        k = self.names.get(p)
        if k is None:
            k = self.names[p] = self.strclass0(p)
        return k if k != 'any' else None

    def strclass0(self, p):
        F = self.F
        if F.path(p.ty) == 'std::string::String' or F.types[F.strip(p.ty)]['s'].endswith('String'):
            return 'any'
        if p.k == 'proj':
            base, v, i = p.a
            pa = F.path(base.ty) if base.ty is not None else None
            if pa == self.C.path('BundleField'):
                return 'fname'
            if pa == self.C.path('Expression') and v == self.C.variant('Expression', 'SubField'):
                return 'fname'
            if pa == self.C.path('ParamValue'):
                return 'any'
            if pa == self.C.path('PrintElement'):
                return 'any'
            if base.k == 'proj' or base.k == 'elem' or True:
                return 'ident'
        return 'ident'

    def entity_name(self, E, st, a, c):
        x = E.deref(st, a[0])
        if x.k == 'adt' or not is_sym(x):
            return None
        if x.ty is not None and E.F.path(x.ty) != self.C.path('Entity') and E.F.path(x.ty) is not None and E.F.types[E.F.strip(x.ty)]['k'] == 'adt':
            return None
        return [(st, mk('app', 'name', (x,), ty=E.F.named('str')))]

    # ------------------------------------------------------------------ scopes
    def lookup(self, st, name, kind):
        E = self.E
        v = E.deref(st, name)
        ps = v.a[0] if v.k in ('input', 'str') else (v,)
        if len(ps) == 1 and isinstance(ps[0], T):
            p = ps[0]
            if p.k == 'app' and p.a[0] == 'name' and kind == 'entity':
                return [(st, some(p.a[1][0]))]
            if p.k == 'proj' and p.a[0].ty is not None:
                bp = E.F.path(p.a[0].ty)
                if (kind == 'module' and bp == self.C.path('Module')) or (kind == 'memory' and bp == self.C.path('simple::Memory')):
                    return [(st, some(p.a[0]))]
        q = mk('app', 'found', (mk('str', (kind,)), v))
        out = []
        for s, b in E.truth(st, q):
            ty = {'entity': 'Entity', 'memory': 'simple::Memory', 'module': 'Module'}[kind]
            out.append((s, some(mk('sym', 'other@%d' % q.id, ty=self.C.adt(ty))) if b else NONE))
        return out

    def context(self, st, m, a):
        if m in ('entity', 'memory', 'module'):
            return self.lookup(st, a[1], m)
        if m == 'sub':
            return [(st, mk('opaquectx'))]
        return [(st, UNIT)]

    # ------------------------------------------------------------------ writer
    def display(self, E, st, p, v, ty):
        if not is_sym(v) or v.ty is None:
            return None
        n = self.nodes.get(E.F.path(v.ty))
        if n is None or n.key == 'Statement':
            return None
        if self.current is None:
            return None
        node, root, lvl = self.current
        if v is root:
            return None
        if n is node and n.lrec and self.leading(st, p):
            d = self.ldepth(root, v)
            out = []
            st = self.normal(st, v)
            f = E.feasible(st, v)
            if f & n.lrec:
                s = E.setvar(st, v, f & n.lrec)
                out += models.emit(E, s, p, text([mk('ntl', v)]))
            rest = f - n.lrec
            if d > 1 and rest:
                rest = frozenset(i for i in rest if i in self.cheap(n))
            if rest and lvl:
                s = E.setvar(st, v, rest)
                inst = self.display_inst(v)
                out += E.enter(s, inst, E.F.bodies[inst]['path'], [v, p], Cx())
            if d < 2 and lvl and f & n.lrec:
                s = E.setvar(st, v, f & n.lrec)
                inst = self.display_inst(v)
                out += E.enter(s.fact(('deep',), True), inst, E.F.bodies[inst]['path'], [v, p], Cx())
            return out
        return models.emit(E, st, p, text([mk('nt', v)]))

    def cheap(self, n):
        if n.key == 'Expression':
            return frozenset([self.C.variant('Expression', 'Reference')])
        return frozenset([self.C.variant('Type', 'GroundType')])

    def ldepth(self, root, v):
        d = 0
        while v is not root and v.k == 'proj':
            v = v.a[0]
            if v.ty is not None and self.F.path(v.ty) == self.F.path(root.ty):
                d += 1
        return d

    def leading(self, st, p):
        q = models.sink_of(self.E, st, p)
        return q is not None and self.E.load(st, q) is text([])

    def display_inst(self, v):
        for it in self.F.trait_items('Display', 'fmt'):
            if self.F.path(it['self']) == self.F.path(v.ty):
                return self.C.mono(it['path'])['id']
        raise Missing('Display of ' + self.F.t(v.ty)['s'])

    def nested_stmt(self, E, st, a, c):
        v = E.deref(st, a[0])
        if self.current is None or v is self.current[1] or not is_sym(v):
            return None
        ind = a[1]
        out = []
        for s, n in self.locked(st, ind):
            out += models.emit(E, s, a[2], text([mk('nti', v, n)]))
        return out

    def locked(self, st, ind):
        """Lock an indentation: (state, width)."""
        E = self.E
        out = []
        for s, r in E.run(st, self.lock['id'], [ind]):
            w = E.deref(s, r)
            out.append((s, E.field(w, 0, 0) if w.k == 'adt' else w))
        return out

    def symcall(self, E, st, path, args, cx):
        """The text of an `else when` chain."""
        if not isinstance(path, str) or self.current is None or self.current[0].key != 'Statement':
            return None
        # the conditional the arguments belong to
        z = None
        for a in args:
            v = E.deref(st, a)
            if v.k == 'proj' and v.a[0].ty is not None and E.F.path(v.a[0].ty) == self.C.path('stmt::Kind'):
                k = v.a[0]
                z = k.a[0] if k.k == 'proj' else None
                break
            if is_sym(v) and v.ty is not None and E.F.path(v.ty) == self.C.path('Statement'):
                z = v
                break
        sink = None
        ind = None
        for a in args:
            if a.k == 'ptr':
                v = E.deref(st, a)
                if v.k == 'adt' and v.a[0] == self.ipath:
                    ind = a
                elif v.k == 'str' or v.k == 'app':
                    sink = a
        if z is None or sink is None or z is self.current[1] or ind is None or self.capturing:
            return None
        if not self.as_on_its_own(st, path, args, z, (sink, ind)):
            if sum(b.path == path for b, _ in E.stack) > 1:
                raise Imprecise('nested conditional written in a different way')
            st = self.stmt_facts(st, z)
            return E.run(st, self.C.mono(path)['id'], args) if st is not None else []
        out = []
        for s, n in self.locked(st, ind):
            out += models.emit(E, s, sink, text([mk('ntc', z, n)]))
        return out

    def as_on_its_own(self, st, path, args, z, skip):
        """Does the writer of the statement z itself call path with these arguments?"""
        E = self.E
        got = []

        def hook(E, s, inst, p, a, cx):
            if p == path:
                got.append((s, a))
                return []
            return None
        save = (E.call_hook, E.stack, E.frames, E.notes, self.current, E.panics)
        E.call_hook, E.stack, E.frames, E.notes, E.panics, self.capturing = hook, [], [], [], [], True
        try:
            n = self.locked(st, skip[1])
            if len(n) != 1:
                return False
            self.current = (self.current[0], z, self.current[2])
            self.write_stmt(n[0][0], z, adt(self.ipath, self.exact, n[0][1]))
            if E.notes or not got:
                return False
        finally:
            E.call_hook, E.stack, E.frames, E.notes, self.current, E.panics = save
            self.capturing = False
        for s, a in got:
            if len(a) != len(args):
                return False
            for x, y in zip(args, a):
                if x in skip or x is y:
                    continue
                if compare(E, s, E.deref(s, x), E.deref(s, y))[0] != 'same':
                    return False
        return True

    # ------------------------------------------------------------------ closed texts
    def firsts(self, p):
        """The characters a closed text can start with."""
        r = self.first.get(p.k if p.k == 'nti' else p)
        if r is None:
            key = p.k if p.k == 'nti' else p
            if p.k == 'nti' or p.k == 'nts':
                r = nomlib.IDENT0 | ({' '} if p.k == 'nti' else set())
            elif self.nodes_of(p).key == 'Expression':
                r = nomlib.IDENT0
            elif p.k == 'ntc':
                r = frozenset('w')
            else:
                r = set()
                save = self.current
                for s, q in self.openhole(EMPTY, p):
                    for s2, h, _ in heads(self.E, s, q):
                        if h is None:
                            raise Imprecise('empty text of a node')
                        if h[0] == 'c':
                            r |= self.E.atoms(s2, h[1]) if h[1].k != 'char' else {h[1].a[0]}
                        elif h[0] == 's':
                            r |= {' '}
                        else:
                            r |= nomlib.wordinfo(self.E, s2, h[1])[0]
                self.current = save
                r = frozenset(r)
            self.first[key] = r
        return r

    def nodes_of(self, p):
        return self.nodes[self.F.path(p.a[0].ty)]

    def openhole(self, st, p):
        E = self.E
        x = p.a[0]
        if p.k == 'nti':
            return [(st, (app('rep', ' ', p.a[1]), mk('nts', x, p.a[1])))]
        n = self.nodes_of(p)
        if n.key == 'Expression':
            return [(st, (mk('app', 'lead', (x,), ty=None), mk('app', 'afterch', (x,), ty=None)))]
        alts = self.opened.get(p)
        if alts is None:
            alts = self.opened[p] = self.open0(p, n, x)
        if ('open', p) in st.cons:
            return [(st, alts[st.cons[('open', p)]][1])]
        out = []
        for i, (facts, ps) in enumerate(alts):
            s = St(st.store, {**st.cons, **facts, ('open', p): i}, st.nxt)
            out.append((s, ps))
        return out

    def open0(self, p, n, x):
        E = self.E
        save, self.current = self.current, (n, x, 0)
        notes, E.notes = E.notes, []
        panics = list(E.panics)
        stack, E.stack = E.stack, []
        frames, E.frames = E.frames, []
        hook, E.call_hook = E.call_hook, self.writehook
        dm = E.domerge
        try:
            if n.key == 'Statement':
                alts = self.write_stmt(self.stmt_facts(EMPTY, x), x, adt(self.ipath, self.exact, p.a[1]))
            else:
                alts = self.write_display(EMPTY, x)
            bad = list(E.notes)
        finally:
            self.current = save
            E.notes, E.stack, E.frames, E.call_hook, E.panics = notes, stack, frames, hook, panics
        if bad:
            raise Imprecise('text of a nested node: ' + str(bad[0]))
        out = []
        if n.lrec and x.k != 'sym' or n.lrec and not show(x).startswith('leftmost'):
            # the text of a left-recursive node starts with the text of the node at its bottom
            y = sym('leftmost@%d' % x.id, n.ty)
            q = mk('nt', y)
            if q not in self.opened:
                self.opened[q] = self.open0(q, n, y)
            for facts, ps in self.opened[q]:
                out.append(({('var', x): n.lrec, **facts}, tuple(ps) + (REST,)))
        for s, t in alts:
            if n.lrec and E.feasible(s, x) & n.lrec:
                continue
            ps = t
            if n.key == 'Statement':
                if ps and isinstance(ps[0], T) and ps[0].k == 'app' and ps[0].a[0] == 'rep':
                    ps = ps[1:]
                ps = self.truncate(ps)
                facts = {}
            else:
                facts = s.cons
            if p.k == 'ntc' and not (ps and isinstance(ps[0], str) and ps[0].startswith('when')):
                continue
            if (facts, ps) not in out:
                out.append((facts, ps))
        return out

    def truncate(self, ps):
        """The first pieces of a statement: up to the text after its first nested part."""
        out = []
        seen = 0
        for q in ps:
            if isinstance(q, str):
                out.append(q)
                if seen:
                    return tuple(out) + (REST,)
            else:
                if seen or not (q.k in HOLES or nomlib.wordinfo(self.E, EMPTY, q)):
                    return tuple(out) + (REST,)
                seen += 1
                out.append(q)
        return tuple(out)

    # ------------------------------------------------------------------ reader
    def writehook(self, E, st, inst, path, args, cx):
        # the text of an `else when` chain is written by a recursive helper
        if any(b.path == path for b, _ in E.stack) and E.F.bodies[inst]['local']:
            return self.symcall(E, st, path, args, cx)
        return None

    def hook(self, E, st, inst, path, args, cx):
        b = E.F.bodies.get(inst)
        if b is None or not b['local'] or '{closure' in path:
            return None
        rt = self.rt.get(inst)
        if rt is None:
            p = E.F.path(self.C.retty(b))
            rt = self.rt[inst] = ('ctx',) if p in self.ctxs else ('parse', resty(self.C, b))
        if rt[0] == 'ctx':
            return [(st, mk('opaquectx'))]
        if rt[1] is None:
            return None
        p = E.F.path(rt[1])
        if p not in self.nodes:
            return None
        for a in args:
            v = E.deref(st, a)
            if v.k == 'input':
                return self.induct(st, v.a[0], p, args, path)
        return None

    def induct(self, st, ps, path, args, fn):
        """The induction hypothesis for a nested node at the head of the input."""
        E = self.E
        if not ps or not isinstance(ps[0], T) or ps[0].k not in ('nt', 'nti', 'ntc', 'ntl'):
            return None
        h, rest = ps[0], ps[1:]
        x = h.a[0]
        if E.F.path(x.ty) != path:
            return None
        n = self.nodes[path]
        if h.k == 'ntl':
            return [(st, result(('ok', rest, x)))] if fn != n.reader['path'] else None
        if (fn != n.reader['path']) != (h.k == 'ntc'):
            return None
        if h.k in ('nti', 'ntc'):
            ind = None
            for a in args:
                if a.k == 'ptr':
                    v = E.deref(st, a)
                    if v.k == 'adt' and v.a[0] == self.ipath or is_sym(v) and v.ty is not None and E.F.path(v.ty) == self.ipath:
                        ind = a
            if ind is None:
                raise Imprecise('statement parser without indentation')
            out = []
            v = E.deref(st, ind)
            for s, k in E.cases(st, v):
                l = E.field(v, k, 0)
                if h.k == 'ntc' and k != self.exact:
                    raise Imprecise('conditional without established indentation')
                d = sub(h.a[1], l)
                for s2, good in E.truth(s, E.rng(d, 0, 0) if k == self.exact else E.rng(d, 1, None)):
                    if good:
                        s2 = E.store(s2, ind, adt(self.ipath, self.exact, h.a[1]))
                        self.follow(s2, n, rest, h)
                        out.append((s2, result(('ok', rest, x))))
                    else:
                        out.append((s2, nomlib.canon_err(nomlib.ERR)))
            return out
        self.follow(st, n, rest, h)
        return [(st, result(('ok', rest, x)))]

    def ntl(self, E, st, p, ps):
        """A left-recursive base is read by the first inner parser for its type."""
        if p.a[0] not in ('alt', 'map', 'map_opt', 'or'):
            return None
        t = p.a[2] if len(p.a) > 2 else ()
        if len(t) < 2 or E.F.path(t[1]) != E.F.path(ps[0].a[0].ty):
            return None
        return [(st, ('ok', ps[1:], ps[0].a[0]))]

    # ------------------------------------------------------------------ obligations
    def follow(self, st, n, rest, h):
        """Register what follows a nested node as an obligation of its kind."""
        f = self.canon(rest, n)
        k = (n.key, f)
        if k not in self.done and k not in self.todo:
            self.todo.append(k)

    def canon(self, rest, n):
        out = []
        for i, p in enumerate(rest):
            if isinstance(p, str):
                k = len(p) - len(p.lstrip(' '))
                if n.key == 'Statement':
                    out.append(p[:k + 6])
                else:
                    m = k + (3 if p[k:k + 2] == '<-' else 2)
                    out.append(p[:m])
                    if len(p) < m and i + 1 < len(rest):
                        continue
                    if len(p) <= m and i + 1 == len(rest):
                        return tuple(out)
                return tuple(out) + (REST,)
            if p is REST:
                return tuple(out) + (REST,)
            if n.key == 'Statement':
                if p.k == 'nti':
                    return ('nti',)
                if p.k == 'app' and p.a[0] == 'rep':
                    nx = rest[i + 1] if i + 1 < len(rest) else None
                    if isinstance(nx, str):
                        return ('line',)
                    return ('line',)
                if p.k == 'sym':
                    return ('line',)
                raise Imprecise('text after a statement: ' + show(p))
            if p.k in HOLES or out:
                return tuple(out) + (REST,)
            if nomlib.wordinfo(self.E, EMPTY, p) or p.k in ('app', 'sym', 'proj', 'elem'):
                raise Imprecise('text after a nested node: ' + show(p))
        return tuple(out)

    # ------------------------------------------------------------------ running
    def normal(self, st, x):
        """What holds for every value a parser yields: a cast names a kind of type, never a width."""
        E, C = self.E, self.C
        if x.ty is None or self.F.path(x.ty) != C.path('Expression'):
            return st
        op = E.field(x, C.variant('Expression', 'PrimitiveOp'), 0)
        g = E.field(op, C.variant('Operation', 'Cast'), 1)
        for k in ('UInt', 'SInt', 'Fixed', 'Analog'):
            st = E.setvar(st, E.field(g, C.variant('GroundType', k), 0), frozenset([0]))
        return st

    def write_display(self, st, x):
        """The texts of a value: (state, pieces)."""
        E = self.E
        st = self.normal(st, x)
        s0, cell = st.alloc(text([]))
        return self.written(E.run(s0, self.display_inst(x), [x, mk('ptr', cell, ())]), cell)

    def write_stmt(self, st, x, ind):
        E = self.E
        s0, cell = st.alloc(text([]))
        s1, ci = s0.alloc(ind)
        return self.written(E.run(s1, self.stfmt['id'], [x, mk('ptr', ci, ()), mk('ptr', cell, ())]), cell)

    def written(self, outs, cell, keep=None):
        E = self.E
        r = []
        for s, v in outs:
            for s2, k in E.cases(s, v):
                if k == 0:
                    t = s2.store[cell]
                    r.append((St({c: w for c, w in s2.store.items() if keep and c in keep}, s2.cons, 0), models.pieces(t)))
        return self.joinesc(r)

    def joinesc(self, outs):
        """Quoted texts are written character by character: collect what every class of characters becomes."""
        g, order = {}, []
        for s, ps in outs:
            es = [p for p in ps if isinstance(p, T) and p.k == 'app' and p.a[0] == 'esc']
            if not es:
                order.append((s, ps))
                continue
            key = tuple(('esc', p.a[1][0]) if isinstance(p, T) and p.k == 'app' and p.a[0] == 'esc' else p for p in ps)
            cs = frozenset((k, v) for k, v in s.cons.items() if not (k[0] == 'chr' and show(k[1]).startswith('c@'))
                           and not (k[0] == 'b' and 'c@' in show(k[1])))
            k = (key, cs)
            if k not in g:
                g[k] = []
                order.append(k)
            g[k].append((s, ps, es))
        out = []
        for o in order:
            if not isinstance(o[0], tuple):
                out.append(o)
                continue
            xs = g[o]
            cls = {}
            for s, ps, es in xs:
                for e in es:
                    sv, c = e.a[1]
                    for at, d in c:
                        cls.setdefault(sv, {})
                        cls[sv][d] = cls[sv].get(d, frozenset()) | at
            ps = tuple(mk('app', 'esc', (p.a[1][0], tuple(sorted(((at, d) for d, at in cls[p.a[1][0]].items()),
                       key=lambda c: (repr(c[1]), sorted(c[0])))))) if isinstance(p, T) and p.k == 'app' and p.a[0] == 'esc' else p
                       for p in xs[0][1])
            s = xs[0][0]
            out.append((St(s.store, dict(o[1]), s.nxt), ps))
        return self.joinrep(out)

    def without(self, cons, q):
        """Facts except those about the number q and about loop counters."""
        return {k: v for k, v in cons.items() if not (k == ('int', q) or k[0] == 'b' and k[1].k == 'app' and k[1].a[0] == 'in' and k[1].a[1][0] is q
                                                       or k[0] == 'int' and k[1].k == 'sym' and str(k[1].a[0]).startswith('round'))}

    def joinrep(self, outs):
        """No space at all is a run of zero spaces."""
        E = self.E
        index = {}
        for i, (s, ps) in enumerate(outs):
            index.setdefault(norm(ps), []).append(i)
        gone, new = set(), {}
        for i, (s, ps) in enumerate(outs):
            for j, p in enumerate(ps):
                if not (isinstance(p, T) and p.k == 'app' and p.a[0] == 'rep'):
                    continue
                q, sg, k0 = E.canon(p.a[1][1])
                z = -k0 * sg
                for o in index.get(norm(ps[:j] + ps[j + 1:]), ()):
                    if o in gone or E.bounds(outs[o][0], q) != (z, z):
                        continue
                    c1, c2 = self.without(outs[o][0].cons, q), self.without(s.cons, q)
                    if c1 != c2:
                        continue
                    lo, hi = E.bounds(s, q)
                    c2[('int', q)] = (None if lo is None else min(lo, z), None if hi is None else max(hi, z))
                    gone.add(o)
                    new[i] = (St(s.store, c2, s.nxt), ps)
                    break
        return [new.get(i, o) for i, o in enumerate(outs) if i not in gone]

    def args(self, st, body, ps, ind=None):
        """Arguments for a reader: (state, values, cell of the indentation)."""
        C, F = self.C, self.F
        vals, ci = [], None
        for i in range(body['argc']):
            l = body['locals'][i + 1]
            t = l if isinstance(l, int) else l[0]
            ty = F.strip(t)
            ty = F.types[ty]
            p = ty.get('path')
            if F.is_str(F.strip(t)):
                vals.append(mk('input', ps))
            elif p == self.ipath:
                if ind is None:
                    raise Imprecise('unexpected indentation')
                st, ci = st.alloc(ind)
                vals.append(mk('ptr', ci, ()))
            elif p in self.ctxs or 'Context' in ty['s']:
                vals.append(mk('opaquectx'))
            else:
                vals.append(mk('native', self.resolver(body, i, t)))
        return st, vals, ci

    def resolver(self, body, i, t):
        """A lookup function: what it looks up follows from its type, or from its name and position."""
        s = self.F.t(t)['s'] + self.F.types[self.F.strip(t)]['s']
        ret = self.closure_ret(t)
        kind = None
        if ret is not None:
            kind = ret
        else:
            for k, w in (('module', 'Module'), ('memory', 'Memory'), ('entity', 'Option<R>')):
                if w in s:
                    kind = k
        if kind is None:
            raise Imprecise('argument of type ' + s)
        return lambda E, st, a, c: self.lookup(st, a[0], kind)

    def closure_ret(self, t):
        """What a lookup closure returns."""
        F = self.F
        i = F.strip(t)
        ty = F.types[i]
        for b in F.bodies.values():
            if '{closure' in b['path'] and b['argc'] >= 1:
                l = b['locals'][1]
                l = l if isinstance(l, int) else l[0]
                if F.strip(l) == i:
                    r = F.types[F.strip(self.C.retty(b))]
                    if r['k'] == 'adt' and short(r['path']) == 'Option':
                        q = F.path(r['args'][0])
                        for k, n in (('entity', 'Entity'), ('memory', 'simple::Memory'), ('module', 'Module')):
                            if q == self.C.path(n):
                                return k
        return None

    def obligation(self, group, key, node, x, alts, reader, follow, pick=None, ind=None, fin=None, skip=None):
        """Read every text back: it must yield x and leave what follows."""
        E, R = self.E, self.R
        proved = 0
        for st, ps in alts:
            if time.time() > DEADLINE[0]:
                R.unknown(group, key + ': analysis budget')
                return
            if len(R.violations) >= 5:
                R.unknown(group, key + ': not looked at after several violations')
                return
            if skip is not None and skip(E, st):
                continue
            full = []
            for p in ps + follow:
                nomlib.push(full, p)
            full = tuple(full)
            lrec = any(isinstance(p, T) and p.k == 'ntl' for p in full)
            E.notes, E.panics, E.steps = [], [], 0
            try:
                s0, vals, ci = self.args(st, reader, full, ind(st) if callable(ind) else ind)
                outs = E.run(s0, reader['id'], vals)
            except Imprecise as e:
                E.note(str(e))
                outs = []
            R.analysed |= E.analysed
            what = '%s of `%s` followed by %s' % (key, tshow(ps), fshow(follow))
            if E.panics:
                R.bad(group, key + ':panic', '%s: reading %s can panic: %s at %s' % (where(reader), what, E.panics[0][0], E.panics[0][1]))
            if E.notes or not outs:
                R.unknown(group, '%s: %s' % (what, E.notes[:1]))
            for s, v in outs:
                try:
                    verdicts = self.judge(s, v, x, follow, pick, ci, fin)
                except Imprecise as e:
                    verdicts = [('unknown', str(e), s)]
                for r, t, s2 in verdicts:
                    if r == 'same' and any(k[0] == 'short' for k in s2.cons):
                        r, t = 'unknown', 'quoted text of more than one character'
                    if r == 'same':
                        R.ok(group, '%s: %s' % (where(reader), what))
                        proved += 1
                    elif r == 'diff' and not E.notes and ('taint',) not in s2.cons and not (lrec and t.startswith('!')):
                        R.bad(group, key + ':' + variant_name(E, s2, x), '%s: reading %s %s [%s]'
                              % (where(reader), what, t.lstrip('!'), facts_text(E, s2, limit=6)))
                    else:
                        R.unknown(group, '%s: %s' % (what, t))
        return proved

    def judge(self, st, v, x, follow, pick, ci, fin):
        E = self.E
        out = []
        for s, k in E.cases(st, v):
            if k:
                out.append(('diff', '!is rejected', s))
                continue
            w = E.expose(s, E.field(v, 0, 0))
            rest = ps_of(E, s, w.a[0][0])
            val = w.a[0][1]
            if pick is not None:
                val = pick(E, s, val)
            if norm(rest) != norm(follow):
                out.append(('diff', '!leaves `%s`' % tshow(rest), s))
                continue
            if fin is not None:
                r = fin(E, s, s.store.get(ci) if ci is not None else None)
                if r is not None:
                    out.append(r + (s,))
                    continue
            val = E.deref(s, val)
            r = compare(E, s, val, x)
            out.append((r[0], 'yields ' + (r[1] or ''), s))
        return out

    # ---- the kinds of nodes
    def root(self, node, follow, group):
        C, E = self.C, self.E
        x = sym('x', node.ty)
        st = EMPTY
        if node.key == 'ParamValue':
            d = E.field(x, C.variant('ParamValue', 'Double'), 0)
            st = st.fact(('b', app('is_finite', d)), True)
        key = ('w', node.key)
        alts = self.opened.get(key)
        if alts is None:
            self.current = (node, x, 1)
            E.notes, E.steps = [], 0
            h, E.call_hook = E.call_hook, self.writehook
            try:
                alts = self.write_display(st, x)
            except Imprecise as e:
                E.note(str(e))
                alts = []
            E.call_hook = h
            for n in E.notes[:1]:
                self.R.unknown(group, 'writing %s: %s' % (node.key, n))
            for p in E.panics[:1]:
                self.R.bad(group, node.key + ':panic', 'printing can panic: ' + p[0])
            self.opened[key] = alts
        self.current = (node, x, 1)
        if self.slice is None and len(alts) > 60:
            self.todo += self.fan(lambda i, n: self.obligation(group, node.key, node, x, alts[i::n], node.reader, follow), node)
        else:
            self.obligation(group, node.key, node, x, alts, node.reader, follow)

    # ---- statements
    def stmt_facts(self, st, x):
        """Statements as a parser yields them."""
        E, C = self.E, self.C
        kind = E.field(x, 0, C.fieldidx('Statement', 'kind'))
        K = lambda v, f: E.field(kind, C.variant('stmt::Kind', v), C.fieldidx('stmt::Kind', f, C.variant('stmt::Kind', v)) if isinstance(f, str) else f)
        st = E.narrow(st, app('len', K('Conditional', 'when')), 1, None)
        st = st and E.narrow(st, app('len', K('Attach', 0)), 1, None)
        msg = K('Print', 'msg')
        lit = C.variant('PrintElement', 'Literal')
        for i in range(E.max_elems):
            e = E.elem(msg, i)
            st = st and E.narrow(st, app('strlen', E.field(e, lit, 0)), 1, None)
        return st

    def stmt_skip(self, E, st):
        # adjacent literals are one literal
        lit = frozenset([self.C.variant('PrintElement', 'Literal')])
        C = self.C
        kind = E.field(self.current[1], 0, C.fieldidx('Statement', 'kind'))
        p = C.variant('stmt::Kind', 'Print')
        msg = E.field(kind, p, C.fieldidx('stmt::Kind', 'msg', p))
        n = E.bounds(st, app('len', msg))
        if not n[0] or n[0] < 2:
            return False
        if self.C.tier == 'quick':
            # long messages only without name and info
            info = E.field(self.current[1], 0, C.fieldidx('Statement', 'info'))
            name = E.field(kind, p, C.fieldidx('stmt::Kind', 'name', p))
            if E.feasible(st, info) != frozenset([0]) or E.feasible(st, name) != frozenset([0]):
                return True
        return all(E.feasible(st, E.elem(msg, i)) == lit for i in (0, 1))

    def statement_follow(self, f, group):
        C, E = self.C, self.E
        node = self.paths['Statement']
        x = sym('x', node.ty)
        for mode in ('Exact', 'MoreThan'):
            if time.time() > DEADLINE[0]:
                self.R.unknown(group, 'analysis budget')
                return
            key = ('w', 'Statement', mode)
            l = sym('level', E.F.named('usize'))
            got = self.opened.get(key)
            if got is None:
                st = E.narrow(EMPTY, l, 0, DEPTH_MAX)
                st = self.stmt_facts(st, x)
                if self.only is not None:
                    st = self.only(st, x)
                self.current = (node, x, 1)
                E.notes, E.panics, E.steps = [], [], 0
                h, E.call_hook = E.call_hook, self.writehook
                try:
                    s1, ci = st.alloc(adt(self.ipath, getattr(self, 'exact' if mode == 'Exact' else 'more'), l))
                    s2, cell = s1.alloc(text([]))
                    outs = self.written(E.run(s2, self.stfmt['id'], [x, mk('ptr', ci, ()), mk('ptr', cell, ())]), cell, (ci,))
                    got = []
                    for s, ps in outs:
                        w = s.store.get(ci)
                        if w is None or w.k != 'adt' or w.a[1] != self.exact:
                            raise Imprecise('indentation after printing')
                        got.append((St({}, s.cons, 0), ps, w.a[2][0]))
                except Imprecise as e:
                    E.note(str(e))
                    got = []
                E.call_hook = h
                for n in E.notes[:1]:
                    self.R.unknown(group, 'writing statements: %s' % (n,))
                for q in E.panics[:1]:
                    self.R.bad(group, 'Statement:panic', 'printing can panic: ' + q[0])
                self.opened[key] = got
            self.current = (node, x, 1)
            if self.slice is None:
                self.todo += self.fan(lambda i, n, m=mode: self.statement_texts(f, group, m, node, x, l, got[i::n]), node)
            else:
                self.statement_texts(f, group, mode, node, x, l, got)

    def fan(self, work, node):
        """Spread obligations over processes; the contexts they find come back."""
        def go(i, n):
            self.slice, self.todo = i, []
            work(i, n)
            return [(k, tuple(None if q is REST else q for q in f)) for k, f in self.todo
                    if all(isinstance(q, str) or q is REST for q in f)], len(self.todo)
        found = []
        for x in self.R.parallel(go):
            if x is None:
                continue
            r, cnt = x
            if len(r) != cnt:
                self.R.unknown('contexts', 'context lost')
            for k, f in r:
                k = (k, tuple(REST if q is None else q for q in f))
                if k not in found and k not in self.todo and k not in self.done:
                    found.append(k)
        return found

    def statement_texts(self, f, group, mode, node, x, l, got):
        E = self.E
        for st, ps, n in got:
            fo = ()
            if f == ('line',):
                k, c = sym('outer', E.F.named('usize')), sym('next', E.F.named('char'))
                ok_ = [s for s, b in E.truth(st, E.rng(sub(n, k), 1, None)) if b]
                if not ok_:
                    continue
                st = E.narrow(ok_[0], k, 0, None)
                if st is None:
                    continue
                st = E.setatoms(st, c, nomlib.IDENT0)
                fo = (app('rep', ' ', k), c, REST)
            elif f == ('nti',):
                fo = (mk('nti', sym('z', node.ty), n), REST)
            ind = adt(self.ipath, getattr(self, 'exact' if mode == 'Exact' else 'more'), l)

            def fin(E, s, w, n=n):
                if w is None or w.k != 'adt' or w.a[1] != self.exact:
                    return ('unknown', 'indentation after reading')
                r = compare(E, s, w.a[2][0], n)
                return None if r[0] == 'same' else (r[0], 'leaves the indentation at ' + str(r[1]))
            self.obligation(group, 'Statement(%s)' % mode, node, x, [(st, ps)], node.reader, fo, ind=ind, fin=fin, skip=self.stmt_skip)

    def param_facts(self, st, x):
        """Parameter values as a parser yields them are finite."""
        return st

    def only_kinds(self, kinds, entities=None):
        E, C = self.E, self.C

        def only(st, x):
            kind = E.field(x, 0, C.fieldidx('Statement', 'kind'))
            st = E.setvar(st, kind, frozenset(C.variant('stmt::Kind', k) for k in kinds))
            if entities is not None:
                ent = E.field(kind, C.variant('stmt::Kind', 'Declaration'), 0)
                st = E.setvar(st, ent, frozenset(C.variant('Entity', e) for e in entities))
            return st
        self.only = only

    def value_root(self, tyname, reader, follows, group, facts=None):
        """A kind of value with a Display of its own and the parser for it."""
        E, C = self.E, self.C
        n = Node(tyname, C.adt(tyname), None, C.fn(reader))
        x = sym('x', n.ty)
        self.current = (n, x, 1)
        E.notes, E.panics, E.steps = [], [], 0
        h, E.call_hook = E.call_hook, self.writehook
        try:
            alts = self.write_display(facts(x) if facts else EMPTY, x)
        except Imprecise as e:
            E.note(str(e))
            alts = []
        E.call_hook = h
        for q in E.notes[:1]:
            self.R.unknown(group, 'writing %s: %s' % (tyname, q))
        for q in E.panics[:1]:
            self.R.bad(group, tyname + ':panic', 'printing can panic: ' + q[0])
        for f in follows:
            self.obligation(group, tyname, n, x, alts, n.reader, f)

    def drain(self, keys, group):
        """Work off the obligations found on the way."""
        n = 0
        while self.todo:
            k = self.todo.pop(0)
            if k in self.done or k[0] not in keys:
                continue
            self.done.add(k)
            node = self.paths[k[0]]
            if k[0] == 'Statement':
                self.statement_follow(k[1], group)
            else:
                self.root(node, k[1], group)
            n += 1
            if n > 200:
                self.R.unknown(group, 'too many contexts')
                return


def norm(ps):
    out = []
    for p in ps:
        nomlib.push(out, p)
    return tuple(out)


def tshow(ps):
    r = ''
    for p in ps:
        if isinstance(p, str):
            r += p.replace('\n', '\\n')
        elif p is REST:
            r += '...'
        elif p.k == 'app' and p.a[0] in ('esc', 'escmore'):
            r += '{characters of ' + show(p.a[1][0], 3) + '}'
        else:
            r += '{' + show(p, 3) + '}'
    return r


def fshow(ps):
    return '`%s`' % tshow(ps) if ps else 'the end'


def variant_name(E, st, x):
    vs = E.F.variants(x.ty) if x.ty is not None else None
    if vs and len(vs) > 1:
        f = E.feasible(st, x)
        if len(f) == 1:
            v = next(iter(f))
            r = vs[v]['name']
            for i in range(len(vs[v]['fields'])):
                y = E.field(x, v, i)
                if is_sym(y) and y.ty is not None and ('var', y) in st.cons and E.F.variants(y.ty) and len(vs[v]['fields']) == 1:
                    return r + ':' + variant_name(E, st, y)
            return r
    return ''


def c01(C):
    R = Report('C01')
    r = Rounds(C, R)
    node = r.paths['Type']
    for f in ((), (',', REST), ('}', REST), ('\n', REST), (' @[', REST), (')', REST)):
        r.todo.append(('Type', f))
    r.drain(('Type',), 'types')
    return R


def c03(C):
    R = Report('C03')
    r = Rounds(C, R)
    for f in ((), ('line',), ('nti',)):
        r.todo.append(('Statement', f))
    r.drain(('Statement',), 'statements')
    return R


def c02(C):
    R = Report('C02')
    r = Rounds(C, R)
    for f in ((), (', ', REST), (')', REST), (']', REST), ('\n', REST), (' @', REST), (' <=', REST), (' <- ', REST), (' is ', REST), (' with', REST), (':\n', REST), (': ', REST), (': @', REST)):
        r.todo.append(('Expression', r.canon(f, r.paths['Expression'])))
    r.drain(('Expression', 'Type'), 'expressions')
    return R


LINE = ((), ('\n', REST), (' @[', REST))


def c04(C):
    R = Report('C04')
    r = Rounds(C, R)
    r.only_kinds(('Declaration', 'SimpleMemDecl'), ('Register', 'Memory', 'SimpleMemPort', 'Instance'))
    for f in ((), ('line',), ('nti',)):
        r.todo.append(('Statement', f))
    for f in LINE[:2]:
        r.todo.append(('Port', f))
    r.value_root('register::Register', 'memory::parsers::register', LINE, 'registers')
    r.value_root('simple::Memory', 'memory::parsers::simple_mem', LINE, 'simple memories')
    r.value_root('simple::Port', 'memory::parsers::simple_mem_port', LINE, 'simple memory ports')
    r.value_root('module::Instance', 'module::parsers::instance', LINE, 'instances')
    r.drain(('Statement', 'Port', 'Expression', 'Type'), 'declarations')
    return R


def modules(r, group):
    """Modules, at a fixed and at a yet unknown indentation."""
    C, E, R = r.C, r.E, r.R
    node = Node('Module', C.adt('Module'), None, C.fn('module::parsers::module'))
    wr = C.method('DisplayIndented', 'fmt', 'Module')
    x = sym('x', node.ty)
    for mode in ('Exact', 'MoreThan'):
        l = sym('level', E.F.named('usize'))
        st = E.narrow(EMPTY, l, 0, DEPTH_MAX)
        st = r.param_facts(st, x)
        r.current = (node, x, 1)
        E.notes, E.panics, E.steps = [], [], 0
        h, E.call_hook = E.call_hook, r.writehook
        ind = adt(r.ipath, r.exact if mode == 'Exact' else r.more, l)
        got = []
        try:
            s1, ci = st.alloc(ind)
            s2, cell = s1.alloc(text([]))
            for s, ps in r.written(E.run(s2, wr['id'], [x, mk('ptr', ci, ()), mk('ptr', cell, ())]), cell, (ci,)):
                w = s.store.get(ci)
                if w is None or w.k != 'adt' or w.a[1] != r.exact:
                    raise Imprecise('indentation after printing')
                got.append((St({}, s.cons, 0), ps, w.a[2][0]))
        except Imprecise as e:
            E.note(str(e))
            got = []
        E.call_hook = h
        for n in E.notes[:1]:
            R.unknown(group, 'writing modules: %s' % (n,))
        for q in E.panics[:1]:
            R.bad(group, 'Module:panic', 'printing can panic: ' + q[0])
        r.current = (node, x, 1)

        def work(i, k, got=got, ind=ind, mode=mode):
            for st, ps, n in got[i::k]:
                def fin(E, s, w, n=n):
                    if w is None or w.k != 'adt' or w.a[1] != r.exact:
                        return ('unknown', 'indentation after reading')
                    q = compare(E, s, w.a[2][0], n)
                    return None if q[0] == 'same' else (q[0], 'leaves the indentation at ' + str(q[1]))
                for fo in ((), (app('rep', ' ', n), 'module ', REST), (app('rep', ' ', n), 'extmodule ', REST)):
                    r.obligation(group, 'Module(%s)' % mode, node, x, [(st, ps)], node.reader, fo, ind=ind, fin=fin)
        r.todo += r.fan(work, node)


def header(r, group):
    """The header of a circuit: the modules that follow it are not looked at."""
    C, E, R, F = r.C, r.E, r.R, r.F
    ty = C.adt('Circuit')
    x = sym('x', ty)
    mpath = C.path('Module')
    disp = next((F.bodies[i['inst']] for i in F.trait_items('Display', 'fmt') if F.path(i['self']) == C.path('Circuit')), None)
    if disp is None:
        raise Missing('Display of Circuit')
    reader, mk1, mods = C.fn('circuit::parsers::consumer'), C.fn('ModuleConsumer::new'), C.fn('Modules::new_with_origin')
    top = E.field(x, 0, C.fieldidx('Circuit', 'top'))
    info = E.field(x, 0, C.fieldidx('Circuit', 'info'))

    def body(E, st, inst, path, args, cx):
        # the text of the modules
        b = F.bodies[inst]
        if not b['local'] or len(E.stack) < 1:
            return None
        if any((v := E.deref(st, a)).k != 'adt' and is_sym(v) and v.ty is not None and F.path(v.ty) == mpath for a in args):
            if sinks := [a for a in args if a.k == 'ptr' and models.sink_of(E, st, a) is not None and E.deref(st, a).k in ('str', 'app', 'sym', 'proj')]:
                return models.emit(E, st, sinks[-1], text(mods_text))
        return None
    r.current = None
    E.notes, E.panics, E.steps = [], [], 0
    h, E.call_hook = E.call_hook, body
    n, c = sym('outer', F.named('usize')), sym('next', F.named('char'))
    mods_text = (app('rep', ' ', n), c, REST)
    st = E.setatoms(E.narrow(EMPTY, n, 1, None), c, nomlib.IDENT0)
    try:
        s0, cell = st.alloc(text([]))
        alts = r.written(E.run(s0, disp['id'], [x, mk('ptr', cell, ())]), cell)
    except Imprecise as e:
        E.note(str(e))
        alts = []
    E.call_hook = h
    for n in E.notes[:1]:
        R.unknown(group, 'writing circuits: %s' % (n,))
    name = E.field(top, 0, C.fieldby('Module', 'str'))
    for st, ps in alts:
        E.notes, E.panics, E.steps = [], [], 0
        what = 'header `%s`' % tshow(ps)
        if REST not in ps:
            R.unknown(group, what + ': no modules')
            continue
        try:
            outs = E.run(st, reader['id'], [mk('input', ps)])
        except Imprecise as e:
            E.note(str(e))
            outs = []
        R.analysed |= E.analysed
        if E.notes or not outs:
            R.unknown(group, '%s: %s' % (what, E.notes[:1]))
        for s, v in outs:
            for s2, k in E.cases(s, v):
                if k:
                    R.bad(group, 'Circuit:rejected', '%s: %s is rejected [%s]' % (where(reader), what, facts_text(E, s2, limit=4)))
                    continue
                try:
                    want = None
                    for s3, m in E.run(s2, mods['id'], [mk('input', mods_text), mk('input', ps)]):
                        for s4, c in E.run(s3, mk1['id'], [name, info, m]):
                            want = (s4, c)
                    q = compare(E, want[0], E.field(v, 0, 0), want[1])
                except Imprecise as e:
                    q = ('unknown', str(e))
                if q[0] == 'same':
                    R.ok(group, '%s: %s' % (where(reader), what))
                elif q[0] == 'diff' and not E.notes:
                    R.bad(group, 'Circuit', '%s: reading %s: %s' % (where(reader), what, q[1]))
                else:
                    R.unknown(group, '%s: %s' % (what, q[1]))


def c05(C):
    R = Report('C05')
    r = Rounds(C, R)
    header(r, 'header')
    modules(r, 'modules')
    r.drain(('Port', 'ParamValue'), 'ports, parameters')
    for k, f in r.todo:
        # discharged by the rule for statements
        if k == 'Statement' and f not in ((), ('line',), ('nti',)):
            R.unknown('contexts', 'statement followed by ' + fshow(f))
    return R


def c06(C):
    R = Report('C06')
    r = Rounds(C, R)
    # infos, string parameters
    r.only_kinds(('Empty',))
    r.statement_follow((), 'info of statements')
    x = C.adt('ParamValue')
    r.value_root('module::Port', 'module::parsers::port', ((), ('\n', REST)), 'info of ports')
    r.root(r.paths['ParamValue'], (), 'parameters')
    r.root(r.paths['ParamValue'], ('\n', REST), 'parameters')
    r.opened = {k: v for k, v in r.opened.items() if not isinstance(k, tuple)}
    r.only_kinds(('Print',))
    r.statement_follow((), 'format strings')
    return R
