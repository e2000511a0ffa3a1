"""Rules about values: equality and copies, constructors and accessors, traversals."""
from core import *
import models
from rules_types import *
from models import deq, drain, it


# ------------------------------------------------------------------ C24: equality and copies

def eq_items(C):
    return [it for it in C.F.trait_items('PartialEq', 'eq') if it.get('inst') in C.F.bodies]


def c24(C):
    R = Report('C24')
    F = C.F
    eqs = eq_items(C)
    own = [it for it in eqs if F.path(it['targs'][0]) == F.path(it['targs'][1])]
    for t in ('Circuit', 'Module', 'Statement', 'Expression', 'Type', 'GroundType', 'Entity'):
        C.method('PartialEq', 'eq', t)

    def structural(E, st, a, c):
        return [(s, Bo(r)) for s, r in E.eq(st, E.deref(st, a[0]), E.deref(st, a[1]))]

    def engine():
        E = C.engine()
        E.eq_expand = True
        for it in own:
            E.over[it['path']] = structural
        return E
    for it in own:
        b = C.mono(it['path'])
        ty = C.argty(b, 0)
        x, y = sym('x', ty), sym('y', ty)
        vs = F.variants(ty)

        def oracle(E, st):
            out = []
            for s, i in E.cases(st, x):
                for s2, j in E.cases(s, y):
                    if i != j:
                        out.append((s2, FALSE))
                    else:
                        out += conj_cases(E, s2, [(lambda s, k=k: deq(E, s, E.field(x, i, k), E.field(y, i, k)))
                                                  for k in range(len(vs[i]['fields']))])
            return out
        Table(C, R, engine()).check('equality', 'eq:' + short(F.path(ty)), b, [x, y], oracle, what=' for ' + F.t(ty)['s'])
        # `ne` is the negation of `eq`
        for nt in F.trait_items('PartialEq', 'ne'):
            if nt['targs'] == it['targs'] and nt.get('inst') in F.bodies:
                Table(C, R, engine()).check('equality', 'ne:' + short(F.path(ty)), C.mono(nt['path']), [x, y],
                                            lambda E, st: [(s, Bo(v is not TRUE)) for s, v in oracle(E, st)])
    # a type and a ground type
    M = TypeModel(C)
    for it in eqs:
        if it in own:
            continue
        l, r = F.path(it['targs'][0]), F.path(it['targs'][1])
        if {short(l), short(r)} != {'Type', 'GroundType'}:
            R.unknown('equality', 'unexpected comparison of %s and %s' % (l, r))
            continue
        b = C.mono(it['path'])
        x, y = sym('x', C.argty(b, 0)), sym('y', C.argty(b, 1))
        t, g = (x, y) if short(l) == 'Type' else (y, x)

        def mixed(E, st):
            out = []
            for s, v in E.cases(st, t):
                if v != M.G:
                    out.append((s, FALSE))
                else:
                    out += [(s2, Bo(q)) for s2, q in E.eq(s, E.field(t, v, 0), g)]
            return out
        Table(C, R, engine()).check('equality', 'eq:Type:GroundType', b, [x, y], mixed)

    # copies
    for it in F.trait_items('Clone', 'clone'):
        if it.get('inst') not in F.bodies:
            continue
        b = C.mono(it['path'])
        ty = C.argty(b, 0)
        x = sym('x', ty)
        E = C.engine()
        for it2 in F.trait_items('Clone', 'clone'):
            if it2['path'] != it['path']:
                E.over[it2['path']] = lambda E, st, a, c: [(st, E.deref(st, a[0]))]
        E.over[it['path']] = lambda E, st, a, c: [(st, E.deref(st, a[0]))]
        Table(C, R, E).check('copies', 'clone:' + short(F.path(ty)), b, [x], lambda E, s: [(s, x)], what=' for ' + F.t(ty)['s'])
    return R


# ------------------------------------------------------------------ C20: constructors, builders and accessors

def flat(E, st, v):
    """Items of a lazy result as a sequence."""
    w = E.deref(st, v)
    if w.k == 'it':
        return [(s, seq(xs)) for s, xs in drain(E, st, w)]
    if w.k == 'adt' and w.a[2] and any(x.k == 'it' for x in w.a[2]):
        out = [(st, ())]
        for x in w.a[2]:
            out = [(s2, xs + (y,)) for s, xs in out for s2, y in flat(E, s, x)]
        return [(s, mk('adt', w.a[0], w.a[1], tuple(xs), ty=w.ty)) for s, xs in out]
    return [(st, w)]


class Pipe(Table):
    """A function followed by observations of its result."""
    post = None

    def run(self, st, body, args):
        outs = super().run(st, body, args)
        if self.post is None:
            return outs
        res = []
        for s, v in outs:
            try:
                res += self.post(self.E, s, v)
            except Imprecise as e:
                self.E.note(str(e))
        self.R.analysed |= self.E.analysed
        return res


def traitfn(C, trait, name, tyname=None):
    """The implementation of a trait method for a type, or the default body of the trait."""
    if tyname is not None:
        try:
            return C.method(trait, name, tyname)
        except Missing:
            pass
    for b in C.F.bodies.values():
        if short(b['path'].rsplit('::', 1)[0]) == trait and b['path'].endswith('::' + name) and '<' not in b['path']:
            return b
    raise Missing('%s::%s' % (trait, name))


def from_impl(C, target, source):
    tp = C.path(target)
    sp = source if callable(source) else (lambda t, p=C.path(source): C.F.path(t) == p)
    for it in C.F.trait_items('From', 'from'):
        if C.F.path(it['self']) == tp and len(it['targs']) > 1 and sp(C.F.strip(it['targs'][1])):
            return C.mono(it['path'])
    raise Missing('From<%s> for %s' % (source, target))


class Coherence:
    def __init__(self, C, R):
        self.C, self.R = C, R

    def observe(self, acc):
        def post(E, s, v):
            out = []
            for s2, w in E.run(s, acc['id'], [v]):
                out += flat(E, s2, w)
            return out
        return post

    def constructed(self, tyname, body, args, want, st=EMPTY):
        """Every accessor of a constructed value returns the given part."""
        for name, (acc, exp) in want.items():
            p = Pipe(self.C, self.R)
            p.post = self.observe(acc)
            p.check('constructors', 'new:%s:%s' % (tyname, name), body, args,
                    exp if callable(exp) else (lambda E, s, e=exp: [(s, e)]), st=st, what=' followed by `%s`' % name)

    def updated(self, tyname, what, body, accs, named, mutable=False, args=()):
        """An update changes the named parts and no other."""
        x = sym('x', self.C.adt(tyname))
        for name, acc in accs.items():
            p = Pipe(self.C, self.R)
            obs = self.observe(acc)
            if mutable:
                st, cell = EMPTY.alloc(x)
                p.post = lambda E, s, v: obs(E, s, s.store[cell])
                first = mk('ptr', cell, ())
            else:
                st, first = EMPTY, x
                p.post = obs

            def oracle(E, s, name=name, acc=acc):
                if name in named:
                    w = named[name]
                    return w(E, s, x) if callable(w) else [(s, w)]
                return obs(E, s, x)
            p.check('updates', 'update:%s.%s:%s' % (tyname, what, name), body, [first] + list(args), oracle, st=st,
                    what=' followed by `%s`' % name)

    def plain(self, tyname, name, body, args, oracle, st=EMPTY):
        p = Pipe(self.C, self.R)
        p.post = flat
        p.check('accessors', 'get:%s.%s' % (tyname, name), body, args, oracle, st=st)


def c20(C):
    R = Report('C20')
    F = C.F
    K = Coherence(C, R)
    S = lambda n, t: sym(n, t if isinstance(t, int) else C.adt(t))
    named = lambda t: C.method('Named', 'name', t)
    typed = lambda t: C.method('Typed', 'type', t)
    ftypes = lambda t: [f[1] for f in F.variants(C.adt(t))[0]['fields']]
    strty = F.strip(next(t for t in ftypes('module::Port') if F.is_str(F.strip(t))))
    nm = sym('name', strty)

    def coll(t):
        return F.variants(C.adt(t))[0]['fields'][vecfield(C, t)][1]

    # --- values with info
    def with_info(t, accs):
        gi = C.method('WithInfo', 'info', t)
        si = C.method('WithInfo', 'set_info', t)
        ity = C.argty(si, 1)
        i = sym('info', ity)
        every = dict(accs, info=gi)
        K.updated(t, 'set_info', si, every, {'info': i}, True, [i])
        K.updated(t, 'with_info', traitfn(C, 'WithInfo', 'with_info', t), every, {'info': i}, False, [i])
        K.updated(t, 'clear_info', traitfn(C, 'WithInfo', 'clear_info', t), every, {'info': NONE}, True)
        return every

    def names(t):
        """`name_ref` is the name."""
        x = sym('x', C.adt(t))
        nb = named(t)
        K.plain(t, 'name_ref', traitfn(C, 'Named', 'name_ref', t), [x], lambda E, s: flat_all(E, E.run(s, nb['id'], [x])))

    def flat_all(E, outs):
        return [r for s, v in outs for r in flat(E, s, v)]

    # --- memories
    MM = 'mem::Memory'
    fm = lambda n: C.fn('mem::Memory::' + n)
    data, depth = sym('data', C.adt('Type')), sym('depth', C.retty(fm('depth')))
    UNDEF_RUW = adt(C.path('ReadUnderWrite'), C.variant('ReadUnderWrite', 'Undefined'))
    acc = {n: fm(n) for n in ('data_type', 'depth', 'ports', 'read_latency', 'write_latency', 'read_under_write')}
    acc['name'] = named(MM)
    K.constructed(MM, fm('new'), [nm, data, depth],
                  {n: (acc[n], e) for n, e in (('data_type', data), ('depth', depth), ('ports', seq(())), ('read_latency', I(0)),
                                               ('write_latency', I(0)), ('read_under_write', UNDEF_RUW), ('name', nm))})
    for n in ('read_latency', 'write_latency', 'read_under_write'):
        v = sym('v', C.retty(acc[n]))
        K.updated(MM, 'with_' + n, fm('with_' + n), acc, {n: v}, False, [v])
    port = S('port', 'mem::Port')
    pidx = vecfield(C, MM)

    def after(extra):
        def w(E, s, x):
            out = []
            for s2, xs in E.expand(s, E.field(x, 0, pidx)):
                for s3, ys in extra(E, s2):
                    out.append((s3, seq(tuple(xs) + tuple(ys))))
            return out
        return w
    K.updated(MM, 'add_port', fm('add_port'), acc, {'ports': after(lambda E, s: [(s, (port,))])}, True, [port])
    ports = sym('ports', coll(MM))
    K.updated(MM, 'add_ports', fm('add_ports'), acc, {'ports': after(lambda E, s: E.expand(s, ports))}, True, [ports])
    names(MM)

    # --- registers
    RG = 'Register'
    fr = lambda n: C.fn('Register::' + n)
    ety = C.adt('Expression')
    clk, sig, val, ty = sym('clock', ety), sym('signal', ety), sym('value', ety), S('ty', 'Type')
    acc = {n: fr(n) for n in ('clock', 'reset_signal', 'reset_value')}
    acc.update(name=named(RG), type=typed(RG))
    K.constructed(RG, fr('new'), [nm, ty, clk], {n: (acc[n], e) for n, e in
                  (('name', nm), ('type', ok(ty)), ('clock', clk), ('reset_signal', NONE), ('reset_value', NONE))})
    K.updated(RG, 'with_reset', fr('with_reset'), acc, {'reset_signal': some(sig), 'reset_value': some(val)}, False, [sig, val])
    K.updated(RG, 'without_reset', fr('without_reset'), acc, {'reset_signal': NONE, 'reset_value': NONE})
    wo = fr('with_optional_reset')
    ro = sym('reset', C.argty(wo, 1))

    def part(i):
        return lambda E, s, x: [(s2, some(E.field(E.field(ro, 1, 0), 0, i)) if k else NONE) for s2, k in E.cases(s, ro)]
    K.updated(RG, 'with_optional_reset', wo, acc, {'reset_signal': part(0), 'reset_value': part(1)}, False, [ro])
    names(RG)

    # --- simple memories and their ports
    SM = 'simple::Memory'
    kd = S('kind', 'simple::Kind')
    K.constructed(SM, C.fn('simple::Memory::new'), [nm, data, kd],
                  {'name': (named(SM), nm), 'type': (typed(SM), ok(data)), 'kind': (C.fn('simple::Memory::kind'), kd)})
    names(SM)
    SP = 'simple::Port'
    fp = lambda n: C.fn('simple::Port::' + n)
    mem, dr, ad = S('mem', SM), sym('dir', C.argty(fp('new'), 2)), sym('addr', ety)
    K.constructed(SP, fp('new'), [nm, mem, dr, ad, clk],
                  {'name': (named(SP), nm), 'memory': (fp('memory'), mem), 'direction': (fp('direction'), dr),
                   'address': (fp('address'), ad), 'clock': (fp('clock'), clk)})
    names(SP)

    # --- modules, their ports and instances
    MO = 'Module'
    fo = lambda n: C.fn('Module::' + n)
    mports, mk_ = sym('ports', coll_of(C, MO)), S('kind', 'module::Kind')
    acc = {n: fo(n) for n in ('ports', 'kind', 'statements')}
    acc['name'] = named(MO)
    regular = C.variant('module::Kind', 'Regular')

    def stmts(k):
        def w(E, s, x=None):
            out = []
            for s2, v in E.cases(s, k):
                if v == regular:
                    out += [(s3, seq(xs)) for s3, xs in E.expand(s2, E.field(k, v, 0))]
                else:
                    out.append((s2, seq(())))
            return out
        return w
    info = C.method('WithInfo', 'info', MO)
    K.constructed(MO, fo('new'), [nm, mports, mk_],
                  {'name': (acc['name'], nm), 'ports': (acc['ports'], mports), 'kind': (acc['kind'], mk_),
                   'statements': (acc['statements'], stmts(mk_)), 'info': (info, NONE)})
    with_info(MO, acc)
    names(MO)
    x = S('module', MO)
    kinds = [i for i, f in enumerate(F.variants(C.adt(MO))[0]['fields']) if F.path(F.strip(f[1])) == C.path('module::Kind')]
    if kinds:
        # what kind_mut gives out is the kind itself: the reference points into the module
        st, cell = EMPTY.alloc(x)
        p = Pipe(C, R)
        k2 = S('other', 'module::Kind')

        def assigned(E, s, v):
            s2 = E.store(s, v, k2)
            return flat_all(E, E.run(s2, acc['kind']['id'], [s2.store[cell]]))
        p.post = assigned
        p.check('accessors', 'get:Module.kind_mut', fo('kind_mut'), [mk('ptr', cell, ())], lambda E, s: [(s, k2)], st=st,
                what=' followed by an assignment and `kind`')
    y = S('kind', 'module::Kind')
    K.plain('module::Kind', 'statements', C.fn('module::Kind::statements'), [y], stmts(y))
    want = sym('wanted', strty)
    pname = C.fieldby('module::Port', 'str')
    pi = module_ports(C)

    def by_name(E, st):
        out = []
        for s, xs in E.expand(st, E.field(x, 0, pi)):
            cur = [s]
            for q in xs:
                nxt = []
                for s2 in cur:
                    for s3, b in E.eq(s2, E.field(q, 0, pname), want):
                        (out.append((s3, some(q))) if b else nxt.append(s3))
                cur = nxt
            out += [(s2, NONE) for s2 in cur]
        return out
    K.plain(MO, 'port_by_name', fo('port_by_name'), [x, want], by_name)
    kp = C.path('module::Kind')
    ext = C.variant('module::Kind', 'External')
    evs = F.variants(C.adt('module::Kind'))

    def empty_kind(v):
        def pred(E, s, r):
            if r.k != 'adt':
                return ('unknown', show(r))
            if r.a[1] != v:
                return ('diff', 'variant %s instead of %s' % (evs[r.a[1]]['name'], evs[v]['name']))
            for f, z in zip(evs[v]['fields'], r.a[2]):
                z = E.deref(s, z)
                good = z is NONE or (z.k in ('seq', 'map', 'set') and not z.a[0])
                if not good:
                    return ('diff', 'field %s is %s' % (f[0], show(z))) if z.k in ('adt', 'seq', 'map') else ('unknown', show(z))
            return ('same', None)
        return lambda E, s: [(s, pred)]
    K.plain('module::Kind', 'empty_regular', C.fn('module::Kind::empty_regular'), [], empty_kind(regular))
    K.plain('module::Kind', 'empty_external', C.fn('module::Kind::empty_external'), [], empty_kind(ext))
    K.plain('module::Kind', 'default', C.method('Default', 'default', 'module::Kind'), [], empty_kind(regular))

    PO = 'module::Port'
    fq = lambda n: C.fn('module::Port::' + n)
    dirn = S('dir', 'module::Direction')
    acc = {'name': named(PO), 'type': fq('type'), 'direction': fq('direction'),
           'Typed::type': typed(PO)}
    K.constructed(PO, fq('new'), [nm, ty, dirn], {'name': (acc['name'], nm), 'type': (acc['type'], ty), 'direction': (acc['direction'], dirn),
                                                  'Typed::type': (acc['Typed::type'], ok(ty)), 'info': (C.method('WithInfo', 'info', PO), NONE)})
    with_info(PO, acc)
    names(PO)
    IN = 'Instance'
    mod = S('module', MO)
    K.constructed(IN, C.fn('Instance::new'), [nm, mod], {'name': (named(IN), nm), 'module': (C.fn('Instance::module'), mod)})
    names(IN)

    # --- circuits and statements
    CI = 'Circuit'
    acc = {'top_module': C.fn('Circuit::top_module')}
    K.constructed(CI, C.fn('Circuit::new'), [mod], {'top_module': (acc['top_module'], mod), 'info': (C.method('WithInfo', 'info', CI), NONE)})
    with_info(CI, acc)
    ST = 'Statement'
    kind = S('kind', 'stmt::Kind')
    asref = C.method('AsRef', 'as_ref', ST)
    acc = {'kind': C.fn('Statement::kind'), 'as_ref': asref}
    K.constructed(ST, from_impl(C, ST, 'stmt::Kind'), [kind], {'kind': (acc['kind'], kind), 'as_ref': (asref, kind),
                                                              'info': (C.method('WithInfo', 'info', ST), NONE)})
    with_info(ST, acc)

    # --- types
    BF = 'BundleField'
    fb = lambda n: C.fn('BundleField::' + n)
    M = TypeModel(C)
    o = S('orientation', 'Orientation')
    acc = {'name': named(BF), 'type': fb('type'), 'orientation': fb('orientation'), 'Typed::type': typed(BF)}
    K.constructed(BF, fb('new'), [nm, ty], {'name': (acc['name'], nm), 'type': (acc['type'], ty), 'orientation': (acc['orientation'], M.orient(M.NORMAL)),
                                            'Typed::type': (acc['Typed::type'], ok(ty))})
    K.updated(BF, 'with_type', fb('with_type'), acc, {'type': ty, 'Typed::type': ok(ty)}, False, [ty])
    K.updated(BF, 'with_orientation', fb('with_orientation'), acc, {'orientation': o}, False, [o])

    def flip(E, s, x):
        w = E.field(x, 0, M.fo)
        return [(s2, M.orient(M.FLIPPED if k == M.NORMAL else M.NORMAL)) for s2, k in E.cases(s, w)]
    K.updated(BF, 'flipped', fb('flipped'), acc, {'orientation': flip})
    names(BF)
    K.plain('Orientation', 'default', C.method('Default', 'default', 'Orientation'), [], lambda E, s: [(s, M.orient(M.NORMAL))])
    K.plain('ReadUnderWrite', 'default', C.method('Default', 'default', 'ReadUnderWrite'), [], lambda E, s: [(s, UNDEF_RUW)])

    tpath = C.path('Type')
    t = S('t', 'Type')

    def on(v, f):
        return lambda E, s: [(s2, f(E) if k == v else NONE) for s2, k in E.cases(s, t)]
    K.plain('Type', 'vector', C.fn('Type::vector'), [t], on(M.V, lambda E: some(tup(E.field(t, M.V, 0), E.field(t, M.V, 1)))))
    K.plain('Type', 'vector_base', C.fn('Type::vector_base'), [t], on(M.V, lambda E: some(E.field(t, M.V, 0))))
    K.plain('Type', 'ground_type', C.method('TypeExt', 'ground_type', 'Type'), [t], on(M.G, lambda E: some(E.field(t, M.G, 0))))

    def fields(E, st):
        out = []
        for s, k in E.cases(st, t):
            if k == M.B:
                out += [(s2, some(seq(xs))) for s2, xs in E.expand(s, E.field(t, M.B, 0))]
            else:
                out.append((s, NONE))
        return out
    K.plain('Type', 'fields', C.fn('Type::fields'), [t], fields)
    K.plain('Type', 'field', C.fn('Type::field'), [t, want],
            lambda E, st: [(s, NONE if f is None else some(f)) for s, f in field_lookup(M, E, st, t, want)])
    g = S('g', 'GroundType')
    K.plain('Type', 'from', from_impl(C, 'Type', 'GroundType'), [g], lambda E, s: [(s, adt(tpath, M.G, g))])
    for it in F.trait_items('From', 'from'):
        if F.path(it['self']) == tpath and F.is_coll(F.strip(it['targs'][1])):
            b = C.mono(it['path'])
            fs = sym('fields', C.argty(b, 0))
            K.plain('Type', 'from', b, [fs], lambda E, s, fs=fs: [(s, adt(tpath, M.B, fs))])
    for it in F.trait_items('FromIterator', 'from_iter'):
        if F.path(it['self']) == tpath:
            b = C.mono(it['path'])
            fs = sym('fields', F.fieldty(C.adt('Type'), M.B, 0))
            K.plain('Type', 'from_iter', b, [fs], lambda E, s, fs=fs: [(s, adt(tpath, M.B, fs))])

    gv = F.variants(C.adt('GroundType'))
    one = some(I(1))

    def width(E, st):
        return [(s, E.field(g, k, 0) if gv[k]['name'] in ('UInt', 'SInt', 'Fixed', 'Analog') else one) for s, k in E.cases(st, g)]
    K.plain('GroundType', 'width', C.fn('GroundType::width'), [g], width)
    ww = C.fn('GroundType::with_width')
    w = sym('w', C.argty(ww, 1))

    def with_width(E, st):
        gp = C.path('GroundType')
        return [(s, adt(gp, k, w, *[E.field(g, k, i) for i in range(1, len(gv[k]['fields']))])
                 if gv[k]['name'] in ('UInt', 'SInt', 'Fixed', 'Analog') else g) for s, k in E.cases(st, g)]
    K.plain('GroundType', 'with_width', ww, [g, w], with_width)
    K.plain('GroundType', 'ground_type', C.method('TypeExt', 'ground_type', 'GroundType'), [g], lambda E, s: [(s, some(g))])
    OT = C.adt('OrientedType')
    ot = sym('ot', OT)
    og = C.variant('OrientedType', 'GroundType')
    K.plain('OrientedType', 'ground_type', C.method('TypeExt', 'ground_type', 'OrientedType'), [ot],
            lambda E, s: [(s2, some(E.field(ot, og, 0)) if k == og else NONE) for s2, k in E.cases(s, ot)])

    # --- entities and expressions
    EN = 'Entity'
    en = S('entity', EN)
    ev = F.variants(C.adt(EN))

    def ename(E, st):
        out = []
        for s, k in E.cases(st, en):
            own = [i for i, f in enumerate(ev[k]['fields']) if f[0] == 'name']
            if own:
                out.append((s, E.field(en, k, own[0])))
                continue
            z = E.field(en, k, 0)
            sub_t = {'Port': PO, 'Register': RG, 'Memory': MM, 'SimpleMemPort': SP, 'Instance': IN}[ev[k]['name']]
            out += flat_all(E, E.run(s, named(sub_t)['id'], [z]))
        return out
    K.plain(EN, 'name', named(EN), [en], ename)
    K.plain(EN, 'is_declarable', C.fn('Entity::is_declarable'), [en], lambda E, st: [(s, Bo(ev[k]['name'] != 'Port')) for s, k in E.cases(st, en)])
    for vn, src in (('Port', PO), ('Register', RG), ('Memory', MM), ('SimpleMemPort', SP), ('Instance', IN)):
        z = S('part', src)
        K.plain(EN, 'from:' + vn, from_impl(C, EN, src), [z], lambda E, s, z=z, vn=vn: [(s, adt(C.path(EN), C.variant(EN, vn), z))])
    XP = 'Expression'
    for it in F.trait_items('From', 'from'):
        if F.path(it['self']) == C.path(XP):
            b = C.mono(it['path'])
            q = F.path(C.argty(b, 0))
            vn = 'PrimitiveOp' if q == C.path('Operation') else 'Reference'
            z = sym('part', C.argty(b, 0))
            K.plain(XP, 'from:' + vn, b, [z], lambda E, s, z=z, vn=vn: [(s, adt(C.path(XP), C.variant(XP, vn), z))])
    return R


def coll_of(C, tyname):
    i = module_ports(C)
    return C.F.variants(C.adt(tyname))[0]['fields'][i][1]


# ------------------------------------------------------------------ C17: traversals

def bag(want):
    """The items of a traversal, in any order, each exactly once."""
    def pred(E, s, v):
        if v.k != 'seq':
            return ('unknown', show(v))
        left = list(v.a[0])
        for w in want:
            i = next((i for i, x in enumerate(left) if same(E, s, E.deref(s, x), w)), None)
            if i is None:
                return ('diff', '[%s], which lacks %s' % (', '.join(show(x, 4) for x in v.a[0]), show(w, 4)))
            del left[i]
        if left:
            return ('diff', '[%s], in which %s is %s' % (', '.join(show(x, 4) for x in v.a[0]), show(left[0], 4),
                                                        'repeated' if any(same(E, s, left[0], w) for w in want) else 'no part of the operand list'))
        return ('same', None)
    return pred


def c17(C):
    R = Report('C17')
    F = C.F
    xpath = C.path('Expression')
    subs = C.fn('Operation::sub_exprs')
    recx = C.method('AutoTransIter', 'recurse', 'Expression')
    recs = C.method('AutoTransIter', 'recurse', 'Statement')

    def check(key, body, args, oracle, E=None, what=''):
        p = Pipe(C, R, E)
        p.post = flat
        p.check('traversals', key, body, args, oracle, what=what)

    def operands(E, x, v):
        return [E.field(x, v, i) for i, f in enumerate(F.variants(x.ty)[v]['fields']) if F.path(F.strip(f[1])) == xpath]

    # operands of primitive operations and of expressions
    op = sym('op', C.adt('Operation'))
    check('operands:Operation', subs, [op], lambda E, st: [(s, bag(operands(E, op, v))) for s, v in E.cases(st, op)])
    x = sym('expr', C.adt('Expression'))
    E = C.engine()
    E.over[subs['path']] = lambda E, st, a, c: [(st, mk('app', 'hyp', ('operands', E.deref(st, a[0])), ty=C.retty(subs)))]
    prim = C.variant('Expression', 'PrimitiveOp')

    def children(E, st):
        out = []
        for s, v in E.cases(st, x):
            if v == prim:
                for s2, xs in E.expand(s, mk('app', 'hyp', ('operands', E.field(x, v, 0)), ty=C.retty(subs))):
                    out.append((s2, bag(list(xs))))
            else:
                out.append((s, bag(operands(E, x, v))))
        return out
    check('operands:Expression', recx, [x], children, E)
    # branches of statements
    s0 = sym('stmt', C.adt('Statement'))
    ki = C.fieldby('Statement', 'Kind')
    kvs = F.variants(C.adt('stmt::Kind'))

    def branches(E, st):
        out = []
        k = E.field(s0, 0, ki)
        for s, v in E.cases(st, k):
            cur = [(s, [])]
            for i, f in enumerate(kvs[v]['fields']):
                t = F.strip(f[1])
                if F.is_coll(t) and not F.is_str(t) and F.path(F.strip(F.elemty(t))) == C.path('Statement'):
                    cur = [(s3, acc + list(xs)) for s2, acc in cur for s3, xs in E.expand(s2, E.field(k, v, i))]
            out += [(s2, bag(acc)) for s2, acc in cur]
        return out
    check('branches:Statement', recs, [s0], branches)

    # everything reachable: the transitive closure of the relation above, which the iterator library computes
    def engine():
        E = C.engine()

        def closure(E, st, a, c):
            y = E.deref(st, a[0])
            p = E.pathof(y)
            rec = recx if p == xpath else recs
            t = mk('app', 'hyp', ('reach', y), ty=C.retty(rec))
            return [(s, it('list', xs)) for s, xs in E.expand(st, t)]
        E.natives['AutoTransIter::trans_iter'] = closure
        for o in ('breadth_first', 'depth_first', 'depth_first_unordered'):
            E.natives['TransIter::' + o] = lambda E, st, a, c: [(st, a[0])]
        return E

    def filtered(root, rec, pick):
        """Oracle: the parts of the reachable items which `pick` selects."""
        def oracle(E, st):
            out = []
            for s, xs in E.expand(st, mk('app', 'hyp', ('reach', root), ty=C.retty(rec))):
                cur = [(s, [])]
                for y in xs:
                    cur = [(s3, acc + got) for s2, acc in cur for s3, got in pick(E, s2, y)]
                out += [(s2, bag(acc)) for s2, acc in cur]
            return out
        return oracle
    refv = C.variant('Expression', 'Reference')
    check('reachable:references', C.fn('Expression::references'), [x],
          filtered(x, recx, lambda E, s, y: [(s2, [E.field(y, v, 0)] if v == refv else []) for s2, v in E.cases(s, y)]), engine())
    decl = C.variant('stmt::Kind', 'Declaration')
    inst = C.variant('Entity', 'Instance')

    def declared(E, s, y):
        k = E.field(y, 0, ki)
        return [(s2, [E.field(k, v, 0)] if v == decl else []) for s2, v in E.cases(s, k)]

    def instances(E, s, y):
        out = []
        for s2, es in declared(E, s, y):
            if es:
                out += [(s3, [E.field(es[0], v, 0)] if v == inst else []) for s3, v in E.cases(s2, es[0])]
            else:
                out.append((s2, []))
        return out
    check('reachable:declarations', C.fn('Statement::declarations'), [s0], filtered(s0, recs, declared), engine())
    check('reachable:instantiations', C.fn('Statement::instantiations'), [s0], filtered(s0, recs, instances), engine())

    # modules referenced from a module
    m = sym('module', C.adt('Module'))
    kf = [i for i, f in enumerate(F.variants(C.adt('Module'))[0]['fields']) if F.path(F.strip(f[1])) == C.path('module::Kind')]
    if not kf:
        raise Missing('Module.kind')
    reg = C.variant('module::Kind', 'Regular')
    mi = C.fieldby('Instance', 'Module')

    def referenced(E, st):
        out = []
        k = E.field(m, 0, kf[0])
        for s, v in E.cases(st, k):
            cur = [(s, [])]
            if v == reg:
                cur = []
                for s2, ys in E.expand(s, E.field(k, v, 0)):
                    c2 = [(s2, [])]
                    for y in ys:
                        c3 = []
                        for s3, acc in c2:
                            for s4, zs in E.expand(s3, mk('app', 'hyp', ('reach', y), ty=C.retty(recs))):
                                c4 = [(s4, list(acc))]
                                for z in zs:
                                    c4 = [(s6, acc2 + [E.field(i, 0, mi) for i in got]) for s5, acc2 in c4 for s6, got in instances(E, s5, z)]
                                c3 += c4
                        c2 = c3
                    cur += c2
            out += [(s2, bag(acc)) for s2, acc in cur]
        return out
    E = engine()
    check('reachable:modules', C.fn('Module::referenced_modules'), [m], referenced, E)
    return R


# ------------------------------------------------------------------ C18: the order of modules in a printed circuit

class Visit:
    """Abstraction of a recursive function over modules which prints them or lists them for printing: its effect for a
    module r is an opaque block of text (or list of modules), and what it marks as done only grows."""

    def __init__(self, C, E):
        self.C, self.E = C, E
        self.calls = []
        self.mpath = C.path('Module')
        self.rec = {C.F.bodies[i]['path'] for i in recursive(C.F) if self.takes(C.F.bodies[i])}
        self.top = None

    def takes(self, b):
        F = self.C.F
        ts = [F.strip(b['locals'][i + 1] if isinstance(b['locals'][i + 1], int) else b['locals'][i + 1][0]) for i in range(b['argc'])]
        return any(F.path(t) == self.mpath for t in ts) and len(ts) > 1 and '{closure' not in b['path']

    def module_arg(self, st, args):
        for a in args:
            v = self.E.deref(st, a)
            if self.E.pathof(v) == self.mpath:
                return v

    def havoc(self, st, v, r, done):
        E, F = self.E, self.C.F
        if v.k == 'ptr':
            if v.a in done:
                return st
            done.add(v.a)
            w = E.load(st, v)
            if w.k in ('ptr', 'adt') and E.pathof(w) != self.C.path('Indentation'):
                return self.havoc(st, w, r, done) if w.k == 'ptr' else self.havoc_adt(st, v, w, r, done)
            n = self.after(w, r)
            return st if n is w else E.store(st, v, n)
        if v.k == 'adt':
            for x in v.a[2]:
                st = self.havoc(st, x, r, done)
        return st

    def havoc_adt(self, st, p, w, r, done):
        fs = []
        for x in w.a[2]:
            if x.k == 'ptr':
                st = self.havoc(st, x, r, done)
                fs.append(x)
            else:
                fs.append(self.after(x, r))
        return self.E.store(st, p, mk('adt', w.a[0], w.a[1], tuple(fs), ty=w.ty))

    def after(self, w, r):
        F = self.C.F
        if w.k == 'str':
            return text([w, mk('visit', r)])
        n = short(F.path(F.strip(w.ty)) or '') if w.ty is not None else ''
        if w.k == 'set' or n in ('HashSet', 'BTreeSet'):
            return app('visited', w, r, ty=w.ty)
        if w.k == 'seq' or n in ('Vec', 'VecDeque'):
            x = mk('app', 'hyp', ('visit', r), ty=self.C.adt('Module'))
            return seq(w.a[0] + (x,)) if w.k == 'seq' else app('push', w, x, ty=w.ty)
        return w

    def call(self, E, st, inst, path, args, cx):
        if path not in self.rec:
            return None
        r = self.module_arg(st, args)
        if r is None or (self.top is not None and r is self.top):
            return None
        self.calls.append((inst, path, st, args, r))
        for a in args:
            st = self.havoc(st, a, r, set())
        t = self.C.retty(self.C.F.bodies[inst])
        if self.C.F.path(t) == RES:
            return [(st, ok(UNIT))]
        if self.C.F.types[t]['k'] == 'tuple' and not self.C.F.types[t]['of']:
            return [(st, UNIT)]
        raise Imprecise('result of ' + path)


def c18(C):
    R = c17(C)
    R.prop = 'C18'
    F = C.F
    disp = C.method('Display', 'fmt', 'Circuit')
    refs = C.fn('Module::referenced_modules')
    anyvec = F.variants(C.adt('Module'))[0]['fields'][module_ports(C)][1]
    mty = C.adt('Module')
    mfmt = C.method('DisplayIndented', 'fmt', 'Module')
    mi = C.fieldby('Module', 'str')

    def refset(E, st, m):
        """The modules a module instantiates, in length classes."""
        t = mk('app', 'hyp', ('references', m), ty=anyvec)
        return [(s, tuple(mk('app', 'hyp', ('reference', m, i), ty=mty) for i in range(len(xs)))) for s, xs in E.expand(st, t)]

    def engine():
        E = C.engine()
        V = Visit(C, E)
        E.max_elems = 3
        E.call_hook = V.call
        E.over[refs['path']] = lambda E, st, a, c: [(s, it('list', xs)) for s, xs in refset(E, st, E.deref(st, a[0]))]

        def show_module(E, st, a, c):
            m = E.deref(st, a[0])
            piece = mk('visit', m.a[1][1]) if m.k == 'app' and m.a[0] == 'hyp' and m.a[1][0] == 'visit' else mk('module', m)
            return models.emit(E, st, a[2], text([piece]))
        E.over[mfmt['path']] = show_module
        E.display_hook = lambda E, st, p, v, ty: models.emit(E, st, p, text([mk('shown', v)])) \
            if E.pathof(v) and short(E.pathof(v)) == 'Info' else None
        return E, V
    R.analysed |= {disp['path']}
    # the circuit itself
    c = sym('circuit', C.adt('Circuit'))
    top = E0 = None
    E, V = engine()
    top = E.field(c, 0, C.fieldby('Circuit', 'Module'))
    infoi = next(i for i, f in enumerate(F.variants(C.adt('Circuit'))[0]['fields']) if i != C.fieldby('Circuit', 'Module'))
    st, cell = EMPTY.alloc(text([]))
    p = Pipe(C, R, E)

    def header(E, s, v):
        ps = list(pieces(v))
        name = E.field(top, 0, mi)
        want = ['circuit ', name, ':']
        for w in want:
            if not ps:
                return ('diff', 'no header')
            x = ps[0]
            if isinstance(w, str):
                if not isinstance(x, str):
                    return ('diff', '%s instead of %r' % (show(x, 4), w))
                if not x.startswith(w):
                    return ('diff', '%r instead of %r' % (x, w))
                ps[0] = x[len(w):]
                if not ps[0]:
                    del ps[0]
            else:
                if isinstance(x, str) or not same(E, s, x, w):
                    return ('diff', '%s instead of the name of the top module' % (show(x, 4) if isinstance(x, T) else repr(x)))
                del ps[0]
        rest = [x for x in ps if isinstance(x, T) and x.k in ('visit', 'module')]
        if [x.k for x in rest] != ['visit'] or not same(E, s, rest[0].a[0], top):
            return ('diff', 'modules %s instead of the traversal from the top module' % [show(x, 4) for x in rest])
        return ('same', None)

    p.post = lambda E, s, v: [(s, s.store[cell])]
    p.check('circuit', 'circuit', disp, [c, mk('ptr', cell, ())], lambda E, s: [(s, header)], st=st)
    starts = list(V.calls)
    if not starts:
        R.unknown('circuit', 'no recursive traversal of the modules')
        return R
    seen = set()
    fresh = sym('any', C.adt('Module'))
    for inst, path, s, args, r in starts:
        # nothing is marked as printed at the start
        for a in args:
            for w in contents(E, s, a):
                if w.k in ('set', 'app') and setlike(F, w):
                    for s2, b in models.coll_contains(E, s, [w, E.field(fresh, 0, mi)], Cx()):
                        if b is FALSE:
                            R.ok('circuit', 'the set of printed modules is empty at the start')
                        else:
                            R.bad('circuit', 'circuit:start', '%s starts the traversal with modules already marked as printed' % where(disp))
        if inst in seen:
            continue
        seen.add(inst)
        visit(C, R, engine, F.bodies[inst], s, args, r, E, refset, mi)
    return R


def setlike(F, w):
    return w.k == 'set' or (w.ty is not None and short(F.path(F.strip(w.ty)) or '') in ('HashSet', 'BTreeSet'))


def contents(E, st, a, n=0):
    if n > 8:
        return []
    if a.k == 'ptr':
        w = E.load(st, a)
        return contents(E, st, w, n + 1) if w.k in ('ptr', 'adt') else [w]
    if a.k == 'adt':
        return [x for f in a.a[2] for x in contents(E, st, f, n + 1)]
    return []


def visit(C, R, engine, body, st0, args0, r0, E00, refset, mi):
    """One step of the traversal, for any module and any set of modules printed before."""
    F = C.F
    E, V = engine()
    m = sym('module', C.adt('Module'))
    V.top = m
    st = EMPTY
    cells = {}
    sets, lists, sinks = [], [], []

    def general(v, ty):
        """The most general value of the shape of v; cells are renamed."""
        nonlocal st
        if v.k == 'ptr':
            key = v.a
            if key not in cells:
                w = E00.load(st0, v)
                t = F.strip(ty) if ty is not None else None
                g = general(w, t)
                st, cell = st.alloc(g)
                cells[key] = cell
                if w.k == 'str':
                    sinks.append(cell)
                elif setlike(F, w) or (t is not None and short(F.path(t) or '') in ('HashSet', 'BTreeSet')):
                    sets.append(cell)
                elif w.k == 'seq' or (w.k == 'app' and w.a[0] == 'push'):
                    lists.append(cell)
            return mk('ptr', cells[key], ())
        if E00.pathof(v) == C.path('Module'):
            return m
        if v.k == 'str':
            return text([mk('prior')])
        if v.k == 'adt' and any(x.k == 'ptr' for x in v.a[2]):
            fts = [f[1] for f in F.variants(v.ty)[v.a[1]]['fields']] if v.ty is not None else [None] * len(v.a[2])
            return mk('adt', v.a[0], v.a[1], tuple(general(x, t) for x, t in zip(v.a[2], fts)), ty=v.ty)
        if ty is not None:
            if v.k == 'seq':
                return seq(())
            return sym('state%d' % len(cells), ty)
        return v
    argtys = [C.argty(body, i) for i in range(body['argc'])]
    args = [general(a, t) for a, t in zip(args0, argtys)]
    if len(sets) != 1 or len(sinks) + len(lists) < 1:
        R.unknown('traversal', '%s: the state of the traversal is not a set of names and a sink' % where(body))
        return
    D = st.store[sets[0]]
    name = E.field(m, 0, mi)
    p = Pipe(C, R, E)
    p.post = lambda E, s, v: [(s, tup(v, s.store[sets[0]], *[s.store[c] for c in (sinks if not lists else []) + lists]))]

    def named(E, s, x, y):
        # modules of one name: the second one is never printed
        return all(b for _, b in E.eq(s, E.field(x, 0, mi), E.field(y, 0, mi)))

    def step(E, s, v):
        outs = []
        for w in v.a[0][2:]:
            ps = pieces(w) if w.k == 'str' else w.a[0] if w.k == 'seq' else ()
            for x in ps:
                if isinstance(x, str) or x.k == 'prior':
                    continue
                if x.k == 'app' and x.a[0] == 'hyp' and x.a[1][0] == 'visit':
                    outs.append(('visit', x.a[1][1]))
                elif x.k in ('visit', 'module'):
                    outs.append((x.k, x.a[0]))
                elif E.pathof(E.deref(s, x)) == C.path('Module'):
                    outs.append(('module', E.deref(s, x)))
                elif w.k == 'seq':
                    return ('unknown', show(x))
        D2 = v.a[0][1]
        # what was marked stays marked
        w = D2
        while w is not D:
            if w.k == 'app' and w.a[0] in ('push', 'visited'):
                w = w.a[1][0]
            else:
                return ('diff', 'a set of printed modules which is not an extension of the earlier one: %s' % show(D2, 5))
        known = s.cons.get(('b', mk('app', 'contains', (D, name))))
        if known is None:
            return ('diff', 'a module handled without looking whether its name was printed already') if outs else ('unknown', 'no decision')
        if known:
            return ('same', None) if not any(k == 'module' for k, _ in outs) else ('diff', 'a second copy of a module printed already')
        alts = models.coll_contains(E, s, [D2, name], Cx())
        if any(not x for s2, b in alts for _, x in E.truth(s2, b)):
            return ('diff', 'a module printed without being marked as printed')
        own = [i for i, (k, x) in enumerate(outs) if k == 'module' and same(E, s, x, m)]
        if len(own) != 1:
            return ('diff', '%d copies of the module itself' % len(own))
        if any(k == 'module' and not same(E, s, x, m) for k, x in outs):
            return ('diff', 'another module, unconditionally')
        alts = refset(E, s, m)
        if len(alts) != 1:
            return ('diff', 'a traversal which does not look at the instantiated modules')
        for q in alts[0][1]:
            at = [i for i, (k, x) in enumerate(outs) if k == 'visit' and (same(E, s, x, q) or named(E, s, x, q))]
            if not at:
                return ('diff', 'a module whose instantiated module %s is left out' % show(q, 4))
            if min(at) > own[0]:
                return ('diff', 'a module before the module %s it instantiates' % show(q, 4))
        return ('same', None)
    p.check('traversal', 'traversal', body, args, lambda E, s: [(s, step)], st=st)


# ------------------------------------------------------------------ C23: the module consumer

def c23(C):
    R = Report('C23')
    F = C.F
    T_ = 'ModuleConsumer'
    cons = C.adt(T_)
    cpath = C.path(T_)
    nextb = next((F.bodies[i['inst']] for i in F.trait_items('Iterator', 'next') if F.path(i['self']) == cpath), None)
    if nextb is None:
        raise Missing('ModuleConsumer::next')
    newb, circ, into = C.fn('ModuleConsumer::new'), C.fn('ModuleConsumer::circuit'), C.fn('ModuleConsumer::into_circuit')
    fields = F.variants(cons)[0]['fields']
    mpath = C.path('Module')
    mname = C.fieldby('Module', 'str')
    # the parts of a consumer: what `new` puts where
    nm, info, mods = sym('top_name', None), sym('info', None), sym('modules', None)
    E = C.engine()
    # the sequence of modules is arbitrary, whichever of the crate's iterators this instance was made for
    def given(E, st, a, c):
        return models.N['Iterator::next'](E, st, a, c) if a[0].k == 'ptr' and E.load(st, a[0]).k == 'it' else None
    others = {i['path']: given for i in F.trait_items('Iterator', 'next') if F.path(i['self']) != cpath}
    E.over.update(others)
    strty = F.strip(next(f[1] for f in F.variants(C.adt('module::Port'))[0]['fields'] if F.is_str(F.strip(f[1]))))
    nm = sym('top_name', strty)
    infoty = next((f[1] for f in F.variants(C.adt('Circuit'))[0]['fields'] if F.path(F.strip(f[1])) == OPT), None)
    info = sym('info', infoty)
    MAX = 3 if C.tier == 'quick' else 5
    mty = C.adt('Module')
    items = [sym('m%d' % i, mty) for i in range(MAX)]
    E.domerge = False
    outs = E.run(EMPTY, newb['id'], [nm, info, it('list', ())])
    if len(outs) != 1 or outs[0][1].k != 'adt':
        raise Missing('the parts of ModuleConsumer')
    blank = outs[0][1]
    mi = [i for i, x in enumerate(blank.a[2]) if x.k == 'it']
    if len(mi) != 1:
        raise Missing('the module sequence of ModuleConsumer')
    mi = mi[0]
    errs = [sym('e%d' % i, C.adt('ParseError')) for i in range(MAX)]

    def consumer(base, xs):
        fs = list(base.a[2])
        fs[mi] = it('list', tuple(xs))
        return mk('adt', base.a[0], base.a[1], tuple(fs), ty=base.ty)

    def circuit_of(m):
        """The circuit of a top module with the header's info, as the builders make it."""
        o = E.run(EMPTY, C.fn('Circuit::new')['id'], [m])[0][1]
        st, cell = EMPTY.alloc(o)
        E.run(st, C.method('WithInfo', 'set_info', 'Circuit')['id'], [mk('ptr', cell, ()), info])
        return E.run(st, C.method('WithInfo', 'set_info', 'Circuit')['id'], [mk('ptr', cell, ()), info])[0][0].store[cell]

    # sequences of items: which positions are errors
    def shapes(n):
        import itertools
        return itertools.product((False, True), repeat=n)

    def seqs(n):
        for sh in shapes(n):
            yield [err(errs[i]) if e else ok(items[i]) for i, e in enumerate(sh)]

    def found(E, st, xs):
        """Oracle: the first module with the top name among the items."""
        out, cur = [], [st]
        for x in xs:
            if x.a[1] != 0:
                continue
            m = x.a[2][0]
            nxt = []
            for s in cur:
                for s2, b in E.eq(s, nm, E.field(m, 0, mname)):
                    (out.append((s2, m)) if b else nxt.append(s2))
            cur = nxt
        return out + [(s, None) for s in cur]
    for n in range(MAX + 1):
        for xs in seqs(n):
            tag = ''.join('E' if x.a[1] else 'M' for x in xs) or 'none'
            # the items come out unchanged, in order, and then nothing
            c0 = consumer(blank, xs)
            st, cell = EMPTY.alloc(c0)
            for k in range(n + 1):
                p = Pipe(C, R)
                p.E.over.update(others)

                def steps(E, s, v, k=k, cell=cell):
                    cur = [(s, (v,))]
                    for _ in range(k):
                        cur = [(s3, acc + (w,)) for s2, acc in cur for s3, w in E.run(s2, nextb['id'], [mk('ptr', cell, ())])]
                    out = []
                    for s2, acc in cur:
                        for s3, w in E.run(s2, circ['id'], [s2.store[cell]]):
                            for s4, z in E.run(s3, into['id'], [s3.store[cell]]):
                                out.append((s4, tup(seq(acc), w, z)))
                    return out
                p.post = steps

                def oracle(E, s, k=k, xs=xs):
                    exp = [some(xs[i]) if i < n else NONE for i in range(k + 1)]
                    out = []
                    for s2, m in found(E, s, xs[:k + 1]):
                        for s3, m2 in ([(s2, m)] if m is not None else found(E, s2, xs)):
                            bad = any(x.a[1] for x in xs[k + 1:])
                            c = NONE if m is None else some(circuit_of(m))
                            last = is_err if bad or m2 is None else ok(circuit_of(m2))
                            out.append((s3, triple(seq(exp), c, last)))
                    return out
                p.check('consumer', 'consumer:%s:%d' % ('items', k), nextb, [mk('ptr', cell, ())], oracle, st=st,
                        what=' on a sequence %s after %d items, with the circuit available then and at the end' % (tag, k + 1))
            # at once, and before any item
            p = Pipe(C, R)
            p.E.over.update(others)
            p.check('consumer', 'consumer:at once', into, [c0],
                    lambda E, s: [(s2, is_err if any(x.a[1] for x in xs) or m is None else ok(circuit_of(m))) for s2, m in found(E, s, xs)],
                    what=' on a sequence ' + tag)
            Table(C, R).check('consumer', 'consumer:before', circ, [c0], lambda E, s: [(s, NONE)], what=' before any item')
    return R


def triple(a, b, c):
    def pred(E, s, v):
        xs = v.a[0]
        for x, w in zip(xs, (a, b, c)):
            r = w(E, s, x) if callable(w) else compare(E, s, x, w)
            if r[0] != 'same':
                return r
        return ('same', None)
    return pred
