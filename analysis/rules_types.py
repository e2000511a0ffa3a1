"""C08-C12: typing, flow, equivalence and combination, compared as decision tables."""
from core import *


def gt(C, name, *fs):
    return adt(C.path('GroundType'), C.variant('GroundType', name), *fs)


def override_typeof(C, E):
    """The type of an operand is an opaque result."""
    def typeof(E, st, a, c):
        return [(st, mk('app', 'typeof', (E.deref(st, a[0]),), ty=c.ty))]
    b = C.method('Typed', 'type', 'Expression')
    E.over[b['path']] = typeof
    return b


def set_operand(C, E, st, e, kind, widths, res_ty):
    """Fix the type of an operand: (state, ground type term)."""
    r = mk('app', 'typeof', (e,), ty=res_ty)
    st = E.setvar(st, r, frozenset([0]))
    t = E.field(r, 0, 0)
    st = E.setvar(st, t, frozenset([C.variant('Type', 'GroundType')]))
    g = E.field(t, C.variant('Type', 'GroundType'), 0)
    vi = C.variant('GroundType', kind)
    st = E.setvar(st, g, frozenset([vi]))
    out = []
    for i, known in enumerate(widths):
        w = E.field(g, vi, i)
        st = E.setvar(st, w, frozenset([1 if known else 0]))
        out.append(E.field(w, 1, 0) if known else None)
    return st, g, out


U, S, X = 'UInt', 'SInt', 'Fixed'
WIDTHS = {U: 1, S: 1, X: 2, 'Clock': 0, 'Reset': 0, 'Analog': 1}


def c08(C):
    R = Report('C08')
    E = C.engine()
    E.domerge = False
    tb = override_typeof(C, E)
    body = C.method('Typed', 'type', 'Operation')
    opty = C.F.strip(body['locals'][1] if isinstance(body['locals'][1], int) else body['locals'][1][0])
    x = sym('op', opty)
    res_ty = tb['locals'][0] if isinstance(tb['locals'][0], int) else tb['locals'][0][0]
    vs = C.F.variants(opty)
    names = {v['name']: i for i, v in enumerate(vs)}

    def mx(st, a, b):
        return models.maxmin(E, st, 'max', a, b)

    def mn(st, a, b):
        return models.maxmin(E, st, 'min', a, b)
    one = I(1)

    def fixmax(st, l, r):
        # max(w1-p1, w2-p2) + max(p1, p2)
        return add(mx(st, sub(l[0], l[1]), sub(r[0], r[1])), mx(st, l[1], r[1]))

    # spec: op -> (number of expression operands, function(st, kinds, widths, params) -> (kind, width, point) or None)
    # a width is a term, None (unknown) or Ellipsis (anything)
    def known(*ws):
        return all(w is not None for w in ws)

    def arith_sum(st, k, w, p):
        if k[0] != k[1]:
            return None
        if k[0] == X:
            if not known(*w[0], *w[1]):
                return (X, None, None)
            return (X, add(fixmax(st, w[0], w[1]), one), mx(st, w[0][1], w[1][1]))
        return (k[0], add(mx(st, w[0][0], w[1][0]), one) if known(w[0][0], w[1][0]) else None)

    def mul(st, k, w, p):
        if k[0] != k[1]:
            return None
        ws = add(w[0][0], w[1][0]) if known(w[0][0], w[1][0]) else None
        if k[0] == X:
            return (X, ws, add(w[0][1], w[1][1]) if known(w[0][1], w[1][1]) else None)
        return (k[0], ws)

    def div(st, k, w, p):
        if k[0] != k[1] or k[0] == X:
            return None
        return (k[0], w[0][0] if k[0] == U or w[0][0] is None else add(w[0][0], one))

    def rem(st, k, w, p):
        if k[0] != k[1] or k[0] == X:
            return None
        return (k[0], mn(st, w[0][0], w[1][0]) if known(w[0][0], w[1][0]) else None)

    def cmp(st, k, w, p):
        return (U, one) if k[0] == k[1] else None

    def pad(st, k, w, p):
        ww = mx(st, w[0][0], p[0]) if known(w[0][0]) else None
        return (k[0], ww) + ((w[0][1],) if k[0] == X else ())

    def cast(st, k, w, p):
        tgt = p[0]          # (kind, point)
        ww = w[0][0] if k[0] in WIDTHS and WIDTHS[k[0]] else one
        if tgt[0] in ('Clock', 'Reset'):
            return (tgt[0],) if k[0] in (U, S, 'Clock', 'Reset') else None
        if tgt[0] == X:
            return (X, ww, tgt[1])
        return (tgt[0], ww)

    def shl_(st, k, w, p):
        return (k[0], add(w[0][0], p[0]) if known(w[0][0]) else None) + ((w[0][1],) if k[0] == X else ())

    def shr_(st, k, w, p):
        if k[0] == X:
            if not known(*w[0]):
                return (X, None if not known(w[0][0]) else Ellipsis, Ellipsis)
            return (X, ('opt', mx(st, sub(w[0][0], p[0]), mx(st, one, w[0][1]))), w[0][1])
        return (k[0], mx(st, sub(w[0][0], p[0]), one) if known(w[0][0]) else None)

    def dshl(st, k, w, p):
        if k[1] != U:
            return None
        ww = add(add(w[0][0], app('shl', one, w[1][0])), I(-1)) if known(w[0][0], w[1][0]) else None
        return (k[0], ('shl', ww, w[1][0]) if ww is not None else None) + ((w[0][1],) if k[0] == X else ())

    def dshr(st, k, w, p):
        if k[1] != U:
            return None
        return (k[0], w[0][0]) + ((w[0][1],) if k[0] == X else ())

    def cvt(st, k, w, p):
        if k[0] == X:
            return None
        return (S, w[0][0] if k[0] == S or w[0][0] is None else add(w[0][0], one))

    def neg(st, k, w, p):
        return None if k[0] == X else (S, add(w[0][0], one) if known(w[0][0]) else None)

    def not_(st, k, w, p):
        return None if k[0] == X else (U, w[0][0])

    def bit2(st, k, w, p):
        if k[0] != k[1] or k[0] == X:
            return None
        return (U, mx(st, w[0][0], w[1][0]) if known(w[0][0], w[1][0]) else None)

    def red(st, k, w, p):
        return None if k[0] == X else (U, one)

    def cat(st, k, w, p):
        if k[0] != k[1] or k[0] == X:
            return None
        return (U, add(w[0][0], w[1][0]) if known(w[0][0], w[1][0]) else None)

    def bits(st, k, w, p):
        lo, hi = p
        if lo is not None and hi is not None:
            return (U, add(sub(hi, lo), one))
        if hi is not None:
            return (U, hi)
        return (U, sub(w[0][0], lo) if known(w[0][0]) else None)

    def incp(st, k, w, p):
        return (X, add(w[0][0], p[0]) if known(w[0][0]) else None, add(w[0][1], p[0]) if known(w[0][1]) else None)

    def decp(st, k, w, p):
        return (X, sub(w[0][0], p[0]) if known(w[0][0]) else None, sub(w[0][1], p[0]) if known(w[0][1]) else None)

    def setp(st, k, w, p):
        return (X, add(sub(w[0][0], w[0][1]), p[0]) if known(*w[0]) else None, p[0])

    num = (U, S, X)
    spec = {'Add': (2, num, arith_sum), 'Sub': (2, num, arith_sum), 'Mul': (2, num, mul), 'Div': (2, (U, S), div),
            'Rem': (2, (U, S), rem), 'Pad': (1, num, pad), 'Shl': (1, num, shl_), 'Shr': (1, num, shr_),
            'DShl': (2, num, dshl), 'DShr': (2, num, dshr), 'Cvt': (1, (U, S), cvt), 'Neg': (1, (U, S), neg),
            'Not': (1, (U, S), not_), 'And': (2, (U, S), bit2), 'Or': (2, (U, S), bit2), 'Xor': (2, (U, S), bit2),
            'AndReduce': (1, (U, S), red), 'OrReduce': (1, (U, S), red), 'XorReduce': (1, (U, S), red), 'Cat': (2, (U, S), cat),
            'Bits': (1, num, bits), 'IncPrecision': (1, (X,), incp), 'DecPrecision': (1, (X,), decp), 'SetPrecision': (1, (X,), setp),
            'Cast': (1, (U, S, X, 'Clock', 'Reset', 'Analog'), cast)}
    for n in ('Lt', 'LEq', 'Gt', 'GEq', 'Eq', 'NEq'):
        spec[n] = (2, num, cmp)
    for n in spec:
        if n not in names:
            raise Missing('Operation::' + n)
    for n in names:
        if n not in spec:
            R.unknown('result type', 'operation %s has no specified type' % n)
    site = where(body)

    def combos(kinds, nops):
        for ks in itertools.product(kinds, repeat=nops):
            for kn in itertools.product(*[list(itertools.product((True, False), repeat=WIDTHS[k])) for k in ks]):
                yield ks, kn

    for n, (nops, kinds, f) in spec.items():
        vi = names[n]
        for ks, kn in combos(kinds, nops):
            st = E.setvar(EMPTY, x, frozenset([vi]))
            ws, gs = [], []
            for i in range(nops):
                st, g, w = set_operand(C, E, st, E.field(x, vi, i), ks[i], kn[i], res_ty)
                ws.append(w)
                gs.append(g)
            plist = [None]
            if n in ('Pad', 'Shl', 'Shr', 'IncPrecision', 'DecPrecision', 'SetPrecision'):
                plist = [('n', E.field(x, vi, 1))]
            elif n == 'Bits':
                plist = [('b', True, True), ('b', False, True), ('b', True, False)]
            elif n == 'Cast':
                plist = [('c', U), ('c', S), ('c', X), ('c', 'Clock'), ('c', 'Reset')]
            for pp in plist:
                st1, params = st, []
                if pp is None:
                    pass
                elif pp[0] == 'n':
                    params = [pp[1]]
                elif pp[0] == 'b':
                    for i, kk in ((1, pp[1]), (2, pp[2])):
                        o = E.field(x, vi, i)
                        st1 = E.setvar(st1, o, frozenset([1 if kk else 0]))
                        params.append(E.field(o, 1, 0) if kk else None)
                    if pp[1] and pp[2]:
                        st1 = E.narrow(st1, *canon_ge(E, params[1], params[0]))
                else:
                    tg = E.field(x, vi, 1)
                    tv = C.variant('GroundType', pp[1])
                    st1 = E.setvar(st1, tg, frozenset([tv]))
                    pt = None
                    if pp[1] == X:
                        po = E.field(tg, tv, 1)
                        st1 = E.setvar(st1, po, frozenset([1]))
                        pt = E.field(po, 1, 0)
                    elif pp[1] == 'Reset':
                        pass
                    params = [(pp[1], pt, tg)]
                desc = '%s(%s)%s' % (n, ', '.join('%s%s' % (k, ['' if b else '?' for b in kk]) for k, kk in zip(ks, kn)),
                                     '' if pp is None or pp[0] == 'n' else ' as %s' % (pp[1:],))
                E.notes, E.panics = [], []
                if f(st1, ks, ws, params) is None:
                    continue
                try:
                    outs = E.run(st1, body['id'], [x])
                except Imprecise as e:
                    outs = []
                    E.note(str(e))
                if E.panics:
                    R.bad('result type', n + ':panic', '%s: %s can panic: %s' % (site, desc, E.panics[0][0]))
                    continue
                if E.notes or not outs:
                    R.unknown('result type', '%s: %s' % (desc, E.notes[:1]))
                    continue
                good = True
                for s, v in outs:
                    want = f(s, ks, ws, params)
                    e = check_type(C, E, R, s, v, want, params)
                    if e:
                        good = False
                        if e[0] == 'bad':
                            R.bad('result type', 'op:' + n, '%s: %s %s [%s]' % (site, desc, e[1], facts_text(E, s, limit=3)))
                        else:
                            R.unknown('result type', '%s %s' % (desc, e[1]))
                        break
                if good:
                    R.ok('result type', desc)
    # rejected operand kinds carry the expression
    nerr = 0
    for n in spec:
        vi = names[n]
        E.notes, E.panics = [], []
        try:
            outs = E.run(E.setvar(EMPTY, x, frozenset([vi])), body['id'], [x])
        except Imprecise:
            continue
        if E.panics:
            R.bad('no panic', n + ':panic', '%s: %s can panic: %s' % (site, n, E.panics[0][0]))
        for s, v in outs:
            for s2, k in E.cases(s, v):
                if k == 1:
                    e = E.field(v, 1, 0)
                    if is_sym(e) and e.k == 'proj' and e.a[0].k == 'app' and e.a[0].a[0] == 'typeof':
                        good = any(e.a[0].a[1][0] is E.field(x, vi, i) for i in range(2))
                    else:
                        good = mentions(e, x, E, s2, vi)
                    nerr += 1
                    if good:
                        R.ok('error operand')
                    else:
                        R.bad('error operand', 'err:' + n, '%s: %s is rejected with %s' % (site, n, show(e)))
    R.analysed |= E.analysed
    return R


def mentions(e, x, E, st, vi):
    """The value is the expression for operation x (possibly rebuilt)."""
    if e is x:
        return True
    if e.k == 'adt':
        for f in e.a[2]:
            if same(E, st, f, x):
                return True
    return False


def canon_ge(E, a, b):
    """a - b >= 0 for narrow()."""
    p, sg, k0 = E.canon(sub(a, b))
    return (p, 0 - k0, None) if sg > 0 else (p, None, k0)


def check_type(C, E, R, s, v, want, params):
    for s1, k in E.cases(s, v):
        if k != 0:
            return ('bad', 'is rejected')
        g = E.field(v, 0, 0)
        gv = E.variant(s1, g)
        if gv is None:
            return ('unknown', 'has type ' + show(g))
        name = C.F.variants(C.adt('GroundType'))[gv]['name']
        if name != want[0]:
            return ('bad', 'has type %s instead of %s' % (name, want[0]))
        if name == 'Reset' and params:
            tg = params[0][2]
            if not same(E, s1, E.field(g, gv, 0), E.field(tg, gv, 0)):
                return ('bad', 'has another reset kind than the target')
        for i, w in enumerate(want[1:]):
            got = E.field(g, gv, i)
            label = ('width', 'point')[i]
            rng = (0, 65535) if i == 0 else (-32768, 32767)
            if w is Ellipsis:
                continue
            opt = False
            if isinstance(w, tuple):
                if w[0] == 'opt':
                    w, opt = w[1], True
                elif w[0] == 'shl':
                    # 2^wb is only representable for small wb
                    l, h = E.bounds(s1, w[2])
                    opt = 'shl'
                    sh = w[2]
                    w = w[1]
            for s2, gk in E.cases(s1, got):
                if w is None:
                    if gk == 1:
                        return ('bad', 'has a known %s %s although it depends on an unknown one' % (label, show(E.field(got, 1, 0))))
                    continue
                if gk == 0:
                    # unknown: fine only if the width (or a value on the way to it) is not representable
                    if opt is True:
                        continue
                    wit = witness_in(E, s2, w, rng)
                    if wit is not None:
                        return ('bad', 'has an unknown %s although it is %s' % (label, wit))
                    if all(not b for _, b in E.truth(s2, E.rng(w, rng[0], rng[1] - 1))):
                        continue
                    if opt == 'shl' and all(not b for _, b in E.truth(s2, E.rng(sh, 0, 15))):
                        continue
                    return ('unknown', 'has an unknown %s' % label)
                t = E.field(got, 1, 0)
                if same(E, s2, t, w):
                    continue
                if t.k == 'app' and t.a[0] == 'wrap':
                    return ('bad', 'has a truncated %s' % label)
                wit = witness(E, s2, t, w)
                if wit:
                    return ('bad', 'has %s %s instead of %s (e.g. %d instead of %d)' % (label, show(t, 8), show(w, 8), wit[1], wit[2]))
                return ('unknown', 'has %s %s, specified is %s' % (label, show(t, 8), show(w, 8)))
    return None


def witness_in(E, st, w, rng):
    """A value of w well inside the representable range which the facts allow, from operands which are small too."""
    leaves = intleaves(w, [])
    for x in leaves:
        st = E.narrow(st, x, -8000, 8000)
        if st is None:
            return None
    st = E.narrow(st, *_range(E, w, rng[0], rng[1] - 1)) if w.k != 'app' else st
    if st is None:
        return None
    r = witness(E, st, w, add(w, I(1)), lambda x, _: rng[0] <= x < rng[1])
    return None if r is None else str(r[1])


def _range(E, t, lo, hi):
    p, sg, k0 = E.canon(t)
    return (p, lo - k0, hi - k0) if sg > 0 else (p, k0 - hi, k0 - lo)


# ------------------------------------------------------------------ C11: equivalence, passivity, orientation

class TypeModel:
    """Shapes of the type ADTs as the oracles see them."""

    def __init__(self, C):
        self.C = C
        v = lambda t, n: C.variant(t, n)
        self.G, self.V, self.B = (v('Type', n) for n in ('GroundType', 'Vector', 'Bundle'))
        self.OG, self.OV, self.OB = (v('OrientedType', n) for n in ('GroundType', 'Vector', 'Bundle'))
        self.NORMAL, self.FLIPPED = v('Orientation', 'Normal'), v('Orientation', 'Flipped')
        self.fn = C.fieldby('BundleField', 'str')
        self.ft = C.fieldby('BundleField', 'Type')
        self.fo = C.fieldby('BundleField', 'Orientation')
        self.RESET = v('GroundType', 'Reset')

    def orient(self, o):
        return adt(self.C.path('Orientation'), o)

    def xor(self, E, st, a, b):
        """Sum of two orientations: (state, value)."""
        out = []
        for s, x in E.cases(st, a):
            for s2, y in E.cases(s, b):
                out.append((s2, self.orient(self.FLIPPED if (x == self.FLIPPED) != (y == self.FLIPPED) else self.NORMAL)))
        return out


def conj_cases(E, st, tests):
    """Conjunction of tests (functions state -> [(state, bool)])."""
    cur, out = [st], []
    for t in tests:
        nxt = []
        for s in cur:
            for s2, b in t(s):
                (nxt if b else out).append(s2 if b else (s2, FALSE))
        cur = nxt
    return [(s, TRUE) for s in cur] + out


def same_variant(E, a, b):
    return lambda s: [(s2, x == y) for s1, x in E.cases(s, a) for s2, y in E.cases(s1, b)]


def ground_eq(M, E, st, a, b):
    out = []
    for s, x in E.cases(st, a):
        for s2, y in E.cases(s, b):
            if x != y:
                out.append((s2, FALSE))
            elif x == M.RESET:
                out += conj_cases(E, s2, [same_variant(E, E.field(a, x, 0), E.field(b, x, 0))])
            else:
                out.append((s2, TRUE))
    return out


def c11(C):
    R = Report('C11')
    F = C.F
    M = TypeModel(C)
    eqb = {t: C.method('TypeExt', 'eq', t) for t in ('GroundType', 'Type', 'OrientedType')}
    E0 = C.engine()

    def table(*hyps):
        E = C.engine()
        E.symmetric = {b['path'] for b in eqb.values()}
        return Table(C, R, E, hyps)
    tys = {t: C.adt(t) for t in eqb}

    # equivalence
    a, b = sym('a', tys['GroundType']), sym('b', tys['GroundType'])
    table().check('equivalence', 'eq:GroundType', eqb['GroundType'], [a, b], lambda E, s: ground_eq(M, E, s, a, b))

    def rec(E, path, x, y):
        return lambda s: E.truth(s, E.hypcall(path, (x, y)))

    def vec(E, s, path, x, y, v, out):
        out += conj_cases(E, s, [rec(E, path, E.field(x, v, 0), E.field(y, v, 0)),
                                 lambda s: E.eq(s, E.field(x, v, 1), E.field(y, v, 1))])

    def bundle(E, s, x, y, v, out, per):
        p, q = E.field(x, v, 0), E.field(y, v, 0)
        for s1, l in E.truth(s, E.rng(sub(app('len', p), app('len', q)), 0, 0)):
            if not l:
                out.append((s1, FALSE))
                continue
            for s2, xs in E.expand(s1, p):
                for s3, ys in E.expand(s2, q):
                    if len(xs) != len(ys):
                        out.append((s3, FALSE))
                        continue
                    ts = []
                    for f, g in zip(xs, ys):
                        ts += per(f, g)
                    out += conj_cases(E, s3, ts)

    def type_eq(x, y):
        def o(E, st):
            out = []
            P = eqb['Type']['path']
            for s, v in E.cases(st, x):
                for s1, w in E.cases(s, y):
                    if v != w:
                        out.append((s1, FALSE))
                    elif v == M.G:
                        out += ground_eq(M, E, s1, E.field(x, v, 0), E.field(y, v, 0))
                    elif v == M.V:
                        vec(E, s1, P, x, y, v, out)
                    else:
                        bundle(E, s1, x, y, v, out, lambda f, g: [
                            lambda s: E.eq(s, E.field(f, 0, M.fn), E.field(g, 0, M.fn)),
                            same_variant(E, E.field(f, 0, M.fo), E.field(g, 0, M.fo)),
                            rec(E, P, E.field(f, 0, M.ft), E.field(g, 0, M.ft))])
            return out
        return o

    def otype_eq(x, y):
        def o(E, st):
            out = []
            P = eqb['OrientedType']['path']
            for s, v in E.cases(st, x):
                for s1, w in E.cases(s, y):
                    if v != w:
                        out.append((s1, FALSE))
                    elif v == M.OG:
                        for s2, r in ground_eq(M, E, s1, E.field(x, v, 0), E.field(y, v, 0)):
                            out += conj_cases(E, s2, [same_variant(E, E.field(x, v, 1), E.field(y, v, 1))]) if r is TRUE else [(s2, r)]
                    elif v == M.OV:
                        vec(E, s1, P, x, y, v, out)
                    else:
                        bundle(E, s1, x, y, v, out, lambda f, g: [
                            lambda s: E.eq(s, E.field(f, 0, 0), E.field(g, 0, 0)),
                            rec(E, P, E.field(f, 0, 1), E.field(g, 0, 1))])
            return out
        return o
    for t, f in (('Type', type_eq), ('OrientedType', otype_eq)):
        x, y = sym('x', tys[t]), sym('y', tys[t])
        table(eqb[t]['path']).check('equivalence', 'eq:' + t, eqb[t], [x, y], f(x, y))

    # passivity
    pb = {t: C.method('TypeExt', 'is_passive', t) for t in tys}
    x = sym('x', tys['GroundType'])
    table().check('passivity', 'passive:GroundType', pb['GroundType'], [x], lambda E, s: [(s, TRUE)])

    def passive(x, P, oriented):
        def o(E, st):
            out = []
            for s, v in E.cases(st, x):
                if v == (M.OG if oriented else M.G):
                    if oriented:
                        out += [(s2, Bo(k == M.NORMAL)) for s2, k in E.cases(s, E.field(x, v, 1))]
                    else:
                        out.append((s, TRUE))
                elif v == (M.OV if oriented else M.V):
                    out.append((s, E.hypcall(P, (E.field(x, v, 0),))))
                else:
                    for s2, xs in E.expand(s, E.field(x, v, 0)):
                        ts = []
                        for f in xs:
                            if not oriented:
                                ts.append(lambda s, f=f: [(s3, k == M.NORMAL) for s3, k in E.cases(s, E.field(f, 0, M.fo))])
                            ts.append(lambda s, f=f: E.truth(s, E.hypcall(P, (E.field(f, 0, 1 if oriented else M.ft),))))
                        out += conj_cases(E, s2, ts)
            return out
        return o
    for t in ('Type', 'OrientedType'):
        x = sym('x', tys[t])
        P = pb[t]['path']
        table(P).check('passivity', 'passive:' + t, pb[t], [x], passive(x, P, t == 'OrientedType'))

    # the ground type
    for t, v in (('Type', M.G), ('OrientedType', M.OG)):
        x = sym('x', tys[t])
        table().check('ground type', 'ground:' + t, C.method('TypeExt', 'ground_type', t), [x],
                      lambda E, s: [(s2, some(E.field(x, v, 0)) if k == v else NONE) for s2, k in E.cases(s, x)])
    x = sym('x', tys['GroundType'])
    table().check('ground type', 'ground:GroundType', C.method('TypeExt', 'ground_type', 'GroundType'), [x], lambda E, s: [(s, some(x))])

    # orientations
    a, b = sym('a', C.adt('Orientation')), sym('b', C.adt('Orientation'))
    addb = C.method('Add', 'add', 'Orientation')
    table().check('orientation', 'orient:add', addb, [a, b], lambda E, s: M.xor(E, s, a, b))
    table().check('orientation', 'orient:default', C.method('Default', 'default', 'Orientation'), [], lambda E, s: [(s, M.orient(M.NORMAL))])
    OP = C.path('OrientedType')

    def oriented(E, s, P, x, v, per_leaf, per_field, src):
        """Rebuild an oriented type from the parts of x."""
        if v == (M.OG if src else M.G):
            return [(s2, adt(OP, M.OG, E.field(x, v, 0), o)) for s2, o in per_leaf(s)]
        if v == (M.OV if src else M.V):
            return [(s, adt(OP, M.OV, per_field(E.field(x, v, 0)), E.field(x, v, 1)))]
        out = []
        for s2, xs in E.expand(s, E.field(x, v, 0)):
            cur = [(s2, ())]
            for f in xs:
                nxt = []
                for s3, acc in cur:
                    if src:
                        nxt.append((s3, acc + (tup(E.field(f, 0, 0), per_field(E.field(f, 0, 1))),)))
                    else:
                        for s4, o in M.xor(E, s3, E.field(f, 0, M.fo), b):
                            nxt.append((s4, acc + (tup(E.field(f, 0, M.fn), E.hypcall(P, (E.field(f, 0, M.ft), o))),)))
                cur = nxt
            out += [(s3, adt(OP, M.OB, seq(acc))) for s3, acc in cur]
        return out
    fb = C.fn('OrientedType::flipped')
    x = sym('x', tys['OrientedType'])

    def flipped(E, st):
        out = []
        for s, v in E.cases(st, x):
            out += oriented(E, s, fb['path'], x, v, lambda s: M.xor(E, s, E.field(x, v, 1), M.orient(M.FLIPPED)),
                            lambda t: E.hypcall(fb['path'], (t,)), True)
        return out
    table(fb['path']).check('orientation', 'orient:flipped', fb, [x], flipped)
    wb = C.fn('Type::with_orientation')
    y = sym('y', tys['Type'])

    def with_o(E, st):
        out = []
        for s, v in E.cases(st, y):
            out += oriented(E, s, wb['path'], y, v, lambda s: [(s, b)], lambda t: E.hypcall(wb['path'], (t, b)), False)
        return out
    T_ = table(wb['path'])
    T_.deepcmp = lambda st, v, w: orient_cmp(T_.E, st, v, w)
    T_.check('orientation', 'orient:with_orientation', wb, [y, b], with_o)

    # weak equivalence and conversion go through the oriented type
    def over_with(E, st, args, c):
        return [(st, E.hypcall(wb['path'], args, C.retty(wb)))]
    for key, body, args, want in (
            ('weak_eq', C.fn('Type::weak_eq'), [sym('p', tys['Type']), sym('q', tys['Type'])],
             lambda E, p, q: E.hypcall(eqb['OrientedType']['path'],
                                       (E.hypcall(wb['path'], (p, M.orient(M.NORMAL))), E.hypcall(wb['path'], (q, M.orient(M.NORMAL)))))),
            ('from', C.method('From', 'from', 'OrientedType'), [sym('p', tys['Type'])],
             lambda E, p: E.hypcall(wb['path'], (p, M.orient(M.NORMAL))))):
        T1 = table(wb['path'], eqb['OrientedType']['path'])
        T1.E.over[wb['path']] = over_with
        T1.E.over[eqb['OrientedType']['path']] = lambda E, st, args, c: [(st, E.hypcall(eqb['OrientedType']['path'], args, c.ty))]
        T1.check('orientation', 'orient:' + key, body, args, lambda E, s: [(s, want(E, *args))])
    return R


def orient_cmp(E, st, v, w):
    return compare(E, st, v, w)


# ------------------------------------------------------------------ C12: combination

def generic_body(C, trait, name, pred):
    """The instance of a trait method with its own parameters as arguments (the most general one)."""
    out = []
    for it in C.F.trait_items(trait, name):
        if pred(it):
            out.append(C.F.bodies[it['inst']])
    if len(out) != 1:
        raise Missing('%s::%s' % (trait, name))
    return out[0]


def c12(C):
    R = Report('C12')
    F = C.F
    M = TypeModel(C)
    tyname = lambda i: F.types[F.strip(i)]['s']

    def combinator(target, self_adt=None):
        def pred(it):
            if F.types[it['targs'][1]]['s'] != target:
                return False
            t = F.types[it['self']]
            return (t['k'] == 'adt' and short(t['path']) == self_adt) if self_adt else t['k'] != 'adt'
        return generic_body(C, 'Combinator', 'combine', pred)
    tpath = C.path('Type')
    gpath = C.path('GroundType')
    fpath = C.path('BundleField')
    optw = 'std::option::Option<u16>'

    def comb(E, st, a, c):
        """A combination of parts: opaque."""
        ty = c.ty
        return [(st, mk('app', 'comb', tuple(a), ty=ty))]

    def engine():
        E = C.engine()
        E.natives = dict(E.natives)
        E.natives['Combinator::combine'] = comb
        return E
    bodies = {'GroundType': combinator(gpath), 'Type': combinator(tpath), 'BundleField': combinator(fpath)}
    # a recursive combination of parts has the same shape as one through the trait
    lhs = lambda t: sym('lhs', C.adt(t))
    rhs = lambda t: sym('rhs', C.adt(t))

    def run_table(key, body, args, oracle, group='shape', over=(), E=None):
        # equivalence is decided by C11; being equivalent does not make types equal
        T_ = Table(C, R, E or engine(), [C.method('TypeExt', 'eq', t)['path'] for t in ('GroundType', 'Type', 'OrientedType')])
        for b in over:
            T_.E.over[b['path']] = lambda E, st, a, c: [(st, mk('app', 'comb', tuple(a), ty=c.ty))]
        T_.check(group, key, body, args, oracle)
        return T_

    def fails(E, x, y, inner=None):
        """An error naming the pair (or what an inner combination reported)."""
        def p(E, s, v):
            k = E.variant(s, v)
            if k is None:
                for s2, k in E.cases(s, v):
                    if k == 0:
                        return ('diff', 'Ok instead of an error') if hypo(v) or pure_leaf(v) else ('unknown', show(v))
                k = 1
            if k == 0:
                return ('diff', 'Ok(%s) instead of an error' % show(E.field(v, 0, 0), 5))
            e = E.field(v, 1, 0)
            if inner is not None and compare(E, s, e, inner)[0] == 'same':
                return ('same', None)
            r = compare(E, s, e, tup(x, y))
            return r if r[0] != 'diff' else ('diff', 'an error which reports ' + r[1])
        return p

    self_ = sym('self', None)

    # ground types, from a combinator of widths
    b = bodies['GroundType']
    x, y = lhs('GroundType'), rhs('GroundType')
    restw = None
    names = [v['name'] for v in F.variants(C.adt('GroundType'))]

    def find_comb(E, v):
        return [t for t in E.combs if t]

    def ground(E, st):
        out = []
        for s, i in E.cases(st, x):
            for s2, j in E.cases(s, y):
                n = names[i]
                if i != j:
                    out.append((s2, fails(E, x, y)))
                elif n in ('UInt', 'SInt', 'Analog'):
                    c = mk('app', 'comb', (self_, E.field(x, i, 0), E.field(y, i, 0)))
                    for s3, k in (E.cases(s2, c) if c.ty is not None else [(s2, 0)]):
                        if k == 0:
                            out.append((s3, ok(adt(gpath, i, E.field(c, 0, 0)))))
                        else:
                            out.append((s3, fails(E, x, y)))
                elif n == 'Clock':
                    out.append((s2, ok(adt(gpath, i))))
                elif n == 'Reset':
                    for s3, same_ in same_variant(E, E.field(x, i, 0), E.field(y, i, 0))(s2):
                        out.append((s3, ok(x) if same_ else fails(E, x, y)))
                elif n == 'Fixed':
                    # widths alone do not determine the result: either outcome, but never another shape
                    def either(E, s, v, i=i):
                        if all(k == 1 for _, k in E.cases(s, v)):
                            return fails(E, x, y)(E, s, v)
                        g = E.field(v, 0, 0)
                        return ('same', None) if E.variant(s, g) == i else ('diff', 'another kind')
                    out.append((s2, either))
        return out
    run_table('combine:GroundType', b, [self_, x, y], ground)

    # bundle fields, from a combinator of types
    b = bodies['BundleField']
    x, y = lhs('BundleField'), rhs('BundleField')

    def field(E, st):
        out = []
        for s, r in conj_cases(E, st, [lambda s: E.eq(s, E.field(x, 0, M.fn), E.field(y, 0, M.fn)),
                                       same_variant(E, E.field(x, 0, M.fo), E.field(y, 0, M.fo))]):
            if r is FALSE:
                out.append((s, fails(E, x, y)))
                continue
            c = mk('app', 'comb', (self_, E.field(x, 0, M.ft), E.field(y, 0, M.ft)))
            for s2, k in (E.cases(s, c) if c.ty is not None else [(s, 0)]):
                if k == 0:
                    fs = [None] * 3
                    fs[M.fn], fs[M.ft], fs[M.fo] = E.field(x, 0, M.fn), E.field(c, 0, 0), E.field(x, 0, M.fo)
                    out.append((s2, ok(adt(fpath, 0, *fs))))
                else:
                    out.append((s2, fails(E, x, y)))
        return out
    run_table('combine:BundleField', b, [self_, x, y], field, over=[bodies['Type']])

    # types, from a combinator of ground types
    b = bodies['Type']
    x, y = lhs('Type'), rhs('Type')

    def types(E, st):
        out = []
        for s, i in E.cases(st, x):
            for s2, j in E.cases(s, y):
                if i != j:
                    out.append((s2, fails(E, x, y)))
                elif i == M.G:
                    c = mk('app', 'comb', (self_, E.field(x, i, 0), E.field(y, i, 0)))
                    for s3, k in (E.cases(s2, c) if c.ty is not None else [(s2, 0)]):
                        out.append((s3, ok(adt(tpath, i, E.field(c, 0, 0))) if k == 0 else fails(E, x, y)))
                elif i == M.V:
                    for s3, same_ in E.eq(s2, E.field(x, i, 1), E.field(y, i, 1)):
                        if not same_:
                            out.append((s3, fails(E, x, y)))
                            continue
                        c = E.hypcall(b['path'], (self_, E.field(x, i, 0), E.field(y, i, 0)))
                        for s4, k in (E.cases(s3, c) if c.ty is not None else [(s3, 0)]):
                            out.append((s4, ok(adt(tpath, i, E.field(c, 0, 0), E.field(x, i, 1))) if k == 0
                                        else fails(E, x, y, E.field(c, 1, 0))))
                else:
                    p, q = E.field(x, i, 0), E.field(y, i, 0)
                    for s3, same_ in E.truth(s2, E.rng(sub(app('len', p), app('len', q)), 0, 0)):
                        if not same_:
                            out.append((s3, fails(E, x, y)))
                            continue
                        for s4, xs in E.expand(s3, p):
                            for s5, ys in E.expand(s4, q):
                                if len(xs) != len(ys):
                                    continue
                                cur = [(s5, ())]
                                for f, g in zip(xs, ys):
                                    nxt = []
                                    c = mk('app', 'comb', (self_, f, g))
                                    for s6, acc in cur:
                                        if acc is None or c.ty is None:
                                            nxt.append((s6, acc if acc is None else acc + (E.field(c, 0, 0),)))
                                            continue
                                        for s7, k in E.cases(s6, c):
                                            nxt.append((s7, acc + (E.field(c, 0, 0),) if k == 0 else None))
                                    cur = nxt
                                for s6, acc in cur:
                                    out.append((s6, fails(E, x, y) if acc is None else ok(adt(tpath, i, seq(acc)))))
        return out
    T_ = Table(C, R, engine(), [b['path']] + [C.method('TypeExt', 'eq', t)['path'] for t in ('GroundType', 'Type', 'OrientedType')])
    T_.E.over[bodies['BundleField']['path']] = lambda E, st, a, c: [(st, mk('app', 'comb', tuple(a), ty=c.ty))]
    T_.check('shape', 'combine:Type', b, [self_, x, y], types)

    # widths
    fw = combinator(optw, 'FnWidth')
    w1, w2 = sym('w1', C.argty(fw, 1)), sym('w2', C.argty(fw, 2))
    f = sym('f', None)

    def width_oracle(result):
        def o(E, st):
            out = []
            for s, i in E.cases(st, w1):
                for s2, j in E.cases(s, w2):
                    if i == 0 or j == 0:
                        out.append((s2, result(NONE)))
                    else:
                        out += [(s3, result(v)) for s3, v in both(E, s2)]
            return out
        return o

    def both(E, s):
        return [(s, mk('app', 'hyp', (E.field(w1, 1, 0), E.field(w2, 1, 0))))]
    E = engine()

    def symcall(E, st, fn, args, cx):
        if isinstance(fn, T) and len(args) == 2:
            return [(st, mk('app', 'hyp', tuple(args), ty=cx.ty))]
        return None
    E.symcall = symcall
    selfw = adt(C.path('FnWidth'), 0, f)
    Table(C, R, E).check('widths', 'combine:FnWidth', fw, [selfw, w1, w2], width_oracle(ok))
    b = C.fn('FnWidth::combine_widths')
    Table(C, R, E).check('widths', 'combine:FnWidth', generic_of(C, b), [selfw, w1, w2], width_oracle(lambda v: v))
    b = C.fn('MaxWidth::combine_widths')

    def both(E, s):
        return [(s3, some(v)) for s3, v in E.maxmin_cases(s, 'max', E.field(w1, 1, 0), E.field(w2, 1, 0))]
    E = engine()
    E.maxmin_cases = lambda s, op, a, b: [(s, models.maxmin(E, s, op, a, b))]
    Table(C, R, E).check('widths', 'combine:MaxWidth', b, [w1, w2], width_oracle(lambda v: v))

    # MaxWidth on ground types
    b = combinator(gpath, 'MaxWidth')
    x, y = lhs('GroundType'), rhs('GroundType')
    E = C.engine()

    def mwidth(s, v, w):
        out = []
        for s1, i in E.cases(s, v):
            for s2, j in E.cases(s1, w):
                out.append((s2, NONE if i == 0 or j == 0 else some(models.maxmin(E, s2, 'max', E.field(v, 1, 0), E.field(w, 1, 0)))))
        return out

    def maxground(E, st):
        out = []
        for s, i in E.cases(st, x):
            for s2, j in E.cases(s, y):
                n = names[i]
                if i != j:
                    out.append((s2, fails(E, x, y)))
                elif n in ('UInt', 'SInt', 'Analog'):
                    out += [(s3, ok(adt(gpath, i, w))) for s3, w in mwidth(s2, E.field(x, i, 0), E.field(y, i, 0))]
                elif n == 'Clock':
                    out.append((s2, ok(adt(gpath, i))))
                elif n == 'Reset':
                    for s3, same_ in same_variant(E, E.field(x, i, 0), E.field(y, i, 0))(s2):
                        out.append((s3, ok(x) if same_ else fails(E, x, y)))
                elif n == 'Fixed':
                    cur = [(s2, True)]
                    parts = [E.field(t, i, k) for t in (x, y) for k in (0, 1)]
                    for p in parts:
                        cur = [(s4, kn and k == 1) for s3, kn in cur for s4, k in E.cases(s3, p)]
                    for s3, kn in cur:
                        if not kn:
                            out.append((s3, ok(adt(gpath, i, NONE, NONE))))
                            continue
                        lw, lp, rw, rp = [E.field(p, 1, 0) for p in parts]
                        mx = lambda a, b: models.maxmin(E, s3, 'max', a, b)
                        w = add(mx(sub(lw, lp), sub(rw, rp)), mx(lp, rp))
                        for s4, fits in E.truth(s3, E.rng(w, 0, 65535)):
                            out.append((s4, ok(adt(gpath, i, some(w) if fits else NONE, some(mx(lp, rp))))))
        return out
    Table(C, R, E).check('widths', 'combine:MaxWidth', b, [sym('self', None), x, y], maxground)
    return R


def generic_of(C, body):
    for it in C.F.items:
        if it['path'] == body['path'] and it.get('inst') in C.F.bodies:
            return C.F.bodies[it['inst']]
    return body


# ------------------------------------------------------------------ C09: types of expressions and entities

def opaque(name, ty=None, keep=None):
    """A call whose result is opaque."""
    def f(E, st, a, c):
        args = tuple(E.deref(st, x) for x in (a if keep is None else [a[i] for i in keep]))
        return [(st, mk('app', 'hyp', (name,) + args, ty=c.ty if c.ty is not None else ty))]
    return f


def hyp(name, *args, ty=None):
    return mk('app', 'hyp', (name,) + args, ty=ty)


def is_err(E, s, v):
    """The value is an error, whatever it carries."""
    ks = {k for _, k in E.cases(s, v)}
    if ks == {1}:
        return ('same', None)
    return ('diff', '%s instead of an error' % show(v, 5))


class ExprModel:
    def __init__(self, C):
        self.C = C
        self.ty = C.adt('Expression')
        self.vs = {v['name']: (i, {f[0]: j for j, f in enumerate(v['fields'])}) for i, v in enumerate(C.F.variants(self.ty))}

    def get(self, E, x, var, f):
        i, fs = self.vs[var]
        if f not in fs:
            raise Missing('Expression::%s.%s' % (var, f))
        return E.field(x, i, fs[f])


def field_lookup(M, E, st, t, name):
    """The bundle field of a given name: (state, field or None)."""
    out = []
    for s, v in E.cases(st, t):
        if v != M.B:
            out.append((s, None))
            continue
        for s2, xs in E.expand(s, E.field(t, v, 0)):
            cur = [s2]
            for f in xs:
                nxt = []
                for s3 in cur:
                    for s4, b in E.eq(s3, E.field(f, 0, M.fn), name):
                        if b:
                            out.append((s4, f))
                        else:
                            nxt.append(s4)
                cur = nxt
            out += [(s3, None) for s3 in cur]
    return out


def entity_over(C, E, keys):
    for name, path in keys.items():
        E.over[path] = opaque(name, keep=(0,))


def c09(C):
    R = Report('C09')
    F = C.F
    M = TypeModel(C)
    X = ExprModel(C)
    tpath, gpath = C.path('Type'), C.path('GroundType')
    body = C.method('Typed', 'type', 'Expression')
    P = body['path']
    x = sym('expr', X.ty)
    resty = C.retty(body)
    GU, GS = C.variant('GroundType', 'UInt'), C.variant('GroundType', 'SInt')
    GCLK = C.variant('GroundType', 'Clock')
    entb = C.method('Typed', 'type', 'Entity')
    opb = C.method('Typed', 'type', 'Operation')
    E = C.engine()

    def comb(E, st, a, c):
        p = E.pathof(a[0]) or '?'
        ab = sorted((E.deref(st, a[1]), E.deref(st, a[2])), key=lambda t: t.id)
        return [(st, mk('app', 'hyp', ('comb:' + short(p),) + tuple(ab), ty=c.ty))]
    combs = [b for b in F.bodies.values() if b['path'].endswith('::combine') and 'Combinator<types::r#type::Type>' in b['path']]
    if not combs:
        raise Missing('Combinator<Type>')
    E.over[combs[0]['path']] = comb
    E.over[entb['path']] = opaque('entity', keep=(0,))
    E.over[opb['path']] = opaque('operation', keep=(0,))
    comb_ty = next((C.retty(b) for b in combs if any(short(F.types[a].get('path', '')) == 'MaxWidth' for a in b['args'])), C.retty(combs[0]))

    def G(v, *fs):
        return adt(tpath, M.G, adt(gpath, v, *fs))

    def sub_result(E, s, b, f):
        """Result of a computation on the type of a sub-expression."""
        out = []
        r = E.hypcall(P, (b,), resty)
        for s2, k in E.cases(s, r):
            if k == 1:
                out.append((s2, is_err))
            else:
                out += f(s2, E.field(r, 0, 0))
        return out

    def lookup(s, t, name):
        return [(s2, is_err if f is None else ok(E.field(f, 0, M.ft))) for s2, f in field_lookup(M, E, s, t, name)]

    def element(s, t):
        return [(s2, ok(E.field(t, M.V, 0)) if v == M.V else is_err) for s2, v in E.cases(s, t)]

    def wrapped(r, s, conv):
        return [(s2, ok(conv(E.field(r, 0, 0))) if k == 0 else is_err) for s2, k in E.cases(s, r)]

    def oracle(E, st):
        out = []
        names = [v['name'] for v in F.variants(X.ty)]
        for s, v in E.cases(st, x):
            n = names[v]
            g = lambda f: X.get(E, x, n, f)
            if n in ('UIntLiteral', 'SIntLiteral'):
                out.append((s, ok(G(GU if n == 'UIntLiteral' else GS, some(g('width'))))))
            elif n == 'Reference':
                r = hyp('entity', E.field(x, v, 0), ty=C.retty(entb))
                out += wrapped(r, s, lambda t: t)
            elif n == 'SubField':
                out += sub_result(E, s, g('base'), lambda s2, t: lookup(s2, t, g('index')))
            elif n in ('SubIndex', 'SubAccess'):
                out += sub_result(E, s, g('base'), element)
            elif n == 'Mux':
                def both(s2, ta):
                    def second(s3, tb):
                        ab = sorted((ta, tb), key=lambda t: t.id)
                        return wrapped(hyp('comb:MaxWidth', *ab, ty=comb_ty), s3, lambda t: t)
                    return sub_result(E, s2, g('b'), second)
                out += sub_result(E, s, g('a'), both)
            elif n == 'ValidIf':
                out += sub_result(E, s, g('value'), lambda s2, t: [(s2, ok(t))])
            elif n == 'PrimitiveOp':
                out += wrapped(hyp('operation', E.field(x, v, 0), ty=C.retty(opb)), s, lambda t: adt(tpath, M.G, t))
            else:
                raise Imprecise('expression variant ' + n)
        return out
    Table(C, R, E, (P,)).check('expressions', 'type:Expression', body, [x], oracle)

    # entities delegate to what they were declared with
    e = sym('entity', C.adt('Entity'))
    evs = {v['name']: i for i, v in enumerate(F.variants(C.adt('Entity')))}
    E2 = C.engine()
    typed = {'Register': 'Register', 'Memory': 'mem::Memory', 'SimpleMemPort': 'simple::Port', 'Instance': 'Instance'}
    tb = {n: C.method('Typed', 'type', t) for n, t in typed.items()}
    for n, b in tb.items():
        E2.over[b['path']] = opaque(n, keep=(0,))
    E2.over[P] = opaque('expr', keep=(0,))

    def entity(E, st):
        out = []
        for s, v in E.cases(st, e):
            n = F.variants(C.adt('Entity'))[v]['name']
            f = E.field(e, v, 0)
            if n == 'Port':
                out.append((s, ok(E.field(f, 0, C.fieldby('module::Port', 'Type')))))
            elif n == 'Wire':
                j = [i for i, q in enumerate(F.variants(C.adt('Entity'))[v]['fields']) if q[0] == 'type' or q[0] == 'r#type']
                out.append((s, ok(E.field(e, v, j[0]))))
            elif n == 'Node':
                j = [i for i, q in enumerate(F.variants(C.adt('Entity'))[v]['fields']) if q[0] == 'value']
                r = hyp('expr', E.field(e, v, j[0]), ty=resty)
                out += wrap2(E, s, r)
            elif n in tb:
                out += wrap2(E, s, hyp(n, f, ty=C.retty(tb[n])))
            else:
                raise Imprecise('entity variant ' + n)
        return out

    def wrap2(E, s, r):
        return [(s2, ok(E.field(r, 0, 0)) if k == 0 else is_err) for s2, k in E.cases(s, r)]
    Table(C, R, E2).check('entities', 'type:Entity', entb, [e], entity)

    # declared types
    for t in ('Register', 'module::Port', 'BundleField', 'simple::Memory'):
        y = sym('y', C.adt(t))
        Table(C, R).check('entities', 'type:' + t, C.method('Typed', 'type', t), [y],
                          lambda E, s: [(s, ok(E.field(y, 0, C.fieldby(t, 'Type'))))])
    y = sym('y', C.adt('simple::Port'))

    def mport(E, st):
        t = E.field(E.field(y, 0, C.fieldby('simple::Port', 'Memory')), 0, C.fieldby('simple::Memory', 'Type'))
        return [(s, ok(E.field(t, M.V, 0)) if v == M.V else is_err) for s, v in E.cases(st, t)]
    Table(C, R).check('entities', 'type:simple::Port', C.method('Typed', 'type', 'simple::Port'), [y], mport)

    # instances
    y = sym('y', C.adt('Instance'))
    fpath = C.path('BundleField')
    pn, pt, pd = (C.fieldby('module::Port', t) for t in ('str', 'Type', 'Direction'))
    DIN = C.variant('module::Direction', 'Input')

    def mkfield(n, t, o):
        fs = [None] * 3
        fs[M.fn], fs[M.ft], fs[M.fo] = n, t, M.orient(o)
        return adt(fpath, 0, *fs)

    def inst(E, st):
        mod = E.field(y, 0, C.fieldby('Instance', 'Module'))
        ports = E.field(mod, 0, module_ports(C))
        out = []
        for s, xs in E.expand(st, ports):
            cur = [(s, ())]
            for p in xs:
                cur = [(s3, acc + (mkfield(E.field(p, 0, pn), E.field(p, 0, pt), M.FLIPPED if d == DIN else M.NORMAL),))
                       for s2, acc in cur for s3, d in E.cases(s2, E.field(p, 0, pd))]
            out += [(s2, ok(adt(tpath, M.B, seq(acc)))) for s2, acc in cur]
        return out
    Table(C, R).check('entities', 'type:Instance', C.method('Typed', 'type', 'Instance'), [y], inst)

    # memories
    y = sym('y', C.adt('mem::Memory'))
    mb = C.method('Typed', 'type', 'mem::Memory')
    MP = C.adt('mem::Port')
    mpn, mpd = C.fieldby('mem::Port', 'str'), C.fieldby('mem::Port', 'PortDir')
    masks = [C.mono(it['path']) for it in F.items if it.get('trait') is None and len(it.get('inputs') or []) == 1
             and F.path(it['inputs'][0]) == tpath and F.path(it['output']) == tpath]
    addrw = C.fn('required_address_width')
    E3 = C.engine(max_elems=2)
    E3.over[addrw['path']] = opaque('addrw', keep=(0,))
    for b in masks:
        E3.over[b['path']] = opaque('mask', keep=(0,))
    RD, WR, RW = (C.variant('PortDir', n) for n in ('Read', 'Write', 'ReadWrite'))

    def lit(n):
        return text([n])

    def memory(E, st):
        data = E.field(y, 0, C.fieldby('mem::Memory', 'Type'))
        depth = E.field(y, 0, C.fieldby('mem::Memory', 'u64'))
        ports = E.field(y, 0, vecfield(C, 'mem::Memory'))
        one = G(GU, some(I(1)))
        addr = mkfield(lit('addr'), G(GU, some(hyp('addrw', depth, ty=C.retty(addrw)))), M.NORMAL)
        en, clk = mkfield(lit('en'), one, M.NORMAL), mkfield(lit('clk'), G(GCLK), M.NORMAL)
        mask = hyp('mask', data, ty=C.adt('Type'))
        kinds = {RD: [mkfield(lit('data'), data, M.FLIPPED)],
                 WR: [mkfield(lit('data'), data, M.NORMAL), mkfield(lit('mask'), mask, M.NORMAL)],
                 RW: [mkfield(lit('wmode'), one, M.NORMAL), mkfield(lit('rdata'), data, M.FLIPPED),
                      mkfield(lit('wdata'), data, M.NORMAL), mkfield(lit('wmask'), mask, M.NORMAL)]}
        out = []
        for s, xs in E.expand(st, ports):
            cur = [(s, ())]
            for p in xs:
                cur = [(s3, acc + ((E.field(p, 0, mpn), kinds[d] + [addr, en, clk]),))
                       for s2, acc in cur for s3, d in E.cases(s2, E.field(p, 0, mpd))]
            out += [(s2, bundle_of(acc)) for s2, acc in cur]
        return out

    def bundle_of(acc):
        """The order of the fields of a port is not specified."""
        def p(E, s, v):
            r = compare(E, s, v, ok(adt(tpath, M.B, seq([mkfield(n, adt(tpath, M.B, seq(fs)), M.FLIPPED) for n, fs in acc]))))
            if r[0] != 'diff':
                return r
            try:
                got = E.field(E.field(v, 0, 0), M.B, 0)
                xs = E.expand(s, got)[0][1]
                if len(xs) == len(acc):
                    rs = []
                    for x, (n, fs) in zip(xs, acc):
                        ys = E.expand(s, E.field(E.field(x, 0, M.ft), M.B, 0))[0][1]
                        key = lambda f: show(E.field(f, 0, M.fn))
                        ys, fs = sorted(ys, key=key), sorted(fs, key=key)
                        rs.append(compare(E, s, x, mkfield(n, E.field(x, 0, M.ft), M.FLIPPED)))
                        rs.append(('same', None) if len(ys) == len(fs) else ('diff', 'a port with %d fields' % len(ys)))
                        rs += [compare(E, s, a, b) for a, b in zip(ys, fs)]
                    for k in ('diff', 'unknown'):
                        for q in rs:
                            if q[0] == k:
                                return q
                    return ('same', None)
            except (Imprecise, IndexError, AttributeError):
                pass
            return r
        return p
    if masks:
        Table(C, R, E3).check('entities', 'type:mem::Memory', mb, [y], memory)
        for b in masks:
            t = sym('t', C.adt('Type'))

            def maskof(E, st):
                out = []
                rec = lambda t: E.hypcall(b['path'], (t,), C.retty(b))
                for s, v in E.cases(st, t):
                    if v == M.G:
                        out.append((s, G(GU, some(I(1)))))
                    elif v == M.V:
                        out.append((s, adt(tpath, v, rec(E.field(t, v, 0)), E.field(t, v, 1))))
                    else:
                        for s2, xs in E.expand(s, E.field(t, v, 0)):
                            fs = []
                            for f in xs:
                                g = [None] * 3
                                g[M.fn], g[M.fo], g[M.ft] = E.field(f, 0, M.fn), E.field(f, 0, M.fo), rec(E.field(f, 0, M.ft))
                                fs.append(adt(fpath, 0, *g))
                            out.append((s2, adt(tpath, v, seq(fs))))
                return out
            Table(C, R, hyps=(b['path'],)).check('entities', 'type:mask', b, [t], maskof)
    else:
        R.unknown('entities', 'memory types: no mask function')


    # the address width, by intervals of the number of elements
    E4 = C.engine()
    E4.visit_limit = 300
    ty = C.argty(addrw, 0)
    inst = next((b for b in F.bodies.values() if b['path'] == addrw['path'] and F.types[b['args'][0]]['k'] == 'int'), addrw)
    ity = C.argty(inst, 0)
    hi = (F.intrange(ity) or (0, 2 ** 64 - 1))[1]
    n = sym('n', ity)
    k = 0
    while True:
        lo, up = (0, 1) if k == 0 else (2 ** (k - 1) + 1, 2 ** k)
        if lo > hi:
            break
        st = E4.narrow(EMPTY, n, lo, min(up, hi))
        Table(C, R, E4).check('address width', 'addrw', inst, [n], lambda E, s: [(s, I(k))], st=st)
        k += 1
    return R


def module_ports(C):
    return vecfield(C, 'Module')


def vecfield(C, t):
    c = [i for i, f in enumerate(C.F.variants(C.adt(t))[0]['fields']) if C.F.is_coll(f[1]) and not C.F.is_str(f[1])]
    if len(c) != 1:
        raise Missing(t + ': collection')
    return c[0]


# ------------------------------------------------------------------ C10: flow

def c10(C):
    R = Report('C10')
    F = C.F
    M = TypeModel(C)
    X = ExprModel(C)
    fl = C.path('Flow')
    SRC, SNK, DUP = (C.variant('Flow', n) for n in ('Source', 'Sink', 'Duplex'))
    flow = lambda v: adt(fl, v)
    swap = {SRC: SNK, SNK: SRC, DUP: DUP}
    body = C.fn('Expression::flow')
    P = body['path']
    tb = C.method('Typed', 'type', 'Expression')
    eb = C.method('Reference', 'flow', 'Entity')
    fty = C.adt('Flow')
    x = sym('expr', X.ty)
    E = C.engine()
    E.over[eb['path']] = opaque('entityflow', keep=(0,))
    E.over[tb['path']] = opaque('typeof', keep=(0,))
    resty = C.retty(body)

    def turned(E, s, f, o):
        """Flow f seen through a field of orientation o."""
        out = []
        for s2, b in orient_cases(M, E, s, o):
            if not b:
                out.append((s2, ok(f)))
            else:
                out += [(s3, ok(flow(swap[k]))) for s3, k in E.cases(s2, f)]
        return out

    def oracle(E, st):
        out = []
        names = [v['name'] for v in F.variants(X.ty)]
        for s, v in E.cases(st, x):
            n = names[v]
            if n == 'Reference':
                r = hyp('entityflow', E.field(x, v, 0), ty=C.retty(eb))
                out += [(s2, ok(E.field(r, 1, 0)) if k == 1 else is_err) for s2, k in E.cases(s, r)]
                continue
            if n not in ('SubField', 'SubIndex', 'SubAccess'):
                out.append((s, ok(flow(SRC))))
                continue
            base = X.get(E, x, n, 'base')
            r = E.hypcall(P, (base,), resty)
            for s2, k in E.cases(s, r):
                if k == 1:
                    out.append((s2, is_err))
                elif n != 'SubField':
                    out.append((s2, ok(E.field(r, 0, 0))))
                else:
                    t = hyp('typeof', base, ty=C.retty(tb))
                    for s3, k2 in E.cases(s2, t):
                        if k2 == 1:
                            out.append((s3, is_err))
                            continue
                        for s4, f in field_lookup(M, E, s3, E.field(t, 0, 0), X.get(E, x, n, 'index')):
                            if f is None:
                                out.append((s4, is_err))
                            else:
                                out += turned(E, s4, E.field(r, 0, 0), E.field(f, 0, M.fo))
        return out
    Table(C, R, E, (P,)).check('expressions', 'flow:Expression', body, [x], oracle)

    # flows and orientations
    f, o = sym('f', fty), sym('o', C.adt('Orientation'))
    plus = [C.mono(it['path']) for it in F.trait_items('Add', 'add') if F.path(it['self']) == fl]
    if not plus:
        R.unknown('flows', 'no sum of a flow and an orientation')
    for b in plus:
        Table(C, R).check('flows', 'flow:Add', b, [f, o],
                          lambda E, s: [(s2, E.field(w, 0, 0)) for s2, w in turned(E, s, f, o)])
    for n, yes in (('Flow::is_source', (SRC, DUP)), ('Flow::is_sink', (SNK, DUP))):
        Table(C, R).check('flows', 'flow:' + n, C.fn(n), [f], lambda E, s: [(s2, Bo(k in yes)) for s2, k in E.cases(s, f)])

    # entities
    e = sym('entity', C.adt('Entity'))
    E2 = C.engine()

    def port(E, s, p):
        d = E.field(p, 0, C.fieldby('module::Port', 'Direction'))
        i = C.variant('module::Direction', 'Input')
        return [(s2, some(flow(SRC if k == i else SNK))) for s2, k in E.cases(s, d)]

    def memport(E, s, p):
        d = E.field(p, 0, next(i for i, q in enumerate(F.variants(C.adt('simple::Port'))[0]['fields'])
                               if F.path(q[1]) == OPT and F.path(F.types[q[1]]['args'][0]) == C.path('PortDir')))
        out = []
        kind = {C.variant('PortDir', a): b for a, b in (('Read', SRC), ('Write', SNK), ('ReadWrite', DUP))}
        for s2, k in E.cases(s, d):
            if k == 0:
                out.append((s2, NONE))
            else:
                out += [(s3, some(flow(kind[j]))) for s3, j in E.cases(s2, E.field(d, 1, 0))]
        return out

    def entity(E, st):
        out = []
        for s, v in E.cases(st, e):
            n = F.variants(C.adt('Entity'))[v]['name']
            p = E.field(e, v, 0)
            if n == 'Port':
                out += port(E, s, p)
            elif n == 'SimpleMemPort':
                out += memport(E, s, p)
            elif n in ('Wire', 'Register'):
                out.append((s, some(flow(DUP))))
            elif n in ('Node', 'Memory', 'Instance'):
                out.append((s, some(flow(SRC))))
            else:
                raise Imprecise('entity variant ' + n)
        return out
    Table(C, R, E2).check('entities', 'flow:Entity', eb, [e], entity)
    for t, w in (('module::Port', port), ('simple::Port', memport), ('Register', lambda E, s, p: [(s, some(flow(DUP)))]),
                 ('mem::Memory', lambda E, s, p: [(s, some(flow(SRC)))]), ('Instance', lambda E, s, p: [(s, some(flow(SRC)))])):
        y = sym('y', C.adt(t))
        Table(C, R).check('entities', 'flow:' + t, C.method('Reference', 'flow', t), [y], lambda E, s: w(E, s, y))
    return R


def orient_cases(M, E, st, o):
    """(state, is the orientation flipped)"""
    return [(s, k == M.FLIPPED) for s, k in E.cases(st, o)]
