"""Abstract values: hash-consed constructor shapes over opaque leaves."""

_tab = {}
_count = [0]


class T:
    __slots__ = ('k', 'a', 'ty', 'id', '_memo')

    def __repr__(self):
        return show(self)


def mk(k, *a, ty=None):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.ty = k, a, ty
        _count[0] += 1
        t.id = _count[0]
        t._memo = None
        _tab[key] = t
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


def I(v):
    return mk('int', v)


TRUE, FALSE = mk('bool', True), mk('bool', False)


def Bo(b):
    return TRUE if b else FALSE


UNIT = mk('tup', ())


def tup(*xs):
    return mk('tup', tuple(xs))


def adt(path, v, *fields, ty=None):
    return mk('adt', path, v, tuple(fields), ty=ty)


OPT, RES = 'std::option::Option', 'std::result::Result'


def some(x):
    return adt(OPT, 1, x)


NONE = adt(OPT, 0)


def ok(x):
    return adt(RES, 0, x)


def err(x):
    return adt(RES, 1, x)


def sym(name, ty=None):
    return mk('sym', name, ty, ty=ty)


def app(op, *args, ty=None):
    return mk('app', op, tuple(args), ty=ty)


def seq(xs):
    return mk('seq', tuple(xs))


def char(c):
    return mk('char', c)


SYMBOLIC = ('sym', 'app', 'proj', 'elem')


def is_sym(t):
    return t.k in SYMBOLIC


def text(pieces):
    """String value from pieces: Python strings and string-valued terms."""
    out = []
    for p in pieces:
        if isinstance(p, T):
            if p.k == 'str':
                for q in p.a[0]:
                    _push(out, q)
                continue
            if p.k == 'char':
                p = p.a[0]
        _push(out, p)
    if len(out) == 1 and isinstance(out[0], T) and out[0].k in SYMBOLIC:
        return out[0]
    return mk('str', tuple(out))


def _push(out, p):
    if isinstance(p, str):
        if not p:
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    out.append(p)


def pieces(t):
    return t.a[0] if t.k == 'str' else (t,)


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '..'
    k, a = t.k, t.a
    s = lambda x: show(x, depth - 1)
    if k in ('int', 'bool'):
        return str(a[0])
    if k == 'char':
        return repr(a[0])
    if k == 'str':
        return '"' + ''.join(p.replace('\n', '\\n') if isinstance(p, str) else '{' + s(p) + '}' for p in a[0]) + '"'
    if k == 'tup':
        return '(' + ', '.join(map(s, a[0])) + ')'
    if k == 'adt':
        p = a[0].split('::')[-1]
        if a[0] == OPT:
            return 'Some(' + s(a[2][0]) + ')' if a[1] else 'None'
        if a[0] == RES:
            return ('Err(' if a[1] else 'Ok(') + s(a[2][0]) + ')'
        return '%s#%d(%s)' % (p, a[1], ', '.join(map(s, a[2])))
    if k == 'sym':
        return a[0]
    if k == 'proj':
        return '%s.%s%s' % (s(a[0]), '' if a[1] is None else '%d:' % a[1], a[2])
    if k == 'elem':
        return '%s[%s]' % (s(a[0]), a[1])
    if k == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) if isinstance(x, T) else repr(x) for x in a[1]))
    if k == 'lin':
        return '+'.join(['%d*%s' % (c, s(x)) if c != 1 else s(x) for x, c in a[0]] + ([str(a[1])] if a[1] else []))
    if k == 'seq':
        return '[' + ', '.join(map(s, a[0])) + ']'
    return k + '(' + ', '.join(s(x) if isinstance(x, T) else '..' if isinstance(x, dict) else str(x)[:40] for x in a) + ')'


def subst(t, m, memo):
    """Replace leaves of a term (a mapping T -> T)."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is None:
        na = tuple(subst(x, m, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
        if na == t.a:
            r = t
        elif t.k == 'proj':
            r = project(na[0], na[1], na[2], t.ty)
        elif t.k == 'str':
            r = text(na[0])
        elif t.k == 'lin':
            r = lin_sum([(c, x) for x, c in na[0]], na[1])
        else:
            r = mk(t.k, *na, ty=t.ty)
        memo[t] = r
    return r


def project(b, v, f, ty=None):
    """Field f of value b (seen as variant v)."""
    k = b.k
    if k == 'tup':
        return b.a[0][f]
    if k == 'adt':
        return b.a[2][f]
    if k == 'clo':
        return b.a[1][f]
    if k == 'pair':
        return b.a[f]
    return mk('proj', b, v, f, ty=ty)


# ---- linear integer terms

def lin_parts(t):
    if t.k == 'int':
        return (), t.a[0]
    if t.k == 'lin':
        return t.a[0], t.a[1]
    return ((t, 1),), 0


def lin_sum(items, const=0):
    """Sum of coefficient * term."""
    acc = {}
    for c, t in items:
        ps, k = lin_parts(t)
        const += c * k
        for x, d in ps:
            acc[x] = acc.get(x, 0) + c * d
    ps = tuple(sorted(((x, d) for x, d in acc.items() if d), key=lambda p: p[0].id))
    if not ps:
        return I(const)
    if const == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    return mk('lin', ps, const)


def add(a, b):
    return lin_sum([(1, a), (1, b)])


def sub(a, b):
    return lin_sum([(1, a), (-1, b)])
