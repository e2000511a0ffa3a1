"""Transfer functions of the parser combinators, over abstract texts.

An input is a tuple of pieces: constant text, opaque words (names, numbers), runs of spaces, quoted
texts given by what each character is written as, and texts of nested nodes.  A parser is mapped to its
outcomes: accepted, with the remaining input and the value, or rejected."""
from terms import *
from engine import Imprecise, Cx, OPT, RES, ATOMS, show, is_sym
from facts import short
from models import nat, it, to_iter, iterate, build, strval, is_const, cstr, SELFCHAR, N
import models

NERR = 'nom::Err'
OPAQUE_ERR = mk('sym', 'parse error', None)
ERR = ('err', 1)
FAILURE = ('err', 2)
DIGITS = frozenset('0123456789')
RDIGITS = {2: frozenset('01'), 8: frozenset('01234567'), 10: DIGITS, 16: frozenset('0123456789abcdefABCDEF')}
IDENT = frozenset(c for c in ATOMS if c.isalnum() or c in '_$') | {'\u0663'}
IDENT0 = frozenset(c for c in IDENT if not c.isnumeric())
REST = mk('restpiece')          # further text nothing is known about
END = '\0end'
HOLES = ('nt', 'nti', 'nts', 'ntc', 'ntl')     # texts of nested nodes


def inp(ps):
    out = []
    for p in ps:
        if isinstance(p, T) and p.k == 'str':
            for q in p.a[0]:
                push(out, q)
        elif isinstance(p, T) and p.k == 'char':
            push(out, p.a[0])
        else:
            push(out, p)
    return mk('input', tuple(out))


def push(out, p):
    if isinstance(p, str):
        if not p:
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    out.append(p)


def ps_of(E, st, v):
    v = E.deref(st, v)
    if v.k == 'input':
        return v.a[0]
    if v.k == 'str':
        return v.a[0]
    if is_sym(v) and v.ty is not None and E.F.is_str(v.ty):
        return (v,)
    raise Imprecise('parser input ' + show(v))


# ---- text nothing is known about: a piece naming the position; another name means that something was read

def isany(ps):
    return bool(ps) and isinstance(ps[0], T) and ps[0].k == 'any'


def after(p, what, sure=True):
    """The position after something was read; sure: at least one character was."""
    return (mk('any', p, what, sure),)


def progress(a, b):
    """Whether at least one character lies between two inputs."""
    if not isany(a) or not isany(b):
        return a != b and bool(b)
    q = b[0]
    while q is not a[0]:
        if len(q.a) < 3:
            return True         # unrelated texts
        if q.a[2]:
            return True
        q = q.a[0]
    return False


def anysym(E, kind, p, what, ty=None):
    """The value some parser yields at a position of an unknown text."""
    if ty is None:
        ty = E.F.named('char') if kind == 'char' else E.strty()
    return mk('sym', '%s#%d.%d' % (kind, p.id, what if isinstance(what, int) else what.id), ty=ty)


def settle(E, st, p, ps, outs):
    """Give outcomes on unknown text their canonical names and drop duplicates."""
    best, order = {}, []
    for s, r, q in outs:
        if r[0] == 'ok':
            if isany(r[1]):
                if r[1] != ps:
                    r = ('ok', after(ps[0], p, progress(ps, r[1])), r[2])
            elif not r[1]:
                r = ('ok', ps, r[2])        # the end was reached, perhaps without reading anything
        elif q is p and s.store == st.store:
            s = st
        key = (r[0], r[2].id if len(r) > 2 else r[1], q.id, id(s.cons), id(s.store))
        if key not in best:
            best[key] = (s, r, q)
            order.append(key)
        elif r[0] == 'ok' and best[key][1][1] != r[1]:
            best[key] = (s, ('ok', after(ps[0], p, False), r[2]), q)
    return [best[k] for k in order]


def canon_err(r):
    return err(adt(NERR, r[1], OPAQUE_ERR))


def result(r):
    if r[0] == 'ok':
        return ok(tup(mk('input', r[1]), r[2]))
    return canon_err(r)


# ---------------------------------------------------------------- reading single characters

_atomsets = {}


def hash_atoms(atoms):
    return _atomsets.setdefault(frozenset(atoms), len(_atomsets))


def first(h):
    return mk('app', 'first', (h,))


def wordinfo(E, st, p):
    """(first characters, all characters) of an opaque word, or None."""
    if p.k == 'app':
        if p.a[0] in ('digits', 'fdig'):
            return DIGITS, DIGITS
        if p.a[0] == 'rdig':
            d = RDIGITS[p.a[1][1].a[0]]
            return d, d
        if p.a[0] == 'tail':
            return IDENT, IDENT
        if p.a[0] in ('lead', 'name'):
            al = st.cons.get(('allin', p), IDENT)
            return IDENT0 & al, al
    k = E.strclass(st, p)
    al = st.cons.get(('allin', p), IDENT)
    if k == 'ident':
        return IDENT0 & al, al
    if k == 'fname':
        return al, al
    return None


def heads(E, st, ps):
    """Alternatives for the head of an input: (state, head, rest).

    head: None at the end, ('c', char term) a single character, ('w', piece) an opaque word,
    ('s', n) a run of n >= 1 spaces."""
    if not ps:
        return [(st, None, ps)]
    p, rest = ps[0], ps[1:]
    if isinstance(p, str):
        return [(st, ('c', char(p[0])), ((p[1:],) + rest) if len(p) > 1 else rest)]
    if p is REST:
        raise Imprecise('reads beyond the known text')
    if p.k == 'any':
        return [(st, None, ()), (st, ('c', anysym(E, 'char', p, 0)), after(p, 'char'))]
    if p.k == 'app':
        op, a = p.a
        if op == 'fmtint':
            v = a[0]
            out = []
            for s, neg in E.truth(st, E.rng(v, None, -1)):
                if neg:
                    out += heads(E, s, ('-', app('digits', lin_sum([(-1, v)]))) + rest)
                else:
                    out.append((s, ('w', app('digits', v)), rest))
            return out
        if op in ('fmtfloat', 'fmtfloatp'):
            v = a[0]
            fin = app('is_finite', v, ty=None)
            for k in list(st.cons):
                if k[0] == 'b' and k[1].k == 'app' and k[1].a[0] == 'is_finite' and k[1].a[1][0] is v and st.cons[k] is False:
                    raise Imprecise('text of an infinite number')
            out = []
            neg = app('fneg', v)
            for s, ng in E.truth(st, neg):
                for s2, whole in fwhole(E, s, v) if op == 'fmtfloat' else [(s, False)]:
                    q = (app('fdig', v, I(0)),) + (() if whole else ('.', app('fdig', v, I(1))))
                    out += heads(E, s2, (('-',) if ng else ()) + q + rest)
            return out
        if op == 'rep':
            n = a[1]
            if a[0] != ' ':
                raise Imprecise('repeated ' + a[0])
            out = []
            for s, z in E.truth(st, E.rng(n, None, 0)):
                if z:
                    out += heads(E, s, rest)
                else:
                    out.append((s, ('s', n), rest))
            return out
        if op == 'esc':
            out = []
            for s, d in unroll(E, st, p):
                out += heads(E, s, d + rest)
            return out
        if op == 'escmore':
            out = heads(E, st, rest)
            for s, d in unroll(E, st, p):
                out += heads(E, s, d + rest)
            return out
        if op == 'afterch':
            out = []
            at = E.atoms(st, p) & AFTER if ('chr', p) in st.cons else AFTER
            for c in sorted(at):
                s = E.setatoms(st, p, frozenset([c]))
                if c == END:
                    out += heads(E, s, rest)
                else:
                    if c in '<(':
                        s = s.fact(('taint',), 'text after the first word of an expression')
                    out.append((s, ('c', char(c)), (REST,)))
            return out
        if wordinfo(E, st, p):
            return [(st, ('w', p), rest)]
    if p.k in HOLES:
        out = []
        for s, q in E.openhole(st, p):
            out += heads(E, s, q + rest)
        return out
    if p.k == 'sym' and p.ty is not None and E.F.types[p.ty]['k'] == 'char' or p.k == 'elem' and not (p.ty is not None and E.F.is_str(p.ty)):
        return [(st, ('c', p), rest)]
    if wordinfo(E, st, p):
        return [(st, ('w', p), rest)]
    if is_sym(p) and p.ty is not None and E.F.is_str(p.ty):
        # any text, written as it is
        out = []
        for s, z in E.truth(st, E.rng(app('strlen', p), 0, 0)):
            out += heads(E, s, rest if z else (mk('app', 'esc', (p, ((ATOMS, (SELFCHAR,)),))),) + rest)
        return out
    raise Imprecise('reading ' + show(p))


AFTER = frozenset(['<', '(', '.', '[', END])


def fwhole(E, st, v):
    """Whether a floating point number is printed without fraction."""
    for k, b in st.cons.items():
        if k[0] == 'b' and 'fract' in show(k[1]) and any(x is v for x in flat(k[1])):
            if k[1].a[0] in ('eq', 'feq') or 'eq' in k[1].a[0].lower():
                return [(st, b)]
    return E.truth(st, app('fwhole', v))


def flat(t, acc=None):
    acc = [] if acc is None else acc
    acc.append(t)
    for x in t.a:
        if isinstance(x, T):
            flat(x, acc)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    flat(y, acc)
    return acc


_fresh = [0]


def unroll(E, st, p):
    """The first character of a quoted text: (state, pieces)."""
    sv, classes = p.a[1]
    out = []
    c = mk('sym', 'next@%d' % p.id, ty=E.F.named('char'))
    more = mk('app', 'escmore', (sv, classes))
    have = E.atoms(st, c)
    for at, d in classes:
        at = at & have
        if at:
            out.append((E.setatoms(st, c, at), tuple(norm_d(d, c if len(at) > 1 else char(next(iter(at))))) + (more,)))
    return out


def norm_d(d, c):
    r = []
    for x in d:
        x = c if x is SELFCHAR else x
        push(r, x.a[0] if isinstance(x, T) and x.k == 'char' else x)
    return r


def predset(E, st, pred):
    """The characters a predicate accepts."""
    k = ('predset', pred)
    r = E.memo.get(k)
    if r is None:
        c = mk('sym', 'anychar', ty=E.F.named('char'))
        yes, no = set(), set()
        for s, v in E.callv(st, pred, [c], Cx()):
            for s2, b in E.truth(s, v):
                (yes if b else no).update(E.atoms(s2, c))
        if yes & no:
            raise Imprecise('predicate over characters')
        r = E.memo[k] = frozenset(yes)
    return r


# ---------------------------------------------------------------- tokens

def tag(E, st, ps, t):
    """Match constant text: (state, rest or None)."""
    out = []
    if isany(ps) and t:
        return [(st, None), (st, after(ps[0], t))]
    work = [(st, ps, t)]
    n = 0
    while work:
        s, p, x = work.pop()
        n += 1
        if n > 2000:
            raise Imprecise('matching a keyword')
        if not x:
            out.append((s, p))
            continue
        if p and isinstance(p[0], str):
            h = p[0]
            if h.startswith(x):
                out.append((s, ((h[len(x):],) + p[1:]) if len(h) > len(x) else p[1:]))
            elif x.startswith(h):
                work.append((s, p[1:], x[len(h):]))
            else:
                out.append((s, None))
            continue
        if p and isinstance(p[0], T) and p[0].k == 'app' and p[0].a[0] in ('esc', 'escmore'):
            if not escmay(E, s, p, x):
                out.append((s, None))
                continue
        if p and p[0].k in HOLES and x[0] not in E.firsts(p[0]):
            out.append((s, None))
            continue
        for s2, h, r in heads(E, s, p):
            if h is None:
                out.append((s2, None))
            elif h[0] == 'c':
                for s3, b in E.splitchar(s2, h[1], lambda c: c == x[0]):
                    if b:
                        work.append((s3, r, x[1:]))
                    else:
                        out.append((s3, None))
            elif h[0] == 's':
                if x[0] == ' ':
                    work.append((s2, (app('rep', ' ', sub(h[1], I(1))),) + r, x[1:]))
                else:
                    out.append((s2, None))
            else:
                for s3, r2, x2 in wordtag(E, s2, h[1], r, x):
                    if r2 is None:
                        out.append((s3, None))
                    else:
                        work.append((s3, r2, x2))
    return out


def escmay(E, st, ps, x):
    """Whether the text of a quoted string can start with x[0]."""
    sv, classes = ps[0].a[1]
    for at, d in classes:
        h = d[0]
        if h is SELFCHAR:
            if x[0] in at:
                return True
        elif isinstance(h, str):
            if h[0] == x[0]:
                return True
        else:
            return True
    if ps[0].a[0] == 'escmore':
        return any(r is not None for _, r in tag(E, st, ps[1:], x[0]))
    return False


def wordtag(E, st, w, rest, t):
    """Match text against an opaque word: (state, rest or None, text left to match)."""
    fs, al = wordinfo(E, st, w)
    if al is DIGITS:
        if t[0] not in DIGITS:
            return [(st, None, t)]
        raise Imprecise('digits compared with ' + t)
    n = 0
    while n < len(t) and t[n] in IDENT:
        n += 1
    if not n or (t[0] not in fs):
        return [(st, None, t)]
    ti = t[:n]
    h, pre = (w.a[1][0], w.a[1][1]) if w.k == 'app' and w.a[0] == 'tail' else (w, '')
    f = st.cons.get(('str', h))
    if f is not None and f[0] == 'eq':
        r = f[1][len(pre):]
        if r.startswith(t):
            return [(st, ((app('tail', h, pre + t),) if r != t else ()) + rest, '')]
        if t.startswith(r):
            return [(st, rest, t[len(r):])]
        return [(st, None, t)]
    _, P, NP, NE = f or ('k', '', frozenset(), frozenset())
    X = pre + ti
    if pre and len(P) < len(pre):
        P = pre
    out = []
    if P.startswith(X) or X.startswith(P):
        if not any(X.startswith(q) for q in NP):
            longer = len(P) > len(X)
            if not longer and X not in NE:
                s = st.fact(('str', h), ('eq', X))
                out.append((s, rest, t[n:]))
            s = st if longer else st.fact(('str', h), ('k', X, frozenset(q for q in NP if q.startswith(X)),
                                                     frozenset(q for q in NE if q.startswith(X)) | {X}))
            out.append((s, (app('tail', h, X),) + rest, '') if n == len(t) else (s, None, t))
    if not P.startswith(X):
        if rest and isinstance(rest[0], str) and rest[0][0] in IDENT:
            raise Imprecise('words without separation')
        if any(X.startswith(q) for q in NP):
            out.append((st, None, t))
        else:
            out.append((st.fact(('str', h), ('k', P, NP | {X} if X.startswith(P) else NP, NE)), None, t))
    return out


def streq(E, st, a, b):
    """Equality of texts where one is constant and the other an opaque word."""
    if b.k == 'str' and is_const(b):
        a, b = b, a
    if a.k == 'str' and is_const(a):
        x = cstr(a)
        ps = b.a[0] if b.k in ('input', 'str') else (b,)
        if b.k == 'str' and is_const(b):
            return [(st, cstr(a) == cstr(b))]
        if E.anymode and ps and not all(isinstance(q, str) for q in ps):
            if len(ps) > 1 or not is_sym(ps[0]):
                return [(st, True), (st, False)]
            f = st.cons.get(('str', ps[0])) or ('ne', frozenset())
            if f[0] == 'eq':
                return [(st, f[1] == x)]
            if x in f[1]:
                return [(st, False)]
            return [(st.fact(('str', ps[0]), ('eq', x)), True), (st.fact(('str', ps[0]), ('ne', f[1] | {x})), False)]
        if len(ps) == 1 and isinstance(ps[0], T):
            w = wordinfo(E, st, ps[0])
            if w and w[1] is not DIGITS:
                if not x:
                    return [(st, False)]
                out = []
                for s, r, left in wordtag(E, st, ps[0], (), x):
                    out.append((s, r is not None and not r and not left))
                return out
        out = []
        for s, r in tag(E, st, tuple(ps), x):
            if r is None:
                out.append((s, False))
            elif not r:
                out.append((s, True))
            else:
                for s2, h, _ in heads(E, s, r):
                    out.append((s2, h is None))
        return out
    # keys of one map are distinct
    if a.k == 'elem' and b.k == 'elem' and a.a[0] is b.a[0] and isinstance(a.a[1], tuple) and a.a[1] != b.a[1]:
        return [(st, False)]
    return None


def one(E, st, ps, atoms):
    """A single character out of a set: (state, (char, rest) or None)."""
    if isany(ps):
        if len(atoms) == 1 and next(iter(atoms)) < '\x80':
            return [(st, None), (st, (char(next(iter(atoms))), after(ps[0], 'char')))]
        c = anysym(E, 'char', ps[0], hash_atoms(atoms))
        return [(st, None), (E.setatoms(st, c, atoms), (c, after(ps[0], 'char')))]
    if ps and isinstance(ps[0], T) and ps[0].k in HOLES and not E.firsts(ps[0]) & atoms:
        return [(st, None)]
    out = []
    for s, h, r in heads(E, st, ps):
        if h is None:
            out.append((s, None))
        elif h[0] == 'c':
            for s2, b in E.splitchar(s, h[1], lambda c: c in atoms):
                c = h[1]
                if b and c.k != 'char':
                    at = E.atoms(s2, c)
                    if len(at) == 1 and next(iter(at)) < '\x80':
                        c = char(next(iter(at)))
                out.append((s2, (c, r) if b else None))
        elif h[0] == 's':
            out.append((s, (char(' '), (app('rep', ' ', sub(h[1], I(1))),) + r) if ' ' in atoms else None))
        else:
            w = h[1]
            fs, al = wordinfo(E, s, w)
            f = s.cons.get(('str', w)) if w.k != 'app' or w.a[0] in ('name', 'lead') else None
            if f is not None:
                k = f[1]
                if k:
                    fs = frozenset([k[0]])
            if fs <= atoms:
                out.append((s, (first(w), (mk('app', 'tail1', (w,)),) + r)))
            elif not (fs & atoms):
                out.append((s, None))
            else:
                c = first(w)
                have = s.cons.get(('chr', c), fs)
                for sub_, b in ((have & atoms, True), (have - atoms, False)):
                    if sub_:
                        s2 = E.setatoms(s, c, sub_)
                        out.append((s2, (c, (mk('app', 'tail1', (w,)),) + r) if b else None))
    return out


def partword(E, st, w, fs, al, atoms):
    """The reader accepts some characters of a word only: (state, consumed, rest of the word or None for all of it)."""
    f = st.cons.get(('str', w))
    if w.k == 'app' and w.a[0] not in ('name', 'lead') or f is not None and (
            f[0] == 'eq' or f[1] or any(len(x) < 3 for x in f[2]) or any(len(x) == 2 and x[1] in al - atoms for x in f[3])):
        raise Imprecise('part of a word')
    c = first(w)
    have = st.cons.get(('chr', c), fs)
    out = []
    if have - atoms:
        out.append((E.setatoms(st, c, have - atoms), (), (w,)))
    if have & atoms:
        out.append((st.fact(('allin', w), al & atoms), (w,), None))
        # a word of two characters of which the second one is not accepted
        s = E.setatoms(st, c, have & atoms).fact(('short', w), c)
        d = mk('sym', 'second@%d' % w.id, ty=E.F.named('char'))
        s = E.setatoms(s, d, al - atoms)
        out.append((s, (c,), (d,)))
    return out


def takewhile(E, st, ps, atoms, stop=None):
    """Consume characters out of a set: (state, consumed, rest)."""
    out = []
    if isany(ps):
        return [(st, (anysym(E, 'word', ps[0], hash_atoms(atoms)),), after(ps[0], 'word', False))]
    work = [(st, (), ps)]
    n = 0
    while work:
        s, got, p = work.pop()
        n += 1
        if n > 2000:
            raise Imprecise('consuming characters')
        if p and isinstance(p[0], str):
            k = 0
            x = p[0]
            while k < len(x) and x[k] in atoms:
                k += 1
            g = list(got)
            push(g, x[:k])
            if k == len(x):
                work.append((s, tuple(g), p[1:]))
            else:
                out.append((s, tuple(g), (x[k:],) + p[1:]))
            continue
        if p and p[0].k == 'app' and p[0].a[0] == 'rep' and ' ' in atoms:
            work.append((s, got + (p[0],), p[1:]))
            continue
        if p and p[0].k == 'app' and p[0].a[0] == 'esc':
            sv, cl = p[0].a[1]
            good = [set(_chars(at, d)) <= atoms for at, d in cl]
            if all(good):
                work.append((s, got + (p[0],), p[1:]))
                continue
        if p and p[0].k in HOLES and not E.firsts(p[0]) & atoms:
            out.append((s, got, p))
            continue
        for s2, h, r in heads(E, s, p):
            if h is None:
                out.append((s2, got, ()))
            elif h[0] == 'c':
                for s3, b in E.splitchar(s2, h[1], lambda c: c in atoms):
                    c = h[1]
                    q = c.a[0] if c.k == 'char' else c
                    if b:
                        g = list(got)
                        push(g, q)
                        work.append((s3, tuple(g), r))
                    else:
                        rr = [q]
                        for y in r:
                            push(rr, y)
                        out.append((s3, got, tuple(rr)))
            elif h[0] == 's':
                q = app('rep', ' ', h[1])
                if ' ' in atoms:
                    work.append((s2, got + (q,), r))
                else:
                    out.append((s2, got, (q,) + r))
            else:
                w = h[1]
                fs, al = wordinfo(E, s2, w)
                f = s2.cons.get(('str', w))
                if al <= atoms:
                    work.append((s2, got + (w,), r))
                elif not (s2.cons.get(('chr', first(w)), fs) & atoms):
                    out.append((s2, got, (w,) + r))
                elif f is not None and f[0] == 'eq':
                    work.append((s2, got, (f[1],) + r))
                else:
                    for s3, g, rr in partword(E, s2, w, fs, al, atoms):
                        if rr is None:
                            work.append((s3, got + (w,), r))
                            continue
                        q = list(rr)
                        for y in r:
                            push(q, y)
                        out.append((s3, got + g, tuple(q)))
    return out


def _chars(at, d):
    for x in d:
        if x is SELFCHAR:
            yield from at
        elif isinstance(x, str):
            yield from x


def isempty(ps):
    return not ps


def consumed(before, after):
    """The pieces read between two inputs."""
    if not after:
        return before
    # drop the common suffix
    i = 0
    while i < len(after) and i < len(before):
        a, b = after[-1 - i], before[-1 - i]
        if a is b or a == b:
            i += 1
            continue
        break
    b, a = before[:len(before) - i], after[:len(after) - i]
    if not a:
        return b
    if len(a) == 1:
        x = a[0]
        y = b[-1] if b else None
        if isinstance(x, str) and isinstance(y, str) and y.endswith(x):
            return b[:-1] + ((y[:-len(x)],) if y != x else ())
        if isinstance(x, T) and x.k == 'app' and x.a[0] == 'digits' and isinstance(y, T) and y.k == 'app' and y.a[0] == 'fmtint':
            if x.a[1][0] is y.a[1][0]:
                return b[:-1]
            return b[:-1] + ('-',)
        if isinstance(x, T) and x.k == 'app' and x.a[0] == 'tail' and b and y is x.a[1][0]:
            return b[:-1] + (x.a[1][1],)
        if isinstance(x, T) and x.k == 'app' and x.a[0] == 'rep' and isinstance(y, T) and y.k == 'app' and y.a[0] == 'rep':
            return b[:-1] + (app('rep', ' ', sub(y.a[1][1], x.a[1][1])),)
    return None


def recognized(E, st, before, after_):
    """The text between two inputs as a value."""
    if isany(before):
        return text([]) if before == after_ else anysym(E, 'text', before[0], after_[0] if after_ else 1)
    c = consumed(before, after_)
    if c is None:
        # a number whose sign was split off
        c = consumed(openints(E, st, before), after_)
    if c is None:
        raise Imprecise('extent of the recognised text')
    return text(openints(E, st, c)) if c else text([])


def openints(E, st, ps):
    """Replace numbers by sign and digits where the sign is known."""
    out = []
    for p in ps:
        if isinstance(p, T) and p.k == 'app' and p.a[0] == 'fmtint':
            v = p.a[1][0]
            lo, hi = E.bounds(st, v)
            if lo is not None and lo >= 0:
                p = app('digits', v)
            elif hi is not None and hi < 0:
                push(out, '-')
                p = app('digits', lin_sum([(-1, v)]))
        elif isinstance(p, T) and p.k == 'app' and p.a[0] in ('fmtfloat', 'fmtfloatp'):
            v = p.a[1][0]
            ng = st.cons.get(('b', app('fneg', v)))
            if ng is True:
                push(out, '-')
            if ng is not None:
                out.append(app('fdig', v, I(0)))
                whole = fwhole(E, st, v)
                if p.a[0] == 'fmtfloatp' or (len(whole) == 1 and not whole[0][1]):
                    push(out, '.')
                    p = app('fdig', v, I(1))
                else:
                    continue
        push(out, p)
    return tuple(out)


# ---------------------------------------------------------------- running parsers

def prun(E, st, p, ps):
    """Outcomes of a parser value: (state, ('ok', rest, value) | ('err', variant), parser afterwards)."""
    if isany(ps):
        return settle(E, st, p, ps, prun0(E, st, p, ps))
    return prun0(E, st, p, ps)


def prun0(E, st, p, ps):
    k = p.k
    if k == 'nomp':
        h = E.hole_rule
        if h is not None and ps and isinstance(ps[0], T) and ps[0].k == 'ntl':
            r = h(E, st, p, ps)
            if r is not None:
                return [(s, x, p) for s, x in r]
        return COMB[p.a[0]](E, st, p, ps)
    if k == 'str':
        return [(s, ('ok', r, text([cstr(p)])) if r is not None else ERR, p) for s, r in tag(E, st, ps, cstr(p))]
    out = []
    if k == 'ptr' and E.load(st, p).k == 'nomp':
        for s, r, q in prun(E, st, E.load(st, p), ps):
            out.append((s if q is E.load(s, p) else E.store(s, p, q), r, p))
        return out
    if k == 'adt':
        s0, cell = st.alloc(p)
        for s, v in E.callv(s0, mk('ptr', cell, ()), [mk('input', ps)], Cx()):
            q = s.store[cell]
            for s2, r in outcome(E, s.free(cell), v):
                out.append((s2, r, q))
        return out
    for s, v, q in E.callm(st, p, [mk('input', ps)], Cx()):
        for s2, r in outcome(E, s, v):
            out.append((s2, r, q))
    return out


def outcome(E, st, v):
    """Read an IResult value."""
    out = []
    if v.k != 'adt' and not (is_sym(v) and v.ty is not None and E.F.variants(v.ty)):
        raise Imprecise('parser result ' + show(v))
    for s, k in E.cases(st, v):
        w = E.field(v, k, 0)
        if k == 0:
            w = E.expose(s, w)
            i = E.deref(s, w.a[0][0])
            if i.k == 'input':
                i = i.a[0]
            else:
                i = ps_of(E, s, i)
            out.append((s, ('ok', i, w.a[0][1])))
        else:
            kind = w.a[1] if w.k == 'adt' and w.a[0] == NERR else 1
            out.append((s, ('err', kind)))
    return out


COMB = {}


def comb(*names):
    def reg(fn):
        for n in names:
            COMB[n] = fn
        return fn
    return reg


def setp(p, i, q):
    """A combinator value with one argument replaced."""
    if p.a[1][i] is q:
        return p
    a = list(p.a[1])
    a[i] = q
    return mk('nomp', p.a[0], tuple(a), *p.a[2:])


def setlist(p, i, j, q):
    l = p.a[1][i]
    if l.k == 'tup':
        if l.a[0][j] is q:
            return p
        xs = list(l.a[0])
        xs[j] = q
        return setp(p, i, mk('tup', tuple(xs)))
    return p


def chain(outs, f):
    r = []
    for s, x, p in outs:
        r += f(s, x, p)
    return r


@comb('alt')
def c_alt(E, st, p, ps):
    l = p.a[1][0]
    l = E.expose(st, l) if l.k not in ('tup', 'seq') else l
    out = []
    cur = [(st, p)]
    for j in range(len(l.a[0])):
        nxt = []
        for s, q in cur:
            for s2, r, x in prun(E, s, q.a[1][0].a[0][j], ps):
                q2 = setlist(q, 0, j, x)
                if r[0] == 'err' and r[1] == 1:
                    nxt.append((s2, q2))
                else:
                    out.append((s2, r, q2))
        cur = nxt
    return out + [(s, ERR, q) for s, q in cur]


@comb('tuple')
def c_tuple(E, st, p, ps):
    l = p.a[1][0]
    return [(s, r if r[0] == 'err' else ('ok', r[1], tup(*r[2])), q) for s, r, q in seqrun(E, st, p, ps, [(0, j) for j in range(len(l.a[0]))])]


def seqrun(E, st, p, ps, idx):
    """Run components one after another; idx are their positions: int (argument) or (argument, element)."""
    out = []
    cur = [(st, p, ps, ())]
    for j in idx:
        nxt = []
        for s, q, i, vals in cur:
            sub_ = q.a[1][j] if isinstance(j, int) else q.a[1][j[0]].a[0][j[1]]
            for s2, r, x in prun(E, s, sub_, i):
                q2 = setp(q, j, x) if isinstance(j, int) else setlist(q, j[0], j[1], x)
                if r[0] == 'err':
                    out.append((s2, r, q2))
                else:
                    nxt.append((s2, q2, r[1], vals + (r[2],)))
        cur = nxt
    return out + [(s, ('ok', i, vals), q) for s, q, i, vals in cur]


def fixed(n, pick):
    def f(E, st, p, ps):
        return [(s, r if r[0] == 'err' else ('ok', r[1], pick(r[2])), q) for s, r, q in seqrun(E, st, p, ps, list(range(n)))]
    return f


COMB['preceded'] = fixed(2, lambda v: v[1])
COMB['terminated'] = fixed(2, lambda v: v[0])
COMB['delimited'] = fixed(3, lambda v: v[1])
COMB['pair'] = fixed(2, lambda v: tup(*v))
COMB['and'] = fixed(2, lambda v: tup(*v))
COMB['separated_pair'] = fixed(3, lambda v: tup(v[0], v[2]))


@comb('or')
def c_or(E, st, p, ps):
    def f(s, r, x):
        q = setp(p, 0, x)
        if r[0] == 'err' and r[1] == 1:
            return [(s2, r2, setp(q, 1, y)) for s2, r2, y in prun(E, s, p.a[1][1], ps)]
        return [(s, r, q)]
    return chain(prun(E, st, p.a[1][0], ps), f)


@comb('map')
def c_map(E, st, p, ps):
    def f(s, r, x):
        q = setp(p, 0, x)
        if r[0] == 'err':
            return [(s, r, q)]
        return [(s2, ('ok', r[1], v), setp(q, 1, g)) for s2, v, g in E.callm(s, p.a[1][1], [r[2]])]
    return chain(prun(E, st, p.a[1][0], ps), f)


@comb('map_opt', 'map_res')
def c_map_opt(E, st, p, ps):
    good = 1 if p.a[0] == 'map_opt' else 0

    def f(s, r, x):
        q = setp(p, 0, x)
        if r[0] == 'err':
            return [(s, r, q)]
        out = []
        for s2, v, g in E.callm(s, p.a[1][1], [r[2]]):
            for s3, k in E.cases(s2, v):
                out.append((s3, ('ok', r[1], E.field(v, k, 0)) if k == good else ERR, setp(q, 1, g)))
        return out
    return chain(prun(E, st, p.a[1][0], ps), f)


@comb('flat_map')
def c_flat_map(E, st, p, ps):
    def f(s, r, x):
        if r[0] == 'err':
            return [(s, r, p)]
        out = []
        for s2, v, g in E.callm(s, p.a[1][1], [r[2]]):
            out += [(s3, r3, p) for s3, r3, _ in prun(E, s2, v, r[1])]
        return out
    return chain(prun(E, st, p.a[1][0], ps), f)


@comb('map_parser', 'and_then')
def c_map_parser(E, st, p, ps):
    def f(s, r, x):
        if r[0] == 'err':
            return [(s, r, p)]
        out = []
        for s2, r2, _ in prun(E, s, p.a[1][1], ps_of(E, s, r[2])):
            out.append((s2, r2 if r2[0] == 'err' else ('ok', r[1], r2[2]), p))
        return out
    return chain(prun(E, st, p.a[1][0], ps), f)


@comb('opt')
def c_opt(E, st, p, ps):
    def f(s, r, x):
        q = setp(p, 0, x)
        if r[0] == 'ok':
            return [(s, ('ok', r[1], some(r[2])), q)]
        return [(s, ('ok', ps, NONE) if r[1] == 1 else r, q)]
    return chain(prun(E, st, p.a[1][0], ps), f)


@comb('peek')
def c_peek(E, st, p, ps):
    return [(s, ('ok', ps, r[2]) if r[0] == 'ok' else r, setp(p, 0, x)) for s, r, x in prun(E, st, p.a[1][0], ps)]


@comb('not')
def c_not(E, st, p, ps):
    return [(s, ERR if r[0] == 'ok' else ('ok', ps, UNIT) if r[1] == 1 else r, setp(p, 0, x)) for s, r, x in prun(E, st, p.a[1][0], ps)]


@comb('cut')
def c_cut(E, st, p, ps):
    return [(s, r if r[0] == 'ok' else FAILURE, setp(p, 0, x)) for s, r, x in prun(E, st, p.a[1][0], ps)]


@comb('value')
def c_value(E, st, p, ps):
    return [(s, ('ok', r[1], p.a[1][0]) if r[0] == 'ok' else r, setp(p, 1, x)) for s, r, x in prun(E, st, p.a[1][1], ps)]


@comb('verify')
def c_verify(E, st, p, ps):
    def f(s, r, x):
        q = setp(p, 0, x)
        if r[0] == 'err':
            return [(s, r, q)]
        out = []
        for s2, v, g in E.callm(s, p.a[1][1], [r[2]]):
            for s3, b in E.truth(s2, v):
                out.append((s3, r if b else ERR, setp(q, 1, g)))
        return out
    return chain(prun(E, st, p.a[1][0], ps), f)


@comb('cond')
def c_cond(E, st, p, ps):
    out = []
    for s, b in E.truth(st, p.a[1][0]):
        if not b:
            out.append((s, ('ok', ps, NONE), p))
        else:
            out += [(s2, ('ok', r[1], some(r[2])) if r[0] == 'ok' else r, p) for s2, r, _ in prun(E, s, p.a[1][1], ps)]
    return out


@comb('recognize')
def c_recognize(E, st, p, ps):
    return [(s, ('ok', r[1], recognized(E, s, ps, r[1])) if r[0] == 'ok' else r, setp(p, 0, x)) for s, r, x in prun(E, st, p.a[1][0], ps)]


@comb('consumed')
def c_consumed(E, st, p, ps):
    return [(s, ('ok', r[1], tup(recognized(E, s, ps, r[1]), r[2])) if r[0] == 'ok' else r, setp(p, 0, x)) for s, r, x in prun(E, st, p.a[1][0], ps)]


@comb('all_consuming')
def c_all(E, st, p, ps):
    out = []
    for s, r, x in prun(E, st, p.a[1][0], ps):
        q = setp(p, 0, x)
        if r[0] == 'err':
            out.append((s, r, q))
        else:
            for s2, e in empty(E, s, r[1]):
                out.append((s2, r if e else ERR, q))
    return out


def empty(E, st, ps):
    if not ps:
        return [(st, True)]
    if isany(ps):
        return [(st, True), (st, False)]
    if any(isinstance(p, str) or p.k in HOLES for p in ps):
        return [(st, False)]
    return [(s, h is None) for s, h, _ in heads(E, st, ps)]


@comb('context')
def c_context(E, st, p, ps):
    return [(s, r, setp(p, 1, x)) for s, r, x in prun(E, st, p.a[1][1], ps)]


@comb('success')
def c_success(E, st, p, ps):
    return [(st, ('ok', ps, p.a[1][0]), p)]


@comb('into')
def c_into(E, st, p, ps):
    return [(s, r, setp(p, 0, x)) for s, r, x in prun(E, st, p.a[1][0], ps)]


@comb('fail')
def c_fail(E, st, p, ps):
    return [(st, ERR, p)]


@comb('tag')
def c_tag(E, st, p, ps):
    t = E.deref(st, p.a[1][0])
    if not is_const(t):
        raise Imprecise('keyword ' + show(t))
    return [(s, ('ok', r, t) if r is not None else ERR, p) for s, r in tag(E, st, ps, cstr(t))]


@comb('tag_no_case')
def c_tagnc(E, st, p, ps):
    raise Imprecise('tag_no_case')


@comb('char')
def c_char(E, st, p, ps):
    c = p.a[1][0]
    if c.k != 'char':
        raise Imprecise('character parser')
    return [(s, ('ok', r[1], c) if r is not None else ERR, p) for s, r in one(E, st, ps, frozenset([c.a[0]]))]


def atoms_of(E, st, v):
    """The characters of a list given to one_of and the like."""
    v = E.deref(st, v)
    if v.k == 'str' and is_const(v):
        return frozenset(cstr(v))
    if v.k == 'seq':
        return frozenset(x.a[0] for x in v.a[0])
    if v.k == 'char':
        return frozenset([v.a[0]])
    raise Imprecise('character list ' + show(v))


@comb('satisfy')
def c_satisfy(E, st, p, ps):
    at = predset(E, st, p.a[1][0])
    return [(s, ('ok', r[1], r[0]) if r is not None else ERR, p) for s, r in one(E, st, ps, at)]


@comb('one_of', 'none_of')
def c_one_of(E, st, p, ps):
    at = atoms_of(E, st, p.a[1][0])
    if p.a[0] == 'none_of':
        at = ATOMS - at
    return [(s, ('ok', r[1], r[0]) if r is not None else ERR, p) for s, r in one(E, st, ps, at)]


def tw(atoms, at_least):
    def f(E, st, p, ps):
        at = atoms(E, st, p)
        out = []
        if isany(ps) and at_least:
            w = anysym(E, 'word', ps[0], hash_atoms(at))
            return [(st, ERR, p), (E.narrow(st, app('strlen', w), 1, None), ('ok', after(ps[0], 'word'), text([w])), p)]
        for s, got, rest in takewhile(E, st, ps, at):
            if at_least and not got:
                out.append((s, ERR, p))
            elif at_least and all(isinstance(x, T) and x.k == 'app' and x.a[0] == 'rep' for x in got):
                for s2, z in E.truth(s, E.rng(lin_sum([(1, x.a[1][1]) for x in got]), None, 0)):
                    out.append((s2, ERR if z else ('ok', rest, text(got)), p))
            else:
                out.append((s, ('ok', rest, text(got)), p))
        return out
    return f


COMB['take_while'] = tw(lambda E, st, p: predset(E, st, p.a[1][0]), 0)
COMB['take_while1'] = tw(lambda E, st, p: predset(E, st, p.a[1][0]), 1)
COMB['take_till'] = tw(lambda E, st, p: ATOMS - predset(E, st, p.a[1][0]), 0)
COMB['take_till1'] = tw(lambda E, st, p: ATOMS - predset(E, st, p.a[1][0]), 1)
COMB['is_a'] = tw(lambda E, st, p: atoms_of(E, st, p.a[1][0]), 1)
COMB['is_not'] = tw(lambda E, st, p: ATOMS - atoms_of(E, st, p.a[1][0]), 1)
CLS = {
    'space': frozenset(' \t'), 'multispace': frozenset(' \t\r\n'), 'digit': DIGITS,
    'alpha': frozenset(c for c in ATOMS if c < '\x80' and c.isalpha()),
    'alphanumeric': frozenset(c for c in ATOMS if c < '\x80' and c.isalnum()),
    'hex_digit': frozenset('0123456789abcdefABCDEF'), 'oct_digit': frozenset('01234567'),
}
DIRECT = {}
for _n, _s in CLS.items():
    for _k in (0, 1):
        DIRECT['%s%d' % (_n, _k)] = tw(lambda E, st, p, _s=_s: _s, _k)
DIRECT['not_line_ending'] = tw(lambda E, st, p: ATOMS - frozenset('\r\n'), 0)


def direct(name):
    def reg(fn):
        DIRECT[name] = fn
        return fn
    return reg


@direct('anychar')
def d_anychar(E, st, p, ps):
    return [(s, ('ok', r[1], r[0]) if r is not None else ERR, p) for s, r in one(E, st, ps, ATOMS)]


@direct('newline')
def d_newline(E, st, p, ps):
    return [(s, ('ok', r[1], r[0]) if r is not None else ERR, p) for s, r in one(E, st, ps, frozenset('\n'))]


@direct('tab')
def d_tab(E, st, p, ps):
    return [(s, ('ok', r[1], r[0]) if r is not None else ERR, p) for s, r in one(E, st, ps, frozenset('\t'))]


@direct('line_ending')
def d_le(E, st, p, ps):
    out = []
    for s, r in tag(E, st, ps, '\n'):
        if r is not None:
            out.append((s, ('ok', r, text(['\n'])), p))
        else:
            for s2, r2 in tag(E, s, ps, '\r\n'):
                out.append((s2, ('ok', r2, text(['\r\n'])) if r2 is not None else ERR, p))
    return out


@direct('eof')
def d_eof(E, st, p, ps):
    return [(s, ('ok', ps, text([])) if e else ERR, p) for s, e in empty(E, st, ps)]


@direct('rest')
def d_rest(E, st, p, ps):
    return [(st, ('ok', (), text(ps)), p)]


# ---- repetitions

ROUNDS = 60


def whole(E, st, p, ps):
    h = ps[0] if ps else None
    if not (isinstance(h, T) and h.k == 'app' and h.a[0] == 'esc'):
        return None
    notes, panics, inw = list(E.notes), list(E.panics), E.inwhole
    E.notes, E.inwhole = [], True
    try:
        return whole1(E, st, p, ps)
    except Imprecise:
        return None
    finally:
        E.notes, E.panics, E.inwhole = notes, panics, inw


def whole1(E, st, p, ps):
    """Read a quoted text character by character in one step: every class of character must be read as itself.
    (state, parser, rest) or None."""
    h = ps[0]
    sv, classes = h.a[1]
    more = mk('app', 'escmore', (sv, classes))
    st2 = st
    for at, d in classes:
        c = mk('sym', 'any@%d' % h.id, ty=E.F.named('char'))
        s = E.setatoms(st, c, at)
        if len(at) == 1 and next(iter(at)) < '\x80':
            c = char(next(iter(at)))
        ps2 = tuple(norm_d(d, c)) + (more,) + ps[1:]
        outs = prun(E, s, p, ps2)
        if not outs:
            return None
        for s2, r, q in outs:
            if E.notes or r[0] == 'err' or r[1] != ps2[len(ps2) - len(ps):] or q is not p:
                return None
            if s2.store is not s.store and s2.store != s.store:
                return None
            eqs = E.eq(s2, r[2], c) if r[2].k == 'char' or is_sym(r[2]) else [(s2, False)]
            if any(not b for _, b in eqs):
                return None
    if E.notes:
        return None
    return st2, p, ps[1:], mk('charsof', sv)


def single(E, st, ps):
    """The quoted text ends after its first character."""
    sv, classes = ps[0].a[1]
    e = mk('app', 'esc', (sv, classes))
    c = mk('sym', 'next@%d' % e.id, ty=E.F.named('char'))
    at = E.atoms(st, c)
    st = E.narrow(st, app('strlen', sv), 1, None)
    if st is None:
        return None, None
    return st.fact(('short', sv), char(next(iter(at))) if len(at) == 1 else c), ps[1:]


def anyrepeat(E, st, p, ps, k, fold, acc0, at_least, vecty=None):
    """Repetition over unknown text: a first round, and a further one which stands for all others."""
    out = []
    work = [(st, p, ps, acc0, 0)]
    start = ps[0]
    while work:
        s, q, i, acc, cnt = work.pop()
        for s2, r, x in prun(E, s, q.a[1][k], i):
            q2 = setp(q, k, x)
            if r[0] == 'err':
                if r[1] != 1:
                    out.append((s2, r, q2))
                elif cnt < at_least:
                    out.append((s2, ERR, q2))
                elif cnt == 0:
                    out.append((s2, ('ok', i, acc), q2))
            elif not progress(i, r[1]):
                E.noprogress(s2, q.a[0])
                out.append((s2, ERR, q2))
            else:
                E.produce(s2, r[2])
                for s3, q3, acc3 in fold(s2, q2, acc, r[2]):
                    if acc3.__class__ is tuple:
                        g = sym('items#%d.%d' % (start.id, p.id), vecty) if vecty is not None else None
                    else:
                        E.produce(s3, acc3)
                        g = acc3
                        if acc3 is not UNIT and acc3 is not acc0 and acc3.k != 'int' and cnt == 0:
                            g = generic(E, p, acc3, start)
                        elif acc3.k in ('int', 'lin'):
                            g = mk('sym', 'count#%d.%d' % (start.id, p.id), ty=E.F.named('usize'))
                    out.append((s3, ('ok', r[1], acc3 if cnt or g is None else g), q3))
                    if cnt == 0:
                        nxt = acc3 if acc3.__class__ is tuple else g
                        work.append((s3, q3, r[1], nxt, cnt + 1))
    return out


def generic(E, p, acc, start):
    """Any accumulator of a fold."""
    f = p.a[1][2]
    if f.k == 'clo':
        B = E.prep(f.a[0])
        if B.argc == 3:
            return mk('sym', 'acc#%d.%d' % (start.id, p.id), ty=E.F.strip(B.locals[2]))
    return acc


def vecof(E, p):
    """The type of a vector of what a parser yields."""
    a = p.a[2] if len(p.a) > 2 else ()
    if len(a) < 2:
        return None
    o = E.F.strip(a[1])
    for i, t in enumerate(E.F.types):
        if t['k'] == 'adt' and t['path'].endswith('vec::Vec') and t['args'] and E.F.strip(t['args'][0]) == o:
            return i
    return None


def repeat(E, st, p, ps, k, fold, acc0, at_least, sep=None):
    """Repeat argument k of p.  fold(state, parser, acc, value) -> [(state, parser, acc)]"""
    if isany(ps) and not E.unroll:
        return anyrepeat(E, st, p, ps, k, fold, acc0, at_least, vecof(E, p) if acc0 == () else None)
    out = []
    work = [(st, p, ps, acc0, 0)]
    n = 0
    while work:
        s, q, i, acc, cnt = work.pop()
        n += 1
        if E.inwhole and i and isinstance(i[0], T) and i[0].k == 'app' and i[0].a[0] == 'escmore':
            raise Imprecise('repetition while reading a single character')
        if i and isinstance(i[0], T) and i[0].k == 'app' and i[0].a[0] == 'escmore':
            # the text is not read uniformly: go on with a text of this one character
            s, i = single(E, s, i)
            if s is None:
                continue
        if E.unroll and cnt >= E.unroll and isany(i):
            out.append((s, ('ok', i, acc), q))
            continue
        if cnt > ROUNDS or n > 20000:
            raise Imprecise("repetition not bounded by the domain")
        w = whole(E, s, q.a[1][k], i)
        if w is not None:
            s2, _, i2, v = w
            for s3, q3, acc3 in fold(s2, q, acc, v):
                work.append((s3, q3, i2, acc3, cnt + 1))
            continue
        for s2, r, x in prun(E, s, q.a[1][k], i):
            q2 = setp(q, k, x)
            if r[0] == 'err':
                if r[1] != 1:
                    out.append((s2, r, q2))
                elif cnt < at_least:
                    out.append((s2, ERR, q2))
                else:
                    out.append((s2, ('ok', i, acc), q2))
            elif r[1] == i:
                E.noprogress(s2, q.a[0])
                out.append((s2, ERR, q2))
            else:
                for s3, q3, acc3 in fold(s2, q2, acc, r[2]):
                    work.append((s3, q3, r[1], acc3, cnt + 1))
    return out


def collectv(s, q, acc, v):
    return [(s, q, acc + (v,))]


@comb('many0', 'many1')
def c_many(E, st, p, ps):
    return [(s, r if r[0] == 'err' else ('ok', r[1], seq(r[2]) if r[2].__class__ is tuple else r[2]), q)
            for s, r, q in repeat(E, st, p, ps, 0, collectv, (), 1 if p.a[0] == 'many1' else 0)]


@comb('many0_count', 'many1_count')
def c_count(E, st, p, ps):
    at_least = 1 if p.a[0] == 'many1_count' else 0
    f = p.a[1][0]
    if f.k == 'nomp' and f.a[0] == 'char' and f.a[1][0].k == 'char':
        out = []
        c = f.a[1][0].a[0]
        for s, got, rest in takewhile(E, st, ps, frozenset([c])):
            n = I(0)
            if isany(ps) and got:
                n = E.length(got[0])
                got = ()
            for x in got:
                n = add(n, I(len(x)) if isinstance(x, str) else x.a[1][1])
            for s2, few in E.truth(s, E.rng(n, None, at_least - 1)):
                out.append((s2, ERR if few else ('ok', rest, n), p))
        return out
    return [(s, r if r[0] == 'err' else ('ok', r[1], r[2]), q)
            for s, r, q in repeat(E, st, p, ps, 0, lambda s, q, a, v: [(s, q, add(a, I(1)))], I(0), at_least)]


@comb('fold_many0', 'fold_many1')
def c_fold(E, st, p, ps):
    out = []
    for s, a0, g in E.callm(st, p.a[1][1], []):
        def fold(s2, q, acc, v):
            return [(s3, setp(q, 2, h), w) for s3, w, h in E.callm(s2, q.a[1][2], [acc, v])]
        out += repeat(E, s, setp(p, 1, g), ps, 0, fold, a0, 1 if p.a[0] == 'fold_many1' else 0)
    return out


@comb('separated_list0', 'separated_list1')
def c_sep(E, st, p, ps):
    at_least = 1 if p.a[0] == 'separated_list1' else 0
    out = []
    work = []
    for s, r, x in prun(E, st, p.a[1][1], ps):
        q = setp(p, 1, x)
        if r[0] == 'err':
            out.append((s, ('ok', ps, seq(())) if r[1] == 1 and not at_least else r, q))
        else:
            work.append((s, q, r[1], (r[2],)))
    while work:
        s, q, i, acc = work.pop()
        if len(acc) > ROUNDS:
            raise Imprecise("repetition not bounded by the domain")
        if isany(i) and len(acc) > 2:
            vt = vecof(E, p)
            out.append((s, ('ok', i, sym('items#%d.%d' % (ps[0].id, p.id), vt) if vt is not None else seq(acc)), q))
            continue
        E.produce(s, acc[-1])
        for s2, r, x in prun(E, s, q.a[1][0], i):
            q2 = setp(q, 0, x)
            if r[0] == 'err':
                out.append((s2, ('ok', i, seq(acc)) if r[1] == 1 else r, q2))
                continue
            for s3, r3, y in prun(E, s2, q2.a[1][1], r[1]):
                q3 = setp(q2, 1, y)
                if r3[0] == 'err':
                    out.append((s3, ('ok', i, seq(acc)) if r3[1] == 1 else r3, q3))
                elif not progress(i, r3[1]):
                    E.noprogress(s3, p.a[0])
                    out.append((s3, ERR, q3))
                else:
                    work.append((s3, q3, r3[1], acc + (r3[2],)))
    return out


@comb('many_till')
def c_many_till(E, st, p, ps):
    out = []
    work = [(st, p, ps, ())]
    while work:
        s, q, i, acc = work.pop()
        if len(acc) > ROUNDS:
            raise Imprecise("repetition not bounded by the domain")
        if isany(i) and len(acc) > 2:
            continue
        for s2, r, x in prun(E, s, q.a[1][1], i):
            q2 = setp(q, 1, x)
            if r[0] == 'ok':
                out.append((s2, ('ok', r[1], tup(seq(acc), r[2])), q2))
                continue
            for s3, r3, y in prun(E, s2, q2.a[1][0], i):
                if r3[0] == 'err':
                    out.append((s3, r3, q2))
                elif not progress(i, r3[1]):
                    E.noprogress(s3, p.a[0])
                    out.append((s3, ERR, q2))
                else:
                    work.append((s3, setp(q2, 0, y), r3[1], acc + (r3[2],)))
    return out


@comb('count')
def c_countn(E, st, p, ps):
    n = p.a[1][1]
    if n.k != 'int':
        raise Imprecise('count')
    cur, out = [(st, p, ps, ())], []
    for _ in range(n.a[0]):
        nxt = []
        for s, q, i, acc in cur:
            for s2, r, x in prun(E, s, q.a[1][0], i):
                q2 = setp(q, 0, x)
                if r[0] == 'err':
                    out.append((s2, r, q2))
                else:
                    nxt.append((s2, q2, r[1], acc + (r[2],)))
        cur = nxt
    return out + [(s, ('ok', i, seq(acc)), q) for s, q, i, acc in cur]


# ---- iterators over parsers: it('nomiter', input pieces, parser, status)

def nomiter_next(E, st, i):
    _, ps, p, status = i.a
    ps = ps.a[0]
    if not isinstance(status, str) and status[0] == 'go':
        # unknown text: some items
        out = []
        for s, r, q in prun(E, st, p, ps):
            if r[0] == 'ok':
                if not progress(ps, r[1]):
                    E.noprogress(s, 'iterator')
                    continue
                E.produce(s, r[2])
                if status[1] < E.max_elems:
                    out.append((s, mk('it', 'nomiter', mk('input', r[1]), q, ('go', status[1] + 1)), some(r[2])))
            else:
                out.append((s, mk('it', 'nomiter', mk('input', ps), q, 'done' if r[1] == 1 else 'fail'), NONE))
        return out
    if status != 'go':
        return [(st, i, NONE)]
    if ps and isinstance(ps[0], T) and ps[0].k == 'app' and ps[0].a[0] == 'escmore':
        if E.inwhole:
            raise Imprecise('repetition while reading a single character')
        # the text is not read uniformly: go on with a text of this one character
        st, ps = single(E, st, ps)
        if st is None:
            return []
    w = whole(E, st, p, ps)
    if w is not None:
        return [(w[0], mk('it', 'nomiter', mk('input', w[2]), p, 'go'), some(w[3]))]
    out = []
    for s, r, q in prun(E, st, p, ps):
        if r[0] == 'ok':
            if r[1] == ps:
                E.noprogress(s, 'iterator')
                raise Imprecise('iteration without progress')
            out.append((s, mk('it', 'nomiter', mk('input', r[1]), q, 'go'), some(r[2])))
        else:
            out.append((s, mk('it', 'nomiter', mk('input', ps), q, 'done' if r[1] == 1 else 'fail'), NONE))
    return out


def mkparser(name, n):
    def f(E, st, a, c):
        if 'streaming' in (c.f.get('path') or ''):
            raise Imprecise('streaming parser')
        return [(st, mk('nomp', name, tuple(a[:n]), tuple(c.f.get('args') or ())))]
    return f


for _n, _k in dict(alt=1, tuple=1, map=2, map_opt=2, map_res=2, flat_map=2, map_parser=2, preceded=2, terminated=2, delimited=3, pair=2,
                   separated_pair=3, opt=1, peek=1, cut=1, value=2, verify=2, recognize=1, consumed=1, context=2, success=1,
                   cond=2, all_consuming=1, many0=1, many1=1, many0_count=1, many1_count=1, fold_many0=3, fold_many1=3,
                   separated_list0=2, separated_list1=2, many_till=2, count=2, tag=1, char=1, satisfy=1, one_of=1, none_of=1,
                   take_while=1, take_while1=1, take_till=1, take_till1=1, is_a=1, is_not=1, into=1, tag_no_case=1).items():
    N['nom::' + _n] = mkparser(_n, _k)
N['nom::not'] = mkparser('not', 1)
for _n in ('map', 'and_then', 'or', 'and', 'flat_map', 'into'):
    N['Parser::' + _n] = mkparser(_n, 2)


def mkdirect(name):
    def f(E, st, a, c):
        return [(s, result(r)) for s, r, _ in DIRECT[name](E, st, None, ps_of(E, st, a[0]))]
    return f


for _n in DIRECT:
    N['nom::' + _n] = mkdirect(_n)
N['nom::fail'] = lambda E, st, a, c: [(st, canon_err(ERR))]


@nat('Parser::parse')
def n_parse(E, st, a, c):
    p = a[0]
    v = E.deref(st, p)
    if v.k == 'adt':
        return None
    return [(s, result(r)) for s, r, _ in prun(E, st, p, ps_of(E, st, a[1]))]


@nat('nom::iterator')
def n_iterator(E, st, a, c):
    ps = ps_of(E, st, a[0])
    return [(st, mk('it', 'nomiter', mk('input', ps), a[1], ('go', 0) if isany(ps) else 'go'))]


@nat('ParserIterator::finish')
def n_finish(E, st, a, c):
    i = E.deref(st, a[0])
    if i.k != 'it' or i.a[0] != 'nomiter':
        raise Imprecise('finish of ' + show(i))
    _, ps, p, status = i.a
    if status == 'fail':
        return [(st, canon_err(FAILURE))]
    return [(st, ok(tup(ps, UNIT)))]


@nat('ParseError::from_error_kind', 'ParseError::from_char', 'ParseError::append', 'ParseError::or', 'ContextError::add_context',
     'FromExternalError::from_external_error', 'error::make_error', 'nom::make_error')
def n_perr(E, st, a, c):
    return [(st, OPAQUE_ERR)]


@nat('nom::convert_error')
def n_conv(E, st, a, c):
    return [(st, mk('sym', 'error text', ty=c.ty))]


@nat('Finish::finish')
def n_fin(E, st, a, c):
    out = []
    v = a[0]
    for s, k in E.cases(st, v):
        out.append((s, v if k == 0 else err(OPAQUE_ERR)))
    return out


@nat('Err::map', 'Err::convert')
def n_errmap(E, st, a, c):
    return [(st, a[0])]


# ---------------------------------------------------------------- numbers

def unknown_text(E, v):
    """Whether a text stems from an input nothing is known about."""
    return E.anymode and (v.k == 'input' or v.k == 'str' and not any(isinstance(p, T) and p.k == 'app' for p in v.a[0]) and not
                          (len(v.a[0]) == 1 and isinstance(v.a[0][0], str)) or is_sym(v))


def number_of(E, st, v):
    """The number an abstract text denotes: ('int', term) | ('float', term) | None (not a number), or raises."""
    ps = openints(E, st, v.a[0] if v.k == 'str' else (v,))
    sign = 1
    if ps and isinstance(ps[0], str) and ps[0][0] in '+-':
        sign = -1 if ps[0][0] == '-' else 1
        ps = ((ps[0][1:],) if len(ps[0]) > 1 else ()) + ps[1:]
    if not ps:
        return None
    if len(ps) == 1:
        p = ps[0]
        if isinstance(p, str):
            if p.isdigit() and p.isascii():
                return ('int', I(sign * int(p)), sign)
            return None
        if p.k == 'app' and p.a[0] == 'digits':
            return ('int', lin_sum([(sign, p.a[1][0])]), sign)
    if len(ps) == 3 and ps[1] == '.' and all(isinstance(x, T) and x.k == 'app' and x.a[0] == 'fdig' for x in (ps[0], ps[2])):
        f = ps[0].a[1][0]
        if ps[2].a[1][0] is f and ps[0].a[1][1].a[0] == 0 and ps[2].a[1][1].a[0] == 1:
            neg = st.cons.get(('b', app('fneg', f)))
            if neg is (sign == -1):
                return ('float', f, sign)
    raise Imprecise('number ' + show(v))


@nat('str::parse', 'FromStr::from_str')
def n_strparse(E, st, a, c):
    v = E.deref(st, a[0])
    unk = unknown_text(E, v)
    if v.k == 'input':
        v = text(v.a[0])
    F = E.F
    t = None
    if c.f and c.f.get('args'):
        t = c.f['args'][0]
    elif c.ty is not None and F.types[F.strip(c.ty)].get('args'):
        t = F.types[F.strip(c.ty)]['args'][0]
    if t is None:
        raise Imprecise('type of a parsed number')
    e = err(mk('sym', 'number error', None))
    if unk:
        return [(st, e), (st, ok(mk('sym', 'number#%d.%d' % (v.id, F.strip(t)), ty=F.strip(t))))]
    r = number_of(E, st, v)
    if r is None:
        return [(st, e)]
    k = F.types[F.strip(t)]['k']
    if k in ('param', 'alias'):
        return [(st, ok(r[1]))] if r[0] == 'int' or True else []
    if k == 'float':
        if r[0] == 'float':
            return [(st, ok(r[1]))]
        return [(st, ok(app('tofloat', r[1])))]
    if r[0] == 'float':
        return [(st, e)]
    p = F.path(t)
    rg = F.intrange(t)
    if rg is None and p and short(p) == 'BigUint':
        rg = (0, None)
    if r[2] == -1 and rg is not None and rg[0] == 0:
        # a minus sign is never accepted by unsigned types
        if p and short(p) == 'BigUint':
            return [(st, e)]
        return [(st, e)]
    if rg is None:
        return [(st, ok(r[1]))]
    out = []
    for s, b in E.truth(st, E.rng(r[1], rg[0], rg[1])):
        out.append((s, ok(r[1]) if b else e))
    return out


@nat('Num::from_str_radix', 'num::from_str_radix')
def n_radix(E, st, a, c):
    v = E.deref(st, a[0])
    if v.k == 'input':
        v = text(v.a[0])
    return [(s, w) for s, w in E.radix(st, v, a[1], c)]


def radix_number(E, st, v, r, c):
    """What from_str_radix makes of a text of digits in a known base."""
    t = None
    if c.f and c.f.get('args'):
        t = c.f['args'][0]
    elif c.ty is not None and E.F.types[E.F.strip(c.ty)].get('args'):
        t = E.F.types[E.F.strip(c.ty)]['args'][0]
    if t is None or r.k != 'int':
        raise Imprecise('radix')
    rg = E.F.intrange(t)
    if rg is None and short(E.F.path(t) or '') == 'BigUint':
        rg = (0, None)
    e = err(mk('sym', 'number error', None))
    if unknown_text(E, v):
        return [(st, e), (st, ok(mk('sym', 'number#%d.%d' % (v.id, E.F.strip(t)), ty=E.F.strip(t))))]
    ps = v.a[0] if v.k == 'str' else (v,)
    sign, base = 1, r.a[0]
    if ps and isinstance(ps[0], str) and ps[0][:1] in ('+', '-'):
        sign = -1 if ps[0][0] == '-' else 1
        ps = ((ps[0][1:],) if len(ps[0]) > 1 else ()) + ps[1:]
    if not ps or sign < 0 and rg is not None and rg[0] == 0:
        return [(st, e)]
    if len(ps) != 1:
        raise Imprecise('number ' + show(v))
    p = ps[0]
    if isinstance(p, str):
        q = p.replace('_', '') if not p.startswith('_') else p
        try:
            if not q.isascii() or not q.isalnum():
                return [(st, e)]
            n = I(sign * int(q, base))
        except ValueError:
            return [(st, e)]
    elif p.k == 'app' and p.a[0] in ('rdig', 'digits'):
        own = p.a[1][1].a[0] if p.a[0] == 'rdig' else 10
        n = p.a[1][0]
        if own > base:
            # digits the base does not have may occur
            out = []
            for s, b in E.truth(st, app('fits', p, I(base))):
                out += [(s, e)] if not b else [(s, ok(app('misread', n, I(own), I(base), I(sign))))]
            return out
        if own != base:
            n = app('misread', n, I(own), I(base), I(sign))
        else:
            n = lin_sum([(sign, n)])
    else:
        raise Imprecise('number ' + show(v))
    if rg is None:
        return [(st, ok(n))]
    return [(s, ok(n) if b else e) for s, b in E.truth(st, E.rng(n, rg[0], rg[1]))]


@nat('Bounded::max_value')
def n_bmax(E, st, a, c):
    return None


# ---------------------------------------------------------------- strings as inputs

def input_empty(E, st, v):
    return [(s, Bo(e)) for s, e in empty(E, st, v.a[0])]


def input_strip(E, st, v, w):
    if w.k == 'char':
        w = text([w])
    if not is_const(w):
        raise Imprecise('strip_prefix')
    return [(s, some(mk('input', r)) if r is not None else NONE) for s, r in tag(E, st, v.a[0], cstr(w))]


def install(E):
    E.natives.update(N)
    E.memo = {}
    E.hole_rule = None
    E.inwhole = False
    E.noprogress = lambda st, what: None
    E.produce = lambda st, v: None
    E.anymode = False
    E.strty = lambda: next(i for i, t in enumerate(E.F.types) if t['k'] == 'str')
    E.input_empty = lambda st, v: input_empty(E, st, v)
    E.input_strip = lambda st, v, w: input_strip(E, st, v, w)
    E.nomiter_next = lambda st, i: nomiter_next(E, st, i)
    E.runparser = lambda st, f, args, cx: [(s, result(r)) for s, r, _ in prun(E, st, f, ps_of(E, st, args[0]))]
    E.streq = lambda st, a, b: streq(E, st, a, b)
    E.radix = lambda st, v, r, c: radix_number(E, st, v, r, c)
    E.openhole = lambda st, p: (_ for _ in ()).throw(Imprecise('reading a nested node'))
    E.strclass = lambda st, p: None
    return E
