"""Number literals (C26)."""
from core import *
from engine import Imprecise, EMPTY
from terms import *
from terms import I as I_
import rules_round
from nomlib import ps_of, REST
from rules_round import norm, tshow


def c26(C):
    R = Report('C26')
    r = rules_round.Rounds(C, R)
    E, F = r.E, C.F
    reader = C.fn('expr::parsers::expr')
    ubits = F.intrange(C.F.variants(C.adt('Expression'))[C.variant('Expression', 'UIntLiteral')]['fields'][C.fieldidx('Expression', 'width', C.variant('Expression', 'UIntLiteral'))][1])
    n = sym('value', F.named('num_bigint::BigUint') if any(t.get('s') == 'num_bigint::BigUint' for t in F.types) else None)
    w = sym('width', F.named('u16'))
    r.current = None

    ref = C.variant('Expression', 'Reference')

    def plain(E, s, v):
        return v.k == 'adt' and v.a[1] == ref

    def go(group, what, ps, expected, st=EMPTY, rest=()):
        """expected(E, s): [(state, None if it must be rejected, else (variant, value, width))]"""
        E.notes, E.panics, E.steps = [], [], 0
        name = '%s: %s' % (where(reader), what)
        full = []
        for p in tuple(ps) + tuple(rest):
            if isinstance(p, str) and full and isinstance(full[-1], str):
                full[-1] += p
            elif p != '':
                full.append(p)
        try:
            s0, vals, _ = r.args(st, reader, tuple(full))
            outs = E.run(s0, reader['id'], vals)
        except Imprecise as e:
            E.note(str(e))
            outs = []
        R.analysed |= E.analysed
        for p in E.panics[:1]:
            R.bad(group, what + ':panic', '%s `%s`: reading can panic: %s at %s' % (name, tshow(full), p[0], p[1]))
        if E.notes or not outs:
            R.unknown(group, '%s `%s`: %s' % (name, tshow(full), E.notes[:1]))

        def say(kind, s, t):
            if kind == 'same':
                R.ok(group, name)
            elif kind == 'diff' and not any(k[0] in ('short', 'taint') for k in s.cons):
                R.bad(group, what, '%s: `%s` %s [%s]' % (name, tshow(full), t, facts_text(E, s, limit=5)))
            else:
                R.unknown(group, '%s `%s`: %s' % (name, tshow(full), t))
        for s, v in outs:
            try:
                for s1, k in E.cases(s, v):
                    if not k and plain(E, s1, E.deref(s1, E.expose(s1, E.field(v, 0, 0)).a[0][1])):
                        k = True        # read as the name of an entity which happens to be called like the keyword
                    for s2, want in expected(E, s1):
                        if k:
                            say('same' if want is None else 'diff', s2, 'is rejected')
                            continue
                        x = E.expose(s2, E.field(v, 0, 0))
                        if norm(ps_of(E, s2, x.a[0][0])) != norm(rest):
                            say('diff', s2, 'leaves `%s`' % tshow(ps_of(E, s2, x.a[0][0])))
                            continue
                        got = E.deref(s2, x.a[0][1])
                        if want is None:
                            say('diff', s2, 'is accepted as ' + show(got, 5))
                            continue
                        var, val, width = want
                        if got.k != 'adt':
                            say('unknown', s2, show(got, 5))
                            continue
                        if got.a[1] != var:
                            say('diff', s2, 'yields ' + show(got, 5))
                            continue
                        for f, z in (('value', val), ('width', width)):
                            g = got.a[2][C.fieldidx('Expression', f, var)]
                            q = compare(E, s2, g, z)
                            t = 'has the %s %s instead of %s' % (f, show(g, 6), show(z, 6))
                            if q[0] == 'unknown' and 'misread' in show(g, 9):
                                q = ('diff', None)
                            say(q[0], s2, t)
            except Imprecise as e:
                R.unknown(group, '%s `%s`: %s' % (name, tshow(full), e))
    big = E.narrow(EMPTY, n, 16, None)
    some_ = E.narrow(EMPTY, n, 1, None)
    for kw, var in (('UInt', C.variant('Expression', 'UIntLiteral')), ('SInt', C.variant('Expression', 'SIntLiteral'))):
        signed = kw == 'SInt'
        for base, prefix in ((10, None), (2, 'b'), (8, 'o'), (16, 'h')):
            for sg in ('', '+', '-'):
                for explicit in (False, True):
                    num = app('digits', n) if base == 10 else app('rdig', n, I_(base))
                    lit = (sg, num) if base == 10 else ('"' + prefix + sg, num, '"')
                    head = (kw + '<', app('fmtint', w), '>(') if explicit else (kw + '(',)
                    ps = head + lit + (')',)
                    what = '%s with %s width, base %d, sign %r' % (kw, 'a' if explicit else 'no', base, sg)
                    val = lin_sum([(-1, n)]) if sg == '-' else n

                    def expected(E, s, val=val, explicit=explicit, sg=sg):
                        if sg == '-' and not signed:
                            return [(s, None)]
                        if explicit:
                            return [(s, (var, val, w))]
                        b = add(app('bitlen', val), I_(1)) if signed else app('bitlen', val)
                        return [(s2, (var, val, b) if q else None) for s2, q in E.truth(s, E.rng(b, 0, ubits[1]))]
                    for st in (big, E.narrow(some_, n, 1, 15) if sg == '-' else E.narrow(EMPTY, n, 0, 15)):
                        go('literals', what, ps, expected, st)
        # texts which are no literals
        for bad in ('"b12"', '"b2"', '"o8"', '"o19"', '"hg"', '"h1g"', '"b"', '"o"', '"h"', '"b+"', '"h-"', '"d10"', '"x1f"', '"10"', '""', '"b1', 'b1"', '"b--1"', '"b+-1"', '"b 1"', '"B1"', '"H1"'):
            go('other texts', '%s(%s)' % (kw, bad), ('%s(%s)' % (kw, bad),), lambda E, s: [(s, None)])
        for good, v in (('"b101"', 5), ('"o17"', 15), ('"h1F"', 31), ('"hff"', 255), ('"b0"', 0), ('0', 0), ('007', 7), ('"o007"', 7), ('1', 1), ('255', 255), ('256', 256),
                        ('"h1b"', 27), ('"hb1"', 177), ('"b1111111111111111"', 65535), ('"h00"', 0)):
            go('examples', '%s(%s)' % (kw, good), ('%s(%s)' % (kw, good),),
               lambda E, s, v=v: [(s, (var, I_(v), I_(v.bit_length() + (1 if signed else 0))))])
            go('examples', '%s<9>(%s)' % (kw, good), ('%s<9>(%s)' % (kw, good),), lambda E, s, v=v: [(s, (var, I_(v), I_(9)))])
        for good, v in (('-1', -1), ('"b-101"', -5), ('"h-ff"', -255), ('"o-17"', -15), ('+3', 3), ('"h+a"', 10)):
            if signed or v > 0:
                go('examples', '%s(%s)' % (kw, good), ('%s(%s)' % (kw, good),),
                   lambda E, s, v=v: [(s, (var, I_(v), I_(abs(v).bit_length() + (1 if signed else 0))))])
    return R
