"""Indentation (C21)."""
from core import *
from engine import Imprecise, EMPTY, St
from terms import *
from terms import I as I_
import models
import nomlib
import rules_round
from nomlib import REST, ps_of
from rules_round import IND, DEPTH_MAX, norm, tshow


class Ind:
    def __init__(self, C, R):
        self.C, self.R, self.F = C, R, C.F
        self.r = rules_round.Rounds(C, R)
        self.E = self.r.E
        self.usize = C.F.named('usize')

    def mk(self, kind, l):
        return adt(self.r.ipath, self.r.exact if kind == 'Exact' else self.r.more, l)

    def run(self, group, what, body, make, judge):
        """make(): (state, arguments, cell to look at); judge(E, st, value, cell value): None or what is wrong."""
        E, R = self.E, self.R
        E.notes, E.panics, E.steps = [], [], 0
        try:
            st, args, ci = make()
            outs = E.run(st, body['id'], args)
        except Imprecise as e:
            E.note(str(e))
            outs = []
        R.analysed |= E.analysed
        name = '%s: %s' % (where(body), what)
        for p in E.panics[:1]:
            R.bad(group, body['path'] + ':panic', '%s: can panic: %s at %s' % (name, p[0], p[1]))
        if E.notes or not outs:
            R.unknown(group, '%s: %s' % (name, E.notes[:1]))
        for s, v in outs:
            try:
                res = judge(E, s, v, s.store.get(ci) if ci is not None else None)
            except Imprecise as e:
                R.unknown(group, '%s: %s' % (name, e))
                continue
            for k, t in res:
                if k == 'same':
                    R.ok(group, name)
                elif k == 'diff':
                    R.bad(group, '%s:%s' % (body['path'], what), '%s: %s [%s]' % (name, t, facts_text(E, s, limit=5)))
                else:
                    R.unknown(group, '%s: %s' % (name, t))

    def is_(self, E, s, a, b, what):
        r = compare(E, s, a, b)
        return (r[0], what + ': ' + str(r[1]))

    def above(self, E, s, a, l, what):
        """a > l?"""
        out = []
        for s2, b in E.truth(s, E.rng(sub(a, l), 1, None)):
            out.append(('same', None) if b else ('diff', '%s is %s, which need not be deeper than %s' % (what, show(a), show(l))))
        return out

    def level(self, E, s, w, kind, what):
        if w is None or w.k != 'adt':
            raise Imprecise(what)
        want = self.r.exact if kind == 'Exact' else self.r.more
        if w.a[1] != want:
            return [('diff', '%s is not %s' % (what, 'fixed' if kind == 'Exact' else 'open'))]
        return None


def c21(C):
    R = Report('C21')
    I = Ind(C, R)
    E, F, r = I.E, C.F, I.r
    l, n, k = (sym(x, I.usize) for x in ('level', 'spaces', 'steps'))

    def start(kind, *cons, extra=()):
        st = E.narrow(EMPTY, l, 0, DEPTH_MAX)
        for t, lo, hi in cons:
            st = st and E.narrow(st, t, lo, hi)
        st, ci = st.alloc(I.mk(kind, l))
        return st, ci

    def locked(s, v):
        v = E.deref(s, v)
        if v.k == 'adt' and len(v.a[2]) == 1:
            return E.deref(s, v.a[2][0])
        raise Imprecise('locked indentation ' + show(v))

    # ---- the indentation itself
    root = C.fn('Indentation::root')
    zero = I.mk('Exact', I_(0))
    I.run('levels', 'is fixed at no spaces', root, lambda: (EMPTY, [], None), lambda E, s, v, w: [I.is_(E, s, v, zero, 'the root')])
    for it in F.trait_items('Default', 'default'):
        if F.path(it['self']) == r.ipath:
            I.run('levels', 'is fixed at no spaces', C.mono(it['path']), lambda: (EMPTY, [], None), lambda E, s, v, w: [I.is_(E, s, v, zero, 'the default')])
    for fn, args, cons in (('Indentation::lock', (), ()), ('Indentation::lock_with', (k,), ((k, 1, DEPTH_MAX),))):
        body = C.fn(fn)
        for kind in ('Exact', 'MoreThan'):
            def make(kind=kind, args=args, cons=cons):
                st, ci = start(kind, *cons)
                return st, [mk('ptr', ci, ())] + list(args), ci

            def judge(E, s, v, w, kind=kind, args=args):
                x = I.level(E, s, w, 'Exact', 'the indentation afterwards')
                if x:
                    return x
                d = w.a[2][0]
                out = [I.is_(E, s, locked(s, v), d, 'the depth returned')]
                if kind == 'Exact':
                    out.append(I.is_(E, s, d, l, 'the depth of a fixed indentation'))
                elif args:
                    out.append(I.is_(E, s, d, add(l, k), 'the depth'))
                else:
                    out += I.above(E, s, d, l, 'the depth')
                return out
            I.run('levels', 'of %s indentation' % ('a fixed' if kind == 'Exact' else 'an open'), body, make, judge)
    body = C.fn('Indentation::sub')
    for kind in ('Exact', 'MoreThan'):
        def make(kind=kind):
            st, ci = start(kind)
            return st, [mk('ptr', ci, ())], ci

        def judge(E, s, v, w, kind=kind):
            x = I.level(E, s, w, 'Exact', 'the parent afterwards')
            if x:
                return x
            d = w.a[2][0]
            out = [I.is_(E, s, d, l, 'the depth of a fixed parent')] if kind == 'Exact' else I.above(E, s, d, l, 'the depth of the parent')
            out += I.level(E, s, E.deref(s, v), 'MoreThan', 'the nested indentation') or \
                [I.is_(E, s, E.deref(s, v).a[2][0], d, 'the lower bound of the nested indentation')]
            return out
        I.run('levels', 'of %s indentation' % ('a fixed' if kind == 'Exact' else 'an open'), body, make, judge)
    lp = C.path('LockedIndentation')
    fixed = adt(lp, 0, l)
    low = lambda: E.narrow(EMPTY, l, 0, DEPTH_MAX)
    I.run('levels', 'nests', C.fn('LockedIndentation::sub'), lambda: (low(), [fixed], None),
          lambda E, s, v, w: I.level(E, s, E.deref(s, v), 'MoreThan', 'the nested indentation') or [I.is_(E, s, E.deref(s, v).a[2][0], l, 'the lower bound')])
    for it in F.trait_items('From', 'from'):
        if F.types[F.strip(it['self'])].get('s') == 'usize' and it.get('targs') and any(F.path(t) == lp for t in it['targs']):
            I.run('levels', 'is the depth', C.mono(it['path']), lambda: (low(), [fixed], None), lambda E, s, v, w: [I.is_(E, s, v, l, 'the depth')])
    disp = next((C.mono(i['path']) for i in F.trait_items('Display', 'fmt') if F.path(i['self']) == lp), None)
    if disp is None:
        raise Missing('Display of LockedIndentation')

    def wmake():
        st, c = low().alloc(text([]))
        return st, [fixed, mk('ptr', c, ())], c

    def wjudge(E, s, v, w):
        out = []
        for s2, kk in E.cases(s, v):
            ps = tuple(models.pieces(s2.store[wjudge.cell]))
            q = norm(ps)
            want = norm((app('rep', ' ', l),))
            lo, hi = E.bounds(s2, l)
            if kk:
                out.append(('diff', 'fails'))
            elif q == want or hi == 0 and q == () or (lo == hi and q == (' ' * lo,)):
                out.append(('same', None))
            else:
                out.append(('diff' if hi is not None and hi <= 8 or all(isinstance(p, str) or p.k == 'app' and p.a[0] == 'rep' for p in q) else 'unknown', 'writes `%s`' % tshow(q)))
        return out
    st0, _, wjudge.cell = wmake()
    I.run('levels', 'is written as that many spaces', disp, wmake, wjudge)

    # ---- the parsers
    parser = C.fn('Indentation::parser')
    pparse = C.method('Parser', 'parse', 'IndentationParser')
    owner = C.path('OwningParser')
    oparse = C.method('Parser', 'parse', 'OwningParser')
    into = C.fn('Indentation::into_parser')
    c = sym('next', F.named('char'))
    for kind in ('Exact', 'MoreThan'):
        for tail, tname in (((c, REST), 'a line'), ((), 'the end')):
            for own in (False, True):
                def make(kind=kind, tail=tail, own=own):
                    st, ci = start(kind, (n, 0, DEPTH_MAX))
                    if tail:
                        st = E.setatoms(st, c, frozenset(E.charset(st, c) if hasattr(E, 'charset') else nomlib.ATOMS) - {' '})
                    text_ = mk('input', (app('rep', ' ', n),) + tail)
                    if own:
                        (s1, p), = E.run(St({}, st.cons, 0), into['id'], [I.mk(kind, l)])
                        s1, cp = s1.alloc(p)
                        return s1, [mk('ptr', cp, ()), text_], cp
                    (s1, p), = E.run(st, parser['id'], [mk('ptr', ci, ())])
                    s1, cp = s1.alloc(p)
                    return s1, [mk('ptr', cp, ()), text_], ci

                def judge(E, s, v, w, kind=kind, tail=tail, own=own):
                    out = []
                    if own:
                        (s, w), = [(s, x.a[2][0]) for x in [w]]
                    good = (sub(n, l), 0, 0) if kind == 'Exact' else (sub(n, l), 1, None)
                    for s2, kk in E.cases(s, v):
                        for s3, b in E.truth(s2, E.rng(*good)):
                            if kk:
                                if b:
                                    out.append(('diff', 'rejects a line of the right depth'))
                                    continue
                                e = E.expose(s3, E.field(v, 1, 0))
                                if e.k == 'adt' and e.a[1] != 1:
                                    out.append(('diff', 'rejects with a failure which cannot be recovered from'))
                                x = I.level(E, s3, w, kind, 'after a rejected line the indentation')
                                out += x or [I.is_(E, s3, w.a[2][0], l, 'the depth after a rejected line')]
                                continue
                            if not b:
                                out.append(('diff', 'accepts a line of a wrong depth'))
                                continue
                            val = E.expose(s3, E.field(v, 0, 0))
                            rest = ps_of(E, s3, val.a[0][0])
                            if norm(rest) != norm(tail):
                                out.append(('diff', 'leaves `%s`' % tshow(rest)))
                                continue
                            x = I.level(E, s3, w, 'Exact', 'the indentation after a line')
                            out += x or [I.is_(E, s3, w.a[2][0], n, 'the depth after a line')]
                            if own:
                                out.append(I.is_(E, s3, E.deref(s3, val.a[0][1]), I.mk('Exact', n), 'the indentation yielded'))
                    return out
                I.run('parser', 'of %s indentation before %s' % ('a fixed' if kind == 'Exact' else 'an open', tname),
                      oparse if own else pparse, make, judge)
    blocks(C, R, I)
    return R


def within(E, st, t, lo, hi):
    return next(s for s, b in E.truth(st, E.rng(t, lo, hi)) if b)


def atoms_of(t):
    return [x for x, c in lin_parts(t)[0]]


def replace(t, z, y):
    ps, k = lin_parts(t)
    return lin_sum([(c, y if x is z else x) for x, c in ps], k)


def blocks(C, R, I):
    """Texts of blocks: which depths the readers take."""
    E, r, F = I.E, I.r, C.F
    n, a, b, c = (sym(x, I.usize) for x in ('outer', 'first', 'second', 'third'))
    sp = lambda t: app('rep', ' ', t)
    x = sym('x', C.adt('Expression'))
    cond = mk('nt', x)
    stmt = C.fn('stmt::parsers::stmt')
    module = C.fn('module::parsers::module')
    W = (sp(n), 'when ', cond, ':\n')
    cases = [
        # what, reader, text, must take everything exactly if
        ('a nested statement', stmt, W + (sp(a), 'skip\n'), [], (sub(a, n), 1, None)),
        ('the second statement of a block', stmt, W + (sp(a), 'skip\n', sp(b), 'skip\n'), [(sub(a, n), 1, None)], (sub(a, b), 0, 0)),
        ('an else', stmt, W + (sp(a), 'skip\n', sp(b), 'else:\n', sp(c), 'skip\n'), [(sub(a, n), 1, None), (sub(c, n), 1, None), (sub(c, b), 1, None)], (sub(b, n), 0, 0)),
        ('a statement after else', stmt, W + (sp(a), 'skip\n', sp(b), 'else:\n', sp(c), 'skip\n'), [(sub(a, n), 1, None), (sub(b, n), 0, 0)], (sub(c, n), 1, None)),
        ('an entry of a memory', stmt, (sp(n), 'mem x:\n', sp(a), 'data-type => Clock\n', sp(a), 'depth => 8\n'), [], (sub(a, n), 1, None)),
        ('the second entry of a memory', stmt, (sp(n), 'mem x:\n', sp(a), 'data-type => Clock\n', sp(b), 'depth => 8\n'), [(sub(a, n), 1, None)], (sub(a, b), 0, 0)),
        ('a port of a memory', stmt, (sp(n), 'mem x:\n', sp(a), 'data-type => Clock\n', sp(a), 'depth => 8\n', sp(b), 'reader => r\n'), [(sub(a, n), 1, None)], (sub(a, b), 0, 0)),
        ('a statement of a module', module, (sp(n), 'module m:\n', sp(a), 'skip\n'), [], (sub(a, n), 1, None)),
        ('the second statement of a module', module, (sp(n), 'module m:\n', sp(a), 'skip\n', sp(b), 'skip\n'), [(sub(a, n), 1, None)], (sub(a, b), 0, 0)),
        ('a port of a module', module, (sp(n), 'module m:\n', sp(a), 'input p: Clock\n'), [], (sub(a, n), 1, None)),
        ('a statement after a port', module, (sp(n), 'module m:\n', sp(a), 'input p: Clock\n', sp(b), 'skip\n'), [(sub(a, n), 1, None)], (sub(a, b), 0, 0)),
        ('the name of an external module', module, (sp(n), 'extmodule m:\n', sp(a), 'defname = q\n'), [], (sub(a, n), 1, None)),
        ('a parameter of an external module', module, (sp(n), 'extmodule m:\n', sp(a), 'defname = q\n', sp(b), 'parameter p = 1\n'), [(sub(a, n), 1, None)], (sub(a, b), 0, 0)),
    ]
    for what, body, ps0, pre, cond_ in cases:
        for want in (True, False):
            def make(body=body, ps=ps0, pre=pre, cond_=cond_, want=want):
                st = E.narrow(EMPTY, n, 0, DEPTH_MAX)
                for t in (a, b, c):
                    st = E.narrow(st, t, 0, DEPTH_MAX)
                for t, lo, hi in pre:
                    st = within(E, st, t, lo, hi)
                return [(s, ps) for s, q in E.truth(st, E.rng(*cond_)) if q == want]
            if want and cond_[1:] == (0, 0):
                # equal depths: the same variable
                y = n if any(t is n for t in atoms_of(cond_[0])) else a
                st = EMPTY
                for t in (n, a, b, c):
                    st = E.narrow(st, t, 0, DEPTH_MAX)
                for t, lo, hi in pre:
                    st = within(E, st, replace(t, b, y), lo, hi)
                todo = [(st, tuple(sp(y) if t is sp(b) else t for t in ps0))]
            else:
                todo = make()
            for st, ps in todo:
                group, name = 'blocks', '%s: %s of %s depth' % (where(body), what, 'the right' if want else 'a wrong')
                E.notes, E.panics, E.steps = [], [], 0
                E.call_hook = r.hook
                r.current = (r.paths['Statement'], sym('x', r.paths['Statement'].ty), 1)
                try:
                    s0, vals, ci = r.args(st, body, tuple(ps), adt(r.ipath, r.exact, n))
                    outs = E.run(s0, body['id'], vals)
                except Imprecise as e:
                    E.note(str(e))
                    outs = []
                R.analysed |= E.analysed
                if E.notes or not outs:
                    R.unknown(group, '%s: %s' % (name, E.notes[:1]))
                for s, v in outs:
                    for s2, kk in E.cases(s, v):
                        whole = False
                        if not kk:
                            val = E.expose(s2, E.field(v, 0, 0))
                            rest = norm(ps_of(E, s2, val.a[0][0]))
                            whole = rest in ((), ('\n',))
                        if whole == want:
                            R.ok(group, name)
                        elif E.notes or ('taint',) in s2.cons or any(q[0] == 'short' for q in s2.cons):
                            R.unknown(group, name + ' %s' % (E.notes[:1] or 'partly read names'))
                        else:
                            R.bad(group, '%s:%s' % (body['path'], what), '%s, `%s`: %s [%s]' % (name, tshow(ps),
                                  'is taken' if whole else 'is not taken', facts_text(E, s2, limit=6)))
