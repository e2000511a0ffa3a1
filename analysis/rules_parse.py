"""Parsers on arbitrary texts: termination (C14)."""
import re
from core import *
from terms import *
from anytext import AnyText, parserty, leaves
from engine import Imprecise, EMPTY, St
from facts import short
import models
from rules_panic import Generic
from rules_effects import callees
from nomlib import isany, progress


def site(w):
    return w


def c14(C):
    R = Report('C14')
    A = AnyText(C)
    A.standard()
    A.fix()
    F, E = C.F, A.E
    R.analysed |= E.analysed
    name = lambda x: F.bodies[x]['path'] if x in F.bodies else str(x)
    G = {}
    for x, r in A.records.items():
        b = F.bodies.get(x)
        what = '%s (%s)' % (where(b), 'on any text') if b else 'entry point: ' + str(x)
        for n in r.notes[:3]:
            R.unknown('parsers', '%s: %s at %s' % (what, n[0], n[1]))
        for k, (w, t) in r.stuck.items():
            R.bad('repetitions', 'stuck:%s:%s' % (k[0][0], k[1]), '%s: %s' % (w, t))
        if not r.notes and not r.stuck:
            R.ok('parsers', what)
        G[x] = dict(r.left)
    # recursion before anything was read
    for cyc in cycles(G):
        p = ' -> '.join('%s' % name(x) for x in cyc + cyc[:1])
        R.bad('recursion', 'recursion:' + '|'.join(sorted({name(x) for x in cyc})),
              'recursion without having consumed input: %s (called at %s)' % (p, G[cyc[-1]].get(cyc[0], '?')))
    n = sum(len(m) for m in G.values())
    for x, m in G.items():
        for y in m:
            R.ok('calls before anything was read', '%s -> %s' % (name(x), name(y)))
    # the sequence of modules
    tf = A.textfields()
    nx = where(A.nextfn)
    best = None
    for j in range(len(tf)):
        bad = []
        for s, v, now, old in A.nexts[None]:
            if not yields(E, s, v):
                continue
            if not advanced(old[j], now[j]):
                bad.append('%s: an item `%s` is yielded and the input which is left stays `%s`' % (nx, show(v, 3), show(now[j], 3)))
        for s, v, now, old in A.nexts[j]:
            if yields(E, s, v):
                bad.append('%s: an item `%s` is yielded although nothing is left to read' % (nx, show(v, 3)))
        if best is None or len(bad) < len(best):
            best = bad
    outs = len(A.nexts[None])
    for i in range(outs):
        R.ok('modules', '%s: outcome %d reads on' % (nx, i)) if not best else None
    for t in (best or [])[:3]:
        R.bad('modules', 'modules', t)
    if not outs:
        R.unknown('modules', nx + ': no outcome')
    return R


def yields(E, s, v):
    return v.k != 'adt' or v.a[1] == 1


def advanced(a, b):
    """Less is left afterwards."""
    if b.k == 'str':
        b = mk('input', b.a[0])
    if b.k != 'input':
        return False
    if not b.a[0]:
        return True
    return isany(b.a[0]) and progress(a.a[0], b.a[0])


def cycles(G):
    """One elementary cycle per strongly connected component."""
    out, color = [], {}

    def visit(x, path):
        color[x] = 1
        for y in G.get(x, ()):
            if color.get(y) == 1:
                out.append(path[path.index(y):])
            elif y not in color:
                visit(y, path + [y])
        color[x] = 2
    for x in list(G):
        if x not in color:
            visit(x, [x])
    return out


# ---------------------------------------------------------------- everything parsed can be printed (C07)

def writers(F):
    """Functions which write values of the crate: path -> (type path or None, item)."""
    out = {}
    for tr in ('Display', 'DisplayIndented'):
        for it in F.trait_items(tr, 'fmt'):
            if it.get('inst') in F.bodies:
                out[it['path']] = it
    return out


class Writing(Generic):
    """Runs a writer on a value with a sink which never fails.  Nested values which are parts of the value (rather
    than made by the writer itself) are written by their own writers, which are obligations of their own."""

    def __init__(self, C, faults=False):
        Generic.__init__(self, C)
        self.faults, self.late = faults, []
        self.E.sink_errors = faults
        self.E.after_error = lambda st: self.late.append((st, self.where()))
        self.parts = set()
        generic = self.A.generic

        def given(st, v, ty, name):
            """A value which is not made by the writer."""
            s, g = generic(st, v, ty, name)
            allparts(g, self.parts)
            return s, g
        self.A.generic = given
        self.W = writers(self.F)
        self.top = None
        self.assumed = []

    def hook(self, E, st, inst, path, args, cx):
        F = self.F
        b = F.bodies[inst]
        if not b['local'] or '{closure' in path:
            return None
        depth = sum(1 for x, _ in E.stack if x.local)
        l = b['locals'][0]
        t = F.types[F.strip(l if isinstance(l, int) else l[0])]
        if depth and t['k'] == 'adt' and short(t['path']) == 'Result' and 'fmt::Error' in t['s']:
            v = E.deref(st, args[0]) if args else None
            again = any(x.path == path for x, _ in E.stack)
            if v is not None and path in self.W and (is_sym(v) or not self.made(v)):
                self.assumed.append((st, v))
            elif not (again and path not in self.W):
                return None
            # the text does not matter; an indentation may be another one afterwards
            for a in args:
                if a.k == 'ptr':
                    q = models.sink_of(E, st, a)
                    w = E.load(st, q)
                    if w.k in ('adt', 'sym', 'proj') and w.ty is not None and not F.is_str(w.ty):
                        st, g = self.A.generic(st, mk('sym', 'i%s' % (E.site(),), ty=w.ty), w.ty, 'i%s' % (E.site(),))
                        st = E.store(st, q, g)
            out = [(st, ok(UNIT))]
            if self.faults:
                for a in args:
                    q = models.sink_of(E, st, a) if a.k == 'ptr' else None
                    w = E.load(st, q) if q is not None else None
                    if w is not None and any(x is models.SINKERR for x in pieces(w)):
                        E.after_error(st)
                    if w is not None and any(x is models.SINKERR or x is models.SINKOK for x in pieces(w)):
                        out.append((E.store(st, q, text([models.SINKERR])), err(models.FMTERR)))
            return out
        return Generic.hook(self, E, st, inst, path, args, cx) if path in self.rec else None

    def where(self):
        for b, line in reversed(self.E.stack):
            if b.local:
                return '%s (%s:%s)' % (b.path, b.file, line)
        return '?'

    def made(self, v):
        """The value is not a part of what is written: the writer wrapped something."""
        return v.id not in self.parts

    def write(self, it, st, v):
        """Outcomes of a writer: (state, error?); with shorter collections when there are too many paths."""
        E = self.E
        full = E.max_elems
        out = self.once(it, st, v)
        if any('budget' in n[0] for n in E.notes):
            E.max_elems, E.domerge = 1, True
            out = self.once(it, st, v)
            E.max_elems, E.domerge = full, 'exact'
        return out

    def once(self, it, st, v):
        E, F = self.E, self.F
        b = self.C.mono(it['path'])
        E.notes, E.panics, E.steps, self.n, self.b = [], [], 0, 0, b['id']
        self.parts = set()
        allparts(v, self.parts)
        self.assumed, self.late = [], []
        out = []
        try:
            st = St({}, dict(st.cons), 0)
            vals = [v]
            for i in range(1, b['argc']):
                l = b['locals'][i + 1]
                t = l if isinstance(l, int) else l[0]
                x = F.types[F.strip(t)]
                if i == b['argc'] - 1:
                    st, c = st.alloc(text([models.SINKOK] if self.faults else []))
                    self.sink = c
                    vals.append(mk('ptr', c, ()))
                else:
                    st, a = self.arg(st, t, 'arg%d.%d' % (b['id'], i))
                    vals.append(a)
            for s, r in E.run(st, b['id'], vals):
                out += [(s2, k) for s2, k in E.cases(s, r)]
        except Imprecise as e:
            E.note(str(e))
        return out


def c25(C):
    R = Report('C25')
    W = Writing(C, True)
    E, F = W.E, W.F
    for p, it in sorted(W.W.items()):
        b = C.mono(p)
        outs = W.write(it, EMPTY, W.fresh(C.argty(b, 0), 'value%d' % b['id']))
        for n in E.notes[:2]:
            R.unknown('writers', '%s: %s at %s' % (where(b), n[0], n[1]))
        for s, w in W.late[:2]:
            R.bad('writers', 'late:%s:%s' % (p, w.split(' (')[0]), '%s: more is written by %s after the sink reported an error%s' % (where(b), w, when(E, s)))
        lost = [s for s, k in outs if not k and s.store[W.sink] is not text([models.SINKOK])]
        for s in lost[:2]:
            R.bad('writers', 'lost:' + p, '%s reports success although the sink reported an error%s' % (where(b), when(E, s)))
        if not any(k and s.store[W.sink] is text([models.SINKERR]) for s, k in outs):
            R.unknown('writers', where(b) + ' never meets an error of the sink')
        elif not E.notes and not lost and not W.late:
            R.ok('writers', '%s (%d outcomes)' % (where(b), len(outs)))
    R.analysed |= E.analysed
    reading(C, R)
    return R


READ = re.compile(r'(^|::)(Read|BufRead)>?::\w+$|io::read_to_string$|fs::read(_to_string)?$')


def reads(F, i, memo={}):
    """A function reads from somewhere, directly or not."""
    if (id(F), i) not in memo:
        memo[id(F), i] = any(READ.search(n) for j in reach(F, [i]) if F.bodies[j]['local'] for f, _ in callees(F.bodies[j]) for n in [f['path']])
    return memo[id(F), i]


class Reading(Generic):
    """Runs a function which reads; reading fails or yields any text."""

    def __init__(self, C):
        Generic.__init__(self, C)
        self.errors = []
        for k in ('Read::read_to_end', 'Read::read', 'Read::read_exact', 'io::read_to_string', 'BufRead::read_line', 'fs::read_to_string', 'fs::read'):
            self.E.natives[k] = self.E.natives['Read::read_to_string']

    def hook(self, E, st, inst, path, args, cx):
        return None if reads(self.F, inst) else Generic.hook(self, E, st, inst, path, args, cx)

    def read(self, E, st, a, c):
        F = self.F
        self.n += 1
        rt = F.types[F.strip(c.ty)]
        e = mk('sym', 'ioerr%d' % self.n, ty=rt['args'][1] if len(rt['args']) > 1 else None)
        self.errors.append(e)
        good = st
        if len(a) > 1:
            q = models.sink_of(E, st, a[1])
            old = E.load(st, q)
            x = mk('sym', 'read%d' % self.n, ty=F.named('str'))
            # what was read so far is in the buffer also when an error is reported
            st = good = E.store(st, q, x if old.k == 'str' else self.fresh(old.ty, 'read%d' % self.n))
        v = self.fresh(rt['args'][0], 'n%d' % self.n)
        return [(good, ok(v)), (st.fact(('readerr', e), True), err(e))]


def reading(C, R):
    F = C.F
    found = 0
    for b in F.bodies.values():
        if not b['local'] or '{closure' in b['path'] or b['id'] != C.mono(b['path'])['id']:
            continue
        if not reads(F, b['id']):
            continue
        found += 1
        G = Reading(C)
        E = G.E
        G.b = b['id']
        st, vals, outs = EMPTY, [], []
        try:
            for i in range(b['argc']):
                l = b['locals'][i + 1]
                st, v = G.arg(st, l if isinstance(l, int) else l[0], 'arg%d.%d' % (b['id'], i))
                vals.append(v)
            for s, r in E.run(st, b['id'], vals):
                outs += [(s2, r, k) for s2, k in E.cases(s, r)]
        except Imprecise as e:
            E.note(str(e))
        R.analysed |= E.analysed
        for n in E.notes[:2]:
            R.unknown('readers', '%s: %s at %s' % (where(b), n[0], n[1]))
        failed = 0
        for s, r, k in outs:
            for key in s.cons:
                if key[0] != 'readerr':
                    continue
                failed += 1
                if not k:
                    R.bad('readers', 'read:' + b['path'], '%s reports success although reading failed' % where(b))
                else:
                    parts = set()
                    allparts(r, parts)
                    if key[1].id in parts:
                        R.ok('readers', where(b) + ' hands on the error of reading')
                    else:
                        R.bad('readers', 'ioerr:' + b['path'], '%s fails with `%s` instead of the error of reading' % (where(b), show(r, 3)))
        if not failed:
            R.unknown('readers', where(b) + ': no outcome of a failed read')
    if not found:
        R.unknown('readers', 'no function which reads found')


def when(E, st):
    t = facts_text(E, st)
    return ' when ' + t if t else ''


def allparts(v, acc, d=0):
    acc.add(v.id)
    if d < 30:
        for x in v.a:
            if isinstance(x, T):
                allparts(x, acc, d + 1)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        allparts(y, acc, d + 1)


def printable(F, W, v, out, seen, d=0):
    """The outermost parts of a value which have a writer."""
    if v.id in seen or d > 30:
        return
    seen.add(v.id)
    if v.k == 'adt':
        its = [it for it in W.values() if F.path(it['self']) == v.a[0]]
        if its:
            out.append((v, its))
            return
    for x in v.a:
        if isinstance(x, T):
            printable(F, W, x, out, seen, d + 1)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    printable(F, W, y, out, seen, d + 1)


class Shapes:
    """Variants of what the parsers yield."""

    def __init__(self, A):
        self.A, self.F = A, A.F

    def root(self, t):
        path = []
        while t.k == 'proj':
            path.append((t.a[1], t.a[2]))
            t = t.a[0]
        if t.k == 'sym' and isinstance(t.a[0], str) and t.a[0].startswith('result#'):
            return int(t.a[0][7:].split('.')[0]), tuple(reversed(path))
        return None

    def variants(self, t, seen=()):
        """The variants a term can have, or None."""
        r = self.root(t)
        if r is None:
            return None
        if r in seen:
            return frozenset()
        inst, path = r
        acc = set()
        rec = self.A.records.get(inst)
        if rec is None:
            return None
        E = self.A.E
        for st, v in rec.results:
            for var, i in path:
                if v.k == 'adt' and v.a[1] != var:
                    v = None
                    break
                try:
                    v = E.field(v, var, i)
                except (Imprecise, IndexError):
                    return None
            if v is None:
                continue
            if v.k == 'adt':
                acc.add(v.a[1])
                continue
            if not is_sym(v) or v.ty is None or self.F.variants(v.ty) is None:
                return None
            f = E.feasible(st, v)
            w = self.variants(v, seen + (r,))
            acc |= f if w is None else f & w
        return frozenset(acc)

    def narrow(self, E, st, v, seen=None):
        """Restrict the parts of a value which parsers yielded to the variants they yield."""
        for x in leaves(v):
            if is_sym(x) and x.ty is not None and self.F.variants(x.ty) and len(self.F.variants(x.ty)) > 1:
                w = self.variants(x)
                if w is not None and st is not None:
                    w = w & E.feasible(st, x)
                    st = E.setvar(st, x, w) if w else None
        return st


def c07(C):
    R = Report('C07')
    F = C.F
    W = Writing(C)
    # writers of their own: is there anything they reject?
    rejecting = {}
    for p, it in sorted(W.W.items()):
        b = C.mono(p)
        what = '%s on any value' % where(b)
        v = W.fresh(C.argty(b, 0), 'value%d' % b['id'])
        outs = W.write(it, EMPTY, v)
        errs = [s for s, k in outs if k]
        notes = list(W.E.notes)
        R.analysed.add(p)
        for n in notes[:2]:
            R.unknown('writers', '%s: %s at %s' % (what, n[0], n[1]))
        if errs:
            rejecting[p] = (it, errs)
        elif not notes:
            R.ok('writers', what + ' reports no error of its own')
    # what parsers yield of the rest
    A = AnyText(C)
    A.standard()
    A.fix()
    R.analysed |= A.E.analysed | W.E.analysed
    S = Shapes(A)
    done, hit = set(), set()
    for inst, r in A.records.items():
        b = F.bodies.get(inst)
        who = where(b) if b else 'entry point ' + str(inst)
        for n in r.notes[:1]:
            R.unknown('parsed values', '%s: %s at %s' % (who, n[0], n[1]))
        for st, v in r.results + r.produced:
            parts = []
            printable(F, W.W, v, parts, set())
            for x, its in parts:
                for it in its:
                    if it['path'] not in rejecting or F.path(it['self']) != x.a[0]:
                        continue
                    hit.add(it['path'])
                    s0 = S.narrow(W.E, St({}, dict(st.cons), 0), x)
                    if s0 is None:
                        continue
                    key = (it['path'], x.id, tuple(sorted((k[1].id, tuple(sorted(w))) for k, w in s0.cons.items() if k[0] == 'var' and k[1].id in partset(x))))
                    if key in done:
                        continue
                    done.add(key)
                    outs = W.write(it, s0, x)
                    what = '%s, which %s yields' % (show(x, 4), who)
                    for n in W.E.notes[:1]:
                        R.unknown('parsed values', '%s: %s at %s' % (what, n[0], n[1]))
                    errs = [s for s, k in outs if k]
                    if errs:
                        R.bad('parsed values', '%s:%s' % (it['path'], vname(F, x)), '%s rejects %s%s' % (
                            where(C.mono(it['path'])), what, ' when ' + facts_text(W.E, errs[0]) if facts_text(W.E, errs[0]) else ''))
                    elif not W.E.notes and outs:
                        R.ok('parsed values', what)
                    elif not outs:
                        R.unknown('parsed values', what + ': no outcome')
    for p, (it, errs) in rejecting.items():
        if p in hit:
            continue
        inner = [q for q in rejecting if q != p and uses(F, q, p)]
        wrapped = wrapper(F, it)
        if wrapped and inner:
            R.ok('writers', '%s: a wrapper; judged where it is used, in %s' % (where(C.mono(p)), inner[0]))
        else:
            R.unknown('writers', '%s can report an error when %s, and no parser yields such a value directly' % (
                where(C.mono(p)), facts_text(W.E, errs[0])))
    return R


def partset(v):
    acc = set()
    allparts(v, acc)
    return acc


def vname(F, x):
    vs = F.variants(x.ty) if x.ty is not None else None
    n = vs[x.a[1]]['name'] if vs else str(x.a[1])
    return short(x.a[0]) + '::' + n


def uses(F, q, p):
    """A writer calls another one."""
    return any(F.bodies[i]['path'] == p for j, b in F.bodies.items() if b['path'] == q for i in reach(F, [j]))


def wrapper(F, it):
    """A type which borrows what it writes."""
    t = F.types[F.strip(it['self'])]
    return t['k'] == 'adt' and len(t.get('variants') or ()) == 1 and any(F.types[f[1]]['k'] == 'ref' for f in t['variants'][0]['fields'])
