"""Reading a whole circuit: nothing is left out and every error is reported (C15)."""
from core import *
from terms import *
from anytext import AnyText, leaves
from engine import Imprecise, EMPTY, St
from rules_parse import advanced, allparts, reads, Reading
import nomlib
from nomlib import isany, progress


class Whole(AnyText):
    """Reads a circuit from any text, with any sequence of items in place of the modules."""

    def __init__(self, C, most=2):
        AnyText.__init__(self, C)
        self.most = most
        self.nextfn = C.method('Iterator', 'next', 'Modules')
        self.mod, self.err = C.adt('Module'), C.adt('ParseError')

    def hook(self, E, st, inst, path, args, cx):
        if path != self.nextfn['path']:
            return AnyText.hook(self, E, st, inst, path, args, cx)
        v = E.deref(st, args[0])
        given = [x for x in leaves(v) if x.k == 'input'] + [x for x in v.a[2] if x.k == 'input'] if v.k == 'adt' else []
        seq = st.cons.get(('modules',), ())
        n = len(seq)
        if n == 0:
            st = st.fact(('given',), tuple(given))
        out = [(st.fact(('modules',), seq + ('end',)), NONE)]
        if seq and seq[-1] in ('end', 'err'):
            return out
        e = mk('sym', 'error%d' % n, ty=self.err)
        out.append((st.fact(('modules',), seq + ('err',)), some(err(e))))
        if n < self.most:
            m = mk('sym', 'module%d' % n, ty=self.mod)
            out.append((st.fact(('modules',), seq + (m,)), some(ok(m))))
        return out


def empty(E, st, x):
    """The text is empty on this path."""
    for k, r in st.cons.items():
        if k[0] == 'int' and k[1].k == 'app' and k[1].a[0] == 'strlen' and r[1] == 0:
            y = k[1].a[1][0]
            if y is x or y.k == 'str' and y.a[0] == x.a[0]:
                return True
    return False


def has(v, x):
    p = set()
    allparts(v, p)
    return x.id in p


def c15(C):
    R = Report('C15')
    F = C.F
    # the sequence of modules
    A = AnyText(C)
    A.standard()
    A.fix()
    E = A.E
    R.analysed |= E.analysed
    tf = A.textfields()
    nx = where(A.nextfn)
    for name in [n for n in A.entries if n.startswith('next')]:
        for n in A.records[name].notes[:2]:
            R.unknown('sequence of modules', '%s: %s at %s' % (nx, n[0], n[1]))
    best = None
    for j in range(len(tf)):
        bad, good = [], []
        for s, v, now, old in A.nexts[None]:
            if v.k != 'adt':
                R.unknown('sequence of modules', '%s: outcome `%s`' % (nx, show(v, 3)))
                continue
            left = now[j].a[0]
            if v.a[1] == 0:
                if not empty(E, s, old[j]):
                    bad.append(('end', '%s: the sequence ends while text is left%s' % (nx, tell(E, s))))
                continue
            for s2, k in E.cases(s, v.a[2][0]):
                if k == 0:
                    if not advanced(old[j], now[j]) or not isany(left):
                        bad.append(('skip', '%s: after a module, `%s` is left of the text instead of what follows the module' % (nx, show(now[j], 3))))
                    else:
                        good.append('%s: after a module, the text which follows it is left' % nx)
                elif left:
                    bad.append(('error', '%s: after an error, `%s` is left of the text and the sequence goes on' % (nx, show(now[j], 3))))
                else:
                    good.append('%s: nothing follows an error' % nx)
        for s, v, now, old in A.nexts[j]:
            if v.k != 'adt' or v.a[1] == 1:
                bad.append(('more', '%s: an item `%s` is yielded although nothing is left to read' % (nx, show(v, 3))))
            elif now[j].a[0]:
                bad.append(('more', '%s: text is left after the end' % nx))
            else:
                good.append('%s: the end is final' % nx)
        if best is None or len(bad) < len(best[1]):
            best = (j, bad, good)
    cur, bad, good = best
    for k, t in bad[:4]:
        R.bad('sequence of modules', k, t)
    for i, t in enumerate(good):
        R.ok('sequence of modules', '%s (outcome %d)' % (t, i))
    if not any('after a module' in t for t in good) and not bad:
        R.unknown('sequence of modules', nx + ': no outcome with a module')
    # a whole circuit
    circuit = C.fn('circuit::parsers::circuit')
    W = Whole(C, 2 if C.tier == 'quick' else 4)
    outs = []

    def run(A):
        outs.extend(A.attempt(lambda: A.E.run(EMPTY, circuit['id'], [mk('input', (mk('any', 'text', 0),))])))
    W.entry('circuit', run)
    W.fix()
    E = W.E
    R.analysed |= E.analysed
    what = where(circuit)
    for n in W.records['circuit'].notes[:3]:
        R.unknown('circuit', '%s: %s at %s' % (what, n[0], n[1]))
    seen = set()
    for s, v in outs:
        for s2, k in E.cases(s, v):
            q = s2.cons.get(('modules',))
            tag = 'header' if q is None else ' '.join(x if isinstance(x, str) else 'module' for x in q)
            seen.add((k, 'err' in (q or ()), bool(q) and q[-1] == 'end'))
            if k:
                if q is not None and 'err' in q:
                    e = mk('sym', 'error%d' % q.index('err'), ty=W.err)
                    if not has(v, e):
                        R.bad('circuit', 'other error', '%s reports `%s` instead of the error of the module [%s]' % (what, show(v, 4), tag))
                        continue
                R.ok('circuit', '%s: %s -> an error' % (what, tag))
                continue
            c = v.a[2][0]
            if q is None:
                R.bad('circuit', 'no module', '%s succeeds without asking for any module' % what)
                continue
            if 'err' in q:
                R.bad('circuit', 'swallowed', '%s succeeds although a module is in error [%s]' % (what, tag))
                continue
            if q[-1] != 'end':
                R.bad('circuit', 'unread', '%s succeeds without having read the modules to the end [%s]' % (what, tag))
                continue
            g = s2.cons.get(('given',), ())
            if not any(isany(x.a[0]) and x.a[0][0].a[0] != 'text' for x in g):
                R.bad('circuit', 'text', '%s: the modules are read from `%s` instead of what follows the header' % (what, ', '.join(show(x, 3) for x in g)))
                continue
            ms = [m for m in q if isinstance(m, T) and has(c, m)]
            if len(ms) != 1:
                R.bad('circuit', 'top', '%s succeeds with `%s`, whose top module is none of the modules read [%s]' % (what, show(c, 4), tag))
                continue
            nm = E.field(ms[0], 0, C.fieldby('Module', 'str'))
            names = [key[1] for key, val in s2.cons.items() if key[0] == 'b' and val is True and key[1].k == 'app' and key[1].a[0] == 'eq' and nm in key[1].a[1]]
            if not names:
                names = [x for x in [s2.cons.get(('str', nm))] if x]
            if not names:
                R.unknown('circuit', '%s succeeds with a module whose name was not compared [%s]' % (what, tag))
                continue
            R.ok('circuit', '%s: %s -> the circuit of %s' % (what, tag, show(ms[0])))
    for need, t in (((1, True, False), 'a module in error'), ((0, False, True), 'a complete circuit'), ((1, False, True), 'a missing top module'), ((1, False, False), 'an error in the header')):
        if need not in seen and not (need[1] and (1, True, True) in seen):
            R.unknown('circuit', '%s: no outcome for %s' % (what, t))
    # reading from elsewhere
    for b in list(F.bodies.values()):
        if not b['local'] or '{closure' in b['path'] or b['id'] != C.mono(b['path'])['id'] or not reads(F, b['id']):
            continue
        entry(C, R, b, circuit)
    return R


def entry(C, R, b, circuit):
    """A function which reads hands everything it read to the parser, and returns what that reports."""
    F = C.F
    if not any(F.bodies[i]['path'] == circuit['path'] for i in reach(F, [b['id']])):
        return
    G = Reading(C)
    E = G.E
    G.b = b['id']
    given = []
    old = E.call_hook

    def hook(E, st, inst, path, args, cx):
        if path == circuit['path']:
            return [(st.fact(('parsed',), E.deref(st, args[0])), ok(mk('sym', 'circuit', ty=C.adt('Circuit')))),
                    (st.fact(('parsed',), E.deref(st, args[0])), err(mk('sym', 'syntax', ty=C.adt('ParseError'))))]
        return old(E, st, inst, path, args, cx)
    E.call_hook = hook
    outs = []
    try:
        st, vals = EMPTY, []
        for i in range(b['argc']):
            l = b['locals'][i + 1]
            st, v = G.arg(st, l if isinstance(l, int) else l[0], 'arg%d.%d' % (b['id'], i))
            vals.append(v)
        for s, r in E.run(st, b['id'], vals):
            outs += [(s2, r, k) for s2, k in E.cases(s, r)]
    except Imprecise as e:
        E.note(str(e))
    R.analysed |= E.analysed
    for n in E.notes[:2]:
        R.unknown('reading', '%s: %s at %s' % (where(b), n[0], n[1]))
    n = 0
    for s, r, k in outs:
        if any(key[0] == 'readerr' for key in s.cons):
            continue        # C25
        p = s.cons.get(('parsed',))
        if p is None:
            R.bad('reading', 'unparsed', '%s returns `%s` without parsing what was read' % (where(b), show(r, 3)))
            continue
        ps = p.a[0] if p.k in ('str', 'input') else (p,)
        if not (len(ps) == 1 and isinstance(ps[0], T) and ps[0].k == 'sym' and str(ps[0].a[0]).startswith('read')):
            R.bad('reading', 'text', '%s parses `%s` instead of all that was read' % (where(b), show(p, 3)))
            continue
        want = 'syntax' if k else 'circuit'
        if any(x.k == 'sym' and x.a[0] == want for x in leaves(r)):
            n += 1
            R.ok('reading', '%s: what the parser reports (%s)' % (where(b), want))
        else:
            R.bad('reading', 'result', '%s returns `%s` instead of what the parser reports' % (where(b), show(r, 3)))
    if n < 2:
        R.unknown('reading', '%s: not both outcomes of the parser are returned' % where(b))


def tell(E, st):
    t = facts_text(E, st)
    return ' when ' + t if t else ''
