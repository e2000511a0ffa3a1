"""Rules about effects: purity of the library (C22) and determinism of printing (C19)."""
import re
from core import *
from engine import Imprecise, EMPTY
from terms import *
from facts import short, fnkey
import models
import rules_round

STD = r'(?:std|core|alloc)::'
IMPURE = [
    (STD + r'fs::', 'the file system'), (STD + r'env::', 'the environment'), (STD + r'process::', 'processes'),
    (STD + r'net::', 'the network'), (r'std::time::', 'the clock'), (STD + r'os::', 'the operating system'),
    (STD + r'thread::', 'threads or thread-local state'), (STD + r'io::stdio::', 'the standard streams'),
    (STD + r'sync::(?:atomic|mpsc|mpmc|nonpoison|poison|once|once_lock|lazy_lock|reentrant_lock|mutex|rwlock|condvar|barrier)', 'shared mutable state'),
    (STD + r'cell::', 'interior mutability'), (STD + r'backtrace::', 'the call stack'), (STD + r'panic::(?:set_hook|take_hook)', 'the panic hook'),
    (STD + r'(?:alloc|rt)::(?:set|take)_', 'global hooks'), (r'std::random::', 'randomness'), (r'std::panicking::set_hook', 'the panic hook'),
    (STD + r'intrinsics::', 'intrinsics'), (STD + r'arch::', 'machine instructions'),
]
IMPURE_TY = re.compile(r'^(?:std|core|alloc|once_cell|lazy_static)::(?:cell|sync|rc)::(?!(?:Arc|Weak|Rc)$)|^lazy_static::|^once_cell::')
VALUE_LEAK = [
    (r'hash::random::', 'the random state of hash tables'), (r'hash::BuildHasher::hash_one', 'a hash value'),
    (r'sync::.*::(?:strong_count|weak_count|as_ptr|ptr_eq)$', 'how a value is shared'),
    (r'rc::.*::(?:strong_count|weak_count|as_ptr|ptr_eq)$', 'how a value is shared'),
    (r'^core::ptr::(?:addr_eq|eq)$', 'the address of a value'), (r'fmt::Pointer::fmt|new_pointer', 'the address of a value'),
    (r'Hasher::finish$', 'a hash value'), (r'any::type_name', 'the name of a type'), (r'^core::any::TypeId::of', 'the identity of a type'),
    (r'panic::Location', 'a source location'), (r'::capacity$', 'the capacity of a buffer'),
]
ITERATION = re.compile(r'(?:iter|iter_mut|into_iter|keys|into_keys|values|values_mut|into_values|drain|retain|extract_if|extend|intersection|union|difference|symmetric_difference)$')


def callees(b):
    """Function references of a body, with the line."""
    out = []

    def walk(o, line):
        if isinstance(o, dict):
            if 'path' in o and 'cpath' in o and ('args' in o or 'local' in o):
                out.append((o, line))
            for v in o.values():
                walk(v, line)
        elif isinstance(o, list):
            for v in o:
                walk(v, line)
    for p in [b] + [p for p in b.get('promoted', []) if p]:
        for bl in p.get('blocks', []):
            for s in bl['s']:
                line = next((x for x in reversed(s) if isinstance(x, int) and not isinstance(x, bool)), 0)
                walk(s, line)
            t = bl.get('t')
            if t:
                walk(t, t[5] if t[0] == 'call' and len(t) > 5 and isinstance(t[5], int) else 0)
    return out


def names_of(f):
    r = []
    for k in ('rcpath', 'cpath', 'rpath', 'path'):
        if f.get(k):
            r.append(re.sub(r'^<+&*(?:mut )?', '', f[k]))
    return r


def matching(f, pats):
    for n in names_of(f):
        for p, what in pats:
            if re.search(p if p.startswith('^') else (r'(?:^|[< ])' + p if p.startswith('(?:std') or p.startswith('std') else p), n):
                return what
    return None


def c22(C):
    R, F = Report('C22'), C.F
    raw = F.raw
    # the code
    for u, span in raw['unsafe']:
        R.bad('unsafe code', 'unsafe:%s' % span[0], 'unsafe %s at %s:%s' % (u, span[0], span[1]))
    for it in F.items:
        if it['unsafe']:
            R.bad('unsafe code', 'unsafe:' + it['path'], 'unsafe function %s' % it['path'])
        else:
            R.ok('unsafe code', it['path'])
    for g in raw['globals']:
        t = F.types[g['ty']]
        if g['mut'] or g['local'] or t.get('freeze') is False:
            R.bad('global state', 'static:' + g['path'], 'mutable %s state %s at %s:%s' % ('thread-local' if g['local'] else 'global', g['path'], g['span'][0], g['span'][1]))
        else:
            R.ok('global state', g['path'])
    for b in F.bodies.values() if isinstance(F.bodies, dict) else F.bodies:
        if not b or not b['local']:
            continue
        R.analysed.add(b['path'])
        bad = False
        for f, line in callees(b):
            if f.get('local'):
                continue
            what = matching(f, IMPURE)
            if what:
                bad = True
                R.bad('effects', '%s:%s' % (b['path'], short(f['path'])), '%s (%s:%s) uses %s: %s'
                      % (b['path'], where_file(b), line, what, f['path']))
        if not bad:
            R.ok('effects', b['path'])
    # the data
    eq = {F.path(i['self']) for i in raw['impls'] if i.get('trait') == 'std::cmp::PartialEq'}
    seen = set()

    def reach(t, trail):
        if t in seen:
            return
        seen.add(t)
        x = F.types[t]
        s = ' -> '.join(trail + [x['s']])
        key = (trail[0] if trail else x['s']) + ':' + x['s']
        probs = []
        if x['k'] == 'dyn':
            R.unknown('data', 'trait object in ' + s)
            return
        if x['k'] == 'ptr':
            probs.append('is a raw pointer')
        if x['k'] == 'ref' and x.get('mut'):
            probs.append('is a mutable reference')
        if x.get('freeze') is False:
            probs.append('can be changed through a shared reference')
        if x['k'] == 'adt' and IMPURE_TY.match(x['path']):
            probs.append('has mutable state inside')
        for k in ('send', 'sync'):
            if x.get(k) is False:
                probs.append('cannot be %s threads' % ('sent to other' if k == 'send' else 'shared between'))
        if probs:
            R.bad('data', key, '%s %s' % (s, ', '.join(probs)))
        else:
            R.ok('data', s)
        if x['k'] == 'adt':
            for v in x.get('variants', []) if x.get('local') else []:
                for f in v['fields']:
                    reach(f[1], trail + ['%s.%s' % (x['s'], f[0])])
            for a in x['args']:
                reach(a, trail + [x['s']])
        elif x['k'] in ('slice', 'array', 'ref'):
            reach(x['of'], trail + [x['s']])
        elif x['k'] == 'tuple':
            for a in x['of']:
                reach(a, trail + [x['s']])
    n = 0
    for i, x in enumerate(F.types):
        if x['k'] == 'adt' and x.get('local') and x['path'] in eq:
            n += 1
            reach(i, [])
    if not n:
        raise Missing('data types with equality')
    return R


def where_file(b):
    return (b.get('span') or ['?'])[0] if b.get('span') else b.get('file', '?')


class Graph:
    """Calls between the functions of the crate; trait methods which are not resolved may be any implementation."""

    def __init__(self, F):
        self.F = F
        self.out = {}

    def next(self, i):
        if i in self.out:
            return self.out[i]
        F = self.F
        b = F.bodies[i]
        r = set()
        for f, line in callees(b):
            if f.get('inst') is not None and F.bodies[f['inst']]:
                r.add(f['inst'])
            elif f.get('trait') and not f.get('rpath'):
                for it in F.trait_items(short(f['trait']), f.get('name')):
                    r.add(it['inst'])
        for l in b.get('locals', []):
            t = F.types[l]
            if t['k'] == 'closure' and isinstance(t.get('inst'), int):
                r.add(t['inst'])
            elif t['k'] == 'closure' and isinstance(t.get('inst'), dict) and t['inst'].get('inst') is not None:
                r.add(t['inst']['inst'])
        self.out[i] = r
        return r

    def reach(self, i, stop=()):
        seen, work = {i}, [i]
        while work:
            for j in self.next(work.pop()):
                if j not in seen and j not in stop and self.F.bodies[j]:
                    seen.add(j)
                    work.append(j)
        return seen


def hashtype(F, f):
    """A hash table among the types of a call?"""
    def has(t, n=0):
        x = F.types[t]
        if n > 6:
            return False
        if x['k'] == 'adt':
            if short(x['path']) in ('HashMap', 'HashSet'):
                return True
            return False
        if x['k'] in ('ref', 'ptr'):
            return has(x['of'], n + 1)
        return False
    return any(has(t) for t in (f.get('rargs') or []) + (f.get('args') or []))


def iterates(F, b):
    """Places where a hash table is iterated."""
    out = []
    for f, line in callees(b):
        k = fnkey(f)
        if re.match(r'Hash(?:Map|Set)::', k) and ITERATION.search(k) and not k.endswith('::extend'):
            out.append((k, line))
        elif k == 'IntoIterator::into_iter' and hashtype(F, f):
            out.append(('iteration over a hash table', line))
        elif re.search(r'new_debug|Debug::fmt$', f['path']) and hashtype(F, f):
            out.append(('debug output of a hash table', line))
    return out


def c19(C):
    R, F = Report('C19'), C.F
    G = Graph(F)
    writers = []
    for tr in ('Display', 'DisplayIndented'):
        for it in F.trait_items(tr, 'fmt'):
            writers.append((tr, dict(it, inst=C.mono(it['path'])['id'])))
    if not writers:
        raise Missing('Display')
    paths = {it['path'] for _, it in writers}
    ids = {b['id'] for b in F.bodies.values() if b['path'] in paths}
    raw = F.raw
    state = {g['path'] for g in raw['globals'] if g['mut'] or g['local'] or F.types[g['ty']].get('freeze') is False}
    for tr, it in writers:
        i = it['inst']
        reach = G.reach(i, {j for j in ids if F.bodies[j]['path'] != it['path']})
        R.analysed |= {F.bodies[j]['path'] for j in reach if F.bodies[j]['local']}
        name = '%s (%s:%s)' % (it['path'], it['span'][0], it['span'][1])
        bad, iters, calms = False, [], []
        for j in reach:
            b = F.bodies[j]
            if not b['local']:
                continue
            for f, line in callees(b):
                what = matching(f, VALUE_LEAK + [p for p in IMPURE if 'intrinsics' not in p[0]]) if not f.get('local') else None
                if what:
                    bad = True
                    R.bad('sources', '%s:%s' % (it['path'], short(f['path'])), '%s: printing depends on %s: %s (line %s) uses %s'
                          % (name, what, b['path'], line, f['path']))
                if re.search(r'::sort|BTree|::(?:any|all|count|sum|max|min|max_by|min_by|max_by_key|min_by_key|is_empty|len)$', fnkey(f)):
                    calms.append(fnkey(f))
            calms += [t['path'] for t in (F.types[l] for l in b.get('locals', [])) if t['k'] == 'adt' and short(t['path']).startswith('BTree')]
            for bl in b.get('blocks', []):
                for s in bl['s']:
                    if s[0] == '=' and isinstance(s[2], list) and s[2][0] == 'cast' and 'ExposeProvenance' in str(s[2]):
                        bad = True
                        R.bad('sources', it['path'] + ':address', '%s: printing depends on an address (%s)' % (name, b['path']))
            for what, line in iterates(F, b):
                iters.append((b['path'], what, line))
        if bad:
            continue
        R.ok('sources', name)
        if not iters:
            R.ok('order', '%s iterates over no hash table' % name)
            continue
        two_orders(C, R, it, tr, name, iters, calms)
    if state:
        for s in sorted(state):
            R.bad('sources', 'state:' + s, 'mutable global state ' + s)
    return R


def two_orders(C, R, it, tr, name, iters, calms):
    """Interpret a writer with two opposite orders of every hash table."""
    F = C.F
    outs = []
    what = ', '.join('%s in %s (line %s)' % (w, p, l) for p, w, l in iters[:3])
    note = None
    for seed in (0, 1):
        rr = rules_round.Rounds(C, Report('C19'))
        E = rr.E
        E.hash_seed = seed
        ty = it['self']
        x = sym('x', ty)
        rr.current = None
        E.notes, E.panics, E.steps = [], [], 0
        E.call_hook = opaque_writers(C, it['path'])
        E.display_hook = lambda E, st, p, v, ty: models.emit(E, st, p, text([mk('shown', v)])) if is_sym(v) and not (v.ty is not None and (F.is_str(v.ty) or F.is_int(v.ty))) else None
        got = {}
        try:
            l = sym('level', F.named('usize'))
            st, cell = EMPTY.alloc(text([]))
            args = [x, mk('ptr', cell, ())]
            if tr == 'DisplayIndented':
                st, ci = E.narrow(st, l, 0, rules_round.DEPTH_MAX).alloc(adt(rr.ipath, rr.exact, l))
                args = [x, mk('ptr', ci, ()), mk('ptr', cell, ())]
            for s, v in E.run(st, it['inst'], args):
                for s2, k in E.cases(s, v):
                    if k == 0:
                        got.setdefault(frozenset((str(k_), str(v_)) for k_, v_ in s2.cons.items()), []).append(
                            (s2, tuple(models.pieces(s2.store[cell]))))
        except Imprecise as e:
            E.note(str(e))
        if E.notes:
            note = E.notes[0]
        outs.append((got, E))
    if note is None and not outs[0][1].hash_used and not outs[1][1].hash_used:
        note = 'the hash table is not iterated in the interpretation'
    if note is None:
        (a, E), (b, _) = outs
        n = 0
        for k in a:
            if k not in b:
                R.unknown('order', name + ': different paths in the two orders')
                continue
            ta, tb = sorted(tshow_(p) for _, p in a[k]), sorted(tshow_(p) for _, p in b[k])
            if ta == tb:
                n += 1
                R.ok('order', '%s: the text does not depend on %s' % (name, what))
            elif len(ta) == len(tb) == 1:
                R.bad('order', it['path'], '%s: the text depends on the order of a hash table (%s): `%s` or `%s`' % (name, what, ta[0][:200], tb[0][:200]))
            else:
                R.unknown('order', name + ': several texts')
        for k in b:
            if k not in a:
                R.unknown('order', name + ': different paths in the two orders')
        return
    if calms:
        R.unknown('order', '%s: %s; %s' % (name, what, note))
    else:
        R.bad('order', it['path'], '%s: printing iterates over a hash table and orders nothing: %s' % (name, what))


def tshow_(ps):
    return ''.join(p if isinstance(p, str) else '{%s}' % show(p, 12) for p in ps)


def opaque_writers(C, own):
    F = C.F
    paths = {it['path'] for tr in ('Display', 'DisplayIndented') for it in F.trait_items(tr, 'fmt')}

    def hook(E, st, inst, path, args, cx):
        if path in paths and path != own:
            v = E.deref(st, args[0])
            if v.k == 'adt' and len(v.a[2]) and not any(is_sym(z) and z.ty is None for z in v.a[2]) and 'CommaSeparated' in path:
                return None
            if v.k in ('sym', 'proj', 'elem', 'app'):
                return models.emit(E, st, args[-1], text([mk('shown', v)]))
        return None
    return hook
