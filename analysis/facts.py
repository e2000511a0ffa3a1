"""Facts about the program under analysis: loading, indexing and type queries."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class ToolError(Exception):
    """The facts could not be extracted (the tree does not build, a tool is missing)."""


def _run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise ToolError('%s failed:\n%s' % (' '.join(cmd), (r.stdout + r.stderr)[-4000:]))
    return r.stdout


def driver():
    """Build the fact extractor (once per source revision) and return its path."""
    src = os.path.join(VERIF, 'driver', 'main.rs')
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'facts-driver-' + tag)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        _run(['rustc', '+nightly', '--edition', '2021', '-O', '-A', 'warnings', '-o', tmp, src])
        os.replace(tmp, out)
    return out


def extract(repo=None):
    """Type-check the crate in `repo` with the extractor and return the parsed facts."""
    repo = repo or REPO
    drv = driver()
    sysroot = _run(['rustc', '+nightly', '--print', 'sysroot']).strip()
    tmp = tempfile.mkdtemp(prefix='facts-')
    try:
        out = os.path.join(tmp, 'facts.json')
        env = dict(os.environ)
        for k in list(env):
            if k.startswith('RUSTFLAGS') or k.startswith('CARGO_ENCODED'):
                del env[k]
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), CARGO_TARGET_DIR=os.path.join(tmp, 'target'),
                   RUSTC_WORKSPACE_WRAPPER=drv, FACTS_OUT=out, FACTS_CRATE='firrtl_ast')
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '-q'], cwd=repo, env=env,
                           capture_output=True, text=True)
        if not os.path.exists(out):
            raise ToolError('the crate does not type-check:\n' + r.stderr[-4000:])
        return json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


TRANSPARENT = ('std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc', 'alloc::sync::Arc', 'alloc::boxed::Box',
               'std::borrow::Cow')


class Facts:
    def __init__(self, raw):
        self.fnrefs, self.fnidx = [], {}
        self.raw = raw
        self.types = raw['types']
        self.bodies = {b['id']: b for b in raw['bodies']}
        self.items = raw['items']
        self.by_path = {}
        for it in self.items:
            self.by_path.setdefault(it['path'], it)
        self.displays = {t: i for t, i in raw['displays']}
        self.drops = {t: i for t, i in raw['drops']}
        self.adts = {}
        for a in raw['adts']:
            self.adts.setdefault(a['path'], a)
        self._traits = {}
        for it in self.items:
            if it.get('trait') is not None:
                self._traits.setdefault((short(it['trait']), it['name']), []).append(it)
        self._tyname = {}
        for i, t in enumerate(self.types):
            self._tyname.setdefault(t['s'], i)

    # ---- types
    def t(self, i):
        return self.types[i]

    def strip(self, i):
        """Remove references and smart pointers from a type."""
        while i is not None:
            t = self.types[i]
            if t['k'] in ('ref', 'ptr'):
                i = t['of']
            elif t['k'] == 'adt' and t['path'] in TRANSPARENT and t.get('args'):
                i = t['args'][0]
            else:
                return i
        return None

    def path(self, i):
        i = self.strip(i)
        if i is None:
            return None
        t = self.types[i]
        return t['path'] if t['k'] == 'adt' else t['k']

    def is_mutref(self, i):
        t = self.types[i]
        return t['k'] == 'ref' and t.get('mut')

    def variants(self, i):
        i = self.strip(i)
        t = self.types[i]
        if t['k'] == 'adt':
            return t.get('variants')
        return None

    def fieldty(self, i, v, f):
        """Type of a field of a (stripped) type, or None."""
        i = self.strip(i)
        if i is None:
            return None
        t = self.types[i]
        if t['k'] == 'adt':
            try:
                return t['variants'][v or 0]['fields'][f][1]
            except (IndexError, TypeError, KeyError):
                return None
        if t['k'] == 'tuple':
            return t['of'][f] if f < len(t['of']) else None
        if t['k'] == 'closure':
            return t['upvars'][f] if f < len(t['upvars']) else None
        return None

    def elemty(self, i):
        """Element type of a collection type; a pair for maps."""
        i = self.strip(i)
        if i is None:
            return None
        t = self.types[i]
        if t['k'] in ('slice', 'array'):
            return t['of']
        if t['k'] == 'adt' and t.get('args'):
            p = short(t['path'])
            if p in ('HashMap', 'BTreeMap'):
                return ('pair', t['args'][0], t['args'][1])
            return t['args'][0]
        return None

    def is_coll(self, i):
        i = self.strip(i)
        if i is None:
            return False
        t = self.types[i]
        if t['k'] in ('slice', 'array'):
            return True
        return t['k'] == 'adt' and short(t['path']) in ('Vec', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'VecDeque')

    def is_str(self, i):
        i = self.strip(i)
        if i is None:
            return False
        t = self.types[i]
        return t['k'] == 'str' or (t['k'] == 'adt' and t['path'] in ('std::string::String', 'alloc::string::String'))

    def is_int(self, i):
        i = self.strip(i)
        return i is not None and self.types[i]['k'] == 'int'

    def intrange(self, i):
        i = self.strip(i)
        if i is None or self.types[i]['k'] != 'int':
            return None
        s = self.types[i]['s']
        bits = {'8': 8, '16': 16, '32': 32, '64': 64, '128': 128, 'size': 64}[s[1:]]
        return (0, 2 ** bits - 1) if s[0] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)

    def named(self, s):
        return self._tyname.get(s)

    # ---- functions
    def item(self, path):
        return self.by_path.get(path)

    def trait_items(self, trait, method):
        return self._traits.get((trait, method), [])

    def find_items(self, **kw):
        r = []
        for it in self.items:
            if all(it.get(k) == v for k, v in kw.items()):
                r.append(it)
        return r


def short(path):
    """Last path segment without generic arguments."""
    if path is None:
        return None
    d, out = 0, []
    for c in path:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).rstrip(':').split('::')[-1]


_KEYS = {}


def fnkey(f):
    """Normalised name of a callee: `Trait::method`, `Type::method` or `module::function`."""
    p = f.get('rpath') or f.get('path')
    k = (p, f.get('trait'), f.get('name'))
    if k in _KEYS:
        return _KEYS[k]
    if f.get('trait'):
        r = short(f['trait']) + '::' + (f.get('name') or short(f['path']))
    else:
        q = f['path']
        m = re.search(r'<impl ([^>]*(?:<[^>]*>)?[^>]*)>::(\w+)$', q)
        if m:
            s = m.group(1)
            s = {'[T]': 'slice'}.get(s, s.split('<')[0].split('::')[-1].strip())
            if s.startswith('['):
                s = 'slice'
            if re.fullmatch(r'[iu](8|16|32|64|128|size)', s):
                s = 'num'
            r = s + '::' + m.group(2)
        else:
            d, out = 0, []
            for c in q:
                if c == '<':
                    d += 1
                elif c == '>':
                    d -= 1
                elif d == 0:
                    out.append(c)
            segs = [x for x in ''.join(out).replace('::::', '::').split('::') if x]
            r = '::'.join(segs[-2:])
            if segs and segs[0] == 'nom':
                r = 'nom::' + segs[-1] if 'ParserIterator' not in segs else 'ParserIterator::' + segs[-1]
    _KEYS[k] = r
    return r
