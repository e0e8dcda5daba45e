"""ADT definitions, aliases and impl headers read from the repository's sources."""
import os, re
from mir import split_top, scan_to, parse_type, Norm, Ty, PRIMS, split_path_generics

STD = {
    'Option': 'std::option::Option', 'Result': 'std::result::Result', 'Vec': 'std::vec::Vec', 'Box': 'std::boxed::Box',
    'String': 'std::string::String', 'Arc': 'std::sync::Arc', 'Rc': 'std::rc::Rc', 'VecDeque': 'std::collections::VecDeque',
    'PhantomData': 'std::marker::PhantomData', 'RefCell': 'std::cell::RefCell', 'Cell': 'std::cell::Cell', 'HashMap': 'std::collections::HashMap',
    'HashSet': 'std::collections::HashSet', 'BTreeMap': 'std::collections::BTreeMap', 'Ordering': 'std::cmp::Ordering', 'PathBuf': 'std::path::PathBuf',
    'Infallible': 'std::convert::Infallible', 'NonZeroU32': 'std::num::NonZero', 'Iter': 'std::slice::Iter', 'OnceCell': 'std::cell::OnceCell', 'OnceLock': 'std::sync::OnceLock',
    'Weak': 'std::sync::Weak', 'Cow': 'std::borrow::Cow', 'RangeInclusive': 'std::ops::RangeInclusive', 'Range': 'std::ops::Range',
    'BTreeSet': 'std::collections::BTreeSet', 'Path': 'std::path::Path', 'Command': 'std::process::Command', 'Mutex': 'std::sync::Mutex', 'NonNull': 'std::ptr::NonNull',
}


def strip_comments(t):
    out = []
    i = 0
    n = len(t)
    while i < n:
        if t.startswith('//', i):
            j = t.find('\n', i)
            j = n if j < 0 else j
            out.append(' ' * (j - i))
            i = j
        elif t.startswith('/*', i):
            d = 1
            j = i + 2
            while d and j < n:
                if t.startswith('/*', j):
                    d += 1
                    j += 2
                elif t.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            out.append(re.sub(r'[^\n]', ' ', t[i:j]))
            i = j
        elif t[i] == 'r' and re.match(r'r#*"', t[i:i + 6]) and (i == 0 or not (t[i - 1].isalnum() or t[i - 1] == '_')):
            m = re.match(r'r(#*)"', t[i:])
            e = t.find('"' + m.group(1), i + len(m.group(0)))
            e = e + 1 + len(m.group(1))
            out.append('""' + re.sub(r'[^\n]', ' ', t[i + 2:e]))
            i = e
        elif t[i] == '"':
            j = i + 1
            while j < n and t[j] != '"':
                if t[j] == '\\':
                    j += 1
                j += 1
            out.append('"' + re.sub(r'[^\n]', ' ', t[i + 1:j]) + '"')
            i = j + 1
        elif t[i] == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", t[i:i + 14])
            if m:
                out.append("' '" + ' ' * (len(m.group(0)) - 3))
                i += len(m.group(0))
            else:
                out.append("'")
                i += 1
        else:
            out.append(t[i])
            i += 1
    return ''.join(out)


def match_brace(t, i):
    o = t[i]
    c = {'{': '}', '(': ')', '[': ']'}[o]
    d = 0
    n = len(t)
    while i < n:
        if t[i] == o:
            d += 1
        elif t[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    return n


class Adt:
    def __init__(self, path, kind, generics, variants, file, mod):
        self.path = path
        self.kind = kind          # 'struct' | 'enum'
        self.generics = generics  # type params only
        self.variants = variants  # [(name, [(fieldname, typetext)])]
        self.file = file
        self.mod = mod
        self._res = None


class Source:
    def __init__(self, root, crates):
        self.root = root
        self.crates = crates
        self.adts = {}
        self.by_last = {}
        self.aliases = {}
        self.uses = {}
        self.globs = {}
        self.mods = set()
        self.topmods = {}
        self.files = {}
        self.declared = {}  # names of the types declared per file, by macros too
        for c in crates:
            base = os.path.join(root, 'crates', c, 'src')
            tops = set()
            for dp, dn, fs in os.walk(base):
                for f in fs:
                    if f.endswith('.rs'):
                        p = os.path.join(dp, f)
                        rel = os.path.relpath(p, base)[:-3].split(os.sep)
                        if rel[-1] in ('mod',):
                            rel = rel[:-1]
                        if rel == ['lib'] or rel == ['main']:
                            rel = []
                        if rel:
                            tops.add(rel[0])
                        self.scan_file(c, p, '::'.join([c] + rel))
            self.topmods[c] = tops

    def scan_file(self, crate, path, mod):
        raw = open(path, encoding='utf8').read()
        self.files[os.path.relpath(path, self.root)] = raw
        t = strip_comments(raw)
        self.declared.setdefault(mod, set()).update(re.findall(r'\b(?:struct|enum)\s+(\w+)', t))
        self.scan_mod(crate, path, mod, t)

    def scan_mod(self, crate, path, mod, t):
        # nested inline modules
        i = 0
        parts = []
        for m in list(re.finditer(r'\b(?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*\{', t)):
            if m.start() < i:
                continue
            e = match_brace(t, m.end() - 1)
            if m.group(1) not in ('tests', 'test'):
                self.scan_mod(crate, path, mod + '::' + m.group(1), t[m.end():e])
            parts.append(t[i:m.start()])
            i = e + 1
        parts.append(t[i:])
        t = ' '.join(parts)
        # macro definitions are skipped
        t2 = []
        i = 0
        for m in re.finditer(r'(?:macro_rules!\s*\w+|bitflags!)\s*\{', t):
            if m.start() < i:
                continue
            t2.append(t[i:m.start()])
            i = match_brace(t, m.end() - 1) + 1
        t2.append(t[i:])
        t = ''.join(t2)
        uses = self.uses.setdefault(mod, {})
        self.mods.add(mod)
        for m in re.finditer(r'\buse\s+([^;]+);', t):
            self.parse_use(m.group(1).strip(), '', uses, mod, crate)
        for m in re.finditer(r'\btype\s+(\w+)\s*(<[^=;]*>)?\s*=\s*([^;]+);', t):
            # only module level aliases (depth 0)
            if t[:m.start()].count('{') - t[:m.start()].count('}') == 0:
                g = self.gen_params(m.group(2) or '')
                self.aliases.setdefault(m.group(1), []).append((mod, g, m.group(3).strip()))
        for m in re.finditer(r'\b(struct|enum)\s+(\w+)\s*', t):
            j = m.end()
            gen = ''
            if j < len(t) and t[j] == '<':
                e = scan_to(t, j + 1, set())
                gen = t[j:e + 1]
                j = e + 1
            # skip where clause
            rest = t[j:]
            k = re.search(r'[{(;]', rest)
            if not k:
                continue
            if re.match(r'\s*where\b', rest):
                kk = scan_to(rest, 0, {'{', ';'})
                k0 = kk
            else:
                k0 = k.start()
            ch = rest[k0] if k0 < len(rest) else ';'
            kind = m.group(1)
            name = m.group(2)
            variants = []
            if kind == 'struct':
                if ch == '{':
                    e = match_brace(rest, k0)
                    variants = [(name, self.named_fields(rest[k0 + 1:e]))]
                elif ch == '(':
                    e = match_brace(rest, k0)
                    variants = [(name, self.tuple_fields(rest[k0 + 1:e]))]
                else:
                    variants = [(name, [])]
            else:
                if ch != '{':
                    continue
                e = match_brace(rest, k0)
                for v in split_top(self.strip_attrs(rest[k0 + 1:e])):
                    vm = re.match(r'^(\w+)\s*(.*)$', v.strip(), re.S)
                    if not vm:
                        continue
                    b = vm.group(2).strip()
                    if b.startswith('{'):
                        variants.append((vm.group(1), self.named_fields(b[1:match_brace(b, 0)])))
                    elif b.startswith('('):
                        variants.append((vm.group(1), self.tuple_fields(b[1:match_brace(b, 0)])))
                    else:
                        variants.append((vm.group(1), []))
            a = Adt(mod + '::' + name, kind, self.gen_params(gen), variants, path, mod)
            self.adts[a.path] = a
            self.by_last.setdefault(name, []).append(a)

    def parse_use(self, s, prefix, uses, mod, crate):
        s = s.strip()
        m = re.match(r'^(.*?)\{(.*)\}$', s, re.S)
        if m and '{' not in m.group(1):
            p = prefix + m.group(1).strip()
            for x in split_top(m.group(2)):
                self.parse_use(x, p, uses, mod, crate)
            return
        p = (prefix + s)
        if ' as ' in p:
            a, b = p.split(' as ')
            uses[b.strip()] = self.absuse(a.strip(), mod, crate)
        else:
            if p.endswith('::self'):
                p = p[:-6]
            last = p.split('::')[-1].strip()
            if last == '*':
                self.globs.setdefault(mod, []).append(self.absuse(p[:-3], mod, crate))
            else:
                uses[last] = self.absuse(p, mod, crate)

    def absuse(self, p, mod, crate):
        segs = p.split('::')
        if segs[0] == 'crate':
            return '::'.join([crate] + segs[1:])
        if segs[0] == 'self':
            return '::'.join([mod] + segs[1:])
        base = mod.split('::')
        if segs[0] == 'super':
            while segs and segs[0] == 'super':
                base = base[:-1]
                segs = segs[1:]
            return '::'.join(base + segs)
        return p

    def gen_params(self, g):
        g = g.strip()
        if not g:
            return []
        out = []
        for x in split_top(g[1:-1]):
            if x.startswith("'") or x.startswith('const '):
                continue
            mm = re.match(r'^\w+', x)
            if mm:
                out.append(mm.group(0))
        return out

    def strip_attrs(self, s):
        out = []
        i = 0
        while i < len(s):
            if s[i] == '#' and re.match(r'#\s*\[', s[i:i + 5]):
                j = s.index('[', i)
                i = match_brace(s, j) + 1
            else:
                out.append(s[i])
                i += 1
        return ''.join(out)

    def named_fields(self, s):
        r = []
        for x in split_top(self.strip_attrs(s)):
            x = re.sub(r'^\s*pub(\([^)]*\))?\s+', '', x.strip())
            if ':' not in x:
                continue
            k = x.index(':')
            r.append((x[:k].strip(), x[k + 1:].strip()))
        return r

    def tuple_fields(self, s):
        r = []
        for i, x in enumerate(split_top(self.strip_attrs(s))):
            x = re.sub(r'^\s*pub(\([^)]*\))?\s+', '', x.strip())
            r.append((str(i), x))
        return r

    # ---- type resolution of source-level type text
    def resolve(self, text, mod, params):
        t = parse_type(re.sub(r'\s+', ' ', text), Norm('?', set()))
        return self.resolve_ty(t, mod, params, 0)

    def resolve_ty(self, t, mod, params, depth):
        if depth > 30:
            return Ty(('opaque', 'depth'))
        k = t[0]
        R = lambda x: self.resolve_ty(x, mod, params, depth + 1)
        if k in ('ref', 'ptr'):
            return Ty((k, t[1], R(t[2])))
        if k == 'tuple':
            return Ty(('tuple', tuple(R(x) for x in t[1])))
        if k == 'slice':
            return Ty(('slice', R(t[1])))
        if k == 'array':
            return Ty(('array', R(t[1]), t[2]))
        if k == 'param' and t[1] in params:
            return params[t[1]] if isinstance(params, dict) else t
        if k == 'param' or k == 'adt':
            name = t[1]
            args = tuple(R(x) for x in (t[2] if k == 'adt' else ()))
            return self.lookup(name, args, mod, depth)
        return t

    def lookup(self, name, args, mod, depth=0):
        segs = name.split('::')
        last = segs[-1]
        if segs[0] in ('crate', 'self', 'super'):
            r = self.by_full(self.absuse(name, mod, mod.split('::')[0]), args, depth)
        else:
            r = self.by_full(mod + '::' + name, args, depth)
            if r is None:
                r = self.by_full(name, args, depth)
        if r is not None:
            return r
        if last in STD and (len(segs) > 1 or last not in self.by_last):
            return Ty(('adt', STD[last], args))
        c = [a for a in self.by_last.get(last, [])]
        al = self.aliases.get(last, [])
        if len(c) == 1 and not al:
            return Ty(('adt', c[0].path, args))
        if len(al) == 1 and not c:
            am, g, tx = al[0]
            return self.expand_alias(am, g, tx, args, depth)
        if last in STD:
            return Ty(('adt', STD[last], args))
        if name in self.declared.get(mod, ()):
            return Ty(('adt', mod + '::' + name, args))
        return Ty(('adt', '?' + name, args))

    def abscands(self, pm, r, rest):
        head = r.split('::')[0]
        if head in self.crates or head in ('std', 'core', 'alloc'):
            return ['::'.join([r] + rest)]
        if pm + '::' + head in self.mods or pm + '::' + r in self.adts:
            return ['::'.join([pm, r] + rest)]
        if head in self.uses.get(pm, {}) and self.uses[pm][head] != r:
            return ['::'.join([pm, r] + rest)]
        return []

    def by_full(self, u, args, depth):
        """u: absolute path, perhaps through re-exports (breadth first: the closest re-export)"""
        todo, seen = [u], {u}
        for u in todo:
            if len(todo) > 400:
                return None
            r = self.by_exact(u, args, depth)
            if r is not None:
                return r
            for c in self.reexports(u):
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        return None

    def by_exact(self, u, args, depth):
        if u in self.adts:
            return Ty(('adt', u, args))
        segs = u.split('::')
        last = segs[-1]
        m = '::'.join(segs[:-1])
        for (am, g, tx) in self.aliases.get(last, []):
            if am == m:
                return self.expand_alias(am, g, tx, args, depth)
        if segs[0] in ('std', 'core', 'alloc'):
            if last in STD:
                return Ty(('adt', STD[last], args))
            return Ty(('adt', 'std::' + '::'.join(segs[1:]), args))
        return None

    def reexports(self, u):
        """re-exports / imports of any prefix"""
        segs = u.split('::')
        for k in range(len(segs) - 1, 0, -1):
            pm = '::'.join(segs[:k])
            r = self.uses.get(pm, {}).get(segs[k])
            if r:
                yield from self.abscands(pm, r, segs[k + 1:])
            for g in self.globs.get(pm, []):
                yield from self.abscands(pm, g, segs[k:])

    def expand_alias(self, am, g, tx, args, depth):
        params = dict(zip(g, args))
        t = parse_type(re.sub(r'\s+', ' ', tx), Norm('?', set()))
        return self.resolve_ty(t, am, params, depth + 1)

    def fields(self, adt, args):
        """resolved variants [(name,[(fname,Ty)])] with generics substituted"""
        params = dict(zip(adt.generics, args))
        for g in adt.generics:
            params.setdefault(g, Ty(('param', g)))
        params['Self'] = Ty(('adt', adt.path, tuple(params[g] for g in adt.generics)))
        out = []
        for v, fs in adt.variants:
            out.append((v, [(n, self.resolve(tx, adt.mod, params)) for n, tx in fs]))
        return out

    # ---- impl headers
    def span_text(self, file, l1, c1, l2, c2):
        raw = self.files.get(file)
        if raw is None:
            return None
        lines = raw.split('\n')
        if l1 == l2:
            return lines[l1 - 1][c1 - 1:c2 - 1]
        seg = [lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]]
        return '\n'.join(seg)
