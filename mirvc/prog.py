"""The program under verification: MIR of every repository crate plus the ADT definitions of its sources."""
import re, os
from mir import REEXPORT, load_crate, parse_type, Norm, Ty, scan_to, split_top, split_path_generics, ty_str
from src import Source
from engine import unify, unify_eq, specificity, subst_ty, peel, peel_ref, EXT_ALIAS

CRATES = ['utils', 'logic_formula', 'cryptovampire']
IMPL = re.compile(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>')


class Header:
    __slots__ = ('trait', 'targs', 'self_ty', 'generics', 'derived', 'text', 'mod')


class Program:
    def __init__(self, repo, mirdir):
        self.repo = repo
        self.crates = CRATES
        self.src = Source(repo, CRATES)
        short = {}
        for a in self.src.adts:
            segs = a.split('::')
            for i in range(1, len(segs) - 1):
                short.setdefault('::'.join(segs[:i] + segs[-1:]), set()).add(a)
        REEXPORT.update({k: next(iter(v)) for k, v in short.items() if len(v) == 1 and k not in self.src.adts})
        self.fns = {}
        self.bymethod = {}
        self.closures = {}
        self.allocs = {}
        self.opaque_adts = {'cryptovampire::error::location::location::Location', 'cryptovampire::container::reference::Reference', 'cryptovampire::container::reference::FORef'}
        self._hdr = {}
        self.norms = {}
        for c in CRATES:
            d, al = load_crate(os.path.join(mirdir, c + '.mir'), c, self.src.topmods[c])
            for k, v in al.items():
                self.allocs[(c, k)] = v
            for name, l in d.items():
                self.fns.setdefault(c + '::' + name, []).extend(l)
                for f in l:
                    self.norms[c] = f.norm
                    if f.kind != 'fn':
                        continue
                    m = re.search(r'(?:^|::)([A-Za-z_]\w*)$', name)
                    if m:
                        self.bymethod.setdefault(m.group(1), []).append(f)
                    if '{closure#' in name and name.endswith('}'):
                        h = f.text[0][f.text[1]]
                        mm = re.search(r'\(_1: (?:&mut |&)?(\{closure@[^}]*\})', h)
                        if mm:
                            self.closures.setdefault(mm.group(1), []).append(f)

    # ---- lookups
    def promoted(self, fn, s):
        m = re.search(r'::promoted\[\d+\]$', s)
        n = fn.crate + '::' + fn.name + m.group(0)
        l = self.fns.get(n)
        if not l:
            return None
        if len(l) == 1:
            return l[0]
        # several functions with that name (macro expansions): the one nearest after fn in the dump
        best = [x for x in l if x.text[1] > fn.text[1]]
        return best[0] if best else l[0]

    def find_const(self, s, fn):
        base, _ = split_path_generics(s)
        if base.startswith('<'):
            return None
        l = self.fns.get(fn.norm.path(base)) or self.fns.get(fn.crate + '::' + base)
        if l and l[0].kind in ('const', 'constval', 'static'):
            return l[0]
        # associated constants  path::Type::NAME
        segs = base.split('::')
        if len(segs) >= 2 and segs[-1].isupper() or (len(segs) >= 2 and re.match(r'^[A-Z][A-Z0-9_]+$', segs[-1])):
            out = []
            for n, fl in self.const_index().get(segs[-1], []):
                h = self.header(fl)
                if h is not None and h.self_ty is not None:
                    p = peel(h.self_ty)
                    if p[0] == 'adt' and p[1].split('::')[-1] == segs[-2]:
                        out.append(fl)
            if len(out) == 1:
                return out[0]
        return None

    def const_index(self):
        if not hasattr(self, '_ci'):
            self._ci = {}
            for n, l in self.fns.items():
                for f in l:
                    if f.kind in ('const', 'constval') and 'promoted' not in n:
                        self._ci.setdefault(n.split('::')[-1], []).append((n, f))
        return self._ci

    def closure_fn(self, clo):
        l = self.closures.get(clo.id, [])
        if len(l) == 1:
            return l[0]
        if len(l) > 1 and clo.parent is not None:
            p = clo.parent.name
            m = [f for f in l if f.name.startswith(p + '::{closure')]
            if len(m) >= 1:
                return m[0]
            return None
        return None

    def header(self, fn):
        """impl header of the impl block fn is defined in"""
        m = None
        for m in IMPL.finditer(fn.name):
            pass
        if m is None:
            return None
        key = (fn.crate,) + m.groups()
        if key in self._hdr:
            return self._hdr[key]
        r = self._mkheader(fn, m)
        self._hdr[key] = r
        return r

    def _mkheader(self, fn, m):
        t = self.src.span_text(m.group(1), *map(int, m.groups()[1:]))
        h = Header()
        h.trait = None
        h.targs = []
        h.self_ty = None
        h.generics = []
        h.derived = False
        h.text = t or ''
        h.mod = fn.crate
        if t is None:
            return h
        t = re.sub(r'//[^\n]*', '', t)
        t = re.sub(r'\s+', ' ', t).strip()
        if re.match(r'^[A-Za-z_:]+$', t):
            h.derived = True
            h.trait = t.split('::')[-1]
            return h
        if not t.startswith('impl') and not t.startswith('unsafe impl'):
            h.trait = '?'
            return h
        t = t[t.index('impl') + 4:].strip()
        if t.startswith('<'):
            j = scan_to(t, 1, set())
            h.generics = self.src.gen_params(t[:j + 1])
            t = t[j + 1:].strip()
        # where clause
        k = find_word(t, 'where')
        if k >= 0:
            t = t[:k].strip()
        # module of the file
        p = m.group(1)
        mm = re.match(r'^crates/([^/]+)/src/(.*)\.rs$', p)
        if mm:
            segs = mm.group(2).split('/')
            if segs[-1] == 'mod':
                segs = segs[:-1]
            if segs in (['lib'], ['main']):
                segs = []
            h.mod = '::'.join([mm.group(1)] + segs)
        # inline modules: the fn name before <impl gives the real module
        pre = fn.name[:fn.name.index('<impl at')].rstrip(':')
        if pre and not pre.startswith('<'):
            pm = fn.crate + '::' + pre
            if pm in self.src.mods:
                h.mod = pm
        k = find_word(t, 'for')
        params = {g: Ty(('param', g)) for g in h.generics}
        if k >= 0:
            tr = t[:k].strip()
            tb, ta = split_path_generics(tr)
            h.trait = tb.split('::')[-1]
            sty = t[k + 4:].strip()
            params2 = dict(params)
            try:
                h.self_ty = self.src.resolve(sty, h.mod, params)
            except Exception:
                h.self_ty = None
            if h.self_ty is not None:
                params2['Self'] = h.self_ty
            h.targs = []
            for a in ta:
                if a.startswith("'"):
                    continue
                try:
                    h.targs.append(self.src.resolve(a, h.mod, params2))
                except Exception:
                    h.targs.append(None)
        else:
            try:
                h.self_ty = self.src.resolve(t, h.mod, params)
            except Exception:
                h.self_ty = None
        return h

    # ---- call resolution
    def match_sig(self, f, atys, dty, env):
        B = f.body
        if len(B.args) != len(atys):
            return False
        for l, a in zip(B.args, atys):
            if not unify(B.locals[l], a, env):
                return False
        if dty is not None and B.ret[0] != 'opaque' and dty[0] != 'opaque':
            if not unify(B.ret, dty, env):
                return False
        return True

    def candidates(self, eng, c, atys, dty):
        out = []
        if c.kind == 'trait':
            tl = c.trait.split('::')[-1]
            if tl == 'From' and c.method == 'from' and len(c.targs) == 1 and len(atys) == 1 and c.targs[0] is not None and c.targs[0][0] == 'ref' and atys[0] is not None and atys[0][0] != 'ref':
                # called through a function item on the elements of a list: the argument is a reference
                atys = [c.targs[0]]
            for f in self.bymethod.get(c.method, []):
                h = self.header(f)
                if h is None:
                    continue
                if h.trait is None or (h.trait != tl and h.trait != '?'):
                    continue
                if unknown(h.self_ty):
                    hs = None
                else:
                    hs = h.self_ty
                env = {}
                if hs is not None and c.self_ty is not None and not unify(hs, c.self_ty, env):
                    continue
                if hs is None and h.derived:
                    # the formal self parameter decides
                    pass
                ok = True
                for a, b in zip(h.targs, c.targs):
                    if a is not None and not unknown(a) and not unify(a, b, env):
                        ok = False
                if not ok:
                    continue
                if not self.match_sig(f, atys, dty, env):
                    continue
                if hs is None and not f.body.args:
                    # no self type known and no arguments: compare return type only when it is specific
                    if c.self_ty is not None and unify_ret(f, c.self_ty) is False:
                        continue
                if c.self_ty is not None and 'Self' not in env:
                    env['Self'] = c.self_ty
                out.append((f, env, specificity(hs) * 10 + sum(specificity(f.body.locals[l]) for l in f.body.args), hs))
            if not out or all(o[3] is not None and o[3][0] == 'param' for o in out) and self.is_repo_path(c.trait):
                pass
            if not out:
                # default method of a repository trait
                dl = self.fns.get(c.trait + '::' + c.method, [])
                if not dl and self.is_repo_path(c.trait):
                    # a trait known by a re-exported path
                    dl = [f for f in self.bymethod.get(c.method, []) if f.crate == c.trait.split('::')[0] and f.name.split('::')[-2:] == [tl, c.method] and self.header(f) is None]
                for f in dl:
                    if f.kind == 'fn':
                        env = {'Self': c.self_ty}
                        if self.match_sig(f, atys, dty, env):
                            env['Self'] = c.self_ty
                            out.append((f, env, 0, None))
        elif c.kind == 'path' or c.kind == 'inherent':
            if c.kind == 'path':
                l = self.fns.get(c.path)
                if l:
                    for f in l:
                        if f.kind == 'fn':
                            env = {}
                            if self.match_sig(f, atys, dty, env):
                                out.append((f, env, 0, None))
                    if out:
                        return [(o[0], o[1]) for o in out][:1] if len(out) == 1 else [(o[0], o[1]) for o in out]
                if '::' not in c.path:
                    for cr in self.crates:
                        for f in self.fns.get(cr + '::' + c.path, []):
                            env = {}
                            if f.kind == 'fn' and self.match_sig(f, atys, dty, env):
                                out.append((f, env, 0, None))
                    return [(o[0], o[1]) for o in out]
                tpath = '::'.join(c.path.split('::')[:-1])
                tlast = tpath.split('::')[-1]
                if not self.is_repo_path(tpath) :
                    return []
            else:
                tpath = None
                tlast = None
            for f in self.bymethod.get(c.method, []):
                h = self.header(f)
                if h is None or h.trait is not None:
                    if not (h is not None and h.trait == '?'):
                        continue
                env = {}
                if h.self_ty is not None and not unknown(h.self_ty):
                    if tpath is not None:
                        if h.self_ty[0] != 'adt' or h.self_ty[1] != tpath:
                            continue
                        if len(h.self_ty[2]) == len(c.tyargs) and not all(unify(x, y, env) for x, y in zip(h.self_ty[2], c.tyargs)):
                            continue
                    elif c.self_ty is not None and not unify(h.self_ty, c.self_ty, env):
                        continue
                if not self.match_sig(f, atys, dty, env):
                    continue
                if h.self_ty is not None:
                    env.setdefault('Self', subst_ty(h.self_ty, env))
                out.append((f, env, specificity(h.self_ty), None))
            if not out and tpath is not None and re.fullmatch(r'[a-z_]\w*', tlast):
                # a function defined inside an associated function
                owner = '::'.join(tpath.split('::')[:-1])
                for f in self.bymethod.get(c.method, []):
                    h = self.header(f)
                    if h is None or h.self_ty is None or h.self_ty[0] != 'adt' or h.self_ty[1] != owner or not f.name.endswith('>::%s::%s' % (tlast, c.method)):
                        continue
                    env = {}
                    if self.match_sig(f, atys, dty, env):
                        out.append((f, env, 0, None))
        if len(out) > 1:
            m = max(o[2] for o in out)
            out = [o for o in out if o[2] == m]
        return [(o[0], o[1]) for o in out]

    def is_repo_path(self, p):
        return p is not None and p.split('::')[0] in self.crates

    # ---- contracts' anchors
    def find(self, crate, method, impl=None, mod=None, closure=None, file=None, optional=False):
        """function by name; impl: regex on the impl header text, mod: regex on the def path"""
        out = []
        for f in self.bymethod.get(method, []):
            if f.crate != crate:
                continue
            h = self.header(f)
            if impl is not None:
                if h is None or h.derived != (impl == 'derive') and not re.search(impl, re.sub(r'\s+', ' ', h.text)):
                    continue
                if impl != 'derive' and not re.search(impl, re.sub(r'\s+', ' ', h.text)):
                    continue
            elif h is not None and mod is None and file is None:
                continue
            if mod is not None and not re.search(mod, f.name):
                continue
            if file is not None and (h is None or file not in f.name):
                continue
            out.append(f)
        return out


def unify_ret(f, t):
    env = {}
    return unify(f.body.ret, t, env)


def unknown(t):
    return t is None or '?' in ty_str(t)


def find_word(t, w):
    d = 0
    for i, c in enumerate(t):
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and t[i - 1] not in '-='):
            d -= 1
        elif d == 0 and t.startswith(' ' + w + ' ', i):
            return i + 1
    return -1
