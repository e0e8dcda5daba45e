"""Deductive verifier for rustc MIR: symbolic execution against contracts, obligations discharged by z3.

One function is verified at a time: its arguments are arbitrary values of their types, calls to functions that
carry a contract use only that contract, other repository functions are inlined from their MIR, library functions
use the models of models.py or are havocked.
"""
import os, re, itertools, time
import z3
from mir import (Ty, parse_type, parse_block, split_top, split_path_generics, scan_to, find_as, ty_str, INT_BITS, PRIMS)


class Unsupported(Exception):
    pass


class Anchor(Unsupported):
    """the function a contract is attached to was not found"""


# ------------------------------------------------------------------------------------------------ types
TRANSPARENT = {'std::boxed::Box': 0, 'std::sync::Arc': 0, 'std::rc::Rc': 0, 'std::ptr::Unique': 0, 'std::ptr::NonNull': 0,
               'std::mem::ManuallyDrop': 0, 'std::pin::Pin': 0, 'std::ptr::non_null::NonNull': 0, 'std::ptr::unique::Unique': 0,
               'std::borrow::Cow': 0, 'std::mem::MaybeUninit': 0}
LISTS = {'std::vec::Vec', 'std::collections::VecDeque', 'std::collections::vec_deque::VecDeque'}
STRS = {'std::string::String', 'std::path::Path', 'std::path::PathBuf', 'std::ffi::OsStr', 'std::ffi::OsString'}
EXT_ADTS = {
    'std::option::Option': (['T'], [('None', []), ('Some', [('0', 'T')])]),
    'std::result::Result': (['T', 'E'], [('Ok', [('0', 'T')]), ('Err', [('0', 'E')])]),
    'std::ops::ControlFlow': (['B', 'C'], [('Continue', [('0', 'C')]), ('Break', [('0', 'B')])]),
    'std::cmp::Ordering': ([], [('Less', []), ('Equal', []), ('Greater', [])]),
    'either::Either': (['L', 'R'], [('Left', [('0', 'L')]), ('Right', [('0', 'R')])]),
    'itertools::EitherOrBoth': (['A', 'B'], [('Both', [('0', 'A'), ('1', 'B')]), ('Left', [('0', 'A')]), ('Right', [('0', 'B')])]),
    'std::ops::Range': (['T'], [('Range', [('start', 'T'), ('end', 'T')])]),
    'std::ops::RangeInclusive': (['T'], [('RangeInclusive', [('start', 'T'), ('end', 'T')])]),
    'std::ops::RangeFrom': (['T'], [('RangeFrom', [('start', 'T')])]),
    'std::ops::RangeTo': (['T'], [('RangeTo', [('end', 'T')])]),
    'std::ops::RangeFull': ([], [('RangeFull', [])]),
    'std::cmp::Reverse': (['T'], [('Reverse', [('0', 'T')])]),
}
EXT_ALIAS = {'itertools::Either': 'either::Either', 'itertools::either_or_both::EitherOrBoth': 'itertools::EitherOrBoth',
             'std::ops::control_flow::ControlFlow': 'std::ops::ControlFlow', 'std::ops::range::Range': 'std::ops::Range'}
DISCR = {'std::cmp::Ordering': [-1, 0, 1]}


def subst_ty(t, env):
    if not env or t is None:
        return t
    k = t[0]
    if k == 'param':
        return env.get(t[1], t)
    if k == 'opaque':
        return env.get(t[1], t)
    if k in ('ref', 'ptr'):
        return Ty((k, t[1], subst_ty(t[2], env)))
    if k == 'tuple':
        return Ty((k, tuple(subst_ty(x, env) for x in t[1])))
    if k == 'slice':
        return Ty((k, subst_ty(t[1], env)))
    if k == 'array':
        n = env.get('const ' + t[2])
        return Ty((k, subst_ty(t[1], env), n[1] if n is not None else t[2]))
    if k == 'adt':
        return Ty((k, t[1], tuple(subst_ty(x, env) for x in t[2])))
    if k == 'proj':
        r = Ty((k, subst_ty(t[1], env), t[2], t[3]))
        v = env.get(ty_str(r))
        return v if v is not None else r
    return t


def peel(t):
    """strip references and transparent boxes"""
    while t is not None:
        if t[0] in ('ref', 'ptr'):
            t = t[2]
        elif t[0] == 'adt' and t[1] in TRANSPARENT and t[2]:
            t = t[2][0]
        else:
            return t
    return t


def peel_ref(t):
    while t is not None and t[0] in ('ref', 'ptr'):
        t = t[2]
    return t


def unify(f, a, env):
    """bind params of formal f so that it equals a; None is a wildcard"""
    if f is None or a is None:
        return True
    if f[0] == 'param' or (f[0] == 'opaque' and f[1].startswith('impl ')):
        o = env.get(f[1])
        if o is None:
            env[f[1]] = a
            return True
        return unify_eq(o, a)
    if a[0] == 'param' or a[0] == 'proj' or f[0] == 'proj':
        if f[0] == 'proj' or a[0] == 'proj':
            return True
        return f == a
    if f[0] == 'opaque' or a[0] == 'opaque':
        return f[0] == a[0] and (f[1] == a[1] or f[1].split('<')[0] == a[1].split('<')[0]) or (f[0] == 'opaque' and f[1].startswith('fn(')) or (a[0] == 'opaque' and a[1].startswith('impl '))
    if f[0] != a[0]:
        return False
    k = f[0]
    if k == 'ref':
        return f[1] == a[1] and unify(f[2], a[2], env)
    if k == 'ptr':
        return unify(f[2], a[2], env)
    if k == 'tuple':
        return len(f[1]) == len(a[1]) and all(unify(x, y, env) for x, y in zip(f[1], a[1]))
    if k in ('slice', 'array'):
        if k == 'array' and not f[2].isdigit():
            env.setdefault('const ' + f[2], Ty(('const', a[2])))
        return unify(f[1], a[1], env)
    if k == 'adt':
        if EXT_ALIAS.get(f[1], f[1]) != EXT_ALIAS.get(a[1], a[1]):
            return False
        return all(unify(x, y, env) for x, y in zip(f[2], a[2]))
    if k == 'closure':
        return f[1] == a[1]
    return f == a


def unify_eq(o, a):
    return o == a or unify(o, a, {})


def specificity(t):
    """number of non-parameter nodes"""
    if t is None:
        return 0
    k = t[0]
    if k in ('param', 'opaque', 'proj'):
        return 0
    if k in ('ref', 'ptr'):
        return 1 + specificity(t[2])
    if k == 'tuple':
        return 1 + sum(map(specificity, t[1]))
    if k in ('slice', 'array'):
        return 1 + specificity(t[1])
    if k == 'adt':
        return 1 + sum(map(specificity, t[2]))
    return 1


# ------------------------------------------------------------------------------------------------ values
class Value:
    ty = None


class Z(Value):
    __slots__ = ('e', 'ty')

    def __init__(self, e, ty):
        self.e = e
        self.ty = ty

    def __repr__(self):
        return 'Z(%s)' % (self.e,)


class Agg(Value):
    """a value with a known constructor. ty: adt or tuple type"""
    __slots__ = ('ty', 'variant', 'fields')

    def __init__(self, ty, variant, fields):
        self.ty = ty
        self.variant = variant
        self.fields = list(fields)

    def __repr__(self):
        return 'Agg(%s#%s %r)' % (ty_str(self.ty).split('::')[-1], self.variant, self.fields)


class MutRef(Value):
    __slots__ = ('cell', 'projs', 'ty')

    def __init__(self, cell, projs, ty):
        self.cell = cell
        self.projs = tuple(projs)
        self.ty = ty   # pointee type

    def __repr__(self):
        return 'MutRef(%s,%s)' % (self.cell, self.projs)


class Clo(Value):
    __slots__ = ('id', 'caps', 'tenv', 'parent', 'ty')

    def __init__(self, id, caps, tenv, parent):
        self.id = id
        self.caps = caps
        self.tenv = tenv
        self.parent = parent
        self.ty = Ty(('closure', id))

    def __repr__(self):
        return 'Clo(%s)' % self.id[-40:]


class FnItem(Value):
    __slots__ = ('path', 'tenv', 'norm', 'ty')

    def __init__(self, path, tenv, norm):
        self.path = path
        self.tenv = tenv
        self.norm = norm
        self.ty = Ty(('opaque', 'fn ' + path))

    def __repr__(self):
        return 'FnItem(%s)' % self.path


class SeqV(Value):
    """a finite sequence: length (z3 Int) and element function. elt: element type"""
    __slots__ = ('len', 'at', 'elt', 'z', 'ty', 'conc', 'parts', 'flat', 'sel', 'eff')

    def __init__(self, length, at, elt, z=None, conc=None):
        self.len = z3.IntVal(length) if isinstance(length, int) else length
        self.at = at       # at(i: z3 Int) -> Value
        self.elt = elt
        self.z = z         # z3 list term denoting the same list, if any
        self.ty = Ty(('slice', elt)) if elt is not None else None
        self.conc = conc   # python list of Values if fully known
        self.parts = None  # the sequences it is the concatenation of
        self.flat = None   # Flat: it is the concatenation of inner sequences indexed by an outer sequence
        self.eff = None    # (source, closure): the elements are computed, with side effects, when the sequence is consumed
        self.sel = None    # (source, keep, idx, inv): it is a selection of the elements of a source

    def __repr__(self):
        return 'Seq(len=%s%s)' % (self.len, ',' + repr(self.conc) if self.conc is not None else '')


class Flat:
    """outer: outer sequence; alts(k) -> [(guard, inner sequence)]; element number pos(k, j) is element j of the k-th inner one, oi and ii are the inverse"""

    def __init__(self, outer, alts, oi, ii, pos):
        self.outer, self.alts, self.oi, self.ii, self.pos = outer, alts, oi, ii, pos

    def len_at(self, k):
        l = self.alts(k)
        e = l[-1][1].len
        for g, v in reversed(l[:-1]):
            e = z3.If(g, v.len, e)
        return e


WEAK = {'pull': {'smt.pull_nested_quantifiers': True}, 'relevancy': {'smt.relevancy': 0}, 'pull3': {'smt.pull_nested_quantifiers': True, 'smt.random_seed': 3}, 'relevancy3': {'smt.relevancy': 0, 'smt.random_seed': 3}}


def quant(eng, seq, pred, every, last=False):
    """every/some element of the sequence satisfies pred(Value) -> Bool, stated along the way the sequence was built"""
    B = z3.BoolVal
    conn = (lambda l: z3.And(l or [B(True)])) if every else (lambda l: z3.Or(l or [B(False)]))
    if seq.conc is not None:
        return conn([pred(v) for v in seq.conc])
    if seq.parts is not None:
        return conn([quant(eng, p, pred, every, last) for p in seq.parts])
    k = z3.Int('q!%d' % next(eng.cnt))
    if seq.flat is not None:
        def one(g, v):
            b = quant(eng, v, pred, every)
            return b if z3.is_true(g) else z3.Implies(g, b) if every else z3.And(g, b)
        return over_index(eng, seq.flat.outer, k, conn([one(g, v) for g, v in seq.flat.alts(k)]), every)
    if last and seq.sel is None:
        n = seq.len - 1
        c, p = z3.And(k >= 0, k < n), pred(seq.at(k))
        if every:
            return z3.And(z3.ForAll([k], z3.Implies(c, p)), z3.Implies(seq.len > 0, pred(seq.at(n))))
        return z3.Or(z3.Exists([k], z3.And(c, p)), z3.And(seq.len > 0, pred(seq.at(n))))
    return over_index(eng, seq, k, pred(seq.at(k)), every)


def over_index(eng, seq, k, body, every):
    """body(k) for every/some index k of the sequence"""
    def rng(b, *cs):
        return z3.Implies(z3.And(*cs), b) if every else z3.And(*cs, b)
    Q = z3.ForAll if every else z3.Exists
    n = next(eng.cnt)
    if seq.sel is not None:
        src, keep, idx, inv = seq.sel
        i = z3.Int('q!%d' % n)
        b = z3.substitute(z3.substitute(body, (idx(k), i)), (k, inv(i)))
        return over_index(eng, src, i, rng(b, keep(i)), every)
    if seq.flat is not None:
        f = seq.flat
        o, j = z3.Int('qo!%d' % n), z3.Int('qi!%d' % n)
        b = z3.substitute(z3.substitute(body, (f.oi(k), o), (f.ii(k), j)), (k, f.pos(o, j)))
        return over_index(eng, f.outer, o, Q([j], rng(b, j >= 0, j < f.len_at(o))), every)
    return Q([k], rng(body, k >= 0, k < seq.len))


class It(Value):
    """iterator over seq[lo:hi), possibly infinite (hi None), peeked: index already counted in lo"""
    __slots__ = ('seq', 'lo', 'hi', 'ty', 'peekable', 'bounds')

    def __init__(self, seq, lo=0, hi=None, peekable=False):
        self.seq = seq
        self.lo = z3.IntVal(lo) if isinstance(lo, int) else lo
        self.hi = seq.len if hi is None else hi
        self.ty = None
        self.peekable = peekable

    def __repr__(self):
        return 'It(%s,%s,%r)' % (self.lo, self.hi, self.seq)


class Opq(Value):
    """something the verifier keeps no information about (formatting machinery, loggers ...)"""
    __slots__ = ('ty', 'tag')

    def __init__(self, ty, tag=''):
        self.ty = ty
        self.tag = tag

    def __repr__(self):
        return 'Opq(%s)' % (self.tag,)


class Disc(Value):
    __slots__ = ('v', 'ty', 'adt')

    def __init__(self, v, adt):
        self.v = v
        self.adt = adt
        self.ty = Ty(('prim', 'isize'))


UNIT_TY = Ty(('tuple', ()))
BOOL_TY = Ty(('prim', 'bool'))
USIZE = Ty(('prim', 'usize'))
STR_TY = Ty(('prim', 'str'))
UNIT = Agg(UNIT_TY, 0, [])


def option_ty(t):
    return Ty(('adt', 'std::option::Option', (t,)))


# ------------------------------------------------------------------------------------------------ state
class State:
    __slots__ = ('mem', 'pc', 'cuts', 'visits', 'ghost')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.cuts = {}
        self.visits = {}
        self.ghost = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.cuts = dict(self.cuts)
        s.visits = dict(self.visits)
        s.ghost = dict(self.ghost)
        return s

    def branch(self, c):
        self.pc.append(('b', c))

    def assume(self, c):
        if not z3.is_true(c):
            self.pc.append(('a', c))


class Obligation:
    def __init__(self, name, fn, verdict, dt, detail='', model=None):
        self.name = name
        self.fn = fn
        self.verdict = verdict
        self.dt = dt
        self.detail = detail
        self.model = model


# ------------------------------------------------------------------------------------------------ engine
class Callee:
    __slots__ = ('kind', 'self_ty', 'trait', 'targs', 'method', 'margs', 'path', 'text', 'tyargs')

    def __repr__(self):
        return self.text


class Engine:
    def __init__(self, prog, budget_s=600, query_ms=20000, log=None):
        self.prog = prog
        self.src = prog.src
        self.sorts = {}
        self.dts = {}
        self.axioms = []       # library axioms (lists, machine integers)
        self.defs = []         # definitions of specification functions (not used for path feasibility)
        self.axiom_keys = set()
        self.cnt = itertools.count()
        self.scopes = []       # lists of fresh constants (for lambda lifting)
        self.obls = []
        self.contracts = {}    # id(Fn) -> Contract
        self.views = []        # iterator views: fn(engine, st, value, ty) -> SeqV or None
        self.hooks = []        # call models supplied by specs: fn(engine, st, callee, args, argtys, destty) -> outcomes or None
        self.verifying = None
        self.stack = []
        self.inlined = set()
        self.used_contracts = set()
        self.havocked = {}
        self.modelled = set()
        self.query_ms = query_ms
        self.deadline = time.time() + budget_s
        self.nquery = 0
        self.solver_s = 0.0
        self.frames = itertools.count()
        self.log = log
        self.feas_cache = {}
        self.panic_mode = 'obligation'
        self.trace = False
        self.list_funs = {}
        self.assumptions = set()

    # ---------------------------------------------------------------- sorts
    def canon(self, t):
        t = peel(t)
        if t is None:
            raise Unsupported('unknown type')
        k = t[0]
        if k in ('slice', 'array'):
            return Ty(('list', self.canon(t[1])))
        if k == 'adt':
            p = EXT_ALIAS.get(t[1], t[1])
            if p in LISTS:
                return Ty(('list', self.canon(t[2][0])))
            if p in STRS:
                return STR_TY
            if p == 'std::marker::PhantomData':
                return UNIT_TY
            return Ty(('adt', p, tuple(self.canon(x) for x in t[2])))
        if k == 'tuple':
            return Ty(('tuple', tuple(self.canon(x) for x in t[1])))
        if k == 'opaque' and t[1].startswith('dyn '):
            # trait objects: one sort per principal trait
            r = self._dynnames.get(t[1])
            if r is None:
                m = re.match(r'dyn (?:for<[^>]*>\s*)?([\w:]+)', t[1])
                r = Ty(('opaque', 'dyn ' + m.group(1).split('::')[-1])) if m else t
                self._dynnames[t[1]] = r
            return r
        if k == 'proj':
            for f in self.assoc:
                r = f(self, t)
                if r is not None:
                    return self.canon(r)
        return t

    # resolution of associated types: functions (engine, projection type) -> type or None
    assoc = []

    _dynnames = {}

    def sort(self, t):
        c = self.canon(t)
        s = self.sorts.get(c)
        if s is None:
            s = self._mk_sort(c)
            self.sorts[c] = s
        return s

    def _mk_sort(self, c):
        k = c[0]
        if k == 'prim':
            n = c[1]
            if n == 'bool':
                return z3.BoolSort()
            if n == 'str':
                return z3.StringSort()
            if n in INT_BITS or n == 'char':
                return z3.IntSort()
            return z3.DeclareSort('prim_' + n)
        if k == 'list':
            self.sort(c[1])
            return z3.DeclareSort('List<%s>' % ty_str(c[1]))
        if k in ('adt', 'tuple'):
            v = self.variants(c)
            if v is not None:
                self.mk_datatypes(c)
                return self.sorts[c]
        return z3.DeclareSort('U<%s>' % (ty_str(c) if k != 'list' else str(c)))

    def is_dt(self, t):
        c = self.canon(t)
        return c[0] in ('adt', 'tuple') and self.variants(c) is not None

    def variants(self, t):
        """[(variant name, [(field, Ty)])] of an ADT/tuple type or None when opaque"""
        k = t[0]
        if k == 'tuple':
            return [('tuple', [(str(i), x) for i, x in enumerate(t[1])])]
        if k != 'adt':
            return None
        p = EXT_ALIAS.get(t[1], t[1])
        if p in EXT_ADTS:
            g, vs = EXT_ADTS[p]
            env = dict(zip(g, t[2]))
            return [(v, [(n, env.get(x, Ty(('param', x)))) for n, x in fs]) for v, fs in vs]
        if p in self.prog.opaque_adts:
            return None
        a = self.src.adts.get(p)
        if a is None:
            return None
        key = ('v', t)
        r = self.dts.get(key)
        if r is None:
            r = self.src.fields(a, t[2])
            self.dts[key] = r
        return r

    def mk_datatypes(self, root):
        # Tarjan over direct (non-list) field references
        index = {}
        low = {}
        onst = []
        sccs = []

        def deps(c):
            out = []
            for v, fs in self.variants(c):
                for n, t in fs:
                    d = self.canon(t)
                    if d[0] in ('adt', 'tuple') and d not in self.sorts and self.variants(d) is not None:
                        out.append(d)
            return out

        def go(c):
            index[c] = low[c] = len(index)
            onst.append(c)
            for d in deps(c):
                if d not in index:
                    go(d)
                    low[c] = min(low[c], low[d])
                elif d in onst:
                    low[c] = min(low[c], index[d])
            if low[c] == index[c]:
                scc = []
                while True:
                    d = onst.pop()
                    scc.append(d)
                    if d == c:
                        break
                self.mk_scc(scc)
        go(root)

    def mk_scc(self, scc):
        names = {c: ty_str(c) for c in scc}
        # lists of members of this scc are uninterpreted sorts declared up front
        dts = {c: z3.Datatype(names[c]) for c in scc}
        for c in scc:
            for vi, (v, fs) in enumerate(self.variants(c)):
                fl = []
                for fi, (n, t) in enumerate(fs):
                    d = self.canon(t)
                    if d in dts:
                        so = dts[d]
                    elif d[0] == 'list':
                        if d not in self.sorts:
                            self.sorts[d] = z3.DeclareSort('List<%s>' % ty_str(d[1]))
                        so = self.sorts[d]
                    else:
                        so = self.sort(d)
                    fl.append(('%s!%d.%d' % (names[c], vi, fi), so))
                dts[c].declare('%s!%s' % (names[c], v), *fl)
        res = z3.CreateDatatypes(*[dts[c] for c in scc])
        for c, s in zip(scc, res):
            self.sorts[c] = s

    def ctor(self, t, vi):
        s = self.sort(t)
        return s.constructor(vi)

    def fresh(self, name, sort):
        c = z3.Const('%s!%d' % (name, next(self.cnt)), sort)
        if self.scopes:
            self.scopes[-1].append(c)
        return c

    def fresh_val(self, name, t, st=None):
        c = self.canon(t)
        if c == UNIT_TY:
            return UNIT
        e = self.fresh(name, self.sort(t))
        v = Z(e, t)
        if st is not None:
            self.range_assume(st, v)
        return v

    def range_assume(self, st, v):
        """machine integers are in range; lists have non-negative length"""
        if not isinstance(v, Z):
            return
        t = peel(v.ty)
        if t[0] == 'prim' and t[1] in INT_BITS:
            lo, hi = int_range(t[1])
            st.assume(z3.And(v.e >= lo, v.e <= hi))
        elif t[0] == 'array' and t[2].isdigit():
            ln, _ = self.list_fns(t)
            st.assume(ln(v.e) == int(t[2]))
        elif t[0] == 'array' and re.match(r'^[A-Z][A-Z0-9_]*$', t[2]):
            ln, _ = self.list_fns(t)
            st.assume(ln(v.e) == self.const_param(t[2], st))

    def const_param(self, n, st):
        c = z3.Int('const!' + n)
        st.assume(z3.And(c >= 0, c < (1 << 63)))
        return c

    # ---------------------------------------------------------------- lists
    def list_fns(self, t):
        c = self.canon(t)
        assert c[0] == 'list', c
        r = self.list_funs.get(c)
        if r is None:
            s = self.sort(c)
            es = self.sort(c[1])
            ln = z3.Function('len<%s>' % ty_str(c[1]), s, z3.IntSort())
            nth = z3.Function('nth<%s>' % ty_str(c[1]), s, z3.IntSort(), es)
            diff = z3.Function('diff<%s>' % ty_str(c[1]), s, s, z3.IntSort())
            self.list_funs[c] = (ln, nth, diff, s)
            x = z3.Const('l', s)
            self.axioms.append(z3.ForAll([x], ln(x) >= 0, patterns=[ln(x)]))
            pe = peel(c[1])
            if pe[0] == 'prim' and pe[1] in INT_BITS:
                i = z3.Int('i')
                lo, hi = int_range(pe[1])
                self.axioms.append(z3.ForAll([x, i], z3.And(nth(x, i) >= lo, nth(x, i) <= hi), patterns=[nth(x, i)]))
            r = self.list_funs[c]
        return r[0], r[1]

    def list_eq(self, t, a, b):
        """pointwise equality as a (quantified) formula"""
        ln, nth = self.list_fns(t)
        i = z3.Int('i!%d' % next(self.cnt))
        return z3.And(ln(a) == ln(b), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ln(a)), nth(a, i) == nth(b, i))))

    def as_seq(self, v, st=None):
        """list-like value -> SeqV"""
        if isinstance(v, SeqV):
            return v
        if isinstance(v, MutRef) and st is not None:
            return self.as_seq(self.load(st, v), st)
        if isinstance(v, It):
            lo = v.lo
            if v.seq.eff is not None:
                raise Unsupported('reading a sequence computed with side effects')
            if is_int(lo, 0) and v.hi is v.seq.len:
                return v.seq
            seq = v.seq
            conc = None
            if seq.conc is not None and is_num(lo) and is_num(v.hi):
                conc = seq.conc[num(lo):num(v.hi)]
            return SeqV(v.hi - lo if not is_int(lo, 0) else v.hi, lambda i: seq.at(i + lo), seq.elt, conc=conc)
        if isinstance(v, Z):
            c = self.canon(v.ty)
            if c[0] == 'list':
                ln, nth = self.list_fns(c)
                pt = peel(v.ty)
                elt = pt[2][0] if pt[0] == 'adt' else pt[1]
                e = v.e
                n = ln(e)
                if pt[0] == 'array' and pt[2].isdigit():
                    n = int(pt[2])
                    return SeqV(n, lambda i: Z(nth(e, i), elt), elt, z=e, conc=[Z(nth(e, z3.IntVal(j)), elt) for j in range(n)])
                return SeqV(n, lambda i: Z(nth(e, i), elt), elt, z=e)
        raise Unsupported('not a sequence: %r' % (v,))

    def conc_seq(self, vals, elt):
        vals = list(vals)
        eng = self

        def at(i):
            if is_num(i):
                return vals[num(i)] if 0 <= num(i) < len(vals) else (vals[0] if vals else Z(z3.Const('undef<%s>' % ty_str(elt), eng.sort(elt)), elt))
            if len(vals) == 1:
                return vals[0]
            if not vals:
                return Z(z3.Const('undef<%s>' % ty_str(elt), eng.sort(elt)), elt)
            r = eng.z(vals[-1], elt)
            for j in range(len(vals) - 2, -1, -1):
                r = z3.If(i == j, eng.z(vals[j], elt), r)
            return Z(r, elt)
        return SeqV(len(vals), at, elt, conc=vals)

    def seq_to_z(self, s, st, ty=None):
        if s.z is not None:
            fs = getattr(s, 'facts', None)
            if fs and st is not None and not any(c is fs[0] for _, c in st.pc):
                for f in fs:
                    st.assume(f)
            return s.z
        if s.elt is None and ty is not None and peel(ty)[0] in ('slice', 'array'):
            s.elt = peel(ty)[1]
        if s.elt is None and ty is not None and peel(ty)[0] == 'adt' and peel(ty)[1] in LISTS:
            s.elt = peel(ty)[2][0]
        if s.elt is None:
            raise Unsupported('sequence of unknown element type')
        lt = Ty(('slice', s.elt))
        ln, nth = self.list_fns(lt)
        L = self.fresh('list', self.sort(lt))
        facts = [ln(L) == s.len]
        if s.conc is not None:
            for j, x in enumerate(s.conc):
                facts.append(nth(L, z3.IntVal(j)) == self.z(x, s.elt, st))
        else:
            i = z3.Int('i!%d' % next(self.cnt))
            sub = State()
            body = self.z(s.at(i), s.elt, sub)
            extra = [c for _, c in sub.pc]
            f = z3.Implies(z3.And(i >= 0, i < s.len), z3.And(nth(L, i) == body, *extra) if extra else nth(L, i) == body)
            facts.append(z3.ForAll([i], f, patterns=[nth(L, i)] + ([s.sel[2](i)] if s.sel is not None else [])))
        for f in facts:
            if st is not None:
                st.assume(f)
            else:
                raise Unsupported('list materialised without a state')
        s.z = L
        s.facts = facts
        return L

    # ---------------------------------------------------------------- value -> z3
    def z(self, v, ty=None, st=None):
        if isinstance(v, Z):
            return v.e
        if isinstance(v, Agg):
            t = v.ty
            if t[0] == 'tuple' and ty is not None and peel(ty)[0] == 'tuple':
                t = peel(ty)
            if t[0] == 'adt' and ty is not None:
                pt = peel(ty)
                if pt[0] == 'adt' and EXT_ALIAS.get(pt[1], pt[1]) == EXT_ALIAS.get(t[1], t[1]):
                    t = pt
            c = self.canon(t)
            if c == UNIT_TY:
                return self.ctor(UNIT_TY, 0)()
            vs = self.variants(c)
            if vs is None:
                raise Unsupported('aggregate of opaque type ' + ty_str(t))
            fts = vs[v.variant][1]
            con = self.ctor(t, v.variant)
            args = [self.z(f, ft, st) for f, (_, ft) in zip(v.fields, fts)]
            try:
                return con(*args)
            except z3.Z3Exception as e:
                raise Unsupported('sort mismatch building %s: %s' % (ty_str(t), [a.sort() for a in args]))
        if isinstance(v, SeqV):
            return self.seq_to_z(v, st, ty)
        if isinstance(v, MutRef) and st is not None:
            return self.z(self.load(st, v), ty, st)
        if isinstance(v, It):
            raise Unsupported('iterator used as a value')
        if isinstance(v, Opq) and ty is not None:
            return self.fresh('opq', self.sort(ty))
        if isinstance(v, (Clo, FnItem)) and ty is not None:
            key = 'clo:' + repr(v)
            return z3.Const('fnval!' + key, self.sort(ty))
        if isinstance(v, Disc):
            return self.disc_int(v, st)
        raise Unsupported('no z3 value for %r' % (v,))

    def disc_int(self, d, st=None):
        v = d.v
        if isinstance(v, MutRef):
            v = self.load(st, v)
        dv = DISCR.get(d.adt)
        if isinstance(v, Agg):
            return z3.IntVal(dv[v.variant] if dv else v.variant)
        s = v.e.sort()
        n = s.num_constructors()
        r = z3.IntVal(dv[n - 1] if dv else n - 1)
        for i in range(n - 2, -1, -1):
            r = z3.If(s.recognizer(i)(v.e), z3.IntVal(dv[i] if dv else i), r)
        return r

    # ---------------------------------------------------------------- projections
    def project(self, v, ty, variant, i, fty, st):
        """field i of value v of static type ty (variant name or None)"""
        if isinstance(v, MutRef):
            if ty is not None and ty[0] == 'adt' and ty[1] == 'std::boxed::Box' and isinstance(self.load(st, v), Opq):
                return v        # the pointer inside a box whose content is being initialised (vec! literal)
            v = self.load(st, v)
        if isinstance(v, Agg):
            if i < len(v.fields):
                return v.fields[i]
            raise Unsupported('field %d of %r' % (i, v))
        if isinstance(v, Clo):
            return v.caps[i]
        pt = peel(ty) if ty is not None else None
        if ty is not None:
            rt = peel_ref(ty)
            if rt is not None and rt[0] == 'adt' and rt[1] in TRANSPARENT:
                return v
        if isinstance(v, Z):
            c = self.canon(v.ty if v.ty is not None else ty)
            vs = self.variants(c)
            if vs is None:
                if fty is not None:
                    # opaque type: uninterpreted accessor
                    f = z3.Function('fld<%s>.%s.%d' % (ty_str(c), variant, i), v.e.sort(), self.sort(fty))
                    return Z(f(v.e), fty)
                raise Unsupported('field of opaque ' + ty_str(c))
            vi = 0
            if variant is not None:
                names = [n for n, _ in vs]
                vi = names.index(variant) if variant in names else int(variant)
            s = v.e.sort()
            ft = vs[vi][1][i][1]
            if z3.is_app(v.e) and v.e.decl().eq(s.constructor(vi)):
                return Z(v.e.arg(i), ft)
            return Z(s.accessor(vi, i)(v.e), ft)
        if isinstance(v, (Opq,)):
            if fty is not None:
                return Opq(fty, v.tag + '.%d' % i)
        raise Unsupported('projection .%d of %r : %s' % (i, v, ty and ty_str(ty)))

    def elem(self, v, idx, st):
        s = self.as_seq(v, st)
        if s.conc is not None and is_num(idx) and 0 <= num(idx) < len(s.conc):
            return s.conc[num(idx)]
        return s.at(idx)

    # ---------------------------------------------------------------- memory
    def load(self, st, r):
        if not isinstance(r, MutRef):
            return r
        v = st.mem.get(r.cell)
        if v is None:
            raise Unsupported('load of uninitialised cell %s' % (r.cell,))
        return self.load_projs(st, v, st.mem.get(('ty',) + r.cell), r.projs)

    def load_projs(self, st, v, ty, projs):
        variant = None
        for p in projs:
            if p[0] == 'deref':
                if isinstance(v, MutRef):
                    v = self.load(st, v)
                continue
            if p[0] == 'variant':
                variant = p[1]
                continue
            if p[0] == 'field':
                v = self.project(v, getattr(v, 'ty', None), variant, p[1], p[2], st)
                variant = None
                continue
            if p[0] == 'elem':
                v = self.elem(v, p[1], st)
                continue
            if p[0] == 'index':
                raise Unsupported('raw index projection')
            if p[0] == 'cindex':
                s = self.as_seq(v, st)
                ix = z3.IntVal(p[1]) if not p[2] else s.len - p[1]
                if s.conc is not None:
                    ix = z3.IntVal(p[1] if not p[2] else len(s.conc) - p[1])
                v = self.elem(s, ix, st)
                continue
            if p[0] == 'subslice':
                v = self.subseq(self.as_seq(v, st), p[1], p[2], p[3])
                continue
            raise Unsupported('projection %s' % (p,))
        return v

    def subseq(self, s, a, b, fromend):
        lo = a
        if fromend:
            if s.conc is not None:
                return self.conc_seq(s.conc[a:len(s.conc) - b], s.elt)
            n = s.len - b - a
        else:
            n = b - a
            if s.conc is not None:
                return self.conc_seq(s.conc[a:b], s.elt)
        return SeqV(n, lambda i: s.at(i + lo), s.elt)

    def store(self, st, r, val):
        if not isinstance(r, MutRef):
            raise Unsupported('store through %r' % (r,))
        if not r.projs:
            st.mem[r.cell] = val
            return
        v = st.mem.get(r.cell)
        st.mem[r.cell] = self.update(st, v, list(r.projs), val)

    def update(self, st, v, projs, val):
        if not projs:
            return val
        p = projs[0]
        if isinstance(v, Opq) and v.tag == 'uninit' and all(q[0] in ('field', 'deref') for q in projs):
            return val        # first write to a fresh allocation (vec! literal)
        if p[0] == 'deref':
            if isinstance(v, MutRef):
                self.store(st, MutRef(v.cell, tuple(v.projs) + tuple(projs[1:]), None), val)
                return v
            return self.update(st, v, projs[1:], val)
        variant = None
        k = 0
        if p[0] == 'variant':
            variant = p[1]
            k = 1
            if len(projs) == 1:
                return val
            p = projs[1]
        if p[0] == 'field':
            if isinstance(v, Agg):
                fs = list(v.fields)
                fs[p[1]] = self.update(st, fs[p[1]], projs[k + 1:], val)
                return Agg(v.ty, v.variant, fs)
            if isinstance(v, Clo):
                caps = list(v.caps)
                caps[p[1]] = self.update(st, caps[p[1]], projs[k + 1:], val)
                return Clo(v.id, caps, v.tenv, v.parent)
            if isinstance(v, Z):
                c = self.canon(v.ty)
                vs = self.variants(c)
                if vs is None:
                    raise Unsupported('update of opaque')
                vi = 0
                if variant is not None:
                    vi = [n for n, _ in vs].index(variant)
                if len(vs) > 1 and variant is None:
                    raise Unsupported('update of enum field without variant')
                # transparent wrappers
                fs = [self.project(v, v.ty, vs[vi][0], j, ft, st) for j, (_, ft) in enumerate(vs[vi][1])]
                fs[p[1]] = self.update(st, fs[p[1]], projs[k + 1:], val)
                return Agg(peel(v.ty), vi, fs)
            raise Unsupported('update field of %r' % (v,))
        if p[0] in ('elem', 'cindex'):
            s = self.as_seq(v, st)
            ix = p[1] if p[0] == 'elem' else (z3.IntVal(p[1]) if not p[2] else s.len - p[1])
            old = self.elem(s, ix, st)
            new = self.update(st, old, projs[1:], val)
            if s.conc is not None and is_num(ix):
                c = list(s.conc)
                c[num(ix)] = new
                return self.conc_seq(c, s.elt)
            nz = self.z(new, s.elt, st)
            eng = self
            return SeqV(s.len, lambda i: Z(z3.If(i == ix, nz, eng.z(s.at(i), s.elt)), s.elt), s.elt)
        raise Unsupported('update %s' % (p,))

    # ---------------------------------------------------------------- shared mutable cells (RefCell): a heap in the ghost state
    def heap(self, st, name):
        """current content of the cells of this kind: an array from cell identities to contents"""
        v = st.ghost.get(name)
        if v is None:
            t = Ty(('opaque', 'heap ' + name))
            v = Z(z3.Const('heap<%s>' % name, self.heap_sort(name)), t)
        return v.e

    heap_sorts = {}

    def heap_sort(self, name):
        s = self.heap_sorts[name](self)
        self.sorts[Ty(('opaque', 'heap ' + name))] = s
        return s

    def set_heap(self, st, name, e):
        st.ghost[name] = Z(e, Ty(('opaque', 'heap ' + name)))

    def drop_guard(self, st, v):
        """the end of a mutable borrow: what was written becomes visible to the other owners"""
        if not isinstance(v, MutRef):
            return
        left = []
        for cell, name, ident, t in st.ghost.get('guards', ()):
            if cell == v.cell:
                self.set_heap(st, name, z3.Store(self.heap(st, name), ident, self.z(st.mem[cell], t, st)))
            else:
                left.append((cell, name, ident, t))
        st.ghost['guards'] = tuple(left)

    # ---------------------------------------------------------------- solver
    def mk_solver(self, ms=None):
        s = z3.Solver()
        s.set('timeout', ms or self.query_ms)
        s.set('random_seed', 1)
        return s

    def list_terms(self, exprs):
        seen = set()
        out = {}
        stack = list(exprs)
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                continue
            if z3.is_app(e):
                s = e.sort()
                if s.kind() == z3.Z3_UNINTERPRETED_SORT and s.name().startswith('List<'):
                    out.setdefault(s.name(), {})[e.get_id()] = e
                stack.extend(e.children())
        return out

    def ext_axioms(self, exprs, goal):
        """ground extensionality for the list terms of the goal against all list terms"""
        lt = self.list_terms(exprs + [goal])
        lg = self.list_terms([goal])
        res = []
        byname = {d[3].name(): d for d in self.list_funs.values()}
        for sn, ts in lt.items():
            ts = sorted(ts.values(), key=lambda e: e.get_id())
            d = byname.get(sn)
            if d is None:
                continue
            ln, nth, diff, so = d
            gl = lg.get(sn, {})
            pairs = 0
            for i in range(len(ts)):
                for j in range(i + 1, len(ts)):
                    if len(ts) > 12 and not (ts[i].get_id() in gl or ts[j].get_id() in gl):
                        continue
                    pairs += 1
                    if pairs > 200:
                        break
                    a, b = ts[i], ts[j]
                    k = diff(a, b)
                    res.append(z3.Or(a == b, ln(a) != ln(b), z3.And(k >= 0, k < ln(a), nth(a, k) != nth(b, k))))
        return res

    def int_fields(self):
        """accessor decls of machine-integer fields -> (lo, hi)"""
        r = getattr(self, '_intf', None)
        if r is None or r[0] != len(self.sorts):
            d = {}
            for c, so in list(self.sorts.items()):
                if c[0] in ('adt', 'tuple') and so.kind() == z3.Z3_DATATYPE_SORT:
                    for vi, (_, fs) in enumerate(self.variants(c)):
                        for j, (_, ft) in enumerate(fs):
                            p = peel(ft)
                            if p[0] == 'prim' and p[1] in INT_BITS:
                                d[so.accessor(vi, j).get_id()] = (so.constructor(vi).name(),) + int_range(p[1])
            r = self._intf = (len(self.sorts), d)
        return r[1]

    def range_facts(self, exprs):
        """machine-integer fields of program values are in range"""
        d = self.int_fields()
        seen = set()
        out = []
        stack = list(exprs)
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if not z3.is_app(e):
                continue
            stack.extend(e.children())
            r = d.get(e.decl().get_id()) if e.num_args() == 1 else None
            if r is not None and self.prog_term(e.arg(0)):
                out.append(z3.And(e >= r[1], e <= r[2]))
        return out

    def prog_term(self, e):
        """built from inputs by projections and list indexing only"""
        while z3.is_app(e):
            if e.num_args() == 0:
                return True
            k = e.decl().kind()
            n = e.decl().name()
            if k == z3.Z3_OP_DT_ACCESSOR or n.startswith('nth<') or n.startswith('lift_') or n.startswith('fld<'):
                e = e.arg(0)
                if e.sort() == z3.IntSort():
                    return True
                continue
            return False
        return False

    skolems = ()

    def skolem_goal(self, g):
        """strip outer universal quantifiers of a goal"""
        hyps = []
        while True:
            if z3.is_quantifier(g) and g.is_forall():
                vs = [z3.Const('sk_%s!%d' % (g.var_name(i), next(self.cnt)), g.var_sort(i)) for i in range(g.num_vars())]
                g = z3.substitute_vars(g.body(), *reversed(vs))
                self.skolems.extend(vs)
            elif z3.is_implies(g):
                hyps.append(g.arg(0))
                g = g.arg(1)
            elif z3.is_not(g) and z3.is_or(g.arg(0)):
                return hyps, z3.And([z3.Not(x) for x in g.arg(0).children()])
            elif z3.is_not(g) and z3.is_quantifier(g.arg(0)) and g.arg(0).is_exists():
                q = g.arg(0)
                vs = [z3.Const('sk_%s!%d' % (q.var_name(i), next(self.cnt)), q.var_sort(i)) for i in range(q.num_vars())]
                g = z3.Not(z3.substitute_vars(q.body(), *reversed(vs)))
                self.skolems.extend(vs)
            else:
                return hyps, g

    def nested(self, e):
        """e contains a quantifier"""
        c = self.__dict__.setdefault('_nested', {})
        k = e.get_id()
        if k not in c:
            c[k] = (z3.is_quantifier(e) or any(self.nested(x) for x in e.children()), e)
        return c[k][0]

    def instances(self, hyps):
        """hypotheses for every x with quantifiers inside, at the constants the goal is about (the patterns of the solver seldom find these)"""
        out = []

        def go(h, guards):
            if z3.is_and(h):
                for x in h.children():
                    go(x, guards)
            elif z3.is_implies(h):
                go(h.arg(1), guards + [h.arg(0)])
            elif z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and self.nested(h.body()):
                for k in self.skolems[-4:]:
                    if k.sort() == h.var_sort(0):
                        b = z3.substitute_vars(h.body(), k)
                        out.append(z3.Implies(z3.And(guards), b) if guards else b)
        for h in hyps:
            if self.nested(h):
                go(h, [])
        return out[:40]

    def prove(self, st, goal, extra=()):
        """-> (verdict, model|None)"""
        goals = []
        self.skolems = []
        self.split_goal(goal, goals)
        for g in goals:
            r = self.prove1(st, g, extra)
            if r[0] != 'proved':
                return r
        return ('proved', None)

    def split_goal(self, g, out):
        if z3.is_and(g):
            for c in g.children():
                self.split_goal(c, out)
        else:
            out.append(g)

    def prove1(self, st, goal, extra=()):
        t0 = time.time()
        hyps, g = self.skolem_goal(goal)
        if z3.is_eq(g) and z3.is_bool(g.arg(0)) and self.nested(g):
            g = z3.And(z3.Implies(g.arg(0), g.arg(1)), z3.Implies(g.arg(1), g.arg(0)))
        if hyps or g is not goal:
            gs = []
            self.split_goal(g, gs)
            if len(gs) > 1:
                st2 = st.copy()
                for h in hyps:
                    st2.assume(h)
                for x in gs:
                    r = self.prove1(st2, x, extra)
                    if r[0] != 'proved':
                        return r
                return ('proved', None)
        base = [c for _, c in st.pc] + list(extra) + hyps
        base += self.instances(base) if self.skolems else []
        res = None
        full, slim = base, None
        if not self.indexy(g):
            slim = [z3.simplify(c) for c in base if not self.indexy(c)]
            if len(slim) == len(base):
                slim = None
        attempts = ((800, 'nodefs'), (1500, None), (1500, 'pull'), (1500, 'relevancy')) + (((self.query_ms // 4, None),) if slim is not None else ()) + (((self.query_ms // 4, 'nodefs'),) if self.defs else ()) + ((self.query_ms // 4, {}), (self.query_ms, {'smt.mbqi': False}), (3000, 'pull3'), (3000, 'relevancy3'), (self.query_ms, {'smt.random_seed': 7}))
        for ms, cfg in attempts:
            # without the bookkeeping of positions in filtered and flattened lists first (fewer hypotheses: still a proof)
            weak = cfg is None or isinstance(cfg, str)
            base = slim if weak and slim is not None else full
            s = self.mk_solver(max(ms, 500))
            for k, v in (dict({'smt.mbqi': False}, **WEAK.get(cfg, {})) if weak else cfg).items():
                s.set(k, v)
            for a in self.axioms + ([] if cfg == 'nodefs' else self.defs):
                s.add(a)
            for c in base:
                s.add(c)
            for a in self.ext_axioms(base, g):
                s.add(a)
            for a in self.range_facts(base + [g]):
                s.add(a)
            s.add(z3.Not(g))
            r = s.check()
            self.nquery += 1
            if r == z3.unsat:
                self.solver_s += time.time() - t0
                return ('proved', None)
            if weak:
                continue
            if r == z3.sat:
                self.solver_s += time.time() - t0
                return ('refuted', s.model())
            res = ('unknown', s.reason_unknown())
            if os.environ.get('VERIF_DUMP'):
                open(os.environ['VERIF_DUMP'], 'w').write(s.to_smt2())
            if time.time() > self.deadline:
                break
        self.solver_s += time.time() - t0
        return res

    def indexy(self, e):
        c = self.__dict__.setdefault('_indexy', {})
        k = e.get_id()
        if k not in c:
            todo, seen, r = [e], set(), False
            while todo and not r:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                elif z3.is_app(x):
                    if x.num_args() and re.match(r'(fo|fi|fp|idx|inv)!', x.decl().name()):
                        r = True
                    todo.extend(x.children())
            c[k] = (r, e)
        return c[k][0]

    def feasible(self, st, c=None):
        if c is not None:
            c = z3.simplify(c)
            if z3.is_false(c):
                return False
            if z3.is_true(c):
                return True
        s = self.mk_solver(1500)
        s.set('smt.mbqi', False)
        for a in self.axioms:
            s.add(a)
        for _, x in st.pc:
            s.add(x)
        if c is not None:
            s.add(c)
        t0 = time.time()
        r = s.check()
        self.nquery += 1
        self.solver_s += time.time() - t0
        if time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        return r != z3.unsat

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, name, goal, kind='post'):
        t0 = time.time()
        fn = self.verifying.name if self.verifying else '?'
        v, m = self.prove(st, goal)
        mt = ''
        if v == 'refuted':
            mt = str(m)[:4000]
        elif v == 'unknown':
            mt = str(m)
        self.obls.append(Obligation(name, fn, v, time.time() - t0, mt if v != 'proved' else '', m if v == 'refuted' else None))
        if self.log:
            self.log('   [%s] %s (%.2fs)' % (v, name, time.time() - t0))
        return v == 'proved'

    def panic(self, st, why):
        """a panic is reached under st"""
        if self.panic_mode == 'allow':
            return
        if self.panic_mode == 'collect':
            self.panics.append((st, why))
            return
        if not self.feasible(st):
            self.obls.append(Obligation('no panic: ' + why, self.verifying.name if self.verifying else '?', 'proved', 0))
            return
        self.oblige(st, 'no panic: ' + why, z3.BoolVal(False), 'panic')

    # ---------------------------------------------------------------- calls
    def is_recursive_entry(self, fn):
        return any(f is fn for f in self.stack)

    def run_fn(self, fn, args, st, tenv, argtys=None):
        """execute repository function; -> [(state, value)]"""
        ct = self.contracts.get(id(fn))
        if ct is not None and not (self.verifying is ct and not self.stack):
            self.used_contracts.add(ct.name)
            return ct.apply(self, st, fn, args, tenv)
        return self.run_body(fn, args, st, tenv)

    def run_body(self, fn, args, st, tenv):
        if self.is_recursive_entry(fn) and sum(1 for f in self.stack if f is fn) > 3:
            raise Unsupported('recursion without a contract: ' + fn.name)
        if len(self.stack) > 60:
            raise Unsupported('inlining too deep at ' + fn.name)
        self.inlined.add(fn.crate + '::' + fn.name)
        self.stack.append(fn)
        try:
            return self.exec_body(fn, args, st, tenv)
        finally:
            self.stack.pop()

    def exec_body(self, fn, args, st, tenv):
        B = fn.body
        fr = next(self.frames)
        if fn.kind == 'constval':
            return [(st, self.const(B.constval, B.ret, fn, tenv, st))]
        F = Frame(self, fn, fr, tenv)
        if len(args) != len(B.args):
            # rust-call ABI: closure called with tuple
            raise Unsupported('arity mismatch calling %s: %d vs %d' % (fn.name, len(args), len(B.args)))
        for l, a in zip(B.args, args):
            st.mem[(fr, l)] = a
        heads = self.loop_heads(fn)
        done = []
        work = [(st, 0)]
        steps = 0
        while work:
            s, bb = work.pop()
            steps += 1
            if steps > 4000 or time.time() > self.deadline:
                raise Unsupported('path explosion / time budget in ' + fn.name)
            if bb in heads:
                nxt = self.at_loop_head(F, s, bb)
                if nxt is None:
                    continue
                s = nxt
            n = s.visits.get((fr, bb), 0) + 1
            if n > 40:
                raise Unsupported('loop without an invariant in ' + fn.name)
            s.visits[(fr, bb)] = n
            for (s2, nb) in self.exec_block(F, s, bb):
                if nb == 'return':
                    rv = s2.mem.get((fr, 0), UNIT if F.ty(0) == UNIT_TY else None)
                    if rv is None:
                        rv = UNIT
                    done.append((s2, rv))
                else:
                    work.append((s2, nb))
        return done

    # ---- loops
    def loop_heads(self, fn):
        B = fn.body
        h = getattr(B, 'heads', None)
        if h is not None:
            return h
        heads = {}
        color = {}
        succ = {}
        for bb in B.blocks:
            if bb in B.cleanup:
                continue
            t = parse_block(fn, bb)[-1:] or [('unreachable',)]
            t = t[0]
            if t[0] == 'goto':
                succ[bb] = [t[1]]
            elif t[0] == 'switch':
                succ[bb] = [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif t[0] == 'call':
                succ[bb] = [t[4]] if t[4] is not None else []
            elif t[0] == 'assert':
                succ[bb] = [t[4]]
            else:
                succ[bb] = []
        # iterative DFS
        stack = [(0, iter(succ.get(0, [])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color.get(x, 0) == 0:
                    color[x] = 1
                    stack.append((x, iter(succ.get(x, []))))
                    break
                elif color[x] == 1:
                    heads.setdefault(x, set()).add(b)
            else:
                color[b] = 2
                stack.pop()
        # natural loop bodies
        pred = {}
        for a, l in succ.items():
            for x in l:
                pred.setdefault(x, []).append(a)
        loops = {}
        for h, backs in heads.items():
            body = {h}
            w = list(backs)
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred.get(x, []))
            loops[h] = body
        B.heads = loops
        return loops

    def at_loop_head(self, F, s, bb):
        ct = self.verifying
        inv = None
        if ct is not None and ct.loops:
            inv = ct.loop_for(self, F, bb)
        if inv is None:
            return s          # plain unrolling (bounded by the visit limit)
        key = (F.id, bb)
        L = LoopCtx(self, F, s, bb)
        if key in s.cuts:
            L.entry = s.cuts[key]
            for name, g in inv(L):
                self.oblige(s, 'loop invariant preserved: ' + name, g)
            return None
        L.entry = s
        for name, g in inv(L):
            self.oblige(s, 'loop invariant on entry: ' + name, g)
        s2 = s.copy()
        self.havoc_loop(F, s2, bb)
        entry = s.copy()
        s2.cuts[key] = entry
        L2 = LoopCtx(self, F, s2, bb)
        L2.entry = entry
        for name, g in inv(L2):
            s2.assume(g)
        return s2

    def havoc_loop(self, F, s, head):
        fn = F.fn
        body = self.loop_heads(fn)[head]
        targets = set()
        for bb in body:
            for stt in parse_block(fn, bb):
                if stt[0] == 'assign' or stt[0] == 'call':
                    targets.add(stt[1][1])
                    if stt[0] == 'assign' and stt[2][0] == 'ref' and stt[2][1]:
                        targets.add(stt[2][2][1])
                    # through references
        cells = set()
        for l in targets:
            c = (F.id, l)
            if c in s.mem:
                cells.add(c)
        # anything reachable through mutable references held by locals used in the loop
        work = list(cells)
        seen = set(cells)
        while work:
            c = work.pop()
            for r in mutrefs(s.mem.get(c)):
                if r.cell not in seen:
                    seen.add(r.cell)
                    work.append(r.cell)
        for g, v in list(s.ghost.items()):
            if isinstance(v, Z):
                s.ghost[g] = self.fresh_val('ghost', v.ty, s)
        for c in seen:
            v = s.mem.get(c)
            s.mem[c] = self.havoc_val(v, s, c in cells and c[0] == F.id and F.ty(c[1]))

    def havoc_val(self, v, s, ty=None):
        if isinstance(v, MutRef):
            return v
        if isinstance(v, It):
            lo = self.fresh('pos', z3.IntSort())
            s.assume(z3.And(lo >= v.lo, lo <= v.hi))
            return It(v.seq, lo, v.hi, v.peekable)
        if isinstance(v, (Clo, FnItem, Opq)) or v is None:
            if isinstance(v, Clo):
                return v
            return v
        if isinstance(v, Agg) and any(mutrefs(f) or isinstance(f, (It, Clo)) for f in v.fields):
            return Agg(v.ty, v.variant, [self.havoc_val(f, s) for f in v.fields])
        t = v.ty or ty
        if isinstance(v, SeqV):
            t = Ty(('slice', v.elt))
        if isinstance(v, Disc):
            return v
        return self.fresh_val('loop', t, s)

    # ---- blocks
    def exec_block(self, F, st, bb):
        """run one block -> [(state, next bb | 'return')]"""
        fn = F.fn
        if bb in fn.body.cleanup:
            return []
        stmts = parse_block(fn, bb)
        cur = st
        for k, s in enumerate(stmts):
            op = s[0]
            if op == 'assign':
                v = self.rvalue(F, cur, s[2], F.place_ty(s[1]))
                F.write(cur, s[1], v)
            elif op == 'goto':
                if len(s) > 2 and cur.ghost.get('guards'):
                    self.drop_guard(cur, cur.mem.get((F.id, s[2][1])) if not s[2][2] else None)
                return [(cur, s[1])]
            elif op == 'return':
                return [(cur, 'return')]
            elif op == 'unreachable':
                # rustc only emits this where the value's type rules the case out
                return []
            elif op == 'resume':
                return []
            elif op == 'switch':
                return self.do_switch(F, cur, s)
            elif op == 'assert':
                c = self.zbool(F.operand(cur, s[1]), cur)
                if s[2]:
                    c = z3.Not(c)
                c = z3.simplify(c)
                if z3.is_true(c):
                    return [(cur, s[4])]
                bad = cur.copy()
                bad.branch(z3.Not(c))
                if self.feasible(bad):
                    self.panic(bad, 'assert in %s: %s' % (short(fn.name), s[3][:60]))
                cur.branch(c)
                return [(cur, s[4])]
            elif op == 'call':
                out = self.do_call(F, cur, s)
                res = []
                for s2, v in out:
                    if s[4] is None:
                        continue
                    F.write(s2, s[1], v)
                    res.append((s2, s[4]))
                return res
            else:
                raise Unsupported('%s in %s: %s' % (op, short(fn.name), str(s[1])[:120]))
        raise Unsupported('block falls through in ' + fn.name)

    def do_switch(self, F, st, s):
        v = F.operand(st, s[1])
        out = []
        if isinstance(v, MutRef):
            v = self.load(st, v)
        if isinstance(v, Disc):
            x = v.v
            if isinstance(x, MutRef):
                x = self.load(st, x)
            dv = DISCR.get(v.adt)
            if isinstance(x, Agg):
                d = dv[x.variant] if dv else x.variant
                for val, bb in s[2]:
                    if sgn(val) == d:
                        return [(st, bb)]
                return [(st, s[3])] if s[3] is not None else []
            if isinstance(x, Opq):
                for val, bb in s[2]:
                    out.append((st.copy(), bb))
                if s[3] is not None:
                    out.append((st.copy(), s[3]))
                return out
            if isinstance(x, Z) and x.e.sort().kind() == z3.Z3_DATATYPE_SORT:
                so = x.e.sort()
                n = so.num_constructors()
                left = list(range(n))
                for val, bb in s[2]:
                    vi = dv.index(sgn(val)) if dv else sgn(val)
                    if vi in left:
                        left.remove(vi)
                    c = so.recognizer(vi)(x.e) if n > 1 else z3.BoolVal(True)
                    self.fork(st, c, bb, out, ctor_eq(x.e, vi))
                if s[3] is not None and left:
                    c = z3.Or([so.recognizer(i)(x.e) for i in left]) if n > 1 else z3.BoolVal(True)
                    self.fork(st, c, s[3], out, ctor_eq(x.e, left[0]) if len(left) == 1 else None)
                return out
            if isinstance(x, Z):
                # opaque enum: uninterpreted discriminant
                f = z3.Function('discr<%s>' % x.e.sort().name(), x.e.sort(), z3.IntSort())
                v = Z(f(x.e), USIZE)
            else:
                raise Unsupported('discriminant of %r' % (x,))
        if isinstance(v, Opq):
            return [(st.copy(), bb) for _, bb in s[2]] + ([(st.copy(), s[3])] if s[3] is not None else [])
        e = self.z(v, None, st)
        e = z3.simplify(e)
        if z3.is_bool(e):
            for val, bb in s[2]:
                self.fork(st, z3.Not(e) if val == 0 else e, bb, out)
            if s[3] is not None:
                vals = [val for val, _ in s[2]]
                if vals == [0]:
                    self.fork(st, e, s[3], out)
                elif vals == [1]:
                    self.fork(st, z3.Not(e), s[3], out)
            return out
        bits = 64
        neg = []
        for val, bb in s[2]:
            self.fork(st, e == val, bb, out)
            neg.append(e != val)
        if s[3] is not None:
            self.fork(st, z3.And(neg) if len(neg) != 1 else neg[0], s[3], out)
        return out

    def fork(self, st, c, bb, out, extra=None):
        c = z3.simplify(c)
        if z3.is_false(c):
            return
        if z3.is_true(c):
            out.append((st.copy(), bb))
            return
        if not self.feasible(st, c):
            return
        s2 = st.copy()
        s2.branch(c)
        if extra is not None:
            s2.assume(extra)
        out.append((s2, bb))

    def zbool(self, v, st):
        if isinstance(v, MutRef):
            v = self.load(st, v)
        if isinstance(v, Opq):
            return self.fresh('b', z3.BoolSort())
        e = self.z(v, BOOL_TY, st)
        return e

    # ---- rvalues
    def rvalue(self, F, st, r, dty):
        k = r[0]
        if k == 'operand':
            return F.operand(st, r[1])
        if k == 'cast':
            v = F.operand(st, r[1])
            return self.cast(F, st, v, r[2], r[3], F.op_ty(r[1]))
        if k == 'ref':
            mut, pl = r[1], r[2]
            return F.ref(st, pl, mut)
        if k == 'discr':
            t = peel(F.place_ty(r[1]))
            v = F.read(st, r[1])
            return Disc(v, EXT_ALIAS.get(t[1], t[1]) if t[0] == 'adt' else None)
        if k == 'len':
            return Z(self.as_seq(F.read(st, r[1]), st).len, USIZE)
        if k == 'bin':
            return self.binop(F, st, r[1], F.operand(st, r[2]), F.operand(st, r[3]), F.op_ty(r[2]) or F.op_ty(r[3]))
        if k == 'un':
            v = F.operand(st, r[2])
            if r[1] == 'Not':
                e = self.z(v, F.op_ty(r[2]), st)
                if z3.is_bool(e):
                    return Z(z3.Not(e), BOOL_TY)
                raise Unsupported('bitwise not')
            if r[1] == 'Neg':
                return Z(-self.z(v, None, st), F.op_ty(r[2]))
            if r[1] == 'PtrMetadata':
                try:
                    return Z(self.as_seq(v, st).len, USIZE)
                except Unsupported:
                    return Opq(dty)
        if k == 'tuple':
            t = dty if dty is not None and dty[0] == 'tuple' else Ty(('tuple', tuple(F.op_ty(o) for o in r[1])))
            return Agg(t, 0, [F.operand(st, o) for o in r[1]])
        if k == 'array':
            elt = None
            if dty is not None and dty[0] == 'array':
                elt = dty[1]
            return self.conc_seq([F.operand(st, o) for o in r[1]], elt)
        if k == 'repeat':
            v = F.operand(st, r[1])
            m = re.match(r'^(?:const )?(\d+)(?:_usize)?$', r[2].strip())
            elt = dty[1] if dty is not None and dty[0] == 'array' else None
            if m and int(m.group(1)) <= 64:
                return self.conc_seq([v] * int(m.group(1)), elt)
            raise Unsupported('array repeat')
        if k == 'closure':
            return Clo(r[1], [F.operand(st, o) for o in r[2]], F.tenv, F.fn)
        if k == 'adt':
            return self.mk_adt(F, st, r, dty)
        raise Unsupported('rvalue %s' % (str(r)[:100],))

    def mk_adt(self, F, st, r, dty):
        _, base, targs, names, ops = r
        t = dty
        pt = peel(t) if t is not None else None
        vals = [F.operand(st, o) for o in ops]
        last = base.split('::')[-1]
        pref = '::'.join(base.split('::')[:-1])
        if pt is not None and t[0] == 'adt' and t[1] in TRANSPARENT and base.split('::')[-1] in ('Box', 'Arc', 'Rc', 'NonNull', 'Unique'):
            return vals[0]
        if t is not None and t[0] == 'adt' and t[1] == 'std::borrow::Cow':
            return vals[0]
        if pt is None or pt[0] != 'adt':
            # type from the path
            if base in self.src.adts:
                pt = Ty(('adt', base, targs))
            elif pref in self.src.adts or pref in EXT_ADTS:
                pt = Ty(('adt', pref, targs))
            else:
                raise Unsupported('aggregate ' + base)
        vs = self.variants(Ty(('adt', EXT_ALIAS.get(pt[1], pt[1]), pt[2])))
        if vs is None:
            if not vals:
                # unit-like constructor of an opaque type
                return Z(z3.Const('ctor<%s>' % base, self.sort(pt)), pt)
            f = z3.Function('ctor<%s>' % base, *([self.z(v, F.op_ty(o), st).sort() for v, o in zip(vals, ops)] + [self.sort(pt)])) \
                if all(not isinstance(v, (It, Clo, MutRef, Opq)) for v in vals) else None
            if f is None:
                return Opq(pt, 'adt ' + base)
            return Z(f(*[self.z(v, F.op_ty(o), st) for v, o in zip(vals, ops)]), pt)
        vn = [n for n, _ in vs]
        if len(vs) == 1:
            vi = 0
        elif last in vn:
            vi = vn.index(last)
        else:
            raise Unsupported('variant %s of %s' % (last, pt[1]))
        if names is not None:
            fn_ = [n for n, _ in vs[vi][1]]
            order = {n: v for n, v in zip(names, vals)}
            try:
                vals = [order[n] for n in fn_]
            except KeyError:
                raise Unsupported('fields of %s: %s vs %s' % (base, names, fn_))
        if len(vals) != len(vs[vi][1]):
            raise Unsupported('arity of %s' % base)
        return Agg(pt, vi, vals)

    def cast(self, F, st, v, ty, kind, fromty):
        ty = subst_ty(ty, F.tenv)
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'Subtype', 'FnPtrToPtr') or 'Transmute' in kind:
            if kind == 'Transmute':
                raise Unsupported('transmute')
            pt = peel(ty)
            if 'Unsize' in kind and pt[0] == 'opaque' and pt[1].startswith('dyn ') and isinstance(v, (Z, Agg)) and fromty is not None:
                # unsizing to a trait object: an injection of the concrete value
                e = self.z(v, fromty, st)
                so = self.sort(pt)
                if e.sort() == so:
                    return Z(e, ty)
                return Z(z3.Function('unsize<%s>' % ty_str(self.canon(fromty)), e.sort(), so)(e), ty)
            return v
        if kind == 'IntToInt':
            if isinstance(v, Disc):
                return Z(self.disc_int(v, st), ty)
            if isinstance(v, Opq):
                return self.fresh_val('cast', ty, st)
            e = self.z(v, fromty, st)
            if z3.is_bool(e):
                return Z(z3.If(e, z3.IntVal(1), z3.IntVal(0)), ty)
            return Z(self.wrap(e, ty, fromty), ty)
        raise Unsupported('cast ' + kind)

    def wrap(self, e, ty, fromty=None):
        n = peel(ty)[1]
        if n not in INT_BITS:
            return e
        lo, hi = int_range(n)
        if fromty is not None and peel(fromty)[0] == 'prim' and peel(fromty)[1] in INT_BITS:
            l2, h2 = int_range(peel(fromty)[1])
            if l2 >= lo and h2 <= hi:
                return e
        if is_num(e) and lo <= num(e) <= hi:
            return e
        m = hi - lo + 1
        return z3.If(z3.And(e >= lo, e <= hi), e, (e - lo) % m + lo)

    def binop(self, F, st, op, a, b, ty):
        if isinstance(a, Disc) or isinstance(b, Disc):
            pass
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, Opq) or isinstance(b, Opq):
                return Z(self.fresh('cmp', z3.BoolSort()), BOOL_TY)
        x = self.z(a, ty, st)
        y = self.z(b, ty, st)
        if x.sort() != y.sort():
            raise Unsupported('binop %s on %s/%s' % (op, x.sort(), y.sort()))
        pt = peel(ty) if ty is not None else None
        if op == 'Eq':
            return Z(x == y, BOOL_TY)
        if op == 'Ne':
            return Z(x != y, BOOL_TY)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if z3.is_bool(x):
                raise Unsupported('bool order')
            if x.sort() != z3.IntSort():
                raise Unsupported('order on ' + str(x.sort()))
            return Z({'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op], BOOL_TY)
        if z3.is_bool(x):
            if op == 'BitAnd':
                return Z(z3.And(x, y), BOOL_TY)
            if op == 'BitOr':
                return Z(z3.Or(x, y), BOOL_TY)
            if op == 'BitXor':
                return Z(z3.Xor(x, y), BOOL_TY)
        if op in ('Add', 'AddUnchecked'):
            return Z(self.wrap(x + y, ty), ty)
        if op in ('Sub', 'SubUnchecked'):
            return Z(self.wrap(x - y, ty), ty)
        if op in ('Mul', 'MulUnchecked'):
            return Z(self.wrap(x * y, ty), ty)
        if op == 'Div':
            return Z(x / y, ty)
        if op == 'Rem':
            return Z(x % y, ty)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            e = {'A': x + y, 'S': x - y, 'M': x * y}[op[0]]
            lo, hi = int_range(pt[1])
            t = Ty(('tuple', (ty, BOOL_TY)))
            return Agg(t, 0, [Z(self.wrap(e, ty), ty), Z(z3.Or(e < lo, e > hi), BOOL_TY)])
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            n = pt[1]
            if is_num(x) and is_num(y):
                a_, b_ = num(x), num(y)
                r = {'BitAnd': a_ & b_, 'BitOr': a_ | b_, 'BitXor': a_ ^ b_, 'Shl': a_ << b_, 'Shr': a_ >> b_}[op]
                lo, hi = int_range(n)
                return Z(z3.IntVal((r - lo) % (hi - lo + 1) + lo), ty)
            f = z3.Function('bit_%s' % op, z3.IntSort(), z3.IntSort(), z3.IntSort())
            e = f(x, y)
            st.assume(z3.And(e >= int_range(n)[0], e <= int_range(n)[1]))
            return Z(e, ty)
        raise Unsupported('binop ' + op)

    # ---- constants
    def const(self, s, ty, fn, tenv, st):
        s = s.strip()
        if s.startswith('const '):
            s = s[6:]
        if s == '()':
            return UNIT
        if s == 'true' or s == 'false':
            return Z(z3.BoolVal(s == 'true'), BOOL_TY)
        m = re.match(r'^(-?\d+)_(\w+)$', s)
        if m:
            return Z(z3.IntVal(int(m.group(1))), Ty(('prim', m.group(2))))
        if s.startswith('"'):
            return Z(z3.StringVal(unescape(s[1:-1])), Ty(('ref', False, STR_TY)))
        if s.startswith("'"):
            return Z(z3.IntVal(ord(unescape(s[1:-1]) or "'")), Ty(('prim', 'char')))
        if re.match(r'^[A-Z][A-Z0-9_]*$', s) and (ty is None or peel(ty)[0] == 'prim') and self.prog.find_const(s, fn) is None:
            ty = ty if ty is not None else USIZE
            n = tenv.get('const ' + s)
            if n is not None and n[1].isdigit():
                return Z(z3.IntVal(int(n[1])), ty)
            return Z(self.const_param(n[1] if n is not None else s, st), ty)
        if s.startswith('ZeroSized: std::iter::Empty<'):
            return It(self.conc_seq([], parse_type(s[len('ZeroSized: '):], fn.norm)[2][0]))
        if s.startswith('std::marker::PhantomData'):
            return Opq(ty, 'phantom')
        if s == '[]' or re.match(r'^ZeroSized: \[.*; 0\]$', s):
            return self.conc_seq([], peel_ref(ty)[1] if ty is not None and peel_ref(ty)[0] in ('array', 'slice') else None)
        if s.startswith('ZeroSized: '):
            t = s[len('ZeroSized: '):].strip()
            if t.startswith('{closure@'):
                return Clo(t, [], tenv, fn)
            return Opq(parse_type(t, fn.norm), 'zst')
        if s.startswith('b"'):
            return Opq(ty, 'bytes')
        if s.startswith('{alloc'):
            m = re.match(r'^\{(alloc\d+)(?:\+0x\d+)?: (.*)\}$', s)
            p = self.prog.allocs.get((fn.crate, m.group(1))) if m else None
            t = parse_type(m.group(2), fn.norm) if m else ty
            if p:
                return StaticRef(fn.norm.path(p), t)
            return Opq(t, 'alloc')
        if s.startswith('{transmute') or s.startswith('{0x'):
            return Opq(ty, 'const ' + s[:30])
        m = re.match(r'^(.*)::promoted\[(\d+)\]$', s)
        if m:
            f = self.prog.promoted(fn, s)
            if f is not None:
                return self.eval_const_fn(f, tenv, st)
            raise Unsupported('promoted ' + s)
        # named constants
        f = self.prog.find_const(s, fn)
        if f is not None:
            return self.eval_const_fn(f, tenv, st)
        m = re.match(r'^(?:std|core)::num::<impl (\w+)>::(MAX|MIN|BITS)$', s) or re.match(r'^(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)::(MAX|MIN|BITS)$', s)
        if m:
            lo, hi = int_range(m.group(1))
            v = {'MAX': hi, 'MIN': lo, 'BITS': abs(INT_BITS[m.group(1)])}[m.group(2)]
            return Z(z3.IntVal(v), Ty(('prim', m.group(1) if m.group(2) != 'BITS' else 'u32')))
        # constructors with arguments: `const Result::<A, B>::Err(Foo::Bar)`
        if s.endswith(')') and not s.startswith('{'):
            i = scan_to(s, 0, {'('})
            if 0 < i < len(s):
                r = self.const_ctor(s[:i], split_top(s[i + 1:-1]), ty, fn, tenv, st)
                if r is not None:
                    return r
        # unit struct / enum constants such as `const Foo::Bar`
        base, g = split_path_generics(s)
        nb = fn.norm.path(base)
        r = self.unit_ctor(nb, ty)
        if r is not None:
            return r
        # function item (zero sized)
        return FnItem(s, tenv, fn.norm)

    def const_ctor(self, head, args, ty, fn, tenv, st):
        j = head.rfind('::')
        cands = [(head, None)] + ([(head[:j], head[j + 2:])] if j > 0 else [])
        for p, v in cands:
            p = p[:-2] if p.endswith('::') else p
            try:
                t = peel(parse_type(p, fn.norm))
            except Exception:
                continue
            if t[0] == 'adt' and not t[2] and ty is not None and peel(ty)[0] == 'adt' and peel(ty)[1] == t[1]:
                t = peel(ty)
            vs = self.variants(t) if t[0] == 'adt' else None
            for i, (n, fs) in enumerate(vs or []):
                if len(fs) == len(args) and (n == v or (v is None and len(vs) == 1)):
                    return Agg(t, i, [self.const(a, ft, fn, tenv, st) for a, (_, ft) in zip(args, fs)])
        return None

    def unit_ctor(self, nb, ty):
        segs = nb.split('::')
        if nb in self.src.adts and ty is not None and peel(ty)[0] == 'adt':
            vs = self.variants(Ty(('adt', nb, peel(ty)[2])))
            if vs and len(vs) == 1 and not vs[0][1]:
                return Agg(peel(ty), 0, [])
        p = '::'.join(segs[:-1])
        p = EXT_ALIAS.get(p, p)
        if (p in self.src.adts or p in EXT_ADTS):
            t = peel(ty) if ty is not None and peel(ty)[0] == 'adt' else Ty(('adt', p, ()))
            vs = self.variants(t)
            if vs:
                for i, (n, fs) in enumerate(vs):
                    if n == segs[-1] and not fs:
                        return Agg(t, i, [])
        return None

    def eval_const_fn(self, f, tenv, st):
        if f.kind == 'constval':
            return self.const(f.body.constval, f.body.ret, f, tenv, st)
        self.stack.append(f)
        try:
            outs = self.exec_body(f, [], st.copy(), tenv)
        finally:
            self.stack.pop()
        if len(outs) != 1:
            raise Unsupported('constant with %d outcomes: %s' % (len(outs), f.name))
        s2, v = outs[0]
        st.pc = s2.pc
        for k, x in s2.mem.items():
            st.mem.setdefault(k, x)
        return v

    # ---- calls
    def do_call(self, F, st, s):
        _, dest, callee, aops, ret = s
        args = [F.operand(st, o) for o in aops]
        atys = [F.op_ty(o) for o in aops]
        dty = F.place_ty(dest)
        callee = callee.strip()
        m = re.match(r'^(?:move|copy) (.*)$', callee)
        if m:
            from mir import parse_place
            fv = F.read(st, parse_place(m.group(1), F.fn.norm))
            return self.call_value(st, fv, args, dty, atys)
        c = self.parse_callee(callee, F.fn.norm, F.tenv)
        return self.dispatch(st, c, args, atys, dty, F.fn, F.tenv)

    _callee_cache = {}

    def parse_callee(self, s, norm, tenv):
        key = (s, norm.crate)
        raw = self._callee_cache.get(key)
        if raw is None:
            raw = self._parse_callee(s, norm)
            self._callee_cache[key] = raw
        kind, self_ty, trait, targs, method, margs, path, tyargs = raw
        c = Callee()
        c.kind = kind
        c.self_ty = subst_ty(self_ty, tenv) if self_ty is not None else None
        c.trait = trait
        c.targs = [subst_ty(x, tenv) for x in targs]
        c.method = method
        c.margs = [subst_ty(x, tenv) for x in margs]
        c.path = path
        c.text = s
        c.tyargs = [subst_ty(x, tenv) for x in tyargs]
        return c

    def _parse_callee(self, s, norm):
        T = lambda a: parse_type(a, norm)
        okarg = lambda a: not a.startswith("'") and not re.match(r'^\d', a) and not a.startswith('const ')
        if s.startswith('<'):
            j = scan_to(s, 1, set())
            inner = s[1:j]
            rest = s[j + 1:]
            if rest.startswith('::'):
                k = find_as(inner)
                if k >= 0:
                    self_ty = T(inner[:k])
                    tb, ta = split_path_generics(inner[k + 4:].strip())
                    mb, ma = split_path_generics(rest[2:])
                    return ('trait', self_ty, norm.path(tb), [T(a) for a in ta if okarg(a) and '=' not in outer(a)], mb, [T(a) for a in ma if okarg(a)], None, [])
                mb, ma = split_path_generics(rest[2:])
                return ('inherent', T(inner), None, [], mb, [T(a) for a in ma if okarg(a)], None, [])
        # path
        segs = split_segs(s)
        last, lastg = segs[-1]
        margs = [T(a) for a in lastg if okarg(a)]
        pre = segs[:-1]
        # foreign inherent impl: path::<impl Type>::m
        if pre and pre[-1][0].startswith('<impl '):
            txt = pre[-1][0][6:-1]
            if ' for ' in txt:
                txt = txt.split(' for ')[1]
            if txt.startswith('at '):
                return ('path', None, None, [], last, margs, norm.path('::'.join(x for x, _ in segs)), [])
            return ('inherent', T(txt), None, [], last, margs, None, [])
        path = norm.path('::'.join(x for x, _ in segs))
        tyargs = [T(a) for a in (pre[-1][1] if pre else []) if okarg(a)]
        return ('path', None, None, [], last, margs, path, tyargs)

    def dispatch(self, st, c, args, atys, dty, caller, tenv):
        for h in self.hooks:
            r = h(self, st, c, args, atys, dty)
            if r is not None:
                return r
        direct = False
        if c.kind == 'trait' and args and c.trait.split('::')[-1] in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'IntoIterator', 'Itertools'):
            a0 = args[0]
            while isinstance(a0, MutRef):
                a0 = self.load(st, a0)
            # a library iterator (or a library list being iterated): the receiver is known, no repository impl applies
            direct = isinstance(a0, It) or (isinstance(a0, SeqV) and c.trait.endswith('IntoIterator'))
            if isinstance(a0, Agg) and a0.ty[0] == 'adt' and EXT_ALIAS.get(a0.ty[1], a0.ty[1]) == 'either::Either':
                # Either<A, B> iterates whichever it holds
                if c.method == 'into_iter' and len(a0.fields) == 1:
                    i = a0.variant
                    t = a0.ty[2][i] if len(a0.ty[2]) == 2 else None
                    if t is not None and peel(t)[0] not in ('param', 'opaque', 'proj'):
                        c2 = Callee()
                        for k in ('kind', 'trait', 'targs', 'method', 'margs', 'path', 'tyargs', 'text'):
                            setattr(c2, k, getattr(c, k))
                        c2.self_ty = t
                        return self.dispatch(st, c2, [a0.fields[0]], [t], None, caller, tenv)
                direct = True
        cands = [] if direct else self.prog.candidates(self, c, atys, dty)
        if len(cands) == 1:
            fn, env = cands[0]
            return self.run_fn(fn, args, st, env, atys)
        if len(cands) > 1 and not (c.kind == 'path' and all(not f.name.startswith('<') and f.name.split('::')[-1][:1].isupper() for f, _ in cands)):
            raise Unsupported('ambiguous call %s: %s' % (c.text[:100], [f.name[-60:] for f, _ in cands][:4]))
        # constructor used as a function
        if c.kind == 'path':
            segs = c.path.split('::')
            p = '::'.join(segs[:-1])
            p2 = EXT_ALIAS.get(p, p)
            if (p2 in self.src.adts or p2 in EXT_ADTS or c.path in self.src.adts) and dty is not None and peel(dty)[0] == 'adt':
                vs = self.variants(self.canon(peel(dty)))
                if vs:
                    for i, (n, fs) in enumerate(vs):
                        if n == segs[-1] and len(fs) == len(args):
                            return [(st, Agg(peel(dty), i, args))]
        import models
        r = models.call(self, st, c, args, atys, dty, caller, tenv)
        if r is not None:
            self.modelled.add(models.key_of(c))
            return r
        if self.is_repo(c):
            raise Unsupported('no MIR for repository function %s' % c.text[:160])
        return self.havoc_call(st, c, args, atys, dty)

    def is_repo(self, c):
        def repo(p):
            return p is not None and p.split('::')[0] in self.prog.crates
        if c.kind == 'path':
            return repo(c.path)
        if c.kind == 'trait':
            return repo(c.trait)
        return False

    def havoc_call(self, st, c, args, atys, dty):
        """external function without a model: any result, any effect on its &mut arguments, no panic"""
        if any(isinstance(a, (Clo, FnItem)) for a in args):
            raise Unsupported('external higher-order function %s' % c.text[:120])
        self.havocked[c.text[:120]] = self.havocked.get(c.text[:120], 0) + 1
        for a in args:
            for r in mutrefs(a):
                v = self.load(st, r)
                if isinstance(v, It):
                    raise Unsupported('external function advances an iterator: %s' % c.text[:100])
                if isinstance(v, Opq):
                    continue
                t = v.ty
                self.store(st, r, self.fresh_val('hv', t, st) if t is not None else Opq(None))
        if dty is None:
            return [(st, Opq(None))]
        if dty[0] == 'prim' and dty[1] == '!':
            return []
        if dty == UNIT_TY:
            return [(st, UNIT)]
        return [(st, self.fresh_val('ext', dty, st))]

    def call_value(self, st, f, args, dty, atys=None):
        """call a closure / fn item / opaque callable with positional args"""
        if isinstance(f, MutRef):
            g = self.load(st, f)
            if isinstance(g, Clo):
                return self.call_clo(st, g, args, f)
            return self.call_value(st, g, args, dty, atys)
        if isinstance(f, Clo):
            return self.call_clo(st, f, args, None)
        if isinstance(f, FnItem):
            c = self.parse_callee(f.path, f.norm, f.tenv)
            at = atys or [getattr(a, 'ty', None) for a in args]
            if not atys and c.kind in ('path', 'inherent') and not self.prog.candidates(self, c, at, dty):
                # values do not say whether they are behind a reference
                rt = [Ty(('ref', False, t)) if t is not None and t[0] != 'ref' else t for t in at]
                if self.prog.candidates(self, c, rt, dty):
                    at = rt
            return self.dispatch(st, c, args, at, dty, self.stack[-1] if self.stack else None, f.tenv)
        if isinstance(f, PyFn):
            return f.f(self, st, args, dty)
        if isinstance(f, Z):
            if dty is None:
                raise Unsupported('call of an opaque callable with unknown result type')
            zs = [self.z(a, None, st) for a in args]
            g = z3.Function('app<%s>' % f.e.sort().name(), *([f.e.sort()] + [x.sort() for x in zs] + [self.sort(dty)]))
            self.assumptions.add('generic callables (%s) are deterministic functions of their arguments' % ty_str(f.ty))
            return [(st, Z(g(f.e, *zs), dty))]
        raise Unsupported('call of %r' % (f,))

    def call_clo(self, st, clo, args, ref):
        fn = self.prog.closure_fn(clo)
        if fn is None:
            raise Unsupported('closure body not found ' + clo.id)
        B = fn.body
        selfty = B.locals[B.args[0]]
        first = clo
        cell = None
        if selfty[0] == 'ref' and selfty[1]:
            if ref is not None:
                first = ref
            else:
                cell = (next(self.frames), 'clo')
                st.mem[cell] = clo
                first = MutRef(cell, (), clo.ty)
        nargs = len(B.args) - 1
        if nargs != len(args):
            raise Unsupported('closure arity %d vs %d' % (nargs, len(args)))
        return self.run_fn(fn, [first] + args, st, clo.tenv)

    # ---------------------------------------------------------------- generic evaluation over an index
    def lam(self, st, n, body, name='k'):
        """evaluate body(state, k) for an arbitrary index 0<=k<n -> LamResult.

        Fresh constants introduced by the evaluation become functions of k."""
        k = z3.Int('%s!%d' % (name, next(self.cnt)))
        st2 = st.copy()
        st2.branch(z3.And(k >= 0, k < n) if n is not None else k >= 0)
        base = len(st2.pc)
        self.scopes.append([])
        try:
            outs = body(st2, k)
        finally:
            fr = self.scopes.pop()
        res = []
        for s3, v in outs:
            for c, v0 in st.mem.items():
                if s3.mem.get(c) is not v0:
                    raise Effects('closure with side effects over a symbolic sequence')
            if any(s3.ghost.get(g) is not v0 for g, v0 in st.ghost.items()) or set(s3.ghost) != set(st.ghost):
                raise Effects('closure with effects on shared cells over a symbolic sequence')
            b = [x for kd, x in s3.pc[base:] if kd == 'b']
            a = [x for kd, x in s3.pc[base:] if kd == 'a']
            res.append((b, a, v, s3))
        subs = []
        for c in fr:
            if self.scopes:
                # nested: the lifted constant itself depends on the outer index
                arr = z3.Const('larr_%s' % c.decl().name(), z3.ArraySort(z3.IntSort(), c.sort()))
                self.scopes[-1].append(arr)
                subs.append((c, z3.Select(arr, k)))
            else:
                f = z3.Function('lift_%s' % c.decl().name(), z3.IntSort(), c.sort())
                subs.append((c, f(k)))

        def inst(e, i):
            if subs:
                e = z3.substitute(e, *subs)
            return z3.substitute(e, (k, i))
        return LamResult(self, res, inst)

    # ---------------------------------------------------------------- helper for specs
    def axiom(self, key, mk):
        if key not in self.axiom_keys:
            self.axiom_keys.add(key)
            r = mk()
            self.defs.extend(r if isinstance(r, list) else [r])


class Effects(Unsupported):
    pass


class LamResult:
    """result of a generic evaluation: alternatives (guards, facts, value)"""

    def __init__(self, eng, alts, inst):
        self.eng = eng
        self.alts = alts
        self._inst = inst

    def inst(self, e, i):
        return self._inst(e, i)

    def inst_val(self, v, i):
        if isinstance(v, Z):
            return Z(self.inst(v.e, i), v.ty)
        if isinstance(v, Agg):
            return Agg(v.ty, v.variant, [self.inst_val(f, i) for f in v.fields])
        if isinstance(v, SeqV):
            at = v.at
            conc = [self.inst_val(x, i) for x in v.conc] if v.conc is not None else None
            if conc is not None:
                return self.eng.conc_seq(conc, v.elt)
            q = SeqV(self.inst(v.len, i), lambda j: self.inst_val(at(j), i), v.elt, z=self.inst(v.z, i) if v.z is not None else None)
            if v.parts is not None:
                q.parts = [self.inst_val(p, i) for p in v.parts]
            return q
        if isinstance(v, It):
            return It(self.inst_val(v.seq, i), self.inst(v.lo, i), self.inst(v.hi, i), v.peekable)
        if isinstance(v, (Opq, FnItem, MutRef)):
            return v
        if isinstance(v, Clo):
            return Clo(v.id, [self.inst_val(x, i) for x in v.caps], v.tenv, v.parent)
        return v

    def value(self, ty):
        """single merged value function i -> Value"""
        eng = self.eng
        alts = self.alts
        if len(alts) == 1:
            v = alts[0][2]
            return lambda i: self.inst_val(v, i)
        # merge through z3 If
        zs = []
        for b, a, v, s3 in alts:
            t = ty if ty is not None else getattr(v, 'ty', None)
            sub = State()
            zs.append((z3.And(b) if b else z3.BoolVal(True), eng.z(v, t, sub), [c for _, c in sub.pc]))
            ty2 = t
        e = zs[-1][1]
        for g, x, _ in reversed(zs[:-1]):
            e = z3.If(g, x, e)
        self.extra = [c for _, _, ex in zs for c in ex]
        return lambda i: Z(self.inst(e, i), ty2)

    def facts(self, i):
        """conjunction of facts valid for index i (for the alternative taken)"""
        out = []
        for b, a, v, s3 in self.alts:
            if a:
                f = z3.And(a)
                out.append(z3.Implies(z3.And(b), f) if b else f)
        out += list(getattr(self, 'extra', []))
        if not out:
            return z3.BoolVal(True)
        return self.inst(z3.And(out), i)


class PyFn(Value):
    """callable supplied by a specification: f(engine, st, args, dty) -> outcomes"""

    def __init__(self, f, ty=None):
        self.f = f
        self.ty = ty


class StaticRef(Value):
    """reference to a static item"""

    def __init__(self, path, ty):
        self.path = path
        self.ty = ty

    def __repr__(self):
        return 'Static(%s)' % self.path


class LoopCtx:
    def __init__(self, eng, F, st, bb):
        self.eng = eng
        self.F = F
        self.st = st
        self.bb = bb
        self.entry = None

    def var(self, name, st=None):
        """value of a source-level local"""
        B = self.F.fn.body
        st = st or self.st
        from mir import parse_place
        for t in B.debug.get(name, []):
            pl = parse_place(t, self.F.fn.norm)
            if (self.F.id, pl[1]) in st.mem:
                v = self.F.read(st, pl)
                if isinstance(v, MutRef):
                    v = self.eng.load(st, v)
                return v
        raise Unsupported('loop invariant: no variable %s' % name)

    def iters(self, st=None):
        """iterators of this frame that the loop advances"""
        st = st or self.st
        fn = self.F.fn
        touched = set()
        for bb in self.eng.loop_heads(fn).get(self.bb, ()):
            for s in parse_block(fn, bb):
                if s[0] in ('assign', 'call'):
                    touched.add(s[1][1])
                if s[0] == 'assign' and s[2][0] == 'ref' and s[2][1]:
                    touched.add(s[2][2][1])
        return [(c, v) for c, v in st.mem.items() if c[0] == self.F.id and c[1] in touched and isinstance(v, It)]


class Frame:
    def __init__(self, eng, fn, fid, tenv):
        self.eng = eng
        self.fn = fn
        self.id = fid
        self.tenv = tenv

    def ty(self, l):
        return subst_ty(self.fn.body.locals.get(l), self.tenv)

    def place_ty(self, pl):
        t = self.ty(pl[1])
        for p in pl[2]:
            if t is None:
                return None
            if p[0] == 'deref':
                if t[0] in ('ref', 'ptr'):
                    t = t[2]
                elif t[0] == 'adt' and t[1] in TRANSPARENT and t[2]:
                    t = t[2][0]
            elif p[0] == 'field':
                t = subst_ty(p[2], self.tenv)
            elif p[0] in ('index', 'cindex'):
                q = peel(t)
                t = q[1] if q[0] in ('slice', 'array') else (q[2][0] if q[0] == 'adt' and q[2] else None)
        return t

    def op_ty(self, o):
        if o[0] == 'use':
            return self.place_ty(o[1])
        s = o[1]
        m = re.match(r'^(-?\d+)_(\w+)$', s)
        if m:
            return Ty(('prim', m.group(2)))
        if s in ('true', 'false'):
            return BOOL_TY
        if s.startswith('"'):
            return Ty(('ref', False, STR_TY))
        if s == '()':
            return UNIT_TY
        f = None
        if 'promoted[' in s:
            f = self.eng.prog.promoted(self.fn, s)
        elif not s.startswith('{'):
            f = self.eng.prog.find_const(s, self.fn)
        if f is not None:
            return subst_ty(f.body.ret, self.tenv)
        m = re.match(r'^\{alloc\d+(?:\+0x\d+)?: (.*)\}$', s)
        if m:
            return parse_type(m.group(1), self.fn.norm)
        return None

    def resolve(self, st, pl):
        """place -> (cell, projs) or (None, value)"""
        cell = (self.id, pl[1])
        projs = []
        ps = list(pl[2])
        t = self.ty(pl[1])
        for idx, p in enumerate(ps):
            if p[0] == 'deref':
                v = st.mem.get(cell)
                if projs:
                    v = self.eng.load_projs(st, v, None, projs) if v is not None else None
                if isinstance(v, MutRef):
                    cell, projs = v.cell, list(v.projs)
                # otherwise transparent
            elif p[0] == 'index':
                iv = st.mem.get((self.id, p[1]))
                projs.append(('elem', z3.simplify(self.eng.z(iv, USIZE, st))))
            elif p[0] == 'field':
                projs.append(('field', p[1], subst_ty(p[2], self.tenv)))
            else:
                projs.append(p)
        return cell, projs

    def read(self, st, pl):
        v = st.mem.get((self.id, pl[1]))
        if not pl[2]:
            if v is None:
                if self.ty(pl[1]) == UNIT_TY:
                    return UNIT
                z = zero_sized(self.ty(pl[1]))
                if z is None:
                    raise Unsupported('read of uninitialised _%d in %s' % (pl[1], self.fn.name))
                v = st.mem[(self.id, pl[1])] = z
            return v
        variant = None
        t = self.ty(pl[1])
        eng = self.eng
        for p in pl[2]:
            k = p[0]
            if k == 'deref':
                if isinstance(v, MutRef):
                    v = eng.load(st, v)
                if t is not None:
                    if t[0] in ('ref', 'ptr'):
                        t = t[2]
                    elif t[0] == 'adt' and t[1] in TRANSPARENT and t[2]:
                        t = t[2][0]
            elif k == 'variant':
                variant = p[1]
            elif k == 'field':
                ft = subst_ty(p[2], self.tenv)
                v = eng.project(v, t, variant, p[1], ft, st)
                variant = None
                t = ft
            elif k == 'index':
                iv = st.mem.get((self.id, p[1]))
                v = eng.elem(v, z3.simplify(eng.z(iv, USIZE, st)), st)
                q = peel(t) if t is not None else None
                t = q[1] if q is not None and q[0] in ('slice', 'array') else None
            else:
                v = eng.load_projs(st, v, t, [p])
                q = peel(t) if t is not None else None
                if k == 'cindex':
                    t = q[1] if q is not None and q[0] in ('slice', 'array') else None
        return v

    def write(self, st, pl, v):
        if not pl[2]:
            st.mem[(self.id, pl[1])] = v
            return
        cell, projs = self.resolve(st, pl)
        self.eng.store(st, MutRef(cell, projs, None), v)

    def ref(self, st, pl, mut):
        if not mut:
            v = self.read(st, pl)
            return v
        # a mutable reborrow of a place behind a plain (immutable snapshot) value is a snapshot too
        cell, projs = self.resolve(st, pl)
        return MutRef(cell, projs, self.place_ty(pl))

    def operand(self, st, o):
        if o[0] == 'use':
            return self.read(st, o[1])
        return self.eng.const(o[1], None, self.fn, self.tenv, st)


# ------------------------------------------------------------------------------------------------ small helpers
def zero_sized(t):
    """the value of a type with a single value: the compiler drops its initialisation"""
    if t == UNIT_TY:
        return UNIT
    if t is not None and t[0] == 'adt' and t[1] == 'std::option::Option' and t[2] and t[2][0] == Ty(('adt', 'std::convert::Infallible', ())):
        return Agg(t, 0, [])
    return None


def reachable(st, v):
    """the cells behind the mutable references of a value"""
    out, todo = set(), mutrefs(v)
    while todo:
        r = todo.pop()
        if r.cell not in out:
            out.add(r.cell)
            w = st.mem.get(r.cell)
            if w is not None:
                todo += mutrefs(w)
    return out


def mutrefs(v, depth=0):
    if isinstance(v, MutRef):
        return [v]
    if depth > 6:
        return []
    if isinstance(v, Agg):
        return [r for f in v.fields for r in mutrefs(f, depth + 1)]
    if isinstance(v, Clo):
        return [r for f in v.caps for r in mutrefs(f, depth + 1)]
    return []


def int_range(n):
    b = INT_BITS[n]
    if b > 0:
        return 0, (1 << b) - 1
    return -(1 << (-b - 1)), (1 << (-b - 1)) - 1


def ctor_eq(e, vi):
    """e is the constructor vi applied to e's fields (exposes the constructor term to triggers)"""
    so = e.sort()
    con = so.constructor(vi)
    if z3.is_app(e) and e.decl().eq(con):
        return None
    return e == con(*[so.accessor(vi, j)(e) for j in range(con.arity())])


def is_num(e):
    return isinstance(e, int) or z3.is_int_value(e)


def num(e):
    return e if isinstance(e, int) else e.as_long()


def is_int(e, k):
    return is_num(e) and num(e) == k


def sgn(v):
    return v - (1 << 64) if v >= (1 << 63) else (v - 256 if v == 255 else v)


def short(n):
    return re.sub(r'<impl at [^>]*/([^/>]*\.rs:\d+)[^>]*>', r'<impl \1>', n)


def outer(a):
    d = 0
    o = []
    for c in a:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            o.append(c)
    return ''.join(o)


def impl_seg(s, i):
    """s[i:] is a path segment '<impl ..>' (not a list of generic arguments)"""
    return s.startswith('<impl ', i) and s.startswith('::', scan_to(s, i + 1, set()) + 1)


def split_segs(s):
    """'a::b::<X>::c::<Y>' -> [('a',[]),('b',['X']),('c',['Y'])]"""
    out = []
    i = 0
    n = len(s)
    cur = ''
    while i < n:
        if s.startswith('::', i):
            if i + 2 < n and s[i + 2] == '<' and not impl_seg(s, i + 2):
                j = scan_to(s, i + 3, set())
                out_args = split_top(s[i + 3:j])
                out.append((cur, out_args))
                cur = None
                i = j + 1
                continue
            if cur is not None:
                out.append((cur, []))
            cur = ''
            i += 2
            continue
        if s[i] == '<':
            j = scan_to(s, i + 1, set())
            if impl_seg(s, i):
                cur = (cur or '') + s[i:j + 1]
            else:
                out.append((cur, split_top(s[i + 1:j])))
                cur = None
            i = j + 1
            continue
        if s[i] == '{':
            j = scan_to(s, i + 1, set())
            cur = (cur or '') + s[i:j + 1]
            i = j + 1
            continue
        cur = (cur or '') + s[i]
        i += 1
    if cur:
        out.append((cur, []))
    return out


def unescape(s):
    def r(m):
        c = m.group(1)
        if c == 'n':
            return '\n'
        if c == 't':
            return '\t'
        if c == 'r':
            return '\r'
        if c == '0':
            return '\0'
        if c.startswith('u{'):
            return chr(int(c[2:-1], 16))
        if c.startswith('x'):
            return chr(int(c[1:], 16))
        return c
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', r, s)
