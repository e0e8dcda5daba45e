"""Contracts on repository functions: verification of a body against its contract and use of a contract at call sites."""
import re
import z3
from engine import *
from engine import mutrefs, is_num, num, is_int, short, Obligation
from mir import parse_type, ty_str, Ty


class Ctx:
    """what a specification clause sees"""

    def __init__(self, eng, st, fn, args, tys, tenv, ret=None, rty=None, old=None):
        self.eng, self.st, self.fn, self.args, self.tys, self.tenv, self.ret, self.rty = eng, st, fn, args, tys, tenv, ret, rty
        self.old = old if old is not None else st

    def val(self, i, old=True):
        v = self.args[i]
        if isinstance(v, MutRef):
            v = self.eng.load(self.old if old else self.st, v)
        return v

    def new(self, i):
        return self.val(i, False)

    def z(self, i, old=True):
        return self.eng.z(self.val(i, old), peel_ref(self.tys[i]), self.st)

    def znew(self, i):
        return self.z(i, False)

    def seq(self, i, old=True):
        return self.eng.as_seq(self.val(i, old), self.st)

    @property
    def zret(self):
        return self.eng.z(self.ret, self.rty, self.st)

    def rseq(self):
        return self.eng.as_seq(self.ret, self.st)


class Contract:
    def __init__(self, name, anchor, requires=None, ensures=None, define=None, tys=None, mk_args=None, loops=None, panics=None,
                 modifies=(), apply=None, trusted=False, case=None, unroll=None, doc='', folds=None, assumes=None):
        self.name = name
        self.anchor = anchor          # dict for Program.find
        self.requires = requires
        self.ensures = ensures
        self.define = define
        self.tys = tys or {}
        self.mk_args = mk_args        # {index: fn(eng, st, ty) -> Value}
        self.loops = loops            # [(predicate(LoopCtx) or None, inv)]
        self.panics = panics          # None: never panics; True: may always; fn(ctx) -> z3 condition under which it may
        self.modifies = modifies
        self.custom_apply = apply
        self.assumes = assumes        # fn(ctx) -> [(text, fact)] taken for granted after a call, reported as assumptions
        self.folds = folds            # fn(FoldCtx) -> [(name, invariant)] for folds over symbolic sequences
        self.trusted = trusted
        self.case = case
        self.doc = doc
        self.fns = []
        self.paths = 0

    def attach(self, eng):
        self.fns = self.anchor(eng.prog) if callable(self.anchor) else eng.prog.find(**self.anchor)
        if len(self.fns) != 1:
            raise Anchor('%s: %d functions match %s' % (self.name, len(self.fns), self.anchor))
        eng.contracts[id(self.fns[0])] = self

    def loop_for(self, eng, F, bb):
        if F.fn is not self.fns[0] and not F.fn.name.startswith(self.fns[0].name + '::{'):
            return None
        if callable(self.loops):
            return self.loops
        for pred, inv in self.loops:
            if pred is None or pred(eng, F, bb):
                return inv
        return None

    # ---------------------------------------------------------------- call site
    def apply(self, eng, st, fn, args, tenv):
        B = fn.body
        tys = [subst_ty(B.locals[l], tenv) for l in B.args]
        rty = subst_ty(B.ret, tenv)
        cx = Ctx(eng, st, fn, args, tys, tenv, None, rty)
        if self.custom_apply is not None:
            return self.custom_apply(cx)
        if self.requires:
            for n, g in self.requires(cx):
                eng.oblige(st, 'precondition of %s: %s' % (self.name, n), g)
                st.assume(g)
        if self.panics is not None:
            c = z3.BoolVal(True) if self.panics is True else self.panics(cx)
            bad = st.copy()
            bad.branch(c)
            if eng.feasible(bad):
                eng.panic(bad, 'callee %s may panic' % self.name)
            if self.panics is not True:
                st.branch(z3.Not(c))
        old = st.copy()
        for i in self.modifies:
            if isinstance(i, str):
                eng.set_heap(st, i, eng.fresh('heap', eng.heap_sort(i)))
            elif isinstance(args[i], MutRef):
                v = eng.load(st, args[i])
                eng.store(st, args[i], eng.fresh_val('mod', v.ty if v.ty is not None else tys[i][2], st))
        cx.old = old
        if self.define is not None:
            cx.ret = self.define(cx)
            return [(st, cx.ret)]
        cx.ret = UNIT if rty == UNIT_TY else eng.fresh_val('ret_' + self.name.split('::')[-1], rty, st)
        for n, g in (self.ensures(cx) if self.ensures else []):
            st.assume(g)
        for n, g in (self.assumes(cx) if self.assumes else []):
            eng.assumptions.add(n)
            st.assume(g)
        return [(st, cx.ret)]

    # ---------------------------------------------------------------- verification
    def verify(self, eng):
        fn = self.fns[0]
        B = fn.body
        self.paths = 0
        for tys in (self.tys if isinstance(self.tys, list) else [self.tys]):
            self.verify_inst(eng, tys)

    def verify_inst(self, eng, insts):
        fn = self.fns[0]
        B = fn.body
        tenv = {}
        for k, v in insts.items():
            if v is None:
                continue
            tenv[k] = parse_type(v, fn.norm) if isinstance(v, str) else v
        # impl-trait parameters are named by prefix
        for l in B.args:
            for name in opaque_names(B.locals[l]):
                for k in list(tenv):
                    if (name.startswith(k) or re.sub(r'^impl ([a-z_]+::)+', 'impl ', name).startswith(k)) and name not in tenv:
                        tenv[name] = tenv[k]
        tys = [subst_ty(B.locals[l], tenv) for l in B.args]
        rty = subst_ty(B.ret, tenv)
        eng.verifying = self
        eng.stack = []
        eng.scopes = []
        alts = [(State(), [])]
        for i, t in enumerate(tys):
            mk = (self.mk_args or {}).get(i)
            nxt = []
            for s0, a0 in alts:
                if mk:
                    r = mk(eng, s0, t)
                    r = r if isinstance(r, list) else [(s0, r)]
                else:
                    r = arb(eng, s0, 'arg%d' % i, t)
                nxt += [(s1, a0 + [v]) for s1, v in r]
            alts = nxt
        for st, args in alts:
            self.verify_case(eng, fn, st, args, tys, tenv, rty)

    def verify_case(self, eng, fn, st, args, tys, tenv, rty):
        eng.verifying = self
        eng.stack = []
        eng.scopes = []
        cx = Ctx(eng, st, fn, args, tys, tenv, None, rty)
        if self.requires:
            for n, g in self.requires(cx):
                st.assume(g)
        if not eng.feasible(st):
            eng.obls.append(Obligation('precondition satisfiable', self.name, 'vacuous', 0))
            return
        if self.panics is True:
            eng.panic_mode = 'allow'
        elif self.panics is not None:
            eng.panic_mode = 'collect'
        else:
            eng.panic_mode = 'obligation'
        eng.panics = []
        old = st.copy()
        n0 = len(eng.obls)
        outs = eng.run_fn(fn, args, st, tenv)
        if eng.panic_mode == 'collect':
            for s2, why in eng.panics:
                c2 = Ctx(eng, s2, fn, args, tys, tenv, None, rty, old)
                eng.oblige(s2, 'panics only when allowed: ' + why, self.panics(c2))
        self.paths += len(outs)
        live = 0
        for s2, v in outs:
            c2 = Ctx(eng, s2, fn, args, tys, tenv, v, rty, old)
            if eng.feasible(s2):
                live += 1
            if s2.ghost.get('guards'):
                raise Unsupported('a mutable borrow is still open at the end')
            for g in eng.heap_sorts:
                if g not in self.modifies and g in s2.ghost:
                    eng.oblige(s2, 'frame: the %s are not modified' % g, eng.heap(s2, g) == eng.heap(old, g))
            if self.define is not None:
                eng.oblige(s2, 'result is the specified value', val_eq(eng, s2, v, self.define(c2), rty))
            for n, g in (self.ensures(c2) if self.ensures else []):
                eng.oblige(s2, n, g)
            if self.panics is not None and self.panics is not True:
                pass
        if not live and not (self.panics is True):
            eng.obls.append(Obligation('some execution returns', self.name, 'vacuous', 0))
        eng.verifying = None


def opaque_names(t):
    if t is None:
        return []
    k = t[0]
    if k == 'opaque':
        return [t[1]]
    if k in ('ref', 'ptr'):
        return opaque_names(t[2])
    if k == 'tuple':
        return [n for x in t[1] for n in opaque_names(x)]
    if k in ('slice', 'array'):
        return opaque_names(t[1])
    if k == 'adt':
        return [n for x in t[2] for n in opaque_names(x)]
    return []


ITERS = {'std::slice::Iter': 0, 'std::vec::IntoIter': 0, 'std::array::IntoIter': 0, 'std::slice::IterMut': 0}


def has_iter(eng, t, seen=()):
    t = peel_ref(t) if t is not None else None
    if t is None:
        return False
    if t[0] == 'tuple':
        return any(has_iter(eng, x, seen) for x in t[1])
    if t[0] != 'adt':
        return False
    if t[1] in ITERS:
        return True
    if t in seen or t[1] in LISTS:
        return False
    vs = eng.variants(Ty(('adt', EXT_ALIAS.get(t[1], t[1]), t[2])))
    if vs is None:
        return False
    return any(has_iter(eng, ft, seen + (t,)) for _, fs in vs for _, ft in fs)


def arb(eng, st, name, t):
    """arbitrary value of a type -> [(state, value)]"""
    if t[0] == 'ref' and t[1]:
        out = []
        for s, v in arb(eng, st, name, t[2]):
            cell = (next(eng.frames), name)
            s.mem[cell] = v
            out.append((s, MutRef(cell, (), t[2])))
        return out
    p = peel_ref(t)
    if p[0] == 'adt' and p[1] in ITERS:
        l = eng.fresh_val(name, Ty(('slice', p[2][0])), st)
        seq = eng.as_seq(l, st)
        lo = eng.fresh('lo', z3.IntSort())
        hi = eng.fresh('hi', z3.IntSort())
        st.assume(z3.And(lo >= 0, lo <= hi, hi <= seq.len, seq.len < (1 << 63)))
        return [(st, It(seq, lo, hi))]
    if p[0] in ('adt', 'tuple') and has_iter(eng, p):
        c = Ty(('adt', EXT_ALIAS.get(p[1], p[1]), p[2])) if p[0] == 'adt' else p
        out = []
        for vi, (vn, fs) in enumerate(eng.variants(c)):
            alts = [(st.copy(), [])]
            for fn_, ft in fs:
                alts = [(s2, a + [v]) for s1, a in alts for s2, v in arb(eng, s1, name + '.' + fn_, ft)]
            out += [(s, Agg(p, vi, a)) for s, a in alts]
        return out
    return [(st, eng.fresh_val(name, t, st))]


def mk_iter(eltstr):
    """argument that is an iterable: an arbitrary finite list of elements"""
    def mk(eng, st, t):
        elt = eltstr if not isinstance(eltstr, str) else parse_type(eltstr, eng.prog.norms['cryptovampire'])
        lt = Ty(('slice', elt))
        v = eng.fresh_val('items', lt, st)
        return It(eng.as_seq(v, st))
    return mk


def val_eq(eng, st, a, b, ty):
    """goal: value a equals value b"""
    if isinstance(a, MutRef):
        a = eng.load(st, a)
    if isinstance(b, MutRef):
        b = eng.load(st, b)
    if isinstance(a, (SeqV, It)) or isinstance(b, (SeqV, It)):
        return seq_eq(eng, st, eng.as_seq(a, st), eng.as_seq(b, st))
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.variant != b.variant or len(a.fields) != len(b.fields):
            return z3.BoolVal(False)
        return z3.And([val_eq(eng, st, x, y, None) for x, y in zip(a.fields, b.fields)] or [z3.BoolVal(True)])
    if isinstance(a, Agg) or isinstance(b, Agg):
        ag, o = (a, b) if isinstance(a, Agg) else (b, a)
        if isinstance(o, Z) and o.e.sort().kind() == z3.Z3_DATATYPE_SORT:
            so = o.e.sort()
            vs = eng.variants(eng.canon(o.ty if o.ty is not None else ag.ty))
            if vs is not None and len(vs[ag.variant][1]) == len(ag.fields):
                cs = [so.recognizer(ag.variant)(o.e)] if so.num_constructors() > 1 else []
                for j, (f, (_, ft)) in enumerate(zip(ag.fields, vs[ag.variant][1])):
                    cs.append(val_eq(eng, st, f, eng.project(o, peel(o.ty or ag.ty), vs[ag.variant][0], j, ft, st), ft))
                return z3.And(cs) if cs else z3.BoolVal(True)
    x = eng.z(a, ty, st)
    y = eng.z(b, ty, st)
    if x.sort() != y.sort():
        raise Unsupported('comparing %s with %s' % (x.sort(), y.sort()))
    return x == y


def seq_eq(eng, st, a, b):
    if a.conc is not None and b.conc is not None:
        if len(a.conc) != len(b.conc):
            return z3.BoolVal(False)
        return z3.And([val_eq(eng, st, x, y, a.elt or b.elt) for x, y in zip(a.conc, b.conc)] or [z3.BoolVal(True)])
    if a.z is not None and b.z is not None and a.z.eq(b.z):
        return z3.BoolVal(True)
    if a.conc is not None or b.conc is not None:
        c, o = (a, b) if a.conc is not None else (b, a)
        return z3.And([o.len == len(c.conc)] + [val_eq(eng, st, x, o.at(z3.IntVal(i)), a.elt or b.elt) for i, x in enumerate(c.conc)])
    i = z3.Int('ix!%d' % next(eng.cnt))
    sub = State()
    sub.mem = st.mem
    body = val_eq(eng, sub, a.at(i), b.at(i), a.elt or b.elt)
    if sub.pc:
        body = z3.Implies(z3.And([c for _, c in sub.pc]), body)
    return z3.And(a.len == b.len, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.len), body)))
