"""C07: fresh variables."""
import copy
from speclib import *
from engine import MutRef
import c04

IVI = CV + 'formula::variable::IntoVariableIter'


def vars_fn(eng, t):
    """the variables of a value of an arbitrary type implementing IntoVariableIter"""
    return z3.Function('vars<%s>' % tname(eng, t), eng.sort(t), eng.sort(lst(VAR)))


def hook(eng, st, c, args, atys, dty):
    if c.kind == 'trait' and c.trait.endswith('::IntoVariableIter') and c.method == 'vars_iter' and peel(c.self_ty)[0] in ('param', 'opaque'):
        t = peel(c.self_ty)
        vt = peel(args[0].ty) if getattr(args[0], 'ty', None) is not None else t
        if vt[0] == 'adt':
            # the element type was not inferred from the type of the iterator, but the element is known
            c2 = copy.copy(c)
            c2.self_ty = Ty(('ref', False, vt))
            return eng.dispatch(st, c2, args, [c2.self_ty], dty, None, {})
        l = Z(vars_fn(eng, t)(eng.z(args[0], t, st)), lst(VAR))
        return [(st, It(eng.as_seq(l, st)))]
    if c.kind == 'trait' and c.method == 'bounds':
        t = formula_assoc(eng, c.self_ty) if c.self_ty[0] == 'proj' else None
        if t is not None:
            c2 = copy.copy(c)
            c2.self_ty = t
            return eng.dispatch(st, c2, args, [Ty(('ref', False, t))], dty, None, {})
    if c.kind == 'trait' and c.method == 'clone' and peel(c.self_ty)[0] == 'proj' and peel(c.self_ty)[2].endswith('IteratorHelper') and peel(c.self_ty)[3] == 'Passing':
        h = peel(peel(c.self_ty)[1])
        if h[0] == 'adt' and h[1].endswith('::RefPile') and peel(h[2][0])[2][2] == USIZE:
            return [(st, eng.load(st, args[0]) if isinstance(args[0], MutRef) else args[0])]
    if c.kind == 'trait' and c.method == 'default' and c.self_ty[0] == 'proj' and c.self_ty[2].endswith('IteratorHelper') and c.self_ty[3] == 'Passing':
        # RefPile<Content<U, F, P>, I> as IteratorHelper has Passing = P
        h = peel(c.self_ty[1])
        if h[0] == 'adt' and h[1].endswith('::RefPile') and peel(h[2][0])[2][2] == Ty(('tuple', ())):
            return [(st, UNIT)]
    return None


def vs(cx, i=0):
    t = peel(cx.tys[i])
    return cx.eng.as_seq(Z(vars_fn(cx.eng, t)(cx.z(i)), lst(VAR)), cx.st)


def fa(eng, f):
    i = z3.Int('i!%d' % next(eng.cnt))
    return z3.ForAll([i], f(i))


def ex(eng, f):
    i = z3.Int('i!%d' % next(eng.cnt))
    return z3.Exists([i], f(i))


def inr(i, s):
    return z3.And(i >= 0, i < s.len)


def sz(eng, s, i, st):
    v = s.at(i)
    return eng.z(v, s.elt, st)


def bounded(cx, s, what='variable identifiers below the 32-bit limit'):
    f = F_(cx.eng)
    return (what, fa(cx.eng, lambda i: z3.Implies(inr(i, s), f.vid(sz(cx.eng, s, i, cx.st)) < UVAR_MAX)))


def ids_post(cx):
    f = F_(cx.eng)
    s, r = vs(cx), cx.rseq()
    return [('as many identifiers as variables', r.len == s.len),
            ('the identifiers of the variables, in order', fa(cx.eng, lambda i: z3.Implies(inr(i, s), sz(cx.eng, r, i, cx.st) == f.vid(sz(cx.eng, s, i, cx.st)))))]


def max_post(lower):
    def post(cx):
        f = F_(cx.eng)
        s, r = vs(cx), cx.zret
        lo = cx.z(1) if lower else z3.IntVal(0)
        return [('larger than the lower bound', r > lo),
                ('larger than every identifier in use', fa(cx.eng, lambda i: z3.Implies(inr(i, s), r > f.vid(sz(cx.eng, s, i, cx.st)))))]
    return post


def contains_post(cx):
    f = F_(cx.eng)
    s = vs(cx)
    return [('true exactly when the identifier occurs', cx.zret == ex(cx.eng, lambda i: z3.And(inr(i, s), f.vid(sz(cx.eng, s, i, cx.st)) == f.vid(cx.z(1)))))]


def single(cx):
    r = cx.rseq()
    return [('one variable', r.len == 1), ('the variable itself', sz(cx.eng, r, z3.IntVal(0), cx.st) == cx.z(0))]


def all_post(cx):
    eng = cx.eng
    l, r = cx.seq(0), cx.rseq()
    V = l.elt
    vf = vars_fn(eng, peel(V))
    inner = lambda i: eng.as_seq(Z(vf(sz(eng, l, i, cx.st)), lst(VAR)), cx.st)
    i, j, k = [z3.Int('%s!%d' % (n, next(eng.cnt))) for n in 'ijk']
    e = lambda i, j: sz(eng, inner(i), j, cx.st)
    return [('every variable of every element', z3.ForAll([i, j], z3.Implies(z3.And(inr(i, l), inr(j, inner(i))), z3.Exists([k], z3.And(inr(k, r), sz(eng, r, k, cx.st) == e(i, j)))))),
            ('only variables of the elements', z3.ForAll([k], z3.Implies(inr(k, r), z3.Exists([i, j], z3.And(inr(i, l), inr(j, inner(i)), sz(eng, r, k, cx.st) == e(i, j))))))]


def stv_post(cx):
    eng = cx.eng
    f = F_(eng)
    s, r = cx.seq(1), cx.rseq()
    at = lambda i: sz(eng, r, i, cx.st)
    return [('one variable per sort', r.len == s.len),
            ('consecutive identifiers from the given one', fa(eng, lambda i: z3.Implies(inr(i, s), f.vid(at(i)) == cx.z(0) + i))),
            ('of the given sorts', fa(eng, lambda i: z3.Implies(inr(i, s), f.vsort(at(i)) == sz(eng, s, i, cx.st))))]


def stv_pre(cx):
    return [('identifiers below the 32-bit limit', cx.z(0) + cx.seq(1).len <= UVAR_MAX)]


def add_post(cx):
    f = F_(cx.eng)
    return [('shifted identifier', f.vid(cx.zret) == f.vid(cx.z(0)) + cx.z(1)), ('same sort', f.vsort(cx.zret) == f.vsort(cx.z(0)))]


def iter_ret(elt, post):
    """call site of a function returning some iterator: a fresh list with the postcondition; for a concrete Self the body is executed instead"""
    def ap(cx):
        t = peel(cx.tys[0])
        if t[0] not in ('param', 'opaque'):
            return cx.eng.run_body(cx.fn, cx.args, cx.st, cx.tenv)
        cx.ret = It(cx.eng.as_seq(cx.eng.fresh_val('iter', lst(elt), cx.st), cx.st))
        for _, g in post(cx):
            cx.st.assume(g)
        return [(cx.st, cx.ret)]
    return ap


# ------------------------------------------------------------------------------------------------ formula traversal
LF = 'logic_formula::'
CONTENT = lambda f, p: adt(LF + 'outers::Content', VAR, f, p)
UVI = adt(LF + 'iterators::UsedVariableIterator')


def occ_fn(eng):
    """occ(id, formula): the variable id occurs in the formula"""
    o = eng.__dict__.get('_occ')
    if o is not None:
        return o
    f = F_(eng)
    o = eng._occ = z3.Function('occ', z3.IntSort(), f.rf, z3.BoolSort())
    d, v, fn, q, a, l, i = z3.Int('d'), z3.Const('v', f.var), z3.Const('fn', eng.sort(FUN)), z3.Const('q', f.quant), z3.Const('a', f.arf), z3.Const('l', f.largs), z3.Int('i')
    eng.defs.extend([
        z3.ForAll([d, v], o(d, f.Var(v)) == (d == f.vid(v)), patterns=[o(d, f.Var(v))]),
        z3.ForAll([d, fn, l], o(d, f.Fun(fn, l)) == z3.Exists([i], z3.And(i >= 0, i < f.len(l), o(d, f.un(f.nth(l, i))))), patterns=[o(d, f.Fun(fn, l))]),
        z3.ForAll([d, q, a], o(d, f.Q(q, a)) == o(d, f.un(a)), patterns=[o(d, f.Q(q, a))]),
    ])
    return o


def rf_of(eng, v, t, st):
    e = eng.z(v, peel(t), st)
    f = F_(eng)
    return f.un(e) if e.sort() == f.arf else e


def pend(eng, st, seq, d, t, last=False):
    """the identifier d is still to be produced by the pile (a list of Content<Variable, t, ()>)"""
    ct = CONTENT(t, Ty(('tuple', ())))
    so = eng.sort(ct)
    f = F_(eng)
    o = occ_fn(eng)

    def one(v):
        e = eng.z(v, seq.elt or ct, st)
        so = e.sort()
        fm = so.accessor(1, 0)(e)
        fm = f.un(fm) if fm.sort() == f.arf else fm
        return z3.If(so.recognizer(0)(e), f.vid(so.accessor(0, 0)(e)) == d, o(d, fm))
    return exists_in(eng, seq, one, last)


def pile_of(cx, i=0, old=True):
    v = cx.val(i, old)
    return cx.eng.as_seq(fld(cx.eng, v, 0, cx.st), cx.st)


def fld(eng, v, i, st=None):
    vs = eng.variants(eng.canon(v.ty))
    return eng.project(v, v.ty, vs[0][0], i, vs[0][1][i][1], st)


def used_next_post(cx):
    eng = cx.eng
    f = F_(eng)
    t = cx.tenv['F']
    o, n = pile_of(cx), pile_of(cx, old=False)
    d = z3.Int('d!%d' % next(eng.cnt))
    r = cx.zret
    so = r.sort()
    x = so.accessor(1, 0)(r)
    return [('every pending identifier is produced or remains pending, nothing else appears',
             z3.Implies(so.recognizer(1)(r), z3.ForAll([d], pend(eng, cx.st, o, d, t, True) == z3.Or(d == f.vid(x), pend(eng, cx.st, n, d, t))))),
            ('ends only when nothing is pending', z3.Implies(so.recognizer(0)(r), z3.ForAll([d], z3.Not(pend(eng, cx.st, o, d, t, True)))))]


# ------------------------------------------------------------------------------------------------ iterating a pile, whole problems
PILE = LF + 'outers::owned_pile::OwnedPile'
HSET = 'std::collections::HashSet'
PBL = CV + 'problem::'
STEP = adt(REF, adt(PBL + 'step::InnerStep'))
CELL = adt(REF, adt(PBL + 'cell::inner::InnerMemoryCell'))


def view(eng, st, v, ty):
    """iterating a pile of formulas by UsedVariableIterator: exactly the pending identifiers, by the contract of next; a set: its elements"""
    t = peel(ty) if ty is not None else None
    if t is None or t[0] != 'adt':
        return None
    if t[1] == HSET and isinstance(v, Z):
        e = eng.z(v, t, st)
        l = z3.Function('elements<%s>' % tname(eng, t[2][0]), e.sort(), eng.sort(lst(t[2][0])))
        eng.assumptions.add('iterating a set enumerates its elements')
        return eng.as_seq(Z(l(e), lst(t[2][0])), st)
    if t[1] != PILE or len(t[2]) != 2 or t[2][1] != UVI or peel(t[2][0])[0] != 'adt':
        return None
    ct = peel(t[2][0])
    if peel(ct[2][1]) not in (RF, ARF) or ct[2][2] != Ty(('tuple', ())):
        return None
    ct = CONTENT(ct[2][1], ct[2][2])
    eng.used_contracts.add('OwnedPile::next')
    eng.assumptions.add('an iterator that is consumed to its end yields what its successive next calls yield (traversals terminate: formulas are finite)')
    f, o = F_(eng), occ_fn(eng)
    L = eng.as_seq(eng.fresh_val('pile', lst(VAR), st), st)
    w = z3.Function('where!%d' % next(eng.cnt), z3.IntSort(), z3.IntSort())
    p = eng.as_seq(fld(eng, v, 0, st), st)
    d = z3.Int('d!%d' % next(eng.cnt))
    at = lambda i: f.vid(sz(eng, L, i, st))
    there = lambda d: z3.And(w(d) >= 0, w(d) < L.len, at(w(d)) == d)

    def each(x):
        e = eng.z(x, ct, st)
        so = e.sort()
        fm = so.accessor(1, 0)(e)
        fm = f.un(fm) if fm.sort() == f.arf else fm
        return z3.If(so.recognizer(0)(e), there(f.vid(so.accessor(0, 0)(e))), z3.ForAll([d], z3.Implies(o(d, fm), there(d)), patterns=[o(d, fm)]))
    st.assume(quant(eng, p, each, True))
    st.assume(fa(eng, lambda i: z3.Implies(inr(i, L), pend(eng, st, p, at(i), ct[2][1]))))
    return L


# ------------------------------------------------------------------------------------------------ free variables
FVI = adt(LF + 'iterators::FreeVariableIterator', VAR)
USIZE = Ty(('prim', 'usize'))


def fvv_fn(eng):
    """fv(id, formula): the variable id occurs free in the formula"""
    o = eng.__dict__.get('_fvv')
    if o is not None:
        return o
    f = F_(eng)
    o = eng._fvv = z3.Function('fv', z3.IntSort(), f.rf, z3.BoolSort())
    d, v, fn, q, a, l, i = z3.Int('d'), z3.Const('v', f.var), z3.Const('fn', eng.sort(FUN)), z3.Const('q', f.quant), z3.Const('a', f.arf), z3.Const('l', f.largs), z3.Int('i')
    eng.defs.extend([
        z3.ForAll([d, v], o(d, f.Var(v)) == (d == f.vid(v)), patterns=[o(d, f.Var(v))]),
        z3.ForAll([d, fn, l], o(d, f.Fun(fn, l)) == z3.Exists([i], z3.And(i >= 0, i < f.len(l), o(d, f.un(f.nth(l, i))))), patterns=[o(d, f.Fun(fn, l))]),
        z3.ForAll([d, q, a], o(d, f.Q(q, a)) == z3.And(o(d, f.un(a)), z3.Not(bound_by(eng, q, d))), patterns=[o(d, f.Q(q, a))]),
    ])
    return o


def bound_by(eng, q, d):
    f = F_(eng)
    l = z3.If(q.sort().recognizer(0)(q), q.sort().accessor(0, 0)(q), q.sort().accessor(1, 0)(q))
    return ex(eng, lambda i: z3.And(i >= 0, i < f.vlen(l), f.vid(f.vnth(l, i)) == d))


def content_of(eng, v, t, st):
    """-> (is a result, result, formula, passing) of an entry of the pile"""
    f = F_(eng)
    e = eng.z(v, CONTENT(t, USIZE), st)
    so = e.sort()
    fm = so.accessor(1, 0)(e)
    return so.recognizer(0)(e), so.accessor(0, 0)(e), (f.un(fm) if fm.sort() == f.arf else fm), so.accessor(1, 1)(e)


def among(eng, bv, n, w, st):
    n = z3.simplify(n)
    if z3.is_int_value(n) and n.as_long() <= 0:
        return z3.BoolVal(False)
    return ex(eng, lambda k: z3.And(k >= 0, k < n, F_(eng).vid(sz(eng, bv, k, st)) == w))


def fpend(eng, st, pile, bv, w, t, last=False):
    """the variable w is still to be produced: as a result, or as a free variable of an entry that is not bound at its place"""
    o = fvv_fn(eng)

    def one(v):
        isr, r, fm, p = content_of(eng, v, t, st)
        return z3.If(isr, F_(eng).vid(r) == w, z3.And(o(w, fm), z3.Not(among(eng, bv, p, w, st))))
    return exists_in(eng, pile, one, last)


def finv(eng, st, pile, bv, t):
    """the bound variables of an entry are a prefix of those of the entries above it, and of the current ones"""
    i, j = z3.Int('i!%d' % next(eng.cnt)), z3.Int('j!%d' % next(eng.cnt))
    ci, cj = content_of(eng, pile.at(i), t, st), content_of(eng, pile.at(j), t, st)
    return [('bound variables are known', z3.ForAll([i], z3.Implies(z3.And(inr(i, pile), z3.Not(ci[0])), z3.And(ci[3] >= 0, ci[3] <= bv.len)))),
            ('bound variables of the entries are nested', z3.ForAll([i, j], z3.Implies(z3.And(inr(i, pile), inr(j, pile), i < j, z3.Not(ci[0]), z3.Not(cj[0])), ci[3] <= cj[3])))]


def bvars_of(cx, v):
    it = fld(cx.eng, v, 1, cx.st)
    return cx.eng.as_seq(fld(cx.eng, it, 0, cx.st), cx.st)


def free_next_pre(cx):
    return finv(cx.eng, cx.st, pile_of(cx), bvars_of(cx, cx.val(0)), cx.tenv['F'])


def free_next_post(cx):
    eng = cx.eng
    t = cx.tenv['F']
    o, n = pile_of(cx), pile_of(cx, old=False)
    a, b = bvars_of(cx, cx.val(0)), bvars_of(cx, cx.val(0, False))
    w = z3.Int('w!%d' % next(eng.cnt))
    r = cx.zret
    so = r.sort()
    x = so.accessor(1, 0)(r)
    some = so.recognizer(1)(r)
    return [('every pending variable is produced or remains pending, nothing else appears',
             z3.Implies(some, z3.ForAll([w], fpend(eng, cx.st, o, a, w, t, True) == z3.Or(w == F_(eng).vid(x), fpend(eng, cx.st, n, b, w, t))))),
            ('ends only when nothing is pending', z3.Implies(so.recognizer(0)(r), z3.ForAll([w], z3.Not(fpend(eng, cx.st, o, a, w, t, True)))))] + [
            (m, z3.Implies(some, g)) for m, g in finv(eng, cx.st, n, b, t)]


def by_iter(used, free):
    return lambda cx: (free if peel(cx.tenv['I'])[1].endswith('::FreeVariableIterator') else used)(cx)


def free_view(eng, st, v, ty):
    """iterating a pile of formulas by FreeVariableIterator: exactly the pending variables, by the contract of next"""
    t = peel(ty) if ty is not None else None
    if t is None or t[0] != 'adt' or t[1] != PILE or len(t[2]) != 2 or peel(t[2][1])[0] != 'adt' or not peel(t[2][1])[1].endswith('::FreeVariableIterator'):
        return None
    ct = peel(t[2][0])
    if ct[0] != 'adt' or ct[2][1][0] != 'ref' or peel(ct[2][1]) not in (RF, ARF):
        return None
    ft = ct[2][1]
    eng.used_contracts.add('OwnedPile::next')
    eng.assumptions.add('an iterator that is consumed to its end yields what its successive next calls yield (traversals terminate: formulas are finite)')
    f = F_(eng)
    L = eng.as_seq(eng.fresh_val('free', lst(VAR), st), st)
    p = eng.as_seq(fld(eng, v, 0, st), st)
    bv = eng.as_seq(fld(eng, fld(eng, v, 1, st), 0, st), st)
    for n, g in finv(eng, st, p, bv, ft):
        eng.oblige(st, 'traversing free variables: ' + n, g)
    wh = z3.Function('where!%d' % next(eng.cnt), z3.IntSort(), z3.IntSort())
    w = z3.Int('w!%d' % next(eng.cnt))
    at = lambda i: f.vid(sz(eng, L, i, st))
    o = fvv_fn(eng)

    def each(x):
        isr, r, fm, k = content_of(eng, x, ft, st)
        there = lambda w: z3.And(wh(w) >= 0, wh(w) < L.len, at(wh(w)) == w)
        return z3.If(isr, there(f.vid(r)), z3.ForAll([w], z3.Implies(z3.And(o(w, fm), z3.Not(among(eng, bv, k, w, st))), there(w)), patterns=[o(w, fm)]))
    st.assume(z3.simplify(quant(eng, p, each, True)))
    st.assume(fa(eng, lambda i: z3.Implies(inr(i, L), z3.simplify(fpend(eng, st, p, bv, at(i), ft)))))
    return L


def free_vars(cx):
    """the variables produced are those that occur free in the formula"""
    eng = cx.eng
    f, o = F_(eng), fvv_fn(eng)
    r = free_view(eng, cx.st, cx.ret, cx.rty)
    e = rf_of(eng, cx.val(0), cx.tys[0], cx.st)
    w = z3.Int('w!%d' % next(eng.cnt))
    at = lambda i: f.vid(sz(eng, r, i, cx.st))
    return [('only free variables', fa(eng, lambda i: z3.Implies(inr(i, r), o(at(i), e)))),
            ('every free variable', z3.ForAll([w], z3.Implies(o(w, e), ex(eng, lambda i: z3.And(inr(i, r), at(i) == w)))))]


def once_hook(eng, st, c, args, atys, dty):
    if c.method == 'get_or_init' and 'OnceCell' in c.text:
        eng.assumptions.add('a OnceCell is empty or holds what its initialiser returns (protocols are not modified after construction)')
        return eng.call_value(st, args[1], [], dty[2] if dty[0] == 'ref' else dty)
    return None


def fz(eng, e, t, *names):
    """field access by name through structs -> (z3, type)"""
    t = peel(t)
    for n in names:
        c = eng.canon(t)
        (vn, fs), = eng.variants(c)
        i = [x for x, _ in fs].index(n)
        e, t = e.sort().accessor(0, i)(e), peel(fs[i][1])
    return e, t


def seqz(eng, st, et):
    return eng.as_seq(Z(*et), st)


def deref(eng, e, t):
    v, d = ref_fns(eng, t)
    return d(e), peel(t)[2][0]


def valid(eng, e, t):
    return ref_fns(eng, t)[0](e)


LIMIT = 2 ** 31  # the identifiers of a problem: far below the 32-bit limit, so that adding 1 a few times never overflows


class Pb:
    """vocabulary over problems and protocols"""

    def __init__(self, cx):
        self.cx, self.eng, self.st = cx, cx.eng, cx.st
        self.f, self.o = F_(self.eng), occ_fn(self.eng)

    def every(self, et, pred):
        """pred(z3 element, type) of every element of a list"""
        s = seqz(self.eng, self.st, et)
        return fa(self.eng, lambda i: z3.Implies(inr(i, s), pred(sz(self.eng, s, i, self.st), s.elt)))

    def below(self, r):
        return lambda e, t: self.f.vid(e) < r

    def occ_below(self, r):
        def p(e, t):
            d = z3.Int('d!%d' % next(self.eng.cnt))
            fm = self.f.un(e) if e.sort() == self.f.arf else e
            return z3.ForAll([d], z3.Implies(self.o(d, fm), d < r), patterns=[self.o(d, fm)])
        return p

    def F(self, e, t, *n):
        return fz(self.eng, e, t, *n)

    def each_step(self, ptcl, pred):
        return self.every(self.F(*ptcl, 'steps'), lambda e, t: pred(e, t))

    def each_assignment(self, ptcl, pred):
        return self.every(self.F(*ptcl, 'memory_cells'), lambda e, t: self.every(self.F(*deref(self.eng, e, t), 'assignements'), pred))

    def ptcl_ok(self, ptcl):
        return [('steps and cells are initialised', z3.And(self.each_step(ptcl, lambda e, t: valid(self.eng, e, t)), self.every(self.F(*ptcl, 'memory_cells'), lambda e, t: valid(self.eng, e, t))))] + [
            (n + ' (32-bit limit)', g) for n, g in self.ptcl_below(ptcl, z3.IntVal(LIMIT))]

    def ptcl_below(self, ptcl, r):
        D = lambda e, t: deref(self.eng, e, t)
        S = lambda pred: self.each_step(ptcl, pred)
        A = lambda pred: self.each_assignment(ptcl, pred)
        return [('larger than the parameters of the steps', S(lambda e, t: self.every(self.F(*D(e, t), 'free_variables'), self.below(r)))),
                ('larger than the variables used in the steps', S(lambda e, t: self.every(self.F(*D(e, t), 'used_variables'), self.below(r)))),
                ('larger than the fresh variables of the assignments', A(lambda e, t: self.every(self.F(e, t, 'fresh_vars'), self.below(r)))),
                ('larger than the variables of the arguments of the assignments', A(lambda e, t: self.every(self.F(e, t, 'args'), self.occ_below(r)))),
                ('larger than the variables of the contents of the assignments', A(lambda e, t: self.occ_below(r)(*self.F(e, t, 'content'))))]


def ptcl_post(cx):
    P = Pb(cx)
    return P.ptcl_below((cx.z(0), peel(cx.tys[0])), cx.zret) + [('no overflow', cx.zret <= LIMIT)]


def ptcl_pre(cx):
    P = Pb(cx)
    return P.ptcl_ok((cx.z(0), peel(cx.tys[0])))


TAQ = adt(FN + 'inner::term_algebra::quantifier::Quantifier')


def fun_quant(eng, e):
    """(is a ta quantifier, its Quantifier) of a function reference"""
    inner = ref_fns(eng, FUN)[1](e)
    iso = inner.sort()
    names = [n for n, _ in eng.variants(eng.canon(INNERF))]
    i = names.index('TermAlgebra')
    ta_t = peel(eng.variants(eng.canon(INNERF))[i][1][0][1])
    ta = iso.accessor(i, 0)(inner)
    vs = eng.variants(eng.canon(ta_t))
    j = [n for n, _ in vs].index('Quantifier')
    return z3.And(iso.recognizer(i)(inner), ta.sort().recognizer(j)(ta)), ta.sort().accessor(j, 0)(ta)


def asq_fn(eng):
    """asq(function): its ta quantifier, if it is one (what the contract of as_quantifer says; callers need nothing else of it)"""
    o = eng.__dict__.get('_asq')
    if o is None:
        o = eng._asq = z3.Function('asq', eng.sort(FUN), eng.sort(opt(TAQ)))
    return o


def asq_post(cx):
    so = cx.eng.sort(opt(TAQ))
    c, q = fun_quant(cx.eng, cx.z(0))
    return [('the quantifier of a ta quantifier, nothing otherwise', cx.zret == z3.If(c, so.constructor(1)(q), so.constructor(0)()))]


def asq_apply(cx):
    cx.eng.used_contracts.add('Function::as_quantifer')
    return [(cx.st, Z(asq_fn(cx.eng)(cx.z(0)), opt(Ty(('ref', False, TAQ)))))]


def declared_below(P, pb, r):
    fs = P.F(*pb, 'functions')

    def q(name):
        def p(e, t):
            o = asq_fn(P.eng)(e)
            x = o.sort().accessor(1, 0)(o)
            return z3.Implies(o.sort().recognizer(1)(o), P.every(P.F(x, TAQ, name), P.below(r)))
        return p
    return [('larger than the free variables of the ta quantifiers', P.every(fs, q('free_variables'))),
            ('larger than the bound variables of the ta quantifiers', P.every(fs, q('bound_variables')))] + P.ptcl_below(P.F(*pb, 'protocol'), r)


def pbl_below(P, pb, r, extra):
    out = declared_below(P, pb, r)
    for n in ('assertions', 'lemmas') + (('extra_instances',) if extra else ()):
        e, t = P.F(*pb, n)
        if n == 'extra_instances':
            s = view(P.eng, P.st, Z(e, t), t)
            g = fa(P.eng, lambda i: z3.Implies(inr(i, s), P.occ_below(r)(sz(P.eng, s, i, P.st), ARF)))
        else:
            g = P.every((e, t), P.occ_below(r))
        out.append(('larger than the variables of the ' + n.replace('_', ' '), g))
    out.append(('larger than the variables of the query', P.occ_below(r)(*P.F(*pb, 'query'))))
    for n in ('condition', 'message'):
        out.append(('larger than the variables of the %ss of the steps' % n, P.each_step(P.F(*pb, 'protocol'), lambda e, t: P.occ_below(r)(*P.F(*deref(P.eng, e, t), n)))))
    return out


def pbl_post(which):
    def post(cx):
        P = Pb(cx)
        pb = (cx.z(0), peel(cx.tys[0]))
        return (declared_below(P, pb, cx.zret) if which is None else pbl_below(P, pb, cx.zret, which)) + [('no overflow', cx.zret <= LIMIT + (1 if which is None else 2))]
    return post


def pbl_pre(cx):
    P = Pb(cx)
    pb = (cx.z(0), peel(cx.tys[0]))
    return P.ptcl_ok(P.F(*pb, 'protocol')) + [('functions are initialised', P.every(P.F(*pb, 'functions'), lambda e, t: valid(P.eng, e, t)))] + [
        (n + ' (32-bit limit)', g) for n, g in pbl_below(P, pb, z3.IntVal(LIMIT), True)]


def formula_vars(cx):
    """the identifiers produced are those that occur in the formula"""
    eng = cx.eng
    f, o = F_(eng), occ_fn(eng)
    r = view(eng, cx.st, cx.ret, cx.rty)
    e = rf_of(eng, cx.val(0), cx.tys[0], cx.st)
    d = z3.Int('d!%d' % next(eng.cnt))
    at = lambda i: f.vid(sz(eng, r, i, cx.st))
    return [('only variables that occur', fa(eng, lambda i: z3.Implies(inr(i, r), o(at(i), e)))),
            ('every variable that occurs', z3.ForAll([d], z3.Implies(o(d, e), ex(eng, lambda i: z3.And(inr(i, r), at(i) == d)))))]


# ------------------------------------------------------------------------------------------------ collision-avoiding renaming
FZ = adt(CV + 'formula::manipulation::substitution::variable_substitution::ref_substitution::FrozenMultipleVarSubst', VAR)
OVS = adt(CV + 'formula::manipulation::substitution::variable_substitution::one_var::OneVarSubst', VAR)


def subst_facts(eng, V, B, R, st):
    """R: the entries (identifier, variable) of the renaming of V made to avoid B"""
    f = F_(eng)
    v = lambda i: sz(eng, V, i, st)
    b = lambda i: sz(eng, B, i, st)
    so = eng.sort(OVS)
    rid = lambda k: so.accessor(0, 0)(eng.z(R.at(k), OVS, st))
    rv = lambda k: so.accessor(0, 1)(eng.z(R.at(k), OVS, st))
    i, j, k = [z3.Int('%s!%d' % (n, next(eng.cnt))) for n in 'ijk']
    return [
        ('renames variables it was given, keeping their sorts', z3.ForAll([k], z3.Implies(inr(k, R), z3.Exists([i], z3.And(inr(i, V), f.vid(v(i)) == rid(k), f.vsort(v(i)) == f.vsort(rv(k))))))),
        ('new identifiers are larger than those it was given', z3.ForAll([k, i], z3.Implies(z3.And(inr(k, R), inr(i, V)), f.vid(rv(k)) > f.vid(v(i))))),
        ('new identifiers are larger than those to avoid', z3.ForAll([k, i], z3.Implies(z3.And(inr(k, R), inr(i, B)), f.vid(rv(k)) > f.vid(b(i))))),
        ('distinct variables get distinct identifiers', z3.ForAll([j, k], z3.Implies(z3.And(inr(j, R), inr(k, R), f.vid(rv(j)) == f.vid(rv(k))), rid(j) == rid(k)))),
        ('every variable to avoid is renamed', z3.ForAll([i, j], z3.Implies(z3.And(inr(i, V), inr(j, B), f.vid(v(i)) == f.vid(b(j))), z3.Exists([k], z3.And(inr(k, R), rid(k) == f.vid(v(i))))))),
        ('only variables to avoid are renamed', z3.ForAll([k], z3.Implies(inr(k, R), z3.Exists([j], z3.And(inr(j, B), f.vid(b(j)) == rid(k)))))),
    ]


def avoid_pre(cx):
    f = F_(cx.eng)
    out = []
    for i in (0, 1):
        s = cx.seq(i)
        out.append(('identifiers below 2^31', fa(cx.eng, lambda k: z3.Implies(inr(k, s), z3.And(f.vid(sz(cx.eng, s, k, cx.st)) >= 0, f.vid(sz(cx.eng, s, k, cx.st)) < LIMIT)))))
    return out + [('lists fit in memory', cx.seq(0).len < (1 << 63))]


def avoid_post(cx):
    return subst_facts(cx.eng, cx.seq(0), cx.seq(1), c04.entries(cx, cx.ret), cx.st)


def avoiding(eng):
    """applying the renaming (contract of FrozenMultipleVarSubst::get_var) to the variables it was made for"""
    f = F_(eng)
    mk = lambda n, t: eng.as_seq(Z(z3.Const(n, eng.sort(lst(t))), lst(t)), None)
    V, B, R = mk('V', VAR), mk('B', VAR), mk('R', OVS)
    hyps = [V.len >= 0, B.len >= 0, R.len >= 0] + [g for _, g in subst_facts(eng, V, B, R, None)]
    so = eng.sort(OVS)
    get = z3.Function('get_var', f.var, f.var)
    x, k, j = z3.Const('x', f.var), z3.Int('k'), z3.Int('j')
    rid = lambda k: so.accessor(0, 0)(eng.z(R.at(k), OVS))
    rv = lambda k: so.accessor(0, 1)(eng.z(R.at(k), OVS))
    hit = lambda k, x: z3.And(inr(k, R), rid(k) == f.vid(x))
    hyps.append(z3.ForAll([x], z3.Or(z3.And(z3.Not(z3.Exists([k], hit(k, x))), get(x) == x),
                                     z3.Exists([k], z3.And(hit(k, x), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), rid(j) != f.vid(x))), get(x) == rv(k)))), patterns=[get(x)]))
    a, b, c = z3.Ints('a b c')
    va, vb = sz(eng, V, a, None), sz(eng, V, b, None)
    ins = [inr(a, V), inr(b, V)]
    same = z3.ForAll([j, k], z3.Implies(z3.And(inr(j, V), inr(k, V), f.vid(sz(eng, V, j, None)) == f.vid(sz(eng, V, k, None))), sz(eng, V, j, None) == sz(eng, V, k, None)))
    return [('distinct variables stay distinct', hyps + ins + [f.vid(va) != f.vid(vb)], f.vid(get(va)) != f.vid(get(vb))),
            ('no renamed variable is one to avoid', hyps + ins + [inr(c, B)], f.vid(get(va)) != f.vid(sz(eng, B, c, None))),
            ('sorts are kept', hyps + ins + [same], f.vsort(get(va)) == f.vsort(va))]


def inlined(cx):
    return cx.eng.run_body(cx.fn, cx.args, cx.st, cx.tenv)


def param_only(ct):
    """at call sites on concrete types the body is executed instead of using the contract over the abstract list of variables"""
    def ap(cx):
        if peel(cx.tys[0])[0] not in ('param', 'opaque'):
            return cx.eng.run_body(cx.fn, cx.args, cx.st, cx.tenv)
        ct.custom_apply = None
        try:
            return ct.apply(cx.eng, cx.st, cx.fn, cx.args, cx.tenv)
        finally:
            ct.custom_apply = ap
    ct.custom_apply = ap
    return ct


def contracts():
    m = dict(crate='cryptovampire')
    V = dict(m, mod=r'formula::variable::')
    D = r'IntoVariableIter::'
    return [
        Contract('IntoVariableIter::vars_id_iter', dict(m, method='vars_id_iter', mod=D), ensures=ids_post, apply=iter_ret(U32, ids_post)),
        param_only(Contract('IntoVariableIter::max_var', dict(m, method='max_var', mod=D), requires=lambda cx: [bounded(cx, vs(cx))], ensures=max_post(False))),
        param_only(Contract('IntoVariableIter::max_var_or_max', dict(m, method='max_var_or_max', mod=D), requires=lambda cx: [bounded(cx, vs(cx)), ('bound below the 32-bit limit', cx.z(1) < UVAR_MAX)], ensures=max_post(True))),
        param_only(Contract('IntoVariableIter::contains_var', dict(m, method='contains_var', mod=D), ensures=contains_post)),
        Contract('Variable::vars_iter', dict(m, method='vars_iter', impl=r'IntoVariableIter<.bump> for Variable'), ensures=single, apply=inlined),
        Contract('&Variable::vars_iter', dict(m, method='vars_iter', impl=r'IntoVariableIter<.bump> for &.a Variable'), ensures=single, apply=inlined),
        Contract('IntoIterator::vars_iter', dict(m, method='vars_iter', impl=r'IntoVariableIter<.bump> for U'), tys={'U': VECT(Ty(('param', 'V')))}, ensures=all_post, apply=inlined),
        Contract('sorts_to_variables', dict(m, method='sorts_to_variables'), tys={'I': Ty(('ref', False, SORT)), 'I2': VECT(VAR)}, mk_args={1: mk_iter(SORT)}, requires=stv_pre, ensures=stv_post),
        Contract('Variable::add', dict(m, method='add', impl=r'Add<.*> for Variable'), requires=lambda cx: [('sum below the 32-bit limit', F_(cx.eng).vid(cx.z(0)) + cx.z(1) <= UVAR_MAX)], ensures=add_post),
        Contract('OwnedPile::next', dict(crate='logic_formula', method='next', impl=r'Iterator for OwnedPile'), tys=[
            {'F': t, 'I': UVI, 'Passing': Ty(('tuple', ())), 'U': VAR} for t in (Ty(('ref', False, RF)), Ty(('ref', False, ARF)), ARF)] + [
            {'F': t, 'I': FVI, 'Passing': USIZE, 'U': VAR} for t in (Ty(('ref', False, RF)), Ty(('ref', False, ARF)))], modifies=(0,), requires=by_iter(lambda cx: [], free_next_pre), ensures=by_iter(used_next_post, free_next_post)),
        Contract('Formula::free_vars_iter', dict(crate='logic_formula', method='free_vars_iter'), tys=[{'Self': t} for t in (Ty(('ref', False, RF)), Ty(('ref', False, ARF)))], ensures=free_vars, apply=inlined),
        Contract('&ARichFormula::vars_iter', dict(m, method='vars_iter', impl=r"IntoVariableIter<.bump> for &.a ARichFormula"), ensures=formula_vars, apply=inlined),
        Contract('Protocol::max_var', dict(m, method='max_var', impl=r'^impl<.bump> Protocol'), requires=ptcl_pre, ensures=ptcl_post),
        Contract('Function::as_quantifer', dict(m, method='as_quantifer', impl=r'^impl<.bump> Function<'), requires=lambda cx: [('the function is initialised', valid(cx.eng, cx.z(0), FUN))], ensures=asq_post, apply=asq_apply),
        Contract('Problem::max_declared_var', dict(m, method='max_declared_var', impl=r'^impl<.bump> Problem'), requires=pbl_pre, ensures=pbl_post(None)),
        Contract('Problem::max_var', dict(m, method='max_var', impl=r'^impl<.bump> Problem'), requires=pbl_pre, ensures=pbl_post(True)),
        Contract('Problem::max_var_no_extras', dict(m, method='max_var_no_extras', impl=r'^impl<.bump> Problem'), requires=pbl_pre, ensures=pbl_post(False)),
        Contract('make_collision_avoiding_subst', dict(m, method='make_collision_avoiding_subst'), tys={'impl IntoIterator': VECT(VAR)}, requires=avoid_pre, ensures=avoid_post),
    ]


HOOKS = [hook, once_hook, ref_hook]
VIEWS = [view, free_view]
LEMMAS = [('applying a collision-avoiding renaming', avoiding)]
DEPS = ['c09', 'c04']

NOTE = ('Proof by contracts: the next free variable of any list of variables, of a protocol and of a problem is larger than every variable in use; the iterator over the variables of formulas yields '
        'exactly the variables that occur, and the one over the free variables exactly those that occur free, for every state of its pile; a collision-avoiding renaming keeps distinct variables distinct and their sorts, and hits no identifier to avoid. '
        'The unfolding of steps and cells and the variables of whole generated problems are checked on generated inputs (bounded).')
ASSUMPTIONS = ['lists hold fewer than 2^63 elements', 'identifiers below the 32-bit limit (of a problem: at most 2^31)',
               'unfolding of steps and cells, whole problems: on generated inputs only (bounded)']
