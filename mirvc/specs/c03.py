"""C03: the SMT file asserts every axiom as is and the goal negated, once."""
from speclib import *

SM = CV + 'smt::smt::'
SF = adt(SM + 'SmtFormula')
SMT = adt(SM + 'Smt')
SFILE = adt(SM + 'SmtFile')
SUBT = adt(I_ + 'subterm::Subterm')
SKIND = adt(CV + 'subterm::kind::AbsSubtermKindG', Ty(('tuple', ())), Ty(('tuple', ())))
LSF = VECT(SF)


class G:
    """spec functions of the translation: sf (a formula), sl (a list of formulas), wf (applied to as many arguments as the symbol takes)"""

    def __init__(self, eng):
        f = self.f = F_(eng)
        self.eng = eng
        self.s = eng.sort(SF)
        self.l = eng.sort(LSF)
        self.len, self.nth = eng.list_fns(LSF)
        self.sf = z3.Function('smt_of', f.rf, self.s)
        self.sl = z3.Function('smt_args', f.largs, self.l)
        self.wf = z3.Function('well_formed', f.rf, z3.BoolSort())
        valid, deref = ref_fns(eng, FUN)
        v, q, a, fn, l, i = z3.Const('v', f.var), z3.Const('q', f.quant), z3.Const('a', f.arf), z3.Const('fn', eng.sort(FUN)), z3.Const('l', f.largs), z3.Int('i')
        isq = lambda n: is_ctor_(eng, QUANT, n, q)
        c = lambda n, *x: ctor(eng, SF, n, *x)
        k = deref(fn)
        is_ = lambda n: is_ctor_(eng, INNERF, n, k)
        b = acc(eng, INNERF, 'Bool', 0, k)
        conn = acc(eng, BOOLEANS, 'Connective', 0, b)
        co = lambda n: z3.And(is_('Bool'), is_ctor_(eng, BOOLEANS, 'Connective', b), is_ctor_(eng, CONN, n, conn))
        vamp = z3.And(is_('Subterm'), self.is_vampire(acc(eng, INNERF, 'Subterm', 0, k)))
        arg = lambda j: self.sf(f.un(f.nth(l, z3.IntVal(j))))
        L = self.sl(l)
        cases = [(co('True'), c('True')), (co('False'), c('False')), (co('And'), c('And', L)), (co('Or'), c('Or', L)),
                 (co('Not'), c('Not', arg(0))), (co('Implies'), c('Implies', arg(0), arg(1))),
                 (z3.And(is_('Bool'), is_ctor_(eng, BOOLEANS, 'Equality', b)), c('Eq', L)),
                 (is_('IfThenElse'), c('Ite', arg(0), arg(1), arg(2))),
                 (vamp, c('Subterm', fn, arg(0), arg(1)))]
        body = c('Fun', fn, L)
        for cond, r in reversed(cases):
            body = z3.If(cond, r, body)
        arity = z3.And(z3.Implies(co('Not'), f.len(l) == 1), z3.Implies(z3.Or(co('Implies'), vamp), f.len(l) == 2), z3.Implies(is_('IfThenElse'), f.len(l) == 3))
        F1 = self.sf(f.Fun(fn, l))
        Q1 = self.sf(f.Q(q, a))
        eng.defs.extend([
            z3.ForAll([v], self.sf(f.Var(v)) == c('Var', v), patterns=[self.sf(f.Var(v))]),
            z3.ForAll([q, a], Q1 == z3.If(isq('Exists'), c('Exists', acc(eng, QUANT, 'Exists', 0, q), self.sf(f.un(a))), c('Forall', acc(eng, QUANT, 'Forall', 0, q), self.sf(f.un(a)))), patterns=[Q1]),
            z3.ForAll([fn, l], F1 == body, patterns=[F1]),
            z3.ForAll([l], self.len(self.sl(l)) == f.len(l), patterns=[self.sl(l)]),
            z3.ForAll([l, i], z3.Implies(z3.And(i >= 0, i < f.len(l)), self.nth(self.sl(l), i) == self.sf(f.un(f.nth(l, i)))), patterns=[self.nth(self.sl(l), i)]),
            # well formed: initialised symbols, the built-in connectives have the arguments they take
            z3.ForAll([q, a], z3.Implies(self.wf(f.Q(q, a)), self.wf(f.un(a))), patterns=[self.wf(f.Q(q, a))]),
            z3.ForAll([fn, l], z3.Implies(self.wf(f.Fun(fn, l)), z3.And(valid(fn), arity, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < f.len(l)), self.wf(f.un(f.nth(l, i))))))), patterns=[self.wf(f.Fun(fn, l))]),
        ])

    def is_vampire(self, sub):
        return is_ctor_(self.eng, SKIND, 'Vampire', self.kind(sub))

    def kind(self, sub):
        return z3.Function('subterm_kind', self.eng.sort(SUBT), self.eng.sort(SKIND))(sub)

    def of(self, e):
        """the translation of a formula or shared formula"""
        return self.sf(self.f.un(e) if e.sort() == self.f.arf else e)

    def ok(self, e):
        return self.wf(self.f.un(e) if e.sort() == self.f.arf else e)


def G_(eng):
    g = getattr(eng, '_G03', None)
    if g is None:
        g = eng._G03 = G(eng)
    return g


AX = adt(CV + 'formula::file_descriptior::axioms::Axiom')
RW = adt(CV + 'formula::file_descriptior::axioms::Rewrite')
ENV = adt(CV + 'environement::environement::Environement')
DECL = adt(CV + 'formula::file_descriptior::declare::Declaration')
DT = adt(CV + 'formula::file_descriptior::declare::DataType')
CD = adt(CV + 'formula::file_descriptior::declare::ConstructorDestructor')
DSUB = adt(CV + 'formula::file_descriptior::declare::Subterm')
CONS = adt(SM + 'SmtCons')
FLAGS = ('no_bitstring_functions', 'use_assert_theory', 'use_assert_not', 'use_assert_ground', 'no_rewrite')


def flag(eng, name, env):
    return z3.Function('flag_' + name, eng.sort(ENV), z3.BoolSort())(env)


def ax_formulas(eng, ax):
    """[(this kind, formula)] for the formulas an axiom holds"""
    rw = acc(eng, AX, 'Rewrite', 0, ax)
    return [(is_ctor_(eng, AX, k, ax), acc(eng, AX, k, j, ax)) for k, j in (('Base', 0), ('Ground', 1), ('Theory', 0), ('Query', 0))] + [(is_ctor_(eng, AX, 'Rewrite', ax), acc(eng, RW, 'Rewrite', j, rw)) for j in (2, 3)]


def ax_ok(eng, ax):
    return z3.And([z3.Implies(c, G_(eng).ok(f)) for c, f in ax_formulas(eng, ax)])


def axiom_post(cx):
    eng = cx.eng
    g = G_(eng)
    env, ax, r = cx.z(0), cx.z(1), cx.zret
    k = lambda n: is_ctor_(eng, AX, n, ax)
    c = lambda n, *a: ctor(eng, SMT, n, *a)
    is_ = lambda n: is_ctor_(eng, SMT, n, r)
    a = lambda n, j=0: acc(eng, SMT, n, j, r)
    F = {n: g.of(acc(eng, AX, n, j, ax)) for n, j in (('Base', 0), ('Ground', 1), ('Theory', 0), ('Query', 0))}
    rw = acc(eng, AX, 'Rewrite', 0, ax)
    kind, vars_, pre, post = [acc(eng, RW, 'Rewrite', j, rw) for j in range(4)]
    pre, post = g.of(pre), g.of(post)
    q = acc(eng, SMT, 'Assert', 0, r)
    eqs = acc(eng, SF, 'Eq', 0, acc(eng, SF, 'Forall', 1, q))
    fl = lambda n: flag(eng, n, env)
    neg = ctor(eng, SF, 'Not', F['Query'])
    return [
        ('a comment stays one', z3.Implies(k('Comment'), is_('Comment'))),
        ('a base axiom is asserted as is', z3.Implies(k('Base'), r == c('Assert', F['Base']))),
        ('a theory axiom is asserted as is', z3.Implies(k('Theory'), z3.If(fl('use_assert_theory'), r == c('AssertTh', F['Theory']), r == c('Assert', F['Theory'])))),
        ('a ground axiom is asserted as is', z3.Implies(k('Ground'), z3.If(fl('use_assert_ground'), r == c('AssertGround', acc(eng, AX, 'Ground', 0, ax), F['Ground']), r == c('Assert', F['Ground'])))),
        ('the query is negated exactly once', z3.Implies(k('Query'), z3.If(fl('use_assert_not'), r == c('AssertNot', F['Query']), r == c('Assert', neg)))),
        ('a rewrite is a rule', z3.Implies(z3.And(k('Rewrite'), z3.Not(fl('no_rewrite'))), r == c('DeclareRewrite', kind, vars_, pre, post))),
    ] + [('without rewrite rules it is the equality it stands for: ' + n, z3.Implies(z3.And(k('Rewrite'), fl('no_rewrite')), x)) for n, x in (
        ('assertion', is_('Assert')), ('universal', is_ctor_(eng, SF, 'Forall', q)), ('variables', acc(eng, SF, 'Forall', 0, q) == vars_), ('equality', is_ctor_(eng, SF, 'Eq', acc(eng, SF, 'Forall', 1, q))),
        ('two sides', g.len(eqs) == 2), ('left-hand side', g.nth(eqs, 0) == pre), ('right-hand side', g.nth(eqs, 1) == post))
    ]


def decl_post(cx):
    eng = cx.eng
    d, r = cx.z(1), cx.zret
    k = lambda n: is_ctor_(eng, DECL, n, d)
    a = lambda n, j=0: acc(eng, DECL, n, j, d)
    c = lambda n, *x: ctor(eng, SMT, n, *x)
    sub = a('Subterm')
    dts = eng.as_seq(Z(a('DataTypes'), VECT(DT)), cx.st)
    sorts = eng.as_seq(Z(acc(eng, SMT, 'DeclareDatatypes', 0, r), VECT(SORT)), cx.st)
    conss = eng.as_seq(Z(acc(eng, SMT, 'DeclareDatatypes', 1, r), VECT(VECT(CONS))), cx.st)
    i, j = z3.Int('i!dt'), z3.Int('j!dt')
    di = eng.z(dts.at(i), DT, State())
    cds = eng.as_seq(Z(acc(eng, DT, 'DataType', 1, di), VECT(CD)), State())
    out = eng.as_seq(conss.at(i), State())
    cj, oj = eng.z(cds.at(j), CD, State()), eng.z(out.at(j), CONS, State())
    row = z3.And(eng.z(sorts.at(i), SORT, State()) == acc(eng, DT, 'DataType', 0, di), out.len == cds.len,
                 z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cds.len), z3.And(acc(eng, CONS, 'SmtCons', 0, oj) == acc(eng, CD, 'ConstructorDestructor', 0, cj), acc(eng, CONS, 'SmtCons', 1, oj) == acc(eng, CD, 'ConstructorDestructor', 1, cj)))))
    return [('a sort is declared', z3.Implies(k('Sort'), r == c('DeclareSort', a('Sort')))),
            ('a function is declared', z3.Implies(k('FreeFunction'), r == c('DeclareFun', a('FreeFunction')))),
            ('a sort alias is declared', z3.Implies(k('SortAlias'), r == c('DeclareSortAlias', a('SortAlias', 0), a('SortAlias', 1)))),
            ('a subterm relation is declared', z3.Implies(k('Subterm'), r == c('DeclareSubtermRelation', acc(eng, DSUB, 'Subterm', 0, sub), acc(eng, DSUB, 'Subterm', 1, sub)))),
            ('all datatypes are declared', z3.Implies(k('DataTypes'), z3.And(is_ctor_(eng, SMT, 'DeclareDatatypes', r), sorts.len == dts.len, conss.len == dts.len, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < dts.len), row)))))]


GF = adt(CV + 'formula::file_descriptior::GeneralFile')


def img(eng, name, env, x):
    """the command an axiom / declaration becomes (what its contract says about it is proved separately)"""
    return z3.Function(name, env.sort(), x.sort(), eng.sort(SMT))(env, x)


def a_img(name, pre=None):
    def apply(cx):
        eng = cx.eng
        if pre:
            eng.oblige(cx.st, 'the formulas of the axiom are well formed', pre(eng, cx.z(1)))
        return [(cx.st, Z(img(eng, name, cx.z(0), cx.z(1)), SMT))]
    return apply


def gf_parts(eng, gf, st):
    vs = [n for n, _ in eng.variants(eng.canon(GF))[0][1]]
    return [eng.as_seq(Z(acc(eng, GF, 'GeneralFile', vs.index(n), gf), VECT(t)), st) for n, t in (('declarations', DECL), ('assertions', AX))]


def file_pre(cx):
    eng = cx.eng
    ds, axs = gf_parts(eng, cx.z(1), cx.st)
    i = z3.Int('i!gf')
    return [('the formulas are well formed', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < axs.len), ax_ok(eng, eng.z(axs.at(i), AX, State())))))]


def file_post(cx):
    eng = cx.eng
    env = cx.z(0)
    ds, axs = gf_parts(eng, cx.z(1), cx.st)
    out = eng.as_seq(Z(acc(eng, SFILE, 'SmtFile', 0, cx.zret), VECT(SMT)), cx.st)
    i = z3.Int('i!gf')
    at = lambda j: eng.z(out.at(j), SMT, State())
    return [('as many commands as declarations and axioms, and one more', out.len == ds.len + axs.len + 1),
            ('the declarations come first, in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ds.len), at(i) == img(eng, 'smt_declaration', env, eng.z(ds.at(i), DECL, State()))))),
            ('then one assertion per axiom, in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < axs.len), at(ds.len + i) == img(eng, 'smt_axiom', env, eng.z(axs.at(i), AX, State()))))),
            ('the last command is check-sat', at(ds.len + axs.len) == ctor(eng, SMT, 'CheckSat'))]


PBL = adt(CV + 'problem::problem::Problem')
EVALR = adt(I_ + 'evaluate::Evaluator')


def pbl_field(eng, e, name):
    return acc(eng, PBL, 'Problem', [n for n, _ in eng.variants(eng.canon(PBL))[0][1]].index(name), e)


def prop(eng, f, ev):
    """evaluation pushed through a user formula"""
    return z3.Function('propagated', f.sort(), ev.sort(), eng.sort(ARF))(f, ev)


def is_query(eng, e):
    return is_ctor_(eng, AX, 'Query', e)


def axs(cx, i, old=True):
    return cx.seq(i, old)


def az(eng, s, i):
    return eng.z(s.at(i), AX, State())


def appends(k):
    """the k-th argument (a list of axioms) is only extended, and by no query"""
    def post(cx):
        eng = cx.eng
        o, n = cx.seq(k), cx.seq(k, False)
        i = z3.Int('i!app')
        return [('axioms are only added', n.len >= o.len),
                ('the axioms already there are kept', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o.len), az(eng, n, i) == az(eng, o, i)))),
                ('no query is added', z3.ForAll([i], z3.Implies(z3.And(i >= o.len, i < n.len), z3.Not(is_query(eng, az(eng, n, i))))))]
    return post


def pbl_post(cx):
    eng = cx.eng
    p = cx.z(0)
    o, n = cx.seq(1), cx.seq(1, False)
    ev = pbl_field(eng, p, 'evaluator')
    us = eng.as_seq(Z(pbl_field(eng, p, 'assertions'), VECT(ARF)), cx.st)
    f = F_(eng)
    i = z3.Int('i!gen')
    last = az(eng, n, n.len - 1)
    start = n.len - 2 - us.len
    symb = z3.And(z3.Function('symbolic_realm', eng.sort(ENV), z3.BoolSort())(cx.z(3)), z3.Not(flag(eng, 'no_bitstring_functions', cx.z(3))))
    pr = lambda a: z3.If(symb, prop(eng, f.un(a), ev), a)
    return [('the axioms already there are kept', z3.And(n.len >= o.len + us.len + 2, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o.len), az(eng, n, i) == az(eng, o, i))))),
            ('the query comes last', last == ctor(eng, AX, 'Query', pr(pbl_field(eng, p, 'query')))),
            ('there is no other query', z3.ForAll([i], z3.Implies(z3.And(i >= o.len, i < n.len - 1), z3.Not(is_query(eng, az(eng, n, i)))))),
            ('the user assertions come just before, all of them, in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < us.len), az(eng, n, start + i) == ctor(eng, AX, 'Base', pr(eng.z(us.at(i), ARF, State()))))))]


PURE = ('is_datatype', 'is_solver_built_in', 'is_evaluated', 'is_builtin', 'is_always_datatype', 'is_term_algebra', 'fast_outsort', 'new_unused', 'as_sort')


def pure_hook(eng, st, c, args, atys, dty):
    """what is declared does not matter here: tests on sorts and functions, and the table of datatypes, are arbitrary values"""
    if eng.verifying is not None and eng.verifying.name == 'Problem::generate':
        if c.method in PURE or (c.method in ('entry', 'or_default', 'new') and 'BTreeMap' in c.text or 'Entry' in c.text):
            if dty[0] == 'ref' and dty[1]:
                return arb(eng, st, c.method, dty)
            return [(st, eng.fresh_val(c.method, dty, st))]
        t = peel(atys[0]) if atys and atys[0] is not None else None
        if c.method == 'into_iter' and t is not None and t[0] == 'adt' and t[1].endswith('BTreeMap'):
            return [(st, It(eng.as_seq(eng.fresh_val('table', lst(Ty(('tuple', t[2][:2]))), st), st)))]
    return None


def gen_inv(L):
    eng = L.eng
    a, b = [eng.as_seq(L.var('assertions', s), L.st) for s in (L.entry, L.st)]
    i = z3.Int('i!ginv')
    k = L.iters()
    if 'crypto' not in L.F.fn.body.debug or not any(v.seq.elt is not None and 'CryptoAssumption' in ty_str(v.seq.elt) for c, v in k):
        return [('the axioms are left alone', seq_eq(eng, L.st, a, b))]
    return [('axioms are only added', b.len >= a.len), ('the axioms already there are kept', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.len), az(eng, b, i) == az(eng, a, i)))),
            ('no query is added', z3.ForAll([i], z3.Implies(z3.And(i >= a.len, i < b.len), z3.Not(is_query(eng, az(eng, b, i))))))]


def contracts():
    m = dict(crate='cryptovampire')
    return [Contract('Environement::' + n, dict(m, method=n, impl=r'^impl<.bump> Environement<'), trusted=True, define=lambda cx, n=n: Z(flag(cx.eng, n, cx.z(0)), BOOL_TY), doc='a dialect option is a function of the environment') for n in FLAGS] + [
        Contract('Environement::is_symbolic_realm', dict(m, method='is_symbolic_realm', impl=r'^impl<.bump> Environement<'), trusted=True, define=lambda cx: Z(z3.Function('symbolic_realm', cx.eng.sort(ENV), z3.BoolSort())(cx.z(0)), BOOL_TY), doc='the realm is a function of the environment'),
        Contract('Smt::from_axiom', dict(m, method='from_axiom', impl=r'^impl<.bump> Smt<'), requires=lambda cx: [('the formulas are well formed', ax_ok(cx.eng, cx.z(1)))], ensures=axiom_post, apply=a_img('smt_axiom', ax_ok)),
        Contract('Smt::from_declaration', dict(m, method='from_declaration', impl=r'^impl<.bump> Smt<'), ensures=decl_post, apply=a_img('smt_declaration')),
        Contract('SmtFile::from_general_file', dict(m, method='from_general_file', impl=r'^impl<.bump> SmtFile<'), requires=file_pre, ensures=file_post),
        Contract('propagate_evaluate', dict(m, method='propagate_evaluate', mod=r'propagate_evaluate$'), trusted=True, define=lambda cx: Z(prop(cx.eng, cx.z(0), cx.z(1)), ARF), doc='a function of the formula'),
        Contract('order::generate', dict(m, method='generate', mod=r'general_assertions::order::generate$'), trusted=True, modifies=(0, 1), ensures=appends(0)),
        Contract('evaluate::generate', dict(m, method='generate', mod=r'general_assertions::evaluate::generate$'), trusted=True, modifies=(0, 1), ensures=appends(0)),
        Contract('CryptoAssumption::generate', dict(m, method='generate', impl=r'Generator<.bump> for CryptoAssumption'), trusted=True, modifies=(1, 2), ensures=appends(1)),
        Contract('Problem::generate', dict(m, method='generate', impl=r'Generator<.bump> for Problem'), ensures=pbl_post, panics=True, loops=[(None, gen_inv)]),
        Contract('Subterm::kind', dict(m, method='kind', impl=r'^impl<.bump> Subterm<'), trusted=True, define=lambda cx: Z(G_(cx.eng).kind(cx.z(0)), SKIND), doc='which kind a subterm symbol has is a function of the symbol'),
        Contract('SmtFormula::from_arichformula', dict(m, method='from_arichformula', impl=r'^impl<.bump> SmtFormula'), requires=lambda cx: [('the formula is well formed', G_(cx.eng).ok(cx.z(0)))],
                 define=lambda cx: Z(G_(cx.eng).of(cx.z(0)), SF)),
    ]


HOOKS = [pure_hook, static_hook, ref_hook]
NOTE = ('Contracts, proved for all inputs: the translation of formulas (by structural equations on every symbol, any depth), of axioms under every dialect option, of declarations, '
        'the assembly of the file (declarations, axioms in order, one check-sat at the end) and the generation of the problem (user assertions in order, then the query, which is the only one). '
        'The rendering to text and whole files for all option combinations are checked on generated inputs (bounded).')
ASSUMPTIONS = ['the generators of ordering, evaluation and cryptographic axioms only append axioms, none of them a query (checked end to end, bounded)',
               'the text written for a command is checked on generated commands only (bounded)']

