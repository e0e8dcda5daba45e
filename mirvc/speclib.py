"""Shared specification vocabulary: formulas, variables, quantifiers, list views."""
import z3, re
from engine import *
from contract import Contract, Ctx, mk_iter, val_eq, seq_eq, arb
from mir import Ty, parse_type, ty_str

CV = 'cryptovampire::'
ARF = Ty(('adt', CV + 'formula::formula::arc::ARichFormula', ()))
RF = Ty(('adt', CV + 'formula::formula::formula::RichFormula', ()))
VAR = Ty(('adt', CV + 'formula::variable::Variable', ()))
QUANT = Ty(('adt', CV + 'formula::quantifier::Quantifier', ()))
REF = CV + 'container::reference::Reference'
FUN = Ty(('adt', REF, (Ty(('adt', CV + 'formula::function::InnerFunction', ())),)))
SORT = Ty(('adt', REF, (Ty(('adt', CV + 'formula::sort::InnerSort', ())),)))
U32 = Ty(('prim', 'u32'))
UVAR_MAX = (1 << 32) - 1


def adt(p, *args):
    return Ty(('adt', p, tuple(args)))


def lst(t):
    return Ty(('slice', t))


def opt(t):
    return option_ty(t)


def some(v, t):
    return Agg(option_ty(t), 1, [v])


def none(t):
    return Agg(option_ty(t), 0, [])


class F:
    """z3 view of the formula datatypes"""

    def __init__(self, eng):
        self.eng = eng
        self.arf = eng.sort(ARF)
        self.rf = eng.sort(RF)
        self.var = eng.sort(VAR)
        self.quant = eng.sort(QUANT)
        self.largs = eng.sort(lst(ARF))
        self.lvars = eng.sort(lst(VAR))
        self.Var = lambda v: self.rf.constructor(0)(v)
        self.Fun = lambda f, l: self.rf.constructor(1)(f, l)
        self.Q = lambda q, a: self.rf.constructor(2)(q, a)
        self.is_var = self.rf.recognizer(0)
        self.is_fun = self.rf.recognizer(1)
        self.is_q = self.rf.recognizer(2)
        self.v = self.rf.accessor(0, 0)
        self.fn = self.rf.accessor(1, 0)
        self.args = self.rf.accessor(1, 1)
        self.q = self.rf.accessor(2, 0)
        self.body = self.rf.accessor(2, 1)
        self.arc = lambda r: self.arf.constructor(0)(r)
        self.un = lambda a: self.arf.accessor(0, 0)(a)
        self.mkvar = lambda i, s: self.var.constructor(0)(i, s)
        self.vid = lambda v: self.var.accessor(0, 0)(v)
        self.vsort = lambda v: self.var.accessor(0, 1)(v)
        self.len, self.nth = eng.list_fns(lst(ARF))
        self.vlen, self.vnth = eng.list_fns(lst(VAR))


def F_(eng):
    f = getattr(eng, '_F', None)
    if f is None:
        f = eng._F = F(eng)
    return f


def tname(eng, t):
    return ty_str(eng.canon(t))


# ------------------------------------------------------------------------------------------------ interned references
FN = CV + 'formula::function::'
INNERF = adt(FN + 'InnerFunction')
INNERS = adt(CV + 'formula::sort::InnerSort')


def ref_fns(eng, t):
    """t: the Reference<T> type -> (valid, deref)"""
    t = peel(t)
    so = eng.sort(t)
    n = tname(eng, t)
    return z3.Function('valid<%s>' % n, so, z3.BoolSort()), z3.Function('deref<%s>' % n, so, eng.sort(t[2][0]))


def ref_hook(eng, st, c, args, atys, dty):
    """Reference::maybe_precise_as_ref reads an immutable, possibly not yet initialised cell"""
    if c.method == 'maybe_precise_as_ref' and c.path is not None and c.path == REF + '::maybe_precise_as_ref':
        t = peel(atys[0])
        eng.assumptions.add('an interned Reference always denotes the same immutable cell (Reference::maybe_precise_as_ref is trusted: unsafe NonNull dereference)')
        v, d = ref_fns(eng, t)
        r = eng.z(args[0], t, st)
        ty = Ty(('ref', False, t[2][0]))
        out = []
        l = []
        eng.fork(st, v(r), 1, l)
        eng.fork(st, z3.Not(v(r)), 0, l)
        return [(s, some(Z(d(r), t[2][0]), ty) if k else none(ty)) for s, k in l]
    if c.method == 'clone' and c.kind == 'trait' and peel(c.self_ty)[0] == 'adt' and peel(c.self_ty)[1] == REF:
        eng.assumptions.add('cloning an interned Reference yields the same Reference')
        return [(st, Z(eng.z(args[0], peel(c.self_ty), st), peel(c.self_ty)))]
    if c.method == 'alloc_inner':
        t = peel(dty)
        if t[0] == 'adt' and t[1] == REF:
            eng.assumptions.add('alloc_inner returns an initialised Reference to the value it was given (trusted: container allocation)')
            v, d = ref_fns(eng, t)
            r = eng.fresh('alloc', eng.sort(t))
            st.assume(z3.And(v(r), d(r) == eng.z(args[1], t[2][0], st)))
            return [(st, Z(r, t))]
    return None


def ctor(eng, t, name, *args):
    """z3 constructor application by variant name"""
    vs = eng.variants(eng.canon(t))
    i = [n for n, _ in vs].index(name)
    k = eng.sort(t).constructor(i)
    return k(*args) if args else k()


def is_ctor_(eng, t, name, e):
    vs = eng.variants(eng.canon(t))
    i = [n for n, _ in vs].index(name)
    return eng.sort(t).recognizer(i)(e) if len(vs) > 1 else z3.BoolVal(True)


def acc(eng, t, name, j, e):
    vs = eng.variants(eng.canon(t))
    i = [n for n, _ in vs].index(name)
    return eng.sort(t).accessor(i, j)(e)


I_ = FN + 'inner::'
BOOLEANS = adt(I_ + 'booleans::Booleans')
CONN = adt(I_ + 'booleans::Connective')
TA = adt(I_ + 'term_algebra::TermAlgebra')
TACONN = adt(I_ + 'term_algebra::connective::Connective')
BASECONN = adt(I_ + 'term_algebra::connective::BaseConnective')
MACRO = adt(I_ + 'term_algebra::step_macro::Macro')


def _conn(n):
    return lambda e: ctor(e, INNERF, 'Bool', ctor(e, BOOLEANS, 'Connective', ctor(e, CONN, n)))


def _taconn(n):
    return lambda e: ctor(e, INNERF, 'TermAlgebra', ctor(e, TA, 'Condition', ctor(e, TACONN, 'BaseConnective', ctor(e, BASECONN, n))))


def _macro(n):
    return lambda e: ctor(e, INNERF, 'TermAlgebra', ctor(e, TA, 'Macro', ctor(e, MACRO, n)))


# what each built-in symbol denotes
STATICS = {
    'AND': _conn('And'), 'OR': _conn('Or'), 'NOT': _conn('Not'), 'IMPLIES': _conn('Implies'), 'TRUE_F': _conn('True'), 'FALSE_F': _conn('False'),
    'AND_TA': _taconn('And'), 'OR_TA': _taconn('Or'), 'NOT_TA': _taconn('Not'), 'IMPLIES_TA': _taconn('Implies'), 'TRUE_F_TA': _taconn('True'), 'FALSE_F_TA': _taconn('False'), 'IFF_TA': _taconn('Iff'),
    'INPUT': _macro('Input'), 'CONDITION_MACRO': _macro('Condition'), 'MESSAGE_MACRO': _macro('Message'), 'EXEC_MACRO': _macro('Exec'),
    'EQUALITY': lambda e: ctor(e, INNERF, 'Bool', ctor(e, BOOLEANS, 'Equality', ctor(e, adt(I_ + 'booleans::Equality'), 'Equality'))),
    'EQUALITY_TA': lambda e: ctor(e, INNERF, 'TermAlgebra', ctor(e, TA, 'Condition', ctor(e, TACONN, 'Equality', ctor(e, adt(I_ + 'term_algebra::connective::Equality'), 'Equality')))),
    'IF_THEN_ELSE': lambda e: ctor(e, INNERF, 'IfThenElse', ctor(e, adt(I_ + 'if_then_else::IfThenElse'), 'IfThenElse')),
}


def static_fun(eng, name):
    """the built-in function symbol, with what its (separately verified) initialiser establishes"""
    c = z3.Const('static<%s>' % (FN + 'builtin::' + name), eng.sort(FUN))
    if name in STATICS:
        def mk():
            v, d = ref_fns(eng, FUN)
            return z3.And(v(c), d(c) == STATICS[name](eng))
        eng.axiom(('static', name), mk)
    return c


def static_anchor(name):
    def find(prog):
        return [f for f in prog.bymethod.get('generate', []) if f.crate == 'cryptovampire' and f.body.args and re.search(r'__StaticInitGeneratorFor_%s$' % name, ty_str(peel(f.body.locals[f.body.args[0]])))]
    return find


def static_contracts():
    def mk(name):
        def ens(cx):
            v, d = ref_fns(cx.eng, FUN)
            return [('the symbol %s is initialised' % name, v(cx.zret)), ('the symbol %s denotes its connective' % name, d(cx.zret) == STATICS[name](cx.eng))]
        return Contract('static ' + name, static_anchor(name), ensures=ens)
    return [mk(n) for n in STATICS]


def static_hook(eng, st, c, args, atys, dty):
    if c.method in ('deref', 'clone') and args and isinstance(args[0], StaticRef):
        n = args[0].path.split('::')[-1]
        if args[0].path == FN + 'builtin::' + n and n in STATICS:
            return [(st, Z(static_fun(eng, n), FUN))]
    return None


def VECT(t):
    return Ty(('adt', 'std::vec::Vec', (t,)))


def exists_in(eng, seq, pred, last=False):
    """some element of the list satisfies pred(element value); last: state the last element separately"""
    return quant(eng, seq, pred, False, last)


def forall_in(eng, seq, pred):
    return quant(eng, seq, pred, True)


def formula_assoc(eng, t):
    """the associated types of the implementations of Formula"""
    if t[2].split('::')[-1] == 'Formula' and peel(t[1]) in (RF, ARF):
        return {'Var': VAR, 'Fun': FUN, 'Quant': QUANT}.get(t[3])
    if t[2].split('<')[0].split('::')[-1] == 'FormulaIterator' and peel(t[1])[0] == 'adt':
        return {'UsedVariableIterator': {'U': VAR, 'Passing': Ty(('tuple', ()))}, 'FreeVariableIterator': {'U': VAR, 'Passing': Ty(('prim', 'usize'))}}.get(peel(t[1])[1].split('::')[-1], {}).get(t[3])


Engine.assoc = [formula_assoc]
