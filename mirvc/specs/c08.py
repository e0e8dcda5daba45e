"""C08: builders."""
from speclib import *

ARFn = CV + 'formula::formula::arc::ARichFormula'
RFn = CV + 'formula::formula::formula::RichFormula'
VARn = CV + 'formula::variable::Variable'


def to_arf(eng, st, v):
    """the formula an argument converts to"""
    f = F_(eng)
    z = eng.z(v, None, st)
    if z.sort() == f.arf:
        return z
    if z.sort() == f.rf:
        return f.arc(z)
    if z.sort() == f.var:
        return f.arc(f.Var(z))
    raise Unsupported('conversion of %s' % z.sort())


def app_eq(cx, fsym, items, conv=True):
    """result is fsym applied to exactly these arguments in order"""
    eng = cx.eng
    f = F_(eng)
    r = cx.zret
    r = f.un(r) if r.sort() == f.arf else r
    got = eng.as_seq(Z(f.args(r), lst(ARF)), cx.st)
    seq = items if isinstance(items, SeqV) else eng.conc_seq([Z(to_arf(eng, cx.st, v), ARF) for v in items], ARF)
    want = SeqV(seq.len, lambda i: Z(to_arf(eng, cx.st, seq.at(i)), ARF), ARF, conc=None if seq.conc is None else [Z(to_arf(eng, cx.st, x), ARF) for x in seq.conc])
    return [('head is the named symbol', z3.And(f.is_fun(r), f.fn(r) == fsym)), ('arguments are exactly the given ones in order', seq_eq(eng, cx.st, got, want))]


def bad_symbol(cx):
    eng = cx.eng
    v, d = ref_fns(eng, FUN)
    s = cx.z(0)
    return z3.Or(z3.Not(v(s)), is_ctor_(eng, INNERF, 'Tmp', d(s)))


def quant_of(eng, kind, seq):
    raise NotImplementedError


def qctor(cx, kind):
    eng = cx.eng
    q = cx.zret
    vs = eng.variants(eng.canon(QUANT))
    return [('kind', is_ctor_(eng, QUANT, kind, q)), ('all variables in order', seq_eq(eng, cx.st, eng.as_seq(Z(acc(eng, QUANT, kind, 0, q), lst(VAR)), cx.st), cx.seq(0)))]


def quantify(cx, kind):
    eng = cx.eng
    f = F_(eng)
    vs = cx.seq(0)
    body = to_arf(eng, cx.st, cx.val(1))
    r = cx.zret
    q = f.q(f.un(r))
    return [('no variable: body unchanged', z3.Implies(vs.len == 0, r == body)),
            ('quantifier kind and body', z3.Implies(vs.len > 0, z3.And(f.is_q(f.un(r)), is_ctor_(eng, QUANT, kind, q), f.body(f.un(r)) == body))),
            ('all variables in order', z3.Implies(vs.len > 0, seq_eq(eng, cx.st, eng.as_seq(Z(acc(eng, QUANT, kind, 0, q), lst(VAR)), cx.st), vs)))]


def binop(name, n):
    return lambda cx: app_eq(cx, static_fun(cx.eng, name), [cx.val(i) for i in range(n)])


def contracts():
    m = dict(crate='cryptovampire')
    I = {'impl IntoIterator': ('It')}
    out = static_contracts()
    for n, k in (('forall', 'Forall'), ('exists', 'Exists')):
        out.append(Contract('Quantifier::' + n, dict(m, method=n, impl=r'^impl<.bump> Quantifier'), tys={'impl IntoIterator': VECT(VAR)}, ensures=lambda cx, k=k: qctor(cx, k)))
        out.append(Contract('formula::' + n, dict(m, method=n, mod=r'^formula::formula::formula::%s$' % n), tys=[{'impl IntoIterator': VECT(VAR), 'impl Into': t} for t in (ARF, RF, VAR, Ty(('ref', False, VAR)), Ty(('ref', False, ARF)))],
                            ensures=lambda cx, k=k: quantify(cx, k)))
    elts = [ARF, RF, VAR, Ty(('ref', False, VAR)), Ty(('ref', False, ARF))]
    out.append(Contract('Function::apply', dict(m, method='apply', mod=r'^formula::function::function::<impl at [^>]*>::apply$'), tys=[{'impl IntoIterator': VECT(t), 'I': t} for t in elts], panics=bad_symbol,
                        ensures=lambda cx: app_eq(cx, cx.z(0), cx.seq(1))))
    out.append(Contract('Function::apply_rf', dict(m, method='apply_rf', mod=r'^formula::function::function::<impl at [^>]*>::apply_rf$'), tys={'impl IntoIterator': VECT(RF)}, panics=bad_symbol,
                        ensures=lambda cx: app_eq(cx, cx.z(0), cx.seq(1))))
    out.append(Contract('Function::f', dict(m, method='f', impl=r'Applicable for Function<.bump>'), tys=[{'I': VECT(t), 'U': t} for t in elts], panics=bad_symbol,
                        ensures=lambda cx: app_eq(cx, cx.z(0), cx.seq(1))))
    out.append(Contract('meq', dict(m, method='meq', mod=r'^formula::formula::formula::meq$'), tys=[{'impl Into': t} for t in elts], ensures=binop('EQUALITY', 2)))
    for n, s, e in (('ands', 'AND', ARF), ('ors', 'OR', ARF), ('ands_owned', 'AND', RF), ('ors_owned', 'OR', RF)):
        out.append(Contract(n, dict(m, method=n, mod=r'^formula::formula::formula::%s$' % n), tys={'impl IntoIterator': VECT(e)}, ensures=lambda cx, s=s: app_eq(cx, static_fun(cx.eng, s), cx.seq(0))))
    for tr, me, s, n in (('BitAnd', 'bitand', 'AND', 2), ('BitOr', 'bitor', 'OR', 2), ('Not', 'not', 'NOT', 1), ('Shr', 'shr', 'IMPLIES', 2)):
        for ty in ('ARichFormula', 'RichFormula'):
            out.append(Contract('%s for %s' % (tr, ty), dict(m, method=me, impl=r'^impl<.bump> %s for %s<' % (tr, ty)), ensures=binop(s, n)))
    f_ = lambda cx: F_(cx.eng)
    for n, s in (('TRUE', 'TRUE_F'), ('FALSE', 'FALSE_F')):
        out.append(Contract('static ' + n, static_anchor(n), ensures=lambda cx, s=s: app_eq(cx, static_fun(cx.eng, s), [])))
    out.append(Contract('Applicable::to_const', dict(m, method='to_const', mod=r'^formula::utils::formula_trait::Applicable::to_const$'), tys={'Self': FUN}, panics=bad_symbol, ensures=lambda cx: app_eq(cx, cx.z(0), [])))
    same = lambda cx: Z(to_arf(cx.eng, cx.st, cx.val(0)), ARF)
    for src in ('RichFormula<', "&'a RichFormula<", 'Variable<', "&'a Variable<", "&'a ARichFormula<"):
        out.append(Contract('From<%s> for ARichFormula' % src.rstrip('<'), dict(m, method='from', impl=r'From<%s.bump>> for ARichFormula' % re.escape(src)), define=same))
    for src in ('Variable<', '&Variable<'):
        out.append(Contract('From<%s> for RichFormula' % src.rstrip('<'), dict(m, method='from', impl=r'From<%s.bump>> for RichFormula' % re.escape(src)), define=lambda cx: Z(f_(cx).Var(cx.z(0)), RF)))
    for n in ('into_arc', 'clone_as_arc'):
        out.append(Contract('RichFormula::' + n, dict(m, method=n, impl=r'^impl<.bump> RichFormula'), define=same))
    out.append(Contract('ARichFormula::shallow_copy', dict(m, method='shallow_copy', impl=r'^impl<.bump> ARichFormula'), define=lambda cx: Z(cx.z(0), ARF)))
    for n in ('as_inner', 'into_inner', 'owned_into_inner'):
        out.append(Contract('ARichFormula::' + n, dict(m, method=n, impl=r'^impl<.bump> ARichFormula'), define=lambda cx: Z(f_(cx).un(cx.z(0)), RF)))
    for n, k in (('is_var', 'is_var'), ('is_fun', 'is_fun'), ('is_quantifier', 'is_q')):
        out.append(Contract('RichFormula::' + n, dict(m, method=n, impl=r'^impl<.bump> RichFormula'), ensures=lambda cx, k=k: [('kind test', cx.zret == getattr(f_(cx), k)(cx.z(0)))]))
    out.append(Contract('Quantifier::get_variables', dict(m, method='get_variables', impl=r'^impl<.bump> Quantifier'), ensures=lambda cx: [('bound variables', seq_eq(cx.eng, cx.st, cx.rseq(), qvars(cx.eng, cx.z(0), cx.st)))]))
    return out


def qvars(eng, q, st):
    a = acc(eng, QUANT, 'Exists', 0, q)
    b = acc(eng, QUANT, 'Forall', 0, q)
    return eng.as_seq(Z(z3.If(is_ctor_(eng, QUANT, 'Exists', q), a, b), lst(VAR)), st)


HOOKS = [static_hook, ref_hook]
NOTE = ('Proof: every builder (functions, operators, conversions) and the initialiser of every built-in symbol it uses is verified against its contract for all argument lists. '
        'Trusted: static_init runs the verified initialiser, interned references denote immutable cells, library models listed in the evidence. The quantifier macros expand to these functions and are checked on executions only (bounded).')
ASSUMPTIONS = ['static_init initialises each built-in symbol with the value of its generator', 'the macros mforall!/mexists! are checked by executing them (bounded), not by proof']
