//! formulas, axioms and files translated to SMT: structure, polarity, rendered text
use crate::{e2e::*, util::*};
use cryptovampire::{
    container::ScopedContainer,
    environement::{
        environement::{Environement, Flags, Options, RewriteFlags},
        traits::Realm,
    },
    formula::{
        file_descriptior::{
            axioms::{Axiom, Rewrite, RewriteKind},
            declare::{ConstructorDestructor, DataType, Declaration, Subterm},
            GeneralFile,
        },
        formula::RichFormula,
        function::builtin::*,
        sort::builtins::*,
    },
    smt::{Smt, SmtCons, SmtFile, SmtFormula},
};
use std::collections::{BTreeMap, BTreeSet};

type F = SmtFormula<'static>;

/// an s-expression
#[derive(Debug, Clone, PartialEq)]
pub enum S {
    A(String),
    L(Vec<S>),
}
pub fn a(s: impl ToString) -> S {
    S::A(s.to_string())
}
pub fn parse(text: &str) -> Result<Vec<S>, String> {
    let mut st: Vec<Vec<S>> = vec![vec![]];
    let mut cur = String::new();
    for line in text.lines() {
        for c in line.chars().chain(['\n']) {
            if c == ';' && cur.is_empty() {
                break;
            }
            if c == '(' || c == ')' || c.is_whitespace() {
                if !cur.is_empty() {
                    st.last_mut().unwrap().push(S::A(std::mem::take(&mut cur)));
                }
                if c == '(' {
                    st.push(vec![]);
                }
                if c == ')' {
                    let l = st.pop().unwrap();
                    st.last_mut().ok_or("too many )")?.push(S::L(l));
                }
            } else {
                cur.push(c);
            }
        }
    }
    if st.len() != 1 {
        return Err("missing )".into());
    }
    Ok(st.pop().unwrap())
}

/// well-formed formulas: the connectives have the arguments they take
pub fn gen_wf(r: &mut Rng, depth: usize, nv: u32) -> A {
    let k = if depth == 0 { r.below(2) } else { r.below(14) };
    let mut n = |r: &mut Rng, n: usize| -> Vec<A> { (0..n).map(|_| gen_wf(r, depth - 1, nv)).collect() };
    match k {
        0 => fv(var(r.below(nv as usize) as u32)),
        1 => app(if r.bool() { *TRUE_F } else { *FALSE_F }, vec![]),
        2 | 3 => {
            let m = if r.below(4) == 0 { r.below(7) } else { r.below(3) };
            let vs = (0..m).map(|_| var(r.below(nv as usize) as u32)).collect();
            let b = n(r, 1).pop().unwrap();
            quant(k == 2, vs, b)
        }
        4 => {
            let x = n(r, 1);
            app(*NOT, x)
        }
        5 => {
            let x = n(r, 2);
            app(*IMPLIES, x)
        }
        6 => {
            let x = n(r, 3);
            app(*IF_THEN_ELSE, x)
        }
        7 => {
            let x = n(r, 1);
            app(if r.bool() { *MESSAGE_TO_BITSTRING } else { *CONDITION_TO_BOOL }, x)
        }
        8 | 9 | 10 => {
            let f = *r.pick(&[*AND, *OR, *EQUALITY]);
            let m = r.below(4);
            let x = n(r, m);
            app(f, x)
        }
        _ => {
            let f = *r.pick(&[*HAPPENS, *LESS_THAN_STEP, *INPUT, *AND_TA, *OR_TA, *NOT_TA, *TRUE_F_TA, *IF_THEN_ELSE_TA, *EQUALITY_TA, *IMPLIES_TA]);
            let m = r.below(4);
            let x = n(r, m);
            app(f, x)
        }
    }
}

/// reference translation
fn tr(x: &A) -> F {
    let b = |x: &A| Box::new(tr(x));
    match x.as_ref() {
        RichFormula::Var(v) => F::Var(*v),
        RichFormula::Quantifier(q, x) => {
            let vs: std::sync::Arc<[V]> = qvars(q).into();
            if matches!(q, cryptovampire::formula::quantifier::Quantifier::Forall { .. }) {
                F::Forall(vs, b(x))
            } else {
                F::Exists(vs, b(x))
            }
        }
        RichFormula::Fun(f, l) => {
            let all = || l.iter().map(tr).collect::<Vec<_>>();
            match f.name().as_ref() {
                _ if *f == *AND => F::And(all()),
                _ if *f == *OR => F::Or(all()),
                _ if *f == *NOT => F::Not(b(&l[0])),
                _ if *f == *IMPLIES => F::Implies(b(&l[0]), b(&l[1])),
                _ if *f == *EQUALITY => F::Eq(all()),
                _ if *f == *TRUE_F => F::True,
                _ if *f == *FALSE_F => F::False,
                _ if *f == *IF_THEN_ELSE => F::Ite(b(&l[0]), b(&l[1]), b(&l[2])),
                _ => F::Fun(*f, all()),
            }
        }
    }
}
fn same_f(x: &F, y: &F) -> bool {
    let l = |x: &Vec<F>, y: &Vec<F>| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_f(x, y));
    let v = |x: &[V], y: &[V]| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_v(x, y));
    match (x, y) {
        (F::Var(x), F::Var(y)) => same_v(x, y),
        (F::Fun(f, x), F::Fun(g, y)) => f == g && l(x, y),
        (F::Forall(x, p), F::Forall(y, q)) | (F::Exists(x, p), F::Exists(y, q)) => v(x, y) && same_f(p, q),
        (F::True, F::True) | (F::False, F::False) => true,
        (F::And(x), F::And(y)) | (F::Or(x), F::Or(y)) | (F::Eq(x), F::Eq(y)) | (F::Neq(x), F::Neq(y)) => l(x, y),
        (F::Not(x), F::Not(y)) => same_f(x, y),
        (F::Implies(x, p), F::Implies(y, q)) => same_f(x, y) && same_f(p, q),
        (F::Subterm(f, x, p), F::Subterm(g, y, q)) => f == g && same_f(x, y) && same_f(p, q),
        (F::Ite(x, p, r), F::Ite(y, q, s)) => same_f(x, y) && same_f(p, q) && same_f(r, s),
        _ => false,
    }
}

fn vlist(vs: &[V]) -> S {
    S::L(vs.iter().map(|v| S::L(vec![a(vname(v)), a(v.sort.name())])).collect())
}
fn vname(v: &V) -> String {
    format!("{}X{}", v.sort.short_name(), v.id)
}
/// what a formula reads as
fn ren(x: &F, ev: bool) -> S {
    let call = |h: &str, l: &[&F]| S::L(std::iter::once(a(h)).chain(l.iter().map(|x| ren(x, ev))).collect());
    let many = |h: &str, l: &Vec<F>| call(h, &l.iter().collect::<Vec<_>>());
    match x {
        F::Var(v) => a(vname(v)),
        F::Fun(f, l) if ev && (*f == *MESSAGE_TO_BITSTRING || *f == *CONDITION_TO_BOOL) => ren(&l[0], ev),
        F::Fun(f, l) if l.is_empty() => a(f.name()),
        F::Fun(f, l) => many(&f.name(), l),
        F::Forall(vs, x) | F::Exists(vs, x) if vs.is_empty() => ren(x, ev),
        F::Forall(vs, x) => S::L(vec![a("forall"), vlist(vs), ren(x, ev)]),
        F::Exists(vs, x) => S::L(vec![a("exists"), vlist(vs), ren(x, ev)]),
        F::True => a("true"),
        F::False => a("false"),
        F::And(l) if l.is_empty() => a("true"),
        F::Or(l) if l.is_empty() => a("false"),
        F::Eq(l) | F::Neq(l) if l.len() <= 1 => a("true"),
        F::And(l) => many("and", l),
        F::Or(l) => many("or", l),
        F::Eq(l) => many("=", l),
        F::Neq(l) => many("distinct", l),
        F::Not(x) => call("not", &[x]),
        F::Implies(x, y) => call("=>", &[x, y]),
        F::Ite(x, y, z) => call("ite", &[x, y, z]),
        F::Subterm(f, x, y) => S::L(vec![a("subterm"), a(f.name()), ren(x, ev), ren(y, ev)]),
    }
}
/// what a command reads as; comments are not commands
fn ren_cmd(c: &Smt<'static>, ev: bool) -> Option<S> {
    let l = |h: &str, x: Vec<S>| Some(S::L(std::iter::once(a(h)).chain(x).collect()));
    match c {
        Smt::Assert(x) => l("assert", vec![ren(x, ev)]),
        Smt::AssertTh(x) => l("assert-theory", vec![ren(x, ev)]),
        Smt::AssertNot(x) => l("assert-not", vec![ren(x, ev)]),
        Smt::AssertGround { sort, formula } => l("assert-ground", vec![a(sort.name()), ren(formula, ev)]),
        Smt::DeclareFun(f) => l("declare-fun", vec![a(f.name()), S::L(f.fast_insort().unwrap().iter().map(|s| a(s.name())).collect()), a(f.fast_outsort().unwrap().name())]),
        Smt::DeclareSort(s) => l("declare-sort", vec![a(s.name()), a("0")]),
        Smt::DeclareSortAlias { from, to } => l("define-sort", vec![a(to.name()), S::L(vec![]), a(from.name())]),
        Smt::DeclareSubtermRelation(f, fs) => l("declare-subterm-relation", std::iter::once(f).chain(fs).map(|f| a(f.name())).collect()),
        Smt::DeclareRewrite { rewrite_fun, vars, lhs, rhs } => {
            let op = match rewrite_fun {
                RewriteKind::Bool => "=".to_string(),
                RewriteKind::Other(f) => f.name().to_string(),
            };
            l("declare-rewrite", vec![S::L(vec![a("forall"), vlist(vars), S::L(vec![a(op), ren(lhs, ev), ren(rhs, ev)])])])
        }
        Smt::DeclareDatatypes { sorts, cons } => l(
            "declare-datatypes",
            vec![
                S::L(sorts.iter().map(|s| S::L(vec![a(s.name()), a("0")])).collect()),
                S::L(cons
                    .iter()
                    .map(|cs| {
                        S::L(cs
                            .iter()
                            .map(|c| {
                                let args = c.fun.fast_insort().unwrap();
                                S::L(std::iter::once(a(c.fun.name())).chain(args.iter().zip(&c.dest).map(|(s, d)| S::L(vec![a(d.name()), a(s.name())]))).collect())
                            })
                            .collect())
                    })
                    .collect()),
            ],
        ),
        Smt::Comment(_) => None,
        Smt::CheckSat => l("check-sat", vec![]),
        Smt::GetProof => l("get-proof", vec![]),
        Smt::SetOption(x, y) => l("set-option", vec![a(format!(":{x}")), a(y)]),
        Smt::SetLogic(x) => l("set-logic", vec![a(x)]),
    }
}

fn env(ev: bool, flags: Flags, rw: RewriteFlags) -> Environement<'static> {
    Environement::new(ScopedContainer::new_leaked(), if ev { Realm::Evaluated } else { Realm::Symbolic }, Options { flags, rewrite_flags: rw, subterm_flags: Default::default() }, Default::default())
}

fn gen_axiom(r: &mut Rng) -> (Axiom<'static>, String) {
    let d = 1 + r.below(3);
    let f = gen_wf(r, d, 4);
    let s = show(&f);
    match r.below(6) {
        0 => (Axiom::Base { formula: f }, format!("base {s}")),
        1 => (Axiom::Theory { formula: f }, format!("theory {s}")),
        2 => (Axiom::Ground { sort: *r.pick(&sorts()), formula: f }, format!("ground {s}")),
        3 => (Axiom::Query { formula: f }, format!("query {s}")),
        4 => (Axiom::Comment("some words".into()), "comment".into()),
        _ => {
            let post = gen_wf(r, d, 4);
            let kind = if r.bool() { RewriteKind::Bool } else { RewriteKind::Other(*HAPPENS) };
            let t = format!("rewrite {s} -> {}", show(&post));
            let n = r.below(3) as u32;
            (Axiom::Rewrite { rewrite: Box::new(Rewrite { kind, vars: (0..n).map(var).collect::<Vec<_>>().into(), pre: f, post }) }, t)
        }
    }
}
/// the command an axiom must become
fn want_axiom(ax: &Axiom<'static>, fl: Flags, rw: RewriteFlags) -> Smt<'static> {
    match ax {
        Axiom::Comment(c) => Smt::Comment(c.to_string()),
        Axiom::Base { formula } => Smt::Assert(tr(formula)),
        Axiom::Theory { formula } => {
            if fl.contains(Flags::ASSERT_THEORY) {
                Smt::AssertTh(tr(formula))
            } else {
                Smt::Assert(tr(formula))
            }
        }
        Axiom::Ground { sort, formula } => {
            if fl.contains(Flags::ASSERT_GROUND) {
                Smt::AssertGround { sort: *sort, formula: tr(formula) }
            } else {
                Smt::Assert(tr(formula))
            }
        }
        Axiom::Query { formula } => {
            if fl.contains(Flags::ASSERT_NOT) {
                Smt::AssertNot(tr(formula))
            } else {
                Smt::Assert(F::Not(Box::new(tr(formula))))
            }
        }
        Axiom::Rewrite { rewrite: w } => {
            if rw.is_empty() {
                Smt::Assert(F::Forall(w.vars.clone(), Box::new(F::Eq(vec![tr(&w.pre), tr(&w.post)]))))
            } else {
                Smt::DeclareRewrite { rewrite_fun: w.kind, vars: w.vars.clone(), lhs: Box::new(tr(&w.pre)), rhs: Box::new(tr(&w.post)) }
            }
        }
    }
}
fn same_cmd(x: &Smt<'static>, y: &Smt<'static>) -> bool {
    match (x, y) {
        (Smt::Assert(x), Smt::Assert(y)) | (Smt::AssertTh(x), Smt::AssertTh(y)) | (Smt::AssertNot(x), Smt::AssertNot(y)) => same_f(x, y),
        (Smt::AssertGround { sort: s, formula: x }, Smt::AssertGround { sort: t, formula: y }) => s == t && same_f(x, y),
        (Smt::DeclareRewrite { rewrite_fun: f, vars: v, lhs: x, rhs: p }, Smt::DeclareRewrite { rewrite_fun: g, vars: w, lhs: y, rhs: q }) => {
            f == g && v.len() == w.len() && v.iter().zip(w.iter()).all(|(x, y)| same_v(x, y)) && same_f(x, y) && same_f(p, q)
        }
        _ => x == y,
    }
}
fn gen_decl(r: &mut Rng) -> (Declaration<'static>, Smt<'static>) {
    let fs = [*HAPPENS, *LESS_THAN_STEP, *LESS_THAN_EQ_STEP, *AND_TA, *NOT_TA, *TRUE_F_TA, *INPUT, *MESSAGE_TO_BITSTRING];
    let ss = sorts();
    match r.below(5) {
        0 => {
            let s = *r.pick(&ss);
            (Declaration::Sort(s), Smt::DeclareSort(s))
        }
        1 => {
            let (from, to) = (*r.pick(&ss), *r.pick(&ss));
            (Declaration::SortAlias { from, to }, Smt::DeclareSortAlias { from, to })
        }
        2 => {
            let f = *r.pick(&fs);
            (Declaration::FreeFunction(f), Smt::DeclareFun(f))
        }
        3 => {
            let f = *r.pick(&fs);
            let l: Vec<_> = (0..r.below(4)).map(|_| *r.pick(&fs)).collect();
            (Declaration::Subterm(Subterm { function: f, comutative_functions: l.clone() }), Smt::DeclareSubtermRelation(f, l))
        }
        _ => {
            let mut out = vec![];
            let (mut so, mut co) = (vec![], vec![]);
            for _ in 0..r.below(4) {
                let s = *r.pick(&[*BOOL, *CONDITION, *MESSAGE]);
                let fs2: Vec<_> = fs.iter().filter(|f| f.fast_outsort() == Some(s) && r.bool()).copied().collect();
                let cs: Vec<_> = fs2.into_iter().map(|f| (f, f.fast_insort().unwrap().iter().map(|_| *r.pick(&fs)).collect::<Vec<_>>())).collect();
                so.push(s);
                co.push(cs.iter().map(|(f, d)| SmtCons { fun: *f, dest: d.clone() }).collect::<Vec<_>>());
                out.push(DataType { sort: s, constructor_destructors: cs.into_iter().map(|(constructor, destructor)| ConstructorDestructor { constructor, destructor }).collect() });
            }
            (Declaration::DataTypes(out), Smt::DeclareDatatypes { sorts: so, cons: co })
        }
    }
}

/// random SMT formula with the shapes that no formula translates to
fn gen_smt(r: &mut Rng, depth: usize) -> F {
    if depth > 0 && r.below(4) == 0 {
        let (x, y) = (gen_smt(r, depth - 1), gen_smt(r, depth - 1));
        match r.below(3) {
            0 => F::Subterm(*LESS_THAN_STEP, Box::new(x), Box::new(y)),
            1 => F::Neq(if r.bool() { vec![x] } else { vec![x, y] }),
            _ => F::Neq((0..r.below(4)).map(|_| gen_smt(r, depth - 1)).collect()),
        }
    } else {
        tr(&gen_wf(r, depth, 4))
    }
}

pub fn run(rep: &mut Rep) {
    let mut r = Rng(rep.seed);
    // formulas
    for k in 0..30000 * rep.scale {
        let f = gen_wf(&mut r, 1 + k % 5, 4);
        let key = show(&f);
        let want = tr(&f);
        let mut got = None;
        rep.guard("translation of a formula", &key, || {
            got = Some(SmtFormula::from_arichformula(f.as_ref()));
            same_f(got.as_ref().unwrap(), &want)
        });
        for ev in [false, true] {
            let e = env_of(ev);
            rep.guard(if ev { "text of a formula (evaluated)" } else { "text of a formula (symbolic)" }, &key, || {
                parse(&want.as_display_ref(e).to_string()) == Ok(vec![ren(&want, ev)]) && parse(&want.clone().as_display(e).to_string()) == Ok(vec![ren(&want, ev)])
            });
        }
    }
    for k in 0..8000 * rep.scale {
        let x = gen_smt(&mut r, 1 + k % 3);
        rep.guard("text of an SMT formula", &format!("{x:?}"), || parse(&x.default_display().to_string()) == Ok(vec![ren(&x, false)]));
    }
    // files
    let all_flags = [Flags::ASSERT_THEORY, Flags::ASSERT_NOT, Flags::ASSERT_GROUND];
    for k in 0..6000 * rep.scale {
        let (ev, m, w) = (k & 1 == 1, (k >> 1) & 7, (k >> 4) & 3);
        let fl = (0..3).filter(|b| m >> b & 1 == 1).fold(Flags::empty(), |x, b| x | all_flags[b]);
        let rw = RewriteFlags::from_bits_truncate(w as u8);
        let e = env(ev, fl, rw);
        let (axs, names): (Vec<_>, Vec<_>) = (0..r.below(7)).map(|_| gen_axiom(&mut r)).unzip();
        let (ds, wds): (Vec<_>, Vec<_>) = (0..r.below(5)).map(|_| gen_decl(&mut r)).unzip();
        let want: Vec<Smt> = wds.iter().cloned().chain(axs.iter().map(|x| want_axiom(x, fl, rw))).chain([Smt::CheckSat]).collect();
        let key = format!("flags {fl:?} {rw:?} evaluated {ev}; {} declarations; {}", ds.len(), names.join("; "));
        for (x, n) in axs.iter().zip(&names) {
            rep.guard("command of an axiom", &format!("{fl:?} {rw:?} {n}"), || same_cmd(&Smt::from_axiom(&e, x.clone()), &want_axiom(x, fl, rw)));
        }
        for (x, y) in ds.iter().zip(&wds) {
            rep.guard("command of a declaration", &format!("{y:?}"), || same_cmd(&Smt::from_declaration(&e, x.clone()), y));
        }
        for x in &want {
            rep.guard("text of a command", &format!("evaluated {ev} {x:?}"), || {
                let w: Vec<S> = ren_cmd(x, ev).into_iter().collect();
                parse(&x.as_display_ref(&e).to_string()) == Ok(w.clone()) && parse(&x.clone().as_display(&e).to_string()) == Ok(w)
            });
        }
        rep.guard("file", &key, || {
            let file = SmtFile::from_general_file(&e, GeneralFile { assertions: axs.clone(), declarations: ds.clone() });
            let c = file.content();
            let text = parse(&file.as_diplay(&e).to_string());
            c.len() == want.len() && c.iter().zip(&want).all(|(x, y)| same_cmd(x, y)) && text == Ok(want.iter().filter_map(|x| ren_cmd(x, ev)).collect())
        });
    }
    for x in [Smt::GetProof, Smt::SetOption("a".into(), "b".into()), Smt::SetLogic("ALL".into())] {
        rep.guard("text of a command", &format!("{x:?}"), || parse(&x.as_display_ref(env_of(false)).to_string()) == Ok(vec![ren_cmd(&x, false).unwrap()]));
    }
    whole(rep);
}
fn env_of(ev: bool) -> &'static Environement<'static> {
    thread_local! { static E: [&'static Environement<'static>; 2] = [false, true].map(|ev| &*Box::leak(Box::new(env(ev, Flags::empty(), RewriteFlags::empty())))); }
    E.with(|e| e[ev as usize])
}

// ------------------------------------------------------------------ whole problems

const BUILTIN: &[&str] = &["true", "false", "and", "or", "not", "=>", "=", "distinct", "ite", "forall", "exists", "subterm"];

/// what is wrong with the symbols of a file: undeclared, declared twice, unbound variables
fn symbols(cmds: &[S]) -> Vec<String> {
    let mut bad = vec![];
    let mut sorts: BTreeSet<String> = ["Bool".to_string()].into();
    let mut funs: BTreeMap<String, usize> = BTreeMap::new();
    let mut used_sorts: Vec<String> = vec![];
    let atom = |s: &S| match s {
        S::A(x) => x.clone(),
        S::L(_) => "()".into(),
    };
    let list = |s: &S| match s {
        S::L(x) => x.clone(),
        S::A(_) => vec![],
    };
    for c in cmds {
        let c = list(c);
        match atom(&c[0]).as_str() {
            "declare-sort" => drop(sorts.insert(atom(&c[1]))),
            "define-sort" => {
                used_sorts.push(atom(&c[3]));
                sorts.insert(atom(&c[1]));
            }
            "declare-fun" => {
                used_sorts.extend(list(&c[2]).iter().map(atom));
                used_sorts.push(atom(&c[3]));
                let ar = list(&c[2]).len();
                if funs.insert(atom(&c[1]), ar).is_some() {
                    bad.push(format!("{} declared twice", atom(&c[1])));
                }
            }
            "declare-subterm-relation" => {
                if funs.insert(atom(&c[1]), 2).is_some() {
                    bad.push(format!("{} declared twice", atom(&c[1])));
                }
            }
            "declare-datatypes" => {
                for s in list(&c[1]) {
                    sorts.insert(atom(&list(&s)[0]));
                }
                for cs in list(&c[2]) {
                    for c in list(&cs) {
                        let c = list(&c);
                        for d in &c[1..] {
                            used_sorts.push(atom(&list(d)[1]));
                            if funs.insert(atom(&list(d)[0]), 1).is_some() {
                                bad.push(format!("{} declared twice", atom(&list(d)[0])));
                            }
                        }
                        if funs.insert(atom(&c[0]), c.len() - 1).is_some() {
                            bad.push(format!("{} declared twice", atom(&c[0])));
                        }
                    }
                }
            }
            _ => (),
        }
    }
    bad.extend(used_sorts.iter().filter(|s| !sorts.contains(*s)).map(|s| format!("sort {s} not declared")));
    fn go(x: &S, funs: &BTreeMap<String, usize>, sorts: &BTreeSet<String>, bound: &mut Vec<String>, bad: &mut Vec<String>) {
        match x {
            S::A(x) => {
                if !bound.contains(x) && !["true", "false"].contains(&x.as_str()) && funs.get(x) != Some(&0) {
                    bad.push(format!("{x} is neither bound nor a declared constant"));
                }
            }
            S::L(l) => match l.first() {
                Some(S::A(h)) if h == "forall" || h == "exists" => {
                    let n = bound.len();
                    if let S::L(vs) = &l[1] {
                        for v in vs {
                            if let S::L(v) = v {
                                if let (S::A(v), S::A(s)) = (&v[0], &v[1]) {
                                    bound.push(v.clone());
                                    if !sorts.contains(s) {
                                        bad.push(format!("sort {s} not declared"));
                                    }
                                }
                            }
                        }
                    }
                    l[2..].iter().for_each(|x| go(x, funs, sorts, bound, bad));
                    bound.truncate(n);
                }
                Some(S::A(h)) if h == "subterm" => {
                    if let S::A(f) = &l[1] {
                        if !funs.contains_key(f) {
                            bad.push(format!("{f} not declared"));
                        }
                    }
                    l[2..].iter().for_each(|x| go(x, funs, sorts, bound, bad));
                }
                Some(S::A(h)) => {
                    if !BUILTIN.contains(&h.as_str()) && funs.get(h) != Some(&(l.len() - 1)) {
                        bad.push(format!("{h} not declared with {} arguments", l.len() - 1));
                    }
                    l[1..].iter().for_each(|x| go(x, funs, sorts, bound, bad));
                }
                _ => bad.push("application without a head".into()),
            },
        }
    }
    for c in cmds {
        if let S::L(c) = c {
            if let S::A(h) = &c[0] {
                if h.starts_with("assert") || h == "declare-rewrite" {
                    let body = c.last().unwrap();
                    // a rewrite rule of another kind uses its own head
                    go(body, &funs, &sorts, &mut vec![], &mut bad);
                }
            }
        }
    }
    bad.sort();
    bad.dedup();
    bad
}

/// a problem with user statements of several shapes; (text, assertions in SMT, query in SMT), evaluation and sort names erased
struct Case {
    text: String,
    asserts: Vec<String>,
    query: String,
}
fn atoms(x: &S, out: &mut String) {
    match x {
        S::A(x) => {
            let x = x.trim_start_matches("eval$").trim_start_matches("ta$");
            let b: Vec<char> = x.chars().collect();
            // variables: keep the number only
            if b.len() >= 3 && b[1] == 'X' && b[2..].iter().all(|c| c.is_ascii_digit()) {
                out.push('X');
                out.extend(&b[2..]);
            } else {
                out.push_str(match x {
                    "Bitstring" => "Message",
                    x => x,
                });
            }
            out.push(' ');
        }
        S::L(l) if l.len() == 2 && matches!(&l[0], S::A(h) if h.starts_with("evaluate_") || h.starts_with("cast$")) => atoms(&l[1], out),
        S::L(l) => {
            out.push('(');
            l.iter().for_each(|x| atoms(x, out));
            out.push_str(") ");
        }
    }
}

/// a term over the variables in scope
fn rterm(r: &mut Rng, d: usize, scope: usize) -> (String, String) {
    if d == 0 || r.below(3) > 0 {
        let k = r.below(scope);
        (format!("v{k}"), format!("X{k} "))
    } else {
        let (a, x) = rterm(r, d - 1, scope);
        let (b, y) = rterm(r, d - 1, scope);
        (format!("hash({a}, {b})"), format!("(hash {x}{y}) "))
    }
}
/// a condition: what is written, what it must read as
fn rcond(r: &mut Rng, d: usize, scope: usize) -> (String, String) {
    let k = r.below(if d == 0 { 3 } else { 9 });
    match k {
        0 => {
            let (a, x) = rterm(r, 2, scope);
            (format!("p({a})"), format!("(p {x}) "))
        }
        1 => {
            let (a, x) = rterm(r, 1, scope);
            let (b, y) = rterm(r, 2, scope);
            (format!("q({a}, {b})"), format!("(q {x}{y}) "))
        }
        2 => {
            let (a, x) = rterm(r, 1, scope);
            let (b, y) = rterm(r, 1, scope);
            (format!("({a} == {b})"), format!("(= {x}{y}) "))
        }
        3 => {
            let (a, x) = rcond(r, d - 1, scope);
            (format!("not({a})"), format!("(not {x}) "))
        }
        _ => {
            let (a, x) = rcond(r, d - 1, scope);
            let (b, y) = rcond(r, d - 1, scope);
            let (o, h) = *r.pick(&[("&&", "and"), ("||", "or"), ("=>", "=>"), ("<=>", "=")]);
            (format!("({a} {o} {b})"), format!("({h} {x}{y}) "))
        }
    }
}
/// a statement: blocks of quantifiers, then a formula headed by a connective
fn rstmt(r: &mut Rng) -> (String, String) {
    let (mut text, mut smt, mut scope) = (String::new(), String::new(), 0);
    let blocks = 1 + r.below(3);
    for _ in 0..blocks {
        let n = 1 + if r.below(4) == 0 { r.below(5) } else { r.below(2) };
        let q = if r.bool() { "forall" } else { "exists" };
        text += &format!("{q} ({}) {{ ", (scope..scope + n).map(|k| format!("v{k}:Message")).collect::<Vec<_>>().join(", "));
        smt += &format!("({q} ({}) ", (scope..scope + n).map(|k| format!("(X{k} Message ) ")).collect::<String>());
        scope += n;
    }
    let (a, x) = rcond(r, 2, scope);
    let (b, y) = rcond(r, 2, scope);
    let (o, h) = *r.pick(&[("&&", "and"), ("||", "or"), ("=>", "=>"), ("<=>", "=")]);
    let (body, s) = if r.below(4) == 0 { (a, x) } else { (format!("({a} {o} {b})"), format!("({h} {x}{y}) ")) };
    (format!("{text}{body}{}", " }".repeat(blocks)), format!("{smt}{s}{}", ") ".repeat(blocks)))
}

fn cases(rep: &Rep) -> Vec<Case> {
    let head = "type index;\nfun hash(Message, Message):Message\nfun key:Name\nfun p(Message):Bool\nfun q(Message, Message):Bool\nstep t(i:index)\n    { true }\n    { hash(input(t(i)), key) }\n";
    let mut r = Rng(rep.seed ^ 77);
    let mut out = vec![];
    for n in 0..60 * rep.scale {
        let mut st: Vec<(String, String)> = (0..1 + n % 6).map(|_| rstmt(&mut r)).collect();
        // the same statement several times, the query among the assertions
        for _ in 0..r.below(3) {
            let k = r.below(st.len());
            let x = st[k].clone();
            let at = r.below(st.len() + 1);
            st.insert(at, x);
        }
        let (qt, qs) = st.pop().unwrap();
        let mut text = format!("{head}query {qt}\nassert-crypto nonce;\n");
        for (t, _) in &st {
            text += &format!("assert {t}\n");
        }
        out.push(Case { text, asserts: st.into_iter().map(|x| x.1).collect(), query: qs });
    }
    out
}

fn whole(rep: &mut Rep) {
    let main: &[&[&str]] = &[&[], &["--symbolic"], &["--skolemnise"], &["--no-preprocessing"], &["--symbolic", "--eval-rewrite"], &["--crypto-rewrite", "--symbolic"], &["--symbolic", "--vampire-subterm"], &["--symbolic", "--legacy-evaluate"], &["--symbolic", "--no-bitstring"]];
    let file: &[&[&str]] = &[&[], &["--assert-theory"], &["--assert-ground"], &["--cvc5"], &["--assert-theory", "--assert-ground"]];
    let cs = cases(rep);
    let mut items = vec![];
    let step = 1;
    for (i, m) in main.iter().enumerate() {
        for (j, f) in file.iter().enumerate() {
            for (k, c) in cs.iter().enumerate() {
                if (i + j + k) % step == 0 {
                    items.push((*m, *f, c));
                }
            }
        }
    }
    let res = par(&items, |(m, f, c)| {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("o.smt");
        let ps = p.to_string_lossy().into_owned();
        let mut args: Vec<&str> = m.to_vec();
        args.push("to-file");
        args.extend(f.iter());
        args.extend(["-o", &ps]);
        let mut bad = vec![];
        if let Err(e) = go(&args, &c.text) {
            return vec![format!("failed: {e}")];
        }
        let cmds = match parse(&std::fs::read_to_string(&p).unwrap_or_default()) {
            Ok(x) => x,
            Err(e) => return vec![e],
        };
        let flat = |x: &S| {
            let mut s = String::new();
            atoms(x, &mut s);
            s
        };
        if cmds.iter().filter(|c| flat(c) == "(check-sat ) ").count() != 1 || cmds.last().map(flat).as_deref() != Some("(check-sat ) ") {
            bad.push("check-sat is not the last command, once".into());
        }
        let asserts: Vec<String> = cmds.iter().map(flat).filter(|c| c.starts_with("(assert")).collect();
        let mut want: Vec<String> = c.asserts.iter().map(|x| format!("(assert {x}) ")).collect();
        want.push(format!("(assert (not {}) ) ", c.query));
        let n = asserts.len();
        if n < want.len() || asserts[n - want.len()..] != want[..] {
            bad.push(format!("user statements: expected at the end {want:?} but the last assertions are {:?}", &asserts[n.saturating_sub(want.len())..]));
        }
        let neg = format!("(assert (not {}", c.query);
        if asserts.iter().filter(|x| x.starts_with(&neg)).count() != 1 {
            bad.push("the negated query does not appear once".into());
        }
        bad.extend(symbols(&cmds));
        bad
    });
    for ((m, f, c), bad) in items.iter().zip(res) {
        let key = format!("{} to-file {}: {} {}", m.join(" "), f.join(" "), c.text.split("step t").last().unwrap_or(""), bad.join(", "));
        rep.check("file of a problem", &key, bad.is_empty());
    }
}
