//! sort checking: realm-aware equality, sort variables, signatures, realm merging, arity of applications
use crate::{e2e::*, util::*};
use cryptovampire::{
    container::ScopedContainer,
    environement::traits::{KnowsRealm, Realm, RealmMerger},
    formula::{
        function::{
            builtin::*,
            signature::{FixedRefSignature, Lazy, OnlyArgsSignature, OnlyArgsSignatureProxy, Signature, StaticSignature},
        },
        sort::{builtins::*, sort_proxy::SortProxy, Sort},
    },
};

type So = Sort<'static>;
type Sp = SortProxy<'static>;

struct World {
    sorts: Vec<So>,
    ev: Vec<Option<usize>>,
    name: Vec<&'static str>,
}

fn world() -> World {
    let c: &'static ScopedContainer<'static> = ScopedContainer::new_leaked();
    let (s1, e1) = Sort::new_user(c, "u1".into());
    let (s2, e2) = Sort::new_user(c, "u2".into());
    let i = Sort::new_index(c, "i".into());
    let j = Sort::new_index(c, "j".into());
    World {
        sorts: vec![*BOOL, *CONDITION, *MESSAGE, *BITSTRING, *NAME, *STEP, i, j, s1, e1, s2, e2],
        ev: vec![None, Some(0), Some(3), None, None, None, None, None, Some(9), None, Some(11), None],
        name: vec!["bool", "condition", "message", "bitstring", "name", "step", "i", "j", "u1", "u1'", "u2", "u2'"],
    }
}
impl World {
    fn agree(&self, a: usize, b: usize, e: bool) -> bool {
        a == b || e && (self.ev[a] == Some(b) || self.ev[b] == Some(a))
    }
    fn ix(&self, s: So) -> usize {
        self.sorts.iter().position(|x| *x == s).unwrap()
    }
}

/// reference: a sort or a variable (by number)
#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    S(usize),
    V(usize),
}
struct Vars {
    real: Vec<Sp>,
    known: Vec<Option<usize>>,
}
impl Vars {
    fn new(n: usize) -> Self {
        Vars { real: (0..n).map(|_| Default::default()).collect(), known: vec![None; n] }
    }
    fn get(&self, p: P) -> Option<usize> {
        match p {
            P::S(i) => Some(i),
            P::V(i) => self.known[i],
        }
    }
    fn set(&mut self, p: P, s: usize) {
        if let P::V(i) = p {
            self.known[i] = Some(s)
        }
    }
    fn real(&self, w: &World, p: P) -> Sp {
        match p {
            P::S(i) => SortProxy::Static(w.sorts[i]),
            P::V(i) => self.real[i].clone(),
        }
    }
    fn unify(&mut self, w: &World, a: P, b: P, e: bool) -> Option<usize> {
        match (self.get(a), self.get(b)) {
            (Some(x), Some(y)) => w.agree(x, y, e).then_some(x),
            (Some(x), None) => {
                self.set(b, x);
                Some(x)
            }
            (None, Some(y)) => {
                self.set(a, y);
                Some(y)
            }
            (None, None) => None,
        }
    }
    fn same(&self, w: &World) -> bool {
        (0..self.known.len()).all(|i| self.real[i].as_option().map(|s| w.ix(s)) == self.known[i])
    }
}

fn pick(r: &mut Rng, w: &World, nv: usize) -> P {
    if r.below(2) == 0 {
        P::V(r.below(nv))
    } else if r.bool() {
        P::S(r.below(4)) // more often in agreement
    } else {
        P::S(r.below(w.sorts.len()))
    }
}

fn sorts(rep: &mut Rep, w: &World) {
    for (a, x) in w.sorts.iter().enumerate() {
        let k = w.name[a];
        rep.check("maybe_evaluated_sort", k, x.maybe_evaluated_sort().map(|s| w.ix(s)) == w.ev[a]);
        rep.check("evaluated_sort", k, w.ix(x.evaluated_sort()) == w.ev[a].unwrap_or(a));
        rep.check("is_evaluatable", k, x.is_evaluatable() == w.ev[a].is_some());
        let re = if (4..8).contains(&a) { None } else if w.ev[a].is_some() { Some(Realm::Symbolic) } else { Some(Realm::Evaluated) };
        rep.check("realm", k, x.realm() == re);
        for (b, y) in w.sorts.iter().enumerate() {
            let k = format!("{} {}", w.name[a], w.name[b]);
            rep.check("eq_realm symbolic", &k, x.eq_realm(y, &Realm::Symbolic) == w.agree(a, b, false));
            rep.check("eq_realm evaluated", &k, x.eq_realm(y, &Realm::Evaluated) == w.agree(a, b, true));
            rep.check("eq_realm default", &k, x.eq_realm(y, &()) == w.agree(a, b, false));
            rep.check("== of known sorts", &k, (x == y) == (a == b));
        }
    }
    let rs = [Realm::Symbolic, Realm::Evaluated];
    for a in rs {
        rep.check("realm of a reference", &format!("{a}"), (&&a).get_realm() == a && a.is_evaluated_realm() == (a == Realm::Evaluated) && a.is_symbolic_realm() == (a == Realm::Symbolic));
        for b in rs {
            let both = if a == Realm::Evaluated && b == Realm::Evaluated { Realm::Evaluated } else { Realm::Symbolic };
            rep.check("realm & realm", &format!("{a} {b}"), a & b == both);
            let m = RealmMerger { inner: a, outer: b };
            rep.check("merged realms", &format!("{a} {b}"), m.get_realm() == both);
            rep.check("merged with nothing", &format!("{a} {b}"), RealmMerger { inner: m, outer: () }.get_realm() == Realm::Symbolic);
            for c in rs {
                rep.check("merged realms", &format!("({a} {b}) {c}"), RealmMerger { inner: m, outer: &c }.get_realm() == (both & c));
            }
        }
    }
}

fn variables(rep: &mut Rep, w: &World, r: &mut Rng) {
    for _ in 0..4000 * rep.scale {
        let nv = 1 + r.below(4);
        let mut v = Vars::new(nv);
        let mut log = String::new();
        for _ in 0..2 + r.below(10) {
            let (a, b, e) = (pick(r, w, nv), pick(r, w, nv), r.bool());
            let (ra, rb) = (v.real(w, a), v.real(w, b));
            let realm = if e { Realm::Evaluated } else { Realm::Symbolic };
            let op = r.below(8);
            log += &format!("{op} {a:?} {b:?} {}; ", if e { "evaluated" } else { "symbolic" });
            let s = match b {
                P::S(s) => s,
                P::V(_) => r.below(w.sorts.len()),
            };
            let so = w.sorts[s];
            let ok = match op {
                0 | 1 => {
                    let x = v.unify(w, a, b, e);
                    ra.unify(&rb, &realm).ok().map(|s| w.ix(s)) == x
                }
                2 => {
                    let x = v.unify(w, a, b, e);
                    ra.unify_rev(&rb, &realm).ok().map(|s| w.ix(s)) == x
                }
                3 | 4 => {
                    let x = match v.get(a) {
                        Some(k) => w.agree(k, s, e),
                        None => {
                            v.set(a, s);
                            true
                        }
                    };
                    (if op == 3 { ra.expects(so, &realm) } else { ra.matches(so, &realm) }).is_ok() == x
                }
                5 => match v.get(a) {
                    Some(k) => SortProxy::matches_sort(w.sorts[k], so, &realm).is_ok() == w.agree(k, s, e),
                    None => true, // unspecified for unknown variables
                },
                6 => {
                    let x = v.get(a).is_none();
                    if x {
                        v.set(a, s)
                    }
                    ra.set(so).is_ok() == x
                }
                _ => ra.is_known() == v.get(a).is_some() && ra.is_sort(so) == (v.get(a) == Some(s)),
            };
            rep.check("sort variables", &log, ok && v.same(w));
        }
    }
}

/// reference check of two signatures given by their parts
fn ref_unify(v: &mut Vars, w: &World, a: (P, &[P]), b: (P, &[P]), e: bool) -> bool {
    if v.unify(w, a.0, b.0, e).is_none() {
        return false;
    }
    for i in 0..a.1.len().min(b.1.len()) {
        if v.unify(w, a.1[i], b.1[i], e).is_none() {
            return false;
        }
    }
    a.1.len() == b.1.len()
}

fn signatures(rep: &mut Rep, w: &World, r: &mut Rng) {
    for _ in 0..6000 * rep.scale {
        let nv = 4;
        let (na, e) = (r.below(4), r.bool());
        let nb = if r.below(4) == 0 { r.below(4) } else { na };
        let realm = if e { Realm::Evaluated } else { Realm::Symbolic };
        let mut v = Vars::new(nv);
        for i in 0..nv {
            if r.below(3) == 0 {
                let s = r.below(4);
                v.real[i].set(w.sorts[s]).unwrap();
                v.known[i] = Some(s);
            }
        }
        let pa: Vec<P> = (0..na).map(|_| P::S(if r.bool() { r.below(4) } else { r.below(12) })).collect();
        let oa = r.below(4);
        let mut pb: Vec<P> = (0..nb).map(|_| pick(r, w, nv)).collect();
        if r.bool() {
            for i in 0..na.min(nb) {
                if r.below(4) != 0 {
                    pb[i] = if r.bool() { pa[i] } else { P::V(r.below(nv)) }
                }
            }
        }
        let args: Vec<So> = pa.iter().map(|p| if let P::S(i) = p { w.sorts[*i] } else { unreachable!() }).collect();
        let fixed = FixedRefSignature::new(w.sorts[oa], args.clone());
        let rb: Vec<Sp> = pb.iter().map(|p| v.real(w, *p)).collect();
        let key = format!("{pa:?}->{oa} against {pb:?} {:?} {realm}", v.known);
        // a list of arguments has an output of its own: a variable that stands for nothing
        let other = OnlyArgsSignatureProxy::new(rb.as_slice());
        v.known.push(None);
        v.real.push(other.out());
        let ob = P::V(nv);
        let given = |s: &dyn Fn() -> (usize, Vec<Option<So>>)| -> bool {
            let (n, l) = s();
            n == l.len()
        };
        rep.check("declared parts", &key, w.ix(fixed.out().as_option().unwrap()) == oa && fixed.args().into_iter().map(|s| w.ix(s.as_option().unwrap())).eq(args.iter().map(|s| w.ix(*s))));
        rep.check("argument count", &key, given(&|| (na, fixed.args().into_iter().map(|s| s.as_option()).collect())) && given(&|| (nb, other.args().into_iter().map(|s| s.as_option()).collect())));
        rep.check("argument range", &key, fixed.args_size() == (na.into()..=na.into()) && other.args_size() == (nb.into()..=nb.into()));
        let flip = r.bool();
        let (x, ok) = if flip {
            let x = ref_unify(&mut v, w, (ob, &pb), (P::S(oa), &pa), e);
            let y = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| other.unify(&fixed, &realm).is_ok()));
            (x, y)
        } else {
            let x = ref_unify(&mut v, w, (P::S(oa), &pa), (ob, &pb), e);
            let y = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match r.below(3) {
                0 => Lazy::<_, FixedRefSignature>::A(fixed.clone()).unify(&other, &realm),
                1 => Lazy::<FixedRefSignature, _>::B(fixed.clone()).unify(&other, &realm),
                _ => fixed.unify(&other, &realm),
            }
            .is_ok()));
            (x, y)
        };
        rep.check(if flip { "arguments against a signature" } else { "a signature against arguments" }, &key, ok.ok() == Some(x));
        rep.check("sorts inferred", &key, v.same(w) || !x);
        // two fixed signatures
        let (o2, p2) = (r.below(4), pb.iter().map(|p| if let P::S(i) = p { *i } else { r.below(4) }).collect::<Vec<_>>());
        let fixed2 = FixedRefSignature::new(w.sorts[o2], p2.iter().map(|i| w.sorts[*i]).collect::<Vec<_>>());
        let x = ref_unify(&mut Vars::new(0), w, (P::S(oa), &pa), (P::S(o2), &p2.iter().map(|i| P::S(*i)).collect::<Vec<_>>()), e);
        rep.check("two fixed signatures", &format!("{key} {o2} {p2:?}"), fixed.unify(&fixed2, &realm).is_ok() == x && fixed2.unify(&fixed, &realm).is_ok() == x);
        let oas = OnlyArgsSignature::new(args.as_slice());
        rep.check("argument range", &key, oas.args_size() == (na.into()..=na.into()));
        let mut v0 = Vars::new(1);
        v0.real[0] = oas.out();
        let x = ref_unify(&mut v0, w, (P::V(0), &pa), (P::S(o2), &p2.iter().map(|i| P::S(*i)).collect::<Vec<_>>()), e);
        let y = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| oas.unify(&fixed2, &realm).is_ok()));
        rep.check("known arguments against a signature", &format!("{key} {o2} {p2:?}"), y.ok() == Some(x));
        if na == 2 {
            let st = StaticSignature { out: w.sorts[oa], args: [args[0], args[1]] };
            rep.check("static signature", &key, st.unify(&fixed, &realm).is_ok() && st.args_size() == (2.into()..=2.into()) && fixed.unify(&st.as_ref(), &realm).is_ok());
        }
    }
    // functions on arguments of known sorts, in the default (symbolic) realm
    let (b, c, m, bi) = (0, 1, 2, 3);
    let table: Vec<(Fun, Vec<Vec<usize>>)> = vec![
        (*NOT, vec![vec![b]]),
        (*IMPLIES, vec![vec![b, b]]),
        (*TRUE_F, vec![vec![]]),
        (*FALSE_F, vec![vec![]]),
        (*NOT_TA, vec![vec![c]]),
        (*AND_TA, vec![vec![c, c]]),
        (*OR_TA, vec![vec![c, c]]),
        (*IMPLIES_TA, vec![vec![c, c]]),
        (*IF_THEN_ELSE_TA, vec![vec![c, m, m]]),
        (*HAPPENS, vec![vec![5]]),
        (*LESS_THAN_STEP, vec![vec![5, 5]]),
        (*INPUT, vec![vec![5]]),
        (*MESSAGE_TO_BITSTRING, vec![vec![m]]),
        (*CONDITION_TO_BOOL, vec![vec![c]]),
    ];
    let _ = bi;
    for (f, l) in &table {
        for n in 0..4usize {
            for k in 0..12usize.pow(n as u32) {
                let a: Vec<usize> = (0..n).map(|i| k / 12usize.pow(i as u32) % 12).collect();
                let args: Vec<Sp> = a.iter().map(|i| SortProxy::Static(w.sorts[*i])).collect();
                rep.check("arguments a function takes", &format!("{} {a:?}", f.name()), f.valid_args(args) == l.contains(&a));
            }
        }
    }
}

/// an application with another number of arguments than the function takes is an error
fn arity(rep: &mut Rep) {
    let mut items: Vec<(bool, String)> = vec![];
    for (f, n) in [("fa", 0usize), ("fb", 1), ("fc", 2), ("fd", 3)] {
        for m in 0..6usize {
            let l = vec!["zz"; m].join(", ");
            let t = if m == 0 { f.to_string() } else { format!("{f}({l})") };
            items.push((n == m, format!("{t} == zz")));
            items.push((n == m, format!("zz == {t}")));
            items.push((n == m, format!("fb({t}) == zz")));
            items.push((false, format!("fb({t}, zz) == zz")));
            items.push((false, format!("fc({t}, zz, nothing_of_that_name) == zz")));
            items.push((false, format!("fc({t}, zz, happens(t)) == zz")));
        }
    }
    // sorts of arguments and results, in every realm
    let terms = [("zz", 'm'), ("fa", 'm'), ("fb(zz)", 'm'), ("pp(zz)", 'b'), ("(zz == fa)", 'b'), ("true", 'b'), ("happens(t(ii))", 'b'), ("nn(ii)", 'm'), ("ii", 'i'), ("t(ii)", 's'), ("fe(ii)", 'm'), ("input(t(ii))", 'm')];
    for (t, k) in terms {
        for (c, want) in [("fb(#) == zz", 'm'), ("pp(#)", 'b' /* result */), ("fc(zz, #) == zz", 'm'), ("fe(#) == zz", 'i'), ("nn(#) == zz", 'i'), ("input(#) == zz", 's'), ("happens(#)", 's'), ("not(#)", 'b'), ("# && true", 'b'), ("zz == #", 'm'), ("mm!(#, zz)", 'm')] {
            let want = if c == "pp(#)" { 'm' } else { want };
            let c = if c.contains("==") || c.contains("&&") { format!("({c})") } else { c.to_string() };
            items.push((k == want, format!("forall (ii:index) {{{}}}", c.replace('#', t))));
        }
    }
    for (t, ok) in [("mm!(zz, zz)", true), ("mm!(zz)", false), ("mm!(zz, zz, zz)", false), ("m0!()", true), ("m0!(zz)", false), ("not(fb(zz))", false), ("not(pp(zz))", true), ("not(pp(zz), pp(zz))", false), ("pp(zz, zz)", false), ("pp(zz)", true), ("ff(zz)", false)] {
        items.push((ok, t.to_string()));
    }
    let res = par(&items, |(_, t)| {
        let mut out = vec![];
        for place in 0..3 {
            let mut s = String::from("type index;\nfun nn(index):Name\nfun fe(index):Message\nfun zz:Message\nfun fa:Message\nfun fb(Message):Message\nfun fc(Message, Message):Message\nfun fd(Message, Message, Message):Message\nfun pp(Message):Bool\nlet mm!(x:Message, y:Message) = (x == y)\nlet m0!() = (zz == zz)\n");
            let t3 = |k: usize, d: &str| if k == place { if t.contains("==") && !t.contains("forall") { format!("({t})") } else { t.clone() } } else { d.to_string() };
            s += &format!("step t(i:index)\n    {{ {} }}\n    {{ input(t(i)) }}\n", t3(0, "true"));
            s += &format!("query {}\nassert-crypto nonce;\nassert {}\n", t3(1, "(zz == zz)"), t3(2, "(zz == zz)"));
            let dir = tempfile::tempdir().unwrap();
            let ps = dir.path().join("o.smt").to_string_lossy().into_owned();
            out.push(go(&["to-file", "-o", &ps], &s).map(|_| ()).map_err(|e| e.lines().next().unwrap_or("").to_string()));
        }
        out
    });
    for ((ok, t), l) in items.iter().zip(res) {
        for (place, x) in l.into_iter().enumerate() {
            let clean = !matches!(&x, Err(e) if e == "PANIC");
            let ok = &(*ok && (place > 0 || !t.contains("happens")));
            rep.check("sorts and number of arguments of an application", &format!("{t} in {} gives {x:?}", ["a condition", "a query", "an assertion"][place]), x.is_ok() == *ok && clean);
        }
    }
}

pub fn run(rep: &mut Rep) {
    let w = world();
    let mut r = Rng(rep.seed ^ 0x606);
    sorts(rep, &w);
    variables(rep, &w, &mut r);
    signatures(rep, &w, &mut r);
    arity(rep);
}
