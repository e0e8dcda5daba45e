//! names and scopes: what a parsed statement says, against an independent elaboration of the same text
use crate::c03::{parse, S};
use crate::e2e::{go, par};
use crate::util::{Rep, Rng};

/// meaning: every binder has its own number
#[derive(Clone)]
enum T {
    Var(usize),
    App(String, Vec<T>),
    Q(&'static str, Vec<(usize, &'static str)>, Box<T>),
}
/// text with names
#[derive(Clone)]
enum E {
    Name(String),
    App(&'static str, Vec<E>),
    Op(&'static str, Vec<E>),
    If(Box<E>, Box<E>, Box<E>),
    Q(&'static str, Vec<(String, &'static str)>, Box<E>),
    Let(String, &'static str, Box<E>, Box<E>),
    Macro(usize, Vec<E>),
    Step(&'static str, Vec<E>),
}
struct Def {
    name: String,
    sort: &'static str,
    params: Vec<(String, &'static str)>,
    body: E,
}
/// the two contents of the step `st(k:index, ...)`
struct World {
    macros: Vec<Def>,
    params: Vec<(String, &'static str)>,
    cond: Option<E>,
    msg: Option<E>,
}

fn text(e: &E, w: &World) -> String {
    let l = |es: &[E]| es.iter().map(|e| text(e, w)).collect::<Vec<_>>().join(", ");
    let bs = |vs: &[(String, &str)]| vs.iter().map(|(n, s)| format!("{n}:{s}")).collect::<Vec<_>>().join(", ");
    match e {
        E::Name(n) => n.clone(),
        E::App(f, es) => format!("{f}({})", l(es)),
        E::Op(o, es) => format!("({})", es.iter().map(|e| text(e, w)).collect::<Vec<_>>().join(&format!(" {o} "))),
        E::If(c, a, b) => format!("if {} {{ {} }} else {{ {} }}", text(c, w), text(a, w), text(b, w)),
        E::Q(q, vs, b) => format!("{q} ({}) {{ {} }}", bs(vs), text(b, w)),
        E::Let(n, s, a, b) => format!("let {n}:{s} = {} in {}", text(a, w), text(b, w)),
        E::Macro(k, es) => format!("{}!({})", w.macros[*k].name, l(es)),
        E::Step(m, i) => format!("{m}!(st({}))", l(i)),
    }
}

struct El<'a> {
    w: &'a World,
    n: usize,
    size: usize,
}
impl El<'_> {
    fn go(&mut self, e: &E, scope: &[(String, T)]) -> T {
        self.size += 1;
        if self.size > 4000 {
            return T::App("too large".into(), vec![]);
        }
        let mut all = |s: &mut Self, es: &[E]| es.iter().map(|e| s.go(e, scope)).collect::<Vec<_>>();
        match e {
            E::Name(n) => scope.iter().rev().find(|(m, _)| m == n).map(|(_, t)| t.clone()).unwrap_or_else(|| T::App(n.clone(), vec![])),
            E::App(f, es) => T::App(f.to_string(), all(self, es)),
            E::Op(o, es) => {
                let l = all(self, es);
                match *o {
                    "!=" => T::App("not".into(), vec![T::App("=".into(), l)]),
                    o => T::App(match o { "==" | "<=>" => "=", "&&" => "and", "||" => "or", o => o }.into(), l),
                }
            }
            E::If(c, a, b) => {
                let l = vec![self.go(c, scope), self.go(a, scope), self.go(b, scope)];
                T::App("ite".into(), l)
            }
            E::Q(q, vs, b) => {
                let mut sc = scope.to_vec();
                let mut bs = vec![];
                for (n, s) in vs {
                    self.n += 1;
                    sc.push((n.clone(), T::Var(self.n)));
                    bs.push((self.n, *s));
                }
                T::Q(q, bs, Box::new(self.go(b, &sc)))
            }
            E::Let(n, _, a, b) => {
                let a = self.go(a, scope);
                let mut sc = scope.to_vec();
                sc.push((n.clone(), a));
                self.go(b, &sc)
            }
            E::Macro(k, es) => {
                let w = self.w;
                let d = &w.macros[*k];
                let args = all(self, es);
                let sc: Vec<_> = d.params.iter().map(|p| p.0.clone()).zip(args).collect();
                self.go(&d.body, &sc)
            }
            E::Step(m, i) => {
                let w = self.w;
                let i = all(self, i);
                let mut sc: Vec<_> = w.params.iter().map(|p| p.0.clone()).zip(i.iter().cloned()).collect();
                sc.push(("in".into(), T::App("input".into(), vec![T::App("st".into(), i)])));
                self.go(if *m == "cond" { w.cond.as_ref() } else { w.msg.as_ref() }.unwrap(), &sc)
            }
        }
    }
}

/// canonical form: bound variables by order of binding
fn canon(t: &T, env: &mut Vec<(usize, usize)>, n: &mut usize) -> String {
    match t {
        T::Var(v) => env.iter().rev().find(|(u, _)| u == v).map(|(_, k)| format!("#{k}")).unwrap_or("FREE".into()),
        T::App(f, l) if l.is_empty() => f.clone(),
        T::App(f, l) => format!("({f} {})", l.iter().map(|t| canon(t, env, n)).collect::<Vec<_>>().join(" ")),
        T::Q(q, vs, b) => {
            let d = env.len();
            let mut hd = vec![];
            for (v, s) in vs {
                env.push((*v, *n));
                hd.push(format!("(#{n} {s})"));
                *n += 1;
            }
            let b = canon(b, env, n);
            env.truncate(d);
            format!("({q} ({}) {b})", hd.join(" "))
        }
    }
}
/// the same from a written command
fn read(s: &S, env: &mut Vec<(String, usize)>, n: &mut usize) -> String {
    let var = |x: &str| {
        let b: Vec<char> = x.chars().collect();
        b.len() >= 3 && b[1] == 'X' && b[2..].iter().all(|c| c.is_ascii_digit())
    };
    match s {
        S::A(x) if var(x) => env.iter().rev().find(|(u, _)| u == x).map(|(_, k)| format!("#{k}")).unwrap_or("FREE".into()),
        S::A(x) => {
            let x = x.trim_start_matches("eval$").trim_start_matches("ta$");
            match x { "Bitstring" => "Message", x => x }.into()
        }
        S::L(l) if l.len() == 2 && matches!(&l[0], S::A(h) if h.starts_with("evaluate_") || h.starts_with("cast$")) => read(&l[1], env, n),
        S::L(l) if l.len() == 1 => read(&l[0], env, n),
        S::L(l) => match (&l[0], l.get(1)) {
            (S::A(q), Some(S::L(vs))) if q == "forall" || q == "exists" => {
                let d = env.len();
                let mut hd = vec![];
                for v in vs {
                    if let S::L(p) = v {
                        if let (S::A(v), s) = (&p[0], &p[1]) {
                            env.push((v.clone(), *n));
                            let s = read(s, &mut vec![], n);
                            hd.push(format!("(#{n} {s})"));
                            *n += 1;
                        }
                    }
                }
                let b = l[2..].iter().map(|x| read(x, env, n)).collect::<Vec<_>>().join(" ");
                env.truncate(d);
                format!("({q} ({}) {b})", hd.join(" "))
            }
            _ => format!("({})", l.iter().map(|x| read(x, env, n)).collect::<Vec<_>>().join(" ")),
        },
    }
}

const POOL: &[&str] = &["x", "y", "z", "u", "yy", "w"];

/// generator of well-sorted texts
struct G<'a> {
    r: &'a mut Rng,
    w: &'a World,
    /// steps may be referred to
    steps: bool,
}
type Scope = Vec<(String, &'static str)>;
impl G<'_> {
    fn visible(&self, sc: &Scope, s: &str) -> Vec<String> {
        let mut out = vec![];
        for (i, (n, t)) in sc.iter().enumerate() {
            if *t == s && !sc[i + 1..].iter().any(|(m, _)| m == n) {
                out.push(n.clone());
            }
        }
        for (n, t) in [("zz", "Message"), ("yy", "Message")] {
            if t == s && !sc.iter().any(|(m, _)| m == n) {
                out.push(n.into());
            }
        }
        out
    }
    fn macro_of(&mut self, sc: &Scope, s: &'static str, d: usize) -> Option<E> {
        let c: Vec<usize> = (0..self.w.macros.len()).filter(|k| self.w.macros[*k].sort == s).collect();
        if c.is_empty() {
            return None;
        }
        let k = *self.r.pick(&c);
        let ps: Vec<_> = self.w.macros[k].params.iter().map(|p| p.1).collect();
        Some(E::Macro(k, ps.iter().map(|p| self.term(sc, p, d, true)).collect()))
    }
    fn let_in(&mut self, sc: &Scope, d: usize, body: impl FnOnce(&mut Self, &Scope) -> E) -> E {
        let s = if self.r.below(3) > 0 { "Message" } else { "index" };
        let n = self.r.pick(POOL).to_string();
        let a = self.term(sc, s, d, true);
        let mut sc = sc.clone();
        sc.push((n.clone(), s));
        let b = body(self, &sc);
        E::Let(n, s, Box::new(a), Box::new(b))
    }
    /// a message or an index
    fn term(&mut self, sc: &Scope, s: &'static str, d: usize, sym: bool) -> E {
        let v = self.visible(sc, s);
        if d == 0 || self.r.below(3) == 0 {
            return E::Name(self.r.pick(&v).clone());
        }
        let k = self.r.below(8);
        match (s, k) {
            (_, 0) => self.let_in(sc, d - 1, |g, sc| g.term(sc, s, d - 1, sym)),
            ("Message", 1 | 2) => E::App("f", vec![self.term(sc, s, d - 1, true), self.term(sc, s, d - 1, true)]),
            ("Message", 3) => E::App("g", vec![self.term(sc, "index", d - 1, true)]),
            ("Message", 4) if !sym => E::If(Box::new(E::App("p", vec![self.term(sc, s, d - 1, true)])), Box::new(self.term(sc, s, d - 1, sym)), Box::new(self.term(sc, s, d - 1, sym))),
            ("Message", 5) if self.steps && self.w.msg.is_some() => E::Step("msg", vec![self.term(sc, "index", d - 1, true), self.term(sc, "index", d - 1, true)]),
            (_, 6 | 7) => self.macro_of(sc, s, d - 1).unwrap_or_else(|| E::Name(v[0].clone())),
            _ => E::Name(self.r.pick(&v).clone()),
        }
    }
    fn quant(&mut self, sc: &Scope, d: usize) -> E {
        let q = if self.r.bool() { "forall" } else { "exists" };
        let mut vs = vec![];
        let mut sc = sc.clone();
        for _ in 0..1 + self.r.below(3) {
            let v = (self.r.pick(POOL).to_string(), if self.r.below(3) > 0 { "Message" } else { "index" });
            sc.push(v.clone());
            vs.push(v);
        }
        let b = self.cond(&sc, d);
        E::Q(q, vs, Box::new(b))
    }
    fn cond(&mut self, sc: &Scope, d: usize) -> E {
        let k = self.r.below(if d == 0 { 3 } else { 12 });
        let d1 = d.saturating_sub(1);
        match k {
            0 => E::App("p", vec![self.term(sc, "Message", d, false)]),
            1 => E::App("q", vec![self.term(sc, "Message", d1, false), self.term(sc, "index", d1, false)]),
            2 => {
                let s = if self.steps && self.r.bool() { "index" } else { "Message" };
                E::Op(if self.r.bool() { "==" } else { "!=" }, vec![self.term(sc, s, d1, false), self.term(sc, s, d1, false)])
            }
            3 | 4 => self.quant(sc, d1),
            5 => self.let_in(sc, d1, |g, sc| g.cond(sc, d1)),
            6 | 7 => self.macro_of(sc, "Bool", d1).unwrap_or_else(|| E::App("p", vec![E::Name("zz2".into())])),
            8 if self.steps && self.w.cond.is_some() => E::Step("cond", vec![self.term(sc, "index", d1, true), self.term(sc, "index", d1, true)]),
            9 => E::App("not", vec![self.cond(sc, d1)]),
            10 => {
                let o = if self.r.bool() { "&&" } else { "||" };
                let n = 2 + self.r.below(2);
                E::Op(o, (0..n).map(|_| self.cond(sc, d1)).collect())
            }
            _ => {
                let o = *self.r.pick(&["&&", "||", "=>", "<=>"]);
                E::Op(o, vec![self.cond(sc, d1), self.cond(sc, d1)])
            }
        }
    }
}

struct Case {
    text: String,
    want: Vec<String>,
}

fn case(r: &mut Rng) -> Case {
    let mut w = World { macros: vec![], params: vec![(r.pick(POOL).to_string(), "index"), ("ii".into(), "index")], cond: None, msg: None };
    let mut head = String::from("type index;\nfun zz:Message\nfun zz2:Message\nfun yy:Message\nfun f(Message, Message):Message\nfun g(index):Message\nfun p(Message):Bool\nfun q(Message, index):Bool\n");
    let nm = r.below(4);
    for k in 0..nm {
        let mut params: Scope = vec![("ii".into(), "index")];
        for _ in 0..r.below(4) {
            let n = r.pick(POOL).to_string();
            if !params.iter().any(|p| p.0 == n) {
                params.push((n, if r.below(3) > 0 { "Message" } else { "index" }));
            }
        }
        let sort = if r.below(4) > 0 { "Bool" } else { "Message" };
        let mut g = G { r, w: &w, steps: false };
        let body = if sort == "Bool" { if k == 0 { g.quant(&params, 1) } else { g.cond(&params, 2) } } else { g.term(&params, "Message", 2, true) };
        w.macros.push(Def { name: format!("m{k}"), sort, params, body });
        let d = &w.macros[k];
        head += &format!("let {}!({}) = {}\n", d.name, d.params.iter().map(|(n, s)| format!("{n}:{s}")).collect::<Vec<_>>().join(", "), text(&d.body, &w));
    }
    // the step: its condition and message may bind variables and use macros
    let mut sc = w.params.clone();
    sc.push(("in".into(), "Message"));
    let (c, m) = {
        let mut g = G { r, w: &w, steps: false };
        (g.quant(&sc, 2), g.term(&sc, "Message", 2, true))
    };
    w.cond = Some(c);
    w.msg = Some(m);
    head += &format!("step st({}:index, ii:index)\n    {{ {} }}\n    {{ {} }}\n", w.params[0].0, text(w.cond.as_ref().unwrap(), &w), text(w.msg.as_ref().unwrap(), &w));
    let mut st = vec![];
    for _ in 0..1 + r.below(4) {
        let e = {
            let mut g = G { r, w: &w, steps: true };
            let sc = vec![("ii".into(), "index")];
            let b = g.cond(&sc, 3);
            let b = if g.r.bool() { E::Q("exists", vec![("x".into(), "Message")], Box::new(b)) } else { b };
            E::Q("forall", sc, Box::new(b))
        };
        let mut el = El { w: &w, n: 0, size: 0 };
        let t = el.go(&e, &[]);
        if el.size > 4000 {
            continue;
        }
        st.push((text(&e, &w), canon(&t, &mut vec![], &mut 0)));
    }
    let mut text = format!("{head}query (zz == zz)\nassert-crypto nonce;\n");
    for (t, _) in &st {
        text += &format!("assert {t}\n");
    }
    Case { text, want: st.into_iter().map(|x| x.1).collect() }
}

fn check(c: &Case) -> Vec<String> {
    let dir = tempfile::tempdir().unwrap();
    let ps = dir.path().join("o.smt").to_string_lossy().into_owned();
    if let Err(e) = go(&["to-file", "-o", &ps], &c.text) {
        return vec![format!("failed: {e}")];
    }
    let cmds = match parse(&std::fs::read_to_string(&ps).unwrap_or_default()) {
        Ok(x) => x,
        Err(e) => return vec![e],
    };
    let got: Vec<String> = cmds.iter().filter(|c| matches!(c, S::L(l) if matches!(&l[0], S::A(h) if h == "assert"))).map(|c| if let S::L(l) = c { read(&l[1], &mut vec![], &mut 0) } else { String::new() }).collect();
    let n = got.len().saturating_sub(1);
    let tail = &got[n.saturating_sub(c.want.len())..n];
    c.want.iter().zip(tail).filter(|(a, b)| a != b).map(|(a, b)| format!("it must read {a} but reads {b}")).collect()
}

fn texts(rep: &mut Rep) {
    let mut r = Rng(rep.seed ^ 0x1212);
    let cs: Vec<Case> = (0..1500 * rep.scale).map(|_| case(&mut r)).collect();
    let res = par(&cs, check);
    for (c, bad) in cs.iter().zip(res) {
        rep.check("names of a text", &format!("{} {}", bad.join("; "), c.text.split("index):Bool\n").last().unwrap_or("")), bad.is_empty());
    }
}

/// uses of a name outside its scope
fn outside(rep: &mut Rep) {
    let bad = [
        ("(exists (x:Message) { p(x) } && p(x))", false),
        ("(p(x) && exists (x:Message) { p(x) })", false),
        ("(let x:Message = zz in p(x) && p(x))", false),
        ("p(f(let x:Message = zz in x, x))", false),
        ("let x:Message = x in p(x)", false),
        ("forall (x:Message) { m!(x) }", true),
        ("forall (v:Message) { n!(v) }", false),
        ("forall (x:Message) { let x:Message = f(x, x) in p(x) }", true),
        ("p(try find (x:index) such that { q(zz, x) } then { g(x) } else { g(x) })", false),
        ("p(try find (x:index) such that { q(zz, x) } then { g(x) } else { zz })", true),
        ("(p(try find (x:index) such that { q(zz, x) } then { g(x) } else { zz }) && q(zz, x))", false),
        ("cond!(st(k))", false),
        ("forall (c0:index) { cond!(st(c0)) }", true),
    ];
    let items: Vec<(String, bool)> = bad.iter().map(|(t, ok)| (t.to_string(), *ok)).collect();
    let res = par(&items, |(t, _)| {
        let nm = if t.contains("n!(") { "let n!(x:Message) = (p(x) && p(v))\n" } else { "" };
        let text = format!("type index;\nfun zz:Message\nfun f(Message, Message):Message\nfun g(index):Message\nfun p(Message):Bool\nfun q(Message, index):Bool\nlet m!(y:Message) = exists (x:Message) {{ (x == y) }}\n{nm}step st(k:index)\n    {{ (in == g(k)) }}\n    {{ in }}\nquery (zz == zz)\nassert-crypto nonce;\nassert {t}\n");
        let dir = tempfile::tempdir().unwrap();
        let ps = dir.path().join("o.smt").to_string_lossy().into_owned();
        go(&["to-file", "-o", &ps], &text).map(|_| ()).map_err(|e| e.lines().next().unwrap_or("").to_string())
    });
    for ((t, ok), x) in items.iter().zip(res) {
        rep.check("scope of a name", &format!("{t} gives {x:?}"), x.is_ok() == *ok && !matches!(&x, Err(e) if e == "PANIC"));
    }
}

/// an instance of a written term: variables by `env`, skolem functions by order of appearance
fn inst(s: &S, env: &[(String, String)], sk: &mut Vec<String>) -> String {
    let strip = |x: &str| x.trim_start_matches("eval$").trim_start_matches("ta$").to_string();
    let mut skolem = |h: &str| {
        let k = sk.iter().position(|x| x == h).unwrap_or_else(|| {
            sk.push(h.to_string());
            sk.len() - 1
        });
        format!("S{k}")
    };
    match s {
        S::A(x) if x.contains("sk_") => skolem(x),
        S::A(x) => match env.iter().find(|(v, _)| v == x) {
            Some((_, t)) => t.clone(),
            None if x.contains('X') => "FREE".into(),
            None => strip(x),
        },
        S::L(l) if l.len() == 1 => inst(&l[0], env, sk),
        S::L(l) => match &l[0] {
            S::A(h) if h.contains("sk_") => skolem(h),
            _ => format!("({})", l.iter().map(|x| inst(x, env, sk)).collect::<Vec<_>>().join(" ")),
        },
    }
}
/// the variables and the body of a written formula
fn open(s: &S) -> (Vec<String>, &S) {
    match s {
        S::L(l) if l.len() == 3 && matches!(&l[0], S::A(q) if q == "forall") => match &l[1] {
            S::L(vs) => (vs.iter().filter_map(|v| if let S::L(p) = v { if let S::A(v) = &p[0] { Some(v.clone()) } else { None } } else { None }).collect(), &l[2]),
            _ => (vec![], s),
        },
        _ => (vec![], s),
    }
}
fn head(s: &S) -> &str {
    match s {
        S::A(x) => x,
        S::L(l) if !l.is_empty() => head(&l[0]),
        _ => "",
    }
}

/// the three parts of a `try find` under binders that they refer to
fn find_case(r: &mut Rng) -> Case {
    let mut names = |n: usize, l: &mut Vec<String>| {
        for _ in 0..n {
            let x = r.pick(&["x", "y", "z", "u", "w"]).to_string();
            if !l.contains(&x) {
                l.push(x);
            }
        }
    };
    let (mut outer, mut inner) = (vec!["ii".to_string()], vec![]);
    names(4, &mut outer);
    names(2, &mut inner);
    let o: Vec<(String, String)> = outer.iter().enumerate().map(|(k, x)| (x.clone(), format!("#{k}"))).collect();
    let mut i = o.clone();
    i.extend(inner.iter().map(|x| (x.clone(), format!("?{x}"))));
    let seen = |l: &[(String, String)], r: &mut Rng| {
        let n = r.pick(l).0.clone();
        let t = l.iter().rev().find(|p| p.0 == n).unwrap().1.clone();
        (n, t)
    };
    let (a, b, c, d) = (seen(&i, r), seen(&i, r), seen(&i, r), seen(&i, r));
    let fail = if r.below(4) == 0 { ("zz".to_string(), "zz".to_string()) } else { let e = seen(&o, r); (format!("g({})", e.0), format!("(g {})", e.1)) };
    let bs = |l: &[String]| l.iter().map(|x| format!("{x}:index")).collect::<Vec<_>>().join(", ");
    let text = format!(
        "type index;\nfun zz:Message\nfun f(Message, Message):Message\nfun g(index):Message\nfun p(Message):Bool\nfun q(Message, index):Bool\nquery (zz == zz)\nassert-crypto nonce;\nassert forall ({}) {{ p(try find ({}) such that {{ (q(zz, {}) && q(g({}), {})) }} then {{ f(zz, g({})) }} else {{ {} }}) }}\n",
        bs(&outer), bs(&inner), a.0, b.0, c.0, d.0, fail.0
    );
    // bound names by order of appearance, as the skolem functions
    let mut want = format!("(p (ite (and (q zz {}) (q (g {}) {})) (f zz (g {})) {}))", a.1, b.1, c.1, d.1, fail.1);
    let mut k = 0;
    while let Some(p) = want.find('?') {
        let n: String = want[p + 1..].chars().take_while(|c| c.is_alphanumeric()).collect();
        want = want.replace(&format!("?{n}"), &format!("S{k}"));
        k += 1;
    }
    Case { text, want: vec![want] }
}
fn find_check(c: &Case) -> Vec<String> {
    let dir = tempfile::tempdir().unwrap();
    let ps = dir.path().join("o.smt").to_string_lossy().into_owned();
    if let Err(e) = go(&["to-file", "-o", &ps], &c.text) {
        return vec![format!("failed: {e}")];
    }
    let cmds = match parse(&std::fs::read_to_string(&ps).unwrap_or_default()) {
        Ok(x) => x,
        Err(e) => return vec![e],
    };
    let asserts: Vec<&S> = cmds.iter().filter_map(|c| match c { S::L(l) if head(c) == "assert" && l.len() == 2 => Some(&l[1]), _ => None }).collect();
    let def = asserts.iter().map(|a| open(a)).find_map(|(_, b)| match b {
        S::L(l) if l.len() == 3 && head(b) == "=" && head(&l[1]).contains("find_such_that") => Some((&l[1], &l[2])),
        _ => None,
    });
    let Some((lhs, rhs)) = def else { return vec!["no definition of the find".into()] };
    let params: Vec<String> = match lhs {
        S::L(l) => l[1..].iter().map(|x| head(x).to_string()).collect(),
        _ => vec![],
    };
    let user = asserts.iter().map(|a| open(a)).find(|(_, b)| match b {
        S::L(l) => head(b) == "p" && l.len() == 2 && head(&l[1]).contains("find_such_that"),
        _ => false,
    });
    let Some((vars, S::L(body))) = user else { return vec!["no assertion about the find".into()] };
    let env: Vec<(String, String)> = vars.iter().enumerate().map(|(k, v)| (v.clone(), format!("#{k}"))).collect();
    let mut sk = vec![];
    let args: Vec<String> = match &body[1] {
        S::L(l) => l[1..].iter().map(|x| inst(x, &env, &mut vec![])).collect(),
        _ => vec![],
    };
    if args.len() != params.len() {
        return vec!["the find has another arity".into()];
    }
    let got = format!("(p {})", inst(rhs, &params.into_iter().zip(args).collect::<Vec<_>>(), &mut sk));
    c.want.iter().filter(|w| **w != got).map(|w| format!("it must read {w} but reads {got}")).collect()
}
fn finds(rep: &mut Rep) {
    let mut r = Rng(rep.seed ^ 0xf17d);
    let cs: Vec<Case> = (0..400 * rep.scale).map(|_| find_case(&mut r)).collect();
    let res = par(&cs, find_check);
    for (c, bad) in cs.iter().zip(res) {
        rep.check("names of a find", &format!("{} {}", bad.join("; "), c.text.split("nonce;\n").last().unwrap_or("")), bad.is_empty());
    }
}

pub fn run(rep: &mut Rep) {
    texts(rep);
    outside(rep);
    finds(rep);
}
