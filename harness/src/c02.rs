//! sub-problems of a file with lemmas: order, what each may assume, early stop
use crate::{e2e::*, util::*};
use cryptovampire::Return;
use std::path::Path;

/// positions (in the SMT text) of the asserted facts and of the negated goal, by marker
#[derive(Debug, PartialEq, Clone)]
struct Sub {
    /// markers asserted, in order
    assumed: Vec<String>,
    /// markers asserted negated, in order
    goals: Vec<String>,
    checks: usize,
    last_is_check: bool,
}

fn commands(s: &str) -> Vec<String> {
    let (mut out, mut cur, mut depth) = (vec![], String::new(), 0i32);
    for l in s.lines() {
        if l.trim_start().starts_with(';') {
            continue;
        }
        for c in l.chars() {
            if depth > 0 || c == '(' {
                cur.push(c);
            }
            match c {
                '(' => depth += 1,
                ')' => {
                    depth -= 1;
                    if depth == 0 {
                        out.push(std::mem::take(&mut cur));
                    }
                }
                _ => (),
            }
        }
        if depth > 0 {
            cur.push(' ');
        }
    }
    out
}

/// only formulas shaped as the user's ones: (forall ((MX0 Message) ) (or (marker MX0 ) false ))
fn marker(body: &str) -> Option<String> {
    let words: Vec<&str> = body.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '$')).filter(|w| !w.is_empty()).collect();
    if words.iter().any(|w| w.contains("subterm") || w.starts_with("eval$")) {
        return None;
    }
    let ms: Vec<&&str> = words.iter().filter(|w| **w == "goal" || **w == "usr" || (w.starts_with("lem") && w.ends_with('x'))).collect();
    match ms.len() {
        0 => None,
        1 if words[0] == "forall" => Some(ms[0].to_string()),
        _ => Some(format!("?{body}")),
    }
}

fn read(text: &str) -> Sub {
    let cmds = commands(text);
    let mut s = Sub { assumed: vec![], goals: vec![], checks: 0, last_is_check: cmds.last().map(|c| c.starts_with("(check-sat")).unwrap_or(false) };
    for c in &cmds {
        if c.starts_with("(check-sat") {
            s.checks += 1;
        } else if let Some(b) = c.strip_prefix("(assert ") {
            if let Some(b) = b.strip_prefix("(not ") {
                s.goals.extend(marker(b));
            } else {
                s.assumed.extend(marker(b));
            }
        } else if c.starts_with("(assert") {
            s.goals.extend(marker(c).map(|m| format!("!{m}")));
        }
    }
    s
}

/// the sub-problems a file with n lemmas must produce
fn expected(n: usize, lemmas: bool) -> Vec<Sub> {
    let mk = |k: usize, goal: String| Sub {
        assumed: std::iter::once("usr".to_string()).chain((0..k).map(|j| format!("lem{j}x"))).collect(),
        goals: vec![goal],
        checks: 1,
        last_is_check: true,
    };
    if lemmas {
        (0..n).map(|k| mk(k, format!("lem{k}x"))).chain([mk(n, "goal".into())]).collect()
    } else {
        vec![mk(0, "goal".into())]
    }
}

fn read_dir(dir: &Path) -> Vec<Sub> {
    let n = std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0);
    (0..n).map(|k| std::fs::read_to_string(dir.join(format!("{k}.smt"))).map(|s| read(&s)).unwrap_or(Sub { assumed: vec![], goals: vec!["missing".into()], checks: 0, last_is_check: false })).collect()
}

struct Case {
    n: usize,
    /// extra arguments
    extra: Vec<String>,
    lemmas: bool,
    /// the solver's answer for each call
    answers: Vec<&'static str>,
    tries: usize,
}

pub fn run(rep: &mut Rep) {
    let flags: Vec<Vec<String>> = [vec![], vec!["--symbolic"], vec!["--skolemnise"], vec!["--no-preprocessing"]].iter().map(|v| v.iter().map(|s| s.to_string()).collect()).collect();
    let max = if rep.scale >= 8 { 9 } else { 5 };
    // written to files
    let mut items = vec![];
    for n in 0..=max {
        for f in &flags {
            items.push((n, f.clone()));
        }
    }
    let res = par(&items, |(n, f)| {
        let text = with_lemmas(*n);
        let mut out = vec![];
        let base: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
        {
            let dir = tempfile::tempdir().unwrap();
            let p = dir.path().join("out");
            let ps = p.to_string_lossy().into_owned();
            let mut a = base.clone();
            a.extend(["to-file", "--lemmas", "-o", &ps]);
            let r = go(&a, &text);
            let got = read_dir(&p);
            let e = expected(*n, true);
            out.push(("sub-problem files with lemmas", format!("{n} lemmas {f:?}: {:?} got {:?}", r.is_ok(), got), matches!(r, Ok(Return::ToFile(_))) && got == e));
        }
        {
            let dir = tempfile::tempdir().unwrap();
            let p = dir.path().join("out.smt");
            let ps = p.to_string_lossy().into_owned();
            let mut a = base.clone();
            a.extend(["to-file", "-o", &ps]);
            let r = go(&a, &text);
            let got = vec![read(&std::fs::read_to_string(&p).unwrap_or_default())];
            let files = std::fs::read_dir(dir.path()).map(|d| d.count()).unwrap_or(0);
            out.push(("single problem file without lemmas", format!("{n} lemmas {f:?}: {files} files {got:?}"), r.is_ok() && files == 1 && got == expected(*n, false)));
        }
        out
    });
    for r in res {
        for (w, k, ok) in r {
            rep.check(w, &k, ok);
        }
    }
    // the same statement several times
    let mut reps: Vec<Vec<String>> = vec![];
    let pool = ["lem0x", "lem1x", "goal", "usr"];
    for n in 2..=4usize {
        for code in 0..pool.len().pow(n as u32) {
            let l: Vec<String> = (0..n).map(|k| pool[code / pool.len().pow(k as u32) % pool.len()].to_string()).collect();
            let distinct: std::collections::HashSet<_> = l.iter().collect();
            if n < 4 || distinct.len() <= 2 || rep.scale >= 8 {
                reps.push(l);
            }
        }
    }
    let res = par(&reps, |l| {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("out");
        let ps = p.to_string_lossy().into_owned();
        let r = go(&["to-file", "--lemmas", "-o", &ps], &with_statements(l, "goal"));
        let got = read_dir(&p);
        let e: Vec<Sub> = (0..=l.len())
            .map(|k| Sub { assumed: std::iter::once("usr".to_string()).chain(l[..k].iter().cloned()).collect(), goals: vec![l.get(k).cloned().unwrap_or("goal".into())], checks: 1, last_is_check: true })
            .collect();
        (format!("lemmas {l:?}: {:?} {got:?}", r.is_ok()), r.is_ok() && got == e)
    });
    for (k, ok) in res {
        rep.check("sub-problems of repeated statements", &k, ok);
    }
    // handed to a solver
    let mut cases = vec![];
    for n in 0..=max {
        for (flag, lemmas) in [("--lemmas", true), ("", false), ("--ignore-lemmas", false), ("--lemmas --ignore-lemmas", false)] {
            let extra: Vec<String> = flag.split_whitespace().map(|s| s.to_string()).collect();
            let total = if lemmas { n + 1 } else { 1 };
            cases.push(Case { n, extra: extra.clone(), lemmas, answers: vec!["unsat"; total], tries: 1 });
            for k in 0..total {
                for bad in ["sat", "", "unknown"] {
                    if bad == "unknown" && k % 2 == 1 && rep.scale < 8 {
                        continue;
                    }
                    let mut a = vec!["unsat"; total];
                    a[k] = bad;
                    cases.push(Case { n, extra: extra.clone(), lemmas, answers: a, tries: 1 });
                }
                // proved at the second try
                let mut a: Vec<&str> = vec!["unsat"; total];
                a.insert(k, "unknown");
                cases.push(Case { n, extra: extra.clone(), lemmas, answers: a, tries: 2 });
            }
        }
    }
    let res = par(&cases, |c| {
        let dir = tempfile::tempdir().unwrap();
        let d = dir.path().join("calls");
        std::fs::create_dir(&d).unwrap();
        let ds = d.to_string_lossy();
        let body = format!(
            "n=$(ls {ds} | wc -l)\nfor f in \"$@\"; do if [ -f \"$f\" ]; then cp \"$f\" {ds}/$n.smt; fi; done\ncase $n in\n{}*) echo unsat;;\nesac\n",
            c.answers.iter().enumerate().map(|(i, a)| format!("{i}) {};;\n", if a.is_empty() { "exit 3".to_string() } else { format!("echo {a}") })).collect::<String>()
        );
        let z = script(dir.path(), "z3", &body);
        let tries = c.tries.to_string();
        let mut args = vec!["auto"];
        args.extend(c.extra.iter().map(|s| s.as_str()));
        args.extend(["--num-of-retry", &tries, "--timeout", "5", "--z3-location", &z, "--disable-vampire", "--disable-cvc5"]);
        let r = go(&args, &with_lemmas(c.n));
        let got = read_dir(&d);
        // what must have happened
        let exp = expected(c.n, c.lemmas);
        let (mut calls, mut ok, mut i, mut left) = (vec![], true, 0, c.tries);
        for a in &c.answers {
            if i >= exp.len() {
                break;
            }
            calls.push(exp[i].clone());
            match *a {
                "unsat" => {
                    i += 1;
                    left = c.tries;
                }
                "unknown" if left > 1 => left -= 1,
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        let key = format!("{} lemmas {:?} answers {:?}: {} calls {:?} -> {:?}", c.n, c.extra, c.answers, got.len(), got.iter().map(|s| format!("{}|-{}", s.assumed.join(","), s.goals.join(","))).collect::<Vec<_>>(), r.as_ref().map(|_| "proven").map_err(|e| e.chars().take(80).collect::<String>()));
        let fine = match &r {
            Ok(Return::AutoRun(l)) => ok && l.len() == exp.len(),
            Ok(_) => false,
            Err(m) => !ok && !m.contains("PANIC"),
        };
        vec![("problems given to the solver, in order, until one fails", key.clone(), got == calls), ("outcome of the whole run", key, fine)]
    });
    for r in res {
        for (w, k, ok) in r {
            rep.check(w, &k, ok);
        }
    }
}
