//! outcome of a run against stand-in solvers answering in every way, in every order
use crate::{e2e::*, util::*};
use cryptovampire::Return;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ans {
    Sat,
    Unsat,
    Fail,
    Pass, // timeout, unknown, killed: decides nothing
    Stuck, // vampire timeout without anything new to learn: an error, but only once every solver is done
}

fn z3_behaviours() -> Vec<(&'static str, &'static str, Ans)> {
    vec![
        ("unsat", "echo unsat", Ans::Unsat),
        ("unsat after noise", "echo 'sat'; echo '  unsat  '", Ans::Unsat),
        ("sat", "echo sat", Ans::Sat),
        ("sat after unsat", "echo unsat; echo sat", Ans::Sat),
        ("timeout", "echo timeout", Ans::Pass),
        ("timeout after unsat", "echo unsat; echo timeout", Ans::Pass),
        ("unknown", "echo unknown", Ans::Pass),
        ("unknown after unsat", "echo unsat; echo unknown", Ans::Pass),
        ("almost unsat", "echo 'unsat.'", Ans::Pass),
        ("UNSAT", "echo UNSAT", Ans::Pass),
        ("trailing blank line", "printf 'unsat\\n\\n'", Ans::Pass),
        ("no output", "true", Ans::Fail),
        ("exit 1 unsat", "echo unsat; exit 1", Ans::Fail),
        ("exit 1 timeout", "echo timeout; exit 1", Ans::Fail),
        ("exit 110", "exit 110", Ans::Fail),
        ("killed", "echo unsat; kill -9 $$", Ans::Pass),
        ("terminated", "echo sat; kill -TERM $$", Ans::Pass),
    ]
}

fn vampire_behaviours() -> Vec<(&'static str, &'static str, Ans)> {
    vec![
        ("exit 0", "exit 0", Ans::Unsat),
        ("exit 0 saying sat", "echo sat; exit 0", Ans::Unsat),
        ("exit 1", "echo unsat; exit 1", Ans::Stuck),
        ("exit 2", "echo unsat; exit 2", Ans::Fail),
        ("exit 3", "exit 3", Ans::Fail),
        ("exit 255", "exit 255", Ans::Fail),
        ("killed", "echo unsat; kill -9 $$", Ans::Pass),
    ]
}

/// expected: Ok / Err(substring)
fn expect(order: &[Ans]) -> Result<(), &'static str> {
    for a in order {
        match a {
            Ans::Unsat => return Ok(()),
            Ans::Sat => return Err("disprove"),
            Ans::Fail => return Err(""),
            _ => (),
        }
    }
    if order.contains(&Ans::Stuck) {
        return Err("no new instances");
    }
    Err("ran out of tries")
}

struct Case {
    name: String,
    z3: Option<(String, Ans)>,
    vampire: Option<(String, Ans)>,
    z3_first: bool,
    tries: usize,
}

fn judge(c: &Case, (r, n): (Result<Return, String>, usize)) -> Vec<(&'static str, String, bool)> {
    let mut order: Vec<Ans> = vec![];
    if let Some(z) = &c.z3 {
        order.push(z.1);
    }
    if let Some(v) = &c.vampire {
        if c.z3_first { order.push(v.1) } else { order.insert(0, v.1) }
    }
    let e = expect(&order);
    let key = format!("{} -> {:?} after {n} solver runs", c.name, r.as_ref().map(|_| "proven").map_err(|e| e.chars().take(120).collect::<String>()));
    let mut out = vec![];
    match (&e, &r) {
        (Ok(()), Ok(Return::AutoRun(l))) => {
            out.push(("proven", key.clone(), l.len() == 1));
            if c.vampire.is_none() {
                out.push(("tries counted", key, l[0].num_tries() as usize == n));
            }
        }
        (Err(s), Err(m)) => {
            let m = m.to_lowercase();
            out.push(("not proven", key.clone(), !m.contains("panic") && m.contains(s)));
            if *s == "ran out of tries" && c.vampire.is_none() {
                out.push(("as many tries as requested", key, n == c.tries && m.contains(&c.tries.to_string())));
            } else if *s == "" {
                out.push(("failure stops the run", key, n <= 2 && !m.contains("ran out of tries") && !m.contains("disprove")));
            }
        }
        _ => out.push(("outcome", key, false)),
    }
    out
}

pub fn run(rep: &mut Rep) {
    let mut cases = vec![];
    for (zn, zb, za) in z3_behaviours() {
        cases.push(Case { name: format!("z3 alone: {zn}"), z3: Some((zb.into(), za)), vampire: None, z3_first: true, tries: 3 });
    }
    for (vn, vb, va) in vampire_behaviours() {
        cases.push(Case { name: format!("vampire alone: {vn}"), z3: None, vampire: Some((vb.into(), va)), z3_first: true, tries: 2 });
    }
    let mut g = Rng(rep.seed ^ 0xC01);
    let (zs, vs) = (z3_behaviours(), vampire_behaviours());
    for (i, (zn, zb, za)) in zs.iter().enumerate() {
        for (j, (vn, vb, va)) in vs.iter().enumerate() {
            for z3_first in [true, false] {
                // the decisive pairs always, the others by sampling
                let key = (*za != Ans::Pass && i < 4) || (i == 4 && j < 4);
                if !key && rep.scale < 8 && g.below(8) != 0 {
                    continue;
                }
                cases.push(Case {
                    name: format!("z3 {zn}, vampire {vn}, {} first", if z3_first { "z3" } else { "vampire" }),
                    z3: Some((zb.to_string(), *za)),
                    vampire: Some((vb.to_string(), *va)),
                    z3_first,
                    tries: 1,
                });
            }
        }
    }
    // proved at the k-th try
    for k in 1..=4usize {
        cases.push(Case {
            name: format!("z3 alone: unsat at try {k} of 3"),
            z3: Some((format!("if [ $(wc -l < LOG) -ge {k} ]; then echo unsat; else echo unknown; fi"), if k <= 3 { Ans::Unsat } else { Ans::Pass })),
            vampire: None,
            z3_first: true,
            tries: 3,
        });
    }
    let exec = |c: &Case, delay: &str| {
        let dir = tempfile::tempdir().unwrap();
        let log = dir.path().join("rounds");
        let mark = dir.path().join("mark");
        let both = c.z3.is_some() && c.vampire.is_some();
        // the second solver answers well after the first one did
        let order = |first: bool| {
            if !both {
                String::new()
            } else if first {
                format!("touch {}\n", mark.display())
            } else {
                format!("n=0; while [ ! -e {} ] && [ $n -lt 200 ]; do sleep 0.05; n=$((n+1)); done; sleep {delay}\n", mark.display())
            }
        };
        let mk = |name: &str, b: &Option<(String, Ans)>, first: bool| {
            let body = b.as_ref().map(|x| x.0.replace("LOG", &log.to_string_lossy())).unwrap_or_default();
            script(dir.path(), name, &format!("echo {name} >> {}\n{}{body}", log.display(), order(first)))
        };
        let z = mk("z3", &c.z3, c.z3_first);
        let v = mk("vampire", &c.vampire, !c.z3_first);
        let tries = c.tries.to_string();
        let mut args = vec!["auto", "--num-of-retry", &tries, "--timeout", "5", "--z3-location", &z, "--vampire-location", &v, "--disable-cvc5"];
        if c.z3.is_none() {
            args.push("--disable-z3");
        }
        if c.vampire.is_none() {
            args.push("--disable-vampire");
        }
        let r = go(&args, PBL);
        let n = std::fs::read_to_string(&log).unwrap_or_default().lines().count();
        (r, n)
    };
    let results = par(&cases, |c| {
        let r = judge(c, exec(c, "0.3"));
        if r.iter().all(|x| x.2) {
            return r;
        }
        // a loaded machine may reorder the answers: once more with more time between them
        judge(c, exec(c, "3"))
    });
    for r in results {
        for (what, key, ok) in r {
            rep.check(what, &key, ok);
        }
    }
    // histories: what each solver answers round after round, at most one of them decides in a given round
    let shell = |z3: bool, a: Ans| match (z3, a) {
        (true, Ans::Sat) => "echo sat",
        (true, Ans::Unsat) => "echo unsat",
        (_, Ans::Fail) => "exit 3",
        (true, Ans::Stuck) => "echo timeout",
        (true, Ans::Pass) => "echo unknown",
        (false, Ans::Unsat) => "exit 0",
        (false, _) => "kill -9 $$",
    };
    let mut hist: Vec<(Vec<Ans>, Option<Vec<Ans>>, usize)> = vec![];
    for pre in 0..=3usize {
        for dec in [Ans::Sat, Ans::Unsat, Ans::Fail, Ans::Pass] {
            for after in [Ans::Unsat, Ans::Sat] {
                let mut z: Vec<Ans> = (0..pre).map(|i| if i % 2 == 0 { Ans::Stuck } else { Ans::Pass }).collect();
                z.push(dec);
                z.push(after);
                hist.push((z.clone(), None, pre + 2));
                hist.push((z.clone(), None, pre + 1));
                hist.push((z.clone(), Some(vec![Ans::Pass; pre + 2]), pre + 2));
                if dec != Ans::Sat && after != Ans::Sat {
                    let v = z.iter().map(|a| if *a == Ans::Stuck { Ans::Pass } else { *a }).collect();
                    hist.push((vec![Ans::Pass; pre + 2], Some(v), pre + 2));
                }
            }
        }
    }
    let res = par(&hist, |(z, v, tries)| {
        let dir = tempfile::tempdir().unwrap();
        let mk = |name: &str, l: &[Ans]| {
            let log = dir.path().join(format!("{name}.log"));
            let log = log.display();
            let cases: String = l.iter().enumerate().map(|(i, a)| format!("{}) {};;\n", i + 1, shell(name == "z3", *a))).collect();
            script(dir.path(), name, &format!("echo x >> {log}\ncase $(wc -l < {log}) in\n{cases}*) exit 4;;\nesac"))
        };
        let zs = mk("z3", z);
        let vs = mk("vampire", v.as_deref().unwrap_or(&[]));
        let t = tries.to_string();
        let mut args = vec!["auto", "--num-of-retry", &t, "--timeout", "5", "--z3-location", &zs, "--vampire-location", &vs, "--disable-cvc5"];
        if v.is_none() {
            args.push("--disable-vampire");
        }
        let r = go(&args, PBL);
        let count = |n: &str| std::fs::read_to_string(dir.path().join(format!("{n}.log"))).unwrap_or_default().lines().count();
        // the first round in which some solver decides
        let round = |k: usize| {
            let l = [z.get(k).copied(), v.as_ref().and_then(|v| v.get(k).copied())];
            l.into_iter().flatten().find(|a| matches!(a, Ans::Sat | Ans::Unsat | Ans::Fail))
        };
        let dec = (0..*tries).find_map(|k| round(k).map(|a| (k + 1, a)));
        let key = format!("z3 {z:?} vampire {v:?} {tries} tries: {} z3 runs -> {:?}", count("z3"), r.as_ref().map(|_| "proven").map_err(|e| e.chars().take(60).collect::<String>()));
        let ran = if v.is_none() { count("z3") == dec.map(|d| d.0).unwrap_or(*tries) } else { count("z3").max(count("vampire")) == dec.map(|d| d.0).unwrap_or(*tries) };
        let ok = match (dec, &r) {
            (Some((k, Ans::Unsat)), Ok(Return::AutoRun(l))) => l.len() == 1 && l[0].num_tries() as usize == k,
            (Some((_, Ans::Sat)), Err(m)) => m.to_lowercase().contains("disprove"),
            (Some((_, Ans::Fail)), Err(m)) => !m.contains("PANIC") && !m.to_lowercase().contains("out of tries") && !m.to_lowercase().contains("disprove"),
            (None, Err(m)) => m.to_lowercase().contains("ran out of tries"),
            _ => false,
        };
        (key, ok, ran)
    });
    for (key, ok, ran) in res {
        rep.check("outcome of a history of rounds", &key, ok);
        rep.check("rounds run", &key, ran);
    }
    // no solver at all
    for a in [["auto", "--disable-z3", "--disable-vampire"], ["auto", "--z3-location=/nonexistent/z3", "--vampire-location=/nonexistent/vampire"]] {
        let r = go(&a, PBL);
        rep.check("without a solver nothing is proven", &format!("{a:?} {:?}", r.as_ref().err().map(|s| s.chars().take(100).collect::<String>())), matches!(&r, Err(m) if !m.contains("PANIC")));
    }
}
