//! end-to-end runs of the library with stand-in solvers (shell scripts inside a scratch directory)
use clap::Parser;
use cryptovampire::{cli::Args, run_from_cv, Return};
use std::{fs, os::unix::fs::PermissionsExt, path::Path};

pub const PBL: &str = r#"
type index;
fun hash(Message, Message):Message
fun verify(Message, Message, Message):Bool
fun key:Name
fun fresh:Name
step t(i:index)
    { true }
    { hash(input(t(i)), key) }
query forall (s:Step) {( happens(s) => (input(s) != key) )}
assert-crypto euf-cma hash verify;
assert-crypto nonce;
assert forall (s:Message, m:Message, k:Message) { (verify(s, m, k) <=> (s == hash(m, k))) }
"#;

/// a problem with `n` lemmas, lemma k talking about the function `lemK`, the query about `goal`
pub fn with_lemmas(n: usize) -> String {
    with_statements(&(0..n).map(|k| format!("lem{k}x")).collect::<Vec<_>>(), "goal")
}

/// a problem with the given lemmas and query, each statement being about the given function
pub fn with_statements(lemmas: &[String], query: &str) -> String {
    let mut s = String::from("type index;\nfun hash(Message, Message):Message\nfun verify(Message, Message, Message):Bool\nfun key:Name\nfun goal(Message):Bool\nfun usr(Message):Bool\n");
    for k in 0..lemmas.len() {
        s += &format!("fun lem{k}x(Message):Bool\n");
    }
    s += "step t(i:index)\n    { true }\n    { hash(input(t(i)), key) }\n";
    s += &format!("query forall (m:Message) {{( {query}(m) || false )}}\nassert-crypto nonce;\nassert forall (m:Message) {{( usr(m) || false )}}\n");
    for l in lemmas {
        s += &format!("lemma forall (m:Message) {{( {l}(m) || false )}}\n");
    }
    s
}

/// the executable of every stand-in solver; it is written once, before any thread starts, because a file that a
/// concurrently forked process still holds open for writing cannot be executed
fn stub() -> &'static Path {
    static STUB: std::sync::OnceLock<(tempfile::TempDir, std::path::PathBuf)> = std::sync::OnceLock::new();
    &STUB
        .get_or_init(|| {
            let d = tempfile::tempdir().unwrap();
            let p = d.path().join("stub");
            fs::write(&p, "#!/bin/sh\n. \"$0.body\"\n").unwrap();
            fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).unwrap();
            (d, p)
        })
        .1
}

pub fn init() {
    stub();
}

pub fn cleanup() {
    let _ = fs::remove_dir_all(stub().parent().unwrap());
}

pub fn script(dir: &Path, name: &str, body: &str) -> String {
    let p = dir.join(name);
    fs::write(dir.join(format!("{name}.body")), format!("{body}\n")).unwrap();
    std::os::unix::fs::symlink(stub(), &p).unwrap();
    p.to_string_lossy().into_owned()
}

pub fn go(args: &[&str], text: &str) -> Result<Return, String> {
    let args = Args::try_parse_from(std::iter::once("cryptovampire").chain(args.iter().copied())).map_err(|e| format!("ARGS {e}"))?;
    std::panic::catch_unwind(|| run_from_cv(args, text).map_err(|e| format!("{e}"))).unwrap_or_else(|_| Err("PANIC".into()))
}

/// run `f` on every item with a few threads, keeping the order of the results
pub fn par<T: Send + Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    use std::sync::{atomic::{AtomicUsize, Ordering}, Mutex};
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= items.len() {
                    break;
                }
                let r = f(&items[i]);
                out.lock().unwrap().push((i, r));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
