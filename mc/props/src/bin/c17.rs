//! C17: the search for the least bound accepted by the external tool.
use mcrt::driver::*;
use props::check16::*;
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;

/// What the stand-in for the tool does at one call.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans {
    Accept,
    Reject,
    /// rejects with one of several verdict lines being positive
    Mixed,
    /// exits with a failure and says nothing
    Die,
    /// killed by a signal half-way
    Kill,
    /// output that is not text
    Garbage,
}
const TOOL: &str = r#"#!/bin/sh
n=$(cat "$FAKE/n" 2>/dev/null); n=$(( ${n:-0} + 1 )); echo $n > "$FAKE/n"
printf '%s|' "$@" >> "$FAKE/calls"; echo >> "$FAKE/calls"
cp "$1" "$FAKE/seen.$n" 2>/dev/null
case "$(sed -n ${n}p "$FAKE/script")" in
A) printf 'CSA: True\nreduced %s-exhaustive: True\n' "$2";;
R) printf 'CSA: False\nreduced %s-exhaustive: False\n' "$2";;
M) printf 'CSA: True\nreduced %s-exhaustive: False\n' "$2";;
D) echo 'no such file' >&2; exit 1;;
K) kill -9 $$;;
G) printf 'CSA: \377\376 True\n';;
*) printf 'CSA: True\n';;
esac
"#;
struct World {
    dir: PathBuf,
}
impl World {
    fn new() -> World {
        let dir = std::env::temp_dir().join(format!("mc17-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        let w = dir.join("mpst_rust_github");
        std::fs::create_dir_all(w.join("outputs")).unwrap();
        std::fs::create_dir_all(dir.join("bin")).unwrap();
        std::fs::create_dir_all(dir.join("fake")).unwrap();
        std::fs::write(dir.join("bin/KMC"), TOOL).unwrap();
        std::fs::set_permissions(dir.join("bin/KMC"), std::fs::Permissions::from_mode(0o755)).unwrap();
        std::env::set_var("PATH", format!("{}:/usr/bin:/bin", dir.join("bin").display()));
        std::env::set_var("FAKE", dir.join("fake"));
        std::env::set_current_dir(&w).unwrap();
        World { dir }
    }
    fn script(&self, a: &[Ans]) {
        let _ = std::fs::remove_dir_all(self.dir.join("fake"));
        std::fs::create_dir_all(self.dir.join("fake")).unwrap();
        let s: String = a.iter().map(|x| format!("{}\n", &format!("{x:?}")[..1])).collect();
        std::fs::write(self.dir.join("fake/script"), s).unwrap();
    }
    fn calls(&self) -> Vec<String> {
        std::fs::read_to_string(self.dir.join("fake/calls")).unwrap_or_default().lines().map(String::from).collect()
    }
    fn seen(&self, n: usize) -> String {
        std::fs::read_to_string(self.dir.join(format!("fake/seen.{n}"))).unwrap_or_default()
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn names() -> Names {
    let p = |a: &str| (a.to_string(), a.to_string());
    Names { roles: ["A", "B", "C"].iter().map(|s| s.to_string()).collect(), payloads: vec![p("i32"), p("u8"), p("bool")], either: false, user: "app::".into(), labels: vec!["Zero".into(), "One".into()] }
}
fn protocols() -> Vec<G> {
    vec![
        msg(0, 1, 0, G::End),
        msg(0, 1, 0, msg(1, 2, 1, msg(2, 0, 2, G::End))),
        G::Choice(0, 1, vec![msg(1, 0, 0, msg(0, 2, 1, G::Ref(0))), msg(2, 1, 2, G::End)]),
    ]
}
type Res = Result<Result<Option<i32>, String>, String>;
fn call(nm: &Names, g: &G, name: &str) -> Res {
    let t = Types::new(nm, g);
    let eps = (0..3).map(|r| t.endpoint(g, r)).collect();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        mpstthree::checking::checker(name, eps, t.branches_receivers.clone(), t.branching_sessions.clone(), t.group_branches.clone())
            .map(|x| x.1)
            .map_err(|e| e.to_string())
    }))
    .map_err(|e| mcrt::rt::panic_text(&e))
}
/// One run against one script of answers; the expected result follows from the script.
fn run(q: &mut Seq, w: &World, nm: &Names, g: &G, name: &str, script: &[Ans]) {
    q.tick();
    if q.failed() {
        return;
    }
    w.script(script);
    let got = call(nm, g, name);
    let k = script.iter().position(|a| !matches!(a, Ans::Reject | Ans::Mixed)).map(|i| i + 1).filter(|k| *k <= 50);
    let want = match k {
        None => Ok(None),
        Some(k) => match script[k - 1] {
            Ans::Accept => Ok(Some(k as i32)),
            _ => Err(()),
        },
    };
    let asked = k.unwrap_or(50);
    let short = |s: &[Ans]| format!("{} x {:?} then {:?}", k.unwrap_or(51) - 1, s.first(), s.get(k.unwrap_or(51).wrapping_sub(1)));
    let case = format!("{} named {name:?}: the tool answers {}", show(g), short(script));
    q.transitions += asked as u64;
    q.states += 1;
    q.compared += 1;
    let ok = match (&got, &want) {
        (Ok(Ok(a)), Ok(b)) => a == b,
        (Ok(Err(_)), Err(())) => true,
        _ => false,
    };
    if !ok {
        return q.fail(format!("result {got:?}, expected {}", match want { Ok(x) => format!("{x:?}"), Err(()) => "an error".into() }), case);
    }
    let calls = w.calls();
    let want_calls: Vec<String> = (1..=asked).map(|k| format!("cfsm/{name}.txt|{k}|--fsm|")).collect();
    if calls != want_calls {
        let i = calls.iter().zip(&want_calls).position(|(a, b)| a != b).unwrap_or(calls.len().min(want_calls.len()));
        return q.fail(format!("call {} of the tool is {:?}, expected {:?}", i + 1, calls.get(i), want_calls.get(i)), case);
    }
    for n in 1..=asked {
        let autos = match of_file(nm, &w.seen(n)) {
            Ok(a) => a,
            Err(e) => return q.fail(format!("automata file at call {n}: {e}"), case),
        };
        for (r, a) in autos.iter().enumerate() {
            let want = reference(nm, g, r, &|s, p, t| format!("{p} {} {t}", if s { "!" } else { "?" }), false);
            if let Err(e) = same(&want, a) {
                return q.fail(format!("automaton {r} at call {n}: {e}"), case);
            }
        }
    }
    q.outcome(&match want { Ok(Some(_)) => "bound".to_string(), Ok(None) => "none".into(), Err(()) => "error".into() });
    q.sample(|| case.clone());
}
/// `k - 1` rejections and then `last`, then answers that must not matter.
fn script(k: usize, rej: Ans, last: Ans, after: Ans) -> Vec<Ans> {
    let mut v = vec![rej; k - 1];
    v.push(last);
    v.extend(vec![after; 60 - k.min(60)]);
    v
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let th = t == Tier::Thorough;
    let mut v = vec![];
    for (i, g) in protocols().into_iter().enumerate() {
        if i > 0 && !th && i != 2 {
            continue;
        }
        for (rej, after) in [(Ans::Reject, Ans::Accept), (Ans::Mixed, Ans::Reject)] {
            for last in [Ans::Accept, Ans::Die, Ans::Kill, Ans::Garbage] {
                if last != Ans::Accept && (i > 0 || rej == Ans::Mixed) && !th {
                    continue;
                }
                let g = g.clone();
                v.push(Scenario::seq(format!("protocol {i}: first {last:?} after {rej:?} at each bound"), move |q: &mut Seq| {
                    let (w, nm) = (World::new(), names());
                    for k in 1..=51 {
                        run(q, &w, &nm, &g, "case", &script(k, rej, last, after))
                    }
                }));
            }
        }
    }
    // histories of two runs, the second on another protocol of the same or another name
    v.push(Scenario::seq("two runs", move |q: &mut Seq| {
        let (w, nm) = (World::new(), names());
        let ks: Vec<usize> = if th { (1..=12).chain([49, 50, 51]).collect() } else { vec![1, 2, 3, 50, 51] };
        for a in &ks {
            for b in &ks {
                for second in ["case", "other_2"] {
                    run(q, &w, &nm, &protocols()[2], "case", &script(*a, Ans::Reject, Ans::Accept, Ans::Accept));
                    run(q, &w, &nm, &protocols()[0], second, &script(*b, Ans::Mixed, Ans::Accept, Ans::Reject));
                }
            }
        }
    }));
    // all patterns of answers of the first calls
    v.push(Scenario::seq("all answers of the first calls", move |q: &mut Seq| {
        let (w, nm) = (World::new(), names());
        let alph = [Ans::Accept, Ans::Reject, Ans::Mixed, Ans::Die, Ans::Kill, Ans::Garbage];
        let len = if th { 4 } else { 3 };
        for mut i in 0..alph.len().pow(len) {
            let mut s = vec![];
            for _ in 0..len {
                s.push(alph[i % alph.len()]);
                i /= alph.len();
            }
            s.extend(vec![Ans::Accept; 56]);
            run(q, &w, &nm, &protocols()[1], "case", &s)
        }
    }));
    v.push(Scenario::seq("without a file name, or without the tool", move |q: &mut Seq| {
        for g in protocols() {
            let (w, nm) = (World::new(), names());
            w.script(&[Ans::Accept; 60]);
            q.compared += 2;
            q.states += 2;
            let got = call(&nm, &g, "");
            if !matches!(got, Ok(Ok(None))) || !w.calls().is_empty() || std::path::Path::new("cfsm").exists() {
                return q.fail(format!("without a name: result {got:?}, calls {:?}", w.calls()), show(&g));
            }
            std::fs::remove_file(w.dir.join("bin/KMC")).unwrap();
            let got = call(&nm, &g, "case");
            if !matches!(got, Ok(Err(_))) {
                return q.fail(format!("without the tool: result {got:?}, expected an error"), show(&g));
            }
            q.transitions += 1;
        }
    }));
    v
}
fn main() {
    mcrt::driver::main(Check {
        property: "C17",
        rule: "the real checker against a stand-in for the external tool: every position of the first accepting or failing call (1..50, none), every pattern of answers of the first calls, pairs of runs; the calls received, the file seen at each call and the result are compared with the reference search",
        assumptions: &["the external tool is replaced with a script; its verdict is read from its standard output as the code documents"],
        scenarios,
    })
}
