//! C20: what the external validator sees, and what its verdict decides.
use mcrt::driver::*;
use props::nuscr::*;
use std::os::unix::fs::PermissionsExt;

/// What the stand-in for nuscr does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum V {
    Accept,
    Refuse,
    /// succeeds without an answer
    Silent,
    /// prints something and fails
    Noisy,
    /// prints something and is killed
    Killed,
    Missing,
    /// not even a shell
    NoShell,
}
const TOOL: &str = r#"#!/bin/sh
printf '%s\n' "$@" > "$FAKE/args"
echo x >> "$FAKE/calls"
for a; do f=$a; done
cp "$f" "$FAKE/seen" 2>/dev/null
ls ../out > "$FAKE/out"
case "$(cat "$FAKE/verdict")" in
Accept) echo '(ok)';;
Refuse) echo 'bad protocol' >&2; exit 1;;
Silent) exit 0;;
Noisy) echo '(half'; exit 1;;
Killed) echo '(half'; kill -9 $$;;
esac
"#;
struct Tool {
    w: World,
}
impl Tool {
    fn new() -> Tool {
        let w = World::new("c20");
        std::fs::create_dir_all(w.dir.join("bin")).unwrap();
        std::env::set_var("FAKE", w.dir.join("fake"));
        Tool { w }
    }
    fn set(&self, v: V) {
        let d = &self.w.dir;
        let _ = std::fs::remove_dir_all(d.join("fake"));
        std::fs::create_dir_all(d.join("fake")).unwrap();
        std::fs::write(d.join("fake/verdict"), format!("{v:?}")).unwrap();
        let tool = d.join("bin/nuscr");
        if v == V::Missing {
            let _ = std::fs::remove_file(&tool);
        } else if !tool.exists() {
            std::fs::write(&tool, TOOL).unwrap();
            std::fs::set_permissions(&tool, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        std::env::set_var("PATH", if v == V::NoShell { d.join("none").display().to_string() } else { format!("{}:/usr/bin:/bin", d.join("bin").display()) });
    }
    fn fake(&self, f: &str) -> Option<String> {
        std::fs::read_to_string(self.w.dir.join("fake").join(f)).ok()
    }
}
fn one(q: &mut Seq, t: &Tool, p: &Proto, st: Style, v: V) {
    one_(q, t, p, st, v, p.verdict())
}
fn one_(q: &mut Seq, t: &Tool, p: &Proto, st: Style, v: V, well_formed: Option<bool>) {
    q.tick();
    if q.failed() {
        return;
    }
    t.set(v);
    let text = p.text(st);
    let r = t.w.generate(&text, true);
    q.states += 1;
    q.compared += 1;
    let case = format!("the validator {v:?}s; {text}");
    let left: Vec<_> = std::fs::read_dir(t.w.dir.join("work")).unwrap().flatten().map(|e| e.file_name()).collect();
    if !left.is_empty() {
        for f in &left {
            let _ = std::fs::remove_file(t.w.dir.join("work").join(f));
        }
        return q.fail(format!("the temporary file is left: {left:?}"), case);
    }
    if !matches!(v, V::Missing | V::NoShell) {
        q.transitions += 1;
        if t.fake("calls").unwrap_or_default().lines().count() != 1 {
            return q.fail("the validator was not called exactly once", case);
        }
        let args: Vec<String> = t.fake("args").unwrap_or_default().lines().map(String::from).collect();
        if args.len() != 2 || args[0] != format!("--generate-sexp={}", p.name) {
            return q.fail(format!("the validator was called with {args:?}"), case);
        }
        let seen = t.fake("seen").unwrap_or_default();
        // the grammar allows a comma after the last role
        let mut ws = words(&seen);
        if let Some(i) = ws.windows(2).position(|w| w[0] == "," && w[1] == ")") {
            ws.remove(i);
        }
        if ws != p.untimed_words() {
            return q.fail(format!("the validator was given {seen:?}"), case);
        }
        if !t.fake("out").unwrap_or_default().is_empty() {
            return q.fail("the generation had begun before the validator answered", case);
        }
    }
    q.outcome(format!("{v:?} {}", r.is_ok()));
    if v != V::Accept {
        if r.is_ok() || !t.w.outputs().is_empty() {
            return q.fail(format!("the generation went on: {}", r.is_ok()), case);
        }
    } else if well_formed == Some(true) {
        match r {
            Ok(Some(f)) => {
                if let Err(e) = check(p, &f) {
                    return q.fail(e, case);
                }
            }
            r => return q.fail(format!("the generation failed after the validator accepted: {r:?}"), case),
        }
    } else if well_formed == Some(false) && r.is_ok() {
        return q.fail("an ill-formed description was accepted", case);
    }
    q.sample(|| case);
}
/// A validator that reads its file, and later answers, exactly when it is told to.
const SLOW: &str = r#"#!/bin/sh
n=${1#--generate-sexp=}
wait_for() { i=0; while [ ! -e "$FAKE/$n.$1" ] && [ $i -lt 4000 ]; do sleep 0.002; i=$((i+1)); done; }
for a; do f=$a; done
echo "$f" > "$FAKE/$n.started"
wait_for read
cp "$f" "$FAKE/$n.copy" 2>/dev/null || : > "$FAKE/$n.copy"
mv "$FAKE/$n.copy" "$FAKE/$n.seen"
wait_for answer
case "$(cat "$FAKE/$n.verdict")" in
Accept) echo '(ok)';;
*) echo 'bad protocol' >&2; exit 1;;
esac
"#;
/// Several generations with validation at once, in one process: `order` says whose next event is let
/// happen (start up to the call of the validator, reading of the file, answer up to the return).
fn together(q: &mut Seq, t: &Tool, ps: &[Proto], vs: &[V], order: &[usize]) {
    q.tick();
    if q.failed() {
        return;
    }
    let d = t.w.dir.clone();
    let (fake, out, work) = (d.join("fake"), d.join("out"), d.join("work"));
    for x in [&fake, &out] {
        let _ = std::fs::remove_dir_all(x);
        std::fs::create_dir_all(x).unwrap();
    }
    std::fs::write(d.join("bin/nuscr"), SLOW).unwrap();
    std::fs::set_permissions(d.join("bin/nuscr"), std::fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("PATH", format!("{}:/usr/bin:/bin", d.join("bin").display()));
    let mut threads: Vec<Option<std::thread::JoinHandle<Result<(), String>>>> = ps.iter().map(|_| None).collect();
    let mut step = vec![0; ps.len()];
    let mut results: Vec<Option<Result<(), String>>> = ps.iter().map(|_| None).collect();
    let case = format!("events of {order:?}; {vs:?}; {}", ps.iter().map(|p| p.text(Style::Repo)).collect::<Vec<_>>().join("\n"));
    let wait = |f: &str, h: &std::thread::JoinHandle<Result<(), String>>| {
        for _ in 0..10_000 {
            if fake.join(f).exists() || h.is_finished() {
                return;
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
    };
    for &i in order {
        let n = &ps[i].name;
        match step[i] {
            0 => {
                std::fs::write(fake.join(format!("{n}.verdict")), format!("{:?}", vs[i])).unwrap();
                let input = d.join(format!("in{i}.nuscr"));
                std::fs::write(&input, ps[i].text(Style::Repo)).unwrap();
                let (a, b) = (input.to_str().unwrap().to_string(), format!("{}/", out.display()));
                let h = std::thread::spawn(move || mpstthree::top_down_nuscr::generator::generator(&a, &b, true).map_err(|e| e.to_string()));
                wait(&format!("{n}.started"), &h);
                threads[i] = Some(h);
            }
            1 => {
                std::fs::write(fake.join(format!("{n}.read")), "").unwrap();
                wait(&format!("{n}.seen"), threads[i].as_ref().unwrap());
            }
            _ => {
                std::fs::write(fake.join(format!("{n}.answer")), "").unwrap();
                results[i] = Some(threads[i].take().unwrap().join().unwrap_or_else(|e| Err(format!("panic: {}", mcrt::rt::panic_text(&e)))));
            }
        }
        step[i] += 1;
        q.transitions += 1;
    }
    q.states += 1;
    q.compared += ps.len() as u64;
    let left: Vec<_> = std::fs::read_dir(&work).unwrap().flatten().map(|e| e.file_name()).collect();
    for f in &left {
        let _ = std::fs::remove_file(work.join(f));
    }
    for (i, p) in ps.iter().enumerate() {
        let seen = std::fs::read_to_string(fake.join(format!("{}.seen", p.name))).unwrap_or_default();
        if words(&seen) != p.untimed_words() {
            return q.fail(format!("the validator of {} was given {seen:?}", p.name), case);
        }
        let file = std::fs::read_to_string(out.join(format!("{}.rs", p.name)));
        match (vs[i], results[i].take().unwrap(), file) {
            (V::Accept, Ok(()), Ok(f)) => {
                if let Err(e) = check(p, &f) {
                    return q.fail(e, case);
                }
            }
            (V::Accept, r, f) => return q.fail(format!("{}: the generation failed after the validator accepted: {r:?}, {f:?}", p.name), case),
            (_, Err(_), Err(_)) => {}
            (_, r, f) => return q.fail(format!("{}: the generation went on after a refusal: {r:?}, file {}", p.name, f.is_ok()), case),
        }
    }
    if !left.is_empty() {
        return q.fail(format!("temporary files are left: {left:?}"), case);
    }
    q.outcome(format!("{order:?} {vs:?}"));
    q.sample(|| case);
}
/// All merges of `n` sequences of three events.
fn merges(left: &mut [usize], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if left.iter().all(|k| *k == 0) {
        out.push(cur.clone());
    }
    for i in 0..left.len() {
        if left[i] > 0 {
            left[i] -= 1;
            cur.push(i);
            merges(left, cur, out);
            cur.pop();
            left[i] += 1;
        }
    }
}
const ALL: [V; 7] = [V::Accept, V::Refuse, V::Silent, V::Noisy, V::Killed, V::Missing, V::NoShell];

fn protos(th: bool) -> Vec<Proto> {
    let mut v = vec![];
    let roles = strs(&["B", "A", "C"]);
    let ps = pairs(&roles);
    let mut n = 0;
    let mut ms = |w: &[(String, String)]| -> Vec<Msg> { w.iter().map(|p| { n += 1; plain(n, p) }).collect() };
    for w in upto(&ps, if th { 3 } else { 2 }) {
        v.push(Proto { name: "Straight".into(), roles: roles.clone(), pre: ms(&w), recs: vec![], choice: None });
    }
    for p1 in &ps {
        for p2 in if th { ps.clone() } else { ps[..2].to_vec() } {
            for c in &roles {
                for cont in [None, Some(0)] {
                    for second in [false, true] {
                        let mut bs = vec![Branch { msgs: ms(&[p2.clone()]), cont }];
                        if second {
                            bs.push(Branch { msgs: ms(&[p1.clone(), p2.clone()]), cont: None });
                        }
                        let recs = if cont.is_some() { vec![("Loop".to_string(), ms(&[p1.clone()]))] } else { vec![] };
                        v.push(Proto { name: "WithChoice2".into(), roles: roles.clone(), pre: ms(&[p2.clone()]), recs, choice: Some((c.clone(), bs)) });
                    }
                }
            }
        }
    }
    v
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let th = t == Tier::Thorough;
    let mut v = vec![];
    for st in STYLES {
        for part in 0..4 {
            if !th && st != Style::Repo && part > 0 {
                continue;
            }
            v.push(Scenario::seq(format!("all descriptions, {st:?} layout, part {part}"), move |q: &mut Seq| {
                let t = Tool::new();
                for (i, p) in protos(th).iter().enumerate() {
                    if i % 4 == part {
                        one(q, &t, p, st, V::Accept);
                        if (i / 4) % 8 == 0 || th {
                            one(q, &t, p, st, V::Refuse);
                        }
                    }
                }
            }));
        }
        v.push(Scenario::seq(format!("all verdicts, {st:?} layout"), move |q: &mut Seq| {
            let t = Tool::new();
            let ps = protos(false);
            for p in ps.iter().step_by(if th { 1 } else { 9 }) {
                for v in ALL {
                    one(q, &t, p, st, v);
                }
            }
        }));
    }
    v.push(Scenario::seq("many roles, messages, clocks, loops and branches", move |q: &mut Seq| {
        let t = Tool::new();
        for (i, p) in large(th).iter().enumerate() {
            one(q, &t, p, STYLES[i % 4], V::Accept);
            one(q, &t, p, STYLES[(i + 1) % 4], V::Refuse);
        }
    }));
    v.push(Scenario::seq("names, declaration orders and layouts", move |q: &mut Seq| {
        let t = Tool::new();
        for set in NAME_SETS {
            let base = strs(set);
            for order in [[0, 1, 2], [2, 1, 0], [1, 2, 0]] {
                let roles: Vec<String> = order.iter().map(|i| base[*i].clone()).collect();
                let ps = pairs(&roles);
                for (i, p) in ps.iter().enumerate() {
                    let b = vec![Branch { msgs: vec![plain(3 * i, p)], cont: Some(0) }, Branch { msgs: vec![plain(3 * i + 1, &ps[(i + 1) % 6])], cont: None }];
                    let pr = Proto { name: "Names".into(), roles: roles.clone(), pre: vec![plain(3 * i + 2, &ps[(i + 2) % 6])], recs: vec![("Loop".into(), vec![])], choice: Some((roles[i % 3].clone(), b)) };
                    for st in STYLES {
                        if th || order[0] != 0 || st == Style::Spaced {
                            one(q, &t, &pr, st, V::Accept);
                        }
                    }
                }
            }
        }
    }));
    for n in if th { 2..=3 } else { 2..=2 } {
        for vs in seqs(&[V::Accept, V::Refuse], n) {
            v.push(Scenario::seq(format!("{n} validations at once, {vs:?}"), move |q: &mut Seq| {
                let t = Tool::new();
                let all = protos(false);
                let ps: Vec<Proto> = (0..n).map(|i| Proto { name: ["First", "Second", "Third"][i].into(), ..all[[7, all.len() - 1, 3][i]].clone() }).collect();
                let mut orders = vec![];
                merges(&mut vec![3; n], &mut vec![], &mut orders);
                for o in orders {
                    together(q, &t, &ps, &vs, &o);
                }
            }));
        }
    }
    // histories: each verdict after each other
    v.push(Scenario::seq("pairs of runs", move |q: &mut Seq| {
        let t = Tool::new();
        let ps = protos(false);
        for a in ALL {
            for b in ALL {
                one(q, &t, &ps[3], Style::Repo, a);
                one(q, &t, &ps[ps.len() - 1], Style::Repo, b);
            }
        }
    }));
    v.push(Scenario::seq("ill-formed after timing is erased", move |q: &mut Seq| {
        let t = Tool::new();
        let ab = ("A".to_string(), "B".to_string());
        let mut bad = vec![];
        let mut p = Proto { name: "Late".into(), roles: strs(&["A", "B", "C"]), pre: vec![plain(2, &ab)], recs: vec![], choice: None };
        p.pre[0].lo.0 = 11;
        bad.push(p.clone());
        p.pre = vec![plain(2, &ab), plain(4, &ab)];
        p.pre[0].reset = None;
        (p.pre[1].lo, p.pre[1].hi) = ((1, true), (3, true));
        bad.push(p.clone());
        p.pre = vec![plain(1, &ab)];
        p.pre[0].to = "D".into();
        bad.push(p.clone());
        for p in &bad {
            assert_eq!(p.verdict(), Some(false));
            for st in STYLES {
                for v in ALL {
                    one(q, &t, p, st, v);
                }
            }
        }
    }));
    v.push(Scenario::seq("every attribute of a message is erased", move |q: &mut Seq| {
        let t = Tool::new();
        let ab = ("A".to_string(), "B".to_string());
        for (l, lb) in [(0, true), (1, false)] {
            for (h, hb) in [(2, true), (10, false), (4294967296, true)] {
                for clock in ['a', 'z'] {
                    for reset in [None, Some('a'), Some('z')] {
                        for payload in [None, Some("Data"), Some("i32")] {
                            let mut m = plain(1, &ab);
                            (m.lo, m.hi, m.clock, m.reset, m.payload) = ((l, lb), (h, hb), clock, reset, payload.map(String::from));
                            let p = Proto { name: "One".into(), roles: strs(&["A", "B"]), pre: vec![m], recs: vec![], choice: None };
                            for st in if th { &STYLES[..] } else { &STYLES[..1] } {
                                one_(q, &t, &p, *st, V::Accept, if payload == Some("i32") { None } else { Some(true) });
                            }
                        }
                    }
                }
            }
        }
    }));
    v
}
fn main() {
    mcrt::driver::main(Check {
        property: "C20",
        rule: "the real generator with validation, against a stand-in for nuscr: every description of bounded shape in four layouts, every verdict (acceptance, refusal, silence, output and failure, killed, missing tool, missing shell), pairs of runs, every order of the events of two (thorough: three) validations at once in one process; arguments, file seen, moment of the call, files left, result and generated types are compared with the reference",
        assumptions: &["nuscr is replaced with a script; acceptance is a successful run that prints something, as the code documents"],
        scenarios,
    })
}
