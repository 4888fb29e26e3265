//! C16: exported graphs and automata against the endpoint types.
use mcrt::driver::*;
use props::check16::*;
use std::cell::RefCell;
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;
use std::rc::Rc;
#[path = "../real16.rs"]
mod real16;

thread_local! { static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) }; }
/// A scratch directory of this worker, with a stand-in for the external tool that accepts.
fn scratch() -> PathBuf {
    DIR.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let p = std::env::temp_dir().join(format!("mc16-{}", std::process::id()));
                let w = p.join("mpst_rust_github");
                let _ = std::fs::create_dir_all(w.join("outputs"));
                let _ = std::fs::create_dir_all(p.join("bin"));
                std::fs::write(p.join("bin/KMC"), "#!/bin/sh\necho True\n").unwrap();
                std::fs::set_permissions(p.join("bin/KMC"), std::fs::Permissions::from_mode(0o755)).unwrap();
                std::env::set_var("PATH", format!("{}:/usr/bin:/bin", p.join("bin").display()));
                std::env::set_current_dir(&w).unwrap();
                p
            })
            .clone()
    })
}
fn leave() {
    DIR.with(|d| {
        if let Some(p) = d.borrow_mut().take() {
            let _ = std::env::set_current_dir("/");
            let _ = std::fs::remove_dir_all(p);
        }
    })
}
/// A type's text without paths.
fn tails(s: &str) -> String {
    let mut o = String::new();
    for w in s.split_inclusive(|c: char| !(c.is_alphanumeric() || c == '_' || c == ':')) {
        o += w.rsplit("::").next().unwrap()
    }
    o
}
type Out = Result<(std::collections::HashMap<String, petgraph::Graph<String, String>>, Option<i32>), String>;
/// Calls the checker for one protocol and compares every role's graph and automaton.
fn one(q: &mut Seq, nm: &Names, g: &G, orders: &[Vec<usize>], file: bool) {
    one_with(q, nm, g, orders, file, None)
}
fn one_with(q: &mut Seq, nm: &Names, g: &G, orders: &[Vec<usize>], file: bool, real: Option<fn(&str) -> Out>) {
    q.tick();
    let t = Types::new(nm, g);
    let eps: Vec<String> = (0..nm.n()).map(|r| t.endpoint(g, r)).collect();
    let case = || format!("{} with roles {:?}", show(g), nm.roles);
    for o in orders {
        let sess: Vec<String> = o.iter().map(|r| eps[*r].clone()).collect();
        let (br, bs, gb) = (t.branches_receivers.clone(), t.branching_sessions.clone(), t.group_branches.clone());
        if file {
            scratch();
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let name = if file { "case" } else { "" };
            match real {
                Some(f) => f(name),
                None => mpstthree::checking::checker(name, sess, br, bs, gb).map_err(|e| e.to_string()),
            }
        }));
        let (graphs, _) = match r {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return q.fail(format!("no graph: {e}"), case()),
            Err(e) => return q.fail(format!("no graph: panic {}", mcrt::rt::panic_text(&e)), case()),
        };
        if graphs.len() != nm.n() {
            return q.fail(format!("{} graphs for {} roles", graphs.len(), nm.n()), case());
        }
        for r in 0..nm.n() {
            let me = format!("Role{}", nm.roles[r]);
            let Some(gr) = graphs.get(&me) else { return q.fail(format!("no graph for {me}"), case()) };
            let want = reference(nm, g, r, &|s, p, t| format!("{me}{}Role{}: {t}", if s { "!" } else { "?" }, nm.roles[p]), true);
            match same(&want, &of_graph(gr)) {
                Ok((s, t)) => {
                    q.states += s;
                    q.transitions += t
                }
                Err(e) => return q.fail(format!("graph of {me}: {e}"), case()),
            }
            q.compared += 1;
        }
        if file {
            let txt = std::fs::read_to_string("cfsm/case.txt").unwrap_or_default();
            let autos = match of_file(nm, &txt) {
                Ok(a) => a,
                Err(e) => return q.fail(format!("automata file: {e}"), case()),
            };
            for (r, a) in autos.iter().enumerate() {
                let want = reference(nm, g, r, &|s, p, t| format!("{p} {} {t}", if s { "!" } else { "?" }), false);
                match same(&want, a) {
                    Ok((s, t)) => {
                        q.states += s;
                        q.transitions += t
                    }
                    Err(e) => return q.fail(format!("automaton of Role{}: {e}", nm.roles[r]), case()),
                }
                q.compared += 1;
            }
        }
    }
    q.sample(case);
}
fn names(n: usize, either: bool) -> Names {
    let roles: Vec<String> = ["A", "B", "C", "D", "E", "F", "G", "H"][..n].iter().map(|s| s.to_string()).collect();
    let p = |a: &str, b: &str| (a.to_string(), b.to_string());
    Names {
        roles,
        payloads: vec![
            p("i32", "i32"),
            p("alloc::string::String", "String"),
            p("()", "()"),
            p("app::proto::Request", "Request"),
            p("alloc::vec::Vec<core::option::Option<i32>>", "Vec<Option<i32>>"),
            p("[u8; 128]", "[u8;128]"),
            p("(i32, alloc::string::String)", "(i32,String)"),
            p("core::result::Result<(), (u8, [app::E; 2])>", "Result<(),(u8,[E;2])>"),
            p("&str", "str"),
            p("alloc::collections::btree::map::BTreeMap<u8, app::proto::NameTag>", "BTreeMap<u8,NameTag>"),
            p("app::proto::Pair<app::NameA, app::proto::NameB>", "Pair<NameA,NameB>"),
            p("either::Either<i32, alloc::string::String>", "Either<i32,String>"),
            p("app::proto::SendIt<app::RoleBook>", "SendIt<RoleBook>"),
            p("core::option::Option<mpstthree::binary::struct_trait::end::End>", "Option<End>"),
            p("fn(i32) -> u8", "fn(i32)->u8"),
            p("alloc::boxed::Box<dyn core::ops::function::Fn(i32, u8) -> core::option::Option<i32> + core::marker::Send>", "Box<dynFn(i32,u8)->Option<i32>+Send>"),
        ],
        either,
        user: "app::proto::".into(),
        labels: ["Zero", "One", "Two", "Three", "L4", "L5", "L_6", "Seven", "Eight", "Nine", "L10", "L11"].iter().map(|s| s.to_string()).collect(),
    }
}
fn pairs(n: usize) -> Vec<(usize, usize)> {
    (0..n).flat_map(|p| (0..n).filter(move |q| *q != p).map(move |q| (p, q))).collect()
}
/// All straight lines of exactly `len` messages in front of `tail`.
fn lines(n: usize, len: usize, pay: &[usize], tail: &G, f: &mut dyn FnMut(G)) {
    fn go(n: usize, len: usize, pay: &[usize], g: G, f: &mut dyn FnMut(G)) {
        if len == 0 {
            return f(g);
        }
        for (p, q) in pairs(n) {
            for t in pay {
                go(n, len - 1, pay, msg(p, q, *t, g.clone()), f)
            }
        }
    }
    go(n, len, pay, tail.clone(), f)
}
type Cases = Rc<dyn Fn(&mut dyn FnMut(G))>;
fn part(v: &mut Vec<Scenario>, name: &str, nm: Names, orders: Vec<Vec<usize>>, file: bool, cases: Cases, parts: usize) {
    for k in 0..parts {
        let (nm, orders, cases) = (nm.clone(), orders.clone(), cases.clone());
        v.push(Scenario::seq(format!("{name} part {k}"), move |q: &mut Seq| {
            let mut i = 0usize;
            cases(&mut |g| {
                i += 1;
                if i % parts == k && !q.failed() {
                    one(q, &nm, &g, &orders, file)
                }
            });
            leave();
        }));
    }
}
/// Bodies of branches: at most `len` messages over the pairs, then one of the tails.
fn bodies(n: usize, len: usize, t: usize, tails: &[G]) -> Vec<G> {
    let mut v = vec![];
    for l in 0..=len {
        for x in tails {
            lines(n, l, &[t], x, &mut |g| v.push(g))
        }
    }
    v
}
/// A few representative bodies: none, chooser to next, next to chooser, a round trip, others.
fn few(n: usize, t: usize, tails: &[G]) -> Vec<G> {
    let mut v = vec![];
    for x in tails {
        v.push(x.clone());
        v.push(msg(0, 1, t, x.clone()));
        v.push(msg(1, 0, t, x.clone()));
        v.push(msg(0, n - 1, t, msg(n - 1, 0, t + 1, x.clone())));
        if n > 2 {
            v.push(msg(n - 1, 1, t, x.clone()));
        }
    }
    v
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let th = t == Tier::Thorough;
    let mut v = vec![];
    // real types, through the macros
    v.push(Scenario::seq("real types", |q: &mut Seq| {
        for c in real16::all() {
            let mut nm = names(3, c.either);
            nm.user = c.user.into();
            for p in &mut nm.payloads {
                p.0 = p.0.replace("app::proto::", "c16::real16::").replace("app::", "c16::real16::");
            }
            let t = Types::new(&nm, &c.g);
            for (r, real) in (c.names)().iter().enumerate() {
                q.compared += 1;
                if tails(real) != tails(&t.endpoint(&c.g, r)) {
                    panic!("the texts of the families differ from the compiler's: {real} / {}", t.endpoint(&c.g, r));
                }
            }
            for file in [false, true] {
                if !q.failed() {
                    one_with(q, &nm, &c.g, &[vec![2, 0, 1]], file, Some(c.run));
                }
            }
        }
        leave();
    }));
    // straight lines
    for (n, len, pay, all) in [(2, 4, vec![0, 1], true), (3, if th { 3 } else { 2 }, vec![0, 1], true), (4, if th { 3 } else { 2 }, if th { vec![0, 1] } else { vec![1] }, true), (5, 2, vec![0], false), (3, if th { 5 } else { 4 }, vec![0], false)] {
        let nm = names(n, false);
        let orders = if all { perms(n) } else { vec![(0..n).collect(), (0..n).rev().collect()] };
        part(&mut v, &format!("lines n={n} len<={len}"), nm.clone(), orders, false, Rc::new({ let pay = pay.clone(); move |f| (0..=len).for_each(|l| lines(n, l, &pay, &G::End, f)) }), 4);
        part(&mut v, &format!("files of lines n={n}"), nm, vec![(0..n).rev().collect()], true, Rc::new(move |f| (0..=len.min(if th { 3 } else { 2 })).for_each(|l| lines(n, l, &pay, &G::End, f))), 2);
    }
    // payload types of every shape, two messages
    for n in [2, 3] {
        let nm = names(n, false);
        let all: Vec<usize> = (0..nm.payloads.len()).collect();
        part(&mut v, &format!("payloads n={n}"), nm, vec![(0..n).collect()], true, Rc::new(move |f| lines(n, 2, &all, &G::End, f)), 4);
    }
    // role names: single letters, words, one being the beginning of another, digits, other orders
    for rs in [["Alice", "Bob", "Carol"], ["All", "Broadcaster", "Ends"], ["Either", "Recv", "Send"], ["AlltoX", "XtoAll", "i32"], ["Alice", "B", "BtoAlice"], ["A", "AB", "ABC"], ["P1", "P10", "P2"], ["X_a", "X_b", "Z"]] {
        let mut nm = names(3, false);
        nm.roles = rs.iter().map(|s| s.to_string()).collect();
        for either in [false, true] {
            let mut nm = nm.clone();
            nm.either = either;
            part(&mut v, &format!("role names {rs:?} either={either}"), nm, perms(3), true, Rc::new(move |f| {
                lines(3, 2, &[0], &G::End, f);
                for p in 0..3 {
                    for l in bodies(3, 1, 0, &[G::End]) {
                        f(G::Choice(0, p, vec![l.clone(), msg(p, (p + 1) % 3, 1, G::End)]))
                    }
                }
            }), 1);
        }
    }
    // choices through enums, with loops
    for n in 2..=4usize {
        let nm = names(n, false);
        let blen = if n == 2 { 2 } else { 1 };
        let tails = [G::End, G::Ref(0)];
        let orders = if n < if th { 4 } else { 3 } { perms(n) } else { vec![(0..n).rev().collect()] };
        let p1: Cases = Rc::new(move |f| {
            for p in 0..n {
                for a in bodies(n, blen, 0, &tails) {
                    f(G::Choice(0, p, vec![a.clone()]));
                    for b in bodies(n, 1, 1, &[G::End, G::Ref(0)]) {
                        f(G::Choice(0, p, vec![a.clone(), b.clone()]));
                    }
                }
            }
        });
        part(&mut v, &format!("choice n={n}"), nm.clone(), orders.clone(), false, p1.clone(), 4);
        part(&mut v, &format!("files of choice n={n}"), nm.clone(), vec![(0..n).collect()], true, if th || n < 4 { p1 } else { Rc::new(move |f| few(n, 0, &[G::End, G::Ref(0)]).into_iter().for_each(|a| few(n, 1, &[G::End, G::Ref(0)]).into_iter().for_each(|b| f(G::Choice(0, n - 2, vec![a.clone(), b]))))) }, 4);
        // prefix and three branches
        part(&mut v, &format!("three branches n={n}"), nm.clone(), vec![(0..n).rev().collect()], true, Rc::new(move |f| {
            for p in 0..n {
                for a in few(n, 0, &[G::End, G::Ref(0)]) {
                    for b in few(n, 1, &[G::Ref(0)]) {
                        f(msg(p, (p + 1) % n, 2, G::Choice(0, p, vec![a.clone(), b.clone(), msg(p, (p + 1) % n, 3, G::End)])))
                    }
                }
            }
        }), 4);
        // nested choices, possibly by another role, looping to either
        let small = move |t: usize| -> Vec<G> {
            let tails = [G::End, G::Ref(0), G::Ref(1)];
            if th || n < 3 { few(n, t, &tails) } else { tails.iter().flat_map(|x| [x.clone(), msg(0, n - 1, t, x.clone())]).collect() }
        };
        let firsts: Vec<usize> = if th || n < 4 { (0..n).collect() } else { vec![0, 2] };
        part(&mut v, &format!("nested choices n={n}"), nm.clone(), vec![(0..n).collect()], true, Rc::new(move |f| {
            for &p in &firsts {
                for p2 in 0..n {
                    for a in small(0).iter() {
                        for b in small(1).iter() {
                            let inner = G::Choice(1, p2, vec![a.clone(), b.clone()]);
                            for x in [inner.clone(), msg(p, (p + 1) % n, 2, inner.clone())] {
                                f(G::Choice(0, p, vec![x.clone(), msg(p, (p + 1) % n, 3, G::Ref(0))]));
                                f(G::Choice(0, p, vec![msg((p + 1) % n, p, 3, G::End), x.clone()]));
                            }
                        }
                    }
                }
            }
        }), 8);
    }
    // choices through Either: two branches, nested twice
    for n in 2..=4usize {
        let nm = names(n, true);
        let orders = if n < if th { 4 } else { 3 } { perms(n) } else { vec![(0..n).rev().collect()] };
        part(&mut v, &format!("either n={n}"), nm.clone(), orders, false, Rc::new(move |f| {
            for p in 0..n {
                for a in bodies(n, if n == 4 || n == 3 && !th { 1 } else { 2 }, 0, &[G::End]) {
                    for b in bodies(n, 1, 1, &[G::End]) {
                        let c = G::Choice(0, p, vec![a.clone(), b.clone()]);
                        f(c.clone());
                        f(msg(p, (p + 1) % n, 2, c));
                    }
                }
            }
        }), 4);
        part(&mut v, &format!("nested either n={n}"), nm, vec![(0..n).collect()], true, Rc::new(move |f| {
            for p in 0..n {
                for p2 in 0..n {
                    for a in few(n, 0, &[G::End]) {
                        for b in few(n, 1, &[G::End]) {
                            let inner = G::Choice(1, p2, vec![a.clone(), b.clone()]);
                            for x in [inner.clone(), msg((p + 1) % n, p, 2, inner.clone())] {
                                f(G::Choice(0, p, vec![x.clone(), msg(p, (p + 1) % n, 3, G::End)]));
                                f(G::Choice(0, p, vec![G::End, x.clone()]));
                            }
                        }
                    }
                }
            }
        }), 4);
    }
    // many roles, messages, branches and levels
    for n in [2usize, 3, 5, 6, 8] {
        let orders: Vec<Vec<usize>> = vec![(0..n).rev().collect(), (0..n).map(|i| (i * 3 + 1) % n).collect()].into_iter().filter(|o: &Vec<usize>| (0..n).all(|i| o.contains(&i))).collect();
        let long = move |k: usize, start: usize, tail: G| -> G {
            let ps = pairs(n);
            (0..k).rev().fold(tail, |g, i| { let (p, q) = ps[(start + i * 5 + i / ps.len()) % ps.len()]; msg(p, q, (start + i) % 8, g) })
        };
        let nm = names(n, false);
        part(&mut v, &format!("long lines n={n}"), nm.clone(), orders.clone(), true, Rc::new(move |f| {
            for k in if th { vec![9, 10, 11, 12, 25, 40] } else { vec![11, 25] } {
                for start in 0..if th { 12 } else { 4 } {
                    f(long(k, start, G::End));
                }
            }
        }), 2);
        part(&mut v, &format!("many branches n={n}"), nm.clone(), orders.clone(), true, Rc::new(move |f| {
            for b in if th { vec![4usize, 7, 12] } else { vec![12] } {
                for p in 0..n {
                    for len in if th { vec![0, 3, 12] } else { vec![3] } {
                        let bs = (0..b).map(|i| long(if i % 4 == 1 { 0 } else { (i + len) % (len + 1) }, i + p, if i % 3 == 1 { G::End } else { G::Ref(0) })).collect();
                        f(long(len, p, G::Choice(0, p, bs)));
                    }
                }
            }
        }), 2);
        part(&mut v, &format!("many levels n={n}"), nm.clone(), orders.clone(), true, Rc::new(move |f| {
            for depth in if th { vec![3usize, 4, 6] } else { vec![4] } {
                for p in 0..n {
                    for len in if th { vec![0, 2, 4] } else { vec![2] } {
                        let mut g = long(len, p, G::Ref(depth / 2));
                        for d in (0..depth).rev() {
                            let c = (p + d * 2 + d / 2) % n;
                            let side = long((d + len) % 3, c, if d % 2 == 1 { G::Ref(d) } else { G::End });
                            g = long((d + len) % 2, d, G::Choice(d, c, if d % 3 == 1 { vec![side, g] } else { vec![g, side] }));
                        }
                        f(g);
                    }
                }
            }
        }), 2);
        let nm = names(n, true);
        part(&mut v, &format!("many levels of either n={n}"), nm, orders, true, Rc::new(move |f| {
            for depth in if th { vec![1usize, 3, 5] } else { vec![3] } {
                for p in 0..n {
                    for len in if th { vec![0, 2, 11] } else { vec![2] } {
                        let mut g = long(len, p, G::End);
                        for d in (0..depth).rev() {
                            let side = long((d + len) % 3, p + d, G::End);
                            g = long((d + len) % 2, d, G::Choice(d, (p + d * 2) % n, if d % 3 == 1 { vec![side, g] } else { vec![g, side] }));
                        }
                        f(g);
                    }
                }
            }
        }), 2);
    }
    v
}
fn main() {
    mcrt::driver::main(Check {
        property: "C16",
        rule: "the real exporter on the endpoint types of every protocol of the families below, every role order; for each role the product of the prescribed automaton and the exported graph, and of the prescribed automaton and the one in the file written for the external tool, is explored completely",
        assumptions: &["type names are written as the compiler prints them (checked against real types in the scenarios named real types)"],
        scenarios,
    })
}
