//! C18: generated files are the projections of the descriptions.
use mcrt::driver::*;
use props::nuscr::*;

fn one(q: &mut Seq, w: &World, p: &Proto, st: Style) {
    q.tick();
    if q.failed() || p.verdict() != Some(true) {
        return;
    }
    let text = p.text(st);
    let r = match w.generate(&text, false) {
        Ok(Some(f)) => check(p, &f),
        Ok(None) => Err("nothing was generated".into()),
        Err(e) => Err(format!("the generation failed: {e}")),
    };
    match r {
        Ok((s, t)) => {
            q.states += s;
            q.transitions += t;
            q.compared += 1;
            q.outcome(match &p.choice { None => "straight".to_string(), Some(c) => format!("{} branches, {} loops back", c.1.len(), c.1.iter().filter(|b| b.cont.is_some()).count()) });
            q.sample(|| text);
        }
        Err(e) => q.fail(e, text),
    }
}
/// Numbers the messages of a protocol given as pairs, so that every message differs from the others.
fn build(name: &str, roles: &[String], pre: &[(String, String)], recs: &[Vec<(String, String)>], choice: Option<(String, Vec<(Vec<(String, String)>, Option<usize>)>)>) -> Proto {
    let n = std::cell::Cell::new(0);
    let ms = |v: &[(String, String)]| -> Vec<Msg> {
        v.iter().map(|p| { n.set(n.get() + 1); plain(n.get(), p) }).collect()
    };
    Proto {
        name: name.into(),
        roles: roles.to_vec(),
        pre: ms(pre),
        recs: recs.iter().enumerate().map(|(i, r)| (["Loop", "Again", "L3"][i].to_string(), ms(r))).collect(),
        choice: choice.map(|(c, bs)| (c, bs.into_iter().map(|(b, cont)| Branch { msgs: ms(&b), cont }).collect())),
    }
}
/// Each shape is divided among this many processes.
const PARTS: usize = 4;
fn shapes(q: &mut Seq, roles: &[&str], pre: usize, inner: usize, branches: usize, blen: usize, depth: usize, part: usize) {
    let mut k = 0;
    let w = World::new("c18");
    let roles = strs(roles);
    let mut sorted = roles.clone();
    sorted.sort();
    let ps = pairs(&sorted);
    let mut bodies: Vec<Vec<Vec<(String, String)>>> = vec![];
    for d in 0..=depth {
        bodies.extend(seqs(&upto(&ps, inner), d));
    }
    for pre in upto(&ps, pre) {
        for recs in &bodies {
            k += 1;
            if k % PARTS != part {
                continue;
            }
            one(q, &w, &build("Proto", &roles, &pre, recs, None), Style::Repo);
            for chooser in &sorted {
                let conts: Vec<Option<usize>> = std::iter::once(None).chain((0..recs.len()).map(Some)).collect();
                let bs: Vec<(Vec<(String, String)>, Option<usize>)> = upto(&ps, blen).into_iter().flat_map(|b| conts.iter().map(move |c| (b.clone(), *c)).collect::<Vec<_>>()).collect();
                for n in 1..=branches {
                    for b in seqs(&bs, n) {
                        one(q, &w, &build("Proto", &roles, &pre, recs, Some((chooser.clone(), b))), Style::Repo);
                    }
                }
            }
        }
    }
}
fn windows(vals: &[u128]) -> Vec<((u128, bool), (u128, bool))> {
    let mut v = vec![];
    for l in vals {
        for h in vals {
            for (a, b) in [(true, true), (true, false), (false, true), (false, false)] {
                if l < h || (l == h && a && b) {
                    v.push(((*l, a), (*h, b)))
                }
            }
        }
    }
    v
}
fn attributes(vals: &[u128], payloads: &[Option<&str>]) -> Vec<Msg> {
    let mut v = vec![];
    for (lo, hi) in windows(vals) {
        for clock in ['a', 'b'] {
            for reset in [None, Some('a'), Some('b')] {
                for p in payloads {
                    v.push(Msg { label: String::new(), payload: p.map(String::from), from: String::new(), to: String::new(), lo, hi, clock, reset })
                }
            }
        }
    }
    v
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let th = t == Tier::Thorough;
    let mut v = vec![];
    let mut shape = |roles: &'static [&'static str], pre: usize, inner: usize, branches: usize, blen: usize, depth: usize| {
        for part in 0..PARTS {
            v.push(Scenario::seq(format!("all shapes: roles {}, {pre} first messages, {depth} loops of {inner}, {branches} branches of {blen}; part {part}", roles.join(",")), move |q: &mut Seq| shapes(q, roles, pre, inner, branches, blen, depth, part)));
        }
    };
    shape(&["A", "B"], 2, 1, 2, 2, 1);
    shape(&["B", "A"], 0, 1, 3, 1, 1);
    shape(&["B", "A"], 1, 1, 2, 1, 2);
    shape(&["A", "B", "C"], 1, 0, 2, 1, 1);
    shape(&["C", "A", "B"], 2, 1, 1, 1, 1);
    shape(&["B", "C", "A"], 0, 1, 2, 1, 1);
    shape(&["D", "B", "A", "C"], 1, 1, 1, 1, 1);
    if th {
        shape(&["B", "A"], 1, 1, 3, 1, 2);
        shape(&["A", "B"], 3, 2, 2, 2, 1);
        shape(&["A", "B"], 1, 1, 3, 2, 1);
        shape(&["A", "B", "C"], 3, 1, 1, 2, 1);
        shape(&["B", "A", "C"], 1, 1, 2, 1, 1);
        shape(&["B", "A", "C"], 0, 1, 2, 1, 2);
        shape(&["C", "B", "A"], 0, 0, 3, 1, 1);
        shape(&["D", "B", "A", "C"], 1, 0, 2, 1, 1);
    }
    for (i, from) in [0usize, 1].into_iter().enumerate() {
        v.push(Scenario::seq(format!("all attributes of one message, sent by {}", ["A", "B"][i]), move |q: &mut Seq| {
            let w = World::new("c18");
            let roles = strs(&["A", "B", "C"]);
            for mut m in attributes(if th { &[0, 1, 2, 9, 10, 4294967296] } else { &[0, 1, 2, 10, 4294967296] }, &[None, Some("Data"), Some("payload")]) {
                m.label = "Hello".into();
                m.from = roles[from].clone();
                for to in 0..3 {
                    if to != from {
                        m.to = roles[to].clone();
                        let mut p = Proto { name: "One".into(), roles: roles.clone(), pre: vec![m.clone()], recs: vec![], choice: None };
                        one(q, &w, &p, Style::Repo);
                        // the same message in a branch, in a loop, and unrolled
                        p.pre = vec![];
                        p.choice = Some(("C".into(), vec![Branch { msgs: vec![m.clone()], cont: None }, Branch { msgs: vec![], cont: None }]));
                        one(q, &w, &p, Style::Repo);
                        p.recs = vec![("Loop".into(), vec![m.clone()])];
                        p.choice = Some(("B".into(), vec![Branch { msgs: vec![], cont: Some(0) }, Branch { msgs: vec![], cont: None }]));
                        one(q, &w, &p, Style::Repo);
                    }
                }
            }
        }));
    }
    for same in [true, false] {
        v.push(Scenario::seq(format!("all attributes of two messages, {}", if same { "the same way" } else { "in opposite ways" }), move |q: &mut Seq| {
            let w = World::new("c18");
            let roles = strs(&["A", "B"]);
            let at = attributes(if th { &[0, 1, 2] } else { &[0, 1] }, &[None, Some("Data")]);
            for x in &at {
                for y in &at {
                    let (mut x, mut y) = (x.clone(), y.clone());
                    (x.label, y.label) = ("First".into(), "Second".into());
                    (x.from, x.to) = ("A".into(), "B".into());
                    (y.from, y.to) = if same { ("A".into(), "B".into()) } else { ("B".into(), "A".into()) };
                    one(q, &w, &Proto { name: "Two".into(), roles: roles.clone(), pre: vec![x, y], recs: vec![], choice: None }, Style::Repo);
                }
            }
        }));
    }
    for part in 0..PARTS {
        v.push(Scenario::seq(format!("many roles, messages, clocks, loops and branches; part {part}"), move |q: &mut Seq| {
            let w = World::new("c18");
            for (i, p) in large(th).iter().enumerate() {
                if i % PARTS == part {
                    assert!(p.verdict() == Some(true), "{}", p.text(Style::Repo));
                    for st in STYLES {
                        one(q, &w, p, st);
                    }
                }
            }
        }));
    }
    v.push(Scenario::seq("names, declaration orders and layouts", move |q: &mut Seq| {
        let w = World::new("c18");
        for set in NAME_SETS {
            let base = strs(set);
            for order in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
                let roles: Vec<String> = order.iter().map(|i| base[*i].clone()).collect();
                let ps = pairs(&roles);
                for (i, p1) in ps.iter().enumerate() {
                    for p2 in &ps {
                        for chooser in &roles {
                            for st in STYLES {
                                let b = |c| (vec![p2.clone()], c);
                                for (n, pr) in [
                                    build("Name1", &roles, &[p1.clone()], &[], None),
                                    build("N_2", &roles, &[p1.clone(), p2.clone()], &[vec![p1.clone()]], Some((chooser.clone(), vec![b(Some(0)), b(None)]))),
                                    build("Third", &roles, &[], &[vec![p1.clone()], vec![p2.clone()]], Some((chooser.clone(), vec![b(Some(0)), b(Some(1)), b(None)]))),
                                ].into_iter().enumerate() {
                                    if th || n == i % 3 {
                                        let mut pr = pr;
                                        if (i + p2.1.len()) % 2 == 0 {
                                            // unusual labels and payload types
                                            for (k, m) in messages(&mut pr).into_iter().enumerate() {
                                                m.label = format!("{}{k}", ["_ack", "my_label", "HTTPReply", "x2y_z_"][k % 4]);
                                                m.payload = m.payload.take().map(|x| if x == "Data" { "Big_Int".into() } else { "_t9".into() });
                                            }
                                        }
                                        one(q, &w, &pr, st);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }));
    v
}
fn main() {
    mcrt::driver::main(Check {
        property: "C18",
        rule: "the real generator on every description of bounded shape (messages between all pairs of roles, nested loops, choices, branches, loops back) and all attributes of one and two messages; the generated file is read back and its types, followed from the launched functions, compared with the projection of the description",
        assumptions: &["a label carries the same payload type wherever it occurs", "clocks have one-letter names", "the sender's endpoint of a branch is the one named after the receivers' ones"],
        scenarios,
    })
}
