//! C19: which descriptions are refused.
use mcrt::driver::*;
use props::nuscr::*;

fn run(q: &mut Seq, w: &World, text: &str, want: Option<bool>, why: &str) -> Option<String> {
    q.tick();
    let want = want?;
    if q.failed() {
        return None;
    }
    q.states += 1;
    q.compared += 1;
    q.transitions += text.lines().count() as u64;
    let r = w.generate(text, false);
    match (&r, want) {
        (Ok(_), false) => q.fail(format!("accepted although {why}"), text),
        (Err(e), true) => q.fail(format!("refused: {e}"), text),
        (Err(e), false) if e.starts_with("panic") => q.fail(format!("{why}: {e} instead of an error"), text),
        _ => {}
    }
    q.outcome(if want { "accepted".into() } else { format!("refused: {why}") });
    q.sample(|| text.to_string());
    r.ok().flatten()
}
fn one(q: &mut Seq, w: &World, p: &Proto, st: Style) {
    run(q, w, &p.text(st), p.verdict(), "it is ill-formed");
}
type Win = ((u128, bool), (u128, bool));
fn windows(vals: &[u128]) -> Vec<Win> {
    let mut v = vec![];
    for l in vals {
        for h in vals {
            for b in [(true, true), (true, false), (false, true), (false, false)] {
                v.push(((*l, b.0), (*h, b.1)))
            }
        }
    }
    v
}
fn consistent(w: &Win) -> bool {
    w.0 .0 < w.1 .0 || (w.0 .0 == w.1 .0 && w.0 .1 && w.1 .1)
}
fn m(label: &str, from: &str, to: &str, w: Win, clock: char, reset: Option<char>) -> Msg {
    Msg { label: label.into(), payload: None, from: from.into(), to: to.into(), lo: w.0, hi: w.1, clock, reset }
}
fn straight(roles: &[&str], pre: Vec<Msg>) -> Proto {
    Proto { name: "P".into(), roles: strs(roles), pre, recs: vec![], choice: None }
}
const OK: Win = ((0, true), (1, true));
fn base(th: bool) -> Vec<Proto> {
    let x = |l: &str, f: &str, t: &str| m(l, f, t, OK, 'a', None);
    let b = |l: &str, c| Branch { msgs: vec![x(l, "A", "B")], cont: c };
    let mut v = vec![
        straight(&["A", "B"], vec![]),
        straight(&["A", "B"], vec![x("X", "A", "B")]),
        straight(&["C", "A", "B"], vec![x("X", "A", "B"), x("Y", "B", "C"), x("Z", "C", "A")]),
    ];
    for n in 1..=3 {
        for back in 0..n {
            for recs in 0..=2 {
                if back > 0 && recs == 0 {
                    continue;
                }
                for pre in 0..2 {
                    let bs = (0..n).map(|i| b(["X", "Y", "Z"][i], (i < back).then_some(if recs > 1 { i % recs } else { 0 }))).collect();
                    v.push(Proto {
                        name: "P".into(),
                        roles: strs(&["A", "B", "C"]),
                        pre: (0..pre).map(|_| x("V", "B", "A")).collect(),
                        recs: (0..recs).map(|i| (["L", "K"][i].to_string(), vec![x("W", "C", "B")])).collect(),
                        choice: Some(("A".into(), bs)),
                    });
                }
            }
        }
    }
    if !th {
        v.retain(|p| p.recs.len() < 2 || p.choice.as_ref().is_none_or(|c| c.1.len() == 2));
    }
    v
}
/// The line that closes the choice (without a choice: the protocol).
fn end_of_choice(p: &Proto, ls: &[String]) -> usize {
    let n = if p.choice.is_some() { p.recs.len() + 2 } else { 1 };
    let ends: Vec<usize> = ls.iter().enumerate().filter(|l| l.1.trim() == "}").map(|l| l.0).collect();
    ends[ends.len() - n]
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let th = t == Tier::Thorough;
    let mut v = vec![];
    v.push(Scenario::seq("all single windows", move |q: &mut Seq| {
        let w = World::new("c19");
        for win in windows(&[0, 1, 2, 5, 9, 10, 11, 19, 20, 99, 100, 1000, 4294967296]) {
            for place in 0..3 {
                let x = m("X", "A", "B", win, 'a', None);
                let mut p = straight(&["A", "B"], vec![]);
                match place {
                    0 => p.pre = vec![x],
                    1 => p.choice = Some(("A".into(), vec![Branch { msgs: vec![], cont: None }, Branch { msgs: vec![x], cont: None }])),
                    _ => {
                        p.recs = vec![("L".into(), vec![x])];
                        p.choice = Some(("B".into(), vec![Branch { msgs: vec![], cont: None }]))
                    }
                }
                one(q, &w, &p, Style::Repo);
            }
        }
    }));
    let vals: &'static [u128] = if th { &[0, 1, 2, 9, 10, 11, 100] } else { &[0, 1, 9, 10, 11, 100] };
    // two windows: who shares the clock, and what was reset
    let second: [(&str, &str, &str); 5] = [("A", "B", "the same way"), ("B", "A", "back"), ("B", "C", "passed on"), ("C", "A", "from another"), ("C", "D", "between others")];
    for (f, t2, what) in second {
        for (c2, reset) in [('a', None), ('a', Some('a')), ('a', Some('b')), ('b', None)] {
            if !th && (c2 == 'b' || reset == Some('b')) && what != "the same way" && what != "passed on" {
                continue;
            }
            v.push(Scenario::seq(format!("all pairs of windows, the second message {what} on {c2}, the first one resets {reset:?}"), move |q: &mut Seq| {
                let w = World::new("c19");
                let ws: Vec<Win> = windows(vals).into_iter().filter(consistent).collect();
                for w1 in &ws {
                    for w2 in &ws {
                        one(q, &w, &straight(&["A", "B", "C", "D"], vec![m("X", "A", "B", *w1, 'a', reset), m("Y", f, t2, *w2, c2, None)]), Style::Repo);
                    }
                }
            }));
        }
    }
    // three windows with resets by other messages
    let ways: Vec<[(&str, &str); 3]> = vec![[("A", "B"); 3], [("A", "B"), ("B", "C"), ("C", "A")], [("A", "B"), ("A", "C"), ("A", "B")], [("A", "B"), ("C", "B"), ("A", "B")], [("A", "B"), ("C", "D"), ("B", "A")], [("A", "C"), ("B", "A"), ("B", "C")]];
    for (i, way) in ways.into_iter().enumerate() {
        v.push(Scenario::seq(format!("three windows, clocks and resets, way {i}"), move |q: &mut Seq| {
            let w = World::new("c19");
            let wins: &[Win] = if th { &[((0, true), (1, true)), ((2, true), (3, false)), ((2, false), (3, true)), ((9, true), (10, true))] } else { &[((0, true), (1, true)), ((2, true), (3, true)), ((9, true), (10, false))] };
            let at: Vec<(Win, char, Option<char>)> = wins.iter().flat_map(|x| ['a', 'b'].into_iter().flat_map(move |c| [None, Some('a'), Some('b')].into_iter().map(move |r| (*x, c, r)))).collect();
            for s in seqs(&at, 3) {
                let ms = s.iter().enumerate().map(|(i, (x, c, r))| m(["X", "Y", "Z"][i], way[i].0, way[i].1, *x, *c, *r)).collect();
                one(q, &w, &straight(&["D", "C", "B", "A"], ms), Style::Repo);
            }
        }));
    }
    // windows on both sides of a choice and of a loop back
    for shape in 0..3 {
        v.push(Scenario::seq(format!("windows around {}", ["a choice", "a loop back", "a loop back to the outer loop"][shape]), move |q: &mut Seq| {
            let w = World::new("c19");
            let wins: &[Win] = &[((0, true), (1, true)), ((2, true), (3, true)), ((9, true), (10, true))];
            let at: Vec<(Win, Option<char>)> = wins.iter().flat_map(|x| [None, Some('a')].into_iter().map(move |r| (*x, r))).collect();
            for s in seqs(&at, if th { 4 } else { 3 }) {
                let g = |i: usize, l: &str, f: &str, t: &str| m(l, f, t, s[i].0, 'a', s[i].1);
                for branch in 0..3 {
                    let empty = |c| Branch { msgs: vec![], cont: c };
                    let back = [None, Some(0), Some(0)][shape];
                    let mut bs = vec![empty(None), empty(None), empty(None)];
                    bs[branch] = Branch { msgs: vec![g(2, "Z", "B", "A")], cont: back };
                    let mut p = straight(&["A", "B", "C"], vec![]);
                    let mut second = vec![g(1, "Y", "A", "B")];
                    second.extend((s.len() > 3).then(|| g(3, "V", "A", "C")));
                    match shape {
                        0 => p.pre = std::iter::once(g(0, "X", "A", "B")).chain(second).collect(),
                        1 => {
                            p.pre = vec![g(0, "X", "A", "B")];
                            p.recs = vec![("L".into(), second)]
                        }
                        _ => p.recs = vec![("L".into(), vec![g(0, "X", "A", "B")]), ("K".into(), second)],
                    }
                    p.choice = Some(("A".into(), bs));
                    one(q, &w, &p, Style::Repo);
                }
            }
        }));
    }
    v.push(Scenario::seq("well-formed descriptions in all layouts", move |q: &mut Seq| {
        let w = World::new("c19");
        for p in base(true) {
            assert_eq!(p.verdict(), Some(true));
            for st in STYLES {
                one(q, &w, &p, st);
            }
        }
    }));
    for part in 0..4 {
        v.push(Scenario::seq(format!("one mistake in a large description; part {part}"), move |q: &mut Seq| {
            let w = World::new("c19");
            for (i, p) in large(th).into_iter().enumerate() {
                if i % 4 != part {
                    continue;
                }
                one(q, &w, &p, STYLES[i % 4]);
                let n = messages(&mut p.clone()).len();
                for j in 0..n {
                    for mistake in 0..6 {
                        let mut p2 = p.clone();
                        {
                            let mut ms = messages(&mut p2);
                            let x = &mut *ms[j];
                            match mistake {
                                0 => x.from = "Nobody".into(),
                                1 => x.to = x.to[..x.to.len() - 1].to_string() + "_",
                                2 => x.to = x.from.clone(),
                                3 => (x.lo, x.hi) = ((100, true), (99, true)),
                                4 => std::mem::swap(&mut x.from, &mut x.to),
                                _ => {
                                    // nothing resets the clock any more and the window is over at once
                                    if j == 0 {
                                        continue;
                                    }
                                    let y = ms[j - 1].clone();
                                    let x = &mut *ms[j];
                                    (x.clock, x.lo, x.hi) = (y.clock, (0, true), (1, true));
                                    ms[j - 1].reset = None;
                                    (ms[j - 1].lo, ms[j - 1].hi) = ((3, true), (4, true));
                                }
                            }
                        }
                        one(q, &w, &p2, STYLES[(i + j) % 4]);
                    }
                }
                if let Some(c) = &p.choice {
                    let mut p2 = p.clone();
                    p2.choice.as_mut().unwrap().0 = "Nobody".into();
                    one(q, &w, &p2, Style::Repo);
                    for b in 0..c.1.len() {
                        for st in STYLES {
                            let ls = p.lines(st);
                            // the first line of each branch
                            let at = ls.iter().enumerate().filter(|l| l.1.contains("or {") || l.1.contains("or   {") || l.1.contains("or{")).map(|l| l.0).nth(b);
                            if let Some(at) = at {
                                let mut l = ls.clone();
                                l.insert(at, "continue Nowhere;".into());
                                run(q, &w, &(l.join("\n") + "\n"), Some(false), "the loop is undeclared");
                            }
                        }
                    }
                }
            }
        }));
    }
    v.push(Scenario::seq("roles", move |q: &mut Seq| {
        let w = World::new("c19");
        let who = ["A", "B", "C", "X", "a"];
        for p in base(th) {
            // replace the sender or receiver of each message, or the chooser
            let n = p.lines(Style::Repo).len();
            for f in who {
                for t in who {
                    for i in 0..n {
                        let mut p2 = p.clone();
                        let mut k = 0;
                        let mut done = false;
                        let Proto { pre, recs, choice, .. } = &mut p2;
                        for x in pre.iter_mut().chain(recs.iter_mut().flat_map(|r| r.1.iter_mut())).chain(choice.iter_mut().flat_map(|c| c.1.iter_mut().flat_map(|b| b.msgs.iter_mut()))) {
                            if k == i {
                                (x.from, x.to) = (f.into(), t.into());
                                done = true;
                            }
                            k += 1;
                        }
                        if done {
                            one(q, &w, &p2, STYLES[i % 4]);
                        }
                    }
                }
                if p.choice.is_some() {
                    let mut p2 = p.clone();
                    p2.choice.as_mut().unwrap().0 = f.into();
                    for st in STYLES {
                        one(q, &w, &p2, st);
                    }
                }
            }
        }
    }));
    v.push(Scenario::seq("one brace too few or too many", move |q: &mut Seq| {
        let w = World::new("c19");
        for p in base(th) {
            for st in STYLES {
                let text = p.text(st);
                for (i, c) in text.char_indices() {
                    if c == '{' || c == '}' {
                        let less = format!("{}{}", &text[..i], &text[i + 1..]);
                        run(q, &w, &less, Some(false), "a brace is missing");
                    }
                }
                let ls = p.lines(st);
                for b in ["{", "}"] {
                    for i in 1..=ls.len() {
                        let mut l = ls.clone();
                        l.insert(i, b.into());
                        run(q, &w, &(l.join("\n") + "\n"), Some(false), "there is a brace too many");
                        let mut l = ls.clone();
                        l[i - 1] = format!("{}{b}", l[i - 1]);
                        run(q, &w, &(l.join("\n") + "\n"), Some(false), "there is a brace too many");
                    }
                }
                // cut short
                for i in 0..ls.len() {
                    run(q, &w, &ls[..i].join("\n"), Some(false), "the end is missing");
                }
            }
        }
    }));
    v.push(Scenario::seq("headers", move |q: &mut Seq| {
        let w = World::new("c19");
        for p in base(th) {
            for st in STYLES {
                let ls = p.lines(st);
                let body = ls[1..].join("\n");
                let h = &ls[0];
                for bad in [String::new(), "{".into(), "protocol {".into(), h.replacen("timed", "", 1), h.replacen("global", "", 1), h.replacen("protocol", "", 1), h.replacen("role", "", 9), h.replace(['(', ')'], ""), format!("\n{h}"), format!("// first\n{h}")] {
                    run(q, &w, &format!("{bad}\n{body}\n"), Some(false), "the header is missing");
                }
                // a second header
                for i in 1..ls.len() {
                    let mut l = ls.clone();
                    l.insert(i, h.replace('{', ""));
                    run(q, &w, &(l.join("\n") + "\n"), if i <= end_of_choice(&p, &ls) { Some(false) } else { None }, "there is a header inside");
                }
            }
        }
    }));
    v.push(Scenario::seq("loops and choices", move |q: &mut Seq| {
        let w = World::new("c19");
        let x = "X() from A to B within [0;1] using a and resetting ();";
        for p in base(th) {
            for st in STYLES {
                let ls = p.lines(st);
                let body = if st == Style::Braces { 2 } else { 1 };
                for i in body..ls.len() {
                    // a loop back to a loop that was never declared; after a choice everything is refused
                    for name in ["Nope", "LL", "l"] {
                        let mut l = ls.clone();
                        l.insert(i, format!("continue {name};"));
                        run(q, &w, &(l.join("\n") + "\n"), Some(false), "the loop is undeclared");
                    }
                    // a message after the choice
                    let after = end_of_choice(&p, &ls);
                    if p.choice.is_some() && i > after {
                        for s in [x, "choice at A {\n}", "rec M {\n}"] {
                            let mut l = ls.clone();
                            l.insert(i, s.into());
                            run(q, &w, &(l.join("\n") + "\n"), Some(false), "something follows a choice");
                        }
                    }
                    // a choice inside a branch
                    if let Some(c) = ls.iter().position(|s| s.contains("choice")) {
                        if i > c + 1 && i < after {
                            let mut l = ls.clone();
                            l.insert(i, format!("choice at B {{\n{x}\n}} or {{\n}}"));
                            run(q, &w, &(l.join("\n") + "\n"), Some(false), "choices are nested");
                        }
                    }
                }
                let mut l = ls.clone();
                l.push(x.into());
                run(q, &w, &(l.join("\n") + "\n"), Some(false), "something follows the end");
            }
            // without the loops their continues refer to
            if p.recs.iter().len() > 0 && p.choice.as_ref().is_some_and(|c| c.1.iter().any(|b| b.cont.is_some())) {
                for st in STYLES {
                    let mut l = p.lines(st);
                    for s in l.iter_mut().filter(|s| s.contains("rec")) {
                        *s = if s.contains('{') { "{".into() } else { String::new() };
                    }
                    run(q, &w, &(l.join("\n") + "\n"), Some(false), "the loop is undeclared");
                }
            }
        }
        for st in STYLES {
            let p = straight(&["A", "B"], vec![m("X", "A", "B", OK, 'a', None)]);
            let l = p.lines(st);
            let at = l.len() - 1;
            let mut l = l.clone();
            l.insert(at, format!("rec L {{\n{x}\ncontinue L;\n}}"));
            run(q, &w, &(l.join("\n") + "\n"), Some(false), "the loop has no choice");
        }
    }));
    // nothing of a description is lost, whatever one line or character says
    for st in STYLES {
        for kind in 0..3 {
            v.push(Scenario::seq(format!("one {} edit, layout {st:?}", ["character", "line", "inserted line"][kind]), move |q: &mut Seq| {
                let w = World::new("c19");
                for p in edited(th) {
                    let text = p.text(st);
                    let ls = p.lines(st);
                    let joined = |l: &[String]| l.join("\n") + "\n";
                    match kind {
                        0 => {
                            for (i, c) in text.char_indices() {
                                edit(q, &w, &text, &format!("{}{}", &text[..i], &text[i + 1..]));
                                for x in ["x", " ", "1", ";", "}", "{", "(", ")", ",", "[", "\n"] {
                                    edit(q, &w, &text, &format!("{}{x}{}", &text[..i], &text[i..]));
                                    if th {
                                        edit(q, &w, &text, &format!("{}{x}{}", &text[..i], &text[i + c.len_utf8()..]));
                                    }
                                }
                            }
                        }
                        1 => {
                            for i in 0..ls.len() {
                                let mut l = ls.clone();
                                let x = l.remove(i);
                                edit(q, &w, &text, &joined(&l));
                                for j in 0..=l.len() {
                                    let mut l = l.clone();
                                    l.insert(j, x.clone());
                                    edit(q, &w, &text, &joined(&l));
                                    let mut l = ls.clone();
                                    l.insert(j, x.clone());
                                    edit(q, &w, &text, &joined(&l));
                                }
                                for j in i + 1..ls.len() {
                                    let mut l = ls.clone();
                                    l.swap(i, j);
                                    edit(q, &w, &text, &joined(&l));
                                    let l = format!("{}{} {}{}", joined(&ls[..i]).trim_start_matches('\n'), ls[i..j].join(" "), ls[j].trim(), if j + 1 < ls.len() { format!("\n{}", joined(&ls[j + 1..])) } else { String::new() });
                                    edit(q, &w, &text, &l);
                                }
                            }
                        }
                        _ => {
                            let one = msg_line(&m("V", "A", "B", OK, 'a', None), st);
                            let mut new: Vec<String> = strs(&["hello", "or", "} or {", "}or{", "choice at A", "choose at A", "choice at A {", "rec N", "rec N {", "recur L", "continue L", "continue L;", "continue;", "end", ";", ",", "A", "()", "V() from A to B;", "V() from A to B within [0;1];", "timed global protocol Q(role A)", "role C", "@", "V(a, b) from A to B within [0;1] using a and resetting ();", "V() from A to B within [0;1] using a;", "V() from A to B within [0,1] using a and resetting ();", "V() from A to B within [-1;1] using a and resetting ();", "V() from A to B within [0;] using a and resetting ();", "V() from A to B within (0;1) using a and resetting ();", "V() from A, B to A within [0;1] using a and resetting ();", "V() to B from A within [0;1] using a and resetting ();"]);
                            new.push(format!("{one} {one}"));
                            new.push(format!("{one}}} or {{"));
                            new.push(format!("{one} hello"));
                            new.push(format!("hello {one}"));
                            for x in new {
                                for i in 0..=ls.len() {
                                    let mut l = ls.clone();
                                    l.insert(i, x.clone());
                                    edit(q, &w, &text, &joined(&l));
                                    if i < ls.len() {
                                        for f in [format!("{}{x}", ls[i]), format!("{} {x}", ls[i]), format!("{x} {}", ls[i]), x.clone()] {
                                            let mut l = ls.clone();
                                            l[i] = f;
                                            edit(q, &w, &text, &joined(&l));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    v
}
/// Every kind of construct, as small as possible.
fn edited(th: bool) -> Vec<Proto> {
    let p = |l: &str, f: &str, t: &str, c, r| Msg { payload: (l != "X").then(|| "Data".to_string()), ..m(l, f, t, OK, c, r) };
    let b = |ms: Vec<Msg>, c| Branch { msgs: ms, cont: c };
    let mut v = vec![straight(&["A", "B"], vec![]), straight(&["B", "A"], vec![p("X", "A", "B", 'a', Some('a')), p("Y", "B", "A", 'b', None)])];
    let mut x = straight(&["A", "B", "C"], vec![p("X", "C", "B", 'a', None)]);
    x.recs = vec![("L".into(), vec![p("Y", "A", "C", 'b', Some('b'))])];
    x.choice = Some(("A".into(), vec![b(vec![p("Z", "A", "B", 'b', Some('b'))], Some(0)), b(vec![], None)]));
    v.push(x.clone());
    if th {
        x.recs.push(("K".into(), vec![]));
        x.pre.clear();
        x.choice.as_mut().unwrap().1.insert(0, b(vec![], Some(1)));
        v.push(x);
    }
    v
}
/// Whether the text has every construct on a line of its own.
fn lines_apart(text: &str) -> bool {
    let first = text.lines().next().unwrap_or("");
    let head = |l: &str| words(l).first().is_some_and(|x| x == "timed");
    if !head(first) || !(words(first).contains(&")".to_string())) {
        return false;
    }
    for (i, l) in text.lines().enumerate() {
        let ws = words(l);
        let n = ws.iter().filter(|x| *x == "from").count() + ws.iter().filter(|x| ["timed", "choice", "or", "rec", "continue"].contains(&x.as_str())).count();
        let braces = |ws: &[String]| ws.iter().all(|x| x == "{" || x == "}");
        let ok = match ws.first().map(|x| x.as_str()) {
            None => true,
            Some("timed") => i == 0 && n == 1 && braces(&ws[ws.iter().position(|x| x == ")").unwrap() + 1..]),
            _ if braces(&ws) => ws.len() == 1,
            Some("}") => ws == ["}", "or", "{"],
            Some("choice") => n == 1 && (ws.len() == 3 || (ws.len() == 4 && ws[3] == "{")),
            Some("rec") => n == 1 && (ws.len() == 2 || (ws.len() == 3 && ws[2] == "{")),
            Some("continue") => n == 1 && ws.len() == 3,
            _ => n == 1 && ws.last().is_some_and(|x| x == ";") && ws.iter().any(|x| x == "resetting"),
        };
        if !ok {
            return false;
        }
    }
    true
}
fn edit(q: &mut Seq, w: &World, was: &str, text: &str) {
    if was == text {
        return;
    }
    let same = words(was) == words(text);
    let r = parse(text);
    let lines: Vec<&str> = text.lines().collect();
    let unreadable = lines.iter().enumerate().any(|(i, l)| !readable(i == 0, l));
    let (want, why) = match &r {
        // several things on one line, spaces inside of parentheses
        Some(_) if lines.iter().skip(1).any(|l| l.contains("( ") || l.contains(" )")) => (None, ""),
        Some(_) if same || !lines_apart(text) => (None, ""),
        _ if unreadable || lines.is_empty() => (Some(false), "a line cannot be read"),
        // in an order the grammar does not know
        None => (None, ""),
        Some(r) if r.undeclared => (Some(false), "the loop is undeclared"),
        Some(r) if r.open => (None, ""),
        Some(r) => (r.proto.verdict(), "it is ill-formed"),
    };
    let out = run(q, w, text, want, why);
    if let (Some(out), Some(r), false) = (out, &r, q.failed()) {
        if let Err(e) = check(&r.proto, &out) {
            q.fail(format!("accepted, but something is lost: {e}"), text);
        }
    }
    if want.is_none() && !q.failed() {
        match (w.generate(text, false), &r) {
            (Err(e), _) if e.starts_with("panic") => return q.fail(format!("{e} instead of an error"), text),
            (Ok(Some(out)), Some(r)) if !r.open && !r.undeclared => {
                q.states += 1;
                q.compared += 1;
                if let Err(e) = check(&r.proto, &out) {
                    q.fail(format!("accepted, but something is lost: {e}"), text);
                }
            }
            _ => {}
        }
    }
}
fn main() {
    mcrt::driver::main(Check {
        property: "C19",
        rule: "the real generator on every window, pair and triple of windows (bounds, brackets, clocks, resets, who takes part, around choices and loops back) and on every single edit of well-formed descriptions (roles, braces, cut, header, loops, choices) and on every edit of one character or one line; the result is compared with the reference verdict",
        assumptions: &["windows that contain no instant but whose bounds are ordered, and second windows that end less than a second before an open first one, are left open", "a description uses one line per construct, as in the repository's examples", "readable lines in an order the grammar does not know are only required not to panic"],
        scenarios,
    })
}
