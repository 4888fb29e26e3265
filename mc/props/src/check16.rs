//! Global protocols, their endpoint types as text, and the automata they prescribe (C16, C17).
use petgraph::Graph;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum G {
    End,
    Msg(usize, usize, usize, Rc<G>),
    /// identity, chooser, branches
    Choice(usize, usize, Vec<G>),
    /// back to an enclosing choice
    Ref(usize),
}
use G::*;
pub fn msg(p: usize, q: usize, t: usize, g: G) -> G {
    Msg(p, q, t, Rc::new(g))
}
pub fn show(g: &G) -> String {
    match g {
        End => "end".into(),
        Msg(p, q, t, g) => format!("{p}->{q}:{t}; {}", show(g)),
        Choice(i, p, bs) => format!("choice{i} by {p} {{ {} }}", bs.iter().map(show).collect::<Vec<_>>().join(" | ")),
        Ref(i) => format!("again{i}"),
    }
}
/// Names and texts of one family of protocols.
#[derive(Clone)]
pub struct Names {
    /// letter names, in increasing order
    pub roles: Vec<String>,
    /// payload types as `type_name` prints them, and as the automaton names them
    pub payloads: Vec<(String, String)>,
    /// choices made with `Either` instead of enums
    pub either: bool,
    /// path of the user's own items
    pub user: String,
    pub labels: Vec<String>,
}
impl Names {
    pub fn n(&self) -> usize {
        self.roles.len()
    }
    fn lib(&self) -> bool {
        self.roles == ["A", "B", "C"]
    }
    fn role(&self, p: usize) -> String {
        let r = &self.roles[p];
        if self.lib() { format!("mpstthree::role::{}::Role{r}", r.to_lowercase()) } else { format!("{}Role{r}", self.user) }
    }
    fn name(&self, p: usize) -> String {
        let r = &self.roles[p];
        if self.lib() { format!("mpstthree::name::{}::Name{r}", r.to_lowercase()) } else { format!("{}Name{r}", self.user) }
    }
    fn mesh(&self) -> String {
        if self.lib() { "mpstthree::meshedchannels::MeshedChannels".into() } else { format!("{}MeshedChannels", self.user) }
    }
    fn enum_name(&self, id: usize, p: usize, r: usize) -> String {
        format!("Branches{id}{}from{}", self.roles[r], self.roles[p])
    }
    fn label(&self, b: usize) -> String {
        self.labels[b].clone()
    }
}
fn end() -> String {
    "mpstthree::binary::struct_trait::end::End".into()
}
fn role_end() -> String {
    "mpstthree::role::end::RoleEnd".into()
}
fn snd(t: &str, s: &str) -> String {
    format!("mpstthree::binary::struct_trait::send::Send<{t}, {s}>")
}
fn rcv(t: &str, s: &str) -> String {
    format!("mpstthree::binary::struct_trait::recv::Recv<{t}, {s}>")
}
pub struct Types<'a> {
    pub nm: &'a Names,
    /// chooser of each choice
    pub chooser: HashMap<usize, usize>,
    pub branches_receivers: HashMap<String, HashMap<String, String>>,
    pub branching_sessions: HashMap<String, String>,
    pub group_branches: HashMap<String, i32>,
    groups: i32,
}
impl<'a> Types<'a> {
    pub fn new(nm: &'a Names, g: &G) -> Types<'a> {
        let mut chooser = HashMap::new();
        fn walk(g: &G, m: &mut HashMap<usize, usize>) {
            match g {
                Msg(_, _, _, g) => walk(g, m),
                Choice(i, p, bs) => {
                    m.insert(*i, *p);
                    bs.iter().for_each(|b| walk(b, m))
                }
                _ => (),
            }
        }
        walk(g, &mut chooser);
        let mut t = Types { nm, chooser, branches_receivers: HashMap::new(), branching_sessions: HashMap::new(), group_branches: HashMap::new(), groups: 0 };
        t.tables(g);
        t
    }
    fn tables(&mut self, g: &G) {
        match g {
            Msg(_, _, _, g) => self.tables(g),
            Choice(i, p, bs) if !self.nm.either => {
                for (k, b) in bs.iter().enumerate() {
                    for r in (0..self.nm.n()).filter(|r| r != p) {
                        let e = self.nm.enum_name(*i, *p, r);
                        let full = format!("{e}::{}", self.nm.label(k));
                        let t = self.endpoint(b, r);
                        self.branches_receivers.entry(e).or_default().insert(self.nm.label(k), t);
                        let c = self.endpoint(b, *p);
                        self.branching_sessions.insert(full.clone(), c);
                        self.group_branches.insert(full, self.groups);
                    }
                    self.groups += 1;
                }
                bs.iter().for_each(|b| self.tables(b))
            }
            Choice(_, _, bs) => bs.iter().for_each(|b| self.tables(b)),
            _ => (),
        }
    }
    fn at_choice(&self, i: usize, r: usize) -> (Vec<String>, String) {
        let (p, n) = (self.chooser[&i], self.nm.n());
        let mut s = vec![end(); n];
        if r == p {
            for q in 0..n {
                s[q] = snd(&format!("{}{}", self.nm.user, self.nm.enum_name(i, p, q)), &end())
            }
            (s, "mpstthree::role::broadcast::RoleBroadcast".into())
        } else {
            s[p] = rcv(&format!("{}{}", self.nm.user, self.nm.enum_name(i, p, r)), &end());
            (s, format!("{}<{}>", self.nm.role(p), role_end()))
        }
    }
    /// sessions with every role, and stack
    fn parts(&self, g: &G, r: usize) -> (Vec<String>, String) {
        let n = self.nm.n();
        match g {
            End => (vec![end(); n], role_end()),
            Ref(i) => self.at_choice(*i, r),
            Choice(i, _, _) if !self.nm.either => self.at_choice(*i, r),
            Choice(_, p, bs) => {
                let mut s = vec![end(); n];
                let or = |q: usize| format!("either::Either<{}, {}>", self.endpoint(&bs[0], q), self.endpoint(&bs[1], q));
                let low = self.nm.roles[*p].to_lowercase();
                let (l, x) = (&bs[0], &bs[1]);
                let user = if self.nm.lib() { "mpstthree::role::" } else { &self.nm.user };
                let path = |a: &str, b: String| if self.nm.lib() { format!("{user}{a}::{b}") } else { format!("{user}{b}") };
                if r == *p {
                    for q in 0..n {
                        if q != r {
                            s[q] = snd(&or(q), &end())
                        }
                    }
                    let stack = format!("{}<{}, {}>", path(&format!("{low}_to_all"), format!("Role{}toAll", self.nm.roles[*p])), self.parts(l, r).1, self.parts(x, r).1);
                    (s, stack)
                } else {
                    s[*p] = rcv(&or(r), &end());
                    (s, format!("{}<{}, {}>", path(&format!("all_to_{low}"), format!("RoleAllto{}", self.nm.roles[*p])), role_end(), role_end()))
                }
            }
            Msg(p, q, t, k) => {
                let (mut s, st) = self.parts(k, r);
                let ty = &self.nm.payloads[*t].0;
                if r == *p {
                    s[*q] = snd(ty, &s[*q]);
                    (s, format!("{}<{st}>", self.nm.role(*q)))
                } else if r == *q {
                    s[*p] = rcv(ty, &s[*p]);
                    (s, format!("{}<{st}>", self.nm.role(*p)))
                } else {
                    (s, st)
                }
            }
        }
    }
    pub fn endpoint(&self, g: &G, r: usize) -> String {
        let (s, st) = self.parts(g, r);
        let mut v: Vec<String> = (0..self.nm.n()).filter(|q| *q != r).map(|q| s[q].clone()).collect();
        v.push(st);
        v.push(self.nm.name(r));
        format!("{}<{}>", self.nm.mesh(), v.join(", "))
    }
}
/// Nondeterministic automaton; the label "0" marks completion.
#[derive(Default, Debug)]
pub struct Nfa {
    pub eps: Vec<Vec<usize>>,
    pub out: Vec<Vec<(String, usize)>>,
}
impl Nfa {
    pub fn state(&mut self) -> usize {
        self.eps.push(vec![]);
        self.out.push(vec![]);
        self.out.len() - 1
    }
    fn close(&self, s: BTreeSet<usize>) -> BTreeSet<usize> {
        let mut t = s.clone();
        let mut w: Vec<usize> = s.into_iter().collect();
        while let Some(x) = w.pop() {
            for y in &self.eps[x] {
                if t.insert(*y) {
                    w.push(*y)
                }
            }
        }
        t
    }
    fn step(&self, s: &BTreeSet<usize>) -> BTreeMap<String, BTreeSet<usize>> {
        let mut m: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
        for x in s {
            for (l, y) in &self.out[*x] {
                m.entry(l.clone()).or_default().insert(*y);
            }
        }
        m.into_iter().map(|(l, s)| (l, self.close(s))).collect()
    }
}
/// The automaton a role's part of the protocol prescribes.  `edge` names an action.
pub fn reference(nm: &Names, g: &G, r: usize, edge: &dyn Fn(bool, usize, &str) -> String, with_end: bool) -> Nfa {
    let mut a = Nfa::default();
    let s0 = a.state();
    fn go(a: &mut Nfa, nm: &Names, g: &G, r: usize, at: usize, edge: &dyn Fn(bool, usize, &str) -> String, env: &mut HashMap<usize, usize>, we: bool) {
        match g {
            End => {
                if we {
                    let f = a.state();
                    a.out[at].push(("0".into(), f))
                }
            }
            Ref(i) => a.eps[at].push(env[i]),
            Choice(i, _, bs) => {
                let old = env.insert(*i, at);
                for b in bs {
                    go(a, nm, b, r, at, edge, env, we)
                }
                match old {
                    Some(o) => env.insert(*i, o),
                    None => env.remove(i),
                };
            }
            Msg(p, q, t, k) => {
                if r != *p && r != *q {
                    return go(a, nm, k, r, at, edge, env, we);
                }
                let n = a.state();
                let l = edge(r == *p, if r == *p { *q } else { *p }, &nm.payloads[*t].1);
                a.out[at].push((l, n));
                go(a, nm, k, r, n, edge, env, we)
            }
        }
    }
    go(&mut a, nm, g, r, s0, edge, &mut HashMap::new(), with_end);
    a
}
/// The automaton of a returned graph ("µ" edges are silent).
pub fn of_graph(g: &Graph<String, String>) -> Nfa {
    let mut a = Nfa::default();
    for _ in g.node_indices() {
        a.state();
    }
    for e in g.raw_edges() {
        let (s, t) = (e.source().index(), e.target().index());
        if e.weight == "µ" { a.eps[s].push(t) } else { a.out[s].push((e.weight.clone(), t)) }
    }
    a
}
/// The automata of a file for the external tool: one per role, in the order of the roles.
pub fn of_file(nm: &Names, txt: &str) -> Result<Vec<Nfa>, String> {
    let mut v = vec![];
    let mut lines = txt.lines().filter(|l| !l.trim().is_empty());
    for r in &nm.roles {
        let me = format!("Role{r}");
        let mut next = || lines.next().ok_or("the file ends early");
        if next()? != ".outputs" || next()? != ".state graph" {
            return Err(format!("wrong header of the automaton of {me}"));
        }
        let mut a = Nfa::default();
        a.state();
        let mut ids: HashMap<String, usize> = HashMap::new();
        ids.insert(format!("{me}0"), 0);
        loop {
            let l = next()?;
            if let Some(m) = l.strip_prefix(".marking ") {
                if m != format!("{me}0") {
                    return Err(format!("marking {m} in the automaton of {me}"));
                }
                if next()? != ".end" {
                    return Err(format!("missing end of the automaton of {me}"));
                }
                break;
            }
            let w: Vec<&str> = l.split(' ').collect();
            if w.len() != 5 || !(w[2] == "!" || w[2] == "?") || !w[0].starts_with(&me) || !w[4].starts_with(&me) {
                return Err(format!("line {l:?} in the automaton of {me}"));
            }
            let mut st = |s: &str, a: &mut Nfa| {
                let n = ids.len();
                *ids.entry(s.to_string()).or_insert_with(|| {
                    let k = a.state();
                    debug_assert_eq!(k, n);
                    k
                })
            };
            let (s, t) = (st(w[0], &mut a), st(w[4], &mut a));
            a.out[s].push((format!("{} {} {}", w[1], w[2], w[3]), t));
        }
        v.push(a);
    }
    if lines.next().is_some() {
        return Err("more automata than roles".into());
    }
    Ok(v)
}
/// Explores the product of the two determinised automata; (states, transitions) or the shortest
/// sequence of actions after which they differ.
pub fn same(a: &Nfa, b: &Nfa) -> Result<(u64, u64), String> {
    let start = (a.close([0].into()), b.close([0].into()));
    let mut seen = BTreeSet::from([start.clone()]);
    let mut q = std::collections::VecDeque::from([(start, String::new())]);
    let (mut ns, mut nt) = (0, 0);
    while let Some(((x, y), path)) = q.pop_front() {
        ns += 1;
        let (mx, my) = (a.step(&x), b.step(&y));
        let (kx, ky): (Vec<&String>, Vec<&String>) = (mx.keys().collect(), my.keys().collect());
        if kx != ky {
            return Err(format!("after [{path}]: prescribed next actions {kx:?}, exported next actions {ky:?}"));
        }
        for (l, x2) in &mx {
            nt += 1;
            let s = (x2.clone(), my[l].clone());
            if seen.insert(s.clone()) {
                q.push_back((s, if path.is_empty() { l.clone() } else { format!("{path}, {l}") }));
            }
        }
    }
    Ok((ns, nt))
}
/// All permutations of 0..n.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for k in 0..=p.len() {
            let mut q = p.clone();
            q.insert(k, n - 1);
            v.push(q);
        }
    }
    v.sort();
    v
}
