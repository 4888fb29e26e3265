//! Timed protocol descriptions: enumeration, printing, the reference projection, the reference verdict, and a reader
//! of generated files that follows the types from the launched functions.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub label: String,
    pub payload: Option<String>,
    pub from: String,
    pub to: String,
    /// lower bound, closed?
    pub lo: (u128, bool),
    pub hi: (u128, bool),
    pub clock: char,
    pub reset: Option<char>,
}
#[derive(Clone, Debug)]
pub struct Branch {
    pub msgs: Vec<Msg>,
    /// the loop (index in `recs`) this branch goes back to
    pub cont: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Proto {
    pub name: String,
    /// in the order of the declaration
    pub roles: Vec<String>,
    pub pre: Vec<Msg>,
    /// nested loops, each with the messages before the next one
    pub recs: Vec<(String, Vec<Msg>)>,
    pub choice: Option<(String, Vec<Branch>)>,
}
/// Ways of laying out the same description.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Repo,
    /// braces of the protocol and of choices on the other line
    Braces,
    /// more spaces than needed, blank lines, trailing comma
    Spaced,
    /// as few spaces as the grammar allows
    Tight,
}
pub const STYLES: [Style; 4] = [Style::Repo, Style::Braces, Style::Spaced, Style::Tight];

pub fn msg_line(m: &Msg, st: Style) -> String {
    let win = |s: &str| format!("{}{s}{}{s};{s}{}{s}{}", if m.lo.1 { "[" } else { "]" }, m.lo.0, m.hi.0, if m.hi.1 { "]" } else { "[" });
    let (p, r) = (m.payload.clone().unwrap_or_default(), m.reset.map(String::from).unwrap_or_default());
    match st {
        Style::Spaced => format!("{}({p})  from   {}  to {}   within {} using   {}  and  resetting  ({r}) ;", m.label, m.from, m.to, win(" "), m.clock),
        _ => format!("{}({p}) from {} to {} within {} using {} and resetting ({r});", m.label, m.from, m.to, win(""), m.clock),
    }
}
impl Proto {
    pub fn lines(&self, st: Style) -> Vec<String> {
        let mut v = vec![];
        let sep = match st {
            Style::Spaced => " , ",
            Style::Tight => ",",
            _ => ", ",
        };
        let gap = if st == Style::Spaced { "   " } else { " " };
        let roles = self.roles.iter().map(|r| format!("role{gap}{r}")).collect::<Vec<_>>().join(sep);
        let sp = if st == Style::Spaced { " ," } else { "" };
        let head = format!("timed{gap}global{gap}protocol{gap}{}({roles}{sp})", self.name);
        match st {
            Style::Braces => v.extend([head, "{".into()]),
            Style::Tight => v.push(head + "{"),
            _ => v.push(head + " {"),
        }
        let mut ind = "    ".to_string();
        let put = |v: &mut Vec<String>, ind: &str, s: String| {
            if st == Style::Spaced {
                v.push(String::new());
            }
            v.push(if st == Style::Tight { s } else { format!("{ind}{s}") })
        };
        for m in &self.pre {
            put(&mut v, &ind, msg_line(m, st));
        }
        for (l, ms) in &self.recs {
            match st {
                Style::Braces => {
                    put(&mut v, &ind, format!("rec {l}"));
                    put(&mut v, &ind, "{".into());
                }
                Style::Tight => put(&mut v, &ind, format!("rec {l}{{")),
                _ => put(&mut v, &ind, format!("rec{gap}{l} {{")),
            }
            ind += "    ";
            for m in ms {
                put(&mut v, &ind, msg_line(m, st));
            }
        }
        if let Some((c, bs)) = &self.choice {
            match st {
                Style::Braces => put(&mut v, &ind, format!("choice at {c} {{")),
                Style::Tight => put(&mut v, &ind, format!("choice at {c}{{")),
                _ => {
                    put(&mut v, &ind, format!("choice{gap}at{gap}{c}"));
                    put(&mut v, &ind, "{".into());
                }
            }
            for (i, b) in bs.iter().enumerate() {
                if i > 0 {
                    let or = match st {
                        Style::Tight => "}or{",
                        Style::Spaced => "}  or   {",
                        _ => "} or {",
                    };
                    put(&mut v, &ind, or.into());
                }
                let inner = format!("{ind}    ");
                for m in &b.msgs {
                    put(&mut v, &inner, msg_line(m, st));
                }
                if let Some(k) = b.cont {
                    put(&mut v, &inner, format!("continue{gap}{}{};", self.recs[k].0, if st == Style::Spaced { "  " } else { "" }));
                }
            }
            put(&mut v, &ind, "}".into());
        }
        for _ in &self.recs {
            ind.truncate(ind.len() - 4);
            put(&mut v, &ind, "}".into());
        }
        v.push("}".into());
        v
    }
    pub fn text(&self, st: Style) -> String {
        self.lines(st).join("\n") + "\n"
    }
    /// Words of the description without timing.
    pub fn untimed_words(&self) -> Vec<String> {
        let mut s = format!("global protocol {}({}) {{\n", self.name, self.roles.iter().map(|r| format!("role {r}")).collect::<Vec<_>>().join(", "));
        let ml = |m: &Msg| format!("{}({}) from {} to {};\n", m.label, m.payload.clone().unwrap_or_default(), m.from, m.to);
        for m in &self.pre {
            s += &ml(m);
        }
        for (l, ms) in &self.recs {
            let _ = writeln!(s, "rec {l} {{");
            ms.iter().for_each(|m| s += &ml(m));
        }
        if let Some((c, bs)) = &self.choice {
            let _ = writeln!(s, "choice at {c} {{");
            for (i, b) in bs.iter().enumerate() {
                if i > 0 {
                    s += "} or {\n";
                }
                b.msgs.iter().for_each(|m| s += &ml(m));
                if let Some(k) = b.cont {
                    let _ = writeln!(s, "continue {};", self.recs[k].0);
                }
            }
            s += "}\n";
        }
        s += &"}".repeat(self.recs.len() + 1);
        words(&s)
    }
    /// The messages of the protocol's own block, and of each branch with the loop it goes back to unrolled.
    fn block0(&self) -> Vec<&Msg> {
        self.pre.iter().chain(self.recs.iter().flat_map(|r| r.1.iter())).collect()
    }
    fn branch(&self, b: &Branch) -> (Vec<Msg>, bool) {
        let mut v = b.msgs.clone();
        if let Some(k) = b.cont {
            v.extend(self.recs[k..].iter().flat_map(|r| r.1.iter().cloned()));
        }
        (v, b.cont.is_some())
    }
    pub fn sorted(&self) -> Vec<String> {
        let mut r = self.roles.clone();
        r.sort();
        r
    }
    pub fn size(&self) -> usize {
        self.block0().len() + self.choice.as_ref().map_or(0, |c| c.1.iter().map(|b| b.msgs.len() + 1).sum())
    }
    /// Whether generation must succeed; None where the property leaves it open.
    pub fn verdict(&self) -> Option<bool> {
        let mut open = false;
        let mut bad = false;
        let mut prev: BTreeMap<(String, char), (u128, bool)> = BTreeMap::new();
        let mut step = |m: &Msg, prev: &mut BTreeMap<(String, char), (u128, bool)>| {
            if !self.roles.contains(&m.from) || !self.roles.contains(&m.to) || m.from == m.to || m.lo.0 > m.hi.0 {
                bad = true;
                return;
            }
            if m.lo.0 == m.hi.0 && !(m.lo.1 && m.hi.1) {
                open = true;
            }
            for r in [&m.from, &m.to] {
                if let Some((h, c)) = prev.get(&(r.clone(), m.clock)) {
                    if m.hi.0 + (m.hi.1 as u128) < h + *c as u128 {
                        bad = true;
                    } else if m.hi.0 < *h {
                        // whole seconds or dense time?
                        open = true;
                    }
                }
                prev.insert((r.clone(), m.clock), m.hi);
                if let Some(c) = m.reset {
                    prev.remove(&(r.clone(), c));
                }
            }
        };
        for m in self.block0() {
            step(m, &mut prev);
        }
        if let Some((c, bs)) = &self.choice {
            for b in bs {
                let mut p = prev.clone();
                for m in &self.branch(b).0 {
                    step(m, &mut p);
                }
            }
            if !self.roles.contains(c) {
                bad = true;
            }
        }
        if bad {
            Some(false)
        } else if open {
            None
        } else {
            Some(true)
        }
    }
}
/// Splits into identifiers and single punctuation characters.
pub fn words(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c)
        } else {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
            if !c.is_whitespace() {
                v.push(c.to_string())
            }
        }
    }
    if !cur.is_empty() {
        v.push(cur)
    }
    v
}

/// A strict reader of descriptions. `None`: the text is not one. Layout does not matter here.
pub struct Read {
    pub proto: Proto,
    /// whether something in it is left open: names that are not Rust names, clocks of several letters, numbers beyond u64
    pub open: bool,
    /// a loop back to a loop that is not open there
    pub undeclared: bool,
}
pub fn parse(text: &str) -> Option<Read> {
    let toks = words(text);
    let mut p = P { t: &toks, i: 0 };
    let mut open = false;
    let mut undeclared = false;
    fn name(p: &mut P, open: &mut bool) -> Option<String> {
        let n = p.next().ok()?;
        if !n.starts_with(|c: char| c.is_alphanumeric() || c == '_') {
            return None;
        }
        *open |= !n.starts_with(|c: char| c.is_alphabetic());
        Some(n)
    }
    fn clock(p: &mut P, open: &mut bool) -> Option<char> {
        let n = name(p, open)?;
        *open |= n.chars().count() > 1;
        n.chars().next()
    }
    fn all(p: &mut P, ws: &[&str]) -> Option<()> {
        ws.iter().try_for_each(|w| p.want(w).ok())
    }
    fn bound(p: &mut P, open: &mut bool) -> Option<u128> {
        let n: u128 = p.next().ok()?.parse().ok()?;
        *open |= n > u64::MAX as u128;
        Some(n)
    }
    fn msgs(p: &mut P, open: &mut bool) -> Option<Vec<Msg>> {
        let mut v = vec![];
        while p.t.get(p.i + 1).is_some_and(|t| t == "(") {
            let label = name(p, open)?;
            all(p, &["("])?;
            let payload = if p.peek() == ")" { None } else { Some(name(p, open)?) };
            all(p, &[")", "from"])?;
            let from = name(p, open)?;
            all(p, &["to"])?;
            let to = name(p, open)?;
            all(p, &["within"])?;
            let bracket = |s: String| if s == "[" || s == "]" { Some(s) } else { None };
            let l = bracket(p.next().ok()?)? == "[";
            let lo = (bound(p, open)?, l);
            all(p, &[";"])?;
            let hi = (bound(p, open)?, bracket(p.next().ok()?)? == "]");
            all(p, &["using"])?;
            let clock_ = clock(p, open)?;
            all(p, &["and", "resetting", "("])?;
            let reset = if p.peek() == ")" { None } else { Some(clock(p, open)?) };
            all(p, &[")", ";"])?;
            *open |= payload.as_ref().is_some_and(|x| x.eq_ignore_ascii_case(&label));
            v.push(Msg { label, payload, from, to, lo, hi, clock: clock_, reset });
        }
        Some(v)
    }
    all(&mut p, &["timed", "global", "protocol"])?;
    let mut proto = Proto { name: name(&mut p, &mut open)?, roles: vec![], pre: vec![], recs: vec![], choice: None };
    all(&mut p, &["("])?;
    while p.peek() == "role" {
        p.i += 1;
        let r = name(&mut p, &mut open)?;
        open |= proto.roles.contains(&r);
        proto.roles.push(r);
        if p.peek() == "," {
            p.i += 1
        }
    }
    all(&mut p, &[")", "{"])?;
    if proto.roles.is_empty() {
        return None;
    }
    proto.pre = msgs(&mut p, &mut open)?;
    while p.peek() == "rec" {
        p.i += 1;
        let l = name(&mut p, &mut open)?;
        open |= proto.recs.iter().any(|r| r.0 == l);
        all(&mut p, &["{"])?;
        proto.recs.push((l, msgs(&mut p, &mut open)?));
    }
    if p.peek() == "choice" {
        all(&mut p, &["choice", "at"])?;
        let c = name(&mut p, &mut open)?;
        let mut bs = vec![];
        all(&mut p, &["{"])?;
        loop {
            let ms = msgs(&mut p, &mut open)?;
            let mut cont = None;
            if p.peek() == "continue" {
                p.i += 1;
                let l = name(&mut p, &mut open)?;
                all(&mut p, &[";"])?;
                cont = proto.recs.iter().position(|r| r.0 == l);
                undeclared |= cont.is_none();
            }
            bs.push(Branch { msgs: ms, cont });
            all(&mut p, &["}"])?;
            if p.peek() != "or" {
                break;
            }
            all(&mut p, &["or", "{"])?;
        }
        proto.choice = Some((c, bs));
    }
    open |= proto.choice.is_none() && !proto.recs.is_empty();
    for _ in 0..=proto.recs.len() {
        all(&mut p, &["}"])?;
    }
    if p.i != toks.len() {
        return None;
    }
    // a label with two payloads
    let mut labels: BTreeMap<String, Option<String>> = BTreeMap::new();
    for m in messages(&mut proto) {
        let l: String = m.label.chars().filter(|c| *c != '_').collect::<String>().to_lowercase();
        if labels.insert(l, m.payload.clone()).is_some_and(|o| o != m.payload) {
            open = true
        }
    }
    open |= labels.values().flatten().any(|x| labels.contains_key(&x.to_lowercase()));
    Some(Read { proto, open, undeclared })
}

/// Whether a line says one thing the grammar knows, besides braces.
pub fn readable(first: bool, line: &str) -> bool {
    let inner = line.trim_matches(|c: char| c.is_whitespace() || c == '{' || c == '}');
    let ws = words(inner);
    let ws: Vec<&str> = ws.iter().map(|w| w.as_str()).collect();
    let name = |w: &str| w.starts_with(|c: char| c.is_alphanumeric() || c == '_');
    if first {
        return ws.first() == Some(&"timed") && parse(&format!("{inner} {{ }}")).is_some();
    }
    match ws[..] {
        [] => true,
        ["or"] => words(line).windows(3).any(|x| x == ["}", "or", "{"]),
        ["choice", "at", n] | ["rec", n] | ["continue", n, ";"] => name(n),
        _ => parse(&format!("timed global protocol P(role A) {{ {inner} }}")).is_some_and(|p| p.proto.pre.len() == 1 && p.proto.recs.is_empty() && p.proto.choice.is_none()),
    }
}

// ---- reading a generated file ----
#[derive(Clone, Debug, PartialEq)]
struct Ty {
    name: String,
    args: Vec<Ty>,
}
#[derive(Default)]
pub struct File {
    types: BTreeMap<String, Ty>,
    /// struct -> type of its payload
    structs: BTreeMap<String, Option<String>>,
    enums: BTreeMap<String, Vec<(String, Ty)>>,
    /// function -> type of its session, clocks it creates
    fns: BTreeMap<String, (Ty, BTreeSet<String>)>,
    uses: BTreeSet<String>,
    roles: Vec<String>,
    forks: Vec<String>,
    joins: usize,
}
fn lex(s: &str) -> Result<Vec<String>, String> {
    let mut v = vec![];
    for line in s.lines() {
        let line = line.split("//").next().unwrap_or("");
        let c: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < c.len() {
            let st = i;
            if c[i].is_whitespace() {
                i += 1;
                continue;
            }
            if c[i].is_alphanumeric() || c[i] == '_' || (c[i] == '-' && c.get(i + 1).is_some_and(|d| d.is_ascii_digit())) {
                i += 1;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1
                }
            } else if c[i] == '\'' {
                i += 1;
                while i < c.len() && c[i] != '\'' {
                    i += 1
                }
                i += 1;
                if i > c.len() {
                    return Err(format!("unfinished character in {line:?}"));
                }
            } else if c[i] == '"' {
                i += 1;
                while i < c.len() && c[i] != '"' {
                    i += 1
                }
                i += 1;
            } else {
                i += 1
            }
            v.push(c[st..i.min(c.len())].iter().collect())
        }
    }
    Ok(v)
}
struct P<'a> {
    t: &'a [String],
    i: usize,
}
impl P<'_> {
    fn peek(&self) -> &str {
        self.t.get(self.i).map_or("", |s| s.as_str())
    }
    fn next(&mut self) -> Result<String, String> {
        self.i += 1;
        self.t.get(self.i - 1).cloned().ok_or_else(|| "unexpected end of the file".to_string())
    }
    fn want(&mut self, s: &str) -> Result<(), String> {
        let n = self.next()?;
        if n == s { Ok(()) } else { Err(format!("found {n:?} instead of {s:?} near {:?}", &self.t[self.i.saturating_sub(6)..self.i])) }
    }
    fn ty(&mut self) -> Result<Ty, String> {
        let mut name = self.next()?;
        while self.peek() == ":" {
            self.want(":")?;
            self.want(":")?;
            name = self.next()?;
        }
        let mut args = vec![];
        if self.peek() == "<" {
            self.i += 1;
            while self.peek() != ">" {
                args.push(self.ty()?);
                if self.peek() == "," {
                    self.i += 1
                }
            }
            self.want(">")?;
        }
        Ok(Ty { name, args })
    }
    /// The tokens between matching brackets.
    fn group(&mut self, o: &str, c: &str) -> Result<Vec<String>, String> {
        self.want(o)?;
        let (st, mut d) = (self.i, 1);
        while d > 0 {
            let n = self.next()?;
            d += (n == o) as i32 - (n == c) as i32;
        }
        Ok(self.t[st..self.i - 1].to_vec())
    }
}
fn unique<V>(m: &mut BTreeMap<String, V>, k: String, v: V) -> Result<(), String> {
    if m.contains_key(&k) { Err(format!("{k} is defined twice")) } else { m.insert(k, v); Ok(()) }
}
pub fn read(text: &str) -> Result<File, String> {
    let toks = lex(text)?;
    let mut p = P { t: &toks, i: 0 };
    let mut f = File::default();
    while p.i < toks.len() {
        match p.next()?.as_str() {
            "#" => {
                if p.peek() == "!" {
                    p.i += 1
                }
                p.group("[", "]")?;
            }
            "pub" => {}
            "use" => {
                let mut s = vec![];
                while p.peek() != ";" {
                    s.push(p.next()?)
                }
                p.i += 1;
                f.uses.extend(s.into_iter().filter(|x| x.chars().next().is_some_and(|c| c.is_alphabetic())));
            }
            "generate_atmp" => {
                p.want("!")?;
                let g = p.group("(", ")")?;
                f.roles = g.into_iter().filter(|x| x != ",").skip(1).collect();
                p.want(";")?;
            }
            "type" => {
                let n = p.next()?;
                p.want("=")?;
                let t = p.ty()?;
                p.want(";")?;
                unique(&mut f.types, n, t)?;
            }
            "struct" => {
                let n = p.next()?;
                let pay = if p.peek() == "{" {
                    let g = p.group("{", "}")?;
                    Some(g.last().cloned().ok_or("empty structure")?)
                } else {
                    p.want(";")?;
                    None
                };
                unique(&mut f.structs, n, pay)?;
            }
            "enum" => {
                let n = p.next()?;
                p.want("{")?;
                let mut v = vec![];
                while p.peek() != "}" {
                    let l = p.next()?;
                    p.want("(")?;
                    v.push((l, p.ty()?));
                    p.want(")")?;
                    if p.peek() == "," {
                        p.i += 1
                    }
                }
                p.want("}")?;
                unique(&mut f.enums, n, v)?;
            }
            "fn" => {
                let n = p.next()?;
                let args = p.group("(", ")")?;
                while p.peek() != "{" {
                    p.next()?;
                }
                let body = p.group("{", "}")?;
                if n == "main" {
                    let i = body.iter().position(|x| x == "fork_mpst").ok_or("main launches nothing")?;
                    f.forks = P { t: &body, i: i + 1 }.group("(", ")")?.into_iter().filter(|x| x != ",").collect();
                    f.joins = body.windows(2).filter(|w| w[0] == "." && w[1] == "join").count();
                } else {
                    let mut q = P { t: &args, i: 0 };
                    q.next()?;
                    q.want(":")?;
                    let t = q.ty()?;
                    let clocks = body.windows(3).filter(|w| w[0] == "insert" && w[1] == "(").map(|w| w[2].clone()).collect();
                    unique(&mut f.fns, n, (t, clocks))?;
                }
            }
            x => return Err(format!("unexpected {x:?}")),
        }
    }
    Ok(f)
}
fn norm(s: &str) -> String {
    s.chars().filter(|c| *c != '_').flat_map(|c| c.to_lowercase()).collect()
}
struct Want<'a> {
    p: &'a Proto,
    roles: Vec<String>,
    f: &'a File,
    pub states: u64,
    pub transitions: u64,
}
impl Want<'_> {
    fn resolve(&self, t: &Ty) -> Result<Ty, String> {
        let mut t = t.clone();
        for _ in 0..1000 {
            match self.f.types.get(&t.name) {
                Some(u) if t.args.is_empty() => t = u.clone(),
                _ => return Ok(t),
            }
        }
        Err(format!("{} is defined by itself", t.name))
    }
    fn lit(&self, t: &Ty, want: &str, what: &str) -> Result<(), String> {
        let same = t.name == want || t.name.parse::<i128>().is_ok_and(|n| want.parse() == Ok(n));
        if same { Ok(()) } else { Err(format!("{what} is {} instead of {want}", t.name)) }
    }
    /// Compares one endpoint with the projection of a block; returns the enumeration the choice at its end is received in.
    fn endpoint(&mut self, t: &Ty, role: &str, msgs: &[&Msg], chooser: Option<&str>) -> Result<Option<BTreeMap<String, String>>, String> {
        self.states += 1;
        let e = self.resolve(t)?;
        if e.name != "MeshedChannels" || e.args.len() != self.roles.len() + 1 {
            return Err(format!("{} is not an endpoint for {} roles", t.name, self.roles.len()));
        }
        let others: Vec<String> = self.roles.iter().filter(|r| *r != role).cloned().collect();
        let mut choice = BTreeMap::new();
        for (i, o) in others.iter().enumerate() {
            let what = format!("{}, {role} with {o}", t.name);
            let mut s = self.resolve(&e.args[i])?;
            for m in msgs.iter().filter(|m| (m.from == role && m.to == *o) || (m.to == role && m.from == *o)) {
                self.transitions += 1;
                let k = if m.from == role { "SendTimed" } else { "RecvTimed" };
                let what = format!("{what}, at {}", m.label);
                if s.name != k || s.args.len() != 8 {
                    return Err(format!("{what}: {} instead of {k}", s.name));
                }
                let a = s.args.clone();
                if norm(&a[0].name) != norm(&m.label) {
                    return Err(format!("{what}: the message is {}", a[0].name));
                }
                let pay = self.f.structs.get(&a[0].name).ok_or_else(|| format!("{what}: {} is not defined", a[0].name))?;
                match (pay, &m.payload) {
                    (None, None) => {}
                    (Some(x), Some(y)) if norm(x) == norm(y) && self.f.structs.contains_key(x) => {}
                    _ => return Err(format!("{what}: the payload is {pay:?} instead of {:?}", m.payload)),
                }
                self.lit(&a[1], &format!("'{}'", m.clock), &format!("{what}: the clock"))?;
                self.lit(&a[2], &m.lo.0.to_string(), &format!("{what}: the lower bound"))?;
                self.lit(&a[3], &m.lo.1.to_string(), &format!("{what}: the inclusion of the lower bound"))?;
                self.lit(&a[4], &m.hi.0.to_string(), &format!("{what}: the upper bound"))?;
                self.lit(&a[5], &m.hi.1.to_string(), &format!("{what}: the inclusion of the upper bound"))?;
                self.lit(&a[6], &format!("'{}'", m.reset.unwrap_or(' ')), &format!("{what}: the reset"))?;
                s = self.resolve(&a[7])?;
            }
            let involved = chooser.filter(|c| *c == role || c == o);
            if let Some(c) = involved {
                let k = if c == role { "SendTimed" } else { "RecvTimed" };
                if s.name != k || s.args.len() != 8 {
                    return Err(format!("{what}: {} instead of the choice of {c}", s.name));
                }
                let a = &s.args;
                let n = |t: &Ty| t.name.parse::<i128>().map_err(|_| format!("{what}: {} is no bound", t.name));
                if n(&a[2])? >= 0 || n(&a[4])? < n(&a[2])? || n(&a[4])? >= 0 || a[3].name != "false" || a[5].name != "false" || a[6].name != "' '" {
                    return Err(format!("{what}: the choice of {c} is timed or resets a clock"));
                }
                if self.resolve(&a[7])?.name != "End" {
                    return Err(format!("{what}: something follows the choice"));
                }
                self.transitions += 1;
                choice.insert(if c == role { o.clone() } else { role.to_string() }, a[0].name.clone());
            } else if s.name != "End" {
                return Err(format!("{what}: {} instead of the end", s.name));
            }
        }
        let mut st = self.resolve(&e.args[others.len()])?;
        for m in msgs.iter().filter(|m| m.from == role || m.to == role) {
            let k = format!("Role{}", if m.from == role { &m.to } else { &m.from });
            if st.name != k || st.args.len() != 1 {
                return Err(format!("{}: the stack has {} instead of {k} at {}", t.name, st.name, m.label));
            }
            st = self.resolve(&st.args[0])?;
        }
        match chooser {
            Some(c) if c == role => {
                if st.name != "RoleBroadcast" {
                    return Err(format!("{}: the stack ends with {} instead of RoleBroadcast", t.name, st.name));
                }
            }
            Some(c) => {
                if st.name != format!("Role{c}") || st.args.len() != 1 {
                    return Err(format!("{}: the stack ends with {} instead of the choice of {c}", t.name, st.name));
                }
                st = self.resolve(&st.args[0])?;
                if st.name != "RoleEnd" {
                    return Err(format!("{}: the stack goes on after the choice", t.name));
                }
            }
            None if st.name != "RoleEnd" => return Err(format!("{}: the stack ends with {}", t.name, st.name)),
            None => {}
        }
        self.lit(&e.args[others.len() + 1 - 1 + 1], &format!("Name{role}"), &format!("{}: the name", t.name))?;
        Ok(chooser.map(|_| choice))
    }
    fn skeleton(&self, t: &Ty, role: &str) -> Result<(), String> {
        let p = self.p;
        let all = p.block0().into_iter().chain(p.choice.iter().flat_map(|c| c.1.iter().flat_map(|b| b.msgs.iter())));
        let mut want = BTreeSet::new();
        for m in all.filter(|m| m.from == role || m.to == role) {
            want.insert(format!("'{}'", m.clock));
            want.extend(m.reset.map(|c| format!("'{c}'")));
        }
        let mut n = 0;
        for (name, (ty, clocks)) in &self.f.fns {
            if ty == t {
                n += 1;
                if *clocks != want {
                    return Err(format!("{name} creates the clocks {clocks:?} instead of {want:?}"));
                }
            }
        }
        if n == 0 { Err(format!("no function for {}", t.name)) } else { Ok(()) }
    }
}
/// Compares a generated file with the projection of the description. Returns the endpoints and steps compared.
pub fn check(p: &Proto, text: &str) -> Result<(u64, u64), String> {
    let f = read(text)?;
    let roles = p.sorted();
    if f.roles != roles {
        return Err(format!("the endpoints are generated for {:?}, the description has {roles:?}", f.roles));
    }
    let mut uses = vec!["End", "RecvTimed", "SendTimed", "generate_atmp", "RoleEnd", "HashMap", "Error", "Instant"];
    if p.choice.is_some() {
        uses.push("RoleBroadcast")
    }
    if let Some(u) = uses.iter().find(|u| !f.uses.contains(**u)) {
        return Err(format!("{u} is not imported"));
    }
    if f.forks.len() != roles.len() || f.joins != roles.len() {
        return Err(format!("main launches {:?} and joins {}", f.forks, f.joins));
    }
    let mut w = Want { p, roles: roles.clone(), f: &f, states: 0, transitions: 0 };
    let b0 = p.block0();
    let chooser = p.choice.as_ref().map(|c| c.0.as_str());
    // (role, enumerations it announces or receives its choice in)
    let mut enums: Vec<BTreeMap<String, String>> = vec![];
    let mut starts = vec![];
    for (i, r) in roles.iter().enumerate() {
        let (t, _) = f.fns.get(&f.forks[i]).ok_or_else(|| format!("{} is not defined", f.forks[i]))?;
        starts.push(t.clone());
        w.skeleton(t, r)?;
        enums.extend(w.endpoint(t, r, &b0, chooser)?);
    }
    let Some((c, bs)) = &p.choice else { return Ok((w.states, w.transitions)) };
    let agree = |enums: &[BTreeMap<String, String>]| -> Result<BTreeMap<String, String>, String> {
        let mut all = BTreeMap::new();
        for e in enums {
            for (r, n) in e {
                if all.insert(r.clone(), n.clone()).is_some_and(|o| o != *n) {
                    return Err(format!("{c} announces another choice than {r} expects: {n}"));
                }
            }
        }
        Ok(all)
    };
    let kinds = agree(&enums)?;
    if kinds.len() + 1 != roles.len() || kinds.values().collect::<BTreeSet<_>>().len() != kinds.len() {
        return Err(format!("the choice of {c} is announced with {kinds:?}"));
    }
    let mut names: Option<Vec<String>> = None;
    for (r, e) in &kinds {
        let vs = f.enums.get(e).ok_or_else(|| format!("{e} is not defined"))?;
        let ns: Vec<String> = vs.iter().map(|v| v.0.clone()).collect();
        if ns.len() != bs.len() || names.as_ref().is_some_and(|n| *n != ns) || ns.iter().collect::<BTreeSet<_>>().len() != ns.len() {
            return Err(format!("{e} has the branches {ns:?}"));
        }
        names = Some(ns);
        for (b, v) in bs.iter().zip(vs) {
            let (ms, again) = p.branch(b);
            let ms: Vec<&Msg> = ms.iter().collect();
            w.skeleton(&v.1, r)?;
            let k = w.endpoint(&v.1, r, &ms, Some(c.as_str()).filter(|_| again)).map_err(|x| format!("branch {}: {x}", v.0))?;
            // a loop leads to the same choice again
            if let Some(k) = k {
                agree(&[k, kinds.clone()])?;
            }
            // the chooser's endpoint of this branch, named after the receiver's
            let own = Ty { name: format!("{}{c}", v.1.name.strip_suffix(r.as_str()).ok_or_else(|| format!("{} is not named after {r}", v.1.name))?), args: vec![] };
            w.skeleton(&own, c)?;
            let k = w.endpoint(&own, c, &ms, Some(c.as_str()).filter(|_| again)).map_err(|x| format!("branch {}: {x}", v.0))?;
            if let Some(k) = k {
                agree(&[k, kinds.clone()])?;
            }
        }
    }
    Ok((w.states, w.transitions))
}

// ---- running the generator ----
/// A scratch directory the process works in; removed at the end.
pub struct World {
    pub dir: std::path::PathBuf,
}
impl World {
    pub fn new(tag: &str) -> World {
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { std::env::temp_dir() };
        let dir = base.join(format!("mc-{tag}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("work")).unwrap();
        std::fs::create_dir_all(dir.join("out")).unwrap();
        std::env::set_current_dir(dir.join("work")).unwrap();
        World { dir }
    }
    /// Runs the generator on the text. `Err` is an error (or panic), with the text.
    pub fn generate(&self, text: &str, validate: bool) -> Result<Option<String>, String> {
        let out = self.dir.join("out");
        for e in std::fs::read_dir(&out).unwrap().flatten() {
            let _ = std::fs::remove_file(e.path());
        }
        let input = self.dir.join("in.nuscr");
        std::fs::write(&input, text).unwrap();
        let (i, o) = (input.to_str().unwrap().to_string(), format!("{}/", out.display()));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            mpstthree::top_down_nuscr::generator::generator(&i, &o, validate).map_err(|e| e.to_string())
        }))
        .unwrap_or_else(|e| Err(format!("panic: {}", mcrt::rt::panic_text(&e))));
        r.map(|()| self.outputs().pop().map(|f| std::fs::read_to_string(f).unwrap_or_default()))
    }
    pub fn outputs(&self) -> Vec<std::path::PathBuf> {
        std::fs::read_dir(self.dir.join("out")).unwrap().flatten().map(|e| e.path()).collect()
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

// ---- enumeration ----
/// All words of exactly `len` letters of an alphabet.
pub fn seqs<T: Clone>(alph: &[T], len: usize) -> Vec<Vec<T>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|s| alph.iter().map(move |a| { let mut s: Vec<T> = s.clone(); s.push(a.clone()); s })).collect();
    }
    v
}
pub fn upto<T: Clone>(alph: &[T], len: usize) -> Vec<Vec<T>> {
    (0..=len).flat_map(|l| seqs(alph, l)).collect()
}
pub fn pairs(roles: &[String]) -> Vec<(String, String)> {
    roles.iter().flat_map(|a| roles.iter().filter(move |b| *b != a).map(move |b| (a.clone(), b.clone()))).collect()
}
pub fn strs(s: &[&str]) -> Vec<String> {
    s.iter().map(|s| s.to_string()).collect()
}
/// A message with attributes that depend on its number only.
pub fn plain(i: usize, (from, to): &(String, String)) -> Msg {
    Msg {
        label: format!("M{i}"),
        payload: [None, Some("Data".to_string()), Some("payload".to_string())][i % 3].clone(),
        from: from.clone(),
        to: to.clone(),
        lo: ((i % 2) as u128, i % 3 != 1),
        hi: (10, true),
        clock: ['a', 'b'][i % 2],
        reset: [None, Some('a'), None, Some('b')][i % 4],
    }
}

/// Names of roles, among them words of the grammar.
pub const NAME_SETS: [&[&str]; 8] = [&["Prec", "or", "global1"], &["A", "B", "C"], &["Seller", "Buyer", "Bank"], &["R1", "R10", "R2"], &["Srv_1", "S", "Srv"], &["Z", "A", "M"], &["timed", "untimed", "role"], &["within", "protocol", "continue"]];
/// Descriptions of more than a few roles, messages, clocks, loops and branches, every one well-formed.
pub fn large(th: bool) -> Vec<Proto> {
    let names = ["Alice", "Bob_2", "Carol", "D", "Eve10", "Eve1", "Frank", "G"];
    let clocks: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
    let mut v = vec![];
    for n in if th { vec![2, 3, 4, 5, 6, 7, 8] } else { vec![2, 4, 5, 7] } {
        for order in 0..if th { 3 } else { 2 } {
            let mut roles = strs(&names[..n]);
            match order {
                0 => roles.reverse(),
                1 => roles.rotate_left(n / 2),
                _ => {}
            }
            let ps = pairs(&roles);
            for (pre, depth, branches, len) in [(12, 0, 0, 0), (30, 0, 0, 0), (0, 0, 12, 1), (3, 1, 5, 4), (11, 3, 6, 2), (1, 4, 4, 3), (0, 2, 11, 2), (5, 3, 1, 0)] {
                let mut k = order;
                let mut ms = |m: usize| -> Vec<Msg> {
                    (0..m).map(|_| {
                        k += 1;
                        let mut x = plain(k, &ps[(k * 5 + k / ps.len()) % ps.len()]);
                        x.clock = clocks[k % clocks.len()];
                        let (l, h) = [(0, 9), (7, 12), (99, 100), (12, 1200), (5, 5), (0, 0)][k % 6];
                        (x.lo, x.hi) = ((l, l == h || k % 2 == 0), (h, l == h || k % 3 != 0));
                        x.reset = if k % 4 == 0 { Some(clocks[(k + 1) % clocks.len()]) } else { Some(x.clock) };
                        if x.reset != Some(x.clock) {
                            // as the clock goes on, so does the window
                            (x.lo, x.hi) = ((0, true), (4000000000, true));
                        }
                        if k % 5 == 0 {
                            x.label = ["Again", "rec", "choice", "Data_9"][k / 5 % 4].into();
                            x.payload = None;
                        }
                        x
                    }).collect()
                };
                let mut p = Proto { name: format!("Large{n}"), roles: roles.clone(), pre: ms(pre), recs: vec![], choice: None };
                p.recs = ["Loop", "Loop2", "L", "Zz_4"][..depth].iter().enumerate().map(|(i, l)| (l.to_string(), ms([2, 0, 1, 3][i]))).collect();
                if branches > 0 {
                    let bs = (0..branches).map(|i| Branch { msgs: ms(if len == 0 { 0 } else { (i + 1) % (len + 1) }), cont: (depth > 0 && i % 3 != 1).then(|| (i * 2 + i / 3) % depth) }).collect();
                    p.choice = Some((roles[(pre + order) % n].clone(), bs));
                }
                v.push(p);
            }
        }
    }
    v
}
/// Every message of a description.
pub fn messages(p: &mut Proto) -> Vec<&mut Msg> {
    let Proto { pre, recs, choice, .. } = p;
    pre.iter_mut().chain(recs.iter_mut().flat_map(|r| r.1.iter_mut())).chain(choice.iter_mut().flat_map(|c| c.1.iter_mut().flat_map(|b| b.msgs.iter_mut()))).collect()
}
