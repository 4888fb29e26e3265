//! Compares the channel replacement used under the explorer with the real crossbeam-channel.
//! `conform seq <depth>`: every sequence of non-blocking operations of one thread over two channels, both with and
//! without the scheduler: same results, lengths and moments at which messages are dropped.
//! `conform par`: every pair of threads with up to two operations each, blocking ones included: what the real crate
//! does when the operations are started in each possible order is among the outcomes the explorer finds.
use mcrt::rt::{explore, Mode};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { TrySend(usize), SendT(usize), Send(usize), TryRecv(usize), RecvT(usize), Recv(usize), CloneS(usize), CloneR(usize), DropS(usize), DropR(usize), Select, Iter(usize) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A { S(usize), TS(usize), R(usize), TR(usize), DS(usize), DR(usize), RT(usize), ST(usize), Sel, SelT }
/// sender, receiver, capacity
pub type Topo = Vec<(usize, usize, Option<usize>)>;

mod over_real { use ::real as ch; include!("prog.rs"); }
mod over_shim { use ::shim as ch; include!("prog.rs"); }

fn words<T: Copy>(al: &[T], n: usize) -> Vec<Vec<T>> {
    let mut cur = vec![vec![]];
    for _ in 0..n { cur = cur.iter().flat_map(|p: &Vec<T>| al.iter().map(move |a| { let mut q = p.clone(); q.push(*a); q })).collect(); }
    cur
}
fn seq(depth: usize) -> (usize, usize) {
    let one = [Op::TrySend(0), Op::SendT(0), Op::Send(0), Op::TryRecv(0), Op::RecvT(0), Op::Recv(0), Op::CloneS(0), Op::CloneR(0), Op::DropS(0), Op::DropR(0), Op::Select, Op::Iter(0)];
    let two = [Op::TrySend(0), Op::TrySend(1), Op::TryRecv(0), Op::TryRecv(1), Op::DropS(0), Op::DropS(1), Op::DropR(0), Op::DropR(1), Op::Select];
    let mut jobs: Vec<([Option<usize>; 2], Vec<Vec<Op>>)> = vec![];
    for c in [Some(1), Some(0), Some(2), None] {
        for w in words(&one, depth).chunks(2000) { jobs.push(([c, Some(1)], w.to_vec())); }
        for w in words(&two, depth).chunks(2000) { jobs.push(([c, Some(1)], w.to_vec())); }
    }
    // with the scheduler: one execution runs a chunk of sequences, there is nothing to interleave
    let (n, bad) = (AtomicUsize::new(0), AtomicUsize::new(0));
    for (caps, ws) in &jobs {
        let f = || {
            for w in ws {
                let (a, b) = (over_real::seq(*caps, w), over_shim::seq(*caps, w));
                if a != b { return Err(format!("{caps:?} {w:?}\n real {a:#?}\n shim {b:#?}")); }
            }
            Ok("same".to_string())
        };
        let e = explore(&f, Mode::Dpor, 3_000_000, 10, None, None, false);
        if let Some(v) = e.violation { bad.fetch_add(1, SeqCst); println!("DIFFERENT (scheduled) {:?}", v.0) }
        n.fetch_add(ws.len(), SeqCst);
    }
    // without
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
        let i = next.fetch_add(1, SeqCst);
        let Some((caps, ws)) = jobs.get(i) else { break };
        for w in ws {
            let (a, b) = (over_real::seq(*caps, w), over_shim::seq(*caps, w));
            if a != b { if bad.fetch_add(1, SeqCst) < 3 { println!("DIFFERENT (plain) {caps:?} {w:?}\n real {a:#?}\n shim {b:#?}") } }
        }
        n.fetch_add(ws.len(), SeqCst);
    }); });
    (n.into_inner(), bad.into_inner())
}
fn merges(a: usize, b: usize) -> Vec<[Vec<u64>; 2]> {
    let mut out = vec![];
    for m in 0u32..1 << (a + b) {
        if m.count_ones() as usize != a { continue }
        let mut o = [vec![], vec![]];
        for t in 0..a + b { o[if m >> t & 1 == 1 { 0 } else { 1 }].push(t as u64 + 1); }
        out.push(o);
    }
    out
}
fn par(len: usize) -> (usize, usize, usize) {
    let mut progs: Vec<(Topo, Vec<Vec<A>>)> = vec![];
    for cap in [Some(1), Some(0), None] {
        let t: Topo = vec![(0, 1, cap), (1, 0, Some(1))];
        for p in words(&[A::S(0), A::TS(0), A::DS(0), A::R(1), A::TR(1), A::DR(1), A::ST(0)], len) {
            for q in words(&[A::R(0), A::TR(0), A::DR(0), A::S(1), A::DS(1), A::RT(0)], len) { progs.push((t.clone(), vec![p.clone(), q])); }
        }
    }
    for (a, b) in [(Some(1), Some(1)), (None, Some(1)), (Some(0), Some(1)), (Some(0), Some(0))] {
        let t: Topo = vec![(0, 1, a), (0, 1, b)];
        // the replacement does not offer try_send to a receiver that waits in a selection on a rendezvous channel
        let first = if a == Some(0) { A::DS(0) } else { A::TS(0) };
        for p in words(&[A::S(0), A::S(1), first, A::DS(0), A::DS(1)], len) {
            for q in words(&[A::Sel, A::SelT, A::R(0), A::DR(1)], len) { progs.push((t.clone(), vec![p.clone(), q])); }
        }
    }
    // what the explorer finds
    mcrt::rt::set_patience(len as u32);
    let mut cases = vec![];
    for (t, ps) in progs {
        let f = || Ok(over_shim::par(&t, &ps, None));
        let e = explore(&f, Mode::Dpor, 2000, 100_000, None, None, true);
        if e.outcomes.keys().any(|k| k.contains("DEADLOCK")) { continue }
        cases.push((t, ps, e.outcomes.keys().cloned().collect::<Vec<_>>()));
    }
    let (next, n, bad) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let seen = Mutex::new(0usize);
    std::thread::scope(|s| for _ in 0..48 { s.spawn(|| loop {
        let i = next.fetch_add(1, SeqCst);
        let Some((t, ps, outs)) = cases.get(i) else { break };
        let mut got = vec![];
        for o in merges(ps[0].len(), ps[1].len()) {
            let r = over_real::par(t, ps, Some((&o, std::time::Duration::from_micros(1500))));
            n.fetch_add(1, SeqCst);
            if !outs.contains(&r) { if bad.fetch_add(1, SeqCst) < 3 { println!("NOT FOUND by the explorer: {t:?} {ps:?}: {r}\n explorer: {outs:?}") } }
            if !got.contains(&r) { got.push(r) }
        }
        *seen.lock().unwrap() += got.len();
    }); });
    println!("programs {} with {} outcomes in total, {} of them seen on the real crate", cases.len(), cases.iter().map(|c| c.2.len()).sum::<usize>(), seen.into_inner().unwrap());
    (cases.len(), n.into_inner(), bad.into_inner())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let bad = match a.get(1).map(|s| s.as_str()) {
        Some("seq") => { let (n, b) = seq(a[2].parse().unwrap()); println!("sequences {n} different {b}"); b },
        Some("par") => { let (n, r, b) = par(a[2].parse().unwrap()); println!("programs {n} runs {r} not found {b}"); b },
        _ => panic!("conform seq <depth> | par <len>"),
    };
    std::process::exit(if bad == 0 { 0 } else { 1 })
}
