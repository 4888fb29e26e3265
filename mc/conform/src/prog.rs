// Included twice: over the real crate and over the replacement.
use std::sync::{Arc, Mutex, atomic::{AtomicU64, Ordering}};
use std::time::Duration;
use crate::{Op, A, Topo};

/// A message that records when it is dropped.
pub struct M(pub u32, pub Arc<Mutex<Vec<u32>>>);
impl Drop for M { fn drop(&mut self) { self.1.lock().unwrap().push(self.0) } }
impl std::fmt::Debug for M { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "m{}", self.0) } }

fn mk<T>(c: Option<usize>) -> (ch::Sender<T>, ch::Receiver<T>) { match c { Some(c) => ch::bounded(c), None => ch::unbounded() } }

/// One thread, two channels, every operation that cannot block for ever.
pub fn seq(caps: [Option<usize>; 2], ops: &[Op]) -> Vec<String> {
    let dropped = Arc::new(Mutex::new(vec![]));
    let (mut s, mut r): (Vec<Vec<ch::Sender<M>>>, Vec<Vec<ch::Receiver<M>>>) = (vec![], vec![]);
    for c in caps { let (a, b) = mk(c); s.push(vec![a]); r.push(vec![b]); }
    let mut out = vec![];
    let zero = Duration::from_millis(0);
    let (pa, pb) = ch::bounded(1);
    for (i, o) in ops.iter().enumerate() {
        // tells the scheduler that this is no busy waiting
        pa.try_send(()).unwrap();
        pb.try_recv().unwrap();
        let m = || M(i as u32, dropped.clone());
        let t = match *o {
            Op::TrySend(c) => s[c].first().map(|s| format!("{:?}", s.try_send(m()))),
            Op::SendT(c) => s[c].first().map(|s| format!("{:?}", s.send_timeout(m(), zero))),
            // only where it returns at once
            Op::Send(c) => s[c].first().and_then(|x| if r[c].is_empty() || (!x.is_full() && x.capacity() != Some(0)) { Some(format!("{:?}", x.send(m()))) } else { None }),
            Op::TryRecv(c) => r[c].first().map(|r| format!("{:?}", r.try_recv())),
            Op::RecvT(c) => r[c].first().map(|r| format!("{:?}", r.recv_timeout(zero))),
            Op::Recv(c) => r[c].first().and_then(|x| if s[c].is_empty() || !x.is_empty() { Some(format!("{:?}", x.recv())) } else { None }),
            Op::CloneS(c) => { if s[c].len() == 1 { let x = s[c][0].clone(); s[c].push(x) } None },
            Op::CloneR(c) => { if r[c].len() == 1 { let x = r[c][0].clone(); r[c].push(x) } None },
            Op::DropS(c) => { s[c].pop(); None },
            Op::DropR(c) => { r[c].pop(); None },
            Op::Select => {
                let rs: Vec<&ch::Receiver<M>> = r.iter().flatten().collect();
                if rs.is_empty() { None } else {
                    let mut sel = ch::Select::new();
                    for x in &rs { sel.recv(x); }
                    // the real crate chooses at random: what is compared is whether there is a ready one
                    Some(format!("{:?} {:?}", sel.try_ready().is_ok(), sel.ready_timeout(zero).is_ok()))
                }
            },
            Op::Iter(c) => r[c].first().map(|r| format!("{:?}", r.try_iter().collect::<Vec<_>>())),
        };
        let q: Vec<String> = (0..2).map(|c| format!("{:?}{:?}", s[c].first().map(|x| (x.len(), x.is_empty(), x.is_full(), x.capacity())), r[c].first().map(|x| (x.len(), x.is_empty(), x.is_full(), x.capacity())))).collect();
        out.push(format!("{t:?} {q:?} dropped {:?}", dropped.lock().unwrap()));
    }
    drop(s);
    out.push(format!("dropped {:?}", dropped.lock().unwrap()));
    drop(r);
    out.push(format!("dropped {:?}", dropped.lock().unwrap()));
    out
}

/// Several threads with blocking operations. `order`: for the real crate, the slots in which the operations start.
pub fn par(t: &Topo, progs: &[Vec<A>], order: Option<(&[Vec<u64>], Duration)>) -> String {
    let log = Arc::new(Mutex::new(vec![vec![]; progs.len()]));
    let n = progs.len();
    let mut s: Vec<Vec<Option<ch::Sender<u32>>>> = (0..n).map(|_| t.iter().map(|_| None).collect()).collect();
    let mut r: Vec<Vec<Option<ch::Receiver<u32>>>> = (0..n).map(|_| t.iter().map(|_| None).collect()).collect();
    for (i, &(a, b, cap)) in t.iter().enumerate() { let (x, y) = mk(cap); s[a][i] = Some(x); r[b][i] = Some(y); }
    let at = Arc::new(AtomicU64::new(0));
    let start = std::time::Instant::now();
    let mut hs = vec![];
    for (k, (mut s, mut r)) in s.into_iter().zip(r).enumerate() {
        let p = progs[k].clone();
        let l = log.clone();
        let slots = order.map(|(o, d)| (o[k].clone(), d));
        let at = at.clone();
        hs.push(std::thread::spawn(move || {
            for (j, a) in p.iter().enumerate() {
                if let Some((o, d)) = &slots {
                    let w = *d * o[j] as u32;
                    let e = start.elapsed();
                    if e < w { std::thread::sleep(w - e) }
                }
                let v = (k * 10 + j) as u32;
                let o = match *a {
                    A::S(c) => s[c].as_ref().map(|s| format!("{:?}", s.send(v))),
                    A::TS(c) => s[c].as_ref().map(|s| format!("{:?}", s.try_send(v))),
                    A::R(c) => r[c].as_ref().map(|r| format!("{:?}", r.recv())),
                    A::TR(c) => r[c].as_ref().map(|r| format!("{:?}", r.try_recv())),
                    A::DS(c) => { s[c] = None; None },
                    A::DR(c) => { r[c] = None; None },
                    A::RT(c) => r[c].as_ref().map(|r| format!("{:?}", r.recv_timeout(Duration::from_secs(3)))),
                    A::Sel => {
                        let rs: Vec<(usize, &ch::Receiver<u32>)> = r.iter().enumerate().filter_map(|(i, r)| r.as_ref().map(|r| (i, r))).collect();
                        if rs.is_empty() { None } else {
                            let mut sel = ch::Select::new();
                            for (_, x) in &rs { sel.recv(x); }
                            let op = sel.select();
                            let i = op.index();
                            Some(format!("{} {:?}", rs[i].0, op.recv(rs[i].1)))
                        }
                    },
                    A::SelT => {
                        let rs: Vec<(usize, &ch::Receiver<u32>)> = r.iter().enumerate().filter_map(|(i, r)| r.as_ref().map(|r| (i, r))).collect();
                        let mut sel = ch::Select::new();
                        for (_, x) in &rs { sel.recv(x); }
                        match sel.try_select() {
                            Ok(op) => { let i = op.index(); Some(format!("{} {:?}", rs[i].0, op.recv(rs[i].1))) },
                            Err(e) => Some(format!("{e:?}")),
                        }
                    },
                    A::ST(c) => s[c].as_ref().map(|s| format!("{:?}", s.send_timeout(v, Duration::from_secs(3)))),
                };
                if let Some(o) = o { l.lock().unwrap()[k].push(o) }
            }
            drop(s); drop(r);
            at.fetch_add(1, Ordering::SeqCst);
        }));
    }
    for h in hs { let _ = h.join(); }
    let l = log.lock().unwrap();
    format!("{l:?}")
}
