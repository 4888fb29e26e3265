//! Validates the explorer against itself: for every small channel program of an alphabet, the set of
//! outcomes reached with partial-order reduction equals the set reached by plain enumeration of all
//! interleavings.  Usage: selftest <len> <shard> <nshards>
use crossbeam_channel::*;
use mcrt::rt::{explore, Mode};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    S,
    TS,
    ST,
    R,
    TR,
    RT,
    DS,
    DR,
    Sel,
    Spin,
    Sleep,
}
use A::*;

struct End {
    name: usize,
    s: Vec<Option<Sender<u32>>>,
    r: Vec<Option<Receiver<u32>>>,
}
fn run(mut e: End, prog: Vec<(A, usize)>, log: Arc<Mutex<Vec<Vec<String>>>>) {
    let sec = Duration::from_secs(1);
    for (k, (a, c)) in prog.iter().enumerate() {
        let v = (e.name * 10 + k) as u32;
        let o = match a {
            S => e.s[*c].as_ref().map(|s| format!("{:?}", s.send(v))),
            TS => e.s[*c].as_ref().map(|s| format!("{:?}", s.try_send(v))),
            ST => e.s[*c].as_ref().map(|s| format!("{:?}", s.send_timeout(v, sec))),
            R => e.r[*c].as_ref().map(|s| format!("{:?}", s.recv())),
            TR => e.r[*c].as_ref().map(|s| format!("{:?}", s.try_recv())),
            RT => e.r[*c].as_ref().map(|s| format!("{:?}", s.recv_timeout(sec))),
            DS => {
                e.s[*c] = None;
                None
            },
            DR => {
                e.r[*c] = None;
                None
            },
            Sel => {
                let rs: Vec<&Receiver<u32>> = e.r.iter().flatten().collect();
                if rs.is_empty() {
                    None
                } else {
                    let mut sel = Select::new();
                    for r in &rs {
                        sel.recv(r);
                    }
                    let i = sel.ready();
                    Some(format!("sel{i}{:?}", rs[i].try_recv()))
                }
            },
            Spin => {
                let rs: Vec<&Receiver<u32>> = e.r.iter().flatten().collect();
                if rs.is_empty() {
                    None
                } else {
                    let mut x = None;
                    while x.is_none() {
                        for (i, r) in rs.iter().enumerate() {
                            match r.try_recv() {
                                Err(TryRecvError::Empty) => {},
                                y => {
                                    x = Some(format!("spin{i}{y:?}"));
                                    break;
                                },
                            }
                        }
                    }
                    x
                }
            },
            Sleep => {
                std::thread::sleep(sec);
                None
            },
        };
        if let Some(o) = o {
            log.lock().unwrap()[e.name].push(o)
        }
    }
}
/// owner of (sender, receiver) of each channel and its capacity
type Topo = (usize, Vec<(usize, usize, Option<usize>)>);
fn body(t: &Topo, progs: &[Vec<(A, usize)>]) -> Result<String, String> {
    let log = Arc::new(Mutex::new(vec![vec![]; t.0]));
    let mut ends: Vec<End> = (0..t.0)
        .map(|n| End { name: n, s: (0..t.1.len()).map(|_| None).collect(), r: (0..t.1.len()).map(|_| None).collect() })
        .collect();
    for (i, (s, r, cap)) in t.1.iter().enumerate() {
        let (tx, rx) = match cap {
            Some(c) => bounded(*c),
            None => unbounded(),
        };
        // 3-thread topologies with owner 9: every thread holds a clone of the sender
        if *s == 9 {
            for n in 0..t.0 {
                if n != *r {
                    ends[n].s[i] = Some(tx.clone());
                }
            }
            drop(tx);
        } else {
            ends[*s].s[i] = Some(tx);
        }
        ends[*r].r[i] = Some(rx);
    }
    let mut hs = vec![];
    for (e, p) in ends.into_iter().zip(progs.iter().cloned()) {
        let l = log.clone();
        hs.push(std::thread::spawn(move || run(e, p, l)));
    }
    for h in hs {
        h.join().map_err(|_| "panic")?;
    }
    let l = log.lock().unwrap();
    Ok(format!("{l:?}"))
}
fn progs(al: &[(A, usize)], len: usize) -> Vec<Vec<(A, usize)>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<(A, usize)>> = vec![vec![]];
    for _ in 0..len {
        let mut nx = vec![];
        for p in &cur {
            for a in al {
                let mut q = p.clone();
                q.push(*a);
                nx.push(q)
            }
        }
        cur = nx;
    }
    out.extend(cur);
    out
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let len: usize = a[1].parse().unwrap();
    let (sh, nsh): (usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        let mut set: std::mem::MaybeUninit<[u64; 16]> = std::mem::MaybeUninit::zeroed();
        (*set.as_mut_ptr())[0] = 1 << (sh % 8);
        extern "C" {
            fn sched_setaffinity(p: i32, n: usize, s: *const u64) -> i32;
        }
        sched_setaffinity(0, 128, set.as_ptr() as *const u64);
    }
    let (mut n, mut ed, mut ef, mut bad, mut skipped, mut red) = (0u64, 0u64, 0u64, 0, 0, 0);
    let mut topos: Vec<(Topo, Vec<Vec<Vec<(A, usize)>>>)> = vec![];
    for cap in [Some(1), Some(2), None, Some(0)] {
        let t: Topo = (2, vec![(0, 1, cap), (1, 0, Some(1))]);
        let pa = progs(&[(S, 0), (TS, 0), (ST, 0), (DS, 0), (R, 1), (TR, 1), (DR, 1), (Sleep, 0)], len);
        let pb = progs(&[(R, 0), (TR, 0), (RT, 0), (DR, 0), (S, 1), (DS, 1), (Spin, 0)], len);
        topos.push((t, vec![pa, pb]));
    }
    for cap in [Some(1), None] {
        // two senders, one selecting receiver
        let t: Topo = (3, vec![(0, 2, cap), (1, 2, cap)]);
        let p0 = progs(&[(S, 0), (DS, 0), (Sleep, 0)], 1.max(len - 1));
        let p1 = progs(&[(S, 1), (DS, 1)], 1);
        let p2 = progs(&[(Sel, 0), (TR, 0), (R, 1), (Spin, 0), (RT, 1)], len.min(2));
        topos.push((t, vec![p0, p1, p2]));
        // cloned sender
        let t: Topo = (3, vec![(9, 2, cap)]);
        let p0 = progs(&[(S, 0), (TS, 0), (DS, 0)], 1);
        let p2 = progs(&[(R, 0), (TR, 0), (Spin, 0), (RT, 0)], len.min(2));
        topos.push((t, vec![p0.clone(), p0, p2]));
    }
    for (t, ps) in &topos {
        let mut combos: Vec<Vec<Vec<(A, usize)>>> = vec![vec![]];
        for p in ps {
            combos = combos.iter().flat_map(|c| p.iter().map(move |q| { let mut d = c.clone(); d.push(q.clone()); d })).collect();
        }
        for (i, c) in combos.iter().enumerate() {
            if i % nsh != sh {
                continue;
            }
            n += 1;
            let f = || body(t, c);
            let d = explore(&f, Mode::Dpor, 2000, 100_000, None, None, true);
            let u = explore(&f, Mode::Full, 2000, 60_000, None, None, true);
            ed += d.execs;
            red += d.redundant;
            ef += u.execs;
            let od: BTreeSet<_> = d.outcomes.keys().collect();
            let ou: BTreeSet<_> = u.outcomes.keys().collect();
            if u.capped {
                skipped += 1;
                if !ou.is_subset(&od) {
                    bad += 1;
                    println!("BAD(sub) {t:?} {c:?}\n dpor {od:?}\n full {ou:?}");
                }
            } else if od != ou {
                bad += 1;
                if bad < 5 {
                    println!("BAD {t:?} {c:?}\n dpor {od:?}\n full {ou:?}");
                }
            }
        }
    }
    // schedules near the default one: more and more outcomes, in the end all of them
    for (i, (t, ps)) in topos.iter().enumerate() {
        let c: Vec<Vec<(A, usize)>> = ps.iter().map(|p| p[(i * 7 + 3) % p.len()].clone()).collect();
        let f = || body(t, &c);
        let outs = |m| explore(&f, m, 2000, 60_000, None, None, true);
        let full = outs(Mode::Full);
        if i % nsh != sh || full.capped {
            continue;
        }
        let mut last = BTreeSet::new();
        for k in [0, 1, 2, 3, 1000] {
            let d: BTreeSet<String> = outs(Mode::Delay(k)).outcomes.into_keys().collect();
            if !last.is_subset(&d) || k == 1000 && !d.iter().eq(full.outcomes.keys()) {
                bad += 1;
                println!("BAD delay {k} {t:?} {c:?}\n {d:?}\n full {:?}", full.outcomes);
            }
            last = d;
        }
    }
    if sh == 0 {
        for (name, want, f) in locks() {
            let d = explore(&*f, Mode::Dpor, 2000, 100_000, None, None, true);
            let got: Vec<&str> = d.outcomes.keys().map(|k| k.as_str()).collect();
            if got != want {
                bad += 1;
                println!("BAD {name}: {got:?} instead of {want:?} {:?} {:?}", d.violation, d.trace);
            }
        }
    }
    println!("programs {n} dpor-executions {ed} (+{red}) full-executions {ef} capped {skipped} mismatches {bad}");
    std::process::exit(if bad == 0 { 0 } else { 1 })
}

/// Waiting through the standard library: locks, conditions, parking, its channels, yielding.
fn locks() -> Vec<(&'static str, Vec<&'static str>, Box<dyn Fn() -> Result<String, String>>)> {
    use std::sync::{mpsc, Arc, Condvar, Mutex};
    use std::thread::spawn;
    use std::time::Duration;
    let mut v: Vec<(&'static str, Vec<&'static str>, Box<dyn Fn() -> Result<String, String>>)> = vec![];
    v.push(("lock held while waiting for the other holder", vec!["DEADLOCK"], Box::new(|| {
        let m = Arc::new(Mutex::new(()));
        let (s, r) = crossbeam_channel::bounded::<u8>(1);
        let n = m.clone();
        let h = spawn(move || {
            let _g = n.lock();
            let _ = s.send(1);
        });
        let g = m.lock();
        let _ = r.recv();
        drop(g);
        let _ = h.join();
        Ok("done".into())
    })));
    v.push(("lock handed over", vec!["done"], Box::new(|| {
        let m = Arc::new(Mutex::new(0));
        let (s, r) = crossbeam_channel::bounded::<u8>(1);
        let hs: Vec<_> = (0..3).map(|_| { let (m, s) = (m.clone(), s.clone()); spawn(move || { let mut g = m.lock().unwrap(); let _ = s.send(1); *g += 1; }) }).collect();
        for _ in 0..3 { r.recv().unwrap(); }
        for h in hs { h.join().unwrap() }
        if *m.lock().unwrap() == 3 { Ok("done".into()) } else { Err("lost".into()) }
    })));
    v.push(("condition with a limit", vec!["timeout", "woken"], Box::new(|| {
        let m = Arc::new((Mutex::new(false), Condvar::new()));
        let n = m.clone();
        let late = mcrt::choose(2) == 1;
        let h = spawn(move || {
            std::thread::sleep(Duration::from_secs(if late { 9 } else { 3 }));
            *n.0.lock().unwrap() = true;
            n.1.notify_all();
        });
        let (g, t) = m.1.wait_timeout_while(m.0.lock().unwrap(), Duration::from_secs(5), |b| !*b).unwrap();
        let r = if t.timed_out() { "timeout" } else { "woken" };
        drop(g);
        h.join().unwrap();
        Ok(r.into())
    })));
    v.push(("standard channel and parking", vec!["done"], Box::new(|| {
        let (s, r) = mpsc::channel();
        let me = std::thread::current();
        let h = spawn(move || { for i in 0..4 { s.send(i).unwrap(); std::thread::yield_now() } });
        let got: Vec<i32> = r.iter().collect();
        let u = spawn(move || me.unpark());
        std::thread::park();
        u.join().unwrap();
        h.join().unwrap();
        if got == [0, 1, 2, 3] { Ok("done".into()) } else { Err(format!("{got:?}")) }
    })));
    v.push(("select! with a timer", vec!["late", "message 1", "message 2", "timer"], Box::new(|| {
        let (s, r) = crossbeam_channel::bounded::<u8>(1);
        let (s2, r2) = crossbeam_channel::bounded::<u8>(1);
        let wait = mcrt::choose(3);
        let h = spawn(move || {
            std::thread::sleep(Duration::from_secs([1, 9, 1][wait]));
            if wait == 2 { s2.send(2).unwrap(); } else { let _ = s.send(1); }
            std::thread::sleep(Duration::from_secs(20));
            drop((s, s2));
        });
        let t = crossbeam_channel::after(Duration::from_secs(5));
        let o = crossbeam_channel::select! {
            recv(r) -> v => format!("message {}", v.unwrap()),
            recv(r2) -> v => format!("message {}", v.unwrap()),
            recv(t) -> _ => "timer".to_string(),
            default(Duration::from_secs(if wait == 1 && mcrt::choose(2) == 1 { 3 } else { 8 })) => "late".to_string(),
        };
        h.join().unwrap();
        Ok(o)
    })));
    v.push(("select_biased! and ticks", vec!["a 3"], Box::new(|| {
        let (s, r) = crossbeam_channel::bounded::<u8>(1);
        let (s2, r2) = crossbeam_channel::bounded::<u8>(1);
        s.send(1).unwrap();
        s2.send(1).unwrap();
        let o = crossbeam_channel::select_biased! {
            recv(r) -> _ => "a",
            recv(r2) -> _ => "b",
        };
        let t = crossbeam_channel::tick(Duration::from_secs(1));
        let n = (0..3).filter(|_| t.recv().is_ok()).count();
        Ok(format!("{o} {n}"))
    })));
    v
}
