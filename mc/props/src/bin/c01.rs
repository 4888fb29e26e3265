//! C01: two-party sessions deliver everything, in order, and finish.
use mcrt::driver::*;
use mpstthree::binary::fork::{fork, fork_with_thread_id};
use mpstthree::binary::struct_trait::end::End;
use mpstthree::binary::struct_trait::session::Session;
use props::bin2::*;
use props::*;

struct V(Vec<Scenario>, bool);
impl Visit for V {
    fn shape<S: Drive>(&mut self)
    where
        S::Dual: Drive,
    {
        let delegations = S::shape().contains(['D', 'd']);
        if self.1 && !delegations {
            return;
        }
        // A runs the dual in the starting thread, B is forked
        self.0.push(Scenario::conc(format!("fork {}", S::shape()), || {
            let obs = Obs::any_speed();
            let (o, c) = (obs.clone(), Ctx::new("A", "B", &obs));
            let (h, s) = fork_with_thread_id(move |s: S| s.drive(Ctx::new("B", "A", &o)));
            s.drive(c).map_err(|e| format!("starting side failed: {e}"))?;
            join(h).map_err(|e| format!("forked side failed: {e}"))?;
            check::<S>(&obs)
        }));
        // both ends built directly, in two plain threads; the forked handle is not used
        self.0.push(Scenario::conc(format!("new {}", S::shape()), || {
            let obs = Obs::any_speed();
            let (b, a) = S::new();
            let (o1, o2) = (obs.clone(), obs.clone());
            let h1 = std::thread::spawn(move || a.drive(Ctx::new("A", "B", &o1)).unwrap());
            let h2 = std::thread::spawn(move || b.drive(Ctx::new("B", "A", &o2)).unwrap());
            join(h1).map_err(|e| format!("A failed: {e}"))?;
            join(h2).map_err(|e| format!("B failed: {e}"))?;
            check::<S>(&obs)
        }));
        self.0.push(Scenario::conc(format!("detached {}", S::shape()), || {
            let obs = Obs::any_speed();
            let o = obs.clone();
            let s = fork(move |s: S| s.drive(Ctx::new("B", "A", &o)));
            s.drive(Ctx::new("A", "B", &obs)).map_err(|e| format!("starting side failed: {e}"))?;
            let mut want = vec![];
            <S::Dual as Drive>::expected("A", "B", 0, None, false, &mut want);
            expect("log of A", obs.get("A"), want)?;
            Ok("completed".into())
        }));
    }
}
fn check<S: Drive>(obs: &Obs) -> Outcome
where
    S::Dual: Drive,
{
    let (mut wa, mut wb) = (vec![], vec![]);
    <S::Dual as Drive>::expected("A", "B", 0, None, false, &mut wa);
    S::expected("B", "A", 0, None, false, &mut wb);
    expect("log of A", obs.get("A"), wa)?;
    expect("log of B", obs.get("B"), wb)?;
    Ok("completed".into())
}

/// Two sessions between the same two threads used in every relative order.
fn pairs(v: &mut Vec<Scenario>) {
    use mpstthree::binary::{close::close, recv::recv, send::send};
    use mpstthree::binary::struct_trait::{recv::Recv, send::Send};
    type P = Send<i32, Recv<String, End>>;
    for order in 0..4u32 {
        v.push(Scenario::conc(format!("two-sessions order {order}"), move || {
            let (p1, q1) = P::new();
            let (p2, q2) = P::new();
            let h = std::thread::spawn(move || {
                let p1 = send(1, p1);
                let p2 = send(2, p2);
                if order & 1 == 0 {
                    let (a, p1) = recv(p1).unwrap();
                    let (b, p2) = recv(p2).unwrap();
                    assert_eq!((a.as_str(), b.as_str()), ("x1", "x2"));
                    close(p1).unwrap();
                    close(p2).unwrap();
                } else {
                    let (b, p2) = recv(p2).unwrap();
                    let (a, p1) = recv(p1).unwrap();
                    assert_eq!((a.as_str(), b.as_str()), ("x1", "x2"));
                    close(p1).unwrap();
                    close(p2).unwrap();
                }
            });
            let (first, second) = if order & 2 == 0 { (q1, q2) } else { (q2, q1) };
            let (m1, first) = recv(first).map_err(|e| e.to_string())?;
            let (m2, second) = recv(second).map_err(|e| e.to_string())?;
            expect("payloads", (m1, m2), if order & 2 == 0 { (1, 2) } else { (2, 1) })?;
            let first: End = send(format!("x{m1}"), first);
            let second: End = send(format!("x{m2}"), second);
            let (c1, c2) = if order & 2 == 0 { (first, second) } else { (second, first) };
            close(c1).map_err(|e| e.to_string())?;
            close(c2).map_err(|e| e.to_string())?;
            join(h)?;
            Ok("completed".into())
        }));
    }
    let _: fn(Recv<i32, End>) -> Result<(i32, End), Box<dyn std::error::Error>> = recv;
}
/// Every kind of payload, there and back: the values that arrive are the ones that were sent.
fn payload<T: Clone + PartialEq + std::fmt::Debug + std::marker::Send + 'static>(v: &mut Vec<Scenario>, vals: Vec<T>) {
    use mpstthree::binary::{close::close, recv::recv, send::send};
    use mpstthree::binary::struct_trait::{recv::Recv, send::Send};
    let name = std::any::type_name::<T>();
    v.push(Scenario::conc(format!("payload {name}"), move || {
        let obs = Obs::any_speed();
        let (x, y) = (vals[mcrt::choose(vals.len())].clone(), vals[mcrt::choose(vals.len())].clone());
        let (o, y2) = (obs.clone(), y.clone());
        let (h, s) = fork_with_thread_id(move |s: Recv<T, Recv<T, Send<T, Send<Vec<T>, End>>>>| {
            o.pause("B");
            let (a, s) = recv(s)?;
            let (b, s) = recv(s)?;
            o.pause("B");
            let s = send(b.clone(), s);
            close(send(vec![y2, a, b], s))
        });
        obs.pause("A");
        let s = send(y.clone(), send(x.clone(), s));
        obs.pause("A");
        let (b, s) = recv(s).map_err(|e| e.to_string())?;
        let (l, s) = recv(s).map_err(|e| e.to_string())?;
        close(s).map_err(|e| e.to_string())?;
        join(h)?;
        expect("echo", b, y.clone())?;
        expect("list", l, vec![y.clone(), x, y])?;
        Ok("completed".into())
    }));
}
/// Values that cannot be copied arrive exactly once: nothing is dropped twice, kept or lost.
fn owned(v: &mut Vec<Scenario>) {
    use mpstthree::binary::{close::close, recv::recv, send::send};
    use mpstthree::binary::struct_trait::{recv::Recv, send::Send};
    struct Tok(usize, std::sync::Arc<std::sync::Mutex<Vec<usize>>>);
    impl Drop for Tok {
        fn drop(&mut self) {
            self.1.lock().unwrap()[self.0] += 1
        }
    }
    type F = Box<dyn FnOnce(i32) -> i32 + std::marker::Send>;
    type P = Send<Tok, Send<(Tok, Option<Tok>), Recv<F, Send<Box<[Tok]>, End>>>>;
    v.push(Scenario::conc("payload owned", || {
        let obs = Obs::any_speed();
        let d = std::sync::Arc::new(std::sync::Mutex::new(vec![0; 6]));
        let o = obs.clone();
        let (h, s) = fork_with_thread_id(move |s: <P as Session>::Dual| {
            o.pause("B");
            let (a, s) = recv(s)?;
            let ((b, c), s) = recv(s)?;
            let k = a.0 as i32;
            let s = send(Box::new(move |x| x * 10 + k) as F, s);
            o.pause("B");
            let (l, s) = recv(s)?;
            o.add("B", format!("{} {} {:?} {:?} dropped {:?}", a.0, b.0, c.as_ref().map(|c| c.0), l.iter().map(|t| t.0).collect::<Vec<_>>(), a.1.lock().unwrap()));
            close(s)
        });
        let t = |k| Tok(k, d.clone());
        let s = send(t(1), s);
        obs.pause("A");
        let s = send((t(2), Some(t(3))), s);
        let (f, s) = recv(s).map_err(|e| e.to_string())?;
        expect("closure", f(4), 41)?;
        obs.pause("A");
        let s = send(vec![t(4), t(5)].into_boxed_slice(), s);
        close(s).map_err(|e| e.to_string())?;
        join(h)?;
        expect("received", obs.get("B"), vec!["1 2 Some(3) [4, 5] dropped [0, 0, 0, 0, 0, 0]".to_string()])?;
        expect("drops", d.lock().unwrap().clone(), vec![0, 1, 1, 1, 1, 1])?;
        Ok("completed".into())
    }));
}
macro_rules! nest {
    ($s:ty;) => { $s };
    ($s:ty; s $($r:tt)*) => { mpstthree::binary::struct_trait::send::Send<i32, nest!($s; $($r)*)> };
    ($s:ty; r $($r:tt)*) => { mpstthree::binary::struct_trait::recv::Recv<i32, nest!($s; $($r)*)> };
}
fn long(v: &mut V) {
    v.shape::<nest!(End; s s s s s s s s s s s s s s s s s s s s s s s s)>();
    v.shape::<nest!(End; s r s r s r s r s r s r s r s r s r s r s r s r)>();
    v.shape::<nest!(End; s s s s s s s s r r r r r r r r s s s s s s s s)>();
    v.shape::<nest!(End; r s s r r r s s s s r r r r r s s s s s s r s r)>();
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    // the smallest types without any reduction, as a check of the reduction itself
    let mut v = V(vec![], false);
    match t {
        Tier::Quick => <Su<Z> as Enum<End>>::all(&mut v),
        Tier::Thorough => <Su<Su<Z>> as Enum<End>>::all(&mut v),
    }
    let mut plain: Vec<Scenario> = v.0.drain(..).filter(|s| s.name.starts_with("fork")).map(|s| s.full()).collect();
    for s in &mut plain {
        s.name.push_str(" (unreduced)");
    }
    let mut v = V(plain, false);
    <Su<Su<Su<Su<Su<Z>>>>> as Enum<End>>::all(&mut v);
    long(&mut v);
    v.1 = true;
    <Su<Su<Su<Z>>> as EnumD<End>>::all(&mut v);
    pairs(&mut v.0);
    let v = &mut v.0;
    payload(v, vec![()]);
    payload(v, vec![true, false]);
    payload(v, vec![0u8, 255]);
    payload(v, vec![i64::MIN, -1, 0, i64::MAX]);
    payload(v, vec![u128::MAX, 1]);
    payload(v, vec![f64::MIN_POSITIVE, -0.5, f64::INFINITY]);
    payload(v, vec!['a', '\u{10ffff}']);
    payload(v, vec![String::new(), "a b\n\0é".into()]);
    payload(v, vec![vec![], vec![7u8; 5000]]);
    payload(v, vec![[0u8; 300], [255; 300]]);
    payload(v, vec![[[1i64; 40]; 40]]);
    payload(v, vec![None, Some(Box::new(3))]);
    payload(v, vec![(1u8, "x", 2.5f32), (0, "", 0.0)]);
    payload(v, vec![Ok::<i32, String>(1), Err("no".into())]);
    payload(v, vec![std::sync::Arc::new(vec![String::from("s")])]);
    payload(v, vec![either::Either::<i32, bool>::Left(1), either::Either::Right(true)]);
    owned(v);
    std::mem::take(v)
}
fn main() {
    main_(Check {
        property: "C01",
        rule: "every session type of up to 5 sends/receives (up to 3 with session delegation) x fork, direct and detached start x both sides at once or one taking very long before each step; payloads of every kind; long sessions; every inequivalent interleaving of the endpoint threads on the real code; the logs must equal the ones the type dictates",
        assumptions: &["crossbeam-channel behaves as the shim of mc/xchan (compared with the real crate in mc/conform)", "threads interact only through channels, thread start/join and time"],
        scenarios,
    })
}
use mcrt::driver::main as main_;
