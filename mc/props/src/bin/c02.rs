//! C02: a peer that stops anywhere never blocks the survivor.
use mcrt::driver::*;
use mpstthree::binary::fork::fork_with_thread_id;
use mpstthree::binary::struct_trait::end::End;
use mpstthree::binary::struct_trait::session::Session;
use props::bin2::*;
use props::*;

struct V(Vec<Scenario>);
impl Visit for V {
    fn shape<S: Drive>(&mut self)
    where
        S::Dual: Drive,
    {
        for aware in [false, true] {
            for stopper in ["A", "B"] {
                self.0.push(Scenario::conc(
                    format!("{} {stopper} stops{}", S::shape(), if aware { " (aware sends)" } else { "" }),
                    move || one::<S>(stopper, aware),
                ));
            }
        }
        self.0.push(Scenario::conc(format!("{} both stop", S::shape()), both::<S>));
    }
}
fn one<S: Drive>(stopper: &'static str, aware: bool) -> Outcome
where
    S::Dual: Drive,
{
    let n = S::steps();
    let k = mcrt::choose(n);
    let m = STOPS[mcrt::choose(3)];
    let obs = Obs::any_speed();
    let (o, mut c) = (obs.clone(), Ctx::new("A", "B", &obs));
    c.aware = aware;
    if stopper == "A" {
        c.stop = Some((k, m));
    }
    let (h, s) = fork_with_thread_id(move |s: S| {
        let mut c = Ctx::new("B", "A", &o);
        c.aware = aware;
        if stopper == "B" {
            c.stop = Some((k, m));
        }
        s.drive(c)
    });
    let ra = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.drive(c).map_err(|e| e.to_string())));
    let a_ok = matches!(ra, Ok(Ok(())));
    let b_ok = join(h).is_ok();
    let what = format!("{} stops before step {k} by {m:?}", stopper);
    let (mut wa, mut wb) = (vec![], vec![]);
    let st = |w: &str| if stopper == w { None } else { Some(k) };
    <S::Dual as Drive>::expected("A", "B", 0, st("A"), aware, &mut wa);
    S::expected("B", "A", 0, st("B"), aware, &mut wb);
    let w = if stopper == "A" { &mut wa } else { &mut wb };
    w.truncate(k);
    w.push(format!("stop{k}"));
    for (who, w) in [("A", &wa), ("B", &wb)] {
        if !log_matches(&obs.get(who), w) {
            return Err(format!("{what}: log of {who} is {:?}, expected {w:?}", obs.get(who)));
        }
    }
    let quiet = m == Stop::Cancel;
    let (s_ok, p_ok) = if stopper == "A" { (a_ok, b_ok) } else { (b_ok, a_ok) };
    expect(&format!("{what}: success of the survivor"), p_ok, false)?;
    expect(&format!("{what}: success of the stopping side"), s_ok, quiet)?;
    let surv = if stopper == "A" { "B" } else { "A" };
    Ok(format!("{k}{m:?} survivor:{}", obs.get(surv).last().cloned().unwrap_or_default()))
}
/// Both sides stop, each at its own step: neither may hang.
fn both<S: Drive>() -> Outcome
where
    S::Dual: Drive,
{
    let n = S::steps();
    let (ka, kb) = (mcrt::choose(n), mcrt::choose(n));
    let obs = Obs::any_speed();
    let (o, mut c) = (obs.clone(), Ctx::new("A", "B", &obs));
    c.stop = Some((ka, Stop::Cancel));
    let (h, s) = fork_with_thread_id(move |s: S| {
        let mut c = Ctx::new("B", "A", &o);
        c.stop = Some((kb, Stop::Cancel));
        s.drive(c)
    });
    let _ = s.drive(c);
    let _ = join(h);
    for who in ["A", "B"] {
        let last = obs.get(who).last().cloned().unwrap_or_default();
        if !(last.starts_with("stop") || last.ends_with("err")) {
            return Err(format!("A stops at {ka}, B at {kb}: {who} ended with {last:?}"));
        }
        // everything received was what the peer sent at that step
        for l in obs.get(who) {
            if let Some((k, v)) = l.strip_prefix('r').and_then(|x| x.split_once('=')) {
                let k: usize = k.parse().unwrap();
                expect("received payload", v.to_string(), val(if who == "A" { "B" } else { "A" }, k).to_string())?;
            }
        }
    }
    Ok(format!("{ka},{kb}"))
}

/// Stops inside branches, before choosing and before offering.
fn branches(v: &mut Vec<Scenario>) {
    use mpstthree::binary::choose::{choose_left, choose_right, Choose};
    use mpstthree::binary::offer::{offer_either, Offer};
    use mpstthree::binary::struct_trait::{recv::Recv, send::Send};
    type L = Recv<i32, Send<i32, End>>;
    type R = Send<i32, Send<i32, End>>;
    type LD = <L as Session>::Dual;
    type RD = <R as Session>::Dual;
    v.push(Scenario::conc("choice: chooser stops", || {
        // stop 0: before choosing; 1..: inside the branch
        let left = mcrt::choose(2) == 0;
        let k = mcrt::choose(4);
        let m = STOPS[mcrt::choose(3)];
        let obs = Obs::any_speed();
        let o = obs.clone();
        let (h, s) = fork_with_thread_id(move |s: Offer<L, R>| {
            let (o1, o2) = (o.clone(), o.clone());
            let r = offer_either(
                s,
                |s| {
                    o1.add("B", "left");
                    s.drive(Ctx { step: 1, ..Ctx::new("B", "A", &o1) })
                },
                |s| {
                    o2.add("B", "right");
                    s.drive(Ctx { step: 1, ..Ctx::new("B", "A", &o2) })
                },
            );
            if r.is_err() {
                o.add("B", "failed");
            }
            r
        });
        let c = Ctx { step: 1, stop: Some((k, m)), ..Ctx::new("A", "B", &obs) };
        let s: Choose<LD, RD> = s;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Res {
            if k == 0 {
                return stop_now(&c, s, m);
            }
            if left { choose_left::<LD, RD>(s).drive(c) } else { choose_right::<LD, RD>(s).drive(c) }
        }));
        let _ = r;
        expect("success of the offering side", join(h).is_ok(), false)?;
        let log = obs.get("B");
        let mut want: Vec<String> = vec![];
        if k > 0 {
            want.push(if left { "left".into() } else { "right".into() });
            if left { L::expected("B", "A", 1, Some(k), false, &mut want) } else { R::expected("B", "A", 1, Some(k), false, &mut want) }
        }
        want.push("failed".into());
        expect(&format!("chooser stops at {k} ({m:?})"), log, want)?;
        Ok(format!("{left} {k} {m:?}"))
    }));
    v.push(Scenario::conc("choice: offering side stops", || {
        let left = mcrt::choose(2) == 0;
        let k = mcrt::choose(4);
        let m = STOPS[mcrt::choose(3)];
        let obs = Obs::any_speed();
        let o = obs.clone();
        let (h, s) = fork_with_thread_id(move |s: Offer<L, R>| {
            let c = |o: &Obs| Ctx { step: 1, stop: Some((k, m)), ..Ctx::new("B", "A", o) };
            if k == 0 {
                return stop_now(&c(&o), s, m);
            }
            let (o1, o2) = (o.clone(), o.clone());
            offer_either(s, |s| s.drive(c(&o1)), |s| s.drive(c(&o2)))
        });
        let s: Choose<LD, RD> = s;
        let r = if left { choose_left::<LD, RD>(s).drive(Ctx { step: 1, ..Ctx::new("A", "B", &obs) }) } else { choose_right::<LD, RD>(s).drive(Ctx { step: 1, ..Ctx::new("A", "B", &obs) }) };
        let _ = join(h);
        expect("success of the chooser", r.is_ok(), false)?;
        let mut want = vec![];
        if left { LD::expected("A", "B", 1, Some(k), false, &mut want) } else { RD::expected("A", "B", 1, Some(k), false, &mut want) }
        expect(&format!("offering side stops at {k} ({m:?})"), obs.get("A"), want)?;
        Ok(format!("{left} {k} {m:?}"))
    }));
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = V(vec![]);
    match t {
        Tier::Quick => <Su<Su<Su<Z>>> as Enum<End>>::all(&mut v),
        Tier::Thorough => <Su<Su<Su<Su<Z>>>> as Enum<End>>::all(&mut v),
    }
    branches(&mut v.0);
    v.0
}
fn main() {
    mcrt::driver::main(Check {
        property: "C02",
        rule: "every session type of up to 3 (thorough 4) sends/receives x stopping side x stopping step x way of stopping (cancel, returned error, panic) x plain/aware sends x either side taking very long before each step and the stop, also both sides and inside branches; every inequivalent interleaving; the survivor's log must be the one the stop dictates and it must terminate",
        assumptions: &["crossbeam-channel behaves as the shim of mc/xchan (compared with the real crate in mc/conform)"],
        scenarios,
    })
}
