//! C04: selecting over several receives.
use mcrt::driver::*;
use mpstthree::binary::cancel::cancel;
use mpstthree::binary::close::close;
use mpstthree::binary::recv::recv;
use mpstthree::binary::select::{select, select_mut};
use mpstthree::binary::send::send;
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use props::*;

type S = Recv<i32, Send<i32, Recv<i32, End>>>;
type D = <S as Session>::Dual;

/// What a sending peer does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Send,
    Vanish,
    /// sends, then disappears without waiting for the answer
    SendVanish,
    /// sends late
    Late,
}
fn peer(i: i32, d: D, a: Act) {
    match a {
        Act::Vanish => cancel(d),
        Act::SendVanish => {
            let s = send(100 + i, d);
            cancel(s);
        },
        Act::Late | Act::Send => {
            if a == Act::Late {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }
            let s = send(100 + i, d);
            let (v, s) = recv(s).expect("answer");
            assert_eq!(v, 200 + i);
            let s = send(300 + i, s);
            close(s).expect("close");
        },
    }
}
fn run(n: usize, by_mut: bool, rounds: usize, a0: Act, acts: &[Act]) -> Outcome {
    let plan: Vec<Act> = (0..n).map(|i| if i == 0 { a0 } else { acts[mcrt::choose(acts.len())] }).collect();
    run_plan(by_mut, rounds, plan)
}
fn run_plan(by_mut: bool, rounds: usize, plan: Vec<Act>) -> Outcome {
    let n = plan.len();
    let mut rs: Vec<S> = vec![];
    let mut hs = vec![];
    for (i, a) in plan.iter().copied().enumerate() {
        let (s, d) = S::new();
        rs.push(s);
        hs.push(std::thread::spawn(move || peer(i as i32, d, a)));
    }
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = format!("{plan:?} ");
    // serve an answered session to its end
    let serve = |i: usize, s: Send<i32, Recv<i32, End>>| -> Result<(), String> {
        let s = send(200 + i as i32, s);
        if plan[i] == Act::SendVanish {
            return match recv(s) {
                Err(_) => Ok(()),
                Ok(_) => Err("received from a vanished peer".into()),
            };
        }
        let (v, s) = recv(s).map_err(|e| format!("peer {i}: {e}"))?;
        expect("second payload", v, 300 + i as i32)?;
        close(s).map_err(|e| format!("close {i}: {e}"))
    };
    for _ in 0..rounds.min(n) {
        let before = rs.len();
        let r = if by_mut {
            select_mut(&mut rs)
        } else {
            let (r, rest) = select(std::mem::take(&mut rs));
            rs = rest;
            r
        };
        expect("remaining receives", rs.len(), before - 1)?;
        match r {
            Ok((v, s)) => {
                let i = (v - 100) as usize;
                if !left.contains(&i) || plan[i] == Act::Vanish {
                    return Err(format!("selected payload {v} although the pending peers are {left:?} with {plan:?}"));
                }
                left.retain(|x| *x != i);
                out.push_str(&format!("{i},"));
                serve(i, s)?;
            },
            Err(_) => {
                // which one failed is visible only in what remains
                out.push('x');
            },
        }
    }
    // drain the others one by one; the failed ones must be exactly vanished peers
    let mut errs = out.matches('x').count();
    for r in rs {
        match recv(r) {
            Ok((v, s)) => {
                let i = (v - 100) as usize;
                if !left.contains(&i) {
                    return Err(format!("payload {v} delivered twice or from nowhere"));
                }
                left.retain(|x| *x != i);
                serve(i, s)?;
            },
            Err(_) => errs += 1,
        }
    }
    let gone: Vec<usize> = (0..n).filter(|i| plan[*i] == Act::Vanish).collect();
    expect("peers never heard of", left, gone.clone())?;
    expect("number of errors", errs, gone.len())?;
    for h in hs {
        join(h)?;
    }
    Ok(out)
}
/// A peer that never acts must not be chosen, and the selector waits for it if it is alone.
fn waits() -> Outcome {
    let (s0, d0) = S::new();
    let (s1, d1) = S::new();
    let mut rs = vec![s0, s1];
    let order = mcrt::choose(2);
    if order == 1 {
        rs.reverse();
    }
    let h = std::thread::spawn(move || peer(1, d1, Act::Send));
    let t0 = mcrt::rt::now();
    let (v, s) = select_mut(&mut rs).map_err(|e| e.to_string())?;
    expect("payload", v, 101)?;
    let s = send(201, s);
    let (v, s) = recv(s).map_err(|e| e.to_string())?;
    expect("payload", v, 301)?;
    close(s).map_err(|e| e.to_string())?;
    join(h)?;
    let h = std::thread::spawn(move || peer(0, d0, Act::Late));
    let (v, s) = select_mut(&mut rs).map_err(|e| e.to_string())?;
    expect("payload", v, 100)?;
    expect("waited until the message was there", mcrt::rt::now() - t0, 1_000_000_000)?;
    let s = send(200, s);
    let (_, s) = recv(s).map_err(|e| e.to_string())?;
    close(s).map_err(|e| e.to_string())?;
    join(h)?;
    expect("remaining", rs.len(), 0)?;
    Ok(format!("{order}"))
}
fn empty() -> Outcome {
    let mut rs: Vec<S> = vec![];
    if select_mut(&mut rs).is_ok() {
        return Err("selection over nothing succeeded".into());
    }
    let (r, rest) = select(rs);
    if r.is_ok() || !rest.is_empty() {
        return Err("selection over nothing succeeded".into());
    }
    Ok("errors".into())
}
/// Many pending receives, of which two behave differently from the others.
fn many(n: usize, by_mut: bool) -> Outcome {
    let all = [Act::Send, Act::Vanish, Act::SendVanish, Act::Late];
    let (common, odd) = (all[mcrt::choose(4)], all[mcrt::choose(4)]);
    let at = [mcrt::choose(n), n - 1];
    let plan: Vec<Act> = (0..n).map(|i| if at.contains(&i) { odd } else { common }).collect();
    run_plan(by_mut, n, plan)
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![Scenario::conc("empty", empty), Scenario::conc("waits", waits)];
    let all = [Act::Send, Act::Vanish, Act::SendVanish, Act::Late];
    for by_mut in [true, false] {
        let w = if by_mut { "select_mut" } else { "select" };
        for n in 1..=3usize {
            for r in 1..=n {
                for a0 in all {
                    if n == 3 && t == Tier::Quick && a0 == Act::Late {
                        continue;
                    }
                    let acts: &'static [Act] = if n == 3 && t == Tier::Quick { &[Act::Send, Act::Vanish, Act::SendVanish] } else { &[Act::Send, Act::Vanish, Act::SendVanish, Act::Late] };
                    v.push(Scenario::conc(format!("{w} of {n}, {r} rounds, first peer {a0:?}"), move || run(n, by_mut, r, a0, acts)));
                }
            }
        }
        for n in if t == Tier::Quick { vec![6, 17] } else { vec![6, 17, 40] } {
            v.push(Scenario::conc(format!("large/{w} of {n}"), move || many(n, by_mut)).delays(if n == 6 { 1 } else { 0 }));
        }
    }
    v
}
fn main() {
    mcrt::driver::main(Check {
        property: "C04",
        rule: "collections of 1..3 pending receives x every peer behaviour (sends, disappears, sends and disappears, sends late) x number of selections, and collections of 6 and 17 (40) on schedules close to the default one, x every inequivalent interleaving x every answer of the readiness selector when several are ready",
        assumptions: &["crossbeam-channel behaves as the shim of mc/xchan (compared with the real crate in mc/conform); Select may pick any ready operation"],
        scenarios,
    })
}
