//! C03: the offering side takes exactly the selected branch, in every history.
use mcrt::driver::*;
use mpstthree::binary::choose::{choose_left, choose_right, Choose};
use mpstthree::binary::close::close;
use mpstthree::binary::fork::fork_with_thread_id;
use mpstthree::binary::offer::{offer_either, Offer};
use mpstthree::binary::recv::recv;
use mpstthree::binary::send::send;
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::{choose, offer};
use props::bin2::*;
use props::*;
use std::error::Error;

// ---- left/right over all pairs of small continuations ------------------------------------------
struct V1(Vec<Scenario>);
struct V2<'a, S>(&'a mut Vec<Scenario>, std::marker::PhantomData<S>);
impl Visit for V1 {
    fn shape<S: Drive>(&mut self)
    where
        S::Dual: Drive,
    {
        <Su<Su<Z>> as Enum<End>>::all(&mut V2(&mut self.0, std::marker::PhantomData::<S>));
    }
}
impl<S1: Drive> Visit for V2<'_, S1>
where
    S1::Dual: Drive,
{
    fn shape<S2: Drive>(&mut self)
    where
        S2::Dual: Drive,
    {
        // S1/S2: the chooser's continuations
        self.0.push(Scenario::conc(format!("either {} | {}", S1::shape(), S2::shape()), || {
            let left = mcrt::choose(2) == 0;
            let obs = Obs::any_speed();
            let o = obs.clone();
            let (h, s) = fork_with_thread_id(move |s: Offer<S1::Dual, S2::Dual>| {
                let (o1, o2) = (o.clone(), o.clone());
                offer_either(
                    s,
                    move |s| {
                        o1.add("B", "left");
                        s.drive(Ctx::new("B", "A", &o1))
                    },
                    move |s| {
                        o2.add("B", "right");
                        s.drive(Ctx::new("B", "A", &o2))
                    },
                )
            });
            let s: Choose<S1, S2> = s;
            let c = Ctx::new("A", "B", &obs);
            obs.pause("A");
            if left { choose_left::<S1, S2>(s).drive(c) } else { choose_right::<S1, S2>(s).drive(c) }.map_err(|e| e.to_string())?;
            join(h)?;
            let (mut wa, mut wb) = (vec![], vec![]);
            wb.push(if left { "left".to_string() } else { "right".to_string() });
            if left {
                S1::expected("A", "B", 0, None, false, &mut wa);
                <S1::Dual as Drive>::expected("B", "A", 0, None, false, &mut wb);
            } else {
                S2::expected("A", "B", 0, None, false, &mut wa);
                <S2::Dual as Drive>::expected("B", "A", 0, None, false, &mut wb);
            }
            expect("log of the chooser", obs.get("A"), wa)?;
            expect("log of the offering side", obs.get("B"), wb)?;
            Ok(format!("{left}"))
        }).outcomes(2));
    }
}

// ---- nested left/right: four leaves with identical types ----------------------------------------
type Leaf = Send<i32, Recv<i32, End>>;
type Inner = Choose<Leaf, Leaf>;
fn nested() -> Outcome {
    type OffLeaf = <Leaf as Session>::Dual;
    type OffInner = Offer<OffLeaf, OffLeaf>;
    let (o1, o2) = (mcrt::choose(2), mcrt::choose(2));
    let obs = Obs::new();
    let o = obs.clone();
    let (h, s) = fork_with_thread_id(move |s: Offer<OffInner, OffInner>| {
        let leaf = |o: Obs, n: usize| {
            move |s: OffLeaf| -> Result<(), Box<dyn Error>> {
                o.add("B", format!("leaf{n}"));
                s.drive(Ctx::new("B", "A", &o))
            }
        };
        let (x, y) = (o.clone(), o.clone());
        offer_either(s, |s| offer_either(s, leaf(x.clone(), 0), leaf(x.clone(), 1)), |s| offer_either(s, leaf(y.clone(), 2), leaf(y.clone(), 3)))
    });
    let s: Choose<Inner, Inner> = s;
    let s = if o1 == 0 { choose_left::<Inner, Inner>(s) } else { choose_right::<Inner, Inner>(s) };
    let s = if o2 == 0 { choose_left::<Leaf, Leaf>(s) } else { choose_right::<Leaf, Leaf>(s) };
    s.drive(Ctx::new("A", "B", &obs)).map_err(|e| e.to_string())?;
    join(h)?;
    expect("leaf", obs.get("B")[0].clone(), format!("leaf{}", 2 * o1 + o2))?;
    Ok(obs.get("B")[0].clone())
}

// ---- labelled loop -------------------------------------------------------------------------------
enum Lp {
    Put(Recv<i32, Recv<Lp, End>>),
    Get(Send<i32, Recv<Lp, End>>),
    Both(Recv<i32, Send<i32, Recv<Lp, End>>>),
    Swap(Send<Lp2, End>),
    Stop(End),
}
/// The roles of chooser and offering side are exchanged.
enum Lp2 {
    Back(Recv<i32, Recv<Lp2Dual, End>>),
    Quit(End),
}
enum Lp2Dual {
    Again(Recv<Lp, End>),
    Quit(End),
}
type Srv = Recv<Lp, End>;
type Cli = <Srv as Session>::Dual;
fn server(s: Srv, o: Obs, mut k: i32, plan: std::rc::Rc<std::cell::Cell<i32>>) -> Result<(), Box<dyn Error>> {
    k += 1;
    o.pause("B");
    offer!(s, {
        Lp::Put(s) => {
            let (v, s) = recv(s)?;
            o.add("B", format!("put{v}"));
            server(s, o, k, plan)
        },
        Lp::Get(s) => {
            o.add("B", "get");
            let s = send(500 + k, s);
            server(s, o, k, plan)
        },
        Lp::Both(s) => {
            let (v, s) = recv(s)?;
            o.add("B", format!("both{v}"));
            let s = send(v + 5000, s);
            server(s, o, k, plan)
        },
        Lp::Swap(s) => {
            o.add("B", "swap");
            if plan.get() > 0 {
                plan.set(plan.get() - 1);
                let s: Send<i32, Send<Lp2Dual, End>> = choose!(Lp2::Back, s);
                let s = send(700 + k, s);
                let s: Cli = choose!(Lp2Dual::Again, s);
                // now this side is the selector
                o.add("B", "selects");
                let s: End = choose!(Lp::Stop, s);
                close(s)
            } else {
                let s: End = choose!(Lp2::Quit, s);
                close(s)
            }
        },
        Lp::Stop(s) => {
            o.add("B", "stop");
            close(s)
        },
    })
}
fn labelled(depth: usize) -> Outcome {
    labelled_by(depth, |_| mcrt::choose(5))
}
/// Long histories: every period of up to three labels, repeated, and the end.
fn labelled_long(depth: usize) -> Outcome {
    let period: Vec<usize> = (0..1 + mcrt::choose(3)).map(|_| mcrt::choose(3)).collect();
    labelled_by(depth, move |k| period[k % period.len()])
}
fn labelled_by(depth: usize, label: impl Fn(usize) -> usize) -> Outcome {
    let obs = Obs::any_speed();
    let o = obs.clone();
    let back = mcrt::choose(2) as i32;
    let (h, s) = fork_with_thread_id(move |s: Srv| server(s, o, 0, std::rc::Rc::new(std::cell::Cell::new(back))));
    let mut want = vec![];
    let mut s: Cli = s;
    let e = |e: Box<dyn Error>| e.to_string();
    let mut k = 0;
    let mut out = String::new();
    loop {
        let c = if k as usize == depth { 3 } else { label(k as usize) };
        k += 1;
        obs.pause("A");
        out.push_str(&c.to_string());
        match c {
            0 => {
                let t: Send<i32, Cli> = choose!(Lp::Put, s);
                s = send(k, t);
                want.push(format!("put{k}"));
            },
            1 => {
                let t: Recv<i32, Cli> = choose!(Lp::Get, s);
                let (v, t) = recv(t).map_err(e)?;
                expect("payload", v, 500 + k)?;
                want.push("get".into());
                s = t;
            },
            2 => {
                let t: Send<i32, Recv<i32, Cli>> = choose!(Lp::Both, s);
                let t = send(k, t);
                let (v, t) = recv(t).map_err(e)?;
                expect("payload", v, k + 5000)?;
                want.push(format!("both{k}"));
                s = t;
            },
            3 => {
                let t: End = choose!(Lp::Stop, s);
                want.push("stop".into());
                close(t).map_err(e)?;
                break;
            },
            _ => {
                let t: Recv<Lp2, End> = choose!(Lp::Swap, s);
                want.push("swap".into());
                let (o2, kk) = (obs.clone(), k);
                let r: Result<(), Box<dyn Error>> = offer!(t, {
                    Lp2::Back(t) => {
                        let (v, t) = recv(t)?;
                        o2.add("A", format!("back{}", v - 700 - kk));
                        offer!(t, {
                            Lp2Dual::Again(t) => {
                                offer!(t, {
                                    Lp::Stop(t) => {
                                        o2.add("A", "offered stop");
                                        close(t)
                                    },
                                })
                            },
                            Lp2Dual::Quit(t) => {
                                o2.add("A", "wrong");
                                close(t)
                            },
                        })
                    },
                    Lp2::Quit(t) => {
                        o2.add("A", "quit");
                        close(t)
                    },
                });
                r.map_err(e)?;
                if back > 0 {
                    want.push("selects".into());
                    expect("offering of the former selector", obs.get("A"), vec!["back0".to_string(), "offered stop".to_string()])?;
                } else {
                    expect("offering of the former selector", obs.get("A"), vec!["quit".to_string()])?;
                }
                break;
            },
        }
    }
    join(h)?;
    expect("branches taken by the offering side", obs.get("B"), want)?;
    Ok(out)
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = V1(vec![]);
    <Su<Su<Z>> as Enum<End>>::all(&mut v);
    let mut v = v.0;
    v.push(Scenario::conc("nested either", nested).outcomes(4));
    let d = if t == Tier::Quick { 5 } else { 7 };
    for k in 0..=d {
        v.push(Scenario::conc(format!("labelled loop, depth {k}"), move || labelled(k)));
    }
    let d = if t == Tier::Quick { 40 } else { 400 };
    v.push(Scenario::conc(format!("labelled loop, {d} rounds"), move || labelled_long(d)));
    v
}
fn main() {
    let _ = |x: Lp2Dual| match x {
        Lp2Dual::Again(_) => 0,
        Lp2Dual::Quit(_) => 1,
    };
    mcrt::driver::main(Check {
        property: "C03",
        rule: "all pairs of continuations of up to 2 steps under left/right, nested left/right with equal leaf types, and every label history of a five-label loop (with exchange of the selecting side) up to depth 5 (thorough 7), every periodic history of 40 (thorough 400) labels with a period of up to 3, also with one side taking very long before each step; every inequivalent interleaving",
        assumptions: &["crossbeam-channel behaves as the shim of mc/xchan (compared with the real crate in mc/conform)"],
        scenarios,
    })
}
