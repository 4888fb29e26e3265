//! C10: sessions supervised by a cancellation broadcaster.
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c10.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c10_t.rs"]
mod gen;
use mcrt::driver::*;

/// A participant that is certain to have been told (the broadcaster has finished) before it acts.
mod told {
    use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send};
    use mpstthree::role::end::RoleEnd;
    use std::error::Error;
    type R = Result<(), Box<dyn Error>>;
    mpstthree::create_meshedchannels!(MC, 4);
    mpstthree::close_mpst_check_cancel!(close_mpst, MC, 4);
    mpstthree::fork_mpst_multi!(fork_mpst, MC, 4);
    mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual | RoleD, RoleDDual |);
    mpstthree::create_multiple_normal_name!(NameA, NameB, NameC, NameD);
    mpstthree::create_send_check_cancel!(send_mpst_b_to_d, RoleD, NameB, MC, 4, 3);
    mpstthree::create_send_check_cancel!(send_mpst_d_to_b, RoleB, NameD, MC, 4, 2);
    mpstthree::create_recv_mpst_session!(recv_mpst_d_from_b, RoleB, NameD, MC, 4, 2);
    mpstthree::create_recv_mpst_session!(recv_mpst_b_from_d, RoleD, NameB, MC, 4, 3);
    mpstthree::send_cancel!(cancel_mpst_c, NameC, MC, 4, "Session dropped");
    type TA = MC<End, End, End, RoleEnd, NameA>;
    type TB = MC<End, End, Send<i32, Recv<i32, End>>, RoleD<RoleD<RoleEnd>>, NameB>;
    type TC = MC<End, End, End, RoleEnd, NameC>;
    type TD = MC<End, Recv<i32, Send<i32, End>>, End, RoleB<RoleB<RoleEnd>>, NameD>;
    struct Gate(crossbeam_channel::Sender<()>);
    impl Drop for Gate {
        fn drop(&mut self) {
            let _ = self.0.send(());
        }
    }
    fn supervise(s: TA) -> R {
        mpstthree::broadcast_cancel!(s, 4)
    }
    /// `who` = 0: B waits before its send; 1: D waits before its send, B goes on normally.
    pub fn run(who: usize) -> Result<String, String> {
        let (tx, rx) = crossbeam_channel::bounded::<()>(2);
        let (rb, rd) = (rx.clone(), rx);
        let (sent, seen) = crossbeam_channel::bounded::<usize>(4);
        let (sb, sd) = (sent.clone(), sent);
        let (a, b, c, d) = fork_mpst(
            move |s: TA| -> R {
                let _g = Gate(tx);
                supervise(s)
            },
            move |s: TB| -> R {
                if who == 0 {
                    let _ = rb.recv();
                }
                let s = send_mpst_b_to_d(1, s)?;
                if who == 0 {
                    let _ = sb.send(0);
                }
                let (_, s) = recv_mpst_b_from_d(s)?;
                close_mpst(s)
            },
            move |s: TC| -> R { cancel_mpst_c(s) },
            move |s: TD| -> R {
                let (_, s) = recv_mpst_d_from_b(s)?;
                if who == 1 {
                    let _ = rd.recv();
                }
                let s = send_mpst_d_to_b(2, s)?;
                if who == 1 {
                    let _ = sd.send(1);
                }
                close_mpst(s)
            },
        );
        let r: Vec<bool> = vec![a.join().is_ok(), b.join().is_ok(), c.join().is_ok(), d.join().is_ok()];
        if r.iter().any(|x| *x) {
            return Err(format!("somebody finished successfully although C cancelled: {r:?}"));
        }
        match seen.try_recv() {
            Ok(w) => Err(format!("{} went on sending although the cancellation had been broadcast before", ["B", "D"][w])),
            Err(_) => Ok(format!("{r:?}")),
        }
    }
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut out = vec![];
    let deep = t == Tier::Thorough;
    for who in 0..2 {
        out.push(Scenario::conc(format!("told/{who}"), move || told::run(who)));
    }
    for c in gen::cases() {
        let n = c.roles.len();
        let c = std::sync::Arc::new(c);
        let (mode, proto) = c.name.split_once('/').unwrap();
        let looping = proto == "again" || proto == "nest";
        let choice = looping || proto.starts_with("enum");
        let check = mode.starts_with("check");
        if looping && n < 5 {
            // many rounds: schedules close to the default one
            let k = deep as usize;
            let a = c.clone();
            out.push(Scenario::conc(format!("long/run/{}", c.name), move || mp::many_rounds(&a, 20)).delays(k));
            let a = c.clone();
            out.push(Scenario::conc(format!("long/stop/{}", c.name), move || mp::many_rounds_interrupted(&a, 12, &mp::STOPS)).delays(k));
            let a = c.clone();
            out.push(Scenario::conc(format!("once/stop/{}", c.name), move || mp::many_rounds_interrupted(&a, 1, &mp::STOPS)).delays(1));
        }
        if !deep && (looping || choice && n > 3) {
            continue;
        }
        let depth = if looping && n == 3 { 2 } else { 1 };
        let a = c.clone();
        out.push(Scenario::conc(format!("run/{}", c.name), move || mp::complete(&a, depth)));
        if !deep && (choice && !(check || mode.starts_with("gen") && proto == "enum1") || n > 3 && (mode.starts_with("gen") || mode.starts_with("bundle") || proto != "none")) {
            continue;
        }
        if n == 3 && !looping {
            let a = c.clone();
            out.push(Scenario::conc(format!("slow/{}", c.name), move || mp::any_speed(&a, depth)));
            let a = c.clone();
            out.push(Scenario::conc(format!("slow stop/{}", c.name), move || mp::interrupted_slowly(&a, &[1, 2], &mp::STOPS[..1], depth)));
        }
        let a = c.clone();
        let victims: Vec<usize> = if n < 5 && (deep || n == 3) { (1..n).collect() } else { vec![1, n - 1] };
        let kinds = if !choice && n == 3 || deep && n < 5 { &mp::STOPS[..] } else { &mp::STOPS[..1] };
        out.push(Scenario::conc(format!("stop/{}", c.name), move || mp::interrupted(&a, &victims, kinds, depth, None)));
        if n == 3 || deep && n < 5 {
            let a = c.clone();
            out.push(Scenario::conc(format!("broadcaster/{}", c.name), move || mp::interrupted(&a, &[0], &mp::STOPS[1..], depth, Some(0))));
        }
    }
    // more roles: every participant and the broadcaster as victim, schedules close to the default one
    for c in gen::large() {
        let n = c.roles.len();
        let c = std::sync::Arc::new(c);
        let k = if deep { 2 } else { 1 };
        let a = c.clone();
        out.push(Scenario::conc(format!("large/run/{}", c.name), move || mp::complete(&a, 1)).delays(k));
        let a = c.clone();
        out.push(Scenario::conc(format!("large/stop/{}", c.name), move || mp::interrupted(&a, &(1..n).collect::<Vec<_>>(), &mp::STOPS, 1, None)).delays(k));
        let a = c.clone();
        out.push(Scenario::conc(format!("large/broadcaster/{}", c.name), move || mp::interrupted(&a, &[0], &mp::STOPS[1..], 1, Some(0))).delays(k));
    }
    out
}
fn main() {
    mcrt::driver::main(Check { property: "C10", rule: "supervised sessions of 3 and 4 roles (5 in the thorough tier) in three macro families (messages, fans, rings, labelled choices with loops and nesting); nobody stops, or any participant at any step cancels through the broadcaster, returns an error or panics, or the broadcaster itself stops; one participant or the broadcaster taking very long before each action; all selection sequences (at most 2) x every inequivalent interleaving of participants and the polling broadcaster, and larger sessions on schedules that depart at most once (twice in the thorough tier) from the default one; loops of 12 and 20 rounds; without a stop all finish successfully, with one everybody ends with failure, nobody blocks or polls forever; a participant that acts after the broadcaster has finished does not send any more", assumptions: mp::ASSUME, scenarios })
}
