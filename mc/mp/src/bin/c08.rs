//! C08: closing.
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c08.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c08_t.rs"]
mod gen;
use mcrt::driver::*;

/// Two parties that reach the end of their session, each closing (at once, or later) or leaving.
fn two_party(steps: usize) -> Outcome {
    use mpstthree::binary::{cancel::cancel, close::close, recv::recv, send::send};
    use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
    type S2 = Send<i32, Recv<i32, End>>;
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Do {
        Close,
        Late,
        Cancel,
        Drop,
        Panic,
    }
    const ALL: [Do; 5] = [Do::Close, Do::Late, Do::Cancel, Do::Drop, Do::Panic];
    fn fin(s: End, d: Do) -> Result<(), Box<dyn std::error::Error>> {
        match d {
            Do::Close => close(s),
            Do::Late => {
                std::thread::sleep(std::time::Duration::from_secs(1));
                close(s)
            },
            Do::Cancel => {
                cancel(s);
                Err("cancelled".into())
            },
            Do::Drop => Err("left".into()),
            Do::Panic => panic!("left"),
        }
    }
    let (x, y) = (ALL[mcrt::choose(5)], ALL[mcrt::choose(5)]);
    let closes = |d| d == Do::Close || d == Do::Late;
    let (h, rx) = if steps == 0 {
        let (h, s) = mpstthree::binary::fork::fork_with_thread_id(move |s: End| fin(s, y));
        (h, std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fin(s, x).is_ok())))
    } else {
        let (h, s) = mpstthree::binary::fork::fork_with_thread_id(move |s: <S2 as Session>::Dual| {
            let (v, s) = recv(s)?;
            fin(send(v + 1, s), y)
        });
        let run = || {
            let s = send(1, s);
            let (v, s) = recv(s).expect("receive");
            assert_eq!(v, 2);
            fin(s, x).is_ok()
        };
        (h, std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)))
    };
    let (ok_x, ok_y) = (rx.unwrap_or(false), h.join().is_ok());
    let want = closes(x) && closes(y);
    if ok_x != want || ok_y != want {
        return Err(format!("closing reported {ok_x} / {ok_y} when one side does {x:?} and the other {y:?}"));
    }
    Ok(format!("{x:?} {y:?}"))
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = [0, 1].into_iter().map(|k| Scenario::conc(format!("two-party end after {k} exchanges"), move || two_party(k)).full()).collect();
    v.extend(gen::cases().into_iter().map(|c| Scenario::conc(c.name, move || {
        let n = c.roles.len();
        if n < 5 {
            mp::interrupted(&c, &(0..n).collect::<Vec<_>>(), &mp::STOPS, 2, None)
        } else {
            // larger sessions: the role disappears right before its close
            mp::interrupted(&c, &[0, n - 1], &[mp::Stop::Return], 2, Some(0))
        }
    })));
    // many roles: every role as victim, schedules close to the default one
    v.extend(gen::large().into_iter().map(|c| Scenario::conc(format!("large/{}", c.name), move || mp::interrupted(&c, &(0..c.roles.len()).collect::<Vec<_>>(), &mp::STOPS, 2, None)).delays(if t == Tier::Thorough { 2 } else { 1 })));
    for c in gen::cases() {
        let n = c.roles.len();
        if n < 4 && !c.name.starts_with("timed") {
            v.push(Scenario::conc(format!("slow/{}", c.name), move || mp::interrupted_slowly(&c, &(0..n).collect::<Vec<_>>(), &mp::STOPS[..2], 2)));
        }
    }
    v
}
fn main() {
    mcrt::driver::main(Check { property: "C08", rule: "two parties, each closing at once or later, cancelling, leaving or panicking at the end; short sessions in every call style (2..5 roles, 3-role library functions and methods, macro families, timed sessions), every role as the one that stops, before every one of its actions, by cancelling, returning an error or panicking, or nobody stops, also with that role taking very long before each action; every inequivalent interleaving, and larger sessions on schedules that depart at most once (twice in the thorough tier) from the default one; a role may report a successful close only if all roles had reached their close, and nobody blocks", assumptions: mp::ASSUME, scenarios })
}
