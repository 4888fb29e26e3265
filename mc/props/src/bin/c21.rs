//! C21: TCP and UDP steps.
use mcrt::driver::*;
use mcrt::net::{self, Faults, Side};
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::transport::tcp::{cancel::cancel_tcp, close::close_tcp, fork::fork_tcp, recv::recv_tcp, send::send_tcp};
use mpstthree::transport::udp::{cancel::cancel_udp, fork::fork_udp, recv::recv_udp, send::send_udp};
use mpstthree::{choose_tcp, choose_udp, offer_tcp, offer_udp};
use props::*;
use std::error::Error;
use std::net::{TcpStream, UdpSocket};
use std::os::fd::FromRawFd;
use std::thread::spawn;

type Data = (i32, [u8; 128]);
type Res<T> = Result<T, Box<dyn Error>>;

fn block(step: usize) -> [u8; 128] {
    std::array::from_fn(|i| (i * 7 + step * 41 + 1) as u8)
}
fn tcp(fd: i32) -> TcpStream {
    unsafe { TcpStream::from_raw_fd(fd) }
}
fn udp(fd: i32) -> UdpSocket {
    unsafe { UdpSocket::from_raw_fd(fd) }
}
fn tcp_pair(fa: Faults, fb: Faults) -> ((TcpStream, Side), (TcpStream, Side)) {
    let ((a, i), (b, j)) = net::pair(false, fa, fb);
    ((tcp(a), i), (tcp(b), j))
}
fn udp_pair(fa: Faults, fb: Faults) -> ((UdpSocket, Side), (UdpSocket, Side)) {
    let ((a, i), (b, j)) = net::pair(true, fa, fb);
    ((udp(a), i), (udp(b), j))
}
fn quiet() -> Faults {
    Faults::default()
}
fn frag(budget: usize, lens: &[usize]) -> Faults {
    Faults { budget, short: true, lens: lens.to_vec(), intr: true, errors: vec![] }
}
fn faulty(budget: usize, lens: &[usize]) -> Faults {
    Faults { budget, short: true, lens: lens.to_vec(), intr: true, errors: vec![libc::ECONNRESET, libc::ETIMEDOUT] }
}
/// Nothing may depend on how fast the network is.
fn dawdle(late: bool) {
    if late {
        std::thread::sleep(std::time::Duration::from_secs(100_000))
    }
}
/// Raw write of the peer.
fn put(s: &mut TcpStream, b: &[u8]) {
    use std::io::Write;
    s.write_all(b).unwrap()
}
/// Raw read of the peer up to the end of the stream.
fn drain(mut s: TcpStream) -> Vec<u8> {
    use std::io::Read;
    let mut v = vec![];
    s.read_to_end(&mut v).unwrap();
    v
}
fn text(e: Box<dyn Error>) -> String {
    e.to_string()
}
fn thread<T: std::marker::Send + 'static>(f: impl FnOnce() -> T + std::marker::Send + 'static) -> std::thread::JoinHandle<T> {
    spawn(f)
}
fn out<T>(h: std::thread::JoinHandle<T>) -> Result<T, String> {
    h.join().map_err(|e| mcrt::rt::panic_text(&e))
}

/// n blocks one way, both ends in the library, the network fragmenting.
fn stream_n(n: usize, fa: Faults, fb: Faults) -> Outcome {
    stream_at(n, fa, fb, Obs::new())
}
fn stream_at(n: usize, fa: Faults, fb: Faults, o: Obs) -> Outcome {
    trait Chain: Session {
        fn push(self, i: usize, st: TcpStream, o: Obs) -> Res<()>;
    }
    impl Chain for End {
        fn push(self, _i: usize, st: TcpStream, o: Obs) -> Res<()> {
            o.pause("A");
            close_tcp(self, st, true)
        }
    }
    impl<S: Chain> Chain for Send<Data, S> {
        fn push(self, i: usize, st: TcpStream, o: Obs) -> Res<()> {
            o.pause("A");
            let (s, st) = send_tcp(i as i32 + 10, &block(i), self, st, true)?;
            s.push(i + 1, st, o)
        }
    }
    trait Pull: Session {
        fn pull(self, i: usize, st: TcpStream, o: Obs) -> Res<()>;
    }
    impl Pull for End {
        fn pull(self, _i: usize, st: TcpStream, o: Obs) -> Res<()> {
            o.pause("B");
            close_tcp(self, st, true)
        }
    }
    impl<S: Pull> Pull for Recv<Data, S> {
        fn pull(self, i: usize, st: TcpStream, o: Obs) -> Res<()> {
            o.pause("B");
            let (v, s, d, st) = recv_tcp(self, st, true)?;
            if v != i as i32 + 10 {
                panic!("step {i}: payload {v}")
            }
            if d != block(i) {
                panic!("step {i}: wrong data block {:?}", &d[..])
            }
            s.pull(i + 1, st, o)
        }
    }
    fn run<S: Session + Pull + 'static>(n: usize, fa: Faults, fb: Faults, o: Obs) -> Outcome
    where
        S::Dual: Chain,
    {
        let ((sa, ia), (sb, ib)) = tcp_pair(fa, fb);
        let (b, a) = S::new();
        let o2 = o.clone();
        let ha = thread(move || a.push(0, sa, o).map_err(text));
        let hb = thread(move || b.pull(0, sb, o2).map_err(text));
        let (ra, rb) = (out(ha).and_then(|r| r), out(hb).and_then(|r| r));
        let want: Vec<u8> = (0..n).flat_map(block).collect();
        if !want.starts_with(&ia.sent()) {
            return Err("bytes on the wire are not a prefix of the blocks".into());
        }
        if !ia.fatal() && !ib.fatal() {
            expect("sender", ra, Ok(()))?;
            expect("receiver", rb, Ok(()))?;
            expect("wire", ia.sent(), want)?;
            expect("bytes read", ib.consumed().len(), 128 * n)?;
            expect("both directions shut down", (ia.shut(), ib.shut()), (true, true))?;
            return Ok("delivered".into());
        }
        if ia.fatal() && ra.is_ok() {
            return Err("a failed write was reported as success".into());
        }
        if ib.fatal() && rb.is_ok() {
            return Err("a failed read was reported as success".into());
        }
        Ok("error reported".into())
    }
    type S1 = Recv<Data, End>;
    type S2 = Recv<Data, S1>;
    type S3 = Recv<Data, S2>;
    match n {
        1 => run::<S1>(n, fa, fb, o),
        2 => run::<S2>(n, fa, fb, o),
        _ => run::<S3>(n, fa, fb, o),
    }
}
/// The peer writes the bytes of several blocks cut into segments at arbitrary places, then closes
/// after `total` bytes.
fn receive_from_raw(cuts: &[usize], total: usize) -> Outcome {
    receive_at(cuts, total, Obs::new())
}
fn receive_at(cuts: &[usize], total: usize, seen: Obs) -> Outcome {
    let ((mut sa, _), (sb, ib)) = tcp_pair(quiet(), quiet());
    type S = Recv<Data, Recv<Data, End>>;
    let (b, a) = S::new();
    let s = mpstthree::binary::send::send((1, block(0)), a);
    let _s = mpstthree::binary::send::send((2, block(1)), s);
    let all: Vec<u8> = (0..2).flat_map(block).collect();
    let mut o = 0;
    let mut ends: Vec<usize> = cuts.iter().copied().filter(|c| *c < total).collect();
    ends.push(total);
    ends.sort_unstable();
    let write = {
        let seen = seen.clone();
        move || {
            for e in ends {
                if e > o {
                    seen.pause("A");
                    put(&mut sa, &all[o..e]);
                    o = e
                }
            }
            seen.pause("A");
            drop(sa);
        }
    };
    if seen.slow().is_some() {
        thread(write);
    } else {
        write()
    }
    let complete = total / 128;
    seen.pause("B");
    let (v, b, d, st) = match recv_tcp(b, sb, true) {
        Ok(x) if complete >= 1 => x,
        Ok(_) => return Err(format!("block delivered although the connection was cut after {total} bytes")),
        Err(_) if complete == 0 => return Ok("cut in the first block".into()),
        Err(e) => return Err(format!("complete block not delivered: {e}")),
    };
    expect("first step", (v, d), (1, block(0)))?;
    expect("bytes taken", ib.consumed().len(), 128)?;
    seen.pause("B");
    match recv_tcp(b, st, true) {
        Ok((v, _s, d, _)) if complete >= 2 => {
            expect("second step", (v, d), (2, block(1)))?;
            Ok("both".into())
        }
        Ok(_) => Err(format!("second block delivered although the connection was cut after {total} bytes")),
        Err(_) if complete < 2 => Ok("cut in the second block".into()),
        Err(e) => Err(format!("complete second block not delivered: {e}")),
    }
}
/// Request, answer, notification; each step with its own switch.
fn switches(sw: [bool; 3], bar: [bool; 3], budget: usize) -> Outcome {
    type S = Recv<Data, Send<Data, Recv<Data, End>>>;
    let ((sa, ia), (sb, ib)) = tcp_pair(frag(budget, &[1, 64, 127]), frag(budget, &[1, 64, 127]));
    let (b, a) = S::new();
    // a step whose network is off on one side only is completed by nobody: both use the same switch
    let _ = bar;
    let seen = Obs::any_speed();
    let o = seen.clone();
    let ha = thread(move || -> Result<(), String> {
        o.pause("A");
        let (s, st) = send_tcp(1, &block(0), a, sa, sw[0]).map_err(text)?;
        o.pause("A");
        let (v, s, d, st) = recv_tcp(s, st, sw[1]).map_err(text)?;
        expect("answer", v, 2)?;
        if sw[1] {
            expect("answer block", d, block(1))?
        }
        o.pause("A");
        let (s, st) = send_tcp(3, &block(2), s, st, sw[2]).map_err(text)?;
        o.pause("A");
        close_tcp(s, st, sw[2]).map_err(text)
    });
    let hb = thread(move || -> Result<(), String> {
        seen.pause("B");
        let (v, s, d, st) = recv_tcp(b, sb, sw[0]).map_err(text)?;
        expect("request", v, 1)?;
        if sw[0] {
            expect("request block", d, block(0))?
        }
        seen.pause("B");
        let (s, st) = send_tcp(2, &block(1), s, st, sw[1]).map_err(text)?;
        seen.pause("B");
        let (v, s, d, st) = recv_tcp(s, st, sw[2]).map_err(text)?;
        expect("notification", v, 3)?;
        if sw[2] {
            expect("notification block", d, block(2))?
        }
        seen.pause("B");
        close_tcp(s, st, sw[0]).map_err(text)
    });
    out(ha)??;
    out(hb)??;
    let cat = |l: &[usize]| -> Vec<u8> { l.iter().filter(|i| sw[**i]).flat_map(|i| block(*i)).collect() };
    expect("bytes sent by A", ia.sent(), cat(&[0, 2]))?;
    expect("bytes sent by B", ib.sent(), cat(&[1]))?;
    expect("bytes taken by A", ia.consumed(), cat(&[1]))?;
    expect("bytes taken by B", ib.consumed(), cat(&[0, 2]))?;
    if sw == [false; 3] {
        expect("calls on the network", (ia.calls(), ib.calls()), (vec![], vec![]))?;
    }
    Ok("done".into())
}
/// Loop driven by the binary choice, the network part going through an echoing peer.
#[derive(Debug)]
enum Op {
    More(Recv<Data, Send<Data, Loop>>),
    Done(End),
}
type Loop = Recv<([u8; 128], Op), End>;
fn offered(s: Loop, st: TcpStream, seen: Obs) -> Res<()> {
    offer_tcp!(s, {
        Op::Done(s) => {
            seen.add("A", "done");
            close_tcp(s, st, false)
        },
        Op::More(s) => {
            let (v, s, _d, st) = recv_tcp(s, st, false)?;
            seen.add("A", format!("more {v}"));
            let (s, st) = send_tcp(v + 1, &block(9), s, st, false)?;
            offered(s, st, seen)
        },
    })
}
fn echo(n: usize, f: Faults, late: bool) -> Outcome {
    let (ic, (fd, _is)) = net::accept_next(false, f);
    let server = thread(move || {
        use std::io::{Read, Write};
        let mut s = tcp(fd);
        let mut b = [0u8; 4096];
        loop {
            match s.read(&mut b) {
                Ok(0) | Err(_) => break,
                Ok(k) => {
                    dawdle(late);
                    if s.write_all(&b[..k]).is_err() {
                        break;
                    }
                }
            }
        }
    });
    let seen = Obs::new();
    let o = seen.clone();
    let (h, mut s, st) = fork_tcp::<Loop, _>(move |s, st| offered(s, st, o), "127.0.0.1:3333").map_err(text)?;
    expect("address", net::connected_to(), vec!["127.0.0.1:3333".to_string()])?;
    for i in 0..n {
        let t = choose_tcp!(Op::More, s, block(7));
        let (t, st2) = send_tcp(i as i32 * 10, &block(i), t, st.try_clone().unwrap(), true).map_err(text)?;
        let (v, t, d, _st) = recv_tcp(t, st2, true).map_err(text)?;
        expect("answer", (v, d), (i as i32 * 10 + 1, block(i)))?;
        s = t;
    }
    let e = choose_tcp!(Op::Done, s, block(7));
    close_tcp(e, st, true).map_err(text)?;
    join(h)?;
    out(server)?;
    let mut want: Vec<String> = (0..n).map(|i| format!("more {}", i * 10)).collect();
    want.push("done".into());
    expect("offers seen", seen.get("A"), want)?;
    expect("wire", (ic.sent(), ic.consumed()), ((0..n).flat_map(block).collect(), (0..n).flat_map(block).collect()))?;
    expect("descriptors left", net::open_fds(), 0)?;
    Ok("echoed".into())
}

fn tcp_misc(v: &mut Vec<Scenario>) {
    for refuse in [libc::ECONNREFUSED, libc::ETIMEDOUT] {
        v.push(Scenario::conc(format!("tcp connect fails {refuse}"), move || {
            net::refuse_next(refuse);
            let obs = Obs::new();
            let o = obs.clone();
            let r = fork_tcp::<Loop, _>(
                move |s, st| {
                    o.add("A", "started");
                    cancel_tcp(s, st);
                    Ok(())
                },
                "127.0.0.1:1",
            );
            match r {
                Ok((h, _, _)) => {
                    let _ = h.join();
                    Err("participant launched although the connection failed".into())
                }
                Err(_) => {
                    expect("participant", obs.get("A"), vec![])?;
                    expect("descriptors left", net::open_fds(), 0)?;
                    Ok("refused".into())
                }
            }
        }));
    }
    for how in ["ok", "err", "panic"] {
        v.push(Scenario::conc(format!("tcp forked participant {how}"), move || {
            let (_ic, (fd, _)) = net::accept_next(false, quiet());
            let srv = tcp(fd);
            let (h, s, st) = fork_tcp::<Recv<Data, End>, _>(
                move |s, st| {
                    let (v, s, d, st) = recv_tcp(s, st, true)?;
                    assert_eq!((v, d), (5, block(3)));
                    match how {
                        "ok" => close_tcp(s, st, true),
                        "err" => {
                            cancel_tcp(s, st);
                            Err("own error".into())
                        }
                        _ => panic!("own panic"),
                    }
                },
                "127.0.0.1:80",
            )
            .map_err(text)?;
            // the block comes from the network peer, the payload from the session
            let sv = thread(move || {
                let mut srv = srv;
                put(&mut srv, &block(3));
                drain(srv).len()
            });
            let e = mpstthree::binary::send::send((5, block(0)), s);
            let r = close_tcp(e, st, true);
            let j = join(h);
            let got = out(sv)?;
            expect("bytes towards the peer", got, 0)?;
            match how {
                "ok" => {
                    r.map_err(text)?;
                    j?
                }
                w => {
                    if r.is_ok() {
                        return Err("closing succeeded although the participant failed".into());
                    }
                    match j {
                        Ok(()) => return Err("failure of the participant not reported".into()),
                        Err(t) if t.contains(if w == "err" { "own error" } else { "own panic" }) => (),
                        Err(t) => return Err(format!("participant reported {t:?}")),
                    }
                }
            }
            expect("descriptors left", net::open_fds(), 0)?;
            Ok(how.into())
        }));
    }
    // the peer of the session stops; the network peer must see the end of the stream in every case
    for sw in [false, true] {
        for stop in ["cancel", "drop", "panic"] {
            v.push(Scenario::conc(format!("tcp close against {stop} switch {sw}"), move || {
                let ((sa, ia), (sb, _)) = tcp_pair(quiet(), quiet());
                let (b, a) = <Recv<Data, End>>::new();
                let hb = thread(move || {
                    let (_, s, _, st) = match recv_tcp(b, sb, sw) {
                        Ok(x) => x,
                        Err(e) => panic!("{e}"),
                    };
                    match stop {
                        "cancel" => cancel_tcp(s, st),
                        "drop" => drop((s, st)),
                        _ => panic!("stop"),
                    }
                });
                let (e, st) = send_tcp(1, &block(0), a, sa, sw).map_err(text)?;
                let r = close_tcp(e, st, sw);
                let _ = join(hb);
                if r.is_ok() {
                    return Err("closing succeeded although the other side never closed".into());
                }
                expect("connection given up", ia.shut(), true)?;
                expect("descriptors left", net::open_fds(), 0)?;
                Ok("error".into())
            }));
        }
    }
    v.push(Scenario::conc("tcp cancel", || {
        let ((sa, _), (sb, ib)) = tcp_pair(quiet(), quiet());
        let keep = sa.try_clone().unwrap();
        let (b, a) = <Recv<Data, End>>::new();
        let ha = thread(move || cancel_tcp(a, sa));
        let r = recv_tcp(b, sb, true);
        out(ha)?;
        drop(keep);
        if r.is_ok() {
            return Err("receive from a cancelled participant succeeded".into());
        }
        expect("bytes read", ib.consumed().len(), 0)?;
        Ok("cancelled".into())
    }));
    v.push(Scenario::conc("tcp cancel shuts the connection for every holder", || {
        let ((sa, _), (sb, _)) = tcp_pair(quiet(), quiet());
        let keep = sa.try_clone().unwrap();
        let (_b, a) = <Recv<Data, End>>::new();
        let hb = thread(move || drain(sb).len());
        cancel_tcp(a, sa);
        expect("bytes", out(hb)?, 0)?;
        drop(keep);
        Ok("end of stream".into())
    }));
    v.push(Scenario::conc("tcp cancel after the connection was lost", || {
        let ((mut sa, _), (sb, _)) = tcp_pair(Faults { budget: 1, errors: vec![libc::ECONNRESET], ..quiet() }, quiet());
        use std::io::Write;
        let r = sa.write(&[1]);
        let (_b, a) = <Recv<Data, End>>::new();
        cancel_tcp(a, sa);
        drop(sb);
        Ok(if r.is_ok() { "connected".into() } else { "lost".into() })
    }).outcomes(2));
    // sending to a participant that is gone is never reported as a success
    for sw in [false, true] {
        v.push(Scenario::conc(format!("tcp send to nobody switch {sw}"), move || {
            let ((sa, ia), _b) = tcp_pair(quiet(), quiet());
            let (b, a) = <Recv<Data, End>>::new();
            drop(b);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || send_tcp(1, &block(0), a, sa, sw).map(|_| ()).map_err(text))) {
                Ok(Ok(())) => Err("send to a dropped session succeeded".into()),
                _ => {
                    expect("bytes", ia.sent().len(), 0)?;
                    Ok("failed".into())
                }
            }
        }));
    }
}

fn udp_scen(t: Tier, v: &mut Vec<Scenario>) {
    let th = t == Tier::Thorough;
    // a datagram of any length from a raw peer
    v.push(Scenario::conc("udp datagram lengths", || {
        let len = mcrt::choose(131);
        let ((sa, _), (sb, ib)) = udp_pair(quiet(), quiet());
        let (b, a) = <Recv<Data, Recv<Data, End>>>::new();
        let s = mpstthree::binary::send::send((1, block(0)), a);
        let _s = mpstthree::binary::send::send((2, block(1)), s);
        let d: Vec<u8> = (0..len).map(|i| (i * 3 + 1) as u8).collect();
        sa.send(&d).unwrap();
        sa.send(&block(5)[..len / 2]).unwrap();
        let (x, s, got, n, sb) = recv_udp(b, sb, true).map_err(text)?;
        expect("payload", x, 1)?;
        expect("length", n, len.min(128))?;
        expect("datagram", &got[..n], &d[..n])?;
        let (x, _s, got, n, _sb) = recv_udp(s, sb, true).map_err(text)?;
        expect("second payload", x, 2)?;
        expect("second datagram", &got[..n], &block(5)[..len / 2])?;
        expect("reads", ib.calls().len(), 2)?;
        Ok(format!("{}", len.min(129) / 64))
    }).outcomes(3));
    for sw in 0..8u32 {
        for (k, f) in [quiet(), Faults { budget: if th { 2 } else { 1 }, errors: vec![libc::ECONNREFUSED, libc::EMSGSIZE, libc::EAGAIN], intr: true, ..quiet() }].into_iter().enumerate() {
            v.push(Scenario::conc(format!("udp switches {sw} faults {k}"), move || {
                let w = move |i: u32| sw & (1 << i) != 0;
                type S = Recv<Data, Send<Data, Recv<Data, End>>>;
                let ((sa, ia), (sb, ib)) = udp_pair(f.clone(), f.clone());
                let (b, a) = S::new();
                let len = |on: bool| if on { 128 } else { 0 };
                let seen = Obs::any_speed();
                let o = seen.clone();
                let ha = thread(move || -> Result<(), String> {
                    o.pause("A");
                    let (s, n, so) = send_udp(1, &block(0), a, sa, w(0)).map_err(text)?;
                    expect("length", n, len(w(0)))?;
                    o.pause("A");
                    let (v, s, d, n, so) = recv_udp(s, so, w(1)).map_err(text)?;
                    expect("answer", (v, n), (2, len(w(1))))?;
                    expect("answer data", &d[..n], &block(1)[..n])?;
                    o.pause("A");
                    let (s, n, so) = send_udp(3, &block(2), s, so, w(2)).map_err(text)?;
                    expect("length", n, len(w(2)))?;
                    drop(so);
                    o.pause("A");
                    mpstthree::binary::close::close(s).map_err(text)
                });
                let hb = thread(move || -> Result<(), String> {
                    seen.pause("B");
                    let (v, s, d, n, so) = recv_udp(b, sb, w(0)).map_err(text)?;
                    expect("request", (v, n), (1, len(w(0))))?;
                    expect("request data", &d[..n], &block(0)[..n])?;
                    seen.pause("B");
                    let (s, n, so) = send_udp(2, &block(1), s, so, w(1)).map_err(text)?;
                    expect("length", n, len(w(1)))?;
                    seen.pause("B");
                    let (v, s, d, n, so) = recv_udp(s, so, w(2)).map_err(text)?;
                    expect("notification", (v, n), (3, len(w(2))))?;
                    expect("notification data", &d[..n], &block(2)[..n])?;
                    drop(so);
                    seen.pause("B");
                    mpstthree::binary::close::close(s).map_err(text)
                });
                let (ra, rb) = (out(ha), out(hb));
                let cat = |l: &[u32]| -> Vec<u8> { l.iter().filter(|i| w(**i)).flat_map(|i| block(*i as usize)).collect() };
                if ia.used() + ib.used() == 0 {
                    ra??;
                    rb??;
                    expect("datagrams", (ia.sent(), ib.sent()), (cat(&[0, 2]), cat(&[1])))?;
                    expect("datagrams taken", (ia.consumed(), ib.consumed()), (cat(&[1]), cat(&[0, 2])))?;
                    if sw == 0 {
                        expect("calls on the network", (ia.calls(), ib.calls()), (vec![], vec![]))?;
                    }
                    return Ok("done".into());
                }
                // some call failed: the side it failed on reports it, and no wrong data is delivered
                for (s, r, o) in [(ia, &ra, "A"), (ib, &rb, "B")] {
                    if s.used() > 0 {
                        match r {
                            Ok(Ok(())) => return Err(format!("{o}: failed network call reported as success")),
                            Ok(Err(e)) if e.contains("got") => return Err(format!("{o}: {e}")),
                            Ok(Err(_)) | Err(_) => (),
                        }
                    }
                    if let Ok(Err(e)) = r {
                        if e.contains("expected") {
                            return Err(format!("{o}: {e}"));
                        }
                    }
                }
                Ok("error reported".into())
            }));
        }
    }
    #[derive(Debug)]
    enum Op {
        More(Recv<Data, Send<Data, Loop>>),
        Done(End),
    }
    type Loop = Recv<([u8; 128], Op), End>;
    fn offered(s: Loop, so: UdpSocket, seen: Obs) -> Res<()> {
        offer_udp!(s, {
            Op::Done(s) => {
                seen.add("A", "done");
                mpstthree::binary::close::close(s)
            },
            Op::More(s) => {
                let (v, s, _d, _n, so) = recv_udp(s, so, false)?;
                seen.add("A", format!("more {v}"));
                let (s, _n, so) = send_udp(v + 1, &block(9), s, so, false)?;
                offered(s, so, seen)
            },
        })
    }
    for n in 0..if th { 4 } else { 3 } {
        for late in [false, true] {
        v.push(Scenario::conc(format!("udp echo {n}{}", if late { " late" } else { "" }), move || {
            let (ic, (fd, _)) = net::accept_next(true, quiet());
            let server = thread(move || {
                let s = udp(fd);
                let mut b = [0u8; 4096];
                while let Ok(k) = s.recv(&mut b) {
                    dawdle(late);
                    if s.send(&b[..k]).is_err() {
                        break;
                    }
                }
            });
            let seen = Obs::new();
            let o = seen.clone();
            let (h, mut s, so) = fork_udp::<Loop, _>(move |s, so| offered(s, so, o), "127.0.0.1:4000", "127.0.0.1:4001").map_err(text)?;
            expect("connected to", net::connected_to(), vec!["127.0.0.1:4001".to_string()])?;
            expect("bound to", ic.bound(), Some("127.0.0.1:4000".to_string()))?;
            for i in 0..n {
                let t = choose_udp!(Op::More, s, block(7));
                let (t, k, so2) = send_udp(i as i32 * 10, &block(i), t, so.try_clone().unwrap(), true).map_err(text)?;
                expect("sent length", k, 128)?;
                let (x, t, d, k, _so) = recv_udp(t, so2, true).map_err(text)?;
                expect("answer", (x, d, k), (i as i32 * 10 + 1, block(i), 128))?;
                s = t;
            }
            let e = choose_udp!(Op::Done, s, block(7));
            mpstthree::binary::close::close(e).map_err(text)?;
            drop(so);
            join(h)?;
            out(server)?;
            let mut want: Vec<String> = (0..n).map(|i| format!("more {}", i * 10)).collect();
            want.push("done".into());
            expect("offers seen", seen.get("A"), want)?;
            expect("descriptors left", net::open_fds(), 0)?;
            Ok("echoed".into())
        }));
        }
    }
    for which in ["bind", "connect"] {
        v.push(Scenario::conc(format!("udp {which} fails"), move || {
            if which == "bind" { net::bind_fails_next(libc::EADDRINUSE) } else { net::refuse_next(libc::ENETUNREACH) }
            let obs = Obs::new();
            let o = obs.clone();
            let r = fork_udp::<Loop, _>(
                move |s, so| {
                    o.add("A", "started");
                    cancel_udp(s, so);
                    Ok(())
                },
                "127.0.0.1:1",
                "127.0.0.1:2",
            );
            match r {
                Ok((h, _, _)) => {
                    let _ = h.join();
                    Err("participant launched although the socket could not be set up".into())
                }
                Err(_) => {
                    expect("participant", obs.get("A"), vec![])?;
                    expect("descriptors left", net::open_fds(), 0)?;
                    Ok("refused".into())
                }
            }
        }));
    }
    for how in ["ok", "err", "panic"] {
        v.push(Scenario::conc(format!("udp forked participant {how}"), move || {
            let (_ic, (fd, _)) = net::accept_next(true, quiet());
            let srv = udp(fd);
            srv.send(&block(3)[..77]).unwrap();
            let (h, s, so) = fork_udp::<Recv<Data, End>, _>(
                move |s, so| {
                    let (v, s, d, n, so) = recv_udp(s, so, true)?;
                    assert_eq!((v, &d[..n]), (5, &block(3)[..77]));
                    match how {
                        "ok" => mpstthree::binary::close::close(s),
                        "err" => {
                            cancel_udp(s, so);
                            Err("own error".into())
                        }
                        _ => panic!("own panic"),
                    }
                },
                "127.0.0.1:80",
                "127.0.0.1:81",
            )
            .map_err(text)?;
            let e = mpstthree::binary::send::send((5, block(0)), s);
            let r = mpstthree::binary::close::close(e);
            drop(so);
            let j = join(h);
            match (how, r, j) {
                ("ok", Ok(()), Ok(())) => (),
                ("ok", r, j) => return Err(format!("closing {:?}, participant {j:?}", r.map_err(text))),
                (_, Ok(()), _) => return Err("closing succeeded although the participant failed".into()),
                (w, _, Err(t)) if t.contains(if w == "err" { "own error" } else { "own panic" }) => (),
                (_, _, j) => return Err(format!("participant reported {j:?}")),
            }
            drop(srv);
            expect("descriptors left", net::open_fds(), 0)?;
            Ok(how.into())
        }));
    }
    v.push(Scenario::conc("udp cancel", || {
        let ((sa, ia), _b) = udp_pair(quiet(), quiet());
        let (b, a) = <Recv<Data, End>>::new();
        let ha = thread(move || cancel_udp(a, sa));
        let ((_, _), (sb, ib)) = udp_pair(quiet(), quiet());
        let r = recv_udp(b, sb, true);
        out(ha)?;
        if r.is_ok() {
            return Err("receive from a cancelled participant succeeded".into());
        }
        expect("reads", ib.calls(), vec![])?;
        expect("socket released", ia.open_fds(), 0)?;
        Ok("cancelled".into())
    }));
}

/// Blocks with zeros at the beginning, at the end, everywhere but one place, and with extreme bytes.
fn content() -> [u8; 128] {
    let k = mcrt::choose(129);
    match mcrt::choose(6) {
        0 => std::array::from_fn(|i| if i < k { 0 } else { (i as u8) | 1 }),
        1 => std::array::from_fn(|i| if i >= k { 0 } else { (i as u8) | 1 }),
        2 => std::array::from_fn(|i| if i == k { 1 } else { 0 }),
        3 => std::array::from_fn(|i| if i == k { 0 } else { 255 }),
        4 => std::array::from_fn(|i| if i < k { b'\n' } else { b'\r' }),
        _ => [(2 * k % 256) as u8; 128],
    }
}
fn contents(v: &mut Vec<Scenario>) {
    v.push(Scenario::conc("tcp block contents", || {
        let (d1, d2) = (content(), block(1));
        let ((sa, ia), (sb, _)) = tcp_pair(quiet(), quiet());
        let (b, a) = <Recv<Data, Recv<Data, End>>>::new();
        let (s, st) = send_tcp(1, &d1, a, sa, true).map_err(text)?;
        let (_s, _st) = send_tcp(2, &d2, s, st, true).map_err(text)?;
        let (x, s, d, st) = recv_tcp(b, sb, true).map_err(text)?;
        expect("first", (x, d), (1, d1))?;
        let (x, _s, d, _st) = recv_tcp(s, st, true).map_err(text)?;
        expect("second", (x, d), (2, d2))?;
        expect("wire", ia.sent(), [d1, d2].concat())?;
        Ok("same".into())
    }));
    v.push(Scenario::conc("udp block contents", || {
        let (d1, d2) = (content(), block(1));
        let ((sa, ia), (sb, _)) = udp_pair(quiet(), quiet());
        let (b, a) = <Recv<Data, Recv<Data, End>>>::new();
        let (s, n, so) = send_udp(1, &d1, a, sa, true).map_err(text)?;
        expect("length sent", n, 128)?;
        let (_s, n, _so) = send_udp(2, &d2, s, so, true).map_err(text)?;
        expect("length sent", n, 128)?;
        let (x, s, d, n, so) = recv_udp(b, sb, true).map_err(text)?;
        expect("first", (x, d, n), (1, d1, 128))?;
        let (x, _s, d, n, _so) = recv_udp(s, so, true).map_err(text)?;
        expect("second", (x, d, n), (2, d2, 128))?;
        expect("wire", ia.sent(), [d1, d2].concat())?;
        Ok("same".into())
    }));
}

fn scenarios(t: Tier) -> Vec<Scenario> {
    let th = t == Tier::Thorough;
    let mut v = vec![];
    v.push(Scenario::conc("tcp one block, sender's calls, every 2 deviations", move || stream_n(1, faulty(2, &[]), quiet())).outcomes(2));
    v.push(Scenario::conc("tcp one block, receiver's calls, every 2 deviations", move || stream_n(1, quiet(), faulty(2, &[]))).outcomes(2));
    v.push(Scenario::conc("tcp one block, both sides, every deviation each", move || stream_n(1, frag(1, &[]), frag(1, &[]))));
    let l: &[usize] = if th { &[1, 2, 31, 64, 100, 126, 127] } else { &[1, 64, 127] };
    for n in 1..=3 {
        v.push(Scenario::conc(format!("tcp {n} blocks, several deviations of the sender"), move || stream_n(n, faulty(3, l), quiet())).outcomes(2));
        v.push(Scenario::conc(format!("tcp {n} blocks, several deviations of the receiver"), move || stream_n(n, quiet(), faulty(3, l))).outcomes(2));
        v.push(Scenario::conc(format!("tcp {n} blocks, both sides deviate"), move || stream_n(n, faulty(if th && n < 3 { 2 } else { 1 }, l), faulty(if th { 2 } else { 1 }, l))).outcomes(2));
    }
    if th {
        v.push(Scenario::conc("tcp one block, receiver's calls, every 3 deviations at the ends", move || stream_n(1, quiet(), faulty(4, &[1, 2, 3, 63, 64, 65, 125, 126, 127]))).outcomes(2));
    }
    v.push(Scenario::conc("tcp raw peer cut everywhere", || {
        let total = mcrt::choose(257);
        let cut = mcrt::choose(256);
        receive_from_raw(&[cut], total)
    }).outcomes(3));
    v.push(Scenario::conc("tcp raw peer, three segments", move || {
        let a = mcrt::choose(256);
        let b = mcrt::choose(256);
        if b < a { Ok("both".into()) } else { receive_from_raw(&[a, b], 256) }
    }));
    for n in 1..=3 {
        v.push(Scenario::conc(format!("tcp {n} blocks at any speed"), move || stream_at(n, frag(1, &[1, 64, 127]), frag(1, &[1, 64, 127]), Obs::any_speed())));
    }
    v.push(Scenario::conc("tcp raw peer at any speed", || {
        const AT: [usize; 7] = [0, 1, 64, 127, 128, 129, 256];
        let (a, b, total) = (AT[mcrt::choose(7)], AT[mcrt::choose(7)], AT[mcrt::choose(7)]);
        if b < a { Ok("both".into()) } else { receive_at(&[a, b], total, Obs::any_speed()) }
    }).outcomes(3));
    for m in 0..8u32 {
        let sw = [m & 1 != 0, m & 2 != 0, m & 4 != 0];
        v.push(Scenario::conc(format!("tcp switches {m}"), move || switches(sw, sw, if th { 2 } else { 1 })));
    }
    for n in 0..if th { 4 } else { 3 } {
        v.push(Scenario::conc(format!("tcp echo {n}"), move || echo(n, quiet(), false)));
        v.push(Scenario::conc(format!("tcp echo {n} late"), move || echo(n, quiet(), true)));
        v.push(Scenario::conc(format!("tcp echo {n} fragmented"), move || echo(n, frag(if th { 2 } else { 1 }, &[1, 50, 127]), false)));
    }
    contents(&mut v);
    tcp_misc(&mut v);
    udp_scen(t, &mut v);
    v
}
fn main() {
    mcrt::driver::main(Check {
        property: "C21",
        rule: "real transport functions and macros over virtual sockets: either session end, the network peer or none of them pausing for a day before each step; every schedule of the two session ends and the network peer; every transfer length (1..127) at up to two calls, interruptions and connection errors at every call, up to three deviations with fewer lengths, every cut position of a two-block stream with every segmentation into two, every segmentation into three of an uncut one; all switch settings; connect, bind and participant failures; every datagram length 0..130; blocks of zeros and non-zeros divided at every place and other extreme contents",
        assumptions: &["the virtual sockets answer as a Linux TCP/UDP socket may (partial transfers, EINTR, errors, end of stream); connections other than the scripted ones are refused"],
        scenarios,
    })
}
