//! C23: textual descriptions of session, stack, name and endpoint types.
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c23.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c23_t.rs"]
mod gen;
use mcrt::driver::*;
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
use mpstthree::name::Name;
use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd, Role};

#[derive(Clone, Default)]
pub struct Chk {
    n: u64,
    bad: Option<(String, String)>,
}
impl Chk {
    /// head and tail obtained from the type, then from the value
    pub fn chk(&mut self, what: &str, got: [String; 4], head: &str, tail: &str) {
        self.n += 4;
        for (i, (g, w)) in got.iter().zip([head, tail, head, tail]).enumerate() {
            if g != w && self.bad.is_none() {
                let f = ["head of the type", "tail of the type", "head of the value", "tail of the value"][i];
                self.bad = Some((format!("{f}: {g:?}, expected {w:?}"), what.to_string()));
            }
        }
    }
}
/// The description a type dictates, and that of its dual.
#[derive(Clone)]
struct Ex {
    head: String,
    tail: String,
}
impl Ex {
    fn new(head: &str, tail: &str) -> Ex {
        Ex { head: head.into(), tail: tail.into() }
    }
    fn full(&self) -> String {
        format!("{}<{}>", self.head, self.tail)
    }
    fn of(head: &str, cont: &Ex) -> Ex {
        Ex { head: head.into(), tail: cont.full() }
    }
    fn two(head: &str, l: &Ex, r: &Ex) -> Ex {
        Ex { head: head.into(), tail: format!("{} + {}", l.full(), r.full()) }
    }
}
fn session<S: Session>(k: &mut Chk, e: &Ex, d: &Ex) {
    let (s, t) = S::new();
    k.chk(&format!("session {}", e.full()), [S::head_str(), S::tail_str(), s.self_head_str(), s.self_tail_str()], &e.head, &e.tail);
    k.chk(&format!("dual of session {}", e.full()), [S::Dual::head_str(), S::Dual::tail_str(), t.self_head_str(), t.self_tail_str()], &d.head, &d.tail);
}
fn role<R: Role>(k: &mut Chk, e: &Ex, d: &Ex) {
    let (s, t) = R::new();
    k.chk(&format!("stack {}", e.full()), [R::head_str(), R::tail_str(), s.self_head_str(), s.self_tail_str()], &e.head, &e.tail);
    k.chk(&format!("dual of stack {}", e.full()), [R::Dual::head_str(), R::Dual::tail_str(), t.self_head_str(), t.self_tail_str()], &d.head, &d.tail);
}
fn name<N: Name>(k: &mut Chk, n: &str) {
    let (s, t) = N::new();
    k.chk(n, [N::head_str(), N::tail_str(), s.self_head_str(), s.self_tail_str()], n, "");
    let (h, l) = (t.self_head_str(), t.self_tail_str());
    k.chk(n, [h.clone(), l.clone(), h, l], n, "");
}
struct Z;
struct D<N>(N);
trait Ses {
    fn go<S: Session + 'static>(k: &mut Chk, e: &Ex, d: &Ex);
}
impl Ses for Z {
    fn go<S: Session + 'static>(k: &mut Chk, e: &Ex, d: &Ex) {
        session::<S>(k, e, d)
    }
}
impl<N: Ses> Ses for D<N> {
    fn go<S: Session + 'static>(k: &mut Chk, e: &Ex, d: &Ex) {
        session::<S>(k, e, d);
        N::go::<Send<i32, S>>(k, &Ex::of("Send", e), &Ex::of("Recv", d));
        N::go::<Recv<String, S>>(k, &Ex::of("Recv", e), &Ex::of("Send", d));
        N::go::<SendTimed<(), 'a', 0, true, 1, false, 'a', S>>(k, &Ex::of("Send", e), &Ex::of("Recv", d));
        N::go::<RecvTimed<u8, 'b', -1, false, 1, true, ' ', S>>(k, &Ex::of("Recv", e), &Ex::of("Send", d));
        N::go::<Send<(End, S), End>>(k, &Ex::of("Send", &Ex::new("End", "")), &Ex::of("Recv", &Ex::new("End", "")));
    }
}
/// One-continuation and two-continuation stack types with their duals.
macro_rules! roles {
    ($fn:ident, [$(($u:ident, $ud:ident)),*], [$(($b:ident, $bd:ident)),*]) => {
        mod $fn {
            use super::*;
            pub trait Rol {
                fn stack<R: Role + 'static>(k: &mut Chk, e: &Ex, d: &Ex);
            }
            impl Rol for Z {
                fn stack<R: Role + 'static>(k: &mut Chk, e: &Ex, d: &Ex) {
                    role::<R>(k, e, d)
                }
            }
            impl<N: Rol> Rol for D<N> {
                fn stack<R: Role + 'static>(k: &mut Chk, e: &Ex, d: &Ex) {
                    role::<R>(k, e, d);
                    let (en, br) = (Ex::new("RoleEnd", ""), Ex::new("RoleBroadcast", ""));
                    $(
                        N::stack::<super::$u<R>>(k, &Ex::of(stringify!($u), e), &Ex::of(stringify!($ud), d));
                        N::stack::<super::$ud<R>>(k, &Ex::of(stringify!($ud), e), &Ex::of(stringify!($u), d));
                    )*
                    $(
                        N::stack::<super::$b<R, RoleEnd>>(k, &Ex::two(stringify!($b), e, &en), &Ex::two(stringify!($bd), d, &en));
                        N::stack::<super::$b<RoleBroadcast, R>>(k, &Ex::two(stringify!($b), &br, e), &Ex::two(stringify!($bd), &br, d));
                        N::stack::<super::$bd<R, RoleEnd>>(k, &Ex::two(stringify!($bd), e, &en), &Ex::two(stringify!($b), d, &en));
                        N::stack::<super::$bd<RoleBroadcast, R>>(k, &Ex::two(stringify!($bd), &br, e), &Ex::two(stringify!($b), &br, d));
                    )*
                }
            }
            pub fn run() -> Chk {
                let mut k = Chk::default();
                let (en, br) = (Ex::new("RoleEnd", ""), Ex::new("RoleBroadcast", ""));
                <D<D<Z>>>::stack::<RoleEnd>(&mut k, &en, &en);
                <D<D<Z>>>::stack::<RoleBroadcast>(&mut k, &br, &br);
                k
            }
        }
    };
}
mod lib_roles {
    use super::*;
    use mpstthree::role::{a::RoleA, a_dual::RoleADual, a_to_all::RoleAtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC, b::RoleB, b_dual::RoleBDual, b_to_all::RoleBtoAll, c::RoleC, c_dual::RoleCDual, c_to_all::RoleCtoAll};
    roles!(walk, [(RoleA, RoleADual), (RoleB, RoleBDual), (RoleC, RoleCDual)], [(RoleAtoAll, RoleAlltoA), (RoleBtoAll, RoleAlltoB), (RoleCtoAll, RoleAlltoC)]);
    pub fn run() -> Chk {
        let mut k = walk::run();
        name::<mpstthree::name::a::NameA>(&mut k, "NameA");
        name::<mpstthree::name::b::NameB>(&mut k, "NameB");
        name::<mpstthree::name::c::NameC>(&mut k, "NameC");
        k
    }
}
mod single {
    use super::*;
    mpstthree::create_normal_role!(RoleP, RolePDual);
    mpstthree::create_normal_role!(RoleQ, RoleQDual);
    mpstthree::create_broadcast_role!(RoleAlltoP, RolePtoAll);
    mpstthree::create_normal_name!(NameP);
    roles!(walk, [(RoleP, RolePDual), (RoleQ, RoleQDual)], [(RolePtoAll, RoleAlltoP)]);
    pub fn run() -> Chk {
        let mut k = walk::run();
        name::<NameP>(&mut k, "NameP");
        k
    }
}
mod single_short {
    use super::*;
    mpstthree::create_normal_role_short!(P);
    mpstthree::create_normal_role_short!(Q);
    mpstthree::create_broadcast_role_short!(P);
    mpstthree::create_normal_name_short!(P);
    roles!(walk, [(RoleP, RolePDual), (RoleQ, RoleQDual)], [(RolePtoAll, RoleAlltoP)]);
    pub fn run() -> Chk {
        let mut k = walk::run();
        name::<NameP>(&mut k, "NameP");
        k
    }
}
mod multiple {
    use super::*;
    mpstthree::create_multiple_normal_role!(RoleP, RolePDual | RoleQ, RoleQDual |);
    mpstthree::create_multiple_broadcast_role!(RoleAlltoP, RolePtoAll | RoleAlltoQ, RoleQtoAll |);
    mpstthree::create_multiple_normal_name!(NameP, NameQ);
    roles!(walk, [(RoleP, RolePDual), (RoleQ, RoleQDual)], [(RolePtoAll, RoleAlltoP), (RoleQtoAll, RoleAlltoQ)]);
    pub fn run() -> Chk {
        let mut k = walk::run();
        name::<NameP>(&mut k, "NameP");
        name::<NameQ>(&mut k, "NameQ");
        k
    }
}
mod multiple_short {
    use super::*;
    mpstthree::create_multiple_normal_role_short!(P, Q);
    mpstthree::create_multiple_broadcast_role_short!(P, Q);
    mpstthree::create_multiple_normal_name_short!(P, Q);
    roles!(walk, [(RoleP, RolePDual), (RoleQ, RoleQDual)], [(RolePtoAll, RoleAlltoP), (RoleQtoAll, RoleAlltoQ)]);
    pub fn run() -> Chk {
        let mut k = walk::run();
        name::<NameP>(&mut k, "NameP");
        name::<NameQ>(&mut k, "NameQ");
        k
    }
}
mod generated {
    use super::*;
    mpstthree::generate!("rec_and_cancel", MC, P, Q, Long_name);
    roles!(walk, [(RoleP, RolePDual), (RoleQ, RoleQDual)], [(RolePtoAll, RoleAlltoP), (RoleLong_nametoAll, RoleAlltoLong_name)]);
    pub fn run() -> Chk {
        let mut k = walk::run();
        name::<NameP>(&mut k, "NameP");
        name::<NameQ>(&mut k, "NameQ");
        name::<NameLong_name>(&mut k, "NameLong_name");
        k
    }
}
mod generated_timed {
    use super::*;
    mpstthree::generate_atmp!(MC, P, Q);
    roles!(walk, [(RoleP, RolePDual), (RoleQ, RoleQDual)], [(RolePtoAll, RoleAlltoP), (RoleQtoAll, RoleAlltoQ)]);
    pub fn run() -> Chk {
        let mut k = walk::run();
        name::<NameP>(&mut k, "NameP");
        name::<NameQ>(&mut k, "NameQ");
        k
    }
}
fn put(q: &mut Seq, k: Chk) {
    q.states += k.n / 4;
    q.transitions += k.n / 4;
    q.compared += k.n;
    q.tick();
    if let Some((m, c)) = k.bad {
        q.fail(m, c)
    }
}
fn scenarios(_t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(Scenario::seq("sessions", |q: &mut Seq| {
        let mut k = Chk::default();
        let e = Ex::new("End", "");
        #[cfg(not(feature = "thorough"))]
        <D<D<D<D<Z>>>>>::go::<End>(&mut k, &e, &e);
        #[cfg(feature = "thorough")]
        <D<D<D<D<D<Z>>>>>>::go::<End>(&mut k, &e, &e);
        put(q, k)
    }));
    let rs: [(&str, fn() -> Chk); 7] = [("library", lib_roles::run), ("single", single::run), ("single short", single_short::run), ("multiple", multiple::run), ("multiple short", multiple_short::run), ("generated", generated::run), ("generated timed", generated_timed::run)];
    for (n, f) in rs {
        v.push(Scenario::seq(format!("stacks {n}"), move |q: &mut Seq| put(q, f())));
    }
    v.push(Scenario::seq("endpoints", |q: &mut Seq| {
        for f in gen::all() {
            put(q, f())
        }
    }));
    v.push(Scenario::seq("time windows", |q: &mut Seq| put(q, windows())));
    v
}
/// The text of a window, of a value of the type and of its dual's.
fn windows() -> Chk {
    let mut k = Chk::default();
    fn want(c: char, s: i128, is: bool, e: i128, ie: bool) -> String {
        let op = |x: bool| if x { "<=" } else { "<" };
        match (s >= 0, e >= 0) {
            (true, true) => format!("{s} {} {c} {} {e}", op(is), op(ie)),
            (true, false) => format!("{s} {} {c}", op(is)),
            _ => format!("{c} {} {e}", op(ie)),
        }
    }
    macro_rules! one {
        ($($c:literal)+; $w:tt) => { $( one!(@c $c; $w); )+ };
        (@c $c:literal; [$(($s:literal, $e:literal))+]) => { $( one!(@w $c $s $e; (true, true) (true, false) (false, true) (false, false)); )+ };
        (@w $c:literal $s:literal $e:literal; $(($is:literal, $ie:literal))+) => { $( {
            let (x, y) = <SendTimed<u8, $c, $s, $is, $e, $ie, ' ', End> as Session>::new();
            let w = want($c, $s, $is, $e, $ie);
            for (side, got) in [("send", x.constraint()), ("receive", y.constraint())] {
                k.n += 1;
                if got != w && k.bad.is_none() {
                    k.bad = Some((format!("text of the window: {got:?}, expected {w:?}"), format!("timed {side}")));
                }
            }
        } )+ };
    }
    one!('a' 'Z' 'é'; [(-1, 0) (-1, 1) (-2, 12) (-1, 4294967300) (0, -1) (1, -1) (7, -2) (4294967300, -1) (0, 0) (0, 1) (1, 1) (3, 20) (4294967295, 4294967300)]);
    k
}
fn main() {
    mcrt::driver::main(Check { property: "C23", rule: "every session type over timed and untimed sends and receives up to depth 4 (5 in the thorough tier), its value and its dual; every stack type up to depth 2 over all one- and two-continuation constructors, their duals and both leaf stacks, for the library's roles and each macro that creates roles; all names; the text of every shape of time window; endpoints of the library and of meshes generated for 2..5 roles (6 in the thorough tier) under families of message, fan, ring and choice protocols; each description compared with the one computed from the type's text", assumptions: &[], scenarios })
}
