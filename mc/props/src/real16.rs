//! Written by tools/gen16.py.
#![allow(dead_code, unused_imports, clippy::all)]
use either::Either;
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send};
use mpstthree::meshedchannels::MeshedChannels;
use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC, a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC, broadcast::RoleBroadcast, end::RoleEnd};
use petgraph::Graph;
use std::any::type_name;
use std::collections::HashMap;
pub type Out = Result<(HashMap<String, Graph<String, String>>, Option<i32>), String>;
pub struct Request;
pub struct E;
pub struct NameTag;
pub struct RoleBook;
pub struct Pair<A, B>(A, B);
pub struct SendIt<T>(T);
mod make { pub use props::check16::{msg, G::{self, Choice, End, Ref}}; }
pub struct Case { pub g: make::G, pub either: bool, pub user: &'static str, pub run: fn(&str) -> Out, pub names: fn() -> Vec<String> }

pub mod p0 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Recv<[u8; 128], End>, End, RoleA<RoleEnd>, NameC>, MeshedChannels<Send<i32, Recv<String, End>>, Send<[u8; 128], End>, RoleB<RoleB<RoleC<RoleEnd>>>, NameA>, MeshedChannels<Recv<i32, Send<String, End>>, End, RoleA<RoleA<RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<i32, Recv<String, End>>, Send<[u8; 128], End>, RoleB<RoleB<RoleC<RoleEnd>>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<i32, Send<String, End>>, End, RoleA<RoleA<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Recv<[u8; 128], End>, End, RoleA<RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(0, 1, 0, make::msg(1, 0, 1, make::msg(0, 2, 5, make::End))), either: false, user: "c16::real16::p0::", run, names } }
}
pub mod p1 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Recv<String, Send<(), End>>, End, RoleA<RoleA<RoleEnd>>, NameC>, MeshedChannels<Send<(i32, String), End>, Send<String, Recv<(), End>>, RoleC<RoleC<RoleB<RoleEnd>>>, NameA>, MeshedChannels<Recv<(i32, String), End>, End, RoleA<RoleEnd>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<(i32, String), End>, Send<String, Recv<(), End>>, RoleC<RoleC<RoleB<RoleEnd>>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<(i32, String), End>, End, RoleA<RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Recv<String, Send<(), End>>, End, RoleA<RoleA<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(0, 2, 1, make::msg(2, 0, 2, make::msg(0, 1, 6, make::End))), either: false, user: "c16::real16::p1::", run, names } }
}
pub mod p2 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<End, Recv<Result<(), (u8, [E; 2])>, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<Recv<(), Send<Request, End>>, End, RoleB<RoleB<RoleEnd>>, NameA>, MeshedChannels<Send<(), Recv<Request, End>>, Send<Result<(), (u8, [E; 2])>, End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Recv<(), Send<Request, End>>, End, RoleB<RoleB<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Send<(), Recv<Request, End>>, Send<Result<(), (u8, [E; 2])>, End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>>().to_string(), type_name::<MeshedChannels<End, Recv<Result<(), (u8, [E; 2])>, End>, RoleB<RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(1, 0, 2, make::msg(0, 1, 3, make::msg(1, 2, 7, make::End))), either: false, user: "c16::real16::p2::", run, names } }
}
pub mod p3 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<End, Recv<Request, Send<Vec<Option<i32>>, End>>, RoleB<RoleB<RoleEnd>>, NameC>, MeshedChannels<Recv<i32, End>, End, RoleB<RoleEnd>, NameA>, MeshedChannels<Send<i32, End>, Send<Request, Recv<Vec<Option<i32>>, End>>, RoleC<RoleC<RoleA<RoleEnd>>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Recv<i32, End>, End, RoleB<RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<Send<i32, End>, Send<Request, Recv<Vec<Option<i32>>, End>>, RoleC<RoleC<RoleA<RoleEnd>>>, NameB>>().to_string(), type_name::<MeshedChannels<End, Recv<Request, Send<Vec<Option<i32>>, End>>, RoleB<RoleB<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(1, 2, 3, make::msg(2, 1, 4, make::msg(1, 0, 0, make::End))), either: false, user: "c16::real16::p3::", run, names } }
}
pub mod p4 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<Vec<Option<i32>>, Recv<[u8; 128], End>>, Send<String, End>, RoleA<RoleA<RoleB<RoleEnd>>>, NameC>, MeshedChannels<End, Recv<Vec<Option<i32>>, Send<[u8; 128], End>>, RoleC<RoleC<RoleEnd>>, NameA>, MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<End, Recv<Vec<Option<i32>>, Send<[u8; 128], End>>, RoleC<RoleC<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Send<Vec<Option<i32>>, Recv<[u8; 128], End>>, Send<String, End>, RoleA<RoleA<RoleB<RoleEnd>>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(2, 0, 4, make::msg(0, 2, 5, make::msg(2, 1, 1, make::End))), either: false, user: "c16::real16::p4::", run, names } }
}
pub mod p5 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<(), End>, Send<[u8; 128], Recv<(i32, String), End>>, RoleB<RoleB<RoleA<RoleEnd>>>, NameC>, MeshedChannels<End, Recv<(), End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, Recv<[u8; 128], Send<(i32, String), End>>, RoleC<RoleC<RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<End, Recv<(), End>, RoleC<RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<End, Recv<[u8; 128], Send<(i32, String), End>>, RoleC<RoleC<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<(), End>, Send<[u8; 128], Recv<(i32, String), End>>, RoleB<RoleB<RoleA<RoleEnd>>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(2, 1, 5, make::msg(1, 2, 6, make::msg(2, 0, 2, make::End))), either: false, user: "c16::real16::p5::", run, names } }
}
pub mod p6 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<&'static str, End>, Recv<i32, End>, RoleA<RoleB<RoleEnd>>, NameC>, MeshedChannels<Send<Either<i32, String>, End>, Recv<&'static str, End>, RoleC<RoleB<RoleEnd>>, NameA>, MeshedChannels<Recv<Either<i32, String>, End>, Send<i32, End>, RoleA<RoleC<RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<Either<i32, String>, End>, Recv<&'static str, End>, RoleC<RoleB<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<Either<i32, String>, End>, Send<i32, End>, RoleA<RoleC<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<&'static str, End>, Recv<i32, End>, RoleA<RoleB<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(2, 0, 8, make::msg(0, 1, 11, make::msg(1, 2, 0, make::End))), either: false, user: "c16::real16::p6::", run, names } }
}
pub mod p7 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<i32, End>, Recv<SendIt<RoleBook>, End>, RoleB<RoleA<RoleEnd>>, NameC>, MeshedChannels<Send<std::collections::BTreeMap<u8, NameTag>, End>, Recv<i32, End>, RoleB<RoleC<RoleEnd>>, NameA>, MeshedChannels<Recv<std::collections::BTreeMap<u8, NameTag>, End>, Send<SendIt<RoleBook>, End>, RoleA<RoleC<RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<std::collections::BTreeMap<u8, NameTag>, End>, Recv<i32, End>, RoleB<RoleC<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<std::collections::BTreeMap<u8, NameTag>, End>, Send<SendIt<RoleBook>, End>, RoleA<RoleC<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<i32, End>, Recv<SendIt<RoleBook>, End>, RoleB<RoleA<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(0, 1, 9, make::msg(1, 2, 12, make::msg(2, 0, 0, make::End))), either: false, user: "c16::real16::p7::", run, names } }
}
pub mod p8 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<Option<End>, End>, Recv<Pair<NameA, NameB>, End>, RoleB<RoleA<RoleEnd>>, NameC>, MeshedChannels<Send<i32, End>, Recv<Option<End>, End>, RoleC<RoleB<RoleEnd>>, NameA>, MeshedChannels<Recv<i32, End>, Send<Pair<NameA, NameB>, End>, RoleC<RoleA<RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<i32, End>, Recv<Option<End>, End>, RoleC<RoleB<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<i32, End>, Send<Pair<NameA, NameB>, End>, RoleC<RoleA<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<Option<End>, End>, Recv<Pair<NameA, NameB>, End>, RoleB<RoleA<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(1, 2, 10, make::msg(2, 0, 13, make::msg(0, 1, 0, make::End))), either: false, user: "c16::real16::p8::", run, names } }
}
pub mod p9 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<Either<i32, String>, End>, Recv<i32, End>, RoleA<RoleB<RoleEnd>>, NameC>, MeshedChannels<Send<fn(i32) -> u8, End>, Recv<Either<i32, String>, End>, RoleC<RoleB<RoleEnd>>, NameA>, MeshedChannels<Recv<fn(i32) -> u8, End>, Send<i32, End>, RoleA<RoleC<RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<fn(i32) -> u8, End>, Recv<Either<i32, String>, End>, RoleC<RoleB<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<fn(i32) -> u8, End>, Send<i32, End>, RoleA<RoleC<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<Either<i32, String>, End>, Recv<i32, End>, RoleA<RoleB<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(2, 0, 11, make::msg(0, 1, 14, make::msg(1, 2, 0, make::End))), either: false, user: "c16::real16::p9::", run, names } }
}
pub mod p10 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<i32, End>, Recv<Box<dyn Fn(i32, u8) -> Option<i32> + std::marker::Send>, End>, RoleB<RoleA<RoleEnd>>, NameC>, MeshedChannels<Send<SendIt<RoleBook>, End>, Recv<i32, End>, RoleB<RoleC<RoleEnd>>, NameA>, MeshedChannels<Recv<SendIt<RoleBook>, End>, Send<Box<dyn Fn(i32, u8) -> Option<i32> + std::marker::Send>, End>, RoleA<RoleC<RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<SendIt<RoleBook>, End>, Recv<i32, End>, RoleB<RoleC<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<SendIt<RoleBook>, End>, Send<Box<dyn Fn(i32, u8) -> Option<i32> + std::marker::Send>, End>, RoleA<RoleC<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<i32, End>, Recv<Box<dyn Fn(i32, u8) -> Option<i32> + std::marker::Send>, End>, RoleB<RoleA<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(0, 1, 12, make::msg(1, 2, 15, make::msg(2, 0, 0, make::End))), either: false, user: "c16::real16::p10::", run, names } }
}
pub mod p11 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<&'static str, End>, Recv<Option<End>, End>, RoleB<RoleA<RoleEnd>>, NameC>, MeshedChannels<Send<i32, End>, Recv<&'static str, End>, RoleC<RoleB<RoleEnd>>, NameA>, MeshedChannels<Recv<i32, End>, Send<Option<End>, End>, RoleC<RoleA<RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<i32, End>, Recv<&'static str, End>, RoleC<RoleB<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<i32, End>, Send<Option<End>, End>, RoleC<RoleA<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<&'static str, End>, Recv<Option<End>, End>, RoleB<RoleA<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(1, 2, 13, make::msg(2, 0, 8, make::msg(0, 1, 0, make::End))), either: false, user: "c16::real16::p11::", run, names } }
}
pub mod p12 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<fn(i32) -> u8, End>, Recv<i32, End>, RoleA<RoleB<RoleEnd>>, NameC>, MeshedChannels<Send<std::collections::BTreeMap<u8, NameTag>, End>, Recv<fn(i32) -> u8, End>, RoleC<RoleB<RoleEnd>>, NameA>, MeshedChannels<Recv<std::collections::BTreeMap<u8, NameTag>, End>, Send<i32, End>, RoleA<RoleC<RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<std::collections::BTreeMap<u8, NameTag>, End>, Recv<fn(i32) -> u8, End>, RoleC<RoleB<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<std::collections::BTreeMap<u8, NameTag>, End>, Send<i32, End>, RoleA<RoleC<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<fn(i32) -> u8, End>, Recv<i32, End>, RoleA<RoleB<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(2, 0, 14, make::msg(0, 1, 9, make::msg(1, 2, 0, make::End))), either: false, user: "c16::real16::p12::", run, names } }
}
pub mod p13 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<i32, End>, Recv<Pair<NameA, NameB>, End>, RoleB<RoleA<RoleEnd>>, NameC>, MeshedChannels<Send<Box<dyn Fn(i32, u8) -> Option<i32> + std::marker::Send>, End>, Recv<i32, End>, RoleB<RoleC<RoleEnd>>, NameA>, MeshedChannels<Recv<Box<dyn Fn(i32, u8) -> Option<i32> + std::marker::Send>, End>, Send<Pair<NameA, NameB>, End>, RoleA<RoleC<RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<Box<dyn Fn(i32, u8) -> Option<i32> + std::marker::Send>, End>, Recv<i32, End>, RoleB<RoleC<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<Box<dyn Fn(i32, u8) -> Option<i32> + std::marker::Send>, End>, Send<Pair<NameA, NameB>, End>, RoleA<RoleC<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<i32, End>, Recv<Pair<NameA, NameB>, End>, RoleB<RoleA<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(0, 1, 15, make::msg(1, 2, 10, make::msg(2, 0, 0, make::End))), either: false, user: "c16::real16::p13::", run, names } }
}
pub mod p14 {
    use super::*;
    enum Branches0BfromA { Zero(MeshedChannels<Recv<i32, End>, End, RoleA<RoleEnd>, NameB>), One(MeshedChannels<Recv<Branches0BfromA, End>, Send<String, End>, RoleC<RoleA<RoleEnd>>, NameB>) }
    enum Branches0CfromA { Zero(MeshedChannels<End, End, RoleEnd, NameC>), One(MeshedChannels<Recv<Branches0CfromA, End>, Recv<String, End>, RoleB<RoleA<RoleEnd>>, NameC>) }
    mpstthree::checker_concat_impl!([Branches0BfromA, Zero, Branches0CfromA, Zero], [Branches0BfromA, One, Branches0CfromA, One]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Recv<Branches0CfromA, End>, End, RoleA<RoleEnd>, NameC>, MeshedChannels<Send<Branches0BfromA, End>, Send<Branches0CfromA, End>, RoleBroadcast, NameA>, MeshedChannels<Recv<Branches0BfromA, End>, End, RoleA<RoleEnd>, NameB> => [MeshedChannels<Send<i32, End>, End, RoleB<RoleEnd>, NameA>, Branches0BfromA, Zero, Branches0CfromA, Zero], [MeshedChannels<Send<Branches0BfromA, End>, Send<Branches0CfromA, End>, RoleBroadcast, NameA>, Branches0BfromA, One, Branches0CfromA, One]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<Branches0BfromA, End>, Send<Branches0CfromA, End>, RoleBroadcast, NameA>>().to_string(), type_name::<MeshedChannels<Recv<Branches0BfromA, End>, End, RoleA<RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Recv<Branches0CfromA, End>, End, RoleA<RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 0, vec![make::msg(0, 1, 0, make::End), make::msg(1, 2, 1, make::Ref(0))]), either: false, user: "c16::real16::p14::", run, names } }
}
pub mod p15 {
    use super::*;
    enum Branches0BfromA { Zero(MeshedChannels<End, End, RoleEnd, NameB>), One(MeshedChannels<Send<[u8; 128], Recv<Branches0BfromA, End>>, Recv<Result<(), (u8, [E; 2])>, End>, RoleC<RoleA<RoleA<RoleEnd>>>, NameB>), Two(MeshedChannels<End, End, RoleEnd, NameB>) }
    enum Branches0CfromA { Zero(MeshedChannels<End, End, RoleEnd, NameC>), One(MeshedChannels<Recv<Branches0CfromA, End>, Send<Result<(), (u8, [E; 2])>, End>, RoleB<RoleA<RoleEnd>>, NameC>), Two(MeshedChannels<Recv<Vec<Option<i32>>, End>, End, RoleA<RoleEnd>, NameC>) }
    mpstthree::checker_concat_impl!([Branches0BfromA, Zero, Branches0CfromA, Zero], [Branches0BfromA, One, Branches0CfromA, One], [Branches0BfromA, Two, Branches0CfromA, Two]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Recv<Branches0CfromA, End>, Recv<(), End>, RoleB<RoleA<RoleEnd>>, NameC>, MeshedChannels<Send<Branches0BfromA, End>, Send<Branches0CfromA, End>, RoleBroadcast, NameA>, MeshedChannels<Recv<Branches0BfromA, End>, Send<(), End>, RoleC<RoleA<RoleEnd>>, NameB> => [MeshedChannels<End, End, RoleEnd, NameA>, Branches0BfromA, Zero, Branches0CfromA, Zero], [MeshedChannels<Recv<[u8; 128], Send<Branches0BfromA, End>>, Send<Branches0CfromA, End>, RoleB<RoleBroadcast>, NameA>, Branches0BfromA, One, Branches0CfromA, One], [MeshedChannels<End, Send<Vec<Option<i32>>, End>, RoleC<RoleEnd>, NameA>, Branches0BfromA, Two, Branches0CfromA, Two]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<Branches0BfromA, End>, Send<Branches0CfromA, End>, RoleBroadcast, NameA>>().to_string(), type_name::<MeshedChannels<Recv<Branches0BfromA, End>, Send<(), End>, RoleC<RoleA<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Recv<Branches0CfromA, End>, Recv<(), End>, RoleB<RoleA<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(1, 2, 2, make::Choice(0, 0, vec![make::End, make::msg(2, 1, 7, make::msg(1, 0, 5, make::Ref(0))), make::msg(0, 2, 4, make::End)])), either: false, user: "c16::real16::p15::", run, names } }
}
pub mod p16 {
    use super::*;
    enum Branches0BfromA { Zero(MeshedChannels<Send<Branches1AfromB, End>, Send<Branches1CfromB, End>, RoleBroadcast, NameB>), One(MeshedChannels<End, End, RoleEnd, NameB>) }
    enum Branches0CfromA { Zero(MeshedChannels<Recv<i32, End>, Recv<Branches1CfromB, End>, RoleA<RoleB<RoleEnd>>, NameC>), One(MeshedChannels<Send<String, End>, End, RoleA<RoleEnd>, NameC>) }
    enum Branches1AfromB { Zero(MeshedChannels<Send<Branches0BfromA, End>, Send<Branches0CfromA, End>, RoleBroadcast, NameA>), One(MeshedChannels<Recv<(i32, String), End>, End, RoleB<RoleEnd>, NameA>) }
    enum Branches1CfromB { Zero(MeshedChannels<Recv<Branches0CfromA, End>, End, RoleA<RoleEnd>, NameC>), One(MeshedChannels<End, End, RoleEnd, NameC>) }
    mpstthree::checker_concat_impl!([Branches0BfromA, Zero, Branches0CfromA, Zero], [Branches0BfromA, One, Branches0CfromA, One], [Branches1AfromB, Zero, Branches1CfromB, Zero], [Branches1AfromB, One, Branches1CfromB, One]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Recv<Branches0CfromA, End>, End, RoleA<RoleEnd>, NameC>, MeshedChannels<Send<Branches0BfromA, End>, Send<Branches0CfromA, End>, RoleBroadcast, NameA>, MeshedChannels<Recv<Branches0BfromA, End>, End, RoleA<RoleEnd>, NameB> => [MeshedChannels<Recv<Branches1AfromB, End>, Send<i32, End>, RoleC<RoleB<RoleEnd>>, NameA>, Branches0BfromA, Zero, Branches0CfromA, Zero], [MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>, Branches0BfromA, One, Branches0CfromA, One], [MeshedChannels<Recv<Branches0BfromA, End>, End, RoleA<RoleEnd>, NameB>, Branches1AfromB, Zero, Branches1CfromB, Zero], [MeshedChannels<Send<(i32, String), End>, End, RoleA<RoleEnd>, NameB>, Branches1AfromB, One, Branches1CfromB, One]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<Branches0BfromA, End>, Send<Branches0CfromA, End>, RoleBroadcast, NameA>>().to_string(), type_name::<MeshedChannels<Recv<Branches0BfromA, End>, End, RoleA<RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Recv<Branches0CfromA, End>, End, RoleA<RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 0, vec![make::msg(0, 2, 0, make::Choice(1, 1, vec![make::Ref(0), make::msg(1, 0, 6, make::End)])), make::msg(2, 0, 1, make::End)]), either: false, user: "c16::real16::p16::", run, names } }
}
pub mod p17 {
    use super::*;
    enum Branches0BfromA { Zero(MeshedChannels<Recv<Branches1BfromA, End>, End, RoleA<RoleEnd>, NameB>), One(MeshedChannels<Send<String, End>, End, RoleA<RoleEnd>, NameB>) }
    enum Branches0CfromA { Zero(MeshedChannels<Recv<Branches1CfromA, End>, End, RoleA<RoleEnd>, NameC>), One(MeshedChannels<End, End, RoleEnd, NameC>) }
    enum Branches1BfromA { Zero(MeshedChannels<Recv<i32, Recv<Branches1BfromA, End>>, End, RoleA<RoleA<RoleEnd>>, NameB>), One(MeshedChannels<Recv<Branches0BfromA, End>, End, RoleA<RoleEnd>, NameB>) }
    enum Branches1CfromA { Zero(MeshedChannels<Recv<Branches1CfromA, End>, End, RoleA<RoleEnd>, NameC>), One(MeshedChannels<Recv<String, Recv<Branches0CfromA, End>>, End, RoleA<RoleA<RoleEnd>>, NameC>) }
    mpstthree::checker_concat_impl!([Branches0BfromA, Zero, Branches0CfromA, Zero], [Branches0BfromA, One, Branches0CfromA, One], [Branches1BfromA, Zero, Branches1CfromA, Zero], [Branches1BfromA, One, Branches1CfromA, One]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Recv<Branches0CfromA, End>, End, RoleA<RoleEnd>, NameC>, MeshedChannels<Send<Branches0BfromA, End>, Send<Branches0CfromA, End>, RoleBroadcast, NameA>, MeshedChannels<Recv<Branches0BfromA, End>, End, RoleA<RoleEnd>, NameB> => [MeshedChannels<Send<Branches1BfromA, End>, Send<Branches1CfromA, End>, RoleBroadcast, NameA>, Branches0BfromA, Zero, Branches0CfromA, Zero], [MeshedChannels<Recv<String, End>, End, RoleB<RoleEnd>, NameA>, Branches0BfromA, One, Branches0CfromA, One], [MeshedChannels<Send<i32, Send<Branches1BfromA, End>>, Send<Branches1CfromA, End>, RoleB<RoleBroadcast>, NameA>, Branches1BfromA, Zero, Branches1CfromA, Zero], [MeshedChannels<Send<Branches0BfromA, End>, Send<String, Send<Branches0CfromA, End>>, RoleC<RoleBroadcast>, NameA>, Branches1BfromA, One, Branches1CfromA, One]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<Branches0BfromA, End>, Send<Branches0CfromA, End>, RoleBroadcast, NameA>>().to_string(), type_name::<MeshedChannels<Recv<Branches0BfromA, End>, End, RoleA<RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Recv<Branches0CfromA, End>, End, RoleA<RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 0, vec![make::Choice(1, 0, vec![make::msg(0, 1, 0, make::Ref(1)), make::msg(0, 2, 1, make::Ref(0))]), make::msg(1, 0, 1, make::End)]), either: false, user: "c16::real16::p17::", run, names } }
}
pub mod p18 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Recv<Either<MeshedChannels<End, End, RoleEnd, NameC>, MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>, MeshedChannels<Send<Either<MeshedChannels<Recv<i32, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, Send<String, End>, RoleC<RoleEnd>, NameB>>, End>, Send<Either<MeshedChannels<End, End, RoleEnd, NameC>, MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleEnd>, NameA>, MeshedChannels<Recv<Either<MeshedChannels<Recv<i32, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, Send<String, End>, RoleC<RoleEnd>, NameB>>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<Either<MeshedChannels<Recv<i32, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, Send<String, End>, RoleC<RoleEnd>, NameB>>, End>, Send<Either<MeshedChannels<End, End, RoleEnd, NameC>, MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<Either<MeshedChannels<Recv<i32, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, Send<String, End>, RoleC<RoleEnd>, NameB>>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Recv<Either<MeshedChannels<End, End, RoleEnd, NameC>, MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 0, vec![make::msg(0, 1, 0, make::End), make::msg(1, 2, 1, make::End)]), either: true, user: "c16::real16::p18::", run, names } }
}
pub mod p19 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<Request, Recv<Either<MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>>, End, RoleA<RoleAlltoA<RoleEnd, RoleEnd>>, NameC>, MeshedChannels<Send<Either<MeshedChannels<Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>>, Send<Either<MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>, RoleA<RoleBtoAll<RoleC<RoleEnd>, RoleEnd>>, NameB>, MeshedChannels<Send<(i32, String), End>, End, RoleA<RoleEnd>, NameB>>, End>, Recv<Request, Send<Either<MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>>, RoleC<RoleAtoAll<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, RoleB<RoleEnd>>>, NameA>, MeshedChannels<Recv<Either<MeshedChannels<Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>>, Send<Either<MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>, RoleA<RoleBtoAll<RoleC<RoleEnd>, RoleEnd>>, NameB>, MeshedChannels<Send<(i32, String), End>, End, RoleA<RoleEnd>, NameB>>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<Either<MeshedChannels<Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>>, Send<Either<MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>, RoleA<RoleBtoAll<RoleC<RoleEnd>, RoleEnd>>, NameB>, MeshedChannels<Send<(i32, String), End>, End, RoleA<RoleEnd>, NameB>>, End>, Recv<Request, Send<Either<MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>>, RoleC<RoleAtoAll<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, RoleB<RoleEnd>>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<Either<MeshedChannels<Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>>, Send<Either<MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>, RoleA<RoleBtoAll<RoleC<RoleEnd>, RoleEnd>>, NameB>, MeshedChannels<Send<(i32, String), End>, End, RoleA<RoleEnd>, NameB>>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Send<Request, Recv<Either<MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>>, End, RoleA<RoleAlltoA<RoleEnd, RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(2, 0, 3, make::Choice(0, 0, vec![make::msg(0, 1, 0, make::Choice(1, 1, vec![make::msg(1, 2, 1, make::End), make::End])), make::msg(1, 0, 6, make::End)])), either: true, user: "c16::real16::p19::", run, names } }
}
pub mod p20 {
    use super::*;
    enum Branches0AfromB { Zero(MeshedChannels<End, End, RoleEnd, NameA>), One(MeshedChannels<Recv<Branches0AfromB, End>, Recv<String, End>, RoleC<RoleB<RoleEnd>>, NameA>) }
    enum Branches0CfromB { Zero(MeshedChannels<End, Recv<i32, End>, RoleB<RoleEnd>, NameC>), One(MeshedChannels<Send<String, End>, Recv<Branches0CfromB, End>, RoleA<RoleB<RoleEnd>>, NameC>) }
    mpstthree::checker_concat_impl!([Branches0AfromB, Zero, Branches0CfromB, Zero], [Branches0AfromB, One, Branches0CfromB, One]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<End, Recv<Branches0CfromB, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<Recv<Branches0AfromB, End>, End, RoleB<RoleEnd>, NameA>, MeshedChannels<Send<Branches0AfromB, End>, Send<Branches0CfromB, End>, RoleBroadcast, NameB> => [MeshedChannels<End, Send<i32, End>, RoleC<RoleEnd>, NameB>, Branches0AfromB, Zero, Branches0CfromB, Zero], [MeshedChannels<Send<Branches0AfromB, End>, Send<Branches0CfromB, End>, RoleBroadcast, NameB>, Branches0AfromB, One, Branches0CfromB, One]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Recv<Branches0AfromB, End>, End, RoleB<RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<Send<Branches0AfromB, End>, Send<Branches0CfromB, End>, RoleBroadcast, NameB>>().to_string(), type_name::<MeshedChannels<End, Recv<Branches0CfromB, End>, RoleB<RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 1, vec![make::msg(1, 2, 0, make::End), make::msg(2, 0, 1, make::Ref(0))]), either: false, user: "c16::real16::p20::", run, names } }
}
pub mod p21 {
    use super::*;
    enum Branches0AfromB { Zero(MeshedChannels<End, End, RoleEnd, NameA>), One(MeshedChannels<Recv<Branches0AfromB, End>, Send<Result<(), (u8, [E; 2])>, End>, RoleC<RoleB<RoleEnd>>, NameA>), Two(MeshedChannels<Recv<Vec<Option<i32>>, End>, End, RoleB<RoleEnd>, NameA>) }
    enum Branches0CfromB { Zero(MeshedChannels<End, End, RoleEnd, NameC>), One(MeshedChannels<Recv<Result<(), (u8, [E; 2])>, End>, Send<[u8; 128], Recv<Branches0CfromB, End>>, RoleA<RoleB<RoleB<RoleEnd>>>, NameC>), Two(MeshedChannels<End, End, RoleEnd, NameC>) }
    mpstthree::checker_concat_impl!([Branches0AfromB, Zero, Branches0CfromB, Zero], [Branches0AfromB, One, Branches0CfromB, One], [Branches0AfromB, Two, Branches0CfromB, Two]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<(), End>, Recv<Branches0CfromB, End>, RoleA<RoleB<RoleEnd>>, NameC>, MeshedChannels<Recv<Branches0AfromB, End>, Recv<(), End>, RoleC<RoleB<RoleEnd>>, NameA>, MeshedChannels<Send<Branches0AfromB, End>, Send<Branches0CfromB, End>, RoleBroadcast, NameB> => [MeshedChannels<End, End, RoleEnd, NameB>, Branches0AfromB, Zero, Branches0CfromB, Zero], [MeshedChannels<Send<Branches0AfromB, End>, Recv<[u8; 128], Send<Branches0CfromB, End>>, RoleC<RoleBroadcast>, NameB>, Branches0AfromB, One, Branches0CfromB, One], [MeshedChannels<Send<Vec<Option<i32>>, End>, End, RoleA<RoleEnd>, NameB>, Branches0AfromB, Two, Branches0CfromB, Two]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Recv<Branches0AfromB, End>, Recv<(), End>, RoleC<RoleB<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Send<Branches0AfromB, End>, Send<Branches0CfromB, End>, RoleBroadcast, NameB>>().to_string(), type_name::<MeshedChannels<Send<(), End>, Recv<Branches0CfromB, End>, RoleA<RoleB<RoleEnd>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(2, 0, 2, make::Choice(0, 1, vec![make::End, make::msg(0, 2, 7, make::msg(2, 1, 5, make::Ref(0))), make::msg(1, 0, 4, make::End)])), either: false, user: "c16::real16::p21::", run, names } }
}
pub mod p22 {
    use super::*;
    enum Branches0AfromB { Zero(MeshedChannels<Recv<i32, End>, Recv<Branches1AfromC, End>, RoleB<RoleC<RoleEnd>>, NameA>), One(MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>) }
    enum Branches0CfromB { Zero(MeshedChannels<Send<Branches1AfromC, End>, Send<Branches1BfromC, End>, RoleBroadcast, NameC>), One(MeshedChannels<End, End, RoleEnd, NameC>) }
    enum Branches1AfromC { Zero(MeshedChannels<Recv<Branches0AfromB, End>, End, RoleB<RoleEnd>, NameA>), One(MeshedChannels<End, End, RoleEnd, NameA>) }
    enum Branches1BfromC { Zero(MeshedChannels<Send<Branches0AfromB, End>, Send<Branches0CfromB, End>, RoleBroadcast, NameB>), One(MeshedChannels<End, Recv<(i32, String), End>, RoleC<RoleEnd>, NameB>) }
    mpstthree::checker_concat_impl!([Branches0AfromB, Zero, Branches0CfromB, Zero], [Branches0AfromB, One, Branches0CfromB, One], [Branches1AfromC, Zero, Branches1BfromC, Zero], [Branches1AfromC, One, Branches1BfromC, One]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<End, Recv<Branches0CfromB, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<Recv<Branches0AfromB, End>, End, RoleB<RoleEnd>, NameA>, MeshedChannels<Send<Branches0AfromB, End>, Send<Branches0CfromB, End>, RoleBroadcast, NameB> => [MeshedChannels<Send<i32, End>, Recv<Branches1BfromC, End>, RoleA<RoleC<RoleEnd>>, NameB>, Branches0AfromB, Zero, Branches0CfromB, Zero], [MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>, Branches0AfromB, One, Branches0CfromB, One], [MeshedChannels<End, Recv<Branches0CfromB, End>, RoleB<RoleEnd>, NameC>, Branches1AfromC, Zero, Branches1BfromC, Zero], [MeshedChannels<End, Send<(i32, String), End>, RoleB<RoleEnd>, NameC>, Branches1AfromC, One, Branches1BfromC, One]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Recv<Branches0AfromB, End>, End, RoleB<RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<Send<Branches0AfromB, End>, Send<Branches0CfromB, End>, RoleBroadcast, NameB>>().to_string(), type_name::<MeshedChannels<End, Recv<Branches0CfromB, End>, RoleB<RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 1, vec![make::msg(1, 0, 0, make::Choice(1, 2, vec![make::Ref(0), make::msg(2, 1, 6, make::End)])), make::msg(0, 1, 1, make::End)]), either: false, user: "c16::real16::p22::", run, names } }
}
pub mod p23 {
    use super::*;
    enum Branches0AfromB { Zero(MeshedChannels<Recv<Branches1AfromB, End>, End, RoleB<RoleEnd>, NameA>), One(MeshedChannels<End, End, RoleEnd, NameA>) }
    enum Branches0CfromB { Zero(MeshedChannels<End, Recv<Branches1CfromB, End>, RoleB<RoleEnd>, NameC>), One(MeshedChannels<End, Send<String, End>, RoleB<RoleEnd>, NameC>) }
    enum Branches1AfromB { Zero(MeshedChannels<Recv<Branches1AfromB, End>, End, RoleB<RoleEnd>, NameA>), One(MeshedChannels<Recv<String, Recv<Branches0AfromB, End>>, End, RoleB<RoleB<RoleEnd>>, NameA>) }
    enum Branches1CfromB { Zero(MeshedChannels<End, Recv<i32, Recv<Branches1CfromB, End>>, RoleB<RoleB<RoleEnd>>, NameC>), One(MeshedChannels<End, Recv<Branches0CfromB, End>, RoleB<RoleEnd>, NameC>) }
    mpstthree::checker_concat_impl!([Branches0AfromB, Zero, Branches0CfromB, Zero], [Branches0AfromB, One, Branches0CfromB, One], [Branches1AfromB, Zero, Branches1CfromB, Zero], [Branches1AfromB, One, Branches1CfromB, One]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<End, Recv<Branches0CfromB, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<Recv<Branches0AfromB, End>, End, RoleB<RoleEnd>, NameA>, MeshedChannels<Send<Branches0AfromB, End>, Send<Branches0CfromB, End>, RoleBroadcast, NameB> => [MeshedChannels<Send<Branches1AfromB, End>, Send<Branches1CfromB, End>, RoleBroadcast, NameB>, Branches0AfromB, Zero, Branches0CfromB, Zero], [MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameB>, Branches0AfromB, One, Branches0CfromB, One], [MeshedChannels<Send<Branches1AfromB, End>, Send<i32, Send<Branches1CfromB, End>>, RoleC<RoleBroadcast>, NameB>, Branches1AfromB, Zero, Branches1CfromB, Zero], [MeshedChannels<Send<String, Send<Branches0AfromB, End>>, Send<Branches0CfromB, End>, RoleA<RoleBroadcast>, NameB>, Branches1AfromB, One, Branches1CfromB, One]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Recv<Branches0AfromB, End>, End, RoleB<RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<Send<Branches0AfromB, End>, Send<Branches0CfromB, End>, RoleBroadcast, NameB>>().to_string(), type_name::<MeshedChannels<End, Recv<Branches0CfromB, End>, RoleB<RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 1, vec![make::Choice(1, 1, vec![make::msg(1, 2, 0, make::Ref(1)), make::msg(1, 0, 1, make::Ref(0))]), make::msg(2, 1, 1, make::End)]), either: false, user: "c16::real16::p23::", run, names } }
}
pub mod p24 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<i32, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<Send<String, End>, End, RoleA<RoleEnd>, NameC>>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>, MeshedChannels<Recv<Either<MeshedChannels<End, End, RoleEnd, NameA>, MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>, MeshedChannels<Send<Either<MeshedChannels<End, End, RoleEnd, NameA>, MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>>, End>, Send<Either<MeshedChannels<End, Recv<i32, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<Send<String, End>, End, RoleA<RoleEnd>, NameC>>, End>, RoleBtoAll<RoleC<RoleEnd>, RoleEnd>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Recv<Either<MeshedChannels<End, End, RoleEnd, NameA>, MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<Send<Either<MeshedChannels<End, End, RoleEnd, NameA>, MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>>, End>, Send<Either<MeshedChannels<End, Recv<i32, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<Send<String, End>, End, RoleA<RoleEnd>, NameC>>, End>, RoleBtoAll<RoleC<RoleEnd>, RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<i32, End>, RoleB<RoleEnd>, NameC>, MeshedChannels<Send<String, End>, End, RoleA<RoleEnd>, NameC>>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 1, vec![make::msg(1, 2, 0, make::End), make::msg(2, 0, 1, make::End)]), either: true, user: "c16::real16::p24::", run, names } }
}
pub mod p25 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<End, Recv<Either<MeshedChannels<Send<Either<MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>, Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>>, RoleB<RoleCtoAll<RoleA<RoleEnd>, RoleEnd>>, NameC>, MeshedChannels<End, Send<(i32, String), End>, RoleB<RoleEnd>, NameC>>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>, MeshedChannels<Send<Request, Recv<Either<MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>>, End, RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>, MeshedChannels<Recv<Request, Send<Either<MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>>, Send<Either<MeshedChannels<Send<Either<MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>, Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>>, RoleB<RoleCtoAll<RoleA<RoleEnd>, RoleEnd>>, NameC>, MeshedChannels<End, Send<(i32, String), End>, RoleB<RoleEnd>, NameC>>, End>, RoleA<RoleBtoAll<RoleC<RoleAlltoC<RoleEnd, RoleEnd>>, RoleC<RoleEnd>>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<Request, Recv<Either<MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>>, End, RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<Request, Send<Either<MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>>, Send<Either<MeshedChannels<Send<Either<MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>, Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>>, RoleB<RoleCtoAll<RoleA<RoleEnd>, RoleEnd>>, NameC>, MeshedChannels<End, Send<(i32, String), End>, RoleB<RoleEnd>, NameC>>, End>, RoleA<RoleBtoAll<RoleC<RoleAlltoC<RoleEnd, RoleEnd>>, RoleC<RoleEnd>>>, NameB>>().to_string(), type_name::<MeshedChannels<End, Recv<Either<MeshedChannels<Send<Either<MeshedChannels<End, Recv<String, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, End, RoleEnd, NameA>>, End>, Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>>, RoleB<RoleCtoAll<RoleA<RoleEnd>, RoleEnd>>, NameC>, MeshedChannels<End, Send<(i32, String), End>, RoleB<RoleEnd>, NameC>>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(0, 1, 3, make::Choice(0, 1, vec![make::msg(1, 2, 0, make::Choice(1, 2, vec![make::msg(2, 0, 1, make::End), make::End])), make::msg(2, 1, 6, make::End)])), either: true, user: "c16::real16::p25::", run, names } }
}
pub mod p26 {
    use super::*;
    enum Branches0AfromC { Zero(MeshedChannels<End, Recv<i32, End>, RoleC<RoleEnd>, NameA>), One(MeshedChannels<Send<String, End>, Recv<Branches0AfromC, End>, RoleB<RoleC<RoleEnd>>, NameA>) }
    enum Branches0BfromC { Zero(MeshedChannels<End, End, RoleEnd, NameB>), One(MeshedChannels<Recv<String, End>, Recv<Branches0BfromC, End>, RoleA<RoleC<RoleEnd>>, NameB>) }
    mpstthree::checker_concat_impl!([Branches0AfromC, Zero, Branches0BfromC, Zero], [Branches0AfromC, One, Branches0BfromC, One]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<Branches0AfromC, End>, Send<Branches0BfromC, End>, RoleBroadcast, NameC>, MeshedChannels<End, Recv<Branches0AfromC, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, Recv<Branches0BfromC, End>, RoleC<RoleEnd>, NameB> => [MeshedChannels<Send<i32, End>, End, RoleA<RoleEnd>, NameC>, Branches0AfromC, Zero, Branches0BfromC, Zero], [MeshedChannels<Send<Branches0AfromC, End>, Send<Branches0BfromC, End>, RoleBroadcast, NameC>, Branches0AfromC, One, Branches0BfromC, One]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<End, Recv<Branches0AfromC, End>, RoleC<RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<End, Recv<Branches0BfromC, End>, RoleC<RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Send<Branches0AfromC, End>, Send<Branches0BfromC, End>, RoleBroadcast, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 2, vec![make::msg(2, 0, 0, make::End), make::msg(0, 1, 1, make::Ref(0))]), either: false, user: "c16::real16::p26::", run, names } }
}
pub mod p27 {
    use super::*;
    enum Branches0AfromC { Zero(MeshedChannels<End, End, RoleEnd, NameA>), One(MeshedChannels<Recv<Result<(), (u8, [E; 2])>, End>, Send<[u8; 128], Recv<Branches0AfromC, End>>, RoleB<RoleC<RoleC<RoleEnd>>>, NameA>), Two(MeshedChannels<End, End, RoleEnd, NameA>) }
    enum Branches0BfromC { Zero(MeshedChannels<End, End, RoleEnd, NameB>), One(MeshedChannels<Send<Result<(), (u8, [E; 2])>, End>, Recv<Branches0BfromC, End>, RoleA<RoleC<RoleEnd>>, NameB>), Two(MeshedChannels<End, Recv<Vec<Option<i32>>, End>, RoleC<RoleEnd>, NameB>) }
    mpstthree::checker_concat_impl!([Branches0AfromC, Zero, Branches0BfromC, Zero], [Branches0AfromC, One, Branches0BfromC, One], [Branches0AfromC, Two, Branches0BfromC, Two]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<Branches0AfromC, End>, Send<Branches0BfromC, End>, RoleBroadcast, NameC>, MeshedChannels<Send<(), End>, Recv<Branches0AfromC, End>, RoleB<RoleC<RoleEnd>>, NameA>, MeshedChannels<Recv<(), End>, Recv<Branches0BfromC, End>, RoleA<RoleC<RoleEnd>>, NameB> => [MeshedChannels<End, End, RoleEnd, NameC>, Branches0AfromC, Zero, Branches0BfromC, Zero], [MeshedChannels<Recv<[u8; 128], Send<Branches0AfromC, End>>, Send<Branches0BfromC, End>, RoleA<RoleBroadcast>, NameC>, Branches0AfromC, One, Branches0BfromC, One], [MeshedChannels<End, Send<Vec<Option<i32>>, End>, RoleB<RoleEnd>, NameC>, Branches0AfromC, Two, Branches0BfromC, Two]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<Send<(), End>, Recv<Branches0AfromC, End>, RoleB<RoleC<RoleEnd>>, NameA>>().to_string(), type_name::<MeshedChannels<Recv<(), End>, Recv<Branches0BfromC, End>, RoleA<RoleC<RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<Branches0AfromC, End>, Send<Branches0BfromC, End>, RoleBroadcast, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(0, 1, 2, make::Choice(0, 2, vec![make::End, make::msg(1, 0, 7, make::msg(0, 2, 5, make::Ref(0))), make::msg(2, 1, 4, make::End)])), either: false, user: "c16::real16::p27::", run, names } }
}
pub mod p28 {
    use super::*;
    enum Branches0AfromC { Zero(MeshedChannels<Send<Branches1BfromA, End>, Send<Branches1CfromA, End>, RoleBroadcast, NameA>), One(MeshedChannels<End, End, RoleEnd, NameA>) }
    enum Branches0BfromC { Zero(MeshedChannels<Recv<Branches1BfromA, End>, Recv<i32, End>, RoleC<RoleA<RoleEnd>>, NameB>), One(MeshedChannels<End, Send<String, End>, RoleC<RoleEnd>, NameB>) }
    enum Branches1BfromA { Zero(MeshedChannels<End, Recv<Branches0BfromC, End>, RoleC<RoleEnd>, NameB>), One(MeshedChannels<End, End, RoleEnd, NameB>) }
    enum Branches1CfromA { Zero(MeshedChannels<Send<Branches0AfromC, End>, Send<Branches0BfromC, End>, RoleBroadcast, NameC>), One(MeshedChannels<Recv<(i32, String), End>, End, RoleA<RoleEnd>, NameC>) }
    mpstthree::checker_concat_impl!([Branches0AfromC, Zero, Branches0BfromC, Zero], [Branches0AfromC, One, Branches0BfromC, One], [Branches1BfromA, Zero, Branches1CfromA, Zero], [Branches1BfromA, One, Branches1CfromA, One]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<Branches0AfromC, End>, Send<Branches0BfromC, End>, RoleBroadcast, NameC>, MeshedChannels<End, Recv<Branches0AfromC, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, Recv<Branches0BfromC, End>, RoleC<RoleEnd>, NameB> => [MeshedChannels<Recv<Branches1CfromA, End>, Send<i32, End>, RoleB<RoleA<RoleEnd>>, NameC>, Branches0AfromC, Zero, Branches0BfromC, Zero], [MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>, Branches0AfromC, One, Branches0BfromC, One], [MeshedChannels<End, Recv<Branches0AfromC, End>, RoleC<RoleEnd>, NameA>, Branches1BfromA, Zero, Branches1CfromA, Zero], [MeshedChannels<End, Send<(i32, String), End>, RoleC<RoleEnd>, NameA>, Branches1BfromA, One, Branches1CfromA, One]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<End, Recv<Branches0AfromC, End>, RoleC<RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<End, Recv<Branches0BfromC, End>, RoleC<RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Send<Branches0AfromC, End>, Send<Branches0BfromC, End>, RoleBroadcast, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 2, vec![make::msg(2, 1, 0, make::Choice(1, 0, vec![make::Ref(0), make::msg(0, 2, 6, make::End)])), make::msg(1, 2, 1, make::End)]), either: false, user: "c16::real16::p28::", run, names } }
}
pub mod p29 {
    use super::*;
    enum Branches0AfromC { Zero(MeshedChannels<End, Recv<Branches1AfromC, End>, RoleC<RoleEnd>, NameA>), One(MeshedChannels<End, Send<String, End>, RoleC<RoleEnd>, NameA>) }
    enum Branches0BfromC { Zero(MeshedChannels<End, Recv<Branches1BfromC, End>, RoleC<RoleEnd>, NameB>), One(MeshedChannels<End, End, RoleEnd, NameB>) }
    enum Branches1AfromC { Zero(MeshedChannels<End, Recv<i32, Recv<Branches1AfromC, End>>, RoleC<RoleC<RoleEnd>>, NameA>), One(MeshedChannels<End, Recv<Branches0AfromC, End>, RoleC<RoleEnd>, NameA>) }
    enum Branches1BfromC { Zero(MeshedChannels<End, Recv<Branches1BfromC, End>, RoleC<RoleEnd>, NameB>), One(MeshedChannels<End, Recv<String, Recv<Branches0BfromC, End>>, RoleC<RoleC<RoleEnd>>, NameB>) }
    mpstthree::checker_concat_impl!([Branches0AfromC, Zero, Branches0BfromC, Zero], [Branches0AfromC, One, Branches0BfromC, One], [Branches1AfromC, Zero, Branches1BfromC, Zero], [Branches1AfromC, One, Branches1BfromC, One]);
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<Branches0AfromC, End>, Send<Branches0BfromC, End>, RoleBroadcast, NameC>, MeshedChannels<End, Recv<Branches0AfromC, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<End, Recv<Branches0BfromC, End>, RoleC<RoleEnd>, NameB> => [MeshedChannels<Send<Branches1AfromC, End>, Send<Branches1BfromC, End>, RoleBroadcast, NameC>, Branches0AfromC, Zero, Branches0BfromC, Zero], [MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameC>, Branches0AfromC, One, Branches0BfromC, One], [MeshedChannels<Send<i32, Send<Branches1AfromC, End>>, Send<Branches1BfromC, End>, RoleA<RoleBroadcast>, NameC>, Branches1AfromC, Zero, Branches1BfromC, Zero], [MeshedChannels<Send<Branches0AfromC, End>, Send<String, Send<Branches0BfromC, End>>, RoleB<RoleBroadcast>, NameC>, Branches1AfromC, One, Branches1BfromC, One]).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<End, Recv<Branches0AfromC, End>, RoleC<RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<End, Recv<Branches0BfromC, End>, RoleC<RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Send<Branches0AfromC, End>, Send<Branches0BfromC, End>, RoleBroadcast, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 2, vec![make::Choice(1, 2, vec![make::msg(2, 0, 0, make::Ref(1)), make::msg(2, 1, 1, make::Ref(0))]), make::msg(0, 2, 1, make::End)]), either: false, user: "c16::real16::p29::", run, names } }
}
pub mod p30 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<Either<MeshedChannels<End, Recv<i32, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>>, End>, Send<Either<MeshedChannels<End, End, RoleEnd, NameB>, MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>>, End>, RoleCtoAll<RoleA<RoleEnd>, RoleEnd>, NameC>, MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<i32, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>, MeshedChannels<End, Recv<Either<MeshedChannels<End, End, RoleEnd, NameB>, MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<End, Recv<Either<MeshedChannels<End, Recv<i32, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<End, Recv<Either<MeshedChannels<End, End, RoleEnd, NameB>, MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>>().to_string(), type_name::<MeshedChannels<Send<Either<MeshedChannels<End, Recv<i32, End>, RoleC<RoleEnd>, NameA>, MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>>, End>, Send<Either<MeshedChannels<End, End, RoleEnd, NameB>, MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>>, End>, RoleCtoAll<RoleA<RoleEnd>, RoleEnd>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::Choice(0, 2, vec![make::msg(2, 0, 0, make::End), make::msg(0, 1, 1, make::End)]), either: true, user: "c16::real16::p30::", run, names } }
}
pub mod p31 {
    use super::*;
    fn run(name: &str) -> Out { mpstthree::checker_concat!(name, MeshedChannels<Send<Either<MeshedChannels<Send<Either<MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>, Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>>, RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleEnd>>, NameA>, MeshedChannels<End, Send<(i32, String), End>, RoleC<RoleEnd>, NameA>>, End>, Recv<Request, Send<Either<MeshedChannels<Recv<Either<MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>>, RoleB<RoleCtoAll<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>, RoleA<RoleEnd>>>, NameC>, MeshedChannels<End, Recv<Either<MeshedChannels<Send<Either<MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>, Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>>, RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleEnd>>, NameA>, MeshedChannels<End, Send<(i32, String), End>, RoleC<RoleEnd>, NameA>>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>, MeshedChannels<End, Send<Request, Recv<Either<MeshedChannels<Recv<Either<MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>>, RoleC<RoleAlltoC<RoleEnd, RoleEnd>>, NameB>).map_err(|e| e.to_string()) }
    fn names() -> Vec<String> { vec![type_name::<MeshedChannels<End, Recv<Either<MeshedChannels<Send<Either<MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>, Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>>, RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleEnd>>, NameA>, MeshedChannels<End, Send<(i32, String), End>, RoleC<RoleEnd>, NameA>>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>>().to_string(), type_name::<MeshedChannels<End, Send<Request, Recv<Either<MeshedChannels<Recv<Either<MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>>, RoleC<RoleAlltoC<RoleEnd, RoleEnd>>, NameB>>().to_string(), type_name::<MeshedChannels<Send<Either<MeshedChannels<Send<Either<MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>, Recv<i32, Send<Either<MeshedChannels<End, End, RoleEnd, NameC>, MeshedChannels<End, End, RoleEnd, NameC>>, End>>, RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleEnd>>, NameA>, MeshedChannels<End, Send<(i32, String), End>, RoleC<RoleEnd>, NameA>>, End>, Recv<Request, Send<Either<MeshedChannels<Recv<Either<MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>, MeshedChannels<End, End, RoleEnd, NameB>>, End>>, RoleB<RoleCtoAll<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>, RoleA<RoleEnd>>>, NameC>>().to_string()] }
    pub fn case() -> Case { Case { g: make::msg(1, 2, 3, make::Choice(0, 2, vec![make::msg(2, 0, 0, make::Choice(1, 0, vec![make::msg(0, 1, 1, make::End), make::End])), make::msg(0, 2, 6, make::End)])), either: true, user: "c16::real16::p31::", run, names } }
}
pub fn all() -> Vec<Case> { vec![p0::case(), p1::case(), p2::case(), p3::case(), p4::case(), p5::case(), p6::case(), p7::case(), p8::case(), p9::case(), p10::case(), p11::case(), p12::case(), p13::case(), p14::case(), p15::case(), p16::case(), p17::case(), p18::case(), p19::case(), p20::case(), p21::case(), p22::case(), p23::case(), p24::case(), p25::case(), p26::case(), p27::case(), p28::case(), p29::case(), p30::case(), p31::case()] }
