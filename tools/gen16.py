#!/usr/bin/env python3
"""Writes mc/props/src/real16.rs: protocols as real endpoint types, given to the checker by its
macros.  c16 compares them with the texts it writes itself and with the prescribed automata."""
R = "ABC"
PAY = ["i32", "String", "()", "Request", "Vec<Option<i32>>", "[u8; 128]", "(i32, String)", "Result<(), (u8, [E; 2])>",
       "&'static str", "std::collections::BTreeMap<u8, NameTag>", "Pair<NameA, NameB>", "Either<i32, String>", "SendIt<RoleBook>", "Option<End>", "fn(i32) -> u8", "Box<dyn Fn(i32, u8) -> Option<i32> + std::marker::Send>"]
def msg(p, q, t, g): return ("msg", p, q, t, g)
END = ("end",)
def ref(i): return ("ref", i)
def ch(i, p, *bs): return ("ch", i, p, bs)
LAB = ["Zero", "One", "Two"]
def expr(g):
    if g[0] == "end": return "End"
    if g[0] == "ref": return f"Ref({g[1]})"
    if g[0] == "msg": return f"msg({g[1]}, {g[2]}, {g[3]}, {expr(g[4])})"
    return f"Choice({g[1]}, {g[2]}, vec![{', '.join(expr(b) for b in g[3])}])"
class P:
    def __init__(s, g, either):
        s.g, s.either, s.choosers, s.choices = g, either, {}, []
        s.walk(g)
    def walk(s, g):
        if g[0] == "msg": s.walk(g[4])
        if g[0] == "ch":
            s.choosers[g[1]] = g[2]; s.choices.append(g)
            for b in g[3]: s.walk(b)
    def enum(s, i, p, r): return f"Branches{i}{R[r]}from{R[p]}"
    def at(s, i, r):
        p = s.choosers[i]
        ss = ["End"] * 3
        if r == p: return [f"Send<{s.enum(i, p, q)}, End>" for q in range(3)], "RoleBroadcast"
        ss[p] = f"Recv<{s.enum(i, p, r)}, End>"
        return ss, f"Role{R[p]}<RoleEnd>"
    def parts(s, g, r):
        if g[0] == "end": return ["End"] * 3, "RoleEnd"
        if g[0] == "ref": return s.at(g[1], r)
        if g[0] == "ch" and not s.either: return s.at(g[1], r)
        if g[0] == "ch":
            p, bs = g[2], g[3]
            ss = ["End"] * 3
            o = lambda q: f"Either<{s.ep(bs[0], q)}, {s.ep(bs[1], q)}>"
            if r == p:
                for q in range(3):
                    if q != r: ss[q] = f"Send<{o(q)}, End>"
                return ss, f"Role{R[p]}toAll<{s.parts(bs[0], r)[1]}, {s.parts(bs[1], r)[1]}>"
            ss[p] = f"Recv<{o(r)}, End>"
            return ss, f"RoleAllto{R[p]}<RoleEnd, RoleEnd>"
        _, p, q, t, k = g
        ss, st = s.parts(k, r)
        ss = list(ss)
        if r == p: ss[q] = f"Send<{PAY[t]}, {ss[q]}>"; st = f"Role{R[q]}<{st}>"
        if r == q: ss[p] = f"Recv<{PAY[t]}, {ss[p]}>"; st = f"Role{R[p]}<{st}>"
        return ss, st
    def ep(s, g, r):
        ss, st = s.parts(g, r)
        return f"MeshedChannels<{', '.join(ss[q] for q in range(3) if q != r)}, {st}, Name{R[r]}>"
    def module(s, k):
        o = [f"pub mod p{k} {{", "    use super::*;"]
        groups, impls = [], []
        if not s.either:
            for _, i, p, bs in s.choices:
                for r in range(3):
                    if r != p:
                        o.append(f"    enum {s.enum(i, p, r)} {{ {', '.join(f'{LAB[j]}({s.ep(b, r)})' for j, b in enumerate(bs))} }}")
                for j, b in enumerate(bs):
                    xs = ", ".join(f"{s.enum(i, p, r)}, {LAB[j]}" for r in range(3) if r != p)
                    groups.append(f"[{s.ep(b, p)}, {xs}]")
                    impls.append(f"[{xs}]")
        if impls: o.append(f"    mpstthree::checker_concat_impl!({', '.join(impls)});")
        eps = [s.ep(s.g, r) for r in (2, 0, 1)]
        tail = f" => {', '.join(groups)}" if groups else ""
        o.append(f"    fn run(name: &str) -> Out {{ mpstthree::checker_concat!(name, {', '.join(eps)}{tail}).map_err(|e| e.to_string()) }}")
        o.append(f"    fn names() -> Vec<String> {{ vec![{', '.join(f'type_name::<{s.ep(s.g, r)}>().to_string()' for r in range(3))}] }}")
        o.append(f"    pub fn case() -> Case {{ Case {{ g: {expr(s.g)}, either: {str(s.either).lower()}, user: \"c16::real16::p{k}::\", run, names }} }}")
        o.append("}")
        return "\n".join(o)
ps = []
for i, (a, b) in enumerate([(x, y) for x in range(3) for y in range(3) if x != y]):
    ps.append(P(msg(a, b, i, msg(b, a, (i + 1) % 8, msg(a, 3 - a - b, (i + 5) % 8, END))), False))
for t in range(8, 16): ps.append(P(msg(t % 3, (t + 1) % 3, t, msg((t + 1) % 3, (t + 2) % 3, 8 + (t + 3) % 8, msg((t + 2) % 3, t % 3, 0, END))), False))
for p in range(3):
    q, r = (p + 1) % 3, (p + 2) % 3
    ps += [P(ch(0, p, msg(p, q, 0, END), msg(q, r, 1, ref(0))), False),
           P(msg(q, r, 2, ch(0, p, END, msg(r, q, 7, msg(q, p, 5, ref(0))), msg(p, r, 4, END))), False),
           P(ch(0, p, msg(p, r, 0, ch(1, q, ref(0), msg(q, p, 6, END))), msg(r, p, 1, END)), False),
           P(ch(0, p, ch(1, p, msg(p, q, 0, ref(1)), msg(p, r, 1, ref(0))), msg(q, p, 1, END)), False),
           P(ch(0, p, msg(p, q, 0, END), msg(q, r, 1, END)), True),
           P(msg(r, p, 3, ch(0, p, msg(p, q, 0, ch(1, q, msg(q, r, 1, END), END)), msg(q, p, 6, END))), True)]
print("//! Written by tools/gen16.py.")
print("#![allow(dead_code, unused_imports, clippy::all)]")
print('''use either::Either;
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send};
use mpstthree::meshedchannels::MeshedChannels;
use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC, a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC, broadcast::RoleBroadcast, end::RoleEnd};
use petgraph::Graph;
use std::any::type_name;
use std::collections::HashMap;
pub type Out = Result<(HashMap<String, Graph<String, String>>, Option<i32>), String>;
pub struct Request;
pub struct E;
pub struct NameTag;
pub struct RoleBook;
pub struct Pair<A, B>(A, B);
pub struct SendIt<T>(T);
mod make { pub use props::check16::{msg, G::{self, Choice, End, Ref}}; }
pub struct Case { pub g: make::G, pub either: bool, pub user: &'static str, pub run: fn(&str) -> Out, pub names: fn() -> Vec<String> }
''')
for k, p in enumerate(ps):
    m = p.module(k)
    for w in ("msg(", "Choice(", "Ref("):
        pass
    head, case, tail = m.partition("Case { g: ")
    g, sep, rest = tail.partition(", either: ")
    g = g.replace("msg(", "make::msg(").replace("Choice(", "make::Choice(").replace("Ref(", "make::Ref(").replace("End", "make::End")
    print(head + case + g + sep + rest)
print(f"pub fn all() -> Vec<Case> {{ vec![{', '.join(f'p{k}::case()' for k in range(len(ps)))}] }}")
