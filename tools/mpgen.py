#!/usr/bin/env python3
"""Protocol -> Rust generator for the multiparty checks.

A protocol is a block: a list of ("m", i, j, id) messages ended by nothing (close), by
("e", chooser, name, [blocks]) (labelled choice through an enum), ("lr", chooser, name, [left, right])
(two-branch choice through Either), or ("loop", name) (back to the labelled choice `name`).
Writes mc/mp/src/gen/<file>.rs; files are rewritten only when their content changes."""
import os, itertools, re, sys
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "mp", "src", "gen")

# ------------------------------------------------------------------ flavours
class Flavour:
    """How the session library is obtained and called."""
    def __init__(self, kind, roles, mode=None, mesh=None):
        self.kind, self.roles, self.mode, self.n = kind, roles, mode, len(roles)
        self.meshname = mesh or {"fn": "MeshedChannels", "meth": "MeshedChannels", "simple": "MeshedChannels"}.get(kind, "MC")
    def mesh(self): return self.meshname
    def sess(self, p, q):
        """index of p's session with q"""
        return q + 1 if q < p else q
    def low(self, p): return self.roles[p].lower()
    def header(self):
        n, R = self.n, self.roles
        L = ["use super::*;", "use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send};",
             "use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd};", "use either::Either;"]
        k = self.kind
        pairs = [(p, q) for p in range(n) for q in range(n) if p != q]
        if k in ("fn", "meth"):
            L += ["use mpstthree::meshedchannels::MeshedChannels;", "use mpstthree::functionmpst::{choose::*, close::close_mpst, fork::fork_mpst, offer::*, recv::*, send::*};",
                  "use mpstthree::name::{a::NameA, b::NameB, c::NameC};",
                  "use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC, a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};"]
        elif k == "gen":
            L.append(f'mpstthree::generate!("{self.mode}", MC, {", ".join(R)});')
            if self.mode in ("basic", "cancel"):
                for i, r in enumerate(R):
                    L.append(f"mpstthree::choose_mpst_create_multi_to_all!(choose_mpst_{r.lower()}_to_all, Name{r}, MC, {i+1});")
        elif k == "atmp":
            L += ["use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};",
                  "use std::{collections::HashMap, time::Instant};", f'mpstthree::generate_atmp!(MC, {", ".join(R)});']
        elif k == "sup":
            if self.mode == "gen":
                L.append(f'mpstthree::generate!("cancel", MC, {", ".join(R)});')
                L += [f"mpstthree::send_cancel!(cancel_mpst_{self.low(p)}, Name{R[p]}, MC, {n}, \"Session dropped\");" for p in range(1, n)]
                return L
            if self.mode == "check":
                L += [f"mpstthree::create_meshedchannels!(MC, {n});", f"mpstthree::close_mpst_check_cancel!(close_mpst, MC, {n});", f"mpstthree::fork_mpst_multi!(fork_mpst, MC, {n});"]
            elif self.mode == "cancel":
                L.append(f"mpstthree::bundle_struct_fork_close_multi_cancel!(close_mpst, fork_mpst, MC, {n});")
            else:
                L.append(f"mpstthree::bundle_struct_fork_close_multi!(close_mpst, fork_mpst, MC, {n});")
            L.append("mpstthree::create_multiple_normal_role!(" + " ".join(f"Role{r}, Role{r}Dual |" for r in R) + ");")
            L.append("mpstthree::create_multiple_normal_name!(" + ", ".join(f"Name{r}" for r in R) + ");")
            for p in range(1, n):
                qs = [q for q in range(1, n) if q != p]
                if self.mode == "check":
                    for q in qs:
                        L.append(f"mpstthree::create_send_check_cancel!(send_mpst_{self.low(p)}_to_{self.low(q)}, Role{R[q]}, Name{R[p]}, MC, {n}, {self.sess(p,q)});")
                        L.append(f"mpstthree::create_recv_mpst_session!(recv_mpst_{self.low(p)}_from_{self.low(q)}, Role{R[q]}, Name{R[p]}, MC, {n}, {self.sess(p,q)});")
                else:
                    L.append("mpstthree::create_send_check_cancel_bundle!(" + " ".join(f"send_mpst_{self.low(p)}_to_{self.low(q)}, Role{R[q]}, {self.sess(p,q)} |" for q in qs) + f" => Name{R[p]}, MC, {n});")
                    L.append("mpstthree::create_recv_mpst_session_bundle!(" + " ".join(f"recv_mpst_{self.low(p)}_from_{self.low(q)}, Role{R[q]}, {self.sess(p,q)} |" for q in qs) + f" => Name{R[p]}, MC, {n});")
                L.append(f"mpstthree::send_cancel!(cancel_mpst_{self.low(p)}, Name{R[p]}, MC, {n}, \"Session dropped\");")
        elif k in ("multi", "short", "simple"):
            if k == "simple":
                L += ["use mpstthree::meshedchannels::MeshedChannels;", "use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst, OfferMpst, ChooseMpst};"]
            elif self.mode == "cancel":
                L.append(f"mpstthree::bundle_struct_fork_close_multi_cancel!(close_mpst, fork_mpst, MC, {n});")
            elif self.mode == "bundle":
                L.append(f"mpstthree::bundle_struct_fork_close_multi!(close_mpst, fork_mpst, MC, {n});")
            elif self.mode == "check":
                L += [f"mpstthree::create_meshedchannels!(MC, {n});", f"mpstthree::close_mpst_check_cancel!(close_mpst, MC, {n});", f"mpstthree::fork_mpst_multi!(fork_mpst, MC, {n});"]
            else:
                L += [f"mpstthree::create_meshedchannels!(MC, {n});", f"mpstthree::close_mpst!(close_mpst, MC, {n});", f"mpstthree::fork_mpst_multi!(fork_mpst, MC, {n});"]
            if k == "short":
                L.append("mpstthree::create_multiple_normal_role_short!(" + ", ".join(R) + ");")
                L.append("mpstthree::create_multiple_normal_name_short!(" + ", ".join(R) + ");")
                L.append("mpstthree::create_multiple_broadcast_role_short!(" + ", ".join(R) + ");")
            else:
                L.append("mpstthree::create_multiple_normal_role!(" + " ".join(f"Role{r}, Role{r}Dual |" for r in R) + ");")
                L.append("mpstthree::create_multiple_normal_name!(" + ", ".join(f"Name{r}" for r in R) + ");")
                L.append("mpstthree::create_multiple_broadcast_role!(" + " ".join(f"RoleAllto{r}, Role{r}toAll |" for r in R) + ");")
            snd = {"cancel": "create_send_mpst_cancel"}.get(self.mode, "create_send_mpst_session")
            if k == "simple":
                for p, q in pairs:
                    i = self.sess(p, q)
                    L.append(f"mpstthree::create_send_mpst_session_{i}!(send_mpst_{self.low(p)}_to_{self.low(q)}, Role{R[q]}, Name{R[p]});")
                    L.append(f"mpstthree::create_recv_mpst_session_{i}!(recv_mpst_{self.low(p)}_from_{self.low(q)}, Role{R[q]}, Name{R[p]});")
                    L.append(f"mpstthree::create_offer_mpst_session_{i}!(offer_mpst_session_to_{self.low(p)}_from_{self.low(q)}, RoleAllto{R[q]}, Name{R[p]});")
                for c in range(3):
                    o = [x for x in range(3) if x != c]
                    L.append(f"mpstthree::create_choose_both_from_{c+1}_to_{o[0]+1}_and_{o[1]+1}!(choose_right_mpst_session_{self.low(c)}_to_all, choose_left_mpst_session_{self.low(c)}_to_all, Name{R[o[0]]}, Name{R[o[1]]}, Role{R[c]}toAll, Name{R[c]});")
            else:
                if self.mode in ("bundle", "cancel"):
                    b = "create_send_mpst_session_bundle" if self.mode == "bundle" else "create_send_mpst_cancel_bundle"
                    for p in range(n):
                        qs = [q for q in range(n) if q != p]
                        L.append(f"mpstthree::{b}!(" + " ".join(f"send_mpst_{self.low(p)}_to_{self.low(q)}, Role{R[q]}, {self.sess(p,q)} |" for q in qs) + f" => Name{R[p]}, MC, {n});")
                        L.append("mpstthree::create_recv_mpst_session_bundle!(" + " ".join(f"recv_mpst_{self.low(p)}_from_{self.low(q)}, Role{R[q]}, {self.sess(p,q)} |" for q in qs) + f" => Name{R[p]}, MC, {n});")
                else:
                    for p, q in pairs:
                        i = self.sess(p, q)
                        L.append(f"mpstthree::{snd}!(send_mpst_{self.low(p)}_to_{self.low(q)}, Role{R[q]}, Name{R[p]}, MC, {n}, {i});")
                        L.append(f"mpstthree::create_recv_mpst_session!(recv_mpst_{self.low(p)}_from_{self.low(q)}, Role{R[q]}, Name{R[p]}, MC, {n}, {i});")
                L.append(f"mpstthree::create_offer_type_multi!(OfferMulti, MC, {n});")
                L.append(f"mpstthree::create_choose_type_multi!(ChooseMulti, MC, {n});")
                for p, q in pairs:
                    L.append(f"mpstthree::create_offer_mpst_session_multi!(offer_mpst_session_to_{self.low(p)}_from_{self.low(q)}, OfferMulti, RoleAllto{R[q]}, Name{R[p]}, MC, {n}, {self.sess(p,q)});")
                # choose functions by position exist only for the last role (their tests and
                # documentation); the others go through the labelled macros
                for c in range(n):
                    if c == n - 1:
                        L.append(f"mpstthree::create_choose_mpst_session_multi_both!(choose_left_mpst_session_{self.low(c)}_to_all, choose_right_mpst_session_{self.low(c)}_to_all, ChooseMulti, Role{R[c]}toAll, Name{R[c]}, MC, {n});")
        return L
    def send(self, i, j, v):
        if self.kind == "atmp": return f"s.send({v}, k)?"
        if self.kind == "meth": return f"s.send({v})"
        if self.kind == "sup" and self.mode == "gen": return f"s.send({v})?"
        if self.kind == "gen": return f"s.send({v})" + ("?" if "cancel" in self.mode else "")
        return f"send_mpst_{self.low(i)}_to_{self.low(j)}({v}, s)" + ("?" if self.mode == "cancel" or self.kind == "sup" else "")
    def recv(self, j, i):
        if self.kind == "atmp": return "s.recv(k)?"
        if self.kind == "meth": return "s.recv()?"
        if self.kind == "sup" and self.mode == "gen": return "s.recv()?"
        if self.kind == "gen": return "s.recv()" + ("" if self.mode in ("basic", "recursive") else "?")
        return f"recv_mpst_{self.low(j)}_from_{self.low(i)}(s)?"
    def close(self): return "s.close()" if self.kind in ("meth", "gen", "atmp") or (self.kind, self.mode) == ("sup", "gen") else "close_mpst(s)"
    def cancel(self, p=None):
        if self.kind == "sup": return f"cancel_mpst_{self.low(p)}"
        return "method" if self.kind in ("meth", "gen", "fn", "atmp") else "func"
    def choose_enum(self, c, labels):
        if self.kind == "atmp": return f"choose_mpst_{self.low(c)}_to_all!(s, k, {', '.join(labels)})"
        if self.kind in ("fn", "meth"): return f"mpstthree::choose_mpst_{self.low(c)}_to_all!(s, {', '.join(labels)})"
        if self.kind == "gen": return f"choose_mpst_{self.low(c)}_to_all!(s, {', '.join(labels)})"
        if self.kind == "simple": raise ValueError
        if self.kind == "sup":
            ls = [l for l, q in zip(labels, [q for q in range(self.n) if q != c]) if q]
            rs = [f"Name{self.roles[q]}" for q in range(1, self.n) if q != c]
            return f"mpstthree::choose_mpst_multi_cancel_to_all!(s, {', '.join(ls)}, => {', '.join(rs)}, => Name{self.roles[0]}, Name{self.roles[c]}, MC, {c+1})"
        return f"mpstthree::choose_mpst_multi_to_all!(s, {', '.join(labels)}, => Name{self.roles[c]}, MC, {c+1})"
    def offer_enum(self, p, c, arms):
        a = "{ " + " ".join(f"{pat} => {{ {body} }}," for pat, body in arms) + " }"
        if self.kind == "atmp": return f"offer_mpst!(s, k, {a})"
        if self.kind in ("fn", "meth"): return f"mpstthree::offer_mpst_{self.low(p)}_to_{self.low(c)}!(s, {a})"
        if self.kind == "gen": return ("mpstthree::" if self.mode in ("cancel", "inter_cancel") else "") + f"offer_mpst!(s, {a})"
        if self.kind == "sup" and self.mode == "gen": return f"offer_cancel_mpst!(s, {a})"
        if self.kind == "sup": return f"mpstthree::offer_cancel_mpst!(s, recv_mpst_{self.low(p)}_from_{self.low(c)}, {a})"
        return f"mpstthree::offer_mpst!(s, recv_mpst_{self.low(p)}_from_{self.low(c)}, {a})"
    def offer_lr(self, p, c, f, g):
        if self.kind == "atmp": return f"s.offer(k, {f}, {g})"
        if self.kind in ("meth", "gen"): return f"s.offer({f}, {g})"
        return f"offer_mpst_session_to_{self.low(p)}_from_{self.low(c)}(s, {f}, {g})"
    def choose_lr(self, c, side, targs):
        if self.kind == "atmp": return f"s.choose_{side}(k)?"
        if self.kind == "gen" or self.kind == "meth": return f"s.choose_{side}()"
        return f"choose_{side}_mpst_session_{self.low(c)}_to_all::<{', '.join(targs)}>(s)"
    def first(self): return 1 if self.kind == "sup" else 0
    def timed(self): return self.kind == "atmp"
    # session type constructors; i: position in the block, id: message (0 for a selection)
    def win(self, i, id):
        if id >= 1000: return "'a', -2, false, -1, false, ' '"
        if id == 0: lo, r = CHOICE * SLOT, "'a'"
        else: lo, r = i * SLOT, ("'b'" if id % 3 == 0 else "' '")
        sh = (id + (id // 4)) % 4
        st, ist = (lo - 1, "false") if sh >= 2 else (lo, "true")
        return f"'a', {st}, {ist}, {lo + 2}, {'false' if sh % 2 else 'true'}, {r}"
    def S(self, t, k, i=0, id=0): return f"SendTimed<{t}, {self.win(i, id)}, {k}>" if self.timed() else f"Send<{t}, {k}>"
    def Rv(self, t, k, i=0, id=0): return f"RecvTimed<{t}, {self.win(i, id)}, {k}>" if self.timed() else f"Recv<{t}, {k}>"
    def arg(self): return ", k" if self.timed() else ""
    def par(self): return ", k: &mut HashMap<char, Instant>" if self.timed() else ""
    def st(self, p, send, i, id=0):
        """what precedes an action of role p"""
        if not self.timed(): return f"mp::st!(s, c, {self.cancel(p)});"
        slot = CHOICE if id == 0 else i
        return f"mp::st!(s, c, {self.cancel(p)}); c.pace(k, {slot * SLOT * 1000 + (750 if send else 500 if (p + id) % 2 else 1000)}, {'false' if id >= 1000 else 'true'});"
    def clk(self, i, id):
        """after a successful timed action: which clock it had to reset"""
        return f" c.clk(k, {self.win(i, id).split(', ')[-1]});" if self.timed() else ""
    def fn_bundle(self): return self.mode == "bundle"
    def lr_ok(self, c): return self.kind != "sup" and self.kind not in ("multi", "short") or c == self.n - 1
    def enum_ok(self): return self.kind != "simple"

SLOT, CHOICE = 4, 7     # timed sessions: seconds per step, step of the selections
# ------------------------------------------------------------------ emission
class Emit:
    def __init__(self, fl, block):
        self.fl, self.block, self.n = fl, block, fl.n
        self.choices = {}
        self.find(block)
        self.fns = []
        self.items = []
        self.done = set()
    def find(self, b):
        for a in b:
            if a[0] in ("e", "lr"):
                self.choices[a[2]] = a
                for x in a[3]: self.find(x)
    def ty(self, p, b, base=0):
        """(sessions by peer, stack) of role p at the start of block b (base: position of its first action)"""
        S = {q: "End" for q in range(self.n) if q != p}
        st = "RoleEnd"
        if b and b[-1][0] in ("e", "lr", "loop"):
            a = b[-1]
            if a[0] == "loop": a = self.choices[a[1]]
            c, k = a[1], a[2]
            R = self.fl.roles
            if a[0] == "e":
                if p == c:
                    for q in S:
                        if self.fl.kind != "sup": S[q] = self.fl.S(f"K{k}{R[q]}", "End")
                        elif q: S[q] = f"Send<(End, K{k}{R[q]}), End>"
                    st = "RoleBroadcast"
                elif self.fl.kind == "sup" and p == 0: pass
                else:
                    S[c] = f"Recv<(End, K{k}{R[p]}), End>" if self.fl.kind == "sup" else self.fl.Rv(f"K{k}{R[p]}", "End")
                    st = f"Role{R[c]}<RoleEnd>"
            else:
                l, r = a[3]
                if p == c:
                    for q in S: S[q] = self.fl.S(f"Either<{self.mc(q,l)}, {self.mc(q,r)}>", "End")
                    st = f"Role{R[c]}toAll<{self.ty(c,l)[1]}, {self.ty(c,r)[1]}>"
                else:
                    S[c] = self.fl.Rv(f"Either<{self.mc(p,l)}, {self.mc(p,r)}>", "End")
                    st = f"RoleAllto{R[c]}<RoleEnd, RoleEnd>"
            b = b[:-1]
        for pos, (_, i, j, id) in reversed(self.local(p, b)):
            if p == i:
                S[j] = self.fl.S("i32", S[j], base + pos, id); st = f"Role{self.fl.roles[j]}<{st}>"
            elif p == j:
                S[i] = self.fl.Rv("i32", S[i], base + pos, id); st = f"Role{self.fl.roles[i]}<{st}>"
        return S, st
    def local(self, p, b):
        """The actions of role p in block b; in an asynchronous block every role sends before it receives."""
        if not b or b[0] != ASYNC: return list(enumerate(b))
        ms = [a for a in b[1:] if a[0] == "m"]
        return list(enumerate([a for a in ms if a[1] == p] + [a for a in ms if a[2] == p] + [a for a in b[1:] if a[0] != "m"]))
    def mc(self, p, b, base=0):
        S, st = self.ty(p, b, base)
        return f"{self.fl.mesh()}<{', '.join(S[q] for q in sorted(S))}, {st}, Name{self.fl.roles[p]}>"
    def dual_stack(self, p, b): return f"<{self.ty(p,b)[1]} as mpstthree::role::Role>::Dual"
    def body(self, p, b):
        fl = self.fl; L = []
        for pos, a in self.local(p, b):
            if a[0] == "m":
                _, i, j, id = a
                if p == i:
                    L.append(f"{fl.st(p, True, pos, id)} let v = c.val({id}); let s = {fl.send(i,j,'v')}; c.sent({id}, {j});{fl.clk(pos, id)}")
                elif p == j:
                    L.append(f"{fl.st(p, False, pos, id)} let (v, s): (i32, _) = {fl.recv(j,i)}; c.got({id}, {i}, v);{fl.clk(pos, id)}")
            elif a[0] == "e":
                self.choice_fn(p, a); L.append(f"f_{p}_{a[2]}(s, c{fl.arg()})"); return " ".join(L)
            elif a[0] == "loop":
                L.append(f"f_{p}_{a[1]}(s, c{fl.arg()})"); return " ".join(L)
            elif a[0] == "lr":
                _, c, k, (l, r) = a
                L.append(fl.st(p, p == c, pos))
                if p == c:
                    o = [q for q in range(self.n) if q != c]
                    targs = self.targs(c, l, r)
                    arms = []
                    for idx, (side, blk) in enumerate((("left", l), ("right", r))):
                        arms.append(f"{idx} => {{ let s: {self.mc(c,blk)} = {fl.choose_lr(c, side, targs)}; c.branch(\"{k}\", {idx});{fl.clk(0, 0)} {self.body(p, blk)} }}")
                    L.append(f"match c.pick(\"{k}\", 2, &[]) {{ {' '.join(arms)} _ => unreachable!() }}")
                else:
                    cl = [f"move |{'k: &mut HashMap<char, Instant>, ' if fl.timed() else ''}s: {self.mc(p,blk)}| {{ let mut c = c{idx}; c.branch(\"{k}\", {idx});{fl.clk(0, 0)} {self.body(p, blk)} }}" for idx, blk in enumerate((l, r))]
                    L.append("let (c0, c1) = (c.clone(), c);")
                    L.append(fl.offer_lr(p, c, *cl))
                return " ".join(L)
        L.append(f"mp::st!(s, c, {fl.cancel(p)}); c.closing(); {fl.close()}?; c.closed()")
        return " ".join(L)
    def targs(self, c, l, r):
        """explicit type arguments of the choose functions (positional styles)"""
        n = self.n; o = [q for q in range(n) if q != c]
        if self.fl.kind in ("gen", "meth", "atmp"): return []
        if self.fl.kind in ("fn", "simple"):
            a, b = o
            return [self.ty(b,l)[0][a], self.ty(b,r)[0][a], self.ty(c,l)[0][a], self.ty(c,l)[0][b], self.ty(c,r)[0][a], self.ty(c,r)[0][b],
                    self.dual_stack(a,l), self.dual_stack(a,r), self.dual_stack(b,l), self.dual_stack(b,r), self.ty(c,l)[1], self.ty(c,r)[1]]
        # multi: for each pair (i<j) in lexicographic order, i's session with j (left), then the same for right
        t = []
        for blk in (l, r):
            t += [self.ty(i, blk)[0][j] for i in range(n) for j in range(i+1, n)]
        for q in o: t += [self.dual_stack(q,l), self.dual_stack(q,r), "Name" + self.fl.roles[q]]
        t += [self.ty(c,l)[1], self.ty(c,r)[1]]
        return t
    def exits(self, k, blocks):
        """branches from which the end is reachable without choosing k again"""
        def loops(b):
            if not b: return False
            a = b[-1]
            if a[0] == "loop": return True
            if a[0] in ("e", "lr"): return all(loops(x) for x in a[3])
            return False
        return [i for i, b in enumerate(blocks) if not loops(b)]
    def choice_fn(self, p, a):
        _, c, k, blocks = a
        if (p, k) in self.done: return
        self.done.add((p, k))
        fl = self.fl; R = fl.roles
        one = [("e", c, k, blocks)]
        if p == c:
            arms = []
            for i, blk in enumerate(blocks):
                labels = [f"K{k}{R[q]}::B{i}" for q in range(self.n) if q != c]
                call = fl.choose_enum(c, labels)
                if fl.fn_bundle(): call = f"choose_{k}_{i}(s)" + ("?" if fl.kind == "sup" else "")
                arms.append(f"{i} => {{ let s: {self.mc(c,blk)} = {call}; c.branch(\"{k}\", {i});{fl.clk(0, 0)} {self.body(p, blk)} }}")
            if fl.fn_bundle():
                o = [q for q in range(fl.first(), self.n) if q != c]; nb = range(len(blocks)); j = ", ".join
                mac = "create_fn_choose_mpst_cancel_multi_to_all_bundle" if fl.kind == "sup" else "create_fn_choose_mpst_multi_to_all_bundle"
                self.items.append(f"mpstthree::{mac}!(" + j(f"choose_{k}_{i}" for i in nb) + ", => " + j(f"B{i}" for i in nb) + ", => " + j(self.mc(c, b) for b in blocks) + ", => " + j(f"K{k}{R[q]}" for q in o) + ", => " + j(f"Name{R[q]}" for q in o) + ", => " + (f"Name{R[0]}, " if fl.kind == "sup" else "") + f"Name{R[c]}, MC, {c+1});")
            body = f"{fl.st(p, True, 0)} match c.pick(\"{k}\", {len(blocks)}, &{self.exits(k, blocks)}) {{ {' '.join(arms)} _ => unreachable!() }}"
        else:
            arms = [(f"K{k}{R[p]}::B{i}(s)", f"c.branch(\"{k}\", {i});{fl.clk(0, 0)} {self.body(p, blk)}") for i, blk in enumerate(blocks)]
            body = f"{fl.st(p, False, 0)} {fl.offer_enum(p, c, arms)}"
        self.fns.append(f"fn f_{p}_{k}(s: {self.mc(p, one)}, mut c: Ctx{fl.par()}) -> R {{ {body} }}")
    def acts(self, b):
        o = []
        for a in b:
            if a == ASYNC: o.append("Act::Async")
            elif a[0] == "m": o.append(f"Act::Msg({a[1]}, {a[2]}, {a[3]})")
            elif a[0] == "loop": o.append(f"Act::Loop(\"{a[1]}\")")
            else: o.append(f"Act::Choice({a[1]}, \"{a[2]}\", vec![{', '.join(self.acts(x) for x in a[3])}])")
        return "vec![" + ", ".join(o) + "]"
    def module(self, name):
        n = self.n; L = [f"pub mod {name} {{", "use super::*;"]
        for k, a in self.choices.items():
            if a[0] != "e": continue
            for q in range(self.fl.first(), n):
                if q == a[1]: continue
                L.append(f"pub enum K{k}{self.fl.roles[q]} {{ " + ", ".join(f"B{i}({self.mc(q,b)})" for i, b in enumerate(a[3])) + " }")
        for p in range(n):
            L.append(f"type T{p} = {self.mc(p, self.block)};")
            if self.fl.kind == "sup" and p == 0: body = f"if let Some(k) = c.stop() {{ return mp::after_stop(k); }} c.closing(); mpstthree::broadcast_cancel!(s, {n})?; c.closed()".replace(f"mpstthree::broadcast_cancel!(s, {n})?", f"supervise(s)?")
            else: body = self.body(p, self.block)
            L.append(f"pub fn role_{p}(s: T{p}, mut c: Ctx{self.fl.par()}) -> R {{ {'c.start(k); ' if self.fl.timed() else ''}{body} }}")
        if self.fl.kind == "sup": L.append(f"fn supervise(s: T0) -> R {{ mpstthree::broadcast_cancel!(s, {n}) }}")
        L += self.fns + self.items
        cs = ", ".join(f"c{p}" for p in range(n))
        fork = "fork_mpst"
        L.append(f"pub fn run(cs: Vec<Ctx>) -> Vec<std::thread::JoinHandle<()>> {{ let Ok([{cs}]) = <[Ctx; {n}]>::try_from(cs) else {{ panic!() }}; let ({', '.join(f'h{p}' for p in range(n))}) = {fork}({', '.join((f'move |s: T{p}, k: &mut HashMap<char, Instant>| role_{p}(s, c{p}, k)' if self.fl.timed() else f'move |s: T{p}| role_{p}(s, c{p})') for p in range(n))}); vec![{', '.join(f'h{p}' for p in range(n))}] }}")
        L.append(f"pub fn acts() -> Vec<Act> {{ {self.acts(self.block)} }}")
        L.append("}")
        return L

def number(b, cnt=None):
    """give every message a distinct identifier, every choice a distinct name"""
    cnt = cnt or [0]
    out = []
    for a in b:
        if a[0] == "m":
            cnt[0] += 1; out.append(("m", a[1], a[2], cnt[0] + (1000 if len(a) > 3 else 0)))
        elif a[0] in ("e", "lr"):
            out.append((a[0], a[1], a[2], [number(x, cnt) for x in a[3]]))
        else: out.append(a)
    return out

class File:
    case = "Case"
    def __init__(self, name): self.name, self.mods, self.cases, self.large = name, [], [], []
    def add(self, modname, fl, protos, large=False):
        """protos: list of (name, block)"""
        L = [f"pub mod {modname} {{"] + fl.header()
        for nm, b in protos:
            L += Emit(fl, number(b)).module(nm)
            (self.large if large else self.cases).append(f"Case {{ name: \"{modname}/{nm}\", roles: &[{', '.join(chr(34)+r+chr(34) for r in fl.roles)}], supervised: {'true' if fl.kind == 'sup' else 'false'}, acts: {modname}::{nm}::acts, run: {modname}::{nm}::run }}")
        L.append("}")
        self.mods.append("\n".join(L))
    def write(self):
        t = "// Generated by tools/mpgen.py; do not edit.\n#![allow(warnings)]\nuse mp::{Act, Case, Case2, Ctx, R};\n"
        t += "\n".join(self.mods) + "\npub fn cases() -> Vec<" + self.case + "> { vec![\n" + ",\n".join(self.cases) + "\n] }\n"
        if self.large: t += "pub fn large() -> Vec<" + self.case + "> { vec![\n" + ",\n".join(self.large) + "\n] }\n"
        os.makedirs(OUT, exist_ok=True)
        f = os.path.join(OUT, self.name + ".rs")
        if not os.path.exists(f) or open(f).read() != t: open(f, "w").write(t)

# ------------------------------------------------------------------ protocol families
ASYNC = ("async",)
def flood(n, r=1):
    """every role first sends to those after it and then receives from those before it (cyclically)"""
    return [ASYNC] + [m(i, (i+d) % n) for _ in range(r) for i in range(n) for d in range(1, (n - 1) // 2 + 1)]
def m(i, j): return ("m", i, j)
def pairs(n): return [(i, j) for i in range(n) for j in range(n) if i != j]
def allpairs(n): return [m(i, j) for i, j in pairs(n)]
def allpairs_rev(n): return [m(i, j) for i, j in reversed(pairs(n))]
def seqs(n, k): return [[m(*x) for x in s] for s in itertools.product(pairs(n), repeat=k)]
def ring(n, r=1): return [m(i, (i+1) % n) for _ in range(r) for i in range(n)]
def fan(n, c): return [m(c, q) for q in range(n) if q != c] + [m(q, c) for q in range(n) if q != c]
def burst(n): return [m(i, j) for _ in range(3) for i, j in pairs(n) if i < j]
def nm(b):
    o = ""
    for a in b: o += f"{'abcdef'[a[1]]}{'abcdef'[a[2]]}"
    return "q_" + o if o else "q_none"
def ch(c, k, *bs): return ("e", c, k, list(bs))
def lr(c, k, l, r): return ("lr", c, k, [l, r])
def loop(k): return ("loop", k)

def gen_c05(T):
    f = File("c05" + "_t"*T)
    A = ["A", "B", "C"]
    two = [[]] + seqs(3, 1) + seqs(3, 2) + (seqs(3, 3) if T else [])
    big = [("all", allpairs(3)), ("all_rev", allpairs_rev(3)), ("ring", ring(3, 3)), ("burst", burst(3)), ("flood", flood(3)), ("flood3", flood(3, 3))] + [(f"fan{c}", fan(3, c)*2) for c in range(3)]
    ps = [(nm(b), b) for b in two] + big
    f.add("fun", Flavour("fn", A), ps)
    f.add("meth", Flavour("meth", A), ps)
    small = [(nm(b), b) for b in seqs(3, 1)] + big
    f.add("simple", Flavour("simple", A), small)
    f.write()


NAMES = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "Ka", "La", "Ma"]
ODD = ["Zed", "B", "Mid", "Abc", "C", "Y", "Q", "A"]      # role names whose alphabetical order is not their position
MODES = ["basic", "recursive", "cancel", "rec_and_cancel"]
def gen_c06(T):
    f = File("c06" + "_t"*T)
    for n in range(2, 7 if T else 6):
        fam = [("none", []), ("all", allpairs(n)), ("all_rev", allpairs_rev(n)), ("ring", ring(n, 2))] + [(f"fan{c}", fan(n, c)) for c in range(n)]
        for k, mode in enumerate(MODES):
            ps = fam if T or n < 5 else [fam[1], fam[2], fam[3]]
            if n > 2: ps = ps + [("flood", flood(n)), ("flood2", flood(n, 2))]
            if n == 3: ps = ps + [(nm(b), b) for b in seqs(3, 2 if T else 1)]
            if n == 2: ps = ps + [(nm(b), b) for k in (1, 2, 3) for b in seqs(2, k)]
            if n == 4 and T: ps = ps + [("burst", burst(4))] + [(nm(b), b) for b in seqs(4, 1)]
            f.add(f"{mode}_{n}", Flavour("gen", NAMES[:n], mode), ps)
        if n <= 4:
            f.add(f"odd_{n}", Flavour("gen", ODD[:n], MODES[n % 4]), [("all", allpairs(n)), ("ring", ring(n))])
        if 3 <= n <= 5:
            for mode in ("plain", "bundle", "cancel", "check"):
                if not T and n == 5 and mode != "plain": continue
                f.add(f"multi_{mode}_{n}", Flavour("multi", NAMES[:n], mode), (fam if T else fam[1:4]) + [("flood", flood(n))])
            f.add(f"short_{n}", Flavour("short", ODD[:n], "plain"), fam[:4])
    # many roles
    for n, mode in ((7, "basic"), (8, "rec_and_cancel")): f.add(f"{mode}_{n}", Flavour("gen", NAMES[:n], mode), [("all", allpairs(n)), ("ring", ring(n))])
    f.add("multi_plain_7", Flavour("multi", NAMES[:7], "plain"), [("all", allpairs(7))])
    # numbers of two digits
    f.add("basic_12_l", Flavour("gen", NAMES[:12], "basic"), [("all", allpairs(12)), ("ring", ring(12)), ("flood", flood(12))], True)
    f.add("multi_plain_12_l", Flavour("multi", NAMES[:12], "plain"), [("all", allpairs(12)), ("fan11", fan(12, 11))], True)
    f.write()

def choice_protos(fl, T, few=False):
    n = fl.n; out = []
    for c in range(n):
        d = (c + 1) % n
        if fl.enum_ok():
            # three branches with different shapes, one of them empty, one looping back
            out.append((f"enum{c}", [m(d, c), ch(c, "K", allpairs(n), [], [m(d, (c+2) % n if n > 2 else c), loop("K")])]))
            # everybody sends before receiving
            if n > 2 and c == n - 1: out.append((f"flood{c}", flood(n) + [ch(c, "K", flood(n), [m(d, c), loop("K")])]))
            # equal types in every branch: only the label distinguishes them
            if T or not few: out.append((f"same{c}", [ch(c, "K", fan(n, c), fan(n, c), fan(n, c) + [loop("K")])]))
            # choice inside a branch by another role, back to the outer one
            if T or c == 0: out.append((f"nest{c}", [ch(c, "K", [m(c, d), ch(d, "L", [m(d, c), loop("K")], [m(c, d), loop("L")], ring(n))], ring(n))]))
        if fl.lr_ok(c):
            out.append((f"lr{c}", [m(d, c), lr(c, "K", allpairs(n), [])]))
            out.append((f"lrsame{c}", [lr(c, "K", fan(n, c), fan(n, c))]))
            e = (c + n - 1) % n
            if fl.lr_ok(e) and (T or not few):
                out.append((f"lrnest{c}", [lr(c, "K", [m(c, e), lr(e, "L", fan(n, e), ring(n))], [lr(e, "M", ring(n), allpairs_rev(n))])]))
            if fl.enum_ok() and (T or c == n - 1):
                out.append((f"mix{c}", [ch(d, "K", [lr(c, "L", ring(n), fan(n, c))], [m(d, c), loop("K")])]))
    return out

def gen_c07(T):
    f = File("c07" + "_t"*T)
    def go(name, fl, few=False): f.add(name, fl, choice_protos(fl, T, few))
    go("fun", Flavour("fn", NAMES[:3])); go("meth", Flavour("meth", NAMES[:3])); go("simple", Flavour("simple", NAMES[:3]))
    for n in range(2, 6 if T else 5):
        for mode in MODES:
            if not T and n == 4 and mode in ("cancel",): continue
            go(f"{mode}_{n}", Flavour("gen", NAMES[:n], mode), few=n > 3)
        if n in (3, 4):
            for mode in ("plain", "cancel", "bundle"):
                if T or n == 3 or mode == "plain": go(f"multi_{mode}_{n}", Flavour("multi", NAMES[:n], mode), few=n > 3)
    go("odd_3", Flavour("gen", ODD[:3], "recursive"))
    # many branches, many roles
    def wide(n, c, k):
        d = (c + 1) % n
        return [m(d, c), ch(c, "K", *[[m(d, c), loop("K")] if i == k - 2 else [m(c, (c + 1 + i % (n - 1)) % n)] * (i % 3) for i in range(k)])]
    f.add("wide_fun", Flavour("fn", NAMES[:3]), [("seven", wide(3, 1, 7))])
    f.add("wide_gen", Flavour("gen", NAMES[:3], "basic"), [("nine", wide(3, 2, 9))])
    f.add("wide_multi", Flavour("multi", NAMES[:3], "plain"), [("six", wide(3, 0, 6))])
    n = 6
    f.add("many_gen", Flavour("gen", NAMES[:n], "recursive"), [("enum3", [m(4, 3), ch(3, "K", allpairs(n), [m(4, 3), loop("K")])]), ("lr5", [lr(5, "K", ring(n), [])])])
    f.add("many_multi", Flavour("multi", NAMES[:5], "plain"), [("enum2", [m(4, 3), ch(2, "K", allpairs(5), [m(3, 2), loop("K")])])])
    f.write()

def gen_c09(T):
    f = File("c09" + "_t"*T)
    def protos(fl, deep):
        n = fl.n
        out = [("ring", ring(n, 2 if T or n < 4 else 1)), ("fan0", fan(n, 0)), (f"fan{n-1}", fan(n, n-1)), ("none", [])]
        if deep: out.append(("all", allpairs(n)))
        if n == 3 and fl.kind != "atmp": out.append(("flood", flood(3)))
        for c in range(n):
            d = (c + 1) % n
            if fl.enum_ok() and (deep or c != 1):
                out.append((f"enum{c}", [m(d, c), ch(c, "K", ring(n), [], [m(d, (c+2) % n if n > 2 else c), loop("K")])]))
            if fl.lr_ok(c) and (deep or c == n - 1):
                out.append((f"lr{c}", [lr(c, "K", ring(n), [m(d, c)])]))
        if fl.enum_ok() and deep:
            out.append(("nest", [ch(0, "K", [m(0, 1), ch(1, "L", [m(1, 0), loop("K")], [])], [])]))
        return out
    def go(name, fl, deep=False): f.add(name, fl, protos(fl, deep or T))
    go("fun", Flavour("fn", NAMES[:3]), True); go("meth", Flavour("meth", NAMES[:3]), True)
    if T: go("simple", Flavour("simple", NAMES[:3]))
    for mode in MODES: go(f"{mode}_3", Flavour("gen", NAMES[:3], mode), mode == "rec_and_cancel")
    go("rec_and_cancel_2", Flavour("gen", NAMES[:2], "rec_and_cancel"))
    go("rec_and_cancel_4", Flavour("gen", NAMES[:4], "rec_and_cancel"))
    if T:
        go("recursive_4", Flavour("gen", NAMES[:4], "recursive"))
        go("rec_and_cancel_5", Flavour("gen", NAMES[:5], "rec_and_cancel"))
    for mode in ("plain", "cancel", "check"): go(f"multi_{mode}_3", Flavour("multi", NAMES[:3], mode))
    for n in (2, 3): go(f"timed_{n}", Flavour("atmp", NAMES[:n]))
    if T: go("multi_cancel_4", Flavour("multi", NAMES[:4], "cancel"))
    for n, nm_, fl in ((5, "rec_and_cancel_5", Flavour("gen", NAMES[:5], "rec_and_cancel")), (5, "multi_cancel_5", Flavour("multi", NAMES[:5], "cancel")), (4, "timed_4", Flavour("atmp", NAMES[:4]))):
        f.add(nm_ + "_l", fl, [("ring", ring(n)), (f"enum{n-1}", [ch(n-1, "K", [m(n-1, 1)], [m(0, n-1)])])], True)
    f.write()

def gen_c08(T):
    f = File("c08" + "_t"*T)
    fams = [("fun", Flavour("fn", NAMES[:3])), ("meth", Flavour("meth", NAMES[:3]))]
    for n in range(2, 6 if T else 5):
        for mode in MODES:
            if T and n < 5 or n < 4 or mode == "rec_and_cancel" or (T and mode == "recursive"): fams.append((f"{mode}_{n}", Flavour("gen", NAMES[:n], mode)))
    for n in (3, 4):
        for mode in ("plain", "cancel", "check"):
            if T or n < 4 or mode == "check": fams.append((f"multi_{mode}_{n}", Flavour("multi", NAMES[:n], mode)))
    for n in (2, 3, 4) if T else (2, 3): fams.append((f"timed_{n}", Flavour("atmp", NAMES[:n])))
    for nm_, fl in fams:
        n = fl.n
        ps = [("none", [])]
        if n < 5:
            for p in range(n):
                if T or n < 4 or p == n - 1: ps.append((f"last{p}", [m(p, (p+1) % n)]))
        if T or n < 4: ps.append(("ring", ring(n)))
        f.add(nm_, fl, ps)
    for n, nm_, fl in ((6, "recursive_6", Flavour("gen", NAMES[:6], "recursive")), (5, "multi_check_5", Flavour("multi", NAMES[:5], "check")), (5, "timed_5", Flavour("atmp", NAMES[:5]))):
        f.add(nm_ + "_l", fl, [("none", []), (f"last{n-1}", [m(n-1, 1)])], True)
    f.write()

def gen_c10(T):
    f = File("c10" + "_t"*T)
    for n in (3, 4, 5) if T else (3, 4):
        for mode in ("check", "cancel", "bundle", "gen"):
            if n == 5 and mode in ("cancel", "gen"): continue
            fl = Flavour("sup", NAMES[:n], mode)
            P = [(i, j) for i in range(1, n) for j in range(1, n) if i != j]
            rg = [m(i, i % (n-1) + 1) for i in range(1, n)]
            ps = [("none", []), ("ring", rg)]
            if n == 3: ps += [("two", [m(1, 2), m(2, 1), m(1, 2)])]
            if n == 4 and (T or mode == "check"): ps += [("pair", [m(1, 2)]), ("fan", [m(2, 1), m(2, 3)])]
            for c in range(1, n):
                d = c % (n-1) + 1
                if n == 3 or T and n < 5 or c == n - 1:
                    ps.append((f"enum{c}", [ch(c, "K", [m(c, d)], [], [m(d, c), loop("K")])] if n == 3 else [ch(c, "K", [m(c, d)], [])]))
            if n == 3: ps.append(("nest", [ch(1, "K", [ch(2, "L", [], [loop("K")])], [])])); ps.append(("again", [ch(1, "K", [loop("K")], [])]))
            f.add(f"{mode}_{n}", fl, ps)
    for n, mode in ((5, "check"), (5, "gen"), (6, "bundle")):
        f.add(f"{mode}_{n}_l", Flavour("sup", NAMES[:n], mode), [("none", []), ("ring", [m(i, i % (n-1) + 1) for i in range(1, n)]), (f"enum{n-1}", [ch(n - 1, "K", [m(n - 1, 1)], [])])], True)
    f.write()

def gen_c14(T):
    f = File("c14" + "_t"*T)
    def u(i, j): return ("m", i, j, "untimed")
    for n in (2, 3, 4) if T else (2, 3):
        fl = Flavour("atmp", NAMES[:n])
        ps = [("none", []), ("ring", ring(n)), ("fan0", fan(n, 0)), (f"fan{n-1}", fan(n, n-1))]
        if n == 3: ps += [("all", allpairs(3)), ("mixed", [u(0, 1), m(1, 2), u(2, 0), m(0, 2)])] + [(nm(b), b) for b in seqs(3, 2)]
        if n == 2: ps += [(nm(b), b) for k in (1, 2, 3) for b in seqs(2, k)] + [("mixed", [m(0, 1), u(1, 0), m(0, 1)])]
        for c in range(n):
            d, e = (c + 1) % n, (c + 2) % n if n > 2 else c
            if n < 4 or c == 1:
                ps.append((f"enum{c}", [m(d, c), ch(c, "K", ring(n), [], [m(d, e), loop("K")])]))
                ps.append((f"lr{c}", [m(d, c), lr(c, "K", ring(n), [m(d, e)])]))
            if n == 3: ps.append((f"nest{c}", [ch(c, "K", [m(c, d), ch(d, "L", [m(d, c), loop("K")], [])], [])]))
        f.add(f"timed_{n}", fl, ps)
    if not T: f.add("timed_4", Flavour("atmp", NAMES[:4]), [("all", allpairs(4)), ("enum1", [m(2, 1), ch(1, "K", ring(4), [], [m(2, 3), loop("K")])]), ("lr3", [m(0, 3), lr(3, "K", ring(4), [m(0, 1)])])])
    f.add("odd_3", Flavour("atmp", ODD[:3]), [("all", allpairs(3)), ("enum1", [ch(1, "K", ring(3), [m(1, 0), loop("K")])]), ("lr2", [lr(2, "K", ring(3), [])])])
    f.write()

# ------------------------------------------------------------------ two sessions, one shared participant
class Inter:
    """P: the two protocols, sh: the shared role in each, script: the order in which the shared
    participant acts. Script items: 1/2 (next action in that session), "c1"/"c2" (close it),
    (s, [scripts]) at a choice of session s, (s, "pick", i, script) a selection the program forces,
    ("def", f, script) / ("call", f)."""
    def __init__(self, fls, P, sh, script):
        self.fls, self.sh, self.script = fls, sh, script
        self.P = [number(b) for b in P]
        self.em = [Emit(fl, b) for fl, b in zip(fls, self.P)]
        self.timed = fls[0].timed()
        self.fns, self.sig = [], {}
    def tys(self, res): return [None if r is None else self.em[k].mc(self.sh[k], r[0][r[1]:], r[1]) for k, r in enumerate(res)]
    def skip(self, k, r):
        """next action of the shared role in session k"""
        b, o = r; p = self.sh[k]
        while o < len(b) and b[o][0] == "m" and p not in b[o][1:3]: o += 1
        if o < len(b) and b[o][0] == "loop": return [self.em[k].choices[b[o][1]]], 0
        return b, o
    def st(self, res, k, pos, id, send):
        live = "".join(f" s{q+1}.cancel();" for q in (0, 1) if res[q] is not None)
        o = f"if let Some(e) = c1.stop() {{ if e == mp::Stop::Cancel {{{live} }} return mp::after_stop(e); }}"
        if self.timed and k is not None:
            slot = CHOICE if id == 0 else pos
            o += f" c{k+1}.pace(k{k+1}, {slot*SLOT*1000 + (750 if send else 1000)}, true);"
        return o
    def code(self, fl, k, txt):
        """session k's variables instead of the plain ones"""
        return re.sub(r"\b([sk])\b(?=[.,)])", lambda m: m.group(1) + str(k + 1), txt)
    def prog(self, res, script):
        L = []; res = list(res)
        for item in script:
            if item in (1, 2):
                k = item - 1; fl = self.fls[k]; p = self.sh[k]
                b, o = self.skip(k, res[k]); a = b[o]
                assert a[0] == "m", (script, a)
                _, i, j, id = a; S = f"s{k+1}"; C = f"c{k+1}"
                if p == i: L.append(f"{self.st(res, k, o, id, True)} let v = {C}.val({id}); let {S} = {self.code(fl, k, fl.send(i, j, 'v'))}; {C}.sent({id}, {j});{self.clk(k, o, id)}")
                else: L.append(f"{self.st(res, k, o, id, False)} let (v, {S}): (i32, _) = {self.code(fl, k, fl.recv(j, i))}; {C}.got({id}, {i}, v);{self.clk(k, o, id)}")
                res[k] = (b, o + 1)
            elif item in ("c1", "c2"):
                L.append(self.close(res, int(item[1]) - 1)); res[int(item[1]) - 1] = None
            elif item[0] == "def":
                _, f, sub = item
                res = [None if r is None else self.skip(q, r) for q, r in enumerate(res)]
                self.sig[f] = [q for q in (0, 1) if res[q] is not None]
                t = self.tys(res); K = self.par_k()
                body = self.prog(res, sub)
                self.fns.append(f"fn {f}({''.join(f's{q+1}: {t[q]}, ' for q in self.sig[f])}mut c1: Ctx, mut c2: Ctx{K}) -> R {{ {body} }}")
                L.append(self.call(f)); return " ".join(L)
            elif item[0] == "call":
                L.append(self.call(item[1])); return " ".join(L)
            else:
                L.append(self.choice(res, item)); return " ".join(L)
        for k in (0, 1):
            if res[k] is not None: L.append(self.close(res, k)); res[k] = None
        return " ".join(L) + " Ok(())"
    def clk(self, k, pos, id): return f" c{k+1}.clk(k{k+1}, {self.fls[k].win(pos, id).split(', ')[-1]});" if self.timed else ""
    def par_k(self): return "".join(f", k{q}: &mut HashMap<char, Instant>" for q in (1, 2)) if self.timed else ""
    def call(self, f): return f"{f}({''.join(f's{q+1}, ' for q in self.sig[f])}c1, c2{', k1, k2' if self.timed else ''})"
    def close(self, res, k):
        b, o = self.skip(k, res[k]); assert o == len(b), (self.script, b[o:])
        return f"{self.st(res, None, 0, 0, False)} c{k+1}.closing(); s{k+1}.close()?; let _ = c{k+1}.closed();"
    def choice(self, res, item):
        k = item[0] - 1; fl = self.fls[k]; p = self.sh[k]; em = self.em[k]
        b, o = self.skip(k, res[k]); a = b[o]
        assert a[0] in ("e", "lr"), a
        kind, c, nm_, blocks = a
        S, C = f"s{k+1}", f"c{k+1}"
        def after(idx, sub):
            r = list(res); r[k] = (blocks[idx], 0)
            return f"{C}.branch(\"{nm_}\", {idx});{self.clk(k, 0, 0)} " + self.prog(r, sub)
        pre = self.st(res, k, o, 0, p == c)
        if p == c:
            def sel(idx):
                call = em.fl.choose_enum(c, [f"S{k+1}::K{nm_}{fl.roles[q]}::B{idx}" for q in range(fl.n) if q != c]) if kind == "e" else fl.choose_lr(c, ("left", "right")[idx], [])
                return f"let {S}: {em.mc(c, blocks[idx])} = {self.code(fl, k, call)};"
            if item[1] == "pick": return f"{pre} {C}.forced(\"{nm_}\", {item[2]}); {sel(item[2])} {after(item[2], item[3])}"
            arms = " ".join(f"{i} => {{ {sel(i)} {after(i, sub)} }}" for i, sub in enumerate(item[1]))
            return f"{pre} match {C}.pick(\"{nm_}\", {len(blocks)}, &{em.exits(nm_, blocks)}) {{ {arms} _ => unreachable!() }}"
        if kind == "e":
            arms = "{ " + " ".join(f"S{k+1}::K{nm_}{fl.roles[p]}::B{i}({S}) => {{ {after(i, sub)} }}," for i, sub in enumerate(item[1])) + " }"
            mac = f"offer_mpst!({S}, k{k+1}, {arms})" if self.timed else f"mpstthree::offer_mpst!({S}, {arms})"
            return f"{pre} {mac}"
        o2 = 1 - k; other = res[o2] is not None
        cl = []
        for i, sub in enumerate(item[1]):
            take = f"let (s{o2+1}, mut c1, mut c2{', k%d' % (o2+1) if self.timed else ''}) = rest.borrow_mut().take().unwrap(); " if other else f"let (mut c1, mut c2{', k%d' % (o2+1) if self.timed else ''}) = rest.borrow_mut().take().unwrap(); "
            cl.append(f"|{'k%d: &mut HashMap<char, Instant>, ' % (k+1) if self.timed else ''}{S}: {em.mc(p, blocks[i])}| {{ {take}{after(i, sub)} }}")
        cap = (f"s{o2+1}, " if other else "") + "c1, c2" + (f", k{o2+1}" if self.timed else "")
        return f"{pre} let rest = std::cell::RefCell::new(Some(({cap}))); let r: R = {self.code(fl, k, 's.offer(' + ('k, ' if self.timed else ''))}{cl[0]}, {cl[1]}).map_err(|e| mp::text(&*e).into()); r"
    def module(self, name):
        L = [f"pub mod {name} {{", "use super::*;"]
        for k, em in enumerate(self.em):
            fl = em.fl
            L += [f"pub mod S{k+1} {{", "use super::*;"]
            for nm_, a in em.choices.items():
                if a[0] != "e": continue
                for q in range(fl.n):
                    if q != a[1]: L.append(f"pub enum K{nm_}{fl.roles[q]} {{ " + ", ".join(f"B{i}({em.mc(q,b)})" for i, b in enumerate(a[3])) + " }")
            for p in range(fl.n):
                L.append(f"pub type T{p} = {em.mc(p, em.block)};")
                if p != self.sh[k]: L.append(f"pub fn role_{p}(s: T{p}, mut c: Ctx{fl.par()}) -> R {{ {'c.start(k); ' if fl.timed() else ''}{em.body(p, em.block)} }}")
            L += em.fns + em.items
            L.append(f"pub fn acts() -> Vec<Act> {{ {em.acts(em.block)} }}")
            L.append("}")
        K = self.par_k()
        self.imports = "".join(f"K{n_}{r}" for n_ in ())
        body = self.prog([(self.P[0], 0), (self.P[1], 0)], self.script)
        body = f"{'c1.start(k1); c2.start(k2); ' if self.timed else ''}{body}"
        # the choice enums of both sessions are named without a prefix in the types
        fix = lambda t: re.sub(r"(?<![:\w])K(\w+)\b(?=>|,)", lambda m: self.enum(m.group(0)), t)
        L += [fix(f) for f in self.fns]
        L.append(fix(f"fn shared(s1: S1::T{self.sh[0]}, s2: S2::T{self.sh[1]}, mut c1: Ctx, mut c2: Ctx{K}) -> R {{ {body} }}"))
        o = [(k, p) for k in (0, 1) for p in range(self.fls[k].n) if p != self.sh[k]]
        H = ", k: &mut HashMap<char, Instant>" if self.timed else ""
        H2 = ("move |s1: S1::T%d, k1: &mut HashMap<char, Instant>, s2: S2::T%d, k2: &mut HashMap<char, Instant>| shared(s1, s2, c1_%d, c2_%d, k1, k2)" if self.timed else "move |s1: S1::T%d, s2: S2::T%d| shared(s1, s2, c1_%d, c2_%d)") % (*self.sh, *self.sh)
        pat = [", ".join(f"c{k+1}_{p}" for p in range(self.fls[k].n)) for k in (0, 1)]
        L.append(f"pub fn run(c1: Vec<Ctx>, c2: Vec<Ctx>) -> Vec<std::thread::JoinHandle<()>> {{ let Ok([{pat[0]}]) = <[Ctx; {self.fls[0].n}]>::try_from(c1) else {{ panic!() }}; let Ok([{pat[1]}]) = <[Ctx; {self.fls[1].n}]>::try_from(c2) else {{ panic!() }}; "
                 + "let (" + "".join(f"h{k}_{p}, " for k, p in o) + "h) = fork_two(" + "".join(f"move |s: S{k+1}::T{p}{H}| S{k+1}::role_{p}(s, c{k+1}_{p}{', k' if self.timed else ''}), " for k, p in o) + H2 + "); vec![" + "".join(f"h{k}_{p}, " for k, p in o) + "h] }")
        L.append("}")
        return L
    def enum(self, t):
        for k, em in enumerate(self.em):
            for nm_, a in em.choices.items():
                if a[0] == "e" and any(t == f"K{nm_}{r}" for r in em.fl.roles): return f"S{k+1}::{t}"
        return t

class InterFile(File):
    def add(self, modname, kind, roles, sh, protos, large=False):
        """roles: of both sessions; protos: (name, P1, P2, script)"""
        fls = [Flavour(kind, R, "inter_cancel" if kind == "gen" else None, mesh=f"MC{k+1}") for k, R in enumerate(roles)]
        mode = "interleaved" if kind == "gen" else "atmp_interleaved"
        L = [f"pub mod {modname} {{", "use super::*;", "use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send};",
             "use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd};", "use either::Either;",
             "use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};", "use std::{collections::HashMap, time::Instant};",
             f'mpstthree::generate!("{mode}", MC1, {", ".join(roles[0])}, {sh[0]+1}, MC2, {", ".join(roles[1])}, {sh[1]+1}, fork_two);']
        for nm_, a, b, sc in protos:
            L += Inter(fls, [a, b], sh, sc).module(nm_)
            q = lambda R: ", ".join(f'"{r}"' for r in R)
            (self.large if large else self.cases).append(f"Case2 {{ name: \"{modname}/{nm_}\", roles: [&[{q(roles[0])}], &[{q(roles[1])}]], shared: [{sh[0]}, {sh[1]}], acts: [{modname}::{nm_}::S1::acts, {modname}::{nm_}::S2::acts], run: {modname}::{nm_}::run }}")
        L.append("}")
        self.mods.append("\n".join(L))

def actions(p, b): return [1 for a in b if a[0] == "m" and p in a[1:3]]
def merges(x, y):
    if not x or not y: return [x + y]
    return [[x[0]] + r for r in merges(x[1:], y)] + [[y[0]] + r for r in merges(x, y[1:])]
def alt(a, b):
    """one after the other in turn"""
    o = []
    while a or b:
        if a: o.append(a[0]); a = a[1:]
        if b: o.append(b[0]); b = b[1:]
    return o

def gen_c15(T):
    f = InterFile("c15" + "_t"*T); f.case = "Case2"
    R1, R2 = ["A", "B", "C", "D"], ["X", "Y", "Z", "W"]
    def acts(s, p, b): return [s] * len(actions(p, b))
    # every position of the shared participant, every pair of sizes
    for n1 in (2, 3, 4):
        for n2 in (2, 3, 4) if T else (2, 3):
            if not T and n1 == 4 and n2 == 3: continue
            for i in range(n1):
                for j in range(n2):
                    P = [("all", allpairs(n1), allpairs(n2)), ("ring", ring(n1, 2), ring(n2, 2)), ("rev", allpairs_rev(n1), ring(n2))]
                    if not T and n1 == 4: P = P[:1]
                    if not T and n1 + n2 == 6: P = P[1:]
                    ps = [("none", [], [], [])]
                    for nm_, a, b in P:
                        x, y = acts(1, i, a), acts(2, j, b)
                        ps.append((nm_ + "_alt", a, b, alt(x, y)))
                        if T or n1 < 4: ps.append((nm_ + "_after", a, b, y + ["c2"] + x))
                        if T or n1 + n2 == 4: ps.append((nm_ + "_first", a, b, x + y + ["c2", "c1"]))
                    f.add(f"pos_{n1}{n2}_{i}{j}", "gen", (R1[:n1], R2[:n2]), (i, j), ps)
    # every merge of every pair of two-party protocols
    for i in (0, 1):
        ps = []
        for a in seqs(2, 2):
            for b in seqs(2, 2):
                for k, sc in enumerate(merges(acts(1, i, a), acts(2, 1 - i, b))): ps.append((f"{nm(a)}_{nm(b)}_{k}", a, b, sc))
        f.add(f"merge_{i}", "gen", (["Zed", "B"], ["Mid", "Abc"]), (i, 1 - i), ps)
    # selections and loops
    for n1, n2 in ((2, 2), (3, 2), (2, 3), (3, 3)) if T else ((2, 2), (3, 2), (2, 3)):
        for i in range(n1):
            for j in range(n2):
                if not T and (n1 + n2 == 6 or n1 + n2 == 5 and (i + j) % 3 != n1 % 3): continue
                ps = []
                for c1 in range(n1):
                    for c2 in range(n2):
                        if not T and n1 + n2 > 4 and not (c1 == i or c2 == j): continue
                        if T and n1 + n2 == 6 and (c1 + c2 + i + j) % 3: continue
                        p = lambda b: acts(1, i, b)
                        q = lambda b: acts(2, j, b)
                        fa, fb, ra, rb = fan(n1, c1), fan(n2, c2), ring(n1), ring(n2)
                        # a selection in session one, then the same of session two in every branch
                        a = [ch(c1, "K", ra, [], fa + [loop("K")])]; b = rb
                        ps.append((f"one{c1}{c2}", a, b, [("def", "f", [(1, [p(ra) + q(b), q(b), p(fa) + [("call", "f")]])])]) if c2 == 0 else None)
                        # both select, one after the other
                        b = [ch(c2, "L", rb, fb)]
                        inner = lambda pre: [(2, [alt(pre, q(rb)), pre + q(fb)])]
                        a = [ch(c1, "K", ra, fa)]
                        ps.append((f"both{c1}{c2}", a, b, [(1, [inner(p(ra)), inner(p(fa))])]))
                        # both loop, independently
                        a = [ch(c1, "K", fa + [loop("K")], [])]; b = [ch(c2, "L", fb + [loop("L")], [])]
                        ps.append((f"loops{c1}{c2}", a, b, [("def", "f", [(1, [p(fa) + [("call", "f")], ["c1", ("def", "g", [(2, [q(fb) + [("call", "g")], []])])]])])]))
                        # in step: the shared participant follows one selection with its own
                        if c2 == j: ps.append((f"step{c1}{c2}", a, b, [("def", "f", [(1, [[(2, "pick", 0, alt(p(fa), q(fb)) + [("call", "f")])], [(2, "pick", 1, [])]])])]))
                        if T or n1 + n2 < 6:
                            a = [lr(c1, "K", ra, fa)]; b = [lr(c2, "L", rb, fb)]
                            ps.append((f"lr{c1}{c2}", a, b, [(1, [inner(p(ra)), inner(p(fa))])]))
                f.add(f"sel_{n1}{n2}_{i}{j}", "gen", (R1[:n1], R2[:n2]), (i, j), [x for x in ps if x])
    # timed sessions
    for n1, n2 in ((2, 2), (3, 2), (2, 3)) + (((3, 3),) if T else ()):
        for i in range(n1):
            for j in range(n2):
                if not T and n1 + n2 == 5 and (i, j) not in ((1, 0), (0, 1)) or n1 + n2 == 6 and i != j: continue
                p = lambda b: acts(1, i, b)
                q = lambda b: acts(2, j, b)
                def timed(a, b):
                    """actions of both sessions ordered by their position"""
                    o = sorted([(x, 1) for x, m_ in enumerate(a) if m_[0] == "m" and i in m_[1:3]] + [(x, 2) for x, m_ in enumerate(b) if m_[0] == "m" and j in m_[1:3]])
                    return [s for _, s in o]
                ps = [("none", [], [], [])]
                for nm_, a, b in (("ring", ring(n1), ring(n2)), ("fan", fan(n1, i), fan(n2, 1 - j if j < 2 else 0)), ("all", allpairs(n1)[:6], allpairs(n2)[:6])):
                    ps.append((nm_, a, b, timed(a, b)))
                for c1 in range(n1):
                    for c2 in range(n2):
                        if n1 + n2 > 4 and c1 != i and c2 != j: continue
                        if not T and n1 + n2 > 4 and c1 + c2 != n1 + n2 - 3 - (i + j): continue
                        ra, rb = ring(n1), ring(n2)
                        inner = lambda x, y: [(2, [timed(x, y), timed(x, [])])]
                        ps.append((f"both{c1}{c2}", [ch(c1, "K", ra, [])], [ch(c2, "L", rb, [])], [(1, [inner(ra, rb), inner([], rb)])]))
                        ps.append((f"lr{c1}{c2}", [lr(c1, "K", ra, [])], [lr(c2, "L", rb, [])], [(1, [inner(ra, rb), inner([], rb)])]))
                        ra, rb = fan(n1, c1), fan(n2, c2)
                        if c2 == j: ps.append((f"step{c1}{c2}", [ch(c1, "K", ra + [loop("K")], [])], [ch(c2, "L", rb + [loop("L")], [])], [("def", "f", [(1, [[(2, "pick", 0, timed(ra, rb) + [("call", "f")])], [(2, "pick", 1, [])]])])]))
                f.add(f"timed_{n1}{n2}_{i}{j}", "atmp", (R1[:n1], R2[:n2]), (i, j), ps)
    # more roles
    R1, R2 = R1 + ["E"], R2 + ["V"]
    for n1, n2, i, j in ((2, 4, 0, 3), (2, 4, 1, 1), (3, 4, 2, 0), (4, 3, 1, 2), (4, 3, 3, 1), (4, 4, 2, 2), (5, 2, 4, 0), (2, 5, 1, 3)) if not T else [(a, b, i, j) for a in (2, 3, 4, 5) for b in (2, 3, 4, 5) if 5 < a + b < 9 and max(a, b) > 3 for i in range(a) for j in range(b) if (i + j) % 2]:
        ps = [("ring_alt", ring(n1), ring(n2), alt(acts(1, i, ring(n1)), acts(2, j, ring(n2)))), ("fan_after", fan(n1, i), fan(n2, n2 - 1), acts(2, j, fan(n2, n2 - 1)) + acts(1, i, fan(n1, i)))]
        f.add(f"pos_{n1}{n2}_{i}{j}_l", "gen", (R1[:n1], R2[:n2]), (i, j), ps, True)
        if n1 + n2 == 7 or T:
            o = sorted([(x, 1) for x, m_ in enumerate(ring(n1)) if i in m_[1:3]] + [(x, 2) for x, m_ in enumerate(ring(n2)) if j in m_[1:3]])
            f.add(f"timed_{n1}{n2}_{i}{j}_l", "atmp", (R1[:n1], R2[:n2]), (i, j), [("ring", ring(n1), ring(n2), [s for _, s in o])], True)
    f.write()

# ------------------------------------------------------------------ one thread playing every role
class Solo:
    def __init__(self, fl, block, eager):
        self.fl, self.em, self.eager = fl, Emit(fl, block), eager
        self.fns, self.done = [], set()
        self.all = ", ".join(f"s_{p}" for p in range(fl.n))
    def order(self, b):
        """local actions (role, message) of a block's messages, sends first if eager"""
        ms = [a for a in b if a[0] == "m"]
        if not self.eager: return [x for a in ms for x in ((a[1], a, True), (a[2], a, False))]
        left = {p: [(p, a, p == a[1]) for a in ms if p in a[1:3]] for p in range(self.fl.n)}
        out, sent = [], set()
        while any(left.values()):
            heads = [q[0] for q in left.values() if q]
            x = next((h for h in heads if h[2]), None) or next(h for h in heads if h[1][3] in sent)
            if x[2]: sent.add(x[1][3])
            out.append(x); left[x[0]].pop(0)
        return out
    def body(self, b):
        fl = self.fl; L = []
        for p, (_, i, j, id), snd in self.order(b):
            sub = lambda t: re.sub(r"\bs\b(?=[.,)])", f"s_{p}", t)
            if snd: L.append(f"let v = c[{p}].val({id}); let s_{p} = {sub(fl.send(i, j, 'v'))}; c[{p}].sent({id}, {j});")
            else: L.append(f"let (v, s_{p}): (i32, _) = {sub(fl.recv(j, i))}; c[{p}].got({id}, {i}, v);")
        if b and b[-1][0] != "m":
            a = b[-1]
            if a[0] == "loop": k = a[1]
            else: k = a[2]; self.choice(a)
            L.append(f"f_{k}({self.all}, c)"); return " ".join(L)
        L.append("for x in c.iter_mut() { x.closing(); }")
        L.append(f"{'close_solo'}({self.all})?; for x in c.iter_mut() {{ let _ = x.closed(); }} Ok(())")
        return " ".join(L)
    def choice(self, a):
        _, c, k, blocks = a
        if k in self.done: return
        self.done.add(k)
        fl, em = self.fl, self.em; o = [q for q in range(fl.n) if q != c]
        arms = []
        for i, b in enumerate(blocks):
            call = re.sub(r"\bs\b(?=,)", f"s_{c}", em.fl.choose_enum(c, [f"K{k}{fl.roles[q]}::B{i}" for q in o]))
            off = ", ".join(f"s_{q}, " + (f"recv_mpst_{fl.low(q)}_from_{fl.low(c)}, " if fl.kind == "multi" else "") + f"K{k}{fl.roles[q]}::B{i}" for q in o)
            pat = f"({', '.join(f's_{q}' for q in o)},)"
            arms.append(f"{i} => {{ let s_{c}: {em.mc(c, b)} = {call}; let {pat} = mpstthree::offer_mpst_interleaved!({off}); for x in c.iter_mut() {{ x.branch(\"{k}\", {i}); }} {self.body(b)} }}")
        self.fns.append(f"fn f_{k}({', '.join(f's_{p}: {em.mc(p, [a])}' for p in range(fl.n))}, mut c: Vec<Ctx>) -> R {{ match c[{c}].pick(\"{k}\", {len(blocks)}, &{em.exits(k, blocks)}) {{ {' '.join(arms)} _ => unreachable!() }} }}")
    def module(self, name):
        fl, em = self.fl, self.em; n = fl.n
        L = [f"pub mod {name} {{", "use super::*;"]
        for k, a in em.choices.items():
            for q in range(n):
                if q != a[1]: L.append(f"pub enum K{k}{fl.roles[q]} {{ " + ", ".join(f"B{i}({em.mc(q,b)})" for i, b in enumerate(a[3])) + " }")
        body = self.body(em.block)
        L += self.fns
        L.append(f"fn all({', '.join(f's_{p}: {em.mc(p, em.block)}' for p in range(n))}, mut c: Vec<Ctx>) -> R {{ {body} }}")
        L.append(f"pub fn run(c: Vec<Ctx>) -> Vec<std::thread::JoinHandle<()>> {{ mp::solo({n}, fork_solo(move |{self.all}| all({self.all}, c))) }}")
        L.append(f"pub fn acts() -> Vec<Act> {{ {em.acts(em.block)} }}")
        L.append("}")
        return L

def gen_c15_solo(T):
    f = File("c15_solo" + "_t"*T)
    for kind, n in [("gen", 2), ("gen", 3), ("gen", 4), ("multi", 3), ("multi", 4), ("simple", 3)] + ([("gen", 5), ("multi", 5)] if T else []):
        fl = Flavour(kind, NAMES[:n], {"gen": "rec_and_cancel", "multi": "plain"}.get(kind))
        L = [f"pub mod {kind}_{n} {{"] + fl.header()
        if kind == "simple": L.append("use mpstthree::interleaved::{fork::fork_mpst_solo as fork_solo, close::close_mpst_interleaved as close_solo};")
        else: L += [f"mpstthree::fork_mpst_multi_solo!(fork_solo, MC, {n});", f"mpstthree::close_mpst_interleaved!(close_solo, MC, {n});"]
        ps = [("none", []), ("all", allpairs(n)), ("rev", allpairs_rev(n)), ("ring", ring(n, 2))] + [(f"fan{c}", fan(n, c)) for c in range(n)]
        if fl.enum_ok(): ps += [(f"enum{c}", [ch(c, "K", fan(n, c) + [loop("K")], [], [m(c, (c+1) % n), ch((c+1) % n, "L", [loop("K")], fan(n, c))])]) for c in range(n)]
        for nm_, b in ps:
            for eager in (False, True):
                nn = nm_ + "_eager" * eager
                L += Solo(fl, number(b), eager).module(nn)
                self_roles = ", ".join(f'"{r}"' for r in fl.roles)
                f.cases.append(f"Case {{ name: \"solo/{kind}_{n}/{nn}\", roles: &[{self_roles}], supervised: false, acts: {kind}_{n}::{nn}::acts, run: {kind}_{n}::{nn}::run }}")
        L.append("}")
        f.mods.append("\n".join(L))
    f.write()

def gen_c22(T):
    """Launchers of participants that only close: (name, number of participants, function)."""
    mods, table = [], []
    def mod(name, fl, timed=False):
        n = fl.n; R = fl.roles
        L = [f"pub mod {name} {{"] + fl.header()
        ty = lambda p: f"{fl.mesh()}<{', '.join(['End'] * (n - 1))}, RoleEnd, Name{R[p]}>"
        cl = fl.close() if fl.kind != "sup" else "close_mpst(s)"
        k = ", k: &mut HashMap<char, Instant>" if timed else ""
        L.append(f"pub fn run(ps: Vec<P>) -> Vec<std::thread::JoinHandle<()>> {{ let Ok([{', '.join(f'p{p}' for p in range(n))}]) = <[P; {n}]>::try_from(ps) else {{ panic!() }}; let ({', '.join(f'h{p}' for p in range(n))}) = fork_mpst("
                 + ", ".join(f"move |s: {ty(p)}{k}| {{ {'assert!(k.is_empty()); ' if timed else ''}p{p}.act(s, \"{R[p]}\", |s| {cl}) }}" for p in range(n)) + f"); vec![{', '.join(f'h{p}' for p in range(n))}] }}")
        L.append("}")
        mods.append("\n".join(L)); table.append((name, n, f"{name}::run"))
    mod("fun", Flavour("fn", NAMES[:3])); mod("meth", Flavour("meth", NAMES[:3]))
    for n in range(2, 6 if T else 5):
        for mode in MODES: mod(f"{mode}_{n}", Flavour("gen", NAMES[:n], mode))
        mod(f"timed_{n}", Flavour("atmp", NAMES[:n]), True)
        if n > 2:
            for mode in ("plain", "cancel", "bundle", "check"): mod(f"multi_{mode}_{n}", Flavour("multi", NAMES[:n], mode))
    R1, R2 = ["A", "B", "C"], ["X", "Y", "Z"]
    for n1 in (2, 3):
        for n2 in (2, 3):
            for i in range(n1):
                for j in range(n2):
                    for timed in (False, True):
                        if not T and n1 + n2 == 6 and i != j: continue
                        name = f"two_{'timed_' * timed}{n1}{n2}_{i}{j}"
                        mode = "atmp_interleaved" if timed else "interleaved"
                        L = [f"pub mod {name} {{", "use super::*;", "use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send};", "use mpstthree::role::end::RoleEnd;", "use std::{collections::HashMap, time::Instant};",
                             f'mpstthree::generate!("{mode}", MC1, {", ".join(R1[:n1])}, {i+1}, MC2, {", ".join(R2[:n2])}, {j+1}, fork_two);']
                        ty = lambda k, p: f"MC{k+1}<{', '.join(['End'] * ((n1, n2)[k] - 1))}, RoleEnd, Name{(R1, R2)[k][p]}>"
                        o = [(0, p) for p in range(n1) if p != i] + [(1, p) for p in range(n2) if p != j]
                        K = ", k: &mut HashMap<char, Instant>" if timed else ""
                        fs = [f"move |s: {ty(k, p)}{K}| {{ {'assert!(k.is_empty()); ' if timed else ''}p{x}.act(s, \"{(R1, R2)[k][p]}\", |s| s.close()) }}" for x, (k, p) in enumerate(o)]
                        n = len(o) + 1
                        K1, K2 = ((f", k{q}: &mut HashMap<char, Instant>" for q in (1, 2)) if timed else ("", ""))
                        fs.append(f"move |s: {ty(0, i)}{K1}, t: {ty(1, j)}{K2}| {{ p{n-1}.act((s, t), \"{R1[i]}{R2[j]}\", |(s, t)| {{ s.close()?; t.close() }}) }}")
                        L.append(f"pub fn run(ps: Vec<P>) -> Vec<std::thread::JoinHandle<()>> {{ let Ok([{', '.join(f'p{p}' for p in range(n))}]) = <[P; {n}]>::try_from(ps) else {{ panic!() }}; let ({', '.join(f'h{p}' for p in range(n))}) = fork_two({', '.join(fs)}); vec![{', '.join(f'h{p}' for p in range(n))}] }}")
                        L.append("}")
                        mods.append("\n".join(L)); table.append((name, n, f"{name}::run"))
    t = "// Generated by tools/mpgen.py; do not edit.\n#![allow(warnings)]\nuse super::P;\n" + "\n".join(mods)
    t += "\npub fn launchers() -> Vec<(&'static str, usize, fn(Vec<P>) -> Vec<std::thread::JoinHandle<()>>)> { vec![\n" + ",\n".join(f'("{a}", {n}, {f})' for a, n, f in table) + "\n] }\n"
    f = os.path.join(OUT, "c22" + "_t"*T + ".rs")
    if not os.path.exists(f) or open(f).read() != t: open(f, "w").write(t)

def describe(t):
    """(head, tail) of a session or stack type given as text"""
    i = t.find("<")
    if i < 0: return t, ""
    head, args, d, cur = t[:i], [], 0, ""
    for ch_ in t[i+1:-1]:
        d += (ch_ == "<") - (ch_ == ">") + (ch_ == "(") - (ch_ == ")")
        if ch_ == "," and d == 0: args.append(cur.strip()); cur = ""
        else: cur += ch_
    args.append(cur.strip())
    full = lambda x: "{}<{}>".format(*describe(x))
    if head in ("Send", "Recv"): return head, full(args[-1])
    if head in ("SendTimed", "RecvTimed"): return head[:4], full(args[-1])
    return head, " + ".join(full(a) for a in args)

def gen_c23(T):
    """Endpoints of generated meshes with the description their types dictate."""
    L = ["// Generated by tools/mpgen.py; do not edit.", "#![allow(warnings)]", "use super::Chk;"]
    calls = []
    def add(name, fl, protos, fork):
        n = fl.n
        L.append(f"pub mod {name} {{"); L.extend(fl.header()); L.append(fork)
        L.append("use mpstthree::binary::struct_trait::session::Session;")
        for nm_, b in protos:
            em = Emit(fl, number(b))
            ts = [em.mc(p, em.block) for p in range(n)]
            ks = []
            for k, a in em.choices.items():
                if a[0] == "e": ks += [f"pub enum K{k}{fl.roles[q]} {{ " + ", ".join(f"B{i}({em.mc(q,x)})" for i, x in enumerate(a[3])) + " }" for q in range(n) if q != a[1]]
            L.append(f"pub mod {nm_} {{ use super::*;"); L.extend(ks)
            body = []
            for p in range(n):
                S, st = em.ty(p, em.block)
                parts = [describe(S[q]) for q in sorted(S)] + [describe(st), (f"Name{fl.roles[p]}", "")]
                h = "\\n".join(x[0] for x in parts); t = "\\n".join(f"{x[0]}<{x[1]}>" for x in parts)
                L.append(f"pub type T{p} = {ts[p]};")
                body.append(f'k.chk("{name}/{nm_} {fl.roles[p]}", [T{p}::head_str(), T{p}::tail_str(), s{p}.self_head_str(), s{p}.self_tail_str()], "{h}", "{t}");')
            A = ", ".join(f"s{p}: T{p}" for p in range(n))
            L.append(f"pub fn run() -> Chk {{ let out = std::sync::Arc::new(std::sync::Mutex::new(Chk::default())); let o = out.clone(); fork_solo(move |{A}| {{ let mut k = o.lock().unwrap(); {' '.join(body)} Ok(()) }}).unwrap(); let r = out.lock().unwrap().clone(); r }}")
            L.append("}")
            calls.append(f"{name}::{nm_}::run")
        L.append("}")
    for n in (2, 3, 4, 5, 6) if T else (2, 3, 4, 5):
        fam = [("none", []), ("all", allpairs(n)), ("rev", allpairs_rev(n)), ("ring", ring(n, 2))] + [(f"fan{c}", fan(n, c)) for c in range(n)]
        if n < 4: fam += [(nm(b), b) for b in seqs(n, 2)]
        fam += [(f"enum{c}", [m((c+1) % n, c), ch(c, "K", ring(n), [])]) for c in range(n)]
        lrs = [(f"lr{c}", [m((c+1) % n, c), lr(c, "K", ring(n), [lr((c+1) % n, "L", fan(n, c), [])][:1])]) for c in range(n)]
        fork = f"mpstthree::fork_mpst_multi_solo!(fork_solo, MC, {n});"
        for mode in MODES: add(f"{mode}_{n}", Flavour("gen", NAMES[:n], mode), fam + lrs, fork) if T or n < 4 or mode == "basic" else None
        add(f"timed_{n}", Flavour("atmp", NAMES[:n]), fam + (lrs if n < 4 else []), fork)
        if n in (3, 4): add(f"multi_{n}", Flavour("multi", NAMES[:n], "plain"), fam + lrs, fork); add(f"short_{n}", Flavour("short", ODD[:n], "plain"), fam + lrs, fork)
    fam = [(nm(b), b) for k in (0, 1, 2, 3 if T else 2) for b in seqs(3, k)][:None if T else 60]
    fam = list(dict(fam).items())
    add("fun", Flavour("fn", NAMES[:3]), fam + [(f"enum{c}", [ch(c, "K", ring(3), [])]) for c in range(3)] + [(f"lr{c}", [lr(c, "K", ring(3), fan(3, c))]) for c in range(3)], "use mpstthree::interleaved::fork::fork_mpst_solo as fork_solo;")
    L.append("pub fn all() -> Vec<fn() -> Chk> { vec![" + ", ".join(calls) + "] }")
    t = "\n".join(L) + "\n"
    f = os.path.join(OUT, "c23" + "_t"*T + ".rs")
    if not os.path.exists(f) or open(f).read() != t: open(f, "w").write(t)

def main():
    for T in (False, True):
        gen_c05(T); gen_c06(T); gen_c07(T); gen_c08(T); gen_c09(T); gen_c10(T); gen_c14(T); gen_c15(T); gen_c15_solo(T); gen_c22(T); gen_c23(T)
if __name__ == "__main__":
    main()
