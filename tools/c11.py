#!/usr/bin/env python3
"""C11: the compiler as a transition relation.

The states are endpoint types (every combination of channel heads, stack and name within a bound), the actions are
the operations of each flavour of the library. For every (state, action) a one-line function is compiled against the
library of /repo's working tree; it has to be accepted exactly when the reference automaton has that transition, and
then its result has to have the type the automaton prescribes. The compiler is run once per group of functions."""
import argparse, itertools, json, os, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mpgen import Flavour
VERIF = os.environ.get("VERIF_DIR", "/verif")

class Group:
    """functions compiled together; `cases`: (line, accept, description)"""
    def __init__(self, name, header):
        self.name = name
        self.lines = ["#![allow(warnings)]", "use std::error::Error;", "type Res<T> = Result<T, Box<dyn Error>>;", "fn any<T>() -> T { loop {} }"] + header
        self.cases = {}
        self.seen = {"accept": 0, "reject": 0}
    def test(self, accept, what, body, params, ret="()"):
        """body: the statements of one function"""
        k = len(self.cases)
        line = f"fn t{k}({params}) -> Res<{ret}> {{ {body} }}"
        key = (line.split("(", 1)[1])
        assert "\n" not in line
        self.lines.append(line)
        self.cases[len(self.lines)] = (accept, f"{self.name}: {what}", line)
        self.seen["accept" if accept else "reject"] += 1
    def add(self, item): self.lines += item.split("\n")

def group_mpst(fl, name, th):
    n, R, M = fl.n, fl.roles, fl.mesh()
    hdr = [l for l in fl.header() if l != "use super::*;"]
    if fl.timed(): hdr = [h.replace("HashMap, time::Instant", "HashMap, time::Instant") for h in hdr]
    g = Group(name, hdr)
    timed = fl.timed()
    W = "'a', 0, true, 10, true, ' '"
    S = (lambda t, k: f"SendTimed<{t}, {W}, {k}>") if timed else (lambda t, k: f"Send<{t}, {k}>")
    V = (lambda t, k: f"RecvTimed<{t}, {W}, {k}>") if timed else (lambda t, k: f"Recv<{t}, {k}>")
    def ty(c):
        if c == (): return "End"
        h, t = c[0], c[1:]
        return (S if h[0] == "!" else V)(h[1], ty(t))
    def stk(s):
        if s == (): return "RoleEnd"
        if s == "bc": return "RoleBroadcast"
        return f"Role{R[s[0]]}<{stk(s[1:])}>"
    def mesh(p, ch, s): return f"{M}<{', '.join(ty(c) for c in ch)}, {stk(s)}, Name{R[p]}>"
    s_, r_ = ("!", "i32"), ("?", "i32")
    heads = [(), (s_,), (r_,)]
    tails = [(s_, r_), (r_, s_), (s_, s_), (r_, ("?", "u8"))]
    meth = fl.kind in ("meth", "gen", "atmp")
    k = ", k: &mut HashMap<char, Instant>" if timed else ""
    first = fl.first()
    others = lambda p: [q for q in range(n) if q != p]
    def ops(p_state):
        """quick: of the functions for other roles only those of the next role, or towards this one"""
        if meth:
            yield ("send", None, None)
            yield ("recv", None, None)
        else:
            for p in range(first, n):
                for q in range(first, n):
                    if p != q and (th or p == p_state or p == (p_state + 1) % n or q == p_state and n > 3):
                        yield ("send", p, q)
                        yield ("recv", p, q)
        yield ("close", None, None)
    def call(op, p, q, v="1i32"):
        if op == "send": return fl.send(p or 0, q or 0, v)
        if op == "recv": return fl.recv(p or 0, q or 0)
        return fl.close()
    def step(op, p, ch, s, fp, fq):
        """the reference automaton: the next state, "done", or None"""
        if op == "close": return "done" if s == () and all(c == () for c in ch) else None
        if s in ((), "bc") or s[0] == p: return None
        q = s[0]
        if fp is not None and (fp, fq) != (p, q): return None
        i = others(p).index(q)
        if not ch[i] or ch[i][0][0] != ("!" if op == "send" else "?"): return None
        nch = list(ch); nch[i] = ch[i][1:]
        return (p, tuple(nch), s[1:]), ch[i][0][1]
    def emit(p, ch, s):
        st = mesh(p, ch, s)
        for op, fp, fq in ops(p):
            nx = step(op, p, ch, s, fp, fq)
            what = f"{call(op, fp, fq)} at {st}"
            if nx is None:
                g.test(False, what, f"let _r = {call(op, fp, fq)}; any()", f"s: {st}{k}")
            elif nx == "done":
                g.test(True, what, call(op, fp, fq), f"s: {st}{k}")
            else:
                nt = mesh(*nx[0])
                val = {"i32": "1i32", "u8": "1u8"}[nx[1]]
                if op == "send":
                    g.test(True, what, f"let r: {nt} = {call(op, fp, fq, val)}; any()", f"s: {st}{k}")
                    g.test(False, what + " with another payload", f"let _r = {call(op, fp, fq, 'false')}; any()", f"s: {st}{k}")
                    if th: g.test(False, what + " with another payload", f"let _r = {call(op, fp, fq, '()')}; any()", f"s: {st}{k}")
                    # each session is used once
                else:
                    g.test(True, what, f"let (v, r): ({nx[1]}, {nt}) = {call(op, fp, fq)}; any()", f"s: {st}{k}")
    stacks = [(), "bc"] + [(q,) for q in range(n)] + [(q, r) for q in range(n) for r in range(n) if q != r]
    if not th and n > 3: stacks = [(), "bc"] + [(q,) for q in range(n)]
    for p in range(first, n):
        # the first session of a supervised endpoint leads to the broadcaster
        for ch in itertools.product(*[heads if first == 0 or q > 0 else [()] for q in others(p)]):
            if n > 3 and not th and sum(c != () for c in ch) > 2: continue
            for s in stacks:
                if not meth and not th and s not in ((), "bc") and len(s) > 1 and s[0] == p: continue
                emit(p, ch, s)
        # where a session goes on after its head
        for i, q in enumerate(others(p)):
            if q < first: continue
            for t in tails:
                for rest in [(), (s_,), (r_,)] if n <= 3 or th else [()]:
                    for s in [(q,), (q, q)] + [(q, r) for r in others(p) if r != q and r >= first]:
                        ch = [rest if r >= first else () for r in others(p)]; ch[i] = t
                        emit(p, tuple(ch), s)
    return g

def group_enum(fl, name, th):
    """choices through an enumeration: every chooser, every receiver, against every state of a bound"""
    n, R, M = fl.n, fl.roles, fl.mesh()
    g = Group(name, [l for l in fl.header() if l != "use super::*;"])
    timed = fl.timed()
    W = "'a', 0, true, 10, true, ' '"
    S = (lambda t, k: f"SendTimed<{t}, {W}, {k}>") if timed else (lambda t, k: f"Send<{t}, {k}>")
    V = (lambda t, k: f"RecvTimed<{t}, {W}, {k}>") if timed else (lambda t, k: f"Recv<{t}, {k}>")
    others = lambda p: [q for q in range(n) if q != p]
    def branch(p, c, b):
        """role p in branch b of c's choice: 0 ends, 1 has a message from c to everybody"""
        ch = ["End"] * (n - 1)
        st = "RoleEnd"
        if b == 1:
            if p == c:
                ch = [S("i32", "End") for _ in others(c)]
                for q in reversed(others(c)): st = f"Role{R[q]}<{st}>"
            else:
                ch[others(p).index(c)] = V("i32", "End")
                st = f"Role{R[c]}<RoleEnd>"
        return f"{M}<{', '.join(ch)}, {st}, Name{R[p]}>"
    for c in range(n):
        for q in others(c): g.add(f"enum K{R[c]}{R[q]} {{ B0({branch(q, c, 0)}), B1({branch(q, c, 1)}) }}")
    k = ", k: &mut HashMap<char, Instant>" if timed else ""
    def heads(p, q):
        """what p's channel with q may begin with: nothing, an integer, p's own choice, q's, and the third role's"""
        x = [r for r in range(n) if r not in (p, q)]
        v = [("End", None), (S("i32", "End"), None), (S(f"K{R[p]}{R[q]}", "End"), ("own", q)), (V(f"K{R[q]}{R[p]}", "End"), ("offer", q))]
        if x: v += [(S(f"K{R[p]}{R[x[0]]}", "End"), None), (V(f"K{R[x[0]]}{R[p]}", "End"), ("third", x[0]))]
        if th: v += [(V("i32", "End"), None)] + ([(S(f"K{R[x[0]]}{R[q]}", "End"), None)] if x else [])
        return v
    for p in range(n):
        for hs in itertools.product(*[heads(p, q) for q in others(p)]):
            for st in ["RoleEnd", "RoleBroadcast"] + [f"Role{R[q]}<RoleEnd>" for q in range(n)]:
                ty = f"{M}<{', '.join(h[0] for h in hs)}, {st}, Name{R[p]}>"
                for c in range(n) if th else (p, (p + 1) % n):
                    ok = c == p and st == "RoleBroadcast" and all(h[1] == ("own", q) for h, q in zip(hs, others(p)))
                    for b in (0, 1):
                        call = fl.choose_enum(c, [f"K{R[c]}{R[q]}::B{b}" for q in others(c)])
                        if ok: g.test(True, f"{call} at {ty}", f"let r: {branch(c, c, b)} = {call}; any()", f"s: {ty}{k}")
                        else: g.test(False, f"{call} at {ty}", f"let _r = {call}; any()", f"s: {ty}{k}")
                    if ok and n > 2:
                        call = fl.choose_enum(c, [f"K{R[c]}{R[q]}::B0" for q in reversed(others(c))])
                        g.test(False, f"{call} at {ty}", f"let _r = {call}; any()", f"s: {ty}{k}")
                # offers: the receive functions are per pair, the methods only per endpoint
                meth = fl.kind in ("meth", "gen", "atmp")
                for a in ((range(n) if th else (p, (p + 2) % n)) if not (meth and fl.kind != "meth") else [p]):
                    for c in others(a):
                        arms = [(f"K{R[c]}{R[a]}::B{b}(s)", f"let _s: {branch(a, c, b)} = s; Ok(())") for b in (0, 1)]
                        call = fl.offer_enum(a, c, arms)
                        ok = a == p and st == f"Role{R[c]}<RoleEnd>" and hs[others(p).index(c)][1] == ("offer", c)
                        # a choice of the third role received from the peer carries the same branches
                        if meth and a == p and st.startswith("Role") and not ok:
                            q = [x for x in others(p) if st == f"Role{R[x]}<RoleEnd>"]
                            if q and hs[others(p).index(q[0])][1] == ("third", c): ok = True if fl.kind != "meth" else False
                        g.test(ok, f"{call} at {ty}", f"let r: Result<(), Box<dyn Error>> = {call}; r", f"s: {ty}{k}")
    return g

def group_either(fl, name, th):
    """two-way choices: every chooser and receiver against every state of a bound"""
    n, R, M = fl.n, fl.roles, fl.mesh()
    g = Group(name, [l for l in fl.header() if l != "use super::*;"])
    timed = fl.timed()
    W = "'a', 0, true, 10, true, ' '"
    S = (lambda t, k: f"SendTimed<{t}, {W}, {k}>") if timed else (lambda t, k: f"Send<{t}, {k}>")
    V = (lambda t, k: f"RecvTimed<{t}, {W}, {k}>") if timed else (lambda t, k: f"Recv<{t}, {k}>")
    others = lambda p: [q for q in range(n) if q != p]
    def parts(p, c, b):
        ch = {q: "End" for q in others(p)}
        st = "RoleEnd"
        if b == 1:
            if p == c:
                ch = {q: S("i32", "End") for q in others(c)}
                for q in reversed(others(c)): st = f"Role{R[q]}<{st}>"
            else:
                ch[c] = V("i32", "End")
                st = f"Role{R[c]}<RoleEnd>"
        return ch, st
    def branch(p, c, b):
        ch, st = parts(p, c, b)
        return f"{M}<{', '.join(ch[q] for q in others(p))}, {st}, Name{R[p]}>"
    for c in range(n):
        for q in others(c): g.add(f"type L{R[c]}{R[q]} = Either<{branch(q, c, 0)}, {branch(q, c, 1)}>;")
    dual = lambda p, c, b: f"<{parts(p, c, b)[1]} as mpstthree::role::Role>::Dual"
    def targs(c):
        if fl.kind in ("gen", "meth", "atmp"): return []
        o = others(c)
        if fl.kind in ("fn", "simple"):
            a, b = o
            return [parts(b, c, 0)[0][a], parts(b, c, 1)[0][a], parts(c, c, 0)[0][a], parts(c, c, 0)[0][b], parts(c, c, 1)[0][a], parts(c, c, 1)[0][b],
                    dual(a, c, 0), dual(a, c, 1), dual(b, c, 0), dual(b, c, 1), parts(c, c, 0)[1], parts(c, c, 1)[1]]
        t = []
        for blk in (0, 1): t += [parts(i, c, blk)[0][j] for i in range(n) for j in range(i + 1, n)]
        for q in o: t += [dual(q, c, 0), dual(q, c, 1), "Name" + R[q]]
        return t + [parts(c, c, 0)[1], parts(c, c, 1)[1]]
    k = ", k: &mut HashMap<char, Instant>" if timed else ""
    kk = "k: &mut HashMap<char, Instant>, " if timed else ""
    toall = lambda c: f"Role{R[c]}toAll<{parts(c, c, 0)[1]}, {parts(c, c, 1)[1]}>"
    def heads(p, q):
        x = [r for r in range(n) if r not in (p, q)]
        v = [("End", None), (S(f"L{R[p]}{R[q]}", "End"), ("own", q)), (V(f"L{R[q]}{R[p]}", "End"), ("offer", q))]
        if th: v += [(S("i32", "End"), None), (S(f"L{R[q]}{R[p]}", "End"), None)]
        return v
    meth = fl.kind in ("meth", "gen", "atmp")
    for p in range(n):
        stacks = ["RoleEnd", "RoleBroadcast"] + [f"Role{R[q]}<RoleEnd>" for q in others(p)] + [f"RoleAllto{R[q]}<RoleEnd, RoleEnd>" for q in range(n)] + [toall(q) for q in range(n)]
        if fl.kind in ("simple",): stacks.remove("RoleBroadcast")
        for hs in itertools.product(*[heads(p, q) for q in others(p)]):
            for st in stacks:
                ty = f"{M}<{', '.join(h[0] for h in hs)}, {st}, Name{R[p]}>"
                own = st == toall(p) and all(h[1] == ("own", q) for h, q in zip(hs, others(p)))
                for c in [p] if meth else range(n) if th else (p, (p + 1) % n):
                    if not fl.lr_ok(c): continue
                    for b, side in enumerate(("left", "right")):
                        call = fl.choose_lr(c, side, targs(c))
                        ok = own and c == p
                        g.test(ok, f"{call} at {ty}", f"let r: {branch(c, c, b)} = {call}; any()" if ok else f"let _r = {call}; any()", f"s: {ty}{k}")
                for a in [p] if meth else range(n) if th else (p, (p + 2) % n):
                    for c in others(a):
                        f = lambda b, swap=0: f"|{kk}s: {branch(a, c, b ^ swap)}| -> Res<u8> {{ any() }}"
                        i = others(p).index(c) if a == p else None
                        ok = a == p and st == f"RoleAllto{R[c]}<RoleEnd, RoleEnd>" and hs[i][1] == ("offer", c)
                        # some flavours offer only where the other sessions are finished: left open
                        if ok and any(h[0] != "End" for j, h in enumerate(hs) if j != i): continue
                        call = fl.offer_lr(a, c, f(0), f(1))
                        g.test(ok, f"{call} at {ty}", f"let r: Result<u8, Box<dyn Error>> = {call}; any()", f"s: {ty}{k}")
                        if ok:
                            call = fl.offer_lr(a, c, f(0, 1), f(1, 1))
                            g.test(False, f"{call} at {ty}", f"let r: Result<u8, Box<dyn Error>> = {call}; any()", f"s: {ty}{k}")
    return g


WIN = "'a', 0, true, 10, true, ' '"
class Types:
    def __init__(self, fl):
        self.fl, self.t = fl, fl.timed()
        self.k = ", k: &mut HashMap<char, Instant>" if self.t else ""
        self.par = ", k: &mut HashMap<char, Instant>" if self.t else ""
    def ty(self, c, win=WIN):
        if c == (): return "End"
        h, t = c[0], c[1:]
        d = "Send" if h[0] == "!" else "Recv"
        return f"{d}Timed<{h[1]}, {win}, {self.ty(t)}>" if self.t else f"{d}<{h[1]}, {self.ty(t)}>"
    def mesh(self, p, ch, stack): return f"{self.fl.mesh()}<{', '.join(ch)}, {stack}, Name{self.fl.roles[p]}>"
def dual(c): return tuple((("?" if h[0] == "!" else "!"), h[1]) for h in c)
def others(n, p): return [q for q in range(n) if q != p]
def hdr(fl): return [l for l in fl.header() if l != "use super::*;"]

def group_all(fl, name, th):
    """the receive of a broadcast message, and the other operations at a broadcast stack"""
    n, R, T = fl.n, fl.roles, Types(fl)
    g = Group(name, hdr(fl))
    fn = fl.kind == "fn"
    for p in range(n):
        stacks = [("RoleEnd", None), ("RoleBroadcast", None)]
        for q in range(n):
            stacks += [(f"Role{R[q]}<RoleEnd>", None), (f"RoleAllto{R[q]}<RoleEnd, RoleEnd>", q), (f"RoleAllto{R[q]}<Role{R[q]}<RoleEnd>, RoleEnd>", None), (f"Role{R[q]}toAll<RoleEnd, RoleEnd>", None)]
        for ch in itertools.product(*[[(), (("!", "i32"),), (("?", "i32"),)] for _ in others(n, p)]):
            for st, q in stacks:
                ty = T.mesh(p, [T.ty(c) for c in ch], st)
                for a, b in [(p, None)] if not fn else [(a, b) for a in range(n) for b in others(n, a)]:
                    call = f"recv_mpst_{fl.low(a)}_all_from_{fl.low(b)}(s)?" if fn else {"atmp": "s.recv_from_all(k)?", "meth": "s.recv_from_all()?"}.get(fl.kind, "s.recv_from_all()" + ("" if fl.mode in ("basic", "recursive") else "?"))
                    ok = a == p and q is not None and q != p and (b is None or b == q) and ch[others(n, p).index(q)] == (("?", "i32"),)
                    if ok:
                        nt = T.mesh(p, ["End" if r == q else T.ty(c) for r, c in zip(others(n, p), ch)], "RoleEnd")
                        g.test(True, f"{call} at {ty}", f"let (v, r): (i32, {nt}) = {call}; any()", f"s: {ty}{T.k}")
                    else: g.test(False, f"{call} at {ty}", f"let _r = {call}; any()", f"s: {ty}{T.k}")
                if not fn and "All" in st or "Broadcast" in st:
                    if not fn:
                        for call in (fl.send(0, 0, "1i32"), fl.recv(0, 0)): g.test(False, f"{call} at {ty}", f"let _r = {call}; any()", f"s: {ty}{T.k}")
                    g.test(False, f"{fl.close()} at {ty}", fl.close(), f"s: {ty}{T.k}")
    return g

def fork_call(fl):
    return "fork_mpst" if fl.kind in ("fn", "meth", "simple", "multi", "short", "gen", "atmp", "sup") else None

def group_fork(fl, name, th):
    """a launch is accepted exactly when the endpoints' sessions are pairwise dual"""
    n, R, T = fl.n, fl.roles, Types(fl)
    g = Group(name, hdr(fl))
    fam = [(), (("!", "i32"),), (("?", "i32"),), (("?", "u8"),), (("!", "i32"), ("?", "i32")), (("!", "i32"), ("!", "i32")), (("?", "i32"), ("?", "i32"))]
    if th: fam += [(("!", "u8"),), (("?", "i32"), ("!", "i32")), (("?", "i32"), ("!", "u8")), (("!", "i32"), ("?", "i32"), ("!", "u8"))]
    def launch(tys, ok, what, extra=0):
        cl = [f"|s: {T.mesh(p, [tys[(p, q)] for q in others(n, p)], 'RoleEnd')}{T.par}| -> Res<()> {{ any() }}" for p in range(n)]
        g.test(ok, what, f"let _h = fork_mpst({', '.join(cl)}); any()", "")
    base = {(p, q): () for p in range(n) for q in others(n, p)}
    for p in range(n):
        for q in range(p + 1, n):
            for x in fam:
                for y in fam:
                    for rest in ((), (("!", "i32"),)) if th else ((),):
                        m = {k: (rest if k[0] < k[1] else dual(rest)) for k in base}
                        m[(p, q)], m[(q, p)] = x, y
                        launch({k: T.ty(v) for k, v in m.items()}, y == dual(x), f"launch with {R[p]}-{R[q]}: {x} / {y}")
            if T.t:
                # the dual of a timed step has the same clock, window and reset
                alts = ["'b', 0, true, 10, true, ' '", "'a', 1, true, 10, true, ' '", "'a', 0, false, 10, true, ' '", "'a', 0, true, 11, true, ' '", "'a', 0, true, 10, false, ' '", "'a', 0, true, 10, true, 'a'", WIN]
                for w in alts:
                    tys = {k: "End" for k in base}
                    tys[(p, q)], tys[(q, p)] = T.ty((("!", "i32"),)), T.ty((("?", "i32"),), w)
                    launch(tys, w == WIN, f"launch with {R[p]}-{R[q]} windows {WIN} / {w}")
    # two pairs at a time: a mismatch may not hide behind another
    if n == 3:
        sm = [(), (("!", "i32"),), (("?", "i32"),)]
        for v in itertools.product(sm, repeat=6):
            m = dict(zip(sorted(base), v))
            bad = [k for k in base if k[0] < k[1] and m[(k[1], k[0])] != dual(m[k])]
            if len(bad) <= (3 if th else 0) or len(bad) == 2 and hash(str(sorted(bad))) % 1 == 0 and sum(c != () for c in v) <= 3: launch({k: T.ty(c) for k, c in m.items()}, not bad, f"launch {m}")
    return g

def group_once(fl, name, th):
    """an endpoint is used once: it is moved by every operation and cannot be copied"""
    n, R, T = fl.n, fl.roles, Types(fl)
    g, h = Group(name + "_once", hdr(fl)), Group(name + "_clone", hdr(fl))
    first = fl.first()
    for p in range(first, n):
        for q in others(n, p):
            if q < first: continue
            for d, call in (("!", fl.send(p, q, "1i32")), ("?", fl.recv(p, q))):
                ty = T.mesh(p, [T.ty(((d, "i32"),)) if r == q else "End" for r in others(n, p)], f"Role{R[q]}<RoleEnd>")
                g.test(True, f"{call} once at {ty}", f"let r1 = {call}; any()", f"s: {ty}{T.k}")
                g.test(False, f"{call} twice at {ty}", f"let r1 = {call}; let r2 = {call}; any()", f"s: {ty}{T.k}")
                g.test(False, f"{call} in a loop at {ty}", f"loop {{ let r1 = {call}; }}", f"s: {ty}{T.k}")
                g.test(False, f"{call} and drop at {ty}", f"let r1 = {call}; drop(s); any()", f"s: {ty}{T.k}")
                g.test(False, f"copy of {ty}", "let a = s; let b = s; any()", f"s: {ty}{T.k}")
                g.test(False, f"{call} through a reference at {ty}", f"let x = &s; let s = *x; let r1 = {call}; any()", f"s: {ty}{T.k}")
                h.test(False, f"clone of {ty}", f"let x: {ty} = s.clone(); any()", f"s: {ty}{T.k}")
                h.test(False, f"default of {ty}", f"let x: {ty} = Default::default(); any()", "")
        ty = T.mesh(p, ["End" for _ in others(n, p)], "RoleEnd")
        g.test(True, f"close once at {ty}", fl.close(), f"s: {ty}{T.k}")
        g.test(False, f"close twice at {ty}", f"{fl.close()}?; {fl.close()}", f"s: {ty}{T.k}")
        h.test(False, f"clone of {ty}", f"let x: {ty} = s.clone(); any()", f"s: {ty}{T.k}")
        h.test(False, f"default of {ty}", f"let x: {ty} = Default::default(); any()", "")
    return [g, h]

def group_unused(fls):
    """letting go of an unfinished endpoint is reported by the compiler"""
    out = []
    for name, fl in fls:
        T, n = Types(fl), fl.n
        g = Group(name + "_unused", hdr(fl))
        g.lines[0] = "#![allow(warnings)]"
        g.lines.insert(1, "#![deny(unused_must_use)]")
        for p in range(fl.first(), n):
            for q in others(n, p):
                if q < fl.first(): continue
                ty = T.mesh(p, [T.ty((("!", "i32"), ("?", "i32"))) if r == q else "End" for r in others(n, p)], f"Role{fl.roles[q]}<Role{fl.roles[q]}<RoleEnd>>")
                c = fl.send(p, q, "1i32")
                plain = "?" in c or fl.kind in ("fn", "meth", "multi", "short", "simple", "gen")
                g.test(False, f"the result of {c} ignored at {ty}", f"{c}; Ok(())", f"s: {ty}{T.k}")
                g.test(False, f"a new {ty} ignored", f"any::<{ty}>(); Ok(())", "")
                g.test(True, f"the result of {c} used at {ty}", f"let _r = {c}; Ok(())", f"s: {ty}{T.k}")
            g.test(False, "the result of close ignored", f"{fl.close()}; Ok(())", f"s: {T.mesh(p, ['End' for _ in others(n, p)], 'RoleEnd')}{T.k}")
        out.append(g)
    return out

def group_binary(timed, th):
    """two-party sessions"""
    H = ["use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};", "use mpstthree::binary::{cancel::*, close::*};", "use either::Either;",
         "use std::{collections::HashMap, time::Instant};"]
    if timed: H += ["use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};", "use mpstthree::binary_atmp::{choose::*, offer::*, recv::*, send::*};"]
    else: H += ["use mpstthree::binary::{choose::*, offer::*, recv::*, send::*};"]
    nm_ = "binary_atmp" if timed else "binary"
    g, once = Group(nm_, H), Group(nm_ + "_once", H)
    k = ", k: &mut HashMap<char, Instant>" if timed else ""
    S = (lambda t, c: f"SendTimed<{t}, {WIN}, {c}>") if timed else (lambda t, c: f"Send<{t}, {c}>")
    V = (lambda t, c: f"RecvTimed<{t}, {WIN}, {c}>") if timed else (lambda t, c: f"Recv<{t}, {c}>")
    def ty(c):
        if c == (): return "End"
        h, t = c[0], c[1:]
        if h[0] in "!?": return (S if h[0] == "!" else V)(h[1], ty(t))
        if h[0] == "c": return S(f"Either<{ty(du(h[1]))}, {ty(du(h[2]))}>", "End")
        return V(f"Either<{ty(h[1])}, {ty(h[2])}>", "End")
    def du(c):
        if c == (): return ()
        h = c[0]
        if h[0] in "!?": return (("?" if h[0] == "!" else "!", h[1]),) + du(c[1:])
        return (("o" if h[0] == "c" else "c", du(h[1]), du(h[2])),)
    acts = [(d, t) for d in "!?" for t in ("i32", "u8")]
    seqs = [()] + [(a,) for a in acts] + [(a, b) for a in acts for b in acts]
    if th: seqs += [(a, b, c) for a in acts for b in acts for c in acts]
    small = [()] + [(a,) for a in acts]
    states = seqs + [((d, x, y),) for d in "co" for x in small for y in small] + [(a, (d, (), small[1])) for a in acts for d in "co"]
    kk = "k, " if timed else ""
    send = lambda v: f"send({v}, {kk}s)" + ("?" if timed else "")
    val = {"i32": "1i32", "u8": "1u8"}
    for st in states:
        t, par = ty(st), f"s: {ty(st)}{k}"
        h = st[0] if st else None
        # send
        for v, vt in (("1i32", "i32"), ("1u8", "u8"), ("()", "()")):
            ok = h is not None and h[:2] == ("!", vt)
            for call in [send(v)] + ([] if timed else [f"send_canceled({v}, s)?"]) + ([f"send_without_reset({v}, k, s)?"] if timed else []):
                if ok: g.test(True, f"{call} at {t}", f"let r: {ty(st[1:])} = {call}; any()", par)
                else: g.test(False, f"{call} at {t}", f"let _r = {call}; any()", par)
        rcall = f"recv({kk}s)?"
        ok = h is not None and h[0] in "?o"
        if ok and h[0] == "?": g.test(True, f"{rcall} at {t}", f"let (v, r): ({h[1]}, {ty(st[1:])}) = {rcall}; any()", par)
        elif not ok: g.test(False, f"{rcall} at {t}", f"let _r = {rcall}; any()", par)
        g.test(st == (), f"close at {t}", "close(s)", par)
        for side, i in (("left", 1), ("right", 2)):
            call = f"choose_{side}::<_, _>({kk}s)" + ("?" if timed else "") if not (h and h[0] == "c") else f"choose_{side}::<{ty(h[1])}, {ty(h[2])}{', ' + WIN if timed else ''}>({kk}s)" + ("?" if timed else "")
            if h and h[0] == "c":
                g.test(True, f"{call} at {t}", f"let r: {ty(h[i])} = {call}; any()", par)
                if h[1] != h[2]:
                    call = f"choose_{side}::<{ty(h[2])}, {ty(h[1])}{', ' + WIN if timed else ''}>({kk}s)" + ("?" if timed else "")
                    g.test(False, f"{call} at {t}", f"let r = {call}; any()", par)
            else:
                for a in small[:3]:
                    call = f"choose_{side}::<{ty(a)}, {ty(())}{', ' + WIN if timed else ''}>({kk}s)" + ("?" if timed else "")
                    g.test(False, f"{call} at {t}", f"let r = {call}; any()", par)
        for a in (small if h and h[0] == "o" else small[:2]):
            for b in (small if h and h[0] == "o" else small[:2]):
                kc = "k: &mut HashMap<char, Instant>, " if timed else ""
                call = f"offer_either({kk}s, |{kc}s: {ty(a)}| -> Res<u8> {{ any() }}, |{kc}s: {ty(b)}| -> Res<u8> {{ any() }})"
                g.test(bool(h) and h == ("o", a, b), f"{call} at {t}", f"let r: Res<u8> = {call}; any()", par)
        # duality of a launch
        if not timed and len(st) <= 2:
            for o in seqs[:21] if len(st) < 2 or th else []:
                call = f"mpstthree::binary::fork::fork(|s: {t}| -> Res<()> {{ any() }})"
                g.test(o == du(st), f"fork of {t} leaves {ty(o)}", f"let r: {ty(o)} = {call}; any()", "")
        # use once
        op = {"!": send(val.get(h[1], "()")) if h and h[0] == "!" else "", "?": rcall, "o": rcall, "c": "drop(s)", None: "close(s)?"}[h[0] if h else None]
        once.test(True, f"{op} once at {t}", f"let r1 = {op}; any()", par)
        once.test(False, f"{op} twice at {t}", f"let r1 = {op}; let r2 = {op}; any()", par)
        once.test(False, f"{op} and cancel at {t}", f"let r1 = {op}; cancel(s); any()", par)
        g.test(False, f"clone of {t}", f"let x: {t} = s.clone(); any()", par)
        g.test(False, f"default of {t}", f"let x: {t} = Default::default(); any()", "")
    un = Group(nm_ + "_unused", H)
    un.lines.insert(1, "#![deny(unused_must_use)]")
    for st in seqs:
        un.test(False, f"a new {ty(st)} ignored", f"any::<{ty(st)}>(); Ok(())", "")
        if len(st) == 2 and st[0][0] == "!": un.test(False, f"the result of send at {ty(st)} ignored", f"{send(val[st[0][1]])}; Ok(())", f"s: {ty(st)}{k}")
        if len(st) == 2: un.test(True, f"{ty(st)} used", f"let _r = any::<{ty(st)}>(); Ok(())", "")
    return [g, once, un]

def group_transport(th):
    """sessions over TCP and UDP: the same discipline with the data attached"""
    out = []
    for net, data, sock in (("tcp", "TcpData", "TcpStream"), ("udp", "UdpData", "UdpSocket")):
        H = ["use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};", f"type D = [u8; 128];", f"use std::net::{sock};",
             f"use mpstthree::transport::{net}::{{send::send_{net}, recv::recv_{net}, cancel::cancel_{net}}};"] + ([f"use mpstthree::transport::tcp::close::close_tcp;"] if net == "tcp" else [])
        g, once = Group(net, H), Group(net + "_once", H)
        def ty(c): return "End" if c == () else f"{'Send' if c[0][0] == '!' else 'Recv'}<({c[0][1]}, D), {ty(c[1:])}>"
        acts = [(d, t) for d in "!?" for t in ("i32", "u8")]
        for st in [()] + [(a,) for a in acts] + [(a, b) for a in acts for b in acts]:
            t = ty(st); par = f"s: {t}, w: {sock}, d: &D"; h = st[0] if st else None
            for v, vt in (("1i32", "i32"), ("1u8", "u8")):
                call = f"send_{net}({v}, d, s, w, true)?"
                if h == ("!", vt): g.test(True, f"{call} at {t}", f"let r = {call}; let r: {ty(st[1:])} = r.0; any()", par)
                else: g.test(False, f"{call} at {t}", f"let _r = {call}; any()", par)
            call = f"recv_{net}(s, w, true)?"
            if h and h[0] == "?": g.test(True, f"{call} at {t}", f"let r = {call}; let v: {h[1]} = r.0; let r: {ty(st[1:])} = r.1; any()", par)
            else: g.test(False, f"{call} at {t}", f"let _r = {call}; any()", par)
            if net == "tcp": g.test(st == (), f"close_tcp at {t}", "close_tcp(s, w, true)", par)
            op = "s2" if h is None else (f"send_{net}({'1i32' if h[1] == 'i32' else '1u8'}, d, s, w.try_clone()?, true)?" if h[0] == "!" else f"recv_{net}(s, w.try_clone()?, true)?")
            if h:
                once.test(True, f"{op} once at {t}", f"let r1 = {op}; any()", par)
                once.test(False, f"{op} twice at {t}", f"let r1 = {op}; let r2 = {op}; any()", par)
        out += [g, once]
    return out

def flavours(th):
    A3, A4 = ["A", "B", "C"], ["A", "B", "C", "D"]
    N4 = ["W", "Y", "X", "Z"]
    v = [Flavour("fn", A3), Flavour("meth", A3), Flavour("simple", ["D", "E", "F"])]
    for m in ("basic", "recursive", "cancel", "rec_and_cancel"):
        v += [Flavour("gen", A3 if m == "basic" else ["Q", "P", "R"], m)] + [Flavour("gen", N4, m)]
    v += [Flavour("gen", ["P", "Q"], "rec_and_cancel"), Flavour("atmp", A3), Flavour("atmp", N4)]
    for m in ("plain", "bundle", "cancel", "check"):
        v.append(Flavour("multi", A3, m))
    v += [Flavour("short", ["G", "H", "I"], "plain")]
    v += [Flavour("multi", A4, "plain"), Flavour("multi", A4, "bundle")]
    v += [Flavour("sup", A3 + ["D"], m) for m in ("check", "bundle")]
    return v
def inter_header(kind, roles, sh):
    mode = "interleaved" if kind == "gen" else "atmp_interleaved"
    return ["use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send};", "use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd};", "use either::Either;",
            "use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};", "use std::{collections::HashMap, time::Instant};",
            f'mpstthree::generate!("{mode}", MC1, {", ".join(roles[0])}, {sh[0]+1}, MC2, {", ".join(roles[1])}, {sh[1]+1}, fork_two);']
class InterFlavour(Flavour):
    def header(self): return inter_header(self.kind, self.iroles, self.ish)
def inter_flavours(kind, roles, sh):
    v = []
    for k in (0, 1):
        fl = InterFlavour(kind, roles[k], "inter_cancel" if kind == "gen" else None, mesh=f"MC{k+1}")
        fl.iroles, fl.ish = roles, sh
        v.append(fl)
    return v

def group_fork_two(name, kind, roles, sh, th):
    """the launch of two sessions with one shared participant"""
    fls = inter_flavours(kind, roles, sh)
    Ts = [Types(f) for f in fls]
    g = Group(name + "_fork", inter_header(kind, roles, sh))
    fam = [(), (("!", "i32"),), (("?", "i32"),), (("?", "u8"),), (("!", "i32"), ("?", "i32"))]
    n = [len(r) for r in roles]
    def launch(m, ok, what):
        mt = [{p: Ts[s].mesh(p, [Ts[s].ty(m[s][(p, q)]) for q in others(n[s], p)], "RoleEnd") for p in range(n[s])} for s in (0, 1)]
        cl = [f"|s: {mt[s][p]}{Ts[s].par}| -> Res<()> {{ any() }}" for s in (0, 1) for p in range(n[s]) if p != sh[s]]
        K = (", k1: &mut HashMap<char, Instant>", ", k2: &mut HashMap<char, Instant>") if Ts[0].t else ("", "")
        cl.append(f"|s1: {mt[0][sh[0]]}{K[0]}, s2: {mt[1][sh[1]]}{K[1]}| -> Res<()> {{ any() }}")
        g.test(ok, what, f"let _h = fork_two({', '.join(cl)}); any()", "")
    for s in (0, 1):
        for p in range(n[s]):
            for q in range(p + 1, n[s]):
                for x in fam:
                    for y in fam:
                        m = [{(a, b): () for a in range(n[i]) for b in others(n[i], a)} for i in (0, 1)]
                        m[s][(p, q)], m[s][(q, p)] = x, y
                        launch(m, y == dual(x), f"launch with session {s+1} {roles[s][p]}-{roles[s][q]}: {x} / {y}")
                # a partner in the other session does not help
                for p2 in range(n[1 - s]):
                    for q2 in range(p2 + 1, n[1 - s]):
                        m = [{(a, b): () for a in range(n[i]) for b in others(n[i], a)} for i in (0, 1)]
                        m[s][(p, q)], m[1 - s][(q2, p2)] = fam[1], fam[2]
                        launch(m, False, f"launch with sessions crossed {s+1} {p} {q} {p2} {q2}")
    return g

def group_close_inter(fl, name, th):
    """the close of interleaved sessions over three endpoints of one mesh"""
    n, R, T = fl.n, fl.roles, Types(fl)
    g = Group(name, hdr(fl) + [f"mpstthree::close_mpst_interleaved!(close_all, {fl.mesh()}, {n});", f"mpstthree::fork_mpst_multi_solo!(fork_solo, {fl.mesh()}, {n});"])
    E = ["End"] * (n - 1)
    states = [(E, "RoleEnd")] + [([("Send<i32, End>" if d else "Recv<i32, End>") if i == j else "End" for j in range(n - 1)], "RoleEnd") for i in range(n - 1) for d in (0, 1)] + [(E, "RoleBroadcast")] + [(E, f"Role{r}<RoleEnd>") for r in R]
    for pos in range(n):
        for i, (ch, st) in enumerate(states):
            for i2, (ch2, st2) in enumerate(states):
                m = {q: (E, "RoleEnd") for q in range(n)}
                m[pos] = (ch, st); m[(pos + 1) % n] = (ch2, st2)
                ps = ", ".join(f"s{q}: {T.mesh(q, *m[q])}" for q in range(n))
                g.test(i == i2 == 0, f"close of {ps}", f"close_all({', '.join(f's{q}' for q in range(n))})", ps)
    return g

INTER = [("gen", (["A", "B", "C"], ["X", "Y", "Z"]), (1, 0)), ("gen", (["A", "B"], ["X", "Y", "Z"]), (1, 2)), ("atmp", (["A", "B", "C"], ["X", "Y"]), (0, 1)), ("atmp", (["A", "B"], ["X", "Y"]), (1, 1))]

def groups(th):
    v = []
    for fl in flavours(th):
        name = f"{fl.kind}_{fl.mode or 'lib'}_{fl.n}"
        v.append(group_mpst(fl, name, th))
        if fl.enum_ok() and fl.kind != "sup" and fl.n <= 3 and not fl.fn_bundle(): v.append(group_enum(fl, name + "_enum", th))
        if fl.kind != "sup" and fl.n <= 3: v.append(group_either(fl, name + "_either", th))
        if fl.kind in ("fn", "meth", "gen", "atmp") and fl.n <= 3: v.append(group_all(fl, name + "_all", th))
        v.append(group_fork(fl, name + "_fork", th))
        v += group_once(fl, name, th)
        v += group_unused([(name, fl)])
    for kind, roles, sh in INTER:
        name = f"two_{kind}_{len(roles[0])}{len(roles[1])}"
        for k, fl in enumerate(inter_flavours(kind, roles, sh)):
            v.append(group_mpst(fl, f"{name}_s{k+1}", th))
            v += group_once(fl, f"{name}_s{k+1}", th)
        v.append(group_fork_two(name, kind, roles, sh, th))
    for n in (2, 3) + ((4,) if th else ()): v.append(group_close_inter(Flavour("multi", ["A", "B", "C", "D"][:n], "plain"), f"solo_close_{n}", th))
    for t in (False, True): v += group_binary(t, th)
    v += group_transport(th)
    return v

def build(tier, only=None):
    work = os.path.join(os.environ.get("CARGO_TARGET_DIR", VERIF + "/target"), "c11")
    src = os.path.join(work, "src", "bin")
    shutil.rmtree(os.path.join(work, "src"), ignore_errors=True)
    os.makedirs(src)
    with open(os.path.join(work, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "c11"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                'mpstthree = { path = "/repo", features = ["baking", "baking_atmp", "interleaved", "transport"] }\nmpst-seq-proc = { path = "/repo/mpst_seq_proc" }\n'
                'either = "*"\ncrossbeam-channel = "*"\n[profile.dev]\ndebug = 0\nincremental = false\n')
    with open(os.path.join(work, "src", "lib.rs"), "w") as f: f.write("pub use either; pub use mpstthree;\n")
    shutil.copy("/repo/Cargo.lock", os.path.join(work, "Cargo.lock"))
    gs = [g for g in groups(tier == "thorough") if not only or only in g.name]
    for g in gs:
        with open(os.path.join(src, g.name + ".rs"), "w") as f: f.write("\n".join(g.lines) + "\nfn main() {}\n")
    return work, gs

def main_span(span, file):
    """the place in our file a message belongs to"""
    while span:
        if span["file_name"].endswith(file): return span["line_start"]
        span = (span.get("expansion") or {}).get("span")
    return None

NAMES_MISSING = {"E0425", "E0433", "E0412", "E0405", "E0432", "E0422", "E0423", "E0428", "E0404"}
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay)); a.tier = r["tier"]; a.only = r["group"]
    work, gs = build(a.tier, a.only)
    by = {g.name: g for g in gs}
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "check", "--offline", "-q", "--lib"], cwd=work, env=env, capture_output=True, text=True)
    if r.returncode: print(r.stderr[-3000:], file=sys.stderr); sys.exit(2)
    p = subprocess.Popen(["cargo", "check", "--offline", "-q", "--bins", "--keep-going", "--message-format=json", "-j8"], cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    from threading import Thread
    err = []
    Thread(target=lambda: err.append(p.stderr.read()), daemon=True).start()
    rejected, odd, codes, compiled = {}, [], {}, set()
    for l in p.stdout:
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact": compiled.add(m["target"]["name"])
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"): continue
        name, msg = m["target"]["name"], m["message"]
        code = (msg.get("code") or {}).get("code")
        if name not in by or msg["level"] != "error": odd.append((name, None, msg["message"])); continue
        if msg["message"].startswith("aborting due to"): continue
        ln = None
        for s in sorted(msg["spans"], key=lambda s: not s["is_primary"]):
            ln = main_span(s, f"src/bin/{name}.rs")
            if ln in by[name].cases: break
        if ln not in by[name].cases: odd.append((name, ln, msg["message"])); continue
        # a name that does not exist says nothing about the types
        if code in NAMES_MISSING or code is None: odd.append((name, ln, msg["message"]))
        compiled.add(name)
        rejected.setdefault((name, ln), (msg["message"], code))
        codes[code] = codes.get(code, 0) + 1
    p.wait()
    # a group whose declarations fail to compile, because macros of the library no longer produce them
    for g in gs:
        if g.name not in compiled: odd.append((g.name, None, "no verdict of the compiler"))
    bad = []
    for g in gs:
        for ln, (accept, what, line) in g.cases.items():
            if accept == ((g.name, ln) in rejected):
                bad.append((g.name, what, "rejected: " + rejected[(g.name, ln)][0] if accept else "accepted", line))
    tot = sum(len(g.cases) for g in gs); acc = sum(g.seen["accept"] for g in gs)
    dt = time.time() - t0
    print(f"C11 {a.tier}: {len(gs)} groups, {tot} functions, {acc} of them protocol-conforming, {len(bad)} differ, {len(odd)} odd, {dt:.1f}s; rejected by {codes}", file=sys.stderr)
    shapes = {}
    for b in bad: shapes.setdefault((b[0], b[2][:60]), []).append(b)
    for b in list(shapes.values())[:8]: print(f"{len(b)} x {b[0]}"[:600], file=sys.stderr)
    for o in odd[:8]: print("odd:", str(o)[:400], file=sys.stderr)
    if a.only and not a.replay: return
    if a.replay:
        hit = [b for b in bad if b[3] == r_line(a.replay)]
        print("reproduced" if hit else "not reproduced"); sys.exit(1 if hit else 0)
    ev = os.path.join(VERIF, "evidence"); rep = os.path.join(ev, "replays", "C11.json")
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    samples = [f"{g.cases[k][1]} -> {'accepted' if g.cases[k][0] else 'rejected'}" for g in gs[::9] for k in list(g.cases)[5:6]]
    json.dump({"property": "C11", "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "wall_s": round(dt, 1), "violations": len(bad),
               "coverage": {"states": len({(g.name, c[2].split("(", 1)[1].split(")")[0]) for g in gs for c in g.cases.values()}), "transitions": acc, "traces_validated_against_impl": tot - len(bad),
                            "attempted_actions": tot, "groups": len(gs), "exhaustive": True, "samples": samples[:12],
                            "rule": "every (endpoint type, operation) pair within the bound: the compiler accepts it exactly when the reference automaton has the transition, with the prescribed type as the result"}},
              open(os.path.join(ev, "C11.json"), "w"), indent=1)
    if not bad:
        # the declarations themselves, which the library's macros are documented to accept
        bad = [(o[0], f"declarations of {o[0]}", "rejected: " + o[2], by[o[0]].lines[o[1] - 1]) for o in odd if o[1] and o[1] not in by[o[0]].cases]
    if bad:
        g, what, got, line = bad[0]
        json.dump({"property": "C11", "tier": a.tier, "group": g, "case": what, "compiler": got, "program": line, "declarations": by[g].lines[:60], "others": len(bad) - 1,
                   "how_to_replay": "python3 /verif/tools/c11.py --replay THIS_FILE"}, open(rep, "w"), indent=1)
        print(f"VIOLATION property=C11 replay={rep}")
        print(f"  {what}: {got}")
        sys.exit(1)
    if odd:
        # declarations the library's own macros are documented to provide no longer compile
        print(err[0][-2000:] if err else "", file=sys.stderr)
        sys.exit(2)
    print(f"C11: held on {tot} functions")
def r_line(f): return json.load(open(f))["program"]
main()
