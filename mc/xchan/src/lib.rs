//! Drop-in replacement of crossbeam-channel whose every operation is a scheduling point of `mcrt`.
//! Threads that are not scheduled use an ordinary mutex/condvar implementation.
//! `/verif/mc/conform` compares it, operation sequence by operation sequence, with the real crate.
use mcrt::rt::{self, Dl, R};
use std::collections::VecDeque;
use std::fmt;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

mod err;
pub use err::*;
// the macros of the real crate, unchanged
mod select_macro;

struct State<T> {
    q: VecDeque<T>,
    snd: usize,
    rcv: usize,
    waiting_recv: usize,
    taken: u64,
    offered: u64,
}
struct Inner<T> {
    cap: Option<usize>,
    run: u64,
    id: rt::Ch,
    st: Mutex<State<T>>,
    cv: Condvar,
}
impl<T> Inner<T> {
    fn lock(&self) -> MutexGuard<'_, State<T>> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn managed(&self) -> bool {
        self.run != 0 && rt::active() && self.run == rt::run_id()
    }
}

fn dl_of(d: Option<Instant>) -> Dl {
    match d {
        None => Dl::Block,
        Some(i) => {
            let n = Instant::now();
            Dl::At(rt::now().saturating_add(i.saturating_duration_since(n).as_nanos().min(u64::MAX as u128 / 4) as u64))
        },
    }
}

pub struct Sender<T> {
    c: Arc<Inner<T>>,
}
pub struct Receiver<T> {
    c: Arc<Inner<T>>,
    never: bool,
}

fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let (run, id) = if rt::active() { (rt::run_id(), rt::chan_new(cap)) } else { (0, 0) };
    let c = Arc::new(Inner {
        cap,
        run,
        id,
        st: Mutex::new(State { q: VecDeque::new(), snd: 1, rcv: 1, waiting_recv: 0, taken: 0, offered: 0 }),
        cv: Condvar::new(),
    });
    (Sender { c: c.clone() }, Receiver { c, never: false })
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    make(Some(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None)
}
/// Delivers the moment once it has come.
pub fn at(when: Instant) -> Receiver<Instant> {
    let (s, r) = bounded(1);
    std::thread::spawn(move || {
        std::thread::sleep(when.saturating_duration_since(Instant::now()));
        let _ = s.send(Instant::now());
        // it never disconnects
        std::mem::forget(s);
    });
    r
}
pub fn after(duration: Duration) -> Receiver<Instant> {
    match Instant::now().checked_add(duration) {
        Some(d) => at(d),
        None => never(),
    }
}
/// Delivers a moment each time the duration has passed.
pub fn tick(duration: Duration) -> Receiver<Instant> {
    let (s, r) = bounded(1);
    std::thread::spawn(move || loop {
        std::thread::sleep(duration);
        if s.send(Instant::now()).is_err() {
            return;
        }
    });
    r
}
/// A receiver that never delivers.
pub fn never<T>() -> Receiver<T> {
    let (s, mut r) = make(Some(1));
    std::mem::forget(s);
    r.never = true;
    r
}

enum SendR<T> {
    Ok,
    Disc(T),
    Timeout(T),
}
enum RecvR<T> {
    Ok(T),
    Disc,
    Timeout,
}

impl<T> Inner<T> {
    fn send(&self, msg: T, dl: Dl, real: Option<Instant>) -> SendR<T> {
        if self.managed() {
            let mut m = Some(msg);
            let r = rt::send(self.id, dl, &mut || {
                let mut s = self.lock();
                s.q.push_back(m.take().unwrap());
            });
            return match r {
                R::Ok => SendR::Ok,
                x => {
                    // a withdrawn rendezvous offer is taken back from the queue
                    let m = m.or_else(|| self.lock().q.pop_back()).expect("message");
                    if x == R::Disc { SendR::Disc(m) } else { SendR::Timeout(m) }
                },
            };
        }
        let mut s = self.lock();
        loop {
            if s.rcv == 0 {
                return SendR::Disc(msg);
            }
            let ready = match self.cap {
                None => true,
                Some(0) => s.waiting_recv > s.q.len(),
                Some(k) => s.q.len() < k,
            };
            if ready || (self.cap == Some(0) && dl != Dl::Try && s.q.is_empty()) {
                s.q.push_back(msg);
                s.offered += 1;
                let t = s.offered;
                self.cv.notify_all();
                if self.cap == Some(0) && dl != Dl::Try {
                    loop {
                        if s.taken >= t {
                            return SendR::Ok;
                        }
                        if s.rcv == 0 || expired(real) {
                            let m = s.q.pop_back().unwrap();
                            s.taken += 1;
                            return if s.rcv == 0 { SendR::Disc(m) } else { SendR::Timeout(m) };
                        }
                        s = self.wait(s, real);
                    }
                }
                return SendR::Ok;
            }
            if dl == Dl::Try || expired(real) {
                return SendR::Timeout(msg);
            }
            s = self.wait(s, real);
        }
    }
    fn wait<'a>(&self, s: MutexGuard<'a, State<T>>, real: Option<Instant>) -> MutexGuard<'a, State<T>> {
        match real {
            None => self.cv.wait(s).unwrap_or_else(|e| e.into_inner()),
            Some(d) => {
                self.cv
                    .wait_timeout(s, d.saturating_duration_since(Instant::now()))
                    .unwrap_or_else(|e| e.into_inner())
                    .0
            },
        }
    }
    fn recv(&self, dl: Dl, real: Option<Instant>) -> RecvR<T> {
        if self.managed() {
            return match rt::recv(self.id, dl) {
                R::Ok => RecvR::Ok(self.lock().q.pop_front().expect("message")),
                R::Disc => RecvR::Disc,
                R::Timeout => RecvR::Timeout,
            };
        }
        let mut s = self.lock();
        s.waiting_recv += 1;
        self.cv.notify_all();
        loop {
            if let Some(m) = s.q.pop_front() {
                s.taken += 1;
                s.waiting_recv -= 1;
                self.cv.notify_all();
                return RecvR::Ok(m);
            }
            if s.snd == 0 {
                s.waiting_recv -= 1;
                return RecvR::Disc;
            }
            if dl == Dl::Try || expired(real) {
                s.waiting_recv -= 1;
                return RecvR::Timeout;
            }
            s = self.wait(s, real);
        }
    }
    fn query(&self) -> (usize, usize, usize) {
        if self.managed() {
            let (l, s, r) = rt::query(self.id);
            return if self.cap == Some(0) { (0, s, r) } else { (l, s, r) };
        }
        let s = self.lock();
        (if self.cap == Some(0) { 0 } else { s.q.len() }, s.snd, s.rcv)
    }
}
fn expired(d: Option<Instant>) -> bool {
    d.is_some_and(|d| Instant::now() >= d)
}

impl<T> Sender<T> {
    pub fn send(&self, msg: T) -> Result<(), SendError<T>> {
        match self.c.send(msg, Dl::Block, None) {
            SendR::Ok => Ok(()),
            SendR::Disc(m) | SendR::Timeout(m) => Err(SendError(m)),
        }
    }
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        match self.c.send(msg, Dl::Try, None) {
            SendR::Ok => Ok(()),
            SendR::Disc(m) => Err(TrySendError::Disconnected(m)),
            SendR::Timeout(m) => Err(TrySendError::Full(m)),
        }
    }
    pub fn send_timeout(&self, msg: T, timeout: Duration) -> Result<(), SendTimeoutError<T>> {
        match Instant::now().checked_add(timeout) {
            Some(d) => self.send_deadline(msg, d),
            None => self.send(msg).map_err(SendTimeoutError::from),
        }
    }
    pub fn send_deadline(&self, msg: T, deadline: Instant) -> Result<(), SendTimeoutError<T>> {
        let dl = if self.c.managed() { dl_of(Some(deadline)) } else { Dl::At(0) };
        match self.c.send(msg, dl, Some(deadline)) {
            SendR::Ok => Ok(()),
            SendR::Disc(m) => Err(SendTimeoutError::Disconnected(m)),
            SendR::Timeout(m) => Err(SendTimeoutError::Timeout(m)),
        }
    }
    pub fn len(&self) -> usize {
        self.c.query().0
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        match self.c.cap {
            None => false,
            Some(k) => self.len() >= k,
        }
    }
    pub fn capacity(&self) -> Option<usize> {
        self.c.cap
    }
    pub fn same_channel(&self, o: &Sender<T>) -> bool {
        Arc::ptr_eq(&self.c, &o.c)
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        match self.c.recv(Dl::Block, None) {
            RecvR::Ok(m) => Ok(m),
            _ => Err(RecvError),
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        match self.c.recv(Dl::Try, None) {
            RecvR::Ok(m) => Ok(m),
            RecvR::Disc => Err(TryRecvError::Disconnected),
            RecvR::Timeout => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, timeout: Duration) -> Result<T, RecvTimeoutError> {
        match Instant::now().checked_add(timeout) {
            Some(d) => self.recv_deadline(d),
            None => self.recv().map_err(RecvTimeoutError::from),
        }
    }
    pub fn recv_deadline(&self, deadline: Instant) -> Result<T, RecvTimeoutError> {
        let dl = if self.c.managed() { dl_of(Some(deadline)) } else { Dl::At(0) };
        match self.c.recv(dl, Some(deadline)) {
            RecvR::Ok(m) => Ok(m),
            RecvR::Disc => Err(RecvTimeoutError::Disconnected),
            RecvR::Timeout => Err(RecvTimeoutError::Timeout),
        }
    }
    pub fn len(&self) -> usize {
        self.c.query().0
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        match self.c.cap {
            None => false,
            Some(k) => self.len() >= k,
        }
    }
    pub fn capacity(&self) -> Option<usize> {
        self.c.cap
    }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool {
        Arc::ptr_eq(&self.c, &o.c)
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { r: self }
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter { r: self }
    }
}
pub struct Iter<'a, T> {
    r: &'a Receiver<T>,
}
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.recv().ok()
    }
}
pub struct TryIter<'a, T> {
    r: &'a Receiver<T>,
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.try_recv().ok()
    }
}
pub struct IntoIter<T> {
    r: Receiver<T>,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { r: self }
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        if self.c.managed() {
            rt::clone_sender(self.c.id);
        }
        self.c.lock().snd += 1;
        Sender { c: self.c.clone() }
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        if self.c.managed() {
            rt::clone_receiver(self.c.id);
        }
        self.c.lock().rcv += 1;
        Receiver { c: self.c.clone(), never: self.never }
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let destroy = if self.c.managed() { Some(rt::drop_sender(self.c.id)) } else { None };
        let mut s = self.c.lock();
        s.snd -= 1;
        let d = destroy.unwrap_or(s.snd == 0 && s.rcv == 0);
        let q = if d { std::mem::take(&mut s.q) } else { VecDeque::new() };
        self.c.cv.notify_all();
        drop(s);
        drop(q);
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let destroy = if self.c.managed() { Some(rt::drop_receiver(self.c.id)) } else { None };
        let mut s = self.c.lock();
        s.rcv -= 1;
        let d = destroy.unwrap_or(s.rcv == 0 && (s.snd == 0 || self.c.cap.is_none()));
        let q = if d { std::mem::take(&mut s.q) } else { VecDeque::new() };
        self.c.cv.notify_all();
        drop(s);
        drop(q);
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Sender { .. }")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Receiver { .. }")
    }
}

// ---- selection ---------------------------------------------------------------------------------
trait Handle {
    fn id(&self) -> rt::Ch;
    fn managed(&self) -> bool;
    fn ready(&self, send: bool) -> bool;
    fn addr(&self) -> usize;
}
impl<T> Handle for Inner<T> {
    fn id(&self) -> rt::Ch {
        self.id
    }
    fn managed(&self) -> bool {
        Inner::managed(self)
    }
    fn addr(&self) -> usize {
        self as *const _ as *const u8 as usize
    }
    fn ready(&self, send: bool) -> bool {
        let s = self.lock();
        if send {
            s.rcv == 0
                || match self.cap {
                    None => true,
                    Some(0) => s.waiting_recv > s.q.len(),
                    Some(k) => s.q.len() < k,
                }
        } else {
            !s.q.is_empty() || s.snd == 0
        }
    }
}

#[derive(Clone)]
pub struct Select<'a> {
    cases: Vec<(usize, &'a dyn Handle, bool)>,
    next: usize,
    biased: bool,
}
// the handles are references to Sync data
unsafe impl Send for Select<'_> {}
unsafe impl Sync for Select<'_> {}

impl<'a> Select<'a> {
    pub fn new() -> Select<'a> {
        Select { cases: Vec::new(), next: 0, biased: false }
    }
    pub fn new_biased() -> Select<'a> {
        Select { cases: Vec::new(), next: 0, biased: true }
    }
    pub fn send<T>(&mut self, s: &'a Sender<T>) -> usize {
        self.add(&*s.c, true)
    }
    pub fn recv<T>(&mut self, r: &'a Receiver<T>) -> usize {
        self.add(&*r.c, false)
    }
    fn add<T>(&mut self, c: &'a Inner<T>, send: bool) -> usize {
        let i = self.next;
        self.next += 1;
        self.cases.push((i, c as &'a dyn Handle, send));
        i
    }
    pub fn remove(&mut self, index: usize) {
        assert!(index < self.next, "index out of bounds; {} >= {}", index, self.next);
        let i = self.cases.iter().position(|c| c.0 == index).expect("no operation with this index");
        self.cases.swap_remove(i);
    }
    fn pick(&self, dl: Dl, real: Option<Instant>) -> Option<usize> {
        if self.cases.iter().all(|c| c.1.managed()) && rt::active() {
            let v = self.cases.iter().map(|c| (c.1.id(), c.2)).collect();
            return rt::select(v, dl, self.biased).map(|i| self.cases[i].0);
        }
        loop {
            if let Some(c) = self.cases.iter().find(|c| c.1.ready(c.2)) {
                return Some(c.0);
            }
            if dl == Dl::Try || expired(real) {
                return None;
            }
            std::thread::yield_now();
        }
    }
    pub fn ready(&mut self) -> usize {
        if self.cases.is_empty() {
            panic!("no operations have been added to `Select`");
        }
        self.pick(Dl::Block, None).unwrap()
    }
    pub fn try_ready(&mut self) -> Result<usize, TryReadyError> {
        self.pick(Dl::Try, None).ok_or(TryReadyError)
    }
    pub fn ready_timeout(&mut self, t: Duration) -> Result<usize, ReadyTimeoutError> {
        self.ready_deadline(Instant::now() + t)
    }
    pub fn ready_deadline(&mut self, d: Instant) -> Result<usize, ReadyTimeoutError> {
        let dl = if rt::active() { dl_of(Some(d)) } else { Dl::At(0) };
        self.pick(dl, Some(d)).ok_or(ReadyTimeoutError)
    }
    fn op(&self, i: usize) -> SelectedOperation<'a> {
        let c = self.cases.iter().find(|c| c.0 == i).unwrap();
        SelectedOperation { index: i, addr: niche(c.1.addr()), _p: std::marker::PhantomData }
    }
    pub fn select(&mut self) -> SelectedOperation<'a> {
        if self.cases.is_empty() {
            panic!("no operations have been added to `Select`");
        }
        let i = self.pick(Dl::Block, None).unwrap();
        self.op(i)
    }
    pub fn try_select(&mut self) -> Result<SelectedOperation<'a>, TrySelectError> {
        let i = self.pick(Dl::Try, None).ok_or(TrySelectError)?;
        Ok(self.op(i))
    }
    pub fn select_timeout(&mut self, t: Duration) -> Result<SelectedOperation<'a>, SelectTimeoutError> {
        self.select_deadline(Instant::now() + t)
    }
    pub fn select_deadline(&mut self, d: Instant) -> Result<SelectedOperation<'a>, SelectTimeoutError> {
        let dl = if rt::active() { dl_of(Some(d)) } else { Dl::At(0) };
        let i = self.pick(dl, Some(d)).ok_or(SelectTimeoutError)?;
        Ok(self.op(i))
    }
}
impl Default for Select<'_> {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Select<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Select { .. }")
    }
}
#[must_use]
pub struct SelectedOperation<'a> {
    index: usize,
    // never zero: `select!` stores an `Option` of this, and the two must have the same layout
    addr: std::num::NonZeroUsize,
    _p: std::marker::PhantomData<&'a ()>,
}
fn niche(a: usize) -> std::num::NonZeroUsize {
    std::num::NonZeroUsize::new(a).expect("the address of a channel")
}
impl SelectedOperation<'_> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn send<T>(self, s: &Sender<T>, msg: T) -> Result<(), SendError<T>> {
        assert!(self.addr == niche(s.c.addr()), "passed a sender that wasn't selected");
        if s.c.managed() {
            let mut m = Some(msg);
            let r = rt::send_granted(s.c.id, &mut || s.c.lock().q.push_back(m.take().unwrap()));
            return if r == R::Ok { Ok(()) } else { Err(SendError(m.unwrap())) };
        }
        s.send(msg)
    }
    pub fn recv<T>(self, r: &Receiver<T>) -> Result<T, RecvError> {
        assert!(self.addr == niche(r.c.addr()), "passed a receiver that wasn't selected");
        if r.c.managed() {
            return match rt::recv_granted(r.c.id) {
                R::Ok => Ok(r.c.lock().q.pop_front().expect("message")),
                _ => Err(RecvError),
            };
        }
        r.recv()
    }
}
impl fmt::Debug for SelectedOperation<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("SelectedOperation { .. }")
    }
}

// ---- what the macros use -------------------------------------------------------------------------
pub mod internal {
    use super::{Handle, Receiver, Select, SelectedOperation, Sender};
    use std::time::{Duration, Instant};
    #[allow(private_interfaces)]
    pub trait SelectHandle {
        fn case(&self) -> (&dyn Handle, bool);
    }
    #[allow(private_interfaces)]
    impl<T> SelectHandle for Sender<T> {
        fn case(&self) -> (&dyn Handle, bool) {
            (&*self.c, true)
        }
    }
    #[allow(private_interfaces)]
    impl<T> SelectHandle for Receiver<T> {
        fn case(&self) -> (&dyn Handle, bool) {
            (&*self.c, false)
        }
    }
    type Case<'a> = (&'a dyn SelectHandle, usize, *const u8);
    fn of<'a>(handles: &[Case<'a>], biased: bool) -> Select<'a> {
        let cases = handles.iter().map(|h| (h.1, h.0.case().0, h.0.case().1)).collect();
        Select { cases, next: handles.len(), biased }
    }
    pub fn select<'a>(handles: &mut [Case<'a>], biased: bool) -> SelectedOperation<'a> {
        of(handles, biased).select()
    }
    pub fn try_select<'a>(handles: &mut [Case<'a>], biased: bool) -> Result<SelectedOperation<'a>, super::TrySelectError> {
        of(handles, biased).try_select()
    }
    pub fn select_timeout<'a>(handles: &mut [Case<'a>], timeout: Duration, biased: bool) -> Result<SelectedOperation<'a>, super::SelectTimeoutError> {
        let mut s = of(handles, biased);
        match Instant::now().checked_add(timeout) {
            Some(d) => s.select_deadline(d),
            None => Ok(s.select()),
        }
    }
}
