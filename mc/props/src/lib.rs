//! Helpers shared by the scenario programs.
pub mod bin2;
pub mod check16;
pub mod timed;
use std::sync::{Arc, Mutex};

/// Per-participant observation logs.
#[derive(Clone, Default)]
pub struct Obs(Arc<Mutex<Vec<(String, Vec<String>)>>>, Option<&'static str>);
impl Obs {
    pub fn new() -> Obs {
        Obs::default()
    }
    /// One of A and B, or neither, takes very long before each of its steps.
    pub fn any_speed() -> Obs {
        Obs(Default::default(), [None, Some("A"), Some("B")][mcrt::choose(3)])
    }
    pub fn slow(&self) -> Option<&'static str> {
        self.1
    }
    /// Before each step of `who`: nothing may depend on time.
    pub fn pause(&self, who: &str) {
        if self.1 == Some(who) {
            std::thread::sleep(std::time::Duration::from_secs(100_000));
        }
    }
    pub fn add(&self, who: &str, what: impl Into<String>) {
        let what = what.into();
        mcrt::note(|| format!("    [{who}] {what}"));
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(e) = g.iter_mut().find(|e| e.0 == who) {
            e.1.push(what)
        } else {
            g.push((who.to_string(), vec![what]))
        }
    }
    pub fn get(&self, who: &str) -> Vec<String> {
        let g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        g.iter().find(|e| e.0 == who).map(|e| e.1.clone()).unwrap_or_default()
    }
    pub fn all(&self) -> String {
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner()).clone();
        g.sort();
        g.iter().map(|(w, l)| format!("{w}:{}", l.join(","))).collect::<Vec<_>>().join(" ")
    }
}
/// Ways a participant can stop before the end of its protocol.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    Cancel,
    Return,
    Panic,
}
pub const STOPS: [Stop; 3] = [Stop::Cancel, Stop::Return, Stop::Panic];

/// Joins; Ok(()) or the panic text.
pub fn join(h: std::thread::JoinHandle<()>) -> Result<(), String> {
    h.join().map_err(|e| mcrt::rt::panic_text(&e))
}
pub fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}
pub mod nuscr;
