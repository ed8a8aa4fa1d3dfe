//! Workloads and judges, one group per property.
pub mod auth;
pub mod conc;
pub mod dedup;
pub mod init;
pub mod leak;
pub mod msg;
pub mod obj;
pub mod ops;
pub mod otp;
pub mod pins;
pub mod rand;
pub mod sem;
pub mod tamp;
pub mod wild;

use crate::child::RunOut;
use crate::wl::*;
use crate::lin;
use crate::model::{M, Tok, Why};
use crate::plan::*;

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
}

#[derive(Default, Clone, Debug)]
pub struct JStats {
    pub lin: lin::LinStats,
    /// the run exercised what the property is about
    pub nontrivial: bool,
    /// the oracle failed
    pub lost: u64,
}

impl Scen {
    /// An oracle that trips over results it never thought of decides nothing
    /// about that run, and the search goes on.
    pub fn judged(&self, p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
        let f = self.judge;
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p, out, st))).unwrap_or_else(|_| {
            st.lost += 1;
            vec![]
        })
    }
}

pub type GenF = fn(&mut G);
pub type JudgeF = fn(&Plan, &RunOut, &mut JStats) -> Vec<Viol>;

#[derive(Clone, Copy)]
pub struct Scen {
    pub name: &'static str,
    pub weight: u32,
    pub gen_: GenF,
    pub judge: JudgeF,
}

pub fn scens(prop: &str) -> Vec<Scen> {
    match prop {
        "P01" => obj::p01(),
        "P02" => obj::p02(),
        "P03" => obj::p03(),
        "P04" => pins::p04(),
        "P05" => pins::p05(),
        "P06" => pins::p06(),
        "P07" => conc::p07(),
        "P08" => leak::p08(),
        "P09" => sem::p09(),
        "P10" => sem::p10(),
        "P11" => sem::p11(),
        "P20" => sem::p20(),
        "P27" => sem::p27(),
        "P28" => sem::p28(),
        "P29" => sem::p29(),
        "P35" => dedup::p35(),
        "P22" => init::p22(),
        "P23" => otp::p23(),
        "P24" => msg::p24(),
        "P25" => rand::p25(),
        "P21" => wild::p21(),
        "P16" => ops::p16(),
        "P26" => auth::p26(),
        "P19" => tamp::p19(),
        "P18" => ops::p18(),
        "P12" => conc::p12(),
        "P13" => conc::p13(),
        "P14" => conc::p14(),
        "P15" => conc::p15(),
        _ => vec![],
    }
}

pub fn image_model(image: &str) -> M {
    let mut m = M::default();
    let fresh = image.ends_with('0');
    let base = image.trim_end_matches('0');
    let tok = |nss: bool| Tok {
        init: !fresh,
        label: if fresh || nss { None } else { Some(LABEL.into()) },
        so: if fresh || nss { None } else { Some(SO.into()) },
        user: if fresh { None } else { Some(USER.into()) },
        nss,
        ..Default::default()
    };
    let v: &[(u64, bool)] = match base {
        "sq" => &[(1, false)],
        "two" => &[(1, false), (2, false)],
        "nss" => &[(1, true)],
        "mix" => &[(1, false), (2, true)],
        "bad" => &[(1, false)],
        _ => panic!("image {image}"),
    };
    for (s, n) in v {
        m.toks.insert(*s, tok(*n));
    }
    m
}

fn panic_of(o: &IncOut) -> String {
    let mut last = String::new();
    for e in &o.ev {
        if let Ev::Note { s } = e {
            if s.starts_with("panic: ") {
                last = s.clone();
            }
        }
    }
    last
}

/// ends that no property allows: aborts, deadlocks, calls that never return
pub fn ends(out: &RunOut) -> Option<Viol> {
    for (k, i) in out.incs.iter().enumerate() {
        let (sig, d) = match &i.status {
            Status::Done | Status::Killed | Status::PowerLost | Status::Running => continue,
            Status::Deadlock(d) => ("deadlock".to_string(), d.clone()),
            Status::Livelock => ("livelock".to_string(), "a call does not return".into()),
            Status::Timeout => ("timeout".to_string(), "a call does not return".into()),
            Status::Exit(c) => (format!("exit-{c}"), "the process ended".into()),
            Status::Signal(s) => {
                let p = panic_of(i);
                // where: file only, lines move
                let file = p
                    .split("panicked at ")
                    .nth(1)
                    .and_then(|x| x.split(':').next())
                    .unwrap_or("")
                    .rsplit('/')
                    .next()
                    .unwrap_or("")
                    .to_string();
                (format!("signal-{s}:{file}"), p)
            }
        };
        let at = match i.ev.iter().rev().find(|e| matches!(e, Ev::Inv { .. })) {
            Some(Ev::Inv { c, id }) => format!("last call op{id} of client {c}"),
            _ => String::new(),
        };
        return Some(Viol {
            sig,
            detail: format!("incarnation {k}: {d} {at}"),
        });
    }
    None
}

pub fn from_why(w: Why) -> Viol {
    Viol {
        sig: w.sig,
        detail: w.detail,
    }
}

/// the usual judge: ends, then the reference model
pub fn judge_model(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let o = lin::Opts {
        lenient: p.knobs.get("lenient").copied().unwrap_or(0) != 0,
        ..Default::default()
    };
    st.nontrivial = true;
    match lin::check_model(p, out, image_model(&p.image), &o, &mut st.lin) {
        Ok(()) => vec![],
        Err(w) => vec![from_why(w)],
    }
}
