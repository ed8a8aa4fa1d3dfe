//! ksim: deterministic simulation of kryoptic with fault injection.
#![allow(static_mut_refs)]
mod aes;
mod child;
mod conf;

mod wild;
mod wl;
mod hash;
mod keys;
mod lin;
mod minim;
mod model;
mod p11;
mod plan;
mod rng;
mod scen;
mod sched;
mod seam;
mod simfs;
mod tamper;

use plan::*;
use scen::{JStats, Scen, Viol};
use serde::{Deserialize, Serialize};
use simfs::Image;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, Write};
use seam::Wall;

pub fn verif() -> String {
    std::env::var("KSIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

// -------------------------------------------------------- the warm parent

struct Warm {
    images: BTreeMap<String, Image>,
}

fn inc_of(ops: Vec<Op>) -> Inc {
    Inc {
        pre: ops
            .into_iter()
            .enumerate()
            .map(|(i, op)| OpRec {
                id: i as u32 + 1,
                op,
                must: true,
                tag: 0,
            })
            .collect(),
        ..Default::default()
    }
}

fn token_setup(slot: u64, s: V, nss: bool) -> Vec<Op> {
    use wl::{LABEL, SO, USER};
    use kryoptic_lib::pkcs11::*;
    let mut v = vec![];
    let pin = if nss { "" } else { SO };
    v.push(Op::InitToken {
        slot,
        pin: SO.into(),
        label: LABEL.into(),
    });
    v.push(Op::Open { slot, rw: true, s });
    v.push(Op::Login {
        s,
        u: CKU_SO,
        pin: pin.into(),
    });
    v.push(Op::InitPin { s, pin: USER.into() });
    v.push(Op::Logout { s });
    v.push(Op::Close { s });
    v
}

fn warm() -> Warm {
    conf::setup();
    simfs::register();
    seam::enable();
    child::setup_shm();
    let mut w = Warm {
        images: BTreeMap::new(),
    };
    // load providers, lazy statics etc. once, before forking
    {
        let (r, _) = p11::exec(&Op::Init { conf: "sq".into() });
        if r.rv != 0 {
            eprintln!("warm-up: C_Initialize 0x{:x}", r.rv);
            std::process::exit(3);
        }
        p11::exec(&Op::Fini);
        simfs::load(&Image::new());
    }
    for c in ["sq", "two", "nss", "mix"] {
        w.images.insert(format!("{c}0"), Image::new());
        let mut ops = vec![Op::Init { conf: c.into() }];
        match c {
            "sq" => ops.extend(token_setup(1, 1, false)),
            "nss" => ops.extend(token_setup(1, 1, true)),
            "two" => {
                ops.extend(token_setup(1, 1, false));
                ops.extend(token_setup(2, 2, false));
            }
            _ => {
                ops.extend(token_setup(1, 1, false));
                ops.extend(token_setup(2, 2, true));
            }
        }
        ops.push(Op::Fini);
        let p = Plan {
            seed: 42,
            incs: vec![inc_of(ops)],
            ..Default::default()
        };
        let (o, img) = child::run_inc(&p, 0, &Image::new());
        let ok = o.status == Status::Done
            && o.calls().iter().all(|c| c.res.as_ref().is_some_and(|r| r.rv == 0));
        if !ok {
            // The library cannot even set up a token: every check that needs
            // this image reports it as a run that ended that way.
            eprintln!("template {c}: {:?}", o.status);
            for c in o.calls() {
                eprintln!("  op{} {:?}", c.id, c.res.map(|r| r.rv));
            }
        }
        w.images.insert(c.into(), img);
    }
    w.images.insert("bad0".into(), Image::new());
    let sq = w.images["sq"].clone();
    w.images.insert("bad".into(), sq);
    w
}

impl Warm {
    fn get(&self) -> impl Fn(&str) -> Image + '_ {
        |n: &str| {
            self.images
                .get(n)
                .unwrap_or_else(|| panic!("no image {n}"))
                .clone()
        }
    }
}

// ------------------------------------------------------------------ findings

#[derive(Clone, Debug)]
struct Known {
    prop: String,
    sig: String,
    text: String,
    replay: String,
    what: String,
}

/// lines: finding: property=P19 sig=<sig> match=<text in the detail, ~ for
/// spaces> replay=<plan> <what fails>
fn known(prop: &str) -> Vec<Known> {
    let f = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    let mut v = vec![];
    for l in f.lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let mut k = Known {
            prop: String::new(),
            sig: String::new(),
            text: String::new(),
            replay: String::new(),
            what: String::new(),
        };
        for w in r.split(' ') {
            if let Some(x) = w.strip_prefix("property=") {
                k.prop = x.into();
            } else if let Some(x) = w.strip_prefix("sig=") {
                k.sig = x.replace('~', " ");
            } else if let Some(x) = w.strip_prefix("match=") {
                k.text = x.replace('~', " ");
            } else if let Some(x) = w.strip_prefix("replay=") {
                k.replay = x.into();
            } else {
                if !k.what.is_empty() {
                    k.what.push(' ');
                }
                k.what.push_str(w);
            }
        }
        if k.prop == prop {
            v.push(k);
        }
    }
    v
}

fn is_known(k: &[Known], v: &Viol) -> Option<usize> {
    let s = v.sig.strip_prefix("lin:").unwrap_or(&v.sig);
    k.iter()
        .position(|k| k.sig == s && (k.text.is_empty() || v.detail.contains(&k.text)))
}

// -------------------------------------------------------------------- worker

#[derive(Serialize, Deserialize, Default, Clone)]
struct Tot {
    runs: u64,
    incs: u64,
    ops: u64,
    sim_ns: u64,
    faults: BTreeMap<String, u64>,
    planned: u64,
    hashes: Vec<u64>,
    switches: u64,
    preempts: u64,
    blocks: u64,
    edges: u64,
    nontrivial: u64,
    gave_up: u64,
    lin_nodes: u64,
    ends: BTreeMap<String, u64>,
    per_op: BTreeMap<String, [u64; 2]>,
    scens: BTreeMap<String, u64>,
    known: BTreeMap<usize, u64>,
    cov: String,
    samples: Vec<String>,
    io: [u64; 4],
    rng_calls: u64,
}

#[derive(Serialize, Deserialize)]
enum Msg {
    Viol { plan: Plan, orig: u64, sig: String, detail: String, tries: u64 },
    Tot(Box<Tot>),
}

fn seed_of(prop: &str, base: u64, idx: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    rng::mix(rng::mix(base, h), idx)
}

fn make_plan(prop: &str, base: u64, idx: u64, thorough: bool) -> (Plan, Scen) {
    let seed = seed_of(prop, base, idx);
    let sc = scen::scens(prop);
    let mut g = wl::G::new(prop, seed, thorough);
    let w: Vec<u32> = sc.iter().map(|s| s.weight).collect();
    let s = sc[g.r.weighted(&w)];
    (s.gen_)(&mut g);
    g.p.scen = s.name.into();
    (g.p, s)
}

fn find_scen(p: &Plan) -> Option<Scen> {
    scen::scens(&p.prop).into_iter().find(|s| s.name == p.scen)
}

fn opname(op: &Op) -> String {
    let s = format!("{:?}", op);
    s.split([' ', '{', '(']).next().unwrap_or("").to_string()
}

fn account(t: &mut Tot, p: &Plan, out: &child::RunOut, st: &JStats) {
    t.runs += 1;
    t.gave_up += st.lost;
    let ops = p.ops();
    let mut h = 0u64;
    for (k, i) in out.incs.iter().enumerate() {
        t.incs += 1;
        t.sim_ns += i.meta.now;
        t.switches += i.meta.switches;
        t.preempts += i.meta.npreempt;
        t.blocks += i.meta.blocks;
        t.edges += i.meta.edges;
        t.rng_calls += i.meta.rng_calls;
        t.io[0] += i.meta.fs.reads;
        t.io[1] += i.meta.fs.writes;
        t.io[2] += i.meta.fs.syncs;
        t.io[3] += i.meta.fs.bytes;
        h = rng::mix(h, i.meta.hash);
        let e = match &i.status {
            Status::Done => {
                if p.incs[k].end_power {
                    "power loss at end"
                } else {
                    "end"
                }
            }
            Status::Killed => "killed",
            Status::PowerLost => "power loss",
            Status::Deadlock(_) => "deadlock",
            Status::Livelock => "livelock",
            Status::Signal(_) => "signal",
            _ => "other",
        };
        *t.ends.entry(e.into()).or_default() += 1;
        t.planned += p.incs[k].faults.len() as u64;
        for e in &i.ev {
            match e {
                Ev::Fault { io, kind, .. } => {
                    let kn = match kind {
                        FaultKind::Busy(_) => "Busy".to_string(),
                        x => format!("{x:?}"),
                    };
                    *t.faults.entry(format!("{kn}@{io:?}")).or_default() += 1;
                    h = rng::mix(h, 0x77 + *io as u64);
                }
                Ev::Note { s } if s.starts_with("tamper") => {
                    *t.faults.entry("stored bytes changed".into()).or_default() += 1;
                }
                Ev::Ret { id, r, .. } => {
                    t.ops += 1;
                    if let Some(o) = ops.get(id) {
                        if r.rv != SKIP {
                            let c = t.per_op.entry(opname(&o.op)).or_default();
                            c[(r.rv != 0) as usize] += 1;
                        }
                        h = rng::mix(h, (*id as u64) << 32 ^ r.rv);
                    }
                }
                _ => {}
            }
        }
    }
    t.hashes.push(h);
    *t.scens.entry(p.scen.clone()).or_default() += 1;
    t.nontrivial += st.nontrivial as u64;
    t.gave_up += st.lin.gave_up as u64;
    t.lin_nodes += st.lin.nodes;
}

fn sample(p: &Plan, out: &child::RunOut) -> String {
    let mut s = format!("seed {} scenario {}: ", p.seed, p.scen);
    let ops = p.ops();
    let mut n = 0;
    for (k, i) in out.incs.iter().enumerate() {
        s.push_str(&format!("[inc {k}] "));
        for e in &i.ev {
            match e {
                Ev::Ret { c, id, r } if n < 40 => {
                    n += 1;
                    s.push_str(&format!("c{c}:{}=0x{:x} ", opname(&ops[id].op), r.rv));
                }
                Ev::Fault { io, kind, .. } if n < 40 => s.push_str(&format!("<{kind:?}@{io:?}> ")),
                _ => {}
            }
        }
        s.push_str(&format!("-> {:?}; ", i.status));
    }
    s
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<String> {
        let i = self.0.iter().position(|x| x == k)?;
        self.0.get(i + 1).cloned()
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}

fn emit(m: &Msg) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{}", serde_json::to_string(m).unwrap());
    let _ = o.flush();
}

fn worker(a: &Args) {
    let prop = a.get("--property").unwrap();
    let base = a.num("--seed", 1);
    let part = a.num("--part", 0);
    let parts = a.num("--parts", 1);
    let runs = a.num("--runs", 100);
    let first = a.num("--first", 0);
    let secs = a.num("--secs", 30);
    let minsecs = a.num("--minsecs", 20);
    let thorough = a.get("--tier").as_deref() == Some("thorough");
    let t0 = Wall::now();
    let w = warm();
    let tm = w.get();
    let kn = known(&prop);
    let mut t = Tot::default();
    let mut sigs: HashSet<String> = HashSet::new();
    let mut idx = first + part;
    while idx < first + runs && t0.secs() < secs as f64 {
        let (p, s) = make_plan(&prop, base, idx, thorough);
        let out = child::run_plan(&p, &tm);
        let mut st = JStats::default();
        let v = s.judged(&p, &out, &mut st);
        account(&mut t, &p, &out, &st);
        if t.samples.is_empty() && part == 0 {
            t.samples.push(sample(&p, &out));
        }
        for x in &v {
            if let Some(i) = is_known(&kn, x) {
                *t.known.entry(i).or_default() += 1;
                continue;
            }
            let cl = x.sig.strip_prefix("lin:").unwrap_or(&x.sig).to_string();
            if sigs.contains(&cl) || sigs.len() >= 3 {
                continue;
            }
            sigs.insert(cl);
            let left = (secs + 30).saturating_sub(t0.secs() as u64).min(minsecs).max(5);
            let (q, tries) = minim::minimise(s, &tm, &p, &x.sig, left);
            let out2 = child::run_plan(&q, &tm);
            let mut st2 = JStats::default();
            let v2 = s.judged(&q, &out2, &mut st2);
            let fin = v2
                .iter()
                .find(|y| {
                    y.sig.strip_prefix("lin:").unwrap_or(&y.sig)
                        == x.sig.strip_prefix("lin:").unwrap_or(&x.sig)
                })
                .cloned();
            let (plan, y) = match fin {
                Some(y) => (q, y),
                None => (p.clone(), x.clone()),
            };
            if is_known(&kn, &y).is_some() {
                continue;
            }
            emit(&Msg::Viol {
                plan,
                orig: p.nops() as u64,
                sig: y.sig,
                detail: y.detail,
                tries,
            });
        }
        idx += parts;
    }
    let cov = unsafe { std::slice::from_raw_parts(sched::COVP, sched::NCOV) };
    let bits: Vec<u8> = cov
        .chunks(8)
        .map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | ((*b & 1) << i)))
        .collect();
    t.cov = hex(&bits);
    emit(&Msg::Tot(Box::new(t)));
}

// -------------------------------------------------------------------- replay

fn show(p: &Plan, out: &child::RunOut) {
    let ops = p.ops();
    for (k, i) in out.incs.iter().enumerate() {
        println!("== incarnation {k}: {:?}", i.status);
        for e in &i.ev {
            match e {
                Ev::Inv { c, id } => println!("  c{c} > op{id} {}", lin::short(&ops[id].op)),
                Ev::Ret { c, id, r } => {
                    let mut s = format!("  c{c} < op{id} rv=0x{:x}", r.rv);
                    if !r.h.is_empty() {
                        s += &format!(" h={:?}", r.h);
                    }
                    if !r.n.is_empty() {
                        s += &format!(" n={:?}", r.n);
                    }
                    if let Some(o) = &r.out {
                        s += &format!(" out[{}]={}", o.0.len(), hex(&o.0[..o.0.len().min(32)]));
                    }
                    for (a, v) in &r.a {
                        s += &format!(" {}", model::fmt_attr(*a, v));
                    }
                    println!("{s}");
                    for (h, rv, v) in &r.objs {
                        let at: Vec<String> = v.iter().filter(|x| x.1.is_some()).map(|x| model::fmt_attr(x.0, &x.1)).collect();
                        println!("       obj {h} rv=0x{rv:x} {}", at.join(" "));
                    }
                }
                Ev::Fault { id, io, kind, file } => {
                    println!("  !! fault in op{id}: {kind:?} at {io:?} of {file}")
                }
                Ev::Note { s } => println!("  ## {s}"),
                Ev::Vars { .. } => {}
            }
        }
        for l in &i.meta.leaks {
            println!("  ## leak: {l}");
        }
    }
}

fn replay(file: &str, verbose: bool) -> i32 {
    let Ok(b) = std::fs::read(file) else {
        eprintln!("cannot read {file}");
        return 3;
    };
    let p: Plan = match serde_json::from_slice(&b) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("bad plan: {e}");
            return 3;
        }
    };
    let Some(s) = find_scen(&p) else {
        eprintln!("no scenario {} {}", p.prop, p.scen);
        return 3;
    };
    let w = warm();
    let tm = w.get();
    let out = child::run_plan(&p, &tm);
    let mut st = JStats::default();
    let v = s.judged(&p, &out, &mut st);
    if verbose {
        show(&p, &out);
    }
    for x in &v {
        println!("violation: [{}] {}", x.sig, x.detail);
    }
    if v.is_empty() {
        println!("no violation");
        0
    } else {
        println!("VIOLATION property={} replay={}", p.prop, file);
        1
    }
}

/// event log of a run, for comparing two runs of one seed
fn fingerprint(out: &child::RunOut) -> u64 {
    let mut h = 0u64;
    for (i, img) in out.incs.iter().zip(&out.images) {
        let mut s = format!("{:?}", i.status);
        for e in &i.ev {
            s += &serde_json::to_string(e).unwrap();
        }
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h = rng::mix(h, i.meta.hash);
        h = rng::mix(h, i.meta.edges);
        for (k, d) in img {
            for b in k.bytes().chain(d.iter().copied()) {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    h
}

// --------------------------------------------------------------------- check

fn quick_runs(_prop: &str) -> u64 {
    100_000
}

fn check(a: &Args) -> i32 {
    let prop = a.get("--property").unwrap();
    let thorough = a.get("--tier").as_deref() == Some("thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let jobs = a.num("--jobs", 8);
    let secs = a.num("--secs", if thorough { 600 } else { 16 });
    let runs = a.num("--runs", if thorough { 1 << 40 } else { quick_runs(&prop) });
    let t0 = Wall::now();
    if scen::scens(&prop).is_empty() {
        eprintln!("no scenario for {prop}");
        return 3;
    }
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for k in 0..jobs {
        let mut c = std::process::Command::new(&exe);
        c.args([
            "worker",
            "--property",
            &prop,
            "--seed",
            &seed.to_string(),
            "--part",
            &k.to_string(),
            "--parts",
            &jobs.to_string(),
            "--runs",
            &runs.to_string(),
            "--secs",
            &secs.to_string(),
            "--first",
            &a.num("--first", 0).to_string(),
            "--tier",
            if thorough { "thorough" } else { "quick" },
        ])
        .stdout(std::process::Stdio::piped());
        kids.push(c.spawn().expect("cannot start worker"));
    }
    let (tx, rx) = std::sync::mpsc::channel();
    for k in kids.iter_mut() {
        let o = k.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(o).lines() {
                let Ok(l) = l else { break };
                if let Ok(m) = serde_json::from_str::<Msg>(&l) {
                    let _ = tx.send(m);
                }
            }
        });
    }
    drop(tx);
    let mut tot = Tot::default();
    let mut cov: Vec<u8> = vec![];
    let mut viols: BTreeMap<String, (Plan, u64, String, String, u64)> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut ntot = 0;
    for m in rx {
        match m {
            Msg::Viol { plan, orig, sig, detail, tries } => {
                let cl = sig.strip_prefix("lin:").unwrap_or(&sig).to_string();
                let better = match viols.get(&cl) {
                    Some(o) => plan.nops() < o.0.nops(),
                    None => true,
                };
                if better {
                    viols.insert(cl, (plan, orig, sig, detail, tries));
                }
            }
            Msg::Tot(t) => {
                ntot += 1;
                merge(&mut tot, &t);
                hashes.extend(&t.hashes);
                let b = unhex(&t.cov).unwrap_or_default();
                if cov.is_empty() {
                    cov = b;
                } else {
                    for (x, y) in cov.iter_mut().zip(b) {
                        *x |= y;
                    }
                }
            }
        }
    }
    let mut bad = 0;
    for mut k in kids {
        match k.wait() {
            Ok(s) if s.success() => {}
            s => {
                eprintln!("worker ended: {s:?}");
                bad += 1;
            }
        }
    }
    if ntot == 0 || tot.runs == 0 {
        eprintln!("no worker finished ({bad} failed)");
        return 3;
    }
    // listed findings are replayed and reported
    let kn = known(&prop);
    let mut kn_lines = vec![];
    if !kn.is_empty() {
        for (i, k) in kn.iter().enumerate() {
            let f = format!("{}/{}", verif(), k.replay);
            let o = std::process::Command::new(&exe).args(["replay", &f]).output();
            let hit = match &o {
                Ok(o) => {
                    let s = String::from_utf8_lossy(&o.stdout).to_string();
                    s.contains(&format!("violation: [{}]", k.sig)) || s.contains(&format!("violation: [lin:{}]", k.sig))
                }
                Err(_) => false,
            };
            if hit || tot.known.contains_key(&i) {
                println!("KNOWN-FINDING: property={prop} {}", k.what);
                kn_lines.push(k.what.clone());
            } else {
                println!("note: listed finding no longer reproduces: {}", k.what);
            }
        }
    }
    let mut reps = vec![];
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    for (n, (_, (plan, orig, sig, detail, tries))) in viols.iter().enumerate() {
        let f = format!("{dir}/{prop}-{n}.json");
        std::fs::write(&f, serde_json::to_string_pretty(plan).unwrap()).expect("cannot write replay");
        // must fail the same way in a fresh process
        let o = std::process::Command::new(&exe).args(["replay", &f]).output();
        let same = matches!(&o, Ok(o) if o.status.code() == Some(1));
        println!(
            "violation [{sig}] seed={} ({} ops, from {orig}; {tries} minimisation runs; replayed in a fresh process: {}): {detail}",
            plan.seed,
            plan.nops(),
            if same { "same" } else { "NOT reproduced" }
        );
        println!("VIOLATION property={prop} replay={f}");
        reps.push(serde_json::json!({"sig": sig, "detail": detail, "replay": f, "seed": plan.seed, "ops": plan.nops()}));
    }
    let wall = t0.secs();
    let covn: u32 = cov.iter().map(|b| b.count_ones()).sum();
    let perh = |n: u64| (n as f64 * 3600.0 / wall).round() as u64;
    let ev = serde_json::json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": hashes.len().min(tot.nontrivial as usize),
            "rule": "a run counts as distinct by the hash of its context switches (which code edge, which threads), faults fired and results of all calls; it is non-trivial when its history was judged against the reference model or the property's own oracle to the end",
            "samples": tot.samples,
            "runs_per_hour": perh(tot.runs),
            "seeds_per_hour": perh(tot.runs),
            "incarnations": tot.incs,
            "calls": tot.ops,
            "simulated_seconds": tot.sim_ns as f64 / 1e9,
            "faults_injected": tot.faults,
            "faults_planned": tot.planned,
            "process_ends": tot.ends,
            "scenarios": tot.scens,
            "distinct_runs": hashes.len(),
            "context_switches": tot.switches,
            "preemptions_at_code_edges": tot.preempts,
            "lock_waits": tot.blocks,
            "edges_executed": tot.edges,
            "edges_covered": covn,
            "edges_instrumented": sched::total_edges(),
            "calls_ok_failed": tot.per_op,
            "disk": {"reads": tot.io[0], "writes": tot.io[1], "syncs": tot.io[2], "bytes_written": tot.io[3]},
            "random_source_uses": tot.rng_calls,
            "linearization_nodes": tot.lin_nodes,
            "inconclusive_runs": tot.gave_up,
            "known_findings_met": kn_lines,
            "real": "kryoptic library (all of /repo/src and /repo/ossl), std locks, rusqlite and SQLite core, OpenSSL libcrypto",
            "stub": "SQLite VFS (disk and file locks), futex waiting, thread scheduling, clock, sleep, getrandom and the OpenSSL random generator's output",
        },
        "wall_s": wall,
        "violations": reps.len(),
        "violation_list": reps,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(
        format!("{}/evidence/{prop}.json", verif()),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("cannot write evidence");
    println!(
        "{prop}: {} runs, {} distinct, {} calls, {:.1}s, faults {:?}, inconclusive {}",
        tot.runs, hashes.len(), tot.ops, wall, tot.faults, tot.gave_up
    );
    if a.get("--ops").is_some() {
        println!("{:?}", tot.per_op);
        println!("{:?} {:?} known {:?}", tot.scens, tot.ends, tot.known);
    }
    if !viols.is_empty() {
        1
    } else if bad > 0 {
        3
    } else {
        0
    }
}

fn merge(a: &mut Tot, b: &Tot) {
    a.runs += b.runs;
    a.incs += b.incs;
    a.ops += b.ops;
    a.sim_ns += b.sim_ns;
    a.planned += b.planned;
    a.switches += b.switches;
    a.preempts += b.preempts;
    a.blocks += b.blocks;
    a.edges += b.edges;
    a.nontrivial += b.nontrivial;
    a.gave_up += b.gave_up;
    a.lin_nodes += b.lin_nodes;
    a.rng_calls += b.rng_calls;
    for i in 0..4 {
        a.io[i] += b.io[i];
    }
    for (x, y) in [(&mut a.faults, &b.faults), (&mut a.ends, &b.ends), (&mut a.scens, &b.scens)] {
        for (k, v) in y {
            *x.entry(k.clone()).or_default() += v;
        }
    }
    for (k, v) in &b.known {
        *a.known.entry(*k).or_default() += v;
    }
    for (k, v) in &b.per_op {
        let e = a.per_op.entry(k.clone()).or_default();
        e[0] += v[0];
        e[1] += v[1];
    }
    a.samples.extend(b.samples.iter().cloned());
}

fn main() {
    let a = Args(std::env::args().skip(1).collect());
    let cmd = a.0.first().cloned().unwrap_or_default();
    let rc = match cmd.as_str() {
        "check" => check(&a),
        "worker" => {
            worker(&a);
            0
        }
        "replay" => {
            let v = a.0.iter().any(|x| x == "-v");
            replay(&a.0[1], v)
        }
        "gen" => {
            let th = a.get("--tier").as_deref() == Some("thorough");
            let (p, _) = make_plan(&a.get("--property").unwrap(), a.num("--seed", 1), a.num("--idx", 0), th);
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        "run" => {
            // one generated plan, shown
            let th = a.get("--tier").as_deref() == Some("thorough");
            let (p, s) = make_plan(&a.get("--property").unwrap(), a.num("--seed", 1), a.num("--idx", 0), th);
            let w = warm();
            let tm = w.get();
            let out = child::run_plan(&p, &tm);
            show(&p, &out);
            let mut st = JStats::default();
            for x in s.judged(&p, &out, &mut st) {
                println!("violation: [{}] {}", x.sig, x.detail);
            }
            0
        }
        "fingerprints" => {
            // determinism: one line per seed
            let w = warm();
            let tm = w.get();
            let props: BTreeSet<String> = match a.get("--property") {
                Some(p) => [p].into(),
                None => (1..=29).map(|i| format!("P{i:02}")).collect(),
            };
            let n = a.num("--runs", 5);
            let first = a.num("--first", 0);
            for p in props {
                if scen::scens(&p).is_empty() {
                    continue;
                }
                for i in first..first + n {
                    let (pl, _) = make_plan(&p, a.num("--seed", 1), i, false);
                    let out = child::run_plan(&pl, &tm);
                    println!("{p} {i} {:016x}", fingerprint(&out));
                }
            }
            0
        }
        _ => {
            eprintln!("usage: ksim check|replay|gen|run|fingerprints ...");
            3
        }
    };
    std::process::exit(rc);
}
