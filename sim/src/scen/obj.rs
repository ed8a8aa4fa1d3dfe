//! Stored objects under crashes and storage errors.
use super::*;
use crate::sched::SchedSpec;

/// a plan of several incarnations of one token: object changes, each ended by
/// a crash, a power loss or a clean end, with an audit after each restart
fn storage(g: &mut G, conf: &str, slot: u64, w: &W, crash: u64, ioerr: u64, conc: u64) {
    // NSS databases hold no data objects
    let k = if conf == "nss" {
        vec![K::Aes, K::Aes, K::Gen, K::Rsa, K::RsaPriv, K::EcImp, K::Cert, K::Trust]
    } else {
        vec![K::Data, K::Data, K::Aes, K::Aes, K::Gen, K::Rsa, K::RsaPriv, K::EcImp, K::Otp, K::Cert, K::Trust]
    };
    storage_of(g, conf, slot, w, crash, ioerr, conc, k)
}

pub fn storage_of(g: &mut G, conf: &str, slot: u64, w: &W, crash: u64, ioerr: u64, conc: u64, kinds: Vec<K>) {
    g.p.image = conf.into();
    g.p.lazy_unlink = g.pct(30);
    g.kinds = kinds;
    let file = "";
    let ninc = 2 + g.r.below(if g.thorough { 4 } else { 3 }) as usize;
    for k in 0..=ninc {
        let last = k == ninc;
        let (mut pre, s) = g.start(conf, slot, true);
        let a = g.audit(s);
        pre.push(g.op(a));
        // objects of earlier incarnations, found again
        let old: Vec<GO> = g.objs.iter().filter(|o| o.token).cloned().collect();
        g.objs.retain(|o| o.token);
        let mut some: Vec<GO> = old;
        while some.len() > 5 {
            let i = g.r.idx(some.len());
            some.remove(i);
        }
        let mut inc = Inc::default();
        let mut targets: Vec<u32> = vec![];
        if last {
            for o in &some {
                pre.push(g.locate(s, o));
                pre.push(g.op(Op::Probe { s, o: o.v }));
            }
            pre.push(g.op(Op::Fini));
            inc.pre = pre;
            inc.sched = SchedSpec { seed: g.r.next(), ..Default::default() };
            g.p.incs.push(inc);
            break;
        }
        for o in &some {
            pre.push(g.locate(s, o));
        }
        let two = g.pct(conc);
        if two {
            let nc = 2 + g.r.below(2) as usize;
            for _ in 0..nc {
                let cs = if g.pct(30) {
                    s
                } else {
                    let cs = g.v();
                    pre.push(g.op(Op::Open { slot, rw: true, s: cs }));
                    cs
                };
                let n = 2 + g.r.idx(4);
                let mut ops = vec![];
                // what takes several calls would meet other clients' calls
                let w = &if cs == s { w.single() } else { w.clone() };
                for _ in 0..n {
                    let o = g.objop(cs, slot, w);
                    targets.push(o.id);
                    ops.push(o);
                }
                inc.clients.push(ops);
            }
        } else {
            let n = 2 + g.r.idx(8);
            for _ in 0..n {
                let o = g.objop(s, slot, w);
                targets.push(o.id);
                pre.push(o);
            }
        }
        inc.pre = pre;
        let nf = if g.pct(ioerr) { 1 + g.r.idx(2) } else { 0 };
        for _ in 0..nf {
            let t = *g.r.pick(&targets);
            let f = g.io_fault(t, file);
            inc.faults.push(f);
        }
        if g.pct(crash) {
            let t = *g.r.pick(&targets);
            let f = g.crash_fault(t);
            inc.faults.push(f);
        } else {
            inc.end_power = g.pct(50);
        }
        let a = g.audit(s);
        inc.post.push(g.op(a));
        if g.pct(20) {
            inc.post.push(g.op(Op::Fini));
        }
        inc.sched = g.sched(two);
        g.p.incs.push(inc);
    }
}

/// a database from before some attributes existed, completed by the library
/// whenever it opens it, unless that is interrupted
fn upgrade(g: &mut G) {
    storage(g, "nss", 1, &WCHANGE, 30, 0, 10);
    let dir = crate::conf::DIR.to_string();
    let n = g.p.incs.len();
    for k in 1..n {
        let seed = g.r.next();
        if g.pct(60) {
            g.p.incs[k].tamper.push(Tamper::Old { dir: dir.clone(), seed });
            if k + 1 < n && g.pct(40) {
                let id = g.p.incs[k].pre[0].id;
                let mut f = g.crash_fault(id);
                f.nth = g.r.below(60) as u32;
                g.p.incs[k].faults.push(f);
            }
        }
    }
}

pub fn p01() -> Vec<Scen> {
    vec![
        Scen {
            name: "crash",
            weight: 6,
            gen_: |g| storage(g, "sq", 1, &WCHANGE, 70, 0, 25),
            judge: judge_model,
        },
        Scen {
            name: "crash+io",
            weight: 2,
            gen_: |g| storage(g, "sq", 1, &WCHANGE, 60, 60, 25),
            judge: judge_model,
        },
    ]
}

pub fn p02() -> Vec<Scen> {
    vec![
        Scen {
            name: "io",
            weight: 6,
            gen_: |g| storage(g, "sq", 1, &WCHANGE, 15, 90, 20),
            judge: judge_model,
        },
        Scen {
            name: "io+crash",
            weight: 3,
            gen_: |g| storage(g, "sq", 1, &WCHANGE, 70, 70, 20),
            judge: judge_model,
        },
    ]
}

pub fn p03() -> Vec<Scen> {
    vec![
        Scen {
            name: "crash",
            weight: 5,
            gen_: |g| storage(g, "nss", 1, &WCHANGE, 70, 0, 20),
            judge: judge_model,
        },
        Scen {
            name: "io",
            weight: 4,
            gen_: |g| storage(g, "nss", 1, &WCHANGE, 20, 80, 20),
            judge: judge_model,
        },
        Scen {
            name: "upgrade",
            weight: 3,
            gen_: upgrade,
            judge: judge_model,
        },
    ]
}
