mod dd;
mod exec;
mod expr;
mod fx;
mod ll;
mod mem;
mod prog;
mod regex;
mod smt;
use exec::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn main() {
    // deep recursion over diagrams: run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(3);
    std::process::exit(r);
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// sx IR.ll PROP TIER SECONDS OUT.json [first-task [last-task]]
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a[1]).expect("read IR");
    let prop = a[2].clone();
    let tier: u64 = a[3].parse().unwrap();
    let secs: u64 = a[4].parse().unwrap();
    let (p, objs) = Prog::load(text);
    let p: &'static Prog = Box::leak(Box::new(p));
    let t_load = t0.elapsed().as_secs_f64();
    let rxt: &'static RegexTab = Box::leak(Box::new(RegexTab::new()));
    let sh: &'static Shared = Box::leak(Box::new(Shared {
        deadline: Instant::now() + Duration::from_secs(secs),
        per_task: Duration::from_secs(std::env::var("SX_TASK_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(600)),
        stop: AtomicBool::new(false),
        instrs: AtomicU64::new(0),
    }));
    let find = |n: &str| {
        let n = p.m.aliases.get(n).map_or(n, |x| x.as_str());
        p.m.fn_idx.get(n).copied()
    };
    let mut m = Mach::new(p, rxt, sh);
    let mut mm = mem::Mem::default();
    for (id, o) in objs {
        mm.insert(id, o);
    }
    let mut st = State::new(mm, p.nglobals);
    let init = find("h_init").expect("h_init");
    if let Err(e) = m.concrete(&mut st, init, &[]) {
        eprintln!("initialisation failed: {}", e);
        return 3;
    }
    let tasks_f = find(&format!("h_{}_tasks", prop)).expect("tasks function");
    let run_f = find(&format!("h_{}", prop)).expect("property function");
    let ntasks = match m.concrete(&mut st, tasks_f, &[tier]) {
        Ok(Some(n)) => n,
        r => {
            eprintln!("task count failed: {:?}", r);
            return 3;
        }
    };
    let t_init = t0.elapsed().as_secs_f64();
    let used0 = m.used.clone();
    // freeze
    let mut frozen: Vec<(u32, mem::Obj)> = vec![];
    st.mem.for_each(|id, o| frozen.push((id, o.clone())));
    let (nid, keys) = (st.next_id, st.keys);
    drop(st);
    drop(m);
    let lo: u64 = a.get(6).map_or(0, |x| x.parse().unwrap());
    let hi: u64 = a.get(7).map_or(if a.len() > 6 { lo + 1 } else { ntasks }, |x| x.parse().unwrap()).min(ntasks);
    let nthreads = std::env::var("SX_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize).min((hi - lo) as usize).max(1);
    let next = AtomicUsize::new(lo as usize);
    let results: Mutex<BTreeMap<u64, TaskOut>> = Mutex::new(BTreeMap::new());
    let used: Mutex<Vec<bool>> = Mutex::new(used0);
    let smtstat: Mutex<(u64, u64, u64, f64, f64)> = Mutex::new((0, 0, 0, 0.0, 0.0));
    let verbose = std::env::var("SX_V").is_ok();
    let prof = std::env::var("SX_PROF").is_ok();
    let report = || {
        let results = results.lock().unwrap();
        let used = used.lock().unwrap();
        let s = smtstat.lock().unwrap();
        let mut fns: Vec<String> = used
            .iter()
            .enumerate()
            .filter(|x| *x.1)
            .map(|x| p.dem[x.0].clone())
            .filter(|d| d.contains("rlibphonenumber"))
            .collect();
        fns.sort();
        fns.dedup();
        let nused = used.iter().filter(|x| **x).count();
        let mut j = String::from("{\n");
        let agg = |f: &dyn Fn(&TaskOut) -> u64| results.values().map(|t| f(t)).sum::<u64>();
        j += &format!(
            " \"prop\": {}, \"tier\": {}, \"tasks_total\": {}, \"tasks_run\": {}, \"timeouts\": {}, \"uncovered\": {},\n",
            json_str(&prop),
            tier,
            ntasks,
            results.len(),
            agg(&|t| t.timeout as u64),
            agg(&|t| (!t.timeout && !t.cover_ok) as u64)
        );
        j += &format!(
            " \"paths\": {}, \"assume_fail\": {}, \"forks\": {}, \"merges\": {}, \"instrs\": {}, \"checks_folded\": {}, \"checks_solver\": {}, \"rx_sym\": {}, \"rx_conc\": {},\n",
            agg(&|t| t.stats.paths),
            agg(&|t| t.stats.assume_fail),
            agg(&|t| t.stats.forks),
            agg(&|t| t.stats.merges),
            agg(&|t| t.stats.instrs),
            agg(&|t| t.stats.checks_const),
            agg(&|t| t.stats.checks_sym),
            agg(&|t| t.stats.searches_sym),
            agg(&|t| t.stats.searches_conc)
        );
        j += &format!(
            " \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"solver_secs\": {:.3}, \"max_query_secs\": {:.3}, \"z3\": {}, \"load_secs\": {:.2}, \"init_secs\": {:.2}, \"secs\": {:.2}, \"functions_executed\": {},\n",
            s.0, s.1, s.2, s.3, s.4, json_str(&smt::version()), t_load, t_init, t0.elapsed().as_secs_f64(), nused
        );
        let und: Vec<String> = results.iter().filter(|t| t.1.timeout || !t.1.errors.is_empty() || !t.1.cover_ok).map(|t| t.0.to_string()).collect();
        j += &format!(" \"undecided\": [{}],\n", und.join(", "));
        j += &format!(" \"functions\": [{}],\n", fns.iter().map(|f| json_str(f)).collect::<Vec<_>>().join(", "));
        let mut es = vec![];
        let mut vs = vec![];
        let mut ss = vec![];
        for (t, o) in results.iter() {
            for e in &o.errors {
                es.push(format!("{{\"task\": {}, \"error\": {}}}", t, json_str(e)));
            }
            for v in &o.viols {
                let ch: Vec<String> = v.choices.iter().map(|c| c.1.to_string()).collect();
                vs.push(format!("{{\"task\": {}, \"label\": {}, \"choices\": [{}]}}", t, json_str(&v.label), ch.join(", ")));
            }
            for s in &o.samples {
                let ch: Vec<String> = s.choices.iter().map(|c| c.to_string()).collect();
                let ob: Vec<String> = s.obs.iter().map(|b| json_str(&b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect();
                ss.push(format!("{{\"task\": {}, \"choices\": [{}], \"obs\": [{}]}}", t, ch.join(", "), ob.join(", ")));
            }
        }
        j += &format!(" \"errors\": [{}],\n \"violations\": [{}],\n \"samples\": [{}]\n}}\n", es.join(",\n  "), vs.join(",\n  "), ss.join(",\n  "));
        std::fs::write(&a[5], j).expect("write result");
    };
    let done = std::sync::atomic::AtomicBool::new(false);
    let left = AtomicUsize::new(nthreads);
    std::thread::scope(|sc| {
        // whatever hangs beyond the deadline stays undecided
        sc.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                if std::time::Instant::now() > sh.deadline + std::time::Duration::from_secs(20) {
                    report();
                    std::process::exit(0);
                }
            }
        });
        for _ in 0..nthreads {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, || {
                    let mut base = mem::Mem::default();
                    for (id, o) in &frozen {
                        base.insert(*id, o.clone());
                    }
                    let mut m = Mach::new(p, rxt, sh);
                    if std::env::var("SX_TRACE").is_ok() {
                        m.trace = true;
                    }
                    loop {
                        let t = next.fetch_add(1, Ordering::Relaxed) as u64;
                        if t >= hi {
                            break;
                        }
                        m.reset();
                        if prof {
                            m.prof = Some(Default::default());
                        }
                        let mut s = State::new(base.clone(), nid);
                        s.keys = keys;
                        m.task(s, run_f, &[t, tier]);
                        let o = std::mem::take(&mut m.out);
                        if verbose {
                            eprintln!(
                                "task {} {:.2}s paths {} af {} forks {} merges {} instrs {}M checks {}+{} rx {}/{} viol {} err {} cover {} timeout {} dd {}",
                                t, o.secs, o.stats.paths, o.stats.assume_fail, o.stats.forks, o.stats.merges, o.stats.instrs >> 20, o.stats.checks_const, o.stats.checks_sym,
                                o.stats.searches_conc, o.stats.searches_sym, o.viols.len(), o.errors.len(), o.cover_ok, o.timeout, m.cx.dd.nodes.len()
                            );
                            for e in &o.errors {
                                eprintln!("   error {}", e);
                            }
                            for v in &o.viols {
                                eprintln!("   violation {} {:?}", v.label, v.choices);
                            }
                        }
                        if let Some(pr) = &m.prof {
                            let mut v: Vec<_> = pr.iter().collect();
                            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
                            for (k, n) in v.iter().take(25) {
                                eprintln!("   {:8} {}", n, k);
                            }
                        }
                        results.lock().unwrap().insert(t, o);
                        let mut u = used.lock().unwrap();
                        for (i, b) in m.used.iter().enumerate() {
                            u[i] |= *b;
                        }
                        drop(u);
                        let mut s = smtstat.lock().unwrap();
                        s.0 += m.smt.queries;
                        s.1 += m.smt.sat;
                        s.2 += m.smt.unsat;
                        s.3 += m.smt.secs;
                        s.4 = s.4.max(m.smt.max_secs);
                        (m.smt.queries, m.smt.sat, m.smt.unsat, m.smt.secs) = (0, 0, 0, 0.0);
                    }
                    if left.fetch_sub(1, Ordering::Relaxed) == 1 {
                        done.store(true, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    report();
    0
}
