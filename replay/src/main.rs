//! Runs harness functions natively (real dependencies, x86-64) on given values.
//! Input lines: PROP TASK TIER c1,c2,...   Output: one line per input.
use harness::rt::{RUN, Run, Stop};
use std::io::BufRead;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let verbose = std::env::args().nth(1).as_deref() == Some("-v");
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = last.clone();
    std::panic::set_hook(Box::new(move |i| {
        *l2.lock().unwrap() = i.to_string().replace('\n', " ");
    }));
    (harness::INIT)();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split(' ').collect();
        if f.len() < 3 {
            continue;
        }
        let ch: Vec<usize> = f.get(3).map_or(vec![], |s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
        let (_, _, run) = *harness::PROPS.iter().find(|p| p.0 == f[0]).expect("property");
        let (task, tier): (usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap());
        RUN.with(|r| *r.borrow_mut() = Run { choices: ch, ..Run::default() });
        let r = std::panic::catch_unwind(|| run(task, tier));
        let out = match r {
            Ok(()) => "ok".to_string(),
            Err(e) => match e.downcast_ref::<Stop>() {
                Some(Stop::Check(l)) => format!("check {}", l),
                Some(Stop::Assume) => "assume".to_string(),
                Some(Stop::Choices) => "choices".to_string(),
                None => format!("panic {}", last.lock().unwrap()),
            },
        };
        RUN.with(|r| {
            let r = r.borrow();
            println!("{}\t{}", r.obs.iter().map(|o| hex(&o.1)).collect::<Vec<_>>().join(","), out);
            if verbose {
                for (l, b) in &r.obs {
                    println!("    {:<24} {:?}", l, String::from_utf8_lossy(b));
                }
            }
        });
    }
}
