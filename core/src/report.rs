//! Three-valued verdicts, evidence and replay files.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

pub struct Cfg {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub only_case: Option<u64>,
}
impl Cfg {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(u64, String)>,
    pub nviol: u64,
}
impl Report {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += n
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn violation(&mut self, case: u64, text: String) {
        self.nviol += 1;
        if self.violations.len() < 20 {
            self.violations.push((case, text));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s)
        }
    }
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s)
            }
        }
        self.violations.extend(o.violations);
        self.nviol += o.nviol;
    }
}

pub fn hash_f64s<'a>(it: impl Iterator<Item = f64>) -> u64 {
    let mut h = 0x1234u64;
    for v in it {
        h = crate::rng::mix(h ^ v.to_bits());
    }
    h
}

/// Run `cases` cases over all cores. `f(case, &mut Report)`.
pub fn run_cases<F>(cfg: &Cfg, cases: u64, f: F) -> Report
where
    F: Fn(u64, &mut Report) + Sync,
{
    if let Some(c) = cfg.only_case {
        let mut r = Report::default();
        f(c, &mut r);
        return r;
    }
    if cfg!(miri) {
        let mut r = Report::default();
        for c in 0..cases {
            f(c, &mut r);
        }
        return r;
    }
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let next = std::sync::atomic::AtomicU64::new(0);
    let total = std::sync::Mutex::new(Report::default());
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            let b = std::thread::Builder::new().stack_size(256 << 20);
            let job = || {
                let mut r = Report::default();
                loop {
                    let c = next.fetch_add(16, std::sync::atomic::Ordering::Relaxed);
                    if c >= cases {
                        break;
                    }
                    for k in c..(c + 16).min(cases) {
                        f(k, &mut r);
                    }
                    if r.nviol > 200 {
                        break;
                    }
                }
                total.lock().unwrap().merge(r);
            };
            b.spawn_scoped(s, job).unwrap();
        }
    });
    total.into_inner().unwrap()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Write evidence and replay, print verdict lines, return the exit code.
pub fn finish(
    cfg: &Cfg,
    mut r: Report,
    start: Instant,
    rule: &str,
    required: &[&str],
    assumptions: &[&str],
) -> i32 {
    let wall = start.elapsed().as_secs_f64();
    r.violations.sort();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n",
        jstr(&cfg.prop),
        jstr(&cfg.tier),
        cfg.seed
    );
    let _ = write!(
        o,
        " \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"observed\": {{",
        r.evaluations,
        r.distinct.len(),
        jstr(rule)
    );
    for (i, (k, v)) in r.counts.iter().enumerate() {
        let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, jstr(k), v);
    }
    let _ = write!(o, "}},\n  \"samples\": [");
    for (i, s) in r.samples.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { ", " } else { "" }, jstr(s));
    }
    let _ = write!(o, "]\n }},\n \"assumptions\": [");
    for (i, s) in assumptions.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { ", " } else { "" }, jstr(s));
    }
    let _ = write!(o, "],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n", wall, r.nviol);
    if let Some(p) = &cfg.evidence {
        if let Err(e) = std::fs::write(p, &o) {
            eprintln!("cannot write evidence {p}: {e}");
            return 2;
        }
    }
    println!(
        "{} tier={} seed={} evaluations={} distinct={} wall={:.2}s",
        cfg.prop,
        cfg.tier,
        cfg.seed,
        r.evaluations,
        r.distinct.len(),
        wall
    );
    for (k, v) in &r.counts {
        println!("  observed {k}: {v}");
    }
    if r.nviol > 0 {
        let _ = std::fs::create_dir_all(&cfg.replay_dir);
        let path = format!("{}/{}-{}-seed{}.txt", cfg.replay_dir, cfg.prop, cfg.tier, cfg.seed);
        let mut t = String::new();
        let _ = writeln!(t, "property {} violated {} time(s)", cfg.prop, r.nviol);
        for (c, v) in &r.violations {
            let _ = writeln!(
                t,
                "--- case {c}: replay with: check.sh {} {} with VERIF_SEED={} VERIF_CASE={c}\n{v}",
                cfg.prop, cfg.tier, cfg.seed
            );
        }
        let _ = std::fs::write(&path, &t);
        for (c, v) in r.violations.iter().take(3) {
            println!("case {c}: {}", v.lines().take(6).collect::<Vec<_>>().join(" | "));
        }
        println!("VIOLATION property={} replay={}", cfg.prop, path);
        return 1;
    }
    if cfg.only_case.is_none() {
        if r.evaluations == 0 || r.distinct.is_empty() {
            println!("INCONCLUSIVE: nothing observed");
            return 2;
        }
        for k in required {
            if r.counts.get(*k).copied().unwrap_or(0) == 0 {
                println!("INCONCLUSIVE: the workload never produced: {k}");
                return 2;
            }
        }
    }
    println!("HELD property={} on everything observed", cfg.prop);
    0
}
