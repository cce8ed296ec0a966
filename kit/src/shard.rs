//! Body of the generated shard programs.
use crate::def::Def;
use crate::node;
use crate::report::Report;
use crate::run::{self, Subject};
use crate::sm;
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReplayCase {
    pub id: usize,
    pub texts: Vec<String>,
    pub attr: bool,
    pub single: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShardCfg {
    pub prop: String,
    pub seed: u64,
    /// percentage of the cases planned per definition
    pub effort: u32,
    pub defs: Vec<(usize, Def)>,
    /// judge only this case
    pub replay: Option<ReplayCase>,
    pub trace: String,
    pub out: String,
}

pub enum Module {
    Sm { id: usize, parsers: &'static [(&'static str, sm::judge::PFn)], twin: &'static [(&'static str, sm::judge::PFn)] },
    Node { id: usize, ops: &'static node::rt::NodeOps, twin: Option<&'static node::rt::NodeOps> },
    /// anything else
    Any { id: usize, make: fn(usize) -> Box<dyn Subject>, cases: u32, tape: usize },
}

static COUNTER: AtomicU64 = AtomicU64::new(0);
static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);
static PANIC_AT: Mutex<String> = Mutex::new(String::new());
pub fn panic_at() -> String {
    PANIC_AT.lock().map(|g| g.clone()).unwrap_or_default()
}
pub const HANG_EXIT: i32 = 97;

/// remember what is about to be run, so that a crash or a hang can be replayed
pub fn note(id: usize, text: &str, attr: bool) {
    COUNTER.fetch_add(1, Ordering::Relaxed);
    if let Ok(mut g) = TRACE.lock() {
        if let Some(f) = g.as_mut() {
            let j = format!("{{\"id\":{id},\"texts\":[{}],\"attr\":{attr},\"single\":false}}\n", serde_json::to_string(text).unwrap());
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(j.as_bytes());
        }
    }
}

fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = COUNTER.load(Ordering::Relaxed);
            let t = cpu_seconds();
            if c != last.0 {
                last = (c, t);
            } else if c > 0 && t - last.1 > 20.0 {
                eprintln!("case {c} does not return");
                std::process::exit(HANG_EXIT);
            }
        }
    });
}

pub fn main(modules: &[Module]) {
    let cfg_path = std::env::args().nth(1).expect("config path");
    let cfg: ShardCfg = serde_json::from_str(&std::fs::read_to_string(&cfg_path).expect("config")).expect("config json");
    std::panic::set_hook(Box::new(|i| {
        if let (Some(l), Ok(mut g)) = (i.location(), PANIC_AT.lock()) {
            *g = format!("{}:{}", l.file(), l.line());
        }
    }));
    *TRACE.lock().unwrap() = std::fs::File::create(&cfg.trace).ok();
    watchdog();
    // deep inputs must not exhaust the stack of the harness
    let out = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn({
            let cfg = cfg.clone();
            let ids: Vec<(usize, Box<dyn FnOnce(&ShardCfg, &mut Report) + Send>)> = modules.iter().map(runner).collect();
            move || {
                let mut report = Report::default();
                for (id, f) in ids {
                    if cfg.replay.as_ref().is_some_and(|r| r.id != id) {
                        continue;
                    }
                    f(&cfg, &mut report);
                }
                report
            }
        })
        .unwrap()
        .join();
    let report = match out {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Report { harness_errors: vec![format!("harness panicked: {m} at {}", panic_at())], ..Default::default() }
        }
    };
    std::fs::write(&cfg.out, serde_json::to_string(&report).unwrap()).expect("write report");
}

fn runner(m: &Module) -> (usize, Box<dyn FnOnce(&ShardCfg, &mut Report) + Send>) {
    match *m {
        Module::Sm { id, parsers, twin } => (
            id,
            Box::new(move |cfg, report| {
                let Some((_, Def::Sm(schema))) = cfg.defs.iter().find(|(i, _)| *i == id) else {
                    report.harness_errors.push(format!("no schema for module {id}"));
                    return;
                };
                let plan = crate::props::sm_plan(&cfg.prop).expect("property has no StructMeta plan");
                let sub = sm::judge::SmSubject { prop: &cfg.prop, id, schema, parsers, twin, mix: plan.mix, variants: plan.variants };
                go(&sub, cfg, report, plan.cases, plan.tape);
            }),
        ),
        Module::Node { id, ops, twin } => (
            id,
            Box::new(move |cfg, report| {
                let Some((_, Def::Node(schema))) = cfg.defs.iter().find(|(i, _)| *i == id) else {
                    report.harness_errors.push(format!("no schema for module {id}"));
                    return;
                };
                let plan = crate::props::node_plan(&cfg.prop).expect("property has no Parse/ToTokens plan");
                let sub = node::judge::NodeSubject { prop: &cfg.prop, id, schema, ops, twin, mix: plan.mix };
                go(&sub, cfg, report, plan.cases, plan.tape);
            }),
        ),
        Module::Any { id, make, cases, tape } => (id, Box::new(move |cfg, report| go(&*make(id), cfg, report, cases, tape))),
    }
}

fn go(sub: &dyn Subject, cfg: &ShardCfg, report: &mut Report, cases: u32, tape: usize) {
    if let Some(r) = &cfg.replay {
        report.evaluations += 1;
        match sub.judge(&r.texts, r.attr, r.single) {
            Some(d) => report.violations.push(crate::report::Violation {
                type_id: sub.type_id(),
                ident: sub.ident(),
                definition: sub.definition(),
                family: sub.family().into(),
                texts: r.texts.clone(),
                attr: r.attr,
                single: r.single,
                detail: d,
                signature: String::new(),
            }),
            None => {}
        }
        return;
    }
    run::drive(sub, ((cases as u64 * cfg.effort as u64 / 100) as u32).max(1), cfg.seed, tape, report);
}
