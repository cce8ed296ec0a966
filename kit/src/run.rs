//! Drives one property over one type with proptest, then shrinks.
use crate::lex;
use crate::report::{Outcome, Report, Violation, hash};
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// time spent on shrinking in this process; a fault that shows in many definitions must not use up the time of the check
static SPENT: AtomicU64 = AtomicU64::new(0);
const BUDGET_MS: u64 = 90_000;
const PER_TYPE_MS: u64 = 12_000;

pub trait Subject {
    fn ident(&self) -> String;
    fn type_id(&self) -> usize;
    fn family(&self) -> &'static str;
    fn definition(&self) -> String;
    /// generate a case from the tape and judge it
    fn case(&self, tape: &[u32]) -> Outcome;
    /// judge given texts (None: they hold)
    fn judge(&self, texts: &[String], attr: bool, single: bool) -> Option<String>;
}

fn rng(seed: u64, id: u64) -> TestRng {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&id.to_le_bytes());
    b[16..24].copy_from_slice(&0x5eed_u64.to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}

pub fn drive(sub: &dyn Subject, cases: u32, seed: u64, tape: usize, report: &mut Report) {
    let st = RefCell::new(Report::default());
    let last: RefCell<Option<Outcome>> = RefCell::new(None);
    let shrinking = RefCell::new(false);
    let budget = BUDGET_MS.saturating_sub(SPENT.load(Ordering::Relaxed)).min(PER_TYPE_MS);
    let failed_at = std::cell::Cell::new(None::<Instant>);
    let config = Config {
        cases,
        max_shrink_iters: if budget > 0 { 1500 } else { 0 },
        max_shrink_time: budget.max(1) as u32,
        failure_persistence: None,
        source_file: None,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, rng(seed, sub.type_id() as u64 + 1));
    let strat = proptest::collection::vec(any::<u32>(), tape / 3..=tape);
    let def = sub.definition();
    let res = runner.run(&strat, |t| {
        // every token stream lexed from text is registered for span locations
        proc_macro2::extra::invalidate_current_thread_spans();
        let o = sub.case(&t);
        let mut st = st.borrow_mut();
        if !*shrinking.borrow() {
            st.evaluations += o.evaluations;
            for c in &o.classes {
                *st.classes.entry(c.clone()).or_default() += 1;
            }
            if o.nontrivial {
                let mut p: Vec<&str> = vec![&def];
                p.extend(o.texts.iter().map(|s| s.as_str()));
                let fresh = st.nontrivial.insert(hash(&p));
                if fresh && st.samples.len() < 2 && st.evaluations > 60 {
                    let s = format!("{}\n  <- {}   [{}]", def.trim_end(), o.texts.join("   |   "), o.classes.join(", "));
                    st.samples.push(s);
                }
            }
        }
        if let Some(e) = &o.harness_error {
            if st.harness_errors.len() < 3 {
                st.harness_errors.push(format!("{e}\n{def}\n<- {:?}", o.texts));
            }
        }
        if let Some(v) = o.violation.clone() {
            *shrinking.borrow_mut() = true;
            if failed_at.get().is_none() {
                failed_at.set(Some(Instant::now()));
            }
            *last.borrow_mut() = Some(o);
            return Err(TestCaseError::fail(v));
        }
        Ok(())
    });
    let mut st = st.into_inner();
    st.types = 1;
    let last = last.into_inner();
    if let (Err(TestError::Fail(why, tape)), None) = (&res, &last) {
        // not one of ours: the harness itself panicked
        st.harness_errors.push(format!("harness panicked: {why} at {}\n{def}\ntape {tape:?}", crate::shard::panic_at()));
    } else if let Err(TestError::Fail(..)) = res {
        let o = last.unwrap();
        let mut texts = o.texts.clone();
        let mut detail = o.violation.clone().unwrap();
        // does a single text fail on its own? then reduce it token by token
        let single = texts.iter().find(|t| sub.judge(std::slice::from_ref(t), o.attr, false).is_some()).cloned();
        if let Some(t) = single {
            let end = Instant::now() + Duration::from_millis(budget);
            let small = lex::reduce(&t, end, &mut |t| {
                proc_macro2::extra::invalidate_current_thread_spans();
                sub.judge(&[t.to_string()], o.attr, false).is_some()
            });
            detail = sub.judge(&[small.clone()], o.attr, false).unwrap_or(detail);
            texts = vec![small];
        }
        if let Some(t) = failed_at.get() {
            SPENT.fetch_add(t.elapsed().as_millis() as u64, Ordering::Relaxed);
        }
        st.violations.push(Violation {
            type_id: sub.type_id(),
            ident: sub.ident(),
            definition: def,
            family: sub.family().into(),
            texts,
            attr: o.attr,
            single: o.single,
            detail,
            signature: o.signature,
        });
    } else if let Err(TestError::Abort(r)) = res {
        st.harness_errors.push(format!("proptest aborted: {r}"));
    }
    report.merge(st);
}

/// runs `f`, turning a panic into its message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}
