//! Plans, runs, outcomes.
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;
use tokio::sim;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(sim::mix(seed, 0xabcdef, 1))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        sim::mix(self.0, 2, 3)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// weighted choice
    pub fn weighted<T: Copy>(&mut self, v: &[(u64, T)]) -> T {
        let total: u64 = v.iter().map(|x| x.0).sum();
        let mut r = self.below(total);
        for (w, t) in v {
            if r < *w {
                return *t;
            }
            r -= w;
        }
        v[0].1
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, Default, PartialEq)]
pub struct Op {
    /// lane (client task) executing the op
    pub l: u32,
    pub k: String,
    #[serde(default)]
    pub a: i64,
    #[serde(default)]
    pub b: i64,
    #[serde(default)]
    pub c: i64,
    /// virtual ms to wait before the op
    #[serde(default)]
    pub gap: u64,
    /// stable identity, assigned at generation
    pub id: u32,
}

#[derive(Clone, Serialize, Deserialize, Debug, Default, PartialEq)]
pub struct Fault {
    pub at: u64,
    pub k: String,
    #[serde(default)]
    pub a: i64,
    #[serde(default)]
    pub b: i64,
    #[serde(default)]
    pub dur: u64,
}

#[derive(Clone, Serialize, Deserialize, Debug, Default)]
pub struct Sched {
    pub seed: u64,
    pub policy: u8,
    pub p: u8,
    pub poll_cost: u64,
    pub event_interval: u32,
    #[serde(default)]
    pub deviations: Vec<(u64, u32)>,
}

#[derive(Clone, Serialize, Deserialize, Debug, Default)]
pub struct NetPlan {
    pub min: u64,
    pub max: u64,
    pub spike_permille: u64,
    pub spike: u64,
    pub short: u64,
    pub buf: usize,
    pub connect_fail: u64,
    pub accept_fail: u64,
    pub dead_peer_ms: u64,
}

#[derive(Clone, Serialize, Deserialize, Debug, Default)]
pub struct Plan {
    pub scenario: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
    pub sched: Sched,
    pub net: NetPlan,
}

impl Plan {
    pub fn new(scenario: &str, seed: u64, rng: &mut Rng) -> Plan {
        let policy = rng.weighted(&[(1, 0u8), (4, 1), (3, 2), (3, 3), (1, 4)]);
        Plan {
            scenario: scenario.into(),
            seed,
            cfg: BTreeMap::new(),
            ops: vec![],
            faults: vec![],
            sched: Sched {
                seed: rng.next() >> 1,
                policy,
                p: *rng.pick(&[4, 16, 48, 96]),
                poll_cost: *rng.pick(&[0, 1_000, 20_000, 200_000]),
                event_interval: *rng.pick(&[1, 3, 17, 61]),
                deviations: vec![],
            },
            net: NetPlan {
                min: 0,
                max: *rng.pick(&[0, 1, 5, 20]),
                spike_permille: 0,
                spike: 0,
                short: 0,
                buf: 1 << 20,
                connect_fail: 0,
                accept_fail: 0,
                dead_peer_ms: 3000,
            },
        }
    }
    pub fn get(&self, k: &str) -> i64 {
        *self.cfg.get(k).unwrap_or(&0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.cfg.insert(k.into(), v);
    }
    pub fn op(&mut self, l: u32, k: &str, a: i64, b: i64, c: i64, gap: u64) {
        let id = self.ops.len() as u32;
        self.ops.push(Op { l, k: k.into(), a, b, c, gap, id });
    }
    pub fn fault(&mut self, at: u64, k: &str, a: i64, b: i64, dur: u64) {
        self.faults.push(Fault { at, k: k.into(), a, b, dur });
    }
    pub fn lanes(&self) -> Vec<Vec<Op>> {
        let mut m: BTreeMap<u32, Vec<Op>> = BTreeMap::new();
        for o in &self.ops {
            m.entry(o.l).or_default().push(o.clone());
        }
        m.into_values().collect()
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, Default)]
pub struct Outcome {
    pub violations: Vec<(String, String)>,
    pub hash: u64,
    pub steps: u64,
    pub multi: u64,
    pub sim_ms: u64,
    pub counters: BTreeMap<String, u64>,
    /// fingerprint of the abstract history (scenario defined)
    pub fp: u64,
    pub error: Option<String>,
    pub log: Vec<String>,
    pub recorded: Vec<(u64, u32)>,
    pub panics: Vec<String>,
}

#[derive(Default)]
struct Rec {
    violations: Vec<(String, String)>,
    counters: BTreeMap<String, u64>,
    log: Vec<String>,
    trace: bool,
    fp: u64,
}

thread_local! {
    static REC: RefCell<Rec> = RefCell::new(Rec::default());
    /// factor by which the scenario's own delays and patience are stretched in this run
    static PACE: std::cell::Cell<u64> = const { std::cell::Cell::new(1) };
}
static PANICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

/// report that `prop` does not hold in this run
pub fn fail(prop: &str, msg: impl Into<String>) {
    let msg = msg.into();
    note(&format!("!! {prop} {msg}"));
    REC.with(|r| {
        let mut r = r.borrow_mut();
        if r.violations.len() < 50 {
            r.violations.push((prop.to_string(), msg));
        }
    });
}
pub fn count(k: &str) {
    count_n(k, 1)
}
pub fn count_n(k: &str, n: u64) {
    if n == 0 {
        return;
    }
    REC.with(|r| {
        let mut r = r.borrow_mut();
        match r.counters.get_mut(k) {
            Some(c) => *c += n,
            None => {
                r.counters.insert(k.to_string(), n);
            }
        }
    })
}
pub fn counter(k: &str) -> u64 {
    REC.with(|r| *r.borrow().counters.get(k).unwrap_or(&0))
}
/// trace line; always folded into the run's hash
pub fn note(s: &str) {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    sim::fold(h);
    REC.with(|r| {
        let mut r = r.borrow_mut();
        if r.trace {
            let l = format!("{:>10.3}ms n{} #{} {}", sim::now_nanos() as f64 / 1e6, sim::current_node(), sim::steps(), s);
            r.log.push(l);
        }
    })
}
#[macro_export]
macro_rules! note { ($($t:tt)*) => { $crate::core::note(&format!($($t)*)) } }

/// fold something into the abstract-history fingerprint
pub fn fp(x: u64) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.fp = sim::mix(r.fp, x, 5);
    })
}

pub type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;

pub fn now_ms() -> u64 {
    sim::now_nanos() / 1_000_000
}
/// most runs use delays of some milliseconds, some stretch all of them to seconds
pub fn pace(p: &mut Plan, r: &mut Rng) {
    p.set("pace", r.weighted(&[(6, 1i64), (1, 30), (1, 400)]));
}
pub async fn sleep_ms(ms: u64) {
    if ms > 0 {
        tokio::time::sleep(Duration::from_millis(ms * PACE.get())).await
    }
}
pub async fn yields(n: u64) {
    for _ in 0..n {
        let mut done = false;
        std::future::poll_fn(move |cx| {
            if done {
                return std::task::Poll::Ready(());
            }
            done = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        })
        .await
    }
}

/// spawn on a simulated node
pub fn spawn_on<F>(node: u32, f: F) -> tokio::task::JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    sim::on_node(node, || tokio::spawn(f))
}

/// wait for a future for at most `ms` virtual milliseconds
pub async fn within<F: Future>(ms: u64, f: F) -> Option<F::Output> {
    tokio::time::timeout(Duration::from_millis(ms * PACE.get()), f).await.ok()
}

pub struct RunSpec {
    pub max_ms: u64,
    pub max_steps: u64,
    /// property blamed when the run does not terminate
    pub hang_prop: &'static str,
}

/// executes one simulation in the calling thread (which must be fresh)
pub fn run_here(plan: &Plan, trace: bool) -> Outcome {
    let plan = Arc::new(plan.clone());
    crate::interpose::seed_entropy(plan.seed.wrapping_mul(0x9E37) ^ 0xE17);
    REC.with(|r| *r.borrow_mut() = Rec { trace, ..Rec::default() });
    PANICS.lock().unwrap().clear();
    PACE.set(plan.get("pace").max(1) as u64);
    let mut spec = crate::sc::spec(&plan);
    spec.max_ms *= PACE.get();
    sim::set_block_limit_ms(50_000 * PACE.get());
    sim::init(
        sim::SchedConfig {
            seed: plan.sched.seed,
            policy: plan.sched.policy,
            p: plan.sched.p,
            poll_cost: plan.sched.poll_cost,
            deviations: plan.sched.deviations.clone(),
            max_steps: spec.max_steps,
        },
        sim::net::NetConfig {
            seed: plan.seed ^ 0x4e74,
            min_delay_ms: plan.net.min,
            max_delay_ms: plan.net.max,
            spike_permille: plan.net.spike_permille,
            spike_ms: plan.net.spike,
            short_permille: plan.net.short,
            send_buffer: plan.net.buf.max(64),
            connect_timeout_ms: 3000,
            connect_fail_permille: plan.net.connect_fail,
            accept_fail_permille: plan.net.accept_fail,
            dead_peer_ms: plan.net.dead_peer_ms,
            break_permille: 0,
            break_bytes: 0,
        },
    );
    sim::set_wall_grain(plan.get("grain_ms") * 1_000_000);
    let mut out = Outcome::default();
    let p2 = plan.clone();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .event_interval(plan.sched.event_interval.max(1))
            .build()
            .unwrap();
        let r = rt.block_on(async move {
            let h = tokio::spawn(crate::sc::run(p2));
            tokio::time::timeout(Duration::from_millis(spec.max_ms), h).await
        });
        // destructors of everything left over are not part of the simulation
        std::mem::forget(rt);
        r
    }));
    let mut hang = None;
    match res {
        Ok(Ok(Ok(()))) => {}
        Ok(Ok(Err(e))) => hang = Some(format!("run aborted: {e} {:?}", PANICS.lock().unwrap().last())),
        Ok(Err(_)) => hang = Some(format!("hang: run not finished after {} virtual ms", spec.max_ms)),
        Err(p) => {
            let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default();
            if m == "SIM_STEP_LIMIT" {
                hang = Some(format!("livelock: {} steps without finishing", spec.max_steps));
            } else {
                out.error = Some(format!("runtime panic: {m}"));
            }
        }
    }
    if let Some(h) = hang {
        fail(spec.hang_prop, h);
    }
    let ns = sim::net::stats();
    for (k, v) in [
        ("net.connects", ns.connects), ("net.refused", ns.connect_refused), ("net.connect_timeout", ns.connect_timeouts),
        ("fault.connect_fail", ns.connect_injected), ("fault.accept_fail", ns.accept_injected),
        ("net.segments", ns.segments), ("fault.delay_spike", ns.delay_spikes), ("fault.short_read", ns.short_reads),
        ("fault.short_write", ns.short_writes), ("net.resets_seen", ns.resets_seen), ("net.bytes_lost", ns.bytes_lost),
        ("net.partition_blocks", ns.partition_blocks), ("fault.backpressure", ns.backpressure), ("fault.half_open", ns.half_open), ("fault.broken_midway", ns.broken_midway),
    ] {
        count_n(k, v);
    }
    out.steps = sim::steps();
    out.multi = sim::multi_steps();
    out.hash = sim::sched_hash();
    out.sim_ms = now_ms();
    out.recorded = sim::take_recorded();
    REC.with(|r| {
        let r = std::mem::take(&mut *r.borrow_mut());
        out.violations = r.violations;
        out.counters = r.counters;
        out.log = r.log;
        out.fp = r.fp;
    });
    out.panics = PANICS.lock().unwrap().clone();
    sim::deactivate();
    crate::interpose::unseed();
    out
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or(info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if m.starts_with("planned-panic") {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut p) = PANICS.try_lock() {
            if p.len() < 20 {
                p.push(format!("{loc} {m}"));
            }
        }
        if std::env::var("SIM_SHOW_PANICS").is_ok() {
            eprintln!("panic at {loc}: {m}");
        }
    }));
}

pub type Shared<T> = Rc<RefCell<T>>;
