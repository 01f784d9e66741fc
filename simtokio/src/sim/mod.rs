//! Deterministic-simulation layer added to this vendored copy of tokio.
//!
//! One simulation = one process = one thread running one current-thread
//! runtime. All state is thread local. When the layer was never initialised
//! (`init` not called) every hook falls through to stock tokio behaviour.
#![allow(missing_docs, unreachable_pub, missing_debug_implementations, rust_2018_idioms)]

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub mod net;

/// virtual monotonic time in nanoseconds since start of the simulation
static VNOW: AtomicU64 = AtomicU64::new(0);
static ACTIVE: AtomicBool = AtomicBool::new(false);

pub type NodeNo = u32;

/// cheap stateless mixer: every "random" value in the simulator that has to
/// be stable under plan shrinking is a pure function of its coordinates
pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut z = a
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(b.wrapping_mul(0xD1B54A32D192ED03))
        .wrapping_add(c.wrapping_mul(0x8CB92BA72F3D8DD7))
        .wrapping_add(0x2545F4914F6CDD1D);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z = (z ^ (z >> 31)).wrapping_mul(0x9E3779B97F4A7C15);
    z ^ (z >> 29)
}

#[derive(Clone, Debug, Default)]
pub struct SchedConfig {
    pub seed: u64,
    /// 0 fifo, 1 uniform, 2 priority with change points, 3 mostly fifo,
    /// 4 lifo-biased, 5 replay of `deviations`
    pub policy: u8,
    /// policy 3: deviation probability in 1/256
    pub p: u8,
    /// extra virtual nanoseconds per poll (uniform in 0..=poll_cost)
    pub poll_cost: u64,
    /// explicit schedule: step -> index into the runnable list
    pub deviations: Vec<(u64, u32)>,
    pub max_steps: u64,
}

struct Sched {
    cfg: SchedConfig,
    devs: HashMap<u64, u32>,
    step: u64,
    recorded: Vec<(u64, u32)>,
    hash: u64,
    multi: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum NodeState {
    Up,
    Stalled,
    Dead,
}

thread_local! {
    static SCHED: RefCell<Option<Sched>> = const { RefCell::new(None) };
    static CUR_NODE: Cell<NodeNo> = const { Cell::new(0) };
    static TASK_NODE: RefCell<HashMap<u64, NodeNo>> = RefCell::new(HashMap::new());
    static NODES: RefCell<BTreeMap<NodeNo, NodeState>> = const { RefCell::new(BTreeMap::new()) };
    static ANY_HELD: Cell<bool> = const { Cell::new(false) };
    static GRAIN: Cell<i64> = const { Cell::new(0) };
    static SKEW: RefCell<BTreeMap<NodeNo, i64>> = const { RefCell::new(BTreeMap::new()) };
    static STEP_LIMIT_HIT: Cell<bool> = const { Cell::new(false) };
}

pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}

pub fn init(cfg: SchedConfig, net_cfg: net::NetConfig) {
    VNOW.store(0, Ordering::Relaxed);
    CUR_NODE.with(|c| c.set(0));
    TASK_NODE.with(|t| t.borrow_mut().clear());
    NODES.with(|n| n.borrow_mut().clear());
    SKEW.with(|n| n.borrow_mut().clear());
    GRAIN.with(|g| g.set(0));
    ANY_HELD.with(|c| c.set(false));
    STEP_LIMIT_HIT.with(|c| c.set(false));
    let devs = cfg.deviations.iter().cloned().collect();
    SCHED.with(|s| {
        *s.borrow_mut() = Some(Sched {
            cfg,
            devs,
            step: 0,
            recorded: Vec::new(),
            hash: 0xcbf29ce484222325,
            multi: 0,
        })
    });
    net::init(net_cfg);
    ACTIVE.store(true, Ordering::Relaxed);
}

pub fn deactivate() {
    ACTIVE.store(false, Ordering::Relaxed);
}

pub fn now_nanos() -> u64 {
    VNOW.load(Ordering::Relaxed)
}

pub(crate) fn advance(d: std::time::Duration) {
    VNOW.fetch_add(d.as_nanos() as u64, Ordering::Relaxed);
}

/// advance the clock without running anything (used by harness code only)
pub fn burn(d: std::time::Duration) {
    advance(d)
}

pub fn current_node() -> NodeNo {
    CUR_NODE.try_with(|c| c.get()).unwrap_or(0)
}

pub fn skew_nanos() -> i64 {
    SKEW.try_with(|s| match s.try_borrow() {
        Ok(s) => *s.get(&current_node()).unwrap_or(&0),
        Err(_) => 0,
    })
    .unwrap_or(0)
}

/// resolution of the wall clock (0: exact)
pub fn wall_grain() -> i64 {
    GRAIN.try_with(|g| g.get()).unwrap_or(0)
}

pub fn set_wall_grain(nanos: i64) {
    GRAIN.with(|g| g.set(nanos))
}

pub fn set_skew(node: NodeNo, nanos: i64) {
    SKEW.with(|s| {
        s.borrow_mut().insert(node, nanos);
    })
}

/// runs `f` with the current node set to `node`; tasks spawned inside inherit it
pub fn on_node<R>(node: NodeNo, f: impl FnOnce() -> R) -> R {
    let prev = CUR_NODE.with(|c| c.replace(node));
    let r = f();
    CUR_NODE.with(|c| c.set(prev));
    r
}

pub fn node_state(node: NodeNo) -> NodeState {
    NODES.with(|n| *n.borrow().get(&node).unwrap_or(&NodeState::Up))
}

pub fn set_node_state(node: NodeNo, st: NodeState) {
    NODES.with(|n| {
        let mut n = n.borrow_mut();
        if n.get(&node) == Some(&NodeState::Dead) {
            return;
        }
        n.insert(node, st);
        ANY_HELD.with(|a| a.set(n.values().any(|s| *s != NodeState::Up)));
    });
}

pub fn steps() -> u64 {
    SCHED.with(|s| s.borrow().as_ref().map_or(0, |s| s.step))
}
/// number of steps at which more than one task was runnable
pub fn multi_steps() -> u64 {
    SCHED.with(|s| s.borrow().as_ref().map_or(0, |s| s.multi))
}
pub fn sched_hash() -> u64 {
    SCHED.with(|s| s.borrow().as_ref().map_or(0, |s| s.hash))
}
pub fn take_recorded() -> Vec<(u64, u32)> {
    SCHED.with(|s| {
        s.borrow_mut()
            .as_mut()
            .map_or(vec![], |s| std::mem::take(&mut s.recorded))
    })
}
pub fn step_limit_hit() -> bool {
    STEP_LIMIT_HIT.with(|c| c.get())
}

pub(crate) fn on_spawn(id: u64) {
    if active() {
        let n = current_node();
        if n != 0 {
            let _ = TASK_NODE.try_with(|t| t.borrow_mut().insert(id, n));
        }
    }
}

fn task_node(id: u64) -> NodeNo {
    TASK_NODE.with(|t| *t.borrow().get(&id).unwrap_or(&0))
}

pub(crate) enum Pick {
    /// take this queue index
    Run(usize),
    /// nothing runnable
    None,
    /// queue index belongs to a dead node: move it out of the queue for good
    Bury(usize),
}

pub(crate) fn runnable(id: u64) -> bool {
    !ANY_HELD.with(|a| a.get()) || node_state(task_node(id)) != NodeState::Stalled
}

/// chooses the next task to poll from the run queue
pub(crate) fn pick(n: usize, id_at: impl Fn(usize) -> u64) -> Pick {
    if n == 0 {
        return Pick::None;
    }
    let held = ANY_HELD.with(|a| a.get());
    SCHED.with(|s| {
        let mut s = s.borrow_mut();
        let s = match s.as_mut() {
            Some(s) => s,
            None => return Pick::Run(0),
        };
        if s.cfg.max_steps > 0 && s.step >= s.cfg.max_steps {
            STEP_LIMIT_HIT.with(|c| c.set(true));
            panic!("SIM_STEP_LIMIT");
        }
        let mut cand: Vec<usize> = Vec::with_capacity(n);
        if held {
            for i in 0..n {
                match node_state(task_node(id_at(i))) {
                    NodeState::Up => cand.push(i),
                    NodeState::Stalled => {}
                    NodeState::Dead => return Pick::Bury(i),
                }
            }
            if cand.is_empty() {
                return Pick::None;
            }
        } else {
            cand.extend(0..n);
        }
        let step = s.step;
        s.step += 1;
        let m = cand.len();
        let r = mix(s.cfg.seed, step, 0x5eed);
        let k = if m == 1 {
            0
        } else {
            s.multi += 1;
            match s.cfg.policy {
                0 => 0,
                1 => (r % m as u64) as usize,
                2 => {
                    if r % 16 == 0 {
                        ((r >> 8) % m as u64) as usize
                    } else {
                        // priorities are re-drawn every 64 steps
                        let epoch = step / 64;
                        (0..m)
                            .max_by_key(|i| mix(s.cfg.seed ^ 0x9177, id_at(cand[*i]), epoch))
                            .unwrap()
                    }
                }
                3 => {
                    if (r & 0xff) < s.cfg.p as u64 {
                        ((r >> 8) % m as u64) as usize
                    } else {
                        0
                    }
                }
                4 => {
                    if r % 4 == 0 {
                        ((r >> 8) % m as u64) as usize
                    } else {
                        m - 1
                    }
                }
                _ => (*s.devs.get(&step).unwrap_or(&0) as usize).min(m - 1),
            }
        };
        if k != 0 {
            s.recorded.push((step, k as u32));
        }
        if s.cfg.poll_cost > 0 {
            let c = 100 + mix(s.cfg.seed ^ 0x77, step, 3) % s.cfg.poll_cost;
            VNOW.fetch_add(c, Ordering::Relaxed);
        } else {
            VNOW.fetch_add(100, Ordering::Relaxed);
        }
        let idx = cand[k];
        let id = id_at(idx);
        CUR_NODE.with(|c| c.set(task_node(id)));
        s.hash = (s.hash ^ id).wrapping_mul(0x100000001b3);
        Pick::Run(idx)
    })
}

pub(crate) fn after_poll() {
    CUR_NODE.with(|c| c.set(0));
}

/// fold an application-level event into the trace hash
pub fn fold(x: u64) {
    SCHED.with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            s.hash = (s.hash ^ x).wrapping_mul(0x100000001b3);
        }
    })
}

thread_local! {
    static BLOCKING: Cell<u32> = const { Cell::new(0) };
    static BLOCK_LIMIT: Cell<u64> = const { Cell::new(50_000_000_000) };
}
/// virtual time after which a blocked thread is considered to be blocked for good
pub fn set_block_limit_ms(ms: u64) {
    BLOCK_LIMIT.with(|b| b.set(ms * 1_000_000))
}
pub(crate) fn block_limit() -> u64 {
    BLOCK_LIMIT.with(|b| b.get())
}
/// whether a simulated thread is blocked right now
pub fn blocking() -> bool {
    BLOCKING.with(|b| b.get() > 0)
}
pub(crate) struct Blocking;
impl Blocking {
    pub(crate) fn enter() -> Blocking {
        BLOCKING.with(|b| b.set(b.get() + 1));
        Blocking
    }
}
impl Drop for Blocking {
    fn drop(&mut self) {
        BLOCKING.with(|b| b.set(b.get() - 1));
    }
}
pub(crate) fn set_current_node(n: NodeNo) {
    CUR_NODE.with(|c| c.set(n));
}
pub(crate) fn noop_waker() -> std::task::Waker {
    struct N;
    impl std::task::Wake for N {
        fn wake(self: std::sync::Arc<Self>) {}
    }
    std::task::Waker::from(std::sync::Arc::new(N))
}
