//! Multi-node harness: coerce nodes on simulated machines.
use crate::core::*;
use coerce::actor::system::ActorSystem;
use coerce::remote::cluster::node::{NodeStatus, RemoteNodeState};
use coerce::remote::heartbeat::HeartbeatConfig;
use coerce::remote::system::builder::RemoteActorSystemBuilder;
use coerce::remote::system::RemoteActorSystem;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sim;

pub fn addr(slot: u32) -> String {
    format!("10.0.0.{slot}:9000")
}
/// simulated machine of an incarnation
pub fn simno(slot: u32, inc: u32) -> u32 {
    slot + 16 * inc
}
pub fn slot_of(sim: u32) -> u32 {
    sim % 16
}

#[derive(Clone)]
pub struct Node {
    pub slot: u32,
    pub inc: u32,
    pub sim: u32,
    pub id: u64,
    pub sys: RemoteActorSystem,
    /// virtual ms at which the worker was up
    pub up_at: u64,
}

#[derive(Clone, Default)]
pub struct Cluster {
    inner: Arc<Mutex<Inner>>,
}
#[derive(Default)]
struct Inner {
    nodes: BTreeMap<u32, Node>,
    incs: BTreeMap<u32, u32>,
    cuts: Vec<(u32, u32)>,
    starting: std::collections::BTreeSet<u32>,
    /// slots out of service: since when, and their node id
    out: BTreeMap<u32, (u64, u64)>,
    /// slots in service: since when
    back: BTreeMap<u32, u64>,
}

pub struct NodeCfg {
    pub slot: u32,
    pub id: u64,
    pub seed: Option<u32>,
    pub hb: HeartbeatConfig,
}

impl NodeCfg {
    pub fn new(slot: u32, seed: Option<u32>) -> NodeCfg {
        NodeCfg { slot, id: slot as u64, seed, hb: HeartbeatConfig::default() }
    }
}

impl Cluster {
    pub fn new() -> Cluster {
        Cluster::default()
    }
    pub fn node(&self, slot: u32) -> Option<Node> {
        self.inner.lock().unwrap().nodes.get(&slot).cloned()
    }
    /// nodes that are running
    pub fn nodes(&self) -> Vec<Node> {
        self.inner.lock().unwrap().nodes.values().cloned().collect()
    }
    /// current machine of a slot
    pub fn sim(&self, slot: u32) -> u32 {
        let i = self.inner.lock().unwrap();
        simno(slot, *i.incs.get(&slot).unwrap_or(&0))
    }

    /// incarnation the next start of a slot will have
    pub fn next_inc(&self, slot: u32) -> u32 {
        self.inner.lock().unwrap().incs.get(&slot).map_or(0, |x| x + 1)
    }

    /// orderly shutdown of a node
    pub fn leave(&self, slot: u32) -> bool {
        let Some(n) = self.inner.lock().unwrap().nodes.remove(&slot) else { return false };
        note(&format!("node {slot} leaves"));
        spawn_on(n.sim, async move {
            n.sys.actor_system().shutdown().await;
            sleep_ms(2000).await;
            // the process exits
            note(&format!("node {slot} has left"));
            sim::set_node_state(n.sim, sim::NodeState::Dead);
            sim::net::crash(n.sim, false);
        });
        true
    }

    /// starts a node on its machine; resolves when the worker is up (or the
    /// machine died meanwhile and `within_ms` passed)
    pub async fn start<F, Fut>(&self, cfg: NodeCfg, within_ms: u64, configure: F, after: impl FnOnce(RemoteActorSystem) -> Fut + Send + 'static) -> Option<Node>
    where
        F: FnOnce(RemoteActorSystemBuilder) -> RemoteActorSystemBuilder + Send + 'static,
        Fut: std::future::Future<Output = ()> + Send + 'static,
    {
        self.start_with(cfg, within_ms, || ActorSystem::builder(), configure, after).await
    }

    pub async fn start_with<F, Fut>(
        &self,
        cfg: NodeCfg,
        within_ms: u64,
        base: impl FnOnce() -> coerce::actor::system::builder::ActorSystemBuilder + Send + 'static,
        configure: F,
        after: impl FnOnce(RemoteActorSystem) -> Fut + Send + 'static,
    ) -> Option<Node>
    where
        F: FnOnce(RemoteActorSystemBuilder) -> RemoteActorSystemBuilder + Send + 'static,
        Fut: std::future::Future<Output = ()> + Send + 'static,
    {
        let (slot, id) = (cfg.slot, cfg.id);
        let mut cfg = cfg;
        let (no, inc) = {
            let mut i = self.inner.lock().unwrap();
            if cfg.seed.is_none() {
                // nobody is up, but someone is about to be
                cfg.seed = i.starting.iter().copied().find(|s| *s != slot);
            }
            i.starting.insert(slot);
            i.out.remove(&slot);
            let inc = match i.incs.get(&slot) {
                Some(x) => x + 1,
                None => 0,
            };
            i.incs.insert(slot, inc);
            let no = simno(slot, inc);
            // partitions outlive the process
            for (a, b) in i.cuts.clone() {
                let sa = simno(a, *i.incs.get(&a).unwrap_or(&0));
                let sb = simno(b, *i.incs.get(&b).unwrap_or(&0));
                sim::net::cut(sa, sb);
            }
            (no, inc)
        };
        sim::net::power_on(addr(slot).parse().unwrap());
        let me = self.clone();
        let h = spawn_on(no, async move {
            let system = base().system_name(format!("node-{slot}").as_str()).build();
            let hb = cfg.hb.clone();
            let sys = OneThread({
                let b = RemoteActorSystem::builder()
                    .with_tag(format!("node-{slot}"))
                    .with_id(id)
                    .with_actor_system(system)
                    .configure(move |c| c.heartbeat(hb));
                configure(b).build()
            })
            .await;
            after(sys.clone()).await;
            let mut w = sys.clone().cluster_worker().listen_addr(addr(slot));
            if let Some(s) = cfg.seed {
                w = w.with_seed_addr(addr(s));
            }
            let server = w.start().await;
            std::mem::forget(server);
            let node = Node { slot, inc, sim: no, id, sys, up_at: now_ms() };
            note(&format!("node {slot}.{inc} up"));
            let mut i = me.inner.lock().unwrap();
            i.nodes.insert(slot, node.clone());
            i.starting.remove(&slot);
            i.out.remove(&slot);
            i.back.insert(slot, now_ms());
            drop(i);
            node
        });
        match within(within_ms, h).await {
            Some(Ok(n)) => Some(n),
            _ => None,
        }
    }

    pub fn crash(&self, slot: u32, silent: bool) -> bool {
        let no = self.sim(slot);
        let mut i = self.inner.lock().unwrap();
        let Some(gone) = i.nodes.remove(&slot) else { return false };
        i.out.entry(slot).or_insert((now_ms(), gone.id));
        note(&format!("crash of node {slot} (machine {no}, silent {silent})"));
        sim::set_node_state(no, sim::NodeState::Dead);
        sim::net::crash(no, silent);
        true
    }

    pub fn cut(&self, a: u32, b: u32) {
        note(&format!("cut {a} -> {b}"));
        self.inner.lock().unwrap().cuts.push((a, b));
        sim::net::cut(self.sim(a), self.sim(b));
    }
    pub fn heal(&self, a: u32, b: u32) {
        note(&format!("heal {a} -> {b}"));
        self.inner.lock().unwrap().cuts.retain(|c| *c != (a, b));
        sim::net::heal(self.sim(a), self.sim(b));
    }
    pub fn heal_all(&self) {
        self.inner.lock().unwrap().cuts.clear();
        sim::net::heal_all();
    }
    pub fn reset(&self, a: u32, b: u32, mode: u8) -> usize {
        let n = sim::net::reset(self.sim(a), self.sim(b), mode);
        note(&format!("reset {a} {b} mode {mode}: {n} connections"));
        n
    }
    pub fn stall(&self, slot: u32, on: bool) {
        note(&format!("stall {slot} {on}"));
        {
            let mut i = self.inner.lock().unwrap();
            if on {
                if let Some(id) = i.nodes.get(&slot).map(|n| n.id) {
                    i.out.insert(slot, (now_ms(), id));
                }
            } else {
                i.out.remove(&slot);
                i.back.insert(slot, now_ms());
            }
        }
        sim::set_node_state(self.sim(slot), if on { sim::NodeState::Stalled } else { sim::NodeState::Up });
    }

    /// nodes that have been out of service for `ms`, and slots that have been in service for as long
    pub fn long_out(&self, ms: u64) -> (Vec<u64>, Vec<u32>) {
        let i = self.inner.lock().unwrap();
        let t = now_ms();
        let out = i.out.values().filter(|o| o.0 + ms < t).map(|o| o.1).collect();
        let up = i.nodes.keys().copied().filter(|s| !i.out.contains_key(s) && i.back.get(s).map_or(false, |b| b + ms < t)).collect();
        (out, up)
    }

    /// nodes that went out of service less than `ms` ago, with the slots that were in service long before that
    pub fn just_out(&self, ms: u64) -> Vec<(u64, Vec<u32>)> {
        let i = self.inner.lock().unwrap();
        let t = now_ms();
        i.out
            .values()
            .filter(|o| o.0 + ms > t)
            .map(|o| (o.1, i.nodes.keys().copied().filter(|s| !i.out.contains_key(s) && i.back.get(s).map_or(false, |b| b + 5_000 < o.0)).collect()))
            .collect()
    }

    /// membership as seen by a node
    pub async fn view(&self, slot: u32) -> Vec<RemoteNodeState> {
        let Some(n) = self.node(slot) else { return vec![] };
        let h = spawn_on(n.sim, async move { n.sys.get_nodes().await });
        match within(30_000, h).await {
            Some(Ok(mut v)) => {
                v.sort_by_key(|n| n.id);
                v
            }
            _ => vec![],
        }
    }

    /// every running node sees every running node as healthy (and agrees on a leader)
    pub async fn formed(&self) -> bool {
        let ns = self.nodes();
        let leader = ns.first().and_then(|n| n.sys.current_leader());
        if leader.is_none() {
            return false;
        }
        for n in &ns {
            if n.sys.current_leader() != leader {
                return false;
            }
            let v = self.view(n.slot).await;
            for m in &ns {
                if !v.iter().any(|x| x.id == m.id && x.status == NodeStatus::Healthy) {
                    return false;
                }
            }
        }
        true
    }
    pub async fn wait_formed(&self, ms: u64) -> bool {
        let end = now_ms() + ms;
        loop {
            if self.formed().await {
                return true;
            }
            if now_ms() >= end {
                return false;
            }
            tokio::time::sleep(Duration::from_millis(100)).await;
        }
    }
    pub async fn describe(&self) -> String {
        let mut s = String::new();
        for n in self.nodes() {
            let v = self.view(n.slot).await;
            s.push_str(&format!("[node {} leader {:?} sees", n.id, n.sys.current_leader()));
            for x in v {
                s.push_str(&format!(" {}={:?}", x.id, x.status));
            }
            s.push(']');
        }
        s
    }
}

/// the builder is not Send; everything here runs on one thread
pub struct OneThread<F>(pub F);
unsafe impl<F> Send for OneThread<F> {}
impl<F: std::future::Future> std::future::Future for OneThread<F> {
    type Output = F::Output;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

/// fault generator shared by the cluster scenarios. All faults are over by `end`.
pub struct FaultMix {
    pub resets: u64,
    pub cuts: u64,
    pub stalls: u64,
    pub crashes: u64,
    pub max_cut: u64,
    pub max_stall: u64,
}

pub fn gen_faults(p: &mut Plan, r: &mut Rng, n: i64, window: u64, mix: &FaultMix, count: i64) {
    for _ in 0..count {
        let at = r.below(window);
        let a = r.range(1, n);
        let mut b = r.range(1, n);
        if b == a {
            b = a % n + 1;
        }
        let k = r.weighted(&[(mix.resets, 0), (mix.cuts, 1), (mix.stalls, 2), (mix.crashes, 3)]);
        match k {
            0 => p.fault(at, "reset", a, b * 10 + r.range(0, 2), 0),
            1 => {
                let one = r.chance(1, 3);
                let dur = 50 + r.below(mix.max_cut);
                p.fault(at, if one { "cut1" } else { "cut" }, a, b, dur)
            }
            2 => p.fault(at, "stall", a, 0, 20 + r.below(mix.max_stall)),
            _ => {
                let dur = 200 + r.below(20_000);
                p.fault(at, "crash", a, r.range(0, 1), dur)
            }
        }
    }
    p.faults.sort_by_key(|f| f.at);
}

/// for a while, connections break after some bytes, beginning with the existing ones
pub fn gen_flaps(p: &mut Plan, r: &mut Rng, n: i64) {
    p.fault(0, "brk", *r.pick(&[300, 600]), *r.pick(&[300, 2_000, 20_000]), 30_000);
    for i in 0..r.range(1, 4) {
        let a = r.range(1, n);
        p.fault(r.below(2_000) + i as u64 * 6_000, "reset", a, (a % n + 1) * 10 + r.range(0, 2), 0);
    }
    p.faults.sort_by_key(|f| f.at);
}

/// one fault after the other, with time in between to get over it
pub fn space_out(p: &mut Plan, from: u64, gap: u64) {
    p.faults.sort_by_key(|f| f.at);
    let mut next = from;
    for f in p.faults.iter_mut().filter(|f| f.k != "join") {
        f.at = (f.at + from).max(next);
        next = f.at + f.dur + gap;
    }
    p.faults.sort_by_key(|f| f.at);
}

pub enum Act {
    Restart(u32),
}

/// plays the plan's faults against the cluster, starting now; `restart` brings a slot back
pub async fn play_faults<F, Fut>(plan: &Plan, cl: &Cluster, restart: F)
where
    F: Fn(u32) -> Fut,
    Fut: std::future::Future<Output = ()> + Send + 'static,
{
    let t0 = now_ms();
    // expand into begin/end actions
    let mut acts: Vec<(u64, usize, bool)> = vec![];
    for (i, f) in plan.faults.iter().enumerate() {
        acts.push((f.at, i, true));
        if f.dur > 0 {
            acts.push((f.at + f.dur, i, false));
        }
    }
    acts.sort();
    let mut down: BTreeMap<u32, usize> = BTreeMap::new();
    let mut stalled: BTreeMap<u32, usize> = BTreeMap::new();
    let mut subs = vec![];
    for (at, i, begin) in acts {
        let now = now_ms() - t0;
        if at > now {
            sleep_ms(at - now).await;
        }
        let f = &plan.faults[i];
        let (a, b) = (f.a as u32, f.b as u32);
        match (f.k.as_str(), begin) {
            ("reset", _) => {
                if cl.reset(a, b / 10, (b % 10) as u8) > 0 {
                    count("fault.reset");
                }
            }
            ("cut", true) => {
                cl.cut(a, b);
                cl.cut(b, a);
                count("fault.partition");
            }
            ("cut", false) => {
                cl.heal(a, b);
                cl.heal(b, a);
            }
            ("cut1", true) => {
                cl.cut(a, b);
                count("fault.partition_one_way");
            }
            ("cut1", false) => cl.heal(a, b),
            ("stall", true) => {
                if !down.contains_key(&a) && !stalled.contains_key(&a) {
                    cl.stall(a, true);
                    stalled.insert(a, i);
                    count("fault.stall");
                }
            }
            ("stall", false) => {
                if stalled.get(&a) == Some(&i) {
                    stalled.remove(&a);
                    if !down.contains_key(&a) {
                        cl.stall(a, false);
                    }
                }
            }
            ("crash", true) => {
                if !down.contains_key(&a) && cl.crash(a, b == 1) {
                    stalled.remove(&a);
                    down.insert(a, i);
                    count(if b == 1 { "fault.crash_power_off" } else { "fault.crash" });
                }
            }
            ("kill", _) => {
                if cl.nodes().len() > 1 && !down.contains_key(&a) && cl.crash(a, b == 1) {
                    stalled.remove(&a);
                    down.insert(a, usize::MAX);
                    count("fault.kill");
                }
            }
            ("leave", _) => {
                if cl.nodes().len() > 1 && !down.contains_key(&a) && !stalled.contains_key(&a) && cl.leave(a) {
                    down.insert(a, usize::MAX);
                    count("fault.leave");
                }
            }
            // connections made from now on may break after some bytes
            ("brk", on) => sim::net::set_config(|c| {
                c.break_permille = if on { f.a as u64 } else { 0 };
                c.break_bytes = f.b as u64;
            }),
            ("clock", _) => {
                sim::set_skew(cl.sim(a), f.b * 1_000_000);
                note(&format!("clock of node {a} jumps to {} ms off", f.b));
                count("fault.clock_jump");
            }
            ("crash", false) => {
                if down.get(&a) == Some(&i) {
                    down.remove(&a);
                    count("fault.restart");
                    subs.push(tokio::spawn(restart(a)));
                }
            }
            _ => {}
        }
    }
    cl.heal_all();
    sim::net::set_config(|c| c.break_permille = 0);
    for s in subs {
        let _ = within(60_000, s).await;
    }
}
