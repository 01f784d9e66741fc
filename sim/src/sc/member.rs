//! Cluster membership, failure detection and leadership.
use crate::cluster::*;
use crate::core::*;
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::Handler;
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, IntoActorId};
use coerce::remote::cluster::node::NodeStatus;
use coerce::remote::heartbeat::HeartbeatConfig;
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription};
use coerce::remote::stream::system::{ClusterEvent, SystemEvent, SystemTopic};
use coerce::remote::system::RemoteActorSystem;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Default)]
struct Seen {
    leader: Option<u64>,
    leaders: u64,
    member_up: u64,
    present: BTreeSet<u64>,
}
/// what each incarnation's subscriber was told
type Log = Arc<Mutex<BTreeMap<u32, Seen>>>;

struct Sub {
    sim: u32,
    log: Log,
    min: usize,
    s: Option<Subscription>,
}
#[async_trait]
impl Actor for Sub {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.s = PubSub::subscribe::<Self, SystemTopic>(SystemTopic, ctx).await.ok();
    }
}
#[async_trait]
impl Handler<Receive<SystemTopic>> for Sub {
    async fn handle(&mut self, m: Receive<SystemTopic>, _c: &mut ActorContext) {
        let mut l = self.log.lock().unwrap();
        let s = l.entry(self.sim).or_default();
        let SystemEvent::Cluster(e) = m.0.as_ref();
        match e {
            ClusterEvent::MemberUp(_) => {
                s.member_up += 1;
                let begun = l.len();
                if begun < self.min {
                    fail("C17", format!("early: a node published that the cluster is up with {begun} nodes started, {} required", self.min));
                }
            }
            ClusterEvent::NodeAdded(n) => {
                s.present.insert(n.id);
            }
            ClusterEvent::NodeRemoved(n) => {
                s.present.remove(&n.id);
            }
            ClusterEvent::LeaderChanged(n) => {
                s.leader = Some(*n);
                s.leaders += 1;
            }
        }
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("member", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    let n = r.range(1, if thorough { 5 } else { 4 });
    p.set("n", n);
    p.set("ids", r.range(0, 2));
    p.set("topo", r.range(0, 2));
    p.set("newid", if r.chance(1, 4) { 1 } else { 0 });
    p.set("together", r.range(0, 1));
    p.set("fast", if r.chance(1, 3) { 1 } else { 0 });
    p.set("min", if r.chance(1, 4) { r.range(1, n) } else { 0 });
    // coarse wall clocks: nodes with the same start time
    p.set("grain_ms", *r.pick(&[0, 0, 1, 100]));
    p.net.max = *r.pick(&[0, 1, 5, 20, 100]);
    if r.chance(1, 4) {
        p.net.spike_permille = 20;
        p.net.spike = 300;
    }
    if r.chance(1, 4) {
        p.net.short = 200;
    }
    if n > 1 && r.chance(3, 4) {
        let window = *r.pick(&[2_000u64, 15_000, 40_000]);
        let mix = FaultMix { resets: 4, cuts: 3, stalls: 3, crashes: if r.chance(1, 2) { 3 } else { 0 }, max_cut: 12_000, max_stall: if r.chance(1, 3) { 25_000 } else { 4_000 } };
        let c = r.range(1, 4);
        if r.chance(1, 6) {
            // nothing breaks, but some are slow
            let mix = FaultMix { resets: 0, cuts: 0, stalls: 1, crashes: 0, max_cut: 1, max_stall: 35_000 };
            gen_faults(&mut p, r, n, 40_000, &mix, c);
            for f in p.faults.iter_mut() {
                f.at += 5_000;
            }
            return p;
        }
        gen_faults(&mut p, r, n, window, &mix, c);
        // leave: orderly shutdown; kill: crash without restart; clock: wall clock jumps
        if r.chance(1, 3) {
            let k = *r.pick(&["leave", "kill"]);
            let s = r.range(1, n);
            p.fault(r.below(window), k, s, r.range(0, 1), 0);
        }
        if r.chance(1, 3) {
            p.fault(r.below(window), "clock", r.range(1, n), r.range(-20_000, 20_000), 0);
        }
        if r.chance(1, 5) {
            gen_flaps(&mut p, r, n);
        }
        p.faults.sort_by_key(|f| f.at);
    }
    p
}

fn node_id(plan: &Plan, slot: u32, inc: u32) -> u64 {
    let inc = if plan.get("newid") == 1 { inc as u64 } else { 0 };
    match plan.get("ids") {
        0 => slot as u64 + inc * 100,
        1 => tokio::sim::mix(plan.seed, slot as u64, inc),
        _ => u64::MAX - slot as u64 * 7 - inc * 100,
    }
}

fn cfg(plan: &Plan, slot: u32, inc: u32, seed: Option<u32>) -> NodeCfg {
    let mut c = NodeCfg::new(slot, seed);
    c.id = node_id(plan, slot, inc);
    let mut hb = HeartbeatConfig::default();
    if plan.get("fast") == 1 {
        hb.interval = Duration::from_millis(200);
        hb.ping_timeout = Duration::from_secs(4);
        hb.terminated_node_heartbeat_timeout = Duration::from_secs(10);
    }
    if plan.get("min") > 0 {
        hb.minimum_cluster_size = Some(plan.get("min") as usize);
    }
    c.hb = hb;
    c
}

async fn start(plan: &Arc<Plan>, cl: &Cluster, log: &Log, slot: u32, seed: Option<u32>) -> bool {
    let inc = cl.next_inc(slot);
    let log = log.clone();
    let no = simno(slot, inc);
    let min = plan.get("min") as usize;
    log.lock().unwrap().entry(no).or_default();
    cl.start(cfg(plan, slot, inc, seed), 100_000, |b| b, move |s: RemoteActorSystem| async move {
        let _ = s.actor_system().new_actor("sub".into_actor_id(), Sub { sim: no, log, min, s: None }, ActorType::Tracked).await;
    })
    .await
    .is_some()
}

pub async fn run(plan: Arc<Plan>) {
    let n = plan.get("n") as u32;
    let cl = Cluster::new();
    let log: Log = Default::default();
    let topo = plan.get("topo");
    let mut hs = vec![];
    for slot in 1..=n {
        let seed = match (slot, topo) {
            (1, _) => None,
            (_, 0) => Some(1),
            (_, _) => Some(slot - 1),
        };
        if plan.get("together") == 1 && slot > 1 {
            let (p2, c2, l2) = (plan.clone(), cl.clone(), log.clone());
            hs.push(tokio::spawn(async move {
                start(&p2, &c2, &l2, slot, seed).await;
            }));
        } else {
            start(&plan, &cl, &log, slot, seed).await;
            if plan.get("together") == 0 && plan.net.spike_permille == 0 && plan.net.connect_fail == 0 {
                joined(&cl).await;
            }
        }
    }
    for h in hs {
        let _ = h.await;
    }
    let calm = plan.net.spike_permille == 0;
    if cl.nodes().len() < n as usize {
        fail("C17", "not started: a node did not finish joining although nothing failed");
        return;
    }
    if !cl.wait_formed(if calm { 15_000 } else { 60_000 }).await {
        fail("C17", format!("not formed: nodes that joined through a running seed do not see each other as healthy with one leader: {}", cl.describe().await));
        return;
    }
    count("formed");
    judge(&plan, &cl, &log, n, true).await;
    if plan.faults.is_empty() {
        return;
    }
    {
        let (p2, c2, l2) = (plan.clone(), cl.clone(), log.clone());
        let restart = move |slot: u32| {
            let (plan, cl, log) = (p2.clone(), c2.clone(), l2.clone());
            async move {
                let seed = cl.nodes().iter().map(|n| n.slot).find(|s| *s != slot);
                start(&plan, &cl, &log, slot, seed).await;
            }
        };
        let clocks = plan.net.spike_permille > 0 || plan.faults.iter().any(|f| f.k == "clock");
        let watch = (!clocks).then(|| tokio::spawn(suspected(cl.clone(), plan.faults.iter().all(|f| f.k == "stall").then(|| if plan.get("fast") == 1 { 8_000 } else { 28_000 }))));
        play_faults(&plan, &cl, restart).await;
        if let Some(w) = watch {
            sleep_ms(12_000).await;
            w.abort();
        }
    }
    tokio::sim::net::set_config(|c| {
        c.connect_fail_permille = 0;
        c.spike_permille = 0;
    });
    let t0 = now_ms();
    // until everyone has noticed what happened
    sleep_ms(8_000).await;
    if !cl.wait_formed(142_000).await {
        fail("C17", format!("no convergence: 150 virtual s after the last fault the nodes disagree: {}", cl.describe().await));
        return;
    }
    count_n("converged_ms", now_ms() - t0);
    // and it stays that way
    for _ in 0..60 {
        sleep_ms(500).await;
        if shaken(&cl).await {
            fail("C17", format!("unstable: the membership changes again without faults: {}", cl.describe().await));
            break;
        }
    }
    judge(&plan, &cl, &log, n, false).await;
}

/// a node that has been out of service for a while is not seen as healthy
async fn suspected(cl: Cluster, patience: Option<u64>) {
    loop {
        sleep_ms(700).await;
        if let Some(ms) = patience {
            for (id, slots) in cl.just_out(ms) {
                for slot in slots {
                    let v = cl.view(slot).await;
                    let still = cl.just_out(ms).iter().any(|j| j.0 == id && j.1.contains(&slot));
                    if still && v.iter().any(|x| x.id == id && x.status == NodeStatus::Terminated) {
                        fail("C17", format!("given up early: node {slot} sees node {id} as terminated, although it has only been silent for less than {ms} ms: {}", cl.describe().await));
                    }
                    count("patience_checked");
                }
            }
        }
        let (out, up) = cl.long_out(10_000);
        if out.is_empty() {
            continue;
        }
        for slot in up {
            let v = cl.view(slot).await;
            // still out?
            let (now_out, now_up) = cl.long_out(10_000);
            if !now_up.contains(&slot) {
                continue;
            }
            count("suspicions_checked");
            for id in out.iter().filter(|i| now_out.contains(i)) {
                if v.iter().any(|x| x.id == *id && x.status == NodeStatus::Healthy) {
                    fail("C17", format!("not noticed: node {id} has not answered anyone for 10 s, but node {slot} sees it as healthy: {}", cl.describe().await));
                }
            }
        }
    }
}

/// someone gives up a node that is fine, or follows another leader than the others
async fn shaken(cl: &Cluster) -> bool {
    let ns = cl.nodes();
    for a in &ns {
        if a.sys.current_leader() != ns[0].sys.current_leader() {
            return true;
        }
        let v = cl.view(a.slot).await;
        if v.iter().any(|x| matches!(x.status, NodeStatus::Unhealthy | NodeStatus::Terminated) && ns.iter().any(|b| b.id == x.id)) {
            return true;
        }
    }
    false
}

/// a node that reports to have joined is known to everyone, and knows everyone
async fn joined(cl: &Cluster) {
    let ns = cl.nodes();
    for a in &ns {
        let v = cl.view(a.slot).await;
        for b in &ns {
            if !v.iter().any(|x| x.id == b.id) {
                fail("C17", format!("joined early: start() of the last node returned, but node {} doesn't know node {}: {}", a.id, b.id, cl.describe().await));
            }
        }
    }
    count("joins_checked");
}

async fn judge(plan: &Plan, cl: &Cluster, log: &Log, n: u32, calm: bool) {
    // let events arrive
    sleep_ms(1500).await;
    let ns = cl.nodes();
    let running: BTreeSet<u64> = ns.iter().map(|n| n.id).collect();
    let Some(oldest) = ns.iter().min_by_key(|n| (*n.sys.started_at(), n.id)) else { return };
    for m in &ns {
        let v = cl.view(m.slot).await;
        let leader = m.sys.current_leader();
        for x in &v {
            if !running.contains(&x.id) && x.status == NodeStatus::Healthy {
                fail("C17", format!("ghost: node {} considers node {} healthy long after it ended", m.id, x.id));
            }
        }
        match leader {
            Some(l) if !running.contains(&l) => fail("C17", format!("dead leader: node {} follows leader {l}, which is not running", m.id)),
            Some(l) if l != oldest.id => fail("C17", format!("wrong leader: node {} follows leader {l} although node {} has been up for longer", m.id, oldest.id)),
            None => fail("C17", format!("no leader: node {} knows no leader", m.id)),
            _ => {}
        }
        let l = log.lock().unwrap();
        let Some(s) = l.get(&m.sim) else {
            fail("C17", format!("no events: the subscriber on node {} was told nothing", m.id));
            continue;
        };
        if s.leader != leader {
            fail("C17", format!("stale event: the last leader published on node {} is {:?}, its leader is {leader:?}", m.id, s.leader));
        }
        if s.member_up == 0 && running.len() >= plan.get("min") as usize {
            fail("C17", format!("never up: node {} did not publish that the cluster is up although enough nodes are healthy", m.id));
        }
        if s.member_up > 1 {
            fail("C17", format!("repeated: node {} published that it is up {} times", m.id, s.member_up));
        }
        for id in running.iter().filter(|i| **i != m.id) {
            if !s.present.contains(id) {
                fail("C17", format!("missed: subscribers on node {} were not told that node {id} (healthy) is part of the cluster", m.id));
            }
        }
    }
    let _ = n;
    // (a new id at the address of an old one replaces it silently)
    if calm || plan.get("newid") == 1 {
        return;
    }
    // nodes that are gone for good are announced as such once the clients have given up
    for k in 0.. {
        let told = {
            let l = log.lock().unwrap();
            ns.iter().find_map(|m| l.get(&m.sim).and_then(|s| s.present.iter().find(|i| !running.contains(i)).map(|i| (m.id, *i))))
        };
        let Some((m, gone)) = told else { break };
        if k == 30 {
            fail("C17", format!("never removed: subscribers on node {m} were told of node {gone} but not that it is gone"));
            break;
        }
        sleep_ms(5_000).await;
    }
}
