//! Cluster singletons: at most one live instance, and it keeps serving.
use crate::cluster::*;
use crate::core::*;
use crate::hist::{self, ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::Actor;
use coerce::remote::system::builder::RemoteActorSystemBuilder;
use coerce::singleton::factory::SingletonFactory;
use coerce::singleton::{singleton, Singleton, SingletonBuilder};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use tokio::sim;

pub struct One {
    inst: i64,
    sim: u32,
    sd: u64,
    pd: u64,
    asked: i64,
    fails: bool,
}

fn live_others(h: &[hist::Ev], inst: i64) -> Vec<(i64, i64)> {
    h.iter()
        .filter(|e| e.k == "up" && e.a != inst)
        .filter(|e| sim::node_state(e.b as u32) != sim::NodeState::Dead)
        .filter(|e| !h.iter().any(|d| d.k == "down" && d.a == e.a))
        .map(|e| (e.a, e.b))
        .collect()
}

#[async_trait]
impl Actor for One {
    async fn started(&mut self, _c: &mut ActorContext) {
        let l = hist::with(|h| live_others(h, self.inst));
        ev("up", self.inst, self.sim as i64, 0);
        if let Some((i, s)) = l.first() {
            fail("C24", format!("two instances: instance {} of the singleton starts on machine {} while instance {i} is alive on machine {s}", self.inst, self.sim));
        }
        if self.sd > 0 {
            sleep_ms(self.sd).await;
        }
        if self.fails {
            count("fault.singleton_start_failure");
            ev("down", self.inst, self.sim as i64, 0);
            panic!("planned-panic");
        }
        ev("ready", self.inst, self.sim as i64, 0);
    }
    async fn stopped(&mut self, _c: &mut ActorContext) {
        if self.pd > 0 {
            sleep_ms(self.pd).await;
        }
        ev("down", self.inst, self.sim as i64, 0);
    }
}

pub struct OneF {
    sim: u32,
    sd: u64,
    pd: u64,
    fails: i64,
}
impl SingletonFactory for OneF {
    type Actor = One;
    fn create(&self) -> One {
        let inst = hist::with(|h| h.iter().filter(|e| e.k == "create").count() as i64 + 1);
        ev("create", inst, self.sim as i64, 0);
        One { inst, sim: self.sim, sd: self.sd, pd: self.pd, asked: 0, fails: inst <= self.fails }
    }
}

/// act: 0 answer, 1 slow answer, 2 stop the singleton afterwards
#[derive(Clone)]
pub struct Ask {
    op: i64,
    act: i64,
    k: i64,
}
#[derive(Debug)]
pub struct Told {
    op: i64,
    inst: i64,
    sim: i64,
    nth: i64,
}
fn pack(v: &[i64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn at(b: &[u8], i: usize) -> i64 {
    i64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap())
}
impl Message for Ask {
    type Result = Told;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(pack(&[self.op, self.act, self.k]))
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        Ok(Ask { op: at(&b, 0), act: at(&b, 1), k: at(&b, 2) })
    }
    fn read_remote_result(b: Vec<u8>) -> Result<Told, MessageUnwrapErr> {
        Ok(Told { op: at(&b, 0), inst: at(&b, 1), sim: at(&b, 2), nth: at(&b, 3) })
    }
    fn write_remote_result(r: Told) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(pack(&[r.op, r.inst, r.sim, r.nth]))
    }
}
#[async_trait]
impl Handler<Ask> for One {
    async fn handle(&mut self, m: Ask, c: &mut ActorContext) -> Told {
        self.asked += 1;
        ev("do", m.op, self.inst, self.asked);
        if m.act == 1 {
            sleep_ms(m.k as u64).await;
        }
        if m.act == 2 {
            ev("quit", self.inst, 0, 0);
            c.stop(None);
        }
        Told { op: m.op, inst: self.inst, sim: self.sim as i64, nth: self.asked }
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("single", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    let n = r.range(2, 4);
    p.set("n", n);
    p.set("ids", r.range(0, 1));
    p.set("sd", *r.pick(&[0, 0, 5, 400, 2_500]));
    p.set("pd", *r.pick(&[0, 0, 5, 400, 2_500]));
    p.set("gap", *r.pick(&[0, 10, 700, 4_000]));
    // the first instances do not survive their start hook
    p.set("fails", if r.chance(1, 5) { r.range(1, 3) } else { 0 });
    p.net.max = *r.pick(&[0, 1, 5, 20, 100]);
    if r.chance(1, 4) {
        p.net.short = 200;
    }
    let lanes = r.range(1, 4);
    let window: u64 = *r.pick(&[2_000, 20_000, 60_000]);
    let nops = r.range(3, if thorough { 40 } else { 24 });
    let quits = r.chance(1, 4);
    for _ in 0..nops {
        let lane = r.below(lanes as u64) as u32;
        let k = r.weighted(&[(4, "send"), (2, "notify")]);
        let act = r.weighted(&[(10, 0i64), (2, 1), (if quits { 1 } else { 0 }, 2)]);
        let gap = r.below(window * 2 / nops as u64 + 1);
        p.op(lane, k, r.range(1, n), act, r.range(1, 1_500), gap);
    }
    if r.chance(1, 3) {
        // one more member
        p.set("late", 1 + r.below(window) as i64);
    }
    let kind = r.below(4);
    match kind {
        0 => {}
        1 => {
            // stalls move the leadership around
            let mix = FaultMix { resets: 0, cuts: 0, stalls: 1, crashes: 0, max_cut: 1, max_stall: 6000 };
            let c = r.range(1, 5);
            gen_faults(&mut p, r, n, window, &mix, c);
        }
        2 => {
            let mix = FaultMix { resets: 0, cuts: 0, stalls: 2, crashes: 3, max_cut: 1, max_stall: 6000 };
            let c = r.range(1, 3);
            gen_faults(&mut p, r, n, window, &mix, c);
        }
        _ => {
            // one node goes for good
            let mix = FaultMix { resets: 0, cuts: 0, stalls: 1, crashes: 0, max_cut: 1, max_stall: 6000 };
            let c = r.range(0, 3);
            gen_faults(&mut p, r, n, window, &mix, c);
            let k = if r.chance(1, 4) { "leave" } else { "kill" };
            p.fault(r.below(window), k, r.range(1, n), r.range(0, 1), 0);
            p.faults.sort_by_key(|f| f.at);
        }
    }
    if p.get("late") > 0 && kind > 0 {
        // a node that is out of service while another one joins does not know it when it continues
        p.set("late", 1 + p.get("late") % 1_000);
        space_out(&mut p, 20_000, 15_000);
    }
    p
}

type Sing = Singleton<One, OneF>;
type Sings = Arc<Mutex<BTreeMap<u32, Sing>>>;

fn configure(b: RemoteActorSystemBuilder) -> RemoteActorSystemBuilder {
    b.configure(singleton::<OneF>).configure(|h| h.with_handler::<One, Ask>("One.Ask"))
}

fn node_id(plan: &Plan, slot: u32) -> u64 {
    match plan.get("ids") {
        0 => slot as u64,
        _ => sim::mix(plan.seed, slot as u64, 77),
    }
}

async fn start(plan: &Arc<Plan>, cl: &Cluster, sings: &Sings, slot: u32, within_ms: u64) -> Option<Node> {
    let seed = cl.nodes().iter().map(|n| n.slot).find(|s| *s != slot);
    let mut c = NodeCfg::new(slot, seed);
    c.id = node_id(plan, slot);
    c.hb.minimum_cluster_size = Some(plan.get("n") as usize);
    let no = simno(slot, cl.next_inc(slot));
    let (sd, pd) = (plan.get("sd") as u64, plan.get("pd") as u64);
    let fails = plan.get("fails");
    let sings = sings.clone();
    cl.start(c, within_ms, configure, move |sys| async move {
        let s = SingletonBuilder::new(sys).factory(OneF { sim: no, sd, pd, fails }).build().await;
        sings.lock().unwrap().insert(slot, s);
    })
    .await
}

pub async fn run(plan: Arc<Plan>) {
    let n = plan.get("n") as u32;
    let cl = Cluster::new();
    let sings: Sings = Default::default();
    let mut slots = n;
    for slot in 1..=n {
        if slot > 1 {
            sleep_ms(plan.get("gap") as u64).await;
        }
        if start(&plan, &cl, &sings, slot, 60_000).await.is_none() {
            return count("not_started");
        }
    }
    let calm = plan.faults.is_empty() && plan.get("fails") == 0;
    // requests may come in before the cluster has formed
    let mut hs = vec![];
    for lane in plan.lanes() {
        let (cl, sings) = (cl.clone(), sings.clone());
        hs.push(tokio::spawn(async move {
            for o in lane {
                sleep_ms(o.gap).await;
                let Some(nd) = cl.node(o.a as u32) else { continue };
                let Some(s) = sings.lock().unwrap().get(&nd.slot).cloned() else { continue };
                let h = spawn_on(nd.sim, exec(s, nd, o));
                let _ = within(1_000, h).await;
            }
        }));
    }
    let late = if plan.get("late") > 0 {
        slots += 1;
        let (p, c, s) = (plan.clone(), cl.clone(), sings.clone());
        Some(tokio::spawn(async move {
            sleep_ms(p.get("late") as u64).await;
            count("late_join");
            start(&p, &c, &s, n + 1, 60_000).await;
        }))
    } else {
        None
    };
    let mut plan2 = (*plan).clone();
    // a node is only asked to leave while it has nothing to do with the singleton
    let leaves: Vec<Fault> = plan2.faults.iter().filter(|f| f.k == "leave").cloned().collect();
    plan2.faults.retain(|f| f.k != "leave");
    let leaver = {
        let cl = cl.clone();
        tokio::spawn(async move {
            if !cl.wait_formed(30_000).await {
                return;
            }
            sleep_ms(1_000).await;
            let t0 = now_ms();
            for f in leaves {
                let t = now_ms() - t0;
                sleep_ms(f.at.saturating_sub(t)).await;
                let Some(nd) = cl.node(f.a as u32) else { continue };
                let busy = hist::with(|h| h.iter().any(|e| e.k == "create" && e.b == nd.sim as i64)) || nd.sys.current_leader() == Some(nd.id);
                if !busy && cl.leave(nd.slot) {
                    count("fault.leave");
                }
            }
        })
    };
    if !cl.wait_formed(30_000).await {
        return count("not_formed");
    }
    sleep_ms(1_000).await;
    {
        let (cl2, p2, s2) = (cl.clone(), plan.clone(), sings.clone());
        let restart = move |slot: u32| {
            let (cl, plan, sings) = (cl2.clone(), p2.clone(), s2.clone());
            async move {
                start(&plan, &cl, &sings, slot, 50_000).await;
            }
        };
        play_faults(&plan2, &cl, restart).await;
    }
    let _ = leaver.await;
    if let Some(l) = late {
        let _ = l.await;
    }
    for h in hs {
        let _ = h.await;
    }
    let _ = slots;
    if !cl.wait_formed(if calm { 30_000 } else { 150_000 }).await {
        return count("not_formed");
    }
    count("formed");
    // the singleton comes (back) into service everywhere
    let t0 = now_ms();
    let limit = t0 + 60_000;
    let mut no = 1_000_000i64;
    let mut missing: Vec<u32> = cl.nodes().iter().map(|n| n.slot).collect();
    let mut why = String::new();
    while !missing.is_empty() && now_ms() < limit {
        let mut left = vec![];
        for slot in missing {
            let (Some(nd), Some(s)) = (cl.node(slot), sings.lock().unwrap().get(&slot).cloned()) else { continue };
            no += 1;
            let id = no;
            let h = spawn_on(nd.sim, async move { s.send(Ask { op: id, act: 0, k: 0 }).await });
            match within(8_000, h).await {
                Some(Ok(Ok(t))) => {
                    judge_answer(id, &t);
                }
                x => {
                    why = match x {
                        None => "no answer".into(),
                        Some(Ok(Err(e))) => format!("{e:?}"),
                        _ => "panicked".into(),
                    };
                    left.push(slot);
                }
            }
        }
        missing = left;
        if !missing.is_empty() {
            sleep_ms(1_000).await;
        }
    }
    if !missing.is_empty() {
        fail("C25", format!("no service: {} virtual s after the last fault the singleton does not answer requests made on nodes {missing:?} ({why})", (now_ms() - t0) / 1000));
    }
    // requests to nodes that are gone take a while to fail
    for _ in 0..if calm { 5 } else { 100 } {
        let open = hist::with(|h| h.iter().any(|c| c.k == "call" && sim::node_state(c.b as u32) != sim::NodeState::Dead && !h.iter().any(|r| r.k == "ret" && r.a == c.a)));
        sleep_ms(1_000).await;
        if !open {
            break;
        }
    }
    sleep_ms(4_000).await;
    let live = hist::with(|h| live_others(h, -1));
    if live.len() > 1 {
        fail("C24", format!("two instances alive at the end: {live:?}"));
    }
    check(&plan, &cl, calm);
}

fn judge_answer(id: i64, t: &Told) {
    let did = hist::with(|h| h.iter().any(|e| e.k == "do" && e.a == id && e.b == t.inst && e.c == t.nth));
    if t.op != id || !did {
        fail("C25", format!("wrong answer: request {id} was answered with {t:?}"));
    }
}

async fn exec(s: Sing, nd: Node, o: Op) {
    let id = o.id as i64;
    let m = Ask { op: id, act: o.b, k: o.c };
    ev("call", id, nd.sim as i64, (o.k == "notify") as i64);
    if o.k == "notify" {
        let r = s.notify(m).await;
        ev("ret", id, r.is_ok() as i64, 0);
    } else {
        let r = s.send(m).await;
        ev("ret", id, r.is_ok() as i64, 0);
        match r {
            Ok(t) => judge_answer(id, &t),
            Err(e) => note(&format!("{e:?}")),
        }
    }
}

fn check(plan: &Plan, cl: &Cluster, calm: bool) {
    let _ = cl;
    let h = hist::snapshot();
    let quits = plan.ops.iter().any(|o| o.b == 2);
    for o in &plan.ops {
        let id = o.id as i64;
        let Some(c) = h.iter().find(|e| e.k == "call" && e.a == id) else { continue };
        let did = h.iter().filter(|e| e.k == "do" && e.a == id).count();
        if did > 1 {
            fail("C25", format!("handled {did} times: message {id}"));
        }
        let alive = sim::node_state(c.b as u32) != sim::NodeState::Dead;
        match h.iter().find(|e| e.k == "ret" && e.a == id) {
            None => {
                if alive {
                    fail("C25", format!("no answer: request {id} on machine {} never resolves", c.b));
                }
            }
            Some(r) => {
                count(if r.b == 1 { "asks_ok" } else { "asks_err" });
                if calm && !quits && r.b == 0 {
                    fail("C25", format!("refused: request {id} failed without any fault"));
                }
            }
        }
        if calm && !quits && did != 1 {
            fail("C25", format!("handled {did} times without any fault: message {id}"));
        }
    }
    count_n("instances", h.iter().filter(|e| e.k == "up").count() as u64);
}
