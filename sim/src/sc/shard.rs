//! Sharded entities: placement, routing, rebalancing, recovery.
use crate::cluster::*;
use crate::core::*;
use crate::hist::{self, ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorRecipe, ActorRefErr, IntoActorId};
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::journal::storage::JournalStorageRef;
use coerce::remote::system::builder::RemoteActorSystemBuilder;
use coerce::sharding::coordinator::allocation::DefaultAllocator;
use coerce::sharding::host::ShardAllocator;
use coerce::sharding::{sharding, Sharding};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use tokio::sim;

/// act: 0 plain, 1 refuses to be created
#[derive(Clone)]
pub struct Rec {
    ent: i64,
    act: i64,
    /// the request that came with it
    op: i64,
}
impl ActorRecipe for Rec {
    fn read_from_bytes(b: &Vec<u8>) -> Option<Self> {
        if b.len() != 24 {
            fail("C23", "corrupted: the recipe of an entity has a different length");
            return None;
        }
        Some(Rec { ent: at(b, 0), act: at(b, 1), op: at(b, 2) })
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        Some(pack(&[self.ent, self.act, self.op]))
    }
}

pub struct Ent {
    ent: i64,
    inst: i64,
    sim: u32,
    sd: u64,
    pd: u64,
    asked: i64,
    strict: bool,
}

fn live(h: &[hist::Ev], ent: i64) -> Vec<(i64, i64)> {
    h.iter()
        .filter(|e| e.k == "up" && e.a == ent)
        .filter(|e| sim::node_state(e.c as u32) != sim::NodeState::Dead)
        .filter(|e| !h.iter().any(|d| d.k == "down" && d.b == e.b))
        .map(|e| (e.b, e.c))
        .collect()
}

#[async_trait]
impl Actor for Ent {
    async fn started(&mut self, c: &mut ActorContext) {
        let l = hist::with(|h| live(h, self.ent));
        ev("up", self.ent, self.inst, self.sim as i64);
        if c.id().to_string() != format!("e{}", self.ent) {
            fail("C23", format!("mixed up: entity {} was created from the recipe of entity {}", c.id(), self.ent));
        }
        if let Some((i, s)) = l.first().filter(|_| self.strict) {
            fail("C21", format!("two instances: entity {} is started on machine {} while its instance {i} is alive on machine {s}", self.ent, self.sim));
        }
        if self.sd > 0 {
            sleep_ms(self.sd).await;
        }
    }
    async fn stopped(&mut self, _c: &mut ActorContext) {
        if self.pd > 0 {
            sleep_ms(self.pd).await;
        }
        ev("down", self.ent, self.inst, self.sim as i64);
    }
}

#[derive(Clone)]
pub struct EntF {
    sim: u32,
    sd: u64,
    pd: u64,
    cd: u64,
    /// no node is ever given up while it is running
    strict: bool,
}
#[async_trait]
impl ActorFactory for EntF {
    type Actor = Ent;
    type Recipe = Rec;
    async fn create(&self, r: Rec) -> Result<Ent, ActorCreationErr> {
        if self.cd > 0 {
            sleep_ms(self.cd).await;
        }
        if r.act == 1 {
            ev("refuse", r.ent, self.sim as i64, 0);
            return Err(ActorCreationErr::InvalidRecipe("no".into()));
        }
        let inst = hist::with(|h| h.iter().filter(|e| e.k == "create").count() as i64 + 1);
        ev("create", inst, r.ent, self.sim as i64);
        ev("recipe", inst, r.op, r.ent);
        if !hist::with(|h| h.iter().any(|e| e.k == "call" && e.a == r.op && e.c == r.ent)) {
            fail("C23", format!("corrupted: entity {} is created from a recipe that was never given for it", r.ent));
        }
        Ok(Ent { ent: r.ent, inst, sim: self.sim, sd: self.sd, pd: self.pd, asked: 0, strict: self.strict })
    }
}

/// act: 0 answer, 1 slow answer, 2 stop the entity afterwards
#[derive(Clone)]
pub struct Ask {
    op: i64,
    act: i64,
    k: i64,
}
#[derive(Debug)]
pub struct Told {
    op: i64,
    ent: i64,
    inst: i64,
    nth: i64,
}
fn pack(v: &[i64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn at(b: &[u8], i: usize) -> i64 {
    i64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap())
}
impl Message for Ask {
    type Result = Told;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(pack(&[self.op, self.act, self.k]))
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        Ok(Ask { op: at(&b, 0), act: at(&b, 1), k: at(&b, 2) })
    }
    fn read_remote_result(b: Vec<u8>) -> Result<Told, MessageUnwrapErr> {
        Ok(Told { op: at(&b, 0), ent: at(&b, 1), inst: at(&b, 2), nth: at(&b, 3) })
    }
    fn write_remote_result(r: Told) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(pack(&[r.op, r.ent, r.inst, r.nth]))
    }
}
#[async_trait]
impl Handler<Ask> for Ent {
    async fn handle(&mut self, m: Ask, c: &mut ActorContext) -> Told {
        self.asked += 1;
        ev("do", m.op, self.inst, self.asked);
        if m.act == 1 {
            sleep_ms(m.k as u64).await;
        }
        if m.act == 2 {
            c.stop(None);
        }
        Told { op: m.op, ent: self.ent, inst: self.inst, nth: self.asked }
    }
}

const LEVELS: u64 = 6;

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("shard", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    let level = match std::env::var("SHARD_LEVEL") {
        Ok(x) => x.parse().unwrap(),
        _ if prop == "C26" => *r.pick(&[0, 1, 1, 3, 4]),
        _ if prop == "C21" => r.below(LEVELS - 1) as i64,
        _ => r.below(LEVELS) as i64,
    };
    p.set("level", level);
    let n = r.range(if level >= 2 { 2 } else { 1 }, 4);
    p.set("n", n);
    p.set("ids", r.range(0, 1));
    p.set("shards", r.range(1, if prop == "C26" { 15 } else { 6 }));
    p.set("sd", *r.pick(&[0, 0, 5, 300, 1_500]));
    p.set("pd", *r.pick(&[0, 0, 5, 300, 1_500]));
    p.set("cd", *r.pick(&[0, 0, 5, 300]));
    p.set("gap", *r.pick(&[0, 10, 700, 3_000]));
    p.net.max = *r.pick(&[0, 1, 5, 20, 100]);
    if r.chance(1, 4) {
        p.net.short = 200;
    }
    let lanes = r.range(1, 5);
    let window: u64 = *r.pick(&[2_000, 10_000, 40_000]);
    let nops = r.range(3, if thorough { 50 } else { 30 });
    let ents = r.range(1, if prop == "C26" { 30 } else { 8 });
    let quits = r.chance(1, 5);
    let refuse = r.chance(1, 5);
    for _ in 0..nops {
        let lane = r.below(lanes as u64) as u32;
        let k = r.weighted(&[(8, "ask"), (1, "bare"), (if refuse { 1 } else { 0 }, "bad")]);
        let act = r.weighted(&[(10, 0i64), (2, 1), (if quits { 1 } else { 0 }, 2)]);
        let gap = r.below(window * 2 / nops as u64 + 1);
        p.op(lane, k, r.range(1, n) * 100 + r.range(1, ents), act, r.range(1, 1_500), gap);
    }
    let joins = match level {
        0 => 0,
        1 => r.range(1, 2),
        _ => r.range(0, 1),
    };
    for i in 0..joins {
        p.fault(r.below(if level >= 2 { 1_000 } else { window }), "join", n + 1 + i, 0, 0);
    }
    let mix = match level {
        2 => Some(FaultMix { resets: 0, cuts: 0, stalls: 1, crashes: 0, max_cut: 1, max_stall: 600 }),
        3 | 4 => Some(FaultMix { resets: 0, cuts: 0, stalls: 1, crashes: 3, max_cut: 1, max_stall: 600 }),
        5 => Some(FaultMix { resets: 0, cuts: 0, stalls: 2, crashes: 3, max_cut: 1, max_stall: 6_000 }),
        _ => None,
    };
    if let Some(mix) = mix {
        let c = r.range(1, 3);
        gen_faults(&mut p, r, n, window, &mix, c);
        if level >= 3 && r.chance(1, 4) {
            // one that does not come back; the others do not forget how many they have been
            if let Some(f) = p.faults.iter().find(|f| f.k == "crash").cloned() {
                p.faults.retain(|f| f.k != "crash");
                p.fault(f.at, "kill", f.a, f.b, 0);
                p.faults.sort_by_key(|f| f.at);
            }
        }
        if joins > 0 {
            // a node that was out of service while another one joined does not know it yet when it continues
            space_out(&mut p, 20_000, 15_000);
        }
        if level == 3 {
            // the node of the coordinator stays
            for f in p.faults.iter_mut() {
                if (f.k == "crash" || f.k == "kill") && f.a == 1 {
                    f.a = 2;
                }
            }
        }
        if level < 5 {
            // stalls that do not add up to one that makes the others give the node up
            let mut last: BTreeMap<i64, u64> = BTreeMap::new();
            p.faults.sort_by_key(|f| f.at);
            p.faults.retain(|f| f.k != "stall" || {
                let ok = last.get(&f.a).map_or(true, |l| l + 3_000 <= f.at);
                if ok {
                    last.insert(f.a, f.at + f.dur);
                }
                ok
            });
        }
    }
    p.faults.sort_by_key(|f| f.at);
    p
}

type Sh = Sharding<EntF>;
type Shs = Arc<Mutex<BTreeMap<u32, Sh>>>;

fn node_id(plan: &Plan, slot: u32) -> u64 {
    match plan.get("ids") {
        0 => slot as u64,
        _ => sim::mix(plan.seed, slot as u64, 77),
    }
}

struct World {
    plan: Arc<Plan>,
    cl: Cluster,
    shs: Shs,
    store: JournalStorageRef,
}

struct Prov(JournalStorageRef);
impl StorageProvider for Prov {
    fn journal_storage(&self) -> Option<JournalStorageRef> {
        Some(self.0.clone())
    }
}

impl World {
    async fn start(&self, slot: u32, within_ms: u64) -> Option<Node> {
        let plan = &self.plan;
        let seed = self.cl.nodes().iter().map(|n| n.slot).find(|s| *s != slot);
        let mut c = NodeCfg::new(slot, seed);
        c.id = node_id(plan, slot);
        // one that joins does not make a cluster of its own
        c.hb.minimum_cluster_size = Some((plan.get("n") as usize).max(if slot as i64 > plan.get("n") { 2 } else { 1 }));
        let sim = simno(slot, self.cl.next_inc(slot));
        let f = EntF { sim, sd: plan.get("sd") as u64, pd: plan.get("pd") as u64, cd: plan.get("cd") as u64, strict: plan.get("level") < 5 };
        let shs = self.shs.clone();
        let store = self.store.clone();
        let shards = plan.get("shards") as u32;
        self.cl
            .start_with(
                c,
                within_ms,
                move || ActorSystem::builder().with_persistence(Prov(store)),
                move |b: RemoteActorSystemBuilder| b.configure(sharding).with_actors(move |a| a.with_actor(f)).configure(|h| h.with_handler::<Ent, Ask>("Ent.Ask")),
                move |sys| async move {
                    let s = OneThread(async move { Sharding::<EntF>::builder(sys).with_entity_type("Ent").with_allocator(DefaultAllocator { max_shards: shards }).build().await }).await;
                    shs.lock().unwrap().insert(slot, s);
                },
            )
            .await
    }
}

pub async fn run(plan: Arc<Plan>) {
    let n = plan.get("n") as u32;
    let w = Arc::new(World { plan: plan.clone(), cl: Cluster::new(), shs: Default::default(), store: InMemoryStorageProvider::new().journal_storage().unwrap() });
    let cl = &w.cl;
    for slot in 1..=n {
        if slot > 1 {
            sleep_ms(plan.get("gap") as u64).await;
        }
        if w.start(slot, 60_000).await.is_none() {
            return count("not_started");
        }
    }
    let calm = plan.faults.iter().all(|f| f.k == "join");
    let still = plan.faults.is_empty();
    let mut hs = vec![];
    for lane in plan.lanes() {
        let w = w.clone();
        hs.push(tokio::spawn(async move {
            for o in lane {
                sleep_ms(o.gap).await;
                let from = (o.a / 100) as u32;
                let Some(nd) = w.cl.node(from) else { continue };
                let Some(s) = w.shs.lock().unwrap().get(&from).cloned() else { continue };
                let h = spawn_on(nd.sim, exec(s, nd, o));
                let _ = within(500, h).await;
            }
        }));
    }
    if !cl.wait_formed(30_000).await {
        return count("not_formed");
    }
    sleep_ms(1_000).await;
    let joins: Vec<Fault> = plan.faults.iter().filter(|f| f.k == "join").cloned().collect();
    let joiner = {
        let w = w.clone();
        tokio::spawn(async move {
            let t0 = now_ms();
            for f in joins {
                let t = now_ms() - t0;
                sleep_ms(f.at.saturating_sub(t)).await;
                count("fault.join");
                w.start(f.a as u32, 60_000).await;
            }
        })
    };
    {
        let w2 = w.clone();
        let restart = move |slot: u32| {
            let w = w2.clone();
            async move {
                w.start(slot, 50_000).await;
            }
        };
        play_faults(&plan, cl, restart).await;
    }
    let _ = joiner.await;
    for h in hs {
        let _ = h.await;
    }
    if !cl.wait_formed(if calm { 30_000 } else { 150_000 }).await {
        return count("not_reformed");
    }
    count("formed");
    // every entity that was ever started answers again, from everywhere, without its recipe
    let t0 = now_ms();
    let limit = t0 + if calm { 20_000 } else { 90_000 };
    let mut known: Vec<i64> = hist::with(|h| h.iter().filter(|e| e.k == "do").filter_map(|e| plan.ops.iter().find(|o| o.id as i64 == e.a)).map(|o| o.a % 100).collect());
    known.sort();
    known.dedup();
    let mut left: Vec<(u32, i64)> = cl.nodes().iter().flat_map(|n| known.iter().map(|e| (n.slot, *e))).collect();
    let mut no = 1_000_000i64;
    let mut why = String::new();
    loop {
        let mut hs = vec![];
        for (slot, e) in left.drain(..) {
            no += 1;
            let id = no;
            let (Some(nd), Some(s)) = (cl.node(slot), w.shs.lock().unwrap().get(&slot).cloned()) else { continue };
            hs.push((slot, e, tokio::spawn(async move {
                let h = spawn_on(nd.sim, async move { s.get(format!("e{e}"), None).send(Ask { op: id, act: 0, k: 0 }).await });
                match within(8_000, h).await {
                    Some(Ok(Ok(t))) => {
                        judge_answer(id, e, &t);
                        None
                    }
                    None => Some("no answer".to_string()),
                    Some(Ok(Err(x))) => Some(format!("{x:?}")),
                    _ => Some("panicked".to_string()),
                }
            })));
        }
        for (slot, e, h) in hs {
            if let Ok(Some(x)) = h.await {
                why = x;
                left.push((slot, e));
            }
        }
        if left.is_empty() || now_ms() > limit {
            break;
        }
        sleep_ms(1_000).await;
    }
    if let Some((slot, e)) = left.first() {
        for p in ["C22", "C23"] {
            fail(p, format!("no service: {} virtual s after the last fault, entity {e} does not answer requests made on node {slot} ({why})", (now_ms() - t0) / 1000));
        }
    }
    for _ in 0..if calm { 10 } else { 100 } {
        let open = hist::with(|h| h.iter().any(|c| c.k == "call" && sim::node_state(c.b as u32) != sim::NodeState::Dead && !h.iter().any(|r| r.k == "ret" && r.a == c.a)));
        sleep_ms(1_000).await;
        if !open {
            break;
        }
    }
    sleep_ms(3_000).await;
    for e in &known {
        let l = hist::with(|h| live(h, *e));
        if l.len() > 1 && plan.get("level") < 5 {
            fail("C21", format!("two instances of entity {e} at the end: {l:?}"));
        }
    }
    if calm || plan.get("level") < 5 {
        let n = cl.nodes().len();
        let mut bad = None;
        for _ in 0..30 {
            bad = unbalanced(&plan, n);
            if bad.is_none() {
                break;
            }
            sleep_ms(1_000).await;
        }
        if let Some(x) = bad {
            fail("C26", x);
        }
        count("placements");
    }
    check(&plan, calm, still);
}

/// Compares where the entities live with an even distribution of their shards
fn unbalanced(plan: &Plan, n: usize) -> Option<String> {
    let max_shards = plan.get("shards") as u32;
    let shard = |ent: i64| DefaultAllocator { max_shards }.allocate(&format!("e{ent}").into_actor_id());
    let h = hist::snapshot();
    // shards that were asked for, some of them may not run any entity
    let all: BTreeSet<u32> = h.iter().filter(|e| e.k == "call").map(|e| shard(e.c)).collect();
    let mut at: BTreeMap<u32, BTreeSet<i64>> = BTreeMap::new();
    for ent in 1..100 {
        for (_, m) in live(&h, ent) {
            at.entry(shard(ent)).or_default().insert(m);
        }
    }
    if let Some((s, m)) = at.iter().find(|(_, m)| m.len() > 1) {
        return Some(format!("torn: entities of shard {s} live on machines {m:?}"));
    }
    let mut per: BTreeMap<i64, usize> = BTreeMap::new();
    for m in at.values().flatten() {
        *per.entry(*m).or_default() += 1;
    }
    let hidden = all.len() - at.len();
    let (lo, hi) = (all.len() / n, (all.len() + n - 1) / n);
    let most = per.values().copied().max().unwrap_or(0);
    let least = if per.len() < n { 0 } else { per.values().copied().min().unwrap_or(0) };
    if most > hi || least + hidden < lo {
        return Some(format!("unbalanced: {} shards on {n} nodes are distributed as {per:?}", all.len()));
    }
    None
}

fn judge_answer(id: i64, ent: i64, t: &Told) {
    let did = hist::with(|h| h.iter().any(|e| e.k == "do" && e.a == id && e.b == t.inst && e.c == t.nth));
    if t.op != id || t.ent != ent || !did {
        fail("C22", format!("wrong answer: request {id} to entity {ent} was answered with {t:?}"));
    }
}

async fn exec(s: Sh, nd: Node, o: Op) {
    let id = o.id as i64;
    let ent = o.a % 100;
    let rec = match o.k.as_str() {
        "bare" => None,
        "bad" => Some(Rec { ent, act: 1, op: id }),
        _ => Some(Rec { ent, act: 0, op: id }),
    };
    let m = Ask { op: id, act: o.b, k: o.c };
    ev("call", id, nd.sim as i64, ent);
    let r = s.get(format!("e{ent}"), rec).send(m).await;
    let code = match &r {
        Ok(_) => 1,
        Err(ActorRefErr::NotFound(_)) => 2,
        _ => 0,
    };
    ev("ret", id, code, ent);
    match r {
        Ok(t) => judge_answer(id, ent, &t),
        Err(e) => note(&format!("{e:?}")),
    }
}

fn check(plan: &Plan, calm: bool, still: bool) {
    let h = hist::snapshot();
    let quits = plan.ops.iter().any(|o| o.b == 2);
    for o in &plan.ops {
        let id = o.id as i64;
        let ent = o.a % 100;
        let Some(c) = h.iter().position(|e| e.k == "call" && e.a == id) else { continue };
        let did = h.iter().filter(|e| e.k == "do" && e.a == id).count();
        if did > 1 {
            fail("C22", format!("handled {did} times: request {id}"));
        }
        let alive = sim::node_state(h[c].b as u32) != sim::NodeState::Dead;
        let bad = plan.ops.iter().any(|x| x.k == "bad" && x.a % 100 == ent);
        match h.iter().position(|e| e.k == "ret" && e.a == id) {
            None => {
                // what was sent to a machine that lost power is gone, also when it is running again
                let sent_into_the_void = did > 0 && h[c].b > 16 && plan.faults.iter().any(|f| f.k == "crash" && f.b == 1 && f.a == h[c].b % 16);
                if alive && !sent_into_the_void {
                    fail("C22", format!("no answer: request {id} to entity {ent} made on machine {} never resolves", h[c].b));
                }
            }
            Some(r) => {
                let code = h[r].b;
                count(if code == 1 { "asks_ok" } else { "asks_err" });
                if code == 1 && o.k == "bad" && !h[..r].iter().any(|e| e.k == "up" && e.a == ent) {
                    fail("C22", format!("false success: request {id}"));
                }
                if still && !quits && !bad {
                    // an entity some earlier request has started
                    let exists = h[..c].iter().any(|e| e.k == "up" && e.a == ent);
                    if code == 0 || (code == 2 && (o.k != "bare" || exists)) {
                        fail("C22", format!("refused: request {id} to entity {ent} failed without any fault"));
                    }
                    if (code == 1) != (did == 1) {
                        fail("C22", format!("handled {did} times without any fault: request {id}"));
                    }
                }
            }
        }
    }
    if calm {
        // an entity goes on with the recipe it has been started with
        for e in h.iter().filter(|e| e.k == "recipe") {
            if let Some(x) = h.iter().find(|x| x.k == "recipe" && x.c == e.c && x.b != e.b) {
                fail("C23", format!("changed: entity {} was started with the recipe of request {} and then with that of request {}", e.c, e.b, x.b));
                break;
            }
        }
    }
    if still && !quits {
        for e in h.iter().filter(|e| e.k == "up") {
            if h.iter().filter(|x| x.k == "up" && x.a == e.a).count() > 1 {
                fail("C21", format!("restarted: entity {} was started more than once without any fault", e.a));
                break;
            }
        }
    }
    count_n("instances", h.iter().filter(|e| e.k == "up").count() as u64);
}
