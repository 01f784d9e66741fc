//! Creating actors on other nodes and finding them.
use crate::cluster::*;
use crate::core::*;
use crate::hist::{self, ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorRecipe, ActorRef, IntoActorId};
use coerce::remote::system::builder::RemoteActorSystemBuilder;
use std::sync::Arc;

/// act: 0 plain, 1 slow factory, 2 factory refuses, 3 recipe can't be written, 4 recipe can't be read, 5 slow start
#[derive(Clone)]
pub struct Rec {
    op: i64,
    act: i64,
    k: i64,
}
impl ActorRecipe for Rec {
    fn read_from_bytes(b: &Vec<u8>) -> Option<Self> {
        if b.len() != 24 {
            fail("C20", "corrupted: a recipe arrived with a different length");
            return None;
        }
        let g = |i: usize| i64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        let r = Rec { op: g(0), act: g(1), k: g(2) };
        if r.act == 4 { None } else { Some(r) }
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        if self.act == 3 {
            return None;
        }
        let mut v = vec![];
        for x in [self.op, self.act, self.k] {
            v.extend_from_slice(&x.to_le_bytes());
        }
        Some(v)
    }
}

macro_rules! actor {
    ($a:ident, $f:ident, $kind:expr) => {
        pub struct $a {
            sim: u32,
            op: i64,
            slow: u64,
        }
        #[async_trait]
        impl Actor for $a {
            async fn started(&mut self, ctx: &mut ActorContext) {
                if self.slow > 0 {
                    sleep_ms(self.slow).await;
                }
                let no: i64 = ctx.id().trim_start_matches("dep-").parse().unwrap_or(-1);
                ev("born", self.op, self.sim as i64, no);
            }
        }
        #[derive(Clone)]
        pub struct $f {
            sim: u32,
        }
        #[async_trait]
        impl ActorFactory for $f {
            type Actor = $a;
            type Recipe = Rec;
            async fn create(&self, r: Rec) -> Result<$a, ActorCreationErr> {
                ev("make", r.op, self.sim as i64, $kind);
                if r.act == 1 {
                    sleep_ms(r.k as u64).await;
                }
                if r.act == 2 {
                    return Err(ActorCreationErr::InvalidRecipe("no".into()));
                }
                Ok($a { sim: self.sim, op: r.op, slow: if r.act == 5 { r.k as u64 } else { 0 } })
            }
        }
        #[async_trait]
        impl Handler<Who> for $a {
            async fn handle(&mut self, m: Who, _c: &mut ActorContext) -> Ans {
                Ans { q: m.0, op: self.op, sim: self.sim as i64, kind: $kind }
            }
        }
    };
}
actor!(Da, DaF, 1);
actor!(Db, DbF, 2);

#[derive(Clone)]
pub struct Who(i64);
#[derive(Debug)]
pub struct Ans {
    q: i64,
    op: i64,
    sim: i64,
    kind: i64,
}
impl Message for Who {
    type Result = Ans;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(self.0.to_le_bytes().to_vec())
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        Ok(Who(i64::from_le_bytes(b[..8].try_into().unwrap())))
    }
    fn read_remote_result(b: Vec<u8>) -> Result<Ans, MessageUnwrapErr> {
        let g = |i: usize| i64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        Ok(Ans { q: g(0), op: g(1), sim: g(2), kind: g(3) })
    }
    fn write_remote_result(a: Ans) -> Result<Vec<u8>, MessageWrapErr> {
        let mut v = vec![];
        for x in [a.q, a.op, a.sim, a.kind] {
            v.extend_from_slice(&x.to_le_bytes());
        }
        Ok(v)
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("deploy", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    let n = r.range(1, 4);
    p.set("n", n);
    p.set("ids", r.range(0, 1));
    p.net.max = *r.pick(&[0, 1, 5, 20, 100]);
    if r.chance(1, 4) {
        p.net.short = 200;
    }
    let lanes = r.range(1, 4);
    let window: u64 = *r.pick(&[100, 5_000, 30_000]);
    let nops = r.range(4, if thorough { 40 } else { 24 });
    let ids = r.range(1, 8);
    for _ in 0..nops {
        let lane = r.below(lanes as u64) as u32;
        let k = r.weighted(&[(6, "deploy"), (2, "anon"), (1, "local"), (4, "locate"), (4, "ref"), (1, "rare")]);
        let from = r.range(1, n);
        let to = if r.chance(1, 8) { 0 } else { r.range(1, n) };
        let act = r.weighted(&[(10, 0i64), (2, 1), (1, 2), (1, 3), (1, 4), (2, 5)]);
        let gap = r.below(window * 2 / nops as u64 + 1);
        p.op(lane, k, from * 10 + to, r.range(1, ids), act * 1_000_000 + r.range(1, 2_000), gap);
    }
    if n > 1 && r.chance(1, 2) {
        let mix = FaultMix { resets: 4, cuts: 3, stalls: 2, crashes: if r.chance(1, 2) { 2 } else { 0 }, max_cut: 12_000, max_stall: 6000 };
        let c = r.range(1, 4);
        gen_faults(&mut p, r, n, window, &mix, c);
        if r.chance(1, 4) {
            p.net.connect_fail = 200;
        }
        if r.chance(1, 4) {
            gen_flaps(&mut p, r, n);
        }
    }
    p
}

fn configure(slot: u32, sim: u32) -> impl FnOnce(RemoteActorSystemBuilder) -> RemoteActorSystemBuilder + Send {
    move |b| {
        b.with_handlers(|h| h.with_handler::<Da, Who>("who").with_handler::<Db, Who>("who2")).with_actors(move |a| {
            a.with_actor(DaF { sim });
            // only node 1 can make these
            if slot == 1 {
                a.with_actor(DbF { sim });
            }
            a
        })
    }
}

fn node_id(plan: &Plan, slot: u32) -> u64 {
    match plan.get("ids") {
        0 => slot as u64,
        _ => tokio::sim::mix(plan.seed, slot as u64, 77),
    }
}
fn cfg(plan: &Plan, slot: u32, seed: Option<u32>) -> NodeCfg {
    let mut c = NodeCfg::new(slot, seed);
    c.id = node_id(plan, slot);
    c
}

pub async fn run(plan: Arc<Plan>) {
    let n = plan.get("n") as u32;
    let cl = Cluster::new();
    for slot in 1..=n {
        let seed = if slot > 1 { Some(1) } else { None };
        if cl.start(cfg(&plan, slot, seed), 60_000, configure(slot, simno(slot, 0)), |_| async {}).await.is_none() {
            return count("not_started");
        }
    }
    if !cl.wait_formed(30_000).await {
        return count("not_formed");
    }
    count("formed");
    let calm = plan.faults.is_empty() && plan.net.connect_fail == 0;
    let mut hs = vec![];
    for lane in plan.lanes() {
        let (cl, plan) = (cl.clone(), plan.clone());
        hs.push(tokio::spawn(async move {
            for o in lane {
                sleep_ms(o.gap).await;
                let from = (o.a / 10) as u32;
                let Some(nd) = cl.node(from) else { continue };
                let plan = plan.clone();
                let h = spawn_on(nd.sim, async move { exec(&plan, nd, o).await });
                let _ = within(60_000, h).await;
            }
        }));
    }
    {
        let (cl2, p2) = (cl.clone(), plan.clone());
        let restart = move |slot: u32| {
            let (cl, plan) = (cl2.clone(), p2.clone());
            async move {
                let seed = cl.nodes().iter().map(|n| n.slot).find(|s| *s != slot);
                let sim = simno(slot, cl.next_inc(slot));
                let _ = cl.start(cfg(&plan, slot, seed), 50_000, configure(slot, sim), |_| async {}).await;
            }
        };
        play_faults(&plan, &cl, restart).await;
    }
    for h in hs {
        let _ = h.await;
    }
    tokio::sim::net::set_config(|c| {
        c.connect_fail_permille = 0;
    });
    sleep_ms(if calm { 5_000 } else { 100_000 }).await;
    check(&plan, calm);
    if !cl.wait_formed(150_000).await {
        return count("not_reformed");
    }
    sleep_ms(500).await;
    probe(&plan, &cl).await;
}

/// outcome codes: 1 ok, 0 error / not found
async fn exec(plan: &Plan, nd: Node, o: Op) {
    let id = o.id as i64;
    let to = (o.a % 10) as u32;
    let (act, k) = (o.c / 1_000_000, o.c % 1_000_000);
    let aid = format!("dep-{}", o.b).into_actor_id();
    let sys = nd.sys.clone();
    let target = if to == 0 { None } else { Some(node_id(plan, to)) };
    let slot_to = if to == 0 { nd.slot } else { to };
    ev("call", id, o.b, nd.slot as i64);
    match o.k.as_str() {
        "deploy" | "anon" => {
            let want = if o.k == "anon" { None } else { Some(aid.clone()) };
            let r = sys.deploy_actor::<DaF>(want, Rec { op: id, act, k }, target).await;
            ev("ret", id, r.is_ok() as i64, slot_to as i64);
            if let Ok(r) = r {
                if o.k == "deploy" && r.actor_id() != &aid {
                    fail("C20", format!("wrong id: deployment {id} as {aid} returned a reference to {}", r.actor_id()));
                }
                // usable right away
                match within(20_000, r.send(Who(id))).await {
                    Some(Ok(a)) => {
                        ev("who", id, a.op, a.sim);
                        if a.q != id || a.kind != 1 || slot_of(a.sim as u32) != slot_to {
                            fail("C20", format!("wrong actor: deployment {id} to node {slot_to} is answered by {a:?}"));
                        }
                    }
                    Some(Err(e)) => {
                        ev("whoerr", id, 0, 0);
                        note(&format!("{e:?}"));
                    }
                    None => {
                        ev("whoerr", id, 1, 0);
                    }
                }
            }
        }
        "rare" => {
            let r = sys.deploy_actor::<DbF>(Some(format!("rare-{id}").into_actor_id()), Rec { op: id, act: 0, k: 0 }, target).await;
            ev("ret", id, r.is_ok() as i64, slot_to as i64);
            if r.is_ok() && slot_to != 1 {
                fail("C20", format!("false success: node {slot_to} can't create this type of actor but deployment {id} returned a reference"));
            }
        }
        "local" => {
            ev("make", id, nd.sim as i64, 3);
            let r = sys.actor_system().new_actor(aid, Da { sim: nd.sim, op: id, slow: 0 }, ActorType::Tracked).await;
            ev("ret", id, r.is_ok() as i64, nd.slot as i64);
        }
        "locate" => {
            let r = sys.locate_actor_node(aid).await;
            let slot = r.map_or(0, |x| (1..=15).find(|s| node_id(plan, *s) == x).unwrap_or(99));
            ev("ret", id, r.is_some() as i64, slot as i64);
        }
        _ => {
            let r: Option<ActorRef<Da>> = sys.actor_ref(aid).await;
            let slot = r.as_ref().map_or(0, |x| x.node_id().map_or(nd.slot, |x| (1..=15).find(|s| node_id(plan, *s) == x).unwrap_or(99)));
            ev("ret", id, r.is_some() as i64, slot as i64);
            if let Some(r) = r {
                match within(20_000, r.send(Who(id))).await {
                    Some(Ok(a)) => {
                        ev("who", id, a.op, a.sim);
                        if a.q != id || slot_of(a.sim as u32) != slot {
                            fail("C20", format!("wrong actor: the reference to {} on node {slot} is answered by {a:?}", o.b));
                        }
                    }
                    Some(Err(e)) => {
                        ev("whoerr", id, 0, 0);
                        note(&format!("{e:?}"));
                    }
                    None => {
                        ev("whoerr", id, 1, 0);
                    }
                }
            }
        }
    }
}

fn check(plan: &Plan, calm: bool) {
    let h = hist::snapshot();
    let pos = |k: &str, a: i64| h.iter().position(|e| e.k == k && e.a == a);
    let crashed: Vec<i64> = plan.faults.iter().filter(|f| f.k == "crash").map(|f| f.a).collect();
    let named = |o: &Op| o.k == "deploy" || o.k == "local";
    for o in &plan.ops {
        let id = o.id as i64;
        let Some(c) = pos("call", id) else { continue };
        let from = h[c].c;
        let ret = pos("ret", id);
        let act = o.c / 1_000_000;
        let Some(r) = ret else {
            if !crashed.contains(&from) {
                fail("C20", format!("no answer: {} {id} from node {from} never resolves", o.k));
            }
            continue;
        };
        let ok = h[r].b == 1;
        let took = h[r].ms - h[c].ms;
        let bound = if calm { 9_000 } else { 110_000 };
        if took > bound {
            fail("C20", format!("slow: {} {id} took {took} virtual ms", o.k));
        }
        // attempts to create this id
        let rivals: Vec<&Op> = plan.ops.iter().filter(|x| named(x) && x.b == o.b && x.id != o.id && pos("call", x.id as i64).is_some()).collect();
        match o.k.as_str() {
            "locate" | "ref" => {
                let slot = h[r].c;
                if ok {
                    let made = h[..r].iter().any(|e| {
                        e.k == "make" && slot_of(e.b as u32) as i64 == slot && plan.ops.iter().any(|x| x.id as i64 == e.a && named(x) && x.b == o.b)
                    });
                    if !made {
                        fail("C20", format!("phantom: {} {id} finds actor {} on node {slot}, where it was never created", o.k, o.b));
                    }
                    if calm && o.k == "ref" && pos("who", id).is_none() {
                        fail("C20", format!("useless: the reference to actor {} found by {id} does not answer without any fault", o.b));
                    }
                } else if calm {
                    // registered long enough ago by someone
                    let settled = rivals.iter().any(|x| pos("ret", x.id as i64).is_some_and(|i| i < c && h[i].b == 1 && h[i].ms + 1_500 < h[c].ms));
                    if settled {
                        fail("C20", format!("not found: {} {id} from node {from} does not find actor {}, which was created more than 1.5 virtual s before", o.k, o.b));
                    }
                }
            }
            "deploy" | "anon" => {
                let slot_to = h[r].c;
                let made: Vec<&hist::Ev> = h.iter().filter(|e| e.k == "make" && e.a == id).collect();
                if made.len() > 1 {
                    fail("C20", format!("created twice: the recipe of deployment {id} was used {} times", made.len()));
                }
                if made.iter().any(|e| slot_of(e.b as u32) as i64 != slot_to) {
                    fail("C20", format!("wrong node: deployment {id} to node {slot_to} was carried out on machine {}", made[0].b));
                }
                if ok {
                    let born = h[..r].iter().find(|e| e.k == "born" && e.a == id);
                    match born {
                        None => fail("C20", format!("false success: deployment {id} returned a reference before an actor was started from its recipe")),
                        Some(b) if o.k == "deploy" && b.c != o.b => fail("C20", format!("wrong id: deployment {id} as {} was started as {}", o.b, b.c)),
                        _ => {}
                    }
                    if (2..=4).contains(&act) {
                        fail("C20", format!("false success: deployment {id} can't be carried out (act {act}) but returned a reference"));
                    }
                }
                if !calm {
                    continue;
                }
                if ok {
                    let rivals_here = rivals.iter().any(|x| x.k == "local" || pos("ret", x.id as i64).map_or(true, |i| h[i].c == slot_to));
                    match h.iter().find(|e| e.k == "who" && e.a == id) {
                        None => fail("C20", format!("useless: the reference returned by deployment {id} does not answer without any fault")),
                        Some(w) => {
                            if w.b != id && (o.k == "anon" || !rivals_here) {
                                fail("C20", format!("wrong actor: the reference returned by deployment {id} is answered by the actor of {}", w.b));
                            }
                        }
                    }
                }
                let settled = o.k == "deploy" && rivals.iter().any(|x| pos("ret", x.id as i64).is_some_and(|i| i < c && h[i].b == 1 && h[i].ms + 1_500 < h[c].ms));
                if settled && ok {
                    fail("C20", format!("created again: deployment {id} created actor {}, which already exists", o.b));
                }
                if !ok && !(2..=4).contains(&act) {
                    let excused = o.k == "deploy" && rivals.iter().any(|x| pos("call", x.id as i64).is_some_and(|i| i < r));
                    if !excused {
                        fail("C20", format!("refused: deployment {id} to node {slot_to} failed without any fault or rival"));
                    }
                }
            }
            "rare" => {
                if calm && ok != (h[r].c == 1) {
                    fail("C20", format!("wrong result: deployment {id} of an actor only node 1 knows, to node {}: {ok}", h[r].c));
                }
            }
            _ => {}
        }
    }
    for e in h.iter().filter(|e| e.k == "ret" && e.b == 1) {
        count("deploy_ops_ok");
        let _ = e;
    }
}

/// new ids work everywhere
async fn probe(plan: &Arc<Plan>, cl: &Cluster) {
    let ns = cl.nodes();
    let mut hs = vec![];
    for a in &ns {
        for b in &ns {
            let (a, b, ns, plan) = (a.clone(), b.clone(), ns.clone(), plan.clone());
            hs.push(tokio::spawn(async move {
                let t0 = now_ms();
                let mut last = String::new();
                let mut dep = None;
                let mut round = 0;
                while now_ms() < t0 + 60_000 && dep.is_none() {
                    round += 1;
                    let (a2, plan2) = (a.clone(), plan.clone());
                    let id = 100_000 + a.slot as i64 * 10_000 + b.slot as i64 * 100 + round;
                    let bs = b.slot;
                    let h = spawn_on(a.sim, async move {
                        let r = a2.sys.deploy_actor::<DaF>(Some(format!("dep-{id}").into_actor_id()), Rec { op: id, act: 0, k: 0 }, Some(node_id(&plan2, bs))).await;
                        match r {
                            Ok(r) => within(10_000, r.send(Who(id))).await.map(|x| x.map(|x| x.op).map_err(|e| format!("{e:?}"))),
                            Err(e) => Some(Err(format!("{e:?}"))),
                        }
                    });
                    match within(30_000, h).await {
                        Some(Ok(Some(Ok(op)))) if op == id => dep = Some(id),
                        x => {
                            last = format!("{x:?}");
                            sleep_ms(1_000).await;
                        }
                    }
                }
                let Some(id) = dep else {
                    fail("C20", format!("no recovery: deploying from node {} to node {} still fails although all nodes see each other as healthy: {last}", a.slot, b.slot));
                    return;
                };
                count("probe_deployments");
                sleep_ms(1_500).await;
                for m in ns {
                    let t0 = now_ms();
                    loop {
                        let m2 = m.clone();
                        let h = spawn_on(m.sim, async move { m2.sys.locate_actor_node(format!("dep-{id}").into_actor_id()).await });
                        let r = within(30_000, h).await;
                        match r {
                            Some(Ok(Some(x))) if x == node_id(&plan, b.slot) => break,
                            Some(Ok(Some(x))) => {
                                fail("C20", format!("phantom: node {} locates actor {id} on node {x}, it is on node {}", m.slot, b.slot));
                                return;
                            }
                            _ => {}
                        }
                        if now_ms() > t0 + 20_000 {
                            fail("C20", format!("not found: node {} can't locate actor {id} created on node {} after the cluster settled", m.slot, b.slot));
                            return;
                        }
                        sleep_ms(1_000).await;
                    }
                }
            }));
        }
    }
    for h in hs {
        let _ = h.await;
    }
}
