//! Worker pools.
use crate::core::*;
use crate::hist::{self, ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::system::ActorSystem;
use coerce::actor::worker::{IntoWorker, WorkerRefExt};
use coerce::actor::Actor;
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct Wk {
    me: i64,
}
impl Clone for Wk {
    fn clone(&self) -> Self {
        Wk { me: 0 }
    }
}
#[async_trait]
impl Actor for Wk {
    async fn started(&mut self, ctx: &mut ActorContext) {
        // pool-1, pool-2, ...
        self.me = ctx.id().rsplit('-').next().and_then(|x| x.parse().ok()).unwrap_or(0);
        ev("worker", self.me, 0, 0);
    }
}
#[derive(Clone)]
struct Job {
    id: i64,
    act: i64,
    k: u64,
}
impl Message for Job {
    type Result = (i64, i64);
}
#[async_trait]
impl Handler<Job> for Wk {
    async fn handle(&mut self, m: Job, ctx: &mut ActorContext) -> (i64, i64) {
        ev("hB", self.me, m.id, 0);
        match m.act {
            1 => yields(m.k).await,
            2 => sleep_ms(m.k).await,
            3 => {
                ev("dead", self.me, m.id, 0);
                panic!("planned-panic")
            }
            4 => {
                ev("dead", self.me, m.id, 1);
                ctx.stop(None)
            }
            _ => {}
        }
        ev("hE", self.me, m.id, 0);
        (m.id, self.me)
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("workers", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    p.set("n", r.range(1, 5));
    let lanes = r.range(1, 5);
    let death = *r.pick(&[0u64, 0, 1]);
    for _ in 0..r.range(2, if thorough { 50 } else { 25 }) {
        let k = r.weighted(&[(8, "dispatch"), (4, "adispatch")]);
        let act = r.weighted(&[(5, 0i64), (3, 1), (4, 2), (death, 3), (death, 4)]);
        let c = if act == 2 { r.range(5, 200) } else { r.range(1, 4) };
        let gap = if r.chance(1, 4) { r.below(40) } else { 0 };
        p.op(r.below(lanes as u64) as u32, k, 0, act, c, gap);
    }
    pace(&mut p, r);
    p
}

pub async fn run(plan: Arc<Plan>) {
    let mut sys = ActorSystem::builder().system_name("sim").build();
    let n = plan.get("n");
    let pool = match (Wk { me: 0 }).into_worker(n as usize, "pool", &mut sys).await {
        Ok(p) => p,
        Err(e) => return fail("C09", format!("pool not created: {e:?}")),
    };
    if hist::with(|h| h.iter().filter(|e| e.k == "worker").count()) != n as usize {
        fail("C09", "wrong pool size: not every worker was running when the pool was handed out");
    }
    let mut hs = vec![];
    for lane in plan.lanes() {
        let pool = pool.clone();
        hs.push(tokio::spawn(async move {
            let mut sub = vec![];
            for o in lane {
                sleep_ms(o.gap).await;
                let mut pool = pool.clone();
                let id = o.id as i64;
                let fut = async move {
                    ev("call", id, 0, 0);
                    let r = pool.dispatch(Job { id, act: o.b, k: o.c as u64 }).await;
                    match r {
                        Ok((i, w)) => {
                            ev("ret", id, 1, w);
                            if i != id {
                                fail("C09", format!("wrong result: task {id} got the result of task {i}"));
                            }
                        }
                        Err(_) => {
                            ev("ret", id, 0, 0);
                        }
                    }
                };
                if o.k == "dispatch" {
                    fut.await
                } else {
                    sub.push(tokio::spawn(fut));
                }
            }
            for s in sub {
                let _ = s.await;
            }
        }));
    }
    for h in hs {
        if within(120_000, h).await.is_none() {
            fail("C09", "task never resolves: a dispatch is still pending after 120 virtual seconds");
        }
    }
    sleep_ms(5000).await;
    let h = hist::snapshot();
    let deaths: Vec<i64> = h.iter().filter(|e| e.k == "dead").map(|e| e.a).collect();
    let mut per: BTreeMap<i64, i64> = (1..=n).map(|i| (i, 0)).collect();
    let mut cur: BTreeMap<i64, i64> = BTreeMap::new();
    let mut last_end: BTreeMap<i64, u64> = BTreeMap::new();
    let mut handled: BTreeMap<i64, i64> = BTreeMap::new();
    for e in &h {
        match e.k {
            "hB" => {
                count("tasks");
                if handled.insert(e.b, e.a).is_some() {
                    fail("C09", format!("handled twice: task {}", e.b));
                }
                if let Some(x) = cur.insert(e.a, e.b) {
                    fail("C09", format!("overlap: worker {} started task {} while handling {x}", e.a, e.b));
                }
                *per.entry(e.a).or_default() += 1;
                let call = h.iter().find(|c| c.k == "call" && c.a == e.b).unwrap();
                let free = last_end.get(&e.a).cloned().unwrap_or(0).max(call.ms);
                if e.ms > free + 10 {
                    fail("C09", format!("delayed: task {} started {} ms after its worker {} was free", e.b, e.ms - free, e.a));
                }
            }
            "hE" => {
                cur.remove(&e.a);
                last_end.insert(e.a, e.ms);
            }
            _ => {}
        }
    }
    for c in h.iter().filter(|e| e.k == "call") {
        match h.iter().find(|e| e.k == "ret" && e.a == c.a) {
            None => fail("C09", format!("task never resolves: {}", c.a)),
            Some(r) => {
                let w = handled.get(&c.a);
                let fin = h.iter().any(|e| e.k == "hE" && e.b == c.a);
                if r.b == 1 && (w != Some(&r.c) || !fin) {
                    fail("C09", format!("wrong result: task {} answered by worker {} but handled by {w:?}", c.a, r.c));
                }
                if r.b == 0 && fin {
                    fail("C09", format!("completed but reported failed: task {}", c.a));
                }
                if r.b == 0 && deaths.is_empty() {
                    fail("C09", format!("failed without a dead worker: task {}", c.a));
                }
            }
        }
    }
    if deaths.is_empty() {
        let (lo, hi) = (per.values().min().unwrap(), per.values().max().unwrap());
        if hi - lo > 1 || per.len() as i64 != n {
            fail("C09", format!("uneven distribution: tasks per worker {per:?}"));
        }
    } else {
        count("runs_with_dead_worker");
    }
}
