//! Orderly shutdown of an actor system under load.
use crate::core::*;
use crate::hist::{self, ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, IntoActorId, LocalActorRef};
use std::sync::{Arc, Mutex};

pub struct Da {
    inst: i64,
    kids: i64,
    stop: i64,
    k: u64,
    next: Arc<Mutex<i64>>,
}
#[async_trait]
impl Actor for Da {
    async fn started(&mut self, ctx: &mut ActorContext) {
        for i in 0..self.kids {
            let inst = {
                let mut n = self.next.lock().unwrap();
                *n += 1;
                *n
            };
            ev("child", inst, self.inst, 0);
            let c = Da { inst, kids: 0, stop: self.stop, k: self.k, next: self.next.clone() };
            let _ = ctx.spawn(format!("k{i}").into_actor_id(), c).await;
        }
        ev("startE", self.inst, 0, 0);
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        ev("stopB", self.inst, 0, 0);
        match self.stop {
            1 => yields(self.k).await,
            2 => sleep_ms(self.k).await,
            _ => {}
        }
        ev("stopE", self.inst, 0, 0);
    }
}
impl Drop for Da {
    fn drop(&mut self) {
        ev("drop", self.inst, 0, 0);
    }
}
struct Work(u64, i64);
impl Message for Work {
    type Result = ();
}
#[async_trait]
impl Handler<Work> for Da {
    async fn handle(&mut self, m: Work, ctx: &mut ActorContext) {
        match m.1 {
            1 => {
                // looks itself up while the system may be going down
                let id = ctx.id().clone();
                let _ = ctx.system().get_tracked_actor::<Da>(id).await;
            }
            2 => {
                ev("panic", self.inst, 0, 0);
                panic!("planned-panic")
            }
            3 => ctx.stop(None),
            _ => {}
        }
        if m.0 > 3 { sleep_ms(m.0).await } else { yields(m.0).await }
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("shutdown", seed, r);
    p.set("prop", super::prop_index(prop));
    p.set("initial", r.range(0, 4));
    let lanes = r.range(1, 4);
    let total = r.range(2, if thorough { 30 } else { 14 });
    for _ in 0..total {
        let k = r.weighted(&[(4, "create"), (5, "work"), (4, "stop"), (3, "nstop"), (2, "get")]);
        let gap = if r.chance(1, 3) { r.below(30) } else { 0 };
        p.op(r.below(lanes as u64) as u32, k, r.below(6) as i64, r.below(3) as i64, r.below(30) as i64, gap);
    }
    p.set("down_at", if r.chance(1, 2) { r.below(4) as i64 } else { r.below(60) as i64 });
    p.set("down_yield", r.below(12) as i64);
    p.set("twice", r.chance(1, 4) as i64);
    pace(&mut p, r);
    p
}

#[derive(Default)]
struct W {
    refs: Mutex<Vec<(i64, LocalActorRef<Da>)>>,
}

async fn create(w: &W, sys: &ActorSystem, next: &Arc<Mutex<i64>>, b: i64, c: i64) {
    let inst = {
        let mut n = next.lock().unwrap();
        *n += 1;
        *n
    };
    let a = Da { inst, kids: c % 3, stop: b, k: (c as u64).max(1), next: next.clone() };
    let ty = if c % 5 == 4 { ActorType::Anonymous } else { ActorType::Tracked };
    let x = if c % 7 == 0 { Ok(sys.new_actor_deferred(format!("d{inst}"), a, ty).await) } else { sys.new_actor(format!("d{inst}"), a, ty).await };
    if let Ok(r) = x {
        ev("created", inst, ty.is_tracked() as i64, 0);
        w.refs.lock().unwrap().push((inst, r));
    }
}

pub async fn run(plan: Arc<Plan>) {
    let sys = ActorSystem::builder().system_name("sim").build();
    let w = Arc::new(W::default());
    let next = Arc::new(Mutex::new(0i64));
    for i in 0..plan.get("initial") {
        create(&w, &sys, &next, i % 3, (i * 7 + 3) % 30).await;
    }
    let mut hs = vec![];
    for lane in plan.lanes() {
        let (w, sys, next) = (w.clone(), sys.clone(), next.clone());
        hs.push(tokio::spawn(async move {
            for o in lane {
                sleep_ms(o.gap).await;
                if o.k == "create" {
                    if !sys.is_terminated() {
                        create(&w, &sys, &next, o.b, o.c).await;
                    }
                    continue;
                }
                let x = {
                    let v = w.refs.lock().unwrap();
                    if v.is_empty() { None } else { Some(v[o.a as usize % v.len()].clone()) }
                };
                let Some((i, r)) = x else { continue };
                match o.k.as_str() {
                    "work" => {
                        let _ = r.notify(Work(o.c as u64, if o.c % 11 == 0 { 2 } else { o.b % 2 }));
                    }
                    "stop" => {
                        let _ = r.stop().await;
                        hist::with(|h| {
                            if !h.iter().any(|e| (e.k == "stopE" || e.k == "panic") && e.a == i) {
                                fail("C08", format!("stop returned early: actor {i} during shutdown"));
                            }
                        });
                    }
                    "nstop" => {
                        let _ = r.notify(Work(0, 3));
                    }
                    "get" => {
                        let _ = sys.get_tracked_actor::<Da>(r.actor_id().clone()).await;
                    }
                    _ => {}
                }
            }
        }));
    }
    sleep_ms(plan.get("down_at") as u64).await;
    yields(plan.get("down_yield") as u64).await;
    let mut downs = vec![];
    for k in 0..1 + plan.get("twice") {
        let sys = sys.clone();
        downs.push(tokio::spawn(async move {
            let at = ev("down", k, 0, 0);
            sys.shutdown().await;
            ev("downret", k, at as i64, 0);
            if !sys.is_terminated() {
                fail("C08", "not terminated: is_terminated false after shutdown returned");
            }
        }));
    }
    for (k, d) in downs.into_iter().enumerate() {
        match within(30_000, d).await {
            Some(Ok(())) => {}
            Some(Err(_)) => fail("C08", "shutdown panicked"),
            None => fail("C08", format!("shutdown never returns: call {k} still pending after 30 virtual seconds")),
        }
    }
    for h in hs {
        match within(30_000, h).await {
            Some(Ok(())) => {}
            Some(Err(_)) => fail("C08", "caller panicked: an operation on a system being shut down panicked"),
            None => fail("C08", "operation never returns: an operation on a system being shut down is still pending after 30 virtual seconds"),
        }
    }
    sleep_ms(5_000).await;
    if within(5_000, sys.get_tracked_actor::<Da>("d1".into())).await.map_or(true, |x| x.is_some()) {
        fail("C08", "lookup after shutdown: a lookup hung or found an actor after shutdown");
    }
    let h = hist::snapshot();
    let done = |i: i64| h.iter().position(|e| (e.k == "stopE" || e.k == "panic") && e.a == i);
    for e in h.iter().filter(|e| e.k == "downret" && e.a == 0) {
        let at = e.b as usize;
        let ret = h.iter().position(|x| x.k == "downret" && x.a == 0).unwrap();
        for (i, c) in h.iter().enumerate().filter(|(_, x)| x.k == "created" && x.b == 1) {
            if i < at {
                count("tracked_at_shutdown");
                if done(c.a).map_or(true, |d| d > ret) {
                    fail("C08", format!("still running after shutdown: tracked actor {} had not completed its stopped hook when shutdown returned", c.a));
                }
                for k in h.iter().filter(|x| x.k == "child" && x.b == c.a) {
                    if h.iter().any(|x| x.k == "startE" && x.a == k.a) && done(k.a).is_none() {
                        fail("C08", format!("child outlives shutdown: child {} of tracked actor {}", k.a, c.a));
                    }
                }
            }
        }
    }
    for e in h.iter().filter(|e| e.k == "stopB") {
        if h.iter().filter(|x| x.k == "stopB" && x.a == e.a).count() > 1 {
            fail("C08", format!("stopped twice: actor {}", e.a));
        }
    }
}
