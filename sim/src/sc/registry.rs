//! Tracked-actor registry: creation, lookup, stop and replacement by id.
use crate::core::*;
use crate::hist::{self, ev, Ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::{ActorCount, ActorType};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorId, IntoActor, IntoActorId, LocalActorRef};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub struct Ra {
    inst: i64,
    start: i64,
    stop: i64,
    k: u64,
}
struct Other;
impl Actor for Other {}

#[async_trait]
impl Actor for Ra {
    async fn started(&mut self, ctx: &mut ActorContext) {
        match self.start {
            1 => yields(self.k).await,
            2 => sleep_ms(self.k).await,
            3 => {
                ev("stopping", self.inst, 0, 0);
                ctx.stop(None)
            }
            _ => {}
        }
        ev("startE", self.inst, 0, 0);
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        ev("stopping", self.inst, 0, 0);
        match self.stop {
            1 => yields(self.k).await,
            2 => sleep_ms(self.k).await,
            _ => {}
        }
        ev("stopE", self.inst, 0, 0);
    }
}
struct SelfStop;
impl Message for SelfStop {
    type Result = ();
}
#[async_trait]
impl Handler<SelfStop> for Ra {
    async fn handle(&mut self, _: SelfStop, ctx: &mut ActorContext) {
        ctx.stop(None)
    }
}
struct Die;
impl Message for Die {
    type Result = ();
}
#[async_trait]
impl Handler<Die> for Ra {
    async fn handle(&mut self, _: Die, _: &mut ActorContext) {
        ev("stopping", self.inst, 0, 0);
        ev("died", self.inst, 0, 0);
        panic!("planned-panic")
    }
}
pub struct Who;
impl Message for Who {
    type Result = i64;
}
#[async_trait]
impl Handler<Who> for Ra {
    async fn handle(&mut self, _: Who, _: &mut ActorContext) -> i64 {
        self.inst
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("registry", seed, r);
    p.set("prop", super::prop_index(prop));
    let ids = r.range(1, 3);
    p.set("ids", ids);
    let lanes = r.range(1, 4);
    for _ in 0..r.range(4, if thorough { 50 } else { 28 }) {
        let k = r.weighted(&[
            (7, "create"), (10, "get"), (6, "stop"), (2, "nstop"), (2, "selfstop"), (1, "getwrong"), (1, "burst"), (2, "cycle"), (1, "getmissing"), (1, "die"),
        ]);
        let gap = if r.chance(1, 3) { r.below(40) } else { 0 };
        p.op(r.below(lanes as u64) as u32, k, r.below(ids as u64) as i64, r.below(3) as i64 + if r.chance(1, 8) { 10 } else { 0 }, r.below(3) as i64 + 10 * r.range(1, 6), gap);
    }
    pace(&mut p, r);
    p
}

#[derive(Default)]
struct W {
    refs: Mutex<Vec<(i64, i64, LocalActorRef<Ra>)>>, // inst, id, ref
    next: Mutex<i64>,
}

impl W {
    fn inst(&self) -> i64 {
        let mut n = self.next.lock().unwrap();
        *n += 1;
        *n
    }
    fn which(&self, r: &LocalActorRef<Ra>) -> Option<i64> {
        self.refs.lock().unwrap().iter().find(|x| x.2.sender().same_channel(r.sender())).map(|x| x.0)
    }
    fn latest(&self, id: i64, nth: usize) -> Option<(i64, LocalActorRef<Ra>)> {
        let v = self.refs.lock().unwrap();
        let c: Vec<_> = v.iter().filter(|x| x.1 == id).collect();
        if c.is_empty() {
            return None;
        }
        let i = c.len() - 1 - nth % c.len();
        Some((c[i].0, c[i].2.clone()))
    }
}

fn name(id: i64) -> ActorId {
    format!("r{id}").into_actor_id()
}

async fn create(w: &W, sys: &ActorSystem, id: i64, b: i64, c: i64) {
    let inst = w.inst();
    let a = Ra { inst, start: if b >= 10 { 3 } else { c % 3 }, stop: b % 10, k: (c / 10) as u64 };
    ev("create", inst, id, 0);
    let ok = match c % 4 {
        0 => {
            let r = sys.new_actor_deferred(name(id), a, ActorType::Tracked).await;
            w.refs.lock().unwrap().push((inst, id, r));
            true
        }
        1 => match a.into_actor(Some(name(id)), sys).await {
            Ok(r) => {
                w.refs.lock().unwrap().push((inst, id, r));
                true
            }
            Err(_) => false,
        },
        _ => match sys.new_actor(name(id), a, ActorType::Tracked).await {
            Ok(r) => {
                w.refs.lock().unwrap().push((inst, id, r));
                true
            }
            Err(_) => false,
        },
    };
    ev("created", inst, id, ok as i64);
}

async fn stop(inst: i64, r: LocalActorRef<Ra>) {
    ev("stopcall", inst, 0, 0);
    let _ = r.stop().await;
    ev("stopret", inst, 0, 0);
}

async fn get(w: &W, sys: &ActorSystem, id: i64, lookups: &Mutex<Vec<(usize, i64, Option<LocalActorRef<Ra>>, usize)>>) {
    let c = ev("get", id, 0, 0);
    let r = sys.get_tracked_actor::<Ra>(name(id)).await;
    let e = ev("got", id, r.is_some() as i64, 0);
    if let Some(r) = &r {
        if r.actor_id() != &name(id) {
            fail("C04", format!("wrong id: lookup of r{id} returned an actor called {}", r.actor_id()));
        }
    }
    let _ = w;
    lookups.lock().unwrap().push((c, id, r, e));
}

pub async fn run(plan: Arc<Plan>) {
    let sys = ActorSystem::builder().system_name("sim").build();
    let w = Arc::new(W::default());
    let lookups = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for lane in plan.lanes() {
        let (w, sys, lookups) = (w.clone(), sys.clone(), lookups.clone());
        hs.push(tokio::spawn(async move {
            for o in lane {
                sleep_ms(o.gap).await;
                match o.k.as_str() {
                    "create" => create(&w, &sys, o.a, o.b, o.c).await,
                    "get" => get(&w, &sys, o.a, &lookups).await,
                    "stop" => {
                        if let Some((i, r)) = w.latest(o.a, o.b as usize) {
                            stop(i, r).await
                        }
                    }
                    "nstop" => {
                        if let Some((i, r)) = w.latest(o.a, o.b as usize) {
                            ev("stopcall", i, 0, 0);
                            let _ = r.notify_stop();
                        }
                    }
                    "selfstop" => {
                        if let Some((i, r)) = w.latest(o.a, o.b as usize) {
                            ev("stopcall", i, 0, 0);
                            let _ = r.notify(SelfStop);
                        }
                    }
                    "die" => {
                        if let Some((i, r)) = w.latest(o.a, o.b as usize) {
                            ev("stopcall", i, 0, 0);
                            let _ = r.send(Die).await;
                        }
                    }
                    "cycle" => {
                        // stop the current one and re-create under the same id
                        if let Some((i, r)) = w.latest(o.a, 0) {
                            stop(i, r).await
                        }
                        create(&w, &sys, o.a, o.b % 10, o.c).await;
                        get(&w, &sys, o.a, &lookups).await;
                    }
                    "burst" => {
                        futures::future::join(create(&w, &sys, o.a, o.b, o.c), get(&w, &sys, o.a, &lookups)).await;
                    }
                    "getwrong" => {
                        if sys.get_tracked_actor::<Other>(name(o.a)).await.is_some() {
                            fail("C04", "wrong type: lookup under a different actor type succeeded");
                        }
                    }
                    "getmissing" => {
                        if sys.get_tracked_actor::<Ra>("nobody".into()).await.is_some() {
                            fail("C04", "unknown id: lookup of an id never used succeeded");
                        }
                    }
                    _ => {}
                }
            }
        }));
    }
    for h in hs {
        if within(60_000, h).await.map_or(true, |x| x.is_err()) {
            fail("C04", "registry stuck: a lane did not finish within 60 virtual seconds");
        }
    }
    sleep_ms(5000).await;
    for id in 0..plan.get("ids") {
        get(&w, &sys, id, &lookups).await;
    }
    let n = sys.scheduler().send(ActorCount).await.unwrap_or(9999);
    let h = hist::snapshot();
    let lk: Vec<(usize, i64, Option<i64>, usize)> =
        lookups.lock().unwrap().iter().map(|(c, id, r, e)| (*c, *id, r.as_ref().map(|r| w.which(r).unwrap_or(-1)), *e)).collect();
    oracle(plan.get("ids"), &h, &lk, n);
    // a reference found at the end must reach the instance it stands for
    let last: Vec<_> = lookups.lock().unwrap().iter().rev().take(plan.get("ids") as usize).map(|l| (l.1, l.2.clone())).collect();
    for (id, r) in last {
        if let Some(r) = r {
            let x = r.send(Who).await;
            if x.is_err() || x.ok() != w.which(&r) {
                fail("C04", format!("dead entry: lookup of r{id} on a quiet system returned a reference nobody answers"));
            }
        }
    }
}

struct I {
    id: i64,
    cc: usize,
    cr: usize,
    ok: bool,
    stopping: usize,
    stopped: usize,
}

fn oracle(ids: i64, h: &[Ev], lookups: &[(usize, i64, Option<i64>, usize)], n: usize) {
    const INF: usize = usize::MAX;
    let mut is: BTreeMap<i64, I> = BTreeMap::new();
    for (i, e) in h.iter().enumerate() {
        match e.k {
            "create" => {
                is.insert(e.a, I { id: e.b, cc: i, cr: INF, ok: false, stopping: INF, stopped: INF });
            }
            "created" => {
                let x = is.get_mut(&e.a).unwrap();
                x.cr = i;
                x.ok = e.c == 1;
                if !x.ok {
                    x.stopped = i.min(x.stopped);
                }
            }
            "stopping" => {
                let x = is.get_mut(&e.a).unwrap();
                x.stopping = x.stopping.min(i);
            }
            "stopret" => {
                let x = is.get_mut(&e.a).unwrap();
                x.stopped = x.stopped.min(i);
            }
            _ => {}
        }
    }
    for (gc, id, res, gr) in lookups {
        count("lookups");
        let sup = |j: &I| is.values().any(|k| k.id == *id && k.cc > j.cr && k.cr < *gc && k.stopping > k.cr && k.ok);
        match res {
            Some(j) => {
                count("lookups_found");
                let Some(x) = is.get(j) else {
                    // creation had not returned a reference; it may still be starting or failed to start
                    let possible = is.values().any(|k| k.id == *id && k.cc < *gr && (k.cr > *gc || !k.ok));
                    if !possible {
                        fail("C04", format!("unknown actor: lookup of r{id} returned a reference never created"));
                    } else if is.values().all(|k| k.id != *id || k.cr < *gc || k.cc > *gr) {
                        fail("C04", format!("failed actor found: lookup of r{id} returned an actor whose creation had already failed"));
                    }
                    continue;
                };
                if x.id != *id {
                    fail("C04", format!("wrong actor: lookup of r{id} returned an actor of r{}", x.id));
                }
                if x.stopped < *gc {
                    fail("C04", format!("stale entry: lookup of r{id} returned instance {j} although its stop had already completed"));
                }
                if sup(x) {
                    fail("C04", format!("superseded entry: lookup of r{id} returned instance {j} although a newer one was registered"));
                }
            }
            None => {
                for (j, x) in &is {
                    if x.id == *id && x.ok && x.cr < *gc && x.stopping > *gr && is.iter().all(|(k, y)| k == j || y.id != *id || y.cr < x.cc || y.cc > *gr) {
                        fail("C04", format!("live actor not found: lookup of r{id} returned nothing although instance {j} was created, is the newest and never stopped"));
                    }
                }
            }
        }
    }
    // quiet system: number of entries
    let mut live = 0;
    let mut certain = true;
    for id in 0..ids {
        let v: Vec<&I> = is.values().filter(|x| x.id == id).collect();
        let newest = v.iter().filter(|x| v.iter().all(|y| std::ptr::eq(*x, y) || y.cr < x.cc)).next();
        match newest {
            Some(x) if x.stopping == INF && x.ok => live += 1,
            Some(_) => {
                if v.len() > 1 {
                    certain = false
                }
            }
            None if v.is_empty() => {}
            None => certain = false,
        }
    }
    let died = h.iter().any(|e| e.k == "died");
    if certain && !died && n != live {
        fail("C04", format!("wrong count: registry reports {n} actors on a quiet system, {live} are registered and running"));
    }
}
