//! Health reports of a node.
use crate::cluster::*;
use crate::core::*;
use crate::hist::{self, ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, CoreActorRef, IntoActorId, LocalActorRef};
use coerce::remote::heartbeat::health::{HealthStatus, SystemHealth};
use coerce::remote::heartbeat::Heartbeat;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct Hb {
    no: i64,
}
#[async_trait]
impl Actor for Hb {}
struct Busy(u64);
impl Message for Busy {
    type Result = ();
}
#[async_trait]
impl Handler<Busy> for Hb {
    async fn handle(&mut self, m: Busy, _c: &mut ActorContext) {
        ev("busyB", self.no, m.0 as i64, 0);
        sleep_ms(m.0).await;
        ev("busyE", self.no, m.0 as i64, 0);
    }
}
struct Boom;
impl Message for Boom {
    type Result = ();
}
#[async_trait]
impl Handler<Boom> for Hb {
    async fn handle(&mut self, _: Boom, _c: &mut ActorContext) {
        panic!("planned-panic");
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("health", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    let n = r.range(1, 3);
    p.set("n", n);
    // actors that exist on node 1
    let actors = r.range(1, 5);
    p.set("actors", actors);
    p.net.max = *r.pick(&[0, 1, 5, 20]);
    let lanes = r.range(1, 4);
    let window: u64 = *r.pick(&[20, 2_000, 10_000]);
    let nops = r.range(4, if thorough { 40 } else { 20 });
    for a in 0..actors {
        if r.chance(3, 4) {
            p.op(99, "reg", a, 0, 0, 0);
        }
    }
    for _ in 0..nops {
        let lane = r.below(lanes as u64) as u32;
        let gap = r.below(window * 2 / nops as u64 + 1);
        let k = r.weighted(&[(8, "get"), (4, "busy"), (3, "reg"), (3, "rem"), (1, "stop"), (1, "boom")]);
        let b = if k == "busy" { *r.pick(&[1, 300, 900, 1_200, 2_500, 6_000]) } else { r.range(0, 1) };
        p.op(lane, k, r.range(0, actors - 1), b, 0, gap);
    }
    if r.chance(1, 3) {
        let mix = FaultMix { resets: 4, cuts: 3, stalls: 3, crashes: 0, max_cut: 8_000, max_stall: 4_000 };
        let c = r.range(1, 3);
        gen_faults(&mut p, r, n, window, &mix, c);
        if n == 1 {
            p.faults.retain(|f| f.k == "stall");
        }
    }
    p
}

struct Report {
    call: usize,
    ret: usize,
    h: SystemHealth,
}

pub async fn run(plan: Arc<Plan>) {
    let n = plan.get("n") as u32;
    let cl = Cluster::new();
    for slot in 1..=n {
        let seed = if slot > 1 { Some(1) } else { None };
        if cl.start(NodeCfg::new(slot, seed), 60_000, |b| b, |_| async {}).await.is_none() {
            return count("not_started");
        }
    }
    if !cl.wait_formed(30_000).await {
        return count("not_formed");
    }
    sleep_ms(500).await;
    count("formed");
    let Some(nd) = cl.node(1) else { return };
    let calm = plan.faults.is_empty() && plan.net.connect_fail == 0;
    let stalls: u64 = plan.faults.iter().filter(|f| f.k == "stall").map(|f| f.dur).sum();
    let reports: Arc<Mutex<Vec<Report>>> = Default::default();
    let (p2, nd2, rp) = (plan.clone(), nd.clone(), reports.clone());
    let all = spawn_on(nd.sim, async move {
        let mut refs: Vec<LocalActorRef<Hb>> = vec![];
        for no in 0..p2.get("actors") {
            let Ok(r) = nd2.sys.actor_system().new_actor(format!("act-{no}").into_actor_id(), Hb { no }, ActorType::Tracked).await else {
                return fail("C27", "actor not created");
            };
            refs.push(r);
        }
        let mut lanes = p2.lanes();
        let init: Vec<Op> = lanes.iter().position(|l| l[0].l == 99).map(|i| lanes.remove(i)).unwrap_or_default();
        let mut hs = vec![];
        for lane in std::iter::once(init).chain(lanes) {
            let (refs, sys, rp) = (refs.clone(), nd2.sys.clone(), rp.clone());
            let first = lane.first().map(|o| o.l) == Some(99);
            let body = async move {
                for o in lane {
                    sleep_ms(o.gap).await;
                    let r = refs[o.a as usize].clone();
                    match o.k.as_str() {
                        "reg" => {
                            ev("reg", o.a, 0, 0);
                            if o.b == 0 {
                                Heartbeat::register(r, &sys);
                            } else {
                                Heartbeat::register(coerce::actor::BoxedActorRef::from(r), &sys);
                            }
                        }
                        "rem" => {
                            ev("rem", o.a, 0, 0);
                            Heartbeat::remove(r.actor_id(), &sys);
                        }
                        "busy" => {
                            ev("ask", o.a, o.b, 0);
                            let _ = r.notify(Busy(o.b as u64));
                        }
                        "stop" | "boom" => {
                            ev("endB", o.a, 0, 0);
                            if o.k == "stop" {
                                let _ = r.stop().await;
                            } else {
                                let _ = r.send(Boom).await;
                                sleep_ms(300).await;
                            }
                            ev("endE", o.a, 0, 0);
                        }
                        _ => {
                            let (sys, rp) = (sys.clone(), rp.clone());
                            let go = async move {
                                let call = ev("getB", o.id as i64, 0, 0);
                                let h = Heartbeat::get_system_health(&sys).await;
                                let ret = ev("getE", o.id as i64, 0, 0);
                                rp.lock().unwrap().push(Report { call, ret, h });
                            };
                            if o.b == 0 {
                                go.await
                            } else {
                                tokio::spawn(go);
                            }
                        }
                    }
                }
            };
            if first {
                body.await
            } else {
                hs.push(tokio::spawn(body));
            }
        }
        for h in hs {
            let _ = h.await;
        }
    });
    let all = tokio::spawn(within(400_000, all));
    play_faults(&plan, &cl, |_| async {}).await;
    let done = all.await;
    let busy: i64 = plan.ops.iter().filter(|o| o.k == "busy").map(|o| o.b).sum();
    sleep_ms(10_000 + busy as u64 + stalls).await;
    let hist = hist::snapshot();
    let reps = reports.lock().unwrap();
    if !matches!(done, Ok(Some(Ok(())))) {
        let open: Vec<i64> = hist.iter().filter(|e| e.k == "getB" && !hist::has("getE", e.a)).map(|e| e.a).collect();
        return fail("C27", format!("no report: a request for the node's health (or what followed it) was not answered within 400 s of simulated time, open requests {open:?}"));
    }
    for e in hist.iter().filter(|e| e.k == "getB") {
        if !hist::has("getE", e.a) {
            fail("C27", format!("no report: request {} for the node's health was never answered", e.a));
        }
    }
    for r in reps.iter() {
        check(&plan, &hist, r, &nd, n, calm, stalls);
    }
}

fn check(plan: &Plan, h: &[hist::Ev], r: &Report, nd: &Node, n: u32, calm: bool, stalls: u64) {
    count("reports");
    let (c, e) = (h[r.call].ms, h[r.ret].ms);
    let d_all = e - c;
    let id = h[r.call].a;
    let mut entries: BTreeMap<String, Option<Duration>> = BTreeMap::new();
    for (k, v) in &r.h.actor_response_times {
        entries.insert(k.to_string(), *v);
    }
    let mut slowest = 0u64;
    let mut doubled = false;
    let mut known = 0;
    for a in 0..plan.get("actors") {
        let mut regs = 0;
        for x in h[..r.call].iter().filter(|x| x.a == a) {
            match x.k {
                "reg" => regs += 1,
                "rem" => regs = 0,
                _ => {}
            }
        }
        let suffix = format!("/act-{a}");
        let got: Vec<Option<Duration>> = entries.iter().filter(|(k, _)| k.ends_with(&suffix)).map(|(_, v)| *v).collect();
        known += got.len();
        if regs == 0 {
            if !got.is_empty() {
                fail("C27", format!("unexpected: report {id} covers actor {a}, which is not registered for it"));
            }
            continue;
        }
        if regs > 1 {
            doubled = true;
        }
        if got.len() != 1 {
            fail("C27", format!("not covered: report {id} has {} entries for actor {a}, which is registered", got.len()));
            continue;
        }
        // when the actor gets through with what it had to do before the request arrived
        let asked: usize = h[..r.call].iter().filter(|x| x.k == "ask" && x.a == a).count();
        let free = h.iter().filter(|x| x.k == "busyE" && x.a == a).map(|x| x.ms).nth(asked.wrapping_sub(1)).unwrap_or(0);
        // longest it may be held up (work that arrived before the probe got there)
        let late = h[..r.ret].iter().filter(|x| x.k == "ask" && x.a == a && x.ms <= c + 200 + stalls).count();
        let over = h.iter().filter(|x| x.k == "busyE" && x.a == a).map(|x| x.ms).nth(late.wrapping_sub(1)).unwrap_or(if late == 0 { 0 } else { e });
        slowest = slowest.max(over.saturating_sub(c));
        let ended_before = h[..r.call].iter().any(|x| x.k == "endE" && x.a == a);
        let ending = h[..r.ret].iter().any(|x| x.k == "endB" && x.a == a);
        match got[0] {
            None => {
                count("entries_failed");
                if !ending {
                    fail("C27", format!("reported as failed: report {id} says actor {a} doesn't answer, but it lives"));
                }
            }
            Some(d) => {
                count("entries_ok");
                let d = d.as_millis() as u64;
                if ended_before {
                    fail("C27", format!("reported as alive: report {id} has an answer ({d} ms) of actor {a}, which had ended before the report was asked for"));
                }
                if d > d_all + 1 {
                    fail("C27", format!("wrong time: report {id} took {d_all} ms but says actor {a} needed {d} ms to answer"));
                }
                if calm && d + 300 < free.saturating_sub(c) {
                    fail("C27", format!("wrong time: report {id} says actor {a} answered after {d} ms, but it was busy for {} ms", free - c));
                }
                if calm && d > over.saturating_sub(c) + 300 {
                    fail("C27", format!("wrong time: report {id} says actor {a} answered after {d} ms, but it was busy for {} ms at most", over.saturating_sub(c)));
                }
            }
        }
    }
    // the parts of the node itself
    if entries.len() == known {
        fail("C27", format!("not covered: report {id} has no entry for the node's own actors"));
    }
    for (k, v) in entries.iter().filter(|(k, _)| !k.contains("/act-")) {
        match v {
            None => fail("C27", format!("reported as failed: report {id} says {k} doesn't answer")),
            Some(d) if calm && d.as_millis() > 300 => fail("C27", format!("wrong time: report {id} says {k} took {} ms to answer", d.as_millis())),
            _ => {}
        }
    }
    // overall status
    let none = entries.values().any(|v| v.is_none());
    let slow = entries.values().any(|v| v.map_or(false, |d| d > Duration::from_secs(1)));
    let want = if none {
        HealthStatus::Unhealthy
    } else if slow {
        HealthStatus::Degraded
    } else {
        HealthStatus::Healthy
    };
    match want {
        HealthStatus::Healthy => count("healthy"),
        HealthStatus::Degraded => count("degraded"),
        HealthStatus::Unhealthy => count("unhealthy"),
    }
    if r.h.status != want && !doubled {
        fail("C27", format!("wrong status: report {id} says {:?}, its entries say {want:?}", r.h.status));
    }
    // one slow actor doesn't add to another
    let slack = if calm { 500 } else { 10_000 };
    if d_all > slowest + stalls + slack {
        fail("C27", format!("late: report {id} took {d_all} ms, the slowest actor was busy for {slowest} ms"));
    }
    if r.h.node_id != nd.id || r.h.node_tag != nd.sys.node_tag() {
        fail("C27", format!("wrong node: report {id} is about node {} ({}), but node {} was asked", r.h.node_id, r.h.node_tag, nd.id));
    }
    if r.h.node_started_at != *nd.sys.started_at() {
        fail("C27", format!("wrong start: report {id} has another time of start than the node"));
    }
    if calm {
        let mut ids: Vec<u64> = r.h.nodes.iter().map(|x| x.id).collect();
        ids.sort();
        if ids != (1..=n as u64).collect::<Vec<_>>() {
            fail("C27", format!("wrong members: report {id} lists nodes {ids:?} of a cluster of {n}"));
        }
        if r.h.current_leader != nd.sys.current_leader() {
            fail("C27", format!("wrong leader: report {id} names {:?} as leader, the node says {:?}", r.h.current_leader, nd.sys.current_leader()));
        }
    }
}
