//! Periodic timers and delayed notifications.
use crate::core::*;
use crate::hist::{self, ev, Ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::timer::{Timer, TimerTick};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, LocalActorRef, ScheduledNotify};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub struct Ta {
    inst: i64,
}
#[async_trait]
impl Actor for Ta {
    async fn stopped(&mut self, _: &mut ActorContext) {
        ev("stopB", self.inst, 0, 0);
    }
}
/// one message type for everything: `id` names the timer, the scheduled notification or the plain message
#[derive(Clone)]
struct Tick {
    id: i64,
    cost: u64,
}
impl Message for Tick {
    type Result = ();
}
impl TimerTick for Tick {}
#[async_trait]
impl Handler<Tick> for Ta {
    async fn handle(&mut self, m: Tick, _: &mut ActorContext) {
        ev("hB", self.inst, m.id, 0);
        sleep_ms(m.cost).await;
        ev("hE", self.inst, m.id, 0);
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("timers", seed, r);
    p.set("prop", super::prop_index(prop));
    // keep the clock's own advance per scheduling step small against the periods used
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    p.set("actors", r.range(1, 2));
    let lanes = r.range(1, 3);
    for _ in 0..r.range(3, if thorough { 40 } else { 18 }) {
        let k = r.weighted(&[(6, "timer"), (6, "tstop"), (6, "sched"), (4, "cancel"), (4, "busy"), (1, "astop"), (2, "schedmany")]);
        let (b, c) = match k {
            "timer" => (*r.pick(&[10i64, 50, 100, 333, 1000]), r.weighted(&[(4, 0i64), (2, 3), (2, 30), (1, 200)]) * 10 + r.below(2) as i64),
            "sched" | "schedmany" => (*r.pick(&[0i64, 1, 7, 50, 400, 3000]), r.below(3) as i64 * 10),
            "busy" => (r.range(1, 300), 0),
            _ => (r.below(20) as i64, 0),
        };
        let gap = if r.chance(2, 3) { *r.pick(&[1u64, 9, 10, 11, 49, 50, 51, 99, 101, 250, 700]) } else { 0 };
        p.op(r.below(lanes as u64) as u32, k, r.below(p.get("actors") as u64) as i64, b, c, gap);
    }
    p.set("tail", r.range(500, 4000));
    p
}

#[derive(Default)]
struct W {
    timers: Mutex<Vec<(i64, Option<Timer>)>>,
    sched: Mutex<HashMap<i64, ScheduledNotify<Ta, Tick>>>,
}

pub async fn run(plan: Arc<Plan>) {
    let sys = ActorSystem::builder().system_name("sim").build();
    let w = Arc::new(W::default());
    let mut refs: Vec<LocalActorRef<Ta>> = vec![];
    for i in 0..plan.get("actors") {
        refs.push(sys.new_actor(format!("t{i}"), Ta { inst: i }, ActorType::Anonymous).await.unwrap());
    }
    let mut hs = vec![];
    for lane in plan.lanes() {
        let (w, refs) = (w.clone(), refs.clone());
        hs.push(tokio::spawn(async move {
            for o in lane {
                sleep_ms(o.gap).await;
                let r = refs[o.a as usize % refs.len()].clone();
                let id = o.id as i64;
                let actor = o.a % refs.len() as i64;
                match o.k.as_str() {
                    "timer" => {
                        let imm = o.c % 10 == 1;
                        ev("timer", id, actor, o.b * 10 + imm as i64);
                        let m = Tick { id, cost: (o.c / 10) as u64 };
                        let d = Duration::from_millis(o.b as u64);
                        let t = if imm { Timer::start_immediately(r, d, m) } else { Timer::start(r, d, m) };
                        w.timers.lock().unwrap().push((id, Some(t)));
                    }
                    "tstop" => {
                        let t = {
                            let mut v = w.timers.lock().unwrap();
                            if v.is_empty() {
                                None
                            } else {
                                let i = o.b as usize % v.len();
                                let id = v[i].0;
                                v[i].1.take().map(|t| (id, t))
                            }
                        };
                        if let Some((id, t)) = t {
                            let ok = t.stop();
                            ev("tstop", id, ok as i64, 0);
                        }
                    }
                    "sched" => {
                        ev("sched", id, actor, o.b);
                        let h = r.scheduled_notify(Tick { id, cost: o.c as u64 }, Duration::from_millis(o.b as u64));
                        w.sched.lock().unwrap().insert(id, h);
                    }
                    "schedmany" => {
                        // several with the same deadline, handles dropped at once
                        for j in 0..3 {
                            let id = 1000 + id * 3 + j;
                            ev("sched", id, actor, o.b);
                            let _ = r.scheduled_notify(Tick { id, cost: 0 }, Duration::from_millis(o.b as u64));
                        }
                    }
                    "cancel" => {
                        let s = w.sched.lock().unwrap();
                        let mut ks: Vec<i64> = s.keys().cloned().collect();
                        ks.sort();
                        if !ks.is_empty() {
                            let id = ks[o.b as usize % ks.len()];
                            s[&id].cancel();
                            ev("cancel", id, 0, 0);
                        }
                    }
                    "busy" => {
                        let _ = r.notify(Tick { id: 5000 + id, cost: o.b as u64 });
                    }
                    "astop" => {
                        ev("astop", actor, 0, 0);
                        let _ = r.notify_stop();
                    }
                    _ => {}
                }
            }
        }));
    }
    for h in hs {
        if within(120_000, h).await.is_none() {
            fail("C07", "stuck: a lane did not finish");
        }
    }
    sleep_ms(plan.get("tail") as u64).await;
    let end = ev("end", 0, 0, 0);
    let h = hist::snapshot();
    oracle(&h, end);
}

const SLACK: u64 = 12;

fn oracle(h: &[Ev], end: usize) {
    let end_ms = h[end].ms;
    // busy intervals per actor
    let mut busy: BTreeMap<i64, Vec<(u64, u64)>> = BTreeMap::new();
    let mut open: BTreeMap<i64, u64> = BTreeMap::new();
    for e in h {
        if e.k == "hB" {
            open.insert(e.a, e.ms);
        }
        if e.k == "hE" {
            if let Some(b) = open.remove(&e.a) {
                busy.entry(e.a).or_default().push((b, e.ms));
            }
        }
    }
    for (a, b) in open {
        busy.entry(a).or_default().push((b, end_ms));
    }
    let busy_in = |a: i64, from: u64, to: u64| -> u64 {
        busy.get(&a).map_or(0, |v| v.iter().map(|(b, e)| e.min(&to).saturating_sub(*b.max(&from))).sum())
    };
    let stop_ms = |a: i64| h.iter().find(|e| (e.k == "astop" || e.k == "stopB") && e.a == a).map_or(u64::MAX, |e| e.ms);
    for (i0, t) in h.iter().enumerate().filter(|(_, e)| e.k == "timer") {
        count("timers");
        let (id, a, p, imm) = (t.a, t.b, (t.c / 10) as u64, t.c % 10 == 1);
        let ticks: Vec<(usize, u64)> = h.iter().enumerate().skip(i0).filter(|(_, e)| e.k == "hB" && e.b == id).map(|(i, e)| (i, e.ms)).collect();
        let ends: Vec<u64> = h.iter().filter(|e| e.k == "hE" && e.b == id).map(|e| e.ms).collect();
        let tstop = h.iter().position(|e| e.k == "tstop" && e.a == id);
        count_n("ticks", ticks.len() as u64);
        if h.iter().any(|e| e.k == "hB" && e.b == id && e.a != a) {
            fail("C07", format!("misdelivered tick: timer {id}"));
        }
        // spacing
        for (n, (_, ms)) in ticks.iter().enumerate() {
            let lo = if n == 0 { t.ms + if imm { 0 } else { p } } else { ends[n - 1] + p };
            if ms + 1 < lo {
                fail("C07", format!("tick too early: timer {id} period {p} tick {n} at {ms} ms, not due before {lo} ms"));
            }
        }
        // progress: the next tick after n handled ones
        let n = ticks.len();
        for k in 0..=n {
            if k < n || ends.len() == n {
                let due = if k == 0 { t.ms + if imm { 0 } else { p } } else { ends[k - 1] + p };
                let seen = ticks.get(k).map(|x| x.1).unwrap_or(end_ms);
                let stopped = tstop.map_or(u64::MAX, |i| h[i].ms).min(stop_ms(a));
                if seen.min(end_ms) > due + SLACK + busy_in(a, due.saturating_sub(5), seen) && stopped > due + SLACK + busy_in(a, due.saturating_sub(5), seen) && (k < n || end_ms < stopped) {
                    fail("C07", format!("missing tick: timer {id} period {p}: tick {k} due at {due} ms not handled by {seen} ms"));
                }
            }
        }
        // after stop
        if let Some(si) = tstop {
            let s = h[si].ms;
            let after = ticks.iter().filter(|x| x.0 > si).count();
            let done = ends.iter().filter(|e| **e <= s).count();
            let before = ticks.iter().filter(|x| x.0 < si).count();
            let next_due = if before == 0 { t.ms + if imm { 0 } else { p } } else { *ends.get(before - 1).unwrap_or(&u64::MAX) + p };
            let quiet = done == before && next_due > s + SLACK && busy_in(a, s.saturating_sub(SLACK), s + 1) == 0;
            if after > 1 || (quiet && after > 0) {
                fail("C07", format!("tick after stop: timer {id} stopped at {s} ms was handled {after} times afterwards"));
            }
            count("timer_stops");
        }
    }
    for t in h.iter().filter(|e| e.k == "sched") {
        count("scheduled");
        let (id, a, d) = (t.a, t.b, t.c as u64);
        let due = t.ms + d;
        let hs: Vec<u64> = h.iter().filter(|e| e.k == "hB" && e.b == id).map(|e| e.ms).collect();
        let cancel = h.iter().find(|e| e.k == "cancel" && e.a == id).map(|e| e.ms);
        if hs.len() > 1 {
            fail("C07", format!("delayed message delivered {} times: {id}", hs.len()));
        }
        if let Some(x) = hs.first() {
            if x + 1 < due {
                fail("C07", format!("delayed message too early: {id} due {due} ms handled {x} ms"));
            }
            if cancel.map_or(false, |c| c + SLACK < due) {
                fail("C07", format!("delayed message delivered after cancellation: {id}"));
            }
            if *x > due + SLACK + busy_in(a, due.saturating_sub(5), *x) {
                fail("C07", format!("delayed message late: {id} due {due} ms handled {x} ms"));
            }
        } else if cancel.is_none() && stop_ms(a) > due + SLACK + busy_in(a, due.saturating_sub(5), end_ms) && end_ms > due + SLACK + busy_in(a, due.saturating_sub(5), end_ms) {
            fail("C07", format!("delayed message lost: {id} due {due} ms"));
        }
        if cancel.is_some() {
            count("cancelled");
        }
    }
}
