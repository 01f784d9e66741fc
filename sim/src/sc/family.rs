//! Supervision trees and actor watching.
use crate::core::*;
use crate::hist::{self, ev, Ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::watch::{ActorTerminated, ActorWatch};
use coerce::actor::{Actor, ActorId, ActorRefErr, CoreActorRef, IntoActorId, LocalActorRef};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub struct Known {
    inst: i64,
    parent: i64,
    id: i64,
    r: LocalActorRef<Fa>,
}
#[derive(Default)]
pub struct W {
    known: Mutex<Vec<Known>>,
    next: Mutex<i64>,
}
impl W {
    fn inst(&self) -> i64 {
        let mut n = self.next.lock().unwrap();
        *n += 1;
        *n
    }
    fn add(&self, inst: i64, parent: i64, id: i64, r: LocalActorRef<Fa>) {
        let mut k = self.known.lock().unwrap();
        if !k.iter().any(|x| x.inst == inst) {
            k.push(Known { inst, parent, id, r });
        }
    }
    fn nth(&self, n: i64) -> Option<(i64, LocalActorRef<Fa>)> {
        let k = self.known.lock().unwrap();
        if k.is_empty() {
            return None;
        }
        let x = &k[n as usize % k.len()];
        Some((x.inst, x.r.clone()))
    }
    fn which(&self, r: &LocalActorRef<Fa>) -> i64 {
        self.known.lock().unwrap().iter().find(|x| x.r.sender().same_channel(r.sender())).map_or(-1, |x| x.inst)
    }
}

pub struct Fa {
    inst: i64,
    parent: i64,
    parent_id: String,
    id: i64,
    start: i64,
    stop: i64,
    k: u64,
    w: Arc<W>,
    unique: bool,
}

impl Drop for Fa {
    fn drop(&mut self) {
        ev("drop", self.inst, 0, 0);
    }
}

fn cname(id: i64, unique: bool, inst: i64) -> ActorId {
    if unique { format!("c{id}-{inst}").into_actor_id() } else { format!("c{id}").into_actor_id() }
}
fn cnum(id: &ActorId) -> i64 {
    id.trim_start_matches('c').split('-').next().unwrap().parse().unwrap_or(-1)
}

#[async_trait]
impl Actor for Fa {
    async fn started(&mut self, ctx: &mut ActorContext) {
        ev("startB", self.inst, self.parent, self.id);
        self.w.add(self.inst, self.parent, self.id, self.actor_ref(ctx));
        if self.parent > 0 {
            let p = ctx.boxed_parent().map(|p| p.actor_id().to_string()).unwrap_or_default();
            if p != self.parent_id {
                fail("C05", format!("wrong parent: child {} of {} sees parent {p:?}", self.inst, self.parent_id));
            }
            if ctx.parent::<Fa>().map(|p| self.w.which(&p)) != Some(self.parent) {
                fail("C05", format!("wrong parent: child {} cannot reach its parent", self.inst));
            }
        }
        match self.start {
            1 => yields(self.k).await,
            2 => sleep_ms(self.k).await,
            3 => {
                ev("cause", self.inst, 0, 0);
                ctx.stop(None)
            }
            4 => {
                yields(self.k % 3).await;
                ev("cause", self.inst, 0, 0);
                ev("panic", self.inst, 0, 0);
                panic!("planned-panic start")
            }
            5 => {
                for i in 0..2 {
                    self.spawn(7 + i, i == 1, 0, self.stop, ctx).await;
                }
            }
            6 => {
                self.spawn(7, false, 1, self.stop, ctx).await;
                ev("cause", self.inst, 0, 0);
                ctx.stop(None)
            }
            _ => {}
        }
        ev("startE", self.inst, 0, 0);
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        ev("stopB", self.inst, 0, 0);
        match self.stop {
            1 => yields(self.k).await,
            2 => sleep_ms(self.k).await,
            4 => {
                ev("panic", self.inst, 0, 0);
                panic!("planned-panic stop")
            }
            _ => {}
        }
        ev("stopE", self.inst, 0, 0);
    }
    async fn on_child_stopped(&mut self, id: &ActorId, ctx: &mut ActorContext) {
        ev("cstop", self.inst, cnum(id), child_inst(id));
        ev("count", self.inst, ctx.supervised_count() as i64, -1);
    }
}

/// instance encoded in unique names, 0 otherwise
fn child_inst(id: &ActorId) -> i64 {
    id.split('-').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0)
}

impl Fa {
    async fn spawn(&mut self, id: i64, deferred: bool, start: i64, stop: i64, ctx: &mut ActorContext) {
        let inst = self.w.inst();
        let child = Fa {
            inst,
            parent: self.inst,
            parent_id: ctx.id().to_string(),
            id,
            start,
            stop,
            k: self.k,
            w: self.w.clone(),
            unique: self.unique,
        };
        let bad = matches!(start, 3 | 4 | 6);
        let name = cname(id, self.unique, inst);
        ev("spawn", self.inst, id, inst);
        let r = if deferred { ctx.spawn_deferred(name, child) } else { ctx.spawn(name, child).await };
        match r {
            Ok(r) => {
                ev("spawned", self.inst, id, inst);
                if !deferred && !hist::has("startE", inst) {
                    fail("C05", format!("child reported early: spawn of child {inst} returned before its start hook finished"));
                }
                if !deferred && bad {
                    fail("C05", format!("failed child reported as started: {inst}"));
                }
                self.w.add(inst, self.inst, id, r);
            }
            Err(ActorRefErr::AlreadyExists(_)) => {
                ev("dup", self.inst, id, inst);
            }
            Err(ActorRefErr::ActorStartFailed) => {
                ev("spawned", self.inst, id, inst);
                if !bad {
                    fail("C05", format!("spawn failed: child {inst} of {}", self.inst));
                }
            }
            Err(e) => fail("C05", format!("spawn failed: {e:?}")),
        }
    }
}

struct Spawn {
    id: i64,
    deferred: bool,
    start: i64,
    stop: i64,
}
impl Message for Spawn {
    type Result = ();
}
#[async_trait]
impl Handler<Spawn> for Fa {
    async fn handle(&mut self, m: Spawn, ctx: &mut ActorContext) {
        self.spawn(m.id, m.deferred, m.start, m.stop, ctx).await
    }
}
struct Attach(LocalActorRef<Fa>);
impl Message for Attach {
    type Result = ();
}
#[async_trait]
impl Handler<Attach> for Fa {
    async fn handle(&mut self, m: Attach, ctx: &mut ActorContext) {
        ev("attached", self.inst, self.w.which(&m.0), 0);
        ctx.attach_child_ref(m.0.into());
    }
}
struct Probe(i64);
impl Message for Probe {
    type Result = ();
}
#[async_trait]
impl Handler<Probe> for Fa {
    async fn handle(&mut self, m: Probe, ctx: &mut ActorContext) {
        ev("count", self.inst, ctx.supervised_count() as i64, -1);
        if !self.unique {
            let c = ctx.child_ref::<Fa>(&cname(m.0, false, 0));
            let b = ctx.boxed_child_ref(&cname(m.0, false, 0));
            ev("has", self.inst, m.0, c.map_or(0, |c| self.w.which(&c)));
            ev("has", self.inst, m.0, b.and_then(|b| b.as_actor::<Fa>()).map_or(0, |c| self.w.which(&c)));
        }
    }
}
struct StopChild(i64);
impl Message for StopChild {
    type Result = ();
}
#[async_trait]
impl Handler<StopChild> for Fa {
    async fn handle(&mut self, m: StopChild, ctx: &mut ActorContext) {
        if let Some(c) = ctx.child_ref::<Fa>(&cname(m.0, false, 0)) {
            ev("cause", self.w.which(&c), 0, 0);
            let _ = c.stop().await;
        }
    }
}
struct Die;
impl Message for Die {
    type Result = ();
}
#[async_trait]
impl Handler<Die> for Fa {
    async fn handle(&mut self, _: Die, _: &mut ActorContext) {
        ev("panic", self.inst, 0, 0);
        panic!("planned-panic")
    }
}
struct SelfStop;
impl Message for SelfStop {
    type Result = ();
}
#[async_trait]
impl Handler<SelfStop> for Fa {
    async fn handle(&mut self, _: SelfStop, ctx: &mut ActorContext) {
        ctx.stop(None)
    }
}
struct Busy(u64);
impl Message for Busy {
    type Result = ();
}
#[async_trait]
impl Handler<Busy> for Fa {
    async fn handle(&mut self, m: Busy, _: &mut ActorContext) {
        if m.0 > 3 { sleep_ms(m.0).await } else { yields(m.0).await }
    }
}
struct DoWatch(LocalActorRef<Fa>, bool);
impl Message for DoWatch {
    type Result = ();
}
#[async_trait]
impl Handler<DoWatch> for Fa {
    async fn handle(&mut self, m: DoWatch, ctx: &mut ActorContext) {
        let s = self.w.which(&m.0);
        if m.1 {
            ev("watch", self.inst, s, 0);
            self.watch(&m.0, ctx);
        } else {
            ev("unwatch", self.inst, s, 0);
            self.unwatch(&m.0, ctx);
        }
    }
}
#[async_trait]
impl Handler<ActorTerminated> for Fa {
    async fn handle(&mut self, m: ActorTerminated, _: &mut ActorContext) {
        let s = m.actor_ref().as_actor::<Fa>().map_or(-2, |r| self.w.which(&r));
        ev("term", self.inst, s, 0);
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("family", seed, r);
    p.set("prop", super::prop_index(prop));
    let watch = prop == "C06";
    // watching is per watcher id: names are unique there
    p.set("unique", watch as i64);
    p.set("roots", r.range(1, 2));
    let lanes = r.range(1, 3);
    let total = r.range(5, if thorough { 50 } else { 26 });
    let wt = if watch { 10 } else { 0 };
    let st = r.range(1, 3) as u64;
    for i in 0..total {
        let k = if i < 2 {
            "spawn"
        } else {
            r.weighted(&[
                (10, "spawn"), (st, "stop"), (st, "nstop"), (1, "die"), (1, "selfstop"), (3, "probe"), (2, "stopchild"), (1, "attach"),
                (2, "busy"), (wt, "watch"), (wt / 3, "unwatch"), (wt / 5, "watch2"),
            ])
        };
        let a = r.below(8) as i64;
        let (b, c) = match k {
            "spawn" => (
                r.below(3) as i64,
                // start, stop, deferred
                r.weighted(&[(8, 0i64), (3, 1), (3, 2), (1, 3), (1, 4), (2, 5), (1, 6)]) + 10 * r.weighted(&[(6, 0i64), (3, 1), (3, 2), (1, 4)]) + 100 * r.below(2) as i64,
            ),
            _ => (r.below(8) as i64, r.below(30) as i64),
        };
        let gap = if r.chance(1, 3) { r.below(40) } else { 0 };
        p.op(r.below(lanes as u64) as u32, k, a, b, c, gap);
    }
    pace(&mut p, r);
    p
}

async fn exec(o: &Op, w: &Arc<W>, sys: &ActorSystem, unique: bool) {
    let Some((i, r)) = w.nth(o.a) else { return };
    match o.k.as_str() {
        "spawn" => {
            let _ = r.notify(Spawn { id: o.b, start: o.c % 10, stop: o.c / 10 % 10, deferred: o.c >= 100 });
            if o.b == 0 {
                let _ = r.status().await;
            }
        }
        "stop" => {
            ev("cause", i, 0, 0);
            let _ = r.stop().await;
        }
        "nstop" => {
            ev("cause", i, 0, 0);
            let _ = r.notify_stop();
        }
        "die" => {
            ev("cause", i, 0, 0);
            let _ = r.notify(Die);
        }
        "selfstop" => {
            ev("cause", i, 0, 0);
            let _ = r.notify(SelfStop);
        }
        "probe" => {
            let _ = r.send(Probe(o.b % 3)).await;
        }
        "stopchild" => {
            if !unique {
                let _ = r.notify(StopChild(o.b % 3));
            }
        }
        "busy" => {
            let _ = r.notify(Busy(o.c as u64));
        }
        "attach" => {
            let inst = w.inst();
            let a = Fa { inst, parent: 0, parent_id: String::new(), id: 50 + inst, start: 0, stop: o.c % 3, k: 3, w: w.clone(), unique };
            let x = sys.new_actor(format!("x{inst}"), a, ActorType::Anonymous).await;
            if let Ok(x) = x {
                let _ = r.notify(Attach(x));
            }
        }
        "watch" | "unwatch" | "watch2" => {
            if let Some((j, s)) = w.nth(o.b) {
                if i != j {
                    if o.k == "watch2" {
                        let _ = r.notify(DoWatch(s.clone(), true));
                    }
                    let _ = r.notify(DoWatch(s, o.k != "unwatch"));
                }
            }
        }
        _ => {}
    }
}

pub async fn run(plan: Arc<Plan>) {
    let sys = ActorSystem::builder().system_name("sim").build();
    let w = Arc::new(W::default());
    let unique = plan.get("unique") == 1;
    for i in 0..plan.get("roots") {
        let inst = w.inst();
        let a = Fa { inst, parent: 0, parent_id: String::new(), id: 100 + i, start: 0, stop: i, k: 5, w: w.clone(), unique };
        let _ = sys.new_actor(format!("root{i}"), a, if i == 0 { ActorType::Tracked } else { ActorType::Anonymous }).await;
    }
    let mut hs = vec![];
    for lane in plan.lanes() {
        let (w, sys) = (w.clone(), sys.clone());
        hs.push(tokio::spawn(async move {
            for o in lane {
                sleep_ms(o.gap).await;
                exec(&o, &w, &sys, unique).await;
            }
        }));
    }
    for h in hs {
        if within(60_000, h).await.map_or(true, |x| x.is_err()) {
            fail("C05", "stuck: a lane did not finish within 60 virtual seconds");
        }
    }
    sleep_ms(10_000).await;
    let h1 = hist::len();
    // final probe of the survivors
    let all: Vec<LocalActorRef<Fa>> = w.known.lock().unwrap().iter().map(|k| k.r.clone()).collect();
    for r in &all {
        let _ = within(10_000, r.send(Probe(0))).await;
    }
    let h2 = hist::len();
    let roots: Vec<(i64, LocalActorRef<Fa>)> = w.known.lock().unwrap().iter().filter(|k| k.parent == 0).map(|k| (k.inst, k.r.clone())).collect();
    for (i, r) in roots {
        ev("cause", i, 0, 0);
        if within(20_000, r.stop()).await.is_none() {
            fail("C05", format!("stop never returns: actor {i}"));
        }
    }
    sleep_ms(20_000).await;
    let h = hist::snapshot();
    let known: BTreeMap<i64, (i64, i64)> = w.known.lock().unwrap().iter().map(|k| (k.inst, (k.parent, k.id))).collect();
    let _ = h1;
    oracle_family(&h, h2, &known, unique);
    oracle_watch(&h, h2, &known);
}

/// index at which an actor's own code is known to be finished
fn ended(h: &[Ev], i: i64) -> Option<usize> {
    h.iter().position(|e| e.a == i && (e.k == "stopE" || e.k == "panic"))
}

fn oracle_family(h: &[Ev], quiet: usize, known: &BTreeMap<i64, (i64, i64)>, unique: bool) {
    let mut parent: BTreeMap<i64, i64> = BTreeMap::new(); // supervised children only
    let mut insts: BTreeSet<i64> = known.keys().cloned().collect();
    for e in h {
        if e.k == "startB" {
            insts.insert(e.a);
            if e.b > 0 {
                parent.insert(e.a, e.b);
            }
        }
    }
    // children set of every parent, replayed in the parent's own order
    let mut sets: BTreeMap<i64, BTreeMap<i64, i64>> = BTreeMap::new();
    let mut attached: BTreeMap<i64, BTreeSet<i64>> = BTreeMap::new();
    let mut cstops: BTreeMap<i64, usize> = BTreeMap::new(); // child inst -> count
    for (idx, e) in h.iter().enumerate() {
        match e.k {
            "spawned" => {
                let s = sets.entry(e.a).or_default();
                let key = if unique { e.c } else { e.b };
                if let Some(old) = s.insert(key, e.c) {
                    fail("C05", format!("duplicate child: parent {} was given a second child c{} (instance {}) while instance {old} was still its child", e.a, e.b, e.c));
                }
                count("children");
            }
            "dup" => {
                let s = sets.entry(e.a).or_default();
                if unique || !s.contains_key(&e.b) {
                    fail("C05", format!("rejected child: parent {} has no child c{} but spawning it was refused as a duplicate", e.a, e.b));
                }
                count("duplicate_rejections");
            }
            "attached" => {
                attached.entry(e.a).or_default().insert(e.b);
            }
            "cstop" => {
                let s = sets.entry(e.a).or_default();
                let key = if unique { e.c } else { e.b };
                match s.remove(&key) {
                    None => fail("C05", format!("spurious child notification: parent {} told that c{} stopped, which it does not have", e.a, e.b)),
                    Some(c) => {
                        *cstops.entry(c).or_default() += 1;
                        match ended(h, c) {
                            Some(x) if x < idx => {}
                            _ => fail("C05", format!("early child notification: parent {} told that child {c} stopped while it was still running", e.a)),
                        }
                        for (g, p) in &parent {
                            if *p == c && ended(h, *g).map_or(true, |x| x > idx) {
                                fail("C05", format!("notified before subtree stopped: parent {} told that child {c} stopped while its child {g} was still running", e.a));
                            }
                        }
                    }
                }
                count("child_stops");
            }
            "count" => {
                let n = sets.get(&e.a).map_or(0, |s| s.len()) as i64;
                let at = attached.get(&e.a).map_or(0, |s| s.len()) as i64;
                if e.b < n || e.b > n + at {
                    fail("C05", format!("wrong child count: parent {} reports {} children, it has {n}", e.a, e.b));
                }
            }
            "has" => {
                let c = sets.get(&e.a).and_then(|s| s.get(&e.b)).cloned().unwrap_or(0);
                if c != e.c && !(e.c == -1 && c > 0) {
                    fail("C05", format!("wrong child lookup: parent {} resolves c{} to instance {}, expected {c}", e.a, e.b, e.c));
                }
            }
            _ => {}
        }
    }
    for i in &insts {
        let ps = parent.get(i).cloned().unwrap_or(0);
        let end_q = ended(&h[..quiet], *i);
        // a finished child of a running parent has been reported exactly once by the time the system is quiet
        if ps > 0 && ended(&h[..quiet], ps).is_none() {
            let n = h[..quiet].iter().filter(|e| e.k == "cstop" && e.a == ps).count();
            let _ = n;
            let reported = cstops.get(i).cloned().unwrap_or(0);
            if end_q.is_some() && reported != 1 {
                fail("C05", format!("child stop not reported: child {i} of {ps} ended, its parent was told {reported} times"));
            }
        }
        if ended(h, *i).is_none() {
            fail("C05", format!("orphan: actor {i} (child of {ps}) is still running although everything above it was stopped"));
        }
        if h.iter().filter(|e| e.k == "stopE" && e.a == *i).count() > 1 || h.iter().filter(|e| e.k == "stopB" && e.a == *i).count() > 1 {
            fail("C05", format!("stopped twice: actor {i}"));
        }
        // parents that ended take their children with them
        if ps > 0 && ended(&h[..quiet], ps).is_some() && end_q.is_none() {
            fail("C05", format!("child outlives parent: child {i} still running long after its parent {ps} ended"));
        }
        if let Some((p, _)) = attached.iter().find(|(_, s)| s.contains(i)) {
            if ended(&h[..quiet], *p).is_some() && end_q.is_none() {
                fail("C05", format!("child outlives parent: attached child {i} still running long after its parent {p} ended"));
            }
        }
    }
}

fn oracle_watch(h: &[Ev], quiet: usize, known: &BTreeMap<i64, (i64, i64)>) {
    let mut parent: BTreeMap<i64, i64> = BTreeMap::new();
    for e in h {
        if e.k == "startB" && e.b > 0 {
            parent.insert(e.a, e.b);
        }
        if e.k == "attached" {
            parent.insert(e.b, e.a);
        }
    }
    let mut pairs: BTreeSet<(i64, i64)> = BTreeSet::new();
    for e in h {
        if matches!(e.k, "watch" | "unwatch" | "term") {
            pairs.insert((e.a, e.b));
        }
    }
    for (w, s) in pairs {
        if s < 0 || !known.contains_key(&s) {
            fail("C06", format!("unknown subject: watcher {w} was told that an unknown actor terminated"));
            continue;
        }
        let terms: Vec<usize> = h.iter().enumerate().filter(|(_, e)| e.k == "term" && e.a == w && e.b == s).map(|x| x.0).collect();
        let ws: Vec<(usize, bool)> =
            h.iter().enumerate().filter(|(_, e)| (e.k == "watch" || e.k == "unwatch") && e.a == w && e.b == s).map(|(i, e)| (i, e.k == "watch")).collect();
        if terms.len() > 1 {
            fail("C06", format!("notified twice: watcher {w} got {} termination notices for {s}", terms.len()));
        }
        if let Some(t) = terms.first() {
            count("terminations");
            if ended(h, s).map_or(true, |x| x > *t) {
                fail("C06", format!("notified early: watcher {w} told that {s} terminated while it was running"));
            }
            if !ws.iter().any(|x| x.1 && x.0 < *t) {
                fail("C06", format!("notified without watching: watcher {w} subject {s}"));
            }
        }
        // earliest moment at which something could have ended the subject
        let mut chain = vec![s];
        let mut x = s;
        while let Some(p) = parent.get(&x) {
            chain.push(*p);
            x = *p;
        }
        let cause = h.iter().position(|e| (e.k == "cause" || e.k == "panic" || e.k == "stopB") && chain.contains(&e.a)).unwrap_or(usize::MAX);
        let w_alive = ended(&h[..quiet], w).is_none();
        let s_ended = ended(&h[..quiet], s).is_some();
        let last = ws.last();
        if let Some((i, is_watch)) = last {
            let started = h.iter().position(|e| e.k == "startE" && e.a == s).map_or(false, |x| x < ws[0].0);
            if *i < cause && started {
                if *is_watch && s_ended && w_alive && !terms.iter().any(|t| *t < quiet) {
                    fail("C06", format!("not notified: watcher {w} was watching {s} before it was asked to stop and was never told that it terminated"));
                }
                if !*is_watch && !terms.is_empty() {
                    fail("C06", format!("notified after unwatch: watcher {w} subject {s}"));
                }
                count("watch_pairs_certain");
            }
        }
        count("watch_pairs");
    }
}
