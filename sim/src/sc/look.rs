//! Descriptions of the running system.
use crate::core::*;
use crate::hist::{self, ev, Ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::describe::{ActorDescription, Describe, DescribeAll, DescribeOptions, DescribeResult};
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::{ActorScheduler, ActorType};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorId, ActorTags, IntoActorId, LocalActorRef};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use tokio::sync::oneshot;

#[derive(Clone)]
struct Known {
    inst: i64,
    tracked: bool,
    r: LocalActorRef<La>,
}
#[derive(Default)]
struct W {
    known: Mutex<Vec<Known>>,
    next: Mutex<i64>,
}
impl W {
    fn inst(&self) -> i64 {
        let mut n = self.next.lock().unwrap();
        *n += 1;
        *n
    }
    fn nth(&self, n: i64) -> Option<Known> {
        let k = self.known.lock().unwrap();
        if k.is_empty() { None } else { Some(k[n as usize % k.len()].clone()) }
    }
}
fn name(i: i64) -> ActorId {
    format!("a{i}").into_actor_id()
}
fn num(id: &ActorId) -> Option<i64> {
    id.strip_prefix('a').and_then(|x| x.parse().ok())
}

struct La {
    inst: i64,
    w: Arc<W>,
}
impl Drop for La {
    fn drop(&mut self) {
        ev("drop", self.inst, 0, 0);
    }
}
#[async_trait]
impl Actor for La {
    async fn started(&mut self, ctx: &mut ActorContext) {
        match self.inst % 3 {
            0 => {}
            1 => ctx.set_tags(format!("t{}", self.inst)),
            _ => ctx.set_tags(vec![format!("t{}", self.inst), "x".to_string()]),
        }
    }
    async fn on_child_stopped(&mut self, id: &ActorId, _: &mut ActorContext) {
        ev("cstop", self.inst, num(id).unwrap_or(-1), 0);
    }
}
struct Child(bool);
impl Message for Child {
    type Result = ();
}
#[async_trait]
impl Handler<Child> for La {
    async fn handle(&mut self, m: Child, ctx: &mut ActorContext) {
        let inst = self.w.inst();
        let a = La { inst, w: self.w.clone() };
        ev("spawn", self.inst, inst, 0);
        let r = if m.0 { ctx.spawn_deferred(name(inst), a) } else { ctx.spawn(name(inst), a).await };
        if let Ok(r) = r {
            ev("spawned", self.inst, inst, 0);
            self.w.known.lock().unwrap().push(Known { inst, tracked: false, r });
        }
    }
}
struct Attach(LocalActorRef<La>, i64);
impl Message for Attach {
    type Result = ();
}
#[async_trait]
impl Handler<Attach> for La {
    async fn handle(&mut self, m: Attach, ctx: &mut ActorContext) {
        ev("attach", self.inst, m.1, 0);
        ctx.attach_child_ref(m.0.into());
    }
}
struct Busy(u64, i64);
impl Message for Busy {
    type Result = ();
}
#[async_trait]
impl Handler<Busy> for La {
    async fn handle(&mut self, m: Busy, _: &mut ActorContext) {
        ev("busyB", self.inst, m.1, 0);
        sleep_ms(m.0).await;
        ev("busyE", self.inst, m.1, 0);
    }
}
struct Ping;
impl Message for Ping {
    type Result = ();
}
#[async_trait]
impl Handler<Ping> for La {
    async fn handle(&mut self, _: Ping, _: &mut ActorContext) {}
}
struct Die;
impl Message for Die {
    type Result = ();
}
#[async_trait]
impl Handler<Die> for La {
    async fn handle(&mut self, _: Die, _: &mut ActorContext) {
        panic!("planned-panic")
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("look", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    let lanes = r.range(1, 3);
    let total = r.range(6, if thorough { 50 } else { 26 });
    let trouble = r.range(0, 3) as u64;
    for i in 0..total {
        let k = if i < 2 {
            "root"
        } else {
            r.weighted(&[
                (3, "root"), (9, "child"), (trouble * 2, "busy"), (trouble, "stop"), (trouble / 2, "die"), (2, "attach"), (4, "all"), (3, "one"), (1, "ping"),
            ])
        };
        let a = r.below(12) as i64;
        // options of a description: depth*100 + children*10 + attached, 9 = no limit
        let opts = r.weighted(&[(4, 9i64), (1, 0), (2, 1), (2, 2), (1, 3)]) * 100 + r.weighted(&[(4, 9i64), (1, 0), (2, 1), (2, 2)]) * 10 + r.weighted(&[(3, 1i64), (1, 0)]);
        let (b, c) = match k {
            "root" => (r.weighted(&[(3, 1i64), (1, 0)]), 0),
            "child" => (r.below(3) as i64 / 2, 0),
            "busy" => (*r.pick(&[3i64, 50, 900, 4_000, 5_500, 9_000, 12_000, 20_000]), 0),
            "attach" => (r.below(12) as i64, 0),
            _ => (opts, r.below(3) as i64),
        };
        let gap = if r.chance(1, 3) { *r.pick(&[1u64, 10, 100, 2_000]) } else { 0 };
        p.op(r.below(lanes as u64) as u32, k, a, b, c, gap);
    }
    // a last look once nothing happens any more
    p.op(0, "all", 0, 991, 0, 25_000);
    p
}

fn options(o: i64) -> DescribeOptions {
    let lim = |x: i64| if x == 9 { None } else { Some(x as usize) };
    DescribeOptions { max_depth: lim(o / 100), max_children: lim(o / 10 % 10), child_describe_timeout: None, child_describe_attached: o % 10 == 1 }
}

async fn exec(o: &Op, w: &Arc<W>, sys: &ActorSystem) {
    if o.k == "root" {
        let inst = w.inst();
        let tracked = o.b == 1;
        let t = if tracked { ActorType::Tracked } else { ActorType::Anonymous };
        ev("root", inst, tracked as i64, 0);
        if let Ok(r) = sys.new_actor(name(inst), La { inst, w: w.clone() }, t).await {
            w.known.lock().unwrap().push(Known { inst, tracked, r });
            ev("rooted", inst, tracked as i64, 0);
        }
        return;
    }
    if o.k == "all" {
        return all(o, sys).await;
    }
    let Some(x) = w.nth(o.a) else { return };
    match o.k.as_str() {
        "child" => {
            ev("make", x.inst, 0, 0);
            let _ = x.r.send(Child(o.b == 1)).await;
            ev("made", x.inst, 0, 0);
        }
        "attach" => {
            if let Some(y) = w.nth(o.b).filter(|y| y.inst > x.inst) {
                ev("make", x.inst, 0, 0);
                let _ = x.r.send(Attach(y.r, y.inst)).await;
                ev("made", x.inst, 0, 0);
            }
        }
        "busy" => {
            ev("busy", x.inst, o.id as i64, 0);
            let _ = x.r.notify(Busy(o.b as u64, o.id as i64));
        }
        "stop" => {
            ev("cause", x.inst, 0, 0);
            if o.c == 0 {
                let _ = x.r.notify_stop();
            } else if within(60_000, x.r.stop()).await.is_some() {
                ev("stopped", x.inst, 0, 0);
            }
        }
        "die" => {
            ev("cause", x.inst, 1, 0);
            let _ = x.r.notify(Die);
        }
        "ping" => {
            let (i0, t0) = (ev("ping", x.inst, 0, 0), now_ms());
            let r = within(60_000, x.r.send(Ping)).await;
            let i1 = ev("pong", x.inst, 0, 0);
            let v = View::new(i0, i1);
            if v.idle(x.inst) && (!matches!(r, Some(Ok(_))) || now_ms() - t0 > 500) {
                fail("C28", format!("disturbed: idle actor {} answered a message after {} ms while being described: {r:?}", x.inst, now_ms() - t0));
            }
        }
        "one" => one(o, &x).await,
        _ => {}
    }
}

/// What the history says about the tree around one description.
struct View {
    h: Vec<Ev>,
    i0: usize,
    i1: usize,
    t0: u64,
    parent: BTreeMap<i64, i64>,
    /// spawned and attached children known at the start
    kids: BTreeMap<i64, BTreeSet<i64>>,
    att: BTreeMap<i64, BTreeSet<i64>>,
}
impl View {
    fn new(i0: usize, i1: usize) -> View {
        let h = hist::snapshot();
        let mut v = View { t0: h[i0].ms, h, i0, i1, parent: BTreeMap::new(), kids: BTreeMap::new(), att: BTreeMap::new() };
        for (i, e) in v.h.iter().enumerate().take(i1) {
            match e.k {
                "spawn" => {
                    v.parent.insert(e.b, e.a);
                }
                "spawned" if i < i0 => {
                    v.kids.entry(e.a).or_default().insert(e.b);
                }
                "attach" if i < i0 => {
                    v.att.entry(e.a).or_default().insert(e.b);
                }
                "cstop" if i < i0 => {
                    v.kids.entry(e.a).or_default().remove(&e.b);
                }
                _ => {}
            }
        }
        v
    }
    /// itself and everything whose end ends it: an attached child is stopped along with the
    /// actor it was attached to
    fn up(&self, x: i64) -> BTreeSet<i64> {
        let mut v = BTreeSet::from([x]);
        let mut todo = vec![x];
        while let Some(y) = todo.pop() {
            let att = self.before(self.i1).iter().filter(|e| e.k == "attach" && e.b == y).map(|e| e.a);
            for p in self.parent.get(&y).cloned().into_iter().chain(att) {
                if v.insert(p) {
                    todo.push(p);
                }
            }
        }
        v
    }
    fn before(&self, i: usize) -> &[Ev] {
        &self.h[..i]
    }
    /// asked to end, directly or through a parent, by the end of the window
    fn doomed(&self, x: i64) -> bool {
        self.up(x).iter().any(|y| self.before(self.i1).iter().any(|e| e.k == "cause" && e.a == *y))
    }
    /// has nothing else to do during the window
    fn idle(&self, x: i64) -> bool {
        let h = self.before(self.i1);
        let busy = |e: &Ev| e.k == "busy" && e.a == x && !self.before(self.i0).iter().any(|f| f.k == "busyE" && f.b == e.b);
        let making = {
            let b = h.iter().filter(|e| e.k == "make" && e.a == x).count();
            let e = self.before(self.i0).iter().filter(|e| e.k == "made" && e.a == x).count();
            b > e
        };
        !self.doomed(x) && !h.iter().any(busy) && !making
    }
    /// its children do not change during the window
    fn settled(&self, x: i64) -> bool {
        let h = self.before(self.i1);
        self.idle(x)
            && self.kids.get(&x).map_or(true, |k| k.iter().all(|c| !self.doomed(*c)))
            && self.att.get(&x).map_or(true, |k| k.iter().all(|c| !self.doomed(*c)))
            && !h.iter().any(|e| e.k == "cstop" && e.a == x && self.att.get(&x).map_or(false, |a| a.contains(&e.b)))
            // an attached child of the same parent replaces the entry of a spawned one
            && !self.kids.get(&x).map_or(false, |k| self.att.get(&x).map_or(false, |a| a.intersection(k).next().is_some()))
    }
    fn subtree_idle(&self, x: i64) -> bool {
        self.settled(x) && self.kids.get(&x).iter().chain(self.att.get(&x).iter()).all(|k| k.iter().all(|c| self.subtree_idle(*c)))
    }
    /// busy with one message for the whole time from before the request until after the answer
    fn stuck(&self, x: i64) -> bool {
        self.before(self.i0).iter().any(|b| b.k == "busyB" && b.a == x && !self.h[..self.i1].iter().any(|e| e.k == "busyE" && e.b == b.b))
    }
    fn gone(&self, x: i64) -> bool {
        self.before(self.i0).iter().any(|e| e.k == "drop" && e.a == x)
    }

    fn check(&self, d: &ActorDescription, depth: usize, o: &DescribeOptions, parent_path: Option<&str>) {
        let Some(x) = num(&d.actor_id) else { return };
        count("descriptions");
        if self.gone(x) {
            fail("C28", format!("described a dead actor: {x} had ended before it was asked"));
        }
        if d.actor_type_name != La::type_name() {
            fail("C28", format!("wrong type: actor {x} is described as {}", d.actor_type_name));
        }
        let want = match x % 3 {
            0 => ActorTags::None,
            1 => ActorTags::Tag(format!("t{x}").into()),
            _ => ActorTags::Tags(vec![format!("t{x}").into(), "x".into()]),
        };
        if d.tags != want {
            fail("C28", format!("wrong tags: actor {x} is described with {:?}", d.tags));
        }
        let path: &str = &d.path;
        let good = path.ends_with(&format!("/a{x}"))
            && match self.parent.get(&x) {
                Some(p) => path.ends_with(&format!("/a{p}/a{x}")),
                None => path == format!("/sim/a{x}") || path == format!("sim/a{x}"),
            };
        if !good {
            fail("C28", format!("wrong path: actor {x}, child of {:?}, is described at {path} under {parent_path:?}", self.parent.get(&x)));
        }
        let none = vec![];
        let kids = d.supervised.as_ref().map_or(&none, |s| &s.actors);
        if o.max_depth.map_or(false, |m| depth >= m.max(1)) && depth >= 1 && !kids.is_empty() {
            fail("C28", format!("too deep: children of actor {x} are described at level {} although the limit is {:?}", depth + 1, o.max_depth));
        }
        if o.max_children.map_or(false, |m| kids.len() > m) {
            fail("C28", format!("too many: {} children of actor {x} are described although the limit is {:?}", kids.len(), o.max_children));
        }
        let mut seen = BTreeSet::new();
        for k in kids {
            let id = match k {
                DescribeResult::Ok(d) => &d.actor_id,
                DescribeResult::Err { actor_id, .. } | DescribeResult::Timeout { actor_id, .. } => actor_id,
            };
            let c = num(id).unwrap_or(-1);
            if !seen.insert(c) {
                fail("C28", format!("listed twice: child {c} of actor {x}"));
            }
            let mine = self.parent.get(&c) == Some(&x) || self.h[..self.i1].iter().any(|e| e.k == "attach" && e.a == x && e.b == c);
            if !mine {
                fail("C28", format!("not its child: {c} is listed under actor {x}"));
            }
            if !o.child_describe_attached && self.parent.get(&c) != Some(&x) {
                fail("C28", format!("attached child listed: {c} is listed under actor {x} although attached actors were not asked for"));
            }
            match k {
                DescribeResult::Ok(d) => {
                    self.check(d, depth + 1, o, Some(path));
                    if self.stuck(c) {
                        fail("C28", format!("stale: child {c} of actor {x} was busy all the time but is described"));
                    }
                }
                DescribeResult::Err { .. } => {
                    if !self.doomed(c) {
                        fail("C28", format!("live actor reported as failed: child {c} of actor {x}"));
                    }
                }
                DescribeResult::Timeout { .. } => {
                    count("described_as_timed_out");
                    if self.subtree_idle(c) {
                        fail("C28", format!("idle actor reported as unresponsive: child {c} of actor {x}"));
                    }
                }
            }
        }
        if self.settled(x) && !o.max_depth.map_or(false, |m| depth >= m) {
            let mut all: BTreeSet<i64> = self.kids.get(&x).cloned().unwrap_or_default();
            if o.child_describe_attached {
                all.extend(self.att.get(&x).cloned().unwrap_or_default());
            }
            count("complete_child_lists");
            let full = o.max_children.map_or(true, |m| m >= all.len());
            if full && seen != all || !full && seen.len() != o.max_children.unwrap() {
                fail("C28", format!("incomplete: actor {x} has children {all:?} but {seen:?} are described (limits {:?} {:?})", o.max_depth, o.max_children));
            }
        }
    }
}

async fn all(o: &Op, sys: &ActorSystem) {
    let op = options(o.b);
    let (tx, rx) = oneshot::channel();
    let i0 = ev("all", o.id as i64, 0, 0);
    let _ = sys.scheduler().notify(DescribeAll { options: Arc::new(options(o.b)), sender: tx });
    let r = within(60_000, rx).await;
    let i1 = ev("allE", o.id as i64, 0, 0);
    let v = View::new(i0, i1);
    let Some(Ok(list)) = r else {
        return fail("C28", "no answer: a description of the whole system never arrives");
    };
    let took = now_ms() - v.t0;
    if took > 11_000 {
        fail("C28", format!("late answer: a description of the whole system took {took} virtual ms"));
    }
    let mut seen = BTreeSet::new();
    let mut scheduler = 0;
    for x in &list {
        let id = match x {
            DescribeResult::Ok(d) => &d.actor_id,
            DescribeResult::Err { actor_id, .. } | DescribeResult::Timeout { actor_id, .. } => actor_id,
        };
        let Some(n) = num(id) else {
            if let DescribeResult::Ok(d) = x {
                scheduler += (d.actor_type_name == ActorScheduler::type_name()) as i64;
            }
            continue;
        };
        if !seen.insert(n) {
            fail("C28", format!("listed twice: actor {n}"));
        }
        if !v.h[..i1].iter().any(|e| e.k == "root" && e.a == n && e.b == 1) {
            fail("C28", format!("not a tracked actor: {n} is listed"));
        }
        // a panicking actor is not de-registered, so only actors ended by a stop alone are judged
        if v.before(i0).iter().any(|e| e.k == "stopped" && e.a == n) && !v.before(i0).iter().any(|e| e.k == "cause" && e.a == n && e.b == 1) {
            fail("C28", format!("listed after its end: actor {n} had been stopped before"));
        }
        match x {
            DescribeResult::Ok(d) => {
                v.check(d, 1, &op, None);
                if v.stuck(n) {
                    fail("C28", format!("stale: actor {n} was busy all the time but is described"));
                }
            }
            DescribeResult::Err { .. } => {
                if !v.doomed(n) {
                    fail("C28", format!("live actor reported as failed: {n}"));
                }
            }
            DescribeResult::Timeout { .. } => {
                count("described_as_timed_out");
                if v.settled(n) {
                    fail("C28", format!("idle actor reported as unresponsive: {n}"));
                }
            }
        }
    }
    if scheduler != 1 {
        fail("C28", format!("the scheduler itself is listed {scheduler} times"));
    }
    for e in v.before(i0).iter().filter(|e| e.k == "rooted" && e.b == 1) {
        if !v.doomed(e.a) && !seen.contains(&e.a) {
            fail("C28", format!("missing: actor {} is not part of the description of the system", e.a));
        }
    }
}

async fn one(o: &Op, x: &Known) {
    let op = options(o.b);
    let (tx, rx) = oneshot::channel();
    let i0 = ev("one", o.id as i64, x.inst, 0);
    let sent = x.r.describe(Describe { options: Arc::new(options(o.b)), sender: Some(tx), current_depth: 0 });
    let r = within(90_000, rx).await;
    let i1 = ev("oneE", o.id as i64, x.inst, 0);
    let v = View::new(i0, i1);
    let took = now_ms() - v.t0;
    match r {
        None => fail("C28", format!("no answer: a description of actor {} never arrives", x.inst)),
        Some(Ok(d)) => {
            if sent.is_err() {
                fail("C28", format!("rejected but answered: actor {}", x.inst));
            }
            if num(&d.actor_id) != Some(x.inst) {
                fail("C28", format!("wrong actor: asked {} but {} is described", x.inst, d.actor_id));
            }
            v.check(&d, 0, &op, None);
            if v.idle(x.inst) && took > 11_000 || v.subtree_idle(x.inst) && took > 1_000 {
                fail("C28", format!("late answer: a description of idle actor {} took {took} virtual ms", x.inst));
            }
        }
        Some(Err(_)) => {
            if !v.doomed(x.inst) {
                fail("C28", format!("live actor not described: {}", x.inst));
            }
        }
    }
    let _ = x.tracked;
}

pub async fn run(plan: Arc<Plan>) {
    let sys = ActorSystem::builder().system_name("sim").build();
    let w = Arc::new(W::default());
    let mut hs = vec![];
    for lane in plan.lanes() {
        let (w, sys) = (w.clone(), sys.clone());
        hs.push(tokio::spawn(async move {
            for o in lane {
                sleep_ms(o.gap).await;
                exec(&o, &w, &sys).await;
            }
        }));
    }
    for h in hs {
        if within(500_000, h).await.map_or(true, |x| x.is_err()) {
            fail("C28", "stuck: a lane did not finish");
        }
    }
}
