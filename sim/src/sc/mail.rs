//! Mailbox, request/reply and lifecycle of actors on one node.
use crate::core::*;
use crate::hist::{self, ev, Ev};
use async_trait::async_trait;
use coerce::actor::context::{attach_stream, ActorContext, ActorStatus};
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorRef, ActorRefErr, LocalActorRef, PipeTo, Receiver};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub struct Ma {
    inst: i64,
    n: u64,
    start: i64,
    start_k: u64,
    stop: i64,
    stop_k: u64,
    peers: Arc<Peers>,
}

pub struct Peers {
    refs: std::sync::Mutex<HashMap<i64, LocalActorRef<Ma>>>,
    next: AtomicU64,
}
impl Peers {
    fn get(&self, i: i64) -> Option<LocalActorRef<Ma>> {
        self.refs.lock().unwrap().get(&i).cloned()
    }
    /// ids of messages created while the run proceeds
    fn fresh(&self) -> i64 {
        self.next.fetch_add(1, Ordering::Relaxed) as i64
    }
}

impl Drop for Ma {
    fn drop(&mut self) {
        ev("drop", self.inst, 0, 0);
    }
}

#[async_trait]
impl Actor for Ma {
    async fn started(&mut self, ctx: &mut ActorContext) {
        ev("startB", self.inst, 0, 0);
        match self.start {
            1 => yields(self.start_k).await,
            2 => sleep_ms(self.start_k).await,
            3 => {
                ev("selfstop", self.inst, 0, 0);
                ctx.stop(None)
            }
            4 => {
                yields(self.start_k).await;
                ev("panic", self.inst, 0, 0);
                panic!("planned-panic start")
            }
            _ => {}
        }
        ev("startE", self.inst, 0, 0);
    }
    async fn stopped(&mut self, ctx: &mut ActorContext) {
        ev("stopB", self.inst, 0, 0);
        if *ctx.get_status() != ActorStatus::Stopping {
            fail("C03", format!("wrong status in stopped hook: {:?}", ctx.get_status()));
        }
        match self.stop {
            1 => yields(self.stop_k).await,
            2 => sleep_ms(self.stop_k).await,
            4 => {
                ev("panic", self.inst, 0, 0);
                panic!("planned-panic stop")
            }
            _ => {}
        }
        ev("stopE", self.inst, 0, 0);
    }
}

#[derive(Clone, Debug)]
pub struct Rep {
    id: i64,
    inst: i64,
    n: u64,
}

#[derive(Clone)]
pub struct Msg {
    id: i64,
    act: i64,
    k: i64,
}
impl Message for Msg {
    type Result = Rep;
}

#[async_trait]
impl Handler<Msg> for Ma {
    async fn handle(&mut self, m: Msg, ctx: &mut ActorContext) -> Rep {
        ev("hB", self.inst, m.id, 0);
        self.n += 1;
        let n = self.n;
        match m.act {
            1 => yields(m.k as u64).await,
            2 => sleep_ms(m.k as u64).await,
            3 => {
                yields(m.k as u64 % 2).await;
                ev("panic", self.inst, m.id, 0);
                panic!("planned-panic handler")
            }
            4 => {
                ev("selfstop", self.inst, m.id, 0);
                ctx.stop(None)
            }
            5 => {
                // forward to a peer, in order
                for _ in 0..2 {
                    if let Some(p) = self.peers.get(m.k) {
                        let id = self.peers.fresh();
                        ev("call", id, m.k, 1000 + self.inst);
                        let r = p.notify(Msg { id, act: 0, k: 0 });
                        ev("acc", id, m.k, r.is_ok() as i64);
                        yields(1).await;
                    }
                }
            }
            _ => {}
        }
        if n != self.n {
            fail("C01", format!("overlapping handlers: state of actor {} changed while handling message {}", self.inst, m.id));
        }
        ev("hE", self.inst, m.id, n as i64);
        Rep { id: m.id, inst: self.inst, n }
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("mail", seed, r);
    p.set("prop", super::prop_index(prop));
    let actors = r.range(1, 3);
    p.set("actors", actors);
    let life = prop == "C03";
    for i in 0..actors {
        p.set(&format!("mode{i}"), r.below(5) as i64);
        let bad_start = if life { r.chance(1, 6) } else { r.chance(1, 25) };
        p.set(&format!("start{i}"), if bad_start { *r.pick(&[3, 4]) } else { *r.pick(&[0, 1, 2]) });
        p.set(&format!("startk{i}"), r.range(1, 6));
        p.set(&format!("stop{i}"), if life && r.chance(1, 10) { 4 } else { *r.pick(&[0, 0, 1, 2]) });
        p.set(&format!("stopk{i}"), r.range(1, 30));
    }
    let lanes = r.range(1, if thorough { 6 } else { 4 }) as u32;
    let total = r.range(4, if thorough { 70 } else { 36 });
    let stop_w = if life { 6 } else { *r.pick(&[0u64, 1, 3]) };
    let panic_w = *r.pick(&[0u64, 0, 1, 2]);
    let blk = if r.chance(1, 3) { 2 } else { 0 };
    for _ in 0..total {
        let l = r.below(lanes as u64) as u32;
        let k = r.weighted(&[
            (8, "send"), (6, "asend"), (12, "notify"), (2, "rsend"), (2, "rnotify"), (2, "lsend"), (2, "lnotify"),
            (2, "exec"), (2, "nexec"), (2, "sched"), (2, "pipe"), (2, "status"), (1, "burst"), (2, "deliver"),
            (blk * 3, "bsend"), (blk, "bexec"), (if blk > 0 { stop_w / 3 } else { 0 }, "bstop"),
            (stop_w, "stop"), (stop_w / 2, "nstop"), (stop_w / 3, "stream"),
        ]);
        let a = r.below(actors as u64) as i64;
        let act = r.weighted(&[(8, 0i64), (5, 1), (4, 2), (panic_w, 3), (stop_w / 3, 4), (2, 5)]);
        let c = match act {
            1 => r.range(1, 4),
            2 => r.range(1, 40),
            5 => r.below(actors as u64) as i64,
            _ => r.range(0, 3),
        };
        let gap = if r.chance(1, 4) { r.below(50) } else { 0 };
        p.op(l, k, a, act, c, gap);
    }
    pace(&mut p, r);
    p
}

fn res(r: &Result<Rep, ActorRefErr>) -> i64 {
    match r {
        Ok(_) => 1,
        Err(ActorRefErr::InvalidRef) => -1,
        Err(ActorRefErr::ResultChannelClosed) => -2,
        Err(_) => -9,
    }
}

/// records the outcome of a request
fn ret(id: i64, target: i64, r: &Result<Rep, ActorRefErr>) {
    ev("ret", id, target, res(r));
    if let Ok(rep) = r {
        if rep.id != id || rep.inst != target {
            fail("C02", format!("wrong reply: request {id} to actor {target} answered with the reply of request {} by actor {}", rep.id, rep.inst));
        }
        hist::with(|h| {
            if !h.iter().any(|e| e.k == "hE" && e.a == target && e.b == id && e.c == rep.n as i64) {
                fail("C02", format!("reply before completion: request {id} answered with n={} which its handler never returned", rep.n));
            }
        });
    }
}

async fn exec_op(o: &Op, peers: &Arc<Peers>, sys: &ActorSystem) {
    let Some(r) = peers.get(o.a) else { return };
    let id = o.id as i64;
    let m = Msg { id, act: o.b, k: o.c };
    let lane = o.l as i64;
    match o.k.as_str() {
        "send" => {
            ev("call", id, o.a, lane);
            let x = r.send(m).await;
            ret(id, o.a, &x);
        }
        // from a thread outside the runtime; one such thread at a time
        "bsend" => {
            ev("call", id, o.a, lane);
            let x = if tokio::sim::blocking() { r.send(m).await } else { count("blocking_calls"); r.send_blocking(m) };
            ret(id, o.a, &x);
        }
        "asend" => {
            ev("call", id, o.a, -1);
            let a = o.a;
            tokio::spawn(async move {
                let x = r.send(m).await;
                ret(id, a, &x);
            });
        }
        "deliver" => {
            let (tx, rx) = tokio::sync::oneshot::channel();
            ev("call", id, o.a, lane);
            let x = r.deliver(m, tx);
            ev("acc", id, o.a, x.is_ok() as i64);
            if x.is_ok() {
                let y = rx.await.map_err(|_| ActorRefErr::ResultChannelClosed);
                ret(id, o.a, &y);
            }
        }
        "rsend" => {
            let rc = Receiver::<Msg>::from(r);
            ev("call", id, o.a, lane);
            let x = rc.send(m).await;
            ret(id, o.a, &x);
        }
        "lsend" => {
            let rc = ActorRef::from(r);
            ev("call", id, o.a, lane);
            let x = rc.send(m).await;
            ret(id, o.a, &x);
        }
        "notify" => {
            ev("call", id, o.a, lane);
            let x = r.notify(m);
            ev("acc", id, o.a, x.is_ok() as i64);
        }
        "rnotify" => {
            let rc = Receiver::<Msg>::from(r).clone();
            ev("call", id, o.a, lane);
            let x = rc.notify(m);
            ev("acc", id, o.a, x.is_ok() as i64);
        }
        "lnotify" => {
            let rc = ActorRef::from(r);
            ev("call", id, o.a, lane);
            let x = rc.notify(m).await;
            ev("acc", id, o.a, x.is_ok() as i64);
        }
        "burst" => {
            for _ in 0..4 {
                let id = peers.fresh();
                ev("call", id, o.a, lane);
                let x = r.notify(Msg { id, act: 1, k: 1 });
                ev("acc", id, o.a, x.is_ok() as i64);
            }
        }
        "exec" | "bexec" => {
            ev("call", id, o.a, lane);
            let f = move |a: &mut Ma| {
                ev("hB", a.inst, id, 0);
                a.n += 1;
                ev("hE", a.inst, id, a.n as i64);
                Rep { id, inst: a.inst, n: a.n }
            };
            let x = if o.k == "exec" || tokio::sim::blocking() { r.exec(f).await } else { r.exec_blocking(f) };
            ret(id, o.a, &x);
        }
        "nexec" => {
            ev("call", id, o.a, lane);
            let x = r.notify_exec(move |a: &mut Ma| {
                ev("hB", a.inst, id, 0);
                a.n += 1;
                ev("hE", a.inst, id, a.n as i64);
            });
            ev("acc", id, o.a, x.is_ok() as i64);
        }
        "sched" => {
            ev("call", id, o.a, -1);
            let h = r.scheduled_notify(m, Duration::from_millis(o.c as u64));
            ev("late", id, o.a, 0);
            drop(h);
        }
        "pipe" => {
            ev("call", id, o.a, -1);
            ev("late", id, o.a, 0);
            let k = o.c as u64;
            PipeOut(m, k).go().pipe_to(ActorRef::from(r));
        }
        "stream" => {
            let items: Vec<Result<i64, ()>> = (0..3).map(|_| Ok(peers.fresh())).collect();
            for i in &items {
                ev("call", i.unwrap(), o.a, -1);
                ev("late", i.unwrap(), o.a, 0);
            }
            ev("stopcall", o.a, id, 0);
            attach_stream(r, futures::stream::iter(items), Default::default(), |i: i64| Some(Msg { id: i, act: 0, k: 0 }));
        }
        "status" => {
            let before = hist::len();
            let x = r.status().await;
            match x {
                Ok(s) => {
                    if s != ActorStatus::Started {
                        fail("C03", format!("status: running actor {} reports {s:?}", o.a));
                    }
                    hist::with(|h| {
                        if !h.iter().any(|e| e.k == "startE" && e.a == o.a) {
                            fail("C03", format!("status before start: actor {} answered before its start hook finished", o.a));
                        }
                        if h[..before].iter().any(|e| e.k == "stopB" && e.a == o.a) {
                            fail("C03", format!("status after stop: actor {} answered a request issued after it stopped", o.a));
                        }
                    });
                }
                Err(_) => dead_or_fail(o.a, "C02", "status request failed on a live actor"),
            }
        }
        "stop" => stop_op(o.a, id, r, false).await,
        "bstop" => stop_op(o.a, id, r, true).await,
        "nstop" => {
            ev("stopcall", o.a, id, 0);
            let x = r.notify_stop();
            if x.is_err() {
                dead_or_fail(o.a, "C03", "stop rejected by a live actor");
            }
        }
        _ => {}
    }
    let _ = sys;
}

async fn stop_op(a: i64, id: i64, r: LocalActorRef<Ma>, blocking: bool) {
    ev("stopcall", a, id, 0);
    let x = if blocking && !tokio::sim::blocking() { r.stop_blocking() } else { r.stop().await };
    ev("stopret", a, id, x.is_ok() as i64);
    hist::with(|h| {
        let end = h.iter().any(|e| (e.k == "stopE" || e.k == "panic") && e.a == a);
        if !end {
            fail("C03", format!("stop returned early: stop of actor {a} returned {x:?} before the stopped hook finished"));
        }
        if x.is_ok() && !h.iter().any(|e| e.k == "stopE" && e.a == a) {
            fail("C03", format!("stop ok without hook: stop of actor {a} reported success although the stopped hook never completed"));
        }
    });
}

struct PipeOut(Msg, u64);
impl PipeOut {
    async fn go(self) -> Msg {
        sleep_ms(self.1).await;
        self.0
    }
}

fn dead_or_fail(a: i64, prop: &str, what: &str) {
    hist::with(|h| {
        if !h.iter().any(|e| (e.k == "stopB" || e.k == "panic" || e.k == "drop") && e.a == a) {
            fail(prop, format!("{what}: actor {a}"));
        }
    })
}

pub async fn run(plan: Arc<Plan>) {
    let sys = ActorSystem::builder().system_name("sim").build();
    let n = plan.get("actors");
    let peers = Arc::new(Peers { refs: Default::default(), next: AtomicU64::new(1000) });
    let mut creators = vec![];
    for i in 0..n {
        let a = Ma {
            inst: i,
            n: 0,
            start: plan.get(&format!("start{i}")),
            start_k: plan.get(&format!("startk{i}")) as u64,
            stop: plan.get(&format!("stop{i}")),
            stop_k: plan.get(&format!("stopk{i}")) as u64,
            peers: peers.clone(),
        };
        let mode = plan.get(&format!("mode{i}"));
        let ty = if mode % 2 == 0 { ActorType::Tracked } else { ActorType::Anonymous };
        let sys = sys.clone();
        let peers = peers.clone();
        creators.push(tokio::spawn(async move {
            let bad = a.start == 3 || a.start == 4;
            let id = format!("a{i}");
            if mode < 2 || mode == 4 {
                let r = if mode < 2 || tokio::sim::blocking() { sys.new_actor(id, a, ty).await } else { sys.new_actor_blocking(id, a, ty) };
                match r {
                    Ok(r) => {
                        if !hist::has("startE", i) {
                            fail("C03", format!("creation returned early: actor {i} reported as started before its start hook finished"));
                        }
                        if bad {
                            fail("C03", format!("failed start reported as success: actor {i}"));
                        }
                        peers.refs.lock().unwrap().insert(i, r);
                    }
                    Err(e) => {
                        if !bad || e != ActorRefErr::ActorStartFailed {
                            fail("C03", format!("creation failed: actor {i} {e:?}"));
                        }
                    }
                }
            } else {
                let r = sys.new_actor_deferred(id, a, ty).await;
                peers.refs.lock().unwrap().insert(i, r);
            }
        }));
    }
    let waits = plan.get("early") == 0;
    if waits {
        for c in creators {
            let _ = c.await;
        }
    }
    let mut hs = vec![];
    for lane in plan.lanes() {
        let peers = peers.clone();
        let sys = sys.clone();
        hs.push(tokio::spawn(async move {
            for o in lane {
                sleep_ms(o.gap).await;
                exec_op(&o, &peers, &sys).await;
            }
        }));
    }
    for (i, h) in hs.into_iter().enumerate() {
        match within(60_000, h).await {
            Some(Ok(())) => {}
            Some(Err(_)) => fail("C02", format!("request panicked: lane {i}")),
            None => fail("C02", format!("request never resolves: lane {i} still waiting after 60 virtual seconds")),
        }
    }
    sleep_ms(20_000).await;
    let h1 = hist::snapshot();
    // epilogue: stop whatever is still running
    for i in 0..n {
        if let Some(r) = peers.get(i) {
            if within(20_000, stop_op(i, 900 + i, r.clone(), false)).await.is_none() {
                fail("C03", format!("stop never returns: actor {i}"));
            }
            sleep_ms(1000).await;
            if r.is_valid() {
                fail("C03", format!("ref valid after stop: actor {i}"));
            }
            if r.notify(Msg { id: -1, act: 0, k: 0 }).is_ok() {
                fail("C03", format!("message accepted after stop: actor {i}"));
            }
            if within(1000, r.send(Msg { id: -1, act: 0, k: 0 })).await.map_or(true, |x| x.is_ok()) {
                fail("C02", format!("request to a stopped actor not refused: actor {i}"));
            }
        }
    }
    sleep_ms(1000).await;
    let h2 = hist::snapshot();
    oracle(n, &h1, &h2);
}

struct MsgRec {
    target: i64,
    call: usize,
    src: i64,
    acc: Option<(usize, bool)>,
    late: bool,
    ret: Option<(usize, i64)>,
    hb: Option<usize>,
    he: Option<usize>,
}

fn oracle(n: i64, h1: &[Ev], h: &[Ev]) {
    let mut ms: BTreeMap<i64, MsgRec> = BTreeMap::new();
    for (i, e) in h1.iter().enumerate() {
        match e.k {
            "call" => {
                ms.insert(e.a, MsgRec { target: e.b, call: i, src: e.c, acc: None, late: false, ret: None, hb: None, he: None });
            }
            "acc" => ms.get_mut(&e.a).unwrap().acc = Some((i, e.c == 1)),
            "late" => ms.get_mut(&e.a).unwrap().late = true,
            "ret" => ms.get_mut(&e.a).unwrap().ret = Some((i, e.c)),
            "hB" => {
                match ms.get_mut(&e.b) {
                    None => fail("C01", format!("invented message: actor {} handled unknown message {}", e.a, e.b)),
                    Some(m) => {
                        if m.hb.is_some() {
                            fail("C01", format!("handled twice: message {} by actor {}", e.b, e.a));
                        }
                        if m.target != e.a {
                            fail("C01", format!("misdelivered: message {} for actor {} handled by actor {}", e.b, m.target, e.a));
                        }
                        m.hb = Some(i);
                    }
                }
                count("handled");
            }
            "hE" => {
                if let Some(m) = ms.get_mut(&e.b) {
                    m.he = Some(i);
                }
            }
            _ => {}
        }
    }
    for a in 0..n {
        // per-actor sequence of events
        let seq: Vec<(usize, &Ev)> = h.iter().enumerate().filter(|(_, e)| e.a == a && matches!(e.k, "startB" | "startE" | "hB" | "hE" | "stopB" | "stopE" | "panic" | "drop")).collect();
        if seq.is_empty() {
            continue;
        }
        let mut st = "new";
        let mut cur = -1;
        for (_, e) in &seq {
            let ok = match (st, e.k) {
                ("new", "startB") => { st = "starting"; true }
                ("starting", "startE") => { st = "idle"; true }
                ("starting", "panic") => { st = "dead"; true }
                ("idle", "hB") => { st = "busy"; cur = e.b; true }
                ("busy", "hE") => { st = "idle"; e.b == cur }
                ("busy", "panic") => { st = "dead"; true }
                ("idle", "stopB") => { st = "stopping"; true }
                ("stopping", "panic") => { st = "dead"; true }
                ("stopping", "stopE") => { st = "stopped"; true }
                ("stopped", "drop") | ("dead", "drop") => { st = "gone"; true }
                _ => false,
            };
            if !ok {
                let p = match (st, e.k) {
                    ("busy", "hB") => "C01",
                    _ => "C03",
                };
                fail(p, format!("bad lifecycle: actor {a} in state {st} observed {} (message {})", e.k, e.b));
                break;
            }
        }
        if st != "gone" {
            fail("C03", format!("never finished: actor {a} ended in state {st} although it was asked to stop"));
        }
        count(&format!("end.{}", if h.iter().any(|e| e.k == "panic" && e.a == a) { "panic" } else { "stop" }));
        let dead_at = h1.iter().position(|e| e.a == a && matches!(e.k, "stopB" | "panic"));
        let self_end = h1.iter().any(|e| e.a == a && matches!(e.k, "selfstop" | "panic"));
        let first_stop = h1.iter().position(|e| e.a == a && e.k == "stopcall");
        let mine: Vec<(&i64, &MsgRec)> = ms.iter().filter(|(_, m)| m.target == a).collect();
        for (id, m) in &mine {
            let accepted = match m.acc {
                Some((_, ok)) => ok,
                None => true,
            };
            if !accepted {
                if m.hb.is_some() {
                    fail("C01", format!("rejected but handled: message {id}"));
                }
                if dead_at.map_or(true, |d| d > m.acc.unwrap().0) {
                    fail("C01", format!("rejected by a live actor: message {id} actor {a}"));
                }
            }
            if m.hb.is_none() && accepted && !m.late {
                if dead_at.is_none() && m.acc.is_some() {
                    fail("C01", format!("lost: message {id} accepted by actor {a}, which never stopped, was never handled"));
                }
                if let (Some((acc, _)), Some(fs), false) = (m.acc, first_stop, self_end) {
                    if acc < fs {
                        fail("C01", format!("lost before stop: message {id} accepted by actor {a} before anyone asked it to stop was never handled"));
                    }
                }
            }
            if m.late && m.hb.is_none() && dead_at.is_none() {
                fail("C01", format!("lost: deferred message {id} to actor {a} was never handled"));
            }
            if let Some((ri, code)) = m.ret {
                if code < 0 {
                    if m.he.is_some() {
                        fail("C02", format!("completed but reported failed: request {id} to actor {a} code {code}"));
                    }
                    if dead_at.map_or(true, |d| d > ri) {
                        fail("C02", format!("failed on a live actor: request {id} to actor {a} code {code}"));
                    }
                } else if m.he.map_or(true, |x| x > ri) {
                    fail("C02", format!("reply before completion: request {id} to actor {a}"));
                }
            }
        }
        // ordering: acceptance order (as observable) is handling order, no gaps
        for (i1, m1) in &mine {
            let Some((hi1, true)) = m1.acc.or(m1.ret.map(|r| (r.0, r.1 == 1))) else { continue };
            for (i2, m2) in &mine {
                if m2.call > hi1 || (m1.src >= 0 && m1.src == m2.src && m1.call < m2.call && !m2.late && m1.acc.is_some()) {
                    if let Some(b2) = m2.hb {
                        match m1.hb {
                            None => fail("C01", format!("skipped: message {i2} handled by actor {a} but message {i1}, accepted earlier, was not")),
                            Some(b1) if b1 > b2 => fail("C01", format!("reordered: message {i2} handled by actor {a} before message {i1}, which was accepted earlier")),
                            _ => {}
                        }
                    }
                }
            }
        }
    }
    // requests without any outcome
    for (id, m) in &ms {
        if m.acc.is_none() && !m.late && m.ret.is_none() {
            fail("C02", format!("request never resolves: {id} to actor {}", m.target));
        }
    }
    count_n("requests", ms.values().filter(|m| m.ret.is_some()).count() as u64);
    count_n("requests_failed", ms.values().filter(|m| m.ret.map_or(false, |r| r.1 < 0)).count() as u64);
}
