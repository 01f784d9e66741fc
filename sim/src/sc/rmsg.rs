//! Messages between nodes.
use crate::cluster::*;
use crate::core::*;
use crate::hist::{self, ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, ActorRef, ActorRefErr, IntoActorId};
use coerce::remote::system::builder::RemoteActorSystemBuilder;
use coerce::remote::system::RemoteActorSystem;
use coerce::remote::RemoteActorRef;
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct Ra {
    slot: i64,
    no: i64,
    gen: i64,
}
#[async_trait]
impl Actor for Ra {}

macro_rules! wire {
    ($t:ident) => {
        #[derive(Clone)]
        struct $t {
            op: i64,
            act: i64,
            k: i64,
            pad: usize,
        }
        impl Message for $t {
            type Result = Ans;
            fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
                let mut v = vec![];
                for x in [self.op, self.act, self.k] {
                    v.extend_from_slice(&x.to_le_bytes());
                }
                for i in 0..self.pad {
                    v.push((self.op as u8).wrapping_mul(31).wrapping_add(i as u8));
                }
                Ok(v)
            }
            fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
                if b.len() < 24 {
                    return Err(MessageUnwrapErr::DeserializationErr);
                }
                let g = |i: usize| i64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
                let m = $t { op: g(0), act: g(1), k: g(2), pad: b.len() - 24 };
                if m.as_bytes().ok().as_ref() != Some(&b) {
                    fail("C15", format!("corrupted: payload of message {} differs from what was sent", m.op));
                }
                if m.act == 5 {
                    return Err(MessageUnwrapErr::DeserializationErr);
                }
                Ok(m)
            }
            fn read_remote_result(b: Vec<u8>) -> Result<Ans, MessageUnwrapErr> {
                if b.len() < 32 {
                    return Err(MessageUnwrapErr::DeserializationErr);
                }
                let g = |i: usize| i64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
                Ok(Ans { op: g(0), slot: g(1), no: g(2), kind: g(3), pad: b.len() - 32, bad: false })
            }
            fn write_remote_result(a: Ans) -> Result<Vec<u8>, MessageWrapErr> {
                if a.bad {
                    return Err(MessageWrapErr::SerializationErr);
                }
                let mut v = vec![];
                for x in [a.op, a.slot, a.no, a.kind] {
                    v.extend_from_slice(&x.to_le_bytes());
                }
                v.extend(std::iter::repeat(7u8).take(a.pad));
                Ok(v)
            }
        }
    };
}
#[derive(Debug)]
struct Ans {
    op: i64,
    slot: i64,
    no: i64,
    kind: i64,
    pad: usize,
    bad: bool,
}
wire!(Ask);
wire!(Tell);
// only some nodes know how to handle this one
wire!(Rare);
// no node registered a handler for this one
wire!(Never);

async fn work(a: &mut Ra, kind: i64, op: i64, act: i64, k: i64, pad: usize) -> Ans {
    ev("hB", op, a.slot, a.no * 10 + kind);
    ev("gen", op, a.gen, 0);
    match act {
        1 => yields(k as u64).await,
        2 => sleep_ms(k as u64).await,
        3 => panic!("planned-panic"),
        _ => {}
    }
    ev("hE", op, a.slot, a.no * 10 + kind);
    Ans { op, slot: a.slot, no: a.no, kind, pad: if act == 4 { pad } else { 0 }, bad: act == 6 }
}
macro_rules! h {
    ($t:ident, $k:expr) => {
        #[async_trait]
        impl Handler<$t> for Ra {
            async fn handle(&mut self, m: $t, _c: &mut ActorContext) -> Ans {
                work(self, $k, m.op, m.act, m.k, m.pad).await
            }
        }
    };
}
h!(Ask, 1);
h!(Tell, 2);
h!(Rare, 3);
h!(Never, 4);

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("rmsg", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    let n = r.range(2, 3);
    p.set("n", n);
    p.set("actors", r.range(1, 3));
    p.net.max = *r.pick(&[0, 1, 5, 20, 100]);
    if r.chance(1, 3) {
        p.net.spike_permille = 30;
        p.net.spike = 2000;
    }
    if r.chance(1, 3) {
        p.net.short = 200;
    }
    if r.chance(1, 4) {
        p.net.buf = *r.pick(&[128, 1024, 16384]);
    }
    let big = r.chance(1, 4);
    // (a small window on a slow network makes large messages legitimately slow)
    let max_big = (p.net.buf as i64 * 10).min(60_000);
    p.set("big", if big { r.range(100, max_big) } else { 0 });
    let lanes = r.range(1, 5);
    let window: u64 = *r.pick(&[200, 3_000, 15_000]);
    let nops = r.range(4, if thorough { 60 } else { 30 });
    for _ in 0..nops {
        let lane = r.below(lanes as u64) as u32;
        let k = r.weighted(&[(6, "send"), (6, "asend"), (4, "tell"), (1, "rare"), (1, "never"), (1, "missing"), (2, "renew")]);
        // a: from*10+to, b: actor, c: act*1000000 + k
        let from = r.range(1, n);
        let mut to = r.range(1, n);
        if to == from && !r.chance(1, 8) {
            to = from % n + 1;
        }
        let act = r.weighted(&[(8, 0i64), (3, 1), (4, 2), (1, 3), (3, 4), (1, 5), (1, 6)]);
        let kk = match act {
            1 => r.range(1, 5),
            2 => r.range(1, 3000),
            _ => 0,
        };
        p.op(lane, k, from * 10 + to, r.range(0, p.get("actors") - 1), act * 1_000_000 + kk, r.below(window * 2 / nops as u64 + 1));
    }
    if r.chance(3, 5) {
        let mix = FaultMix { resets: 4, cuts: 3, stalls: 2, crashes: if r.chance(1, 2) { 2 } else { 0 }, max_cut: 12_000, max_stall: 6000 };
        let c = r.range(1, 5);
        gen_faults(&mut p, r, n, window, &mix, c);
        if r.chance(1, 4) {
            p.net.connect_fail = 200;
        }
    }
    // connections that break again and again while traffic is waiting for them
    if r.chance(1, 5) {
        gen_flaps(&mut p, r, n);
        for o in p.ops.iter_mut() {
            o.gap *= 2;
            if o.k == "send" && r.chance(1, 2) {
                o.k = "tell".into();
            }
        }
    }
    // a node that does not come back
    if r.chance(1, 6) {
        p.fault(r.below(window), "kill", r.range(1, n), r.range(0, 1), 0);
    }
    p.faults.sort_by_key(|f| f.at);
    p
}

fn configure(slot: u32) -> impl FnOnce(RemoteActorSystemBuilder) -> RemoteActorSystemBuilder + Send {
    move |b| {
        b.with_handlers(move |h| {
            h.with_handler::<Ra, Ask>("ask").with_handler::<Ra, Tell>("tell");
            // node 1 can send (needs the registration) but node 2.. can not handle it
            if slot == 1 {
                h.with_handler::<Ra, Rare>("rare");
            }
            h
        })
    }
}

async fn host(sys: RemoteActorSystem, slot: u32, actors: i64) {
    for no in (0..actors).chain([50]) {
        let id = format!("act-{no}").into_actor_id();
        if sys.actor_system().new_actor(id, Ra { slot: slot as i64, no, gen: 0 }, ActorType::Tracked).await.is_err() {
            fail("C15", "actor not created");
        }
    }
}

fn err_code(e: &ActorRefErr) -> i64 {
    match e {
        ActorRefErr::NotFound(_) => 1,
        ActorRefErr::NotSupported { .. } => 2,
        ActorRefErr::Serialisation(_) => 3,
        ActorRefErr::Deserialisation(_) => 4,
        ActorRefErr::ResultChannelClosed => 5,
        _ => 9,
    }
}

pub async fn run(plan: Arc<Plan>) {
    let n = plan.get("n") as u32;
    let actors = plan.get("actors");
    let cl = Cluster::new();
    for slot in 1..=n {
        let seed = if slot > 1 { Some(1) } else { None };
        if cl.start(NodeCfg::new(slot, seed), 60_000, configure(slot), move |s| host(s, slot, actors)).await.is_none() {
            return count("not_started");
        }
    }
    if !cl.wait_formed(30_000).await {
        note(&cl.describe().await);
        return count("not_formed");
    }
    count("formed");
    let calm = plan.faults.is_empty() && plan.net.connect_fail == 0;
    let mut hs = vec![];
    let mut results = vec![];
    for lane in plan.lanes() {
        let cl = cl.clone();
        let big = plan.get("big") as usize;
        let (tx, rx) = std::sync::mpsc::channel::<tokio::task::JoinHandle<()>>();
        results.push(rx);
        hs.push(tokio::spawn(async move {
            for o in lane {
                sleep_ms(o.gap).await;
                let (from, to) = ((o.a / 10) as u32, (o.a % 10) as u32);
                if o.k == "renew" {
                    renew(&cl, to, o.b, o.id as i64).await;
                    continue;
                }
                let Some(nd) = cl.node(from) else { continue };
                let id = o.id as i64;
                let no = if o.k == "missing" { 99 } else { o.b };
                let (act, k) = (o.c / 1_000_000, o.c % 1_000_000);
                let pad = if act == 4 || act == 0 { big } else { 0 };
                let kind = o.k.clone();
                ev("call", id, from as i64 * 10 + to as i64, if kind == "tell" { 1 } else { 0 });
                let h = spawn_on(nd.sim, async move {
                    let r = RemoteActorRef::<Ra>::new(format!("act-{no}").into_actor_id(), to as u64, nd.sys.clone());
                    let r = ActorRef::<Ra>::from(r);
                    let res = match kind.as_str() {
                        "tell" => match r.notify(Tell { op: id, act, k, pad }).await {
                            Ok(()) => {
                                ev("ret", id, 1, 0);
                                return;
                            }
                            Err(e) => Err(e),
                        },
                        "rare" => r.send(Rare { op: id, act, k, pad }).await,
                        "never" => r.send(Never { op: id, act, k, pad }).await,
                        _ => r.send(Ask { op: id, act, k, pad }).await,
                    };
                    match res {
                        Ok(a) => {
                            ev("ret", id, 1, 0);
                            let want = match kind.as_str() {
                                "rare" => 3,
                                "never" => 4,
                                _ => 1,
                            };
                            if a.op != id || a.slot != to as i64 || a.no != no || a.kind != want || a.pad != if act == 4 { pad } else { 0 } {
                                fail("C15", format!("wrong answer: message {id} for actor {no} on node {to} was answered with {a:?}"));
                            }
                        }
                        Err(e) => {
                            ev("ret", id, 0, err_code(&e));
                        }
                    }
                });
                if o.k == "asend" {
                    let _ = tx.send(h);
                } else {
                    // a crashed node's call never returns
                    let _ = within(20_000, h).await;
                }
            }
        }));
    }
    {
        let cl2 = cl.clone();
        let restart = move |slot: u32| {
            let cl = cl2.clone();
            async move {
                // rejoin through any other node
                let seed = cl.nodes().iter().map(|n| n.slot).find(|s| *s != slot);
                let _ = cl.start(NodeCfg::new(slot, seed), 50_000, configure(slot), move |s| host(s, slot, actors)).await;
            }
        };
        play_faults(&plan, &cl, restart).await;
    }
    for h in hs {
        let _ = h.await;
    }
    let quiet = now_ms();
    tokio::sim::net::set_config(|c| {
        c.connect_fail_permille = 0;
        c.spike_permille = 0;
    });
    // bounded progress once faults stop
    let slow: i64 = plan.ops.iter().filter(|o| o.c / 1_000_000 == 2).map(|o| o.c % 1_000_000).sum();
    let bound = slow as u64 + if calm { 10_000 } else { 120_000 };
    let mut crashed: Vec<i64> = plan.faults.iter().filter(|f| f.k == "crash" || f.k == "kill").map(|f| f.a).collect();
    crashed.dedup();
    let mut left: u64 = bound;
    while left > 0 {
        let open = hist::with(|h| h.iter().filter(|e| e.k == "call" && !crashed.contains(&(e.b / 10))).any(|c| {
            let end = if calm && c.c == 1 { "hE" } else { "ret" };
            !h.iter().any(|r| r.k == end && r.a == c.a)
        }));
        if !open {
            break;
        }
        sleep_ms(500).await;
        left = left.saturating_sub(500);
    }
    sleep_ms(2000).await;
    let _ = quiet;
    check(&plan, &crashed, calm);
    // new traffic flows again between all running nodes
    if plan.get("probe") == 0 {
        probe(&cl, n, calm).await;
    }
    // nothing is retained for finished requests
    sleep_ms(20_000).await;
    for nd in cl.nodes() {
        let k = nd.sys.inflight_remote_request_count();
        if k > 8 {
            note(&format!("node {} retains {k} requests", nd.slot));
        }
    }
}

/// replaces an actor by a new one of the same name on its node
async fn renew(cl: &Cluster, to: u32, no: i64, gen: i64) {
    let Some(nd) = cl.node(to) else { return };
    let key = to as i64 * 100 + no;
    let h = spawn_on(nd.sim, async move {
        let id = format!("act-{no}").into_actor_id();
        ev("renewB", key, gen, 0);
        if let Some(r) = nd.sys.actor_system().get_tracked_actor::<Ra>(id.clone()).await {
            let _ = r.stop().await;
        }
        if nd.sys.actor_system().new_actor(id, Ra { slot: to as i64, no, gen }, ActorType::Tracked).await.is_ok() {
            ev("renewE", key, gen, 0);
        }
    });
    let _ = within(20_000, h).await;
}

async fn probe(cl: &Cluster, n: u32, calm: bool) {
    let deadline = if calm { 5_000 } else { 90_000 };
    let mut hs = vec![];
    for from in 1..=n {
        for to in 1..=n {
            if from == to {
                continue;
            }
            let (Some(nd), Some(_)) = (cl.node(from), cl.node(to)) else { continue };
            let h = spawn_on(nd.sim, async move {
                let r = RemoteActorRef::<Ra>::new("act-50".into_actor_id(), to as u64, nd.sys.clone());
                let r = ActorRef::<Ra>::from(r);
                let t0 = now_ms();
                let mut last = String::new();
                while now_ms() < t0 + deadline {
                    match within(20_000, r.send(Ask { op: 1000, act: 0, k: 0, pad: 0 })).await {
                        Some(Ok(_)) => return,
                        Some(Err(e)) => last = format!("{e:?}"),
                        None => last = "no answer in 20 s".into(),
                    }
                    sleep_ms(500).await;
                }
                note(&format!("probe {from} -> {to}: {last}"));
                fail("C16", format!("no recovery: messages from node {from} to node {to} still fail {deadline} virtual ms after the last fault ({last})"));
            });
            hs.push(h);
        }
    }
    for h in hs {
        let _ = within(deadline + 30_000, h).await;
    }
}

fn check(plan: &Plan, crashed: &[i64], calm: bool) {
    let h = hist::snapshot();
    let ops: BTreeMap<i64, &Op> = plan.ops.iter().map(|o| (o.id as i64, o)).collect();
    let mut handled: BTreeMap<i64, usize> = BTreeMap::new();
    // when an actor ended (true) or was put in place again (false)
    let mut ends: BTreeMap<i64, Vec<(usize, bool)>> = BTreeMap::new();
    for (i, e) in h.iter().enumerate() {
        match e.k {
            "renewB" => ends.entry(e.a).or_default().push((i, true)),
            "renewE" => {
                count("actors_renewed");
                ends.entry(e.a).or_default().push((i, false))
            }
            "hB" if ops.get(&e.a).map_or(false, |o| o.c / 1_000_000 == 3) => ends.entry(e.b * 100 + e.c / 10).or_default().push((i, true)),
            _ => {}
        }
    }
    for (i, e) in h.iter().enumerate() {
        if e.k == "hB" && e.a < 1000 {
            count("remote_messages_handled");
            let Some(o) = ops.get(&e.a) else { continue };
            if handled.insert(e.a, i).is_some() {
                fail("C15", format!("delivered twice: message {}", e.a));
            }
            if e.b != o.a % 10 || e.c / 10 != o.b {
                fail("C15", format!("wrong actor: message {} for actor {} on node {} was handled by actor {} on node {}", e.a, o.b, o.a % 10, e.c / 10, e.b));
            }
            if !h[..i].iter().any(|c| c.k == "call" && c.a == e.a) {
                fail("C15", format!("invented: message {} was handled but not sent", e.a));
            }
        }
    }
    for (i, c) in h.iter().enumerate().filter(|(_, e)| e.k == "call") {
        let o = ops[&c.a];
        let (from, to) = (o.a / 10, o.a % 10);
        let act = o.c / 1_000_000;
        let ret = h.iter().skip(i).find(|r| r.k == "ret" && r.a == c.a);
        let done = h.iter().any(|e| e.k == "hE" && e.a == c.a);
        let Some(r) = ret else {
            if !crashed.contains(&from) {
                let lost = if calm { "" } else { " (connection faults were injected)" };
                fail("C16", format!("no answer: request {} from node {from} to node {to} never resolves{lost}", c.a));
            }
            continue;
        };
        // what must come back when the message got through
        if r.b == 1 && o.k != "tell" {
            let ok = done && act != 3 && act != 5 && act != 6 && o.k != "missing" && o.k != "never";
            if !ok {
                fail("C15", format!("false success: message {} ({} act {act}) reported Ok, handled: {done}", c.a, o.k));
            }
        }
        if calm && from != to {
            let until = if o.k == "tell" { usize::MAX } else { h.iter().position(|r| r.k == "ret" && r.a == c.a).unwrap() };
            let mine = ends.get(&(to * 100 + o.b)).cloned().unwrap_or_default();
            let dead_actor = mine.iter().filter(|x| x.0 < i).last().map_or(false, |x| x.1) || mine.iter().any(|x| x.1 && x.0 > i && x.0 < until);
            let expect: Option<(i64, i64)> = match o.k.as_str() {
                "missing" if act != 5 || true => Some((0, 1)),
                "never" => Some((0, 2)),
                "rare" if from != 1 || to != 1 => Some((0, 2)),
                _ if dead_actor => None,
                "tell" => Some((1, 0)),
                _ => match act {
                    3 => None,
                    5 => Some((0, 4)),
                    6 => Some((0, 3)),
                    _ => Some((1, 0)),
                },
            };
            if let Some(x) = expect {
                if (r.b, r.c) != x {
                    fail("C15", format!("wrong result: message {} ({} act {act}) from node {from} to node {to} returned {:?} instead of {x:?} without any fault", c.a, o.k, (r.b, r.c)));
                }
            }
            if o.k == "tell" && !dead_actor && act != 5 && !done && act != 3 {
                fail("C15", format!("lost: notification {} from node {from} to node {to} was never handled without any fault", c.a));
            }
            if act == 3 && r.b == 1 && o.k != "tell" {
                fail("C15", format!("false success: message {} made its actor panic but returned Ok", c.a));
            }
        }
    }
    let _ = hist::len();
}
