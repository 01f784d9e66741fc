//! Distributed publish/subscribe.
use crate::cluster::*;
use crate::core::*;
use crate::hist::{self, ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, IntoActorId, LocalActorRef};
use coerce::remote::net::StreamData;
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription, Topic};
use coerce::remote::system::RemoteActorSystem;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

/// msg number; bad: 1 can't be written, 2 can't be read
pub struct Body {
    msg: i64,
    bad: i64,
    pad: usize,
}
fn bytes(tag: u8, b: &Body) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend_from_slice(&b.msg.to_le_bytes());
    v.extend_from_slice(&b.bad.to_le_bytes());
    for i in 0..b.pad {
        v.push((b.msg as u8).wrapping_mul(17).wrapping_add(i as u8));
    }
    v
}
fn parse(tag: u8, d: Vec<u8>) -> Option<Body> {
    if d.len() < 17 || d[0] != tag {
        fail("C19", format!("corrupted: a payload of {} bytes that nobody published arrived for topic {tag}", d.len()));
        return None;
    }
    let b = Body { msg: i64::from_le_bytes(d[1..9].try_into().unwrap()), bad: i64::from_le_bytes(d[9..17].try_into().unwrap()), pad: d.len() - 17 };
    if bytes(tag, &b) != d {
        fail("C19", format!("corrupted: message {} differs from what was published", b.msg));
    }
    if b.bad == 2 {
        return None;
    }
    Some(b)
}
macro_rules! topic {
    ($t:ident, $m:ident, $tag:expr, $name:expr) => {
        pub struct $m(Body);
        impl StreamData for $m {
            fn read_from_bytes(data: Vec<u8>) -> Option<Self> {
                parse($tag, data).map($m)
            }
            fn write_to_bytes(&self) -> Option<Vec<u8>> {
                if self.0.bad == 1 {
                    return None;
                }
                Some(bytes($tag, &self.0))
            }
        }
        pub struct $t(i64);
        impl Topic for $t {
            type Message = $m;
            fn topic_name() -> &'static str {
                $name
            }
            fn key(&self) -> String {
                match self.0 {
                    0 => String::default(),
                    1 => "k".into(),
                    2 => "k-1 äöü/longer".into(),
                    k => format!("k{k}"),
                }
            }
        }
        #[async_trait]
        impl Handler<Receive<$t>> for Sb {
            async fn handle(&mut self, m: Receive<$t>, _c: &mut ActorContext) {
                ev("rx", m.0 .0.msg, self.no * 100 + self.inc, $tag);
                if self.slow > 0 {
                    sleep_ms(self.slow).await;
                }
            }
        }
    };
}
topic!(Ta, Ma, 1, "topic-a");
topic!(Tb, Mb, 2, "topic-b");
topic!(Tc, Mc, 3, "topic");

struct Sb {
    no: i64,
    inc: i64,
    slow: u64,
    subs: Vec<(i64, Subscription)>,
}
#[async_trait]
impl Actor for Sb {}

struct Sub {
    topic: i64,
    key: i64,
    id: i64,
}
impl Message for Sub {
    type Result = ();
}
#[async_trait]
impl Handler<Sub> for Sb {
    async fn handle(&mut self, m: Sub, ctx: &mut ActorContext) {
        ev("subB", m.id, self.no * 100 + self.inc, m.topic * 10 + m.key);
        let s = match m.topic {
            1 => PubSub::subscribe::<Self, Ta>(Ta(m.key), ctx).await,
            2 => PubSub::subscribe::<Self, Tb>(Tb(m.key), ctx).await,
            _ => PubSub::subscribe::<Self, Tc>(Tc(m.key), ctx).await,
        };
        match s {
            Ok(s) => {
                self.subs.push((m.id, s));
                ev("subE", m.id, self.no * 100 + self.inc, m.topic * 10 + m.key);
            }
            Err(_) => fail("C19", "refused: a subscription was refused"),
        }
    }
}
/// how: 0 unsubscribe, 1 drop the subscription
struct Unsub {
    nth: usize,
    how: i64,
}
impl Message for Unsub {
    type Result = ();
}
#[async_trait]
impl Handler<Unsub> for Sb {
    async fn handle(&mut self, m: Unsub, _c: &mut ActorContext) {
        if self.subs.is_empty() {
            return;
        }
        let i = m.nth % self.subs.len();
        let (id, mut s) = self.subs.remove(i);
        ev("unsB", id, 0, 0);
        if m.how == 0 {
            s.unsubscribe();
        }
        drop(s);
        ev("unsE", id, 0, 0);
    }
}
struct Boom;
impl Message for Boom {
    type Result = ();
}
#[async_trait]
impl Handler<Boom> for Sb {
    async fn handle(&mut self, _: Boom, _c: &mut ActorContext) {
        panic!("planned-panic");
    }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("pubsub", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    let n = if r.chance(1, 8) { 5 } else { r.range(1, 4) };
    p.set("n", n);
    // subscriber s lives on node s % n + 1
    let subs = r.range(1, 6);
    p.set("subs", subs);
    p.set("slow", if r.chance(1, 4) { r.range(1, subs) } else { 0 });
    p.set("late", r.range(0, 1));
    p.net.max = *r.pick(&[0, 1, 5, 20, 100]);
    if r.chance(1, 4) {
        p.net.short = 200;
    }
    if r.chance(1, 4) {
        p.net.buf = *r.pick(&[128, 1024, 16384]);
    }
    p.set("big", if r.chance(1, 4) { r.range(10, (p.net.buf as i64 * 5).min(30_000)) } else { 0 });
    let keys = r.range(1, 3);
    let topics = r.range(1, 3);
    let lanes = r.range(1, 4);
    let window: u64 = *r.pick(&[100, 2_000, 15_000]);
    let nops = r.range(4, if thorough { 60 } else { 30 });
    // initial subscriptions, before anything else in their lane
    for s in 0..subs {
        for _ in 0..r.range(0, 2) {
            p.op(99, "sub", s, r.range(1, topics), r.range(0, keys - 1), 0);
        }
    }
    // one large burst, below the 1024 messages a subscription may lag behind
    if r.chance(1, 12) && p.net.buf >= 16384 && p.get("big") == 0 {
        let gap = r.below(window);
        p.op(r.below(lanes as u64) as u32, "burst", r.range(1, n), r.range(1, topics), r.range(0, keys - 1) + 10 * r.range(100, 500), gap);
    }
    for _ in 0..nops {
        let lane = r.below(lanes as u64) as u32;
        let k = r.weighted(&[(12, "pub"), (2, "local"), (2, "burst"), (2, "sub"), (2, "unsub"), (1, "stop"), (1, "bad")]);
        let gap = r.below(window * 2 / nops as u64 + 1);
        match k {
            // a: node; b: topic; c: key (+10*burst length)
            "pub" | "local" => p.op(lane, k, r.range(1, n), r.range(1, topics), r.range(0, keys - 1), gap),
            "burst" => p.op(lane, k, r.range(1, n), r.range(1, topics), r.range(0, keys - 1) + 10 * r.range(2, 40), gap),
            "bad" => p.op(lane, k, r.range(1, n), r.range(1, topics), r.range(0, keys - 1) + 10 * r.range(1, 2), gap),
            "sub" => p.op(lane, k, r.range(0, subs - 1), r.range(1, topics), r.range(0, keys - 1), gap),
            "unsub" => p.op(lane, k, r.range(0, subs - 1), r.range(0, 3), r.range(0, 1), gap),
            _ => p.op(lane, k, r.range(0, subs - 1), r.range(0, 1), 0, gap),
        }
    }
    if n > 1 && r.chance(1, 2) {
        let mix = FaultMix { resets: 4, cuts: 3, stalls: 2, crashes: if r.chance(1, 2) { 2 } else { 0 }, max_cut: 12_000, max_stall: 6000 };
        let c = r.range(1, 4);
        gen_faults(&mut p, r, n, window, &mix, c);
        if r.chance(1, 4) {
            p.net.connect_fail = 200;
        }
        if r.chance(1, 4) {
            gen_flaps(&mut p, r, n);
        }
    }
    p
}

type Refs = Arc<Mutex<BTreeMap<i64, (LocalActorRef<Sb>, u32)>>>;

async fn host(plan: Arc<Plan>, refs: Refs, sys: RemoteActorSystem, slot: u32, inc: u32, n: u32) {
    for no in 0..plan.get("subs") {
        if no as u32 % n + 1 != slot {
            continue;
        }
        let slow = if plan.get("slow") == no + 1 { 700 } else { 0 };
        let a = Sb { no, inc: inc as i64, slow, subs: vec![] };
        let id = format!("sub-{no}").into_actor_id();
        let Ok(r) = sys.actor_system().new_actor(id, a, ActorType::Tracked).await else {
            fail("C19", "actor not created");
            return;
        };
        if inc > 0 {
            // a restarted process subscribes again to what it needs
            for (i, o) in plan.ops.iter().filter(|o| o.l == 99 && o.a == no).enumerate() {
                let _ = r.send(Sub { topic: o.b, key: o.c, id: 5000 + no * 1000 + inc as i64 * 10 + i as i64 }).await;
            }
        }
        refs.lock().unwrap().insert(no, (r, simno(slot, inc)));
    }
}

async fn publish(sys: &RemoteActorSystem, topic: i64, key: i64, msg: i64, bad: i64, pad: usize, local: bool) {
    let b = Body { msg, bad, pad };
    match (topic, local) {
        (1, false) => PubSub::publish(Ta(key), Ma(b), sys).await,
        (1, true) => PubSub::publish_locally(Ta(key), Ma(b), sys).await,
        (2, false) => PubSub::publish(Tb(key), Mb(b), sys).await,
        (2, true) => PubSub::publish_locally(Tb(key), Mb(b), sys).await,
        (_, false) => PubSub::publish(Tc(key), Mc(b), sys).await,
        (_, true) => PubSub::publish_locally(Tc(key), Mc(b), sys).await,
    }
}

struct Pubd {
    from: u32,
    topic: i64,
    key: i64,
    lane: u32,
    local: bool,
    bad: i64,
    call: usize,
    ret: Option<usize>,
}
type Log = Arc<Mutex<BTreeMap<i64, Pubd>>>;

async fn go(log: &Log, cl: &Cluster, from: u32, topic: i64, key: i64, lane: u32, msg: i64, bad: i64, pad: usize, local: bool) {
    let Some(nd) = cl.node(from) else { return };
    let call = ev("pubB", msg, from as i64, topic * 10 + key);
    log.lock().unwrap().insert(msg, Pubd { from, topic, key, lane, local, bad, call, ret: None });
    let log = log.clone();
    let h = spawn_on(nd.sim, async move {
        publish(&nd.sys, topic, key, msg, bad, pad, local).await;
        let x = ev("pubE", msg, 0, 0);
        if let Some(l) = log.lock().unwrap().get_mut(&msg) {
            l.ret = Some(x);
        }
    });
    let _ = within(20_000, h).await;
}

pub async fn run(plan: Arc<Plan>) {
    let n = plan.get("n") as u32;
    let cl = Cluster::new();
    let refs: Refs = Default::default();
    let log: Log = Default::default();
    for slot in 1..=n {
        let seed = if slot > 1 { Some(1) } else { None };
        let (p2, r2) = (plan.clone(), refs.clone());
        if cl.start(NodeCfg::new(slot, seed), 60_000, |b| b, move |s| host(p2, r2, s, slot, 0, n)).await.is_none() {
            return count("not_started");
        }
    }
    if !cl.wait_formed(30_000).await {
        return count("not_formed");
    }
    // publishers learn of new nodes through events
    sleep_ms(500).await;
    count("formed");
    let calm = plan.faults.is_empty() && plan.net.connect_fail == 0;
    let mut lanes = plan.lanes();
    let mut hs = vec![];
    let init: Vec<Op> = lanes.iter().position(|l| l[0].l == 99).map(|i| lanes.remove(i)).unwrap_or_default();
    let next = Arc::new(Mutex::new(0i64));
    for lane in std::iter::once(init).chain(lanes) {
        let (cl, refs, log, next, plan) = (cl.clone(), refs.clone(), log.clone(), next.clone(), plan.clone());
        let first = lane.first().map(|o| o.l) == Some(99);
        let body = async move {
            for o in lane {
                sleep_ms(o.gap).await;
                let num = || {
                    let mut x = next.lock().unwrap();
                    *x += 1;
                    *x
                };
                let pad = if o.id % 3 == 0 { plan.get("big") as usize } else { 0 };
                match o.k.as_str() {
                    "pub" | "local" => go(&log, &cl, o.a as u32, o.b, o.c, o.l, num(), 0, pad, o.k == "local").await,
                    "bad" => go(&log, &cl, o.a as u32, o.b, o.c % 10, o.l, num(), o.c / 10, pad, false).await,
                    "burst" => {
                        for _ in 0..o.c / 10 {
                            go(&log, &cl, o.a as u32, o.b, o.c % 10, o.l, num(), 0, 0, false).await;
                        }
                    }
                    _ => {
                        let Some((r, sim)) = refs.lock().unwrap().get(&o.a).cloned() else { continue };
                        if cl.sim(slot_of(sim)) != sim || cl.node(slot_of(sim)).is_none() {
                            continue;
                        }
                        let o2 = o.clone();
                        let h = spawn_on(sim, async move {
                            match o2.k.as_str() {
                                "sub" => {
                                    let _ = r.send(Sub { topic: o2.b, key: o2.c, id: o2.id as i64 }).await;
                                }
                                "unsub" => {
                                    let _ = r.send(Unsub { nth: o2.b as usize, how: o2.c }).await;
                                }
                                _ => {
                                    ev("stopB", o2.a, 0, 0);
                                    if o2.b == 0 {
                                        let _ = r.stop().await;
                                    } else {
                                        let _ = r.send(Boom).await;
                                    }
                                    ev("stopE", o2.a, 0, 0);
                                }
                            }
                        });
                        let _ = within(60_000, h).await;
                    }
                }
            }
        };
        if first {
            body.await;
        } else {
            hs.push(tokio::spawn(body));
        }
    }
    {
        let (cl2, p2, r2) = (cl.clone(), plan.clone(), refs.clone());
        let restart = move |slot: u32| {
            let (cl, p2, r2) = (cl2.clone(), p2.clone(), r2.clone());
            async move {
                let seed = cl.nodes().iter().map(|n| n.slot).find(|s| *s != slot);
                let inc = cl.next_inc(slot);
                let _ = cl.start(NodeCfg::new(slot, seed), 50_000, |b| b, move |s| host(p2, r2, s, slot, inc, n)).await;
            }
        };
        play_faults(&plan, &cl, restart).await;
    }
    for h in hs {
        let _ = h.await;
    }
    // the slow subscriber works off what it has
    let slow = if plan.get("slow") > 0 { 700 * 2 * log.lock().unwrap().len() as u64 * 3 } else { 0 };
    tokio::sim::net::set_config(|c| {
        c.connect_fail_permille = 0;
    });
    sleep_ms(5_000 + slow.min(200_000)).await;
    check(&plan, &log, n, calm, slow > 200_000);
    if calm && plan.get("late") == 0 {
        return;
    }
    // publishing works everywhere again
    if !cl.wait_formed(150_000).await {
        return count("not_reformed");
    }
    sleep_ms(1_000).await;
    probe(&plan, &cl, &refs).await;
}

async fn probe(plan: &Arc<Plan>, cl: &Cluster, refs: &Refs) {
    // everyone still alive subscribes to a fresh key
    let mut want = BTreeSet::new();
    let live: Vec<(i64, LocalActorRef<Sb>, u32)> = refs.lock().unwrap().iter().map(|(k, v)| (*k, v.0.clone(), v.1)).collect();
    for (no, r, sim) in live {
        if cl.sim(slot_of(sim)) != sim || cl.node(slot_of(sim)).is_none() || !r.is_valid() {
            continue;
        }
        let h = spawn_on(sim, async move { r.send(Sub { topic: 1, key: 7, id: 9000 + no }).await.is_ok() });
        match within(120_000, h).await {
            Some(Ok(true)) => {
                want.insert(no);
            }
            _ => {}
        }
    }
    let at = hist::len();
    let mut hs = vec![];
    for nd in cl.nodes() {
        let cl = cl.clone();
        let want = want.clone();
        let h = tokio::spawn(async move {
            let mut missing = want.clone();
            for round in 0..30 {
                let m = 100_000 + nd.slot as i64 * 1000 + round;
                let nd2 = nd.clone();
                let h = spawn_on(nd.sim, async move { publish(&nd2.sys, 1, 7, m, 0, 0, false).await });
                let _ = within(20_000, h).await;
                sleep_ms(2_000).await;
                hist::with(|h| {
                    for e in &h[at..] {
                        if e.k == "rx" && e.a / 1000 == 100 + nd.slot as i64 {
                            missing.remove(&(e.b / 100));
                        }
                    }
                });
                if missing.is_empty() {
                    return;
                }
            }
            fail("C19", format!("no recovery: messages published on node {} never reach subscribers {missing:?} although all nodes see each other as healthy: {}", nd.slot, cl.describe().await));
        });
        hs.push(h);
    }
    for h in hs {
        let _ = h.await;
    }
    let _ = plan;
    sleep_ms(2_000).await;
    let h = hist::snapshot();
    let mut seen: BTreeSet<(i64, i64)> = BTreeSet::new();
    for e in h[at..].iter().filter(|e| e.k == "rx" && e.a >= 100_000) {
        count("probe_deliveries");
        if !seen.insert((e.a, e.b)) {
            fail("C19", format!("delivered twice: message {} to subscriber {}", e.a, e.b));
        }
    }
}

fn check(plan: &Plan, log: &Log, n: u32, calm: bool, unfinished: bool) {
    let h = hist::snapshot();
    let log = log.lock().unwrap();
    struct S {
        who: i64,
        tk: i64,
        begin: usize,
        end: usize,
        ubegin: usize,
        uend: usize,
    }
    // subscriptions
    let mut subs: BTreeMap<i64, S> = BTreeMap::new();
    let never = usize::MAX;
    for (i, e) in h.iter().enumerate() {
        match e.k {
            "subB" => {
                subs.insert(e.a, S { who: e.b, tk: e.c, begin: i, end: never, ubegin: never, uend: never });
            }
            "subE" => {
                if let Some(s) = subs.get_mut(&e.a) {
                    s.end = i;
                }
            }
            "unsB" => {
                if let Some(s) = subs.get_mut(&e.a) {
                    s.ubegin = i;
                }
            }
            "unsE" => {
                if let Some(s) = subs.get_mut(&e.a) {
                    s.uend = i;
                }
            }
            _ => {}
        }
    }
    for (i, e) in h.iter().enumerate().filter(|(_, e)| e.k == "stopB") {
        for s in subs.values_mut().filter(|s| s.who / 100 == e.a) {
            s.ubegin = s.ubegin.min(i);
        }
    }
    let mut rx: BTreeMap<(i64, i64), Vec<usize>> = BTreeMap::new();
    for (i, e) in h.iter().enumerate().filter(|(_, e)| e.k == "rx") {
        count("pubsub_deliveries");
        rx.entry((e.a, e.b)).or_default().push(i);
        let Some(m) = log.get(&e.a) else {
            fail("C19", format!("invented: message {} was delivered but never published", e.a));
            continue;
        };
        if e.c != m.topic {
            fail("C19", format!("wrong topic: message {} was published to topic {} and delivered as {}", e.a, m.topic, e.c));
        }
        let slot = (e.b / 100) as u32 % n + 1;
        if m.local && slot != m.from {
            fail("C19", format!("escaped: message {} was published locally on node {} but delivered on node {slot}", e.a, m.from));
        }
        if m.bad > 0 && slot != m.from {
            fail("C19", format!("unreadable: message {} can't travel but was delivered on node {slot}", e.a));
        }
    }
    for ((msg, who), at) in &rx {
        let Some(m) = log.get(msg) else { continue };
        let tk = m.topic * 10 + m.key;
        let most = subs.values().filter(|s| s.who == *who && s.tk == tk && s.begin < at[0] && s.uend > m.call).count();
        if at.len() > most {
            let any = subs.values().any(|s| s.who == *who && s.tk == tk);
            let what = if !any {
                "was never subscribed to it"
            } else if most == 0 {
                "was not subscribed to it at the time"
            } else {
                "has fewer subscriptions to it"
            };
            fail("C19", format!("too many: message {msg} on topic {} key {} was delivered {} times to subscriber {who}, which {what}", m.topic, m.key, at.len()));
        }
    }
    for (msg, m) in log.iter() {
        let tk = m.topic * 10 + m.key;
        let whos: BTreeSet<i64> = subs.values().filter(|s| s.tk == tk).map(|s| s.who).collect();
        for who in whos {
            let slot = (who / 100) as u32 % n + 1;
            let here = slot == m.from;
            if !here && (!calm || m.local || m.bad > 0) {
                continue;
            }
            if unfinished && plan.get("slow") == who / 100 + 1 {
                continue;
            }
            let crashed = plan.faults.iter().any(|f| f.k == "crash" && f.a == slot as i64);
            if crashed {
                continue;
            }
            let Some(ret) = m.ret else {
                if calm {
                    fail("C19", format!("stuck: publishing message {msg} never returned"));
                }
                continue;
            };
            // subscribed before the publish, and never cancelled
            let least = subs.values().filter(|s| s.who == who && s.tk == tk && s.end < m.call && s.ubegin == never).count();
            let got = rx.get(&(*msg, who)).map_or(0, |v| v.len());
            if got < least {
                fail("C19", format!("lost: message {msg} published on node {} to topic {} key {} was delivered {got} times to subscriber {who} on node {slot}, which has {least} subscriptions", m.from, m.topic, m.key));
            }
            if calm && got > 0 && plan.get("slow") != who / 100 + 1 {
                // others are not held up
                let t = h[rx[&(*msg, who)][got - 1]].ms;
                if t > h[ret].ms + 5_000 {
                    fail("C19", format!("late: message {msg} reached subscriber {who} {} virtual ms after it was published", t - h[ret].ms));
                }
            }
        }
    }
    // a publisher's messages arrive in order at subscribers of its own node
    let whos: BTreeSet<i64> = subs.values().map(|s| s.who).collect();
    for who in whos {
        let slot = (who / 100) as u32 % n + 1;
        let mut last: BTreeMap<(u32, i64), i64> = BTreeMap::new();
        let doubled = |tk: i64| subs.values().filter(|s| s.who == who && s.tk == tk).count() > 1;
        for e in h.iter().filter(|e| e.k == "rx" && e.b == who) {
            let Some(m) = log.get(&e.a) else { continue };
            let tk = m.topic * 10 + m.key;
            if m.from != slot || doubled(tk) {
                continue;
            }
            let l = last.entry((m.lane, tk)).or_insert(0);
            if e.a < *l {
                fail("C19", format!("reordered: subscriber {who} received message {} after {l} from the same publisher on its own node", e.a));
            }
            *l = e.a;
        }
    }
}
