//! Client authentication: who gets in, and what unwelcome connections can do.
use crate::cluster::*;
use crate::core::*;
use crate::hist::{self, ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::scheduler::ActorType;
use coerce::actor::{Actor, ActorCreationErr, ActorFactory, ActorRef, IntoActorId};
use coerce::remote::cluster::node::NodeStatus;
use coerce::remote::net::message::SessionEvent;
use coerce::remote::net::proto::network as pb;
use coerce::remote::net::security::jwt::Jwt;
use coerce::remote::net::StreamData;
use coerce::remote::stream::pubsub::{PubSub, Receive, Subscription, Topic};
use coerce::remote::system::builder::RemoteActorSystemBuilder;
use coerce::remote::system::RemoteActorSystem;
use coerce::remote::RemoteActorRef;
use protobuf::well_known_types::wrappers::UInt64Value;
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

struct Bytes8(i64);
impl StreamData for Bytes8 {
    fn read_from_bytes(d: Vec<u8>) -> Option<Self> {
        d.try_into().ok().map(|x| Bytes8(i64::from_le_bytes(x)))
    }
    fn write_to_bytes(&self) -> Option<Vec<u8>> {
        Some(self.0.to_le_bytes().to_vec())
    }
}
struct Tp;
impl Topic for Tp {
    type Message = Bytes8;
    fn topic_name() -> &'static str {
        "secret-topic"
    }
}
struct Vault {
    slot: i64,
    s: Option<Subscription>,
}
#[async_trait]
impl Actor for Vault {
    async fn started(&mut self, ctx: &mut ActorContext) {
        self.s = PubSub::subscribe::<Self, Tp>(Tp, ctx).await.ok();
    }
}
#[async_trait]
impl Handler<Receive<Tp>> for Vault {
    async fn handle(&mut self, m: Receive<Tp>, _c: &mut ActorContext) {
        ev("seen", m.0 .0, self.slot, 2);
    }
}
struct Open(i64);
impl Message for Open {
    type Result = i64;
    fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(self.0.to_le_bytes().to_vec())
    }
    fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        b.try_into().map(|x| Open(i64::from_le_bytes(x))).map_err(|_| MessageUnwrapErr::DeserializationErr)
    }
    fn read_remote_result(b: Vec<u8>) -> Result<i64, MessageUnwrapErr> {
        b.try_into().map(i64::from_le_bytes).map_err(|_| MessageUnwrapErr::DeserializationErr)
    }
    fn write_remote_result(a: i64) -> Result<Vec<u8>, MessageWrapErr> {
        Ok(a.to_le_bytes().to_vec())
    }
}
#[async_trait]
impl Handler<Open> for Vault {
    async fn handle(&mut self, m: Open, _c: &mut ActorContext) -> i64 {
        ev("seen", m.0, self.slot, 1);
        m.0 + 1
    }
}
struct Made;
impl Actor for Made {}
#[derive(Clone)]
struct MadeF(i64);
#[async_trait]
impl ActorFactory for MadeF {
    type Actor = Made;
    type Recipe = ();
    async fn create(&self, _: ()) -> Result<Made, ActorCreationErr> {
        ev("seen", -1, self.0, 3);
        Ok(Made)
    }
}

const SECRET: &[u8] = b"correct horse battery staple";

// token kinds
const T_VALID: i64 = 0;
const T_EMPTY: i64 = 1;
const T_GARBAGE: i64 = 2;
const T_WRONG_SECRET: i64 = 3;
const T_EXPIRED: i64 = 4;
const T_NO_ALG: i64 = 5;
const T_BITFLIP: i64 = 6;
const T_SIG_CUT: i64 = 7;
const T_OTHER_PAYLOAD: i64 = 8;
// first actions
const F_IDENTIFY: i64 = 0;
const F_SILENT: i64 = 1;
const F_SKIP: i64 = 2;
const F_HALF: i64 = 3;
const F_HUGE: i64 = 4;
const F_RAW: i64 = 5;
const F_LATE: i64 = 6;

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("auth", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 1_000, 20_000]);
    let n = r.range(1, 3);
    p.set("n", n);
    p.set("ttl", *r.pick(&[0, 3, 10, 60]));
    p.net.max = *r.pick(&[0, 1, 5, 20]);
    if r.chance(1, 4) {
        p.net.short = 300;
    }
    let lanes = r.range(1, 4);
    let window: u64 = *r.pick(&[100, 3_000, 20_000]);
    let nops = r.range(2, if thorough { 20 } else { 10 });
    for _ in 0..nops {
        let lane = r.below(lanes as u64) as u32;
        let gap = r.below(window * 2 / nops as u64 + 1);
        let first = r.weighted(&[(10, F_IDENTIFY), (2, F_SILENT), (3, F_SKIP), (2, F_HALF), (1, F_HUGE), (1, F_RAW), (1, F_LATE)]);
        let token = r.range(0, 8);
        // what follows: bits select the events; 8 bits
        let what = if r.chance(1, 2) { 255 } else { r.range(0, 255) };
        // how it ends: 0 waits for the node to close, 1 closes at once, 2 resets
        let end = r.weighted(&[(4, 0i64), (1, 1), (1, 2)]);
        p.op(lane, "attack", r.range(1, n), first * 100 + token * 10 + end, what, gap);
    }
    if r.chance(1, 3) {
        // a node that has another secret / none tries to join
        p.op(9, "intruder", r.range(1, n), r.range(0, 1), 0, r.below(window));
    }
    if r.chance(1, 2) {
        p.set("join", 1);
    }
    p
}

fn auth(b: RemoteActorSystemBuilder, secret: &[u8], ttl: i64) -> RemoteActorSystemBuilder {
    b.client_auth_jwt(secret.to_vec(), if ttl > 0 { Some(Duration::from_secs(ttl as u64)) } else { None })
}

fn configure(slot: u32, ttl: i64) -> impl FnOnce(RemoteActorSystemBuilder) -> RemoteActorSystemBuilder + Send {
    move |b| {
        auth(b, SECRET, ttl)
            .with_handlers(|h| h.with_handler::<Vault, Open>("open"))
            .with_actors(move |a| a.with_actor(MadeF(slot as i64)))
    }
}
async fn host(sys: RemoteActorSystem, slot: u32) {
    let r = sys.actor_system().new_actor("vault".into_actor_id(), Vault { slot: slot as i64, s: None }, ActorType::Tracked).await;
    if r.is_err() {
        fail("C18", "actor not created");
    }
}

fn frame(b: Vec<u8>) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend(b);
    v
}
fn b64(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut s = String::new();
    for c in d.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(A[(x >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    s
}

async fn token(kind: i64, ttl: i64) -> String {
    let good = || Jwt::from_secret(SECRET.to_vec(), None).generate_token().unwrap();
    match kind {
        T_VALID => good(),
        T_EMPTY => String::new(),
        T_GARBAGE => "a.b.c".into(),
        T_WRONG_SECRET => Jwt::from_secret(b"guess".to_vec(), None).generate_token().unwrap(),
        T_EXPIRED => {
            let t = good();
            sleep_ms(ttl as u64 * 1000 + 200).await;
            t
        }
        T_NO_ALG => {
            let t = good();
            let mid = t.split('.').nth(1).unwrap_or("").to_string();
            format!("{}.{}.", b64(br#"{"alg":"none"}"#), mid)
        }
        T_BITFLIP => {
            let t = good();
            let (head, sig) = t.rsplit_once('.').unwrap();
            let mut s: Vec<char> = sig.chars().collect();
            let i = s.len() / 2;
            s[i] = if s[i] == 'A' { 'B' } else { 'A' };
            format!("{head}.{}", s.into_iter().collect::<String>())
        }
        T_SIG_CUT => {
            let t = good();
            t.rsplit_once('.').unwrap().0.to_string() + "."
        }
        _ => {
            // another payload under somebody's signature
            let t = good();
            let sig = t.rsplit_once('.').unwrap().1.to_string();
            let head = t.split('.').next().unwrap().to_string();
            let p = format!("{{\"id\":\"67e55044-10b1-426f-9247-bb680e5fe0c8\",\"timestamp\":\"2099-01-01T00:00:00Z\"}}");
            format!("{head}.{}.{sig}", b64(p.as_bytes()))
        }
    }
}

/// connections that make a node wait for their first frame, which it does one at a time
fn waits(plan: &Plan, slot: i64) -> u64 {
    let w = |o: &&Op| o.k == "attack" && o.a == slot && matches!(o.b / 100, F_SILENT | F_SKIP | F_HALF | F_LATE | F_RAW | F_HUGE);
    plan.ops.iter().filter(w).count() as u64 * 5_000
}

fn id(op: i64) -> String {
    uuid::Uuid::from_u128(0x5000 + op as u128).to_string()
}

/// the events an attacker sends; none of them may have an effect
fn events(op: i64, what: i64, victim: u64) -> Vec<SessionEvent> {
    let mut v = vec![];
    let mark = 10_000 + op;
    if what & 1 != 0 {
        v.push(SessionEvent::NotifyActor(pb::MessageRequest { message_id: id(op), handler_type: "open".into(), actor_id: "vault".into(), message: mark.to_le_bytes().to_vec(), requires_response: true, origin_node_id: 77, ..Default::default() }));
    }
    if what & 2 != 0 {
        v.push(SessionEvent::CreateActor(pb::CreateActorEvent { message_id: id(op), actor_id: format!("made-{op}"), actor_type: std::any::type_name::<Made>().into(), ..Default::default() }));
    }
    if what & 4 != 0 {
        v.push(SessionEvent::RegisterActor(pb::ActorAddress { actor_id: format!("bogus-{op}"), node_id: Some(UInt64Value::from(victim)).into(), ..Default::default() }));
    }
    if what & 8 != 0 {
        v.push(SessionEvent::StreamPublish(Arc::new(pb::StreamPublishEvent { topic: "secret-topic".into(), key: String::new(), message: mark.to_le_bytes().to_vec(), ..Default::default() })));
    }
    if what & 16 != 0 {
        let node = pb::RemoteNode { node_id: 70_000 + op as u64, addr: "10.0.0.14:9000".into(), tag: "evil".into(), ..Default::default() };
        v.push(SessionEvent::Handshake(pb::SessionHandshake { node_id: 70_000 + op as u64, node_tag: "evil".into(), nodes: vec![node], trace_id: id(op), ..Default::default() }));
    }
    if what & 32 != 0 {
        v.push(SessionEvent::Ping(pb::PingEvent { message_id: id(op), node_id: victim, system_terminated: true, ..Default::default() }));
    }
    if what & 64 != 0 {
        v.push(SessionEvent::FindActor(pb::FindActorEvent { message_id: id(op), actor_id: "vault".into(), ..Default::default() }));
    }
    if what & 128 != 0 {
        v.push(SessionEvent::Ping(pb::PingEvent { message_id: id(op), node_id: 77, ..Default::default() }));
    }
    v
}

async fn attack(plan: Arc<Plan>, o: Op, n: u32) {
    let (first, tok, end) = (o.b / 100, o.b / 10 % 10, o.b % 10);
    let ttl = plan.get("ttl");
    let op = o.id as i64;
    let tok = if tok == T_EXPIRED && ttl == 0 { T_WRONG_SECRET } else { tok };
    let t = token(tok, ttl).await;
    // a member may do anything: only something harmless and observable then
    let welcome = tok == T_VALID && (first == F_IDENTIFY || first == F_LATE);
    let what = if welcome { 1 } else { o.c };
    let Ok(mut s) = tokio::net::TcpStream::connect(addr(o.a as u32)).await else { return };
    ev("hit", op, welcome as i64, o.a);
    count(match (first, welcome) {
        (_, true) => "welcome_connections",
        (F_IDENTIFY, _) => "fault.bad_token",
        (F_SILENT, _) => "fault.silent_client",
        (F_SKIP, _) => "fault.no_identify",
        (F_HALF, _) => "fault.half_frame",
        (F_HUGE, _) => "fault.huge_frame",
        (F_RAW, _) => "fault.garbage_bytes",
        _ => "fault.late_identify",
    });
    let ident = SessionEvent::Identify(pb::IdentifyEvent { source_node_id: 77, source_node_tag: "evil".into(), token: t, ..Default::default() }).write_to_bytes().unwrap();
    let victim = if n > 1 { (o.a % n as i64 + 1) as u64 } else { 1 };
    let mut out = vec![];
    match first {
        F_IDENTIFY => out.extend(frame(ident)),
        F_SILENT => {}
        F_SKIP => {}
        F_HALF => {
            let f = frame(ident);
            let half = 1 + (op as usize * 7) % (f.len() - 1);
            out.extend(&f[..half]);
        }
        F_HUGE => out.extend(0xF000_0000u32.to_be_bytes()),
        F_RAW => {
            for i in 0..200u64 {
                out.push(tokio::sim::mix(plan.seed, i, op as u64) as u8);
            }
            out.splice(0..4, 150u32.to_be_bytes());
        }
        _ => {
            sleep_ms(1_000).await;
            out.extend(frame(ident));
        }
    }
    if first != F_SILENT && first != F_HALF {
        for e in events(op, what, victim) {
            out.extend(frame(e.write_to_bytes().unwrap()));
        }
    }
    // in pieces
    for c in out.chunks(1 + (tokio::sim::mix(plan.seed, op as u64, 9u64) % 400) as usize) {
        if s.write_all(c).await.is_err() {
            break;
        }
    }
    if end == 2 && !welcome {
        tokio::sim::net::reset(tokio::sim::current_node(), o.a as u32, 0);
        return;
    }
    if end == 1 && !welcome {
        return;
    }
    // whatever comes back
    let mut got = 0u64;
    let t0 = now_ms();
    let mut buf = vec![0u8; 4096];
    let limit = if welcome { 3_000 + waits(&plan, o.a) } else { 100_000 };
    loop {
        match within(limit, s.read(&mut buf)).await {
            Some(Ok(0)) | Some(Err(_)) => break,
            Some(Ok(k)) => {
                got += k as u64;
                if !welcome {
                    fail("C18", format!("leak: connection {op} to node {} (start {first}, token {tok}) was sent {k} bytes although it never presented a valid token", o.a));
                    break;
                }
            }
            None => {
                if !welcome {
                    fail("C18", format!("kept open: connection {op} to node {} without a valid token was still open {} virtual ms later", o.a, now_ms() - t0));
                }
                break;
            }
        }
    }
    if welcome {
        ev("back", op, got as i64, 0);
    }
    ev("done", op, 0, 0);
}

pub async fn run(plan: Arc<Plan>) {
    let n = plan.get("n") as u32;
    let ttl = plan.get("ttl");
    let cl = Cluster::new();
    for slot in 1..=n {
        let seed = if slot > 1 { Some(1) } else { None };
        if cl.start(NodeCfg::new(slot, seed), 60_000, configure(slot, ttl), move |s| host(s, slot)).await.is_none() {
            return fail("C18", format!("kept out: node {slot} with the right secret could not join"));
        }
    }
    if !cl.wait_formed(30_000).await {
        return fail("C18", format!("kept out: nodes sharing the secret don't form a cluster: {}", cl.describe().await));
    }
    count("formed");
    let mut hs = vec![];
    let silent = plan.ops.iter().filter(|o| o.k == "attack").count() as u64;
    for lane in plan.lanes() {
        let (plan, cl) = (plan.clone(), cl.clone());
        hs.push(tokio::spawn(async move {
            let mut subs = vec![];
            for o in lane {
                sleep_ms(o.gap).await;
                if o.k == "intruder" {
                    let cl2 = cl.clone();
                    subs.push(tokio::spawn(async move { intruder(&cl2, o, ttl).await }));
                    continue;
                }
                let plan = plan.clone();
                // every attacker has a machine of its own
                let sim = 12 + 16 * (o.id + 1);
                subs.push(spawn_on(sim, async move { attack(plan, o, n).await }));
            }
            for s in subs {
                let _ = s.await;
            }
        }));
    }
    // legitimate traffic goes on meanwhile
    let traffic = {
        let cl = cl.clone();
        tokio::spawn(async move {
            for i in 0..10i64 {
                for a in cl.nodes() {
                    for b in cl.nodes() {
                        if a.slot != b.slot {
                            probe(&a, b.id, i, 10_000, "during unwelcome connections").await;
                        }
                    }
                }
                sleep_ms(500).await;
            }
        })
    };
    for h in hs {
        let _ = h.await;
    }
    let _ = traffic.await;
    sleep_ms(3_000).await;
    check(&plan, &cl).await;
    // and newcomers get in
    if plan.get("join") == 1 {
        let slot = n + 1;
        sleep_ms(silent * 5_000).await;
        if cl.start(NodeCfg::new(slot, Some(1)), 60_000, configure(slot, ttl), move |s| host(s, slot)).await.is_none() || !cl.wait_formed(60_000).await {
            return fail("C18", format!("kept out: node {slot} with the right secret could not join after unwelcome connections: {}", cl.describe().await));
        }
        count("late_joins");
        for a in cl.nodes() {
            for b in cl.nodes() {
                if a.slot != b.slot {
                    probe(&a, b.id, 50, 10_000, "after a node joined").await;
                }
            }
        }
    }
}

async fn probe(a: &Node, to: u64, i: i64, ms: u64, when: &str) {
    let (from, sys) = (a.slot, a.sys.clone());
    let h = spawn_on(a.sim, async move {
        let r = ActorRef::<Vault>::from(RemoteActorRef::<Vault>::new("vault".into_actor_id(), to, sys));
        r.send(Open(i)).await
    });
    match within(ms, h).await {
        Some(Ok(Ok(x))) if x == i + 1 => count("legitimate_requests"),
        x => {
            note(&format!("{:?}", x.map(|x| x.map(|x| x.map_err(|e| format!("{e:?}"))))));
            fail("C18", format!("harm: a request from node {from} to node {to} failed {when}"));
        }
    }
}

/// a coerce node with another secret, or none
async fn intruder(cl: &Cluster, o: Op, ttl: i64) {
    let own = Cluster::new();
    count("fault.intruding_node");
    let cfg = NodeCfg { slot: 11, id: 911, seed: None, hb: Default::default() };
    let with = o.b;
    let target = o.a as u32;
    let _ = cl;
    let h = own
        .start(
            cfg,
            60_000,
            move |b| {
                let b = if with == 1 { auth(b, b"another secret", ttl) } else { b };
                b.with_handlers(|h| h.with_handler::<Vault, Open>("open"))
            },
            |_| async {},
        )
        .await;
    let Some(nd) = h else { return };
    let sys = nd.sys.clone();
    let j = spawn_on(nd.sim, async move {
        let c = sys.get_remote_client(addr(target)).await;
        if c.is_some() {
            note("intruder has a client");
        }
        let r = ActorRef::<Vault>::from(RemoteActorRef::<Vault>::new("vault".into_actor_id(), target as u64, sys.clone()));
        let x = within(10_000, r.send(Open(10_911))).await;
        if let Some(Ok(_)) = x {
            fail("C18", "entered: a node with another secret got an answer from an actor");
        }
    });
    let _ = within(30_000, j).await;
}

async fn check(plan: &Plan, cl: &Cluster) {
    let h = hist::snapshot();
    let welcome = |op: i64| h.iter().any(|e| e.k == "hit" && e.a == op && e.b == 1);
    for e in h.iter().filter(|e| e.k == "seen") {
        if e.c == 3 {
            fail("C18", format!("entered: an actor was created on node {} for a connection without a valid token", e.b));
        } else if e.a >= 10_000 && !welcome(e.a - 10_000) {
            let how = if e.c == 1 { "handled by an actor" } else { "delivered to a subscriber" };
            fail("C18", format!("entered: a message of connection {} without a valid token was {how} on node {}", e.a - 10_000, e.b));
        }
    }
    for e in h.iter().filter(|e| e.k == "hit" && e.b == 1) {
        let back = h.iter().find(|x| x.k == "back" && x.a == e.a).map_or(0, |x| x.b);
        let seen = h.iter().any(|x| x.k == "seen" && x.a == 10_000 + e.a);
        let ttl = plan.get("ttl") as u64 * 1000;
        // (a token may expire in the queue)
        let expired = ttl > 0 && waits(plan, e.c) + 2_000 > ttl;
        if (!seen || back == 0) && !expired {
            fail("C18", format!("kept out: connection {} to node {} presented a valid token but its message was {} and it got {back} bytes back", e.a, e.c, if seen { "handled" } else { "not handled" }));
        }
    }
    let running: Vec<u64> = cl.nodes().iter().map(|n| n.id).collect();
    for nd in cl.nodes() {
        let v = cl.view(nd.slot).await;
        for x in &v {
            if !running.contains(&x.id) {
                fail("C18", format!("entered: node {} lists node {}, which only exists in the messages of a connection without a valid token", nd.slot, x.id));
            }
        }
        for id in &running {
            match v.iter().find(|x| x.id == *id) {
                Some(x) if x.status == NodeStatus::Healthy => {}
                x => fail("C18", format!("harm: node {} sees its peer {id} as {:?} after unwelcome connections", nd.slot, x.map(|x| x.status))),
            }
        }
        for o in plan.ops.iter().filter(|o| o.k == "attack") {
            let sys = nd.sys.clone();
            let name = format!("bogus-{}", o.id);
            let j = spawn_on(nd.sim, async move { sys.locate_actor_node(name.into_actor_id()).await });
            if let Some(Ok(Some(x))) = within(20_000, j).await {
                fail("C18", format!("entered: connection {} without a valid token registered an actor on node {x}", o.id));
            }
        }
    }
}
