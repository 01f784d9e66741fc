//! Storage providers (in-memory, redis) against a reference journal.
use crate::core::*;
use crate::hist::ev;
use coerce::actor::system::ActorSystem;
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::journal::storage::{JournalEntry, JournalStorageRef};
use coerce_redis::journal::{RedisStorageConfig, RedisStorageProvider};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sim;

// ------------------------------------------------------------ redis server

#[derive(Default)]
struct Db {
    z: BTreeMap<Vec<u8>, Vec<(f64, Vec<u8>)>>,
    cmds: i64,
}

fn num(b: &[u8]) -> f64 {
    match std::str::from_utf8(b).unwrap_or("") {
        "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        s => s.parse().unwrap_or(f64::NAN),
    }
}

impl Db {
    fn sort(v: &mut Vec<(f64, Vec<u8>)>) {
        v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
    }
    fn exec(&mut self, c: &[Vec<u8>]) -> Vec<u8> {
        let name = String::from_utf8_lossy(&c[0]).to_uppercase();
        match name.as_str() {
            "ZADD" => {
                let v = self.z.entry(c[1].clone()).or_default();
                let mut added = 0;
                if c.len() < 4 || c.len() % 2 != 0 {
                    return b"-ERR syntax error\r\n".to_vec();
                }
                for p in c[2..].chunks(2) {
                    let (s, m) = (num(&p[0]), &p[1]);
                    if s.is_nan() {
                        return b"-ERR value is not a valid float\r\n".to_vec();
                    }
                    match v.iter_mut().find(|x| &x.1 == m) {
                        Some(x) => x.0 = s,
                        None => {
                            v.push((s, m.clone()));
                            added += 1;
                        }
                    }
                }
                Self::sort(v);
                format!(":{added}\r\n").into_bytes()
            }
            "ZRANGE" => {
                let (mut a, mut b) = (num(&c[2]), num(&c[3]));
                let up: Vec<String> = c[4..].iter().map(|x| String::from_utf8_lossy(x).to_uppercase()).collect();
                let rev = up.iter().any(|x| x == "REV");
                if !up.iter().any(|x| x == "BYSCORE") {
                    return b"-ERR unsupported by the stub\r\n".to_vec();
                }
                if rev {
                    std::mem::swap(&mut a, &mut b);
                }
                let mut r: Vec<Vec<u8>> = self.z.get(&c[1]).map(|v| v.iter().filter(|x| x.0 >= a && x.0 <= b).map(|x| x.1.clone()).collect()).unwrap_or_default();
                if rev {
                    r.reverse();
                }
                if let Some(i) = up.iter().position(|x| x == "LIMIT") {
                    let off: usize = up[i + 1].parse().unwrap_or(0);
                    let n: i64 = up[i + 2].parse().unwrap_or(-1);
                    r = r.into_iter().skip(off).take(if n < 0 { usize::MAX } else { n as usize }).collect();
                }
                let mut o = format!("*{}\r\n", r.len()).into_bytes();
                for m in r {
                    o.extend(format!("${}\r\n", m.len()).bytes());
                    o.extend(m);
                    o.extend(b"\r\n");
                }
                o
            }
            "ZREMRANGEBYSCORE" => {
                let (a, b) = (num(&c[2]), num(&c[3]));
                let mut n = 0;
                if let Some(v) = self.z.get_mut(&c[1]) {
                    let l = v.len();
                    v.retain(|x| !(x.0 >= a && x.0 <= b));
                    n = l - v.len();
                }
                format!(":{n}\r\n").into_bytes()
            }
            "DEL" => {
                let n = c[1..].iter().filter(|k| self.z.remove(*k).is_some()).count();
                format!(":{n}\r\n").into_bytes()
            }
            _ => b"+OK\r\n".to_vec(),
        }
    }
}

/// one complete command at the front of `b`: (args, length)
fn parse(b: &[u8]) -> Option<(Vec<Vec<u8>>, usize)> {
    fn line(b: &[u8], at: usize) -> Option<(i64, usize)> {
        let e = b[at..].windows(2).position(|w| w == b"\r\n")? + at;
        Some((std::str::from_utf8(&b[at + 1..e]).ok()?.parse().ok()?, e + 2))
    }
    let (n, mut at) = line(b, 0)?;
    let mut v = vec![];
    for _ in 0..n {
        if at >= b.len() {
            return None;
        }
        let (l, s) = line(b, at)?;
        let e = s + l as usize;
        if b.len() < e + 2 {
            return None;
        }
        v.push(b[s..e].to_vec());
        at = e + 2;
    }
    Some((v, at))
}

async fn serve(s: TcpStream, db: Arc<Mutex<Db>>, plan: Arc<Plan>) {
    let mut buf = vec![];
    // like the real server, keep reading while replies are queued
    let (mut s, mut wr) = tokio::io::split(s);
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<Vec<u8>>();
    let writer = tokio::spawn(async move {
        while let Some(b) = rx.recv().await {
            if wr.write_all(&b).await.is_err() {
                return;
            }
        }
    });
    loop {
        let mut tmp = [0u8; 4096];
        match s.read(&mut tmp).await {
            Ok(0) | Err(_) => return,
            Ok(n) => buf.extend_from_slice(&tmp[..n]),
        }
        while let Some((c, n)) = parse(&buf) {
            buf.drain(..n);
            let (no, write) = {
                let mut d = db.lock().unwrap();
                d.cmds += 1;
                (d.cmds - 1, c[0].as_slice() != b"ZRANGE")
            };
            let f = plan.faults.iter().find(|f| matches!(f.k.as_str(), "cerr" | "drop" | "dropa" | "slow") && f.a == no).map(|f| f.k.clone());
            match f.as_deref() {
                Some("cerr") => {
                    count("fault.redis_error_reply");
                    let _ = tx.send(b"-OOM command not allowed when used memory > 'maxmemory'.\r\n".to_vec());
                    continue;
                }
                Some("drop") => {
                    count("fault.redis_connection_dropped");
                    writer.abort();
                    return;
                }
                Some("dropa") => {
                    count("fault.redis_connection_dropped_after_apply");
                    db.lock().unwrap().exec(&c);
                    writer.abort();
                    return;
                }
                Some("slow") => {
                    count("fault.redis_slow");
                    sleep_ms(700).await
                }
                _ => {}
            }
            count(if write { "redis_writes" } else { "redis_reads" });
            let r = db.lock().unwrap().exec(&c);
            if tx.send(r).is_err() {
                return;
            }
        }
    }
}

// ------------------------------------------------------------ reference

#[derive(Default, Clone, Debug)]
struct Model {
    /// seq -> (type, bytes, definite)
    msgs: BTreeMap<i64, (String, Vec<u8>, bool)>,
    snaps: BTreeMap<i64, (String, Vec<u8>, bool)>,
    /// a delete whose outcome is unknown may still take effect later
    late_del: i64,
    late_all: bool,
    /// writes whose outcome is unknown may still take effect later
    ghosts: std::collections::BTreeSet<i64>,
}

fn name(k: i64) -> String {
    ["k", "k:journal", "k1", "{k}", "k1:snapshot", "", "Ω k", "k2"][k as usize % 8].to_string()
}

fn payload(seed: u64, seq: i64) -> Vec<u8> {
    let x = sim::mix(seed, seq as u64, 77);
    let n = match x % 8 { 0 => 0, 1 => 1, 2 => 300, 3 => 5000, _ => x % 40 };
    (0..n).map(|i| match sim::mix(x, i, 3) % 6 { 0 => b'\r', 1 => b'\n', 2 => 0, 3 => 0xff, _ => sim::mix(x, i, 4) as u8 }).collect()
}
fn mk(seed: u64, seq: i64) -> JournalEntry {
    let t = ["t", "a.b::C", "é:\r\n", ""][sim::mix(seed, seq as u64, 5) as usize % 4];
    JournalEntry { sequence: seq, payload_type: t.into(), bytes: Arc::new(payload(seed, seq)) }
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("journal", seed, r);
    p.set("prop", super::prop_index(prop));
    let redis = r.chance(5, 6);
    p.set("redis", redis as i64);
    p.set("tags", r.below(2) as i64);
    p.net.max = *r.pick(&[0, 1, 5, 20]);
    p.net.short = *r.pick(&[0, 100, 500]);
    p.net.buf = *r.pick(&[1 << 20, 4096, 256]);
    p.net.spike_permille = *r.pick(&[0, 0, 30]);
    p.net.spike = 300;
    let lanes = r.range(1, 4);
    let total = r.range(4, if thorough { 50 } else { 30 });
    for _ in 0..total {
        let l = r.below(lanes as u64) as u32;
        let k = r.weighted(&[(8, "wm"), (4, "wb"), (4, "ws"), (4, "rls"), (5, "rlm"), (3, "rm"), (5, "rr"), (3, "del"), (1, "dall"), (3, "par")]);
        let (a, b) = (r.below(40) as i64, r.below(40) as i64);
        let gap = if r.chance(1, 4) { r.below(30) } else { 0 };
        // key: each lane owns two keys
        p.op(l, k, l as i64 + lanes * r.below(2) as i64, a, b, gap);
    }
    if redis {
        for _ in 0..r.range(0, 3) {
            let k = r.weighted(&[(4, "cerr"), (2, "drop"), (2, "dropa"), (2, "slow")]);
            p.fault(0, k, r.below(total as u64) as i64, 0, 0);
        }
        for _ in 0..r.range(0, 2) {
            let k = r.weighted(&[(2, "reset"), (2, "cut")]);
            p.fault(r.below(300), k, 0, 0, r.below(6000));
        }
    }
    p
}

struct W {
    plan: Arc<Plan>,
    cur: Mutex<(JournalStorageRef, u32)>,
    broken: tokio::sync::Notify,
    models: Mutex<BTreeMap<i64, Model>>,
    faulty: bool,
}

fn check(w: &W, what: &str, key: i64, got: &[JournalEntry], m: &BTreeMap<i64, (String, Vec<u8>, bool)>, must: impl Fn(i64) -> bool, may: impl Fn(i64) -> bool) {
    let bad = |s: String| fail("C14", s);
    let mut last = i64::MIN;
    for e in got {
        if e.sequence <= last {
            bad(format!("out of order or repeated: {what} of key {key} returned sequence {} after {last}", e.sequence));
        }
        last = e.sequence;
        match m.get(&e.sequence) {
            None => bad(format!("unknown entry: {what} of key {key} returned sequence {}, which is not stored", e.sequence)),
            Some((t, b, _)) => {
                if e.payload_type.as_ref() != t || e.bytes.as_ref() != b {
                    bad(format!("wrong content: {what} of key {key} returned other bytes than were written for sequence {}", e.sequence));
                }
            }
        }
        if !may(e.sequence) {
            bad(format!("outside the range: {what} of key {key} returned sequence {}", e.sequence));
        }
    }
    for (s, (_, _, def)) in m {
        if *def && must(*s) && !got.iter().any(|e| e.sequence == *s) {
            bad(format!("acknowledged entry missing: {what} of key {key} did not return sequence {s}"));
        }
    }
    let _ = w;
    count("reads_checked");
}

async fn op(w: &Arc<W>, o: &Op, next: &mut i64) {
    let (st, gen) = {
        let c = w.cur.lock().unwrap();
        (c.0.clone(), c.1)
    };
    let key = o.a;
    let k = name(key);
    let seed = w.plan.seed;
    let upd = |f: &mut dyn FnMut(&mut Model)| f(w.models.lock().unwrap().entry(key).or_default());
    let model = || w.models.lock().unwrap().get(&key).cloned().unwrap_or_default();
    let mut err = None;
    let t0 = now_ms();
    ev(match o.k.as_str() { "wm" => "wm", "wb" => "wb", "ws" => "ws", "del" => "del", "dall" => "dall", "par" => "par", _ => "rd" }, key, o.b, o.c);
    match o.k.as_str() {
        "wm" | "wb" | "ws" | "par" => {
            let n = if o.k == "wb" || o.k == "par" { 1 + o.b % 4 } else { 1 };
            let es: Vec<JournalEntry> = (0..n)
                .map(|_| {
                    *next += 1 + (o.c % 3);
                    mk(seed, *next)
                })
                .collect();
            // until acknowledged the entries may or may not be there
            upd(&mut |m| {
                for e in &es {
                    let t = if o.k == "ws" { &mut m.snaps } else { &mut m.msgs };
                    t.insert(e.sequence, (e.payload_type.to_string(), e.bytes.as_ref().clone(), false));
                }
            });
            let mut oks = vec![];
            match o.k.as_str() {
                "wm" => match st.write_message(&k, es[0].clone()).await {
                    Ok(()) => oks.push(es[0].sequence),
                    Err(e) => err = Some(e),
                },
                "ws" => match st.write_snapshot(&k, es[0].clone()).await {
                    Ok(()) => oks.push(es[0].sequence),
                    Err(e) => err = Some(e),
                },
                "wb" | "par" if o.k == "wb" || w.plan.get("redis") == 0 => match st.write_message_batch(&k, es.clone()).await {
                    Ok(()) => oks.extend(es.iter().map(|e| e.sequence)),
                    Err(e) => err = Some(e),
                },
                _ => {
                    // several writers of the same key at once
                    let hs: Vec<_> = es
                        .iter()
                        .map(|e| {
                            let (st, k, e) = (st.clone(), k.clone(), e.clone());
                            tokio::spawn(async move { (e.sequence, st.write_message(&k, e).await) })
                        })
                        .collect();
                    for h in hs {
                        match h.await {
                            Ok((s, Ok(()))) => oks.push(s),
                            Ok((_, Err(e))) => err = Some(e),
                            Err(_) => fail("C14", "writer panicked"),
                        }
                    }
                }
            }
            upd(&mut |m| {
                for s in &oks {
                    let t = if o.k == "ws" { &mut m.snaps } else { &mut m.msgs };
                    if !m.late_all && (o.k == "ws" || *s > m.late_del) {
                        t.get_mut(s).unwrap().2 = true;
                    }
                }
                for e in es.iter().filter(|e| !oks.contains(&e.sequence)) {
                    m.ghosts.insert(e.sequence);
                }
            });
        }
        "rls" => match st.read_latest_snapshot(&k).await {
            Ok(r) => {
                let m = model();
                let newest = m.snaps.iter().filter(|s| s.1 .2).map(|s| *s.0).max();
                match &r {
                    None => {
                        if newest.is_some() {
                            fail("C14", format!("acknowledged snapshot missing: key {key}"));
                        }
                    }
                    Some(e) => {
                        check(w, "latest snapshot", key, &[e.clone()], &m.snaps, |_| false, |s| s >= newest.unwrap_or(i64::MIN));
                    }
                }
            }
            Err(e) => err = Some(e),
        },
        "rlm" => {
            let from = if o.b < 8 { 0 } else { o.b };
            match st.read_latest_messages(&k, from).await {
                Ok(r) => check(w, "messages since", key, &r.unwrap_or_default(), &model().msgs, |s| s > from, |s| s >= from),
                Err(e) => err = Some(e),
            }
        }
        "rm" => match st.read_message(&k, o.b).await {
            Ok(r) => check(w, "single message", key, &r.into_iter().collect::<Vec<_>>(), &model().msgs, |s| s == o.b, |s| s == o.b),
            Err(e) => err = Some(e),
        },
        "rr" => {
            let (a, b) = (o.b.min(o.c), o.b.max(o.c));
            match st.read_messages(&k, a, b).await {
                Ok(r) => check(w, "message range", key, &r.unwrap_or_default(), &model().msgs, |s| s >= a && s <= b, |s| s >= a && s <= b),
                Err(e) => err = Some(e),
            }
        }
        "del" => {
            upd(&mut |m| m.msgs.iter_mut().for_each(|x| if *x.0 <= o.b { x.1 .2 = false }));
            match st.delete_messages_to(&k, o.b).await {
                // whether the bound itself is included differs between providers
                Ok(()) => upd(&mut |m| {
                    let g = m.ghosts.clone();
                    m.msgs.retain(|s, _| *s >= o.b || g.contains(s))
                }),
                Err(e) => {
                    upd(&mut |m| m.late_del = m.late_del.max(o.b));
                    err = Some(e)
                }
            }
        }
        _ => {
            upd(&mut |m| {
                m.msgs.values_mut().for_each(|x| x.2 = false);
                m.snaps.values_mut().for_each(|x| x.2 = false);
            });
            match st.delete_all(&k).await {
                Ok(()) => upd(&mut |m| {
                    let g = m.ghosts.clone();
                    m.msgs.retain(|s, _| g.contains(s));
                    m.snaps.retain(|s, _| g.contains(s));
                }),
                Err(e) => {
                    upd(&mut |m| m.late_all = true);
                    err = Some(e)
                }
            }
        }
    }
    ev("done", key, err.is_none() as i64, 0);
    let took = now_ms() - t0;
    if took > 20_000 {
        fail("C14", format!("operation too slow: {} took {took} virtual ms", o.k));
    }
    if let Some(e) = err {
        count("operations_failed");
        if !w.faulty {
            fail("C14", format!("failed without a fault: {} of key {key}: {e}", o.k));
        }
        // an error reply leaves the connection usable, anything else breaks it
        if !e.to_string().contains("OOM") && !e.to_string().contains("command not allowed") && w.cur.lock().unwrap().1 == gen {
            w.broken.notify_one();
            for _ in 0..400 {
                if w.cur.lock().unwrap().1 != gen {
                    break;
                }
                sleep_ms(25).await;
            }
        }
    }
}

async fn provider(plan: &Arc<Plan>, node: u32) -> JournalStorageRef {
    let tags = plan.get("tags") == 1;
    for _ in 0..200 {
        let h = spawn_on(node, async move {
            let sys = ActorSystem::builder().system_name("sim").build();
            RedisStorageProvider::connect(
                RedisStorageConfig { nodes: vec!["redis://10.0.0.2:6379/".into()], key_prefix: "p:".into(), cluster: false, use_key_hashtags: tags },
                &sys,
            )
            .await
        });
        if let Ok(p) = h.await {
            return p.journal_storage().unwrap();
        }
        sleep_ms(100).await;
    }
    panic!("redis stub not reachable");
}

pub async fn run(plan: Arc<Plan>) {
    let db = Arc::new(Mutex::new(Db::default()));
    let redis = plan.get("redis") == 1;
    if redis {
        let (db, plan) = (db.clone(), plan.clone());
        spawn_on(2, async move {
            let l = TcpListener::bind("10.0.0.2:6379").await.unwrap();
            loop {
                if let Ok((s, _)) = l.accept().await {
                    tokio::spawn(serve(s, db.clone(), plan.clone()));
                }
            }
        });
        yields(3).await;
    }
    let st = if redis { provider(&plan, 1).await } else { InMemoryStorageProvider::new().journal_storage().unwrap() };
    let w = Arc::new(W {
        plan: plan.clone(),
        cur: Mutex::new((st, 0)),
        broken: tokio::sync::Notify::new(),
        models: Default::default(),
        faulty: !plan.faults.is_empty(),
    });
    let mut hs = vec![];
    for lane in plan.lanes() {
        let w = w.clone();
        hs.push(spawn_on(1, async move {
            let mut next = BTreeMap::new();
            for o in lane {
                sleep_ms(o.gap).await;
                op(&w, &o, next.entry(o.a).or_insert(0)).await;
            }
        }));
    }
    let mut fs = vec![];
    for f in plan.faults.iter().filter(|f| f.k == "reset" || f.k == "cut") {
        let f = f.clone();
        fs.push(tokio::spawn(async move {
            sleep_ms(f.at).await;
            if f.k == "reset" {
                count("fault.connection_reset");
                sim::net::reset(1, 2, (f.dur % 2) as u8);
            } else {
                count("fault.partition");
                sim::net::cut(1, 2);
                sleep_ms(f.dur).await;
                sim::net::heal(1, 2);
            }
        }));
    }
    // replaces the provider when its connection broke, as a restarted process would
    let w2 = w.clone();
    let fixer = tokio::spawn(async move {
        loop {
            w2.broken.notified().await;
            count("provider_reconnects");
            let p = provider(&w2.plan, 1).await;
            let mut c = w2.cur.lock().unwrap();
            *c = (p, c.1 + 1);
        }
    });
    for h in hs {
        match within(120_000, h).await {
            None => fail("C14", "operation never returns: a storage operation is still pending after 120 virtual seconds"),
            Some(Err(e)) => fail("C14", format!("operation panicked: {e}")),
            _ => {}
        }
    }
    for f in fs {
        let _ = f.await;
    }
    sleep_ms(8000).await;
    fixer.abort();
    // everything acknowledged is still there, seen through a new connection
    if redis {
        let p = provider(&plan, 1).await;
        *w.cur.lock().unwrap() = (p, 999);
    }
    let w = Arc::new(W { plan: plan.clone(), cur: Mutex::new(w.cur.lock().unwrap().clone()), broken: tokio::sync::Notify::new(), models: Mutex::new(w.models.lock().unwrap().clone()), faulty: !plan.faults.is_empty() });
    db.lock().unwrap().cmds = 1_000_000;
    let keys: Vec<i64> = w.models.lock().unwrap().keys().cloned().collect();
    for k in keys {
        for kind in ["rlm", "rls"] {
            let o = Op { k: kind.into(), a: k, ..Op::default() };
            if within(30_000, op(&w, &o, &mut 0)).await.is_none() {
                fail("C14", "operation never returns: final read");
            }
        }
    }
}
