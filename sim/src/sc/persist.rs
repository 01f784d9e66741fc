//! Event sourced actors over a faulty journal, with process crashes.
use crate::core::*;
use crate::hist::{self, ev};
use async_trait::async_trait;
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
use coerce::actor::system::ActorSystem;
use coerce::actor::{ActorRefErr, IntoActor, LocalActorRef};
use coerce::actor::message::Envelope;
use coerce::persistent::journal::provider::inmemory::InMemoryStorageProvider;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::journal::snapshot::Snapshot;
use coerce::persistent::journal::storage::{JournalEntry, JournalStorage, JournalStorageRef};
use coerce::persistent::journal::types::JournalTypes;
use coerce::persistent::{
    PersistErr, PersistFailurePolicy, Persistence, PersistentActor, ReadMessages, Recover, RecoverSnapshot, RecoveryErr,
    RecoveryFailurePolicy, Retry,
};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sim;

// ---------------------------------------------------------------- storage

/// journal semantics of an ordered set per key: (sequence, bytes)
#[derive(Default, Clone)]
pub struct RefJournal {
    pub snaps: BTreeSet<(i64, String, Vec<u8>)>,
    pub msgs: BTreeSet<(i64, String, Vec<u8>)>,
}

pub struct Store {
    pub no: i64,
    data: Mutex<BTreeMap<String, RefJournal>>,
    inner: Option<JournalStorageRef>,
    w: Arc<World>,
}

fn entry(t: &(i64, String, Vec<u8>)) -> JournalEntry {
    JournalEntry { sequence: t.0, payload_type: t.1.as_str().into(), bytes: Arc::new(t.2.clone()) }
}
fn tup(e: &JournalEntry) -> (i64, String, Vec<u8>) {
    (e.sequence, e.payload_type.to_string(), e.bytes.as_ref().clone())
}

#[derive(Clone, Debug)]
pub struct Attempt {
    pub begin: u64,
    pub end: u64,
    pub seqs: Vec<i64>,
    pub ok: bool,
}

#[derive(Default, Clone, Debug)]
struct KeyModel {
    base: Vec<i64>,
    /// (ids, Some(acked))
    tail: Vec<(Vec<i64>, Option<bool>)>,
    last_acked_seq: Option<i64>,
    /// sequence numbers of acked events: id -> seq
    seqs: BTreeMap<i64, i64>,
    attempts: Vec<Attempt>,
    /// recovered, but never acknowledged, and the actor carried on after the failure: may disappear again
    soft: BTreeSet<i64>,
    /// sequence of the last acknowledged snapshot
    snapped: Option<i64>,
}

pub struct World {
    plan: Arc<Plan>,
    prop: &'static str,
    writes: Mutex<i64>,
    reads: Mutex<i64>,
    keys: Mutex<BTreeMap<i64, KeyModel>>,
    inst: Mutex<i64>,
    lane_pos: Mutex<BTreeMap<u32, usize>>,
}

impl World {
    fn bad(&self, m: impl Into<String>) {
        fail(self.prop, m)
    }
    /// fault for the n-th call of a class
    fn fault_at(&self, kinds: &[&str], n: i64) -> Option<&Fault> {
        self.plan.faults.iter().find(|f| kinds.contains(&f.k.as_str()) && f.a <= n && n < f.a + f.b)
    }
    async fn latency(&self, n: i64, salt: u64) {
        let max = self.plan.get("lat") as u64;
        if max == 0 {
            return;
        }
        let d = sim::mix(self.plan.seed, n as u64, salt) % (max + 1);
        if d == 1 { yields(1).await } else { sleep_ms(d).await }
    }
}

/// keys that are easily confused, those three apart belong to actors of the same type
const NAMES: [&str; 9] = ["acc", "acc-1", "acc:snapshot", "acc ", "ACC-1", "ac", "acc-1:journal", "acc-11", "acc:Snapshot"];
fn key_name(k: i64) -> String {
    NAMES[k as usize % NAMES.len()].to_string()
}
fn key_no(s: &str) -> i64 {
    (0..NAMES.len() as i64).find(|k| key_name(*k) == s).unwrap_or(-1)
}
fn key_type(k: i64) -> i64 {
    k % 3
}

impl Store {
    async fn write<R: Send>(&self, key: &str, seqs: Vec<i64>, f: impl std::future::Future<Output = anyhow::Result<R>> + Send) -> anyhow::Result<()> {
        let n = {
            let mut w = self.w.writes.lock().unwrap();
            *w += 1;
            *w - 1
        };
        count("journal_writes");
        let k = key_no(key);
        if k < 0 {
            self.w.bad(format!("unknown key: a write went to key {key}"));
        } else if key_type(k) != self.no && self.w.plan.get("two") == 1 {
            fail("C13", format!("wrong provider: {key} wrote to provider {}", self.no));
        }
        let begin = now_ms();
        self.w.latency(n, 1).await;
        let fl = self.w.fault_at(&["werr", "werra"], n).map(|f| f.k.clone());
        let applied = fl.as_deref() != Some("werr");
        if applied {
            f.await?;
        }
        ev("w", k, seqs[0], fl.is_none() as i64);
        self.w.latency(n, 2).await;
        if let Some(km) = self.w.keys.lock().unwrap().get_mut(&k) {
            km.attempts.push(Attempt { begin, end: now_ms(), seqs, ok: fl.is_none() });
        }
        match fl {
            None => Ok(()),
            Some(x) => {
                count(if x == "werr" { "fault.write_error" } else { "fault.write_error_after_apply" });
                Err(anyhow::anyhow!("injected storage error"))
            }
        }
    }
    async fn read_gate(&self) -> anyhow::Result<bool> {
        let n = {
            let mut w = self.w.reads.lock().unwrap();
            *w += 1;
            *w - 1
        };
        count("journal_reads");
        self.w.latency(n, 3).await;
        if self.w.fault_at(&["rerr"], n).is_some() {
            count("fault.read_error");
            return Err(anyhow::anyhow!("injected read error"));
        }
        Ok(self.w.fault_at(&["rbad"], n).is_some())
    }
    fn get(&self, key: &str) -> Option<RefJournal> {
        self.data.lock().unwrap().get(key).cloned()
    }
}

fn corrupt(e: &mut JournalEntry) {
    count("fault.corrupt_entry");
    ev("corrupt", e.sequence, 0, 0);
    e.bytes = Arc::new(b"\x00garbage".to_vec());
}

#[async_trait]
impl JournalStorage for Store {
    async fn write_snapshot(&self, id: &str, e: JournalEntry) -> anyhow::Result<()> {
        let s = e.sequence;
        self.write(id, vec![s], async {
            match &self.inner {
                Some(i) => i.write_snapshot(id, e).await,
                None => {
                    self.data.lock().unwrap().entry(id.into()).or_default().snaps.insert(tup(&e));
                    Ok(())
                }
            }
        })
        .await
    }
    async fn write_message(&self, id: &str, e: JournalEntry) -> anyhow::Result<()> {
        let s = e.sequence;
        self.write(id, vec![s], async {
            match &self.inner {
                Some(i) => i.write_message(id, e).await,
                None => {
                    self.data.lock().unwrap().entry(id.into()).or_default().msgs.insert(tup(&e));
                    Ok(())
                }
            }
        })
        .await
    }
    async fn write_message_batch(&self, id: &str, es: Vec<JournalEntry>) -> anyhow::Result<()> {
        let s = es.iter().map(|e| e.sequence).collect();
        self.write(id, s, async {
            match &self.inner {
                Some(i) => i.write_message_batch(id, es).await,
                None => {
                    self.data.lock().unwrap().entry(id.into()).or_default().msgs.extend(es.iter().map(tup));
                    Ok(())
                }
            }
        })
        .await
    }
    async fn read_latest_snapshot(&self, id: &str) -> anyhow::Result<Option<JournalEntry>> {
        let bad = self.read_gate().await?;
        let mut r = match &self.inner {
            Some(i) => i.read_latest_snapshot(id).await?,
            None => self.get(id).and_then(|j| j.snaps.last().map(entry)),
        };
        if bad {
            r.as_mut().map(corrupt);
        }
        Ok(r)
    }
    async fn read_latest_messages(&self, id: &str, from: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        let bad = self.read_gate().await?;
        let mut r = match &self.inner {
            Some(i) => i.read_latest_messages(id, from).await?,
            None => self.get(id).map(|j| j.msgs.iter().filter(|m| m.0 >= from).map(entry).collect()),
        };
        if bad {
            if let Some(v) = r.as_mut() {
                if !v.is_empty() {
                    let i = sim::mix(self.w.plan.seed, v.len() as u64, 9) as usize % v.len();
                    corrupt(&mut v[i]);
                }
            }
        }
        Ok(r)
    }
    async fn read_message(&self, id: &str, s: i64) -> anyhow::Result<Option<JournalEntry>> {
        self.read_gate().await?;
        match &self.inner {
            Some(i) => i.read_message(id, s).await,
            None => Ok(self.get(id).and_then(|j| j.msgs.iter().find(|m| m.0 == s).map(entry))),
        }
    }
    async fn read_messages(&self, id: &str, from: i64, to: i64) -> anyhow::Result<Option<Vec<JournalEntry>>> {
        self.read_gate().await?;
        match &self.inner {
            Some(i) => i.read_messages(id, from, to).await,
            None => Ok(self.get(id).map(|j| j.msgs.iter().filter(|m| m.0 >= from && m.0 <= to).map(entry).collect())),
        }
    }
    async fn delete_messages_to(&self, id: &str, to: i64) -> anyhow::Result<()> {
        let n = {
            let mut w = self.w.writes.lock().unwrap();
            *w += 1;
            *w - 1
        };
        self.w.latency(n, 1).await;
        let fl = self.w.fault_at(&["werr", "werra"], n).map(|f| f.k.clone());
        if fl.as_deref() != Some("werr") {
            ev("del", key_no(id), to, 0);
            match &self.inner {
                Some(i) => i.delete_messages_to(id, to).await?,
                None => {
                    if let Some(j) = self.data.lock().unwrap().get_mut(id) {
                        j.msgs.retain(|m| m.0 > to)
                    }
                }
            }
        }
        self.w.latency(n, 2).await;
        if fl.is_some() {
            count("fault.delete_error");
            return Err(anyhow::anyhow!("injected storage error"));
        }
        Ok(())
    }
    async fn delete_all(&self, id: &str) -> anyhow::Result<()> {
        self.w.bad(format!("unexpected delete of everything: key {id}"));
        Ok(())
    }
}

struct Prov(Arc<Store>);
impl StorageProvider for Prov {
    fn journal_storage(&self) -> Option<JournalStorageRef> {
        Some(self.0.clone())
    }
}

// ---------------------------------------------------------------- actor

pub struct Acc<const T: usize> {
    inst: i64,
    key: i64,
    log: Vec<i64>,
    w: Arc<World>,
    rec_errs: i64,
}

macro_rules! bytes_msg {
    ($t:ty, $r:ty) => {
        impl Message for $t {
            type Result = $r;
            fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
                serde_json::to_vec(self).map_err(|_| MessageWrapErr::SerializationErr)
            }
            fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
                serde_json::from_slice(&b).map_err(|_| MessageUnwrapErr::DeserializationErr)
            }
        }
    };
}
#[derive(serde::Serialize, serde::Deserialize, Clone)]
struct Ev(i64);
bytes_msg!(Ev, i64);
/// a second event type
#[derive(serde::Serialize, serde::Deserialize, Clone)]
struct Ev2 {
    id: i64,
    pad: String,
}
bytes_msg!(Ev2, i64);
#[derive(serde::Serialize, serde::Deserialize, Clone)]
struct Many(Vec<i64>);
bytes_msg!(Many, i64);
/// (op, clear old messages)
struct Snap(i64, bool);
impl Message for Snap {
    type Result = i64;
}
struct Clear;
impl Message for Clear {
    type Result = ();
}
struct Dump;
impl Message for Dump {
    type Result = Vec<i64>;
}
struct Range(i64, i64);
impl Message for Range {
    type Result = ();
}
struct SnapState(Vec<i64>);
impl Snapshot for SnapState {
    fn into_remote_envelope(self) -> Result<Envelope<Self>, MessageWrapErr> {
        Ok(Envelope::Remote(serde_json::to_vec(&self.0).unwrap()))
    }
    fn from_remote_envelope(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
        serde_json::from_slice(&b).map(SnapState).map_err(|_| MessageUnwrapErr::DeserializationErr)
    }
}

fn retry(p: i64, delay: u64) -> Retry {
    let delay = if delay == 0 { None } else { Some(Duration::from_millis(delay)) };
    if p == 0 { Retry::UntilSuccess { delay } } else { Retry::MaxAttempts { max_attempts: p as usize, delay } }
}

#[async_trait]
impl<const T: usize> PersistentActor for Acc<T> {
    fn persistence_key(&self, _: &ActorContext) -> String {
        key_name(self.key)
    }
    fn configure(t: &mut JournalTypes<Self>) {
        t.message::<Ev>("ev").message::<Ev2>("ev2").snapshot::<SnapState>("snap");
    }
    async fn pre_recovery(&mut self, _: &mut ActorContext) {
        ev("pre", self.inst, self.key, 0);
    }
    async fn post_recovery(&mut self, ctx: &mut ActorContext) {
        ev("post", self.inst, self.key, self.log.len() as i64);
        let last = self.last_sequence_id(ctx);
        judge(&self.w, self.key, &self.log, last);
    }
    async fn stopped(&mut self, _: &mut ActorContext) {
        ev("stopped", self.inst, self.key, 0);
    }
    async fn on_recovery_err(&mut self, e: RecoveryErr, _: &mut ActorContext) {
        self.rec_errs += 1;
        let decode = matches!(e, RecoveryErr::MessageDeserialisation { .. } | RecoveryErr::SnapshotDeserialisation { .. });
        ev("recerr", self.inst, self.key, decode as i64);
    }
    async fn on_recovery_failed(&mut self, _: &mut ActorContext) {
        ev("recfail", self.inst, self.key, 0);
    }
    fn recovery_failure_policy(&self) -> RecoveryFailurePolicy {
        match self.w.plan.get("rpol") {
            0 => RecoveryFailurePolicy::Retry(retry(0, self.w.plan.get("rdelay") as u64)),
            1 => RecoveryFailurePolicy::Retry(retry(self.w.plan.get("rmax"), self.w.plan.get("rdelay") as u64)),
            2 => RecoveryFailurePolicy::StopActor,
            _ => RecoveryFailurePolicy::Panic,
        }
    }
    fn persist_failure_policy(&self) -> PersistFailurePolicy {
        let p = &self.w.plan;
        match p.get("ppol") {
            0 => PersistFailurePolicy::Retry(retry(0, p.get("pdelay") as u64)),
            1 => PersistFailurePolicy::Retry(retry(p.get("pmax"), p.get("pdelay") as u64)),
            2 => PersistFailurePolicy::ReturnErr,
            3 => PersistFailurePolicy::StopActor,
            _ => PersistFailurePolicy::Panic,
        }
    }
}

#[async_trait]
impl<const T: usize> Recover<Ev> for Acc<T> {
    async fn recover(&mut self, m: Ev, _: &mut ActorContext) {
        if m.0 % 3 == 0 {
            yields(1).await
        }
        self.log.push(m.0);
    }
}
#[async_trait]
impl<const T: usize> Recover<Ev2> for Acc<T> {
    async fn recover(&mut self, m: Ev2, _: &mut ActorContext) {
        self.log.push(m.id);
    }
}
#[async_trait]
impl<const T: usize> RecoverSnapshot<SnapState> for Acc<T> {
    async fn recover(&mut self, s: SnapState, _: &mut ActorContext) {
        ev("fromsnap", self.inst, self.key, s.0.len() as i64);
        count("snapshots_recovered");
        if !self.log.is_empty() {
            self.w.bad("snapshot not first: events were replayed before the snapshot");
        }
        self.log = s.0;
    }
}

/// the recovered log against the model
fn judge(w: &Arc<World>, key: i64, log: &[i64], last_seq: i64) {
    count("recoveries");
    let mut ks = w.keys.lock().unwrap();
    let m = ks.entry(key).or_default();
    let mut must: Vec<i64> = m.base.iter().filter(|x| !m.soft.contains(x)).cloned().collect();
    for (ids, st) in &m.tail {
        if *st == Some(true) {
            must.extend(ids);
        }
    }
    let maybe: BTreeSet<i64> = m.tail.iter().filter(|t| t.1 != Some(true)).flat_map(|t| t.0.iter().cloned()).chain(m.soft.iter().cloned()).collect();
    let mut seen = BTreeSet::new();
    for x in log {
        if !seen.insert(*x) {
            w.bad(format!("event replayed twice: event {x} of {}: {log:?}", key_name(key)));
            return;
        }
        if !must.contains(x) && !maybe.contains(x) {
            let alien = ks.iter().any(|(k, m)| *k != key && (m.base.contains(x) || m.tail.iter().any(|t| t.0.contains(x))));
            if alien {
                fail("C13", format!("foreign event: {} recovered event {x} of another actor", key_name(key)));
            }
            w.bad(format!("unknown event: {} recovered event {x}, which it never persisted", key_name(key)));
            return;
        }
    }
    let got: Vec<i64> = log.iter().filter(|x| must.contains(x)).cloned().collect();
    if got != must {
        let lost: Vec<&i64> = must.iter().filter(|x| !log.contains(x)).collect();
        if lost.is_empty() {
            w.bad(format!("events out of order: {} recovered {got:?}, persisted in order {must:?}", key_name(key)));
        } else {
            w.bad(format!("acknowledged event lost: {} recovered {log:?} but {lost:?} had been acknowledged", key_name(key)));
        }
        return;
    }
    if w.plan.get("ppol") != 2 {
        for (ids, st) in &m.tail {
            let n = ids.iter().filter(|i| log.contains(i)).count();
            if *st != Some(true) && n != 0 && n != ids.len() {
                w.bad(format!("partial batch: {n} of the {} events of an unacknowledged batch were recovered", ids.len()));
            }
        }
    }
    if last_seq < m.last_acked_seq.unwrap_or(-1) {
        w.bad(format!("sequence went back: {} recovered at sequence {last_seq}, but sequence {} had been acknowledged", key_name(key), m.last_acked_seq.unwrap_or(-1)));
    }
    if !maybe.is_empty() {
        count("recoveries_with_unacknowledged");
    }
    if must.len() > 0 {
        count("recoveries_nonempty");
    }
    m.soft = if w.plan.get("ppol") == 2 { maybe } else { BTreeSet::new() };
    m.base = log.to_vec();
    m.tail.clear();
}

impl<const T: usize> Acc<T> {
    fn begin(&self, ids: &[i64]) -> usize {
        let mut ks = self.w.keys.lock().unwrap();
        let m = ks.entry(self.key).or_default();
        m.attempts.clear();
        m.tail.push((ids.to_vec(), None));
        m.tail.len() - 1
    }
    /// judges one persist call against the configured policy; returns success
    fn end(&mut self, op: i64, at: Option<usize>, ids: &[i64], r: &Result<(), PersistErr>, ctx: &mut ActorContext) -> i64 {
        let last = self.last_sequence_id(ctx);
        let mut ks = self.w.keys.lock().unwrap();
        let m = ks.entry(self.key).or_default();
        if let Some(at) = at {
            m.tail[at].1 = Some(r.is_ok());
        }
        let p = &self.w.plan;
        let att = m.attempts.clone();
        let errs = att.iter().filter(|a| !a.ok).count() as i64;
        let ok = r.is_ok();
        let max = match p.get("ppol") {
            0 => i64::MAX,
            1 => p.get("pmax"),
            _ => 1,
        };
        let n = att.len() as i64;
        if ok != att.last().map_or(false, |a| a.ok) {
            fail("C11", format!("wrong persist outcome: reported {} after attempts {att:?}", if ok { "success" } else { "failure" }));
        }
        if errs > 0 {
            count("persist_calls_with_errors");
        }
        if n > max || (!ok && n < max) {
            fail("C11", format!("wrong number of attempts: {n} attempts, policy allows {max}, outcome ok={ok}"));
        }
        if ok && att.iter().filter(|a| a.ok).count() != 1 {
            fail("C11", "written again after success: one persist call wrote successfully more than once");
        }
        if att.iter().any(|a| a.seqs != att[0].seqs) {
            fail("C11", format!("retry under another sequence: {att:?}"));
        }
        let delay = p.get("pdelay") as u64;
        if p.get("ppol") <= 1 {
            for w in att.windows(2) {
                if w[1].begin < w[0].end + delay {
                    fail("C11", format!("retried too early: {} ms after the failure instead of {delay}", w[1].begin - w[0].end));
                }
            }
        }
        if !ok && p.get("ppol") != 2 {
            ev("muststop", self.inst, op, 0);
        }
        if let Err(e) = r {
            let st = matches!(e, PersistErr::ActorStopping(_));
            if st != (p.get("ppol") == 3) {
                fail("C11", format!("wrong error: {e:?}"));
            }
        }
        if ok {
            let s = &att.last().unwrap().seqs;
            for w in s.windows(2) {
                if w[1] <= w[0] {
                    fail("C11", format!("batch sequences not increasing: {s:?}"));
                }
            }
            if s[0] <= m.last_acked_seq.unwrap_or(-1) {
                fail("C11", format!("sequence reused: {} wrote at sequence {} although {} was already acknowledged", key_name(self.key), s[0], m.last_acked_seq.unwrap_or(-1)));
            }
            m.last_acked_seq = s.last().cloned();
            if Some(last) != m.last_acked_seq {
                fail("C11", format!("wrong last sequence: actor reports {last} after writing {}", s.last().unwrap()));
            }
            for (i, q) in ids.iter().zip(s.iter()) {
                m.seqs.insert(*i, *q);
            }
            self.log.extend(ids);
        }
        ok as i64
    }
}

#[async_trait]
impl<const T: usize> Handler<Ev> for Acc<T> {
    async fn handle(&mut self, m: Ev, ctx: &mut ActorContext) -> i64 {
        ev("h", self.inst, m.0, 0);
        let at = self.begin(&[m.0]);
        let r = self.persist(&m, ctx).await;
        self.end(m.0 / 10, Some(at), &[m.0], &r, ctx)
    }
}
#[async_trait]
impl<const T: usize> Handler<Ev2> for Acc<T> {
    async fn handle(&mut self, m: Ev2, ctx: &mut ActorContext) -> i64 {
        ev("h", self.inst, m.id, 0);
        let at = self.begin(&[m.id]);
        let r = self.persist(&m, ctx).await;
        self.end(m.id / 10, Some(at), &[m.id], &r, ctx)
    }
}
#[async_trait]
impl<const T: usize> Handler<Many> for Acc<T> {
    async fn handle(&mut self, m: Many, ctx: &mut ActorContext) -> i64 {
        ev("h", self.inst, m.0[0], m.0.len() as i64);
        let mut b = self.event_batch(ctx);
        for (i, x) in m.0.iter().enumerate() {
            if i % 2 == 0 {
                b.message(Ev(*x));
            } else {
                b.message(Ev2 { id: *x, pad: "x".repeat(i) });
            }
        }
        let at = self.begin(&m.0);
        let r = self.persist_batch(b, ctx).await;
        self.end(m.0[0] / 10, Some(at), &m.0, &r, ctx)
    }
}
#[async_trait]
impl<const T: usize> Handler<Snap> for Acc<T> {
    async fn handle(&mut self, m: Snap, ctx: &mut ActorContext) -> i64 {
        ev("h", self.inst, m.0 * 10, -1);
        self.w.keys.lock().unwrap().entry(self.key).or_default().attempts.clear();
        let r = self.snapshot(SnapState(self.log.clone()), ctx).await;
        let ok = self.end(m.0, None, &[], &r, ctx);
        if ok == 1 {
            let last = self.last_sequence_id(ctx);
            let mut ks = self.w.keys.lock().unwrap();
            let km = ks.entry(self.key).or_default();
            km.snapped = Some(last);
            km.soft.retain(|x| !self.log.contains(x));
            count("snapshots");
        }
        if m.1 {
            // also after a failed snapshot: truncation then goes by the last one that was stored
            let snap_seq = if ok == 1 { self.last_sequence_id(ctx) } else { i64::MIN };
            let cleared = self.clear_old_messages(ctx).await;
            if cleared && ok == 0 {
                count("truncations_after_failed_snapshot");
            }
            if cleared && ok == 1 {
                count("truncations");
                let rd = ReadMessages::range(None, 0..snap_seq);
                if let Ok(v) = self.read_messages(rd, ctx).await {
                    for e in v.unwrap_or_default() {
                        if e.sequence < snap_seq {
                            fail("C12", format!("truncation incomplete: sequence {} still stored after truncating to the snapshot at {snap_seq}", e.sequence));
                        }
                    }
                }
            }
        }
        ok
    }
}
#[async_trait]
impl<const T: usize> Handler<Clear> for Acc<T> {
    async fn handle(&mut self, _: Clear, ctx: &mut ActorContext) {
        ev("h", self.inst, -3, 0);
        let snapped = self.w.keys.lock().unwrap().get(&self.key).and_then(|k| k.snapped);
        let errs = counter("fault.delete_error");
        let done = self.clear_old_messages(ctx).await;
        let Some(seq) = snapped else { return };
        if !done {
            if counter("fault.delete_error") == errs {
                fail("C12", format!("not truncated: {} has a snapshot at {seq}, but its messages were not cleared", key_name(self.key)));
            }
            return;
        }
        count("truncations");
        if let Ok(v) = self.read_messages(ReadMessages::range(None, 0..seq), ctx).await {
            for e in v.unwrap_or_default().iter().filter(|e| e.sequence < seq) {
                fail("C12", format!("truncation incomplete: sequence {} still stored after truncating to the snapshot at {seq}", e.sequence));
            }
        }
    }
}
#[async_trait]
impl<const T: usize> Handler<Dump> for Acc<T> {
    async fn handle(&mut self, _: Dump, _: &mut ActorContext) -> Vec<i64> {
        ev("h", self.inst, -1, 0);
        self.log.clone()
    }
}
#[async_trait]
impl<const T: usize> Handler<Range> for Acc<T> {
    async fn handle(&mut self, m: Range, ctx: &mut ActorContext) {
        ev("h", self.inst, -2, 0);
        let want: Vec<(i64, i64)> = {
            let ks = self.w.keys.lock().unwrap();
            let s = &ks.get(&self.key).cloned().unwrap_or_default().seqs;
            let mut v: Vec<(i64, i64)> = s.iter().map(|(i, q)| (*q, *i)).filter(|x| x.0 >= m.0 && x.0 <= m.1).collect();
            v.sort();
            v
        };
        // messages may have been truncated: only checked when there is no snapshot in the plan
        if self.w.plan.get("snaps") == 1 || self.w.plan.get("ambig") == 1 {
            return;
        }
        let ids = |v: Option<Vec<JournalEntry>>| -> Vec<(i64, i64)> {
            v.unwrap_or_default()
                .iter()
                .map(|e| {
                    let id = if e.payload_type.as_ref() == "ev" {
                        serde_json::from_slice::<Ev>(&e.bytes).map_or(-1, |x| x.0)
                    } else {
                        serde_json::from_slice::<Ev2>(&e.bytes).map_or(-1, |x| x.id)
                    };
                    (e.sequence, id)
                })
                .collect()
        };
        // one message
        if let Ok(v) = self.read_messages(ReadMessages::message(None, m.1), ctx).await {
            let got = ids(v);
            let want: Vec<(i64, i64)> = want.iter().copied().filter(|x| x.0 == m.1).collect();
            count("message_reads");
            if m.0 <= m.1 && got != want {
                fail("C10", format!("wrong read: message {} of {} returned {got:?}, expected {want:?}", m.1, key_name(self.key)));
            }
        }
        // of another actor
        for other in (0..NAMES.len() as i64).filter(|k| *k != self.key && key_type(*k) == key_type(self.key)) {
            let model = |w: &World| w.keys.lock().unwrap().get(&other).map(|k| k.seqs.clone()).unwrap_or_default();
            let before = model(&self.w);
            let name = key_name(other);
            let r = self.read_messages(ReadMessages::range(Some(&name), m.0..m.1), ctx).await;
            let Ok(v) = r else { continue };
            let got = ids(v);
            count("foreign_reads");
            for (i, q) in before.iter().filter(|x| *x.1 >= m.0 && *x.1 <= m.1) {
                if !got.contains(&(*q, *i)) {
                    fail("C10", format!("wrong range read: {}..={} of {name} returned {got:?} without message {i} at {q}", m.0, m.1));
                }
            }
            let ks = self.w.keys.lock().unwrap();
            for (k, km) in ks.iter().filter(|k| *k.0 != other) {
                if let Some(x) = got.iter().find(|g| km.seqs.contains_key(&g.1)) {
                    fail("C10", format!("wrong range read: reading {name} returned message {} of {}", x.1, key_name(*k)));
                }
            }
        }
        let r = self.read_messages(ReadMessages::range(None, m.0..m.1), ctx).await;
        if let Ok(v) = r {
            let got = ids(v);
            count("range_reads");
            if got != want {
                fail("C10", format!("wrong range read: {}..={} of {} returned {got:?}, expected {want:?}", m.0, m.1, key_name(self.key)));
            }
        }
    }
}

// ---------------------------------------------------------------- plan

pub fn gen(prop: &str, seed: u64, r: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("persist", seed, r);
    p.set("prop", super::prop_index(prop));
    p.sched.poll_cost = *r.pick(&[0, 0, 1_000, 20_000]);
    let inmem = prop != "C11" && r.chance(1, 3);
    p.set("inmem", inmem as i64);
    p.set("lat", *r.pick(&[0, 0, 1, 3, 10]));
    let two = prop == "C13" || r.chance(1, 5);
    p.set("two", two as i64);
    let keys = if prop == "C13" { r.range(2, 9) } else { r.range(1, 3) };
    p.set("keys", keys);
    p.set("snaps", (prop == "C12" || r.chance(1, 3)) as i64);
    let (pp, rp) = if prop == "C11" { (r.below(5) as i64, r.below(4) as i64) } else { (*r.pick(&[0, 0, 0, 1, 2, 3]), *r.pick(&[0, 0, 0, 1, 2])) };
    p.set("ppol", pp);
    p.set("pmax", r.range(1, 4));
    p.set("pdelay", *r.pick(&[0, 1, 20, 100]));
    p.set("rpol", rp);
    p.set("rmax", r.range(1, 4));
    p.set("rdelay", *r.pick(&[0, 1, 20, 100]));
    let lanes = r.range(1, 3);
    let total = r.range(3, if thorough { 45 } else { 22 });
    for _ in 0..total {
        let s = p.get("snaps") as u64;
        let k = r.weighted(&[(8, "ev"), (3, "ev2"), (3, "batch"), (3 * s, "snap"), (3 * s, "snapclear"), (s, "clear"), (3, "restart"), (1, "dump"), (1, "range")]);
        let gap = if r.chance(1, 3) { r.below(20) } else { 0 };
        let (b, c) = match k {
            "batch" => (r.range(1, 5), 0),
            "range" => {
                let a = r.range(0, 8);
                (a, a + r.range(0, 8))
            }
            _ => (0, 0),
        };
        p.op(r.below(lanes as u64) as u32, k, r.below(keys as u64) as i64, b, c, gap);
    }
    let nf = if prop == "C11" { r.range(1, 8) } else { r.range(0, 4) };
    for _ in 0..nf {
        let k = if inmem { r.weighted(&[(4, "werr"), (3, "rerr")]) } else { r.weighted(&[(4, "werr"), (4, "werra"), (3, "rerr")]) };
        let k = if prop == "C11" && r.chance(1, 6) { "rbad" } else { k };
        p.fault(0, k, r.below(total as u64 * 2) as i64, r.range(1, 4), 0);
    }
    if prop != "C11" || r.chance(1, 4) {
        for _ in 0..r.range(0, 3) {
            p.fault(r.below(150), "crash", 0, 0, 0);
        }
    }
    p.set("ambig", p.faults.iter().any(|f| f.k == "werra" || f.k == "crash") as i64);
    p
}

// ---------------------------------------------------------------- run

enum R {
    A(LocalActorRef<Acc<0>>),
    B(LocalActorRef<Acc<1>>),
    C(LocalActorRef<Acc<2>>),
}

struct Node {
    sys: ActorSystem,
    refs: BTreeMap<i64, tokio::sync::Mutex<Option<R>>>,
}

macro_rules! on {
    ($r:expr, $x:ident => $e:expr) => {
        match $r {
            R::A($x) => $e,
            R::B($x) => $e,
            R::C($x) => $e,
        }
    };
}

async fn start(w: &Arc<World>, n: &Node, key: i64) -> Result<R, ActorRefErr> {
    let inst = {
        let mut i = w.inst.lock().unwrap();
        *i += 1;
        *i
    };
    ev("start", inst, key, 0);
    let id = format!("{}-actor", key_name(key));
    macro_rules! mk {
        ($t:literal) => {
            Acc::<$t> { inst, key, log: vec![], w: w.clone(), rec_errs: 0 }.into_actor(Some(id), &n.sys).await
        };
    }
    let r = match key_type(key) {
        0 => mk!(0).map(R::A),
        1 => mk!(1).map(R::B),
        _ => mk!(2).map(R::C),
    };
    ev("started", inst, key, r.is_ok() as i64);
    r
}

async fn lane_op(w: &Arc<World>, n: &Node, o: &Op) {
    let id = o.id as i64;
    let mut slot = n.refs[&o.a].lock().await;
    if slot.as_ref().map_or(false, |r| !on!(r, x => x.is_valid())) {
        *slot = None;
    }
    if slot.is_none() {
        *slot = start(w, n, o.a).await.ok();
    }
    let Some(r) = slot.as_ref() else { return };
    if o.k == "restart" {
        ev("restart", o.a, 0, 0);
        let _ = on!(r, x => x.stop().await);
        *slot = None;
        return;
    }
    // the slot stays usable for other lanes while the request is in flight
    enum C {
        A(LocalActorRef<Acc<0>>),
        B(LocalActorRef<Acc<1>>),
        C(LocalActorRef<Acc<2>>),
    }
    let c = match r {
        R::A(x) => C::A(x.clone()),
        R::B(x) => C::B(x.clone()),
        R::C(x) => C::C(x.clone()),
    };
    drop(slot);
    macro_rules! snd {
        ($m:expr) => {
            match c {
                C::A(x) => x.send($m).await,
                C::B(x) => x.send($m).await,
                C::C(x) => x.send($m).await,
            }
        };
    }
    let res = match o.k.as_str() {
        "ev" => snd!(Ev(id * 10)).ok(),
        "ev2" => snd!(Ev2 { id: id * 10, pad: "p".repeat((id % 40) as usize) }).ok(),
        "batch" => snd!(Many((0..o.b.max(1)).map(|i| id * 10 + i).collect())).ok(),
        "snap" => snd!(Snap(id, false)).ok(),
        "snapclear" => snd!(Snap(id, true)).ok(),
        "clear" => {
            let _ = snd!(Clear);
            None
        }
        "dump" => {
            let _ = snd!(Dump);
            None
        }
        _ => {
            let _ = snd!(Range(o.b, o.c));
            None
        }
    };
    ev("ret", id, res.unwrap_or(-1), 0);
}

pub async fn run(plan: Arc<Plan>) {
    let prop = super::PROPS[plan.get("prop") as usize].0;
    let w = Arc::new(World {
        plan: plan.clone(),
        prop,
        writes: Mutex::new(0),
        reads: Mutex::new(0),
        keys: Mutex::new(BTreeMap::new()),
        inst: Mutex::new(0),
        lane_pos: Mutex::new(BTreeMap::new()),
    });
    let mk = |no: i64| {
        let inner = if plan.get("inmem") == 1 { InMemoryStorageProvider::new().journal_storage() } else { None };
        Arc::new(Store { no, data: Mutex::new(BTreeMap::new()), inner, w: w.clone() })
    };
    let stores = [mk(0), mk(1), mk(2)];
    let mut crashes: Vec<u64> = plan.faults.iter().filter(|f| f.k == "crash").map(|f| f.at).collect();
    crashes.sort();
    let mut incarnation = 0u32;
    loop {
        incarnation += 1;
        let node_no = 10 + incarnation;
        let crash_at = crashes.get(incarnation as usize - 1).cloned();
        let node = sim::on_node(node_no, || {
            let mut per = Persistence::from(Prov(stores[0].clone()));
            if plan.get("two") == 1 {
                per = per.actor_provider::<Acc<1>, _>(Prov(stores[1].clone())).actor_provider::<Acc<2>, _>(Prov(stores[2].clone()));
            }
            let sys = ActorSystem::builder().system_name("sim").build().to_persistent(per);
            Arc::new(Node { sys, refs: (0..plan.get("keys")).map(|k| (k, tokio::sync::Mutex::new(None))).collect() })
        });
        let last = crash_at.is_none();
        let t0 = now_ms();
        let mut hs = vec![];
        for lane in plan.lanes() {
            let (w, node) = (w.clone(), node.clone());
            hs.push(spawn_on(node_no, async move {
                let l = lane[0].l;
                loop {
                    let i = {
                        let mut m = w.lane_pos.lock().unwrap();
                        let e = m.entry(l).or_insert(0);
                        *e += 1;
                        *e - 1
                    };
                    let Some(o) = lane.get(i) else { break };
                    sleep_ms(o.gap).await;
                    lane_op(&w, &node, o).await;
                }
            }));
        }
        let all = async {
            for h in hs {
                if let Err(e) = h.await {
                    fail(prop, format!("caller panicked: {e}"));
                }
            }
        };
        if last {
            if within(300_000, all).await.is_none() {
                fail(prop, "persist or recovery never finishes: requests still pending 300 virtual seconds after the last fault");
            }
            // final recovery in a fresh process
            sim::set_node_state(node_no, sim::NodeState::Dead);
            sim::net::crash(node_no, false);
            break;
        }
        let _ = within(crash_at.unwrap().saturating_sub(t0).max(1), all).await;
        count("fault.crash");
        ev("crash", incarnation as i64, 0, 0);
        sim::set_node_state(node_no, sim::NodeState::Dead);
        sim::net::crash(node_no, false);
    }
    sleep_ms(1).await;
    // fresh process, no more faults: everything acknowledged must be there
    *w.reads.lock().unwrap() = 1_000_000;
    *w.writes.lock().unwrap() = 1_000_000;
    ev("final", 0, 0, 0);
    let node = sim::on_node(9, || {
        let mut per = Persistence::from(Prov(stores[0].clone()));
        if plan.get("two") == 1 {
            per = per.actor_provider::<Acc<1>, _>(Prov(stores[1].clone())).actor_provider::<Acc<2>, _>(Prov(stores[2].clone()));
        }
        let sys = ActorSystem::builder().system_name("sim").build().to_persistent(per);
        Arc::new(Node { sys, refs: BTreeMap::new() })
    });
    for k in 0..plan.get("keys") {
        let (w2, n2) = (w.clone(), node.clone());
        let r = within(60_000, spawn_on(9, async move {
            match start(&w2, &n2, k).await {
                Ok(r) => on!(r, x => x.send(Dump).await.ok()),
                Err(_) => None,
            }
        })).await;
        if !matches!(r, Some(Ok(Some(_)))) {
            fail(prop, format!("recovery failed without faults: {} could not be started from a healthy journal", key_name(k)));
        }
    }
    policy_checks(&plan);
}

fn policy_checks(plan: &Plan) {
    let h = hist::snapshot();
    let fin = h.iter().position(|e| e.k == "final").unwrap();
    let insts: Vec<i64> = h.iter().filter(|e| e.k == "start").map(|e| e.a).collect();
    for i in insts {
        let pos = |k: &str| h.iter().position(|e| e.k == k && e.a == i);
        let n = |k: &str| h.iter().filter(|e| e.k == k && e.a == i).count() as i64;
        let post = pos("post");
        if let Some(f) = pos("h") {
            if post.map_or(true, |p| p > f) {
                fail("C11", format!("handled before recovery: actor instance {i} handled a message before its recovery completed"));
            }
        }
        let decode = h.iter().any(|e| e.k == "recerr" && e.a == i && e.c == 1);
        let errs = h.iter().filter(|e| e.k == "recerr" && e.a == i && e.c == 0).count() as i64;
        let started = h.iter().find(|e| e.k == "started" && e.a == i);
        if errs > 0 {
            count("recoveries_with_errors");
        }
        if decode {
            count("recoveries_with_corruption");
            if post.is_some() {
                fail("C11", format!("started on a corrupt journal: actor instance {i} completed recovery after a decoding error"));
            }
        }
        if let Some(s) = started {
            let gave_up = !decode
                && match plan.get("rpol") {
                    0 => false,
                    1 => errs >= plan.get("rmax"),
                    _ => errs >= 1,
                };
            if (gave_up || decode) && s.c == 1 {
                fail("C11", format!("started after failed recovery: actor instance {i}"));
            }
            if !gave_up && !decode && s.c == 0 {
                fail("C11", format!("gave up recovery early: actor instance {i} failed to start after {errs} errors"));
            }
            if !gave_up && !decode && post.is_none() {
                fail("C11", format!("never recovered: actor instance {i} started without completing recovery"));
            }
            let maxe = match plan.get("rpol") {
                0 => i64::MAX,
                1 => plan.get("rmax"),
                _ => 1,
            };
            if errs > maxe {
                fail("C11", format!("too many recovery attempts: {errs} failures, policy allows {maxe}"));
            }
            let expect_failed = (gave_up && plan.get("rpol") != 3) as i64;
            if !decode && n("recfail") != expect_failed {
                fail("C11", format!("recovery failure hook: called {} times, expected {expect_failed}", n("recfail")));
            }
            if plan.get("rpol") <= 1 && errs > 1 {
                let d = plan.get("rdelay") as u64;
                let t: Vec<u64> = h.iter().filter(|e| e.k == "recerr" && e.a == i).map(|e| e.ms).collect();
                for w in t.windows(2) {
                    if w[1] < w[0] + d {
                        fail("C11", format!("recovery retried too early: after {} ms instead of {d}", w[1] - w[0]));
                    }
                }
            }
        }
        if let Some(m) = pos("muststop") {
            if let Some(e) = h[m..].iter().find(|e| e.k == "h" && e.a == i) {
                fail("C11", format!("kept running after a failed persist: actor instance {i} handled {} although its policy stops it", e.b));
            }
            let crashed = h[m..fin].iter().any(|e| e.k == "crash");
            if !crashed && pos("stopped").is_none() && h[fin].ms > h[m].ms + 50 {
                fail("C11", format!("not stopped after a failed persist: actor instance {i}"));
            }
        }
    }
}
