//! Scenarios: what runs inside the simulation and which oracles judge it.
use crate::core::{Plan, Rng, RunSpec};
use std::sync::Arc;

pub mod auth;
pub mod deploy;
pub mod family;
pub mod health;
pub mod journal;
pub mod look;
pub mod mail;
pub mod member;
pub mod persist;
pub mod pubsub;
pub mod registry;
pub mod rmsg;
pub mod shard;
pub mod shutdown;
pub mod single;
pub mod timers;
pub mod workers;

/// id, scenario family, runs of the quick tier, level, components running real code
pub const PROPS: &[(&str, &str, u64, &str, &str)] = &[
    ("C01", "mail", 80000, "exploration", LOCAL),
    ("C02", "mail", 80000, "exploration", LOCAL),
    ("C03", "mail", 80000, "exploration", LOCAL),
    ("C04", "registry", 80000, "exploration", LOCAL),
    ("C05", "family", 80000, "exploration", LOCAL),
    ("C06", "family", 80000, "exploration", LOCAL),
    ("C07", "timers", 80000, "exploration", LOCAL),
    ("C08", "shutdown", 80000, "exploration", LOCAL),
    ("C09", "workers", 80000, "exploration", LOCAL),
    ("C10", "persist", 60000, "exploration", PERSIST),
    ("C11", "persist", 60000, "exploration", PERSIST),
    ("C12", "persist", 60000, "exploration", PERSIST),
    ("C13", "persist", 60000, "exploration", PERSIST),
    ("C14", "journal", 15000, "exploration", JOURNAL),
    ("C15", "rmsg", 20000, "exploration", REMOTE),
    ("C16", "rmsg", 20000, "exploration", REMOTE),
    ("C17", "member", 20000, "exploration", REMOTE),
    ("C18", "auth", 20000, "exploration", REMOTE),
    ("C19", "pubsub", 20000, "exploration", REMOTE),
    ("C20", "deploy", 20000, "exploration", REMOTE),
    ("C21", "shard", 15000, "exploration", SHARD),
    ("C22", "shard", 15000, "exploration", SHARD),
    ("C23", "shard", 15000, "exploration", SHARD),
    ("C24", "single", 15000, "exploration", SINGLE),
    ("C25", "single", 15000, "exploration", SINGLE),
    ("C26", "shard", 15000, "exploration", SHARD),
    ("C27", "health", 20000, "exploration", REMOTE),
    ("C28", "look", 80000, "exploration", LOCAL),
];

const LOCAL: &str = "coerce actor system, mailboxes, references, scheduler actor, lifecycle loop; tokio tasks, channels, oneshots, timers (real code under the simulated scheduler and clock)";

const PERSIST: &str = "coerce persistent actors, journal, recovery, failure policies, snapshots, in-memory journal provider (in a third of the runs), actor system and lifecycle loop; tokio tasks, channels, timers";

const JOURNAL: &str = "coerce in-memory journal provider, coerce-redis provider, redis client crate with its multiplexed connection and codec, coerce actor system; tokio tasks, channels, timers (the redis server is a stub speaking the real wire protocol)";

const REMOTE: &str = "coerce remote actor system: clients, sessions, server, node discovery, heartbeat, registry, message handlers, wire codec; actor system and lifecycle loop on every node; tokio tasks, channels, timers, length-delimited framing";

const SINGLE: &str = "coerce singleton managers, proxies and lease protocol on every node, on top of the real remote actor system (membership, heartbeat, clients, sessions, codec); tokio tasks, channels, timers";

const SHARD: &str = "coerce sharding: coordinator, shard hosts, shards, entity requests, rebalancing and shard recovery on every node, on top of the real singleton, persistence and remote layers; tokio tasks, channels, timers";

pub const STUBS: &str = "OS thread pool (single simulated scheduler thread), system clock and monotonic clock (virtual), OS entropy (seeded), TCP sockets (in-process simulated network), durable journal medium (in-process store with fault injection)";

pub const ASSUMPTIONS: &[&str] = &[
    "tasks are interleaved at await points only; no preemption inside a poll and no weak-memory effects",
    "the simulated network, clock and storage stand for the real ones as described in DESIGN.md",
    "absence of a violation is evidence for the explored seeds, not a proof",
];

pub fn gen(prop: &str, seed: u64, thorough: bool) -> Plan {
    let mut rng = Rng::new(seed);
    let fam = PROPS.iter().find(|p| p.0 == prop).map(|p| p.1).unwrap_or("");
    match fam {
        "mail" => mail::gen(prop, seed, &mut rng, thorough),
        "registry" => registry::gen(prop, seed, &mut rng, thorough),
        "family" => family::gen(prop, seed, &mut rng, thorough),
        "timers" => timers::gen(prop, seed, &mut rng, thorough),
        "shutdown" => shutdown::gen(prop, seed, &mut rng, thorough),
        "persist" => persist::gen(prop, seed, &mut rng, thorough),
        "journal" => journal::gen(prop, seed, &mut rng, thorough),
        "rmsg" => rmsg::gen(prop, seed, &mut rng, thorough),
        "pubsub" => pubsub::gen(prop, seed, &mut rng, thorough),
        "deploy" => deploy::gen(prop, seed, &mut rng, thorough),
        "shard" => shard::gen(prop, seed, &mut rng, thorough),
        "single" => single::gen(prop, seed, &mut rng, thorough),
        "auth" => auth::gen(prop, seed, &mut rng, thorough),
        "member" => member::gen(prop, seed, &mut rng, thorough),
        "workers" => workers::gen(prop, seed, &mut rng, thorough),
        "health" => health::gen(prop, seed, &mut rng, thorough),
        "look" => look::gen(prop, seed, &mut rng, thorough),
        _ => panic!("no scenario for {prop}"),
    }
}

pub fn spec(plan: &Plan) -> RunSpec {
    match plan.scenario.as_str() {
        "rmsg" | "member" | "auth" | "pubsub" | "deploy" | "single" | "shard" | "health" => RunSpec { max_ms: 900_000, max_steps: 3_000_000, hang_prop: hang(plan) },
        _ => RunSpec { max_ms: 600_000, max_steps: 400_000, hang_prop: hang(plan) },
    }
}

fn hang(plan: &Plan) -> &'static str {
    let i = plan.get("prop") as usize;
    PROPS.get(i).map(|p| p.0).unwrap_or("C01")
}

pub fn prop_index(prop: &str) -> i64 {
    PROPS.iter().position(|p| p.0 == prop).unwrap() as i64
}

pub async fn run(plan: Arc<Plan>) {
    match plan.scenario.as_str() {
        "mail" => mail::run(plan).await,
        "registry" => registry::run(plan).await,
        "family" => family::run(plan).await,
        "timers" => timers::run(plan).await,
        "shutdown" => shutdown::run(plan).await,
        "persist" => persist::run(plan).await,
        "journal" => journal::run(plan).await,
        "rmsg" => rmsg::run(plan).await,
        "pubsub" => pubsub::run(plan).await,
        "deploy" => deploy::run(plan).await,
        "shard" => shard::run(plan).await,
        "single" => single::run(plan).await,
        "auth" => auth::run(plan).await,
        "member" => member::run(plan).await,
        "workers" => workers::run(plan).await,
        "health" => health::run(plan).await,
        "look" => look::run(plan).await,
        s => panic!("unknown scenario {s}"),
    }
}
