R = "coerce/src/remote/"
prop("C15", "Remote messages reach the addressed actor at most once, unaltered, and replies match",
  "A message sent to an actor on another node is handled at most once, only by the actor it was addressed to on the node it was addressed to, with exactly the content that was sent. A request that succeeds returns the value its own handler invocation returned for that very message. While nothing fails, every message is handled exactly once and every request gets the reply, or the error that fits the cause: no such actor, unsupported message, undecodable message or result, or a failing actor.",
  ["schedules", "fault_sequences", "histories"], "clusters of up to four nodes with concurrent senders, arbitrary delays, fragmentation, large messages, connection resets, partitions, stalls, node crashes and restarts",
  "tests send a few messages between two in-process systems over loopback, where nothing is lost, delayed or reset",
  [R + "actor_ref.rs", R + "handler.rs", R + "system/rpc.rs", R + "net/server/session/mod.rs", R + "net/client/mod.rs", R + "net/codec.rs", R + "net/message.rs"],
  [("message envelope and dispatch", R + "handler.rs"), ("request table", R + "system/rpc.rs"), ("framing", R + "net/mod.rs")],
  "All nodes run the real remoting stack over a simulated TCP network in one process; handled messages and replies are matched with what was sent by identity and content.")
prop("C16", "Remote requests always resolve and traffic resumes after failures",
  "Every request to an actor on another node resolves, with a reply or an error, within bounded time after connection resets, partitions, stalls and node crashes have ended, as long as the sender runs. Within bounded time after such faults end, messages flow again between all running nodes. No failure of a peer makes a node stop serving the others.",
  ["schedules", "fault_sequences", "crash_points"], "resets, one- and two-way partitions, stalls and crashes at any point of connecting, identifying, handshaking, sending and replying",
  "tests never break a connection",
  [R + "net/client/connect.rs", R + "net/client/send.rs", R + "net/client/receive.rs", R + "net/server/session/mod.rs", R + "net/server/session/store.rs", R + "system/rpc.rs", R + "actor/clients.rs"],
  [("client connection state machine", R + "net/client/connect.rs"), ("pending requests", R + "system/rpc.rs"), ("sessions", R + "net/server/session/mod.rs")],
  "Faults are followed by a quiet period; requests pending after a bound in virtual time, and probes between all pairs of nodes that fail, are violations.")
prop("C17", "Nodes agree on membership and on the leader",
  "A node that reports to have joined through a running node is known to all members and knows them all, and they come to see each other as healthy and follow the same leader, the healthy node that has been up longest. A node that stops answering is no longer seen as healthy after a bounded time, and is not given up as terminated before it has been silent for the configured time. Within bounded time after faults end, all running nodes again see exactly each other as healthy, never a node that ended, and follow the same running leader, and stay that way as long as nothing fails. The membership and leader events published on a node agree with this: every healthy peer is announced, the last announced leader is the leader, a node that is gone for good is announced as removed where it had been announced, and the cluster is announced as up exactly once, not before it has its minimum size.",
  ["schedules", "fault_sequences", "crash_points"], "one to five nodes joining in sequence or together, with resets, one- and two-way partitions, stalls on either side of the heartbeat's limits, crashes, restarts under the same or a new id, orderly departures, connections breaking in the middle of a transfer, coarse clocks and wall-clock jumps",
  "tests form one healthy cluster of a few nodes and wait for wall-clock heartbeats",
  [R + "cluster/discovery/mod.rs", R + "cluster/node.rs", R + "heartbeat/mod.rs", R + "net/client/ping.rs", R + "net/server/session/mod.rs", R + "system/cluster.rs", R + "actor/registry.rs"],
  [("discovery and handshake", R + "cluster/discovery/mod.rs"), ("heartbeat and leader choice", R + "heartbeat/mod.rs"), ("node store", R + "cluster/node.rs")],
  "Whole clusters on the simulated network and clock; views, leaders and published events of all nodes are compared with the set of running nodes. Partitions are shorter than the time after which a client gives up reconnecting (about 50 s).")
prop("C18", "Only clients with a valid token get in, and the others do no harm",
  "When client authentication is configured, a connection that has not presented a token signed with the node's secret and still valid gets nothing: none of its messages reaches an actor or subscriber, creates or registers an actor or changes what the node believes about its peers; nothing is sent to it, and it is closed within bounded time. A connection that presents a valid token is served. Connections that stay silent, send garbage, half or oversized frames or bad tokens, or break off at any point, do not disturb traffic between members, and nodes with the right secret can still join afterwards.",
  ["inputs", "schedules", "fault_sequences"], "any token, byte stream, timing and number of unwelcome connections, in any interleaving with legitimate traffic",
  "one test joins two nodes with the same secret",
  [R + "net/security/auth/jwt.rs", R + "net/security/auth/mod.rs", R + "net/server/session/mod.rs", R + "net/server/session/store.rs", R + "net/server/mod.rs", R + "net/mod.rs"],
  [("token check", R + "net/server/session/mod.rs"), ("tokens", R + "net/security/auth/jwt.rs"), ("accept loop", R + "net/server/mod.rs")],
  "Attackers are simulated machines speaking the wire protocol to real nodes: forged, expired, cut and missing tokens followed by messages, handshakes, registrations, publications and termination notices; effects are searched for on all nodes.")
prop("C19", "Published messages reach exactly the subscribers of their topic",
  "A message published to a topic is delivered, unaltered, to the actors subscribed to that topic and key and to nobody else: at most once per subscription, never for a subscription that began after or was cancelled before the publication, and never to other nodes when it was published locally only. While nothing fails it is delivered exactly once per subscription on all nodes; on the publisher's node also when the network fails, and in the publisher's order. A slow, stopped or failing subscriber or an unserialisable message does not affect the others. After faults have ended, messages published on any node reach the subscribers on all nodes again.",
  ["schedules", "fault_sequences", "histories"], "up to four nodes and six subscribers with concurrent publishers, subscriptions and cancellations, resets, partitions, stalls, crashes and restarts",
  "tests publish to a few ready subscribers on healthy nodes",
  [R + "stream/pubsub.rs", R + "stream/mediator/mod.rs", R + "net/server/session/mod.rs", R + "system/cluster.rs"],
  [("topic subscriptions", R + "stream/pubsub.rs"), ("mediator", R + "stream/mediator/mod.rs")],
  "Every delivery is matched with the publication and the subscriptions that were active; missing and surplus deliveries are violations, then fresh publications from every node probe recovery. Bursts stay below the subscription buffer of 1024.")
prop("C20", "Actors can be created on and found from any node",
  "Deploying an actor to a node either returns a reference to an actor created on that node, once, from exactly the given recipe and under the given id, which answers, or an error. A deployment that cannot be carried out (unknown type, recipe that can't be written or read, refusing factory) is an error. Looking up an id yields a node on which an actor with that id was created or nothing, never another node. While nothing fails, an actor created in a formed cluster is found from every node, deploying its id again is refused, and nothing else is. Every deployment and lookup resolves in bounded time whatever fails, and after faults have ended new actors can be deployed to and found from every node again.",
  ["schedules", "fault_sequences", "histories"], "up to four nodes with concurrent deployments, look-ups and rival deployments of the same id, resets, partitions, stalls, crashes and restarts",
  "tests deploy one actor between two healthy nodes",
  [R + "system/actor.rs", R + "actor/registry.rs", R + "cluster/node.rs", R + "handler.rs", R + "net/server/session/mod.rs", "coerce/src/actor/scheduler/mod.rs"],
  [("deployment", R + "system/actor.rs"), ("actor directory", R + "actor/registry.rs"), ("directory partitioning", R + "cluster/node.rs")],
  "Factories, actors and look-ups record what was created where; results of deployments and look-ups are judged against that record. Actors are looked up from 1.5 virtual seconds after their creation; that stopped actors are forgotten is not claimed.")
S = "coerce/src/singleton/"
prop("C24", "A cluster singleton has at most one live instance",
  "In a connected cluster whose nodes set up a singleton before joining, at most one instance of the singleton is alive at any time: from before an instance's start hook until its stop hook has finished, no other instance is started on any running node. This holds whatever the order of membership and leadership events, while leadership moves between nodes, while nodes stall, crash, restart, join late (while the others are in service) or (not hosting it) leave, and while instances are slow to start or stop or stop by themselves.",
  ["schedules", "fault_sequences", "crash_points"], "clusters of two to five nodes with stalls, crashes, restarts, departures and late members at any point of electing, leasing, starting, stopping and handing over",
  "the one test starts a singleton in a healthy cluster of two",
  [S + "manager/mod.rs", S + "manager/lease.rs", S + "manager/start.rs", S + "mod.rs"],
  [("lease protocol", S + "manager/lease.rs"), ("manager state machine", S + "manager/mod.rs"), ("instance start", S + "manager/start.rs")],
  "Start and stop hooks of all instances on all simulated machines are recorded; an instance that starts while another one is alive on a machine that has not crashed is a violation. Not claimed: partitions and broken connections (managers drop unreachable peers), departure of the hosting node, singletons set up after joining, nodes that join while others are out of service.")
prop("C25", "A cluster singleton serves requests from every node and comes back after failures",
  "A message given to a singleton on any node, also before the singleton has started, is handled at most once, and the answer is the one its own handling returned. While nothing fails each message is handled exactly once and each request is answered. Every request resolves, with an answer or an error, as long as the node it was made on runs. Within bounded time after leadership changes, stalls, crashes, restarts and departures have ended, and after an instance has stopped by itself, a single instance runs again and answers requests from every node.",
  ["schedules", "fault_sequences", "crash_points"], "clusters of two to five nodes with concurrent requests and notifications from all nodes, stalls, crashes, restarts, departures, late members, slow and stopping instances",
  "the one test sends two requests in a healthy cluster of two",
  [S + "proxy/mod.rs", S + "proxy/send.rs", S + "manager/mod.rs", S + "manager/lease.rs", S + "mod.rs"],
  [("proxy and its buffer", S + "proxy/mod.rs"), ("delivery", S + "proxy/send.rs"), ("recovery of managers", S + "manager/mod.rs")],
  "Handled messages and answers are matched by identity; after the faults, requests from every node must be answered within a bound in virtual time and every earlier request must have resolved.")
H = "coerce/src/sharding/"
prop("C21", "A sharded entity has at most one live instance",
  "In a connected cluster, at most one instance of a sharded entity is alive at any time: from before its start hook until its stop hook has finished no other instance of that entity is started on any running node. This holds while shards are allocated, re-balanced to joining nodes and moved away from crashed ones, while nodes stall for less than the heartbeat's limit, while the coordinator's node crashes and the coordinator recovers elsewhere, while requests for the same entity arrive from all nodes at once, and while entities are slow to create, start or stop or stop by themselves. Without faults an entity is started once.",
  ["schedules", "fault_sequences", "crash_points"], "clusters of one to four nodes plus late members, concurrent requests from all nodes, short stalls, crashes and restarts of any node, including the coordinator's",
  "tests start a handful of entities on healthy nodes and wait",
  [H + "coordinator/mod.rs", H + "coordinator/allocation.rs", H + "coordinator/balancing.rs", H + "coordinator/stream.rs", H + "host/mod.rs", H + "host/request.rs", H + "shard/mod.rs"],
  [("shard allocation", H + "coordinator/allocation.rs"), ("moving shards", H + "coordinator/balancing.rs"), ("shards on a node", H + "host/mod.rs"), ("entities of a shard", H + "shard/mod.rs")],
  "Start and stop hooks of entities on all simulated machines are recorded; an instance that starts while another one is alive on a machine that has not crashed is a violation. Not claimed: partitions and broken connections, nodes given up while they are running (stalls beyond the heartbeat's limit: two coordinators may act at once, there is no quorum), nodes that join while others are out of service, passivation, failing storage of the sharding journals.")
prop("C22", "Requests to a sharded entity reach it and always resolve",
  "A request for a sharded entity made on any node is handled at most once, by an instance of exactly that entity, and the answer is the one its own handling returned. Every request resolves, with an answer or an error, as long as the node it was made on runs: also when the shard is being allocated, moved, started or stopped, when an entity cannot be created or has stopped by itself, and when nodes stall, crash (coming back or not), restart or join. While nothing fails, every request for an entity that exists or comes with a usable recipe is answered. Within bounded time after faults end, requests from every node are answered again.",
  ["schedules", "fault_sequences", "crash_points"], "clusters of one to four nodes plus late members, concurrent requests with usable, missing and refused recipes, entities that stop, stalls, crashes with and without restarts",
  "tests send single requests to settled shards",
  [H + "mod.rs", H + "host/request.rs", H + "host/mod.rs", H + "shard/mod.rs", H + "shard/message.rs", H + "coordinator/allocation.rs", "coerce/src/remote/system/rpc.rs"],
  [("routing", H + "host/request.rs"), ("entity requests", H + "shard/message.rs"), ("allocation", H + "coordinator/allocation.rs")],
  "Requests, handlings and answers are matched by identity; requests pending after a bound in virtual time and probes of every entity from every node that fail after the faults are violations.")
prop("C23", "Sharded entities survive moves and crashes",
  "An entity that has been started is not forgotten: after its shard has moved to another node, after its node or the coordinator's node has crashed, and after restarts, it runs again or is started again by the next request, without that request naming a recipe, from exactly a recipe that was given for this entity, under its own id. Without crashes it goes on with the recipe it was first started with.",
  ["schedules", "fault_sequences", "crash_points"], "clusters of one to four nodes plus late members sharing one journal storage, with stalls, crashes and restarts of any node, or its loss for good, at any point of starting entities, allocating, moving and recovering shards",
  "one test recovers a few entities after an orderly restart",
  [H + "shard/mod.rs", H + "shard/recovery.rs", H + "shard/message.rs", H + "coordinator/mod.rs", H + "coordinator/allocation.rs", H + "host/mod.rs"],
  [("shard journal and recovery", H + "shard/recovery.rs"), ("entity start", H + "shard/mod.rs"), ("coordinator journal", H + "coordinator/mod.rs")],
  "Recipes carry the identity of the request that gave them; created instances are matched with them, and after the faults every entity that ever handled a request is asked from every node without a recipe.")
prop("C26", "Shards are spread evenly and stay whole",
  "Within bounded time after requests, joins, crashes and restarts have ended, the entities of one shard live on the same node, and the shards in use are distributed over all running nodes of the cluster so that no node hosts more than one shard more than another: also when members join after shards have been allocated, and when the node of the shards or of the coordinator crashed and came back.",
  ["schedules", "histories", "fault_sequences", "crash_points"], "clusters of one to four nodes plus up to two late members, up to fifteen shards and thirty entities requested concurrently from all nodes, crashes and restarts of any node",
  "the re-balancing test checks one join in a settled cluster",
  [H + "coordinator/allocation.rs", H + "coordinator/balancing.rs", H + "coordinator/stream.rs", H + "host/mod.rs"],
  [("placement", H + "coordinator/allocation.rs"), ("re-balancing", H + "coordinator/balancing.rs"), ("membership events", H + "coordinator/stream.rs")],
  "The machines on which live entities were started are compared with an even distribution of the shards their ids map to; shards that run no entity are accounted for as unknown.")
prop("C27", "The health report of a node tells the truth",
  "A request for a node's health is always answered, as soon as the slowest actor it covers has answered and not later because several are slow. The report covers exactly the actors registered for it, and not removed since, at the time of the request, and the node's own parts. An actor that has ended is reported as not answering; one that lives is reported with the time it took to answer. The overall status is unhealthy if any covered actor does not answer, otherwise degraded if any took longer than a second, otherwise healthy. The report names the node asked, its members and its leader.",
  ["schedules", "histories", "fault_sequences"], "actors registered, removed, kept busy, stopped and panicking in any interleaving with concurrent requests, on one to three nodes, with stalls, resets and partitions",
  "tests of the health report look at one idle healthy system",
  [R + "heartbeat/health.rs", R + "heartbeat/mod.rs", R + "system/mod.rs"],
  [("probing and status", R + "heartbeat/health.rs"), ("registration", R + "heartbeat/mod.rs")],
  "Every report is compared with the recorded history of registrations, work and ends of the covered actors in simulated time.")
