From 326ba76b2b9ef1441e86315d43ee786067ebdceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:06 +0000
Subject: [PATCH 01/43] fix: don't block a stopping actor on the scheduler
 while it de-registers

ActorSystem::shutdown stops the scheduler, which waits for every tracked
actor to stop; an actor that was already stopping waited for the scheduler
to reply to its de-registration, so neither made progress.
---
 coerce/src/actor/lifecycle.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coerce/src/actor/lifecycle.rs b/coerce/src/actor/lifecycle.rs
index 6c1874c..d16187c 100644
--- a/coerce/src/actor/lifecycle.rs
+++ b/coerce/src/actor/lifecycle.rs
@@ -151,11 +151,11 @@ async fn actor_stopped<A: Actor>(
             if !system.is_terminated() {
                 trace!(actor_id = actor_id.as_ref(), "de-registering actor");
 
-                system
+                // don't wait for the scheduler: if the system is being shut down it is waiting
+                // for this actor to stop (or has already stopped)
+                let _ = system
                     .scheduler()
-                    .send(DeregisterActor(actor_id.clone()))
-                    .await
-                    .expect("de-register actor");
+                    .notify(DeregisterActor(actor_id.clone()));
             }
         }
     }
-- 
2.43.0


From 2a027a5ce0fe6d965a6e8a405449cb98449a8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:38 +0000
Subject: [PATCH 02/43] fix: keep a replacement actor registered when its
 predecessor stops

De-registration went by ID alone, so stopping an actor removed whichever
actor was registered under that ID by then, and an actor that stopped while
it was being registered left an entry nobody would remove. References are
now invalid once the stopped hook has run, and only invalid entries are
removed, refused or hidden.
---
 coerce/src/actor/lifecycle.rs     | 25 +++++++++++++++++++++++--
 coerce/src/actor/scheduler/mod.rs | 13 ++++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/coerce/src/actor/lifecycle.rs b/coerce/src/actor/lifecycle.rs
index d16187c..058c64c 100644
--- a/coerce/src/actor/lifecycle.rs
+++ b/coerce/src/actor/lifecycle.rs
@@ -67,7 +67,15 @@ impl ActorLoop {
         ActorMetrics::incr_actor_created(A::type_name());
 
         if ctx.get_status() == &Stopping {
-            return actor_stopped(&mut actor, actor_type, &mut system, &actor_id, &mut ctx).await;
+            return actor_stopped(
+                &mut actor,
+                actor_type,
+                &mut receiver,
+                &mut system,
+                &actor_id,
+                &mut ctx,
+            )
+            .await;
         }
 
         ctx.set_status(Started);
@@ -131,13 +139,22 @@ impl ActorLoop {
 
         ctx.set_status(Stopping);
 
-        actor_stopped(&mut actor, actor_type, &mut system, &actor_id, &mut ctx).await
+        actor_stopped(
+            &mut actor,
+            actor_type,
+            &mut receiver,
+            &mut system,
+            &actor_id,
+            &mut ctx,
+        )
+        .await
     }
 }
 
 async fn actor_stopped<A: Actor>(
     actor: &mut A,
     actor_type: ActorType,
+    receiver: &mut UnboundedReceiver<MessageHandler<A>>,
     system: &mut Option<ActorSystem>,
     actor_id: &ActorId,
     mut ctx: &mut ActorContext,
@@ -146,6 +163,10 @@ async fn actor_stopped<A: Actor>(
 
     ctx.set_status(Stopped);
 
+    // from here on no reference to this actor is valid, which is how the scheduler tells it apart
+    // from a newer actor registered under the same ID
+    receiver.close();
+
     if actor_type.is_tracked() {
         if let Some(system) = system.take() {
             if !system.is_terminated() {
diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index b2a2d0c..01c6cfd 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -191,6 +191,14 @@ where
 {
     async fn handle(&mut self, message: RegisterActor<A>, _ctx: &mut ActorContext) {
         let actor_id = message.id;
+        if !message.actor_ref.is_valid() {
+            debug!(
+                actor_id = actor_id.as_ref(),
+                "actor stopped before it was registered"
+            );
+            return;
+        }
+
         let previous_actor = self
             .actors
             .insert(actor_id.clone(), BoxedActorRef::from(message.actor_ref));
@@ -221,7 +229,9 @@ where
 #[async_trait]
 impl Handler<DeregisterActor> for ActorScheduler {
     async fn handle(&mut self, msg: DeregisterActor, _ctx: &mut ActorContext) -> () {
-        if let Some(_a) = self.actors.remove(&msg.0) {
+        if self.actors.get(&msg.0).map_or(false, |a| a.is_valid()) {
+            debug!("actor {} has been replaced, not de-registering", msg.0);
+        } else if let Some(_a) = self.actors.remove(&msg.0) {
             debug!("de-registered actor {}", msg.0);
         } else {
             warn!("actor {} not found to de-register", msg.0);
@@ -242,6 +252,7 @@ where
         let actor_ref = self
             .actors
             .get(&message.id)
+            .filter(|actor| actor.is_valid())
             .and_then(|actor| actor.as_actor());
 
         #[cfg(feature = "remote")]
-- 
2.43.0


From 3c52736c03afc14488103486e0c85f15810a1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:52 +0000
Subject: [PATCH 03/43] fix: keep the scheduler available while shutdown stops
 the tracked actors

An actor that looked up or created a tracked actor while the system was
shutting down waited for the scheduler, which was waiting for that actor to
stop.
---
 coerce/src/actor/scheduler/mod.rs | 21 +++++++++++++++++++++
 coerce/src/actor/system/mod.rs    | 17 +++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/coerce/src/actor/scheduler/mod.rs b/coerce/src/actor/scheduler/mod.rs
index 01c6cfd..906aa19 100644
--- a/coerce/src/actor/scheduler/mod.rs
+++ b/coerce/src/actor/scheduler/mod.rs
@@ -121,6 +121,27 @@ impl Handler<ActorCount> for ActorScheduler {
     }
 }
 
+pub(crate) struct GetRunningActors;
+
+impl Message for GetRunningActors {
+    type Result = Vec<BoxedActorRef>;
+}
+
+#[async_trait]
+impl Handler<GetRunningActors> for ActorScheduler {
+    async fn handle(
+        &mut self,
+        _: GetRunningActors,
+        _ctx: &mut ActorContext,
+    ) -> Vec<BoxedActorRef> {
+        self.actors
+            .values()
+            .filter(|actor| actor.is_valid())
+            .cloned()
+            .collect()
+    }
+}
+
 pub struct SetSystem(pub ActorSystem);
 
 impl Message for SetSystem {
diff --git a/coerce/src/actor/system/mod.rs b/coerce/src/actor/system/mod.rs
index 949fa01..c1e766a 100644
--- a/coerce/src/actor/system/mod.rs
+++ b/coerce/src/actor/system/mod.rs
@@ -1,8 +1,10 @@
 //! Actor System
 //!
-use crate::actor::scheduler::{start_actor, ActorScheduler, ActorType, GetActor, RegisterActor};
+use crate::actor::scheduler::{
+    start_actor, ActorScheduler, ActorType, GetActor, GetRunningActors, RegisterActor,
+};
 use crate::actor::{
-    new_actor_id, Actor, ActorId, ActorPath, ActorRefErr, BoxedActorRef, IntoActorId,
+    new_actor_id, Actor, ActorId, ActorPath, ActorRefErr, BoxedActorRef, CoreActorRef, IntoActorId,
     LocalActorRef, ToActorId,
 };
 
@@ -217,6 +219,17 @@ impl ActorSystem {
         info!("shutting down");
 
         self.core.is_terminated.store(true, Relaxed);
+
+        // stop the tracked actors before the scheduler, which has to keep serving look-ups and
+        // registrations made by actors that are still working through their mailboxes
+        while let Ok(actors) = self.core.scheduler.send(GetRunningActors).await {
+            if actors.is_empty() {
+                break;
+            }
+
+            futures::future::join_all(actors.iter().map(|actor| actor.stop())).await;
+        }
+
         let _ = self.core.scheduler.stop().await;
 
         #[cfg(feature = "remote")]
-- 
2.43.0


From 79f86c2c61e6084dd6883e4ff311c736024a1cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:52 +0000
Subject: [PATCH 04/43] fix: notify watchers when the watched actor panics

Watchers were only told about actors that stopped gracefully, an actor whose
handler panicked disappeared silently (its parent was told).
---
 coerce/src/actor/context.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/coerce/src/actor/context.rs b/coerce/src/actor/context.rs
index cf2b3f5..246c6fa 100644
--- a/coerce/src/actor/context.rs
+++ b/coerce/src/actor/context.rs
@@ -16,6 +16,7 @@ use valuable::{Fields, NamedField, NamedValues, StructDef, Structable, Valuable,
 
 use crate::actor::supervised::{ChildRef, Supervised};
 use crate::actor::watch::watchers::Watchers;
+use crate::actor::watch::ActorTerminated;
 
 #[cfg(feature = "persistence")]
 use crate::persistent::context::ActorPersistence;
@@ -348,6 +349,14 @@ impl Drop for ActorContext {
     fn drop(&mut self) {
         let parent_ref = self.boxed_parent_ref.take();
 
+        // normally taken once the stopped hook has run, still here if the actor panicked
+        if let Some(watchers) = self.take_watchers() {
+            let actor_terminated = ActorTerminated::from(self.boxed_actor_ref());
+            for watcher in watchers.iter() {
+                let _ = watcher.notify(actor_terminated.clone());
+            }
+        }
+
         if let Some(mut supervised) = self.supervised.take() {
             let parent_ref = parent_ref.clone();
             let boxed_ref = self.boxed_ref.clone();
-- 
2.43.0


From 6eb2b2559ffacf36c0a4133edf086205705d41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:49 +0000
Subject: [PATCH 05/43] fix: give every persisted message a sequence of its own

A message was written at the last sequence already used (by the last recovered
message, or by the snapshot) instead of the one after it: recovery from the
in-memory journal skipped the first message after a snapshot, an actor that
was restarted re-used its last sequence (out of order recovery; a lost event
if the payload is identical, as the redis journal is a set).
---
 coerce/src/persistent/journal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coerce/src/persistent/journal/mod.rs b/coerce/src/persistent/journal/mod.rs
index 9ebfea7..bfb90c8 100644
--- a/coerce/src/persistent/journal/mod.rs
+++ b/coerce/src/persistent/journal/mod.rs
@@ -266,11 +266,13 @@ impl<A: PersistentActor> Journal<A> {
             .message_type_mapping::<M>()
             .expect("message type not configured");
 
+        let sequence = self.last_sequence_id + 1;
+
         self.storage
             .write_message(
                 &self.persistence_id,
                 JournalEntry {
-                    sequence: self.last_sequence_id,
+                    sequence,
                     payload_type: payload_type.clone(),
                     bytes,
                 },
@@ -283,7 +285,7 @@ impl<A: PersistentActor> Journal<A> {
             M::type_name()
         );
 
-        self.last_sequence_id += 1;
+        self.last_sequence_id = sequence;
         Ok(())
     }
 
-- 
2.43.0


From eca9efad39918a5e64cd662ce721e2177df3d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:04 +0000
Subject: [PATCH 06/43] fix: use the storage provider configured for the
 actor's type

The provider was looked up by the type of the actor reference, which never
matches what Persistence::actor_provider registers.
---
 coerce/src/actor/context.rs    | 8 +++++---
 coerce/src/persistent/actor.rs | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/coerce/src/actor/context.rs b/coerce/src/actor/context.rs
index 246c6fa..d52eeea 100644
--- a/coerce/src/actor/context.rs
+++ b/coerce/src/actor/context.rs
@@ -19,7 +19,9 @@ use crate::actor::watch::watchers::Watchers;
 use crate::actor::watch::ActorTerminated;
 
 #[cfg(feature = "persistence")]
-use crate::persistent::context::ActorPersistence;
+use crate::persistent::{context::ActorPersistence, PersistentActor};
+#[cfg(feature = "persistence")]
+use std::any::TypeId;
 
 #[derive(Debug, Eq, PartialEq, Clone)]
 pub enum ActorStatus {
@@ -477,7 +479,7 @@ impl Default for StreamAttachmentOptions {
 
 impl ActorContext {
     #[cfg(feature = "persistence")]
-    pub fn with_persistence(self) -> Self {
+    pub fn with_persistence<A: PersistentActor>(self) -> Self {
         let mut ctx = self;
         let persistence = ctx
             .system()
@@ -485,7 +487,7 @@ impl ActorContext {
             .expect("persistence not configured");
 
         ctx.persistence = Some(ActorPersistence::new(
-            persistence.provider(ctx.boxed_ref.type_id()),
+            persistence.provider(TypeId::of::<A>()),
         ));
 
         ctx
diff --git a/coerce/src/persistent/actor.rs b/coerce/src/persistent/actor.rs
index aeee06b..807bded 100644
--- a/coerce/src/persistent/actor.rs
+++ b/coerce/src/persistent/actor.rs
@@ -224,7 +224,8 @@ where
         status: ActorStatus,
         boxed_ref: BoxedActorRef,
     ) -> ActorContext {
-        ActorContext::new(system, status, boxed_ref, Self::DEFAULT_TAGS).with_persistence()
+        ActorContext::new(system, status, boxed_ref, Self::DEFAULT_TAGS)
+            .with_persistence::<Self>()
     }
 
     async fn started(&mut self, ctx: &mut ActorContext) {
-- 
2.43.0


From 1af6f09d687de0dd0f8aa2e7403bcaf5351912f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:45 +0000
Subject: [PATCH 07/43] fix: return the requested range of messages from the
 in-memory journal

A range that ended before the newest message returned the wrong messages, or
panicked.
---
 coerce/src/persistent/journal/provider.rs | 49 ++++-------------------
 1 file changed, 8 insertions(+), 41 deletions(-)

diff --git a/coerce/src/persistent/journal/provider.rs b/coerce/src/persistent/journal/provider.rs
index 8d2de5f..138dbc7 100644
--- a/coerce/src/persistent/journal/provider.rs
+++ b/coerce/src/persistent/journal/provider.rs
@@ -201,49 +201,16 @@ pub mod inmemory {
                     if journal.messages.is_empty() {
                         Ok(None)
                     } else {
-                        let first_seq = journal.messages.first().map(|m| m.sequence).unwrap();
-                        let final_seq = journal.messages.last().map(|m| m.sequence).unwrap();
-
-                        if to_sequence >= final_seq {
-                            if first_seq >= from_sequence {
-                                Ok(Some(journal.messages.clone()))
-                            } else {
-                                let starting_message = journal
-                                    .messages
-                                    .iter()
-                                    .enumerate()
-                                    .find(|(_index, j)| j.sequence > from_sequence)
-                                    .map(|(index, _j)| index);
-
-                                if let Some(starting_index) = starting_message {
-                                    Ok(Some(
-                                        journal.messages[starting_index..]
-                                            .iter()
-                                            .cloned()
-                                            .collect(),
-                                    ))
-                                } else {
-                                    Ok(Some(vec![]))
-                                }
-                            }
-                        } else if first_seq >= from_sequence {
-                            let end_message = journal
+                        Ok(Some(
+                            journal
                                 .messages
                                 .iter()
-                                .enumerate()
-                                .find(|(_index, j)| j.sequence > from_sequence)
-                                .map(|(index, _j)| index);
-
-                            if let Some(end_index) = end_message {
-                                Ok(Some(
-                                    journal.messages[..end_index].iter().cloned().collect(),
-                                ))
-                            } else {
-                                Ok(Some(vec![]))
-                            }
-                        } else {
-                            panic!("todo: this")
-                        }
+                                .filter(|m| {
+                                    m.sequence >= from_sequence && m.sequence <= to_sequence
+                                })
+                                .cloned()
+                                .collect(),
+                        ))
                     }
                 }
             }
-- 
2.43.0


From 9364eb1e7a5d423416d5c6efe129e332a8e48551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:35 +0000
Subject: [PATCH 08/43] fix: don't give a message the sequence of a snapshot
 whose write failed

---
 coerce/src/persistent/journal/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/coerce/src/persistent/journal/mod.rs b/coerce/src/persistent/journal/mod.rs
index bfb90c8..28f998d 100644
--- a/coerce/src/persistent/journal/mod.rs
+++ b/coerce/src/persistent/journal/mod.rs
@@ -26,6 +26,7 @@ pub struct Journal<A: PersistentActor> {
     persistence_id: String,
     last_sequence_id: i64,
     last_snapshot_sequence_id: Option<i64>,
+    unconfirmed_snapshot_sequence_id: Option<i64>,
     storage: JournalStorageRef,
     types: Arc<JournalTypes<A>>,
 }
@@ -39,6 +40,7 @@ impl<A: PersistentActor> Journal<A> {
             persistence_id,
             last_sequence_id,
             last_snapshot_sequence_id,
+            unconfirmed_snapshot_sequence_id: None,
             storage,
             types,
         }
@@ -51,6 +53,13 @@ impl<A: PersistentActor> Journal<A> {
     pub fn last_sequence_id(&self) -> i64 {
         self.last_sequence_id
     }
+
+    // a snapshot whose write failed may have been stored nevertheless, and would then stand for
+    // every message up to its sequence: no message can be given that sequence
+    fn last_used_sequence_id(&self) -> i64 {
+        self.unconfirmed_snapshot_sequence_id
+            .map_or(self.last_sequence_id, |s| s.max(self.last_sequence_id))
+    }
 }
 
 type RecoveryHandlerRef<A> = Arc<dyn RecoveryHandler<A>>;
@@ -205,7 +214,7 @@ pub enum Read {
 
 impl<A: PersistentActor> Journal<A> {
     pub async fn persist_batch(&mut self, batch: &EventBatch<A>) -> Result<(), PersistErr> {
-        let mut sequence_id = self.last_sequence_id;
+        let mut sequence_id = self.last_used_sequence_id();
         let batch = batch
             .entries()
             .iter()
@@ -266,7 +275,7 @@ impl<A: PersistentActor> Journal<A> {
             .message_type_mapping::<M>()
             .expect("message type not configured");
 
-        let sequence = self.last_sequence_id + 1;
+        let sequence = self.last_used_sequence_id() + 1;
 
         self.storage
             .write_message(
@@ -304,6 +313,7 @@ impl<A: PersistentActor> Journal<A> {
             .expect("snapshot type not configured");
 
         let sequence = self.last_sequence_id + 1;
+        self.unconfirmed_snapshot_sequence_id = Some(sequence);
 
         self.storage
             .write_snapshot(
-- 
2.43.0


From 9c78c0679a67caddd17ebd7708aa0af15f953b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:41 +0000
Subject: [PATCH 09/43] fix: don't share the remote actor ref cache between
 actor systems

The process wide cache was keyed by actor id only, so with several actor
systems in one process a remote message was handled by another system's
actor of the same id.
---
 coerce/src/remote/handler.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/coerce/src/remote/handler.rs b/coerce/src/remote/handler.rs
index d145d1d..d8924e2 100644
--- a/coerce/src/remote/handler.rs
+++ b/coerce/src/remote/handler.rs
@@ -14,6 +14,7 @@ use std::marker::PhantomData;
 use std::time::Duration;
 
 use tokio::sync::oneshot::Sender;
+use uuid::Uuid;
 
 #[async_trait]
 pub trait ActorHandler: 'static + Any + Sync + Send {
@@ -184,7 +185,7 @@ where
 }
 
 struct ActorRefCache {
-    inner: parking_lot::Mutex<HashMap<ActorId, BoxedActorRef>>,
+    inner: parking_lot::Mutex<HashMap<(Uuid, ActorId), BoxedActorRef>>,
 }
 
 impl ActorRefCache {
@@ -194,12 +195,17 @@ impl ActorRefCache {
         }
     }
 
-    pub fn add(&self, actor_id: &ActorId, actor_ref: BoxedActorRef) {
-        self.inner.lock().insert(actor_id.clone(), actor_ref);
+    pub fn add(&self, system_id: &Uuid, actor_id: &ActorId, actor_ref: BoxedActorRef) {
+        self.inner
+            .lock()
+            .insert((*system_id, actor_id.clone()), actor_ref);
     }
 
-    pub fn get(&self, actor_id: &ActorId) -> Option<BoxedActorRef> {
-        self.inner.lock().get(actor_id).cloned()
+    pub fn get(&self, system_id: &Uuid, actor_id: &ActorId) -> Option<BoxedActorRef> {
+        self.inner
+            .lock()
+            .get(&(*system_id, actor_id.clone()))
+            .cloned()
     }
 
     pub fn len(&self) -> usize {
@@ -221,7 +227,7 @@ async fn get_actor_ref<A: Actor>(
     system: &ActorSystem,
     actor_id: &ActorId,
 ) -> Option<LocalActorRef<A>> {
-    if let Some(boxed_ref) = ACTOR_REF_CACHE.get(actor_id) {
+    if let Some(boxed_ref) = ACTOR_REF_CACHE.get(system.system_id(), actor_id) {
         let actor_ref = boxed_ref.as_actor();
         if let Some(actor_ref) = actor_ref {
             if actor_ref.is_valid() {
@@ -231,7 +237,11 @@ async fn get_actor_ref<A: Actor>(
     }
 
     if let Some(actor_ref) = system.get_tracked_actor::<A>(actor_id.clone()).await {
-        ACTOR_REF_CACHE.add(actor_id, BoxedActorRef::from(actor_ref.clone()));
+        ACTOR_REF_CACHE.add(
+            system.system_id(),
+            actor_id,
+            BoxedActorRef::from(actor_ref.clone()),
+        );
 
         Some(actor_ref)
     } else {
-- 
2.43.0


From 88d229de4e4fe00d2c43d4e24737edef4e9f2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:00 +0000
Subject: [PATCH 10/43] fix: fail remote requests when the connection they
 depend on is lost

A request written to a connection which was then lost (or addressed to a
node without a client) was never resolved: the caller waited forever.
---
 coerce/src/remote/actor/clients.rs      |  6 ++--
 coerce/src/remote/actor/message.rs      |  3 +-
 coerce/src/remote/actor/mod.rs          | 18 ++++++++++++
 coerce/src/remote/actor/registry.rs     |  6 ++--
 coerce/src/remote/actor_ref.rs          |  3 +-
 coerce/src/remote/net/client/connect.rs | 21 ++++++++++++--
 coerce/src/remote/system/cluster.rs     |  9 ++++--
 coerce/src/remote/system/rpc.rs         | 37 +++++++++++++++++++++++--
 8 files changed, 88 insertions(+), 15 deletions(-)

diff --git a/coerce/src/remote/actor/clients.rs b/coerce/src/remote/actor/clients.rs
index b494f3c..40f3cec 100644
--- a/coerce/src/remote/actor/clients.rs
+++ b/coerce/src/remote/actor/clients.rs
@@ -97,7 +97,7 @@ impl Handler<ClientConnected> for RemoteClientRegistry {
 
 #[async_trait]
 impl Handler<ClientWrite> for RemoteClientRegistry {
-    async fn handle(&mut self, message: ClientWrite, _ctx: &mut ActorContext) {
+    async fn handle(&mut self, message: ClientWrite, _ctx: &mut ActorContext) -> bool {
         let node_id = message.0;
         let message = message.1;
 
@@ -106,11 +106,11 @@ impl Handler<ClientWrite> for RemoteClientRegistry {
 
         if let Some(client) = self.node_id_registry.get(&node_id) {
             trace!("emitting message ({:?}) to node_id={}", &message, &node_id);
-            client.notify(Write(message)).expect("send client msg");
-            trace!("written data to client");
+            client.notify(Write(message)).is_ok()
         } else {
             // TODO: should we buffer the message incase the client will eventually exist
             warn!("attempted to write message to node_id={} but no client was registered (message={:?})", &node_id, &message);
+            false
         }
     }
 }
diff --git a/coerce/src/remote/actor/message.rs b/coerce/src/remote/actor/message.rs
index 4ce460f..5a14574 100644
--- a/coerce/src/remote/actor/message.rs
+++ b/coerce/src/remote/actor/message.rs
@@ -90,7 +90,8 @@ impl Message for NodeTerminated {
 pub struct ClientWrite(pub NodeId, pub SessionEvent);
 
 impl Message for ClientWrite {
-    type Result = ();
+    /// `false` if there is no client to write the message
+    type Result = bool;
 }
 
 #[derive(Debug)]
diff --git a/coerce/src/remote/actor/mod.rs b/coerce/src/remote/actor/mod.rs
index 1e113c6..52960a6 100644
--- a/coerce/src/remote/actor/mod.rs
+++ b/coerce/src/remote/actor/mod.rs
@@ -1,6 +1,7 @@
 use crate::actor::ActorRefErr;
 
 use crate::remote::handler::{ActorHandler, ActorMessageHandler};
+use crate::remote::system::NodeId;
 
 use std::collections::HashMap;
 use uuid::Uuid;
@@ -26,6 +27,20 @@ impl RemoteHandler {
         self.requests.remove(&message_id)
     }
 
+    /// Removes every request that is waiting for a response from the given node
+    pub fn take_node_requests(&mut self, node_id: NodeId) -> Vec<RemoteRequest> {
+        let ids: Vec<Uuid> = self
+            .requests
+            .iter()
+            .filter(|(_, request)| request.node_id == Some(node_id))
+            .map(|(id, _)| *id)
+            .collect();
+
+        ids.iter()
+            .filter_map(|id| self.requests.remove(id))
+            .collect()
+    }
+
     pub fn inflight_request_count(&self) -> usize {
         self.requests.len()
     }
@@ -33,6 +48,9 @@ impl RemoteHandler {
 
 pub struct RemoteRequest {
     pub res_tx: tokio::sync::oneshot::Sender<RemoteResponse>,
+
+    /// The node expected to respond, if the request is bound to a node's connection
+    pub node_id: Option<NodeId>,
 }
 
 #[derive(Debug)]
diff --git a/coerce/src/remote/actor/registry.rs b/coerce/src/remote/actor/registry.rs
index bf8538c..b10b646 100644
--- a/coerce/src/remote/actor/registry.rs
+++ b/coerce/src/remote/actor/registry.rs
@@ -149,7 +149,7 @@ impl Handler<GetActorNode> for RemoteRegistry {
                 let (res_tx, res_rx) = tokio::sync::oneshot::channel();
 
                 trace!("remote request={}", message_id);
-                system.push_request(message_id, res_tx);
+                system.push_node_request(message_id, assigned_registry_node, res_tx);
 
                 trace!("sending actor lookup request to={}", assigned_registry_node);
                 let trace_id = String::new(); //extract_trace_identifier(&span);
@@ -182,7 +182,9 @@ impl Handler<GetActorNode> for RemoteRegistry {
                             }
                         }
                     }
-                    _ => panic!("get actornode failed"),
+                    _ => {
+                        warn!("actor lookup failed (node_id={})", assigned_registry_node);
+                    }
                 }
             });
         }
diff --git a/coerce/src/remote/actor_ref.rs b/coerce/src/remote/actor_ref.rs
index 72ecc97..33782f9 100644
--- a/coerce/src/remote/actor_ref.rs
+++ b/coerce/src/remote/actor_ref.rs
@@ -76,9 +76,8 @@ where
         let id = Uuid::new_v4();
 
         let (res_tx, res_rx) = oneshot::channel();
-        self.system.push_request(id, res_tx);
-
         let event = self.create_request(msg, String::new(), id, true)?;
+        self.system.push_node_request(id, self.node_id, res_tx);
 
         // TODO: we could make this fail fast if the node is known to be terminated?
         self.system.notify_node(self.node_id, event).await;
diff --git a/coerce/src/remote/net/client/connect.rs b/coerce/src/remote/net/client/connect.rs
index a694e4f..91ff104 100644
--- a/coerce/src/remote/net/client/connect.rs
+++ b/coerce/src/remote/net/client/connect.rs
@@ -114,6 +114,15 @@ impl RemoteClient {
     }
 }
 
+impl RemoteClient {
+    /// Responses only arrive via the connection the request was written to
+    fn fail_requests(&self, ctx: &ActorContext) {
+        if let Some(node_id) = self.node_id {
+            ctx.system().remote().fail_node_requests(node_id);
+        }
+    }
+}
+
 pub struct Disconnected;
 
 const RECONNECT_DELAY: Duration = Duration::from_millis(5000);
@@ -303,6 +312,8 @@ impl Handler<Disconnected> for RemoteClient {
                         "client terminating, no longer attempting to re-connect"
                     );
 
+                    self.fail_requests(ctx);
+
                     ClientState::Terminated
                 } else {
                     ClientState::Idle {
@@ -311,9 +322,13 @@ impl Handler<Disconnected> for RemoteClient {
                 }
             }
 
-            ClientState::Connected(mut state) => ClientState::Idle {
-                connection_attempts: 1,
-            },
+            ClientState::Connected(_) => {
+                self.fail_requests(ctx);
+
+                ClientState::Idle {
+                    connection_attempts: 1,
+                }
+            }
 
             state => state,
         };
diff --git a/coerce/src/remote/system/cluster.rs b/coerce/src/remote/system/cluster.rs
index e335a05..b99f961 100644
--- a/coerce/src/remote/system/cluster.rs
+++ b/coerce/src/remote/system/cluster.rs
@@ -31,11 +31,16 @@ impl RemoteActorSystem {
     }
 
     pub async fn notify_node(&self, node_id: NodeId, message: SessionEvent) {
-        self.inner
+        let written = self
+            .inner
             .clients_ref
             .send(ClientWrite(node_id, message))
             .await
-            .unwrap()
+            .unwrap_or(false);
+
+        if !written {
+            self.fail_node_requests(node_id);
+        }
     }
 
     pub fn current_leader(&self) -> Option<NodeId> {
diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index 4e583c2..55e94a2 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -94,7 +94,7 @@ impl RemoteActorSystem {
             "message_id={}, created channel, storing request",
             &message_id
         );
-        self.push_request(message_id, res_tx);
+        self.push_node_request(message_id, node_id, res_tx);
 
         trace!(
             "message_id={}, emitting event to node_id={}",
@@ -192,7 +192,40 @@ impl RemoteActorSystem {
 
     pub fn push_request(&self, id: Uuid, res_tx: oneshot::Sender<RemoteResponse>) {
         let mut handler = self.inner.handler_ref.lock();
-        handler.push_request(id, RemoteRequest { res_tx });
+        handler.push_request(
+            id,
+            RemoteRequest {
+                res_tx,
+                node_id: None,
+            },
+        );
+    }
+
+    /// Stores a request that can only be answered via the connection to `node_id`
+    pub fn push_node_request(
+        &self,
+        id: Uuid,
+        node_id: NodeId,
+        res_tx: oneshot::Sender<RemoteResponse>,
+    ) {
+        let mut handler = self.inner.handler_ref.lock();
+        handler.push_request(
+            id,
+            RemoteRequest {
+                res_tx,
+                node_id: Some(node_id),
+            },
+        );
+    }
+
+    /// Fails all requests waiting for a response from `node_id`, used when the connection is lost
+    pub fn fail_node_requests(&self, node_id: NodeId) {
+        let requests = self.inner.handler_ref.lock().take_node_requests(node_id);
+        for request in requests {
+            let _ = request
+                .res_tx
+                .send(RemoteResponse::Err(ActorRefErr::ActorUnavailable));
+        }
     }
 
     pub fn pop_request(&self, id: Uuid) -> Option<oneshot::Sender<RemoteResponse>> {
-- 
2.43.0


From 64a27f4859997ab4cd5b63409f9bcf1a7520eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:00 +0000
Subject: [PATCH 11/43] fix: don't wait for a response to a remote result or
 error

The responder registered a request of its own for every error or result it
sent to another node, which nothing ever answers: each one left a task and
a request entry behind.
---
 coerce/src/remote/system/rpc.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index 55e94a2..b0c683e 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -128,12 +128,7 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
-                error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
-                );
-            }
+            self.notify_node(node_id, result).await;
         }
     }
 
@@ -156,12 +151,7 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
-                error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
-                );
-            }
+            self.notify_node(node_id, result).await;
         }
     }
 
-- 
2.43.0


From 3966558cacc6914f5a5d71e705ca09eca4c0889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:23 +0000
Subject: [PATCH 12/43] fix: don't deadlock a client whose connection closes
 before it is identified

---
 coerce/src/remote/net/client/receive.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coerce/src/remote/net/client/receive.rs b/coerce/src/remote/net/client/receive.rs
index ae339d8..1f46b82 100644
--- a/coerce/src/remote/net/client/receive.rs
+++ b/coerce/src/remote/net/client/receive.rs
@@ -156,6 +156,12 @@ impl StreamReceiver for ClientMessageReceiver {
     }
 
     async fn on_close(&mut self, _sys: &RemoteActorSystem) {
+        if self.identity_sender.take().is_some() {
+            // not identified yet, `RemoteClient::connect` is still waiting for the identity
+            // and deals with the lost connection
+            return;
+        }
+
         info!("closed, sending `Disconnected` to {:?}", &self.actor_ref);
         let _ = self.actor_ref.send(Disconnected).await;
     }
-- 
2.43.0


From 259e8a8249931e10c9789fb46998db3f9f3dfc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:23 +0000
Subject: [PATCH 13/43] fix: don't wait forever for the identity of a node that
 went silent

---
 coerce/src/remote/net/client/connect.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/coerce/src/remote/net/client/connect.rs b/coerce/src/remote/net/client/connect.rs
index 91ff104..e895afb 100644
--- a/coerce/src/remote/net/client/connect.rs
+++ b/coerce/src/remote/net/client/connect.rs
@@ -94,13 +94,15 @@ impl RemoteClient {
             PingTick,
         ));
 
-        let identity = match identity_rx.await {
-            Ok(identity) => identity,
-            Err(_) => {
+        let identity = match tokio::time::timeout(IDENTITY_TIMEOUT, identity_rx).await {
+            Ok(Ok(identity)) => identity,
+            _ => {
                 warn!(
                     ctx = log_ctx.as_value(),
                     "no identity received (addr={})", &self.addr
                 );
+
+                receive_task.abort();
                 return None;
             }
         };
@@ -127,6 +129,8 @@ pub struct Disconnected;
 
 const RECONNECT_DELAY: Duration = Duration::from_millis(5000);
 
+const IDENTITY_TIMEOUT: Duration = Duration::from_millis(5000);
+
 #[async_trait]
 impl Handler<Connect> for RemoteClient {
     async fn handle(&mut self, message: Connect, ctx: &mut ActorContext) {
-- 
2.43.0


From 972fa201376f928543d1650bd2d8b904c68ecf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:02 +0000
Subject: [PATCH 14/43] fix: report the failure of a remote request via the
 connection it arrived on

---
 coerce/src/remote/net/server/session/mod.rs | 35 ++++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 04d247b..d175e83 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -1,6 +1,6 @@
 use crate::actor::context::{ActorContext, LogContext};
 use crate::actor::message::Handler;
-use crate::actor::{Actor, ActorId, IntoActorId, LocalActorRef};
+use crate::actor::{Actor, ActorId, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::remote::actor::message::NodeTerminated;
 use crate::remote::actor::RemoteResponse;
 use crate::remote::cluster::discovery::{Discover, Seed};
@@ -9,8 +9,8 @@ use crate::remote::net::message::{
     datetime_to_timestamp, timestamp_to_datetime, ClientEvent, SessionEvent,
 };
 use crate::remote::net::proto::network::{
-    ActorAddress, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest, NodeIdentity,
-    PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
+    ActorAddress, ClientErr, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest,
+    NodeIdentity, PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
     SystemCapabilities,
 };
 use crate::remote::net::server::session::store::{RemoteSessionStore, SessionClosed, SessionWrite};
@@ -556,9 +556,9 @@ async fn session_handle_message(
         }
         Err(e) => {
             error!("[node={}] failed to handle message (handler_type={}, target_actor_id={}), error={:?}", ctx.node_id(), &msg.handler_type, &actor_id, e);
-            let _ = ctx
-                .notify_rpc_err(msg.message_id.parse().unwrap(), e, msg.origin_node_id)
-                .await;
+            if msg.requires_response {
+                send_error(msg.message_id.parse().unwrap(), e, session_id, session).await;
+            }
         }
     }
 }
@@ -612,8 +612,10 @@ async fn session_create_actor(
         .await
     {
         Ok(buf) => send_result(msg_id.parse().unwrap(), buf.to_vec(), session_id, session).await,
-        Err(_) => {
-            error!("failed to handle message, todo: send err");
+        Err(e) => {
+            error!("failed to create actor, error={:?}", e);
+            let error = ActorRefErr::ActorStartFailed;
+            send_error(msg_id.parse().unwrap(), error, session_id, session).await;
         }
     }
 }
@@ -645,3 +647,20 @@ async fn send_result(
         error!("failed to send result");
     }
 }
+
+async fn send_error(
+    msg_id: Uuid,
+    error: ActorRefErr,
+    session_id: i64,
+    session: LocalActorRef<RemoteSession>,
+) {
+    let event = ClientEvent::Err(ClientErr {
+        message_id: msg_id.to_string(),
+        error: Some(error.into()).into(),
+        ..ClientErr::default()
+    });
+
+    if session.send(SessionWrite(session_id, event)).await.is_err() {
+        error!("failed to send error");
+    }
+}
-- 
2.43.0


From bfc3eb6f6325e5506e3c8cf9db7915ea137b066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:02 +0000
Subject: [PATCH 15/43] fix: return a usable reference to an actor deployed on
 the local node

---
 coerce/src/remote/system/actor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coerce/src/remote/system/actor.rs b/coerce/src/remote/system/actor.rs
index cc360b3..78351ca 100644
--- a/coerce/src/remote/system/actor.rs
+++ b/coerce/src/remote/system/actor.rs
@@ -167,6 +167,12 @@ impl RemoteActorSystem {
         }
 
         match actor_addr {
+            Some(actor_address) if actor_address.node_id.value == self_id => self
+                .actor_system()
+                .get_tracked_actor::<F::Actor>(actor_address.actor_id.into_actor_id())
+                .await
+                .map(ActorRef::from)
+                .ok_or(RemoteActorErr::ActorUnavailable),
             Some(actor_address) => {
                 let actor_ref = RemoteActorRef::<F::Actor>::new(
                     actor_address.actor_id.into_actor_id(),
-- 
2.43.0


From 41dec83b5532e0c565e2737e1dd84f059f8d3d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:33 +0000
Subject: [PATCH 16/43] fix: don't let an unauthenticated client block or stop
 a node's session store

---
 coerce/src/remote/net/server/mod.rs           |  2 +-
 coerce/src/remote/net/server/session/mod.rs   |  7 +++++--
 coerce/src/remote/net/server/session/store.rs | 11 +++++------
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/coerce/src/remote/net/server/mod.rs b/coerce/src/remote/net/server/mod.rs
index ea634dc..f70d008 100644
--- a/coerce/src/remote/net/server/mod.rs
+++ b/coerce/src/remote/net/server/mod.rs
@@ -133,7 +133,7 @@ pub async fn server_loop(
                     )))
                     .await;
 
-                if let Err(e) = session {
+                if let Err(e) | Ok(Err(e)) = session {
                     error!(
                         "error creating session actor (session_id={}, addr={}), error: {:?}",
                         session_id, addr, e
diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index d175e83..8d7720a 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -28,6 +28,7 @@ use std::io::Error;
 use std::net::SocketAddr;
 use std::str::FromStr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::io::{ReadHalf, WriteHalf};
 use tokio::net::TcpStream;
 use tokio::sync::oneshot;
@@ -144,14 +145,16 @@ impl Actor for RemoteSession {
     }
 }
 
+const IDENTIFY_TIMEOUT: Duration = Duration::from_secs(5);
+
 async fn validate_session_token(
     ctx: &mut ActorContext,
     log: LogContext,
     system: &RemoteActorSystem,
     read: &mut FramedRead<ReadHalf<TcpStream>, LengthDelimitedCodec>,
 ) -> bool {
-    let bytes = read.next().await;
-    if let Some(Ok(bytes)) = bytes {
+    let bytes = tokio::time::timeout(IDENTIFY_TIMEOUT, read.next()).await;
+    if let Ok(Some(Ok(bytes))) = bytes {
         match SessionEvent::read_from_bytes(bytes.to_vec()) {
             Some(SessionEvent::Identify(identify)) => {
                 let token = identify.token;
diff --git a/coerce/src/remote/net/server/session/store.rs b/coerce/src/remote/net/server/session/store.rs
index fb7f139..cec3348 100644
--- a/coerce/src/remote/net/server/session/store.rs
+++ b/coerce/src/remote/net/server/session/store.rs
@@ -1,6 +1,6 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
-use crate::actor::{Actor, IntoActorId, LocalActorRef};
+use crate::actor::{Actor, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::remote::net::message::ClientEvent;
 use crate::remote::net::server::session::RemoteSession;
 use std::collections::HashMap;
@@ -27,7 +27,7 @@ pub struct SessionWrite(pub i64, pub ClientEvent);
 pub struct SessionClosed(pub i64);
 
 impl Message for NewSession {
-    type Result = LocalActorRef<RemoteSession>;
+    type Result = Result<LocalActorRef<RemoteSession>, ActorRefErr>;
 }
 
 impl Message for SessionClosed {
@@ -44,7 +44,7 @@ impl Handler<NewSession> for RemoteSessionStore {
         &mut self,
         message: NewSession,
         ctx: &mut ActorContext,
-    ) -> LocalActorRef<RemoteSession> {
+    ) -> Result<LocalActorRef<RemoteSession>, ActorRefErr> {
         let session_id = message.0.id;
         let session = message.0;
 
@@ -53,13 +53,12 @@ impl Handler<NewSession> for RemoteSessionStore {
                 format!("session-{}", session_id.to_string()).into_actor_id(),
                 session,
             )
-            .await
-            .expect("unable to create session actor");
+            .await?;
 
         let node_id = ctx.system().remote().node_id();
         debug!(node_id = node_id, "new session {}", &session_id);
         self.sessions.insert(session_id, session_actor.clone());
-        session_actor
+        Ok(session_actor)
     }
 }
 
-- 
2.43.0


From 62731c16e024682ff137a492c79fa5aec4791b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:15 +0000
Subject: [PATCH 17/43] fix: don't deadlock the session store on a session that
 fails to authenticate

---
 coerce/src/remote/net/server/session/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 8d7720a..efacb9f 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -140,7 +140,8 @@ impl Actor for RemoteSession {
         let _ = self.write.close().await;
 
         if let Some(session_store) = ctx.parent::<RemoteSessionStore>() {
-            let _ = session_store.send(SessionClosed(self.id)).await;
+            // the store may be waiting for this session to start
+            let _ = session_store.notify(SessionClosed(self.id));
         }
     }
 }
-- 
2.43.0


From 5aa87044fc4fd0742fe1fa0825299331be3a5f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 18/43] fix: report the leader for node ids in the upper half
 of the id range

---
 coerce/src/remote/system/builder.rs | 3 ++-
 coerce/src/remote/system/cluster.rs | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/coerce/src/remote/system/builder.rs b/coerce/src/remote/system/builder.rs
index 56b0934..0a6d337 100644
--- a/coerce/src/remote/system/builder.rs
+++ b/coerce/src/remote/system/builder.rs
@@ -9,6 +9,7 @@ use crate::remote::actor::{
 use crate::remote::handler::{RemoteActorHandler, RemoteActorMessageHandler};
 use crate::remote::heartbeat::{Heartbeat, HeartbeatConfig};
 use crate::remote::stream::mediator::StreamMediator;
+use crate::remote::system::cluster::NO_LEADER;
 use crate::remote::system::{AtomicNodeId, NodeId, RemoteActorSystem, RemoteSystemCore};
 
 use rand::RngCore;
@@ -199,7 +200,7 @@ impl RemoteActorSystemBuilder {
             current_leader: Arc::new(AtomicNodeId::new(if self.single_node_cluster {
                 node_id as i64
             } else {
-                -1
+                NO_LEADER
             })),
         };
 
diff --git a/coerce/src/remote/system/cluster.rs b/coerce/src/remote/system/cluster.rs
index b99f961..a89fb79 100644
--- a/coerce/src/remote/system/cluster.rs
+++ b/coerce/src/remote/system/cluster.rs
@@ -5,6 +5,9 @@ use crate::remote::net::message::SessionEvent;
 use crate::remote::system::{NodeId, RemoteActorSystem};
 use std::sync::atomic::Ordering;
 
+/// Node ids use the full `u64` range, so the sign of the stored id says nothing
+pub(super) const NO_LEADER: i64 = -1;
+
 impl RemoteActorSystem {
     pub async fn register_node(&self, node: RemoteNode) {
         self.inner
@@ -45,7 +48,7 @@ impl RemoteActorSystem {
 
     pub fn current_leader(&self) -> Option<NodeId> {
         let n = self.inner.current_leader.load(Ordering::SeqCst);
-        if n >= 0 {
+        if n != NO_LEADER {
             Some(n as NodeId)
         } else {
             None
@@ -57,7 +60,7 @@ impl RemoteActorSystem {
             .inner
             .current_leader
             .swap(new_leader as i64, Ordering::SeqCst);
-        if n >= 0 {
+        if n != NO_LEADER {
             Some(n as NodeId)
         } else {
             None
-- 
2.43.0


From 1d1b89cc68bac204d1d10e35723ec5ab93acbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:19 +0000
Subject: [PATCH 19/43] fix: rediscover nodes whose handshake failed or whose
 connection was lost

---
 coerce/src/remote/cluster/discovery/mod.rs | 53 ++++++++++++----------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/coerce/src/remote/cluster/discovery/mod.rs b/coerce/src/remote/cluster/discovery/mod.rs
index 6642fef..9172ca7 100644
--- a/coerce/src/remote/cluster/discovery/mod.rs
+++ b/coerce/src/remote/cluster/discovery/mod.rs
@@ -18,6 +18,7 @@ use uuid::Uuid;
 #[derive(Default)]
 pub struct NodeDiscovery {
     discovering_nodes: HashSet<NodeId>,
+    added_nodes: HashMap<NodeId, RemoteNode>,
     discovered_nodes_by_addr: HashMap<String, Arc<NodeIdentity>>,
     discovered_nodes_by_id: HashMap<NodeId, Arc<NodeIdentity>>,
     remote_system: Option<RemoteActorSystem>,
@@ -110,13 +111,6 @@ impl Handler<Discover> for NodeDiscovery {
             }
 
             Seed::Nodes(nodes) => {
-                let current_nodes: HashSet<NodeId> = remote
-                    .get_nodes()
-                    .await
-                    .into_iter()
-                    .filter(|n| n.status != NodeStatus::Terminated)
-                    .map(|n| n.id)
-                    .collect();
                 let node_count = nodes.len();
 
                 info!("discovering {} nodes", node_count);
@@ -124,7 +118,8 @@ impl Handler<Discover> for NodeDiscovery {
                 let mut tasks = vec![];
 
                 for node in nodes {
-                    if !current_nodes.contains(&node.id)
+                    if node.id != remote.node_id()
+                        && !self.added_nodes.contains_key(&node.id)
                         && !self.discovering_nodes.contains(&node.id)
                     {
                         let node_addr = node.addr.clone();
@@ -177,23 +172,29 @@ impl Handler<Forget> for NodeDiscovery {
                 &identity.node.addr, identity.node.id
             );
 
-            let node = self.discovered_nodes_by_id.remove(&identity.node.id);
-            if let Some(node) = node {
-                if let Some(system) = self.remote_system.as_ref() {
-                    let system = system.clone();
-                    let node = Arc::new(node.node.clone());
+            self.discovered_nodes_by_id.remove(&identity.node.id);
+        }
 
-                    // TODO: if configured to do so, remove the node from the RemoteRegistry/RemoteNodeStore
+        let removed_nodes: Vec<NodeId> = self
+            .added_nodes
+            .values()
+            .filter(|node| node.addr == message.0)
+            .map(|node| node.id)
+            .collect();
 
-                    let _ = tokio::spawn(async move {
-                        PubSub::publish_locally(
-                            SystemTopic,
-                            SystemEvent::Cluster(ClusterEvent::NodeRemoved(node)),
-                            &system,
-                        )
-                        .await;
-                    });
-                }
+        for node_id in removed_nodes {
+            if let (Some(node), Some(system)) = (
+                self.added_nodes.remove(&node_id),
+                self.remote_system.as_ref(),
+            ) {
+                // TODO: if configured to do so, remove the node from the RemoteRegistry/RemoteNodeStore
+
+                PubSub::publish_locally(
+                    SystemTopic,
+                    SystemEvent::Cluster(ClusterEvent::NodeRemoved(Arc::new(node))),
+                    system,
+                )
+                .await;
             }
         }
     }
@@ -212,8 +213,12 @@ impl Message for NodeDiscovered {
 impl Handler<NodeDiscovered> for NodeDiscovery {
     async fn handle(&mut self, message: NodeDiscovered, _ctx: &mut ActorContext) {
         let remote = self.remote_system.as_ref().unwrap();
+        let discovering = self.discovering_nodes.remove(&message.node.id);
         if message.successful {
-            if self.discovering_nodes.remove(&message.node.id) {
+            if discovering {
+                self.added_nodes
+                    .insert(message.node.id, message.node.clone());
+
                 PubSub::publish_locally(
                     SystemTopic,
                     SystemEvent::Cluster(ClusterEvent::NodeAdded(Arc::new(message.node))),
-- 
2.43.0


From ae1e082302d2d345b770505dd3a72d20a41c1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:19 +0000
Subject: [PATCH 20/43] fix: don't stop the heartbeat when the system clock is
 set back

---
 coerce/src/remote/heartbeat/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index a192a0b..c5a08b5 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -382,7 +382,9 @@ fn node_status(
 ) -> NodeStatus {
     match ping {
         Some(PingResult::Ok(_, ping_latency, pong_received_at)) => {
-            let time_since_ping = (Utc::now() - pong_received_at).to_std().unwrap();
+            let time_since_ping = (Utc::now() - pong_received_at)
+                .to_std()
+                .unwrap_or_default(); // the clock may have been set back
 
             if time_since_ping >= config.terminated_node_heartbeat_timeout {
                 error!(
-- 
2.43.0


From 9c297a95341655f3aaadf900e4c127d5a2e28aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:19 +0000
Subject: [PATCH 21/43] fix: keep what a node says about itself over what other
 nodes remember of it

---
 coerce/src/remote/cluster/discovery/mod.rs | 14 ++++++++++++++
 coerce/src/remote/cluster/node.rs          | 16 +++++++++++++++-
 coerce/src/remote/net/client/connect.rs    | 16 ++++++++++++++--
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/coerce/src/remote/cluster/discovery/mod.rs b/coerce/src/remote/cluster/discovery/mod.rs
index 9172ca7..1a333ed 100644
--- a/coerce/src/remote/cluster/discovery/mod.rs
+++ b/coerce/src/remote/cluster/discovery/mod.rs
@@ -118,6 +118,12 @@ impl Handler<Discover> for NodeDiscovery {
                 let mut tasks = vec![];
 
                 for node in nodes {
+                    // prefer what the node told us about itself
+                    let node = match self.discovered_nodes_by_id.get(&node.id) {
+                        Some(identity) => identity.node.clone(),
+                        None => node,
+                    };
+
                     if node.id != remote.node_id()
                         && !self.added_nodes.contains_key(&node.id)
                         && !self.discovering_nodes.contains(&node.id)
@@ -324,6 +330,14 @@ impl NodeDiscovery {
                 self.discovered_nodes_by_id
                     .insert(node_id, identity.clone());
 
+                let is_outdated = remote.get_nodes().await.iter().any(|n| {
+                    n.id == node_id && n.node_started_at != identity.node.node_started_at
+                });
+
+                if is_outdated {
+                    remote.register_node(identity.node.clone()).await;
+                }
+
                 Some(identity)
             } else {
                 info!("unable to identify node");
diff --git a/coerce/src/remote/cluster/node.rs b/coerce/src/remote/cluster/node.rs
index d240cbc..342ed66 100644
--- a/coerce/src/remote/cluster/node.rs
+++ b/coerce/src/remote/cluster/node.rs
@@ -7,6 +7,7 @@ use crate::remote::net::message::{datetime_to_timestamp, timestamp_to_datetime};
 use crate::remote::net::proto::network;
 use crate::remote::stream::system::ClusterEvent::NodeAdded;
 use chrono::{DateTime, Utc};
+use std::collections::hash_map::Entry;
 use std::collections::HashMap;
 use std::fmt::Display;
 use std::hash::{Hash, Hasher};
@@ -112,7 +113,18 @@ impl RemoteNodeStore {
 
     pub fn update_nodes(&mut self, nodes: Vec<RemoteNodeState>) {
         for node in nodes {
-            self.nodes.insert(node.id, node);
+            match self.nodes.entry(node.id) {
+                Entry::Occupied(mut entry) => {
+                    // the node may have been registered again in the meantime
+                    let registered_node = entry.get_mut();
+                    registered_node.status = node.status;
+                    registered_node.ping_latency = node.ping_latency;
+                    registered_node.last_heartbeat = node.last_heartbeat;
+                }
+                Entry::Vacant(entry) => {
+                    entry.insert(node);
+                }
+            }
         }
     }
 
@@ -147,6 +159,8 @@ impl RemoteNodeStore {
     }
 
     pub fn add(&mut self, node: RemoteNode) {
+        self.nodes.remove(&node.id);
+
         let mut nodes = self.get_all();
         nodes.push(RemoteNodeState::new(node));
         nodes.sort_by(|a, b| a.id.partial_cmp(&b.id).unwrap());
diff --git a/coerce/src/remote/net/client/connect.rs b/coerce/src/remote/net/client/connect.rs
index e895afb..3d84fa9 100644
--- a/coerce/src/remote/net/client/connect.rs
+++ b/coerce/src/remote/net/client/connect.rs
@@ -3,7 +3,7 @@ use crate::actor::message::{Handler, Message};
 use crate::actor::scheduler::timer::Timer;
 use crate::actor::{Actor, CoreActorRef, LocalActorRef};
 use crate::remote::actor::message::{ClientConnected, RemoveClient};
-use crate::remote::cluster::discovery::{Discover, Seed};
+use crate::remote::cluster::discovery::{Discover, Forget, Seed};
 use crate::remote::cluster::node::RemoteNode;
 use crate::remote::net::client::ping::PingTick;
 use crate::remote::net::client::receive::{ClientMessageReceiver, HandshakeAcknowledge};
@@ -258,7 +258,7 @@ impl Handler<BeginHandshake> for RemoteClient {
 
 #[async_trait]
 impl Handler<HandshakeAcknowledge> for RemoteClient {
-    async fn handle(&mut self, message: HandshakeAcknowledge, _ctx: &mut ActorContext) {
+    async fn handle(&mut self, message: HandshakeAcknowledge, ctx: &mut ActorContext) {
         info!(
             "handshake acknowledged (addr={}, node_id={}, node_tag={})",
             &self.addr, &message.node_id, &message.node_tag
@@ -276,6 +276,12 @@ impl Handler<HandshakeAcknowledge> for RemoteClient {
 
                     let _ = callback.callback.send(());
                 }
+
+                // the node may have been given up on while it was preparing the acknowledgement
+                let _ = ctx.system().remote().node_discovery().notify(Discover {
+                    seed: Seed::Nodes(vec![state.identity.node.clone()]),
+                    on_discovery_complete: None,
+                });
             }
             _ => {
                 warn!("received HandshakeAck but the client connection state is invalid, addr={}, node_id={}", &self.addr, message.node_id);
@@ -329,6 +335,12 @@ impl Handler<Disconnected> for RemoteClient {
             ClientState::Connected(_) => {
                 self.fail_requests(ctx);
 
+                let _ = ctx
+                    .system()
+                    .remote()
+                    .node_discovery()
+                    .notify(Forget(self.addr.clone()));
+
                 ClientState::Idle {
                     connection_attempts: 1,
                 }
-- 
2.43.0


From 8de89b6b64b05a9d78bea5cb0be4a46b17dc1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:51 +0000
Subject: [PATCH 22/43] fix: announce the cluster as up once it has its minimum
 size

---
 coerce/src/remote/heartbeat/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index c5a08b5..e8e83d9 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -283,21 +283,24 @@ impl Handler<HeartbeatTick> for Heartbeat {
 
         system.update_nodes(updates.clone()).await;
 
-        if let Some(new_leader_id) = new_leader_id {
-            if !self.cluster_member_up {
+        if !self.cluster_member_up {
+            if let Some(leader_id) = new_leader_id.or_else(|| system.current_leader()) {
+                let healthy_nodes = updates.iter().filter(|n| n.status.is_healthy()).count();
                 let min_cluster_size_reached = match self.config.minimum_cluster_size {
                     None => true,
-                    Some(n) => n >= self.node_pings.len(),
+                    Some(n) => healthy_nodes >= n,
                 };
 
                 if min_cluster_size_reached {
                     self.on_min_cluster_size_reached(
-                        new_leader_id,
+                        leader_id,
                         updates.into_iter().map(|n| Arc::new(n.into())).collect(),
                     );
                 }
             }
+        }
 
+        if let Some(new_leader_id) = new_leader_id {
             self.update_leader(new_leader_id);
         }
 
-- 
2.43.0


From d8a51fe214d088a73a7a52ecc213ef0bf174333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:00 +0000
Subject: [PATCH 23/43] fix: singleton proxy panicked delivering messages sent
 with notify

---
 coerce/src/singleton/proxy/send.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/coerce/src/singleton/proxy/send.rs b/coerce/src/singleton/proxy/send.rs
index 5ffe844..6587707 100644
--- a/coerce/src/singleton/proxy/send.rs
+++ b/coerce/src/singleton/proxy/send.rs
@@ -25,12 +25,16 @@ impl<M: Message> Deliver<M> {
         A: Handler<M>,
     {
         let message = self.message.take().unwrap();
-        let result_channel = self.result_channel.take().unwrap();
+        let result_channel = self.result_channel.take();
         tokio::spawn(async move {
             debug!(msg_type = M::type_name(), "delivering message to singleton");
 
-            let res = actor.send(message).await;
-            result_channel.send(res)
+            if let Some(result_channel) = result_channel {
+                let res = actor.send(message).await;
+                let _ = result_channel.send(res);
+            } else {
+                let _ = actor.notify(message).await;
+            }
         });
     }
 }
-- 
2.43.0


From ff3fe885815344262a92d03f8ef74e453f411899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 24/43] fix: Singleton::send panicked when its proxy stopped
 before answering

---
 coerce/src/singleton/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coerce/src/singleton/mod.rs b/coerce/src/singleton/mod.rs
index b4c2054..109ffdb 100644
--- a/coerce/src/singleton/mod.rs
+++ b/coerce/src/singleton/mod.rs
@@ -94,7 +94,7 @@ impl<A: Actor, F: SingletonFactory<Actor = A>> Singleton<A, F> {
             return Err(e);
         }
 
-        rx.await.unwrap()
+        rx.await.unwrap_or(Err(ActorRefErr::ResultChannelClosed))
     }
 
     pub async fn notify<M: Message>(&self, message: M) -> Result<(), ActorRefErr>
-- 
2.43.0


From b542576d74f560876f09ff2fa5922a9c8819efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:17 +0000
Subject: [PATCH 25/43] fix: a singleton manager started its actor twice when
 leader and membership events arrived together

---
 coerce/src/singleton/manager/lease.rs | 31 +++++++++++++++----
 coerce/src/singleton/manager/mod.rs   | 43 +++++++++++++++------------
 2 files changed, 49 insertions(+), 25 deletions(-)

diff --git a/coerce/src/singleton/manager/lease.rs b/coerce/src/singleton/manager/lease.rs
index f2490a7..eb2408d 100644
--- a/coerce/src/singleton/manager/lease.rs
+++ b/coerce/src/singleton/manager/lease.rs
@@ -107,7 +107,7 @@ impl<F: SingletonFactory> Handler<LeaseAck> for Manager<F> {
 impl<F: SingletonFactory> Manager<F> {
     pub async fn request_lease(&mut self, ctx: &ActorContext) {
         if self.managers.len() == 0 {
-            self.on_all_managers_acknowledged(ctx).await;
+            self.check_acknowledgements(ctx).await;
             return;
         }
 
@@ -153,7 +153,9 @@ impl<F: SingletonFactory> Manager<F> {
 
     pub async fn on_lease_ack(&mut self, node_id: NodeId, ctx: &ActorContext) {
         match &mut self.state {
-            State::Starting { acknowledged_nodes } => {
+            State::Starting {
+                acknowledged_nodes, ..
+            } => {
                 acknowledged_nodes.insert(node_id);
 
                 info!(
@@ -162,10 +164,7 @@ impl<F: SingletonFactory> Manager<F> {
                     "received LeaseAck",
                 );
 
-                // TODO: Can we do it with a quorum rather than *all managers*?
-                if acknowledged_nodes.len() == self.managers.len() {
-                    self.on_all_managers_acknowledged(ctx).await;
-                }
+                self.check_acknowledgements(ctx).await;
             }
 
             state => {
@@ -179,6 +178,26 @@ impl<F: SingletonFactory> Manager<F> {
         }
     }
 
+    pub async fn check_acknowledgements(&mut self, ctx: &ActorContext) {
+        if let State::Starting {
+            acknowledged_nodes,
+            actor_starting,
+            ..
+        } = &mut self.state
+        {
+            // TODO: Can we do it with a quorum rather than *all managers*?
+            let all_acknowledged = self
+                .managers
+                .keys()
+                .all(|node_id| acknowledged_nodes.contains(node_id));
+
+            if all_acknowledged && !*actor_starting {
+                *actor_starting = true;
+                self.on_all_managers_acknowledged(ctx).await;
+            }
+        }
+    }
+
     pub async fn on_all_managers_acknowledged(&mut self, ctx: &ActorContext) {
         debug!(node_id = self.node_id, "starting singleton");
         self.start_actor(ctx).await;
diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 9aad610..7fcb67d 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -19,7 +19,6 @@ use crate::singleton::{proto, proxy};
 use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Formatter};
-use std::mem;
 use std::time::Duration;
 
 pub struct Manager<F: SingletonFactory> {
@@ -78,6 +77,10 @@ pub enum State<A: Actor> {
     Idle,
     Starting {
         acknowledged_nodes: HashSet<NodeId>,
+        // set once every manager has acknowledged and the actor is being started
+        actor_starting: bool,
+        // a lease requested while the actor is being started
+        lease_requested_by: Option<NodeId>,
     },
     Running {
         actor_ref: LocalActorRef<A>,
@@ -192,8 +195,14 @@ impl<F: SingletonFactory> Manager<F> {
     }
 
     pub async fn begin_starting(&mut self, ctx: &ActorContext) {
+        if !matches!(self.state, State::Idle) {
+            return;
+        }
+
         self.state = State::Starting {
             acknowledged_nodes: HashSet::new(),
+            actor_starting: false,
+            lease_requested_by: None,
         };
 
         self.request_lease(ctx).await;
@@ -303,20 +312,16 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
                         );
                     }
 
-                    match mem::replace(&mut self.state, State::Idle) {
-                        State::Joining {
-                            acknowledgement_pending: Some(node_id),
-                        } => {
-                            self.notify_manager(
-                                node_id,
-                                LeaseAck {
-                                    source_node_id: self.node_id,
-                                },
-                                ctx,
-                            )
-                            .await;
+                    if let State::Joining {
+                        acknowledgement_pending,
+                    } = &mut self.state
+                    {
+                        let acknowledgement_pending = acknowledgement_pending.take();
+                        self.state = State::Idle;
+
+                        if let Some(node_id) = acknowledgement_pending {
+                            self.grant_lease(node_id, ctx).await;
                         }
-                        _ => {}
                     }
 
                     if leader == &self.node_id {
@@ -372,12 +377,12 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
 
                     debug!(node_id = node.id, "node removed");
                     if !self.state.is_joining() {
-                        if let State::Starting { acknowledged_nodes } = &mut self.state {
+                        if let State::Starting {
+                            acknowledged_nodes, ..
+                        } = &mut self.state
+                        {
                             acknowledged_nodes.remove(&node.id);
-
-                            if acknowledged_nodes.len() == self.managers.len() {
-                                self.on_all_managers_acknowledged(ctx).await;
-                            }
+                            self.check_acknowledgements(ctx).await;
                         }
                     }
                 }
-- 
2.43.0


From f7d683ebb72e9b4768233c99d3e34bf24b4acbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:25 +0000
Subject: [PATCH 26/43] fix: a singleton manager never granted the lease after
 stopping its actor, or granted it before the actor had stopped

---
 coerce/src/singleton/manager/lease.rs | 58 ++++++++++++++++++++-------
 coerce/src/singleton/manager/mod.rs   | 36 ++++++++++++-----
 coerce/src/singleton/manager/start.rs | 33 +++++++++++++--
 3 files changed, 97 insertions(+), 30 deletions(-)

diff --git a/coerce/src/singleton/manager/lease.rs b/coerce/src/singleton/manager/lease.rs
index eb2408d..75ce43e 100644
--- a/coerce/src/singleton/manager/lease.rs
+++ b/coerce/src/singleton/manager/lease.rs
@@ -78,21 +78,49 @@ pub struct LeaseNack {
 #[async_trait]
 impl<F: SingletonFactory> Handler<RequestLease> for Manager<F> {
     async fn handle(&mut self, message: RequestLease, ctx: &mut ActorContext) {
-        if !self.state.is_running() {
-            debug!(
-                source_node_id = message.source_node_id,
-                "received RequestLease"
-            );
-
-            self.grant_lease(message.source_node_id, ctx).await;
-        } else {
-            debug!(
-                node_id = self.node_id,
-                singleton = F::Actor::type_name(),
-                "singleton already running, stopping",
-            );
-
-            self.begin_stopping(message.source_node_id, ctx).await;
+        debug!(
+            source_node_id = message.source_node_id,
+            state = format!("{:?}", &self.state),
+            "received RequestLease"
+        );
+
+        match &mut self.state {
+            State::Joining { .. } | State::Idle => {
+                self.grant_lease(message.source_node_id, ctx).await;
+            }
+
+            State::Starting {
+                actor_starting: true,
+                lease_requested_by,
+                ..
+            } => {
+                lease_requested_by.replace(message.source_node_id);
+            }
+
+            State::Starting { .. } => {
+                // two managers are trying to start the singleton, it belongs on the leader
+                if self.sys.current_leader() != Some(self.node_id) {
+                    self.abandon_starting();
+                    self.grant_lease(message.source_node_id, ctx).await;
+                }
+            }
+
+            State::Running { .. } => {
+                debug!(
+                    node_id = self.node_id,
+                    singleton = F::Actor::type_name(),
+                    "singleton already running, stopping",
+                );
+
+                self.begin_stopping(message.source_node_id, ctx).await;
+            }
+
+            State::Stopping {
+                lease_requested_by, ..
+            } => {
+                // granted once the actor has stopped
+                *lease_requested_by = message.source_node_id;
+            }
         }
     }
 }
diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 7fcb67d..6931ab3 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -6,6 +6,7 @@ use crate::actor::context::ActorContext;
 use crate::actor::message::{
     FromBytes, Handler, Message, MessageUnwrapErr, MessageWrapErr, ToBytes,
 };
+use crate::actor::watch::ActorTerminated;
 use crate::actor::{Actor, ActorFactory, ActorId, ActorRef, IntoActor, LocalActorRef, ToActorId};
 use crate::remote::cluster::node::NodeSelector;
 use crate::remote::stream::pubsub::{PubSub, Receive, Subscription};
@@ -120,10 +121,6 @@ where
 }
 
 impl<A: Actor> State<A> {
-    pub fn is_running(&self) -> bool {
-        matches!(self, Self::Running { .. } | Self::Starting { .. })
-    }
-
     pub fn is_joining(&self) -> bool {
         matches!(self, Self::Joining { .. })
     }
@@ -231,8 +228,21 @@ impl<F: SingletonFactory> Manager<F> {
     }
 
     pub async fn on_leader_changed(&mut self, new_leader_id: NodeId, ctx: &ActorContext) {
-        if new_leader_id == self.node_id && !self.state.is_running() {
+        if new_leader_id == self.node_id {
             self.begin_starting(ctx).await;
+        } else {
+            self.abandon_starting();
+        }
+    }
+
+    // Another node is going to run the singleton, unless we are already committed to starting it
+    pub fn abandon_starting(&mut self) {
+        if let State::Starting {
+            actor_starting: false,
+            ..
+        } = &self.state
+        {
+            self.state = State::Idle;
         }
     }
 }
@@ -256,23 +266,27 @@ impl<F: SingletonFactory> Actor for Manager<F> {
         )
     }
 
-    async fn on_child_stopped(&mut self, id: &ActorId, ctx: &mut ActorContext) {
-        if id != &self.singleton_actor_id {
+}
+
+#[async_trait]
+impl<F: SingletonFactory> Handler<ActorTerminated> for Manager<F> {
+    async fn handle(&mut self, message: ActorTerminated, ctx: &mut ActorContext) {
+        if message.actor_ref().actor_id() != &self.singleton_actor_id {
             return;
         }
 
         match &self.state {
             State::Running { .. } => {
-                if !ctx.system().is_terminated() {
-                    // TODO: restart actor
-                }
+                // TODO: restart actor
+                self.state = State::Idle;
             }
 
             State::Stopping {
                 lease_requested_by, ..
             } => {
-                self.grant_lease(*lease_requested_by, ctx).await;
+                let lease_requested_by = *lease_requested_by;
                 self.state = State::Idle;
+                self.grant_lease(lease_requested_by, ctx).await;
             }
 
             _ => {}
diff --git a/coerce/src/singleton/manager/start.rs b/coerce/src/singleton/manager/start.rs
index 9fd654a..bb81579 100644
--- a/coerce/src/singleton/manager/start.rs
+++ b/coerce/src/singleton/manager/start.rs
@@ -1,5 +1,6 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
+use crate::actor::watch::ActorWatch;
 use crate::actor::{Actor, ActorRefErr, IntoActor, LocalActorRef, PipeTo};
 use crate::singleton::factory::SingletonFactory;
 use crate::singleton::manager::{Manager, SingletonStarted, State};
@@ -36,14 +37,22 @@ impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
     async fn handle(&mut self, message: ActorStartResult<F::Actor>, ctx: &mut ActorContext) {
         match message {
             ActorStartResult::Started(actor_ref) => {
-                match &self.state {
-                    State::Starting { .. } => {
+                let lease_requested_by = match &self.state {
+                    State::Starting {
+                        lease_requested_by, ..
+                    } => {
                         debug!("singleton actor started");
+                        *lease_requested_by
                     }
                     _ => {
                         warn!("Invalid state, expected `Starting`");
+                        let _ = actor_ref.notify_stop();
+                        return;
                     }
-                }
+                };
+
+                // lets us know when the actor has stopped, see `Handler<ActorTerminated>`
+                self.watch(&actor_ref, ctx);
 
                 self.state = State::Running {
                     actor_ref: actor_ref.clone(),
@@ -60,9 +69,25 @@ impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
                     ctx,
                 )
                 .await;
+
+                if let Some(node_id) = lease_requested_by {
+                    self.begin_stopping(node_id, ctx).await;
+                }
             }
             ActorStartResult::Failed(e) => {
-                error!(error = format!("{}", e), "singleton actor failed to start")
+                error!(error = format!("{}", e), "singleton actor failed to start");
+
+                if let State::Starting {
+                    lease_requested_by, ..
+                } = &self.state
+                {
+                    let lease_requested_by = *lease_requested_by;
+                    self.state = State::Idle;
+
+                    if let Some(node_id) = lease_requested_by {
+                        self.grant_lease(node_id, ctx).await;
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From c7e04d99450b78f03960517b8c376486494fc671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:00 +0000
Subject: [PATCH 27/43] fix: singleton managers recover from lost or reordered
 notifications and restart a singleton that stopped

---
 coerce/src/singleton/manager/mod.rs | 112 +++++++++++++++++++++++++---
 1 file changed, 100 insertions(+), 12 deletions(-)

diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 6931ab3..fa4ecc7 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -6,6 +6,7 @@ use crate::actor::context::ActorContext;
 use crate::actor::message::{
     FromBytes, Handler, Message, MessageUnwrapErr, MessageWrapErr, ToBytes,
 };
+use crate::actor::scheduler::timer::{Timer, TimerTick};
 use crate::actor::watch::ActorTerminated;
 use crate::actor::{Actor, ActorFactory, ActorId, ActorRef, IntoActor, LocalActorRef, ToActorId};
 use crate::remote::cluster::node::NodeSelector;
@@ -22,7 +23,21 @@ use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Formatter};
 use std::time::Duration;
 
+const RECONCILE_INTERVAL: Duration = Duration::from_secs(2);
+
+/// Brings the state of a manager in line with the current leadership, recovering from notifications
+/// that were lost or that arrived out of order.
+#[derive(Clone)]
+struct Reconcile;
+
+impl Message for Reconcile {
+    type Result = ();
+}
+
+impl TimerTick for Reconcile {}
+
 pub struct Manager<F: SingletonFactory> {
+    reconcile_timer: Option<Timer>,
     system_event_subscription: Option<Subscription>,
     state: State<F::Actor>,
     current_leader_node: Option<NodeId>,
@@ -47,6 +62,7 @@ impl<F: SingletonFactory> Manager<F> {
         proxy: LocalActorRef<Proxy<F::Actor>>,
     ) -> Self {
         Self {
+            reconcile_timer: None,
             system_event_subscription: None,
             state: State::default(),
             current_leader_node: None,
@@ -235,6 +251,27 @@ impl<F: SingletonFactory> Manager<F> {
         }
     }
 
+    // Lets go of the singleton, if it has stopped
+    pub async fn check_terminated(&mut self, ctx: &ActorContext) {
+        match &self.state {
+            State::Running { actor_ref } if !actor_ref.is_valid() => {
+                // started again by the next `Reconcile`, if we're still the leader
+                self.state = State::Idle;
+            }
+
+            State::Stopping {
+                actor_ref,
+                lease_requested_by,
+            } if !actor_ref.is_valid() => {
+                let lease_requested_by = *lease_requested_by;
+                self.state = State::Idle;
+                self.grant_lease(lease_requested_by, ctx).await;
+            }
+
+            _ => {}
+        }
+    }
+
     // Another node is going to run the singleton, unless we are already committed to starting it
     pub fn abandon_starting(&mut self) {
         if let State::Starting {
@@ -259,6 +296,12 @@ impl<F: SingletonFactory> Actor for Manager<F> {
         let sys = ctx.system().remote();
         self.current_leader_node = sys.current_leader();
 
+        self.reconcile_timer = Some(Timer::start(
+            self.actor_ref(ctx),
+            RECONCILE_INTERVAL,
+            Reconcile,
+        ));
+
         debug!(
             node_id = self.node_id,
             singleton = F::Actor::type_name(),
@@ -269,24 +312,62 @@ impl<F: SingletonFactory> Actor for Manager<F> {
 }
 
 #[async_trait]
-impl<F: SingletonFactory> Handler<ActorTerminated> for Manager<F> {
-    async fn handle(&mut self, message: ActorTerminated, ctx: &mut ActorContext) {
-        if message.actor_ref().actor_id() != &self.singleton_actor_id {
+impl<F: SingletonFactory> Handler<Reconcile> for Manager<F> {
+    async fn handle(&mut self, _message: Reconcile, ctx: &mut ActorContext) {
+        if ctx.system().is_terminated() {
             return;
         }
 
+        // the actor may have stopped before it knew that we're watching it
+        self.check_terminated(ctx).await;
+
+        let is_leader = self.sys.current_leader() == Some(self.node_id);
         match &self.state {
-            State::Running { .. } => {
-                // TODO: restart actor
-                self.state = State::Idle;
-            }
+            State::Idle if is_leader => self.begin_starting(ctx).await,
 
-            State::Stopping {
-                lease_requested_by, ..
+            State::Starting {
+                actor_starting: false,
+                ..
+            } if !is_leader => self.abandon_starting(),
+
+            State::Starting {
+                acknowledged_nodes,
+                actor_starting: false,
+                ..
             } => {
-                let lease_requested_by = *lease_requested_by;
-                self.state = State::Idle;
-                self.grant_lease(lease_requested_by, ctx).await;
+                // requests and acknowledgements are lost when nodes restart
+                let pending_nodes: Vec<NodeId> = self
+                    .managers
+                    .keys()
+                    .filter(|node_id| !acknowledged_nodes.contains(node_id))
+                    .copied()
+                    .collect();
+
+                for node_id in pending_nodes {
+                    self.notify_manager(
+                        node_id,
+                        RequestLease {
+                            source_node_id: self.node_id,
+                        },
+                        ctx,
+                    )
+                    .await;
+                }
+            }
+
+            State::Running { actor_ref } => {
+                // notifications from different nodes can arrive out of order, or be lost
+                let _ = self
+                    .proxy
+                    .notify(proxy::SingletonStarted::new(actor_ref.clone().into()));
+
+                self.notify_managers(
+                    SingletonStarted {
+                        source_node_id: self.node_id,
+                    },
+                    ctx,
+                )
+                .await;
             }
 
             _ => {}
@@ -294,6 +375,13 @@ impl<F: SingletonFactory> Handler<ActorTerminated> for Manager<F> {
     }
 }
 
+#[async_trait]
+impl<F: SingletonFactory> Handler<ActorTerminated> for Manager<F> {
+    async fn handle(&mut self, _message: ActorTerminated, ctx: &mut ActorContext) {
+        self.check_terminated(ctx).await;
+    }
+}
+
 #[async_trait]
 impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
     async fn handle(&mut self, message: Receive<SystemTopic>, ctx: &mut ActorContext) {
-- 
2.43.0


From 6efba27f6c51997fb3695302f99628266ca8d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:42 +0000
Subject: [PATCH 28/43] fix: results of remote requests were lost while there
 was no connection to the requesting node yet

---
 coerce/src/remote/system/rpc.rs | 41 ++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index b0c683e..d300ff9 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -1,10 +1,12 @@
 use protobuf::Message as ProtoMessage;
 use std::error::Error;
 use std::fmt::{Display, Formatter};
+use std::time::Duration;
 use tokio::sync::oneshot;
 use uuid::Uuid;
 
 use crate::actor::{ActorId, ActorRefErr};
+use crate::remote::actor::message::ClientWrite;
 use crate::remote::actor::{RemoteRequest, RemoteResponse};
 use crate::remote::net::message::SessionEvent;
 use crate::remote::net::proto::network::{ClientErr, ClientResult};
@@ -121,17 +123,35 @@ impl RemoteActorSystem {
                 let _ = result_sender.send(RemoteResponse::Ok(result));
             }
         } else {
-            let message_id = request_id.to_string();
-            let result = SessionEvent::Result(ClientResult {
-                message_id,
+            let result = ClientResult {
+                message_id: request_id.to_string(),
                 result,
                 ..Default::default()
-            });
+            };
 
-            self.notify_node(node_id, result).await;
+            self.notify_result(node_id, || SessionEvent::Result(result.clone()))
+                .await;
         }
     }
 
+    /// Unlike the response to a request, which is sent via the connection the request came from,
+    /// this requires a connection to `node_id`: when it has only just joined, there may be none yet.
+    async fn notify_result(&self, node_id: NodeId, result: impl Fn() -> SessionEvent) {
+        const RETRY_DELAY: Duration = Duration::from_millis(500);
+        const MAX_ATTEMPTS: usize = 20;
+
+        for _ in 0..MAX_ATTEMPTS {
+            let write = ClientWrite(node_id, result());
+            if let Ok(true) = self.inner.clients_ref.send(write).await {
+                return;
+            }
+
+            tokio::time::sleep(RETRY_DELAY).await;
+        }
+
+        warn!("failed to send result to node_id={}", node_id);
+    }
+
     pub async fn notify_rpc_err(&self, request_id: Uuid, error: ActorRefErr, node_id: NodeId) {
         info!(
             "notifying error, e={}, node_id={}, request_id={}",
@@ -143,15 +163,14 @@ impl RemoteActorSystem {
                 let _ = result_sender.send(RemoteResponse::Err(error));
             }
         } else {
-            let message_id = request_id.to_string();
-
-            let result = SessionEvent::Err(ClientErr {
-                message_id,
+            let result = ClientErr {
+                message_id: request_id.to_string(),
                 error: Some(error.into()).into(),
                 ..Default::default()
-            });
+            };
 
-            self.notify_node(node_id, result).await;
+            self.notify_result(node_id, || SessionEvent::Err(result.clone()))
+                .await;
         }
     }
 
-- 
2.43.0


From 2322587aaaac3055dae7c502dee4570504fe78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:46 +0000
Subject: [PATCH 29/43] fix: requests for a sharded entity that could not be
 created were never answered

---
 coerce/src/sharding/shard/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 4940fdc..d85d674 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -268,12 +268,21 @@ impl Handler<EntityStartResult> for Shard {
                 );
             }
             Err(e) => {
-                // TODO: we should respond to all buffered requests with a failure
-
                 error!(
                     "failed to spawn entity as a child of Shard#{}, actor_id={}, error={}, is_shard_recovery={}",
                     &self.shard_id, &actor_id, e, is_shard_recovery
-                )
+                );
+
+                if let Some(entity) = self.entities.get_mut(&actor_id) {
+                    let previous = mem::replace(&mut entity.state, EntityState::Idle);
+                    if let EntityState::Starting { request_buffer } = previous {
+                        for request in request_buffer {
+                            request
+                                .result_channel
+                                .map(|c| c.send(Err(ActorRefErr::ActorUnavailable)));
+                        }
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From 7896ba33ed4eebbbead4e1f647b6646416f52168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:50 +0000
Subject: [PATCH 30/43] fix: sharded entities that stopped or failed to start
 once could never be reached again

---
 coerce/src/sharding/shard/mod.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index d85d674..39b0ddc 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -115,6 +115,14 @@ impl EntityState {
         matches!(&self, EntityState::Starting { .. })
     }
 
+    pub fn is_running(&self) -> bool {
+        match &self {
+            EntityState::Starting { .. } => true,
+            EntityState::Active(actor_ref) => actor_ref.is_valid(),
+            EntityState::Idle | EntityState::Passivated => false,
+        }
+    }
+
     pub fn is_active(&self) -> bool {
         match &self {
             EntityState::Active(_) => true,
@@ -433,7 +441,27 @@ impl Handler<EntityRequest> for Shard {
         match entity {
             Entry::Occupied(entity) => {
                 let entity = entity.into_mut();
-                entity.request(handler, message, result_channel);
+                if entity.state.is_running() {
+                    entity.request(handler, message, result_channel);
+                } else {
+                    // the entity has stopped or could not be started before, start it again
+                    let is_known = match recipe {
+                        Some(recipe) if !entity.state.is_active() => {
+                            entity.recipe = recipe;
+                            false
+                        }
+                        _ => true,
+                    };
+
+                    entity.state = EntityState::starting(Some(BufferedReq {
+                        handler,
+                        message,
+                        result_channel,
+                    }));
+
+                    let recipe = entity.recipe.clone();
+                    self.start_entity(actor_id, recipe, ctx, is_known).await;
+                }
             }
 
             Entry::Vacant(entry) => {
-- 
2.43.0


From 10e8f7c11fef9f0e94eaf1d71db2f720fe230600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:58 +0000
Subject: [PATCH 31/43] fix: a shard counted as stopped while its entities were
 still running or starting

---
 coerce/src/sharding/shard/mod.rs | 36 ++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 39b0ddc..3778c07 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -25,6 +25,7 @@ use std::mem;
 use std::sync::Arc;
 use tokio::sync::oneshot;
 use tokio::sync::oneshot::Sender;
+use tokio::task::JoinHandle;
 
 pub mod message;
 pub(crate) mod passivation;
@@ -40,6 +41,7 @@ pub struct Shard {
     recovered_snapshot: bool,
     entity_passivation: bool,
     entities: HashMap<ActorId, Entity>,
+    entity_starts: HashMap<ActorId, JoinHandle<Option<BoxedActorRef>>>,
     host: LocalActorRef<ShardHost>,
 }
 
@@ -55,6 +57,7 @@ impl Shard {
             handler,
             persistent_entities,
             entities: HashMap::new(),
+            entity_starts: HashMap::new(),
             recovered_snapshot: false,
             entity_passivation: true,
             host,
@@ -184,7 +187,28 @@ impl PersistentActor for Shard {
             .notify(ShardReady(self.shard_id, self.actor_ref(ctx)));
     }
 
-    async fn on_child_stopped(&mut self, id: &ActorId, _ctx: &mut ActorContext) {}
+    async fn stopped(&mut self, ctx: &mut ActorContext) {
+        // once stopped, the shard can be started on another node, none of its entities
+        // can be left running here
+        for (_, entity_start) in self.entity_starts.drain() {
+            if let Ok(Some(entity)) = entity_start.await {
+                let _ = entity.stop().await;
+            }
+        }
+
+        if let Some(supervised) = ctx.supervised_mut() {
+            supervised.stop_all().await;
+        }
+    }
+
+    async fn on_child_stopped(&mut self, id: &ActorId, ctx: &mut ActorContext) {
+        if let Some(actor_ref) = self.entities.get(id).and_then(|e| e.state.get_actor_ref()) {
+            if actor_ref.is_valid() {
+                // it was a previous instance of the entity that stopped
+                ctx.add_child_ref(actor_ref);
+            }
+        }
+    }
 }
 
 impl Shard {
@@ -240,6 +264,8 @@ impl Handler<EntityStartResult> for Shard {
             is_shard_recovery,
         } = message;
 
+        self.entity_starts.remove(&actor_id);
+
         match result {
             Ok(actor_ref) => {
                 if let Some(previous) = ctx.add_child_ref(actor_ref.clone()) {
@@ -317,7 +343,8 @@ impl Shard {
         let system = ctx.system().clone();
         let self_ref = self.actor_ref(ctx);
 
-        tokio::spawn(async move {
+        let entity_id = actor_id.clone();
+        let entity_start = tokio::spawn(async move {
             let result = handler
                 .create(
                     Some(actor_id.clone()),
@@ -327,12 +354,17 @@ impl Shard {
                 )
                 .await;
 
+            let entity = result.as_ref().ok().cloned();
             let _ = self_ref.notify(EntityStartResult {
                 actor_id,
                 result,
                 is_shard_recovery,
             });
+
+            entity
         });
+
+        self.entity_starts.insert(entity_id, entity_start);
     }
 }
 
-- 
2.43.0


From cca8a1a2e4d8aca6b6547e2bd5eeff5e01a173a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:10 +0000
Subject: [PATCH 32/43] fix: shard hosts forgot shards that were still stopping
 and lost requests made meanwhile

---
 coerce/src/sharding/host/mod.rs     | 210 ++++++++++++++++------------
 coerce/src/sharding/host/request.rs | 208 +++++++++++++++++++++------
 2 files changed, 286 insertions(+), 132 deletions(-)

diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index f3f3002..481966b 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -14,6 +14,7 @@ use crate::remote::actor::BoxedActorHandler;
 use crate::remote::heartbeat::Heartbeat;
 use std::collections::hash_map::Entry;
 use std::collections::{HashMap, VecDeque};
+use std::mem;
 
 use crate::actor::scheduler::ActorType;
 use crate::sharding::coordinator::factory::CoordinatorFactory;
@@ -28,10 +29,12 @@ pub enum ShardState {
     Starting {
         actor_ref: LocalActorRef<Shard>,
         request_buffer: Vec<EntityRequest>,
-        stop_requested: Option<StopRequested>,
     },
     Ready(LocalActorRef<Shard>),
-    Stopping,
+    Stopping {
+        stop_requests: Vec<StopRequested>,
+        restart: bool,
+    },
 }
 
 pub struct StopRequested {
@@ -190,9 +193,14 @@ impl Handler<ShardAllocated> for ShardHost {
 
             let hosted_shard_entry = self.hosted_shards.entry(shard_id);
             match hosted_shard_entry {
-                Entry::Occupied(_) => {
+                Entry::Occupied(mut hosted_shard_entry) => {
                     // already allocated locally
                     debug!("local shard#{} already allocated", message.0);
+
+                    if let ShardState::Stopping { restart, .. } = hosted_shard_entry.get_mut() {
+                        // it can only be started again once it has stopped
+                        *restart = true;
+                    }
                 }
 
                 Entry::Vacant(hosted_shard_entry) => {
@@ -209,22 +217,19 @@ impl Handler<ShardAllocated> for ShardHost {
                     hosted_shard_entry.insert(ShardState::Starting {
                         actor_ref,
                         request_buffer: vec![],
-                        stop_requested: None,
                     });
 
                     debug!("local shard#{} allocated to node={}", message.0, message.1);
                 }
             }
         } else {
-            if let Some(shard) = self.hosted_shards.remove(&shard_id) {
+            if self.hosted_shards.contains_key(&shard_id) {
                 debug!(
                     "shard#{} was allocated locally but now allocated remotely on node={}, stopping shard",
                     shard_id, node_id
                 );
 
-                if let Some(shard_actor) = shard.actor_ref() {
-                    let _ = shard_actor.notify_stop();
-                }
+                self.stop_shard(shard_id, None, ctx);
             }
 
             let shard_actor =
@@ -234,17 +239,7 @@ impl Handler<ShardAllocated> for ShardHost {
             self.remote_shards.insert(shard_id, shard_actor);
         }
 
-        if let Some(buffered_requests) = self.requests_pending_shard_allocation.remove(&shard_id) {
-            debug!(
-                "processing {} buffered requests for shard={}",
-                buffered_requests.len(),
-                shard_id
-            );
-
-            for request in buffered_requests {
-                self.handle(request, ctx).await;
-            }
-        }
+        self.process_pending_requests(shard_id, ctx).await;
     }
 }
 
@@ -254,30 +249,18 @@ impl Handler<ShardReady> for ShardHost {
         let shard_id = message.0;
         let actor_ref = message.1;
 
-        let shard_state = self
-            .hosted_shards
-            .insert(shard_id, ShardState::Ready(actor_ref.clone()));
+        // the shard may have been requested to stop before it was ready
+        if let Some(shard_state @ ShardState::Starting { .. }) =
+            self.hosted_shards.get_mut(&shard_id)
+        {
+            ctx.attach_child_ref(actor_ref.clone().into());
 
-        ctx.attach_child_ref(actor_ref.clone().into());
-
-        match shard_state {
-            Some(ShardState::Starting {
-                request_buffer,
-                stop_requested,
-                ..
-            }) => {
-                if let Some(stop_requested) = stop_requested {
-                    // TODO: move the request buffer over to `requests_pending_shard_allocation`
-                    self.stop_shard(shard_id, actor_ref, ctx, Some(stop_requested));
-                } else {
-                    let mut shard_state = ShardState::Ready(actor_ref);
-                    for request in request_buffer {
-                        handle_request(request, shard_id, &mut shard_state);
-                    }
+            let previous = mem::replace(shard_state, ShardState::Ready(actor_ref));
+            if let ShardState::Starting { request_buffer, .. } = previous {
+                for request in request_buffer {
+                    handle_request(request, shard_id, shard_state);
                 }
             }
-
-            _ => {}
         }
     }
 }
@@ -292,82 +275,133 @@ impl Handler<ShardReallocating> for ShardHost {
 #[async_trait]
 impl Handler<StopShard> for ShardHost {
     async fn handle(&mut self, message: StopShard, ctx: &mut ActorContext) {
-        let shard_id = message.shard_id;
-        let shard_entry = self.hosted_shards.entry(shard_id);
         let stop_request = StopRequested {
             origin_node_id: message.origin_node_id,
             request_id: message.request_id,
         };
 
-        match shard_entry {
-            Entry::Occupied(mut shard_entry) => {
-                // TODO: is this correct? if the status is starting, should we not update that rather than re-inserting `Stopping`?
-                match shard_entry.insert(ShardState::Stopping) {
-                    ShardState::Starting {
-                        mut stop_requested, ..
-                    } => {
-                        // actor has requested to be started so we can't stop it yet, once the actor
-                        // has finished starting, we can then stop it.
-                        stop_requested = Some(stop_request);
-                    }
-
-                    ShardState::Ready(actor_ref) => {
-                        self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
-                    }
-
-                    ShardState::Stopping => {
-                        // shard already stopping
-                    }
-                }
-            }
-            Entry::Vacant(_) => {}
-        }
+        self.stop_shard(message.shard_id, Some(stop_request), ctx);
     }
 }
 
 impl ShardHost {
     fn stop_shard(
-        &self,
+        &mut self,
         shard_id: ShardId,
-        actor_ref: LocalActorRef<Shard>,
+        stop_request: Option<StopRequested>,
         ctx: &ActorContext,
-        stop_requested: Option<StopRequested>,
     ) {
+        let shard_state = match self.hosted_shards.get_mut(&shard_id) {
+            Some(shard_state) => shard_state,
+            None => {
+                // not hosted here, there is nothing to wait for
+                return notify_shard_stopped(shard_id, true, stop_request, ctx);
+            }
+        };
+
+        if let ShardState::Stopping {
+            stop_requests,
+            restart,
+        } = shard_state
+        {
+            stop_requests.extend(stop_request);
+            *restart = false;
+            return;
+        }
+
+        let stopping = ShardState::Stopping {
+            stop_requests: stop_request.into_iter().collect(),
+            restart: false,
+        };
+
+        let actor_ref = match mem::replace(shard_state, stopping) {
+            ShardState::Ready(actor_ref) => actor_ref,
+            ShardState::Starting {
+                actor_ref,
+                request_buffer,
+            } => {
+                self.requests_pending_shard_allocation
+                    .entry(shard_id)
+                    .or_default()
+                    .extend(request_buffer);
+                actor_ref
+            }
+            ShardState::Stopping { .. } => return,
+        };
+
         let shard_host = self.actor_ref(ctx);
-        let remote_system = ctx.system().remote_owned();
         tokio::spawn(async move {
             let result = actor_ref.stop().await;
             let _ = shard_host.notify(ShardStopped {
                 shard_id,
                 stopped_successfully: result.is_ok(),
             });
+        });
+    }
 
-            if let Some(stop_requested) = stop_requested {
-                let shard_stopped = ShardStopped {
-                    shard_id,
-                    stopped_successfully: result.is_ok(),
-                }
-                .into_envelope(EnvelopeType::Remote)
-                .unwrap()
-                .into_bytes();
-
-                let _ = remote_system
-                    .notify_raw_rpc_result(
-                        stop_requested.request_id,
-                        shard_stopped,
-                        stop_requested.origin_node_id,
-                    )
-                    .await;
+    async fn process_pending_requests(&mut self, shard_id: ShardId, ctx: &mut ActorContext) {
+        if let Some(buffered_requests) = self.requests_pending_shard_allocation.remove(&shard_id) {
+            debug!(
+                "processing {} buffered requests for shard={}",
+                buffered_requests.len(),
+                shard_id
+            );
+
+            for request in buffered_requests {
+                self.handle(request, ctx).await;
+            }
+        }
+    }
+}
+
+fn notify_shard_stopped(
+    shard_id: ShardId,
+    stopped_successfully: bool,
+    stop_requests: impl IntoIterator<Item = StopRequested>,
+    ctx: &ActorContext,
+) {
+    for stop_request in stop_requests {
+        let remote_system = ctx.system().remote_owned();
+        tokio::spawn(async move {
+            let shard_stopped = ShardStopped {
+                shard_id,
+                stopped_successfully,
             }
+            .into_envelope(EnvelopeType::Remote)
+            .unwrap()
+            .into_bytes();
+
+            remote_system
+                .notify_raw_rpc_result(
+                    stop_request.request_id,
+                    shard_stopped,
+                    stop_request.origin_node_id,
+                )
+                .await;
         });
     }
 }
 
 #[async_trait]
 impl Handler<ShardStopped> for ShardHost {
-    async fn handle(&mut self, message: ShardStopped, _ctx: &mut ActorContext) {
-        self.hosted_shards.remove(&message.shard_id);
-        info!("shard#{} stopped", message.shard_id);
+    async fn handle(&mut self, message: ShardStopped, ctx: &mut ActorContext) {
+        let shard_id = message.shard_id;
+        info!("shard#{} stopped", shard_id);
+
+        if let Some(ShardState::Stopping {
+            stop_requests,
+            restart,
+        }) = self.hosted_shards.remove(&shard_id)
+        {
+            notify_shard_stopped(shard_id, message.stopped_successfully, stop_requests, ctx);
+
+            if restart {
+                let node_id = ctx.system().remote().node_id();
+                self.handle(ShardAllocated(shard_id, node_id), ctx).await;
+            } else {
+                self.process_pending_requests(shard_id, ctx).await;
+            }
+        }
     }
 }
 
diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 4466d32..c5bc4b5 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -1,17 +1,20 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
-use crate::actor::{Actor, ActorId, ActorRef, ActorRefErr, IntoActorId};
+use crate::actor::{Actor, ActorId, ActorRef, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::sharding::coordinator::allocation::{AllocateShard, AllocateShardResult};
 
 use crate::remote::system::{NodeId, RemoteActorSystem};
-use crate::sharding::host::{ShardAllocated, ShardHost, ShardState};
+use crate::remote::RemoteActorRef;
+use crate::sharding::host::{shard_actor_id, ShardHost, ShardState};
 use crate::sharding::proto::sharding as proto;
 use crate::sharding::shard::Shard;
 
 use crate::sharding::coordinator::ShardId;
 use protobuf::Message as ProtoMessage;
+use std::collections::hash_map::Entry;
 use std::str::FromStr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::sync::oneshot::{channel, Sender};
 use uuid::Uuid;
 
@@ -62,34 +65,68 @@ pub(crate) fn handle_request(
                 }
             });
         }
-        ShardState::Stopping => {}
+        ShardState::Stopping { .. } => {}
     }
 }
 
+/// The coordinator's answer to a request for the allocation of a shard
+struct ShardLocated {
+    shard_id: ShardId,
+    node_id: Option<NodeId>,
+}
+
+impl Message for ShardLocated {
+    type Result = ();
+}
+
+/// A request that could not be delivered because the node does not host the shard
+struct ShardNotHosted {
+    shard_id: ShardId,
+    node_id: NodeId,
+    request: Option<EntityRequest>,
+}
+
+impl Message for ShardNotHosted {
+    type Result = ();
+}
+
 #[async_trait]
 impl Handler<EntityRequest> for ShardHost {
     async fn handle(&mut self, message: EntityRequest, ctx: &mut ActorContext) {
         let shard_id = self.allocator.allocate(&message.actor_id);
 
-        if let Some(shard) = self.hosted_shards.get_mut(&shard_id) {
-            handle_request(message, shard_id, shard);
-        } else if let Some(shard) = self.remote_shards.get(&shard_id) {
+        let hosted_shard = self.hosted_shards.get_mut(&shard_id);
+        let is_stopping = matches!(&hosted_shard, Some(ShardState::Stopping { .. }));
+
+        match hosted_shard {
+            Some(shard) if !is_stopping => return handle_request(message, shard_id, shard),
+            _ => {}
+        }
+
+        if let Some(shard) = self.remote_shards.get(&shard_id) {
             let shard_ref = shard.clone();
             tokio::spawn(remote_entity_request(
+                shard_id,
                 shard_ref,
                 message,
+                self.actor_ref(ctx),
                 ctx.system().remote_owned(),
             ));
         } else {
-            let leader = self.get_coordinator();
-
             let buffered_requests = self.requests_pending_shard_allocation.entry(shard_id);
             let buffered_requests = buffered_requests.or_insert_with(|| vec![]);
             buffered_requests.push(message);
 
+            // the requests are processed once the shard has stopped, if there are others waiting
+            // then the coordinator has already been asked
+            if is_stopping || buffered_requests.len() > 1 {
+                return;
+            }
+
             debug!("shard#{} not allocated, notifying coordinator and buffering request (buffered_requests={})",
                 shard_id, buffered_requests.len());
 
+            let leader = self.get_coordinator();
             let host_ref = self.actor_ref(ctx);
 
             tokio::spawn(async move {
@@ -99,85 +136,168 @@ impl Handler<EntityRequest> for ShardHost {
                         rebalancing: false,
                     })
                     .await;
-                match allocation {
+                let node_id = match allocation {
                     Ok(result) => match result {
-                        AllocateShardResult::Allocated(shard_id, node_id)
-                        | AllocateShardResult::AlreadyAllocated(shard_id, node_id) => {
-                            let _ = host_ref.notify(ShardAllocated(shard_id, node_id));
-                        }
+                        AllocateShardResult::Allocated(_, node_id)
+                        | AllocateShardResult::AlreadyAllocated(_, node_id) => Some(node_id),
                         AllocateShardResult::NotAllocated => {
-                            // No hosts available?
-                            error!("shard(#{}) not allocated, no hosts available?", shard_id);
+                            // No hosts available or the shard is being moved?
+                            warn!("shard(#{}) not allocated", shard_id);
+                            None
                         }
                         AllocateShardResult::Err(e) => {
                             error!("shard(#{}) failed to allocate: {}", shard_id, e);
+                            None
                         }
                     },
-                    Err(_e) => {}
-                }
+                    Err(e) => {
+                        error!("shard(#{}) failed to allocate: {}", shard_id, e);
+                        None
+                    }
+                };
+
+                let _ = host_ref.notify(ShardLocated { shard_id, node_id });
             });
         }
     }
 }
 
+#[async_trait]
+impl Handler<ShardLocated> for ShardHost {
+    async fn handle(&mut self, message: ShardLocated, ctx: &mut ActorContext) {
+        const RETRY_DELAY: Duration = Duration::from_millis(500);
+
+        let shard_id = message.shard_id;
+        let remote = ctx.system().remote();
+
+        match message.node_id {
+            Some(node_id) if node_id != remote.node_id() => {
+                if !self.hosted_shards.contains_key(&shard_id) {
+                    let shard_actor = RemoteActorRef::new(
+                        shard_actor_id(&self.shard_entity, shard_id),
+                        node_id,
+                        remote.clone(),
+                    );
+
+                    self.remote_shards.insert(shard_id, shard_actor.into());
+                }
+
+                self.process_pending_requests(shard_id, ctx).await;
+            }
+
+            // either the shard could not be allocated or it is allocated to this node, in which
+            // case the coordinator will let us know. Whichever it is, ask again if requests are
+            // still waiting later on.
+            _ => {
+                let host_ref = self.actor_ref(ctx);
+                tokio::spawn(async move {
+                    tokio::time::sleep(RETRY_DELAY).await;
+                    let _ = host_ref.notify(RetryPendingRequests(shard_id));
+                });
+            }
+        }
+    }
+}
+
+struct RetryPendingRequests(ShardId);
+
+impl Message for RetryPendingRequests {
+    type Result = ();
+}
+
+#[async_trait]
+impl Handler<RetryPendingRequests> for ShardHost {
+    async fn handle(&mut self, message: RetryPendingRequests, ctx: &mut ActorContext) {
+        self.process_pending_requests(message.0, ctx).await;
+    }
+}
+
+#[async_trait]
+impl Handler<ShardNotHosted> for ShardHost {
+    async fn handle(&mut self, message: ShardNotHosted, ctx: &mut ActorContext) {
+        if let Entry::Occupied(shard) = self.remote_shards.entry(message.shard_id) {
+            if shard.get().node_id() == Some(message.node_id) {
+                shard.remove();
+            }
+        }
+
+        if let Some(request) = message.request {
+            self.handle(request, ctx).await;
+        }
+    }
+}
+
 async fn remote_entity_request(
+    shard_id: ShardId,
     shard_ref: ActorRef<Shard>,
     mut request: EntityRequest,
+    host_ref: LocalActorRef<ShardHost>,
     system: RemoteActorSystem,
-) -> Result<(), ActorRefErr> {
+) {
     // TODO: We need a way to buffer and re-distribute this request if we get a signal that the node is terminated
     //       after we have already submitted the request..
 
+    let node_id = shard_ref.node_id().unwrap();
     let request_id = Uuid::new_v4();
     let (tx, rx) = channel();
-    system.push_request(request_id, tx);
+    system.push_node_request(request_id, node_id, tx);
 
     let result_channel = request.result_channel.take();
 
     trace!(
         "emitting RemoteEntityRequest to node_id={} from node_id={}",
-        shard_ref.node_id().unwrap(),
+        node_id,
         system.node_id()
     );
 
-    shard_ref
-        .notify(RemoteEntityRequest {
+    let delivered = shard_ref
+        .send(RemoteEntityRequest {
             origin_node: system.node_id(),
             request_id,
-            actor_id: request.actor_id.into_actor_id(),
-            message_type: request.message_type,
-            message: request.message,
-            recipe: request.recipe.map(|r| r.as_ref().clone()),
+            actor_id: request.actor_id.clone(),
+            message_type: request.message_type.clone(),
+            message: request.message.clone(),
+            recipe: request.recipe.as_ref().map(|r| r.as_ref().clone()),
         })
-        .await
-        .expect("shard notify");
+        .await;
+
+    if let Err(e) = delivered {
+        let _ = system.pop_request(request_id);
+
+        let request = match e {
+            ActorRefErr::NotFound(_) => {
+                request.result_channel = result_channel;
+                Some(request)
+            }
+            e => {
+                result_channel.map(|result_sender| result_sender.send(Err(e)));
+                None
+            }
+        };
+
+        let _ = host_ref.notify(ShardNotHosted {
+            shard_id,
+            node_id,
+            request,
+        });
+        return;
+    }
 
     trace!(
         "emitted RemoteEntityRequest to node_id={} from node_id={}, waiting for reply",
-        shard_ref.node_id().unwrap(),
+        node_id,
         system.node_id()
     );
 
-    let res = match rx.await {
-        Ok(response) => {
-            result_channel.map(move |result_sender| {
-                let response = response.into_result().map_err(|e| e);
-
-                result_sender.send(response)
-            });
-
-            Ok(())
-        }
-        Err(_e) => Err(ActorRefErr::ResultChannelClosed),
-    };
+    if let Ok(response) = rx.await {
+        result_channel.map(move |result_sender| result_sender.send(response.into_result()));
+    }
 
     trace!(
         "received reply for RemoteEntityRequest from node_id={} to node_id={}",
         system.node_id(),
-        shard_ref.node_id().unwrap()
+        node_id
     );
-
-    res
 }
 
 impl From<RemoteEntityRequest> for EntityRequest {
-- 
2.43.0


From 5156d16436ed059287435e5e3c5be0648097c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:25 +0000
Subject: [PATCH 33/43] fix: shards were allocated to another node while they
 were running or starting on the previous one

---
 coerce/src/sharding/coordinator/allocation.rs | 117 +++++++++++++++---
 coerce/src/sharding/coordinator/balancing.rs  |  98 ++++++++++-----
 coerce/src/sharding/coordinator/mod.rs        |  66 +++++++++-
 3 files changed, 231 insertions(+), 50 deletions(-)

diff --git a/coerce/src/sharding/coordinator/allocation.rs b/coerce/src/sharding/coordinator/allocation.rs
index 7cbbfae..9c7bc63 100644
--- a/coerce/src/sharding/coordinator/allocation.rs
+++ b/coerce/src/sharding/coordinator/allocation.rs
@@ -1,6 +1,6 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
-use crate::actor::{ActorId, ActorRef};
+use crate::actor::{Actor, ActorId, ActorRef, LocalActorRef};
 use crate::persistent::{PersistentActor, Recover};
 use crate::remote::system::NodeId;
 use crate::sharding::coordinator::{ShardCoordinator, ShardHostState, ShardId};
@@ -43,19 +43,90 @@ impl ShardCoordinator {
     pub async fn allocate_shard(
         &mut self,
         shard_id: ShardId,
-        _ctx: &mut ActorContext,
+        ctx: &mut ActorContext,
     ) -> AllocateShardResult {
+        let self_ref = self.actor_ref(ctx);
         let shard_entry = self.shards.entry(shard_id);
 
         match shard_entry {
             Entry::Occupied(node) => AllocateShardResult::AlreadyAllocated(shard_id, *node.get()),
             Entry::Vacant(vacant) => {
-                allocate(
+                let result = allocate(
                     shard_id,
                     self.hosts.values_mut().filter(|n| n.is_ready()).collect(),
                     vacant,
+                    self_ref,
                 )
-                .await
+                .await;
+
+                if let AllocateShardResult::Allocated(_, _) = result {
+                    *self.allocation_broadcasts.entry(shard_id).or_default() += 1;
+                }
+
+                result
+            }
+        }
+    }
+
+    /// Lets the node know (again) that it hosts the shard, it may not have been reachable (or
+    /// ready) when the shard was allocated to it
+    fn confirm_allocation(&mut self, shard_id: ShardId, node_id: NodeId, ctx: &ActorContext) {
+        if self.allocation_broadcasts.contains_key(&shard_id) {
+            return;
+        }
+
+        if let Some(host) = self.hosts.get(&node_id) {
+            let self_ref = self.actor_ref(ctx);
+            let hosts = vec![host.actor.clone()];
+
+            self.allocation_broadcasts.insert(shard_id, 1);
+            tokio::spawn(async move {
+                let node_notified = broadcast_allocation(shard_id, node_id, hosts).await;
+                let _ = self_ref.notify(AllocationBroadcasted {
+                    shard_id,
+                    node_notified,
+                });
+            });
+        }
+    }
+}
+
+/// All hosts have been notified of the allocation of the shard, until then the shard can not be
+/// moved: the notifications could still be in flight when it already is somewhere else.
+pub(crate) struct AllocationBroadcasted {
+    shard_id: ShardId,
+    node_notified: bool,
+}
+
+impl Message for AllocationBroadcasted {
+    type Result = ();
+}
+
+#[async_trait]
+impl Handler<AllocationBroadcasted> for ShardCoordinator {
+    async fn handle(&mut self, message: AllocationBroadcasted, ctx: &mut ActorContext) {
+        let shard_id = message.shard_id;
+        if let Entry::Occupied(mut broadcasts) = self.allocation_broadcasts.entry(shard_id) {
+            *broadcasts.get_mut() -= 1;
+            if *broadcasts.get() > 0 {
+                return;
+            }
+
+            broadcasts.remove();
+        }
+
+        let host = self.shards.get(&shard_id).copied();
+        let host = host.and_then(|node_id| self.hosts.get_mut(&node_id));
+        if let Some(host) = host.filter(|h| !h.is_ready()) {
+            // the node became unavailable in the meantime
+            if message.node_notified {
+                let self_ref = self.actor_ref(ctx);
+                self.rebalance_shards(vec![shard_id], self_ref, ctx.system().remote())
+                    .await;
+            } else {
+                host.shards.remove(&shard_id);
+                self.shards.remove(&shard_id);
+                self.allocate_shard(shard_id, ctx).await;
             }
         }
     }
@@ -68,14 +139,21 @@ impl Handler<AllocateShard> for ShardCoordinator {
         message: AllocateShard,
         ctx: &mut ActorContext,
     ) -> AllocateShardResult {
-        if let Some(entry) = self.shards.get(&message.shard_id) {
-            return AllocateShardResult::AlreadyAllocated(message.shard_id, *entry);
+        if let Some(node_id) = self.shards.get(&message.shard_id).copied() {
+            self.confirm_allocation(message.shard_id, node_id, ctx);
+            return AllocateShardResult::AlreadyAllocated(message.shard_id, node_id);
         }
 
         if message.rebalancing {
+            self.reallocating_shards.remove(&message.shard_id);
             return self.allocate_shard(message.shard_id, ctx).await;
         }
 
+        if self.reallocating_shards.contains(&message.shard_id) {
+            // the shard could still be running on its previous node
+            return AllocateShardResult::NotAllocated;
+        }
+
         match self.persist(&message, ctx).await {
             Ok(_) => self.allocate_shard(message.shard_id, ctx).await,
             Err(e) => {
@@ -91,10 +169,10 @@ impl Handler<AllocateShard> for ShardCoordinator {
 
 #[async_trait]
 impl Recover<AllocateShard> for ShardCoordinator {
-    async fn recover(&mut self, message: AllocateShard, ctx: &mut ActorContext) {
+    async fn recover(&mut self, message: AllocateShard, _ctx: &mut ActorContext) {
         trace!("recovered `AllocateShard`, shard_id={}", message.shard_id);
 
-        self.allocate_shard(message.shard_id, ctx).await;
+        self.reallocating_shards.insert(message.shard_id);
     }
 }
 
@@ -102,6 +180,7 @@ async fn allocate(
     shard_id: ShardId,
     mut hosts: Vec<&mut ShardHostState>,
     shard_entry: VacantEntry<'_, ShardId, NodeId>,
+    coordinator: LocalActorRef<ShardCoordinator>,
 ) -> AllocateShardResult {
     // TODO: weighted ordering - shards with more entities should have a higher weight, the more shards*
 
@@ -118,13 +197,16 @@ async fn allocate(
         trace!("shard#{} allocated, target_node={}", shard_id, node_id);
 
         shard_entry.insert(node_id);
-        if host.shards.insert(shard_id) {
-            let node_id = host.node_id;
-            let hosts = hosts.iter().map(|h| h.actor.clone()).collect();
-            tokio::spawn(async move {
-                broadcast_allocation(shard_id, node_id, hosts).await;
+        host.shards.insert(shard_id);
+
+        let hosts = hosts.iter().map(|h| h.actor.clone()).collect();
+        tokio::spawn(async move {
+            let node_notified = broadcast_allocation(shard_id, node_id, hosts).await;
+            let _ = coordinator.notify(AllocationBroadcasted {
+                shard_id,
+                node_notified,
             });
-        }
+        });
 
         AllocateShardResult::Allocated(shard_id, node_id)
     } else {
@@ -136,13 +218,14 @@ pub async fn broadcast_allocation(
     shard_id: ShardId,
     node_id: NodeId,
     hosts: Vec<ActorRef<ShardHost>>,
-) {
+) -> bool {
     trace!(
         "shard allocated (shard=#{}, node_id={}), broadcasting to all shard hosts",
         shard_id,
         node_id
     );
     let mut futures = vec![];
+    let mut node_notified = false;
 
     for host in hosts.into_iter() {
         if host.node_id() == Some(node_id) {
@@ -151,6 +234,8 @@ pub async fn broadcast_allocation(
                     "failed to notify node of shard allocation (shard_id={}, node_id={})",
                     shard_id, node_id
                 );
+            } else {
+                node_notified = true;
             }
         } else {
             futures.push(async move {
@@ -173,6 +258,8 @@ pub async fn broadcast_allocation(
 
     let _results = join_all(futures).await;
     trace!("broadcast to all nodes complete");
+
+    node_notified
 }
 
 pub async fn broadcast_reallocation(shard_id: ShardId, hosts: Vec<ActorRef<ShardHost>>) {
diff --git a/coerce/src/sharding/coordinator/balancing.rs b/coerce/src/sharding/coordinator/balancing.rs
index b3a473f..3e632dd 100644
--- a/coerce/src/sharding/coordinator/balancing.rs
+++ b/coerce/src/sharding/coordinator/balancing.rs
@@ -1,12 +1,13 @@
 use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message};
-use crate::actor::{ActorRef, LocalActorRef};
+use crate::actor::{ActorRef, ActorRefErr, LocalActorRef};
 use crate::remote::system::{NodeId, RemoteActorSystem};
 use crate::sharding::coordinator::allocation::{broadcast_reallocation, AllocateShard};
 use crate::sharding::coordinator::{ShardCoordinator, ShardHostStatus, ShardId};
-use crate::sharding::host::{ShardHost, ShardStopped, StopShard};
+use crate::sharding::host::{ShardHost, StopShard};
 use futures::future::join_all;
 
+use std::collections::HashSet;
 use std::mem;
 use std::time::Instant;
 use tokio::sync::oneshot;
@@ -53,6 +54,13 @@ impl Handler<Rebalance> for ShardCoordinator {
                     }
                 }
 
+                // shards that are still being allocated can't be moved yet
+                let total = shards_to_rebalance.len();
+                shards_to_rebalance.retain(|s| !self.allocation_broadcasts.contains_key(s));
+                if shards_to_rebalance.len() != total {
+                    self.schedule_full_rebalance(ctx);
+                }
+
                 self.rebalance_shards(shards_to_rebalance, self_ref, ctx.system().remote())
                     .await
             }
@@ -91,8 +99,12 @@ impl ShardCoordinator {
             .map(|h| h.1.actor.clone())
             .collect::<Vec<ActorRef<ShardHost>>>();
 
-        let origin_node_id = self.self_node_id.expect("node id");
         for shard in shards.clone() {
+            if self.allocation_broadcasts.contains_key(&shard) {
+                warn!("shard#{} is still being allocated, not re-balancing it", shard);
+                continue;
+            }
+
             tokio::spawn(broadcast_reallocation(shard, hosts.clone()));
 
             if let Some(shard_node_id) = self.shards.remove(&shard) {
@@ -102,37 +114,13 @@ impl ShardCoordinator {
                 let self_ref = self_ref.clone();
                 let shard_host_actor = shard_host.actor.clone();
 
+                self.reallocating_shards.insert(shard);
+
                 let sys = system.clone();
                 shard_reallocation_tasks.push(async move {
-                    let request_id = Uuid::new_v4();
-
-                    let (tx, rx) = oneshot::channel();
-                    sys.push_request(request_id, tx);
-
-                    let stop = StopShard { shard_id: shard, request_id, origin_node_id };
-                    let result = shard_host_actor.notify(stop).await;
-                    match result {
-                        Ok(_) => {
-                            let result = rx.await;
-                            if let Ok(result) = result {
-                                let result = ShardStopped::from_bytes(result.into_result().unwrap());
-                                match result {
-                                    Ok(_res) => {
-                                        let _ = self_ref.send(AllocateShard { shard_id: shard, rebalancing: true }).await;
-                                    },
-                                    Err(e) => {
-                                        error!("deserialization error: {}", e);
-                                    },
-                                }
-                            } else {
-                                warn!("error recv")
-                            }
+                    stop_shard(shard, shard_node_id, shard_host_actor, sys).await;
 
-                        }
-                        Err(e) => {
-                            error!("error during shard re-balancing - failed to send StopShard (shard_id={}), target_node={}) error={}", shard, &shard_host_actor, e);
-                        }
-                    }
+                    let _ = self_ref.send(AllocateShard { shard_id: shard, rebalancing: true }).await;
                 });
             }
         }
@@ -158,7 +146,16 @@ impl ShardCoordinator {
             // The node can be made available again, once confirmed
             shard_host_state.status = ShardHostStatus::Unavailable;
 
-            mem::take(&mut shard_host_state.shards)
+            // shards that are still being allocated to this node are moved once we know whether
+            // the node has been notified
+            let broadcasts = &self.allocation_broadcasts;
+            let (broadcasting, shards_to_rebalance): (HashSet<_>, HashSet<_>) =
+                mem::take(&mut shard_host_state.shards)
+                    .into_iter()
+                    .partition(|shard| broadcasts.contains_key(shard));
+
+            shard_host_state.shards = broadcasting;
+            shards_to_rebalance
         };
 
         let shard_count = shards_to_rebalance.len();
@@ -174,6 +171,43 @@ impl ShardCoordinator {
     }
 }
 
+/// Stops the shard and waits until it has stopped
+pub(crate) async fn stop_shard(
+    shard_id: ShardId,
+    node_id: NodeId,
+    shard_host: ActorRef<ShardHost>,
+    system: RemoteActorSystem,
+) {
+    let request_id = Uuid::new_v4();
+    let (tx, rx) = oneshot::channel();
+    system.push_node_request(request_id, node_id, tx);
+
+    let stop = StopShard {
+        shard_id,
+        request_id,
+        origin_node_id: system.node_id(),
+    };
+
+    let result = match shard_host.send(stop).await {
+        Ok(_) => rx
+            .await
+            .map_err(|_| ActorRefErr::ResultChannelClosed)
+            .and_then(|response| response.into_result()),
+        Err(e) => {
+            let _ = system.pop_request(request_id);
+            Err(e)
+        }
+    };
+
+    if let Err(e) = result {
+        // the node is gone or has no shard host, either way the shard is not running there
+        error!(
+            "failed to stop shard (shard_id={}, target_node={}) error={}",
+            shard_id, &shard_host, e
+        );
+    }
+}
+
 impl Message for Rebalance {
     type Result = ();
 }
diff --git a/coerce/src/sharding/coordinator/mod.rs b/coerce/src/sharding/coordinator/mod.rs
index 0a90d1a..ddf7b27 100644
--- a/coerce/src/sharding/coordinator/mod.rs
+++ b/coerce/src/sharding/coordinator/mod.rs
@@ -3,19 +3,21 @@ use crate::actor::context::ActorContext;
 use crate::actor::{Actor, ActorRef, LocalActorRef, ScheduledNotify};
 use crate::persistent::journal::types::JournalTypes;
 use crate::persistent::PersistentActor;
-use crate::sharding::coordinator::allocation::AllocateShard;
+use crate::sharding::coordinator::allocation::{broadcast_reallocation, AllocateShard};
 use crate::sharding::host::ShardHost;
 
 use crate::remote::system::NodeId;
 
 use crate::actor::message::Handler;
-use crate::remote::cluster::node::NodeStatus::{Healthy, Joining};
+use crate::remote::cluster::node::NodeStatus::{Healthy, Joining, Terminated};
 use crate::remote::heartbeat::Heartbeat;
 use crate::remote::stream::pubsub::{PubSub, Subscription};
 use crate::remote::stream::system::SystemTopic;
-use crate::sharding::coordinator::balancing::Rebalance;
+use crate::sharding::coordinator::balancing::{stop_shard, Rebalance};
+use futures::future::join_all;
 use std::collections::{HashMap, HashSet};
 use std::time::Duration;
+use tokio::time::timeout;
 
 pub mod allocation;
 pub mod balancing;
@@ -26,6 +28,9 @@ pub mod stream;
 
 pub type ShardId = u32;
 
+/// How long to wait for a node that appears to be gone when it is asked to stop a shard
+const TERMINATED_NODE_STOP_TIMEOUT: Duration = Duration::from_secs(10);
+
 #[derive(Debug)]
 pub struct ShardHostState {
     pub node_id: NodeId,
@@ -55,6 +60,7 @@ pub struct ShardCoordinator {
     hosts: HashMap<NodeId, ShardHostState>,
     shards: HashMap<ShardId, NodeId>,
     reallocating_shards: HashSet<ShardId>,
+    allocation_broadcasts: HashMap<ShardId, usize>,
     scheduled_rebalance: Option<ScheduledRebalance>,
     self_node_id: Option<NodeId>,
     system_event_subscription: Option<Subscription>,
@@ -120,6 +126,59 @@ impl PersistentActor for ShardCoordinator {
         }
     }
 
+    async fn post_recovery(&mut self, ctx: &mut ActorContext) {
+        // the recovered shards can be running on any of the nodes, they can only be allocated
+        // once they are no longer running
+        let remote = ctx.system().remote();
+        let terminated_nodes: HashSet<NodeId> = remote
+            .get_nodes()
+            .await
+            .into_iter()
+            .filter(|node| node.status == Terminated)
+            .map(|node| node.id)
+            .collect();
+
+        let ready_hosts: Vec<ActorRef<ShardHost>> = self
+            .hosts
+            .values()
+            .filter(|h| h.is_ready())
+            .map(|h| h.actor.clone())
+            .collect();
+
+        for shard_id in self.reallocating_shards.clone() {
+            let self_ref = self.actor_ref(ctx);
+            let stop_tasks: Vec<_> = self
+                .hosts
+                .values()
+                .map(|h| {
+                    let node_id = h.node_id;
+                    let is_terminated = terminated_nodes.contains(&node_id);
+                    let stop = stop_shard(shard_id, node_id, h.actor.clone(), remote.clone());
+                    async move {
+                        if is_terminated {
+                            // it could have been restarted, without us being connected to it yet
+                            let _ = timeout(TERMINATED_NODE_STOP_TIMEOUT, stop).await;
+                        } else {
+                            stop.await
+                        }
+                    }
+                })
+                .collect();
+
+            tokio::spawn(broadcast_reallocation(shard_id, ready_hosts.clone()));
+            tokio::spawn(async move {
+                join_all(stop_tasks).await;
+
+                let _ = self_ref
+                    .send(AllocateShard {
+                        shard_id,
+                        rebalancing: true,
+                    })
+                    .await;
+            });
+        }
+    }
+
     async fn stopped(&mut self, ctx: &mut ActorContext) {
         Heartbeat::remove(ctx.id(), ctx.system().remote());
     }
@@ -136,6 +195,7 @@ impl ShardCoordinator {
             hosts: Default::default(),
             shards: Default::default(),
             reallocating_shards: Default::default(),
+            allocation_broadcasts: Default::default(),
             scheduled_rebalance: None,
             self_node_id: None,
             system_event_subscription: None,
-- 
2.43.0


From 6f9970557821ec6113a9175bff8e994cbfc4b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:57 +0000
Subject: [PATCH 34/43] fix: acknowledgements of earlier lease requests were
 counted towards the current one, starting a second singleton

---
 coerce/src/protocol/singleton.proto     |  2 +
 coerce/src/singleton/manager/lease.rs   | 38 ++++++++++-----
 coerce/src/singleton/manager/mod.rs     | 30 ++++++++----
 coerce/src/singleton/manager/start.rs   | 12 ++---
 coerce/src/singleton/proto/singleton.rs | 63 ++++++++++++++++++++-----
 5 files changed, 103 insertions(+), 42 deletions(-)

diff --git a/coerce/src/protocol/singleton.proto b/coerce/src/protocol/singleton.proto
index ab2eda5..739abb6 100644
--- a/coerce/src/protocol/singleton.proto
+++ b/coerce/src/protocol/singleton.proto
@@ -20,10 +20,12 @@ enum SingletonState {
 
 message RequestLease {
     uint64 source_node_id = 1;
+    uint64 lease_id = 2;
 }
 
 message LeaseAck {
     uint64 source_node_id = 1;
+    uint64 lease_id = 2;
 }
 
 message LeaseNack {
diff --git a/coerce/src/singleton/manager/lease.rs b/coerce/src/singleton/manager/lease.rs
index 75ce43e..56b3783 100644
--- a/coerce/src/singleton/manager/lease.rs
+++ b/coerce/src/singleton/manager/lease.rs
@@ -12,6 +12,7 @@ use crate::singleton::proto::singleton as proto;
 #[derive(Clone)]
 pub struct RequestLease {
     pub source_node_id: NodeId,
+    pub lease_id: u64,
 }
 
 impl Message for RequestLease {
@@ -20,6 +21,7 @@ impl Message for RequestLease {
     fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
         proto::RequestLease {
             source_node_id: self.source_node_id,
+            lease_id: self.lease_id,
             ..Default::default()
         }
         .to_bytes()
@@ -28,6 +30,7 @@ impl Message for RequestLease {
     fn from_bytes(buf: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
         proto::RequestLease::from_bytes(buf).map(|l| Self {
             source_node_id: l.source_node_id,
+            lease_id: l.lease_id,
         })
     }
 
@@ -43,6 +46,7 @@ impl Message for RequestLease {
 #[derive(Clone)]
 pub struct LeaseAck {
     pub source_node_id: NodeId,
+    pub lease_id: u64,
 }
 
 impl Message for LeaseAck {
@@ -51,6 +55,7 @@ impl Message for LeaseAck {
     fn as_bytes(&self) -> Result<Vec<u8>, MessageWrapErr> {
         proto::LeaseAck {
             source_node_id: self.source_node_id,
+            lease_id: self.lease_id,
             ..Default::default()
         }
         .to_bytes()
@@ -59,6 +64,7 @@ impl Message for LeaseAck {
     fn from_bytes(buf: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
         proto::LeaseAck::from_bytes(buf).map(|l| Self {
             source_node_id: l.source_node_id,
+            lease_id: l.lease_id,
         })
     }
 
@@ -86,7 +92,7 @@ impl<F: SingletonFactory> Handler<RequestLease> for Manager<F> {
 
         match &mut self.state {
             State::Joining { .. } | State::Idle => {
-                self.grant_lease(message.source_node_id, ctx).await;
+                self.grant_lease(message, ctx).await;
             }
 
             State::Starting {
@@ -94,14 +100,14 @@ impl<F: SingletonFactory> Handler<RequestLease> for Manager<F> {
                 lease_requested_by,
                 ..
             } => {
-                lease_requested_by.replace(message.source_node_id);
+                lease_requested_by.replace(message);
             }
 
             State::Starting { .. } => {
                 // two managers are trying to start the singleton, it belongs on the leader
                 if self.sys.current_leader() != Some(self.node_id) {
                     self.abandon_starting();
-                    self.grant_lease(message.source_node_id, ctx).await;
+                    self.grant_lease(message, ctx).await;
                 }
             }
 
@@ -112,14 +118,14 @@ impl<F: SingletonFactory> Handler<RequestLease> for Manager<F> {
                     "singleton already running, stopping",
                 );
 
-                self.begin_stopping(message.source_node_id, ctx).await;
+                self.begin_stopping(message, ctx).await;
             }
 
             State::Stopping {
                 lease_requested_by, ..
             } => {
                 // granted once the actor has stopped
-                *lease_requested_by = message.source_node_id;
+                *lease_requested_by = message;
             }
         }
     }
@@ -128,12 +134,12 @@ impl<F: SingletonFactory> Handler<RequestLease> for Manager<F> {
 #[async_trait]
 impl<F: SingletonFactory> Handler<LeaseAck> for Manager<F> {
     async fn handle(&mut self, message: LeaseAck, ctx: &mut ActorContext) {
-        self.on_lease_ack(message.source_node_id, ctx).await;
+        self.on_lease_ack(message, ctx).await;
     }
 }
 
 impl<F: SingletonFactory> Manager<F> {
-    pub async fn request_lease(&mut self, ctx: &ActorContext) {
+    pub async fn request_lease(&mut self, lease_id: u64, ctx: &ActorContext) {
         if self.managers.len() == 0 {
             self.check_acknowledgements(ctx).await;
             return;
@@ -141,6 +147,7 @@ impl<F: SingletonFactory> Manager<F> {
 
         let request = RequestLease {
             source_node_id: self.node_id,
+            lease_id,
         };
 
         let manager_count = self.managers.len();
@@ -152,7 +159,8 @@ impl<F: SingletonFactory> Manager<F> {
         self.notify_managers(request, ctx).await;
     }
 
-    pub async fn grant_lease(&mut self, node_id: NodeId, ctx: &ActorContext) {
+    pub async fn grant_lease(&mut self, request: RequestLease, ctx: &ActorContext) {
+        let node_id = request.source_node_id;
         debug!(target_node_id = node_id, "sending LeaseAck");
 
         match &mut self.state {
@@ -163,7 +171,7 @@ impl<F: SingletonFactory> Manager<F> {
                     target_node_id = node_id,
                     "manager still joining, buffering acknowledgement until `MemberUp` received"
                 );
-                acknowledgement_pending.replace(node_id);
+                acknowledgement_pending.replace(request);
             }
 
             _ => {
@@ -171,6 +179,7 @@ impl<F: SingletonFactory> Manager<F> {
                     node_id,
                     LeaseAck {
                         source_node_id: self.node_id,
+                        lease_id: request.lease_id,
                     },
                     ctx,
                 )
@@ -179,11 +188,14 @@ impl<F: SingletonFactory> Manager<F> {
         }
     }
 
-    pub async fn on_lease_ack(&mut self, node_id: NodeId, ctx: &ActorContext) {
+    pub async fn on_lease_ack(&mut self, ack: LeaseAck, ctx: &ActorContext) {
+        let node_id = ack.source_node_id;
         match &mut self.state {
             State::Starting {
-                acknowledged_nodes, ..
-            } => {
+                lease_id,
+                acknowledged_nodes,
+                ..
+            } if *lease_id == ack.lease_id => {
                 acknowledged_nodes.insert(node_id);
 
                 info!(
@@ -200,7 +212,7 @@ impl<F: SingletonFactory> Manager<F> {
                     source_node_id = node_id,
                     node_id = self.node_id,
                     state = format!("{:?}", state),
-                    "received LeaseAck but state is not starting"
+                    "received LeaseAck but the lease is not being requested"
                 );
             }
         }
diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index fa4ecc7..fc81352 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -22,6 +22,7 @@ use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Formatter};
 use std::time::Duration;
+use uuid::Uuid;
 
 const RECONCILE_INTERVAL: Duration = Duration::from_secs(2);
 
@@ -89,22 +90,24 @@ impl<A: Actor> Default for State<A> {
 
 pub enum State<A: Actor> {
     Joining {
-        acknowledgement_pending: Option<NodeId>,
+        acknowledgement_pending: Option<RequestLease>,
     },
     Idle,
     Starting {
+        // acknowledgements of previous requests are ignored
+        lease_id: u64,
         acknowledged_nodes: HashSet<NodeId>,
         // set once every manager has acknowledged and the actor is being started
         actor_starting: bool,
         // a lease requested while the actor is being started
-        lease_requested_by: Option<NodeId>,
+        lease_requested_by: Option<RequestLease>,
     },
     Running {
         actor_ref: LocalActorRef<A>,
     },
     Stopping {
         actor_ref: LocalActorRef<A>,
-        lease_requested_by: NodeId,
+        lease_requested_by: RequestLease,
     },
 }
 
@@ -212,16 +215,18 @@ impl<F: SingletonFactory> Manager<F> {
             return;
         }
 
+        let lease_id = Uuid::new_v4().as_u64_pair().0;
         self.state = State::Starting {
+            lease_id,
             acknowledged_nodes: HashSet::new(),
             actor_starting: false,
             lease_requested_by: None,
         };
 
-        self.request_lease(ctx).await;
+        self.request_lease(lease_id, ctx).await;
     }
 
-    pub async fn begin_stopping(&mut self, node_id: NodeId, ctx: &ActorContext) {
+    pub async fn begin_stopping(&mut self, request: RequestLease, ctx: &ActorContext) {
         let actor_ref = self.state.get_actor();
         let actor_ref = match actor_ref {
             Some(actor_ref) => actor_ref,
@@ -239,7 +244,7 @@ impl<F: SingletonFactory> Manager<F> {
 
         self.state = State::Stopping {
             actor_ref,
-            lease_requested_by: node_id,
+            lease_requested_by: request,
         };
     }
 
@@ -263,7 +268,7 @@ impl<F: SingletonFactory> Manager<F> {
                 actor_ref,
                 lease_requested_by,
             } if !actor_ref.is_valid() => {
-                let lease_requested_by = *lease_requested_by;
+                let lease_requested_by = lease_requested_by.clone();
                 self.state = State::Idle;
                 self.grant_lease(lease_requested_by, ctx).await;
             }
@@ -331,10 +336,13 @@ impl<F: SingletonFactory> Handler<Reconcile> for Manager<F> {
             } if !is_leader => self.abandon_starting(),
 
             State::Starting {
+                lease_id,
                 acknowledged_nodes,
                 actor_starting: false,
                 ..
             } => {
+                let lease_id = *lease_id;
+
                 // requests and acknowledgements are lost when nodes restart
                 let pending_nodes: Vec<NodeId> = self
                     .managers
@@ -348,6 +356,7 @@ impl<F: SingletonFactory> Handler<Reconcile> for Manager<F> {
                         node_id,
                         RequestLease {
                             source_node_id: self.node_id,
+                            lease_id,
                         },
                         ctx,
                     )
@@ -421,8 +430,8 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
                         let acknowledgement_pending = acknowledgement_pending.take();
                         self.state = State::Idle;
 
-                        if let Some(node_id) = acknowledgement_pending {
-                            self.grant_lease(node_id, ctx).await;
+                        if let Some(request) = acknowledgement_pending {
+                            self.grant_lease(request, ctx).await;
                         }
                     }
 
@@ -451,10 +460,11 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
                             .into();
 
                             match &self.state {
-                                State::Starting { .. } => {
+                                State::Starting { lease_id, .. } => {
                                     let _ = remote_ref
                                         .notify(RequestLease {
                                             source_node_id: self.node_id,
+                                            lease_id: *lease_id,
                                         })
                                         .await;
                                 }
diff --git a/coerce/src/singleton/manager/start.rs b/coerce/src/singleton/manager/start.rs
index bb81579..634847a 100644
--- a/coerce/src/singleton/manager/start.rs
+++ b/coerce/src/singleton/manager/start.rs
@@ -42,7 +42,7 @@ impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
                         lease_requested_by, ..
                     } => {
                         debug!("singleton actor started");
-                        *lease_requested_by
+                        lease_requested_by.clone()
                     }
                     _ => {
                         warn!("Invalid state, expected `Starting`");
@@ -70,8 +70,8 @@ impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
                 )
                 .await;
 
-                if let Some(node_id) = lease_requested_by {
-                    self.begin_stopping(node_id, ctx).await;
+                if let Some(request) = lease_requested_by {
+                    self.begin_stopping(request, ctx).await;
                 }
             }
             ActorStartResult::Failed(e) => {
@@ -81,11 +81,11 @@ impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
                     lease_requested_by, ..
                 } = &self.state
                 {
-                    let lease_requested_by = *lease_requested_by;
+                    let lease_requested_by = lease_requested_by.clone();
                     self.state = State::Idle;
 
-                    if let Some(node_id) = lease_requested_by {
-                        self.grant_lease(node_id, ctx).await;
+                    if let Some(request) = lease_requested_by {
+                        self.grant_lease(request, ctx).await;
                     }
                 }
             }
diff --git a/coerce/src/singleton/proto/singleton.rs b/coerce/src/singleton/proto/singleton.rs
index 09b0325..fe7176c 100644
--- a/coerce/src/singleton/proto/singleton.rs
+++ b/coerce/src/singleton/proto/singleton.rs
@@ -275,6 +275,8 @@ pub struct RequestLease {
     // message fields
     // @@protoc_insertion_point(field:coerce.singleton.RequestLease.source_node_id)
     pub source_node_id: u64,
+    // @@protoc_insertion_point(field:coerce.singleton.RequestLease.lease_id)
+    pub lease_id: u64,
     // special fields
     // @@protoc_insertion_point(special_field:coerce.singleton.RequestLease.special_fields)
     pub special_fields: ::protobuf::SpecialFields,
@@ -292,13 +294,18 @@ impl RequestLease {
     }
 
     fn generated_message_descriptor_data() -> ::protobuf::reflect::GeneratedMessageDescriptorData {
-        let mut fields = ::std::vec::Vec::with_capacity(1);
+        let mut fields = ::std::vec::Vec::with_capacity(2);
         let mut oneofs = ::std::vec::Vec::with_capacity(0);
         fields.push(::protobuf::reflect::rt::v2::make_simpler_field_accessor::<_, _>(
             "source_node_id",
             |m: &RequestLease| { &m.source_node_id },
             |m: &mut RequestLease| { &mut m.source_node_id },
         ));
+        fields.push(::protobuf::reflect::rt::v2::make_simpler_field_accessor::<_, _>(
+            "lease_id",
+            |m: &RequestLease| { &m.lease_id },
+            |m: &mut RequestLease| { &mut m.lease_id },
+        ));
         ::protobuf::reflect::GeneratedMessageDescriptorData::new_2::<RequestLease>(
             "RequestLease",
             fields,
@@ -320,6 +327,9 @@ impl ::protobuf::Message for RequestLease {
                 8 => {
                     self.source_node_id = is.read_uint64()?;
                 },
+                16 => {
+                    self.lease_id = is.read_uint64()?;
+                },
                 tag => {
                     ::protobuf::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?;
                 },
@@ -335,6 +345,9 @@ impl ::protobuf::Message for RequestLease {
         if self.source_node_id != 0 {
             my_size += ::protobuf::rt::uint64_size(1, self.source_node_id);
         }
+        if self.lease_id != 0 {
+            my_size += ::protobuf::rt::uint64_size(2, self.lease_id);
+        }
         my_size += ::protobuf::rt::unknown_fields_size(self.special_fields.unknown_fields());
         self.special_fields.cached_size().set(my_size as u32);
         my_size
@@ -344,6 +357,9 @@ impl ::protobuf::Message for RequestLease {
         if self.source_node_id != 0 {
             os.write_uint64(1, self.source_node_id)?;
         }
+        if self.lease_id != 0 {
+            os.write_uint64(2, self.lease_id)?;
+        }
         os.write_unknown_fields(self.special_fields.unknown_fields())?;
         ::std::result::Result::Ok(())
     }
@@ -362,12 +378,14 @@ impl ::protobuf::Message for RequestLease {
 
     fn clear(&mut self) {
         self.source_node_id = 0;
+        self.lease_id = 0;
         self.special_fields.clear();
     }
 
     fn default_instance() -> &'static RequestLease {
         static instance: RequestLease = RequestLease {
             source_node_id: 0,
+            lease_id: 0,
             special_fields: ::protobuf::SpecialFields::new(),
         };
         &instance
@@ -397,6 +415,8 @@ pub struct LeaseAck {
     // message fields
     // @@protoc_insertion_point(field:coerce.singleton.LeaseAck.source_node_id)
     pub source_node_id: u64,
+    // @@protoc_insertion_point(field:coerce.singleton.LeaseAck.lease_id)
+    pub lease_id: u64,
     // special fields
     // @@protoc_insertion_point(special_field:coerce.singleton.LeaseAck.special_fields)
     pub special_fields: ::protobuf::SpecialFields,
@@ -414,13 +434,18 @@ impl LeaseAck {
     }
 
     fn generated_message_descriptor_data() -> ::protobuf::reflect::GeneratedMessageDescriptorData {
-        let mut fields = ::std::vec::Vec::with_capacity(1);
+        let mut fields = ::std::vec::Vec::with_capacity(2);
         let mut oneofs = ::std::vec::Vec::with_capacity(0);
         fields.push(::protobuf::reflect::rt::v2::make_simpler_field_accessor::<_, _>(
             "source_node_id",
             |m: &LeaseAck| { &m.source_node_id },
             |m: &mut LeaseAck| { &mut m.source_node_id },
         ));
+        fields.push(::protobuf::reflect::rt::v2::make_simpler_field_accessor::<_, _>(
+            "lease_id",
+            |m: &LeaseAck| { &m.lease_id },
+            |m: &mut LeaseAck| { &mut m.lease_id },
+        ));
         ::protobuf::reflect::GeneratedMessageDescriptorData::new_2::<LeaseAck>(
             "LeaseAck",
             fields,
@@ -442,6 +467,9 @@ impl ::protobuf::Message for LeaseAck {
                 8 => {
                     self.source_node_id = is.read_uint64()?;
                 },
+                16 => {
+                    self.lease_id = is.read_uint64()?;
+                },
                 tag => {
                     ::protobuf::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?;
                 },
@@ -457,6 +485,9 @@ impl ::protobuf::Message for LeaseAck {
         if self.source_node_id != 0 {
             my_size += ::protobuf::rt::uint64_size(1, self.source_node_id);
         }
+        if self.lease_id != 0 {
+            my_size += ::protobuf::rt::uint64_size(2, self.lease_id);
+        }
         my_size += ::protobuf::rt::unknown_fields_size(self.special_fields.unknown_fields());
         self.special_fields.cached_size().set(my_size as u32);
         my_size
@@ -466,6 +497,9 @@ impl ::protobuf::Message for LeaseAck {
         if self.source_node_id != 0 {
             os.write_uint64(1, self.source_node_id)?;
         }
+        if self.lease_id != 0 {
+            os.write_uint64(2, self.lease_id)?;
+        }
         os.write_unknown_fields(self.special_fields.unknown_fields())?;
         ::std::result::Result::Ok(())
     }
@@ -484,12 +518,14 @@ impl ::protobuf::Message for LeaseAck {
 
     fn clear(&mut self) {
         self.source_node_id = 0;
+        self.lease_id = 0;
         self.special_fields.clear();
     }
 
     fn default_instance() -> &'static LeaseAck {
         static instance: LeaseAck = LeaseAck {
             source_node_id: 0,
+            lease_id: 0,
             special_fields: ::protobuf::SpecialFields::new(),
         };
         &instance
@@ -1071,17 +1107,18 @@ static file_descriptor_proto_data: &'static [u8] = b"\
     \n\x0fsingleton.proto\x12\x10coerce.singleton\"1\n\tGetStatus\x12$\n\x0e\
     source_node_id\x18\x01\x20\x01(\x04R\x0csourceNodeId\"Z\n\rManagerStatus\
     \x12I\n\x0fsingleton_state\x18\x01\x20\x01(\x0e2\x20.coerce.singleton.Si\
-    ngletonStateR\x0esingletonState\"4\n\x0cRequestLease\x12$\n\x0esource_no\
-    de_id\x18\x01\x20\x01(\x04R\x0csourceNodeId\"0\n\x08LeaseAck\x12$\n\x0es\
-    ource_node_id\x18\x01\x20\x01(\x04R\x0csourceNodeId\"1\n\tLeaseNack\x12$\
-    \n\x0esource_node_id\x18\x01\x20\x01(\x04R\x0csourceNodeId\"8\n\x10Singl\
-    etonStarted\x12$\n\x0esource_node_id\x18\x01\x20\x01(\x04R\x0csourceNode\
-    Id\"9\n\x11SingletonStopping\x12$\n\x0esource_node_id\x18\x01\x20\x01(\
-    \x04R\x0csourceNodeId\"8\n\x10SingletonStopped\x12$\n\x0esource_node_id\
-    \x18\x01\x20\x01(\x04R\x0csourceNodeId*P\n\x0eSingletonState\x12\x0b\n\
-    \x07JOINING\x10\0\x12\x08\n\x04IDLE\x10\x01\x12\x0c\n\x08STARTING\x10\
-    \x02\x12\x0b\n\x07RUNNING\x10\x03\x12\x0c\n\x08STOPPING\x10\x04b\x06prot\
-    o3\
+    ngletonStateR\x0esingletonState\"O\n\x0cRequestLease\x12$\n\x0esource_no\
+    de_id\x18\x01\x20\x01(\x04R\x0csourceNodeId\x12\x19\n\x08lease_id\x18\
+    \x02\x20\x01(\x04R\x07leaseId\"K\n\x08LeaseAck\x12$\n\x0esource_node_id\
+    \x18\x01\x20\x01(\x04R\x0csourceNodeId\x12\x19\n\x08lease_id\x18\x02\x20\
+    \x01(\x04R\x07leaseId\"1\n\tLeaseNack\x12$\n\x0esource_node_id\x18\x01\
+    \x20\x01(\x04R\x0csourceNodeId\"8\n\x10SingletonStarted\x12$\n\x0esource\
+    _node_id\x18\x01\x20\x01(\x04R\x0csourceNodeId\"9\n\x11SingletonStopping\
+    \x12$\n\x0esource_node_id\x18\x01\x20\x01(\x04R\x0csourceNodeId\"8\n\x10\
+    SingletonStopped\x12$\n\x0esource_node_id\x18\x01\x20\x01(\x04R\x0csourc\
+    eNodeId*P\n\x0eSingletonState\x12\x0b\n\x07JOINING\x10\0\x12\x08\n\x04ID\
+    LE\x10\x01\x12\x0c\n\x08STARTING\x10\x02\x12\x0b\n\x07RUNNING\x10\x03\
+    \x12\x0c\n\x08STOPPING\x10\x04b\x06proto3\
 ";
 
 /// `FileDescriptorProto` object which was a source for this generated file
-- 
2.43.0


From 57d1b96a28090229243f3ac2732aa2c95568991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:20 +0000
Subject: [PATCH 35/43] fix: requests that had already failed because the
 connection was lost were still delivered after reconnecting

---
 coerce/src/remote/actor/mod.rs          |  4 ++++
 coerce/src/remote/net/client/connect.rs |  2 +-
 coerce/src/remote/net/client/mod.rs     |  2 +-
 coerce/src/remote/net/client/send.rs    | 21 +++++++++++++++------
 coerce/src/remote/net/message.rs        |  7 +++++++
 coerce/src/remote/net/mod.rs            |  6 ++++++
 coerce/src/remote/system/rpc.rs         |  5 +++++
 7 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/coerce/src/remote/actor/mod.rs b/coerce/src/remote/actor/mod.rs
index 52960a6..fcbed85 100644
--- a/coerce/src/remote/actor/mod.rs
+++ b/coerce/src/remote/actor/mod.rs
@@ -41,6 +41,10 @@ impl RemoteHandler {
             .collect()
     }
 
+    pub fn is_request_inflight(&self, message_id: Uuid) -> bool {
+        self.requests.contains_key(&message_id)
+    }
+
     pub fn inflight_request_count(&self) -> usize {
         self.requests.len()
     }
diff --git a/coerce/src/remote/net/client/connect.rs b/coerce/src/remote/net/client/connect.rs
index 3d84fa9..591ffde 100644
--- a/coerce/src/remote/net/client/connect.rs
+++ b/coerce/src/remote/net/client/connect.rs
@@ -171,7 +171,7 @@ impl Handler<Connect> for RemoteClient {
                 on_discovery_complete: None,
             });
 
-            self.flush_buffered_writes().await;
+            self.flush_buffered_writes(ctx).await;
         } else {
             while let Some(callback) = self.on_identified_callbacks.pop() {
                 let _ = callback.send(None);
diff --git a/coerce/src/remote/net/client/mod.rs b/coerce/src/remote/net/client/mod.rs
index 63cf009..b2a4d71 100644
--- a/coerce/src/remote/net/client/mod.rs
+++ b/coerce/src/remote/net/client/mod.rs
@@ -39,7 +39,7 @@ pub struct RemoteClient {
     state: Option<ClientState>,
     stop: Option<Sender<bool>>,
     write_buffer_bytes_total: usize,
-    write_buffer: VecDeque<Vec<u8>>,
+    write_buffer: VecDeque<(Option<Uuid>, Vec<u8>)>,
     on_identified_callbacks: Vec<Sender<Option<NodeIdentity>>>,
     on_handshake_ack_callbacks: Vec<HandshakeAckCallback>,
     ping_timer: Option<Timer>,
diff --git a/coerce/src/remote/net/client/send.rs b/coerce/src/remote/net/client/send.rs
index b25502a..5c67c4d 100644
--- a/coerce/src/remote/net/client/send.rs
+++ b/coerce/src/remote/net/client/send.rs
@@ -8,6 +8,7 @@ use futures::SinkExt;
 use tokio::io::WriteHalf;
 use tokio::net::TcpStream;
 use tokio_util::codec::{FramedWrite, LengthDelimitedCodec};
+use uuid::Uuid;
 
 pub struct Write<M: StreamData>(pub M);
 
@@ -40,7 +41,7 @@ impl ConnectionState {
 }
 
 impl RemoteClient {
-    pub async fn flush_buffered_writes(&mut self) {
+    pub async fn flush_buffered_writes(&mut self, ctx: &ActorContext) {
         let connection_state = match &mut self.state {
             Some(ClientState::Connected(connection_state)) => connection_state,
             _ => return,
@@ -52,13 +53,21 @@ impl RemoteClient {
             &self.addr
         );
 
-        while let Some(buffered_message) = self.write_buffer.pop_front() {
+        while let Some((request_id, buffered_message)) = self.write_buffer.pop_front() {
             let len = buffered_message.len();
+            if let Some(request_id) = request_id {
+                // already failed, it must not be delivered anymore
+                if !ctx.system().remote().is_request_inflight(request_id) {
+                    self.write_buffer_bytes_total -= len;
+                    continue;
+                }
+            }
+
             let bytes = Bytes::from(buffered_message);
             if let Ok(()) = write_bytes(bytes.clone(), &mut connection_state.write).await {
                 self.write_buffer_bytes_total -= len;
             } else {
-                self.write_buffer.push_front(bytes.to_vec());
+                self.write_buffer.push_front((request_id, bytes.to_vec()));
 
                 // write failed, no point trying again - break and reconnect/retry later
                 break;
@@ -66,9 +75,9 @@ impl RemoteClient {
         }
     }
 
-    pub fn buffer_message(&mut self, message_bytes: Vec<u8>) {
+    pub fn buffer_message(&mut self, request_id: Option<Uuid>, message_bytes: Vec<u8>) {
         self.write_buffer_bytes_total += message_bytes.len();
-        self.write_buffer.push_back(message_bytes);
+        self.write_buffer.push_back((request_id, message_bytes));
     }
 
     pub async fn write<M: StreamData>(
@@ -119,7 +128,7 @@ impl RemoteClient {
             };
 
             if let Some(message_bytes) = buffer_message {
-                self.buffer_message(message_bytes);
+                self.buffer_message(message.request_id(), message_bytes);
             }
 
             if stream_write_error {
diff --git a/coerce/src/remote/net/message.rs b/coerce/src/remote/net/message.rs
index 64daf32..243b3ce 100644
--- a/coerce/src/remote/net/message.rs
+++ b/coerce/src/remote/net/message.rs
@@ -136,6 +136,13 @@ impl StreamData for SessionEvent {
         }
     }
 
+    fn request_id(&self) -> Option<Uuid> {
+        match self {
+            SessionEvent::NotifyActor(e) if e.requires_response => e.message_id.parse().ok(),
+            _ => None,
+        }
+    }
+
     fn write_to_bytes(&self) -> Option<Vec<u8>> {
         let (event_id, message) = match self {
             SessionEvent::Handshake(e) => (Event::Handshake, e.write_to_bytes()),
diff --git a/coerce/src/remote/net/mod.rs b/coerce/src/remote/net/mod.rs
index cf3459e..2d897e9 100644
--- a/coerce/src/remote/net/mod.rs
+++ b/coerce/src/remote/net/mod.rs
@@ -9,6 +9,7 @@ use std::task::{Context, Poll};
 
 use futures::StreamExt;
 use tokio_util::codec::{FramedRead, LengthDelimitedCodec};
+use uuid::Uuid;
 
 pub mod client;
 pub mod message;
@@ -21,6 +22,11 @@ pub trait StreamData: 'static + Send + Sync + Sized {
     fn read_from_bytes(data: Vec<u8>) -> Option<Self>;
 
     fn write_to_bytes(&self) -> Option<Vec<u8>>;
+
+    /// Identifies the request that is waiting for a response to this message, if there is one
+    fn request_id(&self) -> Option<Uuid> {
+        None
+    }
 }
 
 #[async_trait]
diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index d300ff9..c3e7ce0 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -242,6 +242,11 @@ impl RemoteActorSystem {
         handler.pop_request(id).map(|r| r.res_tx)
     }
 
+    pub fn is_request_inflight(&self, id: Uuid) -> bool {
+        let handler = self.inner.handler_ref.lock();
+        handler.is_request_inflight(id)
+    }
+
     pub fn inflight_remote_request_count(&self) -> usize {
         let handler = self.inner.handler_ref.lock();
         handler.inflight_request_count()
-- 
2.43.0


From 641e42dc8edf09ab107585ce88f4c6e0809fdc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:00 +0000
Subject: [PATCH 36/43] fix: children spawned after a child was attached are
 placed under their parent's path

---
 coerce/src/actor/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coerce/src/actor/context.rs b/coerce/src/actor/context.rs
index d52eeea..7e90678 100644
--- a/coerce/src/actor/context.rs
+++ b/coerce/src/actor/context.rs
@@ -165,7 +165,8 @@ impl ActorContext {
     pub fn attach_child_ref(&mut self, actor_ref: BoxedActorRef) {
         let supervised = {
             if self.supervised.is_none() {
-                self.supervised = Some(Supervised::new(self.id().clone(), self.path().clone()));
+                self.supervised =
+                    Some(Supervised::new(self.id().clone(), self.full_path().clone()));
             }
 
             self.supervised.as_mut().unwrap()
-- 
2.43.0


From e631ec7773a167d134e41be93993306efc0622a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:10 +0000
Subject: [PATCH 37/43] fix: a client panicked when writing the handshake
 failed, leaving the peer unreachable for good

---
 coerce/src/remote/net/client/connect.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/coerce/src/remote/net/client/connect.rs b/coerce/src/remote/net/client/connect.rs
index 591ffde..e5f71bf 100644
--- a/coerce/src/remote/net/client/connect.rs
+++ b/coerce/src/remote/net/client/connect.rs
@@ -219,7 +219,7 @@ impl Handler<BeginHandshake> for RemoteClient {
                     &self.addr, &message.request_id
                 );
 
-                write_bytes(
+                let result = write_bytes(
                     Bytes::from(
                         SessionEvent::Handshake(proto::SessionHandshake {
                             node_id,
@@ -239,8 +239,17 @@ impl Handler<BeginHandshake> for RemoteClient {
                     ),
                     &mut connection.write,
                 )
-                .await
-                .expect("write handshake");
+                .await;
+
+                if result.is_err() {
+                    warn!(
+                        "failed to write client handshake (client_addr={}, request_id={})",
+                        &self.addr, &message.request_id
+                    );
+
+                    self.handle(Disconnected, ctx).await;
+                    return;
+                }
 
                 debug!(
                     "written client handshake (client_addr={}, request_id={})",
-- 
2.43.0


From 60fde4e0c07fa043a5d0afba1f09221e71bdcaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:10 +0000
Subject: [PATCH 38/43] fix: reading a handshake acknowledgement waited for a
 client that waited for the peer to read

---
 coerce/src/remote/net/client/receive.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/net/client/receive.rs b/coerce/src/remote/net/client/receive.rs
index 1f46b82..6dbf9bf 100644
--- a/coerce/src/remote/net/client/receive.rs
+++ b/coerce/src/remote/net/client/receive.rs
@@ -92,15 +92,16 @@ impl StreamReceiver for ClientMessageReceiver {
                     .map(|n| n.into())
                     .collect();
 
+                // the client may be waiting for the peer to read, which in turn may be waiting for
+                // us to read - never wait for the client here
                 if !self
                     .actor_ref
-                    .send(HandshakeAcknowledge {
+                    .notify(HandshakeAcknowledge {
                         node_id,
                         node_tag,
                         node_started_at,
                         known_nodes,
                     })
-                    .await
                     .is_ok()
                 {
                     warn!("error sending handshake_tx");
-- 
2.43.0


From 6605fbecdf1ef0de54d50dfde8ef5ed4d8e22f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:23 +0000
Subject: [PATCH 39/43] fix: a node whose client was busy right after
 reconnecting was never announced as back

---
 coerce/src/remote/net/client/connect.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/coerce/src/remote/net/client/connect.rs b/coerce/src/remote/net/client/connect.rs
index e5f71bf..0ba16ba 100644
--- a/coerce/src/remote/net/client/connect.rs
+++ b/coerce/src/remote/net/client/connect.rs
@@ -161,7 +161,8 @@ impl Handler<Connect> for RemoteClient {
                 let _ = callback.send(Some(connection_state.identity.clone()));
             }
 
-            self.node_id = Some(connection_state.identity.node.id);
+            let node = connection_state.identity.node.clone();
+            let reconnected = self.node_id.replace(node.id).is_some();
             self.state = Some(ClientState::Connected(connection_state));
 
             debug!("RemoteClient connected to node (addr={})", &self.addr);
@@ -172,6 +173,14 @@ impl Handler<Connect> for RemoteClient {
             });
 
             self.flush_buffered_writes(ctx).await;
+
+            if reconnected {
+                // the lookup above is given up if this client was too busy to answer in time
+                let _ = ctx.system().remote().node_discovery().notify(Discover {
+                    seed: Seed::Nodes(vec![node]),
+                    on_discovery_complete: None,
+                });
+            }
         } else {
             while let Some(callback) = self.on_identified_callbacks.pop() {
                 let _ = callback.send(None);
-- 
2.43.0


From 7226603d0a58fa8937025300b2c6b9f5c12ca9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:50 +0000
Subject: [PATCH 40/43] fix: changes of the leader could be published in the
 wrong order

---
 coerce/src/remote/heartbeat/mod.rs | 34 ++++++++++++++----------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index e8e83d9..c271f2c 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -9,7 +9,7 @@ use crate::actor::{ActorId, CoreActorRef};
 use crate::remote::actor::message::{NodeTerminated, SetRemote};
 use crate::remote::cluster::node::{NodeStatus, RemoteNodeRef, RemoteNodeState};
 use crate::remote::net::proto::network::PongEvent;
-use crate::remote::stream::pubsub::PubSub;
+use crate::remote::stream::mediator::{Publish, Reach};
 use crate::remote::stream::system::ClusterEvent::{LeaderChanged, MemberUp};
 use crate::remote::stream::system::{ClusterMemberUp, SystemEvent, SystemTopic};
 use crate::remote::system::{NodeId, RemoteActorSystem};
@@ -313,15 +313,7 @@ impl Heartbeat {
         let system = self.system.as_ref().unwrap();
         system.update_leader(node_id);
 
-        let sys = system.clone();
-        tokio::spawn(async move {
-            let _ = PubSub::publish_locally(
-                SystemTopic,
-                SystemEvent::Cluster(LeaderChanged(node_id)),
-                &sys,
-            )
-            .await;
-        });
+        publish_in_order(SystemEvent::Cluster(LeaderChanged(node_id)), system);
 
         while let Some(on_leader_changed_cb) = self.on_next_leader_changed.pop_front() {
             let _ = on_leader_changed_cb.send(node_id);
@@ -332,14 +324,20 @@ impl Heartbeat {
         self.cluster_member_up = true;
         let system = self.system.as_ref().unwrap();
 
-        let sys = system.clone();
-        tokio::spawn(async move {
-            let _ = PubSub::publish_locally(
-                SystemTopic,
-                SystemEvent::Cluster(MemberUp(ClusterMemberUp { leader_id, nodes })),
-                &sys,
-            )
-            .await;
+        publish_in_order(
+            SystemEvent::Cluster(MemberUp(ClusterMemberUp { leader_id, nodes })),
+            system,
+        );
+    }
+}
+
+/// Events must reach the subscribers in the order in which they happened
+fn publish_in_order(message: SystemEvent, system: &RemoteActorSystem) {
+    if let Some(mediator) = system.stream_mediator() {
+        let _ = mediator.notify(Publish {
+            topic: SystemTopic,
+            message,
+            reach: Reach::Local,
         });
     }
 }
-- 
2.43.0


From 85ec231a8f521d6e8685c90e7c2631665b3d7af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:42 +0000
Subject: [PATCH 41/43] fix: shards of a node removed before the coordinator
 started are taken over

A coordinator that starts after a node's removal was announced never learns
of it and keeps allocating to the dead node for ever. When it cannot reach a
host, ask the cluster whether that node has been terminated.
---
 coerce/src/sharding/coordinator/allocation.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/coerce/src/sharding/coordinator/allocation.rs b/coerce/src/sharding/coordinator/allocation.rs
index 9c7bc63..0130c07 100644
--- a/coerce/src/sharding/coordinator/allocation.rs
+++ b/coerce/src/sharding/coordinator/allocation.rs
@@ -2,6 +2,7 @@ use crate::actor::context::ActorContext;
 use crate::actor::message::{Handler, Message, MessageUnwrapErr, MessageWrapErr};
 use crate::actor::{Actor, ActorId, ActorRef, LocalActorRef};
 use crate::persistent::{PersistentActor, Recover};
+use crate::remote::cluster::node::NodeStatus::Terminated;
 use crate::remote::system::NodeId;
 use crate::sharding::coordinator::{ShardCoordinator, ShardHostState, ShardId};
 use crate::sharding::host::{ShardAllocated, ShardAllocator, ShardHost, ShardReallocating};
@@ -115,8 +116,17 @@ impl Handler<AllocationBroadcasted> for ShardCoordinator {
             broadcasts.remove();
         }
 
-        let host = self.shards.get(&shard_id).copied();
-        let host = host.and_then(|node_id| self.hosts.get_mut(&node_id));
+        let node_id = self.shards.get(&shard_id).copied();
+        if let Some(node_id) = node_id.filter(|_| !message.node_notified) {
+            // the node could have been removed before we were subscribed to the cluster's events
+            let nodes = ctx.system().remote().get_nodes().await;
+            if nodes.iter().any(|n| n.id == node_id && n.status == Terminated) {
+                self.rebalance_unavailable_node(node_id, ctx).await;
+                return;
+            }
+        }
+
+        let host = node_id.and_then(|node_id| self.hosts.get_mut(&node_id));
         if let Some(host) = host.filter(|h| !h.is_ready()) {
             // the node became unavailable in the meantime
             if message.node_notified {
-- 
2.43.0


From a30a244614e0fcaadf143d0360f1e01a5835e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:42 +0000
Subject: [PATCH 42/43] fix: a ping that timed out does not override a newer
 pong

A restarted node answers new pings while pings sent to its former connection
still time out; each of those marked the healthy node as unreachable.
---
 coerce/src/remote/heartbeat/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index c271f2c..c4a8921 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -176,6 +176,16 @@ impl Message for OnLeaderChanged {
 #[async_trait]
 impl Handler<NodePing> for Heartbeat {
     async fn handle(&mut self, message: NodePing, _ctx: &mut ActorContext) {
+        if let (PingResult::Timeout, Some(NodePing(_, PingResult::Ok(_, _, pong_received_at)))) =
+            (&message.1, self.node_pings.get(&message.0))
+        {
+            // the node has responded to another ping since this one was sent
+            let time_since_pong = (Utc::now() - *pong_received_at).to_std();
+            if time_since_pong.unwrap_or_default() < self.config.ping_timeout {
+                return;
+            }
+        }
+
         let _ = self.node_pings.insert(message.0, message);
     }
 }
-- 
2.43.0


From f37d75b8efa4e867cfada94629e35f44b0cd8e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:42 +0000
Subject: [PATCH 43/43] fix: a silent node is terminated after the configured
 timeout, not before

The comparison was inverted: a node whose ping timed out was considered
terminated until terminated_node_heartbeat_timeout had passed, and merely
unhealthy afterwards.
---
 coerce/src/remote/heartbeat/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index c4a8921..9aa1f6b 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -448,7 +448,7 @@ fn node_status(
         Some(PingResult::Timeout) => {
             let terminated = last_heartbeat.map_or(true, |h| {
                 h.add(chrono::Duration::from_std(config.terminated_node_heartbeat_timeout).unwrap())
-                    >= Utc::now()
+                    <= Utc::now()
             });
 
             if terminated {
-- 
2.43.0

