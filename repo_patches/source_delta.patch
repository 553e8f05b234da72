From acb52afdc0f2584bf58216298b9fa4621a101a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 01/32] fix: keep the cuckoos of a Flo when it is updated

RealmStorage::put replaced the whole storage entry, so an update to a newer
version dropped all the cuckoo-IDs and the creation time stored next to it.
---
 flmodules/src/dht_storage/core.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 8fa0bda..dba7144 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -273,7 +273,7 @@ impl RealmStorage {
 
     fn put(&mut self, flo: Flo) {
         let id = flo.flo_id();
-        self.remove_entry(&id);
+        let previous = self.remove_entry(&id);
         let depth = KNode::get_depth(&self.dht_config.our_id, &id);
         // log::info!(
         //     "{} Storing id({id}) / version({}) / flo_type({}) at depth {depth}",
@@ -285,19 +285,26 @@ impl RealmStorage {
             .entry(depth)
             .or_insert_with(Vec::new)
             .push(id.clone());
-        let df: FloStorage = flo.into();
+        let mut df: FloStorage = flo.into();
+        if let Some(old) = previous {
+            // An update replaces the content, but the cuckoos still point to this flo.
+            df.cuckoos = old.cuckoos;
+            df.time_create = old.time_create;
+        }
         self.size += df.size() as u64;
         self.flos.insert(id, df);
     }
 
-    fn remove_entry(&mut self, id: &FloID) {
-        if let Some(df) = self.flos.remove(id) {
+    fn remove_entry(&mut self, id: &FloID) -> Option<FloStorage> {
+        let removed = self.flos.remove(id);
+        if let Some(df) = &removed {
             let distance = KNode::get_depth(&self.dht_config.our_id, id);
             self.distances
                 .entry(distance)
                 .and_modify(|v| v.retain(|i| i != id));
             self.size -= df.size() as u64;
         }
+        removed
     }
 
     fn remove_furthest(&mut self) {
-- 
2.43.0


From 7679ed128cbe94d6b8cf082060ffd66f09276994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 02/32] fix: don't loop forever when only the realm is left to
 evict

RealmStorage::upsert_flo evicts until the size is below max_space, but the
realm itself is never evicted. If the realm (with its cuckoos) alone is bigger
than max_space, the loop never ended.
---
 flmodules/src/dht_storage/core.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index dba7144..65237d7 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -246,7 +246,10 @@ impl RealmStorage {
         }
 
         while self.size > self.realm_config.max_space {
-            self.remove_furthest();
+            if !self.remove_furthest() {
+                // Only the realm itself is left, and it is never removed.
+                break;
+            }
         }
         let size_verify: usize = self.flos.iter().map(|f| f.1.size()).sum();
         if size_verify as u64 > self.realm_config.max_space {
@@ -307,7 +310,7 @@ impl RealmStorage {
         removed
     }
 
-    fn remove_furthest(&mut self) {
+    fn remove_furthest(&mut self) -> bool {
         if let Some(furthest) = self
             .distances
             .iter()
@@ -336,9 +339,10 @@ impl RealmStorage {
                 //     KNode::get_depth(&self.dht_config.our_id, *id.clone())
                 // );
 
-                self.remove_entry(&id);
+                return self.remove_entry(&id).is_some();
             }
         }
+        false
     }
 }
 
-- 
2.43.0


From e59de4f9832d4cbc28a26d6d9e61612cb7a7ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 03/32] fix: don't count the realm as space which can be freed

RealmStorage::upsert_flo decides with size_at_depth if a new Flo can be stored
by evicting Flos further away. Counting the realm, which is never evicted, made
it evict Flos as close as the new one, and sometimes the new one itself.
---
 flmodules/src/dht_storage/core.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 65237d7..29d5e8a 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -268,6 +268,8 @@ impl RealmStorage {
             .get(&distance)
             .map(|ids| {
                 ids.iter()
+                    // The realm itself is never removed, so it cannot free any space.
+                    .filter(|&id| **id != *self.realm_id)
                     .map(|id| self.flos.get(id).map(|flo| flo.size()).unwrap_or(0))
                     .sum::<usize>() as u64
             })
-- 
2.43.0


From 9400aa300bd67346b2c088f3ebf0821dd913ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 04/32] fix: forget a disconnected node which is still in the
 root bucket

---
 flmodules/src/dht_router/kademlia.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_router/kademlia.rs b/flmodules/src/dht_router/kademlia.rs
index 2f833d1..3f7e16f 100644
--- a/flmodules/src/dht_router/kademlia.rs
+++ b/flmodules/src/dht_router/kademlia.rs
@@ -86,10 +86,12 @@ impl Kademlia {
             .get_mut(KNode::get_depth(&self.config.root, id))
         {
             bucket.remove_node(id);
-            if self.root_bucket.status() == BucketStatus::Wanting {
-                self.rebalance_wanting();
-            }
-        };
+        } else {
+            self.root_bucket.remove_node(id);
+        }
+        if self.root_bucket.status() == BucketStatus::Wanting {
+            self.rebalance_wanting();
+        }
     }
 
     pub fn remove_node(&mut self, id: &NodeID) {
-- 
2.43.0


From da68f83b660aabca1257877d277e70fac289530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 05/32] fix: refuse a signature of the wrong length instead of
 panicking

---
 flcrypto/src/signer_ed25519.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/signer_ed25519.rs b/flcrypto/src/signer_ed25519.rs
index 8354156..31991ad 100644
--- a/flcrypto/src/signer_ed25519.rs
+++ b/flcrypto/src/signer_ed25519.rs
@@ -79,8 +79,9 @@ where
 
 impl VerifierTrait for VerifierEd25519 {
     fn verify(&self, msg: &Bytes, sig: &Signature) -> anyhow::Result<()> {
-        let s: ed25519_dalek::Signature =
-            TryInto::<[u8; 64]>::try_into(sig.bytes().as_ref()).unwrap().into();
+        let s: ed25519_dalek::Signature = TryInto::<[u8; 64]>::try_into(sig.bytes().as_ref())
+            .map_err(|_| SignerError::SignatureMessageMismatch)?
+            .into();
         match self.verifier.verify_strict(msg, &s) {
             Ok(_) => Ok(()),
             Err(_) => Err(SignerError::SignatureMessageMismatch.into()),
-- 
2.43.0


From 4c5377df494a90fcab26a3eda6e0aac9226aec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 06/32] fix: compare thresholds and all parts of a NofT
 condition with its link

---
 flcrypto/src/access.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 1f154c8..8da25dc 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -208,8 +208,17 @@ impl Condition {
                 if BadgeLink{ id: badge.id.clone(), version: badge.version, condition: badge.condition.to_link() }
                     .fits_version(version_spec.clone()) && badge.condition.equal_link(cond_link) && version_spec == ver_spec)
             }
-            ConditionLink::NofT(_, condition_links) => {
-                condition_links.iter().all(|cl| self.equal_link(cl))
+            ConditionLink::NofT(link_thr, condition_links) => {
+                if let Condition::NofT(thr, conditions) = self {
+                    thr == link_thr
+                        && conditions.len() == condition_links.len()
+                        && conditions
+                            .iter()
+                            .zip(condition_links.iter())
+                            .all(|(cond, link)| cond.equal_link(link))
+                } else {
+                    false
+                }
             }
             ConditionLink::Pass => matches!(self, Condition::Pass),
             ConditionLink::Fail => matches!(self, Condition::Fail),
-- 
2.43.0


From 32111900d2248b1ecd3d56a281fd8f7c929071cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 07/32] fix: don't panic on a badge with an unavailable
 condition

---
 flcrypto/src/access.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 8da25dc..3cd31fe 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -205,8 +205,7 @@ impl Condition {
             }
             ConditionLink::Badge(version_spec) => {
                 matches!(self, Condition::Badge(ver_spec, badge)
-                if BadgeLink{ id: badge.id.clone(), version: badge.version, condition: badge.condition.to_link() }
-                    .fits_version(version_spec.clone()) && badge.condition.equal_link(cond_link) && version_spec == ver_spec)
+                if version_spec.get_id() == badge.id && version_spec.accepts(badge.version) && badge.condition.equal_link(cond_link) && version_spec == ver_spec)
             }
             ConditionLink::NofT(link_thr, condition_links) => {
                 if let Condition::NofT(thr, conditions) = self {
-- 
2.43.0


From 16715157dc6eee00de1fd8fea7dad80c582f1b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 08/32] fix: can_sign with any number of signers

---
 flcrypto/src/access.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 3cd31fe..68a411b 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -253,22 +253,15 @@ impl Condition {
     }
 
     pub fn can_sign(&self, vids: &[&KeyPairID]) -> bool {
-        if vids.len() > 1 {
-            todo!("Check with more than one signer");
-        }
-        if let Some(&vid) = vids.first() {
-            match self {
-                Condition::Verifier(verifier) => &verifier.get_id() == vid,
-                Condition::Badge(_, badge) => badge.condition.can_sign(&[vid]),
-                Condition::NofT(nbr, conditions) => {
-                    conditions.iter().any(|c| c.can_sign(&[vid])) && nbr == &1
-                }
-                Condition::NotAvailable => false,
-                Condition::Pass => true,
-                Condition::Fail => false,
+        match self {
+            Condition::Verifier(verifier) => vids.iter().any(|&vid| vid == &verifier.get_id()),
+            Condition::Badge(_, badge) => badge.condition.can_sign(vids),
+            Condition::NofT(thr, conditions) => {
+                conditions.iter().filter(|c| c.can_sign(vids)).count() >= *thr as usize
             }
-        } else {
-            self == &Condition::Pass
+            Condition::NotAvailable => false,
+            Condition::Pass => true,
+            Condition::Fail => false,
         }
     }
 
-- 
2.43.0


From a5f97d24cdb4d252d1f70e5f37facccfbdfafe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 09/32] fix: refuse texts which are no hexadecimal bytes
 instead of panicking

---
 flarch/src/nodeids.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index 7911751..b3a4618 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -12,6 +12,8 @@ use thiserror::Error;
 pub enum ParseError {
     #[error("Give no more than 64 hexadecimal characters")]
     HexTooLong,
+    #[error("Give an even number of hexadecimal characters")]
+    NotHex,
     #[error(transparent)]
     ParseInt(#[from] ParseIntError),
 }
@@ -133,6 +135,9 @@ impl FromStr for U256 {
         if s.len() > 64 {
             return Err(ParseError::HexTooLong.into());
         }
+        if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err(ParseError::NotHex.into());
+        }
         let v: Vec<u8> = (0..s.len())
             .step_by(2)
             .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map_err(|e| e.into()))
-- 
2.43.0


From 08f6493cd27805ca5e3e94a7787527fbfb522e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 10/32] fix: hash a HashMap independently of its iteration
 order

---
 flarch/src/nodeids.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index b3a4618..27bc206 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -93,10 +93,14 @@ impl U256 {
     ) -> Self {
         let mut parts = vec![];
         for (k, v) in hm {
-            parts.push(rmp_serde::to_vec(k).unwrap());
-            parts.push(rmp_serde::to_vec(v).unwrap());
+            parts.push([
+                rmp_serde::to_vec(k).unwrap(),
+                rmp_serde::to_vec(v).unwrap(),
+            ]);
         }
-        let slices: Vec<&[u8]> = parts.iter().map(|e| e.as_slice()).collect();
+        // The iteration order of a HashMap is random.
+        parts.sort();
+        let slices: Vec<&[u8]> = parts.iter().flatten().map(|e| e.as_slice()).collect();
         Self::hash_domain_parts(domain, &slices)
     }
 
-- 
2.43.0


From 04759cea89614c4d19f4dfed7dc9520316c8b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 11/32] fix: gossip events: an event which is too old for a
 full category is not new

insert_simple always said that the event is new, even if limit() removed it again right
away. Such an event was announced to all other nodes and to the application every time it came in.
---
 flmodules/src/gossip_events/core.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index ce04ef2..c628ebb 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -161,9 +161,10 @@ impl Events {
 
     // Insert the message in the events and make sure the limits are kept.
     fn insert_simple(&mut self, msg: Event) -> bool {
-        self.events.insert(msg.get_id(), msg);
+        let id = msg.get_id();
+        self.events.insert(id, msg);
         self.limit();
-        true
+        self.events.contains_key(&id)
     }
 
     /// Returns all messages that are part of the ids.
-- 
2.43.0


From ee2ab1e76aabaa2e3c65664b1cfd2585866e9aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 12/32] fix: NodeIDs::merge: add a node only once, even if it
 is twice in the other list

---
 flarch/src/nodeids.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index 27bc206..8d4c111 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -238,13 +238,11 @@ impl NodeIDs {
 
     /// Merges all other nodes into this list. Ignores nodes already in this list.
     pub fn merge(&mut self, other: NodeIDs) {
-        self.0.extend(
-            other
-                .0
-                .into_iter()
-                .filter(|n| !self.0.contains(n))
-                .collect::<Vec<NodeID>>(),
-        );
+        for n in other.0 {
+            if !self.0.contains(&n) {
+                self.0.push(n);
+            }
+        }
     }
 
     fn remove(&mut self, nodes: &NodeIDs, exists: bool) -> NodeIDs {
-- 
2.43.0


From 1f7ebc14b0b46ec335b83994180cb5be15b95e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 13/32] fix: Nodes::remove_oldest_ticks: remove the nodes which
 are returned

It removed the first n nodes in the list instead of the n oldest ones.
---
 flmodules/src/random_connections/nodes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flmodules/src/random_connections/nodes.rs b/flmodules/src/random_connections/nodes.rs
index 4a664d0..963cb17 100644
--- a/flmodules/src/random_connections/nodes.rs
+++ b/flmodules/src/random_connections/nodes.rs
@@ -118,7 +118,7 @@ impl Nodes {
     // Removes nodes that are as old or older than age and returns the removed nodes.
     pub fn remove_oldest_ticks(&mut self, ticks: u32) -> NodeIDs {
         let nodes = self.oldest_ticks(ticks);
-        self.0.splice(..nodes.0.len(), vec![]);
+        self.remove(&nodes);
         nodes
     }
 
-- 
2.43.0


From 7caac84b77f8487d23a0008a9b2dd9172b2feffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 14/32] fix: address websocket connections by their id, not by
 their position

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 27e35c9..7bb6f58 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -4,7 +4,7 @@ use futures::{
     stream::{SplitSink, SplitStream},
     SinkExt, StreamExt,
 };
-use std::sync::Arc;
+use std::{collections::HashMap, sync::Arc};
 use tokio::{
     net::{TcpListener, TcpStream},
     select,
@@ -20,14 +20,14 @@ use crate::{
 };
 
 pub struct WebSocketServer {
-    connections: Arc<Mutex<Vec<WSConnection>>>,
+    connections: Arc<Mutex<HashMap<usize, WSConnection>>>,
     conn_thread: JoinHandle<()>,
 }
 
 impl WebSocketServer {
     pub async fn new(port: u16) -> anyhow::Result<BrokerWSServer> {
         let server = TcpListener::bind(format!("0.0.0.0:{}", port)).await?;
-        let connections = Arc::new(Mutex::new(Vec::new()));
+        let connections = Arc::new(Mutex::new(HashMap::new()));
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
         let mut broker_cl = broker.clone();
@@ -40,7 +40,7 @@ impl WebSocketServer {
                         match WSConnection::new(stream, broker_cl2, connection_id).await {
                             Ok(conn) => {
                                 log::trace!("Got new connection");
-                                connections_cl.lock().await.push(conn);
+                                connections_cl.lock().await.insert(connection_id, conn);
                                 broker_cl
                                     .emit_msg_out(WSServerOut::NewConnection(connection_id))
                                     .expect("Error sending connect message");
@@ -72,19 +72,19 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
             match msg {
                 WSServerIn::Message(id, msg) => {
                     let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
+                    if let Some(conn) = connections.get_mut(&id) {
                         if let Err(e) = conn.send(msg).await {
                             log::error!("Error while sending: {e}");
                             conn.close();
-                            connections.remove(id);
+                            connections.remove(&id);
                         }
                     }
                 }
                 WSServerIn::Close(id) => {
                     let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
+                    if let Some(conn) = connections.get_mut(&id) {
                         conn.close();
-                        connections.remove(id);
+                        connections.remove(&id);
                     }
                 }
                 WSServerIn::Stop => {
-- 
2.43.0


From 1ca84bd16b61df7e4d20636fa10990e1aa982cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 15/32] fix: ignore signalling messages from nodes instead of
 panicking

---
 flmodules/src/network/intern.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 48d330a..8dda76e 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -187,8 +187,10 @@ impl Intern {
             Ok(nw) => {
                 if let Some(net_msg) = nw.unwrap_yaml::<ModuleMessage>(MODULE_NAME) {
                     match net_msg {
-                        ModuleMessage::SignalIn(_) => todo!(),
-                        ModuleMessage::SignalOut(_) => todo!(),
+                        ModuleMessage::SignalIn(_) | ModuleMessage::SignalOut(_) => {
+                            log::warn!("{id} sent a signalling message, which is not supported");
+                            return vec![];
+                        }
                     }
                 }
                 return vec![NetworkOut::MessageFromNode(id, nw).into()];
-- 
2.43.0


From d3712503d5126dbd81d24de73d26e608567ea29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 16/32] fix: do not underflow the ttl of a connection

---
 flmodules/src/network/signal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flmodules/src/network/signal.rs b/flmodules/src/network/signal.rs
index 001d177..097504e 100644
--- a/flmodules/src/network/signal.rs
+++ b/flmodules/src/network/signal.rs
@@ -182,7 +182,7 @@ impl SignalServer {
     fn msg_in_timer(&mut self) {
         let mut to_remove = Vec::new();
         for (index, ttl) in self.ttl.iter_mut() {
-            *ttl -= 1;
+            *ttl = ttl.saturating_sub(1);
             if *ttl == 0 {
                 log::info!("Removing idle node {index}");
                 to_remove.push(*index);
-- 
2.43.0


From 506b428bdb61bb9d8c380d9f213e79808114fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 17/32] fix: do not panic on node infos with a malformed public
 key

---
 flmodules/src/nodeconfig.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index ab309b1..792b37b 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -79,13 +79,19 @@ impl NodeInfo {
         if let Some(id) = self.id {
             return id;
         }
-        let a: [u8; PublicKey::BYTES] = self.pubkey.clone().try_into().unwrap();
-        U256::from(a)
+        match <[u8; PublicKey::BYTES]>::try_from(self.pubkey.clone()) {
+            Ok(a) => U256::from(a),
+            // Infos come from remote nodes, so the key might be malformed.
+            Err(_) => U256::hash_data(&self.pubkey),
+        }
     }
 
     /// Verifies a signature with the public key of this `NodeInfo`
     pub fn verify(&self, msg: &[u8], sig_bytes: &[u8]) -> bool {
-        let pubkey = PublicKey::from_slice(&self.pubkey).unwrap();
+        let pubkey = match PublicKey::from_slice(&self.pubkey) {
+            Ok(pubkey) => pubkey,
+            Err(_) => return false,
+        };
         let sig = match Signature::from_slice(sig_bytes) {
             Ok(sig) => sig,
             Err(_) => return false,
-- 
2.43.0


From bc6de6e7a4e65c04956fe7f0c87b734fa411ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 18/32] fix: do not spin on a closed websocket, but connect
 again

---
 flarch/src/web_rtc/libc/web_socket_client.rs | 38 ++++++++++----------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index 5251aa5..e95a02b 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -2,7 +2,7 @@ use async_trait::async_trait;
 use futures::stream::SplitStream;
 use futures::{stream::SplitSink, Sink, SinkExt, StreamExt};
 use std::pin::Pin;
-use tokio::net::TcpStream;
+use tokio::{net::TcpStream, task::JoinHandle};
 use tokio_tungstenite::{connect_async, tungstenite, MaybeTlsStream, WebSocketStream};
 
 use crate::broker::{Broker, SubsystemHandler};
@@ -12,6 +12,7 @@ use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut, WSError
 pub struct WebSocketClient {
     url: String,
     write: Option<SplitSink<WebSocketStream<MaybeTlsStream<TcpStream>>, tungstenite::Message>>,
+    listener: Option<JoinHandle<()>>,
     broker: BrokerWSClient,
 }
 
@@ -20,6 +21,7 @@ impl WebSocketClient {
         let wsb = WebSocketClient {
             url: url.to_string(),
             write: None,
+            listener: None,
             broker: Broker::new(),
         };
         let mut broker = wsb.broker.clone();
@@ -30,30 +32,29 @@ impl WebSocketClient {
 
     fn listen(&mut self, mut read: SplitStream<WebSocketStream<MaybeTlsStream<TcpStream>>>) {
         let mut broker_cl = self.broker.clone();
-        tokio::spawn(async move {
+        self.listener = Some(tokio::spawn(async move {
             wait_ms(1000).await;
             loop {
-                if let Some(msg) = read.next().await {
-                    match msg {
-                        Ok(msg) => {
-                            if msg.is_text() {
-                                broker_cl
-                                    .emit_msg_out(WSClientOut::Message(msg.to_string()))
-                                    .expect("Failed to emit message");
-                            }
-                        }
-                        Err(e) => {
-                            log::warn!("Closing connection because of error: {:?}", e);
-                            log::warn!("Trying to reconnect");
+                match read.next().await {
+                    Some(Ok(msg)) => {
+                        if msg.is_text() {
                             broker_cl
-                                .emit_msg_in(WSClientIn::Connect)
-                                .expect("tried to reconnect");
-                            return;
+                                .emit_msg_out(WSClientOut::Message(msg.to_string()))
+                                .expect("Failed to emit message");
                         }
                     }
+                    // A closed stream returns None forever.
+                    closed => {
+                        log::warn!("Closing connection because of error: {:?}", closed);
+                        log::warn!("Trying to reconnect");
+                        broker_cl
+                            .emit_msg_in(WSClientIn::Connect)
+                            .expect("tried to reconnect");
+                        return;
+                    }
                 }
             }
-        });
+        }));
     }
 
     async fn connect_ws(&mut self) -> anyhow::Result<()> {
@@ -96,6 +97,7 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
                     }
                 }
                 WSClientIn::Disconnect => {
+                    self.listener.take().map(|listener| listener.abort());
                     if let Some(mut write) = self.write.take() {
                         write.close().await.unwrap();
                     } else {
-- 
2.43.0


From 5e19ce7bdf7e6d9fa96b7c178192310675ba52a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 19/32] fix: decode WebRTC packets with the same encoding they
 are sent with

---
 flarch/src/web_rtc/node_connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index 8fde700..ffdd872 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -367,7 +367,7 @@ impl PacketCollector {
     }
 
     fn new_packet_str(&mut self, s: &str) -> Option<String> {
-        self.new_packet(serde_yaml::from_str(s).ok()?)
+        self.new_packet(serde_json::from_str(s).ok()?)
     }
 
     fn get_params(p: &Packet) -> Option<(U256, usize, usize)> {
-- 
2.43.0


From 20937fb7123e95cd35834b8f8c59ea2be2eb93c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 20/32] fix: limit the number of packets a remote node can ask
 to reserve memory for

---
 flarch/src/web_rtc/node_connection.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index ffdd872..42183e0 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -126,6 +126,9 @@ struct Packet {
 
 const WEBRTC_MAX_SIZE: usize = 16384;
 
+/// The maximum number of packets of a message.
+const MAX_PACKETS: usize = 65536;
+
 /// A single connection between two nodes, either incoming our outgoing.
 /// It will do its best to detect when a connection has gone stale and shut
 /// itself down.
@@ -345,6 +348,10 @@ impl PacketCollector {
         match Self::get_params(&p) {
             None => return Some(p.data),
             Some((id, total, part)) => {
+                // The total comes from the remote node, so don't reserve any size it asks for.
+                if total > MAX_PACKETS {
+                    return None;
+                }
                 // Add the new packet to the list.
                 if let Some(e) = self
                     .packets
-- 
2.43.0


From c98b9d2673fb3b7320ddfaa40f20ee9a1ca4f91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 21/32] fix: persist cuckoo links and removals of the DHT
 storage

---
 flmodules/src/dht_storage/intern.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index f0f3b31..19e2688 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -245,6 +245,7 @@ impl Messages {
                 self.realms
                     .get_mut(&gid.realm_id())
                     .map(|realm| realm.store_cuckoo_id(&fid, gid.flo_id().clone()));
+                self.store();
             }
         }
         vec![]
@@ -258,6 +259,7 @@ impl Messages {
                 self.realms
                     .get_mut(&fc.0.realm_id())
                     .map(|realm| realm.store_cuckoo_ids(&fc.0.flo_id(), fc.1.clone()));
+                self.store();
                 Some(DHTStorageOut::FloValue(fc).into())
             }
             MessageDest::UnknownFlo(key) => Some(DHTStorageOut::ValueMissing(key).into()),
@@ -338,6 +340,7 @@ impl Messages {
                             .for_each(|cuckoo| realm.store_cuckoo_id(&flo.flo_id(), cuckoo))
                     });
                 }
+                self.store();
                 vec![]
             }
         }
@@ -404,9 +407,9 @@ impl Messages {
                     .is_some()
             });
 
-        if modification {
-            self.store();
-        }
+        // Even if the Flo itself is not taken, it might be a new Cuckoo of another Flo,
+        // or other Flos might have been removed.
+        self.store();
         modification
     }
 
-- 
2.43.0


From 3db07a1f03a18e46bb40afa6c375d3c528879fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 22/32] fix: settle linked brokers without waiting for each
 other forever

---
 flarch/src/broker.rs | 72 ++++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 20 deletions(-)

diff --git a/flarch/src/broker.rs b/flarch/src/broker.rs
index 7d40bfc..b970b20 100644
--- a/flarch/src/broker.rs
+++ b/flarch/src/broker.rs
@@ -421,12 +421,21 @@ impl<I: 'static + Message, O: 'static + Message> Broker<I, O> {
     /// The caller argument is to be used when recursively settling, to avoid
     /// endless loops.
     pub async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        let (tx, mut rx) = unbounded_channel();
+        self.settle_start(callers)?.recv().await;
+        Ok(())
+    }
+
+    /// Starts settling without waiting for the end of it: the returned channel gets a message,
+    /// or is closed, once everything has settled.
+    fn settle_start(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<UnboundedReceiver<bool>> {
+        let (tx, rx) = unbounded_channel();
         self.intern_tx
-            .send(InternMessage::Settle(callers.clone(), tx))
+            .send(InternMessage::Settle(callers, tx))
             .map_err(|_| BrokerError::SendQueue("settle".into()))?;
-        rx.recv().await;
-        Ok(())
+        Ok(rx)
     }
 
     fn type_str(&self) -> String {
@@ -562,21 +571,19 @@ impl<I: Message + 'static, O: Message + 'static> Intern<I, O> {
             InternMessage::MessageIn(dst, msg) => self.msg_queue_in.push((dst, msg)),
             InternMessage::MessageOut(dst, msg) => self.msg_queue_out.push((dst, msg)),
             InternMessage::Settle(list, reply) => {
-                let type_str = self.type_str();
+                let mut settling = vec![];
                 if !list.contains(&self.id) {
                     let mut list = list.clone();
                     list.push(self.id);
                     for (_, ss) in self.subsystems.iter_mut() {
-                        ss.settle(list.clone())
-                            .await
-                            .err()
-                            .map(|e| log::error!("{}: While settling: {e:?}", type_str));
+                        match ss.settle(list.clone()).await {
+                            Ok(Some(rx)) => settling.push(rx),
+                            Ok(None) => (),
+                            Err(e) => log::error!("While settling: {e:?}"),
+                        }
                     }
                 }
-                reply
-                    .send(true)
-                    .err()
-                    .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str));
+                settle_reply(settling, reply);
                 return true;
             }
             InternMessage::Dropped => {
@@ -804,6 +811,21 @@ impl<I: Message + 'static, O: Message + 'static> Intern<I, O> {
     }
 }
 
+// Replies once all the other brokers have settled.
+// This must not be awaited for in the main loop of the broker: one of the other brokers might
+// be waiting for this broker to settle.
+fn settle_reply(settling: Vec<UnboundedReceiver<bool>>, reply: UnboundedSender<bool>) {
+    spawn_local(async move {
+        for mut rx in settling {
+            rx.recv().await;
+        }
+        reply
+            .send(true)
+            .err()
+            .map(|e| log::error!("Couldn't send: {e:?}"));
+    });
+}
+
 impl<I: Message + 'static, O: Message + 'static> Drop for Intern<I, O> {
     fn drop(&mut self) {
         // log::warn!(
@@ -887,10 +909,13 @@ impl<I: Message, O: Message> Subsystem<I, O> {
         matches!(self, Self::Handler(_))
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
+    async fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
         match self {
             Subsystem::Translator(tr) => tr.settle(callers).await,
-            _ => Ok(()),
+            _ => Ok(None),
         }
     }
 }
@@ -919,7 +944,11 @@ pub trait SubsystemHandler<I: Async, O: Async> {
 pub trait SubsystemTranslator<I: Async, O: Async> {
     async fn translate_input(&mut self, trail: Vec<BrokerID>, from_broker: I);
     async fn translate_output(&mut self, trail: Vec<BrokerID>, from_broker: O);
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()>;
+    /// Starts settling, and returns where to wait for the end of it.
+    async fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>>;
 }
 
 #[target_send()]
@@ -982,11 +1011,14 @@ impl<I: Message, O: Message, TI: Message + 'static, TO: Message + 'static> Subsy
         .await;
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        if !callers.contains(&self.broker.id) {
-            self.broker.settle(callers).await?;
+    async fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
+        if callers.contains(&self.broker.id) {
+            return Ok(None);
         }
-        Ok(())
+        Ok(Some(self.broker.settle_start(callers)?))
     }
 }
 
-- 
2.43.0


From da12b757d21f797262f55a3cd204a9e57ca73b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 23/32] fix: only take answers to web requests from the node
 asked, complete and in order

---
 flmodules/src/web_proxy/broker.rs   | 12 ++++-----
 flmodules/src/web_proxy/core.rs     | 41 +++++++++++++++++++++++------
 flmodules/src/web_proxy/intern.rs   | 14 ++++++----
 flmodules/src/web_proxy/response.rs |  2 +-
 4 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/flmodules/src/web_proxy/broker.rs b/flmodules/src/web_proxy/broker.rs
index 2cf37fe..bb05a63 100644
--- a/flmodules/src/web_proxy/broker.rs
+++ b/flmodules/src/web_proxy/broker.rs
@@ -93,23 +93,23 @@ impl WebProxy {
         log::debug!("Getting {url}");
         let our_rnd = U256::rnd();
         let (tx, rx) = channel(128);
+        // Get the tap first, so that the answer cannot be missed.
+        let (mut tap, id) = self.web_proxy.get_tap_out().await?;
         self.web_proxy
             .emit_msg_in(WebProxyIn::RequestGet(our_rnd, url.to_string(), tx))?;
-        let (mut tap, id) = self.web_proxy.get_tap_out().await?;
-        Ok(timeout(Duration::from_secs(5), async move {
+        let response = timeout(Duration::from_secs(5), async move {
             while let Some(msg) = tap.recv().await {
                 let WebProxyOut::ResponseGet(proxy, rnd, header) = msg;
                 if rnd == our_rnd {
-                    self.web_proxy.remove_subsystem(id).await?;
                     return Ok(Response::new(proxy, header, rx));
                 }
             }
             // TODO: is this really called sometime?
-            self.web_proxy.remove_subsystem(id).await?;
             return Err(anyhow::anyhow!(WebProxyError::ResponseTimeout));
         })
-        .await
-        .map_err(|_| WebProxyError::ResponseTimeout)??)
+        .await;
+        self.web_proxy.remove_subsystem(id).await?;
+        Ok(response.map_err(|_| WebProxyError::ResponseTimeout)??)
     }
 
     pub fn get_counters(&mut self) -> Counters {
diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index 26a37ee..35522a6 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use flarch::tasks::spawn_local;
 use serde::{Deserialize, Serialize};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::{unbounded_channel, Sender, UnboundedReceiver, UnboundedSender};
 
 use flarch::nodeids::{NodeID, NodeIDs, U256};
 
@@ -27,7 +27,7 @@ pub struct WebProxyCore {
     nodes: NodeIDs,
     our_id: NodeID,
     node_index: usize,
-    requests: HashMap<U256, (NodeID, Sender<Bytes>)>,
+    requests: HashMap<U256, (NodeID, UnboundedSender<Bytes>)>,
 }
 
 impl WebProxyCore {
@@ -68,14 +68,37 @@ impl WebProxyCore {
 
     pub fn request_get(&mut self, rnd: U256, tx: Sender<Bytes>) -> Option<NodeID> {
         if let Some(node) = self.get_node() {
-            self.requests.insert(rnd, (node, tx));
+            let (body_tx, body_rx) = unbounded_channel();
+            Self::forward_body(body_rx, tx);
+            self.requests.insert(rnd, (node, body_tx));
             return Some(node);
         }
         None
     }
 
-    pub fn handle_response(&mut self, nonce: U256, msg: ResponseMessage) -> Option<ResponseHeader> {
-        if let Some((_, tx)) = self.requests.get(&nonce) {
+    /// Sends the parts of one answer in the order they came in.
+    fn forward_body(mut body: UnboundedReceiver<Bytes>, tx: Sender<Bytes>) {
+        spawn_local(async move {
+            while let Some(part) = body.recv().await {
+                if tx.send(part).await.is_err() {
+                    return;
+                }
+            }
+        });
+    }
+
+    /// Only the node which got the request can answer it.
+    pub fn handle_response(
+        &mut self,
+        src: NodeID,
+        nonce: U256,
+        msg: ResponseMessage,
+    ) -> Option<ResponseHeader> {
+        if let Some((node, tx)) = self.requests.get(&nonce) {
+            if *node != src {
+                log::warn!("Node {src} sent a response for a request to {node}");
+                return None;
+            }
             match msg {
                 ResponseMessage::Header(header) => {
                     self.storage.counters.rx_packets += 1;
@@ -83,14 +106,16 @@ impl WebProxyCore {
                 }
                 ResponseMessage::Body(body) => {
                     self.storage.counters.rx_packets += 1;
-                    let tx = tx.clone();
-                    spawn_local(async move { tx.send(body).await.expect("sending body") })
+                    if tx.send(body).is_err() {
+                        log::trace!("Nobody waits for the response of nonce {nonce}");
+                    }
                 }
                 ResponseMessage::Done => {
                     self.requests.remove(&nonce);
                 }
                 ResponseMessage::Error(err) => {
-                    log::warn!("Got error {err} for response of nonce {nonce}")
+                    log::warn!("Got error {err} for response of nonce {nonce}");
+                    self.requests.remove(&nonce);
                 }
             }
         }
diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index a76289d..51ed10b 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -148,15 +148,19 @@ impl Intern {
                     let mut stream = resp.bytes_stream().chunks(1024);
                     while let Some(chunks) = stream.next().await {
                         for chunk in chunks {
+                            let (msg, failed) = match chunk {
+                                Ok(body) => (ResponseMessage::Body(body), false),
+                                Err(e) => (ResponseMessage::Error(e.to_string()), true),
+                            };
                             broker
                                 .emit_msg_out(Self::module_msg(
                                     src,
-                                    &ModuleMessage::Response(
-                                        nonce,
-                                        ResponseMessage::Body(chunk.expect("getting chunk")),
-                                    ),
+                                    &ModuleMessage::Response(nonce, msg),
                                 ))
                                 .expect("sending body");
+                            if failed {
+                                return;
+                            }
                         }
                     }
                     broker
@@ -193,7 +197,7 @@ impl Intern {
         msg: ResponseMessage,
     ) -> Vec<InternOut> {
         self.core
-            .handle_response(nonce, msg)
+            .handle_response(src, nonce, msg)
             .map_or(vec![], |header| {
                 vec![InternOut::WebProxy(WebProxyOut::ResponseGet(
                     src, nonce, header,
diff --git a/flmodules/src/web_proxy/response.rs b/flmodules/src/web_proxy/response.rs
index 5b943f3..2e167be 100644
--- a/flmodules/src/web_proxy/response.rs
+++ b/flmodules/src/web_proxy/response.rs
@@ -64,7 +64,7 @@ impl From<&reqwest::Response> for ResponseHeader {
         let mut headers = HashMap::new();
         for (k, v) in value.headers() {
             let values = headers.entry(k.to_string()).or_insert(vec![]);
-            values.push(v.to_str().expect("converting header value").into());
+            values.push(String::from_utf8_lossy(v.as_bytes()).into());
         }
         Self {
             status: ResponseStatus {
-- 
2.43.0


From 5db84c26900e7b8d83de01388cb62ccc70882b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 24/32] fix: do not let a slow websocket handshake block other
 connections

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 28 ++++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 7bb6f58..929e8e7 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -30,23 +30,29 @@ impl WebSocketServer {
         let connections = Arc::new(Mutex::new(HashMap::new()));
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
-        let mut broker_cl = broker.clone();
+        let broker_cl = broker.clone();
         let conn_thread = tokio::spawn(async move {
             let mut connection_id = 0;
             loop {
                 match server.accept().await {
                     Ok((stream, _)) => {
-                        let broker_cl2 = broker_cl.clone();
-                        match WSConnection::new(stream, broker_cl2, connection_id).await {
-                            Ok(conn) => {
-                                log::trace!("Got new connection");
-                                connections_cl.lock().await.insert(connection_id, conn);
-                                broker_cl
-                                    .emit_msg_out(WSServerOut::NewConnection(connection_id))
-                                    .expect("Error sending connect message");
+                        // The handshake depends on the other side, which must not keep the
+                        // next connections waiting.
+                        let connections_cl = Arc::clone(&connections_cl);
+                        let mut broker_cl = broker_cl.clone();
+                        tokio::spawn(async move {
+                            let broker_cl2 = broker_cl.clone();
+                            match WSConnection::new(stream, broker_cl2, connection_id).await {
+                                Ok(conn) => {
+                                    log::trace!("Got new connection");
+                                    connections_cl.lock().await.insert(connection_id, conn);
+                                    broker_cl
+                                        .emit_msg_out(WSServerOut::NewConnection(connection_id))
+                                        .expect("Error sending connect message");
+                                }
+                                Err(e) => log::error!("Error while getting connection: {:?}", e),
                             }
-                            Err(e) => log::error!("Error while getting connection: {:?}", e),
-                        }
+                        });
                     }
                     Err(e) => log::error!("While accepting connection: {e:?}"),
                 }
-- 
2.43.0


From fbe9b9431686c8170406c986fdb36180cb290334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 25/32] fix: a value which is only written in part doesn't
 replace the old one

---
 flarch/src/data_storage/libc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flarch/src/data_storage/libc.rs b/flarch/src/data_storage/libc.rs
index 5b37897..cd68dec 100644
--- a/flarch/src/data_storage/libc.rs
+++ b/flarch/src/data_storage/libc.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs::{create_dir_all, remove_file, File},
+    fs::{create_dir_all, remove_file, rename, File},
     path::PathBuf,
 };
 
@@ -63,10 +63,15 @@ impl DataStorage for DataStorageFile {
     }
 
     fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
-        File::create(self.name(key))
+        // Only replace the old value once the new one is complete.
+        let name = self.name(key);
+        let tmp = name.with_extension("tmp");
+        File::create(&tmp)
             .map_err(|e| StorageError::Underlying(format!("While creating file: {:?}", e)))?
             .write_all(value.as_bytes())
             .map_err(|e| StorageError::Underlying(format!("While writing file: {:?}", e)))?;
+        rename(&tmp, &name)
+            .map_err(|e| StorageError::Underlying(format!("While renaming file: {:?}", e)))?;
         Ok(())
     }
 
-- 
2.43.0


From 0ef71738c9d74551943914c56f77bffc65d1c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 26/32] fix: a node info of the first version is an error, and
 doesn't end the node

---
 flmodules/src/nodeconfig.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index 792b37b..54471e3 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -178,14 +178,14 @@ bitflags! {
 }
 
 impl From<NodeInfoV1> for NodeInfoV2 {
-    fn from(_: NodeInfoV1) -> Self {
-        panic!("Old configuration not supported anymore")
+    fn from(old: NodeInfoV1) -> Self {
+        match old {}
     }
 }
 
-// This is not used anymore, so it's empty.
+// This is not supported anymore. As it might come from a remote node, decoding it is an error.
 #[derive(Serialize, Deserialize, Clone)]
-struct NodeInfoV1 {}
+enum NodeInfoV1 {}
 
 /// NodeConfig is stored on the node itself and contains the private key.
 #[serde_as]
-- 
2.43.0


From d1ed41ea4a8d30eeccaabaac18e8a5492c0ce418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 27/32] fix: yaml with an empty mapping for an enum is an
 error, and doesn't end the module

---
 flmodules/src/nodeconfig.rs      | 6 +++---
 flmodules/src/router/messages.rs | 9 ++++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index 54471e3..805c3a6 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -13,7 +13,7 @@ use serde_with::{base64::Base64, hex::Hex, serde_as};
 use std::fmt::{Debug, Formatter};
 use thiserror::Error;
 
-use crate::Modules;
+use crate::{router::messages::from_yaml, Modules};
 
 /// Errors to be returned when setting up a new config
 #[derive(Error, Debug)]
@@ -101,7 +101,7 @@ impl NodeInfo {
 
     /// Decodes a given string as yaml and returns the corresponding `NodeInfo`.
     pub fn decode(data: &str) -> Result<Self, ConfigError> {
-        Ok(serde_yaml::from_str(data)?)
+        Ok(from_yaml(data)?)
     }
 
     /// Encodes this NodeInfo as yaml string.
@@ -232,7 +232,7 @@ impl NodeConfig {
     /// Returns the configuration or an error. Correctly handles
     /// old toml-configurations.
     pub fn decode(data: &str) -> Self {
-        serde_yaml::from_str(data)
+        from_yaml(data)
             .ok()
             .unwrap_or_else(|| Self::new())
     }
diff --git a/flmodules/src/router/messages.rs b/flmodules/src/router/messages.rs
index 3871a4d..0304e0f 100644
--- a/flmodules/src/router/messages.rs
+++ b/flmodules/src/router/messages.rs
@@ -35,7 +35,7 @@ impl NetworkWrapper {
 
     pub fn unwrap_yaml<T: DeserializeOwned>(&self, module: &str) -> Option<T> {
         if self.module == module {
-            if let Ok(msg) = serde_yaml::from_str(&self.msg) {
+            if let Ok(msg) = from_yaml(&self.msg) {
                 return Some(msg);
             }
         }
@@ -43,6 +43,13 @@ impl NetworkWrapper {
     }
 }
 
+/// Decodes yaml which might come from another node: serde_yaml panics instead of returning
+/// an error if there is an empty mapping in the place of an enum.
+pub(crate) fn from_yaml<T: DeserializeOwned>(data: &str) -> Result<T, serde_yaml::Error> {
+    std::panic::catch_unwind(|| serde_yaml::from_str(data))
+        .unwrap_or_else(|_| Err(serde::de::Error::custom("malformed yaml")))
+}
+
 impl std::fmt::Display for RouterOut {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-- 
2.43.0


From c097566807e6c6584a82f895c813eb6aeb2f1d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 28/32] fix: reading a Flo doesn't overtake its storing

---
 flmodules/src/dht_storage/broker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 787c82f..eca1ca4 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -135,7 +135,10 @@ impl DHTStorage {
     }
 
     pub fn store_flo(&mut self, flo: Flo) -> anyhow::Result<()> {
-        Ok(self.broker.emit_msg_in(DHTStorageIn::StoreFlo(flo))?)
+        // Use the same way as the reading, so that it cannot overtake the storing.
+        Ok(self
+            .intern
+            .emit_msg_in(InternIn::Storage(DHTStorageIn::StoreFlo(flo)))?)
     }
 
     pub fn propagate(&mut self) -> anyhow::Result<()> {
-- 
2.43.0


From f10d7c535eafaa10c1e8cdc0f69845735de88895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 29/32] fix: blobs whose parents form a loop don't end the
 process when asking for their path

---
 flmodules/src/dht_storage/realm_view.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 7eb1cd5..40012af 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -276,10 +276,24 @@ impl RealmView {
         let path = b
             .get_path()
             .ok_or(anyhow::anyhow!("Didn't find path in blob"))?;
-        if let Some(p) = b.get_parents().first() {
-            return Ok(format!("{}/{path}", self.get_full_path_id(p)?));
+        let mut full = format!("/{path}");
+        let mut parents = b.get_parents();
+        // Blobs come from other nodes, so the parents might form a loop.
+        let mut seen = HashSet::new();
+        while let Some(p) = parents.first() {
+            if !seen.insert(p.clone()) {
+                return Err(anyhow::anyhow!("The parents of this blob form a loop"));
+            }
+            let parent = self
+                .get_blob_path_family(p)
+                .ok_or(anyhow::anyhow!("Didn't find page or tag with this ID"))?;
+            let path = parent
+                .get_path()
+                .ok_or(anyhow::anyhow!("Didn't find path in blob"))?;
+            full = format!("/{path}{full}");
+            parents = parent.get_parents();
         }
-        Ok(format!("/{path}"))
+        Ok(full)
     }
 
     pub fn get_page_from_path(&self, path: &str) -> anyhow::Result<&FloBlobPage> {
-- 
2.43.0


From 0fdcf8d1bfaf5d6e53eee7259fdb8f9894fad0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 30/32] fix: badges whose conditions form a loop don't block
 the one who asks

---
 flmodules/src/dht_storage/broker.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index eca1ca4..d13954d 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -6,7 +6,7 @@ use flarch::{
     tasks::wait_ms,
 };
 use flcrypto::{
-    access::{Condition, ConditionLink},
+    access::{BadgeID, Condition, ConditionLink},
     signer::{SignerError, Verifier},
 };
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
@@ -215,26 +215,41 @@ impl DHTStorage {
         Ok(self.broker.emit_msg_in(DHTStorageIn::SyncFromNeighbors)?)
     }
 
-    #[async_recursion(?Send)]
     pub async fn convert(&mut self, cl: &ConditionLink, rid: &RealmID) -> Condition {
+        self.convert_badges(cl, rid, &[]).await
+    }
+
+    /// The badges are the ones which contain this condition. As they come from other nodes,
+    /// they might form a loop.
+    #[async_recursion(?Send)]
+    async fn convert_badges(
+        &mut self,
+        cl: &ConditionLink,
+        rid: &RealmID,
+        badges: &[BadgeID],
+    ) -> Condition {
         match cl {
             ConditionLink::Verifier(ver) => self
                 .get_flo::<Verifier>(&rid.global_id((*Flo::calc_flo_id(&*ver)).into()))
                 .await
                 .map(|v| Condition::Verifier(v.cache().clone()))
                 .unwrap_or(Condition::NotAvailable),
+            ConditionLink::Badge(version) if badges.contains(&version.get_id()) => {
+                Condition::NotAvailable
+            }
             ConditionLink::Badge(version) => {
                 if let Ok(b) = self
                     .get_flo::<BadgeCond>(&rid.global_id((*version.get_id()).into()))
                     .await
                 {
                     let bl = b.badge_link();
+                    let badges = [badges, &[version.get_id()]].concat();
                     Condition::Badge(
                         version.clone(),
                         flcrypto::access::Badge {
                             id: bl.id,
                             version: bl.version,
-                            condition: Box::new(self.convert(&bl.condition, rid).await),
+                            condition: Box::new(self.convert_badges(&bl.condition, rid, &badges).await),
                         },
                     )
                 } else {
@@ -244,7 +259,7 @@ impl DHTStorage {
             ConditionLink::NofT(thr, vec) => {
                 let mut conds = vec![];
                 for cond in vec {
-                    conds.push(self.convert(cond, rid).await)
+                    conds.push(self.convert_badges(cond, rid, badges).await)
                 }
                 Condition::NofT(*thr, conds)
             }
-- 
2.43.0


From ad6c7cd031b1a4fac127bf76b6c83b96c509bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 31/32] fix: a verifier stored with the identifier of another
 one isn't taken for it

---
 flmodules/src/dht_storage/broker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index d13954d..1a7992d 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -7,7 +7,7 @@ use flarch::{
 };
 use flcrypto::{
     access::{BadgeID, Condition, ConditionLink},
-    signer::{SignerError, Verifier},
+    signer::{SignerError, Verifier, VerifierTrait},
 };
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use thiserror::Error;
@@ -232,6 +232,9 @@ impl DHTStorage {
             ConditionLink::Verifier(ver) => self
                 .get_flo::<Verifier>(&rid.global_id((*Flo::calc_flo_id(&*ver)).into()))
                 .await
+                .ok()
+                // Any verifier can be stored with the ID of another one.
+                .filter(|v| v.cache().get_id() == *ver)
                 .map(|v| Condition::Verifier(v.cache().clone()))
                 .unwrap_or(Condition::NotAvailable),
             ConditionLink::Badge(version) if badges.contains(&version.get_id()) => {
-- 
2.43.0


From 09c8c578ffdda630ac861562e571a06060199a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 32/32] fix: a badge is only available in a version which is
 accepted

---
 flmodules/src/dht_storage/broker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 1a7992d..970b34b 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -241,9 +241,12 @@ impl DHTStorage {
                 Condition::NotAvailable
             }
             ConditionLink::Badge(version) => {
-                if let Ok(b) = self
+                if let Some(b) = self
                     .get_flo::<BadgeCond>(&rid.global_id((*version.get_id()).into()))
                     .await
+                    .ok()
+                    // The badge might be stored in a version which is not accepted.
+                    .filter(|b| version.accepts(b.version()))
                 {
                     let bl = b.badge_link();
                     let badges = [badges, &[version.get_id()]].concat();
-- 
2.43.0

