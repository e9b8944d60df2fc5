From 330f04631c2f93a7425677c16fd28adf94a2bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 01/70] verif hook: cfg(nargun_verif) library target
 re-exporting the client's modules

---
 src/dht/mod.rs     | 13 +++++++++++++
 src/lib.rs         | 38 ++++++++++++++++++++++++++++++++++++++
 src/tracker/mod.rs | 10 ++++++++++
 3 files changed, 61 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/dht/mod.rs b/src/dht/mod.rs
index d31fdae..f0ac412 100644
--- a/src/dht/mod.rs
+++ b/src/dht/mod.rs
@@ -38,3 +38,16 @@ pub async fn start_dht(
         }
     });
 }
+
+#[cfg(nargun_verif)]
+pub mod verif {
+    pub mod connection {
+        pub use crate::dht::connection::*;
+    }
+    pub mod krpc_message {
+        pub use crate::dht::krpc_message::*;
+    }
+    pub mod routing_table {
+        pub use crate::dht::routing_table::*;
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..0ae4471
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,38 @@
+// Verification hook. Without `--cfg nargun_verif` this library is empty; with it, it is the whole client
+// (the same modules as the binary) plus re-exports that let a harness outside the crate drive them.
+#![cfg(nargun_verif)]
+#![allow(dead_code, unused, macro_expanded_macro_exports_accessed_by_absolute_paths)]
+
+include!("main.rs");
+
+pub mod verif {
+    pub mod data_structures {
+        pub use crate::data_structures::*;
+    }
+    pub mod dht {
+        pub use crate::dht::verif::*;
+        pub use crate::dht::*;
+    }
+    pub mod fs {
+        pub use crate::fs::*;
+    }
+    pub mod interval {
+        pub use crate::capped_growing_interval::*;
+    }
+    pub mod peers {
+        pub use crate::peers::*;
+    }
+    pub mod shutdown {
+        pub use crate::shutdown::*;
+    }
+    pub mod torrent_manager {
+        pub use crate::torrent_manager::*;
+    }
+    pub mod tracker {
+        pub use crate::tracker::verif::*;
+        pub use crate::tracker::*;
+    }
+    pub mod transcoding {
+        pub use crate::transcoding::*;
+    }
+}
diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index abb5e7a..6f954dc 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -3,3 +3,13 @@ mod response;
 mod tracker_manager;
 
 pub use tracker_manager::spawn_tracker_managers;
+
+#[cfg(nargun_verif)]
+pub mod verif {
+    pub mod announce {
+        pub use crate::tracker::announce::*;
+    }
+    pub mod response {
+        pub use crate::tracker::response::*;
+    }
+}
-- 
2.43.0


From 5c966c3728876e42031eefa2f227fdf8eaaff141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 02/70] fix: reject an ID of the wrong length instead of
 panicking

---
 src/data_structures/id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index dec4e36..9b7f72d 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -185,7 +185,8 @@ impl<'de> Deserialize<'de> for ID {
             where
                 E: serde::de::Error,
             {
-                Ok(v.try_into().unwrap())
+                v.try_into()
+                    .map_err(|_| serde::de::Error::invalid_length(v.len(), &self))
             }
         }
         Ok(ID(deserializer.deserialize_byte_buf(Visitor {})?))
-- 
2.43.0


From e993320c68cf1569237effcc326a910e7c5fd3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 03/70] fix: parse only the bytes of the received datagram

---
 src/dht/connection/connection_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 4359b83..cf2b0f4 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -57,8 +57,8 @@ impl ConnectionManager {
         loop {
             select! {
                 res = self.sock.recv_from(&mut buf) => {
-                    let (_ , from) = res.ok()?;
-                    self.handle_received_message(from, &buf).await;
+                    let (len, from) = res.ok()?;
+                    self.handle_received_message(from, &buf[..len]).await;
                 },
                 send_command = self.send_to_remote.recv() => {
                     self.send(send_command?).await;
-- 
2.43.0


From 8a0e1e9d64c5e331d14861d28ff4f843fe73c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 04/70] fix: bound the nesting of a KRPC datagram (stack
 overflow)

---
 src/dht/krpc_message.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dht/krpc_message.rs b/src/dht/krpc_message.rs
index c5c30b6..46c9c8d 100644
--- a/src/dht/krpc_message.rs
+++ b/src/dht/krpc_message.rs
@@ -5,10 +5,12 @@ use crate::{
     peers::peer::Peer,
 };
 use anyhow::{anyhow, Result};
+use bendy::decoding::Decoder;
 use serde::{de::Unexpected, Deserialize, Deserializer, Serialize, Serializer};
 use std::str;
 
 const MY_TID_LEN: usize = 5;
+const MAX_NESTING_DEPTH: usize = 1 << 5;
 
 // TODO fuck bendy! it's the worst decision I've made. I need to impl my own parser for serde.
 #[derive(Debug, Deserialize, Serialize)]
@@ -117,9 +119,22 @@ impl Message {
     }
 
     pub fn from_bytes(buf: &[u8]) -> Result<Self> {
+        Self::check_nesting_depth(buf)?;
+
         bendy::serde::from_bytes::<Self>(buf).map_err(|e| anyhow!("{}", e))
     }
 
+    // deserialization is recursive, a deeply nested datagram would overflow the stack
+    fn check_nesting_depth(buf: &[u8]) -> Result<()> {
+        let mut decoder = Decoder::new(buf).with_max_depth(MAX_NESTING_DEPTH);
+
+        if let Some(object) = decoder.next_object()? {
+            object.try_into_dictionary()?.into_raw()?;
+        }
+
+        Ok(())
+    }
+
     pub fn tid(&self) -> &SerializableBuf {
         match self {
             Message::Query { transaction_id, .. } => transaction_id,
-- 
2.43.0


From 6289f44e452a6827e350d4eaab98fedd20da5db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 05/70] fix: order IDs by their value, not by their leading bit
 alone

---
 src/data_structures/id.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index 9b7f72d..0446efa 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -218,16 +218,7 @@ impl PartialOrd for ID {
 
 impl Ord for ID {
     fn cmp(&self, other: &Self) -> Ordering {
-        for (self_bit, other_bit) in self.bit_iter().zip(other.bit_iter()) {
-            match (self_bit, other_bit) {
-                (true, true) => return Ordering::Equal,
-                (true, false) => return Ordering::Greater,
-                (false, true) => return Ordering::Less,
-                _ => (),
-            }
-        }
-
-        Ordering::Equal
+        self.0.cmp(&other.0)
     }
 }
 
-- 
2.43.0


From f8a02a9fee627818c2596cbd9f1ddcd77c5ec2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 06/70] fix: return the K closest good nodes of the whole
 routing table

---
 src/dht/routing_table/table.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 29ea2c1..35f54a2 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -136,23 +136,16 @@ impl RoutingTable {
     }
 
     pub fn get_closest_nodes(&self, id: &ID) -> Option<Vec<Node>> {
-        let mut nodes = Vec::new();
-
-        let node_bucket_idx = self.find_bucket_idx_by_id(id);
-
-        for bucket in self.data[node_bucket_idx..]
+        // neighboring buckets don't hold ids in order of their distance to id, so all of them are needed
+        let mut nodes: Vec<Node> = self
+            .data
             .iter()
-            .chain(self.data[..node_bucket_idx].iter().rev())
-        {
-            nodes.extend(bucket.iter_over_goods().cloned());
-
-            if nodes.len() >= K_NODE_PER_BUCKET {
-                break;
-            }
-        }
+            .flat_map(|bucket| bucket.iter_over_goods().cloned())
+            .collect();
 
         if !nodes.is_empty() {
             nodes.sort_by(|a, b| a.cmp_by_distance_to_id(b, id));
+            nodes.truncate(K_NODE_PER_BUCKET);
             Some(nodes)
         } else {
             warn!(
-- 
2.43.0


From 27db002612d5c9e9338adf68c0d798cf5aef6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 07/70] fix: split our own bucket for any id within its range

---
 src/dht/routing_table/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/routing_table/bucket.rs b/src/dht/routing_table/bucket.rs
index ed17a70..0c07f93 100644
--- a/src/dht/routing_table/bucket.rs
+++ b/src/dht/routing_table/bucket.rs
@@ -117,7 +117,7 @@ impl Bucket {
     pub fn id_within_bucket_range(&self, own_id: &ID, id: &ID) -> bool {
         match own_id.first_diff_bit_idx(id) {
             None => true,
-            Some(first_diff) => first_diff > self.depth,
+            Some(first_diff) => first_diff >= self.depth,
         }
     }
 
-- 
2.43.0


From 84e158384692557a6b192378d69651a036e7f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 08/70] fix: answer find_node and get_peers while no good node
 is known

---
 src/dht/dht_manager.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/dht/dht_manager.rs b/src/dht/dht_manager.rs
index 5347858..ff44994 100644
--- a/src/dht/dht_manager.rs
+++ b/src/dht/dht_manager.rs
@@ -137,11 +137,9 @@ async fn process_find_node_query(
     routing_table: &mut RoutingTable,
     query_id: QueryId,
 ) -> Result<(), ConError> {
-    if let Some(nodes) = routing_table.find_node(&target) {
-        connection.resp_to_find_node(nodes, query_id).await?;
-    };
+    let nodes = find_nodes_or_empty(&target, routing_table);
 
-    Ok(())
+    connection.resp_to_find_node(nodes, query_id).await
 }
 
 async fn process_get_peers_query(
@@ -154,13 +152,9 @@ async fn process_get_peers_query(
 ) -> Result<(), ConError> {
     let values_or_nodes = match find_peers(info_hash, torrent_peers, dht_peer_map) {
         Some(peers) => ValuesOrNodes::Values { values: peers },
-        None => {
-            let Some(nodes) = routing_table.find_node(&info_hash) else {
-                return Ok(()); // TODO this is not Ok but it's not crash worthy. maybe I should use non-option rv? it won't ever be empty anyway.
-            };
-
-            ValuesOrNodes::Nodes { nodes }
-        }
+        None => ValuesOrNodes::Nodes {
+            nodes: find_nodes_or_empty(&info_hash, routing_table),
+        },
     };
 
     connection
@@ -168,6 +162,13 @@ async fn process_get_peers_query(
         .await
 }
 
+// a query deserves a response even if there isn't a single good node to tell about
+fn find_nodes_or_empty(id: &ID, routing_table: &RoutingTable) -> Nodes {
+    routing_table
+        .find_node(id)
+        .unwrap_or_else(|| Nodes::Closest(Vec::new()))
+}
+
 fn find_peers(info_hash: ID, torrent_peers: &Peers, dht_peer_map: &PeerMap) -> Option<Vec<Peer>> {
     if torrent_peers.serve(&info_hash) {
         torrent_peers.get_good_peers(DHT_MTU / COMPACT_PEER_LEN)
-- 
2.43.0


From 90825689dbb01dc9c896c35a5b681a7f2d800152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 09/70] fix: don't let a full query queue block the UDP task

---
 src/dht/connection/connection_manager.rs | 61 +++++++++++++-----------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index cf2b0f4..320b8bf 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -149,28 +149,22 @@ impl ConnectionManager {
                 self.send(pong).await;
             }
             Arguments::FindNode { target, .. } => {
-                self.query_listener
-                    .send(FromConQuery::FindNode {
-                        target,
-                        query_id: QueryId {
-                            target: from,
-                            transaction_id,
-                        },
-                    })
-                    .await
-                    .unwrap();
+                self.pass_to_listener(FromConQuery::FindNode {
+                    target,
+                    query_id: QueryId {
+                        target: from,
+                        transaction_id,
+                    },
+                });
             }
             Arguments::GetPeers { info_hash, .. } => {
-                self.query_listener
-                    .send(FromConQuery::GetPeers {
-                        info_hash,
-                        query_id: QueryId {
-                            target: from,
-                            transaction_id,
-                        },
-                    })
-                    .await
-                    .unwrap();
+                self.pass_to_listener(FromConQuery::GetPeers {
+                    info_hash,
+                    query_id: QueryId {
+                        target: from,
+                        transaction_id,
+                    },
+                });
             }
             Arguments::AnnouncePeer {
                 info_hash,
@@ -182,13 +176,14 @@ impl ConnectionManager {
                     let mut peer_addr = from;
                     peer_addr.set_port(port);
 
-                    self.query_listener
-                        .send(FromConQuery::NewPeer {
-                            new_peer: Peer::new(peer_addr),
-                            info_hash,
-                        })
-                        .await
-                        .unwrap();
+                    let is_stored = self.pass_to_listener(FromConQuery::NewPeer {
+                        new_peer: Peer::new(peer_addr),
+                        info_hash,
+                    });
+
+                    if !is_stored {
+                        return;
+                    }
 
                     let resp = ToCon::Resp {
                         query_id: QueryId {
@@ -204,6 +199,18 @@ impl ConnectionManager {
         }
     }
 
+    // never wait for the listener here. it might be waiting for this task to take its messages, and
+    // until this returns nothing else is received or sent. an overload loses a datagram, as UDP does.
+    fn pass_to_listener(&self, query: FromConQuery) -> bool {
+        let res = self.query_listener.try_send(query);
+
+        if let Err(e) = &res {
+            warn!(?e);
+        }
+
+        res.is_ok()
+    }
+
     fn token_is_valid(&self, token: SerializableBuf, source_addr: &SocketAddrV4) -> bool {
         token == self.secret.hash_with_secret(&source_addr.ip().octets())
     }
-- 
2.43.0


From 2071f86aaaa1c491a7450c7c200d65e26ff08d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 10/70] fix: don't let a requester that isn't listening block
 the UDP task

---
 src/dht/connection/connection_handle.rs  |  3 +-
 src/dht/connection/connection_manager.rs | 44 ++++++++----------------
 2 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/src/dht/connection/connection_handle.rs b/src/dht/connection/connection_handle.rs
index 169fb0e..2a3cf96 100644
--- a/src/dht/connection/connection_handle.rs
+++ b/src/dht/connection/connection_handle.rs
@@ -83,7 +83,8 @@ impl QueryingConnection {
 
 impl Clone for QueryingConnection {
     fn clone(&self) -> Self {
-        let (response_receiver_channel_tx, response_receiver_channel_rx) = mpsc::channel(1 << 6);
+        // responses that don't fit are lost, so there must be room for as many nodes as anyone queries at once
+        let (response_receiver_channel_tx, response_receiver_channel_rx) = mpsc::channel(1 << 10);
         Self {
             send_message: self.send_message.clone(),
             response_receiver_channel_rx,
diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 320b8bf..48cfaeb 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -228,39 +228,25 @@ impl ConnectionManager {
             return;
         };
 
-        match response {
-            Response::Ping { id } => {
-                querying_task_channel
-                    .send(FromConResp::Touch { id, from })
-                    .await
-                    .unwrap();
-            }
-            Response::FindNode { nodes, id } => {
-                querying_task_channel
-                    .send(FromConResp::NewNodes { nodes, from, id })
-                    .await
-                    .unwrap();
-            }
+        let resp = match response {
+            Response::Ping { id } => FromConResp::Touch { id, from },
+            Response::FindNode { nodes, id } => FromConResp::NewNodes { nodes, from, id },
             Response::GetPeers {
                 values_or_nodes,
                 token,
                 ..
-            } => {
-                querying_task_channel
-                    .send(FromConResp::GetPeers {
-                        from,
-                        token,
-                        v_or_n: values_or_nodes,
-                    })
-                    .await
-                    .unwrap();
-            }
-            Response::AnnouncePeer { id } => {
-                querying_task_channel
-                    .send(FromConResp::Touch { id, from })
-                    .await
-                    .unwrap();
-            }
+            } => FromConResp::GetPeers {
+                from,
+                token,
+                v_or_n: values_or_nodes,
+            },
+            Response::AnnouncePeer { id } => FromConResp::Touch { id, from },
+        };
+
+        // requester might be gone or busy with something else (peer fetcher sleeps for minutes),
+        // neither is a reason to stop receiving and sending everything else
+        if let Err(e) = querying_task_channel.try_send(resp) {
+            warn!(?e);
         }
     }
 }
-- 
2.43.0


From fc17e7cf01aa2765a8b244c92af6b108a20c11f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 11/70] fix: match the response to announce_peer with its query

---
 src/dht/connection/pending.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dht/connection/pending.rs b/src/dht/connection/pending.rs
index 2053f7f..3f32b0b 100644
--- a/src/dht/connection/pending.rs
+++ b/src/dht/connection/pending.rs
@@ -27,7 +27,7 @@ impl PendingRequests {
     pub fn get(&mut self, tid: &SerializableBuf, response_type: RequestType) -> Option<Requester> {
         let (requested_type, _) = self.0.get(tid)?;
 
-        if *requested_type == response_type {
+        if requested_type.is_answered_by(&response_type) {
             self.0.remove(tid).map(|(_, requester)| requester)
         } else {
             None
@@ -39,6 +39,13 @@ impl PendingRequests {
     }
 }
 
+impl RequestType {
+    // response to announce_peer has the same fields as response to ping, so it's always decoded as the latter
+    fn is_answered_by(&self, response_type: &Self) -> bool {
+        self == response_type || (*self == Self::AnnouncePeer && *response_type == Self::Ping)
+    }
+}
+
 impl From<&Message> for RequestType {
     fn from(item: &Message) -> Self {
         let Message::Query{arguments, ..} = item else{
-- 
2.43.0


From d20929c27fcf3e0f190cda4bd0ee677f9fb157a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 12/70] fix: store the routing table completely or not at all

---
 src/dht/routing_table/table.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 35f54a2..4684104 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -5,7 +5,7 @@ use crate::dht::krpc_message::Nodes;
 use anyhow::{anyhow, Result};
 use serde::{Deserialize, Serialize};
 use std::net::SocketAddrV4;
-use tokio::fs::{DirBuilder, File};
+use tokio::fs::{rename, DirBuilder, File};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tracing::{error, warn};
 
@@ -56,10 +56,17 @@ impl RoutingTable {
 
         let encoded = bincode::serialize(&self).unwrap();
 
+        let tmp_path = path.join(format!("{CACHED_DHT_FILE}.tmp"));
         path.push(CACHED_DHT_FILE);
-        let mut file = File::create(path).await.unwrap();
+
+        let mut file = File::create(&tmp_path).await.unwrap();
 
         file.write_all(&encoded).await.unwrap();
+        // write_all returns before data is written, dropping file at that point might lose some of it
+        file.sync_all().await.unwrap();
+
+        // previously stored table stays intact until new one is complete
+        rename(tmp_path, path).await.unwrap();
     }
 
     pub fn own_id(&self) -> &ID {
-- 
2.43.0


From 4368ff259c919e01f0195d22878a01b98faa347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 13/70] fix: don't use a corrupted routing table cache

---
 src/dht/routing_table/table.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 4684104..024c327 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -2,7 +2,7 @@ use super::bucket::Bucket;
 use super::{Node, K_NODE_PER_BUCKET};
 use crate::data_structures::{ID, ID_BIT_COUNT};
 use crate::dht::krpc_message::Nodes;
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, bail, Result};
 use serde::{Deserialize, Serialize};
 use std::net::SocketAddrV4;
 use tokio::fs::{rename, DirBuilder, File};
@@ -42,7 +42,25 @@ impl RoutingTable {
         let mut file = File::open(path).await?;
         file.read_to_end(&mut buf).await?;
 
-        Ok(bincode::deserialize(&buf)?)
+        let routing_table: Self = bincode::deserialize(&buf)?;
+
+        if !routing_table.is_well_formed() {
+            bail!("cached routing table is corrupted");
+        }
+
+        Ok(routing_table)
+    }
+
+    fn is_well_formed(&self) -> bool {
+        let bucket_count = self.data.len();
+
+        (1..=ID_BIT_COUNT + 1).contains(&bucket_count)
+            && self.data.iter().enumerate().all(|(idx, bucket)| {
+                bucket.depth() == std::cmp::min(idx + 1, bucket_count - 1)
+                    && bucket
+                        .iter_nodes()
+                        .all(|node| self.find_bucket_idx_by_id(&node.id) == idx)
+            })
     }
 
     pub async fn store(&self) {
-- 
2.43.0


From 081c346048d0fb7bce202d9a29a477af8c20581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 14/70] fix: keep the status of a peer that is discovered again

---
 src/peers/active_peers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index 12228a6..aa3078c 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -31,7 +31,11 @@ impl Peers {
     }
 
     pub fn insert(&self, peer: Peer) {
-        self.data.lock().unwrap().insert(peer, Status::Unknown);
+        self.data
+            .lock()
+            .unwrap()
+            .entry(peer)
+            .or_insert(Status::Unknown);
     }
 
     // TODO this name is bad. `peers.serve(info_hash)` is clear but only seeing it here is laughably bad.
@@ -135,7 +139,9 @@ where
     fn extend<T: IntoIterator<Item = P>>(&mut self, iter: T) {
         let mut data = self.data.lock().unwrap();
 
-        data.extend(iter.into_iter().map(|peer| (peer.into(), Status::Unknown)));
+        for peer in iter {
+            data.entry(peer.into()).or_insert(Status::Unknown);
+        }
     }
 }
 
-- 
2.43.0


From 4fc5cc7a37ac9e5582f4496cd7b94955738942da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 15/70] fix: don't mark peers as active when they are only
 shared or counted

---
 src/peers/active_peers.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index aa3078c..380c4fa 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -62,9 +62,15 @@ impl Peers {
             Status::ChokedForTooLong,
         ];
 
-        let mut data = self.data.lock().unwrap();
-
-        let peers = self.activate_peers_in_locked_data(&mut data, limit, &status_priority_order);
+        let data = self.data.lock().unwrap();
+
+        // only peers that are about to be connected to should be activated, these ones are just for sharing
+        let peers: Vec<Peer> = status_priority_order
+            .iter()
+            .flat_map(|cur_status| data.iter().filter(move |(_, status)| *status == cur_status))
+            .map(|(peer, _)| *peer)
+            .take(limit)
+            .collect();
 
         if peers.is_empty() {
             None
-- 
2.43.0


From 193b644d7fd48e661faa06e3d5ac91a9c6b43020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 16/70] fix: check that length of a peer message fits its id
 (out of bounds panic)

---
 src/peers/connection/message.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index 2682213..c32f64b 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -108,6 +108,12 @@ impl Message {
         } else {
             let id = buf[ID_IDX];
             debug!(id);
+
+            if !Self::is_valid_len(id, len - BYTES_IN_LEN_PREFIX) {
+                warn!("message with id {} can't be {} bytes long", id, len);
+                return None;
+            }
+
             match id {
                 CHOKE_ID => Message::Choke,
                 UNCHOKE_ID => Message::Unchoke,
@@ -143,6 +149,24 @@ impl Message {
         Some(message)
     }
 
+    fn is_valid_len(id: u8, len: usize) -> bool {
+        let len = len as u32;
+
+        match id {
+            CHOKE_ID => len == CHOKE_LEN,
+            UNCHOKE_ID => len == UNCHOKE_LEN,
+            INTERESTED_ID => len == INTERESTED_LEN,
+            NOT_INTERESTED_ID => len == NOT_INTERESTED_LEN,
+            HAVE_ID => len == HAVE_LEN,
+            BITFIELD_ID => len >= BITFIELD_LEN,
+            REQUEST_ID => len == REQUEST_LEN,
+            PIECE_ID => len >= PIECE_LEN,
+            CANCEL_ID => len == CANCEL_LEN,
+            PORT_ID => len == PORT_LEN,
+            _ => true,
+        }
+    }
+
     pub fn into_bytes(self) -> Vec<u8> {
         bincode::DefaultOptions::new()
             .with_big_endian()
-- 
2.43.0


From c28f3c8b418a06c2b6920c15c096659ae7c78916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 17/70] fix: an unsupported peer message must not take other
 messages with it

---
 src/peers/connection/connection_manager.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 1db4517..8bbbcd8 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -118,12 +118,7 @@ async fn manager_receiver(
             let message_len = Message::len(&buf[data_start..]) + BYTES_IN_LEN_PREFIX;
 
             if message_len <= data_len {
-                let Some(message) = Message::from_buf(&buf) else {
-                    error!("message_len <= data_len but buf can't be deserialize into message");
-                    data_start = 0;
-                    data_len = 0;
-                    break;
-                };
+                let message = Message::from_buf(&buf);
 
                 data_start += message_len;
                 data_len -= message_len;
@@ -134,6 +129,11 @@ async fn manager_receiver(
 
                 data_start = 0;
 
+                let Some(message) = message else {
+                    error!("message_len <= data_len but buf can't be deserialize into message");
+                    continue;
+                };
+
                 handle_message(peer, message, &piece_handler, &dht_handler, &peer_handler).await;
             } else {
                 break;
-- 
2.43.0


From 67287a87725424f9b8b3c103731b0e6636ed5d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 18/70] fix: drop a peer whose message can never fit instead of
 spinning

---
 src/peers/connection/connection_manager.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 8bbbcd8..b097500 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -135,6 +135,9 @@ async fn manager_receiver(
                 };
 
                 handle_message(peer, message, &piece_handler, &dht_handler, &peer_handler).await;
+            } else if message_len > buf.len() {
+                error!("message is too long ({} bytes)", message_len);
+                return;
             } else {
                 break;
             }
-- 
2.43.0


From 6eb95065ec65ec08dd54c53a2e7ba21d62ee9a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 19/70] fix: notice when a peer closes its connection and
 report it

---
 src/peers/connection/connection_manager.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index b097500..24638dd 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -72,7 +72,14 @@ async fn manage_tcp(
     select! {
         _ = shutdown_rx.recv() => {},
         _ = manager_sender(write_stream, send_rx) => {},
-        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, peer_handler) => {},
+        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, &peer_handler) => {
+            let _ = peer_handler
+                .send(ConnectionMessage {
+                    peer,
+                    message: ConMessageType::Disconnected,
+                })
+                .await;
+        },
     };
 }
 
@@ -99,7 +106,7 @@ async fn manager_receiver(
     mut stream: ReadHalf<&mut TcpStream>,
     piece_handler: mpsc::Sender<Piece>,
     dht_handler: mpsc::Sender<SocketAddrV4>,
-    peer_handler: mpsc::Sender<ConnectionMessage>,
+    peer_handler: &mpsc::Sender<ConnectionMessage>,
 ) {
     let mut buf = vec![0u8; MAX_MESSAGE_BYTES];
     let mut data_start = 0;
@@ -107,6 +114,7 @@ async fn manager_receiver(
 
     loop {
         data_len += match stream.read(&mut buf[data_start + data_len..]).await {
+            Ok(0) => return,
             Ok(len) => len,
             Err(e) => {
                 error!(?e);
@@ -134,7 +142,7 @@ async fn manager_receiver(
                     continue;
                 };
 
-                handle_message(peer, message, &piece_handler, &dht_handler, &peer_handler).await;
+                handle_message(peer, message, &piece_handler, &dht_handler, peer_handler).await;
             } else if message_len > buf.len() {
                 error!("message is too long ({} bytes)", message_len);
                 return;
-- 
2.43.0


From ab24867f43d773a87ff98c9f06bb4bf0acfec8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 20/70] fix: forget a dead connection so that its peer can be
 connected to again

---
 src/peers/connection/connection_handle.rs | 5 +++++
 src/peers/connection/downloader.rs        | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index a96dbbc..7a2c7f8 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -166,6 +166,11 @@ impl Connection {
             }
         }
 
+        // connection is already dead, without this it would be impossible to connect to this peer ever again
+        if let ConMessageType::Unreachable | ConMessageType::Disconnected = &msg.message {
+            self.disconnect(&msg.peer);
+        }
+
         msg
     }
 
diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 3a7c391..31366af 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -90,7 +90,8 @@ async fn manage_piece_downloader(
         select! {
             _ = shutdown_rx.recv() => { return },
             block = downloaded_block_rx.recv() => {
-                foo(peer, block.unwrap(), &mut pending_pieces, &mut current_blocks, &current_pieces, &finished_piece_tx).await;
+                let Some(block) = block else { return };
+                foo(peer, block, &mut pending_pieces, &mut current_blocks, &current_pieces, &finished_piece_tx).await;
             },
             command = new_piece_rx.recv() => {
                 match command{
@@ -98,7 +99,7 @@ async fn manage_piece_downloader(
                         PeerManagerCommand::StartPiece((piece_hash, piece_idx)) => {current_pieces.insert(piece_idx, piece_hash);},
                         PeerManagerCommand::StopPiece(piece_idx) => {current_pieces.remove(&piece_idx);},
                     },
-                    None => todo!(),
+                    None => return,
                 }
             },
         };
-- 
2.43.0


From a257ecf9df00c6d56616617b578945558952054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 21/70] fix: accept a handshake that arrives in several
 segments

---
 src/peers/connection/handshake.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index b9e8ef8..85e3c3b 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -1,5 +1,5 @@
 use crate::data_structures::ID;
-use anyhow::{anyhow, bail, Result};
+use anyhow::{bail, Result};
 use std::mem::size_of;
 use std::net::SocketAddrV4;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
@@ -20,14 +20,11 @@ pub async fn initiate_handshake(
     stream.write_all(handshake.as_ref()).await?;
 
     let mut buf = [0_u8; HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL];
-    let received_byte_cnt = stream.read(&mut buf).await?;
+    stream.read_exact(&mut buf).await?;
 
-    if received_byte_cnt != HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL {
-        Err(anyhow!("can't connect to peer"))
-    } else {
-        Handshake::check_validity(buf.as_ref())?;
-        Ok(stream)
-    }
+    Handshake::check_validity(buf.as_ref())?;
+
+    Ok(stream)
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 074b55ccdd2db603ebc7348b13b915a3ce213fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 22/70] fix: refuse a peer whose handshake is about another
 torrent

---
 src/peers/connection/handshake.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index 85e3c3b..8578521 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -1,4 +1,4 @@
-use crate::data_structures::ID;
+use crate::data_structures::{ID, ID_LEN};
 use anyhow::{bail, Result};
 use std::mem::size_of;
 use std::net::SocketAddrV4;
@@ -8,6 +8,7 @@ use tokio::net::TcpStream;
 const PSTRLEN: u8 = 19;
 const PSTR: &[u8] = b"BitTorrent protocol";
 const HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL: usize = 68;
+const INFO_HASH_START: usize = 28;
 
 pub async fn initiate_handshake(
     sock_addr: &SocketAddrV4,
@@ -23,6 +24,7 @@ pub async fn initiate_handshake(
     stream.read_exact(&mut buf).await?;
 
     Handshake::check_validity(buf.as_ref())?;
+    Handshake::check_info_hash(buf.as_ref(), info_hash)?;
 
     Ok(stream)
 }
@@ -72,6 +74,14 @@ impl Handshake {
 
         Ok(())
     }
+
+    fn check_info_hash(buf: &[u8], info_hash: &ID) -> Result<()> {
+        if &buf[INFO_HASH_START..INFO_HASH_START + ID_LEN] != info_hash.as_byte_ref() {
+            bail!("peer serves another torrent");
+        }
+
+        Ok(())
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 12af805f231888836f868a2edf12e3d00eb7cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 23/70] fix: give up on a peer that never completes its
 handshake

---
 src/peers/connection/connection_manager.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 24638dd..d061d99 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -11,7 +11,7 @@ use tokio::io::{split, AsyncReadExt, AsyncWriteExt, ReadHalf, WriteHalf};
 use tokio::net::TcpStream;
 use tokio::select;
 use tokio::sync::mpsc;
-use tokio::time::{interval, Duration};
+use tokio::time::{interval, timeout, Duration};
 use tracing::log::trace;
 use tracing::{error, instrument, warn};
 
@@ -19,6 +19,7 @@ pub const BLOCK_SIZE: usize = 1 << 14;
 pub const DESCRIPTIVE_DATA_SIZE: usize = 1 << 7;
 pub const MAX_MESSAGE_BYTES: usize = BLOCK_SIZE + DESCRIPTIVE_DATA_SIZE;
 pub const KEEP_ALIVE_INTERVAL_SECS: u64 = 100;
+const HANDSHAKE_TIMEOUT_SECS: u64 = 30;
 
 pub fn spawn_connection_manager(
     own_peer_id: ID,
@@ -56,7 +57,14 @@ async fn manage_tcp(
     send_rx: mpsc::Receiver<Message>,
     mut shutdown_rx: shutdown::Receiver,
 ) {
-    let Ok(mut stream) = initiate_handshake(&peer.into(), &info_hash, &own_peer_id).await else {
+    // without a timeout, peer that never answers would hold its place forever
+    let handshake = timeout(
+        Duration::from_secs(HANDSHAKE_TIMEOUT_SECS),
+        initiate_handshake(&peer.into(), &info_hash, &own_peer_id),
+    )
+    .await;
+
+    let Ok(Ok(mut stream)) = handshake else {
         // I can ignore it because if rec is dead, there's not much to do other than shutting down
         let _ = peer_handler
             .send(ConnectionMessage {
-- 
2.43.0


From 3c67ed61d59362fe4d3e5fb4fccb3409100b431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 24/70] fix: count a downloaded block once and don't underflow
 the pending counter

---
 src/peers/connection/pending_pieces.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 996df3a..45c58f6 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -32,7 +32,6 @@ pub struct FinishedPiece {
 }
 
 struct Piece {
-    pending: usize,
     downloaded: usize,
     data: Vec<Block>,
 }
@@ -108,9 +107,12 @@ impl PendingPieces {
 
         let block = &mut piece.data[block_idx];
 
+        // same block may be delivered by more than one peer (requests expire), it counts only once
+        if !block.is_downloaded() {
+            piece.downloaded += 1;
+        }
+
         *block = Block::Downloaded(block_data);
-        piece.downloaded += 1;
-        piece.pending -= 1;
 
         if self.blocks_per_piece == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
@@ -228,7 +230,6 @@ impl Piece {
         let data = vec![Block::default(); piece_count];
 
         Self {
-            pending: 0,
             downloaded: 0,
             data,
         }
@@ -246,6 +247,10 @@ impl Block {
         std::mem::discriminant(self) == std::mem::discriminant(v)
     }
 
+    fn is_downloaded(&self) -> bool {
+        matches!(self, Self::Downloaded(_))
+    }
+
     fn is_expired_pending(&self) -> bool {
         let Self::Pending(description) = self else {
             return false;
-- 
2.43.0


From 5260b44e5d3a219bf7109776e4e69122d4e130ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 25/70] fix: don't take more blocks than a peer may have active

---
 src/peers/connection/pending_pieces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 45c58f6..f66b1ef 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -153,8 +153,10 @@ impl PendingPieces {
         let now = Instant::now();
 
         for filter in filters {
+            let free_slots = block_buf.capacity() - block_buf.len();
+
             for (block, block_address) in
-                Self::filtered_iter_over_blocks(&pieces, &mut data, filter)
+                Self::filtered_iter_over_blocks(&pieces, &mut data, filter).take(free_slots)
             {
                 *block = Block::Pending(PendingBlockDesc {
                     target: self.copy_owner.unwrap(), // TODO wtf is this? NO!
-- 
2.43.0


From 1a52359f0892c393fd3e61c1469a8b169e3067e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 26/70] fix: let the downloader of a peer know whose blocks it
 takes (unwrap on None)

---
 src/peers/connection/connection_handle.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 7a2c7f8..a01f6ca 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -110,6 +110,8 @@ impl Connection {
         let (downloaded_block_tx, downloaded_block_rx) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
         let (download_new_piece_tx, download_new_piece_rx) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
         let (choker, unchoke_waiter) = choke_lock();
+        let mut pending_pieces = self.pending_pieces.clone();
+        pending_pieces.set_owner_peer(peer);
 
         match self.peers.entry(peer) {
             Occupied(_) => return,
@@ -140,7 +142,7 @@ impl Connection {
             self.rec_tx.clone(),
             downloaded_block_rx,
             download_new_piece_rx,
-            self.pending_pieces.clone(),
+            pending_pieces,
             unchoke_waiter,
             shutdown_rx,
         );
-- 
2.43.0


From cc4553fbee2d4fd4062803d5c6196630e9b24c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 27/70] fix: register a piece before it's started and report
 when it can't be

---
 src/peers/connection/connection_handle.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index a01f6ca..2437720 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -185,12 +185,13 @@ impl Connection {
         match self.peers.get(&peer) {
             None => bail!("peer {:?} is not connected", peer),
             Some(peer_connection) => {
+                // downloader looks for blocks as soon as it gets the command, piece must be there already
+                self.pending_pieces.add_piece(piece_idx)?;
+
+                // downloader of a peer that doesn't read its requests must not block everyone else
                 peer_connection
                     .download_new_piece_tx
-                    .send(PeerManagerCommand::StartPiece((piece_hash, piece_idx)))
-                    .await?;
-
-                self.pending_pieces.add_piece(piece_idx);
+                    .try_send(PeerManagerCommand::StartPiece((piece_hash, piece_idx)))?;
             }
         }
 
-- 
2.43.0


From d498aa2955db887bcdca489acf231e45e9a00459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 28/70] fix: size of the last block of a piece and of the last
 piece

---
 src/peers/connection/connection_handle.rs |  3 +-
 src/peers/connection/downloader.rs        |  4 +-
 src/peers/connection/message.rs           |  2 +-
 src/peers/connection/pending_pieces.rs    | 76 +++++++++++++----------
 src/torrent_manager.rs                    |  1 +
 5 files changed, 51 insertions(+), 35 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 2437720..5ed1469 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -89,6 +89,7 @@ impl Connection {
         own_peer_id: ID,
         info_hash: ID,
         piece_length: usize,
+        total_length: usize,
         dht_handler: mpsc::Sender<SocketAddrV4>,
     ) -> Self {
         let (rec_tx, rec) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
@@ -97,7 +98,7 @@ impl Connection {
             info_hash,
             own_peer_id,
             dht_handler,
-            pending_pieces: PendingPieces::new(piece_length),
+            pending_pieces: PendingPieces::new(piece_length, total_length),
             peers: HashMap::new(),
             rec,
             rec_tx,
diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 31366af..ca8b07e 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -33,14 +33,16 @@ enum BlockStatus {
 pub struct BlockAddress {
     pub piece_idx: usize,
     pub block_idx: usize,
+    pub length: usize,
     status: BlockStatus,
 }
 
 impl BlockAddress {
-    pub fn new(piece_idx: usize, block_idx: usize) -> Self {
+    pub fn new(piece_idx: usize, block_idx: usize, length: usize) -> Self {
         Self {
             piece_idx,
             block_idx,
+            length,
             status: BlockStatus::Queued,
         }
     }
diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index c32f64b..f66e25e 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -278,7 +278,7 @@ impl From<BlockAddress> for Request {
         Self {
             index: value.piece_idx as u32,
             begin: (value.block_idx * BLOCK_SIZE) as u32,
-            length: BLOCK_SIZE as u32,
+            length: value.length as u32,
         }
     }
 }
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index f66b1ef..4e880c5 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -1,5 +1,4 @@
 use crate::peers::peer::Peer;
-use crate::unsigned_ceil_div;
 use anyhow::{anyhow, bail, Result};
 use rand::seq::SliceRandom;
 use rand::thread_rng;
@@ -20,7 +19,7 @@ const MAINLINE_TCP_REQUEST_TIMEOUT_SECS: u64 = 7;
 #[derive(Clone)]
 pub struct PendingPieces {
     piece_length: usize,
-    blocks_per_piece: usize,
+    total_length: usize,
     copy_owner: Option<Peer>,
     data: Arc<StdMutex<HashMap<usize, Piece>>>,
 }
@@ -32,6 +31,7 @@ pub struct FinishedPiece {
 }
 
 struct Piece {
+    length: usize,
     downloaded: usize,
     data: Vec<Block>,
 }
@@ -56,10 +56,10 @@ pub enum AddBlockRes {
 }
 
 impl PendingPieces {
-    pub fn new(piece_length: usize) -> Self {
+    pub fn new(piece_length: usize, total_length: usize) -> Self {
         Self {
             piece_length,
-            blocks_per_piece: unsigned_ceil_div!(piece_length, BLOCK_SIZE),
+            total_length,
             copy_owner: None,
             data: Arc::new(StdMutex::new(HashMap::with_capacity(
                 MAX_PIECES_DOWNLOADING,
@@ -82,7 +82,7 @@ impl PendingPieces {
             bail!("Pending is full");
         }
 
-        data.insert(idx, Piece::new(self.piece_length));
+        data.insert(idx, Piece::new(self.length_of_piece(idx)));
 
         Ok(())
     }
@@ -93,11 +93,6 @@ impl PendingPieces {
         block_idx: usize,
         block_data: Vec<u8>,
     ) -> AddBlockRes {
-        if let Err(e) = self.check_block_bounds(block_idx, &block_data) {
-            error!(?e);
-            return AddBlockRes::Failed;
-        };
-
         let mut data = self.data.lock().unwrap();
 
         let Some(piece) = data.get_mut(&piece_idx) else {
@@ -105,6 +100,11 @@ impl PendingPieces {
             return AddBlockRes::Failed;
         };
 
+        if let Err(e) = piece.check_block_bounds(block_idx, &block_data) {
+            error!(?e);
+            return AddBlockRes::Failed;
+        };
+
         let block = &mut piece.data[block_idx];
 
         // same block may be delivered by more than one peer (requests expire), it counts only once
@@ -114,7 +114,7 @@ impl PendingPieces {
 
         *block = Block::Downloaded(block_data);
 
-        if self.blocks_per_piece == piece.downloaded {
+        if piece.data.len() == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
             AddBlockRes::AddedLast(FinishedPiece {
                 data: finished_piece.data.into_iter().map(|b| b.into()).collect(),
@@ -179,36 +179,56 @@ impl PendingPieces {
     ) -> impl Iterator<Item = (&'a mut Block, BlockAddress)> + 'a {
         data.iter_mut()
             .filter_map(move |(piece_idx, piece)| {
+                let piece_length = piece.length;
+
                 piece_indexes.contains(piece_idx).then_some(
                     piece
                         .data
                         .iter_mut()
                         .enumerate()
                         .filter_map(move |(block_idx, block)| {
-                            filter_closure(block)
-                                .then_some((block, BlockAddress::new(*piece_idx, block_idx)))
+                            let length = length_of_block(piece_length, block_idx);
+
+                            filter_closure(block).then_some((
+                                block,
+                                BlockAddress::new(*piece_idx, block_idx, length),
+                            ))
                         }),
                 )
             })
             .flatten()
     }
 
+    // last piece ends where data ends
+    fn length_of_piece(&self, idx: usize) -> usize {
+        let remaining = self.total_length.saturating_sub(idx * self.piece_length);
+
+        std::cmp::min(self.piece_length, remaining)
+    }
+}
+
+impl Piece {
+    fn new(length: usize) -> Self {
+        let block_count = (length + BLOCK_SIZE - 1) / BLOCK_SIZE;
+        let data = vec![Block::default(); block_count];
+
+        Self {
+            length,
+            downloaded: 0,
+            data,
+        }
+    }
+
     fn check_block_bounds(&self, block_idx: usize, data: &[u8]) -> Result<()> {
-        if block_idx >= self.blocks_per_piece {
+        if block_idx >= self.data.len() {
             bail!(
                 "block index ({}) out of bounds ({})",
                 block_idx,
-                self.blocks_per_piece
+                self.data.len()
             );
         }
 
-        let last_block_in_piece = block_idx + 1 == self.blocks_per_piece;
-
-        let block_size = if last_block_in_piece {
-            self.piece_length % BLOCK_SIZE
-        } else {
-            BLOCK_SIZE
-        };
+        let block_size = length_of_block(self.length, block_idx);
 
         match block_size.cmp(&data.len()) {
             Ordering::Greater => Err(anyhow!(
@@ -226,16 +246,8 @@ impl PendingPieces {
     }
 }
 
-impl Piece {
-    fn new(size: usize) -> Self {
-        let piece_count = unsigned_ceil_div!(size, BLOCK_SIZE);
-        let data = vec![Block::default(); piece_count];
-
-        Self {
-            downloaded: 0,
-            data,
-        }
-    }
+fn length_of_block(piece_length: usize, block_idx: usize) -> usize {
+    std::cmp::min(BLOCK_SIZE, piece_length - block_idx * BLOCK_SIZE)
 }
 
 impl Default for Block {
diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index d1b20e7..5081ce0 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -94,6 +94,7 @@ impl TorrentManager {
                     own_peer_id,
                     metainfo.info_hash,
                     metainfo.info.piece_length as usize,
+                    metainfo.info.length() as usize,
                     dht_tx,
                 ),
                 fs: FS::new("/home/gvelesa/rust/narpath", metainfo.info.to_owned()).await,
-- 
2.43.0


From 77a6a7179394cb371d4a51be71bb2d73bb627f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 29/70] fix: downloader must survive a block that doesn't
 finish its piece

---
 src/peers/connection/downloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index ca8b07e..a00a1ea 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -155,7 +155,7 @@ async fn foo(
     let mut removed_block_addr = current_blocks.remove(idx);
 
     match pending_pieces.add_block_data(piece_idx, block_idx, block.block.into_vec().into()) {
-        AddBlockRes::Added => todo!(),
+        AddBlockRes::Added => (),
         AddBlockRes::Failed => {
             removed_block_addr.status = BlockStatus::Queued;
             current_blocks.push(removed_block_addr);
-- 
2.43.0


From 2c2c58c52d23413a2a4d46d95be4dc947a77d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 30/70] fix: tell blocks of different pieces apart

---
 src/peers/connection/downloader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index a00a1ea..6e9aedc 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -149,9 +149,11 @@ async fn foo(
 
     let block_idx = block.begin as usize / BLOCK_SIZE;
 
-    let Some(idx) = current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) else {
-            bail!("current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) == None");
-        };
+    let Some(idx) = current_blocks.iter().position(|block_addr| {
+        block_addr.piece_idx == piece_idx && block_addr.block_idx == block_idx
+    }) else {
+        bail!("block {} of piece {} wasn't requested", block_idx, piece_idx);
+    };
     let mut removed_block_addr = current_blocks.remove(idx);
 
     match pending_pieces.add_block_data(piece_idx, block_idx, block.block.into_vec().into()) {
-- 
2.43.0


From 8716a9282bdccf48ead024cbdb56f769160434b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 31/70] fix: don't sleep for 10 seconds after every request

---
 src/peers/connection/downloader.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 6e9aedc..967927a 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -11,8 +11,8 @@ use crate::{
     transcoding::metainfo::Torrent,
 };
 use anyhow::{bail, Result};
-use std::{collections::HashMap, time::Duration};
-use tokio::{select, sync::mpsc, time::sleep};
+use std::collections::HashMap;
+use tokio::{select, sync::mpsc};
 use tracing::warn;
 
 const ACTIVE_BLOCKS_PER_PEER: usize = 16;
@@ -121,8 +121,6 @@ async fn manage_piece_downloader(
                 warn!(?e);
             }
 
-            sleep(Duration::from_secs(10)).await;
-
             queued_block.status = BlockStatus::Requested;
         }
 
-- 
2.43.0


From 6f3abc61fc7ecf8fd9a343f8f6e9f0d37a6314ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 32/70] fix: keep requesting blocks after a late command, a
 lost request or a bad piece

---
 src/peers/connection/downloader.rs     | 13 ++++++++++---
 src/peers/connection/pending_pieces.rs | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 967927a..dd13bd8 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -11,11 +11,12 @@ use crate::{
     transcoding::metainfo::Torrent,
 };
 use anyhow::{bail, Result};
-use std::collections::HashMap;
-use tokio::{select, sync::mpsc};
+use std::{collections::HashMap, time::Duration};
+use tokio::{select, sync::mpsc, time::interval};
 use tracing::warn;
 
 const ACTIVE_BLOCKS_PER_PEER: usize = 16;
+const BLOCKS_REFRESH_INTERVAL_SECS: u64 = 1;
 
 #[derive(Debug)]
 pub enum PeerManagerCommand {
@@ -87,6 +88,7 @@ async fn manage_piece_downloader(
     let mut current_blocks = Vec::with_capacity(ACTIVE_BLOCKS_PER_PEER);
 
     let mut you_dont_need_to_lock_that_mutex_every_time_counter = 0;
+    let mut refresh_interval = interval(Duration::from_secs(BLOCKS_REFRESH_INTERVAL_SECS));
 
     loop {
         select! {
@@ -104,9 +106,14 @@ async fn manage_piece_downloader(
                     None => return,
                 }
             },
+            // nothing else wakes this up if requests that are already sent are never answered
+            _ = refresh_interval.tick() => { you_dont_need_to_lock_that_mutex_every_time_counter = 0 },
         };
 
-        if you_dont_need_to_lock_that_mutex_every_time_counter % (ACTIVE_BLOCKS_PER_PEER / 3) == 0 {
+        if current_blocks.is_empty()
+            || you_dont_need_to_lock_that_mutex_every_time_counter % (ACTIVE_BLOCKS_PER_PEER / 3) == 0
+        {
+            pending_pieces.retain_awaited_blocks(&mut current_blocks);
             pending_pieces.take_not_good_blocks(
                 current_pieces.keys().into_iter().cloned().collect(),
                 &mut current_blocks,
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 4e880c5..6200424 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -172,6 +172,20 @@ impl PendingPieces {
         }
     }
 
+    // removes blocks that timed out, were downloaded from another peer or whose piece is already finished
+    pub fn retain_awaited_blocks(&self, block_buf: &mut Vec<BlockAddress>) {
+        let data = self.data.lock().unwrap();
+
+        block_buf.retain(|address| {
+            data.get(&address.piece_idx)
+                .and_then(|piece| piece.data.get(address.block_idx))
+                .map_or(false, |block| {
+                    block.is_expected_from(&self.copy_owner.unwrap())
+                        && !block.is_expired_pending()
+                })
+        });
+    }
+
     fn filtered_iter_over_blocks<'a>(
         piece_indexes: &'a [usize],
         data: &'a mut HashMap<usize, Piece>,
-- 
2.43.0


From aeacd97f59f07dcd206ee8a92a751b595e1a5e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 33/70] fix: spare bits of a bitfield aren't pieces

---
 src/data_structures/bitmap.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data_structures/bitmap.rs b/src/data_structures/bitmap.rs
index c1afbfc..daad773 100644
--- a/src/data_structures/bitmap.rs
+++ b/src/data_structures/bitmap.rs
@@ -33,6 +33,13 @@ impl Bitmap {
             self.data[i] = *d;
         }
 
+        // bits after len don't belong to the map
+        if self.len % 8 > 0 {
+            if let Some(last_byte) = self.data.last_mut() {
+                *last_byte &= !(u8::MAX >> (self.len % 8));
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From dbd59639dbab7051a27ba1c2d5d0b54738881114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 34/70] fix: ignore have message with an index out of bounds

---
 src/torrent_manager.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 5081ce0..24b7d0c 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -284,6 +284,11 @@ impl TorrentManager {
                     .and_modify(|peer_info| peer_info.interested = false);
             }
             ConMessageType::Have(piece_idx) => {
+                if piece_idx as usize >= self.local_data.len() {
+                    warn!("peer has a piece ({}) that doesn't exist", piece_idx);
+                    return;
+                }
+
                 if let Occupied(mut peer_info) = self.active_peers.entry(peer) {
                     let old_have = peer_info.get_mut().haves.change(piece_idx as usize, true);
                     if !old_have {
-- 
2.43.0


From d94a8ed5cce768cf8f7a73a5f248e5dba3baccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 35/70] fix: a request or a cancel of a peer must not stop the
 client

---
 src/torrent_manager.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 24b7d0c..6c4a703 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -299,9 +299,10 @@ impl TorrentManager {
             ConMessageType::Bitfield(bitfield) => {
                 self.accept_bitfield_if_its_first(bitfield.as_ref(), peer)
             }
-            ConMessageType::Request(_) => todo!(),
+            // TODO there's no upload yet and everyone starts choked, so requests can be ignored
+            ConMessageType::Request(request) => debug!(?request),
             ConMessageType::FinishedPiece(_) => todo!(),
-            ConMessageType::Cancel(_) => todo!(),
+            ConMessageType::Cancel(request) => debug!(?request),
         }
     }
 
-- 
2.43.0


From b1a1b4d687dcfc2e9657b1f4af9f21f877d22802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 36/70] fix: store a finished piece instead of panicking

---
 src/torrent_manager.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 6c4a703..6ad2de0 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -1,8 +1,9 @@
 use crate::data_structures::{Bitmap, ID};
-use crate::fs::FS;
+use crate::fs::{Fs, FS};
 use crate::peers::active_peers::{Peers, Status as PeerStatus};
 use crate::peers::connection::connection_handle::Connection;
 use crate::peers::connection::connection_manager::{ConMessageType, ConnectionMessage};
+use crate::peers::connection::pending_pieces::FinishedPiece;
 use crate::peers::peer::Peer;
 use crate::transcoding::metainfo::Torrent;
 use crate::{shutdown, tracker};
@@ -120,7 +121,7 @@ impl TorrentManager {
 
         loop {
             select! {
-                msg = self.connection.recv() => { self.handle_command_tmp(msg) },
+                msg = self.connection.recv() => { self.handle_command_tmp(msg).await },
                 _ = interval.tick() => {
                     self.refresh_peer_list();
                     self.start_downloading_new_pieces().await;
@@ -254,7 +255,7 @@ impl TorrentManager {
         Some(peer)
     }
 
-    fn handle_command_tmp(&mut self, con_msg: ConnectionMessage) {
+    async fn handle_command_tmp(&mut self, con_msg: ConnectionMessage) {
         let ConnectionMessage { message, peer } = con_msg;
 
         match message {
@@ -301,11 +302,29 @@ impl TorrentManager {
             }
             // TODO there's no upload yet and everyone starts choked, so requests can be ignored
             ConMessageType::Request(request) => debug!(?request),
-            ConMessageType::FinishedPiece(_) => todo!(),
+            ConMessageType::FinishedPiece(piece) => self.store_piece(piece).await,
             ConMessageType::Cancel(request) => debug!(?request),
         }
     }
 
+    async fn store_piece(&mut self, piece: FinishedPiece) {
+        let piece_idx = piece.idx;
+
+        match self.fs.write_piece(piece).await {
+            Ok(_) => {
+                self.local_data.change(piece_idx, true);
+            }
+            Err(e) => error!(?e),
+        }
+
+        // if it couldn't be stored, it has to be downloaded again
+        self.active_pieces.change(piece_idx, false);
+
+        for peer_info in self.active_peers.values_mut() {
+            peer_info.working.change(piece_idx, false);
+        }
+    }
+
     fn mark_peer_as_inactive(&mut self, peer: Peer, status: PeerStatus) {
         if let Some(peer_info) = self.active_peers.remove(&peer) {
             self.inactive_peers.push((peer, status));
-- 
2.43.0


From a3e2c7e3b6a4ba0b62076c4e633b60189eabcc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 37/70] fix: count peers that work on a piece and don't assign
 it twice to one peer

---
 src/torrent_manager.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 6ad2de0..b8eb34f 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -182,7 +182,10 @@ impl TorrentManager {
             .or_insert(PeerInfo::new(self.active_pieces.len()));
 
         self.active_pieces.change(piece_idx, true);
-        peer_info.working.change(piece_idx, true);
+
+        if !peer_info.working.change(piece_idx, true) {
+            self.assigned_peer_count[piece_idx] += 1;
+        }
     }
 
     fn select_piece(&mut self) -> Option<(Peer, usize, ID)> {
@@ -249,6 +252,7 @@ impl TorrentManager {
         let (peer, _) = self.active_peers.iter().find(|(_, peer_info)| {
             !peer_info.choking
                 && peer_info.haves.get(piece_idx)
+                && !peer_info.working.get(piece_idx)
                 && peer_info.working.weight() == pieces_per_peer
         })?;
 
@@ -319,6 +323,7 @@ impl TorrentManager {
 
         // if it couldn't be stored, it has to be downloaded again
         self.active_pieces.change(piece_idx, false);
+        self.assigned_peer_count[piece_idx] = 0;
 
         for peer_info in self.active_peers.values_mut() {
             peer_info.working.change(piece_idx, false);
-- 
2.43.0


From 6d3fed0385bb70cc47c6b2cad5423815cf1cfcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 38/70] fix: a piece that nobody can send must not hold up
 others

---
 src/torrent_manager.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index b8eb34f..95b1bd3 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -220,24 +220,24 @@ impl TorrentManager {
     fn sequential_select_piece(&self) -> Option<(Peer, usize)> {
         let iter = self.iter_over_remaining_downloadable_pieces();
 
-        let mut iter_clone = iter.clone();
-
         let mut iteration_count = 0;
         let mut peers_per_piece = 0;
         let mut pieces_per_peer = 0;
 
         loop {
-            let x = iter_clone.find(|(piece_idx, _, _)| {
-                self.assigned_peer_count[*piece_idx] as usize == peers_per_piece
-            });
-
-            if let Some((piece_idx, _, _)) = x {
-                if let Some(peer) = self.find_peer_with_piece(piece_idx, pieces_per_peer) {
-                    break Some((peer.to_owned(), piece_idx));
-                }
+            // first piece may be available only from peers that can't be used, it must not hold up others
+            let x = iter
+                .clone()
+                .filter(|(_, _, assigned_peers)| *assigned_peers as usize == peers_per_piece)
+                .find_map(|(piece_idx, _, _)| {
+                    let peer = self.find_peer_with_piece(piece_idx, pieces_per_peer)?;
+                    Some((peer.to_owned(), piece_idx))
+                });
+
+            if x.is_some() {
+                break x;
             }
 
-            iter_clone = iter.clone();
             iteration_count += 1;
             pieces_per_peer = iteration_count % MAX_PIECE_PER_PEER;
             peers_per_piece = iteration_count / MAX_PIECE_PER_PEER;
-- 
2.43.0


From 5923c52de428b4c1b8a3f4d4717276266014937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 39/70] fix: give pieces of a lost peer to others

---
 src/peers/connection/connection_handle.rs |  4 ++++
 src/peers/connection/pending_pieces.rs    |  4 ++++
 src/torrent_manager.rs                    | 13 +++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 5ed1469..4f6f33e 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -199,6 +199,10 @@ impl Connection {
         Ok(())
     }
 
+    pub fn forget_piece(&mut self, piece_idx: usize) {
+        self.pending_pieces.remove_piece(piece_idx);
+    }
+
     pub async fn choke(&self, yn: bool, peer: Peer) -> Result<()> {
         let message = if yn { Message::Choke } else { Message::Unchoke };
 
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 6200424..0de42c9 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -87,6 +87,10 @@ impl PendingPieces {
         Ok(())
     }
 
+    pub fn remove_piece(&mut self, idx: usize) {
+        self.data.lock().unwrap().remove(&idx);
+    }
+
     pub fn add_block_data(
         &mut self,
         piece_idx: usize,
diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 95b1bd3..15f61ab 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -334,6 +334,8 @@ impl TorrentManager {
         if let Some(peer_info) = self.active_peers.remove(&peer) {
             self.inactive_peers.push((peer, status));
 
+            self.release_pieces(&peer_info.working);
+
             self.frequency_map
                 .iter_mut()
                 .zip(peer_info.haves.iter())
@@ -342,6 +344,17 @@ impl TorrentManager {
         }
     }
 
+    fn release_pieces(&mut self, working: &Bitmap) {
+        for (piece_idx, _) in working.iter().enumerate().filter(|(_, working)| *working) {
+            self.assigned_peer_count[piece_idx] -= 1;
+
+            if self.assigned_peer_count[piece_idx] == 0 {
+                self.active_pieces.change(piece_idx, false);
+                self.connection.forget_piece(piece_idx);
+            }
+        }
+    }
+
     fn accept_bitfield_if_its_first(&mut self, new_data: &[u8], peer: Peer) {
         let Some(peer_info) = self.active_peers.get_mut(&peer) else {
             return;
-- 
2.43.0


From ec4211ff32561b625166a1e41dc092980c9d25a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 40/70] fix: silent peers must not hold up pieces assigned to
 them

---
 src/torrent_manager.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 15f61ab..8f7d547 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -152,7 +152,8 @@ impl TorrentManager {
     }
 
     async fn start_downloading_new_pieces(&mut self) {
-        for _ in 0..(MAX_ACTIVE_PIECES - self.active_pieces.weight()) {
+        // already active pieces are also selected, because peers that work on them might be silent
+        for _ in 0..MAX_ACTIVE_PIECES {
             let Some((peer, piece_idx, piece_hash)) = self.select_piece() else {
                 break;
             };
@@ -206,12 +207,17 @@ impl TorrentManager {
     ) -> impl Iterator<Item = (usize, u16, u8)> + Clone + 'a {
         // for future G with question "did I forget to filter active pieces here?", NO!
         // active pieces can be assigned to other peers... that was why you changed pending pieces
+        let has_free_slot = self.active_pieces.weight() < MAX_ACTIVE_PIECES;
+
         self.local_data
             .iter()
             .enumerate()
             .zip(self.frequency_map.iter())
             .zip(self.assigned_peer_count.iter())
             .filter(|(((_, downloaded), frequency), _)| !(*downloaded) && **frequency > 0)
+            .filter(move |(((piece_idx, _), _), _)| {
+                has_free_slot || self.active_pieces.get(*piece_idx)
+            })
             .map(|(((piece_idx, _), frequency), assigned_peers)| {
                 (piece_idx, *frequency, *assigned_peers)
             })
-- 
2.43.0


From 2cb0d16714afbb6d721a9a06ce673306dd4d29b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 41/70] fix: tell peers that have needed pieces about our
 interest

---
 src/torrent_manager.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 8f7d547..bdfeb48 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -65,6 +65,7 @@ pub struct TorrentManager {
 struct PeerInfo {
     choking: bool,
     interested: bool,
+    told_interested: bool,
     haves: Bitmap,
     working: Bitmap,
 }
@@ -74,6 +75,7 @@ impl PeerInfo {
         Self {
             choking: true,
             interested: false,
+            told_interested: false,
             haves: Bitmap::new(piece_count),
             working: Bitmap::new(piece_count),
         }
@@ -306,9 +308,12 @@ impl TorrentManager {
                         self.frequency_map[piece_idx as usize] += 1;
                     }
                 }
+
+                self.tell_if_interested(peer).await;
             }
             ConMessageType::Bitfield(bitfield) => {
-                self.accept_bitfield_if_its_first(bitfield.as_ref(), peer)
+                self.accept_bitfield_if_its_first(bitfield.as_ref(), peer);
+                self.tell_if_interested(peer).await;
             }
             // TODO there's no upload yet and everyone starts choked, so requests can be ignored
             ConMessageType::Request(request) => debug!(?request),
@@ -350,6 +355,27 @@ impl TorrentManager {
         }
     }
 
+    // nobody unchokes a peer that isn't interested
+    async fn tell_if_interested(&mut self, peer: Peer) {
+        let Some(peer_info) = self.active_peers.get_mut(&peer) else {
+            return;
+        };
+
+        let has_useful_piece = peer_info
+            .haves
+            .iter()
+            .zip(self.local_data.iter())
+            .any(|(peer_has_piece, downloaded)| peer_has_piece && !downloaded);
+
+        if has_useful_piece && !peer_info.told_interested {
+            peer_info.told_interested = true;
+
+            if let Err(e) = self.connection.interested(true, peer).await {
+                warn!(?e);
+            }
+        }
+    }
+
     fn release_pieces(&mut self, working: &Bitmap) {
         for (piece_idx, _) in working.iter().enumerate().filter(|(_, working)| *working) {
             self.assigned_peer_count[piece_idx] -= 1;
-- 
2.43.0


From 689e820e02e98255e251af56b3c904194466f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 42/70] fix: piece is on disk when write_piece returns

---
 src/fs/multi_file_rw.rs  | 3 +++
 src/fs/single_file_rw.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index ed46083..cceaf79 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -130,6 +130,9 @@ async fn write_file_chunk_from_multi_file_piece(
         }
     }
 
+    // tokio writes in the background, result of the last write is known only after flush
+    file.flush().await?;
+
     Ok(())
 }
 
diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 782fc41..3d31f3b 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -76,6 +76,9 @@ impl SingleFileRw {
             file.write_all(&block).await?;
         }
 
+        // tokio writes in the background, result of the last write is known only after flush
+        file.flush().await?;
+
         Ok(())
     }
 
@@ -105,6 +108,8 @@ impl SingleFileRw {
             remaining_bytes -= bytes_to_write;
         }
 
+        file.flush().await?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 0343895f889526734079188b1c96e9e7c56064d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 43/70] fix: last piece of full length wasn't written

---
 src/fs/single_file_rw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 3d31f3b..318b827 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -88,7 +88,7 @@ impl SingleFileRw {
         let file = self.files.get_write(&self.torrent_name).await?;
         file.seek(SeekFrom::Start(start as u64)).await?;
 
-        let mut remaining_bytes = (self.info.length() % self.info.piece_length) as usize;
+        let mut remaining_bytes = self.info.length() as usize - start;
         let mut block_iter = piece.data.iter();
 
         while remaining_bytes > 0 {
@@ -99,7 +99,7 @@ impl SingleFileRw {
                     "last piece (idx={}) has less data ({} blocks) than expected ({} bytes)",
                     piece.idx,
                     piece.data.len(),
-                    self.info.length() % self.info.piece_length
+                    self.info.length() as usize - start
                 );
             };
 
-- 
2.43.0


From bd79eaecde746f0d6fe1c2e42b3ab66fabdf2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 44/70] fix: don't fail on pieces that touch an empty file

---
 src/fs/multi_file_rw.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index cceaf79..48d651e 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -98,9 +98,15 @@ async fn write_file_chunk_from_multi_file_piece(
     start_within_piece: usize,
     end_within_piece: usize,
 ) -> Result<()> {
+    let length = end_within_piece - start_within_piece;
+
+    // empty file, it just has to exist
+    if length == 0 {
+        return Ok(());
+    }
+
     file.seek(SeekFrom::Start(start_within_file as u64)).await?;
 
-    let length = end_within_piece - start_within_piece;
     let start_within_block = start_within_piece % BLOCK_SIZE;
     let end_within_block = if end_within_piece % BLOCK_SIZE == 0 {
         BLOCK_SIZE // 0 means full block because it ends at BLOCK_SIZE
-- 
2.43.0


From 008e04054722889ce71714b9b9a28a48a6331fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 45/70] fix: create empty files of a torrent even if no piece
 touches them

---
 src/fs/multi_file_rw.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index 48d651e..a2776fc 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -25,9 +25,18 @@ impl MultiFileRw {
             .await
             .unwrap();
 
+        let torrent_name = format!("{}/{}", base_dir, &info.name);
+        let mut cache = FileCache::new();
+
+        // piece doesn't have to touch an empty file, so it might never be created otherwise
+        for file in files.iter().filter(|file| file.length == 0) {
+            let path = format!("{}/{}", torrent_name, file.path.join("/"));
+            cache.get_write(&path).await.unwrap();
+        }
+
         Self {
-            torrent_name: format!("{}/{}", base_dir, &info.name),
-            files: FileCache::new(),
+            torrent_name,
+            files: cache,
             info,
             file_infos: files,
         }
-- 
2.43.0


From 938c0a13eeaa7dfbd7dc0b93fcaab2ac086d5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 46/70] fix: report blocks and pieces that are out of bounds

---
 src/fs/multi_file_rw.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index a2776fc..c300f27 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -56,6 +56,10 @@ impl Fs for MultiFileRw {
         let block_start = piece_start + begin;
         let block_end = block_start + length;
 
+        if block_end > self.info.length() as usize {
+            bail!("block {}..{} is out of bounds", block_start, block_end);
+        }
+
         for file_info in FilesInBounds::new(&self.file_infos, block_start, block_end) {
             let file_in_block =
                 &mut buf[file_info.start_within_iter_bounds..file_info.end_within_iter_bounds];
@@ -75,6 +79,10 @@ impl Fs for MultiFileRw {
     }
 
     async fn write_piece(&mut self, piece: FinishedPiece) -> Result<()> {
+        if piece.idx >= self.info.pieces.len() {
+            bail!("piece {} is out of bounds", piece.idx);
+        }
+
         let Self {
             files, file_infos, ..
         } = self;
-- 
2.43.0


From dcf824fbd3ef72b6539ededf8fd4ed858fc6417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 47/70] fix: start with directories that exist already and
 never remove them

---
 src/fs/multi_file_rw.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index c300f27..af5e2c8 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -163,7 +163,7 @@ mod dir_builder {
     use crate::transcoding::metainfo;
     use anyhow::{bail, Result};
     use std::collections::HashSet;
-    use tokio::fs::{remove_dir_all, DirBuilder};
+    use tokio::fs::{metadata, remove_dir_all, DirBuilder};
 
     pub async fn build_dir_tree(
         base_dir: &str,
@@ -180,11 +180,17 @@ mod dir_builder {
     async fn create_dirs(working_dir: &str, dirs: &[String]) -> Result<()> {
         let mut builder = DirBuilder::new();
 
-        builder.recursive(false).create(working_dir).await?;
+        // data that is already there (i.e. client was restarted) is not ours to remove
+        let already_exists = metadata(working_dir).await.is_ok();
+
+        builder.recursive(true).create(working_dir).await?;
 
         for dir in dirs.iter() {
-            if let Err(e) = builder.recursive(false).create(dir).await {
-                remove_dir_all(working_dir).await?;
+            if let Err(e) = builder.recursive(true).create(dir).await {
+                if !already_exists {
+                    remove_dir_all(working_dir).await?;
+                }
+
                 bail!(e);
             }
         }
-- 
2.43.0


From e5813283cc122ec6a1cd735da930348b1779fd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 48/70] fix: refuse torrents whose names lead out of their
 directory

---
 src/transcoding/metainfo.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 9b7fa6b..f0219ab 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -234,6 +234,21 @@ impl Info {
             Mode::Multi { files } => files.iter().map(|file| file.length).sum(),
         }
     }
+
+    fn stays_within_base_dir(&self) -> bool {
+        let has_valid_paths = match &self.mode {
+            Mode::Single { .. } => true,
+            Mode::Multi { files } => files.iter().all(|file| {
+                !file.path.is_empty() && file.path.iter().all(|part| is_path_component(part))
+            }),
+        };
+
+        is_path_component(&self.name) && has_valid_paths
+    }
+}
+
+fn is_path_component(s: &str) -> bool {
+    !s.is_empty() && s != "." && s != ".." && !s.contains(['/', '\0'])
 }
 
 impl TrackerAddr {
@@ -340,12 +355,23 @@ impl FromBencode for Info {
             }
         }
 
-        Ok(Info {
+        let info = Info {
             piece_length: ok_or_missing_field!(piece_length)?,
             pieces: ok_or_missing_field!(pieces)?,
             name: ok_or_missing_field!(name)?,
             mode: ok_or_missing_field!(mode, "length or files")?,
-        })
+        };
+
+        if !info.stays_within_base_dir() {
+            return Err(bendy::decoding::Error::malformed_content(
+                std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "name and paths of a torrent must stay within its directory",
+                ),
+            ));
+        }
+
+        Ok(info)
     }
 }
 
-- 
2.43.0


From 140a81434869ed2f1629add8bd956fec5499be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 49/70] fix: refuse torrents whose number of pieces doesn't
 match their length

---
 src/transcoding/metainfo.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index f0219ab..56622a3 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -235,6 +235,24 @@ impl Info {
         }
     }
 
+    fn has_consistent_lengths(&self) -> bool {
+        let length = match &self.mode {
+            Mode::Single { length } => Some(*length),
+            Mode::Multi { files } => files
+                .iter()
+                .try_fold(0u64, |sum, file| sum.checked_add(file.length)),
+        };
+
+        // everything that can be indexed by a piece and a block within it has to fit in usize
+        let pieces_end = self.piece_length.checked_mul(self.pieces.len() as u64);
+
+        let (Some(length), Some(pieces_end)) = (length, pieces_end) else {
+            return false;
+        };
+
+        length <= pieces_end && pieces_end - length < self.piece_length
+    }
+
     fn stays_within_base_dir(&self) -> bool {
         let has_valid_paths = match &self.mode {
             Mode::Single { .. } => true,
@@ -371,6 +389,15 @@ impl FromBencode for Info {
             ));
         }
 
+        if !info.has_consistent_lengths() {
+            return Err(bendy::decoding::Error::malformed_content(
+                std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "number of pieces doesn't match length of the data",
+                ),
+            ));
+        }
+
         Ok(info)
     }
 }
-- 
2.43.0


From 4368589696fe1c3cc34414e3e4fe8db7c65b5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 50/70] fix: announce to a tracker whose url already has a
 query

---
 src/tracker/announce.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tracker/announce.rs b/src/tracker/announce.rs
index 74e4e62..e9c5776 100644
--- a/src/tracker/announce.rs
+++ b/src/tracker/announce.rs
@@ -25,7 +25,10 @@ impl Announce {
     pub fn as_url(&self) -> String {
         let mut s = self.tracker_url.clone();
 
-        s.push_str("?info_hash=");
+        // url may already have a query (i.e. passkey of a private tracker)
+        s.push(if s.contains('?') { '&' } else { '?' });
+
+        s.push_str("info_hash=");
         s.push_str(urlencoding::encode_binary(self.info_hash.as_byte_ref()).as_ref());
 
         s.push_str("&peer_id=");
-- 
2.43.0


From a4ad4ad8354e1272d0e0f0f86024426eb8f397a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 51/70] fix: encode tracker id

---
 src/tracker/announce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/announce.rs b/src/tracker/announce.rs
index e9c5776..0743037 100644
--- a/src/tracker/announce.rs
+++ b/src/tracker/announce.rs
@@ -65,7 +65,7 @@ impl Announce {
 
         if let Some(tracker_id) = &self.tracker_id {
             s.push_str("&trackerid=");
-            s.push_str(tracker_id);
+            s.push_str(urlencoding::encode(tracker_id).as_ref());
         }
 
         s
-- 
2.43.0


From c1fa98fd319269fa1f358221a6aff66932a5a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 52/70] fix: don't ignore peers of a tracker that doesn't count
 them

---
 src/tracker/response.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tracker/response.rs b/src/tracker/response.rs
index 81105c8..1da1367 100644
--- a/src/tracker/response.rs
+++ b/src/tracker/response.rs
@@ -79,8 +79,9 @@ impl FromBencode for Response {
             interval: ok_or_missing_field!(interval)?,
             min_interval,
             tracker_id,
-            complete: ok_or_missing_field!(complete)?,
-            incomplete: ok_or_missing_field!(incomplete)?,
+            // some trackers don't send these, it's not a reason to ignore their peers
+            complete: complete.unwrap_or(0),
+            incomplete: incomplete.unwrap_or(0),
             peers: ok_or_missing_field!(peers)?,
         })
     }
-- 
2.43.0


From 1329f608f1d8a0341208df0150bda59e980894f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 53/70] verif hook: base directory of a torrent and bytes of a
 handshake

---
 src/peers/connection/handshake.rs | 10 ++++++++++
 src/torrent_manager.rs            | 26 +++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index 8578521..16ccf62 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -84,6 +84,16 @@ impl Handshake {
     }
 }
 
+#[cfg(nargun_verif)]
+pub mod verif {
+    use super::Handshake;
+    use crate::data_structures::ID;
+
+    pub fn bytes(info_hash: &ID, peer_id: &ID) -> Vec<u8> {
+        Handshake::new(info_hash, peer_id).as_ref().to_vec()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{Handshake, HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL, PSTR, PSTRLEN};
diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index bdfeb48..88bca72 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -92,6 +92,11 @@ impl TorrentManager {
         tokio::spawn(async move {
             // let metainfo = Arc::new(metainfo);
             // let x = metainfo.borrow();
+            #[cfg(not(nargun_verif))]
+            let base_dir = "/home/gvelesa/rust/narpath";
+            #[cfg(nargun_verif)]
+            let base_dir = &verif::base_dir(&metainfo.info_hash);
+
             Self {
                 connection: Connection::new(
                     own_peer_id,
@@ -100,7 +105,7 @@ impl TorrentManager {
                     metainfo.info.length() as usize,
                     dht_tx,
                 ),
-                fs: FS::new("/home/gvelesa/rust/narpath", metainfo.info.to_owned()).await,
+                fs: FS::new(base_dir, metainfo.info.to_owned()).await,
                 active_peers: HashMap::with_capacity(MAX_ACTIVE_PEERS),
                 inactive_peers: Vec::with_capacity(MAX_ACTIVE_PEERS),
                 peers,
@@ -412,3 +417,22 @@ impl TorrentManager {
         }
     }
 }
+
+#[cfg(nargun_verif)]
+pub mod verif {
+    use crate::data_structures::ID;
+    use std::collections::HashMap;
+    use std::sync::Mutex;
+
+    // directory that is used instead of the hard-coded one, one for each torrent
+    pub static BASE_DIRS: Mutex<Option<HashMap<ID, String>>> = Mutex::new(None);
+
+    pub fn base_dir(info_hash: &ID) -> String {
+        BASE_DIRS
+            .lock()
+            .unwrap()
+            .as_ref()
+            .and_then(|dirs| dirs.get(info_hash).cloned())
+            .expect("harness must set a base directory")
+    }
+}
-- 
2.43.0


From c9fe26c7d235a9b8249641648ed1e94cd84eb986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 54/70] fix: requests aren't sent to a peer that is choking

---
 src/peers/connection/connection_handle.rs | 43 ++++++++---------------
 src/peers/connection/downloader.rs        | 11 ++++++
 src/peers/connection/pending_pieces.rs    |  2 --
 3 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 4f6f33e..ac9518a 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -12,7 +12,7 @@ use std::collections::{
 };
 use std::net::SocketAddrV4;
 use std::sync::Arc;
-use tokio::sync::mpsc;
+use tokio::sync::{mpsc, watch};
 
 const MESSAGE_CHANNEL_BUFFER: usize = 1 << 5;
 
@@ -34,52 +34,39 @@ struct PeerConnection {
 }
 
 fn choke_lock() -> (ChokeLocker, UnchokeWaiter) {
-    let (tx, rx) = mpsc::channel(1 << 4);
+    // everyone starts choked
+    let (tx, rx) = watch::channel(true);
 
-    (ChokeLocker { tx }, UnchokeWaiter { rx, choking: true })
-}
-
-enum ChokingStatus {
-    Choke,
-    Unchoke,
+    (ChokeLocker { tx }, UnchokeWaiter { rx })
 }
 
 struct ChokeLocker {
-    tx: mpsc::Sender<ChokingStatus>,
+    tx: watch::Sender<bool>,
 }
 
 impl ChokeLocker {
     fn choke(&self) {
-        self.tx.send(ChokingStatus::Choke);
+        let _ = self.tx.send(true);
     }
 
     fn unchoke(&self) {
-        self.tx.send(ChokingStatus::Unchoke);
+        let _ = self.tx.send(false);
     }
 }
 
 pub struct UnchokeWaiter {
-    rx: mpsc::Receiver<ChokingStatus>,
-    choking: bool,
+    rx: watch::Receiver<bool>,
 }
 
 impl UnchokeWaiter {
-    pub async fn wait_if_choking(&mut self) {
-        loop {
-            while self.choking {
-                match self.rx.recv().await.unwrap() {
-                    ChokingStatus::Choke => self.choking = true,
-                    ChokingStatus::Unchoke => self.choking = false,
-                }
-            }
+    pub fn is_choking(&self) -> bool {
+        *self.rx.borrow()
+    }
 
-            match self.rx.try_recv() {
-                Ok(m) => match m {
-                    ChokingStatus::Choke => self.choking = true,
-                    ChokingStatus::Unchoke => self.choking = false,
-                },
-                Err(_) => break,
-            }
+    pub async fn wait_for_change(&mut self) {
+        if self.rx.changed().await.is_err() {
+            // disconnected, it can't change anymore
+            std::future::pending().await
         }
     }
 }
diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index dd13bd8..9821461 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -106,10 +106,21 @@ async fn manage_piece_downloader(
                     None => return,
                 }
             },
+            _ = unchoke_waiter.wait_for_change() => { you_dont_need_to_lock_that_mutex_every_time_counter = 0 },
             // nothing else wakes this up if requests that are already sent are never answered
             _ = refresh_interval.tick() => { you_dont_need_to_lock_that_mutex_every_time_counter = 0 },
         };
 
+        // nobody answers requests of a choked peer. ones that are already sent are forgotten on the other side
+        if unchoke_waiter.is_choking() {
+            if !current_blocks.is_empty() {
+                pending_pieces.cancel_pending(&peer);
+                current_blocks.clear();
+            }
+
+            continue;
+        }
+
         if current_blocks.is_empty()
             || you_dont_need_to_lock_that_mutex_every_time_counter % (ACTIVE_BLOCKS_PER_PEER / 3) == 0
         {
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 0de42c9..4b55a92 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -129,8 +129,6 @@ impl PendingPieces {
         }
     }
 
-    // TODO this should be used, you probably forgot it. remove this # when you find its place.
-    #[allow(dead_code)]
     pub fn cancel_pending(&mut self, from: &Peer) {
         let mut data = self.data.lock().unwrap();
 
-- 
2.43.0


From a4c1e9319de457ea0d909f590eddf11a0b9f27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 55/70] fix: idle connections are kept alive

---
 src/peers/connection/connection_handle.rs  | 7 ++++++-
 src/peers/connection/connection_manager.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index ac9518a..fabdf4b 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -1,4 +1,6 @@
-use super::connection_manager::{spawn_connection_manager, ConMessageType, ConnectionMessage};
+use super::connection_manager::{
+    keep_alive_sender, spawn_connection_manager, ConMessageType, ConnectionMessage,
+};
 use super::downloader::{spawn_piece_downloader, PeerManagerCommand};
 use super::message::{Message, Piece, Request};
 use super::pending_pieces::PendingPieces;
@@ -113,6 +115,9 @@ impl Connection {
             }
         }
 
+        // peers drop connections that are silent for too long
+        tokio::spawn(keep_alive_sender(send_tx.clone()));
+
         spawn_connection_manager(
             self.own_peer_id,
             peer,
diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index d061d99..6f71f64 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -235,7 +235,7 @@ impl TryFrom<Message> for ConMessageType {
     }
 }
 
-async fn _keep_alive_sender(conn_send_tx: mpsc::Sender<Message>) {
+pub async fn keep_alive_sender(conn_send_tx: mpsc::Sender<Message>) {
     let mut interval = interval(Duration::from_secs(KEEP_ALIVE_INTERVAL_SECS));
     interval.tick().await;
 
-- 
2.43.0


From 5c5d19620cf9e418d7ef40fe2fb403912f85900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 56/70] fix: refresh the routing table while messages keep
 coming

---
 src/capped_growing_interval.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/capped_growing_interval.rs b/src/capped_growing_interval.rs
index 3ec3e89..c628741 100644
--- a/src/capped_growing_interval.rs
+++ b/src/capped_growing_interval.rs
@@ -1,9 +1,10 @@
 use std::time::Duration;
-use tokio::time::sleep;
+use tokio::time::{sleep_until, Instant};
 pub struct CappedGrowingInterval {
     growth_formula: fn(f64) -> f64,
     iter_count: usize,
     max: f64,
+    next_tick: Option<Instant>,
 }
 
 impl CappedGrowingInterval {
@@ -12,6 +13,7 @@ impl CappedGrowingInterval {
             growth_formula,
             iter_count: 0,
             max,
+            next_tick: None,
         }
     }
 
@@ -21,7 +23,14 @@ impl CappedGrowingInterval {
             .min_by(|a, b| a.partial_cmp(b).unwrap())
             .unwrap();
 
-        sleep(Duration::from_secs_f64(sleep_duration)).await;
+        // this is a branch of select!, it must go on after other branches, not start all over
+        let next_tick = *self
+            .next_tick
+            .get_or_insert_with(|| Instant::now() + Duration::from_secs_f64(sleep_duration));
+
+        sleep_until(next_tick).await;
+
+        self.next_tick = None;
 
         self.iter_count += 1;
     }
-- 
2.43.0


From 67342d4affbea7e867133858b91b66f1bd603280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 57/70] fix: keep in touch with nodes that weren't heard of for
 a while

---
 src/dht/dht_manager.rs          | 6 ++++++
 src/dht/routing_table/bucket.rs | 7 +++++++
 src/dht/routing_table/table.rs  | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/src/dht/dht_manager.rs b/src/dht/dht_manager.rs
index ff44994..736e103 100644
--- a/src/dht/dht_manager.rs
+++ b/src/dht/dht_manager.rs
@@ -94,6 +94,12 @@ async fn refresh_table(
                 .await?;
         }
     }
+
+    // they might still be alive. if nobody asks, sooner or later there are no good nodes to work with
+    for node in routing_table.iter_not_good_nodes() {
+        connection.send_ping(node.addr).await?;
+    }
+
     Ok(())
 }
 
diff --git a/src/dht/routing_table/bucket.rs b/src/dht/routing_table/bucket.rs
index 0c07f93..bd62ea0 100644
--- a/src/dht/routing_table/bucket.rs
+++ b/src/dht/routing_table/bucket.rs
@@ -114,6 +114,13 @@ impl Bucket {
         self.data.iter().filter_map(Node::is_some_and_good)
     }
 
+    pub fn iter_over_not_goods(&self) -> impl Iterator<Item = &Node> {
+        self.data
+            .iter()
+            .filter(|node| Node::is_some_and_good(node).is_none())
+            .flatten()
+    }
+
     pub fn id_within_bucket_range(&self, own_id: &ID, id: &ID) -> bool {
         match own_id.first_diff_bit_idx(id) {
             None => true,
diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 024c327..cdcc5c7 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -95,6 +95,12 @@ impl RoutingTable {
         self.data.iter().flat_map(|bucket| bucket.iter_nodes())
     }
 
+    pub fn iter_not_good_nodes(&self) -> impl Iterator<Item = &Node> {
+        self.data
+            .iter()
+            .flat_map(|bucket| bucket.iter_over_not_goods())
+    }
+
     pub fn count_good_nodes(&self) -> usize {
         self.data
             .iter()
-- 
2.43.0


From d25b05e558328f4fa946e82abfc34a4bbdb0d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 58/70] fix: don't depend on the node that peer fetcher started
 with

---
 src/dht/dht_manager.rs  | 16 ++++++++++++++--
 src/dht/peer_fetcher.rs | 22 +++++++++++++++++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/dht/dht_manager.rs b/src/dht/dht_manager.rs
index 736e103..2e8587c 100644
--- a/src/dht/dht_manager.rs
+++ b/src/dht/dht_manager.rs
@@ -17,7 +17,10 @@ use std::{
     collections::{HashMap, HashSet},
     net::SocketAddrV4,
 };
-use tokio::{select, sync::mpsc};
+use tokio::{
+    select,
+    sync::{mpsc, watch},
+};
 use tracing::{instrument, warn};
 
 type PeerMap = HashMap<ID, HashSet<Peer>>;
@@ -47,6 +50,7 @@ pub async fn dht(
         CappedGrowingInterval::new(MAX_SECS_INTERVAL_BETWEEN_NODE_REFRESH, INTERVAL_GROWTH);
 
     let mut spawn_peer_fetcher_when_at_least_one_node_is_good = true;
+    let (closest_nodes_tx, closest_nodes_rx) = watch::channel(Vec::new());
 
     loop {
         select! {
@@ -54,7 +58,14 @@ pub async fn dht(
                 routing_table.store().await;
                 return Ok(());
             }
-            _ = refresh_table_interval.tick() => { refresh_table(&routing_table, &connection).await? }
+            _ = refresh_table_interval.tick() => {
+                refresh_table(&routing_table, &connection).await?;
+
+                // nodes that fetcher started with might be gone
+                closest_nodes_tx.send_replace(
+                    routing_table.get_closest_nodes(&info_hash).unwrap_or_default(),
+                );
+            }
             addr = peer_with_dht.recv() => {
                 let addr = addr.ok_or(anyhow!("peer receiver failed"))?;
                 connection.send_ping(addr).await?;
@@ -75,6 +86,7 @@ pub async fn dht(
                 peers.clone(),
                 &routing_table,
                 &connection,
+                closest_nodes_rx.clone(),
             )
             .is_ok()
         {
diff --git a/src/dht/peer_fetcher.rs b/src/dht/peer_fetcher.rs
index 9b11eeb..c450afd 100644
--- a/src/dht/peer_fetcher.rs
+++ b/src/dht/peer_fetcher.rs
@@ -15,7 +15,7 @@ use std::{
     net::SocketAddrV4,
     time::Duration,
 };
-use tokio::time::sleep;
+use tokio::{sync::watch, time::sleep};
 use tracing::{error, warn};
 
 const MAX_SECS_INTERVAL_BETWEEN_PEER_FETCHES: f64 = 120.0;
@@ -33,6 +33,7 @@ pub fn spawn_fetcher(
     peers: Peers,
     routing_table: &RoutingTable,
     connection: &Connection,
+    closest_nodes: watch::Receiver<Vec<Node>>,
 ) -> anyhow::Result<()> {
     let Some(nodes) = routing_table.get_closest_nodes(&info_hash) else {
         bail!("trying to spawn fetcher without nodes routing table");
@@ -41,8 +42,15 @@ pub fn spawn_fetcher(
     let querying_connection = connection.get_querying_connection();
 
     tokio::spawn(async move {
-        if let Err(e) =
-            periodically_fetch_peers(info_hash, tcp_port, nodes, querying_connection, peers).await
+        if let Err(e) = periodically_fetch_peers(
+            info_hash,
+            tcp_port,
+            nodes,
+            querying_connection,
+            peers,
+            closest_nodes,
+        )
+        .await
         {
             error!(?e);
         }
@@ -57,6 +65,7 @@ async fn periodically_fetch_peers(
     nodes: Vec<Node>,
     mut connection: QueryingConnection,
     mut peers: Peers,
+    closest_nodes: watch::Receiver<Vec<Node>>,
 ) -> Result<(), ConError> {
     let mut nodes: NodeMap = nodes
         .into_iter()
@@ -68,6 +77,13 @@ async fn periodically_fetch_peers(
 
     loop {
         interval.tick().await;
+
+        for node in closest_nodes.borrow().iter() {
+            nodes
+                .entry(node.addr)
+                .or_insert(NodeCloseToInfoHash::Unknown(node.id));
+        }
+
         fetch_peers(&info_hash, &mut nodes, &mut connection, &mut peers).await?;
         announce_peer(port, info_hash, &nodes, &mut connection).await?;
     }
-- 
2.43.0


From 6e3bd71b1a4700b38e2f6ada4e3a1e32e0e0fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 59/70] fix: tell trackers about downloaded pieces and
 completion

---
 src/torrent_manager.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 88bca72..bf5146e 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -10,7 +10,7 @@ use crate::{shutdown, tracker};
 use std::collections::hash_map::Entry::Occupied;
 use std::collections::HashMap;
 use std::net::SocketAddrV4;
-use std::sync::atomic::AtomicU64;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::broadcast;
@@ -36,13 +36,20 @@ pub fn start_client(
         &torrent,
         &own_peer_id,
         &peers,
-        pieces_downloaded,
+        pieces_downloaded.clone(),
         tx,
         tcp_port,
         shutdown_rx,
     );
 
-    TorrentManager::spawn(torrent, own_peer_id, peers, dht_tx);
+    TorrentManager::spawn(
+        torrent,
+        own_peer_id,
+        peers,
+        dht_tx,
+        pieces_downloaded,
+        tx.clone(),
+    );
 }
 
 // TODO ideally this must have its own Torrent with its peers and shit. Currently, my dht assumes just one torrent.
@@ -60,6 +67,8 @@ pub struct TorrentManager {
     active_pieces: Bitmap,
     frequency_map: Vec<u16>,
     assigned_peer_count: Vec<u8>,
+    pieces_downloaded: Arc<AtomicU64>,
+    download_completed_tx: broadcast::Sender<()>,
 }
 
 struct PeerInfo {
@@ -88,6 +97,8 @@ impl TorrentManager {
         own_peer_id: ID,
         peers: Peers,
         dht_tx: mpsc::Sender<SocketAddrV4>,
+        pieces_downloaded: Arc<AtomicU64>,
+        download_completed_tx: broadcast::Sender<()>,
     ) {
         tokio::spawn(async move {
             // let metainfo = Arc::new(metainfo);
@@ -114,6 +125,8 @@ impl TorrentManager {
                 active_pieces: Bitmap::new(metainfo.count_pieces()),
                 frequency_map: vec![0; metainfo.count_pieces()],
                 assigned_peer_count: vec![0; metainfo.count_pieces()],
+                pieces_downloaded,
+                download_completed_tx,
                 metainfo,
             }
             .manage()
@@ -331,9 +344,7 @@ impl TorrentManager {
         let piece_idx = piece.idx;
 
         match self.fs.write_piece(piece).await {
-            Ok(_) => {
-                self.local_data.change(piece_idx, true);
-            }
+            Ok(_) => self.mark_piece_as_downloaded(piece_idx),
             Err(e) => error!(?e),
         }
 
@@ -346,6 +357,20 @@ impl TorrentManager {
         }
     }
 
+    fn mark_piece_as_downloaded(&mut self, piece_idx: usize) {
+        if self.local_data.change(piece_idx, true) {
+            return;
+        }
+
+        // trackers are told about it
+        self.pieces_downloaded.fetch_add(1, Ordering::Relaxed);
+
+        if self.local_data.weight() == self.local_data.len() {
+            // there may be no http tracker that listens
+            let _ = self.download_completed_tx.send(());
+        }
+    }
+
     fn mark_peer_as_inactive(&mut self, peer: Peer, status: PeerStatus) {
         if let Some(peer_info) = self.active_peers.remove(&peer) {
             self.inactive_peers.push((peer, status));
-- 
2.43.0


From 91f426ecd837bfe543c8c16969915db302884125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 60/70] fix: a silent peer doesn't take its expired requests
 again before others get to them

---
 src/peers/connection/pending_pieces.rs | 57 ++++++++++++++++++++------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 4b55a92..b7465cf 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -15,12 +15,14 @@ use super::downloader::BlockAddress;
 
 const MAX_PIECES_DOWNLOADING: usize = 10;
 const MAINLINE_TCP_REQUEST_TIMEOUT_SECS: u64 = 7;
+const SILENT_PEER_PENALTY_SECS: u64 = 3;
 
 #[derive(Clone)]
 pub struct PendingPieces {
     piece_length: usize,
     total_length: usize,
     copy_owner: Option<Peer>,
+    is_owner_silent: bool,
     data: Arc<StdMutex<HashMap<usize, Piece>>>,
 }
 
@@ -61,6 +63,7 @@ impl PendingPieces {
             piece_length,
             total_length,
             copy_owner: None,
+            is_owner_silent: false,
             data: Arc::new(StdMutex::new(HashMap::with_capacity(
                 MAX_PIECES_DOWNLOADING,
             ))),
@@ -109,6 +112,8 @@ impl PendingPieces {
             return AddBlockRes::Failed;
         };
 
+        self.is_owner_silent = false;
+
         let block = &mut piece.data[block_idx];
 
         // same block may be delivered by more than one peer (requests expire), it counts only once
@@ -146,10 +151,11 @@ impl PendingPieces {
         pieces.shuffle(&mut rng);
 
         let filters = [
-            |block: &Block| block.is(&Block::Unbegun),
-            |block: &Block| block.is_expired_pending(),
+            |block: &Block, _: Duration| block.is(&Block::Unbegun),
+            |block: &Block, timeout: Duration| block.is_expired_pending(timeout),
         ];
 
+        let timeout = self.request_timeout();
         let mut data = self.data.lock().unwrap();
 
         let now = Instant::now();
@@ -158,7 +164,8 @@ impl PendingPieces {
             let free_slots = block_buf.capacity() - block_buf.len();
 
             for (block, block_address) in
-                Self::filtered_iter_over_blocks(&pieces, &mut data, filter).take(free_slots)
+                Self::filtered_iter_over_blocks(&pieces, &mut data, filter, timeout)
+                    .take(free_slots)
             {
                 *block = Block::Pending(PendingBlockDesc {
                     target: self.copy_owner.unwrap(), // TODO wtf is this? NO!
@@ -175,23 +182,47 @@ impl PendingPieces {
     }
 
     // removes blocks that timed out, were downloaded from another peer or whose piece is already finished
-    pub fn retain_awaited_blocks(&self, block_buf: &mut Vec<BlockAddress>) {
+    pub fn retain_awaited_blocks(&mut self, block_buf: &mut Vec<BlockAddress>) {
+        let owner = self.copy_owner.unwrap();
         let data = self.data.lock().unwrap();
 
-        block_buf.retain(|address| {
+        let awaited_block = |address: &BlockAddress| {
             data.get(&address.piece_idx)
                 .and_then(|piece| piece.data.get(address.block_idx))
-                .map_or(false, |block| {
-                    block.is_expected_from(&self.copy_owner.unwrap())
-                        && !block.is_expired_pending()
-                })
+                .filter(|block| block.is_expected_from(&owner))
+        };
+
+        let request_timeout = Duration::from_secs(MAINLINE_TCP_REQUEST_TIMEOUT_SECS);
+
+        self.is_owner_silent |= block_buf
+            .iter()
+            .filter_map(awaited_block)
+            .any(|block| block.is_expired_pending(request_timeout));
+
+        let timeout = self.request_timeout();
+
+        block_buf.retain(|address| {
+            awaited_block(address).map_or(false, |block| !block.is_expired_pending(timeout))
         });
     }
 
+    // refreshes of downloaders that were started together always happen together and in the same order.
+    // without a penalty, peer that doesn't answer could take the same blocks again and again before others get to it
+    fn request_timeout(&self) -> Duration {
+        let penalty = if self.is_owner_silent {
+            SILENT_PEER_PENALTY_SECS
+        } else {
+            0
+        };
+
+        Duration::from_secs(MAINLINE_TCP_REQUEST_TIMEOUT_SECS + penalty)
+    }
+
     fn filtered_iter_over_blocks<'a>(
         piece_indexes: &'a [usize],
         data: &'a mut HashMap<usize, Piece>,
-        filter_closure: fn(&Block) -> bool,
+        filter_closure: fn(&Block, Duration) -> bool,
+        timeout: Duration,
     ) -> impl Iterator<Item = (&'a mut Block, BlockAddress)> + 'a {
         data.iter_mut()
             .filter_map(move |(piece_idx, piece)| {
@@ -205,7 +236,7 @@ impl PendingPieces {
                         .filter_map(move |(block_idx, block)| {
                             let length = length_of_block(piece_length, block_idx);
 
-                            filter_closure(block).then_some((
+                            filter_closure(block, timeout).then_some((
                                 block,
                                 BlockAddress::new(*piece_idx, block_idx, length),
                             ))
@@ -281,12 +312,12 @@ impl Block {
         matches!(self, Self::Downloaded(_))
     }
 
-    fn is_expired_pending(&self) -> bool {
+    fn is_expired_pending(&self, timeout: Duration) -> bool {
         let Self::Pending(description) = self else {
             return false;
         };
 
-        description.time_sent.elapsed() > Duration::from_secs(MAINLINE_TCP_REQUEST_TIMEOUT_SECS)
+        description.time_sent.elapsed() > timeout
     }
 
     fn is_expected_from(&self, target: &Peer) -> bool {
-- 
2.43.0


From 0eaabbd0cd1eb2e70543c1b6e87c694c907cef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 61/70] verif hook: base directory of the program

---
 src/torrent_manager.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index bf5146e..0b14b74 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -458,6 +458,7 @@ pub mod verif {
             .unwrap()
             .as_ref()
             .and_then(|dirs| dirs.get(info_hash).cloned())
+            .or_else(|| std::env::var("NARGUN_VERIF_DIR").ok())
             .expect("harness must set a base directory")
     }
 }
-- 
2.43.0


From c01567531f5d334e4dfe0c770a6b6ba79923aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 62/70] fix: refuse KRPC messages whose type contradicts their
 fields

---
 src/dht/krpc_message.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/dht/krpc_message.rs b/src/dht/krpc_message.rs
index 46c9c8d..2bdbeba 100644
--- a/src/dht/krpc_message.rs
+++ b/src/dht/krpc_message.rs
@@ -121,7 +121,20 @@ impl Message {
     pub fn from_bytes(buf: &[u8]) -> Result<Self> {
         Self::check_nesting_depth(buf)?;
 
-        bendy::serde::from_bytes::<Self>(buf).map_err(|e| anyhow!("{}", e))
+        let message = bendy::serde::from_bytes::<Self>(buf).map_err(|e| anyhow!("{}", e))?;
+        message.check_type()?;
+
+        Ok(message)
+    }
+
+    // variants are told apart by their fields, the declared type has to agree
+    fn check_type(&self) -> Result<()> {
+        match self {
+            Message::Query { msg_type, .. } if msg_type.0 == b'q' => Ok(()),
+            Message::Response { msg_type, .. } if msg_type.0 == b'r' => Ok(()),
+            Message::Error { msg_type, .. } if msg_type.0 == b'e' => Ok(()),
+            _ => Err(anyhow!("type of the message contradicts its fields")),
+        }
     }
 
     // deserialization is recursive, a deeply nested datagram would overflow the stack
-- 
2.43.0


From 00e66dec59dfed5624ebbc830ab2203e93d2b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 63/70] fix: tell trackers that failed what is missing when
 they're tried again

---
 src/tracker/tracker_manager.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 6ad9e8c..f1e9423 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -67,6 +67,8 @@ async fn manage_http_tracker(
     mut shutdown_rx: shutdown::Receiver,
 ) {
     trace!("spawn tracker");
+    let bytes_left = || (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
+
     let mut announce = Announce {
         tracker_url,
         info_hash,
@@ -74,14 +76,16 @@ async fn manage_http_tracker(
         port: tcp_port,
         uploaded: 0,
         downloaded: 0,
-        left: (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length,
+        left: bytes_left(),
         compact: true,
         no_peer_id: true,
         event: Some(AnnounceEvent::Started),
         tracker_id: None,
     };
 
-    while let Some(response) = contact_tracker(&announce, &mut shutdown_rx).await {
+    while let Some(response) =
+        contact_tracker(&mut announce, &bytes_left, &mut shutdown_rx).await
+    {
         peers.extend(&response.peers);
 
         if announce.tracker_id.is_none() && response.tracker_id.is_some() {
@@ -91,7 +95,7 @@ async fn manage_http_tracker(
         tokio::select! {
             _ = shutdown_rx.recv() => {
                 announce.event = Some(AnnounceEvent::Stopped);
-                announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
+                announce.left = bytes_left();
                 // announce.uploaded = TODO
                 // announce.downloaded = TODO
                 let _ = send_request(&announce.as_url()).await;
@@ -113,7 +117,6 @@ async fn manage_http_tracker(
             }
         }
 
-        announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
         // announce.uploaded = TODO
         // announce.downloaded = TODO
     }
@@ -122,12 +125,15 @@ async fn manage_http_tracker(
 }
 
 async fn contact_tracker(
-    announce: &Announce,
+    announce: &mut Announce,
+    bytes_left: impl Fn() -> u64,
     shutdown_rx: &mut shutdown::Receiver,
 ) -> Option<Response> {
-    let announce_url = announce.as_url();
-
     loop {
+        // download goes on while a tracker can't be reached
+        announce.left = bytes_left();
+        let announce_url = announce.as_url();
+
         let response = tokio::select! {
             _ = shutdown_rx.recv() => {
                 return None;
-- 
2.43.0


From a6e0323daad2d867a5c0032cf98e4c49e7bf292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 64/70] fix: send the tracker id that was handed out last

---
 src/tracker/tracker_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index f1e9423..7c8cc8c 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -88,7 +88,7 @@ async fn manage_http_tracker(
     {
         peers.extend(&response.peers);
 
-        if announce.tracker_id.is_none() && response.tracker_id.is_some() {
+        if response.tracker_id.is_some() {
             announce.tracker_id = response.tracker_id.clone();
         };
 
-- 
2.43.0


From 908e5f234fb23f379009b12026214f4c0c117905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 65/70] fix: a response with a failure reason is a failure,
 whatever else it contains

---
 src/tracker/response.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tracker/response.rs b/src/tracker/response.rs
index 1da1367..f6d2927 100644
--- a/src/tracker/response.rs
+++ b/src/tracker/response.rs
@@ -32,6 +32,10 @@ impl FromBencode for Response {
         let mut info = object.try_into_dictionary()?;
         while let Some(kv) = info.next_pair()? {
             match kv {
+                // whatever else there is, this isn't an answer
+                (b"failure reason", _) => {
+                    return Err(bendy::decoding::Error::unexpected_field("failure reason"));
+                }
                 (b"warning message", value) => {
                     warning_message = Some(String::decode_bencode_object(value)?);
                 }
-- 
2.43.0


From ac262bf3bc218cc6f9718b3acc63586b275d032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 66/70] fix: understand peers of trackers that don't send
 compact ones

---
 src/tracker/response.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/tracker/response.rs b/src/tracker/response.rs
index f6d2927..2dc75c6 100644
--- a/src/tracker/response.rs
+++ b/src/tracker/response.rs
@@ -2,8 +2,9 @@ use crate::ok_or_missing_field;
 use crate::peers::peer::Peer;
 use crate::transcoding::{socketaddr_from_compact_bytes, COMPACT_SOCKADDR_LEN};
 use anyhow::Result;
-use bendy::decoding::{FromBencode, Object};
+use bendy::decoding::{FromBencode, ListDecoder, Object};
 use bendy::encoding::AsString;
+use std::net::SocketAddrV4;
 use tracing::warn;
 
 #[derive(Debug, Clone)]
@@ -18,7 +19,7 @@ pub struct Response {
 }
 
 impl FromBencode for Response {
-    const EXPECTED_RECURSION_DEPTH: usize = 2;
+    const EXPECTED_RECURSION_DEPTH: usize = 3;
 
     fn decode_bencode_object(object: Object) -> Result<Self, bendy::decoding::Error> {
         let mut warning_message = None;
@@ -54,6 +55,10 @@ impl FromBencode for Response {
                 (b"incomplete", value) => {
                     incomplete = Some(u64::decode_bencode_object(value)?);
                 }
+                // not every tracker cares about `compact`
+                (b"peers", Object::List(list)) => {
+                    peers = Some(peers_from_list(list)?);
+                }
                 (b"peers", value) => {
                     if let Some(peer_bytes) =
                         AsString::decode_bencode_object(value).map(|bytes| Some(bytes.0))?
@@ -91,6 +96,35 @@ impl FromBencode for Response {
     }
 }
 
+fn peers_from_list(mut list: ListDecoder) -> Result<Vec<Peer>, bendy::decoding::Error> {
+    let mut peers = Vec::new();
+
+    while let Some(object) = list.next_object()? {
+        let mut ip = None;
+        let mut port = None;
+
+        let mut peer = object.try_into_dictionary()?;
+        while let Some(kv) = peer.next_pair()? {
+            match kv {
+                (b"ip", value) => ip = Some(String::decode_bencode_object(value)?),
+                (b"port", value) => port = Some(u16::decode_bencode_object(value)?),
+                _ => (),
+            }
+        }
+
+        // ip may as well be an ipv6 address or a name
+        match ok_or_missing_field!(ip)?.parse() {
+            Ok(ip) => {
+                let port = ok_or_missing_field!(port)?;
+                peers.push(Peer::new(SocketAddrV4::new(ip, port)));
+            }
+            Err(e) => warn!(?e),
+        }
+    }
+
+    Ok(peers)
+}
+
 #[cfg(test)]
 mod tests {
     use super::Response;
-- 
2.43.0


From 3625ad38f5f6099a2b08e99a61d26b0af391a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 67/70] fix: don't download a piece again while it's being
 stored

---
 src/peers/connection/downloader.rs     | 1 +
 src/peers/connection/pending_pieces.rs | 5 +++--
 src/torrent_manager.rs                 | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 9821461..652ce1f 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -180,6 +180,7 @@ async fn foo(
         }
         AddBlockRes::AddedLast(finished_piece) => {
             if Torrent::piece_hash(&finished_piece.data) != *piece_hash {
+                pending_pieces.remove_piece(piece_idx);
                 pending_pieces.add_piece(piece_idx);
                 bail!("Torrent::piece_hash(&finished_piece.data) != *piece_hash");
             }
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index b7465cf..fd4c64d 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -124,9 +124,10 @@ impl PendingPieces {
         *block = Block::Downloaded(block_data);
 
         if piece.data.len() == piece.downloaded {
-            let finished_piece = data.remove(&piece_idx).unwrap();
+            // piece itself stays until it's forgotten, it must not begin again before this one is stored
+            let finished_data = std::mem::take(&mut piece.data);
             AddBlockRes::AddedLast(FinishedPiece {
-                data: finished_piece.data.into_iter().map(|b| b.into()).collect(),
+                data: finished_data.into_iter().map(|b| b.into()).collect(),
                 idx: piece_idx,
             })
         } else {
diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 0b14b74..16a573a 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -349,6 +349,7 @@ impl TorrentManager {
         }
 
         // if it couldn't be stored, it has to be downloaded again
+        self.connection.forget_piece(piece_idx);
         self.active_pieces.change(piece_idx, false);
         self.assigned_peer_count[piece_idx] = 0;
 
-- 
2.43.0


From dfa13ea29d642670ee5e649fe3eef6a49f2ca0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:36 +0000
Subject: [PATCH 68/70] fix: tell trackers about the end of the client during
 an announce as well

---
 src/tracker/tracker_manager.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 7c8cc8c..1dcc2ff 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -83,9 +83,12 @@ async fn manage_http_tracker(
         tracker_id: None,
     };
 
+    let mut is_known_to_tracker = false;
+
     while let Some(response) =
         contact_tracker(&mut announce, &bytes_left, &mut shutdown_rx).await
     {
+        is_known_to_tracker = true;
         peers.extend(&response.peers);
 
         if response.tracker_id.is_some() {
@@ -93,14 +96,7 @@ async fn manage_http_tracker(
         };
 
         tokio::select! {
-            _ = shutdown_rx.recv() => {
-                announce.event = Some(AnnounceEvent::Stopped);
-                announce.left = bytes_left();
-                // announce.uploaded = TODO
-                // announce.downloaded = TODO
-                let _ = send_request(&announce.as_url()).await;
-                break;
-            },
+            _ = shutdown_rx.recv() => break,
             _ = sleep(Duration::from_secs(response.interval)) => {
                 announce.event = None;
             }
@@ -121,6 +117,15 @@ async fn manage_http_tracker(
         // announce.downloaded = TODO
     }
 
+    // shutdown may as well come during an announce or between retries
+    if is_known_to_tracker {
+        announce.event = Some(AnnounceEvent::Stopped);
+        announce.left = bytes_left();
+        // announce.uploaded = TODO
+        // announce.downloaded = TODO
+        let _ = send_request(&announce.as_url()).await;
+    }
+
     trace!("exit");
 }
 
-- 
2.43.0


From ea5d6fc44ea0a05d13c90bc8a7c83044ab2a8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:53 +0000
Subject: [PATCH 69/70] fix: tell trackers how much was downloaded

---
 src/tracker/tracker_manager.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 1dcc2ff..d690baf 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -67,7 +67,13 @@ async fn manage_http_tracker(
     mut shutdown_rx: shutdown::Receiver,
 ) {
     trace!("spawn tracker");
-    let bytes_left = || (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
+    let update_counters = |announce: &mut Announce| {
+        let pieces_downloaded = pieces_downloaded.load(Ordering::Relaxed);
+
+        // announce.uploaded = TODO
+        announce.downloaded = pieces_downloaded * piece_length;
+        announce.left = (piece_count - pieces_downloaded) * piece_length;
+    };
 
     let mut announce = Announce {
         tracker_url,
@@ -76,7 +82,7 @@ async fn manage_http_tracker(
         port: tcp_port,
         uploaded: 0,
         downloaded: 0,
-        left: bytes_left(),
+        left: 0,
         compact: true,
         no_peer_id: true,
         event: Some(AnnounceEvent::Started),
@@ -86,7 +92,7 @@ async fn manage_http_tracker(
     let mut is_known_to_tracker = false;
 
     while let Some(response) =
-        contact_tracker(&mut announce, &bytes_left, &mut shutdown_rx).await
+        contact_tracker(&mut announce, &update_counters, &mut shutdown_rx).await
     {
         is_known_to_tracker = true;
         peers.extend(&response.peers);
@@ -112,17 +118,12 @@ async fn manage_http_tracker(
                 }
             }
         }
-
-        // announce.uploaded = TODO
-        // announce.downloaded = TODO
     }
 
     // shutdown may as well come during an announce or between retries
     if is_known_to_tracker {
         announce.event = Some(AnnounceEvent::Stopped);
-        announce.left = bytes_left();
-        // announce.uploaded = TODO
-        // announce.downloaded = TODO
+        update_counters(&mut announce);
         let _ = send_request(&announce.as_url()).await;
     }
 
@@ -131,12 +132,12 @@ async fn manage_http_tracker(
 
 async fn contact_tracker(
     announce: &mut Announce,
-    bytes_left: impl Fn() -> u64,
+    update_counters: impl Fn(&mut Announce),
     shutdown_rx: &mut shutdown::Receiver,
 ) -> Option<Response> {
     loop {
         // download goes on while a tracker can't be reached
-        announce.left = bytes_left();
+        update_counters(announce);
         let announce_url = announce.as_url();
 
         let response = tokio::select! {
-- 
2.43.0


From 7bef3448030a846923f4b338a424b3240990ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:13 +0000
Subject: [PATCH 70/70] fix: the node itself doesn't belong into its own
 routing table

---
 src/dht/routing_table/table.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index cdcc5c7..4518b82 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -149,6 +149,11 @@ impl RoutingTable {
     }
 
     pub fn touch_node(&mut self, id: ID, addr: SocketAddrV4) {
+        // other nodes tell about this one, too
+        if id == self.own_id {
+            return;
+        }
+
         let bucket = self.get_bucket_mut(&id);
 
         if let Some(node) = bucket.get_node_mut(&id) {
-- 
2.43.0

