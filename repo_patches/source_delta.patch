From 18014b76f333806634f72e5359a37b8d6070b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 01/59] verif: library face of the crate behind cfg
 nargun_verif

---
 src/dht/mod.rs | 19 +++++++++++++++++++
 src/fs/mod.rs  |  7 +++++++
 src/lib.rs     | 38 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 64 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/dht/mod.rs b/src/dht/mod.rs
index d31fdae..06443f8 100644
--- a/src/dht/mod.rs
+++ b/src/dht/mod.rs
@@ -38,3 +38,22 @@ pub async fn start_dht(
         }
     });
 }
+
+#[cfg(nargun_verif)]
+pub mod verif {
+    pub mod connection {
+        pub use crate::dht::connection::*;
+    }
+    pub mod dht_manager {
+        pub use crate::dht::dht_manager::*;
+    }
+    pub mod krpc_message {
+        pub use crate::dht::krpc_message::*;
+    }
+    pub mod peer_fetcher {
+        pub use crate::dht::peer_fetcher::*;
+    }
+    pub mod routing_table {
+        pub use crate::dht::routing_table::*;
+    }
+}
diff --git a/src/fs/mod.rs b/src/fs/mod.rs
index 7235d0f..e0e74ff 100644
--- a/src/fs/mod.rs
+++ b/src/fs/mod.rs
@@ -49,3 +49,10 @@ impl Fs for FS {
         self.0.write_piece(piece).await
     }
 }
+
+#[cfg(nargun_verif)]
+pub mod verif {
+    pub mod file_cache {
+        pub use crate::fs::file_cache::*;
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..7b9ec56
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,38 @@
+// Library face of the crate for external verification harnesses.
+// Without `--cfg nargun_verif` this library is empty: the program is the binary in main.rs.
+#![cfg(nargun_verif)]
+#![allow(macro_expanded_macro_exports_accessed_by_absolute_paths)]
+
+include!("main.rs");
+
+pub mod verif {
+    pub mod capped_growing_interval {
+        pub use crate::capped_growing_interval::*;
+    }
+    pub mod data_structures {
+        pub use crate::data_structures::*;
+    }
+    pub mod dht {
+        pub use crate::dht::verif::*;
+        pub use crate::dht::*;
+    }
+    pub mod fs {
+        pub use crate::fs::verif::*;
+        pub use crate::fs::*;
+    }
+    pub mod peers {
+        pub use crate::peers::*;
+    }
+    pub mod shutdown {
+        pub use crate::shutdown::*;
+    }
+    pub mod torrent_manager {
+        pub use crate::torrent_manager::*;
+    }
+    pub mod tracker {
+        pub use crate::tracker::*;
+    }
+    pub mod transcoding {
+        pub use crate::transcoding::*;
+    }
+}
-- 
2.43.0


From 45548969b0e0dedf7e7bbb42bd0effb8dc63667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 02/59] fix: order ids as big-endian numbers

Ord stopped with Equal at the first bit set in both ids, so distances that
share a leading one bit compared equal and nodes were not sorted by distance.
---
 src/data_structures/id.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index dec4e36..2fdb4c5 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -217,16 +217,7 @@ impl PartialOrd for ID {
 
 impl Ord for ID {
     fn cmp(&self, other: &Self) -> Ordering {
-        for (self_bit, other_bit) in self.bit_iter().zip(other.bit_iter()) {
-            match (self_bit, other_bit) {
-                (true, true) => return Ordering::Equal,
-                (true, false) => return Ordering::Greater,
-                (false, true) => return Ordering::Less,
-                _ => (),
-            }
-        }
-
-        Ordering::Equal
+        self.0.cmp(&other.0)
     }
 }
 
-- 
2.43.0


From 70733457ab8fbc517368f5c121012dc6aef16daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 03/59] fix: report an id of the wrong length as a decoding
 error

A remote node (or a damaged cache file) could panic the task decoding it.
---
 src/data_structures/id.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index 2fdb4c5..e518773 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -179,13 +179,14 @@ impl<'de> Deserialize<'de> for ID {
             type Value = [u8; ID_LEN];
 
             fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-                formatter.write_str("byte string")
+                formatter.write_str("byte string of 20 bytes")
             }
             fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E>
             where
                 E: serde::de::Error,
             {
-                Ok(v.try_into().unwrap())
+                v.try_into()
+                    .map_err(|_| serde::de::Error::invalid_length(v.len(), &self))
             }
         }
         Ok(ID(deserializer.deserialize_byte_buf(Visitor {})?))
-- 
2.43.0


From 8dcaa39842aee9514b2b4de8190a37633bb9b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 04/59] fix: drop spare bits when a bitmap's data is replaced

They were counted by weight() though no index reaches them.
---
 src/data_structures/bitmap.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/data_structures/bitmap.rs b/src/data_structures/bitmap.rs
index c1afbfc..73cd7a0 100644
--- a/src/data_structures/bitmap.rs
+++ b/src/data_structures/bitmap.rs
@@ -33,6 +33,12 @@ impl Bitmap {
             self.data[i] = *d;
         }
 
+        // bits after len are not part of the map
+        let spare_bits = self.data.len() * 8 - self.len;
+        if let Some(last) = self.data.last_mut() {
+            *last &= 0xff_u8 << spare_bits;
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 1d964277e369ef6cc0e315da346e3864b31d79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 05/59] fix: check a peer message's length against its id

A frame shorter than its message panicked (piece) or was filled up with bytes
of whatever followed it in the buffer; a longer one was cut off.
---
 src/peers/connection/message.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index 2682213..a16531c 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -82,6 +82,11 @@ impl Message {
     }
 
     pub fn from_buf(buf: &[u8]) -> Option<Self> {
+        if buf.len() < BYTES_IN_LEN_PREFIX {
+            error!("buffer of {} bytes has no message len", buf.len());
+            return None;
+        }
+
         let len = u32_from_be_slice!(buf[0..BYTES_IN_LEN_PREFIX]);
         let len: usize = len as usize + BYTES_IN_LEN_PREFIX;
 
@@ -108,6 +113,12 @@ impl Message {
         } else {
             let id = buf[ID_IDX];
             debug!(id);
+
+            if !Self::len_fits_id(id, (len - BYTES_IN_LEN_PREFIX) as u32) {
+                warn!("message len ({len}) is wrong for id {id}");
+                return None;
+            }
+
             match id {
                 CHOKE_ID => Message::Choke,
                 UNCHOKE_ID => Message::Unchoke,
@@ -143,6 +154,22 @@ impl Message {
         Some(message)
     }
 
+    fn len_fits_id(id: u8, len: u32) -> bool {
+        match id {
+            CHOKE_ID => len == CHOKE_LEN,
+            UNCHOKE_ID => len == UNCHOKE_LEN,
+            INTERESTED_ID => len == INTERESTED_LEN,
+            NOT_INTERESTED_ID => len == NOT_INTERESTED_LEN,
+            HAVE_ID => len == HAVE_LEN,
+            BITFIELD_ID => len >= BITFIELD_LEN,
+            REQUEST_ID => len == REQUEST_LEN,
+            PIECE_ID => len >= PIECE_LEN,
+            CANCEL_ID => len == CANCEL_LEN,
+            PORT_ID => len == PORT_LEN,
+            _ => true,
+        }
+    }
+
     pub fn into_bytes(self) -> Vec<u8> {
         bincode::DefaultOptions::new()
             .with_big_endian()
-- 
2.43.0


From a67578301cf744ca877e71902245d7ce75f77300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 06/59] fix: read the whole handshake reply

One read() may return part of it: a peer whose reply arrived in two segments
was refused, and bytes of a reply cut short were taken for messages.
---
 src/peers/connection/handshake.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index b9e8ef8..703849d 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -1,5 +1,5 @@
 use crate::data_structures::ID;
-use anyhow::{anyhow, bail, Result};
+use anyhow::{bail, Result};
 use std::mem::size_of;
 use std::net::SocketAddrV4;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
@@ -20,14 +20,10 @@ pub async fn initiate_handshake(
     stream.write_all(handshake.as_ref()).await?;
 
     let mut buf = [0_u8; HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL];
-    let received_byte_cnt = stream.read(&mut buf).await?;
+    stream.read_exact(&mut buf).await?;
 
-    if received_byte_cnt != HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL {
-        Err(anyhow!("can't connect to peer"))
-    } else {
-        Handshake::check_validity(buf.as_ref())?;
-        Ok(stream)
-    }
+    Handshake::check_validity(buf.as_ref())?;
+    Ok(stream)
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 57ddbc703f91f4d7958bf4a204bebddfcaec09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 07/59] fix: refuse a peer whose handshake names another
 torrent

---
 src/peers/connection/handshake.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index 703849d..33da6a9 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -1,4 +1,4 @@
-use crate::data_structures::ID;
+use crate::data_structures::{ID, ID_LEN};
 use anyhow::{bail, Result};
 use std::mem::size_of;
 use std::net::SocketAddrV4;
@@ -8,6 +8,7 @@ use tokio::net::TcpStream;
 const PSTRLEN: u8 = 19;
 const PSTR: &[u8] = b"BitTorrent protocol";
 const HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL: usize = 68;
+const INFO_HASH_START: usize = 28;
 
 pub async fn initiate_handshake(
     sock_addr: &SocketAddrV4,
@@ -23,6 +24,11 @@ pub async fn initiate_handshake(
     stream.read_exact(&mut buf).await?;
 
     Handshake::check_validity(buf.as_ref())?;
+
+    if buf[INFO_HASH_START..(INFO_HASH_START + ID_LEN)] != *info_hash.as_byte_ref() {
+        bail!("peer serves another torrent");
+    }
+
     Ok(stream)
 }
 
-- 
2.43.0


From 6a0a3090dc19833f50540a139d0843a2ac0c405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 08/59] fix: skip just the peer message that can't be decoded

The whole receive buffer was dropped with it, so what was lost depended on how
the stream was cut into reads, and framing was gone when the buffer ended in
the middle of a message. A message larger than the buffer spun forever.
---
 src/peers/connection/connection_manager.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 1db4517..da3387c 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -117,13 +117,13 @@ async fn manager_receiver(
         while data_len >= BYTES_IN_LEN_PREFIX {
             let message_len = Message::len(&buf[data_start..]) + BYTES_IN_LEN_PREFIX;
 
+            if message_len > buf.len() {
+                error!("peer announced a message of {message_len} bytes");
+                return;
+            }
+
             if message_len <= data_len {
-                let Some(message) = Message::from_buf(&buf) else {
-                    error!("message_len <= data_len but buf can't be deserialize into message");
-                    data_start = 0;
-                    data_len = 0;
-                    break;
-                };
+                let message = Message::from_buf(&buf[..message_len]);
 
                 data_start += message_len;
                 data_len -= message_len;
@@ -134,6 +134,11 @@ async fn manager_receiver(
 
                 data_start = 0;
 
+                let Some(message) = message else {
+                    error!("message_len <= data_len but buf can't be deserialize into message");
+                    continue;
+                };
+
                 handle_message(peer, message, &piece_handler, &dht_handler, &peer_handler).await;
             } else {
                 break;
-- 
2.43.0


From 1bf5d733d11790bb87b5854c584b1279954b4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 09/59] fix: notice and report that a peer's connection ended

End of stream reads as 0 bytes, which looped forever, and Disconnected was
never sent.
---
 src/peers/connection/connection_manager.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index da3387c..2a8a99e 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -70,10 +70,17 @@ async fn manage_tcp(
     let (read_stream, write_stream) = split(&mut stream);
 
     select! {
-        _ = shutdown_rx.recv() => {},
+        _ = shutdown_rx.recv() => return,
         _ = manager_sender(write_stream, send_rx) => {},
-        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, peer_handler) => {},
+        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, peer_handler.clone()) => {},
     };
+
+    let _ = peer_handler
+        .send(ConnectionMessage {
+            peer,
+            message: ConMessageType::Disconnected,
+        })
+        .await;
 }
 
 async fn manager_sender(
@@ -107,6 +114,7 @@ async fn manager_receiver(
 
     loop {
         data_len += match stream.read(&mut buf[data_start + data_len..]).await {
+            Ok(0) => return,
             Ok(len) => len,
             Err(e) => {
                 error!(?e);
-- 
2.43.0


From 7a843ff1497153bc841c06e950b44991d2177dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 10/59] fix: use each piece's and block's own length when
 downloading

The last block was expected to be piece_length % BLOCK_SIZE bytes, i.e. empty
in pieces made of whole blocks, and requested as a whole block in others. The
last piece of a torrent was treated as if it were as long as the others.
---
 src/peers/connection/connection_handle.rs |  3 +-
 src/peers/connection/downloader.rs        |  4 +-
 src/peers/connection/message.rs           |  2 +-
 src/peers/connection/pending_pieces.rs    | 86 ++++++++++++++---------
 src/torrent_manager.rs                    |  1 +
 5 files changed, 61 insertions(+), 35 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index a96dbbc..5ca8266 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -89,6 +89,7 @@ impl Connection {
         own_peer_id: ID,
         info_hash: ID,
         piece_length: usize,
+        torrent_length: usize,
         dht_handler: mpsc::Sender<SocketAddrV4>,
     ) -> Self {
         let (rec_tx, rec) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
@@ -97,7 +98,7 @@ impl Connection {
             info_hash,
             own_peer_id,
             dht_handler,
-            pending_pieces: PendingPieces::new(piece_length),
+            pending_pieces: PendingPieces::new(piece_length, torrent_length),
             peers: HashMap::new(),
             rec,
             rec_tx,
diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 3a7c391..4bdb565 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -33,14 +33,16 @@ enum BlockStatus {
 pub struct BlockAddress {
     pub piece_idx: usize,
     pub block_idx: usize,
+    pub length: usize,
     status: BlockStatus,
 }
 
 impl BlockAddress {
-    pub fn new(piece_idx: usize, block_idx: usize) -> Self {
+    pub fn new(piece_idx: usize, block_idx: usize, length: usize) -> Self {
         Self {
             piece_idx,
             block_idx,
+            length,
             status: BlockStatus::Queued,
         }
     }
diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index a16531c..e89f498 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -281,7 +281,7 @@ impl From<BlockAddress> for Request {
         Self {
             index: value.piece_idx as u32,
             begin: (value.block_idx * BLOCK_SIZE) as u32,
-            length: BLOCK_SIZE as u32,
+            length: value.length as u32,
         }
     }
 }
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 996df3a..78f1c82 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -20,7 +20,7 @@ const MAINLINE_TCP_REQUEST_TIMEOUT_SECS: u64 = 7;
 #[derive(Clone)]
 pub struct PendingPieces {
     piece_length: usize,
-    blocks_per_piece: usize,
+    torrent_length: usize,
     copy_owner: Option<Peer>,
     data: Arc<StdMutex<HashMap<usize, Piece>>>,
 }
@@ -32,6 +32,7 @@ pub struct FinishedPiece {
 }
 
 struct Piece {
+    length: usize,
     pending: usize,
     downloaded: usize,
     data: Vec<Block>,
@@ -57,10 +58,10 @@ pub enum AddBlockRes {
 }
 
 impl PendingPieces {
-    pub fn new(piece_length: usize) -> Self {
+    pub fn new(piece_length: usize, torrent_length: usize) -> Self {
         Self {
             piece_length,
-            blocks_per_piece: unsigned_ceil_div!(piece_length, BLOCK_SIZE),
+            torrent_length,
             copy_owner: None,
             data: Arc::new(StdMutex::new(HashMap::with_capacity(
                 MAX_PIECES_DOWNLOADING,
@@ -72,7 +73,21 @@ impl PendingPieces {
         self.copy_owner = Some(owner);
     }
 
+    // every piece is piece_length long, except the last one, which ends with the torrent
+    fn length_of_piece(&self, idx: usize) -> usize {
+        let piece_start = idx.saturating_mul(self.piece_length);
+        let remaining = self.torrent_length.saturating_sub(piece_start);
+
+        std::cmp::min(self.piece_length, remaining)
+    }
+
     pub fn add_piece(&mut self, idx: usize) -> Result<()> {
+        let piece_length = self.length_of_piece(idx);
+
+        if piece_length == 0 {
+            bail!("piece {} is out of torrent's bounds", idx);
+        }
+
         let mut data = self.data.lock().unwrap();
 
         if data.contains_key(&idx) {
@@ -83,7 +98,7 @@ impl PendingPieces {
             bail!("Pending is full");
         }
 
-        data.insert(idx, Piece::new(self.piece_length));
+        data.insert(idx, Piece::new(piece_length));
 
         Ok(())
     }
@@ -94,11 +109,6 @@ impl PendingPieces {
         block_idx: usize,
         block_data: Vec<u8>,
     ) -> AddBlockRes {
-        if let Err(e) = self.check_block_bounds(block_idx, &block_data) {
-            error!(?e);
-            return AddBlockRes::Failed;
-        };
-
         let mut data = self.data.lock().unwrap();
 
         let Some(piece) = data.get_mut(&piece_idx) else {
@@ -106,13 +116,18 @@ impl PendingPieces {
             return AddBlockRes::Failed;
         };
 
+        if let Err(e) = piece.check_block_bounds(block_idx, &block_data) {
+            error!(?e);
+            return AddBlockRes::Failed;
+        };
+
         let block = &mut piece.data[block_idx];
 
         *block = Block::Downloaded(block_data);
         piece.downloaded += 1;
         piece.pending -= 1;
 
-        if self.blocks_per_piece == piece.downloaded {
+        if piece.data.len() == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
             AddBlockRes::AddedLast(FinishedPiece {
                 data: finished_piece.data.into_iter().map(|b| b.into()).collect(),
@@ -175,36 +190,52 @@ impl PendingPieces {
     ) -> impl Iterator<Item = (&'a mut Block, BlockAddress)> + 'a {
         data.iter_mut()
             .filter_map(move |(piece_idx, piece)| {
+                let piece_length = piece.length;
+
                 piece_indexes.contains(piece_idx).then_some(
                     piece
                         .data
                         .iter_mut()
                         .enumerate()
                         .filter_map(move |(block_idx, block)| {
-                            filter_closure(block)
-                                .then_some((block, BlockAddress::new(*piece_idx, block_idx)))
+                            filter_closure(block).then_some((
+                                block,
+                                BlockAddress::new(
+                                    *piece_idx,
+                                    block_idx,
+                                    block_length(piece_length, block_idx),
+                                ),
+                            ))
                         }),
                 )
             })
             .flatten()
     }
+}
+
+impl Piece {
+    fn new(size: usize) -> Self {
+        let piece_count = unsigned_ceil_div!(size, BLOCK_SIZE);
+        let data = vec![Block::default(); piece_count];
+
+        Self {
+            length: size,
+            pending: 0,
+            downloaded: 0,
+            data,
+        }
+    }
 
     fn check_block_bounds(&self, block_idx: usize, data: &[u8]) -> Result<()> {
-        if block_idx >= self.blocks_per_piece {
+        if block_idx >= self.data.len() {
             bail!(
                 "block index ({}) out of bounds ({})",
                 block_idx,
-                self.blocks_per_piece
+                self.data.len()
             );
         }
 
-        let last_block_in_piece = block_idx + 1 == self.blocks_per_piece;
-
-        let block_size = if last_block_in_piece {
-            self.piece_length % BLOCK_SIZE
-        } else {
-            BLOCK_SIZE
-        };
+        let block_size = block_length(self.length, block_idx);
 
         match block_size.cmp(&data.len()) {
             Ordering::Greater => Err(anyhow!(
@@ -222,17 +253,8 @@ impl PendingPieces {
     }
 }
 
-impl Piece {
-    fn new(size: usize) -> Self {
-        let piece_count = unsigned_ceil_div!(size, BLOCK_SIZE);
-        let data = vec![Block::default(); piece_count];
-
-        Self {
-            pending: 0,
-            downloaded: 0,
-            data,
-        }
-    }
+fn block_length(piece_length: usize, block_idx: usize) -> usize {
+    std::cmp::min(BLOCK_SIZE, piece_length - block_idx * BLOCK_SIZE)
 }
 
 impl Default for Block {
diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index d1b20e7..5081ce0 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -94,6 +94,7 @@ impl TorrentManager {
                     own_peer_id,
                     metainfo.info_hash,
                     metainfo.info.piece_length as usize,
+                    metainfo.info.length() as usize,
                     dht_tx,
                 ),
                 fs: FS::new("/home/gvelesa/rust/narpath", metainfo.info.to_owned()).await,
-- 
2.43.0


From af59f4c05dbc44a0b4e06a7994bc51c4aa2bd160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 11/59] fix: count every downloaded block of a piece once

The counter of pending blocks was only ever decremented, so the first block
underflowed it, and a block received twice finished a piece with a hole in it.
---
 src/peers/connection/pending_pieces.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 78f1c82..f2cc2d3 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -33,7 +33,6 @@ pub struct FinishedPiece {
 
 struct Piece {
     length: usize,
-    pending: usize,
     downloaded: usize,
     data: Vec<Block>,
 }
@@ -123,9 +122,12 @@ impl PendingPieces {
 
         let block = &mut piece.data[block_idx];
 
+        if block.is_downloaded() {
+            return AddBlockRes::Added;
+        }
+
         *block = Block::Downloaded(block_data);
         piece.downloaded += 1;
-        piece.pending -= 1;
 
         if piece.data.len() == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
@@ -220,7 +222,6 @@ impl Piece {
 
         Self {
             length: size,
-            pending: 0,
             downloaded: 0,
             data,
         }
@@ -268,6 +269,10 @@ impl Block {
         std::mem::discriminant(self) == std::mem::discriminant(v)
     }
 
+    fn is_downloaded(&self) -> bool {
+        matches!(self, Self::Downloaded(_))
+    }
+
     fn is_expired_pending(&self) -> bool {
         let Self::Pending(description) = self else {
             return false;
-- 
2.43.0


From 097879a347fbfbba91231f5144c0f925090dc663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 12/59] fix: don't take more blocks than the caller has room
 for

One peer took every block of a piece at once, however many.
---
 src/peers/connection/pending_pieces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index f2cc2d3..12bbcd9 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -168,8 +168,10 @@ impl PendingPieces {
         let now = Instant::now();
 
         for filter in filters {
+            let free_slots = block_buf.capacity() - block_buf.len();
+
             for (block, block_address) in
-                Self::filtered_iter_over_blocks(&pieces, &mut data, filter)
+                Self::filtered_iter_over_blocks(&pieces, &mut data, filter).take(free_slots)
             {
                 *block = Block::Pending(PendingBlockDesc {
                     target: self.copy_owner.unwrap(), // TODO wtf is this? NO!
-- 
2.43.0


From 1b13ae49eaf5f2279e11ccfda52a0f1e65024a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 13/59] fix: tell a peer's pending pieces who the peer is

Taking the first block to request panicked the downloader.
---
 src/peers/connection/connection_handle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 5ca8266..d7371fb 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -112,6 +112,9 @@ impl Connection {
         let (download_new_piece_tx, download_new_piece_rx) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
         let (choker, unchoke_waiter) = choke_lock();
 
+        let mut pending_pieces = self.pending_pieces.clone();
+        pending_pieces.set_owner_peer(peer);
+
         match self.peers.entry(peer) {
             Occupied(_) => return,
             Vacant(entry) => {
@@ -141,7 +144,7 @@ impl Connection {
             self.rec_tx.clone(),
             downloaded_block_rx,
             download_new_piece_rx,
-            self.pending_pieces.clone(),
+            pending_pieces,
             unchoke_waiter,
             shutdown_rx,
         );
-- 
2.43.0


From 23ca33219eadb663a08dd073dd38ec75d8beff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 14/59] fix: end a peer's downloader when its connection is
 gone

It panicked on the closed channel.
---
 src/peers/connection/downloader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 4bdb565..8dee8de 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -92,7 +92,9 @@ async fn manage_piece_downloader(
         select! {
             _ = shutdown_rx.recv() => { return },
             block = downloaded_block_rx.recv() => {
-                foo(peer, block.unwrap(), &mut pending_pieces, &mut current_blocks, &current_pieces, &finished_piece_tx).await;
+                let Some(block) = block else { return };
+
+                foo(peer, block, &mut pending_pieces, &mut current_blocks, &current_pieces, &finished_piece_tx).await;
             },
             command = new_piece_rx.recv() => {
                 match command{
@@ -100,7 +102,7 @@ async fn manage_piece_downloader(
                         PeerManagerCommand::StartPiece((piece_hash, piece_idx)) => {current_pieces.insert(piece_idx, piece_hash);},
                         PeerManagerCommand::StopPiece(piece_idx) => {current_pieces.remove(&piece_idx);},
                     },
-                    None => todo!(),
+                    None => return,
                 }
             },
         };
-- 
2.43.0


From 34ad9e7641683af10f3d1a1e4426580a97c264b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 15/59] fix: go on after a block that does not complete its
 piece

---
 src/peers/connection/downloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 8dee8de..bb3e920 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -156,7 +156,7 @@ async fn foo(
     let mut removed_block_addr = current_blocks.remove(idx);
 
     match pending_pieces.add_block_data(piece_idx, block_idx, block.block.into_vec().into()) {
-        AddBlockRes::Added => todo!(),
+        AddBlockRes::Added => (),
         AddBlockRes::Failed => {
             removed_block_addr.status = BlockStatus::Queued;
             current_blocks.push(removed_block_addr);
-- 
2.43.0


From 4b6f8c159d7028452076d6e4476ebd220755adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 16/59] fix: match a received block with the piece it belongs
 to

Its index within any piece was enough, so the request of another piece's block
was forgotten instead, and blocks nobody asked for were accepted.
---
 src/peers/connection/downloader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index bb3e920..0257da9 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -150,8 +150,10 @@ async fn foo(
 
     let block_idx = block.begin as usize / BLOCK_SIZE;
 
-    let Some(idx) = current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) else {
-            bail!("current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) == None");
+    let Some(idx) = current_blocks.iter().position(|block_addr| {
+        block_addr.piece_idx == piece_idx && block_addr.block_idx == block_idx
+    }) else {
+            bail!("block {} of piece {} was not asked for", block_idx, piece_idx);
         };
     let mut removed_block_addr = current_blocks.remove(idx);
 
-- 
2.43.0


From 3953a6b601c91f16f572ee09b9f249c8e2698d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 17/59] fix: request blocks only from peers that are not
 choking

Changes of a peer's choking status were dropped (futures never awaited) and
nobody looked at them before sending requests.
---
 src/peers/connection/connection_handle.rs | 39 ++++++++++-------------
 src/peers/connection/downloader.rs        |  5 +++
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index d7371fb..4d2d667 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -12,7 +12,7 @@ use std::collections::{
 };
 use std::net::SocketAddrV4;
 use std::sync::Arc;
-use tokio::sync::mpsc;
+use tokio::sync::{mpsc, watch};
 
 const MESSAGE_CHANNEL_BUFFER: usize = 1 << 5;
 
@@ -34,52 +34,45 @@ struct PeerConnection {
 }
 
 fn choke_lock() -> (ChokeLocker, UnchokeWaiter) {
-    let (tx, rx) = mpsc::channel(1 << 4);
+    // peers are choking until they say otherwise
+    let (tx, rx) = watch::channel(ChokingStatus::Choke);
 
-    (ChokeLocker { tx }, UnchokeWaiter { rx, choking: true })
+    (ChokeLocker { tx }, UnchokeWaiter { rx })
 }
 
+#[derive(Debug, Clone, Copy, PartialEq)]
 enum ChokingStatus {
     Choke,
     Unchoke,
 }
 
 struct ChokeLocker {
-    tx: mpsc::Sender<ChokingStatus>,
+    tx: watch::Sender<ChokingStatus>,
 }
 
 impl ChokeLocker {
     fn choke(&self) {
-        self.tx.send(ChokingStatus::Choke);
+        self.tx.send_replace(ChokingStatus::Choke);
     }
 
     fn unchoke(&self) {
-        self.tx.send(ChokingStatus::Unchoke);
+        self.tx.send_replace(ChokingStatus::Unchoke);
     }
 }
 
 pub struct UnchokeWaiter {
-    rx: mpsc::Receiver<ChokingStatus>,
-    choking: bool,
+    rx: watch::Receiver<ChokingStatus>,
 }
 
 impl UnchokeWaiter {
-    pub async fn wait_if_choking(&mut self) {
-        loop {
-            while self.choking {
-                match self.rx.recv().await.unwrap() {
-                    ChokingStatus::Choke => self.choking = true,
-                    ChokingStatus::Unchoke => self.choking = false,
-                }
-            }
+    pub fn is_choking(&self) -> bool {
+        *self.rx.borrow() == ChokingStatus::Choke
+    }
 
-            match self.rx.try_recv() {
-                Ok(m) => match m {
-                    ChokingStatus::Choke => self.choking = true,
-                    ChokingStatus::Unchoke => self.choking = false,
-                },
-                Err(_) => break,
-            }
+    pub async fn changed(&mut self) {
+        if self.rx.changed().await.is_err() {
+            // peer is gone, its status won't change anymore
+            std::future::pending().await
         }
     }
 }
diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 0257da9..289a74a 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -105,8 +105,13 @@ async fn manage_piece_downloader(
                     None => return,
                 }
             },
+            _ = unchoke_waiter.changed() => (),
         };
 
+        if unchoke_waiter.is_choking() {
+            continue;
+        }
+
         if you_dont_need_to_lock_that_mutex_every_time_counter % (ACTIVE_BLOCKS_PER_PEER / 3) == 0 {
             pending_pieces.take_not_good_blocks(
                 current_pieces.keys().into_iter().cloned().collect(),
-- 
2.43.0


From 7e07d167fa66fd7f3895a4b440283b795bf30477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 18/59] fix: don't stop requesting blocks when some of them
 don't arrive

Requests were sent ten seconds apart, blocks were looked for only after every
fifth event, and a lost block, or one another peer sent first, kept its slot for
good, so a piece could stay unfinished forever with an able peer.
---
 src/peers/connection/downloader.rs     | 22 ++++++++++------------
 src/peers/connection/pending_pieces.rs | 16 ++++++++++++++++
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 289a74a..f6483d4 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -12,10 +12,11 @@ use crate::{
 };
 use anyhow::{bail, Result};
 use std::{collections::HashMap, time::Duration};
-use tokio::{select, sync::mpsc, time::sleep};
+use tokio::{select, sync::mpsc, time::interval};
 use tracing::warn;
 
 const ACTIVE_BLOCKS_PER_PEER: usize = 16;
+const LOST_BLOCK_CHECK_INTERVAL: Duration = Duration::from_secs(1);
 
 #[derive(Debug)]
 pub enum PeerManagerCommand {
@@ -86,7 +87,7 @@ async fn manage_piece_downloader(
     let mut current_pieces = HashMap::new();
     let mut current_blocks = Vec::with_capacity(ACTIVE_BLOCKS_PER_PEER);
 
-    let mut you_dont_need_to_lock_that_mutex_every_time_counter = 0;
+    let mut lost_block_check = interval(LOST_BLOCK_CHECK_INTERVAL);
 
     loop {
         select! {
@@ -106,18 +107,19 @@ async fn manage_piece_downloader(
                 }
             },
             _ = unchoke_waiter.changed() => (),
+            _ = lost_block_check.tick() => (),
         };
 
+        pending_pieces.retain_blocks_pending_from_owner(&mut current_blocks);
+
         if unchoke_waiter.is_choking() {
             continue;
         }
 
-        if you_dont_need_to_lock_that_mutex_every_time_counter % (ACTIVE_BLOCKS_PER_PEER / 3) == 0 {
-            pending_pieces.take_not_good_blocks(
-                current_pieces.keys().into_iter().cloned().collect(),
-                &mut current_blocks,
-            );
-        }
+        pending_pieces.take_not_good_blocks(
+            current_pieces.keys().into_iter().cloned().collect(),
+            &mut current_blocks,
+        );
 
         for queued_block in current_blocks
             .iter_mut()
@@ -127,12 +129,8 @@ async fn manage_piece_downloader(
                 warn!(?e);
             }
 
-            sleep(Duration::from_secs(10)).await;
-
             queued_block.status = BlockStatus::Requested;
         }
-
-        you_dont_need_to_lock_that_mutex_every_time_counter += 1;
     }
 }
 
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 12bbcd9..837a5f7 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -154,6 +154,22 @@ impl PendingPieces {
         }
     }
 
+    // the others are downloaded already, or another peer may be asked for them
+    pub fn retain_blocks_pending_from_owner(&self, block_buf: &mut Vec<BlockAddress>) {
+        let Some(owner) = self.copy_owner else {
+            return;
+        };
+
+        let data = self.data.lock().unwrap();
+
+        block_buf.retain(|address| {
+            data.get(&address.piece_idx)
+                .and_then(|piece| piece.data.get(address.block_idx))
+                .map(|block| block.is_expected_from(&owner) && !block.is_expired_pending())
+                .unwrap_or(false)
+        });
+    }
+
     pub fn take_not_good_blocks(&self, mut pieces: Vec<usize>, block_buf: &mut Vec<BlockAddress>) {
         let mut rng = thread_rng();
         pieces.shuffle(&mut rng);
-- 
2.43.0


From 779bd40d31acd1e890a89e73e72a574fcabc3465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 19/59] fix: make a piece pending before its download is
 started

Otherwise the peer's task could look for its blocks before there were any. A
piece that can't be added is reported instead of being waited for.
---
 src/peers/connection/connection_handle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 4d2d667..199954f 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -175,12 +175,12 @@ impl Connection {
         match self.peers.get(&peer) {
             None => bail!("peer {:?} is not connected", peer),
             Some(peer_connection) => {
+                self.pending_pieces.add_piece(piece_idx)?;
+
                 peer_connection
                     .download_new_piece_tx
                     .send(PeerManagerCommand::StartPiece((piece_hash, piece_idx)))
                     .await?;
-
-                self.pending_pieces.add_piece(piece_idx);
             }
         }
 
-- 
2.43.0


From 13a2f41d7fe251294ffd1a92156bce908b3d5e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 20/59] fix: forget a peer whose connection ended

Connecting to it again did nothing, as it was still in the list of connected
peers, and the blocks it was asked for stayed reserved until they expired.
---
 src/peers/connection/connection_handle.rs | 8 ++++++++
 src/peers/connection/pending_pieces.rs    | 2 --
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 199954f..855a65f 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -163,6 +163,14 @@ impl Connection {
             }
         }
 
+        if matches!(
+            msg.message,
+            ConMessageType::Unreachable | ConMessageType::Disconnected
+        ) {
+            self.peers.remove(&msg.peer);
+            self.pending_pieces.cancel_pending(&msg.peer);
+        }
+
         msg
     }
 
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 837a5f7..a0e9798 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -140,8 +140,6 @@ impl PendingPieces {
         }
     }
 
-    // TODO this should be used, you probably forgot it. remove this # when you find its place.
-    #[allow(dead_code)]
     pub fn cancel_pending(&mut self, from: &Peer) {
         let mut data = self.data.lock().unwrap();
 
-- 
2.43.0


From 9a79541494260d84b9701cac4aa268244bffb819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 21/59] fix: ignore a peer's claim to have a piece that does
 not exist

It panicked the torrent's manager.
---
 src/torrent_manager.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 5081ce0..f83d693 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -284,6 +284,11 @@ impl TorrentManager {
                     .and_modify(|peer_info| peer_info.interested = false);
             }
             ConMessageType::Have(piece_idx) => {
+                if piece_idx as usize >= self.local_data.len() {
+                    warn!("peer has piece {} of {}", piece_idx, self.local_data.len());
+                    return;
+                }
+
                 if let Occupied(mut peer_info) = self.active_peers.entry(peer) {
                     let old_have = peer_info.get_mut().haves.change(piece_idx as usize, true);
                     if !old_have {
-- 
2.43.0


From 8f10cd6060090d308b1ce2fbdc5d5cf52800ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 22/59] fix: ignore requests of peers that are choked

Any peer could panic the torrent's manager by sending a request or a cancel.
---
 src/torrent_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index f83d693..2e8eded 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -299,9 +299,9 @@ impl TorrentManager {
             ConMessageType::Bitfield(bitfield) => {
                 self.accept_bitfield_if_its_first(bitfield.as_ref(), peer)
             }
-            ConMessageType::Request(_) => todo!(),
+            // peers are never unchoked, so there's nothing to serve or to stop serving
+            ConMessageType::Request(_) | ConMessageType::Cancel(_) => (),
             ConMessageType::FinishedPiece(_) => todo!(),
-            ConMessageType::Cancel(_) => todo!(),
         }
     }
 
-- 
2.43.0


From a6e0a1d89f1b36898b3a789dfc5a5093df63f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 23/59] fix: write the last piece of a file that consists of
 whole pieces

Its length was taken to be length % piece_length, i.e. nothing was written.
---
 src/fs/single_file_rw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 782fc41..0b68abb 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -85,7 +85,7 @@ impl SingleFileRw {
         let file = self.files.get_write(&self.torrent_name).await?;
         file.seek(SeekFrom::Start(start as u64)).await?;
 
-        let mut remaining_bytes = (self.info.length() % self.info.piece_length) as usize;
+        let mut remaining_bytes = self.info.length() as usize - start;
         let mut block_iter = piece.data.iter();
 
         while remaining_bytes > 0 {
@@ -96,7 +96,7 @@ impl SingleFileRw {
                     "last piece (idx={}) has less data ({} blocks) than expected ({} bytes)",
                     piece.idx,
                     piece.data.len(),
-                    self.info.length() % self.info.piece_length
+                    self.info.length() as usize - start
                 );
             };
 
-- 
2.43.0


From 92e4d7cd3f53a770842c1dbb92631e3cae7d3bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 24/59] fix: finish writing a piece before reporting it written

tokio's File returns from write_all() while the last write is still under way
in the background, so its failure was lost, and the data could be missing when
the file was evicted from the cache and opened again.
---
 src/fs/multi_file_rw.rs  | 2 ++
 src/fs/single_file_rw.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index ed46083..481046b 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -130,6 +130,8 @@ async fn write_file_chunk_from_multi_file_piece(
         }
     }
 
+    file.flush().await?;
+
     Ok(())
 }
 
diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 0b68abb..ffb5e32 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -76,6 +76,8 @@ impl SingleFileRw {
             file.write_all(&block).await?;
         }
 
+        file.flush().await?;
+
         Ok(())
     }
 
@@ -105,6 +107,8 @@ impl SingleFileRw {
             remaining_bytes -= bytes_to_write;
         }
 
+        file.flush().await?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 403e82777142a1368a1166888a8a0ef69cfbf79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 25/59] fix: write pieces that border on an empty file

An empty file at the start of a block or a piece panicked or failed the write.
---
 src/fs/multi_file_rw.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index 481046b..9743e36 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -98,9 +98,14 @@ async fn write_file_chunk_from_multi_file_piece(
     start_within_piece: usize,
     end_within_piece: usize,
 ) -> Result<()> {
+    let length = end_within_piece - start_within_piece;
+
+    if length == 0 {
+        return Ok(()); // empty file, there's nothing more to it than opening it
+    }
+
     file.seek(SeekFrom::Start(start_within_file as u64)).await?;
 
-    let length = end_within_piece - start_within_piece;
     let start_within_block = start_within_piece % BLOCK_SIZE;
     let end_within_block = if end_within_piece % BLOCK_SIZE == 0 {
         BLOCK_SIZE // 0 means full block because it ends at BLOCK_SIZE
-- 
2.43.0


From 496f3c73a76cab9ff2118234a053466e767b87f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 26/59] fix: create the empty files of a torrent

One at the end of the last piece was never created.
---
 src/fs/multi_file_rw.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index 9743e36..eae0f00 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -7,6 +7,7 @@ use crate::transcoding::metainfo::{self, Info, Mode};
 use anyhow::{bail, Result};
 use async_trait::async_trait;
 use std::io::SeekFrom;
+use tokio::fs::OpenOptions;
 use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncWriteExt};
 
 pub struct MultiFileRw {
@@ -25,6 +26,10 @@ impl MultiFileRw {
             .await
             .unwrap();
 
+        create_empty_files(&format!("{}/{}", base_dir, &info.name), &files)
+            .await
+            .unwrap();
+
         Self {
             torrent_name: format!("{}/{}", base_dir, &info.name),
             files: FileCache::new(),
@@ -91,6 +96,19 @@ impl Fs for MultiFileRw {
     }
 }
 
+// there's no piece with their data, so it's not certain that a piece brings them about
+async fn create_empty_files(torrent_dir: &str, files: &[metainfo::File]) -> Result<()> {
+    for file in files.iter().filter(|file| file.length == 0) {
+        OpenOptions::new()
+            .write(true)
+            .create(true)
+            .open(format!("{}/{}", torrent_dir, file.path.join("/")))
+            .await?;
+    }
+
+    Ok(())
+}
+
 async fn write_file_chunk_from_multi_file_piece(
     file: &mut tokio::fs::File,
     piece_data: &[Vec<u8>],
-- 
2.43.0


From 0b6396c65234af94f51f8548362802539989f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 27/59] fix: fail reads and writes beyond a multi-file torrent

They were reported successful: a read left the rest of the buffer as it was,
a write did nothing. A piece with too little data panicked.
---
 src/fs/multi_file_rw.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index eae0f00..97884b4 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -52,6 +52,10 @@ impl Fs for MultiFileRw {
         let block_start = piece_start + begin;
         let block_end = block_start + length;
 
+        if block_end > self.info.length() as usize {
+            bail!("block {block_start}..{block_end} is out of bounds");
+        }
+
         for file_info in FilesInBounds::new(&self.file_infos, block_start, block_end) {
             let file_in_block =
                 &mut buf[file_info.start_within_iter_bounds..file_info.end_within_iter_bounds];
@@ -75,9 +79,23 @@ impl Fs for MultiFileRw {
             files, file_infos, ..
         } = self;
 
+        if piece.idx >= self.info.pieces.len() {
+            bail!("piece {} is out of bounds", piece.idx);
+        }
+
         let piece_start = piece.idx * self.info.piece_length as usize;
         let piece_end = (piece.idx + 1) * self.info.piece_length as usize;
 
+        let data_length: usize = piece.data.iter().map(|block| block.len()).sum();
+
+        if piece_start + data_length < std::cmp::min(piece_end, self.info.length() as usize) {
+            bail!(
+                "piece {} has less data ({} bytes) than expected",
+                piece.idx,
+                data_length
+            );
+        }
+
         for file_info in FilesInBounds::new(file_infos, piece_start, piece_end) {
             let path = format!("{}/{}", self.torrent_name, file_info.file.path.join("/"));
             let fs_file = files.get_write(&path).await?;
-- 
2.43.0


From 48200b53deb8009df1b9a6e561cabe0871f3e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 28/59] fix: fail, not panic, on a short block in the last
 piece of a file

---
 src/fs/single_file_rw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index ffb5e32..49ded8e 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -102,7 +102,11 @@ impl SingleFileRw {
                 );
             };
 
-            file.write_all(&block[..bytes_to_write]).await?;
+            let Some(block) = block.get(..bytes_to_write) else {
+                bail!("last piece (idx={}) has a short block", piece.idx);
+            };
+
+            file.write_all(block).await?;
 
             remaining_bytes -= bytes_to_write;
         }
-- 
2.43.0


From a394371e2e52d3575839763d32279439719aecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 29/59] fix: open a multi-file torrent whose directory exists
 already

A client could not be started again on the same download: it panicked.
---
 src/fs/multi_file_rw.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index 97884b4..b692572 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -180,6 +180,7 @@ mod dir_builder {
     use crate::transcoding::metainfo;
     use anyhow::{bail, Result};
     use std::collections::HashSet;
+    use std::io::ErrorKind;
     use tokio::fs::{remove_dir_all, DirBuilder};
 
     pub async fn build_dir_tree(
@@ -197,11 +198,19 @@ mod dir_builder {
     async fn create_dirs(working_dir: &str, dirs: &[String]) -> Result<()> {
         let mut builder = DirBuilder::new();
 
-        builder.recursive(false).create(working_dir).await?;
+        // what's there already may be this torrent's data
+        let already_exists = match builder.recursive(false).create(working_dir).await {
+            Ok(()) => false,
+            Err(e) if e.kind() == ErrorKind::AlreadyExists => true,
+            Err(e) => bail!(e),
+        };
 
         for dir in dirs.iter() {
-            if let Err(e) = builder.recursive(false).create(dir).await {
-                remove_dir_all(working_dir).await?;
+            if let Err(e) = builder.recursive(true).create(dir).await {
+                if !already_exists {
+                    remove_dir_all(working_dir).await?;
+                }
+
                 bail!(e);
             }
         }
-- 
2.43.0


From 0514f60dccbd99d80069c8be8627c554311c2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 30/59] fix: store finished pieces

Finishing a piece panicked the torrent's manager.
---
 src/torrent_manager.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 2e8eded..a8048a6 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -1,8 +1,9 @@
 use crate::data_structures::{Bitmap, ID};
-use crate::fs::FS;
+use crate::fs::{Fs, FS};
 use crate::peers::active_peers::{Peers, Status as PeerStatus};
 use crate::peers::connection::connection_handle::Connection;
 use crate::peers::connection::connection_manager::{ConMessageType, ConnectionMessage};
+use crate::peers::connection::pending_pieces::FinishedPiece;
 use crate::peers::peer::Peer;
 use crate::transcoding::metainfo::Torrent;
 use crate::{shutdown, tracker};
@@ -120,7 +121,7 @@ impl TorrentManager {
 
         loop {
             select! {
-                msg = self.connection.recv() => { self.handle_command_tmp(msg) },
+                msg = self.connection.recv() => { self.handle_command_tmp(msg).await },
                 _ = interval.tick() => {
                     self.refresh_peer_list();
                     self.start_downloading_new_pieces().await;
@@ -254,7 +255,7 @@ impl TorrentManager {
         Some(peer)
     }
 
-    fn handle_command_tmp(&mut self, con_msg: ConnectionMessage) {
+    async fn handle_command_tmp(&mut self, con_msg: ConnectionMessage) {
         let ConnectionMessage { message, peer } = con_msg;
 
         match message {
@@ -301,7 +302,24 @@ impl TorrentManager {
             }
             // peers are never unchoked, so there's nothing to serve or to stop serving
             ConMessageType::Request(_) | ConMessageType::Cancel(_) => (),
-            ConMessageType::FinishedPiece(_) => todo!(),
+            ConMessageType::FinishedPiece(piece) => self.store_piece(piece).await,
+        }
+    }
+
+    async fn store_piece(&mut self, piece: FinishedPiece) {
+        let piece_idx = piece.idx;
+
+        match self.fs.write_piece(piece).await {
+            Ok(()) => {
+                self.local_data.change(piece_idx, true);
+            }
+            Err(e) => error!(?e),
+        }
+
+        self.active_pieces.change(piece_idx, false);
+
+        for peer_info in self.active_peers.values_mut() {
+            peer_info.working.change(piece_idx, false);
         }
     }
 
-- 
2.43.0


From e3a10de2aea9e04081ac924cb2253b22b9f5bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 31/59] fix: keep track of which peers download which pieces

The numbers of peers per piece were never updated and only the first missing
piece was looked at, so one piece was assigned to the same peers over and over
while others waited, for good if no able peer had it. The pieces of a peer that
went away stayed active, and with enough of them no piece could be started.
---
 src/torrent_manager.rs | 57 ++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index a8048a6..b93cefe 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -182,7 +182,11 @@ impl TorrentManager {
             .or_insert(PeerInfo::new(self.active_pieces.len()));
 
         self.active_pieces.change(piece_idx, true);
-        peer_info.working.change(piece_idx, true);
+
+        let already_working = peer_info.working.change(piece_idx, true);
+        if !already_working {
+            self.assigned_peer_count[piece_idx] += 1;
+        }
     }
 
     fn select_piece(&mut self) -> Option<(Peer, usize, ID)> {
@@ -215,40 +219,30 @@ impl TorrentManager {
     }
 
     fn sequential_select_piece(&self) -> Option<(Peer, usize)> {
-        let iter = self.iter_over_remaining_downloadable_pieces();
-
-        let mut iter_clone = iter.clone();
-
-        let mut iteration_count = 0;
-        let mut peers_per_piece = 0;
-        let mut pieces_per_peer = 0;
-
-        loop {
-            let x = iter_clone.find(|(piece_idx, _, _)| {
-                self.assigned_peer_count[*piece_idx] as usize == peers_per_piece
-            });
-
-            if let Some((piece_idx, _, _)) = x {
-                if let Some(peer) = self.find_peer_with_piece(piece_idx, pieces_per_peer) {
-                    break Some((peer.to_owned(), piece_idx));
+        for peers_per_piece in 0..MAX_PEER_PER_PIECE {
+            for pieces_per_peer in 0..MAX_PIECE_PER_PEER {
+                let selected = self
+                    .iter_over_remaining_downloadable_pieces()
+                    .filter(|(_, _, assigned_peers)| *assigned_peers as usize == peers_per_piece)
+                    .find_map(|(piece_idx, _, _)| {
+                        self.find_peer_with_piece(piece_idx, pieces_per_peer)
+                            .map(|peer| (peer.to_owned(), piece_idx))
+                    });
+
+                if selected.is_some() {
+                    return selected;
                 }
             }
-
-            iter_clone = iter.clone();
-            iteration_count += 1;
-            pieces_per_peer = iteration_count % MAX_PIECE_PER_PEER;
-            peers_per_piece = iteration_count / MAX_PIECE_PER_PEER;
-
-            if iteration_count == MAX_PEER_PER_PIECE * MAX_PIECE_PER_PEER {
-                break None;
-            }
         }
+
+        None
     }
 
     fn find_peer_with_piece(&self, piece_idx: usize, pieces_per_peer: usize) -> Option<&Peer> {
         let (peer, _) = self.active_peers.iter().find(|(_, peer_info)| {
             !peer_info.choking
                 && peer_info.haves.get(piece_idx)
+                && !peer_info.working.get(piece_idx)
                 && peer_info.working.weight() == pieces_per_peer
         })?;
 
@@ -317,6 +311,7 @@ impl TorrentManager {
         }
 
         self.active_pieces.change(piece_idx, false);
+        self.assigned_peer_count[piece_idx] = 0;
 
         for peer_info in self.active_peers.values_mut() {
             peer_info.working.change(piece_idx, false);
@@ -331,7 +326,15 @@ impl TorrentManager {
                 .iter_mut()
                 .zip(peer_info.haves.iter())
                 .filter(|(_, peer_has_piece)| *peer_has_piece)
-                .for_each(|(frequency, _)| *frequency -= 1)
+                .for_each(|(frequency, _)| *frequency -= 1);
+
+            for (piece_idx, _) in peer_info.working.iter().enumerate().filter(|(_, w)| *w) {
+                self.assigned_peer_count[piece_idx] -= 1;
+
+                if self.assigned_peer_count[piece_idx] == 0 {
+                    self.active_pieces.change(piece_idx, false);
+                }
+            }
         }
     }
 
-- 
2.43.0


From fa541cdc796f021f7e65c4739bcb2e4ad721bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 32/59] fix: don't mark peers as active by looking at them

Answering get_peers, or counting the good peers, turned every peer it looked at
active, and the client never connected to any of them.
---
 src/peers/active_peers.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index 12228a6..b661ba9 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -58,9 +58,14 @@ impl Peers {
             Status::ChokedForTooLong,
         ];
 
-        let mut data = self.data.lock().unwrap();
-
-        let peers = self.activate_peers_in_locked_data(&mut data, limit, &status_priority_order);
+        let data = self.data.lock().unwrap();
+
+        let peers: Vec<Peer> = status_priority_order
+            .iter()
+            .flat_map(|cur_status| data.iter().filter(move |(_, status)| *status == cur_status))
+            .map(|(peer, _)| peer.to_owned())
+            .take(limit)
+            .collect();
 
         if peers.is_empty() {
             None
-- 
2.43.0


From 77f90100b04e9ada5133008233764b1f79885938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 33/59] fix: keep a peer active when it is announced again

Every announce, peer list of the DHT and tracker response made peers in use
look new, and the client was given them once more.
---
 src/peers/active_peers.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index b661ba9..8451048 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -31,7 +31,18 @@ impl Peers {
     }
 
     pub fn insert(&self, peer: Peer) {
-        self.data.lock().unwrap().insert(peer, Status::Unknown);
+        let mut data = self.data.lock().unwrap();
+
+        Self::insert_into_locked_data(&mut data, peer);
+    }
+
+    // active peers are in use until they're returned
+    fn insert_into_locked_data(data: &mut HashMap<Peer, Status>, peer: Peer) {
+        let status = data.entry(peer).or_insert(Status::Unknown);
+
+        if *status != Status::Active {
+            *status = Status::Unknown;
+        }
     }
 
     // TODO this name is bad. `peers.serve(info_hash)` is clear but only seeing it here is laughably bad.
@@ -140,7 +151,9 @@ where
     fn extend<T: IntoIterator<Item = P>>(&mut self, iter: T) {
         let mut data = self.data.lock().unwrap();
 
-        data.extend(iter.into_iter().map(|peer| (peer.into(), Status::Unknown)));
+        for peer in iter {
+            Self::insert_into_locked_data(&mut data, peer.into());
+        }
     }
 }
 
-- 
2.43.0


From ff2166fd6c98964d55a2d20cb71a87bea2946eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 34/59] fix: parse each datagram by itself

The receive buffer was parsed as a whole, so what earlier datagrams left
in it completed a truncated one.
---
 src/dht/connection/connection_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 4359b83..cf2b0f4 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -57,8 +57,8 @@ impl ConnectionManager {
         loop {
             select! {
                 res = self.sock.recv_from(&mut buf) => {
-                    let (_ , from) = res.ok()?;
-                    self.handle_received_message(from, &buf).await;
+                    let (len, from) = res.ok()?;
+                    self.handle_received_message(from, &buf[..len]).await;
                 },
                 send_command = self.send_to_remote.recv() => {
                     self.send(send_command?).await;
-- 
2.43.0


From f8230248a5e20cc05d3ae50aa085fb94c65e3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 35/59] fix: drop the response to a query whose task is gone

It made the whole connection panic.
---
 src/dht/connection/connection_manager.rs | 42 ++++++++----------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index cf2b0f4..5b33b5f 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -221,39 +221,25 @@ impl ConnectionManager {
             return;
         };
 
-        match response {
-            Response::Ping { id } => {
-                querying_task_channel
-                    .send(FromConResp::Touch { id, from })
-                    .await
-                    .unwrap();
-            }
-            Response::FindNode { nodes, id } => {
-                querying_task_channel
-                    .send(FromConResp::NewNodes { nodes, from, id })
-                    .await
-                    .unwrap();
+        let resp = match response {
+            Response::Ping { id } | Response::AnnouncePeer { id } => {
+                FromConResp::Touch { id, from }
             }
+            Response::FindNode { nodes, id } => FromConResp::NewNodes { nodes, from, id },
             Response::GetPeers {
                 values_or_nodes,
                 token,
                 ..
-            } => {
-                querying_task_channel
-                    .send(FromConResp::GetPeers {
-                        from,
-                        token,
-                        v_or_n: values_or_nodes,
-                    })
-                    .await
-                    .unwrap();
-            }
-            Response::AnnouncePeer { id } => {
-                querying_task_channel
-                    .send(FromConResp::Touch { id, from })
-                    .await
-                    .unwrap();
-            }
+            } => FromConResp::GetPeers {
+                from,
+                token,
+                v_or_n: values_or_nodes,
+            },
+        };
+
+        // a task that is gone doesn't need the response
+        if querying_task_channel.send(resp).await.is_err() {
+            info!("response to a finished task dropped");
         }
     }
 }
-- 
2.43.0


From 3ed7cefbbfbaf562a9bb8d28cef49ee69bac76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 36/59] fix: don't panic on a query that nobody is left to
 answer

---
 src/dht/connection/connection_manager.rs | 56 ++++++++++++------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 5b33b5f..b1a300c 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -102,7 +102,7 @@ impl ConnectionManager {
     }
 
     async fn handle_received_message(&mut self, from: SocketAddr, buf: &[u8]) {
-        let  SocketAddr::V4(from) = from else {
+        let SocketAddr::V4(from) = from else {
             info!("IPv6 request dropped");
             return;
         };
@@ -149,28 +149,24 @@ impl ConnectionManager {
                 self.send(pong).await;
             }
             Arguments::FindNode { target, .. } => {
-                self.query_listener
-                    .send(FromConQuery::FindNode {
-                        target,
-                        query_id: QueryId {
-                            target: from,
-                            transaction_id,
-                        },
-                    })
-                    .await
-                    .unwrap();
+                self.forward_query(FromConQuery::FindNode {
+                    target,
+                    query_id: QueryId {
+                        target: from,
+                        transaction_id,
+                    },
+                })
+                .await;
             }
             Arguments::GetPeers { info_hash, .. } => {
-                self.query_listener
-                    .send(FromConQuery::GetPeers {
-                        info_hash,
-                        query_id: QueryId {
-                            target: from,
-                            transaction_id,
-                        },
-                    })
-                    .await
-                    .unwrap();
+                self.forward_query(FromConQuery::GetPeers {
+                    info_hash,
+                    query_id: QueryId {
+                        target: from,
+                        transaction_id,
+                    },
+                })
+                .await;
             }
             Arguments::AnnouncePeer {
                 info_hash,
@@ -182,13 +178,11 @@ impl ConnectionManager {
                     let mut peer_addr = from;
                     peer_addr.set_port(port);
 
-                    self.query_listener
-                        .send(FromConQuery::NewPeer {
-                            new_peer: Peer::new(peer_addr),
-                            info_hash,
-                        })
-                        .await
-                        .unwrap();
+                    self.forward_query(FromConQuery::NewPeer {
+                        new_peer: Peer::new(peer_addr),
+                        info_hash,
+                    })
+                    .await;
 
                     let resp = ToCon::Resp {
                         query_id: QueryId {
@@ -204,6 +198,12 @@ impl ConnectionManager {
         }
     }
 
+    async fn forward_query(&self, query: FromConQuery) {
+        if self.query_listener.send(query).await.is_err() {
+            info!("query dropped, there's no one left to answer it");
+        }
+    }
+
     fn token_is_valid(&self, token: SerializableBuf, source_addr: &SocketAddrV4) -> bool {
         token == self.secret.hash_with_secret(&source_addr.ip().octets())
     }
-- 
2.43.0


From d4d9393f24ab7ea675e0b863615f8aefdb9ff9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 37/59] fix: recognise the response to announce_peer

It looks like a response to ping, so it never matched its query.
---
 src/dht/connection/pending.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/dht/connection/pending.rs b/src/dht/connection/pending.rs
index 2053f7f..7b44eaf 100644
--- a/src/dht/connection/pending.rs
+++ b/src/dht/connection/pending.rs
@@ -27,7 +27,7 @@ impl PendingRequests {
     pub fn get(&mut self, tid: &SerializableBuf, response_type: RequestType) -> Option<Requester> {
         let (requested_type, _) = self.0.get(tid)?;
 
-        if *requested_type == response_type {
+        if requested_type.is_answered_by(&response_type) {
             self.0.remove(tid).map(|(_, requester)| requester)
         } else {
             None
@@ -39,6 +39,17 @@ impl PendingRequests {
     }
 }
 
+impl RequestType {
+    // responses to ping and announce_peer carry just an id, they can't be told apart
+    fn is_answered_by(&self, response_type: &Self) -> bool {
+        self == response_type
+            || matches!(
+                (self, response_type),
+                (Self::AnnouncePeer, Self::Ping) | (Self::Ping, Self::AnnouncePeer)
+            )
+    }
+}
+
 impl From<&Message> for RequestType {
     fn from(item: &Message) -> Self {
         let Message::Query{arguments, ..} = item else{
-- 
2.43.0


From 2c92095b27b33ffdc38cb1859e4c25258084e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 38/59] fix: split the own id's bucket for every id in its
 range

An id that differs first at the bucket's own depth is in the range, too.
---
 src/dht/routing_table/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/routing_table/bucket.rs b/src/dht/routing_table/bucket.rs
index ed17a70..0c07f93 100644
--- a/src/dht/routing_table/bucket.rs
+++ b/src/dht/routing_table/bucket.rs
@@ -117,7 +117,7 @@ impl Bucket {
     pub fn id_within_bucket_range(&self, own_id: &ID, id: &ID) -> bool {
         match own_id.first_diff_bit_idx(id) {
             None => true,
-            Some(first_diff) => first_diff > self.depth,
+            Some(first_diff) => first_diff >= self.depth,
         }
     }
 
-- 
2.43.0


From 84cdd23d3e8b9215c4f7e732248ffeb42aa9285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 39/59] fix: finish writing the routing table before store
 returns

---
 src/dht/routing_table/table.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 29ea2c1..5529e21 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -60,6 +60,7 @@ impl RoutingTable {
         let mut file = File::create(path).await.unwrap();
 
         file.write_all(&encoded).await.unwrap();
+        file.flush().await.unwrap();
     }
 
     pub fn own_id(&self) -> &ID {
-- 
2.43.0


From 13831da1684ecd2bbfbd6193cdf7faa439a8de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 40/59] fix: return the eight closest nodes

Buckets were searched in an order that isn't the order of distance, and
all nodes of the last visited bucket were returned.
---
 src/dht/routing_table/table.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 5529e21..c067ccf 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -137,23 +137,16 @@ impl RoutingTable {
     }
 
     pub fn get_closest_nodes(&self, id: &ID) -> Option<Vec<Node>> {
-        let mut nodes = Vec::new();
-
-        let node_bucket_idx = self.find_bucket_idx_by_id(id);
-
-        for bucket in self.data[node_bucket_idx..]
+        let mut nodes: Vec<Node> = self
+            .data
             .iter()
-            .chain(self.data[..node_bucket_idx].iter().rev())
-        {
-            nodes.extend(bucket.iter_over_goods().cloned());
-
-            if nodes.len() >= K_NODE_PER_BUCKET {
-                break;
-            }
-        }
+            .flat_map(|bucket| bucket.iter_over_goods())
+            .cloned()
+            .collect();
 
         if !nodes.is_empty() {
             nodes.sort_by(|a, b| a.cmp_by_distance_to_id(b, id));
+            nodes.truncate(K_NODE_PER_BUCKET);
             Some(nodes)
         } else {
             warn!(
-- 
2.43.0


From 32d73de6e120e6fa02e21fcf34e3307880692109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 41/59] fix: don't use a corrupt cached routing table

One without buckets, for example, made every lookup panic.
---
 src/dht/routing_table/table.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index c067ccf..3282d98 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -2,7 +2,7 @@ use super::bucket::Bucket;
 use super::{Node, K_NODE_PER_BUCKET};
 use crate::data_structures::{ID, ID_BIT_COUNT};
 use crate::dht::krpc_message::Nodes;
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, bail, Result};
 use serde::{Deserialize, Serialize};
 use std::net::SocketAddrV4;
 use tokio::fs::{DirBuilder, File};
@@ -42,7 +42,27 @@ impl RoutingTable {
         let mut file = File::open(path).await?;
         file.read_to_end(&mut buf).await?;
 
-        Ok(bincode::deserialize(&buf)?)
+        let table: Self = bincode::deserialize(&buf)?;
+
+        if !table.is_well_formed() {
+            bail!("cached routing table is corrupt");
+        }
+
+        Ok(table)
+    }
+
+    fn is_well_formed(&self) -> bool {
+        let last_idx = self.data.len().wrapping_sub(1);
+
+        (1..=ID_BIT_COUNT + 1).contains(&self.data.len())
+            && self.data.iter().enumerate().all(|(idx, bucket)| {
+                let depth = if idx == last_idx { idx } else { idx + 1 };
+
+                bucket.depth() == depth
+                    && bucket
+                        .iter_nodes()
+                        .all(|node| self.find_bucket_idx_by_id(&node.id) == idx)
+            })
     }
 
     pub async fn store(&self) {
-- 
2.43.0


From 03e6c76174058c832dc7ec38884feb9efb0085bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 42/59] fix: fit the response to get_peers into the MTU

---
 src/dht/dht_manager.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dht/dht_manager.rs b/src/dht/dht_manager.rs
index 5347858..ab5ffb5 100644
--- a/src/dht/dht_manager.rs
+++ b/src/dht/dht_manager.rs
@@ -20,6 +20,12 @@ use std::{
 use tokio::{select, sync::mpsc};
 use tracing::{instrument, warn};
 
+// everything in a response to get_peers but its peers, with room for a long transaction id
+const GET_PEERS_RESP_OVERHEAD: usize = 128;
+// bencoded peer is prefixed by its length
+const ENCODED_PEER_LEN: usize = "6:".len() + COMPACT_PEER_LEN;
+const MAX_PEERS_IN_RESP: usize = (DHT_MTU - GET_PEERS_RESP_OVERHEAD) / ENCODED_PEER_LEN;
+
 type PeerMap = HashMap<ID, HashSet<Peer>>;
 
 const MAX_SECS_INTERVAL_BETWEEN_NODE_REFRESH: f64 = 200.0;
@@ -170,13 +176,13 @@ async fn process_get_peers_query(
 
 fn find_peers(info_hash: ID, torrent_peers: &Peers, dht_peer_map: &PeerMap) -> Option<Vec<Peer>> {
     if torrent_peers.serve(&info_hash) {
-        torrent_peers.get_good_peers(DHT_MTU / COMPACT_PEER_LEN)
+        torrent_peers.get_good_peers(MAX_PEERS_IN_RESP)
     } else {
         let mut rng = thread_rng();
         dht_peer_map.get(&info_hash).map(|peers| {
             peers
                 .iter()
-                .choose_multiple(&mut rng, DHT_MTU / COMPACT_PEER_LEN)
+                .choose_multiple(&mut rng, MAX_PEERS_IN_RESP)
                 .into_iter()
                 .cloned()
                 .collect()
-- 
2.43.0


From a21f96e329bc15470eb2e9ffce2bf1e97def26b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 43/59] fix: refresh the routing table while messages arrive

Every message cancelled the tick and the next one started from zero.
---
 src/capped_growing_interval.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/capped_growing_interval.rs b/src/capped_growing_interval.rs
index 3ec3e89..297a820 100644
--- a/src/capped_growing_interval.rs
+++ b/src/capped_growing_interval.rs
@@ -1,9 +1,10 @@
 use std::time::Duration;
-use tokio::time::sleep;
+use tokio::time::{sleep_until, Instant};
 pub struct CappedGrowingInterval {
     growth_formula: fn(f64) -> f64,
     iter_count: usize,
     max: f64,
+    deadline: Option<Instant>, // of the tick that was started last, kept when it's cancelled
 }
 
 impl CappedGrowingInterval {
@@ -12,17 +13,32 @@ impl CappedGrowingInterval {
             growth_formula,
             iter_count: 0,
             max,
+            deadline: None,
         }
     }
 
     pub async fn tick(&mut self) {
-        let sleep_duration = [(self.growth_formula)(self.iter_count as f64), self.max]
+        let deadline = match self.deadline {
+            Some(deadline) => deadline,
+            None => {
+                let deadline = Instant::now() + self.next_sleep_duration();
+                self.deadline = Some(deadline);
+                deadline
+            }
+        };
+
+        sleep_until(deadline).await;
+
+        self.deadline = None;
+        self.iter_count += 1;
+    }
+
+    fn next_sleep_duration(&self) -> Duration {
+        let secs = [(self.growth_formula)(self.iter_count as f64), self.max]
             .into_iter()
             .min_by(|a, b| a.partial_cmp(b).unwrap())
             .unwrap();
 
-        sleep(Duration::from_secs_f64(sleep_duration)).await;
-
-        self.iter_count += 1;
+        Duration::from_secs_f64(secs)
     }
 }
-- 
2.43.0


From 2514695b23589f3524ffde5e7bd686687f8d6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 44/59] fix: don't turn the pieces' bytes into ids in place

The vector's capacity isn't always a multiple of an id's length, it was
deallocated with a layout it wasn't allocated with.
---
 src/transcoding/metainfo.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 9b7fa6b..34b4f80 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -376,7 +376,7 @@ impl FromBencode for File {
     }
 }
 
-fn deserialize_pieces_field(mut raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
+fn deserialize_pieces_field(raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
     if raw.is_empty() || raw.len() % ID_LEN > 0 {
         return Err(bendy::decoding::Error::missing_field(format!(
             "Info::pieces must be 20-byte SHA1 hash values but it has len={}",
@@ -384,13 +384,10 @@ fn deserialize_pieces_field(mut raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding
         )));
     }
 
-    let piece_hashes = unsafe {
-        let length = raw.len() / ID_LEN;
-        let capacity = raw.capacity() / ID_LEN;
-        let ptr = raw.as_mut_ptr() as *mut ID;
-        std::mem::forget(raw);
-        Vec::from_raw_parts(ptr, length, capacity)
-    };
+    let piece_hashes = raw
+        .chunks_exact(ID_LEN)
+        .map(|hash| ID::new(hash.try_into().expect("chunk is as long as an id")))
+        .collect();
 
     Ok(piece_hashes)
 }
-- 
2.43.0


From 3cd4f41ec9a525323490b0260a69165f459c2386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 45/59] fix: refuse inconsistent metainfo and names that are no
 plain names

Names like .. made files be written outside of the torrent's directory,
wrong lengths and piece counts made the client panic.
---
 src/transcoding/metainfo.rs | 58 +++++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 34b4f80..3eb68fb 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -1,7 +1,7 @@
 use crate::data_structures::{ID, ID_LEN};
 use crate::peers::connection::connection_manager::BLOCK_SIZE;
 use crate::{ok_or_missing_field, unsigned_ceil_div};
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, bail, Result};
 use bendy::decoding::{Decoder, FromBencode, Object};
 use bendy::encoding::AsString;
 use openssl::sha;
@@ -48,7 +48,10 @@ pub enum TrackerAddr {
 
 impl Torrent {
     pub fn from_buf(buf: &[u8]) -> Result<Self> {
-        Ok(Self::from_bencode(buf)?)
+        let torrent = Self::from_bencode(buf)?;
+        torrent.info.validate()?;
+
+        Ok(torrent)
     }
 
     pub fn from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
@@ -234,6 +237,57 @@ impl Info {
             Mode::Multi { files } => files.iter().map(|file| file.length).sum(),
         }
     }
+
+    fn validate(&self) -> Result<()> {
+        validate_path_component(&self.name)?;
+
+        let length = match &self.mode {
+            Mode::Single { length } => *length,
+            Mode::Multi { files } => {
+                for file in files {
+                    if file.path.is_empty() {
+                        bail!("file without a path");
+                    }
+
+                    file.path
+                        .iter()
+                        .try_for_each(|name| validate_path_component(name))?;
+                }
+
+                files
+                    .iter()
+                    .try_fold(0u64, |sum, file| sum.checked_add(file.length))
+                    .ok_or(anyhow!("torrent is too long"))?
+            }
+        };
+
+        if length == 0 || self.piece_length == 0 {
+            bail!(
+                "torrent has length {length} and piece length {}",
+                self.piece_length
+            );
+        }
+
+        let piece_count = unsigned_ceil_div!(length, self.piece_length);
+
+        if self.pieces.len() as u64 != piece_count {
+            bail!(
+                "torrent has {} piece hashes, expected {piece_count}",
+                self.pieces.len()
+            );
+        }
+
+        Ok(())
+    }
+}
+
+// names come from whoever made the torrent, they must not lead out of its directory
+fn validate_path_component(name: &str) -> Result<()> {
+    if matches!(name, "" | "." | "..") || name.contains(['/', '\0']) {
+        bail!("{name:?} can't be the name of a file or a directory");
+    }
+
+    Ok(())
 }
 
 impl TrackerAddr {
-- 
2.43.0


From 330b82e1c7c550054ac79d75ba8bd8807c30257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 46/59] fix: announce to trackers whose URL has a query

---
 src/tracker/announce.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracker/announce.rs b/src/tracker/announce.rs
index 74e4e62..0cc1424 100644
--- a/src/tracker/announce.rs
+++ b/src/tracker/announce.rs
@@ -25,7 +25,8 @@ impl Announce {
     pub fn as_url(&self) -> String {
         let mut s = self.tracker_url.clone();
 
-        s.push_str("?info_hash=");
+        s.push(if s.contains('?') { '&' } else { '?' });
+        s.push_str("info_hash=");
         s.push_str(urlencoding::encode_binary(self.info_hash.as_byte_ref()).as_ref());
 
         s.push_str("&peer_id=");
-- 
2.43.0


From 087e139ffdfcdfa7f7c8365f2ad3b984950e97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 47/59] fix: url-encode the tracker id

---
 src/tracker/announce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/announce.rs b/src/tracker/announce.rs
index 0cc1424..169cd9d 100644
--- a/src/tracker/announce.rs
+++ b/src/tracker/announce.rs
@@ -63,7 +63,7 @@ impl Announce {
 
         if let Some(tracker_id) = &self.tracker_id {
             s.push_str("&trackerid=");
-            s.push_str(tracker_id);
+            s.push_str(urlencoding::encode(tracker_id).as_ref());
         }
 
         s
-- 
2.43.0


From 0bfc377c2d606baa68f4098556901f0281ff9f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 48/59] fix: send back the tracker id that was received last

---
 src/tracker/tracker_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 6ad9e8c..5dd04df 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -84,7 +84,7 @@ async fn manage_http_tracker(
     while let Some(response) = contact_tracker(&announce, &mut shutdown_rx).await {
         peers.extend(&response.peers);
 
-        if announce.tracker_id.is_none() && response.tracker_id.is_some() {
+        if response.tracker_id.is_some() {
             announce.tracker_id = response.tracker_id.clone();
         };
 
-- 
2.43.0


From 6b75c820e460bfe148d1280867a14d9b6f9bce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 49/59] fix: accept tracker responses without the optional
 counts

---
 src/tracker/response.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tracker/response.rs b/src/tracker/response.rs
index 81105c8..b89335f 100644
--- a/src/tracker/response.rs
+++ b/src/tracker/response.rs
@@ -79,8 +79,8 @@ impl FromBencode for Response {
             interval: ok_or_missing_field!(interval)?,
             min_interval,
             tracker_id,
-            complete: ok_or_missing_field!(complete)?,
-            incomplete: ok_or_missing_field!(incomplete)?,
+            complete: complete.unwrap_or(0),
+            incomplete: incomplete.unwrap_or(0),
             peers: ok_or_missing_field!(peers)?,
         })
     }
-- 
2.43.0


From dcf75a53f5eee16b822c9b0f9369ebc810c141b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 50/59] fix: tell peers that have missing pieces of the
 interest in them

Peers don't unchoke those who are not interested, so nothing could be
downloaded from them.
---
 src/torrent_manager.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index b93cefe..19ff7e3 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -65,6 +65,7 @@ pub struct TorrentManager {
 struct PeerInfo {
     choking: bool,
     interested: bool,
+    told_interested: bool,
     haves: Bitmap,
     working: Bitmap,
 }
@@ -74,6 +75,7 @@ impl PeerInfo {
         Self {
             choking: true,
             interested: false,
+            told_interested: false,
             haves: Bitmap::new(piece_count),
             working: Bitmap::new(piece_count),
         }
@@ -290,9 +292,12 @@ impl TorrentManager {
                         self.frequency_map[piece_idx as usize] += 1;
                     }
                 }
+
+                self.tell_if_interested(peer).await;
             }
             ConMessageType::Bitfield(bitfield) => {
-                self.accept_bitfield_if_its_first(bitfield.as_ref(), peer)
+                self.accept_bitfield_if_its_first(bitfield.as_ref(), peer);
+                self.tell_if_interested(peer).await;
             }
             // peers are never unchoked, so there's nothing to serve or to stop serving
             ConMessageType::Request(_) | ConMessageType::Cancel(_) => (),
@@ -300,6 +305,29 @@ impl TorrentManager {
         }
     }
 
+    // peers don't unchoke those who are not interested
+    async fn tell_if_interested(&mut self, peer: Peer) {
+        let Some(peer_info) = self.active_peers.get_mut(&peer) else {
+            return;
+        };
+
+        let has_missing_piece = peer_info
+            .haves
+            .iter()
+            .zip(self.local_data.iter())
+            .any(|(peer_has_piece, downloaded)| peer_has_piece && !downloaded);
+
+        if peer_info.told_interested || !has_missing_piece {
+            return;
+        }
+
+        peer_info.told_interested = true;
+
+        if let Err(e) = self.connection.interested(true, peer).await {
+            warn!(?e);
+        }
+    }
+
     async fn store_piece(&mut self, piece: FinishedPiece) {
         let piece_idx = piece.idx;
 
-- 
2.43.0


From 059b860a8d93668f481518b2b8cfabc0a76d2d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 51/59] verif: choose the download directory behind cfg
 nargun_verif

---
 src/torrent_manager.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 19ff7e3..97d56c9 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -100,7 +100,14 @@ impl TorrentManager {
                     metainfo.info.length() as usize,
                     dht_tx,
                 ),
+                #[cfg(not(nargun_verif))]
                 fs: FS::new("/home/gvelesa/rust/narpath", metainfo.info.to_owned()).await,
+                #[cfg(nargun_verif)]
+                fs: FS::new(
+                    &std::env::var("NARGUN_VERIF_BASE_DIR").unwrap(),
+                    metainfo.info.to_owned(),
+                )
+                .await,
                 active_peers: HashMap::with_capacity(MAX_ACTIVE_PEERS),
                 inactive_peers: Vec::with_capacity(MAX_ACTIVE_PEERS),
                 peers,
-- 
2.43.0


From 2d64a87ae8109d92c4e4f1c171a4aff6a5909141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 52/59] verif: tracker messages in the library face

---
 src/lib.rs         |  1 +
 src/tracker/mod.rs | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7b9ec56..3e30c9b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -30,6 +30,7 @@ pub mod verif {
         pub use crate::torrent_manager::*;
     }
     pub mod tracker {
+        pub use crate::tracker::verif::*;
         pub use crate::tracker::*;
     }
     pub mod transcoding {
diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index abb5e7a..6f954dc 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -3,3 +3,13 @@ mod response;
 mod tracker_manager;
 
 pub use tracker_manager::spawn_tracker_managers;
+
+#[cfg(nargun_verif)]
+pub mod verif {
+    pub mod announce {
+        pub use crate::tracker::announce::*;
+    }
+    pub mod response {
+        pub use crate::tracker::response::*;
+    }
+}
-- 
2.43.0


From 10f9850ff50197039cd0a8ef6585748e913b3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 53/59] fix: tell the tracker about a shutdown that comes while
 announcing again

---
 src/tracker/tracker_manager.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 5dd04df..f53038e 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -81,7 +81,11 @@ async fn manage_http_tracker(
         tracker_id: None,
     };
 
+    let mut known_to_tracker = false;
+
     while let Some(response) = contact_tracker(&announce, &mut shutdown_rx).await {
+        known_to_tracker = true;
+
         peers.extend(&response.peers);
 
         if response.tracker_id.is_some() {
@@ -89,14 +93,7 @@ async fn manage_http_tracker(
         };
 
         tokio::select! {
-            _ = shutdown_rx.recv() => {
-                announce.event = Some(AnnounceEvent::Stopped);
-                announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
-                // announce.uploaded = TODO
-                // announce.downloaded = TODO
-                let _ = send_request(&announce.as_url()).await;
-                break;
-            },
+            _ = shutdown_rx.recv() => break,
             _ = sleep(Duration::from_secs(response.interval)) => {
                 announce.event = None;
             }
@@ -107,7 +104,7 @@ async fn manage_http_tracker(
                     },
                     Err(e) => {
                         warn!(?e);
-                        break;
+                        return;
                     },
                 }
             }
@@ -118,6 +115,16 @@ async fn manage_http_tracker(
         // announce.downloaded = TODO
     }
 
+    // shutdown may have come while announcing again
+    if known_to_tracker {
+        announce.event = Some(AnnounceEvent::Stopped);
+        announce.left =
+            (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
+        // announce.uploaded = TODO
+        // announce.downloaded = TODO
+        let _ = send_request(&announce.as_url()).await;
+    }
+
     trace!("exit");
 }
 
-- 
2.43.0


From d550fc754ccdf6988c742248e3ab35a72859761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 54/59] fix: pieces abandoned by peers that left occupied slots
 of pieces under way, until none could be started

---
 src/peers/connection/connection_handle.rs |  5 +++++
 src/peers/connection/pending_pieces.rs    |  4 ++++
 src/torrent_manager.rs                    | 10 +++++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 855a65f..54339f2 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -195,6 +195,11 @@ impl Connection {
         Ok(())
     }
 
+    // otherwise, it would occupy a slot of a piece that can be downloaded
+    pub fn forget_piece(&mut self, piece_idx: usize) {
+        self.pending_pieces.remove_piece(piece_idx);
+    }
+
     pub async fn choke(&self, yn: bool, peer: Peer) -> Result<()> {
         let message = if yn { Message::Choke } else { Message::Unchoke };
 
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index a0e9798..de68cc1 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -102,6 +102,10 @@ impl PendingPieces {
         Ok(())
     }
 
+    pub fn remove_piece(&mut self, idx: usize) {
+        self.data.lock().unwrap().remove(&idx);
+    }
+
     pub fn add_block_data(
         &mut self,
         piece_idx: usize,
diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 97d56c9..82111d0 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -177,7 +177,13 @@ impl TorrentManager {
             .download_piece(peer, piece_idx, piece_hash)
             .await
         {
-            Err(e) => error!(?e),
+            Err(e) => {
+                error!(?e);
+
+                if self.assigned_peer_count[piece_idx] == 0 {
+                    self.connection.forget_piece(piece_idx);
+                }
+            }
             Ok(_) => {
                 self.mark_piece_as_ongoing(peer, piece_idx);
             }
@@ -345,6 +351,7 @@ impl TorrentManager {
             Err(e) => error!(?e),
         }
 
+        self.connection.forget_piece(piece_idx);
         self.active_pieces.change(piece_idx, false);
         self.assigned_peer_count[piece_idx] = 0;
 
@@ -368,6 +375,7 @@ impl TorrentManager {
 
                 if self.assigned_peer_count[piece_idx] == 0 {
                     self.active_pieces.change(piece_idx, false);
+                    self.connection.forget_piece(piece_idx);
                 }
             }
         }
-- 
2.43.0


From e81b269f6ab7f8d4c8a3e20f07203fa25fdf1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 55/59] fix: forgotten far nodes were asked for peers again and
 again in one round, without end

---
 src/dht/peer_fetcher.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/dht/peer_fetcher.rs b/src/dht/peer_fetcher.rs
index 9b11eeb..07458fa 100644
--- a/src/dht/peer_fetcher.rs
+++ b/src/dht/peer_fetcher.rs
@@ -11,7 +11,7 @@ use crate::{
 use anyhow::bail;
 use std::{
     cmp::Ordering,
-    collections::{hash_map::Entry::Vacant, HashMap},
+    collections::{HashMap, HashSet},
     net::SocketAddrV4,
     time::Duration,
 };
@@ -83,6 +83,9 @@ async fn fetch_peers(
         connection.send_get_peers(*info_hash, *addr).await?;
     }
 
+    // far nodes are forgotten, but there's no need to ask them twice
+    let mut already_asked: HashSet<SocketAddrV4> = active_nodes.keys().copied().collect();
+
     loop {
         let resp = tokio::select! {
             _ = sleep(Duration::from_secs(3)) => { break },
@@ -113,7 +116,14 @@ async fn fetch_peers(
                     token,
                 };
 
-                get_peers_from_new_nodes(*info_hash, nodes, active_nodes, connection).await?;
+                get_peers_from_new_nodes(
+                    *info_hash,
+                    nodes,
+                    active_nodes,
+                    &mut already_asked,
+                    connection,
+                )
+                .await?;
             }
         }
 
@@ -184,12 +194,13 @@ async fn get_peers_from_new_nodes(
     info_hash: ID,
     new_nodes: Nodes,
     active_nodes: &mut NodeMap,
+    already_asked: &mut HashSet<SocketAddrV4>,
     connection: &mut QueryingConnection,
 ) -> Result<(), ConError> {
     for Node { addr, id, .. } in new_nodes.iter() {
-        if let Vacant(vacant_entry) = active_nodes.entry(*addr) {
+        if already_asked.insert(*addr) {
             connection.send_get_peers(info_hash, *addr).await?;
-            vacant_entry.insert(NodeCloseToInfoHash::Unknown(*id));
+            active_nodes.insert(*addr, NodeCloseToInfoHash::Unknown(*id));
         }
     }
 
-- 
2.43.0


From a5e902c163cca8d0df8edf1d5423114f6078263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 56/59] fix: answers of many nodes stopped the DHT, its tasks
 waited for each other

---
 .../channel_message/to_connection.rs          |  2 +-
 src/dht/connection/connection_handle.rs       | 36 +++++++++----------
 src/dht/connection/connection_manager.rs      |  6 ++--
 src/dht/connection/pending.rs                 |  4 +--
 4 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/dht/connection/channel_message/to_connection.rs b/src/dht/connection/channel_message/to_connection.rs
index f8b16e8..0cc8889 100644
--- a/src/dht/connection/channel_message/to_connection.rs
+++ b/src/dht/connection/channel_message/to_connection.rs
@@ -8,7 +8,7 @@ use tokio::sync::mpsc;
 #[derive(Debug)]
 pub enum ToCon {
     Query {
-        resp_returner: mpsc::Sender<FromConResp>,
+        resp_returner: mpsc::UnboundedSender<FromConResp>,
         target: SocketAddrV4,
         variant: ToConQuery,
     },
diff --git a/src/dht/connection/connection_handle.rs b/src/dht/connection/connection_handle.rs
index 169fb0e..2cf2b41 100644
--- a/src/dht/connection/connection_handle.rs
+++ b/src/dht/connection/connection_handle.rs
@@ -11,15 +11,15 @@ pub const DHT_MTU: usize = 1300;
 #[derive(Debug)]
 pub struct Connection {
     querying_connection: QueryingConnection,
-    send_message: mpsc::Sender<ToCon>,
+    send_message: mpsc::UnboundedSender<ToCon>,
     query_listener: mpsc::Receiver<FromConQuery>,
 }
 
 #[derive(Debug)]
 pub struct QueryingConnection {
-    send_message: mpsc::Sender<ToCon>,
-    response_receiver_channel_rx: mpsc::Receiver<FromConResp>,
-    response_receiver_channel_tx: mpsc::Sender<FromConResp>,
+    send_message: mpsc::UnboundedSender<ToCon>,
+    response_receiver_channel_rx: mpsc::UnboundedReceiver<FromConResp>,
+    response_receiver_channel_tx: mpsc::UnboundedSender<FromConResp>,
 }
 
 impl QueryingConnection {
@@ -72,18 +72,16 @@ impl QueryingConnection {
             variant: query_variant,
         };
 
-        self.send_message
-            .send(msg)
-            .await
-            .map_err(|e| Error::ConDropped {
-                source: Some(Box::new(e)),
-            })
+        self.send_message.send(msg).map_err(|e| Error::ConDropped {
+            source: Some(Box::new(e)),
+        })
     }
 }
 
 impl Clone for QueryingConnection {
     fn clone(&self) -> Self {
-        let (response_receiver_channel_tx, response_receiver_channel_rx) = mpsc::channel(1 << 6);
+        let (response_receiver_channel_tx, response_receiver_channel_rx) =
+            mpsc::unbounded_channel();
         Self {
             send_message: self.send_message.clone(),
             response_receiver_channel_rx,
@@ -94,8 +92,11 @@ impl Clone for QueryingConnection {
 
 impl Connection {
     pub fn new(own_id: ID) -> Self {
-        let (send_to_remote_command_tx, send_to_remote_command_rx) = mpsc::channel(1 << 10);
-        let (response_receiver_channel_tx, response_receiver_channel_rx) = mpsc::channel(1 << 10);
+        // manager waits for the task that listens to queries, so nothing else can wait for each other.
+        // responses are limited by the number of queries sent
+        let (send_to_remote_command_tx, send_to_remote_command_rx) = mpsc::unbounded_channel();
+        let (response_receiver_channel_tx, response_receiver_channel_rx) =
+            mpsc::unbounded_channel();
         let (query_listener_tx, query_listener_rx) = mpsc::channel(1 << 8);
 
         let querying_connection = QueryingConnection {
@@ -164,11 +165,8 @@ impl Connection {
             variant: resp_variant,
         };
 
-        self.send_message
-            .send(msg)
-            .await
-            .map_err(|e| Error::ConDropped {
-                source: Some(Box::new(e)),
-            })
+        self.send_message.send(msg).map_err(|e| Error::ConDropped {
+            source: Some(Box::new(e)),
+        })
     }
 }
diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index b1a300c..93ae03b 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -14,7 +14,7 @@ pub const MTU: usize = 1300;
 pub struct ConnectionManager {
     own_id: ID,
     sock: UdpSocket,
-    send_to_remote: mpsc::Receiver<ToCon>,
+    send_to_remote: mpsc::UnboundedReceiver<ToCon>,
     query_listener: mpsc::Sender<FromConQuery>,
     pending: PendingRequests,
     secret: ID,
@@ -29,7 +29,7 @@ pub struct QueryId {
 impl ConnectionManager {
     pub fn start(
         own_id: ID,
-        send_to_remote: mpsc::Receiver<ToCon>,
+        send_to_remote: mpsc::UnboundedReceiver<ToCon>,
         query_listener: mpsc::Sender<FromConQuery>,
     ) {
         tokio::spawn(async move {
@@ -238,7 +238,7 @@ impl ConnectionManager {
         };
 
         // a task that is gone doesn't need the response
-        if querying_task_channel.send(resp).await.is_err() {
+        if querying_task_channel.send(resp).is_err() {
             info!("response to a finished task dropped");
         }
     }
diff --git a/src/dht/connection/pending.rs b/src/dht/connection/pending.rs
index 7b44eaf..fa91313 100644
--- a/src/dht/connection/pending.rs
+++ b/src/dht/connection/pending.rs
@@ -9,7 +9,7 @@ use tokio::sync::mpsc;
 #[derive(Clone, Debug)]
 pub struct PendingRequests(HashMap<SerializableBuf, (RequestType, Requester)>);
 
-type Requester = mpsc::Sender<FromConResp>;
+type Requester = mpsc::UnboundedSender<FromConResp>;
 
 #[derive(Clone, Debug, PartialEq)]
 pub enum RequestType {
@@ -52,7 +52,7 @@ impl RequestType {
 
 impl From<&Message> for RequestType {
     fn from(item: &Message) -> Self {
-        let Message::Query{arguments, ..} = item else{
+        let Message::Query { arguments, .. } = item else {
             panic!("this should be a query");
         };
 
-- 
2.43.0


From 7ce195d86278c3086ace3dd7584f57bb85f24f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 57/59] fix: peers that answer nothing were asked for the same
 blocks again and again, before any other peer

---
 src/peers/connection/pending_pieces.rs | 44 ++++++++++++++++++++------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index de68cc1..c6a3609 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -16,12 +16,16 @@ use super::downloader::BlockAddress;
 
 const MAX_PIECES_DOWNLOADING: usize = 10;
 const MAINLINE_TCP_REQUEST_TIMEOUT_SECS: u64 = 7;
+// peers that answer nothing leave overdue blocks to the others, longer each time
+const LATENESS_PENALTY_SECS: u64 = 3;
+const MAX_LATENESS: u64 = 20;
 
 #[derive(Clone)]
 pub struct PendingPieces {
     piece_length: usize,
     torrent_length: usize,
     copy_owner: Option<Peer>,
+    owner_lateness: u64,
     data: Arc<StdMutex<HashMap<usize, Piece>>>,
 }
 
@@ -62,6 +66,7 @@ impl PendingPieces {
             piece_length,
             torrent_length,
             copy_owner: None,
+            owner_lateness: 0,
             data: Arc::new(StdMutex::new(HashMap::with_capacity(
                 MAX_PIECES_DOWNLOADING,
             ))),
@@ -132,6 +137,7 @@ impl PendingPieces {
 
         *block = Block::Downloaded(block_data);
         piece.downloaded += 1;
+        self.owner_lateness = 0;
 
         if piece.data.len() == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
@@ -157,28 +163,44 @@ impl PendingPieces {
     }
 
     // the others are downloaded already, or another peer may be asked for them
-    pub fn retain_blocks_pending_from_owner(&self, block_buf: &mut Vec<BlockAddress>) {
+    pub fn retain_blocks_pending_from_owner(&mut self, block_buf: &mut Vec<BlockAddress>) {
         let Some(owner) = self.copy_owner else {
             return;
         };
 
         let data = self.data.lock().unwrap();
+        let mut owner_is_late = false;
 
         block_buf.retain(|address| {
-            data.get(&address.piece_idx)
+            let Some(block) = data
+                .get(&address.piece_idx)
                 .and_then(|piece| piece.data.get(address.block_idx))
-                .map(|block| block.is_expected_from(&owner) && !block.is_expired_pending())
-                .unwrap_or(false)
+                .filter(|block| block.is_expected_from(&owner))
+            else {
+                return false;
+            };
+
+            let is_expired = block.is_expired_pending();
+            owner_is_late |= is_expired;
+
+            !is_expired
         });
+
+        if owner_is_late && self.owner_lateness < MAX_LATENESS {
+            self.owner_lateness += 1;
+        }
     }
 
     pub fn take_not_good_blocks(&self, mut pieces: Vec<usize>, block_buf: &mut Vec<BlockAddress>) {
         let mut rng = thread_rng();
         pieces.shuffle(&mut rng);
 
-        let filters = [
-            |block: &Block| block.is(&Block::Unbegun),
-            |block: &Block| block.is_expired_pending(),
+        let timeout =
+            MAINLINE_TCP_REQUEST_TIMEOUT_SECS + self.owner_lateness * LATENESS_PENALTY_SECS;
+
+        let filters: [&dyn Fn(&Block) -> bool; 2] = [
+            &|block| block.is(&Block::Unbegun),
+            &|block| block.is_pending_for(timeout),
         ];
 
         let mut data = self.data.lock().unwrap();
@@ -208,7 +230,7 @@ impl PendingPieces {
     fn filtered_iter_over_blocks<'a>(
         piece_indexes: &'a [usize],
         data: &'a mut HashMap<usize, Piece>,
-        filter_closure: fn(&Block) -> bool,
+        filter_closure: &'a dyn Fn(&Block) -> bool,
     ) -> impl Iterator<Item = (&'a mut Block, BlockAddress)> + 'a {
         data.iter_mut()
             .filter_map(move |(piece_idx, piece)| {
@@ -294,11 +316,15 @@ impl Block {
     }
 
     fn is_expired_pending(&self) -> bool {
+        self.is_pending_for(MAINLINE_TCP_REQUEST_TIMEOUT_SECS)
+    }
+
+    fn is_pending_for(&self, secs: u64) -> bool {
         let Self::Pending(description) = self else {
             return false;
         };
 
-        description.time_sent.elapsed() > Duration::from_secs(MAINLINE_TCP_REQUEST_TIMEOUT_SECS)
+        description.time_sent.elapsed() > Duration::from_secs(secs)
     }
 
     fn is_expected_from(&self, target: &Peer) -> bool {
-- 
2.43.0


From 5982bfead5b778cb6d7d432fe048be26840def58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:31 +0000
Subject: [PATCH 58/59] fix: a block behind the end of a single-file torrent
 was read when its file was longer than the torrent

---
 src/fs/single_file_rw.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 49ded8e..bdc5fb3 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -35,6 +35,11 @@ impl Fs for SingleFileRw {
     ) -> Result<()> {
         let piece_start = index * self.info.piece_length as usize;
         let block_start = piece_start + begin;
+        let block_end = block_start + length;
+
+        if block_end > self.info.length() as usize {
+            bail!("block {block_start}..{block_end} is out of bounds");
+        }
 
         let file = self.files.get_read(&self.torrent_name).await?;
 
-- 
2.43.0


From 00aee435124bca9017dda5e96c43c6e2a6b55e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 59/59] fix: a stored routing table with the same node twice
 was loaded

---
 src/dht/routing_table/table.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 3282d98..e57fda4 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -4,6 +4,7 @@ use crate::data_structures::{ID, ID_BIT_COUNT};
 use crate::dht::krpc_message::Nodes;
 use anyhow::{anyhow, bail, Result};
 use serde::{Deserialize, Serialize};
+use std::collections::HashSet;
 use std::net::SocketAddrV4;
 use tokio::fs::{DirBuilder, File};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
@@ -57,8 +58,10 @@ impl RoutingTable {
         (1..=ID_BIT_COUNT + 1).contains(&self.data.len())
             && self.data.iter().enumerate().all(|(idx, bucket)| {
                 let depth = if idx == last_idx { idx } else { idx + 1 };
+                let ids: HashSet<_> = bucket.iter_nodes().map(|node| node.id).collect();
 
                 bucket.depth() == depth
+                    && ids.len() == bucket.iter_nodes().count()
                     && bucket
                         .iter_nodes()
                         .all(|node| self.find_bucket_idx_by_id(&node.id) == idx)
-- 
2.43.0

