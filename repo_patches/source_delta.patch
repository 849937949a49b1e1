From e5ad475393f25a2f9707735cc048879df87fdea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 01/32] fix: accept only hexadecimal digits in pkt-line headers

The ranges included the characters after '9' and 'f', so ':' and 'g' were
taken for digits and a header such as "fffg" overflowed.
---
 scutiger-core/src/pktline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 21ef9b9..554016e 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -109,8 +109,8 @@ impl<R: io::Read> Reader<R> {
             .enumerate()
             .map(|(i, x)| {
                 let v = match *x {
-                    b'0'...b':' => x - b'0',
-                    b'a'...b'g' => x - b'a' + 10,
+                    b'0'...b'9' => x - b'0',
+                    b'a'...b'f' => x - b'a' + 10,
                     _ => return Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
                 };
                 Ok((v as u16) << ((3 - i) * 4))
-- 
2.43.0


From b8f2776343ef8d7c1d23e1e47a8d06b6feb4875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 02/32] fix: refuse overlong packets in read_packet

read_one already refuses headers beyond the maximum packet length; reading
the same stream packet by packet accepted them.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 554016e..49300da 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -95,6 +95,9 @@ impl<R: io::Read> Reader<R> {
             0 => Ok(Packet::new(PacketType::Flush, b"")),
             1 => Ok(Packet::new(PacketType::Delim, b"")),
             2 | 3 => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
+            n if n > Self::MAX_PACKET_LEN + 4 => {
+                Err(Error::new_simple(ErrorKind::BadPktlineHeader))
+            }
             _ => {
                 let mut v = vec![0u8; size - 4];
                 self.rdr.read_exact(&mut v)?;
-- 
2.43.0


From 59c7afd93e5ea534cb6a9cb7dec133b916277238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 03/32] fix: refuse to write packets that have no legal
 encoding

A data packet of more than 65516 bytes was written with an illegal (or even
five-digit) header, which desynchronizes the receiver.
---
 scutiger-core/src/pktline.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 49300da..958f4e8 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -194,11 +194,12 @@ impl<W: io::Write> Writer<W> {
                 self.writer.write_all(b"0001")?;
                 Ok(4)
             }
-            PacketType::Data(_) => Self::write_one(
-                &mut self.writer,
-                pkt.data()
-                    .ok_or_else(|| Error::new_simple(ErrorKind::InvalidPacket))?,
-            ),
+            PacketType::Data(_) => match pkt.data() {
+                Some(data) if data.len() <= Self::MAX_PACKET_LEN => {
+                    Self::write_one(&mut self.writer, data)
+                }
+                _ => Err(Error::new_simple(ErrorKind::InvalidPacket)),
+            },
         }
     }
 }
-- 
2.43.0


From 735494198677a7672220c3b1f41931b6edc4b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 04/32] fix: do not consume packets when reading into an empty
 buffer

A read into an empty buffer swallowed a flush or delimiter packet, or threw
away the unread rest of the current packet.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 958f4e8..effe274 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -129,6 +129,9 @@ impl<R: io::Read> Reader<R> {
 
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let n = cmp::min(self.len - self.off, buf.len());
         if n > 0 {
             buf[0..n].copy_from_slice(&self.buf[self.off..self.off + n]);
-- 
2.43.0


From 8d6920874c58549c07afb18650fa44ec3175c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 05/32] fix: never take the rest of a request for the next
 request

When a request was refused before all of it had been read, its remaining
arguments and data were executed as requests of their own.  Reading to a
delimiter also ran past the end of the request, and a request cut short by
the end of input or by a malformed packet was executed as if it were complete.
Keep track of where the current request ends, discard what is left of it, and
stop when it is incomplete or malformed.
---
 scutiger-core/src/pktline.rs  | 21 +++++++++++++++++
 scutiger-lfs/src/processor.rs | 44 ++++++++++++++++++++++++++++-------
 2 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index effe274..1f042ab 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -55,6 +55,7 @@ pub struct Reader<R: io::Read> {
     buf: [u8; 65536],
     off: usize,
     len: usize,
+    last: Option<PacketType>,
 }
 
 impl<R: io::Read> Reader<R> {
@@ -66,9 +67,17 @@ impl<R: io::Read> Reader<R> {
             buf: [0u8; 65536],
             off: 0,
             len: 0,
+            last: None,
         }
     }
 
+    /// The type of the most recently read packet.
+    ///
+    /// Returns `None` if no packet has been read yet or if the last attempt to read one failed.
+    pub fn last_packet_type(&self) -> Option<PacketType> {
+        self.last
+    }
+
     fn read_one(rdr: &mut R, buf: &mut [u8]) -> Result<PacketType, Error> {
         let mut hdr = [0u8; 4];
         rdr.read_exact(&mut hdr)?;
@@ -87,7 +96,18 @@ impl<R: io::Read> Reader<R> {
         }
     }
 
+    /// Reads the next packet.
+    ///
+    /// If only a part of the last packet was read using `io::Read`, the rest of it is discarded.
     pub fn read_packet(&mut self) -> Result<Packet, Error> {
+        self.off = 0;
+        self.len = 0;
+        let res = self.read_next_packet();
+        self.last = res.as_ref().ok().map(|pkt| pkt.packet_type());
+        res
+    }
+
+    fn read_next_packet(&mut self) -> Result<Packet, Error> {
         let mut hdr = [0u8; 4];
         self.rdr.read_exact(&mut hdr)?;
         let size = Self::parse_header(hdr)? as usize;
@@ -149,6 +169,7 @@ impl<R: io::Read> io::Read for Reader<R> {
             } else {
                 (Self::read_one(&mut self.rdr, &mut self.buf), true)
             };
+            self.last = r.as_ref().ok().copied();
             let n = match (r, copy) {
                 (Ok(PacketType::Delim), _) => return Ok(0),
                 (Ok(PacketType::Flush), _) => return Ok(0),
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 220acaf..f5a270c 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -108,14 +108,31 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
     }
 
     pub fn read_to_type(&mut self, typ: pktline::PacketType) -> Result<Vec<Bytes>, Error> {
-        self.rdr
-            .iter()
-            .take_while(|pkt| match pkt {
-                Ok(pkt) if pkt.packet_type() == typ => false,
-                _ => true,
-            })
-            .map(|pkt| pkt.map(|p| p.data().unwrap_or(b"").into()))
-            .collect()
+        let mut data = vec![];
+        loop {
+            let pkt = self.rdr.read_packet()?;
+            match pkt.packet_type() {
+                t if t == typ => return Ok(data),
+                // The request ends here, so there's nothing more to read.
+                pktline::PacketType::Flush => {
+                    return Err(Error::new_simple(ErrorKind::UnexpectedPacket))
+                }
+                _ => data.push(pkt.data().unwrap_or(b"").into()),
+            }
+        }
+    }
+
+    /// Discards everything up to the end of the current request.
+    ///
+    /// Fails if the request is incomplete or contains something which is not a packet.
+    pub fn finish_request(&mut self) -> Result<(), Error> {
+        loop {
+            match self.rdr.last_packet_type() {
+                Some(pktline::PacketType::Flush) => return Ok(()),
+                Some(_) => self.rdr.read_packet()?,
+                None => return Err(Error::new_simple(ErrorKind::InvalidPacket)),
+            };
+        }
     }
 
     pub fn read_to_delim(&mut self) -> Result<Vec<Bytes>, Error> {
@@ -493,6 +510,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 format!("expected oid {}, got {}", oid, actual_oid),
             ));
         }
+        if self.handler.rdr.last_packet_type() != Some(pktline::PacketType::Flush) {
+            return Err(Error::new_simple(ErrorKind::UnexpectedPacket));
+        }
         self.backend.finish_upload(state)?;
         Ok(Status::success())
     }
@@ -665,6 +685,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             };
             let msgs: Vec<_> = match pkt.data() {
                 Some(b"") => {
+                    self.handler.finish_request()?;
                     self.handler.send_error(400, "no command provided")?;
                     continue;
                 }
@@ -677,6 +698,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     bs.split(|&b| b == b' ').collect()
                 }
                 None => {
+                    self.handler.finish_request()?;
                     self.handler.send_error(400, "unknown command")?;
                     continue;
                 }
@@ -702,6 +724,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 }
                 (_, _, _) => self.error(400, "unknown command"),
             };
+            // Discard whatever is left of this request so that it isn't taken for the next one.  If
+            // the request isn't complete or isn't valid, there's no way to find the next one.
+            let broken = self.handler.finish_request().err();
             match resp {
                 Ok(st) => self.handler.send_status(st),
                 Err(e) => match e.kind() {
@@ -724,6 +749,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     )),
                 },
             }?;
+            if let Some(e) = broken {
+                return Err(e);
+            }
         }
     }
 }
-- 
2.43.0


From 494b9f6cfb4bec88ce61aa4bfb12e52d018ef99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 06/32] fix: retry a lock whose holder vanished

If the lock that was in the way had been removed by the time it was read, the
session panicked instead of trying again.
---
 scutiger-lfs/src/processor.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index f5a270c..af9f05b 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -364,6 +364,8 @@ pub struct Processor<'a, R: io::Read, W: io::Write> {
 }
 
 impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
+    const LOCK_ATTEMPTS: usize = 16;
+
     pub fn new(handler: PktLineHandler<R, W>, backend: Box<dyn Backend + 'a>) -> Self {
         Processor { handler, backend }
     }
@@ -558,16 +560,14 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             }
         };
         let lock_backend = self.backend.lock_backend();
-        let mut retried = false;
-        while !retried {
+        // Somebody else might remove the lock between our attempt to create it and our reading it, so
+        // try again in that case, but don't do so forever.
+        for _ in 0..Self::LOCK_ATTEMPTS {
             let (ok, lock) = match lock_backend.create(path) {
                 Ok(l) => (true, l),
                 Err(e) if e.kind() == ErrorKind::Conflict => match lock_backend.from_path(path) {
                     Ok(Some(l)) => (false, l),
-                    Ok(None) => {
-                        retried = true;
-                        continue;
-                    }
+                    Ok(None) => continue,
                     Err(e) => return Err(e),
                 },
                 Err(e) => return Err(e),
@@ -582,7 +582,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             };
         }
-        unreachable!()
+        Err(Error::new_simple(ErrorKind::Conflict))
     }
 
     fn list_locks_for_path(
-- 
2.43.0


From 00e42a5b931f34b1e829dcfd41ddc2f739a75a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 07/32] fix: give each lock request a temporary file of its own

The temporary file's name depended only on the path to be locked, so a request
that found it in use removed the file of the request that was using it, and a
session that died left a file behind that made the path impossible to lock.
---
 scutiger-lfs/src/backend/local.rs | 51 ++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9ec1dbb..497aea4 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -10,6 +10,7 @@ use std::fs;
 use std::io;
 use std::io::{Read, Write};
 use std::path::{Path, PathBuf};
+use std::process;
 use std::time::SystemTime;
 use tempfile::{Builder, NamedTempFile};
 
@@ -150,33 +151,39 @@ impl<'a> Backend for LocalBackend<'a> {
 struct LockFile {
     path: PathBuf,
     temp: PathBuf,
+    file: fs::File,
 }
 
 impl LockFile {
+    /// Creates a temporary file for the lock at `path`.
+    ///
+    /// The file belongs to this process alone: it is never shared with another process that is
+    /// locking the same path, nor is it confused with one left behind by a process that died.
     fn new(path: &Path) -> Result<LockFile, Error> {
-        let mut temp = path.to_owned();
-        temp.set_extension("lock");
-        Ok(LockFile {
-            path: path.to_owned(),
-            temp,
-        })
+        let mut serial: u64 = 0;
+        loop {
+            let temp = path.with_extension(format!("{}-{}.lock", process::id(), serial));
+            match fs::OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(&temp)
+            {
+                Ok(file) => {
+                    return Ok(LockFile {
+                        path: path.to_owned(),
+                        temp,
+                        file,
+                    })
+                }
+                Err(e) if e.kind() == io::ErrorKind::AlreadyExists => serial += 1,
+                Err(e) => return Err(e.into()),
+            }
+        }
     }
 
-    fn write(&self, data: &[u8]) -> Result<(), Error> {
-        let mut f = match fs::OpenOptions::new()
-            .write(true)
-            .create_new(true)
-            .open(&self.temp)
-        {
-            Ok(f) => f,
-            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
-                return Err(Error::new_simple(ErrorKind::Conflict))
-            }
-            Err(e) => return Err(e.into()),
-        };
-        f.write_all(data)?;
-        f.flush()?;
-        drop(f);
+    fn write(&mut self, data: &[u8]) -> Result<(), Error> {
+        self.file.write_all(data)?;
+        self.file.flush()?;
         Ok(())
     }
 
@@ -333,7 +340,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
-        let lock = LockFile::new(&filename)?;
+        let mut lock = LockFile::new(&filename)?;
         lock.write(&b)?;
         lock.persist()?;
         let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
-- 
2.43.0


From 782df4d7949208600c19ad2a599a469dfc527311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 08/32] fix: treat only lock IDs as names of locks

An unlock request could name any file below or outside the lock directory, and
listings included the temporary files of requests in progress.
---
 scutiger-lfs/src/backend/local.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 497aea4..bd57442 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -225,6 +225,17 @@ impl LocalBackendLock {
         hex::encode(hash.finalize())
     }
 
+    /// Returns whether `id` could be the ID of a lock.
+    ///
+    /// Anything else must not be used as a file name: it may well be the name of a temporary file or
+    /// lead out of the lock directory altogether.
+    fn valid_id(id: &str) -> bool {
+        id.len() == 64
+            && id
+                .bytes()
+                .all(|x| x.is_ascii_digit() || (b'a'..=b'f').contains(&x))
+    }
+
     fn parse(data: Vec<u8>) -> Option<(i64, Bytes)> {
         let v: Vec<Vec<u8>> = data.splitn(3, |&x| x == b':').map(|x| x.into()).collect();
         if v.len() != 3 || v[0] != Self::VERSION.as_bytes() {
@@ -370,6 +381,9 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
     }
 
     fn from_id(&self, id: &str) -> Result<Option<Box<dyn Lock>>, Error> {
+        if !LocalBackendLock::valid_id(id) {
+            return Ok(None);
+        }
         let mut filename = self.lock_path.clone();
         filename.push(id);
         let mut f = match fs::OpenOptions::new().read(true).open(&filename) {
-- 
2.43.0


From 4c98fa98b0562631b8ee8019d38e3d1c21b7c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 09/32] fix: refuse lock files which do not belong to their ID

The record of a lock was accepted under any name, so a damaged or copied file
made a lock appear that nobody had been granted, and unlocking it by its ID
removed another lock.
---
 scutiger-lfs/src/backend/local.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index bd57442..77d60aa 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -395,8 +395,9 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         f.read_to_end(&mut v)?;
         let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
         let (time, parsed_path) = match LocalBackendLock::parse(v) {
-            Some(x) => x,
-            None => {
+            // A lock is valid only under the ID of its path.
+            Some((time, path)) if LocalBackendLock::hash_for(&path) == id => (time, path),
+            _ => {
                 return Err(Error::from_message(
                     ErrorKind::CorruptData,
                     "invalid parsed lock",
-- 
2.43.0


From 4bf013ca40f23283cb7d9c2dce95aca7fd73f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 10/32] fix: do not panic on a lock file with an out-of-range
 time

---
 scutiger-lfs/src/backend/local.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 77d60aa..608926a 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -243,6 +243,8 @@ impl LocalBackendLock {
         }
         let s: String = String::from_utf8(v[1].clone()).ok()?;
         let time = s.parse().ok()?;
+        // Make sure that we can format this time.
+        Utc.timestamp_opt(time, 0).single()?;
         Some((time, v[2].clone().into()))
     }
 
-- 
2.43.0


From a10a0095c88695382ad7bf4c5cc2f33602234c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 11/32] fix: do not list more locks than the limit

A page contained the lock its next-cursor pointed to, so it exceeded the limit
by one and the lock was listed again on the next page.
---
 scutiger-lfs/src/processor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index af9f05b..239ccf9 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -634,8 +634,11 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .take(limit + 1)
             .collect();
         let items = r?;
-        let lock_specs: Result<Vec<_>, _> =
-            items.iter().map(|l| l.as_lock_spec(use_owner_id)).collect();
+        let lock_specs: Result<Vec<_>, _> = items
+            .iter()
+            .take(limit)
+            .map(|l| l.as_lock_spec(use_owner_id))
+            .collect();
         let lock_specs = lock_specs?.iter().flatten().cloned().collect();
         let next_cursor: Vec<Bytes> = if items.len() == limit + 1 {
             vec![format!("next-cursor={}\n", items[limit].id()).into()]
-- 
2.43.0


From 492a534307879deb76c9250407ebb7e8f7e63846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 12/32] fix: set an object's permissions before it becomes
 visible

Between the rename and the change of permissions others could see an object
they could not read, and if the process died there it remained so.
---
 scutiger-lfs/src/backend/local.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 608926a..2027c04 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -95,14 +95,12 @@ impl<'a> Backend for LocalBackend<'a> {
         if let Some(parent) = dest_path.parent() {
             fs::create_dir_all(parent)?;
         }
-        state
-            .tempfile
-            .take()
-            .unwrap()
-            .into_temp_path()
+        let temp_path = state.tempfile.take().unwrap().into_temp_path();
+        // Set the permissions first so that the object never appears without them.
+        self.fix_permissions(&temp_path)?;
+        temp_path
             .persist(&dest_path)
             .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))?;
-        self.fix_permissions(&dest_path)?;
         Ok(())
     }
 
-- 
2.43.0


From 9806f6e1f716fd549e77d1a6384b07e400156d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 13/32] fix: honour octal values of core.sharedRepository

An octal value such as 0640 is also a valid boolean, so it was treated as
"true" and made everything writable by the group.
---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 26 +++++++++++++-----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 4465818..b1965b5 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -96,18 +96,20 @@ impl<'p> Program<'p> {
     #[cfg(unix)]
     fn set_permissions(&self) -> Result<u32, Error> {
         let config = self.repo.config()?;
-        let sval = config.get_string("core.sharedrepository");
-        let tval = sval.as_ref().map(|s| s.as_str());
-        let perms = match (config.get_bool("core.sharedrepository"), tval) {
-            (Ok(true), _) | (_, Ok("group")) => Some(0o660),
-            (Ok(false), _) | (_, Ok("umask")) => None,
-            (_, Ok("all")) | (_, Ok("world")) | (_, Ok("everybody")) => Some(0o664),
-            (_, Ok(x)) if u16::from_str_radix(x, 8).is_ok() => {
-                Some(u16::from_str_radix(x, 8).unwrap())
-            }
-            (_, Err(e)) if e.code() == git2::ErrorCode::NotFound => None,
-            (_, Err(e)) => return Err(git2::Error::new(e.code(), e.class(), e.message()).into()),
-            _ => None,
+        // Like Git, try octal values before booleans, since any integer is a valid boolean.
+        let perms = match config.get_string("core.sharedrepository") {
+            Ok(value) => match (value.as_str(), u16::from_str_radix(&value, 8)) {
+                ("umask", _) | (_, Ok(0)) => None,
+                ("group", _) | (_, Ok(1)) => Some(0o660),
+                ("all", _) | ("world", _) | ("everybody", _) | (_, Ok(2)) => Some(0o664),
+                (_, Ok(mode)) => Some(mode),
+                (_, Err(_)) => match config.get_bool("core.sharedrepository") {
+                    Ok(true) => Some(0o660),
+                    _ => None,
+                },
+            },
+            Err(e) if e.code() == git2::ErrorCode::NotFound => None,
+            Err(e) => return Err(e.into()),
         };
         let res = match perms {
             Some(value) => {
-- 
2.43.0


From 913015900bb9639fe71298efdaf52b3436257612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 14/32] fix: report the time that was recorded in the lock

The time was read twice, so the response to a lock request could give another
one than the lock itself.
---
 scutiger-lfs/src/backend/local.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 2027c04..686f64b 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -347,7 +347,8 @@ impl<'a> LocalLockBackend<'a> {
 impl<'a> LockBackend for LocalLockBackend<'a> {
     fn create(&self, path: &Bytes) -> Result<Box<dyn Lock>, Error> {
         let id = LocalBackendLock::hash_for(path);
-        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, self.timestamp()).into();
+        let time = self.timestamp();
+        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, time).into();
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
@@ -358,7 +359,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
-            time: self.timestamp(),
+            time,
             ownername: user,
         }))
     }
-- 
2.43.0


From 3f9af4fa9dca08e7ecd3173e6cff613360d10acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 15/32] fix: determine a lock's owner from the file that was
 read

Looking the file up by name again could find the lock of another user or none
at all if the lock had changed hands in the meantime.
---
 scutiger-lfs/src/backend/local.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 686f64b..e29114e 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -329,14 +329,14 @@ impl<'a> LocalLockBackend<'a> {
     }
 
     #[cfg(windows)]
-    fn user_for_file(path: &Path) -> Result<String, Error> {
+    fn user_for_file(_file: &fs::File) -> Result<String, Error> {
         Ok("unknown".into())
     }
 
     #[cfg(unix)]
-    fn user_for_file(path: &Path) -> Result<String, Error> {
+    fn user_for_file(file: &fs::File) -> Result<String, Error> {
         use std::os::unix::fs::MetadataExt;
-        let st = fs::metadata(path)?;
+        let st = file.metadata()?;
         match passwd::Passwd::from_uid(st.uid()) {
             Some(pwd) => Ok(pwd.name),
             None => Ok(format!("uid {}", st.uid())),
@@ -354,8 +354,8 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         filename.push(id);
         let mut lock = LockFile::new(&filename)?;
         lock.write(&b)?;
+        let user = Self::user_for_file(&lock.file)?;
         lock.persist()?;
-        let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
@@ -394,7 +394,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         };
         let mut v = Vec::new();
         f.read_to_end(&mut v)?;
-        let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
+        let user = Self::user_for_file(&f)?;
         let (time, parsed_path) = match LocalBackendLock::parse(v) {
             // A lock is valid only under the ID of its path.
             Some((time, path)) if LocalBackendLock::hash_for(&path) == id => (time, path),
-- 
2.43.0


From 2c1bd1691811843ce4a675785488f747cf48c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 16/32] fix: do not report an object as missing because of an
 I/O error

A batch request took any failure to examine an object for its absence.
---
 scutiger-lfs/src/backend/local.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index e29114e..043c077 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -54,7 +54,11 @@ impl<'a> Backend for LocalBackend<'a> {
     fn batch(&mut self, _mode: Mode, oids: &[(Oid, u64)]) -> Result<Vec<BatchItem>, Error> {
         oids.iter()
             .map(|(oid, batch_size)| {
-                let maybe_size = oid.size_at_path(self.lfs_path);
+                let maybe_size = match fs::metadata(oid.expected_path(self.lfs_path)) {
+                    Ok(m) => Some(m.len()),
+                    Err(e) if e.kind() == io::ErrorKind::NotFound => None,
+                    Err(e) => return Err(e.into()),
+                };
                 Ok(BatchItem {
                     oid: oid.clone(),
                     size: maybe_size.unwrap_or(*batch_size),
-- 
2.43.0


From 2d8300ddbf34b34d4d2d6a3be936b23a604277be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 17/32] fix: honour the cursor when listing locks

bytes 0.4 implements PartialOrd<Bytes> for [u8] by comparing the operands the
other way round, so the locks before the cursor were returned instead of those
at and after it, and following next-cursor never ended.
---
 scutiger-lfs/src/processor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 239ccf9..58758a6 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -591,10 +591,11 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         cursor: Option<&Bytes>,
         use_owner_id: bool,
     ) -> Result<Status, Error> {
+        // Compare plain slices: bytes 0.4 orders a slice and a `Bytes` the wrong way round.
         match (self.backend.lock_backend().from_path(path), cursor) {
             (Err(e), _) => Err(e),
             (Ok(None), _) => self.error(404, "not found"),
-            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < id => self.error(404, "not found"),
+            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < &id[..] => self.error(404, "not found"),
             (Ok(Some(l)), _) => l.as_lock_spec(use_owner_id).map(Status::new_success),
         }
     }
@@ -628,7 +629,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .iter()
             .skip_while(|item| match (item, cursor) {
                 (Err(_), _) => false,
-                (Ok(l), Some(cursor)) => l.id().as_bytes() < cursor,
+                (Ok(l), Some(cursor)) => l.id().as_bytes() < &cursor[..],
                 (Ok(_), None) => false,
             })
             .take(limit + 1)
-- 
2.43.0


From 11bfbc64ea70d1e7ae136c7beac942cabe296b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 18/32] fix: report the lock that unlock has removed

Between reading the lock and removing its file, another session may have
removed that lock and locked the path again, so that we removed a lock
other than the one reported to the client.  Move the lock file aside
first, and report what was in it.
---
 scutiger-lfs/src/backend.rs       |  8 +++-
 scutiger-lfs/src/backend/local.rs | 72 +++++++++++++++++++------------
 scutiger-lfs/src/processor.rs     | 19 +++-----
 3 files changed, 57 insertions(+), 42 deletions(-)

diff --git a/scutiger-lfs/src/backend.rs b/scutiger-lfs/src/backend.rs
index 39bc8a8..65ac029 100644
--- a/scutiger-lfs/src/backend.rs
+++ b/scutiger-lfs/src/backend.rs
@@ -28,7 +28,11 @@ pub trait Backend {
 }
 
 pub trait Lock {
-    fn unlock(&self) -> Result<(), Error>;
+    /// Removes the lock, returning what was removed.
+    ///
+    /// This need not be the lock this object was created for: in the mean time, that one may have been
+    /// removed and the same path locked again.
+    fn unlock(&self) -> Result<Box<dyn Lock>, Error>;
     fn id(&self) -> String;
     fn path(&self) -> &Bytes;
     fn formatted_timestamp(&self) -> String;
@@ -51,7 +55,7 @@ pub trait Lock {
 #[allow(clippy::wrong_self_convention)]
 pub trait LockBackend {
     fn create(&self, path: &Bytes) -> Result<Box<dyn Lock>, Error>;
-    fn unlock(&self, lock: Box<dyn Lock>) -> Result<(), Error> {
+    fn unlock(&self, lock: Box<dyn Lock>) -> Result<Box<dyn Lock>, Error> {
         lock.unlock()
     }
     fn from_path(&self, path: &Bytes) -> Result<Option<Box<dyn Lock>>, Error>;
diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 043c077..0ede724 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -250,6 +250,34 @@ impl LocalBackendLock {
         Some((time, v[2].clone().into()))
     }
 
+    /// Reads the lock with the given ID from the file `filename`.
+    fn read(root: &Path, filename: &Path, id: &str) -> Result<Option<Self>, Error> {
+        let mut f = match fs::OpenOptions::new().read(true).open(filename) {
+            Ok(f) => f,
+            Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(None),
+            Err(e) => return Err(e.into()),
+        };
+        let mut v = Vec::new();
+        f.read_to_end(&mut v)?;
+        let user = LocalLockBackend::user_for_file(&f)?;
+        let (time, parsed_path) = match Self::parse(v) {
+            // A lock is valid only under the ID of its path.
+            Some((time, path)) if Self::hash_for(&path) == id => (time, path),
+            _ => {
+                return Err(Error::from_message(
+                    ErrorKind::CorruptData,
+                    "invalid parsed lock",
+                ))
+            }
+        };
+        Ok(Some(LocalBackendLock {
+            root: root.to_owned(),
+            path_name: parsed_path,
+            time,
+            ownername: user,
+        }))
+    }
+
     #[cfg(windows)]
     fn current_user(&self) -> Result<String, Error> {
         Ok("unknown".into())
@@ -266,12 +294,20 @@ impl LocalBackendLock {
 }
 
 impl Lock for LocalBackendLock {
-    fn unlock(&self) -> Result<(), Error> {
+    fn unlock(&self) -> Result<Box<dyn Lock>, Error> {
         let id = Self::hash_for(&self.path_name);
         let mut filename = self.root.clone();
-        filename.push(id);
-        fs::remove_file(&filename)?;
-        Ok(())
+        filename.push(&id);
+        // Move the lock out of the way before looking at it, so that what we report is what we have
+        // removed.
+        let temp = filename.with_extension(format!("{}.unlock", process::id()));
+        fs::rename(&filename, &temp)?;
+        let lock = Self::read(&self.root, &temp, &id);
+        fs::remove_file(&temp)?;
+        match lock? {
+            Some(l) => Ok(Box::new(l)),
+            None => Err(io::Error::from(io::ErrorKind::NotFound).into()),
+        }
     }
 
     fn id(&self) -> String {
@@ -391,30 +427,10 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         }
         let mut filename = self.lock_path.clone();
         filename.push(id);
-        let mut f = match fs::OpenOptions::new().read(true).open(&filename) {
-            Ok(f) => f,
-            Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(None),
-            Err(e) => return Err(e.into()),
-        };
-        let mut v = Vec::new();
-        f.read_to_end(&mut v)?;
-        let user = Self::user_for_file(&f)?;
-        let (time, parsed_path) = match LocalBackendLock::parse(v) {
-            // A lock is valid only under the ID of its path.
-            Some((time, path)) if LocalBackendLock::hash_for(&path) == id => (time, path),
-            _ => {
-                return Err(Error::from_message(
-                    ErrorKind::CorruptData,
-                    "invalid parsed lock",
-                ))
-            }
-        };
-        Ok(Some(Box::new(LocalBackendLock {
-            root: self.lock_path.clone(),
-            path_name: parsed_path,
-            time,
-            ownername: user,
-        })))
+        match LocalBackendLock::read(&self.lock_path, &filename, id)? {
+            Some(l) => Ok(Some(Box::new(l))),
+            None => Ok(None),
+        }
     }
 
     fn iter<'b>(&'b self) -> Box<dyn Iterator<Item = Result<Box<dyn Lock>, Error>> + 'b> {
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 58758a6..814afcd 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -662,19 +662,14 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         };
         let lock_backend = self.backend.lock_backend();
         match lock_backend.from_id(s) {
-            Ok(Some(l)) => {
-                let args = l.as_arguments();
-                match lock_backend.unlock(l) {
-                    Ok(()) => Ok(Status::new_success_with_code(200, args)),
-                    Err(e) if e.io_kind() == io::ErrorKind::NotFound => {
-                        self.error(404, "not found")
-                    }
-                    Err(e) if e.io_kind() == io::ErrorKind::PermissionDenied => {
-                        self.error(403, "forbidden")
-                    }
-                    Err(e) => Err(e),
+            Ok(Some(l)) => match lock_backend.unlock(l) {
+                Ok(l) => Ok(Status::new_success_with_code(200, l.as_arguments())),
+                Err(e) if e.io_kind() == io::ErrorKind::NotFound => self.error(404, "not found"),
+                Err(e) if e.io_kind() == io::ErrorKind::PermissionDenied => {
+                    self.error(403, "forbidden")
                 }
-            }
+                Err(e) => Err(e),
+            },
             Ok(None) => self.error(404, "not found"),
             Err(e) => Err(e),
         }
-- 
2.43.0


From 31ccfbaa1388357837a4c8d6066aa5a2f9f17a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:38 +0000
Subject: [PATCH 19/32] fix: match only the first line for git-at --summary

---
 scutiger-bin/src/bin/git-at.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 4d3258b..2ba524a 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -64,8 +64,8 @@ impl<'a> Program<'a> {
     /// one occurred. If the Error is due to no revision matching, the kind of the error will be
     /// `ErrorKind::NoSuchRevision`.
     fn run(&self) -> Result<Oid, Error> {
-        let regex = self.pattern(self.text)?;
-        let fixup_regex = self.pattern("\\A\\s*(?:fixup|squash)!")?;
+        let regex = Regex::new(self.text)?;
+        let fixup_regex = Regex::new("\\A\\s*(?:fixup|squash)!")?;
         let head = self.repo.revparse_single(self.head)?;
         let mut walker = self.repo.revwalk()?;
         walker.set_sorting(git2::Sort::from_bits(Self::SORT_TIME).unwrap())?;
@@ -76,7 +76,12 @@ impl<'a> Program<'a> {
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
             }
-            if regex.is_match(message)? {
+            let text = if self.summary {
+                Self::summary(message)
+            } else {
+                message
+            };
+            if regex.is_match(text)? {
                 return Ok(commit.id());
             }
         }
@@ -117,11 +122,12 @@ impl<'a> Program<'a> {
         }
     }
 
-    fn pattern(&self, pattern: &str) -> Result<Regex, Error> {
-        if self.summary {
-            return Ok(Regex::new(&format!("\\A[^\n]*{}", pattern))?);
+    /// Returns the first line of a commit message, without the newline.
+    fn summary(message: &[u8]) -> &[u8] {
+        match message.iter().position(|&b| b == b'\n') {
+            Some(pos) => &message[..pos],
+            None => message,
         }
-        Ok(Regex::new(pattern)?)
     }
 }
 
-- 
2.43.0


From e18e5f4c111dcde81a9b9fdfb2cb43a31b7ab585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:39 +0000
Subject: [PATCH 20/32] fix: report a damaged history as a failure in git-at

---
 scutiger-bin/src/bin/git-at.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 2ba524a..06f08e0 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -71,7 +71,11 @@ impl<'a> Program<'a> {
         walker.set_sorting(git2::Sort::from_bits(Self::SORT_TIME).unwrap())?;
         walker.push(head.id())?;
         for rev in walker {
-            let commit = self.repo.find_commit(rev?)?;
+            // A commit that is missing here is damage to the repository, not a revision that
+            // doesn't exist.
+            let commit = rev
+                .and_then(|rev| self.repo.find_commit(rev))
+                .map_err(|e| Error::new(ErrorKind::GitError, Some(e)))?;
             let message = commit.message_bytes();
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
-- 
2.43.0


From 06aa780b9ed665e84dea9ca5e6dbd15aacca842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:40 +0000
Subject: [PATCH 21/32] fix: do not exit 1 on usage errors in git-at

---
 scutiger-bin/src/bin/git-at.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 06f08e0..832a2a0 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -192,7 +192,14 @@ fn main() {
     libgit2::init();
     let repo = repo();
     let app = parse_options();
-    let matches = app.get_matches();
+    let matches = app.get_matches_safe().unwrap_or_else(|e| {
+        if e.use_stderr() {
+            // Exit status 1 is for when no commit matches.
+            eprintln!("{}", e.message);
+            process::exit(ExitStatus::Fatal as i32);
+        }
+        e.exit()
+    });
     let prog = program(&repo, &matches);
     process::exit(prog.main(&mut io::stdout(), &mut io::stderr()));
 }
-- 
2.43.0


From eda435e3783d23731b8c7b3ec5cb59d4d7c592d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:20 +0000
Subject: [PATCH 22/32] fix: list all earlier positions in git-recent-refs

A position that no longer exists, such as a deleted branch, ended the
list.  Look the positions up in the reflog and leave out only those
which are gone.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 60 ++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 6db2085..d3dfcec 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -17,7 +17,7 @@ mod pager;
 pub mod fixtures;
 
 use clap::{App, AppSettings, Arg, ArgMatches};
-use git2::{Object, Reference, Repository, Time};
+use git2::{Object, ObjectType, Oid, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
 use std::process;
@@ -52,6 +52,47 @@ impl<'p> Program<'p> {
         }
     }
 
+    /// Returns the positions that were left by the checkouts in HEAD's reflog, most recent first.
+    ///
+    /// Each is the short name of a branch, the full name of another reference, or an object ID.
+    fn visited_positions(repo: &Repository) -> Vec<String> {
+        const PREFIX: &[u8] = b"checkout: moving from ";
+        let log = match repo.reflog("HEAD") {
+            Ok(log) => log,
+            Err(_) => return vec![],
+        };
+        log.iter()
+            .filter_map(|entry| {
+                let message = entry.message_bytes()?;
+                if !message.starts_with(PREFIX) {
+                    return None;
+                }
+                // References cannot contain spaces.
+                let name = message[PREFIX.len()..].split(|&b| b == b' ').next()?;
+                String::from_utf8(name.to_vec()).ok()
+            })
+            .collect()
+    }
+
+    /// Finds a position from the reflog, unless it no longer exists.
+    fn resolve_position<'b>(
+        repo: &'b Repository,
+        name: &str,
+    ) -> Option<(Object<'b>, Option<Reference<'b>>)> {
+        let full_name = if name.starts_with("refs/") {
+            name.to_string()
+        } else {
+            format!("refs/heads/{}", name)
+        };
+        match repo.find_reference(&full_name) {
+            Ok(r) => Some((r.peel(ObjectType::Any).ok()?, Some(r))),
+            Err(_) => {
+                let oid = Oid::from_str(name).ok()?;
+                Some((repo.find_object(oid, None).ok()?, None))
+            }
+        }
+    }
+
     fn commit_date_for(r: &Reference) -> Option<Time> {
         let commit = r.peel_to_commit().ok()?;
         let time = commit.committer().when();
@@ -72,16 +113,13 @@ impl<'p> Program<'p> {
     fn run<'a>(&self, repo: &'a Repository) -> Result<Box<Iterator<Item = String> + 'a>, Error> {
         match self.kind {
             SortKind::Visited => {
-                let chain: Vec<String> = vec!["HEAD".to_string()];
-                let range = 1..;
-                let iter = chain
-                    .into_iter()
-                    .chain(range.map(|i| format!("@{{-{}}}", i)));
-                Ok(Box::new(
-                    iter.map(move |rev| Self::stringify(repo.revparse_ext(&rev).ok()))
-                        .take_while(Option::is_some)
-                        .map(Option::unwrap),
-                ))
+                let head = Self::stringify(repo.revparse_ext("HEAD").ok());
+                let visited = Self::visited_positions(repo);
+                Ok(Box::new(head.into_iter().chain(
+                    visited.into_iter().filter_map(move |name| {
+                        Self::stringify(Self::resolve_position(repo, &name))
+                    }),
+                )))
             }
             SortKind::Committed => {
                 let mut refs: Vec<_> = repo
-- 
2.43.0


From e8736c117f1271cd3da41a1103ee86ffc1d52290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 23/32] fix: print directly when the pager is empty

Like Git, treat an empty pager like cat instead of running an empty shell
command, which lost the output.
---
 scutiger-bin/src/bin/pager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 7f8cfb3..3705981 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -36,7 +36,7 @@ impl Pager {
             .or(core_pager)
             .or_else(|| env::var_os("PAGER"))
             .unwrap_or_else(|| "less".into());
-        if pager == "cat" {
+        if pager.is_empty() || pager == "cat" {
             None
         } else {
             Some(pager)
-- 
2.43.0


From 323ceba075f3f7bc5514ded6cdc5bdb1e6e366b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 24/32] fix: wait for the pager to end in git-recent-refs

Without this, the shell takes the terminal back while the pager is still
being used.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 4 +++-
 scutiger-bin/src/bin/pager/mod.rs       | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index d3dfcec..e0a7669 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -225,7 +225,9 @@ fn main() {
     let repo = repo();
     let prog = program(&repo, &matches);
     let mut pager = pager::Pager::new(&repo).expect("unable to spawn pager");
-    process::exit(prog.main(&mut pager.stdout(), &mut io::stderr()));
+    let status = prog.main(&mut pager.stdout(), &mut io::stderr());
+    pager.finish();
+    process::exit(status);
 }
 
 #[cfg(test)]
diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 3705981..42af556 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -52,4 +52,12 @@ impl Pager {
             })
             .unwrap_or_else(|| Box::new(io::stdout()))
     }
+
+    /// Closes the input of the pager, if there is one, and waits for it to end.
+    pub fn finish(&mut self) {
+        if let Some(mut process) = self.process.take() {
+            // This also closes the pipe.
+            let _ = process.wait();
+        }
+    }
 }
-- 
2.43.0


From f01b5a7c67cdc3d8d19cea74e2b4d32039e5c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 25/32] fix: use one LFS store for all worktrees of a
 repository

---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index b1965b5..74049fd 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -84,6 +84,16 @@ impl<'p> Program<'p> {
         Ok(())
     }
 
+    /// Returns the `lfs` directory, which all worktrees of a repository share.
+    fn shared_lfs_path(&self) -> Result<PathBuf, Error> {
+        let mut path = self.repo.path().to_path_buf();
+        if self.repo.is_worktree() {
+            path.push(fs::read_to_string(path.join("commondir"))?.trim_end());
+        }
+        path.push("lfs");
+        Ok(path)
+    }
+
     fn create_directories(&self) -> Result<(), Error> {
         for dir in &["objects", "incomplete", "tmp", "locks"] {
             let mut path = self.lfs_path.clone();
@@ -139,6 +149,7 @@ impl<'p> Program<'p> {
         output: &mut O,
         error: &mut E,
     ) -> Result<(), Error> {
+        self.lfs_path = self.shared_lfs_path()?;
         self.umask = self.set_permissions()?;
         self.run(input, output, error, None)
     }
-- 
2.43.0


From eee6fc1aa267e79b65bbca430aeafc0ccfe0b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 26/32] fix: refuse an operation that is not UTF-8 without
 panicking

---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 74049fd..e3e01c4 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -183,7 +183,8 @@ fn parse_options<'a>() -> App<'a, 'a> {
 }
 
 fn program<'a>(r: &'a Repository, matches: &'a ArgMatches) -> Program<'a> {
-    Program::new(r, matches.value_of("operation").unwrap().into())
+    // An operation which is not UTF-8 is not one we know either way.
+    Program::new(r, matches.value_of_lossy("operation").unwrap().into())
 }
 
 fn repo<P: AsRef<Path>>(path: P) -> Repository {
-- 
2.43.0


From 5fbf23ea2ccd37251bff323e6f7f529f0a93606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 27/32] fix: report an unexpected argument of git-recent-refs
 without panicking

---
 scutiger-bin/src/bin/git-recent-refs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index e0a7669..f9a9a68 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -16,7 +16,7 @@ mod pager;
 #[cfg(test)]
 pub mod fixtures;
 
-use clap::{App, AppSettings, Arg, ArgMatches};
+use clap::{App, Arg, ArgMatches};
 use git2::{Object, ObjectType, Oid, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
@@ -173,7 +173,6 @@ impl<'p> Program<'p> {
 
 fn parse_options<'a>() -> App<'a, 'a> {
     App::new("git-recent-refs")
-        .setting(AppSettings::AllowMissingPositional)
         .about("Find a commit based on commit message")
         .arg(
             Arg::with_name("sort")
-- 
2.43.0


From f6a786e5c9e23e320f495f7fabd2d0810edeeaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 28/32] fix: refuse arguments of git-at that are not UTF-8
 without panicking

---
 scutiger-bin/src/bin/git-at.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 832a2a0..a3a5b72 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -138,6 +138,7 @@ impl<'a> Program<'a> {
 fn parse_options<'a>() -> App<'a, 'a> {
     App::new("git-at")
         .setting(AppSettings::AllowMissingPositional)
+        .setting(AppSettings::StrictUtf8)
         .about("Find a commit based on commit message")
         .arg(
             Arg::with_name("summary")
-- 
2.43.0


From 187de7f8f940b9feb338cf09297b8c35555c42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 29/32] fix: find visited branches whose names start with refs/

git-recent-refs took the name of a branch such as refs/foo, which the reflog
records without refs/heads/, for the full name of a reference: the branch was
left out, or shown as another one.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index f9a9a68..82becf3 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -54,7 +54,7 @@ impl<'p> Program<'p> {
 
     /// Returns the positions that were left by the checkouts in HEAD's reflog, most recent first.
     ///
-    /// Each is the short name of a branch, the full name of another reference, or an object ID.
+    /// Each is the short name of a branch or an object ID.
     fn visited_positions(repo: &Repository) -> Vec<String> {
         const PREFIX: &[u8] = b"checkout: moving from ";
         let log = match repo.reflog("HEAD") {
@@ -79,12 +79,8 @@ impl<'p> Program<'p> {
         repo: &'b Repository,
         name: &str,
     ) -> Option<(Object<'b>, Option<Reference<'b>>)> {
-        let full_name = if name.starts_with("refs/") {
-            name.to_string()
-        } else {
-            format!("refs/heads/{}", name)
-        };
-        match repo.find_reference(&full_name) {
+        // Git records branches without "refs/heads/", whatever their names start with.
+        match repo.find_reference(&format!("refs/heads/{}", name)) {
             Ok(r) => Some((r.peel(ObjectType::Any).ok()?, Some(r))),
             Err(_) => {
                 let oid = Oid::from_str(name).ok()?;
-- 
2.43.0


From 7cb46619e563dbd923938f64db6375ccf1e09a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 30/32] fix: refuse to lock paths that are too long to be
 listed

---
 scutiger-lfs/src/processor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 814afcd..323b506 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -365,6 +365,8 @@ pub struct Processor<'a, R: io::Read, W: io::Write> {
 
 impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
     const LOCK_ATTEMPTS: usize = 16;
+    /// The longest path for which "path ID PATH", as list-lock writes it, still fits into a packet.
+    const MAX_LOCK_PATH_LEN: usize = 65516 - "path ".len() - 64 - " ".len() - "\n".len();
 
     pub fn new(handler: PktLineHandler<R, W>, backend: Box<dyn Backend + 'a>) -> Self {
         Processor { handler, backend }
@@ -559,6 +561,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             }
         };
+        if path.len() > Self::MAX_LOCK_PATH_LEN {
+            return Err(Error::from_message(ErrorKind::NotAllowed, "path too long"));
+        }
         let lock_backend = self.backend.lock_backend();
         // Somebody else might remove the lock between our attempt to create it and our reading it, so
         // try again in that case, but don't do so forever.
-- 
2.43.0


From c586b832459d3222a8d507303f329bdc5d313d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:07 +0000
Subject: [PATCH 31/32] fix: ignore permissions other than reading and writing
 in core.sharedRepository

---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index e3e01c4..2a6c5af 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -112,7 +112,8 @@ impl<'p> Program<'p> {
                 ("umask", _) | (_, Ok(0)) => None,
                 ("group", _) | (_, Ok(1)) => Some(0o660),
                 ("all", _) | ("world", _) | ("everybody", _) | (_, Ok(2)) => Some(0o664),
-                (_, Ok(mode)) => Some(mode),
+                // Like Git, ignore any other permissions; the right ones for directories are set below.
+                (_, Ok(mode)) => Some(mode & 0o666),
                 (_, Err(_)) => match config.get_bool("core.sharedrepository") {
                     Ok(true) => Some(0o660),
                     _ => None,
-- 
2.43.0


From e584c90acb48d22b9142ba27caec5cbbc5290868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 32/32] fix: report unknown options when the command line isn't
 valid UTF-8

clap panics when it reports an unknown long option if that or any later
argument is not valid UTF-8, and so did all programs, instead of
complaining and exiting with the proper status.  Check the command line
without any invalid UTF-8 first.
---
 scutiger-bin/src/bin/git-at.rs           | 8 +++++++-
 scutiger-bin/src/bin/git-recent-refs.rs  | 5 +++++
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 5 +++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index a3a5b72..d8568e4 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -16,6 +16,7 @@ use clap::{App, AppSettings, Arg, ArgMatches};
 use git2::{Oid, Repository};
 use pcre2::bytes::Regex;
 use scutiger_core::errors::{Error, ErrorKind, ExitStatus};
+use std::env;
 use std::io;
 use std::process;
 
@@ -193,7 +194,12 @@ fn main() {
     libgit2::init();
     let repo = repo();
     let app = parse_options();
-    let matches = app.get_matches_safe().unwrap_or_else(|e| {
+    // Check the command line without any invalid UTF-8 first: clap panics when it reports an unknown
+    // option if that or a later argument isn't valid UTF-8.
+    let lossy = env::args_os().map(|x| x.to_string_lossy().into_owned());
+    let matches = app.clone().get_matches_from_safe(lossy);
+    let matches = matches.and_then(|_| app.get_matches_safe());
+    let matches = matches.unwrap_or_else(|e| {
         if e.use_stderr() {
             // Exit status 1 is for when no commit matches.
             eprintln!("{}", e.message);
diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 82becf3..2e51302 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -19,6 +19,7 @@ pub mod fixtures;
 use clap::{App, Arg, ArgMatches};
 use git2::{Object, ObjectType, Oid, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
+use std::env;
 use std::io;
 use std::process;
 
@@ -216,6 +217,10 @@ fn setup() {
 fn main() {
     setup();
     let app = parse_options();
+    // Check the command line without any invalid UTF-8 first: clap panics when it reports an unknown
+    // option if that or a later argument isn't valid UTF-8.
+    let lossy = env::args_os().map(|x| x.to_string_lossy().into_owned());
+    app.clone().get_matches_from(lossy);
     let matches = app.get_matches();
     let repo = repo();
     let prog = program(&repo, &matches);
diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 2a6c5af..46ebc5e 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -27,6 +27,7 @@ use git2::Repository;
 use scutiger_core::errors::{Error, ErrorKind, ExitStatus};
 use scutiger_lfs::backend::local::LocalBackend;
 use scutiger_lfs::processor::{Mode, PktLineHandler, Processor};
+use std::env;
 use std::fs;
 use std::io;
 use std::path::{Path, PathBuf};
@@ -212,6 +213,10 @@ fn setup() {}
 fn main() {
     setup();
     let app = parse_options();
+    // Check the command line without any invalid UTF-8 first: clap panics when it reports an unknown
+    // option if that or a later argument isn't valid UTF-8.
+    let lossy = env::args_os().map(|x| x.to_string_lossy().into_owned());
+    app.clone().get_matches_from(lossy);
     let matches = app.get_matches();
     let path = matches.value_of_os("path").unwrap();
     let r = repo(path);
-- 
2.43.0

