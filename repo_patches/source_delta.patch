From 5120eeecbb67ff46151995059379b68efea3d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 01/33] fix: don't lose a wakeup when credit is repaid as a
 borrower goes to sleep

WriteBack::borrow restores its share of the supply before it enqueues a
Sleeper and sets the flag.  Credit repaid between the two found the flag clear
and awakened nobody, so the borrower could sleep forever.
---
 bfffs-core/src/writeback/writeback.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bfffs-core/src/writeback/writeback.rs b/bfffs-core/src/writeback/writeback.rs
index 938b7e7..52054e8 100644
--- a/bfffs-core/src/writeback/writeback.rs
+++ b/bfffs-core/src/writeback/writeback.rs
@@ -192,6 +192,10 @@ impl WriteBack {
     /// Awaken as many sleepers as possible
     fn awaken(&self) {
         let mut guard = self.sleepers.lock().unwrap();
+        self.awaken_locked(&mut guard);
+    }
+
+    fn awaken_locked(&self, guard: &mut VecDeque<Sleeper>) {
         loop {
             if let Some(sleeper) = guard.front() {
                 let wants = sleeper.wants;
@@ -253,6 +257,11 @@ impl WriteBack {
                     let sleeper = Sleeper { tx, wants: iwants };
                     guard.push_back(sleeper);
                     self.supply.fetch_or(1, Release);
+                    // Credit repaid after we restored our share of the supply
+                    // but before we set the flag awakened nobody.  And other
+                    // borrowers' awakenings may have failed during the time
+                    // that we held that share.  So we must check again.
+                    self.awaken_locked(&mut guard);
                     break rx.map(move |_| Credit(AtomicIsize::new(iwants)));
                 }
             } else {
-- 
2.43.0


From 5bf6ed81df6add043ada8e268bd5720841310a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 02/33] fix: don't overflow 16 bits in the PRIME-S layout of
 large arrays

The depth of a repetition, the number of a stripe and the product of a stripe
number with the number of data disks exceed i16 for layouts that PrimeS::new
accepts, from about 41 disks on.
---
 bfffs-core/src/raid/prime_s.rs | 43 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/bfffs-core/src/raid/prime_s.rs b/bfffs-core/src/raid/prime_s.rs
index b9edf3d..633a96f 100644
--- a/bfffs-core/src/raid/prime_s.rs
+++ b/bfffs-core/src/raid/prime_s.rs
@@ -81,7 +81,7 @@ struct ChunklocInt {
     /// Repetition of the layout
     r: u64,
     /// Stripe within its repetition.  Valid range is [0, n * (n-1))
-    s: i16,
+    s: i32,
     /// Stride.  Valid range is [0, n]
     y: i16,
     /// Iteration.  Valid range is is [0, n-1)
@@ -151,7 +151,7 @@ pub struct PrimeS {
     /// Number of stripes in one repetition.  Valid range is [1, 46010]
     stripes: u16,
     /// Number of rows in a single repetition.  Valid range is [1, 46010]
-    depth: i16
+    depth: i32
 }
 
 impl PrimeS {
@@ -170,7 +170,7 @@ impl PrimeS {
         assert!(num_disks <= 215);
         assert!(disks_per_stripe > 1 && disks_per_stripe <= num_disks);
         assert!(redundancy > 0 && redundancy < disks_per_stripe);
-        let depth = disks_per_stripe * (num_disks - 1);
+        let depth = i32::from(disks_per_stripe) * i32::from(num_disks - 1);
         let disks_per_stripe = disks_per_stripe as u8;
         let redundancy = redundancy as u8;
         let m = disks_per_stripe - redundancy;
@@ -192,10 +192,9 @@ impl PrimeS {
         let (r, z) = self.id2rep_and_iter(chunkid);
         // The stripe
         let s = a / i32::from(self.m);
-        debug_assert!(s <= i32::from(i16::MAX));
         // The stride
         let y = (z.rem_euclid(i16::from(self.n - 1))) + 1;
-        ChunklocInt{a, r, s: s as i16, y, z}
+        ChunklocInt{a, r, s, y, z}
     }
 
     /// Return the repetition and iteration numbers where a given Chunk is
@@ -222,7 +221,7 @@ impl PrimeS {
                                disk: i16) -> i32 {
         // We must loop to calculate the offset.  That's PRIME-S's disadvantage
         // vis-a-vis PRIME
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let y_inv = i32::from(invmod(cli.y, i16::from(self.n)));
         // Contribution to offset from data chunks in this repetition
         let o0 = (s * i32::from(self.m) + b) / i32::from(self.n);
@@ -246,10 +245,10 @@ impl PrimeS {
     /// - `a`:      Index of data chunk within its repetition
     /// - `s`:      Stripe within its repetition
     /// - `m`:      Number of data disks per stripe
-    fn offset_within_stripe(id: ChunkId, a: i32, s: i16, m: u8) -> u8
+    fn offset_within_stripe(id: ChunkId, a: i32, s: i32, m: u8) -> u8
     {
         let b = match id {
-            ChunkId::Data(_) => a - i32::from(s * i16::from(m)),
+            ChunkId::Data(_) => a - s * i32::from(m),
             ChunkId::Parity(_, i) => i32::from(m) + i32::from(i)
         };
         debug_assert!(b < i32::from(u8::MAX));
@@ -279,7 +278,7 @@ impl Locator for PrimeS {
         let b = PrimeS::offset_within_stripe(chunkid, cli.a, cli.s, self.m);
         let b = i32::from(b);
         debug_assert!(b < i32::from(self.k));
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let m = i32::from(self.m);
         let y = i32::from(cli.y);
         let disk = ((s * m + b) * y).rem_euclid(i32::from(self.n));
@@ -326,9 +325,9 @@ impl Locator for PrimeS {
         // stripe
         let s = stripes.ones()
             .nth(offset_in_iter as usize)
-            .unwrap() as i16 + i16::from(self.n) * z;
+            .unwrap() as i32 + i32::from(self.n) * i32::from(z);
         // position of stripe unit within stripe
-        let b = (disk * y_inv - i32::from(s) * i32::from(self.m))
+        let b = (disk * y_inv - s * i32::from(self.m))
             .rem_euclid(i32::from(self.n)) as u8;
         // number of data chunks preceding this repetition
         let o = r * self.datachunks();
@@ -365,14 +364,14 @@ impl Locator for PrimeS {
 pub struct PrimeSIter {
     a: i32,             // Index of a data chunk within its repetition
     f: u8,              // Number of parity disks per stripe
-    depth: i16,         // Number of rows in a single repetition
+    depth: i32,         // Number of rows in a single repetition
     end: ChunkId,       // Id of the first chunk beyond the end
     id: ChunkId,        // Id of next chunk
     m: u8,              // Number of data chunks per stripe
     n: u8,              // Number of disks in the layout
-    o: Vec<i16>,        // Offsets within an iteration for each disk
+    o: Vec<i32>,        // Offsets within an iteration for each disk
     r: u64,             // Repetition number
-    stripe: i16,        // Stripe within its repetition
+    stripe: i32,        // Stripe within its repetition
     stripe_iter: u8,    // Stripe within its iteration
     y: u8,              // Stride
     z: u8,              // Iteration number
@@ -387,14 +386,14 @@ impl PrimeSIter {
     /// iterator should return.
     fn new(layout: &PrimeS, start: ChunkId, end: ChunkId) -> Self {
         let cli = layout.id2loc_int(&start);
-        let s_z = cli.s.rem_euclid(i16::from(layout.stripes_per_iteration()));
+        let s_z = cli.s.rem_euclid(i32::from(layout.stripes_per_iteration()));
         let b = PrimeS::offset_within_stripe(start, cli.a, cli.s, layout.m);
         debug_assert!(b < layout.k);
         // Start with offset contributions from previous iterations
-        let o0 = i16::from(layout.k) * cli.z;
-        let mut o: Vec<i16> = vec![o0; layout.n as usize];
-        for s in 0..=i32::from(s_z) {
-            let end = if s == i32::from(s_z) { b } else { layout.k };
+        let o0 = i32::from(layout.k) * i32::from(cli.z);
+        let mut o: Vec<i32> = vec![o0; layout.n as usize];
+        for s in 0..=s_z {
+            let end = if s == s_z { b } else { layout.k };
             // Add contributions from other chunks in this iteration
             for b in 0..end {
                 let disk = ((s * i32::from(layout.m) + i32::from(b))
@@ -421,7 +420,7 @@ impl PrimeSIter {
     fn next_elem(&self) -> (i16, u64) {
         let b = PrimeS::offset_within_stripe(self.id, self.a, self.stripe,
                                              self.m);
-        let disk = ((i32::from(self.stripe) * i32::from(self.m) + i32::from(b))
+        let disk = ((self.stripe * i32::from(self.m) + i32::from(b))
                     * i32::from(self.y)).rem_euclid(i32::from(self.n));
         let disk = disk as i16;
         let o3 = self.r * self.depth as u64;
@@ -462,11 +461,11 @@ impl Iterator for PrimeSIter {
         self.id = match self.id {
         ChunkId::Data(i) => {
             self.o[disk as usize] += 1;
-            if self.a < i32::from(self.stripe + 1) * i32::from(self.m) - 1 {
+            if self.a < (self.stripe + 1) * i32::from(self.m) - 1 {
                 self.a += 1;
                 ChunkId::Data(i + 1)
             } else {
-                self.a = i32::from(self.stripe) * i32::from(self.m);
+                self.a = self.stripe * i32::from(self.m);
                 ChunkId::Parity(i - u64::from(self.m - 1), 0)
             }
         },
-- 
2.43.0


From 6289642a54a0151735d62370a232e6eebad792ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 03/33] fix: a range excluding both of two equal bounds is
 empty

---
 bfffs-core/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index 5278279..4637630 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -158,7 +158,7 @@ pub trait RangeBoundsExt<T>: RangeBounds<T>
             (Bound::Included(s), Bound::Included(e)) => s > e,
             (Bound::Included(s), Bound::Excluded(e)) => s >= e,
             (Bound::Excluded(s), Bound::Included(e)) => s >= e,
-            (Bound::Excluded(s), Bound::Excluded(e)) => s > e,
+            (Bound::Excluded(s), Bound::Excluded(e)) => s >= e,
             _ => false
         }
     }
-- 
2.43.0


From c078d2f5e94eb29388c2ce17eff138c30a7f8d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 04/33] fix: zero_sglist underflowed for a length of zero

---
 bfffs-core/src/util.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index 4637630..4930bc5 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -139,13 +139,14 @@ pub fn sglist_len<T>(sglist: &[T]) -> usize
 /// Create an SGList full of zeros, with the requested total length
 pub fn zero_sglist(len: usize) -> SGList {
     let zero_region_len = ZERO_REGION.len();
-    let zero_bufs = len.div_ceil(zero_region_len);
     let mut sglist = SGList::new();
-    for _ in 0..(zero_bufs - 1) {
+    for _ in 0..(len / zero_region_len) {
         sglist.push(ZERO_REGION.try_const().unwrap())
     }
-    sglist.push(ZERO_REGION.try_const().unwrap().slice_to(
-            len - (zero_bufs - 1) * zero_region_len));
+    let tail = len % zero_region_len;
+    if tail > 0 {
+        sglist.push(ZERO_REGION.try_const().unwrap().slice_to(tail));
+    }
     sglist
 }
 
-- 
2.43.0


From a36419382538ea439a70f26e169cec9fc562120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 05/33] fix: the record size of 1 MB (1048576 bytes) was
 rejected

---
 bfffs-core/src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 1c695c9..79b3fe0 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -180,7 +180,8 @@ impl FromStr for Property {
                         131_072 => Ok(Property::RecordSize(17)),
                         262_144 => Ok(Property::RecordSize(18)),
                         524_288 => Ok(Property::RecordSize(19)),
-                        1_048_776 => Ok(Property::RecordSize(20)),
+                        // 1_048_776 was a misprint, still accepted
+                        1_048_576 | 1_048_776 => Ok(Property::RecordSize(20)),
                         _ => Err(ParsePropertyError::Value(propval.to_string()))
                     }
                 } else {
-- 
2.43.0


From deabcf19e82e12cee9f5c27b7a91d04ac3279520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 06/33] fix: the source of a pseudoproperty was displayed as
 inherited

---
 bfffs-core/src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 79b3fe0..474fd91 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -287,7 +287,8 @@ impl fmt::Display for PropertySource {
         match *self {
             Self::Default => "default".fmt(f),
             Self::LOCAL => "local".fmt(f),
-            _ => "inherited".fmt(f)
+            Self::None => "none".fmt(f),
+            Self::Set(_) => "inherited".fmt(f)
         }
     }
 }
-- 
2.43.0


From a9663bc2bb65ddbc2403e4adcb80ee2fd6a8f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 07/33] fix: refuse file offsets that don't fit in a key's
 56-bit offset field

FSKey has 56 bits for an extent's offset.  Writing beyond 2^56 produced a
key of another kind, which could never be read back as file data.  Now
write and setattr return EFBIG, and FSKey::extent_range never leaves the
file's extents.
---
 bfffs-core/src/fs.rs      |  8 ++++++++
 bfffs-core/src/fs_tree.rs | 17 +++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index ab17c27..d2a5415 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -2230,6 +2230,9 @@ impl Fs {
 
     #[tracing::instrument(skip(self, fd))]
     pub async fn setattr(&self, fd: &FileData, mut attr: SetAttr) -> std::result::Result<(), i32> {
+        if attr.size.is_some_and(|size| size > FSKey::MAX_OFFSET) {
+            return Err(libc::EFBIG);
+        }
         let ino = fd.ino;
         let mut ninsert = 1;
         let mut nrange_delete = 0;
@@ -2429,6 +2432,11 @@ impl Fs {
         //  3) Set file length
         let ino = fd.ino;
         let uio = data.into();
+        if offset.checked_add(uio.len() as u64)
+            .is_none_or(|end| end > FSKey::MAX_OFFSET)
+        {
+            return Err(libc::EFBIG);
+        }
 
         let inode_key = FSKey::new(ino, ObjKey::Inode);
         let mut value = self.db.fsread(self.tree, move |dataset| {
diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index 7f8667c..86bdf9c 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -228,6 +228,9 @@ bitfield! {
 }
 
 impl FSKey {
+    /// The `offset` field is 56 bits wide.  No file may be larger than this.
+    pub const MAX_OFFSET: u64 = 1 << 56;
+
     fn compose(object: u64, objtype: u8, offset: u64) -> Self {
         FSKey((u128::from(object) << 64)
               | (u128::from(objtype) << 56)
@@ -269,19 +272,21 @@ impl FSKey {
         // Annoyingly, it is not possible to get an enum's discriminant without
         // constructing an instance.  So we must construct a default key here.
         let discriminant = ObjKey::Extent(Default::default()).discriminant();
+        // No extent lies beyond MAX_OFFSET.
+        let bound = |offset: u64| if offset < FSKey::MAX_OFFSET {
+            FSKey::compose(ino, discriminant, offset)
+        } else {
+            FSKey::compose(ino, discriminant + 1, 0)
+        };
         let start = match offsets.start_bound() {
-            Bound::Included(s) => {
-                FSKey::compose(ino, discriminant, *s)
-            },
+            Bound::Included(s) => bound(*s),
             Bound::Unbounded => {
                 FSKey::compose(ino, discriminant, 0)
             },
             _ => unimplemented!()   // LCOV_EXCL_LINE
         };
         let end = match offsets.end_bound() {
-            Bound::Excluded(e) => {
-                FSKey::compose(ino, discriminant, *e)
-            },
+            Bound::Excluded(e) => bound(*e),
             Bound::Unbounded => {
                 FSKey::compose(ino, discriminant + 1, 0)
             },
-- 
2.43.0


From 1e58e72ede770166a4ca219def9483b640cab341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 08/33] fix: a label whose length field is corrupt is refused,
 not a panic

The length was added to the start of the contents before anything was
checked.  A corrupt length near 2^64 overflowed, which panics with
overflow checks and otherwise makes a range that ends before it starts.
---
 bfffs-core/src/label.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/label.rs b/bfffs-core/src/label.rs
index f6c3b3c..8dca2b5 100644
--- a/bfffs-core/src/label.rs
+++ b/bfffs-core/src/label.rs
@@ -83,8 +83,9 @@ impl LabelReader {
             &buffer[length_start .. contents_start]);
         let mut hasher = MetroHash64::new();
         {
-            let csl = contents_start ..  contents_start + contents_len as usize;
-            let contents = if let Some(sl) = buffer.get(csl) {
+            let contents = contents_start.checked_add(contents_len as usize)
+                .and_then(|end| buffer.get(contents_start..end));
+            let contents = if let Some(sl) = contents {
                 sl
             } else {
                 tracing::warn!("Label too large");
-- 
2.43.0


From 92785223bbfe115eaff95998c8d563f02908d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 09/33] fix: the database is clean only once everything is
 committed

A write marked the database dirty before it held the txg lock, so a sync
already in progress could clear the mark and the write was not committed by
the next sync.  A sync that failed, or was still in progress, left the
database marked clean too, so the next one reported success without having
committed anything.
---
 bfffs-core/src/database/database.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 4f59d57..e1dac75 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -141,6 +141,11 @@ struct Label {
 struct Inner {
     /// Has any part of the database been modified since the last transaction
     /// sync?
+    ///
+    /// Writers set it while holding the txg lock for reading, and it is cleared
+    /// while holding that lock for writing, once everything is on disk.
+    /// Otherwise a sync might skip a modification, or report success before the
+    /// modification has been committed.
     // NB: This is likely to be highly contended and very slow.  Better to
     // replace it with a per-cpu counter.
     dirty: AtomicBool,
@@ -170,12 +175,12 @@ impl Inner {
         // from disk.  Ensure that it does not remain in the cache, too.  Do
         // this all in a single transaction.
         let tname = name.split('/').next_back().unwrap();
-        inner.dirty.store(true, Ordering::Relaxed);
 
         // First check that the tree exists ane ensure it is cached.
         Inner::open_filesystem(&inner, tree_id).await?;
 
         let txg = inner.idml.txg().await;
+        inner.dirty.store(true, Ordering::Relaxed);
         // Delete it from the forest while locking fs_trees
         let itree = {
             let mut wg = inner.fs_trees.write().await;
@@ -251,7 +256,6 @@ impl Inner {
         where F: FnOnce(ReadWriteFilesystem) -> B,
               B: Future<Output=Result<R>>,
     {
-        inner.dirty.store(true, Ordering::Relaxed);
         Inner::open_filesystem(&inner, tree_id)
         .and_then(move |itree| async move {
             let cr = itree.credit_requirements();
@@ -263,6 +267,7 @@ impl Inner {
             ).await;
             let idml2 = inner.idml.clone();
             let txg = inner.idml.txg().await;
+            inner.dirty.store(true, Ordering::Relaxed);
             let ds = ReadWriteFilesystem::new(idml2, itree, *txg, credit);
             let r = f(ds).await;
             drop(txg);
@@ -492,7 +497,6 @@ impl Database {
         -> Result<TreeID>
         where S: Into<String> + Debug + 'static
     {
-        self.inner.dirty.store(true, Ordering::Relaxed);
         let idml2 = self.inner.idml.clone();
         let idml3 = self.inner.idml.clone();
         let inner3 = self.inner.clone();
@@ -504,6 +508,7 @@ impl Database {
             ITree::<FSKey, FSValue>::create(idml2, false, 9.00, 1.61)
         );
         let txg_guard = idml3.txg().await;
+        inner3.dirty.store(true, Ordering::Relaxed);
         fs.clone().flush(*txg_guard).await?;
 
         // Write the new Tree to the Forest, the source-of-truth for trees
@@ -729,7 +734,7 @@ impl Database {
         // 5) Write the second label
         // 6) Sync the pool again, in case we're about to physically pull the
         //    disk or power off.
-        if !inner.dirty.swap(false, Ordering::Relaxed) {
+        if !inner.dirty.load(Ordering::Relaxed) {
             future::ok(())
         } else {
             let inner2 = inner.clone();
@@ -763,7 +768,11 @@ impl Database {
                 // inner2.idml.sync_all(...).
                 inner2.idml.sync_all(txg).await?;
                 inner2.write_label(&label, 1, txg).await?;
-                inner2.idml.sync_all(txg).await
+                inner2.idml.sync_all(txg).await?;
+                // The txg lock is still held, so nothing can have been modified
+                // since we flushed the trees.
+                inner2.dirty.store(false, Ordering::Relaxed);
+                Ok(())
             })
         }
     }
-- 
2.43.0


From 38bafc0d84838e15d93e2ac8b4caa193b96b123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 10/33] fix: two concurrent opens of a file system share one
 tree

Each of them used to create its own instance of the tree, and the one whose
instance was not registered with the database wrote into a tree that was
never flushed.
---
 bfffs-core/src/database/database.rs | 31 +++++++++++------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index e1dac75..763cd2a 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -206,24 +206,6 @@ impl Inner {
         Inner{dirty, fs_trees, idml, forest}
     }
 
-    fn new_filesystem(
-        inner: &Arc<Inner>,
-        tree_id: TreeID,
-        tod: TreeOnDisk<RID>)
-    -> impl Future<Output=Result<Arc<ITree<FSKey, FSValue>>>> + Send
-    {
-        let idml2 = inner.idml.clone();
-        let tree = ITree::<FSKey, FSValue>::open(idml2, false, tod);
-        let atree = Arc::new(tree);
-        let atree2 = atree.clone();
-        inner.fs_trees.with_write(move |mut wguard| {
-            wguard.entry(tree_id).or_insert(atree2);
-            future::ready(())
-        }).map(|_| {
-            Ok(atree)
-        })
-    }
-
     // Must be called from within a Tokio executor context
     fn open_filesystem(inner: &Arc<Inner>, tree_id: TreeID)
         -> impl Future<Output=Result<Arc<ITree<FSKey, FSValue>>>> + Send
@@ -235,8 +217,19 @@ impl Inner {
                 Some(fs) => Ok(fs.clone()),
                 None => {
                     drop(rguard);
+                    // Keep the lock until the tree is registered.  Were two
+                    // users to open different instances of it, only one of
+                    // them would ever get flushed.
+                    let mut wguard = inner2.fs_trees.write().await;
+                    if let Some(fs) = wguard.get(&tree_id) {
+                        return Ok(fs.clone());
+                    }
                     let tod = inner2.forest.get_tree(tree_id).await?;
-                    Inner::new_filesystem(&inner2, tree_id, tod).await
+                    let idml2 = inner2.idml.clone();
+                    let tree = ITree::<FSKey, FSValue>::open(idml2, false, tod);
+                    let fs = Arc::new(tree);
+                    wguard.insert(tree_id, fs.clone());
+                    Ok(fs)
                 }
             }
         }
-- 
2.43.0


From f720490555e38f9e99c313b42a78a3f9b5df939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 11/33] fix: destroy_fs borrows its credit before it locks the
 transaction

Waiting for credit with the txg lock held could deadlock with the syncer.
---
 bfffs-core/src/database/database.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 763cd2a..1c44f11 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -177,20 +177,28 @@ impl Inner {
         let tname = name.split('/').next_back().unwrap();
 
         // First check that the tree exists ane ensure it is cached.
-        Inner::open_filesystem(&inner, tree_id).await?;
+        let itree = Inner::open_filesystem(&inner, tree_id).await?;
 
+        // Borrow credit before taking the txg lock.  Otherwise we might wait for
+        // credit that is only repaid by a flush, which might wait for a sync,
+        // which would wait for our lock.
+        let cr = itree.credit_requirements();
+        let credit = inner.idml.borrow_credit(cr.range_delete).await;
         let txg = inner.idml.txg().await;
         inner.dirty.store(true, Ordering::Relaxed);
         // Delete it from the forest while locking fs_trees
         let itree = {
             let mut wg = inner.fs_trees.write().await;
-            inner.forest.unlink(parent, tree_id, tname, *txg).await?;
+            if let Err(e) = inner.forest.unlink(parent, tree_id, tname, *txg)
+                .await
+            {
+                inner.idml.repay(credit);
+                return Err(e);
+            }
             wg.remove(&tree_id).unwrap()
         };
 
         // Finally delete its contents
-        let cr = itree.credit_requirements();
-        let credit = inner.idml.borrow_credit(cr.range_delete).await;
         // XXX range_delete is effective, but it prevents any transactions from
         // syncing, and it holds all of the affected metadata in RAM at the same
         // time.  TODO: for better efficiency, create a restartable
-- 
2.43.0


From 1b75164465835a4fb19cba9011eae830e42ca495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 12/33] fix: sync a rebuilding disk before and after writing
 its labels

---
 bfffs-core/src/mirror.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index ee5b818..df5156e 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -298,7 +298,11 @@ impl Child {
     }
 
     fn sync_all(&self) -> Option<VdevBlockFut> {
-        self.as_present().map(|vb| vb.sync_all())
+        // Rebuilding disks must be synced, too.  Otherwise their labels might
+        // become stable before the data that they vouch for.
+        self.as_present()
+            .or_else(|| self.as_rebuilding())
+            .map(|vb| vb.sync_all())
     }
 
     fn uuid(&self) -> Uuid {
-- 
2.43.0


From 9b791aa5e61945aeb1691d758c540303c0c14be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:54 +0000
Subject: [PATCH 13/33] fix: hold the transaction lock while cleaning a zone

---
 bfffs-core/src/cleaner.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/cleaner.rs b/bfffs-core/src/cleaner.rs
index 9526ce9..51304a3 100644
--- a/bfffs-core/src/cleaner.rs
+++ b/bfffs-core/src/cleaner.rs
@@ -47,9 +47,12 @@ impl SyncCleaner {
             .try_for_each(move |zone| {
                 let idml3 = idml2.clone();
                 idml2.txg()
-                .then(move |txg_guard| 
-                    idml3.clean_zone(zone, *txg_guard)
-                )
+                .then(move |txg_guard| async move {
+                    // Hold the txg lock until the zone is clean.  Otherwise a
+                    // transaction might be synced, and the zone erased, while
+                    // we're still moving records out of it.
+                    idml3.clean_zone(zone, *txg_guard).await
+                })
             })
         })
     }
-- 
2.43.0


From 03f0c98d70bf439684693c3f8f5905ac61d5c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:46 +0000
Subject: [PATCH 14/33] fix: destroying a file system twice at once panicked

---
 bfffs-core/src/database/database.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 1c44f11..6235b5c 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -189,9 +189,13 @@ impl Inner {
         // Delete it from the forest while locking fs_trees
         let itree = {
             let mut wg = inner.fs_trees.write().await;
-            if let Err(e) = inner.forest.unlink(parent, tree_id, tname, *txg)
-                .await
-            {
+            let r = if wg.contains_key(&tree_id) {
+                inner.forest.unlink(parent, tree_id, tname, *txg).await
+            } else {
+                // Somebody else destroyed it since we opened it
+                Err(Error::ENOENT)
+            };
+            if let Err(e) = r {
                 inner.idml.repay(credit);
                 return Err(e);
             }
-- 
2.43.0


From b15e34f6dbb734df5c6332c01d3f5fe592d39d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 15/33] fix: create_fs borrows its credit before it locks the
 transaction

---
 bfffs-core/src/database/database.rs | 139 +++++++++++++++-------------
 1 file changed, 77 insertions(+), 62 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 6235b5c..f0eb360 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -512,73 +512,88 @@ impl Database {
         let fs = Arc::new(
             ITree::<FSKey, FSValue>::create(idml2, false, 9.00, 1.61)
         );
+        // Borrow credit before taking the txg lock.  Otherwise we might wait for
+        // credit that is only repaid by a flush, which might wait for a sync,
+        // which would wait for our lock.
+        let cr = fs.credit_requirements();
+        let credit = idml3.borrow_credit(3 * cr.insert).await;
         let txg_guard = idml3.txg().await;
         inner3.dirty.store(true, Ordering::Relaxed);
-        fs.clone().flush(*txg_guard).await?;
-
-        // Write the new Tree to the Forest, the source-of-truth for trees
-        let tod = fs.serialize().unwrap();
-        let tree_id = inner3.forest.insert_tree(parent, name.into(), tod,
-            *txg_guard).await?;
+        let r = async {
+            fs.clone().flush(*txg_guard).await?;
+
+            // Write the new Tree to the Forest, the source-of-truth for trees
+            let tod = fs.serialize().unwrap();
+            let tree_id = inner3.forest.insert_tree(parent, name.into(), tod,
+                *txg_guard).await?;
+            let itree = Inner::open_filesystem(&inner3, tree_id).await?;
+            Ok((tree_id, itree))
+        }.await;
+        let (tree_id, itree) = match r {
+            Ok(r) => r,
+            Err(e) => {
+                idml3.repay(credit);
+                return Err(e);
+            }
+        };
 
         // Create the filesystem's root directory
-        Inner::fswrite(inner3, tree_id, 3, 0, 0, 0, move |dataset|
-        {
-            let ino = 1;    // FUSE requires root dir to have inode 1
-            let inode_key = FSKey::new(ino, ObjKey::Inode);
-            let now = Timespec::now();
-
-            let inode = Inode {
-                size: 0,
-                bytes: 0,
-                nlink: 1,   // for "."
-                flags: 0,
-                atime: now,
-                mtime: now,
-                ctime: now,
-                birthtime: now,
-                uid: 0,
-                gid: 0,
-                file_type: FileType::Dir,
-                perm: 0o755
-            };
-            let inode_value = FSValue::inode(inode);
+        let dataset = ReadWriteFilesystem::new(idml3.clone(), itree, *txg_guard,
+            credit);
+        let ino = 1;    // FUSE requires root dir to have inode 1
+        let inode_key = FSKey::new(ino, ObjKey::Inode);
+        let now = Timespec::now();
+
+        let inode = Inode {
+            size: 0,
+            bytes: 0,
+            nlink: 1,   // for "."
+            flags: 0,
+            atime: now,
+            mtime: now,
+            ctime: now,
+            birthtime: now,
+            uid: 0,
+            gid: 0,
+            file_type: FileType::Dir,
+            perm: 0o755
+        };
+        let inode_value = FSValue::inode(inode);
 
-            // Create the /. and /.. directory entries
-            let dot_dirent = fs_tree::Dirent {
-                ino,
-                dtype: libc::DT_DIR,
-                name:  OsString::from(".")
-            };
-            let dot_objkey = ObjKey::dir_entry(OsStr::new("."));
-            let dot_key = FSKey::new(ino, dot_objkey);
-            let dot_value = FSValue::DirEntry(dot_dirent);
-
-            let dotdot_dirent = fs_tree::Dirent {
-                ino: 1,     // The VFS replaces this
-                dtype: libc::DT_DIR,
-                name:  OsString::from("..")
-            };
-            let dotdot_objkey = ObjKey::dir_entry(OsStr::new(".."));
-            let dotdot_key = FSKey::new(ino, dotdot_objkey);
-            let dotdot_value = FSValue::DirEntry(dotdot_dirent);
-
-            // Set initial properties
-            let futs = FuturesUnordered::new();
-            futs.push(
-                dataset.insert(inode_key, inode_value).map_ok(drop)
-                .boxed()
-            );
-            futs.push(
-                dataset.insert(dot_key, dot_value).map_ok(drop)
-                .boxed()
-            );
-            futs.push(
-                dataset.insert(dotdot_key, dotdot_value).map_ok(drop)
-                .boxed()
-            );
-            futs.try_collect::<Vec<_>>()
-        }).await?;
+        // Create the /. and /.. directory entries
+        let dot_dirent = fs_tree::Dirent {
+            ino,
+            dtype: libc::DT_DIR,
+            name:  OsString::from(".")
+        };
+        let dot_objkey = ObjKey::dir_entry(OsStr::new("."));
+        let dot_key = FSKey::new(ino, dot_objkey);
+        let dot_value = FSValue::DirEntry(dot_dirent);
+
+        let dotdot_dirent = fs_tree::Dirent {
+            ino: 1,     // The VFS replaces this
+            dtype: libc::DT_DIR,
+            name:  OsString::from("..")
+        };
+        let dotdot_objkey = ObjKey::dir_entry(OsStr::new(".."));
+        let dotdot_key = FSKey::new(ino, dotdot_objkey);
+        let dotdot_value = FSValue::DirEntry(dotdot_dirent);
+
+        // Set initial properties
+        let futs = FuturesUnordered::new();
+        futs.push(
+            dataset.insert(inode_key, inode_value).map_ok(drop)
+            .boxed()
+        );
+        futs.push(
+            dataset.insert(dot_key, dot_value).map_ok(drop)
+            .boxed()
+        );
+        futs.push(
+            dataset.insert(dotdot_key, dotdot_value).map_ok(drop)
+            .boxed()
+        );
+        futs.try_collect::<Vec<_>>().await?;
         Ok(tree_id)
     }
 
-- 
2.43.0


From f54a90a9220d27b562cf4bd6d18b03a52c0fa8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 16/33] fix: report a failure to reopen a zone when opening a
 cluster

FreeSpaceMap::deserialize threw the result of reopen_zone away, so a cluster
whose open zone could not be reopened (its stripe buffer is read back from
disk) was opened nevertheless.
---
 bfffs-core/src/cluster.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index baeaec1..d62757b 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -275,7 +275,7 @@ impl<'a> FreeSpaceMap {
         }
         assert_eq!(zid, zones);
         fsm.clear_dirty_zones();
-        let fut = oz_futs.try_collect::<Vec<_>>().map(|_| Ok((fsm, vdev)));
+        let fut = oz_futs.try_collect::<Vec<_>>().map_ok(|_| (fsm, vdev));
         Box::pin(fut)
     }
 
-- 
2.43.0


From 7ee0d1c0ccf48601d518d0ac57f2b0b50669380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 17/33] fix: report a space map that cannot be decoded instead
 of panicking

Corruption of the length field of a SpacemapOnDisk makes its decoding fail
before its checksum is compared.  That should be EINTEGRITY, too.
---
 bfffs-core/src/cluster.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index d62757b..e16dbf0 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -242,7 +242,8 @@ impl<'a> FreeSpaceMap {
         let oz_futs = FuturesUnordered::new();
         let mut zid: ZoneT = 0;
         for (i, db) in buf.into_chunks(BYTES_PER_LBA).enumerate() {
-            let sod = SpacemapOnDisk::deserialize(i as u64, &db).unwrap();
+            let sod = SpacemapOnDisk::deserialize(i as u64, &db)
+                .unwrap_or(Err(Error::EINTEGRITY));
             if let Err(e) = sod {
                 let fut = future::err(e);
                 return Box::pin(fut);
-- 
2.43.0


From 58fdb3128f7e76eba6f779c45f687180e2b1b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 18/33] fix: reclaim zones whose contents were all freed while
 they were open

Cluster::free only kills a zone that is already closed, and nothing ever frees
anything from a zone that has nothing in use.  So a zone that was completely
freed before close_zones closed it was never reaped: its space leaked, and the
cleaner would find nothing in it to move, yet select it again each time.
---
 bfffs-core/src/cluster.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index e16dbf0..a213fe4 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -899,6 +899,11 @@ impl Cluster {
         nearly_full_zones.iter().map(|&zone_id| {
             let blocks = wg.finish_zone(zone_id, txg);
             self.allocated_space.fetch_add(blocks, Ordering::Relaxed);
+            if wg.in_use(zone_id) == 0 {
+                // Everything in the zone was freed while it was still open
+                let blocks = wg.kill_zone(zone_id);
+                self.allocated_space.fetch_sub(blocks, Ordering::Relaxed);
+            }
             self.vdev.finish_zone(zone_id)
         }).collect::<FuturesUnordered<BoxVdevFut>>()
     }
-- 
2.43.0


From 8fde4252d0973d2358cc510d6c6301c86f3c039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 19/33] fix: don't lose the stripe buffer of a zone when the
 pool is full

Cluster::write closed the zones that were too full for the new write before it
knew whether there was any other zone to write to.  If there wasn't, it returned
ENOSPC and dropped the futures of VdevRaidApi::finish_zone, which held the
contents of the stripe buffer: data whose writes had already succeeded.
---
 bfffs-core/src/cluster.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index a213fe4..54bbb16 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -1263,7 +1263,6 @@ impl Cluster {
 
         let mut wg = self.fsm.write().unwrap();
         let (alloc_result, nearly_full_zones) = wg.try_allocate(space);
-        let futs = self.close_zones(&mut wg, &nearly_full_zones, txg);
         let (zone_id, lba, oz_fut) = if let Some(ac) = alloc_result {
             let zone_id = ac.0;
             let lba = ac.1;
@@ -1288,6 +1287,10 @@ impl Cluster {
                 None => return Err(Error::ENOSPC)
             }
         };
+        // Don't close any zones until the write can no longer fail.  Closing a
+        // zone takes the contents of its stripe buffer, and only this future
+        // will write them.
+        let futs = self.close_zones(&mut wg, &nearly_full_zones, txg);
         self.allocated_space.fetch_add(space, Ordering::Relaxed);
         let wfut = self.vdev.write_at(buf, zone_id, lba);
         drop(wg);
-- 
2.43.0


From 8e3e6802162e9ac1aa97f1d9391853bcf6e56e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:24 +0000
Subject: [PATCH 20/33] fix: a block that cannot be read no longer leaves
 everybody else waiting for it

get_or_insert! did not remove the block from pending_insertions when it could
not be read, or when its future was dropped, so every later get of the same
block waited for ever.
---
 bfffs-core/src/cache/mod.rs | 59 +++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/bfffs-core/src/cache/mod.rs b/bfffs-core/src/cache/mod.rs
index 4875f5f..771ee3a 100644
--- a/bfffs-core/src/cache/mod.rs
+++ b/bfffs-core/src/cache/mod.rs
@@ -8,6 +8,7 @@ use std::{
     borrow::Borrow,
     collections::HashMap,
     fmt::Debug,
+    sync::{Arc, Mutex},
 };
 
 mod lru;
@@ -188,6 +189,29 @@ impl Cache {
     }
 }
 
+/// Marks a block as being read from disk, so nobody else reads it too.
+///
+/// Once dropped, everybody who waits for the block will be woken, whether or
+/// not it could be read.
+#[allow(unused)]
+pub(crate) struct PendingInsertion {
+    cache: Arc<Mutex<Cache>>,
+    key: Key,
+}
+
+#[allow(unused)]
+impl PendingInsertion {
+    pub(crate) fn new(cache: Arc<Mutex<Cache>>, key: Key) -> Self {
+        Self{cache, key}
+    }
+}
+
+impl Drop for PendingInsertion {
+    fn drop(&mut self) {
+        self.cache.lock().unwrap().pending_insertions.remove(&self.key);
+    }
+}
+
 /// Get a read-only reference to a cached block, or if not present read it from
 /// disk and update cache.
 ///
@@ -216,15 +240,27 @@ macro_rules! get_or_insert {
                 return ::futures::future::ok(t).boxed();
             }
             if let Some(v) = guard.pending_insertions.get_mut(&$key) {
-                let (tx, rx) = ::futures::channel::oneshot::channel();
+                let (tx, rx) = ::futures::channel::oneshot::channel::<()>();
                 v.push(tx);
                 drop(guard);
                 let cache2 = $amself.clone();
+                let fut = $f;
                 return async move {
-                    rx.await.unwrap();
-                    let t = cache2.lock().unwrap().get::<$R>(&$key)
-                        .expect("Other task did not insert to cache as promised?");
-                    Ok(t)
+                    // The sender will be dropped when the other task is done
+                    let _ = rx.await;
+                    let cached = cache2.lock().unwrap().get::<$R>(&$key);
+                    match cached {
+                        Some(t) => Ok(t),
+                        None => {
+                            // The other task failed, or the block has already
+                            // been evicted.
+                            fut.await.map(|cacheable: Box<$C>| {
+                                let r = cacheable.make_ref();
+                                cache2.lock().unwrap().insert($key, cacheable);
+                                r.downcast::<$R>().unwrap()
+                            })
+                        }
+                    }
                 }.boxed();
             } else {
                 guard.pending_insertions.insert($key, Vec::new());
@@ -232,16 +268,15 @@ macro_rules! get_or_insert {
             }
 
             let cache2 = $amself.clone();
+            let pending = $crate::cache::PendingInsertion::new(cache2.clone(),
+                $key);
             $f.map_ok(move |cacheable: Box<$C>| {
                 let r = cacheable.make_ref();
-                let mut guard = cache2.lock().unwrap();
-                guard.insert($key, cacheable);
-                if let Some(v) = guard.pending_insertions.remove(&$key) {
-                    for s in v.into_iter() {
-                        s.send(()).unwrap();
-                    }
-                }
+                cache2.lock().unwrap().insert($key, cacheable);
                 r.downcast::<$R>().unwrap()
+            }).map(move |r| {
+                drop(pending);
+                r
             }).boxed()
         }
     }
-- 
2.43.0


From eaee9ae169d65fc4631d6e103c415fdd935dc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:24 +0000
Subject: [PATCH 21/33] fix: DDML::read ignores the padding of reconstructed
 records, too

A reconstruction is a whole number of LBAs long, but the checksum covers only
the first csize bytes.  So no record with padding was ever repaired.
---
 bfffs-core/src/ddml/ddml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/ddml/ddml.rs b/bfffs-core/src/ddml/ddml.rs
index 20d525f..724c7c4 100644
--- a/bfffs-core/src/ddml/ddml.rs
+++ b/bfffs-core/src/ddml/ddml.rs
@@ -337,7 +337,9 @@ impl DDML {
                     match r {
                         Ok(reconstructions) => {
                             for rdbs in reconstructions {
-                                let rdb = rdbs.try_const().unwrap();
+                                // Like above, ignore the padding
+                                let rdb = rdbs.try_const().unwrap()
+                                    .slice_to(drp.csize as usize);
                                 let mut hasher = MetroHash64::new();
                                 checksum_iovec(&rdb, &mut hasher);
                                 let checksum = hasher.finish();
-- 
2.43.0


From b7f3d0add3ebbd8c4dea01aa7981bd25b4be992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 22/33] fix: forget the old address of a record that the
 cleaner moves

If clean_zone could not read some record, it left entries in the AllocT for
all those that it had already moved.  Once they were deleted, cleaning the zone
again panicked, and so did allocating the same address again.
---
 bfffs-core/src/idml/idml.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 0c5fcc6..99103eb 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -380,6 +380,7 @@ impl<'a> IDML {
                 let mut entry = v.expect(
                     "Inconsistency in alloct.  Entry not found in RIDT");
                 let compressed = entry.drp.is_compressed();
+                let old_pba = entry.drp.pba();
 
                 let cache_miss = || {
                     // Cache miss: get the old record, write the new one, then
@@ -433,8 +434,13 @@ impl<'a> IDML {
                     entry.drp = drp;
                     let ridt_fut = ridt2.insert(rid, entry, txg,
                                                 Credit::null());
-                    let alloct_fut = alloct.insert(drp.pba(), rid, txg,
-                                                   Credit::null());
+                    // Forget the old address, too.  clean_zone would do that in
+                    // the end, but only if it can move every other record.
+                    let alloct_fut = alloct.clone()
+                    .insert(drp.pba(), rid, txg, Credit::null())
+                    .and_then(move |_| {
+                        alloct.remove(old_pba, txg, Credit::null())
+                    });
                     future::try_join(ridt_fut, alloct_fut)
                     .map_ok(move |_| drp)
                 })
-- 
2.43.0


From d12d70874970b70b9ba62ea6453dc8cec1838fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 23/33] fix: IDML::pop does not change the tables if the record
 can't be read

The record was read while it was being removed from the RIDT and the AllocT, so
if it could not be read they were left in any state, and its space was never
freed.
---
 bfffs-core/src/idml/idml.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 99103eb..b60c481 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -609,11 +609,13 @@ impl DML for IDML {
                 } else {
                     ddml2.pop_direct::<T>(&entry.drp).boxed()
                 };
+                // If the record can't be read, then leave the tables alone
+                let cacheable = bfut.await?;
                 let alloct_fut = alloct2.remove(entry.drp.pba(), txg,
                     Credit::null());
                 let ridt_fut = ridt2.remove(rid, txg, Credit::null());
-                let (cacheable, old_rid, old_ridt_entry) =
-                    future::try_join3(bfut, alloct_fut, ridt_fut).await?;
+                let (old_rid, old_ridt_entry) =
+                    future::try_join(alloct_fut, ridt_fut).await?;
                 assert!(old_rid.is_some());
                 assert!(old_ridt_entry.is_some());
                 Ok(cacheable)
@@ -626,8 +628,9 @@ impl DML for IDML {
                 }).unwrap_or_else(|| {
                     ddml2.get_direct::<T>(&entry.drp).boxed()
                 });
-                let ridt_fut = ridt2.insert(rid, entry, txg, Credit::null());
-                let (cacheable, oldr) = future::try_join(bfut, ridt_fut).await?;
+                let cacheable = bfut.await?;
+                let oldr = ridt2.insert(rid, entry, txg, Credit::null())
+                    .await?;
                 assert!(oldr.is_some());
                 Ok(cacheable)
             }
-- 
2.43.0


From fc1151e63b1ea86c0667979355f928e6c075f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 24/33] fix: check_ridt also finds two records that share one
 address

It looked only whether the address of every record is in the AllocT at all, not
whether it stands for that record.
---
 bfffs-core/src/idml/idml.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index b60c481..a3d8165 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -125,7 +125,13 @@ impl<'a> IDML {
                 alloct3.get(entry.drp.pba())
                 .map_ok(move |v| {
                     passes & match v {
-                        Some(_) => true,
+                        Some(rid2) if rid2 == rid => true,
+                        Some(rid2) => {
+                            eprintln!(concat!("Indirect blocks {} and {} ",
+                                "have the same address.  Entry={:?}"),
+                                rid, rid2, entry);
+                            false
+                        },
                         None => {
                             eprintln!(concat!("Indirect block {} has no ",
                                 "reverse mapping in the allocation table.  ",
-- 
2.43.0


From be8759bd2a2a62b4b5a7076e9fdbd57576cf05b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:24 +0000
Subject: [PATCH 25/33] fix: tolerate a tree that shrinks while its zones are
 cleaned

clean_zone reads the tree's height once and then visits every echelon below
it.  If the tree shrinks meanwhile, get_dirty_nodes descended past the
requested echelon and panicked on a leaf; rewrite_node did likewise.  There
is nothing to clean at a level that no longer exists.
---
 bfffs-core/src/tree/tree/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 9c47a46..f5187a2 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2410,6 +2410,10 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
                 VecDeque::new()
             };
             Ok((dirty, None))
+        } else if h <= params.echelon {
+            // The tree has shrunk since we read its height; it has no nodes at
+            // this echelon any more.
+            Ok((VecDeque::new(), None))
         } else {
             let dml2 = self.dml.clone();
             let guard = tree_guard.elem.rlock(&dml2).await?;
@@ -2493,6 +2497,10 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
                         guard.elem.ptr = new;
                     });
                 fut.boxed()
+            } else if h <= node.height {
+                // The tree has shrunk since pass 1, so every node at this
+                // height is gone.  Nothing to do!
+                future::ok(()).boxed()
             } else {
                 // Null credit is ok, since only leaf nodes need credit, and if
                 // the root were a leaf, then we wouldn't be recursing
-- 
2.43.0


From d5b41acbfa8e4c581bb0529de7e5e9f7fc2b0a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:42 +0000
Subject: [PATCH 26/33] fix: record the root's transaction range when cleaning
 rewrites it

rewrite_node moved an on-disk root to a new address in a later transaction
but left the transaction range in its elem as it was, so Tree::addresses
for a later range left the root's new address out.
---
 bfffs-core/src/tree/tree/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index f5187a2..921ad17 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2495,6 +2495,11 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
                     }).map_ok(move |addr| {
                         let new = TreePtr::Addr(addr);
                         guard.elem.ptr = new;
+                        if h == 1 {
+                            // A leaf's TXG range has only one TXG
+                            guard.elem.txgs.start = txg;
+                        }
+                        guard.elem.txgs.end = txg + 1;
                     });
                 fut.boxed()
             } else if h <= node.height {
-- 
2.43.0


From 252d8bb8f66f948ef3f22645b19c1b80a58ddc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:01 +0000
Subject: [PATCH 27/33] fix: pool create: report a number out of range instead
 of panicking

---
 bfffs/src/pool_create_parser.lalrpop | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs/src/pool_create_parser.lalrpop b/bfffs/src/pool_create_parser.lalrpop
index 27e1701..08c418a 100644
--- a/bfffs/src/pool_create_parser.lalrpop
+++ b/bfffs/src/pool_create_parser.lalrpop
@@ -1,11 +1,13 @@
 // vim: filetype=rust
 
 use std::str::FromStr;
+use lalrpop_util::ParseError;
 use crate::pool_create_ast::{Disk, Mirror, Raid, RaidChild, Tlv, Pool};
 
 grammar;
 
-Num: i16 = r"[0-9]+" => i16::from_str(<>).unwrap();
+Num: i16 = r"[0-9]+" =>? i16::from_str(<>)
+    .map_err(|_| ParseError::User { error: "number out of range" });
 
 Disk: Disk<'input> = {
     r"[/a-zA-Z][^ \t\n]*" => Disk(<>)
-- 
2.43.0


From 8541cd5e3adc2a741917485f0b90123010f9c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:32 +0000
Subject: [PATCH 28/33] fix: mirror: don't report success for a write that no
 child received

---
 bfffs-core/src/mirror.rs | 55 +++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index df5156e..e65ea22 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -450,6 +450,18 @@ impl Mirror {
         panic!("No present children");
     }
 
+    /// Wait for a write that was issued to every Present child.
+    ///
+    /// If there are no Present children then the data hasn't been stored
+    /// anywhere.  Report that, just like a read would.
+    fn join_writes(futs: FuturesUnordered<VdevBlockFut>) -> BoxVdevFut {
+        if futs.is_empty() {
+            Box::pin(future::err(Error::ENXIO))
+        } else {
+            Box::pin(futs.try_collect::<Vec<_>>().map_ok(drop))
+        }
+    }
+
     fn new(uuid: Uuid, children: Vec<Child>) -> Result<Self>
     {
         assert!(!children.is_empty(), "Need at least one disk");
@@ -818,12 +830,10 @@ impl Mirror {
     // TODO: can we eliminate this box?
     pub fn write_at(&self, buf: IoVec, lba: LbaT) -> BoxVdevFut
     {
-        let fut = self.children.iter().filter_map(|blockdev| {
+        let futs = self.children.iter().filter_map(|blockdev| {
             blockdev.write_at(buf.clone(), lba)
-        }).collect::<FuturesUnordered<_>>()
-        .try_collect::<Vec<_>>()
-        .map_ok(drop);
-        Box::pin(fut)
+        }).collect::<FuturesUnordered<_>>();
+        Self::join_writes(futs)
     }
 
     pub fn write_label(&self, mut labeller: LabelWriter, txg: TxgT,
@@ -837,37 +847,36 @@ impl Mirror {
             children: children_uuids
         };
         labeller.serialize(&label).unwrap();
-        let fut = self.children.iter().filter_map(|bd| {
-            if repairing {
+        if repairing {
+            let fut = self.children.iter().filter_map(|bd| {
                 bd.repair_label(labeller.clone(), txg)
-            } else {
+            }).collect::<FuturesUnordered<_>>()
+            .try_collect::<Vec<_>>()
+            .map_ok(drop);
+            Box::pin(fut)
+        } else {
+            let futs = self.children.iter().filter_map(|bd| {
                 bd.write_label(labeller.clone(), txg)
-            }
-        }).collect::<FuturesUnordered<_>>()
-        .try_collect::<Vec<_>>()
-        .map_ok(drop);
-        Box::pin(fut)
+            }).collect::<FuturesUnordered<_>>();
+            Self::join_writes(futs)
+        }
     }
 
     pub fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
         ->  BoxVdevFut
     {
-        let fut = self.children.iter().filter_map(|blockdev| {
+        let futs = self.children.iter().filter_map(|blockdev| {
             blockdev.write_spacemap(sglist.clone(), idx, block)
-        }).collect::<FuturesUnordered<_>>()
-        .try_collect::<Vec<_>>()
-        .map_ok(drop);
-        Box::pin(fut)
+        }).collect::<FuturesUnordered<_>>();
+        Self::join_writes(futs)
     }
 
     pub fn writev_at(&self, bufs: SGList, lba: LbaT) -> BoxVdevFut
     {
-        let fut = self.children.iter().filter_map(|blockdev| {
+        let futs = self.children.iter().filter_map(|blockdev| {
             blockdev.writev_at(bufs.clone(), lba)
-        }).collect::<FuturesUnordered<_>>()
-        .try_collect::<Vec<_>>()
-        .map_ok(drop);
-        Box::pin(fut)
+        }).collect::<FuturesUnordered<_>>();
+        Self::join_writes(futs)
     }
 }
 
-- 
2.43.0


From 8b1b904daa025bacf1003c56e74b0b0491a4d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:16 +0000
Subject: [PATCH 29/33] fix: don't reconstruct from parity on a disk assumed to
 be corrupt

VdevRaid::read_long_multi tries every combination of disks that might be
corrupt.  But it only ignored those disks' data chunks, not their parity
chunks.  So with two or more parity disks, it never tried the right combination
for a stripe that had both a data chunk and a parity chunk on corrupt disks.
---
 bfffs-core/src/raid/vdev_raid.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 46b9b39..65b98f1 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1339,11 +1339,13 @@ impl VdevRaid {
                     {
                         let disk = loc.disk as usize;
                         let args = args_per_disk[disk].as_ref().unwrap();
-                        if disk_erasures.contains(disk) && cid.is_data() {
+                        if disk_erasures.contains(disk) {
                             erasures.set(chunkpos, true);
-                            let mut dbm = sdbmi.next().unwrap();
-                            missing.push(dbm.as_mut_ptr());
-                            vdbm.push(dbm);
+                            if cid.is_data() {
+                                let mut dbm = sdbmi.next().unwrap();
+                                missing.push(dbm.as_mut_ptr());
+                                vdbm.push(dbm);
+                            }
                         } else {
                             let dbs = buffers[disk].as_mut().unwrap();
                             let mut db = dbs.try_const().unwrap();
-- 
2.43.0


From 5b4e40ae5783c31a1f71197428d58a062c9e81a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:17 +0000
Subject: [PATCH 30/33] fix: don't panic writing labels or spacemaps to a
 degraded RAID array

VdevRaid::{write_label, write_spacemap, read_spacemap} all tried to access every
child, and panicked if any was missing or faulted.  So a degraded pool would
panic at the next transaction sync.  Skip such children, as erase_zone,
finish_zone, and sync_all already do.
---
 bfffs-core/src/raid/vdev_raid.rs | 52 ++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 65b98f1..c26a80a 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -312,8 +312,10 @@ impl Child {
         }
     }
 
-    fn read_spacemap(&self, buf: IoVecMut, smidx: u32) -> ChildReadSpacemap {
-        self.as_present().unwrap().read_spacemap(buf, smidx)
+    fn read_spacemap(&self, buf: IoVecMut, smidx: u32)
+        -> Option<ChildReadSpacemap>
+    {
+        self.as_present().map(|m| m.read_spacemap(buf, smidx))
     }
 
     fn readv_at(&self, bufs: SGListMut, lba: LbaT) -> ChildReadFut {
@@ -381,14 +383,16 @@ impl Child {
         }
     }
 
-    fn write_label(&self, labeller: LabelWriter, txg: TxgT) -> BoxVdevFut {
-        self.as_present().unwrap().write_label(labeller, txg, false)
+    fn write_label(&self, labeller: LabelWriter, txg: TxgT)
+        -> Option<BoxVdevFut>
+    {
+        self.as_present().map(|m| m.write_label(labeller, txg, false))
     }
 
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
-        ->  BoxVdevFut
+        -> Option<BoxVdevFut>
     {
-        self.as_present().unwrap().write_spacemap(sglist, idx, block)
+        self.as_present().map(|m| m.write_spacemap(sglist, idx, block))
     }
 
     fn writev_at(&self, bufs: SGList, lba: LbaT) -> ChildWriteFut {
@@ -461,22 +465,25 @@ impl Future for ReadSpacemap {
             return Poll::Ready(Err(Error::ENXIO));
         }
         loop {
-            match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
+            let e = match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
-                Poll::Ready(Err(e)) => {
-                    if *pinned.next >= pinned.inner.children.len() {
-                        // Out of children.  Fail the Read.
-                        return Poll::Ready(Err(e));
-                    }
+                Poll::Ready(Err(e)) => e
+            };
+            // Try a different child, if any others are present.
+            loop {
+                if *pinned.next >= pinned.inner.children.len() {
+                    // Out of children.  Fail the Read.
+                    return Poll::Ready(Err(e));
+                }
+                let buf = pinned.dbi.try_mut().unwrap();
+                let child = &pinned.inner.children[*pinned.next];
+                *pinned.next += 1;
+                if let Some(f) = child.read_spacemap(buf, *pinned.smidx) {
+                    pinned.fut.replace(f);
+                    break;
                 }
             }
-            // Try a different child.
-            let buf = pinned.dbi.try_mut().unwrap();
-            let child = &pinned.inner.children[*pinned.next];
-            *pinned.next += 1;
-            let new_fut = child.read_spacemap(buf, *pinned.smidx);
-            pinned.fut.replace(new_fut);
         }
     }
 }
@@ -2262,11 +2269,12 @@ impl VdevRaidApi for VdevRaid {
     {
         let dbi = buf.clone_inaccessible();
         let inner = self.inner.clone();
-        let fut = inner.children.first().map(|child| child.read_spacemap(buf, smidx));
+        let first = inner.children.iter().position(Child::is_present);
+        let fut = first.and_then(|i| inner.children[i].read_spacemap(buf, smidx));
 
         Box::pin(ReadSpacemap {
             inner,
-            next: 1,
+            next: first.map_or(0, |i| i + 1),
             dbi,
             smidx,
             fut
@@ -2467,7 +2475,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_label(&self, mut labeller: LabelWriter, txg: TxgT) -> BoxVdevFut
     {
         self.serialize_label(&mut labeller);
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
            bd.write_label(labeller.clone(), txg)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
@@ -2478,7 +2486,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
         -> BoxVdevFut
     {
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
             bd.write_spacemap(sglist.clone(), idx, block)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
-- 
2.43.0


From 99902b9eb3eb0fa8dfc6d78401a0ba4e41ab471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:17 +0000
Subject: [PATCH 31/33] fix: don't return a faulted mirror to service without
 rebuilding it

A RAID child that was faulted as a whole cannot be rebuilt yet.  But
Child::restore would nonetheless turn it from Faulted to Present, without
adjusting VdevRaid::faulted_children.
---
 bfffs-core/src/raid/vdev_raid.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index c26a80a..f869432 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -351,15 +351,9 @@ impl Child {
     /// It is the caller's responsibility to ensure that all data has been fully
     /// rebuilt.
     fn restore(&mut self) {
-        let mut old = mem::replace(self, Child::Missing(Uuid::default()));
-        if let Child::Present(ref mut m) = &mut old {
+        if let Some(m) = self.as_present_mut() {
             m.restore();
         }
-        *self = match old {
-            Child::Present(m) => Child::Present(m),
-            Child::Faulted(m) => Child::Present(m),
-            Child::Missing(uuid) => Child::Missing(uuid),
-        };
     }
 
     fn status(&self) -> Option<mirror::Status> {
-- 
2.43.0


From d9a15b8cf7ebed23085b91fdefa616d880000817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:40 +0000
Subject: [PATCH 32/33] fix: don't panic recovering from EIO during an
 unaligned RAID read

When VdevRaid::read_at_one got an unexpected error from a healthy array, it read
the rest of the stripe for reconstruction.  But it assumed that it had already
read the first and last chunks, when it had actually only read the parts of them
that the caller wanted.  Then read_at_reconstruction would panic for lack of
buffers, or reconstruct from the wrong ones.
---
 bfffs-core/src/raid/vdev_raid.rs | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index f869432..4e42491 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1213,7 +1213,39 @@ impl VdevRaid {
                     {
                         // should've already read it
                         let dvidx = (cid.address() - start_chunk_addr) as usize;
-                        Box::pin(future::ready(dv[dvidx])) as BoxVdevFut
+                        let r = dv[dvidx];
+                        let cid_lba = cid.address() * chunksize;
+                        let cid_end_lba = cid_lba + chunksize;
+                        let pre_lbas = ulba.saturating_sub(cid_lba);
+                        let post_lbas = cid_end_lba.saturating_sub(uelba);
+                        if old_nerrs > 0 || pre_lbas + post_lbas == 0 {
+                            return Box::pin(future::ready(r)) as BoxVdevFut;
+                        }
+                        // But only the part that the caller wants.  Need to
+                        // read the rest of it for parity reconstruction.
+                        let disk_lba = loc.offset * chunksize;
+                        let mut futs = FuturesOrdered::new();
+                        for (lbas, ofs) in [
+                            (pre_lbas, 0),
+                            (post_lbas, chunksize - post_lbas)
+                        ] {
+                            if lbas > 0 {
+                                let dbs = DivBufShared::uninitialized(
+                                    lbas as usize * BYTES_PER_LBA);
+                                let dbm = dbs.try_mut().unwrap();
+                                exbufs.as_mut().unwrap().push(dbs);
+                                if r.is_ok() {
+                                    futs.push_back(
+                                        inner.children[loc.disk as usize]
+                                        .read_at(dbm, disk_lba + ofs)
+                                    );
+                                }
+                            }
+                        }
+                        Box::pin(async move {
+                            let v = futs.collect::<Vec<Result<()>>>().await;
+                            v.into_iter().fold(r, Result::and)
+                        }) as BoxVdevFut
                     } else {
                         // Need to read this data chunk for parity
                         // reconstruction
-- 
2.43.0


From 69c17f437bf9e10874234a4580192cbcceee856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:18 +0000
Subject: [PATCH 33/33] fix: rebuild every disk of an open zone of a
 declustered array

repair_mirror_zone looked for the last chunk a disk has in the last n
data chunks of the zone only.  A disk may have none there, if the
stripes are narrower than the array, and then nothing on it was rebuilt,
and yet it was returned to service.
---
 bfffs-core/src/raid/vdev_raid.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 4e42491..9b2b448 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -2331,12 +2331,13 @@ impl VdevRaidApi for VdevRaid {
         if let Some(lbas) = lbas {
             let f = self.inner.codec.protection() as u64;
             let m = self.inner.codec.stripesize() as u64 - f;
-            let n = self.inner.locator.disks();
+            // Every disk has a chunk in any two repetitions of the layout
+            let window = 2 * self.inner.locator.datachunks();
             let lbas_per_stripe = self.chunksize * m;
             let flushed_lbas = u64::from(lbas) - u64::from(lbas) % lbas_per_stripe;
             let flushed_chunks: u64 = flushed_lbas / self.chunksize;
             let end = ChunkId::Data(flushed_chunks);
-            let start = ChunkId::Data(flushed_chunks.saturating_sub(n.into()));
+            let start = ChunkId::Data(flushed_chunks.saturating_sub(window));
             for (_id, loc) in self.inner.locator.iter(start, end) {
                 if loc.disk == mirror_idx as i16 {
                     maxlba = NonZeroU64::new((loc.offset + 1) * self.chunksize);
-- 
2.43.0

