From ab7c334fbd5ee5abe445826dfa87a098c8351ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 1/7] fix: enforce strictly ascending edge order in cuckoo
 proofs

The guard tested n < 0, which never holds, so permuted copies of a valid
proof were accepted.
---
 cuckoo/cuckaroo.go | 2 +-
 cuckoo/cuckoo.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuckoo/cuckaroo.go b/cuckoo/cuckaroo.go
index 4970acf..43bfa9a 100644
--- a/cuckoo/cuckaroo.go
+++ b/cuckoo/cuckaroo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckaroo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index d11846a..65fb54f 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckoo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
-- 
2.43.0


From 97a3e144fbf67b103f7edebaf4a8d09ac40fab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 2/7] fix: set the mix size for Ethereum Classic

Without it the dataset size formula divides by zero for every epoch past
the end of the precomputed table.
---
 ethash/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ethash/client.go b/ethash/client.go
index 4a64672..2ff63d8 100644
--- a/ethash/client.go
+++ b/ethash/client.go
@@ -65,6 +65,7 @@ func NewEthereumClassic() *Client {
 		CacheSizes:   dag.NewLookupTable(cacheSizes, 2048),
 		DatasetSizes: dag.NewLookupTable(datasetSizes, 2048),
 
+		MixBytes:        128,
 		DatasetParents:  256,
 		EpochLength:     60000,
 		SeedEpochLength: 30000,
-- 
2.43.0


From 7023a6f85859fc6e223b4d3bb1db263802072553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 3/7] fix: reject cached files that do not have the expected
 size

A truncated file (or one of fewer than eight bytes) in the storage
directory was accepted and then either panicked or gave wrong digests.
---
 internal/dag/cache.go |  4 ++--
 internal/dag/mmap.go  | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/dag/cache.go b/internal/dag/cache.go
index 416e00c..0d785c0 100644
--- a/internal/dag/cache.go
+++ b/internal/dag/cache.go
@@ -67,12 +67,12 @@ func (c *cache) generate(cfg *DAG) {
 
 		// Try to load the file from disk and memory map it
 		var err error
-		c.cache, err = memoryMap(cachePath, cfg.CachesLockMmap)
+		c.cache, err = memoryMap(cachePath, size, cfg.CachesLockMmap)
 		needsCache := err != nil
 
 		needsL1 := cfg.L1Enabled
 		if cfg.L1Enabled {
-			c.l1, err = memoryMap(l1Path, cfg.CachesLockMmap)
+			c.l1, err = memoryMap(l1Path, cfg.L1CacheSize, cfg.CachesLockMmap)
 			needsL1 = err != nil
 		}
 
diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index c97b07f..0057d41 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -38,8 +38,9 @@ type dataFile struct {
 	data []uint32
 }
 
-// memoryMap tries to memory map a file of uint32s for read only access.
-func memoryMap(path string, lock bool) (dataFile, error) {
+// memoryMap tries to memory map a file of uint32s for read only access. The file
+// must hold exactly size bytes of data after the magic.
+func memoryMap(path string, size uint64, lock bool) (dataFile, error) {
 	var df dataFile
 
 	file, err := os.OpenFile(path, os.O_RDONLY, 0644)
@@ -53,6 +54,12 @@ func memoryMap(path string, lock bool) (dataFile, error) {
 		return df, err
 	}
 
+	if uint64(len(mem)) != uint64(len(dumpMagic))*4+size {
+		mem.Unmap()
+		file.Close()
+		return df, errors.New("invalid dump size")
+	}
+
 	for i, magic := range dumpMagic {
 		if buffer[i] != magic {
 			mem.Unmap()
@@ -160,5 +167,5 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 		return df, err
 	}
 
-	return memoryMap(path, lock)
+	return memoryMap(path, size, lock)
 }
-- 
2.43.0


From d94fee08613a54eb87ea2335c159d5b8f189dd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 4/7] fix: create the temporary cache file exclusively and
 remove it on failure

os.Create truncates a file another process may be writing under the same
name, and a failed unmap, close or rename left the temporary file behind.
---
 internal/dag/mmap.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 0057d41..45a662c 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -132,7 +132,7 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 
 	// Create a huge temporary empty file to fill with data
 	temp := path + "." + strconv.Itoa(rand.Int())
-	dump, err := os.Create(temp)
+	dump, err := os.OpenFile(temp, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return df, err
 	}
@@ -156,14 +156,18 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	generator(data)
 
 	if err := mem.Unmap(); err != nil {
+		dump.Close()
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := dump.Close(); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := os.Rename(temp, path); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
-- 
2.43.0


From 087162af84c9786fdc0e10bb55bd50793a5ca019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 5/7] fix: flush the generated cache before publishing it

After a power loss the renamed file could hold pages of zeroes behind a
valid magic, which later runs would trust.
---
 internal/dag/mmap.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 45a662c..ca6626e 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -155,6 +155,14 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	data := buffer[len(dumpMagic):]
 	generator(data)
 
+	// The data must be on disk before the file gets its final name
+	if err := mem.Flush(); err != nil {
+		mem.Unmap()
+		dump.Close()
+		os.Remove(temp)
+		return df, err
+	}
+
 	if err := mem.Unmap(); err != nil {
 		dump.Close()
 		os.Remove(temp)
-- 
2.43.0


From 2a59c845696d0a791af0125eec25870cbdca433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 6/7] fix: compare the full length of Equihash solutions

The length was truncated to 32 bits before the comparison, so a solution of
2^32 bytes more than the expected size passed the check and made
expandArray index out of range.
---
 equihash/equihash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/equihash/equihash.go b/equihash/equihash.go
index 656a1db..cd6a12d 100644
--- a/equihash/equihash.go
+++ b/equihash/equihash.go
@@ -76,9 +76,9 @@ func expandArray(input []byte, bitLen, bytePad uint32) ([]byte, error) {
 
 func indicesFromMinimal(n, k uint32, minimal []byte) ([]uint32, error) {
 	cBitLen := collisionBitLength(n, k)
-	minimalLen := uint32(len(minimal))
+	minimalLen := ((1 << k) * (cBitLen + 1)) / 8
 
-	if minimalLen != ((1<<k)*(cBitLen+1))/8 {
+	if uint64(len(minimal)) != uint64(minimalLen) {
 		return nil, fmt.Errorf("invalid minimal for parameters")
 	} else if (((cBitLen + 1) + 7) / 8) > 4 {
 		return nil, fmt.Errorf("invalid n, k parameters")
-- 
2.43.0


From 3beaa6f6bb49a4af3f601c6c10c5bdfc56e3c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 7/7] fix: never look up epochs beyond the end of a size table

The generated tables have 2045 entries but are consulted for every epoch
below 2048, so heights of the epochs 2045 to 2047 made every DAG client
panic. Epochs beyond the table are computed instead.
---
 internal/dag/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/dag/config.go b/internal/dag/config.go
index 3570a61..4ddb153 100644
--- a/internal/dag/config.go
+++ b/internal/dag/config.go
@@ -27,6 +27,10 @@ type LookupTable struct {
 }
 
 func NewLookupTable(table []uint64, maxEpoch uint64) *LookupTable {
+	if n := uint64(len(table)); maxEpoch > n {
+		maxEpoch = n // later epochs are computed
+	}
+
 	lookupTable := &LookupTable{
 		maxEpoch: maxEpoch,
 		table:    table,
-- 
2.43.0

