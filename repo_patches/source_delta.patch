From bc255aa88ba733d72b84d78f366af486fb9f9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:49 +0000
Subject: [PATCH 01/26] fix: DagModifier.Write after Read writes at the current
 offset

Read advances the current offset but not the start of the next write, so a
Write following a Read went to the position of the previous Seek or Write.
---
 mod/dagmodifier.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 6cc484a..20e829d 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -148,6 +148,8 @@ func (dm *DagModifier) Write(b []byte) (int, error) {
 	}
 	if dm.wrBuf == nil {
 		dm.wrBuf = new(bytes.Buffer)
+		// Reading may have moved the offset since the last write.
+		dm.writeStart = dm.curWrOff
 	}
 
 	n, err := dm.wrBuf.Write(b)
-- 
2.43.0


From 4030bf15ad2d2e01048ff02d092a30af907a90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 02/26] fix: DagModifier.WriteAt keeps the current offset in
 step with its writes

WriteAt moved the start of the write but not the current offset, so a later
WriteAt was taken for a continuation when its offset happened to equal the
stale value and its data went to the wrong place. A short WriteAt at the
start of a pending longer write was appended to it instead of overwriting it.
---
 mod/dagmodifier.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 20e829d..5dac7c0 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -95,7 +95,14 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 		// If we would overwrite the previous write
 		if len(b) >= dm.wrBuf.Len() {
 			dm.wrBuf.Reset()
+		} else {
+			// A shorter write replaces only the start of the previous one.
+			if err := dm.Sync(); err != nil {
+				return 0, err
+			}
 		}
+		dm.writeStart = uint64(offset)
+		dm.curWrOff = uint64(offset)
 	} else if uint64(offset) != dm.curWrOff {
 		size, err := dm.Size()
 		if err != nil {
@@ -113,6 +120,7 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 			return 0, err
 		}
 		dm.writeStart = uint64(offset)
+		dm.curWrOff = uint64(offset)
 	}
 
 	return dm.Write(b)
-- 
2.43.0


From 98f38aa2f08c91ca37cd5d072cd7a6a092880686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 03/26] fix: DagModifier.Seek honours io.SeekEnd and rejects
 negative positions

Seeking relative to the end subtracted the offset, so Seek(-n, io.SeekEnd)
grew the file by n zero bytes; seeking before the start was accepted and left
the modifier at an absurd position.
---
 mod/dagmodifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 5dac7c0..0ef76ed 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -476,11 +476,15 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 	case io.SeekStart:
 		newoffset = uint64(offset)
 	case io.SeekEnd:
-		newoffset = uint64(fisize) - uint64(offset)
+		newoffset = uint64(fisize) + uint64(offset)
 	default:
 		return 0, ErrUnrecognizedWhence
 	}
 
+	if int64(newoffset) < 0 {
+		return 0, ErrSeekFail
+	}
+
 	if int64(newoffset) > fisize {
 		if err := dm.expandSparse(int64(newoffset) - fisize); err != nil {
 			return 0, err
-- 
2.43.0


From 7d3b95c24e8ccc591bbecc845e67d040fa16de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 04/26] fix: DagModifier rejects negative offsets and sizes

WriteAt with a negative offset wrote nowhere sensible and Truncate with a
negative size panicked.
---
 mod/dagmodifier.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 0ef76ed..66570c9 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -29,6 +29,8 @@ var (
 	ErrNotUnixfs = errors.New("dagmodifier only supports unixfs nodes (proto or raw)")
 )
 
+var errNegative = errors.New("negative offset or size")
+
 // 2MB
 var writebufferSize = 1 << 21
 
@@ -88,6 +90,9 @@ func NewDagModifier(ctx context.Context, from ipld.Node, serv ipld.DAGService, s
 
 // WriteAt will modify a dag file in place
 func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
+	if offset < 0 {
+		return 0, errNegative
+	}
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
@@ -506,6 +511,9 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 // Truncate truncates the current Node to 'size' and replaces it with the
 // new one.
 func (dm *DagModifier) Truncate(size int64) error {
+	if size < 0 {
+		return errNegative
+	}
 	err := dm.Sync()
 	if err != nil {
 		return err
-- 
2.43.0


From c2f347f24b90c94f8d0c743046d88de7388ea5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 05/26] fix: DagModifier reads reflect Truncate and sparse
 growth

A reader opened before Truncate, or before a Seek past the end, kept serving
the old DAG.
---
 mod/dagmodifier.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 66570c9..04e7b0e 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -151,7 +151,21 @@ func (dm *DagModifier) expandSparse(size int64) error {
 		return err
 	}
 	err = dm.dagserv.Add(dm.ctx, nnode)
-	return err
+	if err != nil {
+		return err
+	}
+	dm.curNode = nnode
+	dm.killReader()
+	return nil
+}
+
+// killReader drops the active reader, which serves the DAG as it was when the
+// reader was created.
+func (dm *DagModifier) killReader() {
+	if dm.read != nil {
+		dm.read = nil
+		dm.readCancel()
+	}
 }
 
 // Write continues writing to the dag at the current offset
@@ -543,6 +557,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 	}
 
 	dm.curNode = nnode
+	dm.killReader()
 	return nil
 }
 
-- 
2.43.0


From 9feb233b2004fed3743669feb4cf143d7850179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 06/26] fix: DagModifier does not alter nodes it was given or
 handed out

Copies of a ProtoNode share their links; overwriting a child changed the link
in place and thereby the caller's node and nodes returned by GetNode.
---
 mod/dagmodifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 04e7b0e..b3c5f00 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -364,7 +364,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
-			node.Links()[i].Cid = k
+			// Nodes handed out earlier share the link, don't change theirs.
+			lnk := *node.Links()[i]
+			lnk.Cid = k
+			node.Links()[i] = &lnk
 
 			// Recache serialized node
 			_, err = node.EncodeProtobuf(true)
-- 
2.43.0


From 1772bfcedac7acbda4fa7f6b9e6f145b7b7b36d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 07/26] fix: DagModifier can extend a file that is a single
 leaf

Appending to a file whose data is inline in its only node added links to that
node, and readers ignore inline data of nodes with links, so the old content
was lost; appending to a raw node failed altogether.
---
 mod/dagmodifier.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index b3c5f00..10e88fa 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -402,12 +402,36 @@ func (dm *DagModifier) appendData(nd ipld.Node, spl chunker.Splitter) (ipld.Node
 		if err != nil {
 			return nil, err
 		}
-		return trickle.Append(dm.ctx, nd, db)
+		base, err := appendRoot(nd, db)
+		if err != nil {
+			return nil, err
+		}
+		return trickle.Append(dm.ctx, base, db)
 	default:
 		return nil, ErrNotUnixfs
 	}
 }
 
+// appendRoot returns a root to which blocks can be appended: a file stored in
+// a single leaf becomes the first child of a new root.
+func appendRoot(nd ipld.Node, db *help.DagBuilderHelper) (ipld.Node, error) {
+	size, err := fileSize(nd)
+	if err != nil {
+		return nil, err
+	}
+	_, isProto := nd.(*mdag.ProtoNode)
+	if len(nd.Links()) > 0 || (isProto && size == 0) {
+		return nd, nil
+	}
+	root := db.NewFSNodeOverDag(ft.TFile)
+	if size > 0 {
+		if err := root.AddChild(nd, size, db); err != nil {
+			return nil, err
+		}
+	}
+	return root.Commit()
+}
+
 // Read data from this dag starting at the current offset
 func (dm *DagModifier) Read(b []byte) (int, error) {
 	err := dm.readPrep()
-- 
2.43.0


From 83fa08be1511163f60d2ee8ea83a85a12de52fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 08/26] fix: DagModifier.Truncate keeps the type of the leaf it
 cuts

A file stored in a single leaf changed from type File to type Raw when
truncated, and growing it again produced an internal node of type Raw.
---
 mod/dagmodifier.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 10e88fa..edeb0db 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -598,7 +598,12 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 			if err != nil {
 				return nil, err
 			}
-			nd.SetData(ft.WrapData(fsn.Data()[:size]))
+			fsn.SetData(fsn.Data()[:size])
+			d, err := fsn.GetBytes()
+			if err != nil {
+				return nil, err
+			}
+			nd.SetData(d)
 			return nd, nil
 		case *mdag.RawNode:
 			return mdag.NewRawNodeWPrefix(nd.RawData()[:size], nd.Cid().Prefix())
-- 
2.43.0


From a6ef87e7d1be660951e4880df55f3166c4754389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 09/26] fix: DagModifier keeps its content when storing changes
 fails

Sync consumed the pending writes and altered the DAG in place before knowing
whether its blocks could be stored (and left no DAG at all when the new root
could not be fetched), and growing or truncating altered the DAG in place as
well, so after a transient storage error the file was corrupt and retrying
could not recover it.
---
 mod/dagmodifier.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index edeb0db..db94610 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -221,7 +221,7 @@ func fileSize(n ipld.Node) (uint64, error) {
 }
 
 // Sync writes changes to this dag to disk
-func (dm *DagModifier) Sync() error {
+func (dm *DagModifier) Sync() (errOut error) {
 	// No buffer? Nothing to do
 	if dm.wrBuf == nil {
 		return nil
@@ -233,6 +233,15 @@ func (dm *DagModifier) Sync() error {
 		dm.readCancel()
 	}
 
+	// The DAG and the buffer are modified on the way, restore both if we fail
+	// so that nothing is lost and the call can be repeated.
+	node, pending := dm.curNode.Copy(), append([]byte(nil), dm.wrBuf.Bytes()...)
+	defer func() {
+		if errOut != nil {
+			dm.curNode, dm.wrBuf = node, bytes.NewBuffer(pending)
+		}
+	}()
+
 	// Number of bytes we're going to write
 	buflen := dm.wrBuf.Len()
 
@@ -402,7 +411,7 @@ func (dm *DagModifier) appendData(nd ipld.Node, spl chunker.Splitter) (ipld.Node
 		if err != nil {
 			return nil, err
 		}
-		base, err := appendRoot(nd, db)
+		base, err := appendRoot(nd.Copy(), db)
 		if err != nil {
 			return nil, err
 		}
@@ -573,7 +582,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 		return dm.expandSparse(int64(size) - realSize)
 	}
 
-	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))
+	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 11fd077cae32b106d86301c41abc8f70289f080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:04 +0000
Subject: [PATCH 10/26] fix: trickle.Append continues the layout where it left
 off

Append walked into the last subtree with the wrong depth: a DAG extended by
Append failed VerifyTrickleDagStructure, or differed from the DAG Layout
makes from the same data.
---
 importer/trickle/trickledag.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index c2e6d03..0f48850 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -123,12 +123,12 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 	}
 
 	// Last child in this node may not be a full tree, lets fill it up.
-	if err := appendFillLastChild(ctx, fsn, depth-1, repeatNumber, db); err != nil {
+	if err := appendFillLastChild(ctx, fsn, depth, repeatNumber, db); err != nil {
 		return nil, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// after appendFillLastChild, a partially filled layer is complete
+	if repeatNumber != 0 {
 		depth++
 	}
 
@@ -167,8 +167,15 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 		return err
 	}
 
+	// `depth` is that of the next child to add, which is that of the last child
+	// too unless the last child completes its layer.
+	lastDepth := depth
+	if repeatNumber == 0 {
+		lastDepth--
+	}
+
 	// Fill out last child (may not be full tree)
-	newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)
+	newChild, nchildSize, err := appendRec(ctx, lastChild, db, lastDepth)
 	if err != nil {
 		return err
 	}
@@ -219,8 +226,8 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 	}
 	// TODO: Same as `appendFillLastChild`, when is this case possible?
 
-	// If at correct depth, no need to continue
-	if depth == maxDepth {
+	// If beyond the correct depth, no need to continue
+	if depth > maxDepth || depth == maxDepth && repeatNumber != 0 {
 		return fsn, fsn.FileSize(), nil
 	}
 
@@ -228,8 +235,8 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 		return nil, 0, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// after appendFillLastChild, a partially filled layer is complete
+	if repeatNumber != 0 {
 		depth++
 	}
 
-- 
2.43.0


From 4139d0496104d7d28d7b3b6d513cd9d5c15d2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 11/26] fix: DagReader.WriteTo accounts for bytes written
 before a writer error

The bytes accepted by a writer that then fails were consumed from the node
buffer but not added to the offset: later relative seeks, and seeks to the
stale offset, read from the wrong place.
---
 io/dagreader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index 7284bdc..eff27b1 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -266,6 +266,8 @@ func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 
 	n, err := dr.currentNodeData.WriteTo(w)
 	if err != nil {
+		// The bytes written are consumed from the buffer all the same.
+		dr.offset += n
 		return n, err
 	}
 
-- 
2.43.0


From 78f5e93eb024f1995246874a9a0f4db499cdcf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 12/26] fix: DagReader is back at the start after a failed Seek

A Seek that failed half way (a block could not be fetched) left the walker in
the middle of the search with the offset at zero: the next Read returned bytes
from elsewhere in the file, and Seek(0) did not help.
---
 io/dagreader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index eff27b1..1012c60 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -464,6 +464,9 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 		})
 
 		if err != nil {
+			// Don't leave the walker half way through the search, the
+			// reader is back at the beginning.
+			dr.resetPosition()
 			return 0, err
 		}
 
-- 
2.43.0


From baa8c20a4898140496816aad352dbba41a127951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 13/26] fix: Shard refuses an entry with an empty name

Such an entry was written out as a link to a sub-shard: it could not be
found again and the directory could not be loaded.
---
 hamt/hamt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index e789aa8..0073813 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -824,6 +824,10 @@ func (s *childer) insert(key string, lnk *ipld.Link, idx int) error {
 	if lnk == nil {
 		return os.ErrNotExist
 	}
+	if key == "" {
+		// Its link name would be that of a sub-shard.
+		return fmt.Errorf("cannot store an entry with an empty name in a sharded directory")
+	}
 
 	lnk.Name = s.sd.linkNamePrefix(idx) + key
 	i := s.sliceIndex(idx)
-- 
2.43.0


From 787e69fd6201f3895bf661ee609de15a6bf9f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 14/26] fix: a directory that became sharded goes back to basic
 below the threshold

The entry whose addition caused the switch was counted as growth since the
switch, so removing it did not count as shrinking and no switch back to a
BasicDirectory was evaluated.
---
 io/directory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/directory.go b/io/directory.go
index a0ec307..2f2eec0 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -593,6 +593,9 @@ func (d *DynamicDirectory) AddChild(ctx context.Context, name string, nd ipld.No
 	if err != nil {
 		return err
 	}
+	// Size changes are counted from the directory's size at the switch, and
+	// that includes the new entry.
+	hamtDir.sizeChange = 0
 	d.Directory = hamtDir
 	return nil
 }
-- 
2.43.0


From b0b1b3877e6bd6d46065f5366b4ce7e4722e8546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 15/26] fix: wait for the size enumeration to end before
 modifying a sharded directory

sizeBelowThreshold returned as soon as the threshold was reached, leaving the
goroutines of the enumeration to walk the shard while the update changed it.
---
 io/directory.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index 2f2eec0..c4b8ee4 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -517,9 +517,16 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 
 	// We stop the enumeration once we have enough information and exit this function.
 	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
+	linkResults := d.EnumLinksAsync(ctx)
+	defer func() {
+		cancel()
+		// The enumeration still reads the shard until its channel is closed,
+		// our caller is about to modify it.
+		for range linkResults {
+		}
+	}()
 
-	for linkResult := range d.EnumLinksAsync(ctx) {
+	for linkResult := range linkResults {
 		if linkResult.Err != nil {
 			return false, linkResult.Err
 		}
-- 
2.43.0


From 1ed7f04fee28581514da3af83f5f9f5d56462bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 16/26] fix: a cancelled size enumeration does not count as
 below the threshold

---
 io/directory.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/directory.go b/io/directory.go
index c4b8ee4..112f272 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -539,6 +539,11 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		}
 	}
 
+	// A cancelled enumeration ends without visiting every shard.
+	if err := ctx.Err(); err != nil {
+		return false, err
+	}
+
 	// We enumerated *all* links in all shards and didn't reach the threshold.
 	return true, nil
 }
-- 
2.43.0


From cd14e9375329988229653023afc4c7a9ac828697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 17/26] fix: EnumLinks reports a cancelled context with the
 links it has so far

---
 hamt/hamt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 0073813..b582588 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -398,7 +398,8 @@ func (ds *Shard) EnumLinks(ctx context.Context) ([]*ipld.Link, error) {
 		}
 		links = append(links, linkResult.Link)
 	}
-	return links, nil
+	// A cancelled enumeration ends early without a result that says so.
+	return links, ctx.Err()
 }
 
 // ForEachLink walks the Shard and calls the given function.
-- 
2.43.0


From 5294f42cc30907942d3027557edbea84f508f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 18/26] fix: MetadataFromBytes restores the size
 BytesForMetadata encodes

---
 unixfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unixfs.go b/unixfs.go
index f5020e0..643dbf6 100644
--- a/unixfs.go
+++ b/unixfs.go
@@ -365,6 +365,7 @@ func MetadataFromBytes(b []byte) (*Metadata, error) {
 	}
 	md := new(Metadata)
 	md.MimeType = pbm.GetMimeType()
+	md.Size = pbd.GetFilesize()
 	return md, nil
 }
 
-- 
2.43.0


From f5ba89559fc5f3b06d3844d441096749e5555db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 19/26] fix: resolving no path segments in a sharded directory
 is an error, not a panic

---
 io/resolve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/resolve.go b/io/resolve.go
index 0c2cb6e..30ee49f 100644
--- a/io/resolve.go
+++ b/io/resolve.go
@@ -23,7 +23,7 @@ func ResolveUnixfsOnce(ctx context.Context, ds ipld.NodeGetter, nd ipld.Node, na
 			return nd.ResolveLink(names)
 		}
 
-		if fsn.Type() == ft.THAMTShard {
+		if fsn.Type() == ft.THAMTShard && len(names) > 0 {
 			rods := dag.NewReadOnlyDagService(ds)
 			s, err := hamt.NewHamtFromDag(rods, nd)
 			if err != nil {
-- 
2.43.0


From 90adf7ad140071020e5ea5d0d4c7597802ef16a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:07 +0000
Subject: [PATCH 20/26] fix: modifying a file whose recorded sizes contradict
 its nodes is an error, not a panic

---
 mod/dagmodifier.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index db94610..1c0e3b9 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"math"
 
 	ft "github.com/ipfs/go-unixfs"
 	help "github.com/ipfs/go-unixfs/importer/helpers"
@@ -29,7 +30,11 @@ var (
 	ErrNotUnixfs = errors.New("dagmodifier only supports unixfs nodes (proto or raw)")
 )
 
-var errNegative = errors.New("negative offset or size")
+var (
+	errNegative  = errors.New("negative offset or size")
+	errBadSizes  = errors.New("the sizes recorded in the file do not match its nodes")
+	errSizeRange = errors.New("the size recorded in the file is out of range")
+)
 
 // 2MB
 var writebufferSize = 1 << 21
@@ -212,6 +217,9 @@ func fileSize(n ipld.Node) (uint64, error) {
 		if err != nil {
 			return 0, err
 		}
+		if fsn.FileSize() > math.MaxInt64 {
+			return 0, errSizeRange
+		}
 		return fsn.FileSize(), nil
 	case *mdag.RawNode:
 		return uint64(len(nd.RawData())), nil
@@ -297,6 +305,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
+			if offset > uint64(len(fsn.Data())) {
+				return cid.Cid{}, errBadSizes
+			}
 			_, err = dm.wrBuf.Read(fsn.Data()[offset:])
 			if err != nil && err != io.EOF {
 				return cid.Cid{}, err
@@ -319,6 +330,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 			return nd.Cid(), nil
 		case *mdag.RawNode:
 			origData := nd0.RawData()
+			if offset > uint64(len(origData)) {
+				return cid.Cid{}, errBadSizes
+			}
 			bytes := make([]byte, len(origData))
 
 			// copy orig data up to offset
@@ -359,6 +373,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 		return cid.Cid{}, err
 	}
 
+	if fsn.NumChildren() != len(node.Links()) {
+		return cid.Cid{}, errBadSizes
+	}
+
 	var cur uint64
 	for i, bs := range fsn.BlockSizes() {
 		// We found the correct child to write into
@@ -607,6 +625,9 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 			if err != nil {
 				return nil, err
 			}
+			if size > uint64(len(fsn.Data())) {
+				return nil, errBadSizes
+			}
 			fsn.SetData(fsn.Data()[:size])
 			d, err := fsn.GetBytes()
 			if err != nil {
@@ -615,6 +636,9 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 			nd.SetData(d)
 			return nd, nil
 		case *mdag.RawNode:
+			if size > uint64(len(nd.RawData())) {
+				return nil, errBadSizes
+			}
 			return mdag.NewRawNodeWPrefix(nd.RawData()[:size], nd.Cid().Prefix())
 		}
 	}
@@ -662,6 +686,11 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 		ndata.AddBlockSize(childsize)
 	}
 
+	if modified == nil {
+		// The children hold less than the size of this node promises.
+		return nil, errBadSizes
+	}
+
 	err = dm.dagserv.Add(ctx, modified)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5f08545f7ffc932fbb970c25d5ef20b705385f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 21/26] fix: a shard whose bitfield contradicts its links or
 fan-out is an error, not a panic

---
 hamt/hamt.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index b582588..e1a2eae 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -165,7 +165,9 @@ func NewHamtFromDag(dserv ipld.DAGService, nd ipld.Node) (*Shard, error) {
 		return nil, err
 	}
 
-	ds.childer.makeChilder(fsn.Data(), pbnd.Links())
+	if err := ds.childer.makeChilder(fsn.Data(), pbnd.Links()); err != nil {
+		return nil, err
+	}
 
 	ds.hashFunc = fsn.HashType()
 	ds.builder = pbnd.CidBuilder()
@@ -797,15 +799,27 @@ func newChilder(ds ipld.DAGService, size int) (*childer, error) {
 	}, nil
 }
 
-func (s *childer) makeChilder(data []byte, links []*ipld.Link) *childer {
+func (s *childer) makeChilder(data []byte, links []*ipld.Link) error {
+	bf, err := bitfield.FromBytes(s.sd.tableSize, data)
+	if err != nil {
+		return err
+	}
+	if bf.Ones() != len(links) {
+		return fmt.Errorf("hamt shard has %d links but %d bits set", len(links), bf.Ones())
+	}
+	for _, lnk := range links {
+		if _, err := s.sd.childLinkType(lnk); err != nil {
+			return err
+		}
+	}
+	s.bitfield = bf
 	s.children = make([]*Shard, len(links))
-	s.bitfield.SetBytes(data)
 	if len(links) > 0 {
 		s.links = make([]*ipld.Link, len(links))
 		copy(s.links, links)
 	}
 
-	return s
+	return nil
 }
 
 // Return the `sliceIndex` associated with a child.
-- 
2.43.0


From a769871b7e225b23ba009af5f5dcff74f702b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 22/26] fix: a reader does not silently skip a leaf it failed
 on

---
 io/dagreader.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index 1012c60..647d5c5 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -122,6 +122,10 @@ type dagReader struct {
 	// `readNodeDataBuffer` operation.
 	currentNodeData *bytes.Reader
 
+	// Set once the walk has reached a leaf that holds no file data. The
+	// walker is past it then, reading on would silently leave it out.
+	leafErr error
+
 	// Implements the `Size()` API.
 	size uint64
 
@@ -164,6 +168,10 @@ func (dr *dagReader) CtxReadFull(ctx context.Context, out []byte) (n int, err er
 	// `ipld.NavigableIPLDNode.FetchChild` for details).
 	dr.dagWalker.SetContext(ctx)
 
+	if dr.leafErr != nil {
+		return 0, dr.leafErr
+	}
+
 	// If there was a partially read buffer from the last visited
 	// node read it before visiting a new one.
 	if dr.currentNodeData != nil {
@@ -226,6 +234,7 @@ func (dr *dagReader) CtxReadFull(ctx context.Context, out []byte) (n int, err er
 func (dr *dagReader) saveNodeData(node ipld.Node) error {
 	extractedNodeData, err := unixfs.ReadUnixFSNodeData(node)
 	if err != nil {
+		dr.leafErr = err
 		return err
 	}
 
@@ -294,6 +303,10 @@ func (dr *dagReader) WriteTo(w io.Writer) (n int64, err error) {
 	// (see `ipld.NavigableIPLDNode.FetchChild` for details).
 	dr.dagWalker.SetContext(dr.ctx)
 
+	if dr.leafErr != nil {
+		return 0, dr.leafErr
+	}
+
 	// If there was a partially read buffer from the last visited
 	// node read it before visiting a new one.
 	if dr.currentNodeData != nil {
@@ -495,6 +508,7 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 // in the `SeekStart` case.
 func (dr *dagReader) resetPosition() {
 	dr.currentNodeData = nil
+	dr.leafErr = nil
 	dr.offset = 0
 
 	dr.dagWalker = ipld.NewWalker(dr.ctx, ipld.NewNavigableIPLDNode(dr.rootNode, dr.serv))
-- 
2.43.0


From 3db04ae20b05f01b0e498c2cb39e7628334719f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:12 +0000
Subject: [PATCH 23/26] fix: appending to a node with more block sizes than
 links is an error, not a panic

---
 importer/helpers/dagbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/importer/helpers/dagbuilder.go b/importer/helpers/dagbuilder.go
index f858c74..614fe0d 100644
--- a/importer/helpers/dagbuilder.go
+++ b/importer/helpers/dagbuilder.go
@@ -3,6 +3,7 @@ package helpers
 import (
 	"context"
 	"errors"
+	"fmt"
 	"io"
 	"os"
 
@@ -322,6 +323,9 @@ func NewFSNFromDag(nd *dag.ProtoNode) (*FSNodeOverDag, error) {
 	if err != nil {
 		return nil, err
 	}
+	if mb.NumChildren() != len(nd.Links()) {
+		return nil, fmt.Errorf("unixfs node has %d links but %d block sizes", len(nd.Links()), mb.NumChildren())
+	}
 
 	return &FSNodeOverDag{
 		dag:  nd,
-- 
2.43.0


From f06d083e99069970daccaafb99017557ba244b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:49 +0000
Subject: [PATCH 24/26] fix: trickle.Append does not put children into a leaf
 of a DAG built with more links per node

---
 importer/trickle/trickledag.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index 0f48850..4cf65d0 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -162,7 +162,24 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 
 	// Recursive step, grab last child
 	last := fsn.NumChildren() - 1
-	lastChild, err := fsn.GetChild(ctx, last, db.GetDagServ())
+	nd, err := fsn.GetDagNode()
+	if err != nil {
+		return err
+	}
+	lastNode, err := nd.Links()[last].GetNode(ctx, db.GetDagServ())
+	if err != nil {
+		return err
+	}
+	if len(lastNode.Links()) == 0 {
+		// A DAG built with more links per node has a leaf here, which is
+		// complete: it holds data and has no place for children.
+		return nil
+	}
+	lastProto, ok := lastNode.(*dag.ProtoNode)
+	if !ok {
+		return dag.ErrNotProtobuf
+	}
+	lastChild, err := h.NewFSNFromDag(lastProto)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From be83638a3913b42aa2dd7adbb10097c98bb8f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:30 +0000
Subject: [PATCH 25/26] fix: a failed Seek of a DagModifier leaves its
 position, and its reader at it

---
 mod/dagmodifier.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 1c0e3b9..cb2db40 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -563,16 +563,18 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 			return 0, err
 		}
 	}
-	dm.curWrOff = newoffset
-	dm.writeStart = newoffset
-
 	if dm.read != nil {
 		_, err = dm.read.Seek(offset, whence)
 		if err != nil {
+			// The reader has lost its position, the next one starts at ours.
+			dm.killReader()
 			return 0, err
 		}
 	}
 
+	dm.curWrOff = newoffset
+	dm.writeStart = newoffset
+
 	return int64(dm.curWrOff), nil
 }
 
-- 
2.43.0


From 293c529a29664d6211bbfd983fa0527736c7a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:46 +0000
Subject: [PATCH 26/26] fix: adding an entry to an empty sharded directory
 compares its size with the threshold

---
 io/directory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index 112f272..9829351 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -544,8 +544,9 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		return false, err
 	}
 
-	// We enumerated *all* links in all shards and didn't reach the threshold.
-	return true, nil
+	// We enumerated *all* links in all shards. There may be none, in which
+	// case the operation alone decides.
+	return partialSize+sizeChange < HAMTShardingSize, nil
 }
 
 // DynamicDirectory wraps a Directory interface and provides extra logic
-- 
2.43.0

