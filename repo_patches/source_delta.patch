From 3d2485f4467c7303e48f7bedd1e49b91166b6ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 01/47] fix: TagsetRaw.SetOk corrupted following tags on longer
 value

If tag was replaced by a longer value and the slice had spare capacity,
the suffix was overwritten by the new value before it was appended.
---
 tagset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagset.go b/tagset.go
index 115386f..91f35b1 100644
--- a/tagset.go
+++ b/tagset.go
@@ -318,7 +318,7 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
 		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
-		var suff = ts[tsi.pos:]
+		var suff = append([]byte{}, ts[tsi.pos:]...) // can be overwritten by new value
 		ts = append(ts[:tsi.tag], tag...)
 		ts = append(ts, suff...)
 	}
-- 
2.43.0


From 5da1f2c1bc8529e36bce112de3d19b67feef0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 02/47] fix: absent tag with zero identifier was treated as
 present

Iterator state at the end of tagset has zero tag ID, so Has, Get, AddOk, SetOk
and DelOk with zero ID took it as found, and SetOk and DelOk damaged the last tag.
---
 tagset.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/tagset.go b/tagset.go
index 91f35b1..01d3c40 100644
--- a/tagset.go
+++ b/tagset.go
@@ -243,9 +243,7 @@ func (ts TagsetRaw) Num() (n int) {
 // Has checks existence of tag with given ID.
 func (ts TagsetRaw) Has(tid TID) bool {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	return tsi.tid == tid
+	return tsi.find(tid)
 }
 
 // GetTag returns TagRaw with given identifier.
@@ -253,13 +251,8 @@ func (ts TagsetRaw) Has(tid TID) bool {
 // returns false.
 func (ts TagsetRaw) Get(tid TID) (TagRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.Failed() {
-		return nil, false // io.ErrUnexpectedEOF
-	}
-	if tsi.tid != tid {
-		return nil, false // ErrNoTag
+	if !tsi.find(tid) {
+		return nil, false // ErrNoTag or io.ErrUnexpectedEOF
 	}
 	return TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]), true
 }
@@ -288,9 +281,7 @@ func (ts TagsetRaw) Add(tid TID, tag TagRaw) TagsetRaw {
 // Returns true if it added.
 func (ts TagsetRaw) AddOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid == tid {
+	if tsi.find(tid) {
 		return ts, false
 	}
 	return ts.Put(tid, tag), true
@@ -307,9 +298,7 @@ func (ts TagsetRaw) Set(tid TID, tag TagRaw) TagsetRaw {
 // appends it to tagset. Returns true if new one added.
 func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid != tid {
+	if !tsi.find(tid) {
 		return ts.Put(tid, tag), true
 	}
 
@@ -334,9 +323,7 @@ func (ts TagsetRaw) Del(tid TID) TagsetRaw {
 // DelOk deletes tag with given ID. Returns true if tagset was modified.
 func (ts TagsetRaw) DelOk(tid TID) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid != tid {
+	if !tsi.find(tid) {
 		return ts, false // ErrNoTag
 	}
 	ts = append(ts[:tsi.tag-PTStagsz-PTStidsz], ts[tsi.pos:]...)
@@ -624,6 +611,16 @@ func (tsi *TagsetIterator) Next() (ok bool) {
 	return
 }
 
+// find carries to the next tag with given ID, returns false if there is no such tag.
+func (tsi *TagsetIterator) find(tid TID) bool {
+	for tsi.Next() {
+		if tsi.tid == tid {
+			return true
+		}
+	}
+	return false
+}
+
 // Put is the stub to disable any changes to data content of iterator.
 func (tsi *TagsetIterator) Put(tid TID, tag TagRaw) TagsetRaw {
 	panic(ErrTsiConst)
-- 
2.43.0


From ebf50e7f1e614619d27a4f046d25a32e4e6d09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 03/47] fix: short reads of a stream were taken for whole
 records

---
 util/uintio.go | 10 +++++-----
 wpk.go         | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/util/uintio.go b/util/uintio.go
index 31112b3..62305e7 100644
--- a/util/uintio.go
+++ b/util/uintio.go
@@ -56,27 +56,27 @@ func SetF64(b []byte, f float64) {
 }
 
 func ReadU16(r io.Reader) (u uint16, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
 	return
 }
 
 func ReadU32(r io.Reader) (u uint32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
 	return
 }
 
 func ReadU64(r io.Reader) (u uint64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
 	return
 }
 
 func ReadF32(r io.Reader) (f float32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
 	return
 }
 
 func ReadF64(r io.Reader) (f float64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index a5cb640..89dbb54 100644
--- a/wpk.go
+++ b/wpk.go
@@ -196,7 +196,7 @@ func (hdr *Header) Parse(buf []byte) (n int64, err error) {
 
 // ReadFrom reads header from stream as binary data of constant length.
 func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
-	if _, err = r.Read(hdr.signature[:]); err != nil {
+	if _, err = io.ReadFull(r, hdr.signature[:]); err != nil {
 		return
 	}
 	n += SignSize
@@ -409,7 +409,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		n += PTStssize
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -437,7 +437,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		}
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -518,7 +518,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	// read header
 	var hdr Header
 	var hdrbuf [HeaderSize]byte
-	if _, err = r.Read(hdrbuf[:]); err != nil {
+	if _, err = io.ReadFull(r, hdrbuf[:]); err != nil {
 		return
 	}
 	hdr.Parse(hdrbuf[:])
@@ -536,7 +536,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// read file tags
 	var fttbuf = make([]byte, hdr.fttsize)
-	if _, err = r.Read(fttbuf); err != nil {
+	if _, err = io.ReadFull(r, fttbuf); err != nil {
 		return
 	}
 	var fttsize int64
@@ -770,7 +770,7 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	}
 
 	ts = make(TagsetRaw, tsl)
-	if _, err = r.Read(ts); err != nil {
+	if _, err = io.ReadFull(r, ts); err != nil {
 		return
 	}
 
-- 
2.43.0


From 2244ded071ca9dd7266c66e377abad378a67a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 04/47] fix: ReadFile failed on empty files and could return
 partly read content

---
 union.go | 6 ++++--
 wpk.go   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/union.go b/union.go
index 9984f15..0c2852c 100644
--- a/union.go
+++ b/union.go
@@ -144,8 +144,10 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 
 			var size = ts.Size()
 			var buf = make([]byte, size)
-			_, err = f.Read(buf)
-			return buf, err
+			if _, err = io.ReadFull(f, buf); err != nil {
+				return nil, err
+			}
+			return buf, nil
 		}
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fpath, Err: fs.ErrNotExist}
diff --git a/wpk.go b/wpk.go
index 89dbb54..8195720 100644
--- a/wpk.go
+++ b/wpk.go
@@ -722,8 +722,10 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 
 		var size = ts.Size()
 		var buf = make([]byte, size)
-		_, err = f.Read(buf)
-		return buf, err
+		if _, err = io.ReadFull(f, buf); err != nil {
+			return nil, err
+		}
+		return buf, nil
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fkey, Err: fs.ErrNotExist}
 }
-- 
2.43.0


From 30f6594938baf14b0dde5fc2a408dbb68f48ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 05/47] fix: damaged tags table crashed the table parser

---
 wpk.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/wpk.go b/wpk.go
index 8195720..5bcfc97 100644
--- a/wpk.go
+++ b/wpk.go
@@ -360,9 +360,17 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 // It's high performance method without extra allocations calls.
 func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	{
+		if int64(len(buf)) < n+PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
+		if int64(len(buf)) < n+int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
@@ -378,6 +386,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	}
 
 	for {
+		if int64(len(buf)) < n+PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
@@ -385,6 +397,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			break // end marker was reached
 		}
 
+		if int64(len(buf)) < n+int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
-- 
2.43.0


From 11bc14154a8823d87632d9b74b04a8c145033ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 06/47] fix: sum of file offset and size could overflow on
 bounds check

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 5bcfc97..bc9b140 100644
--- a/wpk.go
+++ b/wpk.go
@@ -348,7 +348,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrOutOff, fkey, TIDoffset}
 		return
 	}
-	if uint64(offset+size) > ftt.datoffset+ftt.datsize {
+	if uint64(size) > ftt.datoffset+ftt.datsize-uint64(offset) {
 		err = &ErrTag{ErrOutSize, fkey, TIDsize}
 		return
 	}
-- 
2.43.0


From 107fec358235832d413bbd1a17a21772a869c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 07/47] fix: names differing only in slashes replaced each
 other on table reading

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index bc9b140..af46ee8 100644
--- a/wpk.go
+++ b/wpk.go
@@ -330,7 +330,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
 		return
 	}
-	if ftt.tsm.Has(fkey) { // prevent same file from repeating
+	if ftt.tsm.Has(util.ToSlash(fkey)) { // prevent same file from repeating
 		err = &ErrTag{fs.ErrExist, fkey, TIDpath}
 		return
 	}
-- 
2.43.0


From fafbe55c7060e8681906182824bb1f4fe300f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 08/47] fix: repeated offset or size tag bypassed the bounds
 check

---
 tagset.go | 13 ++-----------
 wpk.go    | 14 +++++---------
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/tagset.go b/tagset.go
index 01d3c40..1653ab8 100644
--- a/tagset.go
+++ b/tagset.go
@@ -416,17 +416,8 @@ func (ts TagsetRaw) TagUnixms(tid TID) (int64, bool) {
 // Pos returns file offset and file size in package.
 // Those values required to be present in any tagset.
 func (ts TagsetRaw) Pos() (offset, size uint) {
-	var tsi, n = ts.Iterator(), 2
-	for tsi.Next() && n > 0 {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		case TIDsize:
-			size, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		}
-	}
+	offset, _ = ts.TagUint(TIDoffset)
+	size, _ = ts.TagUint(TIDsize)
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index af46ee8..7cccefb 100644
--- a/wpk.go
+++ b/wpk.go
@@ -308,23 +308,19 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 	var offset, size uint
 	var ispath, isoffset, issize bool
 
-	// find expected tags
 	var tsi = ts.Iterator()
 	for tsi.Next() {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, isoffset = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDsize:
-			size, issize = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDpath:
-			fkey, ispath = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagStr()
-		}
 	}
 	if tsi.Failed() {
 		err = io.ErrUnexpectedEOF
 		return
 	}
 
+	// find expected tags, same as they are seen by getters
+	offset, isoffset = ts.TagUint(TIDoffset)
+	size, issize = ts.TagUint(TIDsize)
+	fkey, ispath = ts.TagStr(TIDpath)
+
 	// check tags existence
 	if !ispath {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
-- 
2.43.0


From a432ac6e552086bebedc16f2c3c82d4d46cd235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 09/47] fix: package information was lost on opening a package
 without files

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 7cccefb..fa81ab5 100644
--- a/wpk.go
+++ b/wpk.go
@@ -539,7 +539,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
-	if hdr.fttcount == 0 || hdr.fttsize == 0 {
+	if hdr.fttsize == 0 {
 		return
 	}
 	// go to file tags table start
-- 
2.43.0


From 59d9330f1a4556373a0a0004b129e55da54ee350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 10/47] fix: GetPackageInfo failed on just begun splitted
 package

---
 wpk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wpk.go b/wpk.go
index fa81ab5..5f0c4cd 100644
--- a/wpk.go
+++ b/wpk.go
@@ -772,6 +772,11 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 		return
 	}
 
+	// there is no tags table yet at just begun package
+	if hdr.fttsize == 0 {
+		return
+	}
+
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
 		return
-- 
2.43.0


From 544d8b87c0aebe6bc325823ce380a667f7956cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 11/47] fix: header with wrong table position or count reserved
 memory of any size

---
 wpk.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/wpk.go b/wpk.go
index 5f0c4cd..6f51af4 100644
--- a/wpk.go
+++ b/wpk.go
@@ -172,6 +172,22 @@ func (hdr *Header) IsReady() error {
 	return nil
 }
 
+// checkTable checks up that the tags table is in the bounds of the stream,
+// and that it can contain declared number of records.
+func (hdr *Header) checkTable(r io.Seeker) (err error) {
+	var end int64
+	if end, err = r.Seek(0, io.SeekEnd); err != nil {
+		return
+	}
+	if hdr.fttoffset > uint64(end) || hdr.fttsize > uint64(end)-hdr.fttoffset {
+		return io.ErrUnexpectedEOF
+	}
+	if hdr.fttcount > hdr.fttsize/PTStssize {
+		return ErrSignFTT
+	}
+	return
+}
+
 // Parse fills header from given byte slice.
 // It's high performance method without extra allocations calls.
 func (hdr *Header) Parse(buf []byte) (n int64, err error) {
@@ -537,6 +553,9 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	if err = hdr.checkTable(r); err != nil {
+		return
+	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
 	if hdr.fttsize == 0 {
@@ -772,6 +791,9 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 		return
 	}
 
+	if err = hdr.checkTable(r); err != nil {
+		return
+	}
 	// there is no tags table yet at just begun package
 	if hdr.fttsize == 0 {
 		return
@@ -787,6 +809,10 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	if tsl, err = util.ReadU16(r); err != nil {
 		return
 	}
+	if uint64(tsl)+PTStssize > hdr.fttsize {
+		err = io.ErrUnexpectedEOF
+		return
+	}
 
 	ts = make(TagsetRaw, tsl)
 	if _, err = io.ReadFull(r, ts); err != nil {
-- 
2.43.0


From 5b28a8f39bd2101fffeac3d967ca5de9e73ad34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 12/47] fix: stop in the middle of header writing left mix of
 two headers

---
 wpk.go | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/wpk.go b/wpk.go
index 6f51af4..b90d86f 100644
--- a/wpk.go
+++ b/wpk.go
@@ -240,32 +240,18 @@ func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 // WriteTo writes header to stream as binary data of constant length.
+// It makes single write to do not leave partly changed header.
 func (hdr *Header) WriteTo(w io.Writer) (n int64, err error) {
-	if _, err = w.Write(hdr.signature[:]); err != nil {
-		return
-	}
-	n += SignSize
-	if err = util.WriteU64(w, hdr.fttcount); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttsize); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datsize); err != nil {
-		return
-	}
-	n += 8
-	return
+	var buf [HeaderSize]byte
+	copy(buf[:], hdr.signature[:])
+	util.SetU64(buf[SignSize:], hdr.fttcount)
+	util.SetU64(buf[SignSize+8:], hdr.fttoffset)
+	util.SetU64(buf[SignSize+16:], hdr.fttsize)
+	util.SetU64(buf[SignSize+24:], hdr.datoffset)
+	util.SetU64(buf[SignSize+32:], hdr.datsize)
+	var l int
+	l, err = w.Write(buf[:])
+	return int64(l), err
 }
 
 // Special name for `Open` calls to get package content reference.
-- 
2.43.0


From f18ed6c0964a74d7760db15474862a0fe11bc744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 13/47] fix: begin of new package kept entries of previously
 opened one

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index 25a043f..8550ee2 100644
--- a/writer.go
+++ b/writer.go
@@ -42,6 +42,8 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
+	// new package has no files
+	ftt.tsm.Init(0)
 	// update data offset/pos
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
-- 
2.43.0


From 987f2e1f9a1f91b439338e92cba6b3df153fa334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 14/47] fix: concurrent packing of the same name could both
 succeed, sync could miss packed file

---
 writer.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/writer.go b/writer.go
index 8550ee2..70ea6b3 100644
--- a/writer.go
+++ b/writer.go
@@ -142,28 +142,24 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 // PackData puts data streamed by given reader into package as a file
 // and associate keyname "fkey" with it.
 func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	if _, ok := pkg.GetTagset(fkey); ok {
 		err = &fs.PathError{Op: "packdata", Path: fkey, Err: fs.ErrExist}
 		return
 	}
 
+	// get offset and put provided data
 	var offset, size int64
-	if func() {
-		pkg.mux.Lock()
-		defer pkg.mux.Unlock()
-
-		// get offset and put provided data
-		if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
-		if size, err = io.Copy(w, r); err != nil {
-			return
-		}
-		// update actual package data size
-		pkg.datsize += uint64(size)
-	}(); err != nil {
+	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
+		return
+	}
+	if size, err = io.Copy(w, r); err != nil {
 		return
 	}
+	// update actual package data size
+	pkg.datsize += uint64(size)
 
 	// insert new entry to tags table
 	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
-- 
2.43.0


From 1c1585be5557c33e18337d89ca7dc0fa423a36a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 15/47] fix: append after failed packing overwrote packed files

---
 writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/writer.go b/writer.go
index 70ea6b3..f676a6d 100644
--- a/writer.go
+++ b/writer.go
@@ -158,8 +158,8 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 	if size, err = io.Copy(w, r); err != nil {
 		return
 	}
-	// update actual package data size
-	pkg.datsize += uint64(size)
+	// update actual package data size, there can be a gap after failed packing
+	pkg.datsize = uint64(offset+size) - pkg.datoffset
 
 	// insert new entry to tags table
 	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
-- 
2.43.0


From 65d8b1dd97543f20319a15729e2a73de26c6d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 16/47] fix: repeated sync of single-file package lost its data

---
 writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/writer.go b/writer.go
index f676a6d..503d631 100644
--- a/writer.go
+++ b/writer.go
@@ -107,6 +107,12 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		if datend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
 			return
 		}
+		// leave the writer at the end of data for following calls
+		defer func() {
+			if _, err1 := wpt.Seek(datend, io.SeekStart); err == nil {
+				err = err1
+			}
+		}()
 		fftpos = datend
 
 		// write file tags table
-- 
2.43.0


From f2a46faf7d01d9a4f08069e0a1310b97eb70f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 17/47] fix: stop in repeated sync of single-file package left
 partly rewritten table

---
 writer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/writer.go b/writer.go
index 503d631..f525832 100644
--- a/writer.go
+++ b/writer.go
@@ -115,6 +115,16 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		}()
 		fftpos = datend
 
+		// package can not be read until the new table is complete
+		if _, err = wpt.Seek(0, io.SeekStart); err != nil {
+			return
+		}
+		if _, err = wpt.Write(util.S2B(SignBuild)); err != nil {
+			return
+		}
+		if _, err = wpt.Seek(fftpos, io.SeekStart); err != nil {
+			return
+		}
 		// write file tags table
 		if _, err = ftt.WriteTo(wpt); err != nil {
 			return
-- 
2.43.0


From d4d94dfe00a137efd1937a83174a8952235c1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 18/47] fix: stop in sync of splitted package lost the last
 tags table

---
 wpk.go    |  5 ++++-
 writer.go | 18 +++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/wpk.go b/wpk.go
index b90d86f..e8136f6 100644
--- a/wpk.go
+++ b/wpk.go
@@ -262,6 +262,8 @@ type FTT struct {
 	info TagsetRaw                      // special tagset with package tags
 	tsm  util.SeqMap[string, TagsetRaw] // keys - package filenames (case sensitive), values - tagset slices.
 
+	fttoffset uint64 // last written file tags table offset
+	fttsize   uint64 // last written file tags table size
 	datoffset uint64 // files data offset
 	datsize   uint64 // files data total size
 
@@ -272,7 +274,8 @@ type FTT struct {
 func (ftt *FTT) Init(hdr *Header) {
 	ftt.info = nil
 	ftt.tsm.Init(int(hdr.fttcount))
-	// update data offset/pos
+	// update table and data offset/pos
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 }
 
diff --git a/writer.go b/writer.go
index f525832..a278d87 100644
--- a/writer.go
+++ b/writer.go
@@ -1,6 +1,7 @@
 package wpk
 
 import (
+	"bytes"
 	"io"
 	"io/fs"
 	"os"
@@ -44,7 +45,8 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	}
 	// new package has no files
 	ftt.tsm.Init(0)
-	// update data offset/pos
+	// update table and data offset/pos
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
 }
@@ -88,13 +90,22 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		if datend, err = wpf.Seek(0, io.SeekCurrent); err != nil {
 			return
 		}
+		// new table should not overwrite the last one until header refers to it
+		var buf bytes.Buffer
+		if _, err = ftt.WriteTo(&buf); err != nil {
+			return
+		}
 		fftpos = HeaderSize
+		if oldpos, oldend := int64(ftt.fttoffset), int64(ftt.fttoffset+ftt.fttsize); ftt.fttsize > 0 &&
+			fftpos+int64(buf.Len()) > oldpos && fftpos < oldend {
+			fftpos = oldend
+		}
 
 		// write file tags table
 		if _, err = wpt.Seek(fftpos, io.SeekStart); err != nil {
 			return
 		}
-		if _, err = ftt.WriteTo(wpt); err != nil {
+		if _, err = wpt.Write(buf.Bytes()); err != nil {
 			return
 		}
 		// get writer end marker and setup the file tags table size
@@ -150,7 +161,8 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
-	// update data offset/pos
+	// update table and data offset/pos
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
 }
-- 
2.43.0


From c8882779dd06c0da472fdcd2a7c7e53271cdb09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 19/47] fix: memory mapping of empty or absent data failed or
 crashed on reading

---
 mmap/mmap.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index fdc5626..f93c993 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -25,8 +25,25 @@ type MappedFile struct {
 
 // NewMappedFile maps nested to package file based on given tags slice.
 func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
-	// calculate paged size/offset
 	var offset, size = ts.Pos()
+	// check up that data is really present in the file
+	var fi os.FileInfo
+	if fi, err = fwpk.Stat(); err != nil {
+		return
+	}
+	if end := uint(fi.Size()); offset > end || size > end-offset {
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
+	// empty file can not be mapped
+	if size == 0 {
+		f = &MappedFile{
+			PkgReader: bytes.NewReader(nil),
+			tags:      ts,
+		}
+		return
+	}
+	// calculate paged size/offset
 	var pgoff = offset % pagesize
 	var offsetx = offset - pgoff
 	var sizex = size + pgoff
@@ -51,6 +68,9 @@ func (f *MappedFile) Stat() (fs.FileInfo, error) {
 
 // Close unmaps memory and closes mapped memory handle.
 func (f *MappedFile) Close() error {
+	if f.MMap == nil {
+		return nil
+	}
 	return f.Unmap()
 }
 
-- 
2.43.0


From c9f23f9274f952b9b1c6f2687b124f7bfa590513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 20/47] fix: slice file with absent data crashed on open

---
 bulk/bulk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bulk/bulk.go b/bulk/bulk.go
index 2a5592e..1abe833 100644
--- a/bulk/bulk.go
+++ b/bulk/bulk.go
@@ -18,6 +18,11 @@ type SliceFile struct {
 // NewSliceFile creates SliceFile file structure based on given tags slice.
 func NewSliceFile(bulk []byte, ts wpk.TagsetRaw) (f *SliceFile, err error) {
 	var offset, size = ts.Pos()
+	// check up that data is really present in the slice
+	if end := uint(len(bulk)); offset > end || size > end-offset {
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
 	f = &SliceFile{
 		PkgReader: bytes.NewReader(bulk[offset : offset+size]),
 		tags:      ts,
-- 
2.43.0


From 295c8e5730fd00490000bf3772eb8ced6f24e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 21/47] fix: chunk file with absent data was opened without
 error

---
 fsys/fsys.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/fsys/fsys.go b/fsys/fsys.go
index bb0ad31..bd5dae4 100644
--- a/fsys/fsys.go
+++ b/fsys/fsys.go
@@ -28,6 +28,17 @@ func NewChunkFile(fpath string, ts wpk.TagsetRaw) (f *ChunkFile, err error) {
 		return
 	}
 	var offset, size = ts.Pos()
+	// check up that data is really present in the file
+	var fi fs.FileInfo
+	if fi, err = wpkf.Stat(); err != nil {
+		wpkf.Close()
+		return
+	}
+	if end := uint(fi.Size()); offset > end || size > end-offset {
+		wpkf.Close()
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
 	f = &ChunkFile{
 		PkgReader: io.NewSectionReader(wpkf, int64(offset), int64(size)),
 		wpkf:      wpkf,
-- 
2.43.0


From 6671eb8a2f23c962fc54fc9315415a7c8f5dc066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 22/47] fix: directory listings were unsorted and of union had
 repeated names, last package won

---
 dir.go   | 55 +++++++++++++++++++++++------------------------
 union.go | 65 ++++++++++++++++++++++++++------------------------------
 2 files changed, 57 insertions(+), 63 deletions(-)

diff --git a/dir.go b/dir.go
index bb0c918..b198577 100644
--- a/dir.go
+++ b/dir.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk/util"
@@ -81,11 +82,11 @@ func TempPath(fname string) string {
 	return util.JoinPath(util.ToSlash(os.TempDir()), fname)
 }
 
-// ReadDirN returns fs.DirEntry array with nested into given package directory presentation.
-// It's core function for ReadDirFile and ReadDirFS structures.
+// ReadDirN returns fs.DirEntry array with nested into given package directory presentation,
+// sorted by filename. It's core function for ReadDirFile and ReadDirFS structures.
 func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
 	fulldir = util.ToSlash(fulldir)
-	var found = map[string]fs.DirEntry{}
+	var found = map[string]Void{}
 	var prefix string
 	if fulldir != "." && fulldir != "" {
 		prefix = fulldir + "/" // set terminated slash
@@ -93,36 +94,34 @@ func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error)
 
 	ftt.tsm.Range(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, prefix) {
-			var suffix = fkey[len(prefix):]
-			var sp = strings.IndexByte(suffix, '/')
-			if sp < 0 { // file detected
-				found[suffix] = ts
-				n--
-			} else { // dir detected
-				var subdir = util.JoinPath(prefix, suffix[:sp])
-				if _, ok := found[subdir]; !ok {
-					var dts = TagsetRaw{}.
-						Put(TIDpath, StrTag(subdir))
-					var f = &PackDirFile{
-						TagsetRaw: dts,
-						ftt:       ftt,
-					}
-					found[subdir] = f
-					n--
-				}
+			var name, _, isdir = strings.Cut(fkey[len(prefix):], "/")
+			if _, ok := found[name]; ok {
+				return true
+			}
+			found[name] = Void{}
+			if isdir {
+				var dts = TagsetRaw{}.
+					Put(TIDpath, StrTag(prefix+name))
+				list = append(list, &PackDirFile{
+					TagsetRaw: dts,
+					ftt:       ftt,
+				})
+			} else {
+				list = append(list, ts)
 			}
 		}
-		return n != 0
+		return true
 	})
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
-	}
+	sort.Slice(list, func(i, j int) bool {
+		return list[i].Name() < list[j].Name()
+	})
 	if n > 0 {
-		err = io.EOF
+		if len(list) < n {
+			err = io.EOF
+		} else {
+			list = list[:n]
+		}
 	}
 	return
 }
diff --git a/union.go b/union.go
index 0c2852c..7b75443 100644
--- a/union.go
+++ b/union.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"io/fs"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -153,56 +154,50 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 	return nil, &fs.PathError{Op: "readfile", Path: fpath, Err: fs.ErrNotExist}
 }
 
-// ReadDir reads the named directory
+// ReadDirN reads the named directory
 // and returns a list of directory entries sorted by filename.
+// If union have more than one entry with the same name, only first
+// will be included to result.
 func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 	dir = util.ToSlash(dir)
-	var found = map[string]fs.DirEntry{}
-	var ni = n
+	var found = map[string]Void{}
 	for _, pkg := range u.List {
-		var fulldir = pkg.FullPath(dir)
 		var prefix string
-		if fulldir != "." {
+		if fulldir := pkg.FullPath(dir); fulldir != "." && fulldir != "" {
 			prefix = fulldir + "/" // set terminated slash
 		}
 
 		pkg.tsm.Range(func(fkey string, ts TagsetRaw) bool {
 			if strings.HasPrefix(fkey, prefix) {
-				var suffix = fkey[len(prefix):]
-				var sp = strings.IndexByte(suffix, '/')
-				if sp < 0 { // file detected
-					found[suffix] = ts
-					ni--
-				} else { // dir detected
-					var subdir = util.JoinPath(prefix, suffix[:sp])
-					if _, ok := found[subdir]; !ok {
-						var dts = TagsetRaw{}.
-							Put(TIDpath, StrTag(subdir))
-						var f = &PackDirFile{
-							TagsetRaw: dts,
-							ftt:       pkg.FTT,
-						}
-						found[subdir] = f
-						ni--
-					}
+				var name, _, isdir = strings.Cut(fkey[len(prefix):], "/")
+				if _, ok := found[name]; ok {
+					return true
+				}
+				found[name] = Void{}
+				if isdir {
+					var dts = TagsetRaw{}.
+						Put(TIDpath, StrTag(prefix+name))
+					list = append(list, &PackDirFile{
+						TagsetRaw: dts,
+						ftt:       pkg.FTT,
+					})
+				} else {
+					list = append(list, ts)
 				}
 			}
-			return ni != 0
+			return true
 		})
-
-		if ni == 0 {
-			break
-		}
 	}
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
-	}
-	if ni > 0 {
-		err = io.EOF
+	sort.Slice(list, func(i, j int) bool {
+		return list[i].Name() < list[j].Name()
+	})
+	if n > 0 {
+		if len(list) < n {
+			err = io.EOF
+		} else {
+			list = list[:n]
+		}
 	}
 	return
 }
-- 
2.43.0


From c637145bf1585137cc50eff58591c2f72fe86f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 23/47] fix: Stat did not find directories, root of empty
 package could not be opened

---
 dir.go   | 8 ++++++++
 union.go | 7 ++++++-
 wpk.go   | 5 ++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/dir.go b/dir.go
index b198577..05a2880 100644
--- a/dir.go
+++ b/dir.go
@@ -135,6 +135,14 @@ func (ftt *FTT) OpenDir(fulldir string) (fs.ReadDirFile, error) {
 		prefix = fulldir + "/" // set terminated slash
 	}
 	var f *PackDirFile
+	if prefix == "" { // root is always present
+		f = &PackDirFile{
+			TagsetRaw: TagsetRaw{}.
+				Put(TIDpath, StrTag(fulldir)),
+			ftt: ftt,
+		}
+		return f, nil
+	}
 	ftt.tsm.Range(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, prefix) {
 			var dts = TagsetRaw{}.
diff --git a/union.go b/union.go
index 7b75443..46aaa0c 100644
--- a/union.go
+++ b/union.go
@@ -95,7 +95,7 @@ func (u *Union) Sub(dir string) (fs.FS, error) {
 	return &u1, nil
 }
 
-// Stat returns a fs.FileInfo describing the file.
+// Stat returns a fs.FileInfo describing the file or directory.
 // If union have more than one file with the same name, info of the first will be returned.
 // fs.StatFS implementation.
 func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
@@ -106,6 +106,11 @@ func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
 			return ts, nil
 		}
 	}
+	for _, pkg := range u.List {
+		if f, err := pkg.OpenDir(pkg.FullPath(fpath)); err == nil {
+			return f.Stat()
+		}
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrNotExist}
 }
 
diff --git a/wpk.go b/wpk.go
index e8136f6..b1536c4 100644
--- a/wpk.go
+++ b/wpk.go
@@ -695,12 +695,15 @@ func (pkg *Package) Sub(dir string) (sub fs.FS, err error) {
 	return
 }
 
-// Stat returns a fs.FileInfo describing the file.
+// Stat returns a fs.FileInfo describing the file or directory.
 // fs.StatFS interface implementation.
 func (pkg *Package) Stat(fkey string) (fs.FileInfo, error) {
 	if ts, is := pkg.GetTagset(fkey); is {
 		return ts, nil
 	}
+	if f, err := pkg.OpenDir(pkg.FullPath(fkey)); err == nil {
+		return f.Stat()
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fkey, Err: fs.ErrNotExist}
 }
 
-- 
2.43.0


From 19bb64bea2369a9a953ed879955831d2d21ab8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 24/47] fix: directory reading by portions returned the same
 members again, failed at union of different subdirectories

---
 dir.go   | 32 +++++++++++++++++++++++++++++++-
 union.go | 13 ++++++-------
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/dir.go b/dir.go
index 05a2880..e04fc0c 100644
--- a/dir.go
+++ b/dir.go
@@ -31,6 +31,34 @@ func MakeDataPath(fpath string) string {
 type PackDirFile struct {
 	TagsetRaw // has fs.FileInfo interface
 	ftt       *FTT
+	portion   dirPortion
+}
+
+// dirPortion keeps position between calls to read directory by portions.
+type dirPortion struct {
+	list []fs.DirEntry
+	read bool // list is already obtained
+}
+
+// next returns next portion of directory entries by fs.ReadDirFile rules.
+func (p *dirPortion) next(n int, all func() ([]fs.DirEntry, error)) (list []fs.DirEntry, err error) {
+	if !p.read {
+		if p.list, err = all(); err != nil {
+			return
+		}
+		p.read = true
+	}
+	if n > 0 {
+		if len(p.list) == 0 {
+			return nil, io.EOF
+		}
+		if n < len(p.list) {
+			list, p.list = p.list[:n:n], p.list[n:]
+			return
+		}
+	}
+	list, p.list = p.list, nil
+	return
 }
 
 // fs.ReadDirFile interface implementation.
@@ -50,7 +78,9 @@ func (f *PackDirFile) Close() error {
 
 // fs.ReadDirFile interface implementation.
 func (f *PackDirFile) ReadDir(n int) (matches []fs.DirEntry, err error) {
-	return f.ftt.ReadDirN(f.Path(), n)
+	return f.portion.next(n, func() ([]fs.DirEntry, error) {
+		return f.ftt.ReadDirN(f.Path(), -1)
+	})
 }
 
 // DirExists check up directory existence.
diff --git a/union.go b/union.go
index 46aaa0c..f20c003 100644
--- a/union.go
+++ b/union.go
@@ -19,6 +19,8 @@ type Void = struct{}
 type UnionDir struct {
 	TagsetRaw
 	*Union
+	dir     string // directory relative to union root
+	portion dirPortion
 }
 
 // fs.ReadDirFile interface implementation.
@@ -38,13 +40,9 @@ func (f *UnionDir) Close() error {
 
 // fs.ReadDirFile interface implementation.
 func (f *UnionDir) ReadDir(n int) ([]fs.DirEntry, error) {
-	var dir = f.Path()
-	if len(f.List) > 0 {
-		if dir = f.List[0].TrimPath(dir); dir == "" {
-			return nil, ErrOtherSubdir
-		}
-	}
-	return f.ReadDirN(dir, n)
+	return f.portion.next(n, func() ([]fs.DirEntry, error) {
+		return f.ReadDirN(f.dir, -1)
+	})
 }
 
 // Union glues list of packages into single filesystem.
@@ -257,6 +255,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 				f = &UnionDir{
 					TagsetRaw: dts,
 					Union:     u,
+					dir:       dir,
 				}
 				return false
 			}
-- 
2.43.0


From ae4c0b6ec125cf168ce833e1dc50140b1ca0659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 25/47] fix: listing of absent directory did not fail, root of
 union of empty packages could not be opened

---
 dir.go   |  4 ++++
 union.go | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/dir.go b/dir.go
index e04fc0c..02ee585 100644
--- a/dir.go
+++ b/dir.go
@@ -143,6 +143,10 @@ func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error)
 		return true
 	})
 
+	if len(list) == 0 && prefix != "" { // on case if not found
+		return nil, &fs.PathError{Op: "readdir", Path: fulldir, Err: fs.ErrNotExist}
+	}
+
 	sort.Slice(list, func(i, j int) bool {
 		return list[i].Name() < list[j].Name()
 	})
diff --git a/union.go b/union.go
index f20c003..4f76cd0 100644
--- a/union.go
+++ b/union.go
@@ -192,6 +192,10 @@ func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 		})
 	}
 
+	if len(list) == 0 && dir != "." && dir != "" { // on case if not found
+		return nil, &fs.PathError{Op: "readdir", Path: dir, Err: fs.ErrNotExist}
+	}
+
 	sort.Slice(list, func(i, j int) bool {
 		return list[i].Name() < list[j].Name()
 	})
@@ -248,6 +252,15 @@ func (u *Union) Open(dir string) (fs.File, error) {
 	}
 	for _, pkg := range u.List {
 		var f *UnionDir
+		if prefix == "" { // root is always present
+			f = &UnionDir{
+				TagsetRaw: TagsetRaw{}.
+					Put(TIDpath, StrTag(pkg.FullPath(dir))),
+				Union: u,
+				dir:   dir,
+			}
+			return f, nil
+		}
 		pkg.Enum(func(fkey string, ts TagsetRaw) bool {
 			if strings.HasPrefix(fkey, prefix) {
 				var dts = TagsetRaw{}.
-- 
2.43.0


From bfff8d617efb33d941851236b16bfb9df5864611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 26/47] fix: type of file directory entry had permission bits

---
 tagset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagset.go b/tagset.go
index 1653ab8..86570c6 100644
--- a/tagset.go
+++ b/tagset.go
@@ -471,7 +471,7 @@ func (ts TagsetRaw) Sys() interface{} {
 // Type is for fs.DirEntry interface compatibility.
 func (ts TagsetRaw) Type() fs.FileMode {
 	if ts.Has(TIDsize) { // file size is absent for dir
-		return 0444
+		return 0 // type bits only, regular file
 	}
 	return fs.ModeDir
 }
-- 
2.43.0


From b4d0ad13909478f934f555e33d143384a7034601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 27/47] fix: access, change and birth times were decoded not as
 stored

---
 tagset.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tagset.go b/tagset.go
index 86570c6..7b92876 100644
--- a/tagset.go
+++ b/tagset.go
@@ -485,22 +485,22 @@ func (ts TagsetRaw) Info() (fs.FileInfo, error) {
 // AccessTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) AccessTime() time.Time {
-	var t, _ = ts.TagUint64(TIDatime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDatime)
+	return t
 }
 
 // ChangeTime returns file change timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) ChangeTime() time.Time {
-	var t, _ = ts.TagUint64(TIDctime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDctime)
+	return t
 }
 
 // BirthTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) BirthTime() time.Time {
-	var t, _ = ts.TagUint64(TIDbtime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDbtime)
+	return t
 }
 
 // HasChangeTime is times.Timespec interface implementation.
-- 
2.43.0


From 6ebcf2b42dd552c4186d58e1df4edaaad942e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 28/47] fix: RenameDir did not accept back slashes

---
 writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writer.go b/writer.go
index a278d87..cd6679f 100644
--- a/writer.go
+++ b/writer.go
@@ -238,6 +238,7 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 
 // RenameDir renames all files in package with 'olddir' path to 'newdir' path.
 func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	olddir, newdir = util.ToSlash(olddir), util.ToSlash(newdir)
 	if len(olddir) > 0 && olddir[len(olddir)-1] != '/' {
 		olddir += "/"
 	}
-- 
2.43.0


From ad96ed00c66d33e16f9cdcb3f760ba7d9b403035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:26 +0000
Subject: [PATCH 29/47] fix: header count of sync beside a deletion differed
 from written table

---
 wpk.go    | 8 ++++++++
 writer.go | 7 ++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/wpk.go b/wpk.go
index b1536c4..d85e2da 100644
--- a/wpk.go
+++ b/wpk.go
@@ -471,6 +471,13 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 
 // WriteTo writes file tags table whole content to the given stream.
 func (ftt *FTT) WriteTo(w io.Writer) (n int64, err error) {
+	n, _, err = ftt.writeTable(w)
+	return
+}
+
+// writeTable writes file tags table and counts written entries,
+// table can be changed meanwhile.
+func (ftt *FTT) writeTable(w io.Writer) (n int64, count uint64, err error) {
 	// write tagset with package info at first, can be empty
 	{
 		var tsl = len(ftt.info)
@@ -511,6 +518,7 @@ func (ftt *FTT) WriteTo(w io.Writer) (n int64, err error) {
 			return false
 		}
 		n += int64(tsl)
+		count++
 		return true
 	})
 	if err != nil {
diff --git a/writer.go b/writer.go
index cd6679f..184165f 100644
--- a/writer.go
+++ b/writer.go
@@ -83,6 +83,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	defer ftt.mux.Unlock()
 
 	var fftpos, fftend, datpos, datend int64
+	var count uint64
 
 	if wpf != nil && wpf != wpt { // splitted package files
 		// get tags table offset as actual end of file
@@ -92,7 +93,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		}
 		// new table should not overwrite the last one until header refers to it
 		var buf bytes.Buffer
-		if _, err = ftt.WriteTo(&buf); err != nil {
+		if _, count, err = ftt.writeTable(&buf); err != nil {
 			return
 		}
 		fftpos = HeaderSize
@@ -137,7 +138,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 			return
 		}
 		// write file tags table
-		if _, err = ftt.WriteTo(wpt); err != nil {
+		if _, count, err = ftt.writeTable(wpt); err != nil {
 			return
 		}
 		// get writer end marker and setup the file tags table size
@@ -149,7 +150,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	// rewrite true header
 	var hdr = Header{
 		signature: [SignSize]byte(util.S2B(SignReady)),
-		fttcount:  uint64(ftt.tsm.Len()),
+		fttcount:  count,
 		fttoffset: uint64(fftpos),
 		fttsize:   uint64(fftend - fftpos),
 		datoffset: uint64(datpos),
-- 
2.43.0


From 68ded46b2eba0fb75d24a8e4daa7656154300d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 30/47] fix: SeqMap.Pop changed the map under a shared lock

---
 util/seqmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/seqmap.go b/util/seqmap.go
index 4479db5..2fec692 100644
--- a/util/seqmap.go
+++ b/util/seqmap.go
@@ -65,8 +65,8 @@ func (m *SeqMap[K, T]) Poke(key K, val T) {
 }
 
 func (m *SeqMap[K, T]) Pop() (key K, val T, ok bool) {
-	m.mux.RLock()
-	defer m.mux.RUnlock()
+	m.mux.Lock()
+	defer m.mux.Unlock()
 
 	if n := len(m.seq) - 1; n >= 0 {
 		key, val, ok = m.seq[n].key, m.seq[n].val, true
-- 
2.43.0


From 2c9f6a1476b5e9cf34b4f369d7cb53625410b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:05 +0000
Subject: [PATCH 31/47] fix: script package counted as opened after failed
 begin or append

---
 luawpk/luawpk.go | 52 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 7ed474b..447af22 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -45,6 +45,34 @@ type LuaPackage struct {
 	wpf     wpk.WriteSeekCloser // package data part
 }
 
+// openFiles opens package files for writing. Package remains closed on any error.
+func (pkg *LuaPackage) openFiles(pkgpath, datpath string, flag int) error {
+	var wpt, err = os.OpenFile(pkgpath, flag, 0755)
+	if err != nil {
+		return err
+	}
+	if datpath != "" {
+		var wpf, err = os.OpenFile(datpath, flag, 0755)
+		if err != nil {
+			wpt.Close()
+			return err
+		}
+		pkg.wpf = wpf
+	}
+	pkg.wpt = wpt
+	return nil
+}
+
+// closeFiles closes package files after failed start of writing.
+func (pkg *LuaPackage) closeFiles() {
+	pkg.wpt.Close()
+	pkg.wpt = nil
+	if pkg.wpf != nil {
+		pkg.wpf.Close()
+		pkg.wpf = nil
+	}
+}
+
 // RegPack registers "wpk" userdata into Lua virtual machine.
 func RegPack(ls *lua.LState) {
 	var mt = ls.NewTypeMetatable(PackMT)
@@ -500,22 +528,16 @@ func wpkbegin(ls *lua.LState) int {
 	}
 
 	// create package file
-	if pkg.wpt, err = os.OpenFile(pkgpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
+	if err = pkg.openFiles(pkgpath, datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC); err != nil {
 		return 0
 	}
-	if datpath != "" {
-		if pkg.wpf, err = os.OpenFile(datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
-			return 0
-		}
-	}
-	// setup file representation
-	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 	// starts new package
 	if err = pkg.Begin(pkg.wpt, pkg.wpf); err != nil {
+		pkg.closeFiles()
 		return 0
 	}
+	// setup file representation
+	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 
 	return 0
 }
@@ -535,18 +557,12 @@ func wpkappend(ls *lua.LState) int {
 	}
 
 	// open package file
-	if pkg.wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
+	if err = pkg.openFiles(pkg.pkgpath, pkg.datpath, os.O_WRONLY); err != nil {
 		return 0
 	}
-	if pkg.datpath != "" {
-		if pkg.wpf, err = os.OpenFile(pkg.datpath, os.O_WRONLY, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
-			return 0
-		}
-	}
 	// starts to append files
 	if err = pkg.Append(pkg.wpt, pkg.wpf); err != nil {
+		pkg.closeFiles()
 		return 0
 	}
 
-- 
2.43.0


From 456f21c35c90f1faddd6bf3db1932a1f71608da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 32/47] fix: failed script load spoiled previously loaded
 package

---
 luawpk/luawpk.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 447af22..7613c4b 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -502,10 +502,12 @@ func wpkload(ls *lua.LState) int {
 		return 0
 	}
 
-	// open package file
-	if err = pkg.OpenFile(pkgpath); err != nil {
+	// open package file, previous content remains on fail
+	var ftt = &wpk.FTT{}
+	if err = ftt.OpenFile(pkgpath); err != nil {
 		return 0
 	}
+	pkg.FTT = ftt
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 
 	return 0
-- 
2.43.0


From 64b084ee347a230f7dace54474cbc73918c62e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 33/47] fix: unusable values in script tags tables were
 silently skipped

---
 luawpk/luawpk.go  |  9 ++++-----
 luawpk/nametid.go | 21 +++++++++++++++++++--
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 7613c4b..320a0d4 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -1170,8 +1170,8 @@ func wpkdeltags(ls *lua.LState) int {
 	var fkey = ls.CheckString(2)
 	var lt = ls.CheckTable(3)
 
-	var opts wpk.TagsetRaw
-	if opts, err = TableToTagset(lt, opts); err != nil {
+	var tids []wpk.TID
+	if tids, err = TableToTIDs(lt); err != nil {
 		return 0
 	}
 
@@ -1182,10 +1182,9 @@ func wpkdeltags(ls *lua.LState) int {
 	}
 
 	ts = wpk.CopyTagset(ts)
-	var optsi = opts.Iterator()
 	var n = 0
-	for optsi.Next() {
-		if ts, ok = ts.DelOk(optsi.TID()); ok {
+	for _, tid := range tids {
+		if ts, ok = ts.DelOk(tid); ok {
 			n++
 		}
 	}
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 07a38b0..ba90356 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -301,7 +301,6 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or string names associated ID values. Lua-table values can be strings, numbers,
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
-	var err error
 	var errs []error
 	lt.ForEach(func(k lua.LValue, v lua.LValue) {
 		var (
@@ -317,7 +316,7 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 			errk = &ErrProtected{tid}
 			errs = append(errs, errk)
 		}
-		if tag, errv = ValueToTag(tid, v); err != nil {
+		if tag, errv = ValueToTag(tid, v); errv != nil {
 			errs = append(errs, errv)
 		}
 
@@ -328,4 +327,22 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 	return ts, errors.Join(errs...)
 }
 
+// TableToTIDs converts keys of Lua-table to list of tags identifiers.
+// Lua-table keys can be number identifiers or string names associated ID values.
+func TableToTIDs(lt *lua.LTable) (tids []wpk.TID, err error) {
+	var errs []error
+	lt.ForEach(func(k lua.LValue, v lua.LValue) {
+		var tid, err = ValueToTID(k)
+		if err == nil && (tid == wpk.TIDoffset || tid == wpk.TIDsize || tid == wpk.TIDpath) {
+			err = &ErrProtected{tid}
+		}
+		if err != nil {
+			errs = append(errs, err)
+			return
+		}
+		tids = append(tids, tid)
+	})
+	return tids, errors.Join(errs...)
+}
+
 // The End.
-- 
2.43.0


From cf4ccc899a920a6ebf4acac17f55e22c76c70f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:47 +0000
Subject: [PATCH 34/47] fix: file with bad tags given by script was packed

---
 luawpk/luawpk.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 320a0d4..19d8ebe 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -718,6 +718,11 @@ func wpkputdata(ls *lua.LState) int {
 		return 0
 	}
 
+	var opts wpk.TagsetRaw
+	if opts, err = TableToTagset(tags, opts); err != nil {
+		return 0
+	}
+
 	var r = strings.NewReader(data)
 
 	var w = pkg.wpt
@@ -730,13 +735,14 @@ func wpkputdata(ls *lua.LState) int {
 	}
 
 	if ts, err = pkg.adjusttagset(r, ts); err != nil {
+		pkg.DelTagset(fkey)
 		return 0
 	}
 
-	if ts, err = TableToTagset(tags, ts); err != nil {
-		return 0
+	var optsi = opts.Iterator()
+	for optsi.Next() {
+		ts = ts.Set(optsi.TID(), optsi.Tag())
 	}
-
 	pkg.SetupTagset(ts)
 
 	return 0
@@ -759,6 +765,11 @@ func wpkputfile(ls *lua.LState) int {
 		return 0
 	}
 
+	var opts wpk.TagsetRaw
+	if opts, err = TableToTagset(tags, opts); err != nil {
+		return 0
+	}
+
 	var file wpk.RFile
 	if file, err = os.Open(fpath); err != nil {
 		return 0
@@ -775,13 +786,14 @@ func wpkputfile(ls *lua.LState) int {
 	}
 
 	if ts, err = pkg.adjusttagset(file, ts); err != nil {
+		pkg.DelTagset(fkey)
 		return 0
 	}
 
-	if ts, err = TableToTagset(tags, ts); err != nil {
-		return 0
+	var optsi = opts.Iterator()
+	for optsi.Next() {
+		ts = ts.Set(optsi.TID(), optsi.Tag())
 	}
-
 	pkg.SetupTagset(ts)
 
 	return 0
-- 
2.43.0


From 9aba856c28c21aac527ccafa5c30adc2746b2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 35/47] fix: script tag names crc32 and crc64 were given by
 chance

---
 luawpk/nametid.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index ba90356..1fb6182 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -102,7 +102,10 @@ var NameTid = map[string]wpk.TID{
 var TidName = func() map[wpk.TID]string {
 	var tn = map[wpk.TID]string{}
 	for name, tid := range NameTid {
-		tn[tid] = name
+		// shortest name of several ones for the same identifier
+		if old, ok := tn[tid]; !ok || len(name) < len(old) {
+			tn[tid] = name
+		}
 	}
 	return tn
 }()
-- 
2.43.0


From 3927143f244eb31ef199ff67f48e8a2a143c159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 36/47] fix: script tag numbers and values out of range were
 stored as others

---
 luawpk/nametid.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 1fb6182..2b5d92d 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -132,6 +133,10 @@ func (e *ErrProtected) Error() string {
 var (
 	ErrBadTagKey = errors.New("tag key type is not number or string")
 	ErrBadTagVal = errors.New("tag value type is not string or boolean or 'tag' userdata")
+
+	ErrRangeTagKey = errors.New("tag key number is out of range of tag identifiers")
+	ErrRangeTagVal = errors.New("tag value number can not be presented as unsigned integer")
+	ErrRangeTagLen = errors.New("tag value is too long")
 )
 
 // ValueToTID converts LValue to uint16 tag identifier.
@@ -139,7 +144,10 @@ var (
 // values which they presents. Error returns on any other case.
 func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	if n, ok := k.(lua.LNumber); ok {
-		tid = wpk.TID(n)
+		if tid = wpk.TID(n); lua.LNumber(tid) != n {
+			err = ErrRangeTagKey
+			return
+		}
 	} else if name, ok := k.(lua.LString); ok {
 		if n, ok := NameTid[string(name)]; ok {
 			tid = n
@@ -161,6 +169,10 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 	switch TidType[tid] {
 	case TTbin:
 		if val, ok := v.(lua.LNumber); ok {
+			if !(val >= 0 && val < math.MaxUint64) {
+				err = ErrRangeTagVal
+				return
+			}
 			tag = wpk.UintTag(uint(val))
 		} else if val, ok := v.(lua.LString); ok {
 			tag, err = hex.DecodeString(string(val))
@@ -191,12 +203,20 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 		}
 	case TTuint:
 		if val, ok := v.(lua.LNumber); ok {
+			if !(val >= 0 && val < math.MaxUint64) {
+				err = ErrRangeTagVal
+				return
+			}
 			tag = wpk.UintTag(uint(val))
 		} else if val, ok := v.(lua.LString); ok {
 			var i int
 			if i, err = strconv.Atoi(string(val)); err != nil {
 				return
 			}
+			if i < 0 {
+				err = ErrRangeTagVal
+				return
+			}
 			tag = wpk.UintTag(uint(i))
 		} else if val, ok := v.(lua.LBool); ok {
 			if val {
@@ -258,6 +278,9 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 			return
 		}
 	}
+	if err == nil && len(tag) > math.MaxUint16 {
+		err = ErrRangeTagLen
+	}
 	return
 }
 
-- 
2.43.0


From 92b53d0959f09da656be31851be5e0865395c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 37/47] fix: automatic file identifiers repeated ones already
 present in package

---
 luawpk/luawpk.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 19d8ebe..e9f0a5e 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -73,6 +73,19 @@ func (pkg *LuaPackage) closeFiles() {
 	}
 }
 
+// countfid makes the following automatic file identifiers differ from given one.
+func (pkg *LuaPackage) countfid(ts wpk.TagsetRaw) {
+	if fid, ok := ts.TagUint(wpk.TIDfid); ok && fid > pkg.fidcount {
+		pkg.fidcount = fid
+	}
+}
+
+// SetupTagset puts tagset with filename key stored at tagset.
+func (pkg *LuaPackage) SetupTagset(ts wpk.TagsetRaw) {
+	pkg.countfid(ts)
+	pkg.Package.SetupTagset(ts)
+}
+
 // RegPack registers "wpk" userdata into Lua virtual machine.
 func RegPack(ls *lua.LState) {
 	var mt = ls.NewTypeMetatable(PackMT)
@@ -509,6 +522,12 @@ func wpkload(ls *lua.LState) int {
 	}
 	pkg.FTT = ftt
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
+	// new file identifiers should differ from present ones
+	pkg.fidcount = 0
+	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
+		pkg.countfid(ts)
+		return true
+	})
 
 	return 0
 }
-- 
2.43.0


From fd8ace46fe8a535fa8ae9380ac19f0ae1f5ab68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:30 +0000
Subject: [PATCH 38/47] fix: extract tool wrote files with hostile names
 outside of the destination

---
 cmd/extract/extract.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 84d5519..c76f890 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -4,9 +4,11 @@ import (
 	"errors"
 	"flag"
 	"io"
+	"io/fs"
 	"log"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk"
@@ -30,7 +32,8 @@ var (
 var pkg = wpk.NewPackage()
 
 var (
-	ErrNoWay = errors.New("no way to here")
+	ErrNoWay   = errors.New("no way to here")
+	ErrOutside = errors.New("file name leads out of destination path")
 )
 
 func parseargs() {
@@ -134,6 +137,11 @@ func readpackage() (err error) {
 					next = err == nil
 				}()
 
+				// file names come from the package, they should not lead out of destination
+				if !filepath.IsLocal(strings.TrimLeft(util.ToSlash(fkey), "/")) {
+					err = &fs.PathError{Op: "extract", Path: fkey, Err: ErrOutside}
+					return
+				}
 				var fullpath = util.JoinPath(DstPath, fkey)
 				if err = os.MkdirAll(path.Dir(fullpath), os.ModePerm); err != nil {
 					return
-- 
2.43.0


From 193dfc51398503a39c610c0d6691fb77bf99ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 39/47] fix: pack tool reported completion after failures on
 source files

---
 cmd/pack/pack.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index ed3d4c2..c3e8238 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -111,7 +111,7 @@ func writepackage() (err error) {
 	for i, srcpath := range SrcList {
 		log.Printf("source folder #%d: %s", i+1, srcpath)
 		var num, sum int64
-		fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
+		err = fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
 			if err != nil {
 				return err
 			}
@@ -165,6 +165,9 @@ func writepackage() (err error) {
 			pkg.SetTagset(fkey, ts)
 			return nil
 		})
+		if err != nil {
+			return
+		}
 		log.Printf("packed: %d files on %d bytes", num, sum)
 	}
 
-- 
2.43.0


From 092248d99ec21cc9978ea9f431b970e9bd040bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 40/47] fix: pack tool sniffed MIME type of an empty buffer
 instead of file content

---
 cmd/pack/pack.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index c3e8238..5bcceee 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"bytes"
 	"flag"
 	"io"
 	"io/fs"
@@ -149,8 +148,8 @@ func writepackage() (err error) {
 					}
 					// read a chunk to decide between utf-8 text and binary
 					var buf [sniffLen]byte
-					var n int64
-					if n, err = io.CopyN(bytes.NewBuffer(buf[:]), file, sniffLen); err != nil && err != io.EOF {
+					var n int
+					if n, err = io.ReadFull(file, buf[:]); err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 						return err
 					}
 					ctype = http.DetectContentType(buf[:n])
-- 
2.43.0


From 87b18e276706b018ab8533f743b4f8921931b50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 41/47] fix: pack tool packed its own output placed in source
 folder endlessly

---
 cmd/pack/pack.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index 5bcceee..4085bf0 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -95,6 +95,16 @@ func writepackage() (err error) {
 		log.Printf("destination file: %s\n", pkgfile)
 	}
 
+	// destination files can be inside of source folder
+	var dest []fs.FileInfo
+	for _, fpath := range []string{pkgfile, datfile} {
+		var fi fs.FileInfo
+		if fi, err = os.Stat(fpath); err != nil {
+			return
+		}
+		dest = append(dest, fi)
+	}
+
 	// starts new package
 	if err = pkg.Begin(fwpk, fwpf); err != nil {
 		return
@@ -126,6 +136,15 @@ func writepackage() (err error) {
 			}
 			defer file.Close()
 
+			// package should not be packed into itself
+			var fi fs.FileInfo
+			if fi, err = file.Stat(); err != nil {
+				return err
+			}
+			if os.SameFile(fi, dest[0]) || os.SameFile(fi, dest[1]) {
+				return nil
+			}
+
 			if ts, err = pkg.PackFile(w, file, fkey); err != nil {
 				return err
 			}
-- 
2.43.0


From 47304f5afd0107dfdfb4b33d731c062cf46e0318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 42/47] fix: Envfmt spoiled or missed variable at the end of
 string

---
 util/strutil.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/util/strutil.go b/util/strutil.go
index 8f3985e..1a2779c 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -206,7 +206,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					mode, p1 = 1, i+1
 					i += 2
 				} else if i < fl-3 && b[i+1] == '{' && VarCharFirst[b[i+2]] {
@@ -275,8 +275,16 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		var env string
+		var ok bool
+		if envmap != nil {
+			env, ok = envmap[v]
+		}
+		if !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		if ok {
 			el += len(env) - len(v) - 1
 			n++
 		}
@@ -293,7 +301,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					pe = i
 					mode, p1 = 1, i+1
 					i += 2
@@ -361,13 +369,22 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		var env string
+		var ok bool
+		if envmap != nil {
+			env, ok = envmap[v]
+		}
+		if !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		if ok {
 			copy(e[j:], env)
+			j += len(env)
+			pc = i
 		}
 		mode = 0
-	} else { // copy remainder
-		copy(e[j:], b[pc:])
 	}
+	copy(e[j:], b[pc:]) // copy remainder
 	return B2S(e)
 }
-- 
2.43.0


From 5c4b1557281af20c0b0be696e6d1f8877e250bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 43/47] fix: Envfmt failed on unclosed pattern at the end of
 string with variables

---
 util/strutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/strutil.go b/util/strutil.go
index 1a2779c..f056f7c 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -297,7 +297,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 
 	// 2nd passage, fill out result
 	var e = make([]byte, el)
-	i = 0
+	mode, i = 0, 0 // 1st passage can be finished inside of unclosed pattern
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-- 
2.43.0


From 2574dc4c98ea5b8ca0e7bcf97b57e5913cb9288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 44/47] fix: path.match in scripts took pattern and name in
 wrong order

---
 luawpk/luapath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index ae9f989..5c6aa49 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -100,7 +100,7 @@ func pathmatch(ls *lua.LState) int {
 	var name = ls.CheckString(1)
 	var pattern = ls.CheckString(2)
 
-	var matched, err = path.Match(name, pattern)
+	var matched, err = path.Match(pattern, name)
 	if err != nil {
 		ls.RaiseError(err.Error())
 		return 0
-- 
2.43.0


From a0911f71457573669e243c566eabbe7de83cdbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 45/47] fix: path.enum in scripts raised an error on empty
 directory

---
 luawpk/luapath.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index 5c6aa49..cd043db 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -1,6 +1,7 @@
 package luawpk
 
 import (
+	"io"
 	"os"
 	"path"
 	"path/filepath"
@@ -146,7 +147,7 @@ func pathenum(ls *lua.LState) int {
 	defer dir.Close()
 
 	var names []string
-	if names, err = dir.Readdirnames(n); err != nil {
+	if names, err = dir.Readdirnames(n); err != nil && err != io.EOF {
 		ls.RaiseError(err.Error())
 		return 0
 	}
-- 
2.43.0


From 14902e4200a38d829879149adb2058bb988a9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 46/47] fix: file packing stores the times of file together
 with its data

---
 writer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/writer.go b/writer.go
index 184165f..1367e4d 100644
--- a/writer.go
+++ b/writer.go
@@ -171,6 +171,11 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 // PackData puts data streamed by given reader into package as a file
 // and associate keyname "fkey" with it.
 func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
+	return pkg.packTagged(w, r, fkey, nil)
+}
+
+// packTagged puts data as PackData, and adds given tags to the new entry.
+func (pkg *Package) packTagged(w io.WriteSeeker, r io.Reader, fkey string, tags TagsetRaw) (ts TagsetRaw, err error) {
 	pkg.mux.Lock()
 	defer pkg.mux.Unlock()
 
@@ -191,7 +196,7 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 	pkg.datsize = uint64(offset+size) - pkg.datoffset
 
 	// insert new entry to tags table
-	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
+	ts = append(pkg.BaseTagset(uint(offset), uint(size), fkey), tags...)
 	pkg.SetTagset(fkey, ts)
 	return
 }
@@ -202,9 +207,6 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 	if fi, err = file.Stat(); err != nil {
 		return
 	}
-	if ts, err = pkg.PackData(w, file, fkey); err != nil {
-		return
-	}
 
 	//ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
 	var tsp = times.Get(fi)
@@ -216,8 +218,7 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 	if tsp.HasBirthTime() {
 		ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
 	}
-	pkg.SetTagset(fkey, ts)
-	return
+	return pkg.packTagged(w, file, fkey, ts)
 }
 
 // Rename tagset with file name 'fkey1' to 'fkey2'.
-- 
2.43.0


From 5cf2593eaa775d066db78aecd20cdd777dab54ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 47/47] fix: renaming and aliasing do not run into packing,
 syncing and deletion

---
 writer.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/writer.go b/writer.go
index 1367e4d..341ebd5 100644
--- a/writer.go
+++ b/writer.go
@@ -224,6 +224,9 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 // Rename tagset with file name 'fkey1' to 'fkey2'.
 // Keeps link to original file name.
 func (pkg *Package) Rename(fkey1, fkey2 string) error {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "rename", Path: fkey1, Err: fs.ErrNotExist}
@@ -233,13 +236,18 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 	}
 
 	ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(fkey2))))
-	pkg.DelTagset(fkey1)
+	if _, ok = pkg.DelTagset(fkey1); !ok { // deleted meanwhile
+		return &fs.PathError{Op: "rename", Path: fkey1, Err: fs.ErrNotExist}
+	}
 	pkg.SetTagset(fkey2, ts)
 	return nil
 }
 
 // RenameDir renames all files in package with 'olddir' path to 'newdir' path.
 func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	olddir, newdir = util.ToSlash(olddir), util.ToSlash(newdir)
 	if len(olddir) > 0 && olddir[len(olddir)-1] != '/' {
 		olddir += "/"
@@ -255,7 +263,9 @@ func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int,
 				return skipexist
 			}
 			ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(newkey))))
-			pkg.DelTagset(fkey)
+			if _, ok := pkg.DelTagset(fkey); !ok { // deleted meanwhile
+				return true
+			}
 			pkg.SetTagset(newkey, ts)
 			count++
 		}
@@ -270,6 +280,9 @@ func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int,
 // PutAlias makes clone tagset with file name 'fkey1' and replace name tag
 // in it to 'fkey2'. Keeps link to original file name.
 func (pkg *Package) PutAlias(fkey1, fkey2 string) error {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "putalias", Path: fkey1, Err: fs.ErrNotExist}
-- 
2.43.0

