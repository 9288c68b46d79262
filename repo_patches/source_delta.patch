From cbcc9da9476607044d190e40469096cf9902a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 01/30] fix: Find reports not found for a set size the
 collection has not seen

---
 pkg/storage/collection16.go | 4 ++++
 pkg/storage/collection8.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 48314ca..14257cd 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -16,6 +16,10 @@ func (collection8x8 Collection16) Find(item Set16) (foundIdx ID32, found bool) {
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such size indexed yet
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(item); !found {
 		return 0, false
 	}
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 14077d7..532eb09 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -15,6 +15,10 @@ func (collection8x8 Collection8x8) Find(setItem Set8) (foundIdx ID16, found bool
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such size indexed yet
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(setItem); !found {
 		return 0, false
 	}
-- 
2.43.0


From 56d354168138b0aab22a03a485c7686ccbc13dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 02/30] fix: keep indexed sets independent from the slice the
 caller passed

---
 internal/index/tagset_table.go  | 1 +
 internal/index/variant_table.go | 1 +
 pkg/storage/table16.go          | 1 +
 pkg/storage/table8.go           | 1 +
 4 files changed, 4 insertions(+)

diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 94cd256..65174b3 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -101,6 +101,7 @@ func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 
 	storageIdx = TagSetSubID(len(*tagSetTable))
 
+	item = append(make(TagSet, 0, len(item)), item...) // keep own copy, caller is free to reuse its slice
 	*tagSetTable = append(*tagSetTable, item)
 
 	return storageIdx
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index f51e053..9e40e68 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -77,6 +77,7 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 
 	storageIdx = VariantSubID(len(*variantsTable))
 
+	item = append(make(TagSetIDCollection, 0, len(item)), item...) // keep own copy, caller is free to reuse its slice
 	*variantsTable = append(*variantsTable, item)
 
 	return storageIdx
diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index d6b7ae9..911c217 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -35,6 +35,7 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 
 	id = ID16(len(*table16))
 
+	item = append(make(Set16, 0, len(item)), item...) // keep own copy, caller is free to reuse its slice
 	*table16 = append(*table16, item)
 
 	return id
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index daafdc6..8737083 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -34,6 +34,7 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 
 	id = ID8(len(*table8))
 
+	item = append(make(Set8, 0, len(item)), item...) // keep own copy, caller is free to reuse its slice
 	*table8 = append(*table8, item)
 
 	return id
-- 
2.43.0


From 10fcfc03b76e9575cda4da3e548228e6cb671fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 03/30] fix: refuse to index over the id capacity instead of
 returning an id of another item

---
 internal/index/tagset_table.go  | 5 +++++
 internal/index/variant_table.go | 5 +++++
 pkg/dag/idx.go                  | 5 +++++
 pkg/storage/collection16.go     | 8 ++++++++
 pkg/storage/collection8.go      | 8 ++++++++
 pkg/storage/table16.go          | 8 ++++++++
 pkg/storage/table8.go           | 8 ++++++++
 7 files changed, 47 insertions(+)

diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 65174b3..49664d7 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -99,6 +100,10 @@ func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 		return storageIdx
 	}
 
+	if len(*tagSetTable) > math.MaxUint16 {
+		panic("tag sets table is full") // next id does not fit, it would alias an indexed set
+	}
+
 	storageIdx = TagSetSubID(len(*tagSetTable))
 
 	item = append(make(TagSet, 0, len(item)), item...) // keep own copy, caller is free to reuse its slice
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index 9e40e68..d81cdc0 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -75,6 +76,10 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 		return storageIdx
 	}
 
+	if len(*variantsTable) > math.MaxUint16 {
+		panic("variants table is full") // next id does not fit, it would alias an indexed collection
+	}
+
 	storageIdx = VariantSubID(len(*variantsTable))
 
 	item = append(make(TagSetIDCollection, 0, len(item)), item...) // keep own copy, caller is free to reuse its slice
diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index d72d7bb..8a986eb 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -6,6 +6,7 @@ Idx implements Tag ids, providing simple indexed ID in index.
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/gomorphy/pkg/storage"
 
@@ -108,6 +109,10 @@ func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 		return id
 	}
 
+	if len(*tagsIndex) > math.MaxUint8 {
+		panic("tags index is full") // next id does not fit, it would alias an indexed tag
+	}
+
 	id = TagID(len(*tagsIndex))
 	*tagsIndex = append(*tagsIndex, *NewTag(parent, name))
 
diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 14257cd..6a665ff 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -1,5 +1,9 @@
 package storage // nolint:dupl
 
+import (
+	"math"
+)
+
 // Collection16 stores unique ids.Set16 items organized in Table16 storages where each storage
 // keeps sets of same sizes.
 // Each Collection16 item is addressable by unique ids.ID32
@@ -34,6 +38,10 @@ func (collection8x8 *Collection16) Index(item Set16) (indexedIdx ID32) {
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("set is too long") // column number does not fit ID16
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 532eb09..f1edd03 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Collection8x8 stores unique ids.Set8 items in Table8 items where each Table8 stores sets of same sizes.
 // Each Collection8x8 item is addressable by unique ID16
 // which consists of Table8 ID8 item index in collection and ID8 element index in Table8 item.
@@ -33,6 +37,10 @@ func (collection8x8 *Collection8x8) Index(setItem Set8) (indexedIdx ID16) {
 	}
 
 	columnIdx := len(setItem) - 1
+	if columnIdx > math.MaxUint8 {
+		panic("set is too long") // column number does not fit ID8
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index 911c217..62a33f5 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Table16 stores unique ids.Set16 lists having equal length.
 // It Uses its own ID16 index to address target sets.set16 stack in addition to address element in stack.
 // Used in Collection16 to store different sized sets organized into stacks of equal-sized sets.
@@ -33,6 +37,10 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 		return id
 	}
 
+	if len(*table16) > math.MaxUint16 {
+		panic("table16 is full") // next id does not fit, it would alias an indexed set
+	}
+
 	id = ID16(len(*table16))
 
 	item = append(make(Set16, 0, len(item)), item...) // keep own copy, caller is free to reuse its slice
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index 8737083..15678d7 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Table8 stores upto 256 unique ids.Set8 lists having equal length.
 // Used in Collection8x8 to store different sized sets organized into stacks of equal-sized sets.
 type Table8 []Set8
@@ -32,6 +36,10 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 		return id
 	}
 
+	if len(*table8) > math.MaxUint8 {
+		panic("table8 is full") // next id does not fit, it would alias an indexed set
+	}
+
 	id = ID8(len(*table8))
 
 	item = append(make(Set8, 0, len(item)), item...) // keep own copy, caller is free to reuse its slice
-- 
2.43.0


From 6b2cb227ad69c1a563d5e5ebab5f18c76833d5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 04/30] fix: refuse to write lists longer than their length
 prefix can tell

---
 internal/index/tagset_def.go   | 5 +++++
 internal/index/tagset_table.go | 4 ++++
 internal/index/variant_def.go  | 5 +++++
 internal/index/variant_idx.go  | 5 +++++
 pkg/dag/idx.go                 | 4 ++++
 pkg/storage/set16.go           | 5 +++++
 pkg/storage/set8.go            | 5 +++++
 7 files changed, 33 insertions(+)

diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 486c465..8015efa 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -3,6 +3,7 @@ package index
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -56,6 +57,10 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSet TagSet) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSet) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: tagset: len %d does not fit length byte", Error, len(tagSet))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSet))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 49664d7..ce26f3f 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -58,6 +58,10 @@ func (tagSetTable TagSetTable) BinaryWriteTo(writer *binutils.BinaryWriter) (err
 	if writer == nil {
 		return fmt.Errorf("%w: writer nil", Error)
 	}
+	if tagSetTable.Len() > math.MaxUint16 {
+		return fmt.Errorf("%w: write: tagset table: len %d does not fit length bytes", Error, tagSetTable.Len())
+	}
+
 	if err = writer.WriteUint16(uint16(tagSetTable.Len())); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index 5e50ad5..ba7af41 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -27,6 +28,10 @@ func (t TagSetIDCollection) GoString() string {
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (t TagSetIDCollection) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(t) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: collection: len %d does not fit length byte", Error, len(t))
+	}
+
 	if err = writer.WriteUint8(uint8(len(t))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 901b17d..6bdbb35 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -14,6 +15,10 @@ type VariantsIndex []VariantsTable
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSetIndex) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: variants: %d tables does not fit length byte", Error, len(tagSetIndex))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSetIndex))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index 8a986eb..7039708 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -66,6 +66,10 @@ func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagsIndex Idx) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if tagsIndex.Len() > math.MaxUint8 {
+		return fmt.Errorf("%w: %d tags does not fit length byte", common.ErrMarshal, tagsIndex.Len())
+	}
+
 	if err = writer.WriteUint8(uint8(tagsIndex.Len())); err != nil {
 		return fmt.Errorf("%w: cant write length byte: %v", common.ErrMarshal, err)
 	}
diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 4fc7ef8..8096b2d 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -3,6 +3,7 @@ package storage //nolint:godupl
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set16 Set16) EqualTo(another Set16) bool {
 func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set16) > math.MaxUint16 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d does not fit length bytes", ErrSet16, len(set16))
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint16(uint16(len(set16))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 31ba515..c0132fe 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set8 Set8) EqualTo(another Set8) bool {
 func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set8) > math.MaxUint8 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d does not fit length byte", ErrSet8, len(set8))
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint8(uint8(len(set8))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
-- 
2.43.0


From 86e968db8a01a64733cb0cbb154e2384e86ed44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 05/30] fix: data finished in the middle of a value is an
 error, not a zero filled value

---
 internal/index/idx.go        |  3 +++
 internal/index/tagset_def.go |  3 ++-
 pkg/common/reader.go         | 21 +++++++++++++++++++++
 pkg/dag/idx.go               |  2 ++
 pkg/dag/name.go              |  4 ++++
 pkg/storage/set16.go         |  4 +++-
 pkg/storage/set8.go          |  4 +++-
 7 files changed, 38 insertions(+), 3 deletions(-)
 create mode 100644 pkg/common/reader.go

diff --git a/internal/index/idx.go b/internal/index/idx.go
index cfeb72f..5ff037b 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -8,6 +8,7 @@ import (
 	"github.com/amarin/binutils"
 	"github.com/amarin/logging"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -221,6 +222,8 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	index.mu.Lock()
 	defer index.mu.Unlock()
 
+	reader = binutils.NewBinaryReader(common.FullReader(reader)) // short reads are errors
+
 	if err = index.readTagsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: tags: %v", Error, err)
 	}
diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 8015efa..2f65522 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -130,7 +131,7 @@ func (tagSet *TagSet) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r)) // short reads are errors
 	if expectedLen, err = reader.ReadUint8(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", Error, err)
 	}
diff --git a/pkg/common/reader.go b/pkg/common/reader.go
new file mode 100644
index 0000000..8e0d43e
--- /dev/null
+++ b/pkg/common/reader.go
@@ -0,0 +1,21 @@
+package common
+
+import (
+	"io"
+)
+
+// fullReader fills whole buffer on every read or reports an error.
+type fullReader struct {
+	source io.Reader
+}
+
+// FullReader wraps source to never return less bytes than requested without an error.
+// Data finished in the middle of requested bytes causes io.ErrUnexpectedEOF.
+func FullReader(source io.Reader) io.Reader {
+	return fullReader{source: source}
+}
+
+// Read reads exactly len(p) bytes from source. Implements io.Reader.
+func (r fullReader) Read(p []byte) (n int, err error) {
+	return io.ReadFull(r.source, p)
+}
diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index 7039708..2bc6dc7 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -47,6 +47,8 @@ func NewIndex(knownTags ...Tag) Idx {
 func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var listLen uint8
 
+	reader = binutils.NewBinaryReader(common.FullReader(reader)) // short reads are errors
+
 	if listLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read length byte: %v", common.ErrUnmarshal, err)
 	}
diff --git a/pkg/dag/name.go b/pkg/dag/name.go
index 980b022..415e050 100644
--- a/pkg/dag/name.go
+++ b/pkg/dag/name.go
@@ -7,6 +7,8 @@ import (
 	"fmt"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 const (
@@ -29,6 +31,8 @@ type TagName string
 
 func (g *TagName) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var tagNameBytes []byte
+
+	reader = binutils.NewBinaryReader(common.FullReader(reader)) // short reads are errors
 	if tagNameBytes, err = reader.ReadBytesCount(tagNameLen); err != nil {
 		return fmt.Errorf("%w: tag name: read: %v", Error, err)
 	}
diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 8096b2d..47574cd 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet16 identifies Set16 related errors.
@@ -91,7 +93,7 @@ func (set16 *Set16) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint16  uint16
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r)) // short reads are errors
 	if expectedLen, err = reader.ReadUint16(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet16, err)
 	}
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index c0132fe..0bbffdb 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet8 identifies Set8 related errors.
@@ -91,7 +93,7 @@ func (set8 *Set8) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r)) // short reads are errors
 	if expectedLen, err = reader.ReadUint8(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet8, err)
 	}
-- 
2.43.0


From c28e2bed220b1211b9a6c051b6ecb78791a974bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 06/30] fix: fill the new item before another goroutine can
 reallocate the items list

---
 internal/index/items.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/index/items.go b/internal/index/items.go
index c8d786f..e216b91 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -72,7 +72,8 @@ func (items *Items) Extend(count int) {
 }
 
 func (items *Items) NewChild(parentID dag.ID, letter rune) Item {
-	items.mu.Lock() // lock items to ensure nextID will not be taken by another goroutine
+	items.mu.Lock()         // lock items to ensure nextID will not be taken by another goroutine
+	defer items.mu.Unlock() // new item must be filled before list could be extended by another goroutine
 
 	nextID := items.NextID()
 	currentLen := len(items.items)
@@ -94,7 +95,6 @@ func (items *Items) NewChild(parentID dag.ID, letter rune) Item {
 	}
 
 	items.nextID += 1
-	items.mu.Unlock() // free items as nextID successfully acquired and list extended
 
 	items.items[nextID].ID = nextID
 	items.items[nextID].Parent = parentID
-- 
2.43.0


From 4afe8992b9e41519cff26151777f411120aa5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 07/30] fix: lookups do not write into the children map

---
 internal/index/idx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 5ff037b..fb952e8 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -338,7 +338,7 @@ func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, e
 
 	for {
 		firstRune := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
+		childrenIDMap := index.childrenMap[currentParentID] // lookup must not modify index
 		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
 			node = index.GetItem(currentParentID)
 			if node == nil {
@@ -371,7 +371,7 @@ func (index *Index) FetchFromItem(parentID dag.ID, runes []rune) (dag.Node, erro
 
 	for {
 		firstRune := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
+		childrenIDMap := index.childrenMap[currentParentID] // lookup must not modify index
 		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
 			node := index.GetItem(currentParentID)
 			if node == nil {
-- 
2.43.0


From 49d1a7acd03dd85f4c1fc9369504700117b4662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 08/30] fix: loaded index has exactly the words of its image

---
 internal/index/idx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index fb952e8..764baaf 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -204,9 +204,14 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 }
 
 func (index *Index) rebuildChildrenIndex() {
+	index.childrenMap = make(map[dag.ID]dag.IdMap) // forget whatever was indexed before loading
+	index.wordsCount = 0
 	index.GetChildrenIDMap(0)
 	for idx, item := range index.items.items {
 		nodeID := dag.ID(idx)
+		if nodeID == 0 {
+			continue // root placeholder is not a child of anything
+		}
 		index.GetChildrenIDMap(item.Parent)
 		index.GetChildrenIDMap(nodeID)
 		index.childrenMap[item.Parent][item.Letter] = nodeID
-- 
2.43.0


From 5fe25e8fa918c8af7bc7bbf33990b0be478a1cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 09/30] fix: adding an empty tag set does not attribute
 somebody else's tag set

---
 internal/index/node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/index/node.go b/internal/index/node.go
index 0d4ca69..38a6206 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -51,6 +51,11 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 
 func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	var found bool
+
+	if len(newTagSet) == 0 {
+		return nil // no tags means no data, zero TagSetID belongs to real tag set
+	}
+
 	tagSet := make(TagSet, len(newTagSet))
 	for idx, tagName := range newTagSet {
 		tagSet[idx], found = node.index.tags.Find(tagName)
-- 
2.43.0


From 3e328318708ac3a93668f6ecaa1ec148e5b356f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 10/30] fix: unknown variant id is an error, not a panic

---
 internal/index/idx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 764baaf..95edba9 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -583,5 +583,11 @@ func (index *Index) Optimize() {
 
 // Variants returns TagSet collection
 func (index *Index) Variants(id VariantID) (tagSetCollection TagSetIDCollection, err error) {
+	tableNumber := int(id.TableNum())
+	if tableNumber > len(index.collectionIdx) ||
+		tableNumber > 0 && int(id.CollectionTableID()) >= len(index.collectionIdx[tableNumber-1]) {
+		return nil, fmt.Errorf("%w: no such variant: %d", Error, id)
+	}
+
 	return index.collectionIdx.Get(id), err
 }
-- 
2.43.0


From daea041bbcd3e28c5126b669b10a4967ccc9a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 11/30] fix: root node and multibyte letters do not break node
 methods

---
 internal/index/node.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/index/node.go b/internal/index/node.go
index 38a6206..430ccc5 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -31,6 +31,10 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 	)
 
 	item = node.index.getItem(node.id)
+	if item == nil {
+		return make([]dag.TagSet, 0) // root has no own data
+	}
+
 	collection = node.index.collectionIdx.Get(item.Variants)
 	res = make([]dag.TagSet, collection.Len())
 
@@ -65,6 +69,10 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	}
 
 	item := node.index.getItem(node.id)
+	if item == nil {
+		return fmt.Errorf("%w: add tag set: no item: %v", Error, node.id)
+	}
+
 	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
 	if item.Variants == 0 {
 		node.index.wordsCount++
@@ -98,7 +106,13 @@ func (node *Node) String() string {
 	item := node.index.getItem(node.id)
 	w := node.Word()
 
-	return "Node(" + w[:len(w)-1] + "[" + string(item.Letter) + "]" + item.String()[1:] + ")"
+	if item == nil {
+		return "Node(" + w + ")"
+	}
+
+	letter := string(item.Letter) // could be more than one byte long
+
+	return "Node(" + w[:len(w)-len(letter)] + "[" + letter + "]" + item.String()[len(letter):] + ")"
 }
 
 func newNode(index *Index, id dag.ID) *Node {
-- 
2.43.0


From 3f8f442a031f5043a14b4871998f8e26a48ebac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 12/30] fix: TableIDs returns identifiers Get understands

---
 internal/index/tagset_index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index de4d2e6..ec78978 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -128,7 +128,7 @@ func (tagSetIndex TagSetIndex) TableIDs() (res []TagSetID) {
 	res = make([]TagSetID, 0)
 	for tableIDx, table := range tagSetIndex {
 		for idxInTable := range table {
-			tableID := TagSetTableNumber(tableIDx).Add(1).TagSetID(TagSetSubID(idxInTable))
+			tableID := TagSetTableNumber(tableIDx).TagSetID(TagSetSubID(idxInTable))
 			res = append(res, tableID)
 		}
 	}
-- 
2.43.0


From 040ca8424ba6026637604f704f9c4b053474e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 13/30] fix: inaccessible downloaded file is an error, not a
 panic

---
 pkg/opencorpora/loader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 9ed9735..3429d76 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -129,6 +129,12 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 		return true, nil // no file, update required
 	}
 
+	if err != nil {
+		loader.Warnf("file access: %v: %v", expectedFile, err)
+
+		return false, err // cant compare with inaccessible file
+	}
+
 	loader.Debugf("check remote %v", RemoteURL)
 	response, err := http.Head(RemoteURL)
 	if err != nil {
-- 
2.43.0


From 189c50bb8e86e8342ad0436a19bf4cb6852a0c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 14/30] fix: create the data path loader is configured with

---
 pkg/opencorpora/loader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 3429d76..f936e68 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -174,7 +174,7 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, nil
 	}
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return false, err
 	}
 
@@ -216,7 +216,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 		target     io.WriteCloser
 	)
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 9465ddb438e252decdf1697e5b6d8f648b90d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 15/30] fix: failed download, unpack or save keeps the previous
 file

---
 pkg/opencorpora/const.go  |  2 ++
 pkg/opencorpora/loader.go | 42 +++++++++++++++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/pkg/opencorpora/const.go b/pkg/opencorpora/const.go
index 58b8a02..0c6e2c2 100644
--- a/pkg/opencorpora/const.go
+++ b/pkg/opencorpora/const.go
@@ -6,4 +6,6 @@ const (
 	LocalSourceFilename   = "dict.xml.bz2"
 	LocalUnpackedFilename = "dict.xml"
 	LocalCompiledFilename = "opencorpora.dat"
+
+	partSuffix = ".part" // incomplete files name suffix
 )
diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index f936e68..3f14047 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -190,8 +190,13 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		}
 	}()
 
+	if response.StatusCode != http.StatusOK {
+		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
+	}
+
 	// Create a empty file
-	file, err := os.Create(loader.downloadedFilePath())
+	partFile := loader.downloadedFilePath() + partSuffix
+	file, err := os.Create(partFile)
 	if err != nil {
 		return false, err
 	}
@@ -206,6 +211,15 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, err
 	}
 
+	if err = file.Close(); err != nil {
+		return false, err
+	}
+
+	// replace previous file only with completely downloaded one
+	if err = os.Rename(partFile, loader.downloadedFilePath()); err != nil {
+		return false, err
+	}
+
 	return true, nil
 }
 
@@ -228,7 +242,8 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	bzipSource = bzip2.NewReader(source)
 
-	if target, err = os.Create(loader.unpackedFilePath()); err != nil {
+	partFile := loader.unpackedFilePath() + partSuffix
+	if target, err = os.Create(partFile); err != nil {
 		return err
 	}
 
@@ -238,6 +253,15 @@ func (loader Loader) UnpackUpdate() (err error) {
 		return err
 	}
 
+	if err = target.Close(); err != nil {
+		return err
+	}
+
+	// replace previous file only with completely unpacked one
+	if err = os.Rename(partFile, loader.unpackedFilePath()); err != nil {
+		return err
+	}
+
 	return nil
 }
 
@@ -280,7 +304,8 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 
 	loader.Info("save compiled index")
 
-	if writer, err = binutils.CreateFile(toFile); err != nil {
+	partFile := toFile + partSuffix
+	if writer, err = binutils.CreateFile(partFile); err != nil {
 		return fmt.Errorf("%w: create index: %v", Error, err)
 	}
 
@@ -293,7 +318,7 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 		if err != nil {
 			loader.Error(err.Error())
 
-			if removeErr := os.Remove(toFile); removeErr != nil {
+			if removeErr := os.Remove(partFile); removeErr != nil {
 				loader.Warnf("remove incomplete index: %v", removeErr)
 			}
 		} else {
@@ -309,6 +334,15 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 		return fmt.Errorf("%w: save index: %v", Error, err)
 	}
 
+	if err = writer.Close(); err != nil {
+		return fmt.Errorf("%w: close index: %v", Error, err)
+	}
+
+	// replace previous index only with completely saved one
+	if err = os.Rename(partFile, toFile); err != nil {
+		return fmt.Errorf("%w: replace index: %v", Error, err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From c97cd41a35bb786ceb5bbfe18ba4276d72f08395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 16/30] fix: update finishes what an interrupted update left
 undone

---
 pkg/opencorpora/loader.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 3f14047..8915693 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -118,6 +118,18 @@ func (loader Loader) IsUnpackedExists() bool {
 	}
 }
 
+// isActual returns true if file exists and is not older than the file it was made from.
+func (loader Loader) isActual(madeFile string, sourceFile string) bool {
+	madeStat, err := os.Stat(madeFile)
+	if err != nil {
+		return false // nothing made
+	}
+
+	sourceStat, err := os.Stat(sourceFile)
+
+	return err != nil || !madeStat.ModTime().Before(sourceStat.ModTime())
+}
+
 func (loader Loader) IsUpdateRequired() (bool, error) {
 	loader.Info("check if update required")
 	expectedFile := loader.downloadedFilePath()
@@ -375,9 +387,10 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 	updateRequired, err = loader.IsUpdateRequired()
 	downloadedExists = loader.IsDownloadExists()
 	unpackedExists = loader.IsUnpackedExists()
+	unpackedActual := unpackedExists && loader.isActual(loader.unpackedFilePath(), loader.downloadedFilePath())
 
 	switch {
-	case err != nil && forceRecompile && unpackedExists:
+	case err != nil && forceRecompile && unpackedActual:
 		loader.Errorf("check update: %v, force recompile using previous unpacked file", err)
 		goto compile
 	case err != nil && forceRecompile && downloadedExists:
@@ -389,11 +402,16 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 	case !updateRequired:
 		loader.Info("lemmata up to date")
 
-		if forceRecompile {
+		if forceRecompile && unpackedActual {
 			loader.Info("do recompile as force update required")
 			goto compile
 		}
 
+		if forceRecompile || !loader.isActual(loader.compiledFilePath(), loader.downloadedFilePath()) {
+			loader.Info("unpacked or compiled file is missed or outdated")
+			goto unpack
+		}
+
 		return nil
 
 	default:
-- 
2.43.0


From 02b6070c3eecdbfd585dcf810558d78133853f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 17/30] fix: grammeme name split into parts is not cut to its
 last part

---
 pkg/opencorpora/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index b1f917a..4ec7f1a 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -216,7 +216,7 @@ func (parser *Parser) onGrammemeName() *elementProcessor {
 	return &elementProcessor{
 		processStart: ignoreElementStart,
 		processData: func(data string) error {
-			parser.currentGrammeme.Name = dag.TagName(data)
+			parser.currentGrammeme.Name += dag.TagName(data) // character data could be split by comments
 			return nil
 		},
 		processEnd: ignoreElementEnd,
-- 
2.43.0


From 39ae2c58c1392ee5e1469edd8fb2e207a1687757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:22 +0000
Subject: [PATCH 18/30] fix: damaged downloaded file does not block all further
 updates

---
 pkg/opencorpora/loader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 8915693..be74680 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -262,6 +262,16 @@ func (loader Loader) UnpackUpdate() (err error) {
 	defer func() { _ = target.Close() }()
 
 	if _, err = io.Copy(target, bzipSource); err != nil { // nolint:gosec
+		var structuralErr bzip2.StructuralError
+
+		if errors.As(err, &structuralErr) || errors.Is(err, io.ErrUnexpectedEOF) {
+			loader.Warnf("downloaded file is damaged, remove it to download again: %v", err)
+
+			if removeErr := os.Remove(loader.downloadedFilePath()); removeErr != nil {
+				loader.Warnf("remove damaged file: %v", removeErr)
+			}
+		}
+
 		return err
 	}
 
-- 
2.43.0


From 6c75916959d378043a045dbd574181988d0cc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 19/30] fix: inaccessible source file does not make an outdated
 file actual

---
 pkg/opencorpora/loader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index be74680..31fda84 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -126,8 +126,11 @@ func (loader Loader) isActual(madeFile string, sourceFile string) bool {
 	}
 
 	sourceStat, err := os.Stat(sourceFile)
+	if err != nil {
+		return errors.Is(err, os.ErrNotExist) // cant say anything about inaccessible source
+	}
 
-	return err != nil || !madeStat.ModTime().Before(sourceStat.ModTime())
+	return !madeStat.ModTime().Before(sourceStat.ModTime())
 }
 
 func (loader Loader) IsUpdateRequired() (bool, error) {
-- 
2.43.0


From eedac1216e4e70b3fdcb91c871c368eec5c627b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 20/30] fix: file without a complete dictionary is not imported
 as an empty one

---
 pkg/opencorpora/loader.go | 4 ++++
 pkg/opencorpora/parser.go | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 31fda84..3ea5b72 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -389,6 +389,10 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		return fmt.Errorf("parse: %w", err)
 	}
 
+	if err == nil && !parser.finished {
+		return fmt.Errorf("%w: parse: no complete dictionary in %v", Error, fromFile)
+	}
+
 	return loader.SaveIndex(mainIndex, toFile)
 }
 
diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index 4ec7f1a..9683e01 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -50,6 +50,9 @@ type Parser struct {
 	// max forms to parse.
 	// If !=0 parser will be stopped with ErrControlledStop after maximum maxLemmas lemmas forms parsing.
 	maxLemmas int
+
+	// finished is set when dictionary element is read completely.
+	finished bool
 }
 
 func newParser(indexInstance dag.Index) *Parser {
@@ -186,7 +189,10 @@ func (parser *Parser) onDictionary() *elementProcessor {
 			return parser.dictionary.processElem(parser, element)
 		},
 		processData: ignoreElementData,
-		processEnd:  nil,
+		processEnd: func(element xml.EndElement) error {
+			parser.finished = true
+			return nil
+		},
 	}
 }
 
-- 
2.43.0


From 338721311755aba720668bff3065076038f6703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 21/30] fix: simultaneous updates do not write into the same
 incomplete file

---
 pkg/opencorpora/loader.go | 52 +++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 3ea5b72..9b501aa 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -68,6 +68,26 @@ func (loader Loader) compiledFilePath() string {
 	return loader.filePath(LocalCompiledFilename)
 }
 
+// createPart creates an incomplete file to be renamed to specified target file when completed.
+// Every call creates a file of its own as another process could make the same target file at the same time.
+func (loader Loader) createPart(targetFile string) (partFile string, file *os.File, err error) {
+	for attempt := 0; ; attempt++ {
+		partFile = fmt.Sprintf("%s.%d%s", targetFile, attempt, partSuffix)
+		file, err = os.OpenFile(partFile, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+
+		if !errors.Is(err, os.ErrExist) {
+			return partFile, file, err
+		}
+	}
+}
+
+// removePart removes an incomplete file.
+func (loader Loader) removePart(partFile string) {
+	if err := os.Remove(partFile); err != nil {
+		loader.Warnf("remove incomplete file: %v", err)
+	}
+}
+
 // IsDownloadExists returns true if downloaded file exists at expected path.
 func (loader Loader) IsDownloadExists() bool {
 	loader.Info("check if downloaded file exists")
@@ -210,8 +230,7 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 	}
 
 	// Create a empty file
-	partFile := loader.downloadedFilePath() + partSuffix
-	file, err := os.Create(partFile)
+	partFile, file, err := loader.createPart(loader.downloadedFilePath())
 	if err != nil {
 		return false, err
 	}
@@ -220,6 +239,10 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		if file != nil {
 			_ = file.Close()
 		}
+
+		if err != nil {
+			loader.removePart(partFile)
+		}
 	}()
 
 	if _, err = io.Copy(file, response.Body); err != nil {
@@ -242,7 +265,6 @@ func (loader Loader) UnpackUpdate() (err error) {
 	var (
 		source     io.ReadCloser
 		bzipSource io.Reader
-		target     io.WriteCloser
 	)
 
 	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
@@ -257,12 +279,18 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	bzipSource = bzip2.NewReader(source)
 
-	partFile := loader.unpackedFilePath() + partSuffix
-	if target, err = os.Create(partFile); err != nil {
+	partFile, target, err := loader.createPart(loader.unpackedFilePath())
+	if err != nil {
 		return err
 	}
 
-	defer func() { _ = target.Close() }()
+	defer func() {
+		_ = target.Close()
+
+		if err != nil {
+			loader.removePart(partFile)
+		}
+	}()
 
 	if _, err = io.Copy(target, bzipSource); err != nil { // nolint:gosec
 		var structuralErr bzip2.StructuralError
@@ -325,15 +353,15 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 }
 
 func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err error) {
-	var writer *binutils.BinaryWriter
-
 	loader.Info("save compiled index")
 
-	partFile := toFile + partSuffix
-	if writer, err = binutils.CreateFile(partFile); err != nil {
+	partFile, file, err := loader.createPart(toFile)
+	if err != nil {
 		return fmt.Errorf("%w: create index: %v", Error, err)
 	}
 
+	writer := binutils.NewBinaryWriter(file)
+
 	defer func() {
 		loader.Debugf("finishing %v", toFile)
 		if closeErr := writer.Close(); err != nil {
@@ -343,9 +371,7 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 		if err != nil {
 			loader.Error(err.Error())
 
-			if removeErr := os.Remove(partFile); removeErr != nil {
-				loader.Warnf("remove incomplete index: %v", removeErr)
-			}
+			loader.removePart(partFile)
 		} else {
 			loader.Infof("compiled index saved at %v", toFile)
 		}
-- 
2.43.0


From 35d3262674442e952d3fa5995222ff330b6e9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 22/30] fix: update finishes what another update downloaded

---
 pkg/opencorpora/loader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 9b501aa..0a7f703 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -467,11 +467,13 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 	case err != nil:
 		loader.Errorf("download: %v", err)
 		return err
-	case !updated:
+	case updated:
+		loader.Info("downloaded, unpacking")
+	case loader.isActual(loader.compiledFilePath(), loader.downloadedFilePath()):
 		loader.Warn("files not updated, no errors")
 		return nil
 	default:
-		loader.Info("downloaded, unpacking")
+		loader.Info("downloaded by another update, unpacking")
 	}
 unpack:
 	err = loader.UnpackUpdate()
-- 
2.43.0


From ef3bffd21d5194693da7bd504f22914d4285138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 23/30] fix: variant ids below those of the first table are
 unknown

---
 internal/index/idx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 95edba9..e743093 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -584,7 +584,7 @@ func (index *Index) Optimize() {
 // Variants returns TagSet collection
 func (index *Index) Variants(id VariantID) (tagSetCollection TagSetIDCollection, err error) {
 	tableNumber := int(id.TableNum())
-	if tableNumber > len(index.collectionIdx) ||
+	if tableNumber == 0 && id != 0 || tableNumber > len(index.collectionIdx) ||
 		tableNumber > 0 && int(id.CollectionTableID()) >= len(index.collectionIdx[tableNumber-1]) {
 		return nil, fmt.Errorf("%w: no such variant: %d", Error, id)
 	}
-- 
2.43.0


From 930bb8443e11e2b3f48b14fd0904937ca7036c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 24/30] fix: a directory in place of the compiled index passed
 as an up to date index

---
 pkg/opencorpora/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 0a7f703..dbd6de8 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -141,7 +141,7 @@ func (loader Loader) IsUnpackedExists() bool {
 // isActual returns true if file exists and is not older than the file it was made from.
 func (loader Loader) isActual(madeFile string, sourceFile string) bool {
 	madeStat, err := os.Stat(madeFile)
-	if err != nil {
+	if err != nil || madeStat.IsDir() {
 		return false // nothing made
 	}
 
-- 
2.43.0


From fb57d1026d317786a360abd9aa8b63d42c9be4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 25/30] fix: tags of word forms lost when a dictionary is
 decoded into its structures

---
 pkg/opencorpora/form_item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/opencorpora/form_item.go b/pkg/opencorpora/form_item.go
index 8bd45ef..008be5c 100644
--- a/pkg/opencorpora/form_item.go
+++ b/pkg/opencorpora/form_item.go
@@ -9,7 +9,7 @@ import (
 // WordForm provides word form and categories list.
 type WordForm struct {
 	Form string       `xml:"t,attr"`
-	G    CategoryList `xml:"grammemes"`
+	G    CategoryList `xml:"g"`
 }
 
 func newWordForm() *WordForm {
-- 
2.43.0


From 586964906b106985790c2746de93aaf9840edde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 26/30] fix: damaged list of index items loaded, words of it
 recursed without end

---
 internal/index/items.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/index/items.go b/internal/index/items.go
index e216b91..f6a975b 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -33,14 +33,29 @@ func (items *Items) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 		return err
 	}
 
-	items.nextID = dag.ID(itemListLen)
-	items.items = make([]Item, int(itemListLen))
+	if itemListLen == 0 {
+		return fmt.Errorf("%w: items: read: no root placeholder", Error)
+	}
+
+	loaded := make([]Item, 0) // length is not trusted until items are read
 	for idx := 0; idx < int(itemListLen); idx++ {
-		if err = items.items[idx].BinaryReadFrom(reader); err != nil {
+		var item Item
+
+		if err = item.BinaryReadFrom(reader); err != nil {
 			return err
 		}
+
+		// items follow their parents in order of id, the only item having no parent is an empty root placeholder
+		if item.ID != dag.ID(idx) || item.Parent >= item.ID && item != (Item{}) {
+			return fmt.Errorf("%w: items: read: unexpected item %d at %d", Error, item.ID, idx)
+		}
+
+		loaded = append(loaded, item)
 	}
 
+	items.nextID = dag.ID(itemListLen)
+	items.items = loaded
+
 	return nil
 }
 
-- 
2.43.0


From 13b27bc09e737d34431c6da114533959253a09e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 27/30] fix: lengths of damaged tag sets and combinations lists
 trusted, loading took all memory

---
 internal/index/tagset_index.go  | 8 ++++++--
 internal/index/variant_table.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index ec78978..d7a9ae0 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -71,11 +71,15 @@ func (tagSetIndex *TagSetIndex) BinaryReadFrom(reader *binutils.BinaryReader) (e
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-	*tagSetIndex = make(TagSetIndex, tagSetIndexLen)
+	*tagSetIndex = make(TagSetIndex, 0) // length is not trusted until tables are read
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
-		if err = (*tagSetIndex)[idx].BinaryReadFrom(reader); err != nil {
+		var tagSetTable TagSetTable
+
+		if err = tagSetTable.BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
+
+		*tagSetIndex = append(*tagSetIndex, tagSetTable)
 	}
 
 	return nil
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index d81cdc0..4b14427 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -38,11 +38,15 @@ func (variantsTable *VariantsTable) BinaryReadFrom(reader *binutils.BinaryReader
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-	*variantsTable = make(VariantsTable, tagSetIndexLen)
+	*variantsTable = make(VariantsTable, 0) // length is not trusted until collections are read
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
-		if err = (*variantsTable)[idx].BinaryReadFrom(reader); err != nil {
+		var collection TagSetIDCollection
+
+		if err = collection.BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
+
+		*variantsTable = append(*variantsTable, collection)
 	}
 
 	return nil
-- 
2.43.0


From 45ee09563e81f38380f7565d187cf8df0fa494ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 28/30] fix: index data refering to nothing loaded, a failed
 load left the index half replaced

---
 internal/index/idx.go | 56 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index e743093..2bb8181 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -221,7 +221,40 @@ func (index *Index) rebuildChildrenIndex() {
 	}
 }
 
+// verify checks loaded data refers to known data only and every loaded item could be found.
+// Used from BinaryReadFrom.
+func (index *Index) verify() error {
+	for _, item := range index.items.items {
+		if _, err := index.Variants(item.Variants); err != nil {
+			return err
+		}
+	}
+	for _, table := range index.collectionIdx {
+		for _, collection := range table {
+			for _, tagSetID := range collection {
+				tagSet, found := index.tagSets.Get(tagSetID)
+				if !found {
+					return fmt.Errorf("%w: no such tag set: %d", Error, tagSetID)
+				}
+				if _, err := index.TagSet(tagSet); err != nil {
+					return err
+				}
+			}
+		}
+	}
+	found := 0
+	for _, children := range index.childrenMap {
+		found += len(children)
+	}
+	if found != index.NodesCount() {
+		return fmt.Errorf("%w: %d of %d items could be found", Error, found, index.NodesCount())
+	}
+
+	return nil
+}
+
 // BinaryReadFrom reads index data from specified binutils.BinaryReader.
+// Index is left as it was if reading fails.
 // Implements binutils.BinaryReaderFrom.
 func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	index.mu.Lock()
@@ -229,20 +262,33 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 
 	reader = binutils.NewBinaryReader(common.FullReader(reader)) // short reads are errors
 
-	if err = index.readTagsDefinitions(reader); err != nil {
+	loaded := New()
+
+	if err = loaded.readTagsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: tags: %v", Error, err)
 	}
-	if err = index.readTagSetsDefinitions(reader); err != nil {
+	if err = loaded.readTagSetsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: tags: %v", Error, err)
 	}
-	if err = index.readCollectionsDefinitions(reader); err != nil {
+	if err = loaded.readCollectionsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: collections index: %v", Error, err)
 	}
-	if err = index.readItemsDefinitions(reader); err != nil {
+	if err = loaded.readItemsDefinitions(reader); err != nil {
 		return err
 	}
 
-	index.rebuildChildrenIndex()
+	loaded.rebuildChildrenIndex()
+
+	if err = loaded.verify(); err != nil {
+		return fmt.Errorf("%w: read: %v", Error, err)
+	}
+
+	index.tags = loaded.tags
+	index.tagSets = loaded.tagSets
+	index.collectionIdx = loaded.collectionIdx
+	index.items = loaded.items
+	index.childrenMap = loaded.childrenMap
+	index.wordsCount = loaded.wordsCount
 
 	return nil
 }
-- 
2.43.0


From aae306c10ebb945de10fc5ab446f490830371030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 29/30] fix: damaged tags, tag sets and combinations loaded,
 adding known tags and optimizing changed answers

---
 internal/index/idx.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 2bb8181..988d0d0 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -229,9 +229,29 @@ func (index *Index) verify() error {
 			return err
 		}
 	}
-	for _, table := range index.collectionIdx {
+	for idx, tag := range index.tags {
+		if tagID, _ := index.tags.Find(tag.Name); tagID != dag.TagID(idx) {
+			return fmt.Errorf("%w: repeated tag: %v", Error, tag.Name)
+		}
+	}
+	for tableIdx, table := range index.tagSets {
+		known := make(map[string]bool, len(table))
+		for _, tagSet := range table {
+			if len(tagSet) != tableIdx+1 || !sort.IsSorted(tagSet) || known[tagSet.String()] {
+				return fmt.Errorf("%w: repeated, unordered or misplaced tag set: %v", Error, tagSet)
+			}
+			known[tagSet.String()] = true
+		}
+	}
+	for tableIdx, table := range index.collectionIdx {
 		for _, collection := range table {
-			for _, tagSetID := range collection {
+			if len(collection) != tableIdx+1 {
+				return fmt.Errorf("%w: misplaced collection: %v", Error, collection)
+			}
+			for idx, tagSetID := range collection {
+				if idx > 0 && tagSetID <= collection[idx-1] {
+					return fmt.Errorf("%w: repeated or unordered tag sets: %v", Error, collection)
+				}
 				tagSet, found := index.tagSets.Get(tagSetID)
 				if !found {
 					return fmt.Errorf("%w: no such tag set: %d", Error, tagSetID)
-- 
2.43.0


From aaa6b6030fa9feb2a3ada0be32b29c801d8672b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:02 +0000
Subject: [PATCH 30/30] fix: dictionary published while another was downloaded
 or compiled was missed by later updates

---
 pkg/opencorpora/loader.go | 51 +++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index dbd6de8..29bc8c7 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -81,6 +81,18 @@ func (loader Loader) createPart(targetFile string) (partFile string, file *os.Fi
 	}
 }
 
+// replaceByPart puts a completed file in place of specified target file.
+// The file gets modification time of its source to tell what it was made from, zero time leaves its own one.
+func (loader Loader) replaceByPart(partFile string, targetFile string, modified time.Time) error {
+	if !modified.IsZero() {
+		if err := os.Chtimes(partFile, modified, modified); err != nil {
+			return err
+		}
+	}
+
+	return os.Rename(partFile, targetFile)
+}
+
 // removePart removes an incomplete file.
 func (loader Loader) removePart(partFile string) {
 	if err := os.Remove(partFile); err != nil {
@@ -138,7 +150,7 @@ func (loader Loader) IsUnpackedExists() bool {
 	}
 }
 
-// isActual returns true if file exists and is not older than the file it was made from.
+// isActual returns true if file exists and was made from the source file in place, having its modification time.
 func (loader Loader) isActual(madeFile string, sourceFile string) bool {
 	madeStat, err := os.Stat(madeFile)
 	if err != nil || madeStat.IsDir() {
@@ -150,7 +162,7 @@ func (loader Loader) isActual(madeFile string, sourceFile string) bool {
 		return errors.Is(err, os.ErrNotExist) // cant say anything about inaccessible source
 	}
 
-	return !madeStat.ModTime().Before(sourceStat.ModTime())
+	return madeStat.ModTime().Equal(sourceStat.ModTime())
 }
 
 func (loader Loader) IsUpdateRequired() (bool, error) {
@@ -253,8 +265,11 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, err
 	}
 
+	// what is downloaded could become outdated while downloading, its age is that of remote file
+	modified, _ := time.Parse(time.RFC1123, response.Header.Get(common.HTTPHeaderLastModified))
+
 	// replace previous file only with completely downloaded one
-	if err = os.Rename(partFile, loader.downloadedFilePath()); err != nil {
+	if err = loader.replaceByPart(partFile, loader.downloadedFilePath(), modified); err != nil {
 		return false, err
 	}
 
@@ -263,7 +278,8 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 
 func (loader Loader) UnpackUpdate() (err error) {
 	var (
-		source     io.ReadCloser
+		source     *os.File
+		sourceStat os.FileInfo
 		bzipSource io.Reader
 	)
 
@@ -277,6 +293,10 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	defer func() { _ = source.Close() }()
 
+	if sourceStat, err = source.Stat(); err != nil {
+		return err
+	}
+
 	bzipSource = bzip2.NewReader(source)
 
 	partFile, target, err := loader.createPart(loader.unpackedFilePath())
@@ -311,7 +331,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 	}
 
 	// replace previous file only with completely unpacked one
-	if err = os.Rename(partFile, loader.unpackedFilePath()); err != nil {
+	if err = loader.replaceByPart(partFile, loader.unpackedFilePath(), sourceStat.ModTime()); err != nil {
 		return err
 	}
 
@@ -353,6 +373,11 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 }
 
 func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err error) {
+	return loader.saveIndex(mainIndex, toFile, time.Time{})
+}
+
+// saveIndex saves compiled index made from a source having specified modification time.
+func (loader *Loader) saveIndex(mainIndex *index.Index, toFile string, modified time.Time) (err error) {
 	loader.Info("save compiled index")
 
 	partFile, file, err := loader.createPart(toFile)
@@ -390,7 +415,7 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 	}
 
 	// replace previous index only with completely saved one
-	if err = os.Rename(partFile, toFile); err != nil {
+	if err = loader.replaceByPart(partFile, toFile, modified); err != nil {
 		return fmt.Errorf("%w: replace index: %v", Error, err)
 	}
 
@@ -410,6 +435,13 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		}
 	}()
 
+	var modified time.Time
+
+	sourceStat, err := os.Stat(fromFile)
+	if err != nil {
+		return fmt.Errorf("parse: %w", err)
+	}
+
 	err = libxml.ParseXMLFile(fromFile, parser)
 	if err != nil && !errors.Is(err, ErrControlledStop) {
 		return fmt.Errorf("parse: %w", err)
@@ -419,7 +451,12 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		return fmt.Errorf("%w: parse: no complete dictionary in %v", Error, fromFile)
 	}
 
-	return loader.SaveIndex(mainIndex, toFile)
+	// what was read is unknown if file was replaced meanwhile
+	if currentStat, err := os.Stat(fromFile); err == nil && os.SameFile(sourceStat, currentStat) {
+		modified = sourceStat.ModTime()
+	}
+
+	return loader.saveIndex(mainIndex, toFile, modified)
 }
 
 func (loader Loader) Update(forceRecompile bool) (err error) {
-- 
2.43.0

