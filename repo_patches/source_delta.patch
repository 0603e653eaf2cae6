From 7da7b1ae36c5d1114777e3b6a6ba3d664f9aa52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:07 +0000
Subject: [PATCH 01/32] fix: armored text with a line over 64 kB around the
 block was refused

---
 armtext/armtext.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/armtext/armtext.go b/armtext/armtext.go
index 957941a..5c968d6 100644
--- a/armtext/armtext.go
+++ b/armtext/armtext.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -22,6 +23,7 @@ func Get(r io.Reader) (*bytes.Buffer, error) {
 	armorFlag := false
 	armorEndFlag := false
 	scn := bufio.NewScanner(r)
+	scn.Buffer(nil, math.MaxInt32) //text around the armor block may have lines of any length
 	for scn.Scan() {
 		str := scn.Text()
 		if !armorFlag {
-- 
2.43.0


From 05a9b395052ed203fddf2870a26e48eb87a9c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:08 +0000
Subject: [PATCH 02/32] fix: read errors of binary input were swallowed and the
 input cut short

---
 parse/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parse/parser.go b/parse/parser.go
index 6af8a24..3e08ef3 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -31,10 +31,13 @@ func New(cxt *context.Context, reader io.Reader) (*Parser, error) {
 	case cxt.Armor():
 		r, err = newReaderArmor(reader)
 	default:
-		buf := &bytes.Buffer{}
-		r, err = newReaderArmor(io.TeeReader(reader, buf))
+		data, e := io.ReadAll(reader)
+		if e != nil {
+			return nil, errs.Wrap(e)
+		}
+		r, err = newReaderArmor(bytes.NewReader(data))
 		if err != nil {
-			r, err = buf, nil
+			r, err = bytes.NewReader(data), nil
 		}
 	}
 	if err != nil {
-- 
2.43.0


From b448ee331eddeb321d1d82550dde33cc0209edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:10 +0000
Subject: [PATCH 03/32] fix: a truncated version 3 signature was listed without
 error

---
 parse/tags/tag02.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 8bf520d..ece8753 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -48,7 +48,7 @@ func (t *tag02) Parse() (*result.Item, error) {
 		if version.Number() == 3 {
 			_, err2 := t.parseV3(rootInfo)
 			if err2 != nil {
-				return rootInfo, errs.Wrap(err)
+				return rootInfo, errs.Wrap(err2)
 			}
 		}
 	}
-- 
2.43.0


From 818a03aa511b29c37805a76c9b0e1e6386e5f80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:12 +0000
Subject: [PATCH 04/32] fix: panic on a version 5 secret key cut before the key
 material count

---
 parse/tags/seckey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 1884833..4dad0f6 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -175,10 +175,10 @@ func (p *seckeyInfo) getField1() (*reader.Reader, error) {
 func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 	if p.pubVer.Number() == 5 {
 		l, err := p.reader.ReadBytes(4)
-		ll := binary.BigEndian.Uint32(l)
 		if err != nil {
 			return nil, errs.New("illegal length of key materia", errs.WithCause(err))
 		}
+		ll := binary.BigEndian.Uint32(l)
 		if ll == 0 {
 			return nil, nil
 		}
-- 
2.43.0


From 83bc87d8b9d434c39d8a51d7c85022c68136f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:14 +0000
Subject: [PATCH 05/32] fix: reading to the end moved the cursor beyond the end
 of the buffer

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index f0bd4c6..9666ab8 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -127,7 +127,7 @@ func (r *Reader) Read2EOF() ([]byte, error) {
 		return nil, errs.Wrap(io.EOF)
 	}
 	b := r.buffer[r.offset:]
-	r.offset += rl
+	r.offset = rl
 	return b, nil
 }
 
-- 
2.43.0


From 58dec43f848b2c4497600e959503d19fc4ac741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:16 +0000
Subject: [PATCH 06/32] fix: panic on a negative or huge read size

A secret key of an unknown algorithm with less than two octets of key
material asked the reader for a negative number of octets.
---
 parse/reader/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index 9666ab8..5533584 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -109,10 +109,13 @@ func (r *Reader) ReadBytes(size int64) ([]byte, error) {
 		return nil, nil
 	}
 	rl := r.Size()
+	if size < 0 {
+		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
+	}
 	if r.offset >= rl {
 		return nil, errs.Wrap(io.EOF, errs.WithContext("size", size))
 	}
-	if r.offset+size > rl {
+	if size > rl-r.offset {
 		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
 	}
 	b := r.buffer[r.offset : r.offset+size]
-- 
2.43.0


From f398a2fdca24737ab300925c8b1959e320d079ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:18 +0000
Subject: [PATCH 07/32] fix: expiry dates after February 2106 wrapped around to
 1970

---
 parse/values/datetime.go | 6 +++---
 parse/values/expire.go   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/values/datetime.go b/parse/values/datetime.go
index c363c63..1a51b0b 100644
--- a/parse/values/datetime.go
+++ b/parse/values/datetime.go
@@ -57,10 +57,10 @@ func (dt *DateTime) RFC3339() string {
 	if dt == nil {
 		return ""
 	}
-	return unixtime2RFC3339(dt.UnixTime(), dt.utcFlag)
+	return unixtime2RFC3339(int64(dt.UnixTime()), dt.utcFlag)
 }
-func unixtime2RFC3339(ut uint32, utcFlag bool) string {
-	t := time.Unix(int64(ut), 0)
+func unixtime2RFC3339(ut int64, utcFlag bool) string {
+	t := time.Unix(ut, 0)
 	if utcFlag {
 		t = t.In(time.UTC)
 	}
diff --git a/parse/values/expire.go b/parse/values/expire.go
index d6cf645..b5e90d3 100644
--- a/parse/values/expire.go
+++ b/parse/values/expire.go
@@ -33,7 +33,7 @@ func (e *Expire) ToItem(name string, dumpFlag bool) *result.Item {
 	start := e.start.UnixTime()
 	var endDay string
 	if start > 0 {
-		endDay = unixtime2RFC3339(start+exp, e.start.utcFlag)
+		endDay = unixtime2RFC3339(int64(start)+int64(exp), e.start.utcFlag)
 	}
 	return result.NewItem(
 		result.Name(name),
-- 
2.43.0


From 18d13f629d4d60ab471b43049e875f86359176ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:54 +0000
Subject: [PATCH 08/32] fix: copying from the reader repeated octets already
 read

---
 parse/reader/reader.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index 5533584..a698e8b 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -51,10 +51,8 @@ func (r *Reader) ReadByte() (byte, error) {
 
 //WriteTo is copying buffer to io.Writer (io.WriterTo compatible)
 func (r *Reader) WriteTo(w io.Writer) (int64, error) {
-	size, err := bytes.NewReader(r.buffer).WriteTo(w)
-	if err == nil {
-		r.offset = r.Size()
-	}
+	size, err := bytes.NewReader(r.buffer[r.offset:]).WriteTo(w)
+	r.offset += size
 	return size, errs.Wrap(err)
 }
 
-- 
2.43.0


From 3092dae613a2be6c700dd9560dd9b6b7f1ca3625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:56 +0000
Subject: [PATCH 09/32] fix: panic on dumping from a negative offset

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index a698e8b..02abe42 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -139,7 +139,7 @@ func (r *Reader) GetBody() []byte {
 
 //DumpString returns string of byte dump (not move offset)
 func (r *Reader) DumpString(off int64) string {
-	if off >= r.Size() {
+	if off < 0 || off >= r.Size() {
 		return ""
 	}
 	data := r.buffer[off:]
-- 
2.43.0


From 913423ca6e2f540944629051eb07a1329b1ec79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:58 +0000
Subject: [PATCH 10/32] fix: the IV of a version 5 secret key was read from
 outside its counted block

---
 parse/tags/seckey.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 4dad0f6..9ad88be 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -81,7 +81,7 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		}
 		//[Optional] If secret data is encrypted (string-to-key usage octet not zero), an Initial Vector (IV) of the same length as the cipher's block size.
 		if usage != 0 && hasIV {
-			iv, err := p.iv(values.SymID(symid), usage == 253)
+			iv, err := p.iv(rOpt, values.SymID(symid), usage == 253)
 			if err != nil {
 				return err
 			}
@@ -192,9 +192,9 @@ func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 }
 
 //iv returns context.Item for Initialization Vector
-func (p *seckeyInfo) iv(symid values.SymID, isAEAD bool) (*result.Item, error) {
+func (p *seckeyInfo) iv(r *reader.Reader, symid values.SymID, isAEAD bool) (*result.Item, error) {
 	sz64 := int64(symid.IVLen())
-	iv, err := p.reader.ReadBytes(sz64)
+	iv, err := r.ReadBytes(sz64)
 	if err != nil {
 		return nil, errs.New(fmt.Sprintf("illegal s2k iv (length: %d bytes)", sz64), errs.WithCause(err))
 	}
-- 
2.43.0


From 6bf7743f1205188219688aff9a30eb0af0120027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:00 +0000
Subject: [PATCH 11/32] fix: legacy secret keys whose s2k usage octet is the
 cipher number lost one octet

---
 parse/tags/seckey.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 9ad88be..10daffb 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -38,7 +38,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 	} else if rOpt != nil {
 		//[Optional] If string-to-key usage octet was 255, 254, or 253, a one-octet symmetric encryption algorithm.
 		var symid values.SymID
-		if usage != 0 { //encrypted secret-key
+		switch usage {
+		case 0:
+		case 253, 254, 255: //encrypted secret-key
 			alg, err := rOpt.ReadByte()
 			if err != nil {
 				return errs.New(
@@ -49,6 +51,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 			}
 			symid = values.SymID(alg)
 			parent.Add(symid.ToItem(p.cxt.Debug()))
+		default: //the usage octet itself is the symmetric encryption algorithm
+			symid = values.SymID(usage)
+			parent.Add(symid.ToItem(p.cxt.Debug()))
 		}
 		//[Optional] If string-to-key usage octet was 253, a one-octet AEAD algorithm.
 		if usage == 253 {
-- 
2.43.0


From aa0217bb05f78a19f2ed3e84f95967f587385de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:02 +0000
Subject: [PATCH 12/32] fix: key flags of the third octet were numbered as the
 second

---
 parse/tags/sub27.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/sub27.go b/parse/tags/sub27.go
index 93ccf0e..c6473c1 100644
--- a/parse/tags/sub27.go
+++ b/parse/tags/sub27.go
@@ -52,7 +52,7 @@ func (s *sub27) Parse() (*result.Item, error) {
 	if s.reader.Rest() > 0 {
 		flags, _ := s.reader.Read2EOF()
 		for i, flag := range flags {
-			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+2, flag)))
+			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+3, flag)))
 		}
 	}
 	return rootInfo, nil
-- 
2.43.0


From 5dc19fc351511b3b2a1e35f05c43dae3c0cea364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:04 +0000
Subject: [PATCH 13/32] fix: an AEAD encrypted data packet cut inside its IV
 was listed without error

---
 parse/tags/tag20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index ba9bb51..2379344 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -59,7 +59,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	//A starting initialization vector of size specified by the AEAD algorithm.
 	iv, err := t.iv(aeadid)
 	if err != nil {
-		return rootInfo, nil
+		return rootInfo, errs.Wrap(err)
 	}
 	rootInfo.Add(iv)
 
-- 
2.43.0


From 61e0fec276d792500ac187de40357f215e2d6ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:06 +0000
Subject: [PATCH 14/32] fix: chunk sizes of 2^64 and more were shown as 0 or as
 a small number

---
 parse/tags/tag20.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index 2379344..d1b48f3 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -2,7 +2,7 @@ package tags
 
 import (
 	"fmt"
-	"strconv"
+	"math/big"
 
 	"github.com/spiegel-im-spiegel/errs"
 	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
@@ -50,10 +50,10 @@ func (t *tag20) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal chunk size", errs.WithCause(err))
 	}
-	chunkSize := uint64(1) << (c + 6)
+	chunkSize := new(big.Int).Lsh(big.NewInt(1), uint(c)+6)
 	rootInfo.Add(result.NewItem(
 		result.Name("Chunk size"),
-		result.Value(strconv.FormatUint(chunkSize, 10)),
+		result.Value(chunkSize.String()),
 		result.DumpStr(values.DumpByteString(byte(c), true)),
 	))
 	//A starting initialization vector of size specified by the AEAD algorithm.
-- 
2.43.0


From 33a30ffadfb51ce5016ec3303a2e38ce6c13c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:08 +0000
Subject: [PATCH 15/32] fix: the OCB initialization vector is 15 octets long

---
 parse/values/aeadid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/values/aeadid.go b/parse/values/aeadid.go
index 7e60d20..f4a77be 100644
--- a/parse/values/aeadid.go
+++ b/parse/values/aeadid.go
@@ -13,7 +13,7 @@ var aeadIDNames = Msgs{
 
 var aeadIDIVLen = map[int]int{
 	1: 16, //EAX mode
-	2: 16, //OCB mode
+	2: 15, //OCB mode
 }
 
 var aeadIDTagLen = map[int]int{
-- 
2.43.0


From 7119ea12fea3b29726c59bfe8a44d805a9a3ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:10 +0000
Subject: [PATCH 16/32] fix: a control character as literal data format was
 printed raw

---
 parse/values/literal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/values/literal.go b/parse/values/literal.go
index 46ba928..c0963c0 100644
--- a/parse/values/literal.go
+++ b/parse/values/literal.go
@@ -31,6 +31,9 @@ func (l LiteralFormat) ToItem() *result.Item {
 }
 
 func (l LiteralFormat) String() string {
+	if l < 0x20 { //control character
+		return fmt.Sprintf("(%U)", rune(l))
+	}
 	return string(l)
 }
 
-- 
2.43.0


From 575b9de32fc605579879ff2be08ec1f914acc31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:40 +0000
Subject: [PATCH 17/32] fix: the little-endian image header length was read as
 big-endian

The size of the image data was wrong, mostly negative.
---
 parse/tags/sub01.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub01.go b/parse/tags/sub01.go
index aae8d73..1979e46 100644
--- a/parse/tags/sub01.go
+++ b/parse/tags/sub01.go
@@ -3,6 +3,7 @@ package tags
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -29,7 +30,10 @@ func (s *sub01) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.Wrap(err)
 	}
-	length := binary.BigEndian.Uint16(l)
+	length := binary.LittleEndian.Uint16(l) //little-endian by a historical accident (RFC 4880, 5.12.1)
+	if int(length) > s.reader.Len() {
+		return rootInfo, errs.New(fmt.Sprintf("illegal length of image header (length: %d bytes)", length), errs.WithCause(io.ErrUnexpectedEOF))
+	}
 	ver, err := s.reader.ReadByte()
 	if err != nil {
 		return rootInfo, errs.New("illegal version", errs.WithCause(err))
-- 
2.43.0


From 2d16e94674b8c24dbca3099db8733786b25d826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:42 +0000
Subject: [PATCH 18/32] fix: the encoding of a version 1 image attribute was
 not listed

---
 parse/tags/sub01.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parse/tags/sub01.go b/parse/tags/sub01.go
index 1979e46..c591098 100644
--- a/parse/tags/sub01.go
+++ b/parse/tags/sub01.go
@@ -43,11 +43,10 @@ func (s *sub01) Parse() (*result.Item, error) {
 		result.Value(strconv.Itoa(int(ver))),
 	)
 	switch true {
-	case ver == 1:
-		itm.Note = ""
-		rootInfo.Add(itm)
-	case 100 <= ver && ver <= 110:
-		itm.Note = "private or experimental use"
+	case ver == 1, 100 <= ver && ver <= 110:
+		if ver != 1 {
+			itm.Note = "private or experimental use"
+		}
 		rootInfo.Add(itm)
 		enc, err := s.reader.ReadByte()
 		if err != nil {
-- 
2.43.0


From 034db39198bffd4eff452f323d18333c82e2a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:44 +0000
Subject: [PATCH 19/32] fix: truncated packets in a key block were dropped and
 indeterminate lengths refused

The octet reader reads all or nothing and reports io.EOF in the middle of
a packet, which does not suit the packet reader.
---
 parse/tags/sub38.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 9c8d71e..5798cdb 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -1,6 +1,7 @@
 package tags
 
 import (
+	"bytes"
 	"io"
 	"strconv"
 
@@ -47,7 +48,14 @@ func (s *sub38) Parse() (*result.Item, error) {
 }
 
 func (s *sub38) parseKeyData(rootInfo *result.Item) error {
-	sp, err := NewPackets(s.cxt, s.reader)
+	if s.reader.Rest() == 0 {
+		return nil
+	}
+	data, err := s.reader.Read2EOF()
+	if err != nil {
+		return errs.Wrap(err)
+	}
+	sp, err := NewPackets(s.cxt, bytes.NewReader(data))
 	if err != nil {
 		return errs.Wrap(err)
 	}
-- 
2.43.0


From 5703ac7969d7d0eb54efeb5cd9d968f640794880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:46 +0000
Subject: [PATCH 20/32] fix: a signature's expiry date was counted from another
 signature's creation time

---
 parse/tags/tag02.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index ece8753..3cb1f48 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -24,6 +24,10 @@ func newTag02(cxt *context.Context, tag values.TagID, body []byte) Tags {
 
 // Parse parsing tag02 instance
 func (t *tag02) Parse() (*result.Item, error) {
+	//the creation time belongs to this signature only
+	defer func(tm *values.DateTime) { t.cxt.SigCreationTime = tm }(t.cxt.SigCreationTime)
+	t.cxt.SigCreationTime = nil
+
 	rootInfo := t.ToItem()
 	// [00] One-octet version number.
 	v, err := t.reader.ReadByte()
-- 
2.43.0


From 9fb42f2918507378424ef6fd072a581a92cc587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:47 +0000
Subject: [PATCH 21/32] fix: keys in a key block changed how the enclosing
 message was listed

---
 parse/tags/sub38.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 5798cdb..f7082d1 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -55,7 +55,10 @@ func (s *sub38) parseKeyData(rootInfo *result.Item) error {
 	if err != nil {
 		return errs.Wrap(err)
 	}
-	sp, err := NewPackets(s.cxt, bytes.NewReader(data))
+	cxt := *s.cxt //packets in the key block must not affect the enclosing message
+	cxt.KeyCreationTime = nil
+	cxt.ResetAlg()
+	sp, err := NewPackets(&cxt, bytes.NewReader(data))
 	if err != nil {
 		return errs.Wrap(err)
 	}
-- 
2.43.0


From c6678920e6216004364f27ac12f29e81010d5570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:49 +0000
Subject: [PATCH 22/32] fix: state of one dump leaked into the next one with
 the same context

---
 parse/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/parser.go b/parse/parser.go
index 3e08ef3..3fecce0 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -52,7 +52,11 @@ func NewBytes(cxt *context.Context, data []byte) (*Parser, error) {
 }
 
 func newParser(cxt *context.Context, reader io.Reader, info *result.Info) (*Parser, error) {
-	p, err := tags.NewPackets(cxt, reader)
+	state := context.New() //parsing state belongs to this parser only
+	if cxt != nil {
+		*state = *cxt
+	}
+	p, err := tags.NewPackets(state, reader)
 	if err != nil {
 		return nil, errs.Wrap(err)
 	}
-- 
2.43.0


From 3128c6d8ea0c21932acbc6a9115e1e4aac311388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:50 +0000
Subject: [PATCH 23/32] fix: the public part of a secret key of unknown version
 was decoded as secret part

---
 parse/tags/tag05.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parse/tags/tag05.go b/parse/tags/tag05.go
index ab0002b..00ffbfa 100644
--- a/parse/tags/tag05.go
+++ b/parse/tags/tag05.go
@@ -36,10 +36,13 @@ func (t *tag05) Parse() (*result.Item, error) {
 		return rootInfo, errs.Wrap(err)
 	}
 
-	sec := result.NewItem(result.Name("Secret-Key"))
-	rootInfo.Add(sec)
-	if err := newSeckey(t.cxt, t.reader, version, pubkey.PubID()).Parse(sec); err != nil {
-		return rootInfo, errs.Wrap(err)
+	switch version.Number() {
+	case 3, 4, 5:
+		sec := result.NewItem(result.Name("Secret-Key"))
+		rootInfo.Add(sec)
+		if err := newSeckey(t.cxt, t.reader, version, pubkey.PubID()).Parse(sec); err != nil {
+			return rootInfo, errs.Wrap(err)
+		}
 	}
 
 	if t.reader.Rest() > 0 {
-- 
2.43.0


From a0a48025c2876fd0203aee02bbbfa7656fdad2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:52 +0000
Subject: [PATCH 24/32] fix: panic on a null entry in the key list from GitHub

---
 github/github.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/github/github.go b/github/github.go
index 1f31e9e..4b3720b 100644
--- a/github/github.go
+++ b/github/github.go
@@ -46,7 +46,7 @@ func GetKey(ctx context.Context, cli fetch.Client, username string, keyID string
 			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 		}
 		for _, k := range keys {
-			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
+			if k != nil && strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
 				if k.RawKey == nil {
 					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 				}
-- 
2.43.0


From 45aa127c74303243a00cf7b82d8bde3568a77376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:53 +0000
Subject: [PATCH 25/32] fix: GitHub user names were put into the URL unescaped

A name like "%zz" made the program panic, and one like "a?b" or "a/b"
asked for something else.
---
 github/github.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/github/github.go b/github/github.go
index 4b3720b..6d0b584 100644
--- a/github/github.go
+++ b/github/github.go
@@ -31,7 +31,7 @@ func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error)
 }
 
 func makeURL(username string) *url.URL {
-	u, _ := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
+	u, _ := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", url.PathEscape(username)))
 	return u
 }
 
@@ -86,7 +86,7 @@ func makeURLAPI(username string, page int) (*url.URL, error) {
 	if page < 1 {
 		page = 1
 	}
-	u, err := url.Parse(fmt.Sprintf("https://api.github.com/users/%s/gpg_keys", username))
+	u, err := url.Parse(fmt.Sprintf("https://api.github.com/users/%s/gpg_keys", url.PathEscape(username)))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("page", page))
 	}
-- 
2.43.0


From 24d2253547d991f8ea2aaf2ee516a37b3dcdb683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:54 +0000
Subject: [PATCH 26/32] fix: panic on a nil key server

---
 hkp/hkp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hkp/hkp.go b/hkp/hkp.go
index d51767a..52f5a6f 100644
--- a/hkp/hkp.go
+++ b/hkp/hkp.go
@@ -75,7 +75,7 @@ func (s *Server) String() string {
 //URL returns url.URL instance
 func (s *Server) URL() *url.URL {
 	if s == nil {
-		s = nil
+		return nil
 	}
 	return &url.URL{Scheme: s.prt.String(), Host: fmt.Sprintf("%s:%d", s.host, s.port)}
 }
@@ -86,6 +86,9 @@ func (s *Server) Fetch(ctx context.Context, cli fetch.Client, userID string) (io
 		"op":     {"get"},
 	}
 	u := s.URL()
+	if u == nil {
+		return nil, errs.Wrap(ecode.ErrNullPointer)
+	}
 	u.Path = "/pks/lookup"
 	u.RawQuery = values.Encode()
 
-- 
2.43.0


From b91a747b2c2d049624f5dfe94aa4961b435007e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:09 +0000
Subject: [PATCH 27/32] fix: the debug dump of an Exportable Certification
 lacked its first octet

---
 parse/tags/sub04.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parse/tags/sub04.go b/parse/tags/sub04.go
index fbabe48..bef9762 100644
--- a/parse/tags/sub04.go
+++ b/parse/tags/sub04.go
@@ -30,7 +30,6 @@ func (s *sub04) Parse() (*result.Item, error) {
 	} else {
 		rootInfo.Value = "Exportable"
 	}
-	rootInfo.Dump = values.Dump(s.reader, true).String()
 	return rootInfo, nil
 }
 
-- 
2.43.0


From a125e108c11835c85c3be6047d67de0b7ae97ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:11 +0000
Subject: [PATCH 28/32] fix: octets left over in the key material of a version
 5 key were not listed

---
 parse/tags/pubkey.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index bfd6f65..bf96930 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -124,7 +124,14 @@ func (p *pubkeyInfo) parseV5(parent *result.Item) error {
 		return errs.New(fmt.Sprintf("illegal key material data (size: %d bytes)", sz64), errs.WithCause(err))
 	}
 	// [10] series of multiprecision integers comprising the key material.
-	return pubkey.New(p.cxt, p.pubID, reader.New(b)).ParsePub(parent) //TODO: new logic for key material
+	r := reader.New(b)
+	if err := pubkey.New(p.cxt, p.pubID, r).ParsePub(parent); err != nil { //TODO: new logic for key material
+		return err
+	}
+	if r.Rest() > 0 {
+		parent.Add(values.RawData(r, "Unknown data", p.cxt.Debug()))
+	}
+	return nil
 }
 
 //PubID returns pubID
-- 
2.43.0


From e0d8d703bd93e512c1d9960186f7f5402ef1c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:30 +0000
Subject: [PATCH 29/32] fix: debug mode of an earlier execution leaked into the
 next one

---
 facade/facade.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/facade/facade.go b/facade/facade.go
index a0769d7..6980d64 100644
--- a/facade/facade.go
+++ b/facade/facade.go
@@ -35,6 +35,7 @@ var (
 
 //newRootCmd returns cobra.Command instance for root command
 func newRootCmd(ui *rwi.RWI, args []string) *cobra.Command {
+	debugFlag = false //reset the state of previous execution
 	rootCmd := &cobra.Command{
 		Use:   Name,
 		Short: "OpenPGP packet visualizer",
-- 
2.43.0


From bade1ca7a7d418a991994be6df5f5c90f1fe26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 30/32] fix: combined short flags ending in -f took the path
 for a sub-command

---
 facade/facade.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/facade/facade.go b/facade/facade.go
index 6980d64..9cc1792 100644
--- a/facade/facade.go
+++ b/facade/facade.go
@@ -40,6 +40,7 @@ func newRootCmd(ui *rwi.RWI, args []string) *cobra.Command {
 		Use:   Name,
 		Short: "OpenPGP packet visualizer",
 		Long:  "OpenPGP (RFC 4880) packet visualizer by golang.",
+		Args:  cobra.NoArgs, //let the flag parser decide what is an argument ("-jf path" has none)
 		RunE: func(cmd *cobra.Command, args []string) error {
 			//options options
 			if versionFlag {
-- 
2.43.0


From cf5aaa1ac17142e13be99f8a935e6119d21ec4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:53 +0000
Subject: [PATCH 31/32] fix: key expiry date was missing from every signature
 after the first on a key

---
 parse/tags/sub09.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parse/tags/sub09.go b/parse/tags/sub09.go
index b670752..bfcd3ed 100644
--- a/parse/tags/sub09.go
+++ b/parse/tags/sub09.go
@@ -25,7 +25,6 @@ func (s *sub09) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal Key Expiration Time", errs.WithCause(err))
 	}
-	s.cxt.KeyCreationTime = nil
 	return exp.ToItem(rootInfo.Name, s.cxt.Debug()), nil
 }
 
-- 
2.43.0


From f7887bd003a95d2286f8260157b1233af7875533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:53 +0000
Subject: [PATCH 32/32] fix: signature expiry date was missing when the
 subpacket is repeated

---
 parse/tags/sub03.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parse/tags/sub03.go b/parse/tags/sub03.go
index 2b3aaae..8ddb970 100644
--- a/parse/tags/sub03.go
+++ b/parse/tags/sub03.go
@@ -25,7 +25,6 @@ func (s *sub03) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal Expiration Timee", errs.WithCause(err))
 	}
-	s.cxt.SigCreationTime = nil
 	return exp.ToItem(rootInfo.Name, s.cxt.Debug()), nil
 }
 
-- 
2.43.0

