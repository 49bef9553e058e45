From c921b1ac7e516336edda54909b237b695cf352da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 01/54] fix: adc: return an error when positional fields are
 missing

---
 adc/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index b30e546..1ad54b5 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -117,6 +117,9 @@ func Unmarshal(s []byte, o interface{}) error {
 		if tag == "" || tag == "-" {
 			continue
 		} else if tag == "#" {
+			if len(sub) == 0 {
+				return fmt.Errorf("error on field %s: missing value", fld.Name)
+			}
 			v := sub[0]
 			sub = sub[1:]
 			if err := unmarshalValue(v, rv.Field(i)); err != nil {
-- 
2.43.0


From 88e20a97ca92d0649a29d072d38c8a93ebf95aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 02/54] fix: tiger: do not panic when decoding base32 of a
 wrong length

---
 tiger/tiger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index 79309ab..603a87e 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -80,6 +80,9 @@ func (h Hash) MarshalBase32(buf []byte) error {
 
 // UnmarshalBase32 decodes the hash from a given buffer.
 func (h *Hash) UnmarshalBase32(buf []byte) error {
+	if len(buf) != Base32Size {
+		return fmt.Errorf("wrong base32 size: %d vs %d", len(buf), Base32Size)
+	}
 	n, err := base32Enc.Decode((*h)[:], buf)
 	if err != nil {
 		return err
-- 
2.43.0


From 45466eb091a7b1ef747d2dd69ac9ec34e02bb12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 03/54] fix: adc: decode "0" as false for bool fields

---
 adc/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 1ad54b5..e1d7aa6 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -89,7 +89,7 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		} else if len(s) != 1 {
 			return errors.New("invalid bool value: " + string(s))
 		}
-		rv.SetBool(s[0] != 0)
+		rv.SetBool(s[0] != '0')
 		return nil
 	}
 	return fmt.Errorf("unknown type: %v", rv.Type())
-- 
2.43.0


From 0192bd2e4d2d0f1e218ab95039d1b070a0b1cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 04/54] fix: adc: unescape values of generic fields

---
 adc/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 953e680..156b8b0 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -141,7 +141,7 @@ func (f *Fields) UnmarshalADC(data []byte) error {
 		if err := s.UnmarshalADC(v); err != nil {
 			return fmt.Errorf("cannot unmarshal field %s: %v", string(k[:]), err)
 		}
-		mp = append(mp, Field{Tag: k, Value: string(v)})
+		mp = append(mp, Field{Tag: k, Value: string(s)})
 	}
 	*f = mp
 	return nil
-- 
2.43.0


From 5cbcec0ac0094baf41735021d4d83e7e85a6fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 05/54] fix: adc: reject fractional and out of range integers

---
 adc/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index e1d7aa6..e90f356 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -62,8 +62,8 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 			vf, err2 := strconv.ParseFloat(sv, bits)
 			if err2 != nil {
 				return err
-			} else if math.Round(vf) != vf {
-				return err2
+			} else if math.Round(vf) != vf || vf < math.MinInt64 || vf >= math.MaxInt64 || rv.OverflowInt(int64(vf)) {
+				return err
 			}
 			vi = int64(vf)
 		}
-- 
2.43.0


From 25352487caa776623f57ba002077dd5a6cc838cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 06/54] fix: adc: reject packets with a truncated SID

---
 adc/packets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index e451eb5..3f40d7d 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -313,7 +313,7 @@ func (p *BroadcastPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *BroadcastPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return errors.New("short broadcast command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -408,7 +408,7 @@ func (p *DirectPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *DirectPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short direct command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -504,7 +504,7 @@ func (p *EchoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *EchoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short echo command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -673,7 +673,7 @@ func (p *FeaturePacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return fmt.Errorf("short feature command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-- 
2.43.0


From df1027dc93e189d30be29b029681c03f664c3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 07/54] fix: adc: do not panic on a truncated feature selector

---
 adc/packets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index 3f40d7d..19b1576 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -693,7 +693,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	for i := 0; i < len(data); i++ {
 		if data[i] == '+' {
 			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
+				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
 			copy(fea[:], data[i+1:i+5])
@@ -701,7 +701,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 			i += 4
 		} else if data[i] == '-' {
 			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
+				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
 			copy(fea[:], data[i+1:i+5])
-- 
2.43.0


From 6a27ed81e6dd9f3ac16d296174da91a013279326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 08/54] fix: adc: do not panic on an empty info packet payload

---
 adc/packets.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/packets.go b/adc/packets.go
index 19b1576..b95e5c4 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -180,7 +180,9 @@ func (p *InfoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *InfoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) != 0 && data[len(data)-1] != lineDelim {
+	if len(data) < 1 {
+		return errors.New("short info command")
+	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
 	}
 	data = data[:len(data)-1]
-- 
2.43.0


From 0aa9a7534abcf2ce0609f5853cd11360b5630e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:47 +0000
Subject: [PATCH 09/54] fix: adc: trim the password salt to the decoded size
 and reject invalid ones

---
 adc/hub.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/adc/hub.go b/adc/hub.go
index 68982d7..9edb78a 100644
--- a/adc/hub.go
+++ b/adc/hub.go
@@ -3,6 +3,7 @@ package adc
 import (
 	"bytes"
 	"encoding/base32"
+	"fmt"
 
 	"github.com/direct-connect/go-dc/tiger"
 )
@@ -83,9 +84,17 @@ func (m GetPassword) MarshalADC(buf *bytes.Buffer) error {
 
 func (m *GetPassword) UnmarshalADC(data []byte) error {
 	size := base32Enc.DecodedLen(len(data))
+	if base32Enc.EncodedLen(size) != len(data) {
+		return fmt.Errorf("invalid salt length: %d", len(data))
+	}
 	m.Salt = make([]byte, size)
-	_, err := base32Enc.Decode(m.Salt, data)
-	return err
+	n, err := base32Enc.Decode(m.Salt, data)
+	if err != nil {
+		return err
+	} else if n != size {
+		return fmt.Errorf("invalid salt: %q", string(data))
+	}
+	return nil
 }
 
 type Password struct {
-- 
2.43.0


From 82b6241af0a2b4101b7dd890df3c7055459d167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 10/54] fix: adc: clear the feature list when an empty list is
 received

---
 adc/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adc/types.go b/adc/types.go
index 086701b..2d11ed8 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -226,6 +226,7 @@ func (f ExtFeatures) MarshalADC(buf *bytes.Buffer) error {
 
 func (f *ExtFeatures) UnmarshalADC(s []byte) error {
 	if len(s) < 1 {
+		*f = nil
 		return nil
 	}
 	sub := bytes.Split(s, []byte(","))
-- 
2.43.0


From fc1204bd26664955f5e2a850aba5ba6790c3fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 11/54] fix: tiger: compute tree hash leaves from full blocks
 regardless of short reads

---
 tiger/tth.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tiger/tth.go b/tiger/tth.go
index 2ce7abe..11cf21d 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -8,13 +8,23 @@ const tthBlock = 1024
 // the single parts of a certain file.
 type Leaves []Hash
 
+// readBlock reads from r until p is full or an error is encountered.
+func readBlock(r io.Reader, p []byte) (n int, err error) {
+	for n < len(p) && err == nil {
+		var nn int
+		nn, err = r.Read(p[n:])
+		n += nn
+	}
+	return n, err
+}
+
 // TreeLeaves computes the TTH leaves of a reader.
 func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 	buf := make([]byte, tthBlock+1)
 	var n int
 
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
@@ -62,7 +72,7 @@ func TreeHash(r io.Reader) (root Hash, err error) {
 	)
 	buf := make([]byte, tthBlock+1)
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
-- 
2.43.0


From 72347bf8b2fa0bd8bdc6c39a76182edd8ce9e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 12/54] fix: nmdc: decode the path of search results

---
 nmdc/msg_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 972e42f..13bf9fa 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -359,7 +359,7 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if err := spath.UnmarshalNMDC(dec, path); err != nil {
 		return err
 	}
-	m.Path = strings.Split(string(path), "\\")
+	m.Path = strings.Split(string(spath), "\\")
 
 	i = bytes.IndexByte(slots, '/')
 	if i < 0 {
-- 
2.43.0


From 489be04d3bdc5729014feec2173b491f8742a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 13/54] fix: nmdc: keep a literal dollar sign in search
 patterns

---
 nmdc/msg_search.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 13bf9fa..30b68cd 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -193,11 +193,12 @@ func (m *Search) unmarshalString(dec *TextDecoder, data []byte) error {
 		}
 	} else {
 		var str String
-		err := str.UnmarshalNMDC(dec, field)
+		// separators must be replaced before unescaping, since the pattern may contain an escaped '$'
+		err := str.UnmarshalNMDC(dec, bytes.Replace(field, []byte("$"), []byte(" "), -1))
 		if err != nil {
 			return err
 		}
-		m.Pattern = strings.Replace(string(str), "$", " ", -1)
+		m.Pattern = string(str)
 	}
 	return nil
 }
-- 
2.43.0


From 78870d85a022eefc14eff265eaeeabddb6261992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 14/54] fix: nmdc: do not panic when calculating a key for a
 short lock

---
 nmdc/msg_lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_lock.go b/nmdc/msg_lock.go
index 3ba3587..30c6a77 100644
--- a/nmdc/msg_lock.go
+++ b/nmdc/msg_lock.go
@@ -108,6 +108,10 @@ func (m *Lock) CustomKey(magic byte, full bool) *Key {
 	lock := []byte(m.LockString(full))
 
 	n := len(lock)
+	if n < 2 {
+		// the lock is too short to calculate a key
+		return &Key{}
+	}
 	key := make([]byte, n)
 
 	key[0] = byte((lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic) & 0xFF)
-- 
2.43.0


From dad2c12b876b43675294008ab78a2e91b195c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:54 +0000
Subject: [PATCH 15/54] fix: nmdc: do not overwrite the buffer when encoding an
 empty chat message

---
 nmdc/message.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nmdc/message.go b/nmdc/message.go
index 851e3f8..5a65a77 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -116,7 +116,8 @@ func (m *RawMessage) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
 // MarshalTo encodes NMDC message into a buffer. It will write a command name,
 // a payload and '|' delimiter.
 func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
-	if typ := m.Type(); typ != "" {
+	typ := m.Type()
+	if typ != "" {
 		buf.Grow(1 + len(typ) + 2)
 		buf.WriteByte('$')
 		buf.WriteString(typ)
@@ -126,7 +127,7 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	if err := m.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
-	if n == buf.Len() {
+	if typ != "" && n == buf.Len() {
 		// no payload
 		buf.Bytes()[n-1] = Delimiter // ' ' -> '|'
 		return nil
-- 
2.43.0


From f3f179d6c6d7b4f0a474081bc336cb34f82a02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 16/54] fix: nmdc: parse chat messages ending with a closing
 token correctly

---
 nmdc/msg_chat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 25112d9..7f0ebf3 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -77,7 +77,7 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 				break
 			}
 			if base+j == len(data)-1 {
-				i = j
+				i = base + j
 				off = 1
 				break
 			}
-- 
2.43.0


From 2e11480d83810c5e31e0b9bfad18883c4fb55d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 17/54] fix: nmdc: decode empty UserIP and FailOver lists as
 empty

---
 nmdc/msg_hub.go       | 4 ++++
 nmdc/msg_user_list.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/nmdc/msg_hub.go b/nmdc/msg_hub.go
index 935f1cd..913947d 100644
--- a/nmdc/msg_hub.go
+++ b/nmdc/msg_hub.go
@@ -96,6 +96,10 @@ func (m *FailOver) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *FailOver) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
+	if len(data) == 0 {
+		m.Host = nil
+		return nil
+	}
 	hosts := bytes.Split(data, []byte(","))
 	m.Host = make([]string, 0, len(hosts))
 	for _, host := range hosts {
diff --git a/nmdc/msg_user_list.go b/nmdc/msg_user_list.go
index 85b0306..1f0ed26 100644
--- a/nmdc/msg_user_list.go
+++ b/nmdc/msg_user_list.go
@@ -110,6 +110,10 @@ func (m *UserIP) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 func (m *UserIP) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	data = bytes.TrimSuffix(data, []byte("\r"))
 	data = bytes.TrimSuffix(data, []byte("$$"))
+	if len(data) == 0 {
+		m.List = nil
+		return nil
+	}
 	sub := bytes.Split(data, []byte("$$"))
 	m.List = make([]UserAddress, 0, len(sub))
 	for _, s := range sub {
-- 
2.43.0


From 4e8b0fe353438e307756cdd771415aa2603f2be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 18/54] fix: nmdc: decode a blank user mode in the tag as
 unknown

---
 nmdc/msg_user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index 8579128..d6632d6 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -341,7 +341,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 		case 'V':
 			m.Client.Version = string(val)
 		case 'M':
-			if len(val) == 1 {
+			if len(val) == 1 && val[0] != ' ' {
 				m.Mode = UserMode(val[0])
 			} else {
 				m.Mode = UserModeUnknown
-- 
2.43.0


From 1135da334ec95660083a8327b1ab1e5452c145ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 19/54] fix: nmdc: reject ADCGET lengths that overflow

---
 nmdc/msg_files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 3bb3432..ee37c65 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -3,6 +3,7 @@ package nmdc
 import (
 	"bytes"
 	"errors"
+	"math"
 	"strconv"
 )
 
@@ -92,7 +93,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		m.Length = -1
 	} else {
 		lengthNum, err := parseUin64Trim(length)
-		if err != nil {
+		if err != nil || lengthNum > math.MaxInt64 {
 			return errors.New("ADCGet: unable to parse field 'Lenght'")
 		}
 		m.Length = int64(lengthNum)
-- 
2.43.0


From e6ffd355d9c43385d8d5355054073070ced9d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 20/54] fix: nmdc: do not mix message types when the reader
 skips a message

---
 nmdc/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 5cc36e3..f59649b 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -147,6 +147,7 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
 	dec := r.Decoder()
+	orig := *ptr
 read:
 	for {
 		line, err := r.ReadLine()
@@ -174,7 +175,7 @@ read:
 		}
 		origLine := line
 		var (
-			out  = *ptr
+			out  = orig
 			cmd  []byte
 			args []byte
 		)
-- 
2.43.0


From 35e17bd007be7f22196fe04210a3a064fa884826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 21/54] fix: nmdc: report unknown encoding in user command
 paths and file identifiers

---
 nmdc/msg_chat.go  | 2 +-
 nmdc/msg_files.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 7f0ebf3..80deab8 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -335,7 +335,7 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		var s String
 		err := s.UnmarshalNMDC(dec, p)
 		if err != nil {
-			return errors.New("invalid path user command")
+			return err
 		}
 		m.Path = append(m.Path, string(s))
 	}
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index ee37c65..b29394d 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -68,7 +68,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCGet: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
@@ -171,7 +171,7 @@ func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCSnd: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
-- 
2.43.0


From 9b19ba8da7da0bace215f52c8764f220cf612e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 22/54] fix: nmdc: keep writing a batch when a hook skips one
 of the messages

---
 nmdc/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index 0f9d1b7..5821480 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -65,10 +65,13 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 		return err
 	}
 	enc := w.Encoder()
+write:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
-			if ok, err := fnc(m); err != nil || !ok {
+			if ok, err := fnc(m); err != nil {
 				return err
+			} else if !ok {
+				continue write // skip
 			}
 		}
 		w.mbuf.Reset()
-- 
2.43.0


From c9788e2eb1caf71dd97768d872f4ca21ea3d0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 23/54] fix: lineproto: enforce the line length limit for
 complete lines

---
 lineproto/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 153828a..c192766 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -204,6 +204,9 @@ read:
 			continue
 		}
 		r.line = append(r.line, pref...)
+		if r.maxLine > 0 && len(r.line) > r.maxLine {
+			return nil, errBufferExhausted
+		}
 		if err != nil {
 			return r.line, err
 		} else if more {
-- 
2.43.0


From bc613aad01051197956a9e2ecafbedae3a18aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 24/54] fix: lineproto: do not panic when the connection
 returns an empty read

---
 lineproto/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index c192766..0e981ac 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -75,7 +75,7 @@ func (r *bufReader) peek() error {
 }
 
 func (r *bufReader) ReadByte() (byte, error) {
-	if r.off >= len(r.buf) {
+	for r.off >= len(r.buf) {
 		if err := r.peek(); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 8ddd4006358d513ae15d0d110db1b3dfb15e7f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 25/54] fix: lineproto: do not mark zlib as active when it
 cannot be enabled

---
 lineproto/reader.go | 3 +--
 lineproto/writer.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 0e981ac..d94a011 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -258,8 +258,6 @@ func (r *Reader) EnableZlib() error {
 	} else if r.zlibOn {
 		return errZlibAlreadyActive
 	}
-	r.zlibOn = true
-
 	if r.zlib != nil {
 		err := r.zlib.(zlib.Resetter).Reset(r.original, nil)
 		if err != nil {
@@ -279,6 +277,7 @@ func (r *Reader) EnableZlib() error {
 		r.compressed = newBufReader(r.zlib)
 	}
 	r.cur = r.compressed
+	r.zlibOn = true
 	return nil
 }
 
diff --git a/lineproto/writer.go b/lineproto/writer.go
index 6be1d9b..7e794ee 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -98,7 +98,6 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	if err := w.Flush(); err != nil {
 		return err
 	}
-	w.zlibOn = true
 	if w.zlibW == nil || w.zlibLvl != lvl {
 		z, err := zlib.NewWriterLevel(w.w, lvl)
 		if err != nil {
@@ -109,6 +108,7 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	} else {
 		w.zlibW.Reset(w.w)
 	}
+	w.zlibOn = true
 	w.cur = w.zlibW
 	w.bw.Reset(w.cur)
 	return nil
-- 
2.43.0


From a9aa20ff4877bd9f4bede9c90245f2b6d9a95b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 26/54] fix: lineproto: allow closing the writer twice

---
 lineproto/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 7e794ee..2a0adeb 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,6 +65,9 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
+	if w.bw == nil {
+		return nil // already closed
+	}
 	last := w.bw.Flush()
 	if w.err == nil {
 		w.err = errWriterClosed
-- 
2.43.0


From ff2f2223ac2caf245972ab2217835f2ab04b5a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 27/54] fix: lineproto: remember errors of direct writes

---
 lineproto/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 2a0adeb..17b7dcd 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -179,7 +179,11 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return w.cur.Write(p)
+	n, err := w.cur.Write(p)
+	if err != nil {
+		w.setError(err)
+	}
+	return n, err
 }
 
 // WriteLine writes a single protocol message.
-- 
2.43.0


From fae165be67b1eda9f2e51f9ebc2a5ceff9f8df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 28/54] fix: select the protocol by the address scheme

---
 conn.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 877da6c..11ad557 100644
--- a/conn.go
+++ b/conn.go
@@ -8,9 +8,19 @@ import (
 	"github.com/direct-connect/go-dc/nmdc"
 )
 
+// isADC checks if an address has one of the ADC schemes. Schemes are case-insensitive.
+func isADC(addr string) bool {
+	i := strings.Index(addr, "://")
+	if i < 0 {
+		return false
+	}
+	scheme := strings.ToLower(addr[:i])
+	return scheme == adc.SchemaADC || scheme == adc.SchemaADCS
+}
+
 // ParseAddr parses an DC address as a URL.
 func ParseAddr(addr string) (*url.URL, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.ParseAddr(addr)
 	}
 	return nmdc.ParseAddr(addr)
@@ -18,7 +28,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 
 // NormalizeAddr parses and normalizes the address to scheme://host[:port] format.
 func NormalizeAddr(addr string) (string, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.NormalizeAddr(addr)
 	}
 	return nmdc.NormalizeAddr(addr)
-- 
2.43.0


From c8813c445103027296fa1d25bbee3c4f93f8782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 29/54] fix: adc: decode integers in floating-point notation
 exactly

---
 adc/marshal.go | 64 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index e90f356..431d888 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -40,6 +39,53 @@ type Unmarshaler interface {
 	UnmarshalADC(data []byte) error
 }
 
+// parseInt decodes a decimal integer of a given size. Integral values in a floating-point notation are accepted.
+func parseInt(s string, bits int) (int64, error) {
+	v, err := strconv.ParseInt(s, 10, bits)
+	if err == nil {
+		return v, nil
+	}
+	d, ok := integralDigits(s)
+	if !ok {
+		return 0, err
+	}
+	return strconv.ParseInt(d, 10, bits)
+}
+
+// integralDigits converts a number in a floating-point notation to a plain decimal notation.
+// It returns false if the number is not an integer, or if it cannot fit into 64 bits.
+func integralDigits(s string) (string, bool) {
+	sign := ""
+	if s != "" && (s[0] == '-' || s[0] == '+') {
+		sign, s = s[:1], s[1:]
+	}
+	exp := 0
+	if i := strings.IndexAny(s, "eE"); i >= 0 {
+		v, err := strconv.ParseInt(s[i+1:], 10, 32)
+		if err != nil {
+			return "", false
+		}
+		s, exp = s[:i], int(v)
+	}
+	if i := strings.IndexByte(s, '.'); i >= 0 {
+		exp -= len(s) - (i + 1)
+		s = s[:i] + s[i+1:]
+	}
+	if s == "" {
+		return "", false
+	}
+	n := len(s)
+	s = strings.TrimRight(s, "0")
+	if s == "" {
+		return "0", true
+	}
+	exp += n - len(s)
+	if exp < 0 || exp > 19 {
+		return "", false
+	}
+	return sign + s + strings.Repeat("0", exp), true
+}
+
 func unmarshalValue(s []byte, rv reflect.Value) error {
 	switch fv := rv.Addr().Interface().(type) {
 	case Unmarshaler:
@@ -51,21 +97,9 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 	}
 	switch rv.Kind() {
 	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16:
-		bits := 64
-		switch rv.Kind() {
-		case reflect.Int32, reflect.Int16:
-			bits = 32
-		}
-		sv := string(s)
-		vi, err := strconv.ParseInt(sv, 10, bits)
+		vi, err := parseInt(string(s), rv.Type().Bits())
 		if err != nil {
-			vf, err2 := strconv.ParseFloat(sv, bits)
-			if err2 != nil {
-				return err
-			} else if math.Round(vf) != vf || vf < math.MinInt64 || vf >= math.MaxInt64 || rv.OverflowInt(int64(vf)) {
-				return err
-			}
-			vi = int64(vf)
+			return err
 		}
 		rv.SetInt(vi)
 		return nil
-- 
2.43.0


From 2b181a132d434ec469a138a07a0801ec67c36ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 30/54] fix: adc: reject SIDs with characters outside of base32

---
 adc/types/types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/adc/types/types.go b/adc/types/types.go
index ad0a6c5..6bd2983 100644
--- a/adc/types/types.go
+++ b/adc/types/types.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rand"
 	"encoding"
 	"fmt"
+	"strings"
 
 	"github.com/direct-connect/go-dc/tiger"
 )
@@ -48,6 +49,11 @@ func (id *SID) UnmarshalADC(s []byte) error {
 	if len(s) != 4 {
 		return fmt.Errorf("wrong SID format: %q", s)
 	}
+	for _, c := range s {
+		if strings.IndexByte(base32Enc, c) < 0 {
+			return fmt.Errorf("wrong SID format: %q", s)
+		}
+	}
 	var buf [4]byte
 	copy(buf[:], s)
 	*id = SID(buf)
-- 
2.43.0


From d3d1753f7dade8a8d4efa17accb25bc8afb5a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 31/54] fix: nmdc: decode user command paths before splitting
 them

---
 nmdc/msg_chat.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 80deab8..70b04f8 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -325,19 +326,18 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if i < 1 {
 		return fmt.Errorf("invalid raw user command: %q", string(data))
 	}
-	path := bytes.TrimRight(val[:i], " ")
-	sub := bytes.Split(path, []byte("\\"))
+	// decode the whole path first, a multibyte character may contain a separator byte
+	var path String
+	if err := path.UnmarshalNMDC(dec, bytes.TrimRight(val[:i], " ")); err != nil {
+		return err
+	}
+	sub := strings.Split(string(path), "\\")
 	m.Path = make([]string, 0, len(sub))
 	for _, p := range sub {
 		if len(p) == 0 {
 			continue
 		}
-		var s String
-		err := s.UnmarshalNMDC(dec, p)
-		if err != nil {
-			return err
-		}
-		m.Path = append(m.Path, string(s))
+		m.Path = append(m.Path, p)
 	}
 
 	var s String
-- 
2.43.0


From ce441304419ba8986453ed3753d9b129502753ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 32/54] fix: nmdc: keep the contents of an unexpected command
 after further reads

---
 nmdc/reader.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index f59649b..3002206 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -32,6 +32,14 @@ func (e *ErrUnexpectedCommand) Error() string {
 	return fmt.Sprintf("nmdc: expected %q, got %q", exp, got)
 }
 
+// cloneBytes copies a part of the line that must stay valid after the next read.
+func cloneBytes(p []byte) []byte {
+	if p == nil {
+		return nil
+	}
+	return append([]byte{}, p...)
+}
+
 type ErrProtocolViolation = lineproto.ErrProtocolViolation
 
 type errUnknownEncoding struct {
@@ -221,7 +229,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Typ: typ, Data: args,
+							Typ: typ, Data: cloneBytes(args),
 						},
 					}
 				}
@@ -234,14 +242,14 @@ read:
 				return &ErrUnexpectedCommand{
 					Expected: "", // chat
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: cloneBytes(args),
 					},
 				}
 			} else if out.Type() != typ {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: cloneBytes(args),
 					},
 				}
 			}
@@ -271,7 +279,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Data: args,
+							Data: cloneBytes(args),
 						},
 					}
 				}
@@ -284,7 +292,7 @@ read:
 					Expected: out.Type(),
 					Received: &RawMessage{
 						// chat
-						Data: args,
+						Data: cloneBytes(args),
 					},
 				}
 			}
-- 
2.43.0


From bd484069aaac6a3a3f691854a90618346b5b0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 33/54] fix: nmdc: do not panic when encoding an empty Supports
 list

---
 nmdc/extensions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nmdc/extensions.go b/nmdc/extensions.go
index 23bec78..f612eb5 100644
--- a/nmdc/extensions.go
+++ b/nmdc/extensions.go
@@ -43,6 +43,9 @@ func (m *Supports) Intersect(m2 *Supports) Supports {
 }
 
 func (m *Supports) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
+	if len(m.Ext) == 0 {
+		return nil
+	}
 	n := len(m.Ext) - 1
 	for _, ext := range m.Ext {
 		n += len(ext)
-- 
2.43.0


From cbe2947f53defc32953d9c161ea5fc084bd23174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 34/54] fix: nmdc: do not mix fields of skipped messages into
 the next one

---
 nmdc/reader.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 3002206..4c4b73b 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"reflect"
 	"sync/atomic"
 
 	"github.com/direct-connect/go-dc/lineproto"
@@ -40,6 +41,17 @@ func cloneBytes(p []byte) []byte {
 	return append([]byte{}, p...)
 }
 
+// snapshot returns a function that restores the current contents of the message.
+func snapshot(m Message) func() {
+	v := reflect.ValueOf(m)
+	if v.Kind() != reflect.Ptr || v.IsNil() {
+		return func() {}
+	}
+	old := reflect.New(v.Type().Elem()).Elem()
+	old.Set(v.Elem())
+	return func() { v.Elem().Set(old) }
+}
+
 type ErrProtocolViolation = lineproto.ErrProtocolViolation
 
 type errUnknownEncoding struct {
@@ -156,6 +168,8 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
 	dec := r.Decoder()
 	orig := *ptr
+	// undo reverts the changes made to a message supplied by the caller
+	undo := func() {}
 read:
 	for {
 		line, err := r.ReadLine()
@@ -297,6 +311,9 @@ read:
 				}
 			}
 		}
+		if (orig != nil || len(allowed) != 0) && (r.OnUnmarshalError != nil || len(r.onMessage) != 0) {
+			undo = snapshot(out)
+		}
 		err = out.UnmarshalNMDC(dec, args)
 		if r.OnUnknownEncoding != nil {
 			if e, ok := err.(*errUnknownEncoding); ok {
@@ -322,6 +339,7 @@ read:
 			}
 			ok, err := r.OnUnmarshalError(origLine, err)
 			if !ok {
+				undo()
 				continue read // ignore
 			}
 			return err
@@ -330,6 +348,7 @@ read:
 			if ok, err := fnc(out); err != nil {
 				return err
 			} else if !ok {
+				undo()
 				continue read // drop
 			}
 		}
-- 
2.43.0


From cc952ce8bc28937e253a81b04c0bc05db647b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 35/54] fix: nmdc: replace only text when continuing with an
 unknown encoding

---
 nmdc/reader.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 4c4b73b..28fc842 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -8,6 +8,8 @@ import (
 	"reflect"
 	"sync/atomic"
 
+	"golang.org/x/text/runes"
+
 	"github.com/direct-connect/go-dc/lineproto"
 )
 
@@ -322,15 +324,14 @@ read:
 					return err
 				}
 				if dec == nil {
-					// cannot decode, but asked to continue
-					args = bytes.Map(func(r rune) rune {
-						return r // only need to parse
-					}, args)
+					// cannot decode, but asked to continue; replace invalid text
+					repl := &TextDecoder{Transformer: runes.ReplaceIllFormed()}
+					err = out.UnmarshalNMDC(repl, args)
 				} else {
 					// switch encoding and decode again
 					r.SetDecoder(dec)
+					err = out.UnmarshalNMDC(dec, args)
 				}
-				err = out.UnmarshalNMDC(dec, args)
 			}
 		}
 		if err != nil {
-- 
2.43.0


From e02f65d4d1b7e9d404985f5fa860c5554a9a6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 36/54] fix: nmdc: refuse to encode messages with a delimiter
 in unescaped fields

---
 nmdc/message.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nmdc/message.go b/nmdc/message.go
index 5a65a77..9c5d731 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -117,6 +117,7 @@ func (m *RawMessage) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
 // a payload and '|' delimiter.
 func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	typ := m.Type()
+	start := buf.Len()
 	if typ != "" {
 		buf.Grow(1 + len(typ) + 2)
 		buf.WriteByte('$')
@@ -127,6 +128,10 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	if err := m.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
+	// some fields are not escaped; they should not be able to end the message
+	if bytes.IndexByte(buf.Bytes()[start:], Delimiter) >= 0 || bytes.IndexByte(buf.Bytes()[start:], 0x00) >= 0 {
+		return fmt.Errorf("message %q contains a delimiter or a null character", typ)
+	}
 	if typ != "" && n == buf.Len() {
 		// no payload
 		buf.Bytes()[n-1] = Delimiter // ' ' -> '|'
-- 
2.43.0


From a54254b78f3f05c41259840dde77022a1b821dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 37/54] fix: lineproto: do not end a binary section with a huge
 announced length immediately

---
 lineproto/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index d94a011..c83faef 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 )
 
 const (
@@ -287,6 +288,9 @@ func (r *Reader) Binary(sz uint64) (io.ReadCloser, error) {
 	if r.original == nil {
 		return nil, errReaderClosed
 	}
+	if sz > math.MaxInt64 {
+		sz = math.MaxInt64 // a negative limit would end the section immediately
+	}
 	return &binaryReader{r: io.LimitReader(r, int64(sz))}, nil
 }
 
-- 
2.43.0


From f836e35c7c2df4564ca63002bd950f448f0a381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 38/54] fix: encode nil pointers to ADC marshalers as empty
 values instead of panicking

---
 adc/marshal.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 431d888..de1c38e 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -195,12 +195,22 @@ func Unmarshal(s []byte, o interface{}) error {
 	return nil
 }
 
+var marshalerType = reflect.TypeOf((*Marshaler)(nil)).Elem()
+
+// isUnset checks if the value is a nil pointer to a Marshaler that has no way to encode it.
+func isUnset(rv reflect.Value) bool {
+	return rv.Kind() == reflect.Ptr && rv.IsNil() && rv.Type().Elem().Implements(marshalerType)
+}
+
 func marshalValue(buf *bytes.Buffer, o interface{}) error {
+	rv := reflect.ValueOf(o)
+	if isUnset(rv) {
+		return nil
+	}
 	switch v := o.(type) {
 	case Marshaler:
 		return v.MarshalADC(buf)
 	}
-	rv := reflect.ValueOf(o)
 	switch rv.Kind() {
 	case reflect.String:
 		s := rv.String()
@@ -282,7 +292,7 @@ func Marshal(buf *bytes.Buffer, o Message) error {
 		if omit && isZero(rv.Field(i)) {
 			continue
 		}
-		if m, ok := rv.Field(i).Interface().(Marshaler); ok {
+		if m, ok := rv.Field(i).Interface().(Marshaler); ok && !isUnset(rv.Field(i)) {
 			writeTag(tag)
 			if err := m.MarshalADC(buf); err != nil {
 				return fmt.Errorf("cannot marshal field %s: %v", fld.Name, err)
-- 
2.43.0


From e6b04bbd325f56d6d5ca8fc1e41c92902b0ccc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 39/54] fix: reject negative ADC status codes, which cannot be
 encoded again

---
 adc/messages.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adc/messages.go b/adc/messages.go
index 156b8b0..0a0c3c6 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -220,6 +220,8 @@ func (st *Status) UnmarshalADC(s []byte) error {
 	code, err := strconv.Atoi(string(sub[0]))
 	if err != nil {
 		return fmt.Errorf("wrong status code: %v", err)
+	} else if code < 0 {
+		return fmt.Errorf("wrong status code: %d", code)
 	}
 	st.Code = code % 100
 	st.Sev = Severity(code / 100)
-- 
2.43.0


From 9e25747b86ea8ef1b5a6f6976e310ac010a66bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 40/54] fix: do not unescape ADC feature names, an escaped
 space or newline would be sent back unescaped

---
 adc/types.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/adc/types.go b/adc/types.go
index 2d11ed8..426855b 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -120,11 +120,9 @@ func (f ModFeatures) MarshalADC(buf *bytes.Buffer) error {
 }
 
 func (f *ModFeatures) UnmarshalADC(s []byte) error {
-	// TODO: will parse strings of any length; should limit to 4 bytes
-	// TODO: use bytes or Feature in slices
 	var out struct {
-		Add []string `adc:"AD"`
-		Rm  []string `adc:"RM"`
+		Add []Feature `adc:"AD"`
+		Rm  []Feature `adc:"RM"`
 	}
 	if err := Unmarshal(s, &out); err != nil {
 		return err
@@ -134,18 +132,10 @@ func (f *ModFeatures) UnmarshalADC(s []byte) error {
 		m = make(ModFeatures)
 		*f = m
 	}
-	for _, name := range out.Rm {
-		var fea Feature
-		if err := fea.UnmarshalADC([]byte(name)); err != nil {
-			return err
-		}
+	for _, fea := range out.Rm {
 		m[fea] = false
 	}
-	for _, name := range out.Add {
-		var fea Feature
-		if err := fea.UnmarshalADC([]byte(name)); err != nil {
-			return err
-		}
+	for _, fea := range out.Add {
 		m[fea] = true
 	}
 	return nil
-- 
2.43.0


From 74884694b9197cbf8f56c89b5da9d6cd1e7ca7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 41/54] fix: nmdc: encode negative user command types as they
 were decoded

---
 nmdc/msg_chat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 70b04f8..c3c1026 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -268,9 +268,9 @@ func (*UserCommand) Type() string {
 
 func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 	var b [10]byte
-	bi := strconv.AppendUint(b[:0], uint64(m.Typ), 10)
+	bi := strconv.AppendInt(b[:0], int64(m.Typ), 10)
 	bi = append(bi, ' ')
-	bi = strconv.AppendUint(bi, uint64(m.Context), 10)
+	bi = strconv.AppendInt(bi, int64(m.Context), 10)
 	if len(m.Path) != 0 {
 		bi = append(bi, ' ')
 		buf.Write(bi)
-- 
2.43.0


From 029bfea232d842a7941dc4642d1285e56c192867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 42/54] fix: nmdc: write the command separator of user commands
 that have a path but no command

---
 nmdc/msg_chat.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index c3c1026..71b5f7e 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -285,9 +285,10 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 	} else {
 		buf.Write(bi)
 	}
-	if m.Command == "" {
+	if m.Command == "" && len(m.Path) == 0 {
 		return nil
 	}
+	// a path without a command still needs the separator, or it cannot be decoded
 	buf.WriteString(" $")
 	if err := String(m.Command).MarshalNMDC(enc, buf); err != nil {
 		return err
-- 
2.43.0


From f001767f25975ec8e04f0b55b941ae88ddf8daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 43/54] fix: nmdc: upper-case only letters of user tag keys,
 keep other keys as they are

---
 nmdc/msg_user.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index d6632d6..b049c9c 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -334,7 +334,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 			continue
 		}
 		ckey := bkey[0]
-		if ckey > 'Z' {
+		if ckey >= 'a' && ckey <= 'z' {
 			ckey -= 'a' - 'A'
 		}
 		switch ckey {
@@ -383,7 +383,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 			if m.Extra == nil {
 				m.Extra = make(map[string]string)
 			}
-			m.Extra[string(ckey)] = string(val)
+			m.Extra[string([]byte{ckey})] = string(val)
 		}
 	}
 	m.Client.Name = string(client)
-- 
2.43.0


From c2d6440ed5c05c314a556b80e441016cb1f35418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 44/54] fix: nmdc: do not keep fields of an earlier message
 when decoding into it again

---
 nmdc/msg_chat.go   | 2 ++
 nmdc/msg_ctm.go    | 1 +
 nmdc/msg_errors.go | 2 ++
 nmdc/msg_files.go  | 2 ++
 nmdc/msg_ping.go   | 1 +
 nmdc/msg_search.go | 2 ++
 nmdc/msg_user.go   | 1 +
 7 files changed, 11 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 71b5f7e..fd1cde6 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -50,6 +50,7 @@ func (m *ChatMessage) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ChatMessage{}
 	// <user> message text|
 	// or
 	// message text|
@@ -297,6 +298,7 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = UserCommand{}
 	arr := bytes.SplitN(bytes.TrimSpace(data), []byte(" "), 3)
 	if len(arr) < 2 {
 		return errors.New("invalid user command")
diff --git a/nmdc/msg_ctm.go b/nmdc/msg_ctm.go
index a5711cf..601ad39 100644
--- a/nmdc/msg_ctm.go
+++ b/nmdc/msg_ctm.go
@@ -70,6 +70,7 @@ func (m *ConnectToMe) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ConnectToMe) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ConnectToMe{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid ConnectToMe command")
diff --git a/nmdc/msg_errors.go b/nmdc/msg_errors.go
index b4ca982..f9e3f88 100644
--- a/nmdc/msg_errors.go
+++ b/nmdc/msg_errors.go
@@ -29,6 +29,7 @@ func (m *Failed) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Failed) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Failed{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
@@ -58,6 +59,7 @@ func (m *Error) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Error) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Error{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index b29394d..b0364d5 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -53,6 +53,7 @@ func (m *ADCGet) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCGet{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCGet: missing separator after field 'ContentType'")
@@ -156,6 +157,7 @@ func (m *ADCSnd) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCSnd{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCSnd: missing separator after field 1")
diff --git a/nmdc/msg_ping.go b/nmdc/msg_ping.go
index cb05964..33da759 100644
--- a/nmdc/msg_ping.go
+++ b/nmdc/msg_ping.go
@@ -108,6 +108,7 @@ func (m *HubINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *HubINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = HubINFO{}
 	fields := bytes.SplitN(data, []byte("$"), 13)
 	for i, field := range fields {
 		switch i {
diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 30b68cd..36a6f38 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -106,6 +106,7 @@ func (m *Search) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Search) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = Search{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid search command")
@@ -290,6 +291,7 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = SR{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid SR command: missing name")
diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index b049c9c..02bda08 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -193,6 +193,7 @@ func (m *MyINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *MyINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = MyINFO{}
 	const infoPref = "$ALL "
 	if !bytes.HasPrefix(data, []byte(infoPref)) {
 		return errors.New("invalid info command: wrong prefix")
-- 
2.43.0


From d40d68a138f00d3bb904f4dae4b29064bbd0b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 45/54] fix: adc: do not keep the path or the compression flag
 of an earlier message when decoding into it again

---
 adc/files.go | 1 +
 adc/types.go | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/adc/files.go b/adc/files.go
index 9959464..ea0d633 100644
--- a/adc/files.go
+++ b/adc/files.go
@@ -94,6 +94,7 @@ func (m *GetRequest) UnmarshalADC(data []byte) error {
 		return errors.New("ADCGET: unable to parse field 4")
 	}
 
+	m.Compressed = false
 	if len(data) > 0 {
 		if !bytes.Equal(data, []byte("ZL1")) {
 			return errors.New("ADCGET: invalid field 5")
diff --git a/adc/types.go b/adc/types.go
index 426855b..f85191a 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -279,13 +279,15 @@ func (p Path) MarshalADC(buf *bytes.Buffer) error {
 }
 
 func (p *Path) UnmarshalADC(data []byte) error {
-	arr := bytes.Split(data, []byte("/"))
-	for _, a := range arr {
+	sub := bytes.Split(data, []byte("/"))
+	arr := make(Path, 0, len(sub))
+	for _, a := range sub {
 		var path String
 		if err := path.UnmarshalADC(a); err != nil {
 			return err
 		}
-		*p = append(*p, string(path))
+		arr = append(arr, string(path))
 	}
+	*p = arr
 	return nil
 }
-- 
2.43.0


From 637dd4b3840f8cd8947df7bc6d76dc105d85c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 46/54] fix: nmdc: use a decoder that was changed while
 skipping messages

---
 nmdc/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 28fc842..f64be7e 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -168,7 +168,6 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 }
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
-	dec := r.Decoder()
 	orig := *ptr
 	// undo reverts the changes made to a message supplied by the caller
 	undo := func() {}
@@ -316,6 +315,7 @@ read:
 		if (orig != nil || len(allowed) != 0) && (r.OnUnmarshalError != nil || len(r.onMessage) != 0) {
 			undo = snapshot(out)
 		}
+		dec := r.Decoder() // may be changed by a hook, even for a message that was skipped
 		err = out.UnmarshalNMDC(dec, args)
 		if r.OnUnknownEncoding != nil {
 			if e, ok := err.(*errUnknownEncoding); ok {
-- 
2.43.0


From 4dd4d111801ca568c589be30b74b9f3ac29d8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 47/54] fix: nmdc: use an encoder that was changed by a hook
 for the rest of the batch

---
 nmdc/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index 5821480..df41298 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -64,9 +64,9 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 	if err := w.Writer.Err(); err != nil {
 		return err
 	}
-	enc := w.Encoder()
 write:
 	for _, m := range msg {
+		enc := w.Encoder() // may be changed by a hook
 		for _, fnc := range w.onMessage {
 			if ok, err := fnc(m); err != nil {
 				return err
-- 
2.43.0


From 4c78575c0e6d9f886085922dfc68a268eb7c91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 48/54] fix: adc: decode registered messages that are
 implemented by a pointer type

---
 adc/messages.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 0a0c3c6..1411a62 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -48,7 +48,11 @@ func UnmarshalMessage(name MsgType, data []byte) (Message, error) {
 	if err := Unmarshal(data, rv.Interface()); err != nil {
 		return nil, err
 	}
-	return rv.Elem().Interface().(Message), nil
+	if m, ok := rv.Elem().Interface().(Message); ok {
+		return m, nil
+	}
+	// only a pointer to the type implements the interface
+	return rv.Interface().(Message), nil
 }
 
 var (
-- 
2.43.0


From a0988e51c99d2f49643bda650f5aff17b58a9e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 49/54] fix: adc: refuse feature selectors that are cut short
 by a space

---
 adc/packets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index b95e5c4..2390d3d 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -694,7 +694,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	p.Sel = make([]FeatureSel, 0, len(data)/5)
 	for i := 0; i < len(data); i++ {
 		if data[i] == '+' {
-			if f := data[i:]; len(f) < 5 {
+			if f := data[i:]; len(f) < 5 || bytes.IndexByte(f[:5], ' ') >= 0 {
 				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
@@ -702,7 +702,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 			p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: true})
 			i += 4
 		} else if data[i] == '-' {
-			if f := data[i:]; len(f) < 5 {
+			if f := data[i:]; len(f) < 5 || bytes.IndexByte(f[:5], ' ') >= 0 {
 				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
-- 
2.43.0


From 59506b7e862d35dd0a3090888011dfd564c77520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 50/54] fix: lineproto: do not crash when a hook closes the
 reader and drops the line

---
 lineproto/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index c83faef..fc7e6ad 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -220,6 +220,9 @@ read:
 				return nil, err
 			} else if !ok {
 				// hook commands to drop the message
+				if r.original == nil {
+					return nil, errReaderClosed // closed by the hook
+				}
 				r.line = r.line[:0]
 				continue read
 			}
-- 
2.43.0


From 31e74aadc9dce8c98408fb34feb8a09636f65cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:15 +0000
Subject: [PATCH 51/54] fix: lineproto: fail instead of crashing when a
 callback closes the writer

---
 lineproto/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 17b7dcd..dc2a2b7 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -153,6 +153,9 @@ func (w *Writer) Flush() error {
 		}
 		defer w.Timeout(false)
 	}
+	if w.err != nil {
+		return w.err // closed by a callback
+	}
 	err := w.bw.Flush()
 	if err != nil {
 		w.setError(err)
@@ -207,6 +210,9 @@ func (w *Writer) WriteLine(data []byte) error {
 		}
 		defer w.Timeout(false)
 	}
+	if w.err != nil {
+		return w.err // closed by a callback
+	}
 	_, err := w.bw.Write(data)
 	if err != nil {
 		w.setError(err)
-- 
2.43.0


From 61bd3d68293405f7eef5c9360d6f5f530efd9240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 52/54] fix: adc: keep the packet intact when a line hook of
 the writer writes another one

---
 adc/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/adc/writer.go b/adc/writer.go
index 6291cc9..aa0f0e1 100644
--- a/adc/writer.go
+++ b/adc/writer.go
@@ -46,7 +46,11 @@ func (w *Writer) WritePacket(p Packet) error {
 	if err != nil {
 		return err
 	}
-	return w.WriteLine(w.mbuf.Bytes())
+	buf := w.mbuf // in use until the line is written, and line hooks may write packets as well
+	w.mbuf = bytes.Buffer{}
+	err = w.WriteLine(buf.Bytes())
+	w.mbuf = buf
+	return err
 }
 
 // Flush the underlying buffer. Should be called after each WritePacket batch.
-- 
2.43.0


From 27ba8b6f456c5e2a401dc9ec4be9a9c07982c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 53/54] fix: nmdc: keep the message intact when a line hook of
 the writer writes another one

---
 nmdc/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index df41298..9878b6b 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -79,7 +79,11 @@ write:
 		if err != nil {
 			return err
 		}
-		if err := w.WriteLine(w.mbuf.Bytes()); err != nil {
+		buf := w.mbuf // in use until the line is written, and line hooks may write messages as well
+		w.mbuf = bytes.Buffer{}
+		err = w.WriteLine(buf.Bytes())
+		w.mbuf = buf
+		if err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 76d7057950db490f9e106b159fe80bcf6069b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:30 +0000
Subject: [PATCH 54/54] fix: nmdc: keep hub names that contain brackets in
 search results

---
 nmdc/msg_search.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 36a6f38..26ec77f 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -395,6 +395,12 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		if i < 0 {
 			return errors.New("invalid SR command: missing TTH or hub name")
 		}
+		// hub name may contain brackets as well; the address is in the last pair
+		end := len(data)
+		if j := bytes.Index(data[i:], []byte{')', srSep}); j >= 0 {
+			end = i + j
+		}
+		i = bytes.LastIndex(data[:end], []byte(" ("))
 		res := data[:i]
 		data = data[i+2:]
 		var s String
-- 
2.43.0

