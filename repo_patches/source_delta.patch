From bbd7c363916ab72a17e79a7d9422e84e558f50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 01/14] fix: compress an OID prefix only when 1.3.6.1.x has x
 in 1..255

The prefix field is one byte and 0 means 'no prefix', so 1.3.6.1.0.* and
1.3.6.1.256.* were encoded without their first five sub-identifiers.
---
 agentx/encoding.go     | 4 ++--
 agentx/encoding_dbg.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 3e8a625..2fb9998 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -160,7 +160,7 @@ func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
 		nsubids := len(id)
-		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] <= 256 {
+		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] >= 1 && id[4] <= 255 {
 			nsubids -= 5
 		}
 		size += 4 * nsubids
@@ -174,7 +174,7 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 	}
 	nsubids := len(val)
 	prefix := byte(0)
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 8724348..99388d9 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -170,7 +170,7 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 	nsubids := len(val)
 	prefix := byte(0)
 
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
-- 
2.43.0


From 68845c46d3f164b2bac360bee927ab14408f08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 02/14] fix: refuse to encode an OID whose sub-identifier count
 does not fit

The count is one byte on the wire; a longer OID was encoded with the
count truncated and decoded as something else.
---
 agentx/encoding.go     | 3 +++
 agentx/encoding_dbg.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 2fb9998..c734083 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -179,6 +179,9 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > 255 {
+		panic(ErrEncoding)
+	}
 	data = append(data, byte(nsubids), prefix, include, 0)
 	for _, subid := range val {
 		data = e.appendUint32(data, subid)
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 99388d9..08ba578 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -175,6 +175,9 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > 255 {
+		panic("too many sub-identifiers")
+	}
 
 	e.log.Writef("appending ObjectId header {nsubids: %d, prefix: %d, include: %d, reserved byte: 0}:",
 		nsubids, prefix, include)
-- 
2.43.0


From 1c54a7a9e0d4e23d0a0a6d539cf598ef81c63a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:36 +0000
Subject: [PATCH 03/14] fix: reject varbind types that do not fit in the tag
 byte

The 16-bit type field was truncated to 8 bits before being checked, so
e.g. type 0x0102 was decoded as Integer32.
---
 agentx/varbind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/varbind.go b/agentx/varbind.go
index bdbe593..c927808 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -20,7 +20,7 @@ func (e encoder) appendVarbind(data []byte, vb asn.Varbind) []byte {
 func (d decoder) parseVarbind(data []byte) (vb asn.Varbind, next []byte) {
 	var tag int16
 	tag, next = d.parseInt16(data)
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic(ErrEncoding)
 	}
 	if next[0] != 0 || next[1] != 0 {
@@ -60,7 +60,7 @@ func (d decoderDbg) parseVarbind(startpos int) (vb asn.Varbind, nextpos int) {
 	tag, nextpos = d.parseInt16(startpos)
 	vb.Tag = asn.Tag(tag)
 	d.log.Writef("parsed Tag: %s", vb.Tag.String())
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic("Unknown value tag")
 	}
 	d.log.Write("parsing 2 reserved bytes")
-- 
2.43.0


From 7436adcd8550da818a9622c620347bdbbf5723d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:37 +0000
Subject: [PATCH 04/14] fix: refuse to encode flags that the pdu type does not
 allow

EncodePdu reported success for data which DecodePduHeader rejects.
---
 agentx/pdu.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 66961b1..d9d9777 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -67,6 +67,9 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 		ok = false
 		return
 	}
+	if ok = pdu.Tag.NotAllowedFlags(pdu.Flags) == 0; !ok {
+		return
+	}
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
@@ -197,6 +200,11 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 		log.Write("!!! Error. Invalid type of payload params")
 		return
 	}
+	fooFlags := pdu.Tag.NotAllowedFlags(pdu.Flags)
+	if ok = fooFlags == 0; !ok {
+		log.Writef("!!! Error. Flags %s are not allowed for this pdu", fooFlags.String())
+		return
+	}
 
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
-- 
2.43.0


From 60a9c425ec4e67e66f71f56e211a8900b815b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:37 +0000
Subject: [PATCH 05/14] fix: refuse to encode negative GetBulk counters

EncodePdu reported success for data which DecodePduPayload rejects.
---
 agentx/payload_params.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 684924a..7a198bf 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -302,6 +302,9 @@ func (GetBulkParams) encodingSize() int {
 }
 
 func (p GetBulkParams) append(e encoder, data []byte) []byte {
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		panic(ErrEncoding)
+	}
 	data = e.appendInt16(data, p.NonRepeaters)
 	return e.appendInt16(data, p.MaxRepeatitions)
 }
@@ -318,6 +321,10 @@ func parseGetBulkParams(d decoder, data []byte) (PayloadParams, []byte) {
 
 func (p GetBulkParams) appendDbg(e encoderDbg, data []byte) []byte {
 	e.log.Write("appending GetBulkParams")
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		e.log.Write("!!! Error. NonRepeaters < 0 or MaxRepeatitions < 0")
+		panic(ErrEncoding)
+	}
 	e.log.Write("appending NonRepeaters")
 	data = e.appendInt16(data, p.NonRepeaters)
 	e.log.Write("appending MaxRepeatitions")
-- 
2.43.0


From 308d639b726fe74a50ba0849f18a5583b7694445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:38 +0000
Subject: [PATCH 06/14] fix: check payload data against pdu.PayloadSize in
 DecodePduPayload

DecodePduPayloadDbg already did, so the two functions disagreed on data
whose size is not the one announced by the header.
---
 agentx/pdu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index d9d9777..f4a3a4d 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -148,6 +148,10 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}()
 
+	if ok = len(data) == int(pdu.PayloadSize); !ok {
+		return
+	}
+
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
-- 
2.43.0


From ff7f3913f823af5bce0905667c3c59fb203256c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:39 +0000
Subject: [PATCH 07/14] fix: decoding a payload sets the ranges and varbinds of
 a reused pdu

They were appended to whatever the pdu held before.
---
 agentx/pdu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index f4a3a4d..961162a 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -161,6 +161,7 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 	pdu.Params, data = pduTable[pdu.Tag].parseParams(d, data)
 
 	if pduTable[pdu.Tag].includesRanges {
+		pdu.Ranges = nil
 		for len(data) > 0 {
 			var r SearchRange
 			r, data = d.parseSearchRange(data)
@@ -168,6 +169,7 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}
 	if pduTable[pdu.Tag].includesVarbinds {
+		pdu.Varbinds = nil
 		for len(data) > 0 {
 			var vb asn.Varbind
 			vb, data = d.parseVarbind(data)
@@ -375,6 +377,7 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 	pdu.Params, nextpos = pduTable[pdu.Tag].parseParamsDbg(d, nextpos)
 
 	if pduTable[pdu.Tag].includesRanges {
+		pdu.Ranges = nil
 		for nextpos < len(d.data) {
 			var r SearchRange
 			r, nextpos = d.parseSearchRange(nextpos)
@@ -382,6 +385,7 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 		}
 	}
 	if pduTable[pdu.Tag].includesVarbinds {
+		pdu.Varbinds = nil
 		for nextpos < len(d.data) {
 			var vb asn.Varbind
 			vb, nextpos = d.parseVarbind(nextpos)
-- 
2.43.0


From 4595fdb92acab165c9427c8f06190702078d2451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:40 +0000
Subject: [PATCH 08/14] fix: check the size of an Opaque against the data
 before allocating it

A few bytes from the peer could request an allocation of up to 2 GB.
---
 agentx/encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index c734083..84c0aa0 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -246,9 +246,9 @@ func (d decoder) parseOpaque(data []byte) (val []byte, next []byte) {
 	if size < 0 {
 		panic(ErrEncoding)
 	}
+	chunk, next := next[:int(size)], next[int(size):]
 	val = make([]byte, int(size))
-	copy(val, next[:int(size)])
-	next = next[int(size):]
+	copy(val, chunk)
 	next = d.parsePaddingBytes(next, int(size))
 	return
 }
-- 
2.43.0


From 2d50ebef2541a6d08594cd7e6f90e01a15036143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:58 +0000
Subject: [PATCH 09/14] fix: GetNextNode bounds when a leaf is a proper prefix
 of a bound

A leaf which is a proper prefix of oid1 is less than oid1 but was
returned if include1 was set; a leaf which is a proper prefix of oid2 is
less than oid2 but was skipped; the root of an empty tree was returned
as if it were a leaf.
---
 oid/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oid/node.go b/oid/node.go
index 5ac2591..67809fe 100644
--- a/oid/node.go
+++ b/oid/node.go
@@ -126,7 +126,10 @@ func (node *Node) getNextNode(oid1, oid2 []uint32, include1 bool, repeatition in
 	var iterate func(*Node, int, bool, bool)
 	iterate = func(node *Node, ind int, eq1, eq2 bool) {
 		if len(node.Children) == 0 {
-			if (!eq1 || include1) && !eq2 {
+			// if eq1 (eq2), the leaf oid is equal to oid1[:ind] (oid2[:ind])
+			ge1 := !eq1 || (include1 && ind == len(oid1))
+			lt2 := !eq2 || ind < len(oid2)
+			if ge1 && lt2 && node.Parent != nil {
 				if repeatition == 1 {
 					resnode = node
 				} else {
-- 
2.43.0


From 25e1370ffeb479afc84fa00a1b960da68b043564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:00 +0000
Subject: [PATCH 10/14] fix: format verbs of the debug log

Encoded varbind data was not logged, and the close reason and the agentx
version were logged as formatting errors.
---
 agentx/payload_params.go | 2 +-
 agentx/pdu.go            | 2 +-
 agentx/varbind.go        | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 7a198bf..7f864e3 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -138,7 +138,7 @@ func parseCloseParamsDbg(d decoderDbg, pos int) (PayloadParams, int) {
 	d.log.Write("parsing first 4 bytes")
 	data, pos := d.nextChunk(pos, 4)
 	p.Reason = CloseReason(data[0])
-	d.log.Writef("parsed Reason: %d", p.Reason.String())
+	d.log.Writef("parsed Reason: %s", p.Reason.String())
 	if data[1] != 0 || data[2] != 0 || data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
diff --git a/agentx/pdu.go b/agentx/pdu.go
index 961162a..c5f87e3 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -293,7 +293,7 @@ func DecodePduHeaderDbg(data []byte, log logger.Log) (pdu Pdu, ok bool) {
 	log.Writef("parsed agentx version: %d, pdu.Tag: %s, pdu.Flags: %s",
 		data[0], pdu.Tag.String(), pdu.Flags.String())
 	if ok = data[0] == 1; !ok {
-		log.Writef("!!! Error. Invalid agentx version", data[0])
+		log.Writef("!!! Error. Invalid agentx version %d", data[0])
 		return
 	}
 	if ok = pdu.Tag.IsKnown(); !ok {
diff --git a/agentx/varbind.go b/agentx/varbind.go
index c927808..c19b7d1 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -48,8 +48,8 @@ func (e encoderDbg) appendVarbind(data []byte, vb asn.Varbind) []byte {
 	e.log.Write("appending Varbind Value")
 	data = vbtable[vb.Tag].appendValueDbg(e, data, vb.Value)
 
-	e.log.Writef("appended Varbind data:\n%s")
-	hex.DumpSub("    ", data, startindex, len(data))
+	e.log.Writef("appended Varbind data:\n%s",
+		hex.DumpSub("    ", data, startindex, len(data)))
 	return data
 }
 
-- 
2.43.0


From 0bcefe87a9a0c58b075a6f4b0a929d53cf133f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:01 +0000
Subject: [PATCH 11/14] fix: OIDs of the system group in the name table

The group is mib-2.1 (RFC 3418); its arc was missing, so sysDescr named
the group itself and sysOid collided with interfaces.
---
 oid/name.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/oid/name.go b/oid/name.go
index f6caa25..a6e42cc 100644
--- a/oid/name.go
+++ b/oid/name.go
@@ -12,21 +12,21 @@ var Name = map[string][]uint32{
 	"mib2":         {1, 3, 6, 1, 2, 1},
 	"enterprises":  {1, 3, 6, 1, 4, 1},
 	// System
-	"system":          {1, 3, 6, 1, 2, 1},
-	"sysDescr":        {1, 3, 6, 1, 2, 1, 1}, // OctetString  read-only
-	"sysOid":          {1, 3, 6, 1, 2, 1, 2}, // ObjectID     read-only
-	"sysUpTime":       {1, 3, 6, 1, 2, 1, 3}, // TimeTicks    read-only
-	"sysContact":      {1, 3, 6, 1, 2, 1, 4}, // OctetString  read-write
-	"sysName":         {1, 3, 6, 1, 2, 1, 5}, // OctetString  read-write
-	"sysLocation":     {1, 3, 6, 1, 2, 1, 6}, // OctetString  read-write
-	"sysServices":     {1, 3, 6, 1, 2, 1, 7}, // Integer32    read-only
-	"sysORLastChange": {1, 3, 6, 1, 2, 1, 8}, // TimeTicks    read-only
-	"sysORTable":      {1, 3, 6, 1, 2, 1, 9},
-	"sysOREntry":      {1, 3, 6, 1, 2, 1, 9, 1},
-	"sysORIndex":      {1, 3, 6, 1, 2, 1, 9, 1, 1}, // Integer32    not-accessible
-	"sysORID":         {1, 3, 6, 1, 2, 1, 9, 1, 2}, // ObjectID     read-only
-	"sysORDescr":      {1, 3, 6, 1, 2, 1, 9, 1, 3}, // OctetString  read-only
-	"sysORUpTime":     {1, 3, 6, 1, 2, 1, 9, 1, 4}, // TimeTicks    read-only
+	"system":          {1, 3, 6, 1, 2, 1, 1},
+	"sysDescr":        {1, 3, 6, 1, 2, 1, 1, 1}, // OctetString  read-only
+	"sysOid":          {1, 3, 6, 1, 2, 1, 1, 2}, // ObjectID     read-only
+	"sysUpTime":       {1, 3, 6, 1, 2, 1, 1, 3}, // TimeTicks    read-only
+	"sysContact":      {1, 3, 6, 1, 2, 1, 1, 4}, // OctetString  read-write
+	"sysName":         {1, 3, 6, 1, 2, 1, 1, 5}, // OctetString  read-write
+	"sysLocation":     {1, 3, 6, 1, 2, 1, 1, 6}, // OctetString  read-write
+	"sysServices":     {1, 3, 6, 1, 2, 1, 1, 7}, // Integer32    read-only
+	"sysORLastChange": {1, 3, 6, 1, 2, 1, 1, 8}, // TimeTicks    read-only
+	"sysORTable":      {1, 3, 6, 1, 2, 1, 1, 9},
+	"sysOREntry":      {1, 3, 6, 1, 2, 1, 1, 9, 1},
+	"sysORIndex":      {1, 3, 6, 1, 2, 1, 1, 9, 1, 1}, // Integer32    not-accessible
+	"sysORID":         {1, 3, 6, 1, 2, 1, 1, 9, 1, 2}, // ObjectID     read-only
+	"sysORDescr":      {1, 3, 6, 1, 2, 1, 1, 9, 1, 3}, // OctetString  read-only
+	"sysORUpTime":     {1, 3, 6, 1, 2, 1, 1, 9, 1, 4}, // TimeTicks    read-only
 	// Interfaces
 	"interfaces":    {1, 3, 6, 1, 2, 1, 2},
 	"ifNumber":      {1, 3, 6, 1, 2, 1, 2, 1}, // Integer32  read-only
-- 
2.43.0


From 5aae6f58fbfaf0a4ddabe9a1a696e761db581e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:26 +0000
Subject: [PATCH 12/14] fix: refuse to encode a PDU whose payload does not fit
 PayloadSize

A payload of 2^31 bytes or more was encoded with a negative or wrapped
payload size in its header, and reported as encoded.
---
 agentx/pdu.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index c5f87e3..4ff771f 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -1,6 +1,8 @@
 package agentx
 
 import (
+	"math"
+
 	"github.com/alexispb/mygosnmp/asn"
 	"github.com/alexispb/mygosnmp/hex"
 	"github.com/alexispb/mygosnmp/internal"
@@ -73,6 +75,9 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
+	if ok = payloadSize <= math.MaxInt32; !ok {
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 
 	data = make([]byte, 0, PduHeaderSize+payloadSize)
@@ -213,6 +218,10 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 	}
 
 	payloadSize := pdu.countPayloadSize()
+	if ok = payloadSize <= math.MaxInt32; !ok {
+		log.Writef("!!! Error. Payload size %d is too large", payloadSize)
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 	log.Writef("counted payload size: %d", payloadSize)
 
-- 
2.43.0


From 5f836ccb243ebe0d7eb44eca8321b55542df437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 13/14] fix: printing a list or OID of a named uint32 type
 panicked on a type assertion

---
 internal/struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 36e521e..d736e7f 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -80,8 +80,8 @@ func fprintValue(sb *strings.Builder, v reflect.Value, depth int) {
 		switch {
 		case v.Len() == 0:
 			sb.WriteString("<empty>")
-		case v.Type().Elem().Kind() == reflect.Uint32:
-			oid.Fprint(sb, v.Interface().([]uint32))
+		case v.Type().Elem() == reflect.TypeOf(uint32(0)):
+			oid.Fprint(sb, v.Convert(reflect.TypeOf([]uint32{})).Interface().([]uint32))
 		default:
 			prefix := Prefix(depth)
 			for i := 0; i < v.Len(); i++ {
-- 
2.43.0


From 6ec0843f0467fac243d762c42b0b68f9ac44152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 14/14] fix: a nil pointer or interface whose type has methods
 prints as <nil>

---
 internal/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/struct.go b/internal/struct.go
index d736e7f..7176b36 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -27,6 +27,9 @@ func StructsDiff(s1, s2 interface{}) string {
 }
 
 func tryFprintOrString(sb *strings.Builder, v reflect.Value) bool {
+	if (v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer) && v.IsNil() {
+		return false
+	}
 	if method := v.MethodByName("Fprint"); method.IsValid() {
 		t := method.Type()
 		if t.NumIn() == 1 && t.In(0).String() == "*strings.Builder" && t.NumOut() == 0 {
-- 
2.43.0

