From a91527be434739d6970d6580bfd2db11b4c71986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:27 +0000
Subject: [PATCH 01/34] fix: reject EPC tags which have no pure identity
 instead of panicking

Translate panicked on an empty ID and on a field value with more digits than
its field, and returned a truncated URN for the reserved partition value and an
empty one for an unknown header.
---
 tdt/core.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/tdt/core.go b/tdt/core.go
index f4e3877..9d3e912 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -84,6 +84,10 @@ func (c *Core) Translate(pc []byte, id []byte) (string, error) {
 func (c *Core) buildEPC(id []byte) (string, error) {
 	urn := ""
 
+	if len(id) == 0 {
+		return "", errors.New("Invalid ID")
+	}
+
 	// EPC Header
 	switch id[0] {
 	case 48: /* ------------- SGTIN-96 00110000 ------------- */
@@ -104,6 +108,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if !validFields(id, cpLength, ptm[CPBits], ptm[IRBits], ptm[IRDigits]) {
+			return "", errors.New("Invalid ID")
+		}
 		// COMPANY_PREFIX and ITEM_REFERENCE
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -280,6 +287,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if !validFields(id, cpLength, ptm[CPBits], ptm[EBits], ptm[EDigits]) {
+			return "", errors.New("Invalid ID")
+		}
 		// COMPANY_PREFIX and Extension
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -451,6 +461,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if !validFields(id, cpLength, ptm[CPBits], ptm[ATBits], ptm[ATDigits]) {
+			return "", errors.New("Invalid ID")
+		}
 		// COMPANY_PREFIX and ITEM_REFERENCE
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -629,6 +642,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if !validFields(id, cpLength, ptm[CPBits], ptm[IARBits], ptm[IARDigits]) {
+			return "", errors.New("Invalid ID")
+		}
 		// COMPANY_PREFIX and Individual Asset Reference
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -796,10 +812,30 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			z.SetBytes(iar)
 			urn += z.String()
 		}
+	default:
+		return "", errors.New("unknown EPC header")
 	}
 	return urn, nil
 }
 
+// validFields returns false if the partition value is reserved, or the value of
+// the company prefix or of the reference which follows exceeds its digits
+func validFields(id []byte, cpLength, cpBits, refBits, refDigits int) bool {
+	fits := func(offset, bits, digits int) bool {
+		var value, limit uint64 = 0, 1
+		for i := offset; i < offset+bits; i++ {
+			value = value<<1 | uint64(id[i/8]>>uint(7-i%8)&1)
+		}
+		for ; digits > 0; digits-- {
+			limit *= 10
+		}
+		return value < limit
+	}
+	// the company prefix starts after the header, the filter, and the partition
+	// a reference with no digit (GRAI with a 12-digit prefix) is not in the URN
+	return cpLength != 0 && fits(14, cpBits, cpLength) && (refDigits == 0 || fits(14+cpBits, refBits, refDigits))
+}
+
 func (c *Core) buildUII(id []byte, afi byte) (string, error) {
 	urn := "urn:epc:id:iso"
 	switch afi {
-- 
2.43.0


From 35d5ce7d61b350b7a9fcf314658ab5c91e9e2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:14 +0000
Subject: [PATCH 02/34] fix: check digit of ISO 17363 patterns is over the
 owner code and the equipment identifier

---
 tdt/iso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdt/iso.go b/tdt/iso.go
index 496bb84..8fdd5bb 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -79,7 +79,7 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 	} else if 6 < len(csn) {
 		return "", fmt.Errorf("Invalid csn: %v", csn)
 	}
-	cd, err := getISO6346CD(fields[0] + fields[1] + csn)
+	cd, err := getISO6346CD(fields[1] + fields[2] + csn)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 460418e7df25f9dc01ee2192713ba10c5038c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:14 +0000
Subject: [PATCH 03/34] fix: reject EPC patterns with fields which can't be
 encoded

---
 tdt/epc.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/tdt/epc.go b/tdt/epc.go
index 7bc64d3..3f24da7 100644
--- a/tdt/epc.go
+++ b/tdt/epc.go
@@ -172,6 +172,38 @@ func getSerial(s string, serialLength int) (serial []rune) {
 	return serial
 }
 
+// checkFields returns an error if a field isn't a number of its digits (or its bits,
+// without a number of digits); fields are filter, companyPrefix, reference, and serial
+func checkFields(fields []string, pt PartitionTable, bitsKey, digitsKey PartitionTableKey) error {
+	bits := []int{3, 0, 0, 38}
+	digits := []int{1, 0, 0, 0}
+	for i, field := range fields {
+		if i >= len(bits) {
+			break
+		}
+		if i == 1 {
+			pr, ok := pt[len(field)]
+			if !ok {
+				return fmt.Errorf("wrong fields: %q", fields)
+			}
+			bits[1], digits[1] = pr[CPBits], len(field)
+			bits[2], digits[2] = pr[bitsKey], pr[digitsKey]
+		}
+		n, err := strconv.ParseUint(field, 10, 64)
+		limit := uint64(1)
+		for j := 0; j < digits[i]; j++ {
+			limit *= 10
+		}
+		if digits[i] == 0 || i == 0 {
+			limit = 1 << uint(bits[i])
+		}
+		if err != nil || n >= limit {
+			return fmt.Errorf("wrong fields: %q", fields)
+		}
+	}
+	return nil
+}
+
 // NewPrefixFilterGIAI96 takes field values in a slice and return a prefix filter string
 func NewPrefixFilterGIAI96(fields []string) (string, error) {
 	nFields := len(fields) // filter, companyPrefix, indivisualAssetReference
@@ -179,6 +211,10 @@ func NewPrefixFilterGIAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, GIAI96PartitionTable, IARBits, IARDigits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -208,6 +244,10 @@ func NewPrefixFilterGRAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, GRAI96PartitionTable, ATBits, ATDigits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -243,6 +283,10 @@ func NewPrefixFilterSGTIN96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, SGTIN96PartitionTable, IRBits, IRDigits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -278,6 +322,10 @@ func NewPrefixFilterSSCC96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, SSCC96PartitionTable, EBits, EDigits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
-- 
2.43.0


From ebd5732311adfc272955172d73abde750dec2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:14 +0000
Subject: [PATCH 04/34] fix: reject fields which can't be encoded in an EPC

---
 scheme/epc.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index ec0b336..402bfd9 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -169,8 +169,41 @@ func GetSerial(s string, serialLength int) (serial []rune) {
 	return serial
 }
 
+// checkFields returns an error if a given field can't be encoded; blank ones are
+// skipped, as well as all the fields which follow a blank company prefix
+func checkFields(pt PartitionTable, bitsKey, digitsKey PartitionTableKey, fv, cp, ref, ser string) error {
+	fits := func(s string, bits, digits int) bool {
+		n, err := strconv.ParseUint(s, 10, 64)
+		limit := uint64(1)
+		for i := 0; i < digits; i++ {
+			limit *= 10
+		}
+		return err == nil && n>>uint(bits) == 0 && (digits == 0 || n < limit)
+	}
+	if fv != "" && !fits(fv, 3, 1) {
+		return errors.New("invalid filter: " + fv)
+	}
+	if cp == "" {
+		return nil
+	}
+	pr, ok := pt[len(cp)]
+	if !ok || !fits(cp, pr[CPBits], len(cp)) {
+		return errors.New("invalid companyPrefix: " + cp)
+	}
+	if ref != "" && !fits(ref, pr[bitsKey], pr[digitsKey]) {
+		return errors.New("invalid reference: " + ref)
+	}
+	if ser != "" && !fits(ser, 38, 0) {
+		return errors.New("invalid serial: " + ser)
+	}
+	return nil
+}
+
 // MakeGIAI96 generates GIAI-96
 func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, string, error) {
+	if err := checkFields(GIAI96PartitionTable, IARBits, IARDigits, fv, cp, iar, ""); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	if fv == "" {
 		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
@@ -232,6 +265,9 @@ func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, stri
 
 // MakeGRAI96 generates GRAI-96
 func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, string, string, error) {
+	if err := checkFields(GRAI96PartitionTable, ATBits, ATDigits, fv, cp, at, ser); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 
 	//CP
@@ -299,6 +335,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 
 // MakeSGTIN96 generates SGTIN-96
 func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte, string, string, error) {
+	if err := checkFields(SGTIN96PartitionTable, IRBits, IRDigits, fv, cp, ir, ser); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	// CP
 	if cp == "" {
@@ -365,6 +404,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 
 // MakeSSCC96 generates SSCC-96
 func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, string, error) {
+	if err := checkFields(SSCC96PartitionTable, EBits, EDigits, fv, cp, ext, ""); err != nil {
+		return []byte{}, "", "", err
+	}
 	filter := GetFilter(fv)
 	// CP
 	if cp == "" {
-- 
2.43.0


From fa80a65e5c8b1778128e7140271f2ceab7b8e464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:15 +0000
Subject: [PATCH 05/34] fix: generated references don't exceed their digits

---
 scheme/epc.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scheme/epc.go b/scheme/epc.go
index 402bfd9..2f8c491 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -82,8 +82,10 @@ func GetAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 			leftPadding := binutil.GenerateNLengthZeroPaddingRuneSlice(pr[ATBits] - len(assetType))
 			assetType = append(leftPadding, assetType...)
 		}
+	} else if pr[ATDigits] == 0 {
+		assetType = binutil.GenerateNLengthZeroPaddingRuneSlice(pr[ATBits])
 	} else {
-		assetType, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[ATBits], uint(math.Pow(float64(10), float64(pr[ATDigits]))))
+		assetType, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[ATBits], uint(math.Pow(float64(10), float64(pr[ATDigits])))-1)
 	}
 	return
 }
@@ -109,7 +111,7 @@ func GetExtension(e string, pr map[PartitionTableKey]int) (extension []rune) {
 			extension = append(leftPadding, extension...)
 		}
 	} else {
-		extension, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[EBits], uint(math.Pow(float64(10), float64(pr[EDigits]))))
+		extension, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[EBits], uint(math.Pow(float64(10), float64(pr[EDigits])))-1)
 	}
 	return
 }
@@ -150,7 +152,7 @@ func GetItemReference(ir string, pr map[PartitionTableKey]int) (itemReference []
 			itemReference = append(leftPadding, itemReference...)
 		}
 	} else {
-		itemReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IRBits], uint(math.Pow(float64(10), float64(pr[IRDigits]))))
+		itemReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IRBits], uint(math.Pow(float64(10), float64(pr[IRDigits])))-1)
 	}
 	return
 }
-- 
2.43.0


From 822e224f8bd6d0fe4772ab71268351ffa6e76dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:16 +0000
Subject: [PATCH 06/34] fix: the pattern of a generated filter value carries
 the value

---
 scheme/epc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index 2f8c491..803e184 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -271,6 +271,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 		return []byte{}, "", "", err
 	}
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 
 	//CP
 	if cp == "" {
@@ -341,6 +344,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 		return []byte{}, "", "", err
 	}
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 	// CP
 	if cp == "" {
 		if pf {
@@ -410,6 +416,9 @@ func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, stri
 		return []byte{}, "", "", err
 	}
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 	// CP
 	if cp == "" {
 		if pf {
-- 
2.43.0


From e6a88df3b2b41ea7277d462044581df995d00193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 07/34] fix: a filter doesn't match an ID shorter than itself
 instead of panicking

---
 filtering/filter_object.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filtering/filter_object.go b/filtering/filter_object.go
index f047b0e..ac37f44 100644
--- a/filtering/filter_object.go
+++ b/filtering/filter_object.go
@@ -57,6 +57,12 @@ func (f *FilterObject) HasByteAt(bo int) bool {
 // Match returns true if the id is captured by this filter
 func (f *FilterObject) Match(id []byte) bool {
 	for i := 0; i < f.ByteSize; i++ {
+		if f.ByteOffset+i >= len(id) { // the id is too short for the filter
+			if f.ByteMask[i] != 255 {
+				return false
+			}
+			continue
+		}
 		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
 			return false
 		}
-- 
2.43.0


From 7ea5891e850b57aadd018f1cca9d7798bc3d6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 08/34] fix: skip malformed patterns instead of subscribing to
 every tag

---
 filtering/subscriptions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index ddbdfa4..f353af7 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -129,6 +129,10 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 			pfs, err := tdt.MakePrefixFilterString(tf[0], fields)
 			if err != nil {
 				log.Print(err)
+				continue
+			}
+			if len(pfs) == 0 { // nothing to filter with
+				continue
 			}
 			bsub[pfs] = &PartialSubscription{
 				Offset:    0,
-- 
2.43.0


From 5e1b2c09f4f4aaf931e9f49a35e47cc4a30e5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 09/34] fix: PatriciaTrie reports to the subscription of the
 common prefix

---
 filtering/patricia_trie.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 85dfca7..edf9eab 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -438,6 +438,9 @@ func NewPatriciaTrie(sub Subscriptions) Engine {
 	}
 	pt.root = &PatriciaTrieNode{}
 	pt.root.filterObject = NewFilter(p1, 0)
+	if psub, ok := bsub[p1]; ok { // the common prefix itself is a subscription
+		pt.root.reportURI = psub.ReportURI
+	}
 	pt.root.build(p1, bsub)
 
 	// initialize the tdt.Core
-- 
2.43.0


From 200a41b9dadd9f77767defe9b23e5d39aa6bc9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 10/34] fix: decode the zero branch of a PatriciaTrieNode

---
 filtering/patricia_trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index edf9eab..e43034e 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -171,7 +171,7 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 	if err = dec.Decode(&hasZero); err != nil {
 		return
 	}
-	if hasOne {
+	if hasZero {
 		err = dec.Decode(&ptn.zero)
 	} else {
 		ptn.zero = nil
-- 
2.43.0


From 36771277a3542a1a3771b4336d07238c4d3f1487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 11/34] fix: keep the existing branches when a shorter filter
 is added to PatriciaTrie

---
 filtering/patricia_trie.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index e43034e..61aa7c1 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -204,7 +204,14 @@ func (ptn *PatriciaTrieNode) add(fs string, reportURI string) {
 		ptn.reportURI = ""
 		currentOffset := ptn.filterObject.Offset
 		ptn.filterObject = NewFilter(newCommonPrefix, currentOffset)
-		if ncpLength >= len(fs) {
+		if ncpLength >= len(fs) { // fs is a prefix of the current filter
+			ptn.reportURI = reportURI
+			ptn.one, ptn.zero = nil, nil
+			if newNode.filterObject.String[0] == '1' {
+				ptn.one = newNode
+			} else {
+				ptn.zero = newNode
+			}
 			return
 		}
 		switch fs[ncpLength] {
-- 
2.43.0


From f2ee0f95f8b81e17e3c022f1beca63ff58cdb3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 12/34] fix: delete the only filter of PatriciaTrie

---
 filtering/patricia_trie.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 61aa7c1..03a5ad2 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -335,6 +335,8 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 			ptn.reportURI = ptn.zero.reportURI
 			ptn.one = ptn.zero.one
 			ptn.zero = ptn.zero.zero
+		} else { // no node
+			ptn.reportURI = ""
 		}
 		return //end
 	}
-- 
2.43.0


From 7bef93fc89ed2b9f28409e33637be419bc4983e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 13/34] fix: PatriciaTrie doesn't delete the subscription of
 another report URI

---
 filtering/patricia_trie.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 03a5ad2..f42c48a 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -321,6 +321,9 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 
 	// This is the filter to delete
 	if fs == ptn.filterObject.String {
+		if ptn.reportURI != reportURI { // not the subscription to delete
+			return
+		}
 		if ptn.one != nil && ptn.zero != nil { // node in the middle
 			ptn.reportURI = ""
 		} else if ptn.one != nil { // has only one node
@@ -347,6 +350,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '1':
 			if ptn.one != nil {
 				if fs[ptn.filterObject.Size:] == ptn.one.filterObject.String &&
+					ptn.one.reportURI == reportURI &&
 					ptn.one.one == nil && ptn.one.zero == nil {
 					ptn.one = nil
 				} else {
@@ -356,6 +360,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '0':
 			if ptn.zero != nil {
 				if fs[ptn.filterObject.Size:] == ptn.zero.filterObject.String &&
+					ptn.zero.reportURI == reportURI &&
 					ptn.zero.one == nil && ptn.zero.zero == nil {
 					ptn.zero = nil
 				} else {
-- 
2.43.0


From 60474c0291e477ff6adf1c35a53e19ec48db8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 14/34] fix: SplayTree doesn't report to the empty URI of
 aggregation nodes

---
 filtering/splay_tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 6e9b33a..10343d4 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -319,7 +319,9 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
-		matches = append(matches, stn.reportURI)
+		if len(stn.reportURI) != 0 {
+			matches = append(matches, stn.reportURI)
+		}
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
 			matches = append(matches, stn.matchNext.splaySearch(st, nil, id)...)
-- 
2.43.0


From 38da02c8ff119d8b1e6413b05bc7e53ddc56601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 15/34] fix: SplayTree splays a subset node to the head of the
 subset instead of the root of the tree

---
 filtering/splay_tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 10343d4..a5601cd 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -324,7 +324,9 @@ func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id [
 		}
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
-			matches = append(matches, stn.matchNext.splaySearch(st, nil, id)...)
+			subset := &SplayTree{root: stn.matchNext}
+			matches = append(matches, stn.matchNext.splaySearch(subset, nil, id)...)
+			stn.matchNext = subset.root
 		}
 		// Do Splay
 		// 0. Check if this is the root node, do nothing if so
-- 
2.43.0


From cd01055a2c17bbceea362b8b84399287812e0d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 16/34] fix: SplayTree of no subscriptions

---
 filtering/splay_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index a5601cd..e3381da 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -212,6 +212,9 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 	current := stn
 	subscriptionSize := len(sub.Keys())
+	if subscriptionSize == 0 { // keep an aggregation node for the subscriptions to come
+		current.filterObject = NewFilter("", 0)
+	}
 	for i, fs := range sub.Keys() {
 		current.filterObject = NewFilter(fs, sub[fs].Offset)
 		current.reportURI = sub[fs].ReportURI
-- 
2.43.0


From 38aff1d0b2e9c62fea0237c570a69056be82e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 17/34] fix: nest the subsets of a filter added to SplayTree

---
 filtering/splay_tree.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index e3381da..aacffb0 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -197,6 +197,25 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 				stn.matchNext.add(fs[stn.filterObject.Size:], reportURI)
 			}
 		}
+	} else if strings.HasPrefix(stn.filterObject.String, fs) { // the current node is a subset of fs
+		// make a node of fs with the current node and its siblings in fs as the subset
+		subset := *stn
+		subset.mismatchNext = nil
+		stn.matchNext = &subset
+		for next := &stn.mismatchNext; *next != nil; {
+			if n := *next; strings.HasPrefix(n.filterObject.String, fs) {
+				*next = n.mismatchNext
+				n.mismatchNext = stn.matchNext
+				stn.matchNext = n
+			} else {
+				next = &n.mismatchNext
+			}
+		}
+		for n := stn.matchNext; n != nil; n = n.mismatchNext {
+			n.filterObject = NewFilter(n.filterObject.String[len(fs):], n.filterObject.Offset+len(fs))
+		}
+		stn.filterObject = NewFilter(fs, stn.filterObject.Offset)
+		stn.reportURI = reportURI
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext == nil { // there's no mismatchNext node
 			stn.mismatchNext = &SplayTreeNode{}
-- 
2.43.0


From 3d4e895d890444c3a9cee375736f0fa7782f4974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 18/34] fix: SplayTree deletes the only filter, and no
 subscription of another report URI

---
 filtering/splay_tree.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index aacffb0..bf7a954 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -258,7 +258,11 @@ func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // this node is to delete
-			if stn.matchNext == nil && stn.mismatchNext == nil { // something wrong
+			if stn.reportURI != reportURI { // not the subscription to delete
+				return
+			}
+			if stn.matchNext == nil && stn.mismatchNext == nil { // the only node
+				stn.reportURI = ""
 			} else if stn.matchNext != nil { // if there is subset, keep the node as an aggregation node
 				if stn.matchNext.mismatchNext != nil {
 					stn.reportURI = ""
@@ -276,6 +280,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 		} else { // it's a subset (matching branch) of the current node, and there's no matchNext node
 			if stn.matchNext != nil { // if there's a matchNext node
 				if fs[stn.filterObject.Size:] == stn.matchNext.filterObject.String &&
+					stn.matchNext.reportURI == reportURI &&
 					stn.matchNext.matchNext == nil && stn.matchNext.mismatchNext == nil { // the matchNext is to delete
 					stn.matchNext = nil
 				} else {
@@ -286,6 +291,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext != nil { // there's a mismatchNext node
 			if fs == stn.mismatchNext.filterObject.String &&
+				stn.mismatchNext.reportURI == reportURI &&
 				stn.mismatchNext.matchNext == nil && stn.mismatchNext.mismatchNext == nil {
 				stn.mismatchNext = nil
 			} else {
-- 
2.43.0


From 2442e12dddf5ea22bfeeddc786a1e882bd508f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 19/34] fix: LegacyEngine deletes each pattern of a
 subscription and doesn't share the caller's slices

---
 filtering/legacy_engine.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 9b65599..6a6b5c2 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -20,7 +20,7 @@ type LegacyEngine struct {
 func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
 		if reportURIs, ok := le.filters[f]; !ok {
-			le.filters[f] = sub[f]
+			le.filters[f] = append([]string{}, sub[f]...)
 		} else {
 			for _, dest := range sub[f] {
 				if stringIndexInSlice(dest, reportURIs) < 0 {
@@ -39,7 +39,8 @@ func (le *LegacyEngine) DeleteSubscription(sub Subscriptions) {
 		} else {
 			for _, dest := range sub[f] {
 				if i := stringIndexInSlice(dest, reportURIs); i > -1 {
-					le.filters[f] = append(reportURIs[:i], reportURIs[i+1:]...)
+					reportURIs = append(reportURIs[:i], reportURIs[i+1:]...)
+					le.filters[f] = reportURIs
 				}
 			}
 			if len(le.filters[f]) == 0 {
-- 
2.43.0


From 7f2779ee508a575086c99412f3b692832b774525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 20/34] fix: LegacyEngine restores its filters when decoded

---
 filtering/legacy_engine.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 6a6b5c2..a7b40aa 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -147,6 +147,8 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 		return fmt.Errorf("Wrong Filtering Engine: %s", typeOfEngine)
 	}
 
+	le.filters = Subscriptions{}
+
 	// Size of LegacyEngine
 	var legacyEngineSize int
 	if err = dec.Decode(&legacyEngineSize); err != nil {
@@ -164,12 +166,15 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		var reportURIs []string
-		for j := 0; j < legacyEngineSize; j++ {
+		for j := 0; j < reportURIsSize; j++ {
 			// reportURI
 			var dest string
-			err = dec.Decode(&dest)
+			if err = dec.Decode(&dest); err != nil {
+				return
+			}
 			reportURIs = append(reportURIs, dest)
 		}
+		le.filters[f] = reportURIs
 	}
 
 	// tdt.Core
-- 
2.43.0


From abccf3a95cda23ab4c831e2f091a828cc4fa8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:49 +0000
Subject: [PATCH 21/34] fix: LegacyEngine matches whole fields of the pure
 identity

---
 filtering/legacy_engine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index a7b40aa..7dc4277 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -126,7 +126,12 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 			case "iso17365":
 				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
 			}
-			if strings.HasPrefix(strings.TrimPrefix(pureIdentity, "urn:epc:id:"), pattern) {
+			identity := strings.TrimPrefix(pureIdentity, "urn:epc:id:")
+			if strings.HasSuffix(patternType, "-96") && !strings.HasSuffix(pattern, ":") {
+				// match whole fields, not the beginning of a longer one
+				identity, pattern = identity+".", pattern+"."
+			}
+			if strings.HasPrefix(identity, pattern) {
 				reportURIs = append(reportURIs, reportURI)
 			}
 		}
-- 
2.43.0


From 7b58c0b49d77f7136d195208f398b271c16a99b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:46 +0000
Subject: [PATCH 22/34] fix: LegacyEngine skips malformed patterns like the
 other engines

---
 filtering/legacy_engine.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 7dc4277..7adac72 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -98,11 +98,16 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 	for reportURI, patterns := range le.filters {
 		for _, pattern := range patterns {
 			seq := strings.Split(pattern, ":")
-			if len(seq) != 5 {
+			if len(seq) != 5 || !strings.HasPrefix(pattern, "urn:epc:pat:") {
 				continue
 			}
 			patternType := seq[3]
 			pattern := seq[4]
+			// skip malformed patterns like the other engines
+			pfs, err := tdt.MakePrefixFilterString(patternType, strings.Split(strings.ToUpper(pattern), "."))
+			if err != nil || len(pfs) == 0 {
+				continue
+			}
 
 			switch patternType {
 			case "giai-96":
@@ -122,9 +127,9 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 				// remove filter value in tag uri to match with the received PureIdentity
 				pattern = "sscc:" + strings.Join(fields[1:], ".")
 			case "iso17363":
-				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
+				pattern = patternType + ":" + strings.ToUpper(strings.Replace(pattern, ".", "", -1))
 			case "iso17365":
-				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
+				pattern = patternType + ":" + strings.ToUpper(strings.Replace(pattern, ".", "", -1))
 			}
 			identity := strings.TrimPrefix(pureIdentity, "urn:epc:id:")
 			if strings.HasSuffix(patternType, "-96") && !strings.HasSuffix(pattern, ":") {
-- 
2.43.0


From 91d09003c5af49a1a02085aef9a0f7483276aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 23/34] fix: reject ISO patterns with characters which have no
 six-bit form

---
 tdt/iso.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tdt/iso.go b/tdt/iso.go
index 8fdd5bb..8b39d0e 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -45,6 +45,18 @@ func pad6BitEncodingRuneSlice(bs []rune) ([]rune, int) {
 	return bs, length
 }
 
+// checkSixBitFields returns an error if a field has a character without 6-bit form
+func checkSixBitFields(fields []string) error {
+	for _, field := range fields {
+		for _, r := range field {
+			if r < 32 || r > 95 {
+				return fmt.Errorf("wrong fields: %q", fields)
+			}
+		}
+	}
+	return nil
+}
+
 // NewPrefixFilterISO17363 takes fields and return the prefix filter in string
 func NewPrefixFilterISO17363(fields []string) (string, error) {
 	nFields := len(fields) // ownerCode, equipmentIdentifier, containerSerialNumber
@@ -53,6 +65,10 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkSixBitFields(fields); err != nil {
+		return "", err
+	}
+
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
 	if nFields == 1 {
@@ -99,6 +115,10 @@ func NewPrefixFilterISO17365(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkSixBitFields(fields); err != nil {
+		return "", err
+	}
+
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
 	if nFields == 1 {
-- 
2.43.0


From 89e6c17c9abc5415ce55fe1209b799017ddfa439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:00 +0000
Subject: [PATCH 24/34] fix: count a match in the report of its search

---
 filtering/engine.go           | 10 ++++++++--
 filtering/engine_generator.go | 18 ++++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/filtering/engine.go b/filtering/engine.go
index 1f6ab42..217e0b4 100644
--- a/filtering/engine.go
+++ b/filtering/engine.go
@@ -40,9 +40,15 @@ var AvailableEngines = Engines{
 }
 
 /* internal helper func */
+// searchStat is the time a search took and whether it matched any subscription
+type searchStat struct {
+	elapsed time.Duration
+	matched bool
+}
+
 // timeTrack measures the time it taken from the start
-func timeTrack(start time.Time, tpech chan time.Duration) {
-	tpech <- time.Since(start)
+func timeTrack(start time.Time, matched *bool, tpech chan searchStat) {
+	tpech <- searchStat{time.Since(start), *matched}
 }
 
 // findPartialLCP discovers the the commonPrefix of which the majority share
diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index 77f0d4b..2bec427 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -23,7 +23,7 @@ type EngineGenerator struct {
 	Name                string
 	Engine              Engine
 	managementChannel   chan ManagementMessage
-	timePerEventChannel chan time.Duration
+	timePerEventChannel chan searchStat
 	totalTime           int64
 	CurrentThroughput   float64
 	EventCount          int64
@@ -64,7 +64,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 		},
 	)
 
-	eg.timePerEventChannel = make(chan time.Duration)
+	eg.timePerEventChannel = make(chan searchStat)
 	go func() {
 		intervalTicker := time.NewTicker(time.Duration(eg.statInterval) * time.Second)
 
@@ -74,9 +74,12 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 				if !ok {
 					log.Fatalf("throughput monitor in EngingGenerator[%s] died", eg.Name)
 				}
-				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.Nanoseconds())
-				eg.totalTime += t.Nanoseconds() / 1000 // microseconds
+				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.elapsed.Nanoseconds())
+				eg.totalTime += t.elapsed.Nanoseconds() / 1000 // microseconds
 				eg.EventCount++
+				if t.matched {
+					eg.MatchedCount++
+				}
 			case <-intervalTicker.C:
 				//log.Printf("%v, %v, %v", eg.Name, eg.EventCount, eg.MatchedCount)
 				eg.managementChannel <- ManagementMessage{
@@ -106,11 +109,10 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 
 // Search do search in the generated engine
 func (eg *EngineGenerator) Search(re llrp.ReadEvent) (string, []string, error) {
-	defer timeTrack(time.Now(), eg.timePerEventChannel)
+	matched := false
+	defer timeTrack(time.Now(), &matched, eg.timePerEventChannel)
 	pureIdentity, reportURIs, err := eg.Engine.Search(re)
-	if len(reportURIs) != 0 {
-		eg.MatchedCount++
-	}
+	matched = len(reportURIs) != 0
 	return pureIdentity, reportURIs, err
 }
 
-- 
2.43.0


From 8893607c900d87e11e6f39e6efb392a3779e4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:05 +0000
Subject: [PATCH 25/34] fix: measure the throughput of an engine in nanoseconds

---
 filtering/engine_generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index 2bec427..42f3e9e 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -75,7 +75,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					log.Fatalf("throughput monitor in EngingGenerator[%s] died", eg.Name)
 				}
 				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.elapsed.Nanoseconds())
-				eg.totalTime += t.elapsed.Nanoseconds() / 1000 // microseconds
+				eg.totalTime += t.elapsed.Nanoseconds()
 				eg.EventCount++
 				if t.matched {
 					eg.MatchedCount++
@@ -88,8 +88,8 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					EventCount:   eg.EventCount,
 					MatchedCount: eg.MatchedCount,
 				}
-				throughput := float64(eg.EventCount) / float64(eg.totalTime)
-				if throughput != 0 && !math.IsNaN(throughput) {
+				throughput := float64(eg.EventCount*1000) / float64(eg.totalTime) // events per microsecond
+				if eg.totalTime != 0 && throughput != 0 && !math.IsNaN(throughput) {
 					eg.CurrentThroughput = throughput
 					eg.managementChannel <- ManagementMessage{
 						Type:              EngineStatus,
-- 
2.43.0


From f790818455242491b438b7e407d4a4c159448658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:28 +0000
Subject: [PATCH 26/34] fix: the engine factory doesn't take back the messages
 it sends to main

---
 filtering/engine_factory.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 0bf2319..1057f6d 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -84,9 +84,10 @@ func NewEngineFactory(sub Subscriptions, statInterval int, mc chan ManagementMes
 // Run starts the engine factory to react with the ManagementChannel
 func (ef *EngineFactory) Run() {
 	log.Println("[EngineFactory] start running")
-	// set channels from EngineGenerators + main
-	cases := make([]reflect.SelectCase, len(ef.generatorChannels)+1)
-	for i, ch := range append(ef.generatorChannels, ef.mainChannel) {
+	// set channels from EngineGenerators; mainChannel carries what the factory
+	// sends, so listening to it as well takes the messages away from main
+	cases := make([]reflect.SelectCase, len(ef.generatorChannels))
+	for i, ch := range ef.generatorChannels {
 		cases[i] = reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}
 	}
 	go func() {
-- 
2.43.0


From 8245c7c96910a0f39d4027840070d68feb6f9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:13 +0000
Subject: [PATCH 27/34] fix: engines are announced in the order in which they
 come into use

---
 filtering/engine_factory.go | 57 +++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 1057f6d..d12d762 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -81,6 +81,27 @@ func NewEngineFactory(sub Subscriptions, statInterval int, mc chan ManagementMes
 	return ef
 }
 
+// adoptEngine takes the engine with the best throughput into use
+func (ef *EngineFactory) adoptEngine() {
+	var ename string
+	perf := float64(0)
+	ef.enginePerformance.Range(func(k, v interface{}) bool {
+		if reflect.ValueOf(v).Float() > perf {
+			ename = reflect.ValueOf(k).String()
+			perf = reflect.ValueOf(v).Float()
+		}
+		return true
+	})
+	if ef.currentEngineName != ename && len(ename) != 0 {
+		log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngineName)
+		ef.currentEngineName = ename
+	}
+	ef.mainChannel <- ManagementMessage{
+		Type:       SelectedEngine,
+		EngineName: ef.currentEngineName,
+	}
+}
+
 // Run starts the engine factory to react with the ManagementChannel
 func (ef *EngineFactory) Run() {
 	log.Println("[EngineFactory] start running")
@@ -90,41 +111,23 @@ func (ef *EngineFactory) Run() {
 	for i, ch := range ef.generatorChannels {
 		cases[i] = reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}
 	}
-	go func() {
-		log.Println("[EngineFactory] setting up selective adoption handler")
-		intervalTicker := time.NewTicker(time.Duration(ef.statInterval) * time.Second)
-		for {
-			select {
-			case <-intervalTicker.C:
-				var ename string
-				perf := float64(0)
-				ef.enginePerformance.Range(func(k, v interface{}) bool {
-					if reflect.ValueOf(v).Float() > perf {
-						ename = reflect.ValueOf(k).String()
-						perf = reflect.ValueOf(v).Float()
-					}
-					return true
-				})
-				if ef.currentEngineName != ename && len(ename) != 0 {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngineName)
-					ef.currentEngineName = ename
-				}
-				ef.mainChannel <- ManagementMessage{
-					Type:       SelectedEngine,
-					EngineName: ef.currentEngineName,
-				}
-			}
-		}
-	}()
+	// the end of an interval is one more case, so that engines are announced in the
+	// order in which they come into use
+	intervalTicker := time.NewTicker(time.Duration(ef.statInterval) * time.Second)
+	cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(intervalTicker.C)})
 
 	go func() {
 		log.Println("[EngineFactory] setting up managementChannel listener")
 
 		for {
-			_, val, ok := reflect.Select(cases)
+			chosen, val, ok := reflect.Select(cases)
 			if !ok {
 				break
 			}
+			if chosen == len(ef.generatorChannels) {
+				ef.adoptEngine()
+				continue
+			}
 			//msg, _ := reflect.ValueOf(val).Interface().(ManagementMessage)
 			msg := ManagementMessage{
 				Type:                    val.FieldByName("Type").Interface().(ManagementMessageType),
-- 
2.43.0


From 47abc433574023f967db5d1bc9a2bac89489506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 28/34] fix: write the point of a message once, not with every
 later one

---
 monitoring/stat_manager.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index acfbe27..f6fdb39 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -31,15 +31,6 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 	}
 	defer c.Close()
 
-	// create a new point batch
-	bp, err := client.NewBatchPoints(client.BatchPointsConfig{
-		Database:  db,
-		Precision: "ns",
-	})
-	if err != nil {
-		log.Fatal(err)
-	}
-
 	// make the stat message channel
 	smc := make(chan StatMessage)
 
@@ -95,9 +86,16 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			if err != nil {
 				log.Fatal(err)
 			}
-			bp.AddPoint(pt)
 
-			// write the batch
+			// write the point in a batch of its own
+			bp, err := client.NewBatchPoints(client.BatchPointsConfig{
+				Database:  db,
+				Precision: "ns",
+			})
+			if err != nil {
+				log.Fatal(err)
+			}
+			bp.AddPoint(pt)
 			if err := c.Write(bp); err != nil {
 				log.Fatal(err)
 			}
-- 
2.43.0


From b09b1ffb6758b8bc57f8fa5db4499f5cd5148944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 29/34] fix: start from the message ID of --initialMessageID

---
 cmd/gosstrak-fc/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index ff9734e..40457e0 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -103,7 +103,7 @@ var (
 	cmdStart = app.Command("start", "Start the gosstrak-fc.")
 
 	// Current messageID
-	currentMessageID = uint32(*llrpInitialMessageID)
+	currentMessageID uint32
 )
 
 func getPackagePath() string {
@@ -117,6 +117,8 @@ func getPackagePath() string {
 
 func run() {
 	log.Println("initializing gosstrak-fc for master mode...")
+	// the flag has its value only now that the command line is parsed
+	currentMessageID = uint32(*llrpInitialMessageID)
 
 	// setup StatManager
 	var sm *monitoring.StatManager
-- 
2.43.0


From 97d0a6169cd4e690bf5233c876f579e3fc11853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:19 +0000
Subject: [PATCH 30/34] fix: report the error of text which isn't whole bytes

---
 cmd/gobtags/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gobtags/main.go b/cmd/gobtags/main.go
index 1fb7478..48be0c0 100644
--- a/cmd/gobtags/main.go
+++ b/cmd/gobtags/main.go
@@ -25,7 +25,7 @@ var (
 func makeByteID(s string) ([]byte, error) {
 	id, err := binutil.ParseBinRuneSliceToUint8Slice([]rune(s))
 	if err != nil {
-		return []byte{}, nil
+		return []byte{}, err
 	}
 	return binutil.Pack([]interface{}{id}), err
 }
-- 
2.43.0


From 9966655ce6d4ee499054fbcf732d69b349b75643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:53 +0000
Subject: [PATCH 31/34] fix: a restored engine keeps nothing of what it had
 before

---
 filtering/list.go          | 1 +
 filtering/patricia_trie.go | 1 +
 filtering/splay_tree.go    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/filtering/list.go b/filtering/list.go
index 1a9a8e1..c70d0d0 100644
--- a/filtering/list.go
+++ b/filtering/list.go
@@ -135,6 +135,7 @@ func (list *List) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	list.filters = nil
 	for i := 0; i < listSize; i++ {
 		em := ExactMatch{}
 		// Notify
diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index f42c48a..693b55d 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -95,6 +95,7 @@ func (pt *PatriciaTrie) UnmarshalBinary(data []byte) (err error) {
 	}
 
 	// Decode PatriciaTrieNode
+	pt.root = nil
 	err = dec.Decode(&pt.root)
 
 	// tdt.Core
diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index bf7a954..530c18a 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -95,6 +95,7 @@ func (st *SplayTree) UnmarshalBinary(data []byte) (err error) {
 	}
 
 	// Decode SplayTreeNode
+	st.root = nil
 	err = dec.Decode(&st.root)
 
 	// tdt.Core
-- 
2.43.0


From faab74ac2f7429a8c65223212d8ab313ff02bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:35 +0000
Subject: [PATCH 32/34] fix: the factory doesn't announce an engine while there
 is none

---
 filtering/engine_factory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index d12d762..cfaac9c 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -96,6 +96,9 @@ func (ef *EngineFactory) adoptEngine() {
 		log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngineName)
 		ef.currentEngineName = ename
 	}
+	if !ef.IsActive() {
+		return // no engine is generated yet
+	}
 	ef.mainChannel <- ManagementMessage{
 		Type:       SelectedEngine,
 		EngineName: ef.currentEngineName,
-- 
2.43.0


From 52112693db3c3755fdd4c86abf39238c2eca83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:04 +0000
Subject: [PATCH 33/34] fix: every engine searches for every tag, also if
 another one comes into use meanwhile

---
 filtering/engine_factory.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index cfaac9c..26d3104 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -38,12 +38,14 @@ func (ef *EngineFactory) IsActive() bool {
 
 // Search is a wrapper for Search() with the current EngineGenerator
 func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
+	// another engine may come into use during the search
+	current := ef.currentEngineName
 	for name, eg := range ef.productionSystem {
-		if name != ef.currentEngineName && eg.FSM.Is("ready") {
+		if name != current && eg.FSM.Is("ready") {
 			_, _, _ = eg.Search(re)
 		}
 	}
-	return ef.productionSystem[ef.currentEngineName].Search(re)
+	return ef.productionSystem[current].Search(re)
 }
 
 // NewEngineFactory returns the pointer to a new EngineFactory instance
-- 
2.43.0


From 8e4c3e3495758fa4bd1cb72e62e5757cb284140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:54 +0000
Subject: [PATCH 34/34] fix: the name of the engine in use is read and written
 under a lock

---
 filtering/engine_factory.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 26d3104..d400b70 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -24,22 +24,37 @@ type EngineFactory struct {
 	productionSystem     map[string]*EngineGenerator
 	deploymentPriority   map[string]uint8
 	enginePerformance    sync.Map
+	currentEngineMutex   sync.RWMutex
 	currentEngineName    string
 	statInterval         int
 }
 
 // IsActive returns false if no engine is available
 func (ef *EngineFactory) IsActive() bool {
-	if len(ef.currentEngineName) == 0 {
+	if len(ef.currentEngine()) == 0 {
 		return false
 	}
 	return true
 }
 
+// currentEngine returns the name of the engine in use, empty if there is none
+func (ef *EngineFactory) currentEngine() string {
+	ef.currentEngineMutex.RLock()
+	defer ef.currentEngineMutex.RUnlock()
+	return ef.currentEngineName
+}
+
+// useEngine takes the engine of the name into use
+func (ef *EngineFactory) useEngine(name string) {
+	ef.currentEngineMutex.Lock()
+	defer ef.currentEngineMutex.Unlock()
+	ef.currentEngineName = name
+}
+
 // Search is a wrapper for Search() with the current EngineGenerator
 func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
 	// another engine may come into use during the search
-	current := ef.currentEngineName
+	current := ef.currentEngine()
 	for name, eg := range ef.productionSystem {
 		if name != current && eg.FSM.Is("ready") {
 			_, _, _ = eg.Search(re)
@@ -96,7 +111,7 @@ func (ef *EngineFactory) adoptEngine() {
 	})
 	if ef.currentEngineName != ename && len(ename) != 0 {
 		log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngineName)
-		ef.currentEngineName = ename
+		ef.useEngine(ename)
 	}
 	if !ef.IsActive() {
 		return // no engine is generated yet
@@ -176,7 +191,7 @@ func (ef *EngineFactory) Run() {
 				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
 				if len(ef.currentEngineName) == 0 {
 					log.Printf("[EngineFactory] set %s as an initial engine", msg.EngineGeneratorInstance.Name)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+					ef.useEngine(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
 						EngineName: ef.currentEngineName,
@@ -185,7 +200,7 @@ func (ef *EngineFactory) Run() {
 				}
 				if ef.deploymentPriority[ef.currentEngineName] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
 					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+					ef.useEngine(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
 						EngineName: ef.currentEngineName,
-- 
2.43.0

