From f1465e7e0b83e13dd7659642afccf0dfc7ddcb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:13 +0000
Subject: [PATCH 001/135] fix: bech32 decoding ignored the human readable part,
 witness version and padding, and crashed on short strings

---
 addressEncoder/addressEncoder.go | 3 +++
 addressEncoder/bech32/bech32.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 8f279da..506cf64 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -261,6 +261,9 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		if len(ret) != 20 && len(ret) != 32 {
 			return nil, ErrorInvalidHashLength
 		}
+		if bech32.Encode(addresstype.ChecksumType, addresstype.Alphabet, ret, addresstype.Prefix) != strings.ToLower(address) {
+			return nil, ErrorInvalidAddress
+		}
 		return ret, nil
 	}
 	if addresstype.EncodeType == "base32PolyMod" {
diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index cb0bcd6..dfb9f1b 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -384,6 +384,9 @@ func Decode(address, alphabet string) ([]byte, error) {
 	}
 
 	prefixStr := strings.Split(address, "1")[0]
+	if prefixSize == 0 || len(address)-prefixSize-1 < 6+2 {
+		return nil, ErrorInvalidAddress
+	}
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
-- 
2.43.0


From 447fcd32195c509ede33f2936f8641155a5a3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:13 +0000
Subject: [PATCH 002/135] fix: bech32m decoding reported success for a foreign
 prefix, checksum or length

---
 addressEncoder/addressEncoder.go  | 9 ++++++++-
 addressEncoder/bech32m/bech32m.go | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 506cf64..452b1d2 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -250,7 +250,14 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 
 	if addresstype.EncodeType == "bech32m" {
-		return bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		ret, err := bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		if err != nil {
+			return nil, err
+		}
+		if len(ret) != addresstype.HashLen {
+			return nil, ErrorInvalidHashLength
+		}
+		return ret, nil
 	}
 
 	if addresstype.EncodeType == "bech32" {
diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e4d2d83..e7d3669 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -171,9 +171,12 @@ func Bech32mEncode(prefix string, data []byte, charset string) (string, error) {
 
 func Bech32mDecode(address, prefix string, charset string) ([]byte, error) {
 	prechk, data, spec, err := Decode(address, charset)
-	if err != nil || prechk != prefix || spec != Bech32m {
+	if err != nil {
 		return nil, err
 	}
+	if prechk != prefix || spec != Bech32m {
+		return nil, fmt.Errorf("Invalid prefix or checksum type")
+	}
 
 	hash, err := Convertbits(data, 5, 8, false)
 	if err != nil {
-- 
2.43.0


From 9237d6af0569c3ed0092726a5bc99e0c8b9690da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:13 +0000
Subject: [PATCH 003/135] fix: cashaddr decoding skipped the checksum for other
 prefixes and crashed on short strings

---
 addressEncoder/base32PolyMod/base32PolyMod.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index ffa3e92..5a104fa 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -198,7 +198,10 @@ func Decode(address, alphabet string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	prefixStr := strings.Split(address, ":")[0]
+	prefixStr := strings.ToLower(strings.Split(address, ":")[0])
+	if prefixSize == 0 || len(address)-prefixSize-1 < 8+2 {
+		return nil, ErrorInvalidAddress
+	}
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
@@ -210,15 +213,18 @@ func Decode(address, alphabet string) ([]byte, error) {
 		value[i] = charRev[c]
 	}
 
-	if prefixStr == "bitcoincash" {
-		if !verifyChecksum(bitcoincashExpandPrefix, value) {
-			return nil, ErrorInvalidAddress
-		}
+	if prefixStr != "bitcoincash" || !verifyChecksum(bitcoincashExpandPrefix, value) {
+		return nil, ErrorInvalidAddress
 	}
 
 	tmp := make([]int8, len(value)-8)
 	copy(tmp, value)
 
+	padding := uint(len(tmp) * 5 % 8)
+	if padding >= 5 || tmp[len(tmp)-1]&(1<<padding-1) != 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	ret := unecxtendPayload(tmp)
 
 	bytePayload := make([]byte, len(ret))
-- 
2.43.0


From 43c8f73e14643ab9ce5fdd4954314c088476f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 004/135] fix: checksum and prefix checks indexed past the end
 of short payloads

---
 addressEncoder/addressEncoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 452b1d2..8d977cc 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -56,6 +56,9 @@ func verifyChecksum(data []byte, chkType string) bool {
 		return false
 	}
 	checksum := calcChecksum(data[:len(data)-4], chkType)
+	if len(checksum) != 4 {
+		return false
+	}
 	for i := 0; i < 4; i++ {
 		if checksum[i] != data[len(data)-4+i] {
 			return false
@@ -77,6 +80,9 @@ func catData(data1 []byte, data2 []byte) []byte {
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
+	if len(data) < len(prefix)+len(suffix) {
+		return nil, ErrorInvalidAddress
+	}
 	for i := 0; i < len(prefix); i++ {
 		if data[i] != prefix[i] {
 			return nil, ErrorInvalidAddress
-- 
2.43.0


From c614a554bb4611df8548be087b34c42d52ac4512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 005/135] fix: public keys were not hashed for bech32 and
 cashaddr address types

---
 addressEncoder/addressEncoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 8d977cc..3ac4e79 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -174,6 +174,9 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 	}
 
 	if addresstype.EncodeType == "bech32" {
+		if len(hash) == 33 || len(hash) == 65 {
+			hash = calcHash(hash, addresstype.HashType)
+		}
 		return bech32.Encode(addresstype.ChecksumType, addresstype.Alphabet, hash, addresstype.Prefix)
 	}
 
@@ -182,6 +185,10 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 	}
 
 	if addresstype.EncodeType == "base32PolyMod" {
+		if len(hash) == addresstype.HashLen-1 {
+			// key hash only : the address type byte is P2PKH
+			hash = append([]byte{0x00}, hash...)
+		}
 		return base32PolyMod.Encode(addresstype.ChecksumType, addresstype.Alphabet, hash)
 	}
 	if addresstype.EncodeType == "eip55" {
-- 
2.43.0


From 26aee0ca36df1027aebe37cbe7d45fcb244cb686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 006/135] fix: hexadecimal address decoders crashed on strings
 shorter than their prefix

---
 addressEncoder/addressEncoder.go | 2 +-
 addressEncoder/eip55/eip55.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 3ac4e79..6479f5e 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -307,7 +307,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		return ret, nil
 	}
 	if addresstype.EncodeType == "ICX" {
-		if address[0] != 'h' || address[1] != 'x' {
+		if !strings.HasPrefix(address, "hx") {
 			return nil, ErrorInvalidAddress
 		} else {
 			if len(address)-2 != 40 {
diff --git a/addressEncoder/eip55/eip55.go b/addressEncoder/eip55/eip55.go
index 8727322..eed4331 100644
--- a/addressEncoder/eip55/eip55.go
+++ b/addressEncoder/eip55/eip55.go
@@ -92,7 +92,7 @@ func Eip55_decode(encode_addr string)([]byte,error){
 		return nil,ErrorInvalidAddress
 	}
 	*/
-	if encode_addr[0:2] == "0x" {
+	if len(encode_addr) >= 2 && encode_addr[0:2] == "0x" {
 		encode_addr = encode_addr[2:]
 	}
 	decode_addr,err :=hex.DecodeString(encode_addr)
-- 
2.43.0


From bd8bbd6d4c0a43c7dffae51137a78bda7e09a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 007/135] fix: monero decoder accepted non canonical blocks

---
 addressEncoder/addressEncoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 6479f5e..f3b97b8 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -367,6 +367,9 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 			fmt.Printf("recover data failed!!!")
 			return nil, err
 		}
+		if AddressEncode(ret, addresstype) != address {
+			return nil, ErrorInvalidAddress
+		}
 		return ret, nil
 	}
 
-- 
2.43.0


From ac96f3619ff1632c056e29d099aa2e1b149b9b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 008/135] fix: EOS and AE decoders did not check the prefix and
 key length

---
 addressEncoder/aeternity.go | 6 ++++++
 addressEncoder/eos.go       | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/addressEncoder/aeternity.go b/addressEncoder/aeternity.go
index 3149d57..64d189d 100644
--- a/addressEncoder/aeternity.go
+++ b/addressEncoder/aeternity.go
@@ -13,6 +13,8 @@ func decodeAE(pubKey string, addresstype AddressType) ([]byte, error) {
 	var pubKeyMaterial string
 	if strings.HasPrefix(pubKey, AEPrefixAccountPubkey) {
 		pubKeyMaterial = pubKey[len(AEPrefixAccountPubkey):]
+	} else {
+		return nil, ErrorInvalidAddress
 	}
 
 	ret, err := Base58Decode(pubKeyMaterial, NewBase58Alphabet(addresstype.Alphabet))
@@ -23,6 +25,10 @@ func decodeAE(pubKey string, addresstype AddressType) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
+
 	return ret[:len(ret)-4], nil
 }
 
diff --git a/addressEncoder/eos.go b/addressEncoder/eos.go
index 8214fb7..7800dbd 100644
--- a/addressEncoder/eos.go
+++ b/addressEncoder/eos.go
@@ -33,6 +33,10 @@ func decodeEOS(pubKey string, addresstype AddressType) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
+
 	return ret[:len(ret)-4], nil
 }
 
-- 
2.43.0


From ff243668b12d3c9962bbdeb48e6f1335e51332d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 009/135] fix: AddressCheck crashed on short strings

---
 addressEncoder/addressCheck.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index e660d61..70b0703 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -8,6 +8,9 @@ var (
 	ErrorSymbolType = errors.New("Invalid symbol type!!!")
 )
 
+// the longest address prefix AddressCheck looks at is "bitcoincash:"
+const minCheckLength = len("bitcoincash:")
+
 /*
 @function:check the address valid or not
 @paramter[in]address denotes the input address to be checked
@@ -18,6 +21,13 @@ notice:
 */
 func AddressCheck(addr string, symbol string) (bool, error) {
 	var err error
+	if len(addr) < minCheckLength {
+		// every supported format is longer, the prefixes below can be indexed safely
+		switch symbol {
+		case "BTC", "ZEC", "LTC", "BCH", "XTZ", "HC", "ETH", "QTUM", "DCRD", "NAS", "TRX", "ICX", "VSYS":
+			return false, ErrorInvalidAddress
+		}
+	}
 	switch symbol {
 	case "BTC":
 		if addr[0] == '1' {
-- 
2.43.0


From ccd1d7f1083d33e1b031ea71fa35333789461c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 010/135] fix: AddressCheck rejected nebulas contract addresses
 starting with n1

---
 addressEncoder/addressCheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index 70b0703..144fae5 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -414,6 +414,10 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 	case "NAS":
 		if addr[0] == 'n' && addr[1] == '1' {
 			_, err = AddressDecode(addr, NAS_AccountAddress)
+			if err != nil {
+				// some contract addresses start with "n1" as well
+				_, err = AddressDecode(addr, NAS_SmartContractAddress)
+			}
 			if err == nil {
 				return true, err
 			} else {
-- 
2.43.0


From 28eb5a514b86d64cb21b6961b5eda382ec661828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 011/135] fix: base64 encoder never stored its alphabet

---
 addressEncoder/base64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/addressEncoder/base64.go b/addressEncoder/base64.go
index e82554f..af4e3fc 100644
--- a/addressEncoder/base64.go
+++ b/addressEncoder/base64.go
@@ -31,7 +31,7 @@ func NewEncoding(encoder string) *Encoding {
 
 	e := new(Encoding)
 	e.padChar = StdPadding
-	copy(e.encode[:], encoder)
+	e.encode = []byte(encoder)
 
 	for i := 0; i < len(e.decodeMap); i++ {
 		e.decodeMap[i] = 0xFF
-- 
2.43.0


From 4484ee42ebb82aeff077f7ecaa6cd2e47216f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:17 +0000
Subject: [PATCH 012/135] fix: child private keys with two or more leading zero
 bytes were shortened

---
 owkeychain/extendedkey.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 97f56cd..dc81daf 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -119,10 +119,8 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 			return nil, ErrInvalidChild
 		}
 		priChild = ilNum.Bytes()
-		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
-				priChild = append([]byte{0x00}, priChild...)
-			}
+		for len(priChild) < 32 {
+			priChild = append([]byte{0x00}, priChild...)
 		}
 		priChild = inverse(priChild)
 	} else {
@@ -138,10 +136,8 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 			return nil, ErrInvalidChild
 		}
 		priChild = ilNum.Bytes()
-		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
-				priChild = append([]byte{0x00}, priChild...)
-			}
+		for len(priChild) < 32 {
+			priChild = append([]byte{0x00}, priChild...)
 		}
 	}
 	return priChild, nil
-- 
2.43.0


From c687fd02199838c8a3e4afea4dfe06750d551ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:17 +0000
Subject: [PATCH 013/135] fix: public child derivation wrapped the depth past
 255

---
 owkeychain/extendedkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index dc81daf..c02b6e4 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -245,6 +245,10 @@ func (k *ExtendedKey) GenPublicChild(serializes uint32) (*ExtendedKey, error) {
 		typeChoose = owcrypt.ECC_CURVE_ED25519
 	}
 	if !k.isPrivate {
+		//越过最大深度限制
+		if k.depth == maxUint8 {
+			return nil, ErrDeriveBeyondMaxDepth
+		}
 		if serializes >= HardenedKeyStart { //不能从父公钥强化扩展
 			return nil, ErrDeriveHardFromPublic
 		}
-- 
2.43.0


From 36cd040cfe3ea6fa7ec80531dc2bf4379aaf14dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:17 +0000
Subject: [PATCH 014/135] fix: derivation paths accepted negative and out of
 range indices

---
 owkeychain/hdkey.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index e6ab4d1..bd0a211 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -43,13 +43,13 @@ func DerivedPrivateKeyWithPath(seed []byte, derivedPath string, curveType uint32
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
@@ -110,13 +110,13 @@ func (k *ExtendedKey) DerivedPublicKeyFromPath(derivedPath string) (*ExtendedKey
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
-- 
2.43.0


From 38743fc0f2934095e48d4520f475a79704928537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:17 +0000
Subject: [PATCH 015/135] fix: Base58checkDecode crashed on short strings

---
 owkeychain/owencode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index cdab5af..3008138 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -35,6 +35,9 @@ func Base58checkDecode(address string, fix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, ErrInvalidAddress
 	}
+	if len(decodeBytes) < len(fix)+4 {
+		return nil, ErrInvalidAddress
+	}
 	for i := 0; i < len(fix); i++ {
 		if fix[i] != decodeBytes[i] {
 			return nil, ErrInvalidAddress
-- 
2.43.0


From cb50cfca6a73fbc0828f22ee585425b657dc1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:17 +0000
Subject: [PATCH 016/135] fix: OWDecode crashed on or accepted payloads of a
 wrong length

---
 owkeychain/owencode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index 3008138..fc041ac 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -110,7 +110,17 @@ func OWDecode(data string) (*ExtendedKey, error) {
 			}
 		}
 	}
+	if len(decodeBytes) < 4 {
+		return nil, ErrInvalidKeyLen
+	}
 	curveType := bytesToUInt32(decodeBytes[:4])
+	keyLen := 33
+	if !privateFlag && (curveType == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL || curveType == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG) {
+		keyLen = 48
+	}
+	if len(decodeBytes) != 45+keyLen {
+		return nil, ErrInvalidKeyLen
+	}
 	depth := decodeBytes[4]
 	parentFP := decodeBytes[5:9]
 	serializes := bytesToUInt32(decodeBytes[9:13])
-- 
2.43.0


From 69e7457ea22401c08063ba1953026e468f7cadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:37 +0000
Subject: [PATCH 017/135] fix: negated S with two or more leading zero bytes
 was shortened, giving signatures of less than 64 bytes

---
 aliencoinTransaction/txSigPub.go          | 6 ++----
 binancechainTransaction/utils.go          | 6 ++----
 bitcoincashTransaction/SignaturePubkey.go | 6 ++----
 bitcoinsvTransaction/SignaturePubkey.go   | 6 ++----
 btcLikeTxDriver/signaturepubkey.go        | 6 ++----
 btcTransaction/SignaturePubkey.go         | 6 ++----
 cosmosTransaction/transaction.go          | 6 ++----
 cxcTransaction/SignaturePubkey.go         | 6 ++----
 evaioTransaction/transaction.go           | 6 ++----
 hcTransaction/SignaturePubkey.go          | 6 ++----
 hypercashTransaction/txSignature.go       | 6 ++----
 mateverseTransaction/txUtils.go           | 6 ++----
 omniTransaction/SignaturePubkey.go        | 6 ++----
 ontologyTransaction/txSigPub.go           | 6 ++----
 rippleTransaction/txUtils.go              | 6 ++----
 signatureSet/signature.go                 | 6 ++----
 vergeTransaction/txSigPub.go              | 6 ++----
 vollarTransaction/txSigPub.go             | 6 ++----
 zencashTransaction/SignaturePubkey.go     | 6 ++----
 19 files changed, 38 insertions(+), 76 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index e36fdda..71a40d7 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -26,10 +26,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/binancechainTransaction/utils.go b/binancechainTransaction/utils.go
index 2bf9143..6fd9da2 100644
--- a/binancechainTransaction/utils.go
+++ b/binancechainTransaction/utils.go
@@ -20,10 +20,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index f1c5f6a..9e407b9 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index b377fa8..405e563 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 0a0d002..9b87b07 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 1a9d48f..a321a85 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 3393e7c..75cdf4e 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -36,10 +36,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index ea881d2..dea85f7 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 381e17d..5ff217b 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -36,10 +36,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 97538b5..03baea6 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index 8a812a6..e6053d3 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -18,10 +18,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index 21d8dd7..824f262 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -89,10 +89,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 4d682ae..3ee9e01 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/ontologyTransaction/txSigPub.go b/ontologyTransaction/txSigPub.go
index 71ac866..b9d303d 100644
--- a/ontologyTransaction/txSigPub.go
+++ b/ontologyTransaction/txSigPub.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index 67d3f05..fcaf16e 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -103,10 +103,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/signatureSet/signature.go b/signatureSet/signature.go
index 4880f82..b225b6d 100644
--- a/signatureSet/signature.go
+++ b/signatureSet/signature.go
@@ -88,10 +88,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index da17646..8745ee7 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -26,10 +26,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index b919b89..dad0917 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -26,10 +26,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 1115e0d..a3aae50 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
-- 
2.43.0


From 8f850db8d2de6784ecce68137d49b281ddba4c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:12 +0000
Subject: [PATCH 018/135] fix: segwit outputs ignored the human readable part,
 witness version and padding, and were added twice or rejected in some drivers

---
 btcTransaction/bech32.go     | 36 ++++++++++++++++++++++++------------
 btcTransaction/txOut.go      |  2 +-
 cxcTransaction/bech32.go     | 36 ++++++++++++++++++++++++------------
 cxcTransaction/txAsset.go    |  4 +++-
 cxcTransaction/txOut.go      |  4 +++-
 hcTransaction/bech32.go      | 36 ++++++++++++++++++++++++------------
 hcTransaction/txOut.go       |  4 +++-
 omniTransaction/bech32.go    | 36 ++++++++++++++++++++++++------------
 omniTransaction/txOut.go     |  4 +++-
 zencashTransaction/bech32.go | 36 ++++++++++++++++++++++++------------
 zencashTransaction/txOut.go  |  4 +++-
 11 files changed, 136 insertions(+), 66 deletions(-)

diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index 61bcae7..5d3a3a2 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -1,7 +1,6 @@
 package btcTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -189,7 +188,12 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	prefixStr := strings.Split(address, "1")[0]
+	// one character of witness version and six of checksum follow the separator
+	if prefixSize == 0 || len(address)-prefixSize-1 < 8 {
+		return nil, ErrorInvalidAddress
+	}
+
+	prefixStr := strings.ToLower(address[:prefixSize])
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
@@ -205,19 +209,27 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
+	// only witness version 0 is defined for this checksum
+	if value[0] != 0 {
+		return nil, ErrorInvalidAddress
+	}
 
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
+	bytePayload := []byte{}
+	acc, bits := uint32(0), uint(0)
+	for _, v := range value[1 : len(value)-6] {
+		acc = acc<<5 | uint32(v)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			bytePayload = append(bytePayload, byte(acc>>bits))
+		}
+	}
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
 	}
 
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
+	if len(bytePayload) != 20 && len(bytePayload) != 32 {
+		return nil, ErrorInvalidAddress
 	}
 
 	return bytePayload, nil
diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index ff18646..b13bde1 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -27,7 +27,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index 530a591..9bfb100 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -1,7 +1,6 @@
 package cxcTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -189,7 +188,12 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	prefixStr := strings.Split(address, "1")[0]
+	// one character of witness version and six of checksum follow the separator
+	if prefixSize == 0 || len(address)-prefixSize-1 < 8 {
+		return nil, ErrorInvalidAddress
+	}
+
+	prefixStr := strings.ToLower(address[:prefixSize])
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
@@ -205,19 +209,27 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
+	// only witness version 0 is defined for this checksum
+	if value[0] != 0 {
+		return nil, ErrorInvalidAddress
+	}
 
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
+	bytePayload := []byte{}
+	acc, bits := uint32(0), uint(0)
+	for _, v := range value[1 : len(value)-6] {
+		acc = acc<<5 | uint32(v)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			bytePayload = append(bytePayload, byte(acc>>bits))
+		}
+	}
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
 	}
 
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
+	if len(bytePayload) != 20 && len(bytePayload) != 32 {
+		return nil, ErrorInvalidAddress
 	}
 
 	return bytePayload, nil
diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 43b6f06..5d27645 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -30,7 +30,7 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 
 	ret := make([]TxOut, 0)
 	for _, to := range tos {
-		if strings.Index(to.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(to.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(to.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -46,6 +46,8 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 			redeem = append(redeem, payload...)
 			redeem = append(redeem, OpDrop)
 			ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(to.Address)
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 03088fa..38feefa 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -35,6 +35,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index b6cb6e8..b65722b 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -1,7 +1,6 @@
 package hcTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -189,7 +188,12 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	prefixStr := strings.Split(address, "1")[0]
+	// one character of witness version and six of checksum follow the separator
+	if prefixSize == 0 || len(address)-prefixSize-1 < 8 {
+		return nil, ErrorInvalidAddress
+	}
+
+	prefixStr := strings.ToLower(address[:prefixSize])
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
@@ -205,19 +209,27 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
+	// only witness version 0 is defined for this checksum
+	if value[0] != 0 {
+		return nil, ErrorInvalidAddress
+	}
 
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
+	bytePayload := []byte{}
+	acc, bits := uint32(0), uint(0)
+	for _, v := range value[1 : len(value)-6] {
+		acc = acc<<5 | uint32(v)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			bytePayload = append(bytePayload, byte(acc>>bits))
+		}
+	}
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
 	}
 
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
+	if len(bytePayload) != 20 && len(bytePayload) != 32 {
+		return nil, ErrorInvalidAddress
 	}
 
 	return bytePayload, nil
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 36c4f52..f988475 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -35,6 +35,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 640b491..4e16451 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -1,7 +1,6 @@
 package omniTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -189,7 +188,12 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	prefixStr := strings.Split(address, "1")[0]
+	// one character of witness version and six of checksum follow the separator
+	if prefixSize == 0 || len(address)-prefixSize-1 < 8 {
+		return nil, ErrorInvalidAddress
+	}
+
+	prefixStr := strings.ToLower(address[:prefixSize])
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
@@ -205,19 +209,27 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
+	// only witness version 0 is defined for this checksum
+	if value[0] != 0 {
+		return nil, ErrorInvalidAddress
+	}
 
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
+	bytePayload := []byte{}
+	acc, bits := uint32(0), uint(0)
+	for _, v := range value[1 : len(value)-6] {
+		acc = acc<<5 | uint32(v)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			bytePayload = append(bytePayload, byte(acc>>bits))
+		}
+	}
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
 	}
 
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
+	if len(bytePayload) != 20 && len(bytePayload) != 32 {
+		return nil, ErrorInvalidAddress
 	}
 
 	return bytePayload, nil
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 5539515..7515f88 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -35,6 +35,8 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index c11aebd..277dfb4 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -1,7 +1,6 @@
 package zencashTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -189,7 +188,12 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	prefixStr := strings.Split(address, "1")[0]
+	// one character of witness version and six of checksum follow the separator
+	if prefixSize == 0 || len(address)-prefixSize-1 < 8 {
+		return nil, ErrorInvalidAddress
+	}
+
+	prefixStr := strings.ToLower(address[:prefixSize])
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
@@ -205,19 +209,27 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
+	// only witness version 0 is defined for this checksum
+	if value[0] != 0 {
+		return nil, ErrorInvalidAddress
+	}
 
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
+	bytePayload := []byte{}
+	acc, bits := uint32(0), uint(0)
+	for _, v := range value[1 : len(value)-6] {
+		acc = acc<<5 | uint32(v)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			bytePayload = append(bytePayload, byte(acc>>bits))
+		}
+	}
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
 	}
 
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
+	if len(bytePayload) != 20 && len(bytePayload) != 32 {
+		return nil, ErrorInvalidAddress
 	}
 
 	return bytePayload, nil
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 73ea817..6740825 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -42,7 +42,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -52,6 +52,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount: amount, lockScript: redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
-- 
2.43.0


From 17741ede5eb1623bcb3e2f00cd52fd6d049e6206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:22 +0000
Subject: [PATCH 019/135] fix: base58 addresses without version byte were paid
 as script hashes and short ones crashed the bitcoin drivers

---
 bitcoincashTransaction/base58.go | 4 ++++
 bitcoinsvTransaction/base58.go   | 4 ++++
 btcTransaction/base58.go         | 4 ++++
 cxcTransaction/base58.go         | 4 ++++
 hcTransaction/base58.go          | 4 ++++
 omniTransaction/base58.go        | 4 ++++
 zencashTransaction/base58.go     | 4 ++++
 7 files changed, 28 insertions(+)

diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index d518067..a8b38dc 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -155,6 +155,10 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	// at least one version byte, the hash and the checksum
+	if len(ret) < 1+0x14+4 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index af85206..b3b845c 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -155,6 +155,10 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	// at least one version byte, the hash and the checksum
+	if len(ret) < 1+0x14+4 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 96f8fe2..5d480cd 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -155,6 +155,10 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	// at least one version byte, the hash and the checksum
+	if len(ret) < 1+0x14+4 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index ccd7ea2..e121e58 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -155,6 +155,10 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	// at least one version byte, the hash and the checksum
+	if len(ret) < 1+0x14+4 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index 772572c..f790a5e 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -155,6 +155,10 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	// at least one version byte, the hash and the checksum
+	if len(ret) < 1+0x14+4 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index b080ce9..9b0f451 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -155,6 +155,10 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	// at least one version byte, the hash and the checksum
+	if len(ret) < 1+0x14+4 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 25b462c..01a1561 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -155,6 +155,10 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	// at least one version byte, the hash and the checksum
+	if len(ret) < 1+0x14+4 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From 1810f252d8d0de1623f3f0ca4da94ea8b8223cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:49 +0000
Subject: [PATCH 020/135] fix: counts and script lengths above 252 were
 truncated to one byte in the bitcoin drivers

---
 bitcoincashTransaction/txHash.go     |  6 ++--
 bitcoincashTransaction/txIn.go       |  2 +-
 bitcoincashTransaction/txMultiSig.go |  2 +-
 bitcoincashTransaction/txOut.go      |  2 +-
 bitcoincashTransaction/txStruct.go   | 43 ++++++++++++++--------------
 bitcoincashTransaction/txUtils.go    | 43 ++++++++++++++++++++++++++++
 bitcoinsvTransaction/txHash.go       |  6 ++--
 bitcoinsvTransaction/txIn.go         |  2 +-
 bitcoinsvTransaction/txMultiSig.go   |  2 +-
 bitcoinsvTransaction/txOut.go        |  2 +-
 bitcoinsvTransaction/txStruct.go     | 43 ++++++++++++++--------------
 bitcoinsvTransaction/txUtils.go      | 43 ++++++++++++++++++++++++++++
 btcTransaction/txHash.go             |  6 ++--
 btcTransaction/txIn.go               |  2 +-
 btcTransaction/txMultiSig.go         |  2 +-
 btcTransaction/txOut.go              |  2 +-
 btcTransaction/txStruct.go           | 43 ++++++++++++++--------------
 btcTransaction/txUtils.go            | 43 ++++++++++++++++++++++++++++
 cxcTransaction/txHash.go             |  6 ++--
 cxcTransaction/txIn.go               |  2 +-
 cxcTransaction/txMultiSig.go         |  2 +-
 cxcTransaction/txOut.go              |  2 +-
 cxcTransaction/txStruct.go           | 43 ++++++++++++++--------------
 cxcTransaction/txUtils.go            | 43 ++++++++++++++++++++++++++++
 hcTransaction/txHash.go              |  6 ++--
 hcTransaction/txIn.go                |  2 +-
 hcTransaction/txMultiSig.go          |  2 +-
 hcTransaction/txOut.go               |  2 +-
 hcTransaction/txStruct.go            | 43 ++++++++++++++--------------
 hcTransaction/txUtils.go             | 43 ++++++++++++++++++++++++++++
 omniTransaction/txHash.go            |  6 ++--
 omniTransaction/txIn.go              |  2 +-
 omniTransaction/txMultiSig.go        |  2 +-
 omniTransaction/txOut.go             |  2 +-
 omniTransaction/txStruct.go          | 43 ++++++++++++++--------------
 omniTransaction/txUtils.go           | 43 ++++++++++++++++++++++++++++
 zencashTransaction/txHash.go         |  6 ++--
 zencashTransaction/txIn.go           |  2 +-
 zencashTransaction/txMultiSig.go     |  2 +-
 zencashTransaction/txOut.go          |  2 +-
 zencashTransaction/txStruct.go       | 43 ++++++++++++++--------------
 zencashTransaction/txUtils.go        | 43 ++++++++++++++++++++++++++++
 42 files changed, 497 insertions(+), 189 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index e13ef84..6262a23 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -118,7 +118,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -162,7 +162,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -322,7 +322,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index eff3b46..1ad7e20 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 799b51c..0c57989 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/bitcoincashTransaction/txOut.go b/bitcoincashTransaction/txOut.go
index c9af95c..aaabfc5 100644
--- a/bitcoincashTransaction/txOut.go
+++ b/bitcoincashTransaction/txOut.go
@@ -101,7 +101,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 4920b46..a669ede 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -78,7 +78,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -87,7 +87,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -143,16 +143,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -239,17 +238,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -258,11 +255,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
@@ -278,7 +275,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -376,9 +373,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					length, next, err := readCompactSize(txBytes, index)
+					if err != nil {
+						return nil, err
+					}
+					redeemLen = length
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:next]...)
+					index = next
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index bd720a6..a029569 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -122,3 +122,46 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+//compactSize encode a count or a length in the variable length format of the bitcoin protocol
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decode a count or a length at the index,return it with the index behind it
+func readCompactSize(data []byte, index int) (int, int, error) {
+	if index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	first := data[index]
+	index++
+	switch {
+	case first < 0xFD:
+		return int(first), index, nil
+	case first == 0xFD:
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := int(littleEndianBytesToUint16(data[index : index+2]))
+		if n < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return n, index + 2, nil
+	case first == 0xFE:
+		if index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := littleEndianBytesToUint32(data[index : index+4])
+		if n <= 0xFFFF || n > 0x7FFFFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return int(n), index + 4, nil
+	}
+	return 0, 0, errors.New("Invalid transaction data!")
+}
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 99da856..7b726c4 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -119,7 +119,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -163,7 +163,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -323,7 +323,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 80b7a5b..1623335 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index da9b52d..d734fad 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/bitcoinsvTransaction/txOut.go b/bitcoinsvTransaction/txOut.go
index 19501db..6ce9c17 100644
--- a/bitcoinsvTransaction/txOut.go
+++ b/bitcoinsvTransaction/txOut.go
@@ -101,7 +101,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 4f3394b..d488fb9 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -78,7 +78,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -87,7 +87,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -143,16 +143,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -239,17 +238,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -258,11 +255,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
@@ -278,7 +275,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -376,9 +373,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					length, next, err := readCompactSize(txBytes, index)
+					if err != nil {
+						return nil, err
+					}
+					redeemLen = length
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:next]...)
+					index = next
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index e5af84f..5a0e590 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -122,3 +122,46 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+//compactSize encode a count or a length in the variable length format of the bitcoin protocol
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decode a count or a length at the index,return it with the index behind it
+func readCompactSize(data []byte, index int) (int, int, error) {
+	if index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	first := data[index]
+	index++
+	switch {
+	case first < 0xFD:
+		return int(first), index, nil
+	case first == 0xFD:
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := int(littleEndianBytesToUint16(data[index : index+2]))
+		if n < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return n, index + 2, nil
+	case first == 0xFE:
+		if index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := littleEndianBytesToUint32(data[index : index+4])
+		if n <= 0xFFFF || n > 0x7FFFFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return int(n), index + 4, nil
+	}
+	return 0, 0, errors.New("Invalid transaction data!")
+}
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index edc1edc..d37ed1b 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -326,7 +326,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index ded31f8..348d848 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 8f4b9b9..cf97ea6 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index b13bde1..4923126 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -76,7 +76,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index b16bb21..68aeb11 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +217,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,11 +234,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
@@ -257,7 +254,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -355,9 +352,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					length, next, err := readCompactSize(txBytes, index)
+					if err != nil {
+						return nil, err
+					}
+					redeemLen = length
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:next]...)
+					index = next
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 141260c..8c97cb0 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -78,3 +78,46 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//compactSize encode a count or a length in the variable length format of the bitcoin protocol
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decode a count or a length at the index,return it with the index behind it
+func readCompactSize(data []byte, index int) (int, int, error) {
+	if index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	first := data[index]
+	index++
+	switch {
+	case first < 0xFD:
+		return int(first), index, nil
+	case first == 0xFD:
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := int(littleEndianBytesToUint16(data[index : index+2]))
+		if n < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return n, index + 2, nil
+	case first == 0xFE:
+		if index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := littleEndianBytesToUint32(data[index : index+4])
+		if n <= 0xFFFF || n > 0x7FFFFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return int(n), index + 4, nil
+	}
+	return 0, 0, errors.New("Invalid transaction data!")
+}
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index d61ed0b..c31d751 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -121,7 +121,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -325,7 +325,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index da2bdb4..8e4ce6a 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 817a3a6..ab8a4a4 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 38feefa..e3bf4fb 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -74,7 +74,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index b0f1750..7d0593a 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -88,7 +88,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -97,7 +97,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -153,16 +153,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -249,17 +248,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -268,11 +265,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
@@ -288,7 +285,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -386,9 +383,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					length, next, err := readCompactSize(txBytes, index)
+					if err != nil {
+						return nil, err
+					}
+					redeemLen = length
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:next]...)
+					index = next
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 1d2b04b..2fc03cd 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -78,3 +78,46 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//compactSize encode a count or a length in the variable length format of the bitcoin protocol
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decode a count or a length at the index,return it with the index behind it
+func readCompactSize(data []byte, index int) (int, int, error) {
+	if index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	first := data[index]
+	index++
+	switch {
+	case first < 0xFD:
+		return int(first), index, nil
+	case first == 0xFD:
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := int(littleEndianBytesToUint16(data[index : index+2]))
+		if n < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return n, index + 2, nil
+	case first == 0xFE:
+		if index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := littleEndianBytesToUint32(data[index : index+4])
+		if n <= 0xFFFF || n > 0x7FFFFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return int(n), index + 4, nil
+	}
+	return 0, 0, errors.New("Invalid transaction data!")
+}
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 2a046ee..f379613 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -326,7 +326,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index 7dba474..c93f7ba 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 54812bc..0430d41 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index f988475..263a8d5 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -74,7 +74,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index e2dc2f9..fb601b7 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +217,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,11 +234,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
@@ -257,7 +254,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -355,9 +352,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					length, next, err := readCompactSize(txBytes, index)
+					if err != nil {
+						return nil, err
+					}
+					redeemLen = length
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:next]...)
+					index = next
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index ea4dc67..bdc2561 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -78,3 +78,46 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//compactSize encode a count or a length in the variable length format of the bitcoin protocol
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decode a count or a length at the index,return it with the index behind it
+func readCompactSize(data []byte, index int) (int, int, error) {
+	if index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	first := data[index]
+	index++
+	switch {
+	case first < 0xFD:
+		return int(first), index, nil
+	case first == 0xFD:
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := int(littleEndianBytesToUint16(data[index : index+2]))
+		if n < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return n, index + 2, nil
+	case first == 0xFE:
+		if index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := littleEndianBytesToUint32(data[index : index+4])
+		if n <= 0xFFFF || n > 0x7FFFFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return int(n), index + 4, nil
+	}
+	return 0, 0, errors.New("Invalid transaction data!")
+}
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index d482fb6..f9245ac 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -121,7 +121,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -325,7 +325,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index 3354027..1211dc9 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 0047f39..8d406df 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -169,7 +169,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 7515f88..360c170 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -77,7 +77,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 8a05cc0..1621f2e 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +217,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,11 +234,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
@@ -257,7 +254,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -355,9 +352,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					length, next, err := readCompactSize(txBytes, index)
+					if err != nil {
+						return nil, err
+					}
+					redeemLen = length
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:next]...)
+					index = next
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 0b571a3..9ed07c4 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -108,3 +108,46 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+//compactSize encode a count or a length in the variable length format of the bitcoin protocol
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decode a count or a length at the index,return it with the index behind it
+func readCompactSize(data []byte, index int) (int, int, error) {
+	if index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	first := data[index]
+	index++
+	switch {
+	case first < 0xFD:
+		return int(first), index, nil
+	case first == 0xFD:
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := int(littleEndianBytesToUint16(data[index : index+2]))
+		if n < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return n, index + 2, nil
+	case first == 0xFE:
+		if index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := littleEndianBytesToUint32(data[index : index+4])
+		if n <= 0xFFFF || n > 0x7FFFFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return int(n), index + 4, nil
+	}
+	return 0, 0, errors.New("Invalid transaction data!")
+}
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index cfa6039..6bd85a8 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -327,7 +327,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 6805de4..6207d9f 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index d242f6c..540786a 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -170,7 +170,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		}
 		redeemLen = int(script[index])
 		index++
-	} else if script[index] == OpPushData2 {
+	} else if script[index] == OpPushData2 || script[index] == 0xFD {
 		index++
 		if index+2 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 6740825..e47d458 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -101,7 +101,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 2464de3..443744c 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +217,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,11 +234,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
@@ -257,7 +254,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -355,9 +352,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					length, next, err := readCompactSize(txBytes, index)
+					if err != nil {
+						return nil, err
+					}
+					redeemLen = length
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:next]...)
+					index = next
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index cfbdb71..2f604c8 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -78,3 +78,46 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//compactSize encode a count or a length in the variable length format of the bitcoin protocol
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decode a count or a length at the index,return it with the index behind it
+func readCompactSize(data []byte, index int) (int, int, error) {
+	if index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	first := data[index]
+	index++
+	switch {
+	case first < 0xFD:
+		return int(first), index, nil
+	case first == 0xFD:
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := int(littleEndianBytesToUint16(data[index : index+2]))
+		if n < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return n, index + 2, nil
+	case first == 0xFE:
+		if index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := littleEndianBytesToUint32(data[index : index+4])
+		if n <= 0xFFFF || n > 0x7FFFFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return int(n), index + 4, nil
+	}
+	return 0, 0, errors.New("Invalid transaction data!")
+}
-- 
2.43.0


From f07313da4ea081c0b9eae7dacdb71b136f5295de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:39 +0000
Subject: [PATCH 021/135] fix: decoding a truncated transaction crashed the
 bitcoin drivers

---
 bitcoincashTransaction/txMultiSig.go | 14 ++++++++++----
 bitcoincashTransaction/txStruct.go   |  9 ++++++---
 bitcoinsvTransaction/txMultiSig.go   | 14 ++++++++++----
 bitcoinsvTransaction/txStruct.go     |  9 ++++++---
 btcTransaction/txMultiSig.go         | 14 ++++++++++----
 btcTransaction/txStruct.go           |  9 ++++++---
 cxcTransaction/txMultiSig.go         | 14 ++++++++++----
 cxcTransaction/txStruct.go           |  9 ++++++---
 hcTransaction/txMultiSig.go          | 14 ++++++++++----
 hcTransaction/txStruct.go            |  9 ++++++---
 omniTransaction/txMultiSig.go        | 14 ++++++++++----
 omniTransaction/txStruct.go          |  9 ++++++---
 zencashTransaction/txMultiSig.go     | 14 ++++++++++----
 zencashTransaction/txStruct.go       |  9 ++++++---
 14 files changed, 112 insertions(+), 49 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 0c57989..2aaf5b4 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,6 +202,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if pubkeys > len(sp) {
 		for i := 0; i < pubkeys-len(sp); i++ {
 			sp = append(sp, SignaturePubkey{nil, nil})
@@ -210,7 +213,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
@@ -225,6 +228,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		sp[i].Pubkey = pscript[index : index+0x21]
 		index += 0x21
 	}
+	if index != limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 
 	return sp, st, nil
 }
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index a669ede..15538c3 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -217,7 +217,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -233,6 +233,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -322,7 +325,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -382,7 +385,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index = next
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index d734fad..c153f38 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,6 +202,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if pubkeys > len(sp) {
 		for i := 0; i < pubkeys-len(sp); i++ {
 			sp = append(sp, SignaturePubkey{nil, nil})
@@ -210,7 +213,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
@@ -225,6 +228,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		sp[i].Pubkey = pscript[index : index+0x21]
 		index += 0x21
 	}
+	if index != limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 
 	return sp, st, nil
 }
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index d488fb9..00fede5 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -217,7 +217,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -233,6 +233,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -322,7 +325,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -382,7 +385,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index = next
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index cf97ea6..917e216 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,6 +202,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if pubkeys > len(sp) {
 		for i := 0; i < pubkeys-len(sp); i++ {
 			sp = append(sp, SignaturePubkey{nil, nil})
@@ -210,7 +213,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
@@ -225,6 +228,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		sp[i].Pubkey = pscript[index : index+0x21]
 		index += 0x21
 	}
+	if index != limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 
 	return sp, st, nil
 }
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 68aeb11..256456e 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -196,7 +196,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -212,6 +212,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -301,7 +304,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -361,7 +364,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index = next
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index ab8a4a4..76ac8df 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,6 +202,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if pubkeys > len(sp) {
 		for i := 0; i < pubkeys-len(sp); i++ {
 			sp = append(sp, SignaturePubkey{nil, nil})
@@ -210,7 +213,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
@@ -225,6 +228,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		sp[i].Pubkey = pscript[index : index+0x21]
 		index += 0x21
 	}
+	if index != limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 
 	return sp, st, nil
 }
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 7d0593a..23e0655 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -227,7 +227,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -243,6 +243,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -332,7 +335,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -392,7 +395,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index = next
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 0430d41..e760afe 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,6 +202,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if pubkeys > len(sp) {
 		for i := 0; i < pubkeys-len(sp); i++ {
 			sp = append(sp, SignaturePubkey{nil, nil})
@@ -210,7 +213,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
@@ -225,6 +228,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		sp[i].Pubkey = pscript[index : index+0x21]
 		index += 0x21
 	}
+	if index != limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 
 	return sp, st, nil
 }
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index fb601b7..a9aeb4b 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -196,7 +196,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -212,6 +212,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -301,7 +304,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -361,7 +364,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index = next
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 8d406df..d19b969 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -92,7 +92,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -134,7 +134,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -191,7 +191,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -201,6 +201,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if pubkeys > len(sp) {
 		for i := 0; i < pubkeys-len(sp); i++ {
 			sp = append(sp, SignaturePubkey{nil, nil})
@@ -209,7 +212,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
@@ -224,6 +227,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		sp[i].Pubkey = pscript[index : index+0x21]
 		index += 0x21
 	}
+	if index != limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 
 	return sp, st, nil
 }
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 1621f2e..a9dc0d2 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -196,7 +196,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -212,6 +212,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -301,7 +304,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -361,7 +364,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index = next
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index 540786a..c28d868 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -135,7 +135,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
-	if script[index] != 0x00 {
+	if index+1 > limit || script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	index++
@@ -192,7 +192,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,6 +202,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if pubkeys > len(sp) {
 		for i := 0; i < pubkeys-len(sp); i++ {
 			sp = append(sp, SignaturePubkey{nil, nil})
@@ -210,7 +213,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
@@ -225,6 +228,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		sp[i].Pubkey = pscript[index : index+0x21]
 		index += 0x21
 	}
+	if index != limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 
 	return sp, st, nil
 }
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 443744c..371ed88 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -196,7 +196,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -212,6 +212,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -301,7 +304,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
-				if txBytes[index] != 0x00 {
+				if index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
@@ -361,7 +364,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					index = next
 				}
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index+int(redeemLen) > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
-- 
2.43.0


From 0da9949ea257abec6ca3fefaaed7015b75027f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:50 +0000
Subject: [PATCH 022/135] fix: segwit multisig inputs always announced four
 witness items

---
 bitcoincashTransaction/txHash.go   | 3 +++
 bitcoincashTransaction/txIn.go     | 1 -
 bitcoincashTransaction/txStruct.go | 8 +++++---
 bitcoinsvTransaction/txHash.go     | 3 +++
 bitcoinsvTransaction/txIn.go       | 1 -
 bitcoinsvTransaction/txStruct.go   | 8 +++++---
 btcTransaction/txHash.go           | 3 +++
 btcTransaction/txIn.go             | 1 -
 btcTransaction/txStruct.go         | 8 +++++---
 cxcTransaction/txHash.go           | 3 +++
 cxcTransaction/txIn.go             | 1 -
 cxcTransaction/txStruct.go         | 8 +++++---
 hcTransaction/txHash.go            | 3 +++
 hcTransaction/txIn.go              | 1 -
 hcTransaction/txStruct.go          | 8 +++++---
 omniTransaction/txHash.go          | 3 +++
 omniTransaction/txIn.go            | 1 -
 omniTransaction/txStruct.go        | 8 +++++---
 zencashTransaction/txHash.go       | 3 +++
 zencashTransaction/txIn.go         | 1 -
 zencashTransaction/txStruct.go     | 8 +++++---
 21 files changed, 56 insertions(+), 28 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index 6262a23..e53b6f6 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -348,6 +348,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// number of witness items: the empty item, the signatures and the redeem script
+		ret = append([]byte{t.NRequired + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index 1ad7e20..6d2409f 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 15538c3..a705f33 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -306,9 +306,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				witnessItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -338,6 +336,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					witnessItems--
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -350,6 +349,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
+				if witnessItems != 2 {
+					return nil, errors.New("Invalid transaction data!")
+				}
 				redeemLen := 0
 				if !SegwitON {
 					if txBytes[index] == OpPushData1 {
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 7b726c4..4f9d781 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -349,6 +349,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// number of witness items: the empty item, the signatures and the redeem script
+		ret = append([]byte{t.NRequired + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 1623335..0b50572 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 00fede5..3dbccc6 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -306,9 +306,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				witnessItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -338,6 +336,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					witnessItems--
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -350,6 +349,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
+				if witnessItems != 2 {
+					return nil, errors.New("Invalid transaction data!")
+				}
 				redeemLen := 0
 				if !SegwitON {
 					if txBytes[index] == OpPushData1 {
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index d37ed1b..52ede66 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -352,6 +352,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// number of witness items: the empty item, the signatures and the redeem script
+		ret = append([]byte{t.NRequired + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index 348d848..a6b5330 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 256456e..9175c45 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -285,9 +285,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				witnessItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -317,6 +315,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					witnessItems--
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -329,6 +328,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
+				if witnessItems != 2 {
+					return nil, errors.New("Invalid transaction data!")
+				}
 				redeemLen := 0
 				if !SegwitON {
 					if txBytes[index] == OpPushData1 {
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index c31d751..72427dc 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -351,6 +351,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// number of witness items: the empty item, the signatures and the redeem script
+		ret = append([]byte{t.NRequired + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index 8e4ce6a..81f23b6 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 23e0655..03f42c1 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -316,9 +316,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				witnessItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -348,6 +346,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					witnessItems--
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -360,6 +359,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
+				if witnessItems != 2 {
+					return nil, errors.New("Invalid transaction data!")
+				}
 				redeemLen := 0
 				if !SegwitON {
 					if txBytes[index] == OpPushData1 {
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index f379613..78029f9 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -352,6 +352,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// number of witness items: the empty item, the signatures and the redeem script
+		ret = append([]byte{t.NRequired + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index c93f7ba..205b1d1 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index a9aeb4b..3bb0c7d 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -285,9 +285,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				witnessItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -317,6 +315,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					witnessItems--
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -329,6 +328,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
+				if witnessItems != 2 {
+					return nil, errors.New("Invalid transaction data!")
+				}
 				redeemLen := 0
 				if !SegwitON {
 					if txBytes[index] == OpPushData1 {
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index f9245ac..7075121 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -351,6 +351,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// number of witness items: the empty item, the signatures and the redeem script
+		ret = append([]byte{t.NRequired + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index 1211dc9..c56a08b 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index a9dc0d2..457f273 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -285,9 +285,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				witnessItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -317,6 +315,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					witnessItems--
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -329,6 +328,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
+				if witnessItems != 2 {
+					return nil, errors.New("Invalid transaction data!")
+				}
 				redeemLen := 0
 				if !SegwitON {
 					if txBytes[index] == OpPushData1 {
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 6bd85a8..39b0da0 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -353,6 +353,9 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		// number of witness items: the empty item, the signatures and the redeem script
+		ret = append([]byte{t.NRequired + 2}, ret...)
 	}
 
 	return ret, nil
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 6207d9f..474cc71 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 371ed88..5023fd7 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -285,9 +285,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				witnessItems := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -317,6 +315,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					if txBytes[index+1] != 0x30 {
 						break
 					}
+					witnessItems--
 					sigLen := txBytes[index]
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
 					index++
@@ -329,6 +328,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
+				if witnessItems != 2 {
+					return nil, errors.New("Invalid transaction data!")
+				}
 				redeemLen := 0
 				if !SegwitON {
 					if txBytes[index] == OpPushData1 {
-- 
2.43.0


From 3dccde1f83a63bd1c13988c599cea937bb7a65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:41 +0000
Subject: [PATCH 023/135] fix: signatures that are not strict DER were verified
 as valid in the bitcoin drivers, and zero values crashed the encoder

---
 bitcoincashTransaction/SignaturePubkey.go | 15 +++++++++++----
 bitcoinsvTransaction/SignaturePubkey.go   | 15 +++++++++++----
 btcTransaction/SignaturePubkey.go         | 15 +++++++++++----
 cxcTransaction/SignaturePubkey.go         | 15 +++++++++++----
 hcTransaction/SignaturePubkey.go          | 15 +++++++++++----
 omniTransaction/SignaturePubkey.go        | 15 +++++++++++----
 zencashTransaction/SignaturePubkey.go     | 15 +++++++++++----
 7 files changed, 77 insertions(+), 28 deletions(-)

diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index 9e407b9..c05aa39 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package bitcoincashTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -55,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -66,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -191,7 +192,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -253,6 +254,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return sig, sigType, nil
 }
 
@@ -314,7 +318,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -395,5 +399,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index 405e563..a8f9758 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package bitcoinsvTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -55,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -66,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -191,7 +192,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -253,6 +254,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return sig, sigType, nil
 }
 
@@ -314,7 +318,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -395,5 +399,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index a321a85..45474ab 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package btcTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -55,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -66,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -191,7 +192,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -253,6 +254,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return sig, sigType, nil
 }
 
@@ -314,7 +318,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -395,5 +399,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index dea85f7..2297eda 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package cxcTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -55,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -66,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -191,7 +192,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -253,6 +254,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return sig, sigType, nil
 }
 
@@ -314,7 +318,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -395,5 +399,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 03baea6..887af49 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package hcTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -56,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -67,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -192,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -254,6 +255,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return sig, sigType, nil
 }
 
@@ -315,7 +319,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -396,5 +400,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 3ee9e01..bdb15aa 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package omniTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -55,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -66,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -191,7 +192,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -253,6 +254,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return sig, sigType, nil
 }
 
@@ -314,7 +318,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -395,5 +399,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return &ret, sigType, nil
 }
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index a3aae50..3a6d1a6 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -1,6 +1,7 @@
 package zencashTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -55,7 +56,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -66,7 +67,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -191,7 +192,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -253,6 +254,9 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if !bytes.Equal(SignaturePubkey{sig, nil}.encodeSignatureToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return sig, sigType, nil
 }
 
@@ -314,7 +318,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -395,5 +399,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index != len(script) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(sigType), script) {
+		return nil, 0, errors.New("Signature is not canonical!")
+	}
 	return &ret, sigType, nil
 }
-- 
2.43.0


From 7ddfd3d6b891eeb19440e24a475ad652bf17d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:14 +0000
Subject: [PATCH 024/135] fix: verification in the bitcoin drivers accepted
 foreign keys, other hash types and repeated or unordered multisig signatures,
 and crashed on bad keys

---
 bitcoincashTransaction/transaction.go | 30 ++++++++++++++++++++-------
 bitcoincashTransaction/txIn.go        | 25 ++++++++++++++++++++++
 bitcoinsvTransaction/transaction.go   | 30 ++++++++++++++++++++-------
 bitcoinsvTransaction/txIn.go          | 25 ++++++++++++++++++++++
 btcTransaction/transaction.go         | 30 ++++++++++++++++++++-------
 btcTransaction/txIn.go                | 25 ++++++++++++++++++++++
 cxcTransaction/transaction.go         | 30 ++++++++++++++++++++-------
 cxcTransaction/txIn.go                | 25 ++++++++++++++++++++++
 hcTransaction/transaction.go          | 30 ++++++++++++++++++++-------
 hcTransaction/txIn.go                 | 25 ++++++++++++++++++++++
 omniTransaction/transaction.go        | 30 ++++++++++++++++++++-------
 omniTransaction/txIn.go               | 25 ++++++++++++++++++++++
 zencashTransaction/transaction.go     | 18 ++++++++++------
 zencashTransaction/txHash.go          |  5 ++++-
 14 files changed, 304 insertions(+), 49 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 4513070..8c26b4b 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -202,9 +202,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != unlockData[i].SigType || !signedTrans.Vins[i].unlocks(lock, redeem, sigpub.Pubkey, SegwitON) {
 				return false
 			}
 
@@ -212,10 +216,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) != len(txHash[i].Multi) || !signedTrans.Vins[i].unlocks(lock, redeem, nil, SegwitON) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
+				if (sigpub[j].Signature != nil) != (j < int(txHash[i].NRequired)) {
+					return false
+				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -225,16 +238,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				// signatures have to be in the order of the public keys,and a key counts once
+				for j := next; j < len(t.Multi); j++ {
+					next = j + 1
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) == 65 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index 6d2409f..1077b21 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -1,7 +1,10 @@
 package bitcoincashTransaction
 
 import (
+	"bytes"
 	"errors"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 const (
@@ -127,3 +130,25 @@ func (in *TxIn) setEmpty() {
 	in.scriptPub = nil
 	in.scriptSig = nil
 }
+
+//unlocks tells whether the public key of a signed input is the one its lock script asks for,and a witness program
+//the one of the redeem script
+func (in TxIn) unlocks(lock, redeem, pubkey []byte, SegwitON bool) bool {
+	switch in.inType {
+	case TypeP2PKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[3:23])
+	case TypeBech32:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	case TypeP2WPKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), redeem[2:22]) &&
+			bytes.Equal(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22]) &&
+			bytes.Equal(in.scriptPub, append([]byte{0x16}, redeem...))
+	case TypeMultiSig:
+		if SegwitON {
+			program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)
+			return bytes.Equal(in.scriptPub, append([]byte{0x23, 0x22}, program...))
+		}
+		return true
+	}
+	return false
+}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 1eeb0a7..bcfcbb9 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -202,9 +202,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != unlockData[i].SigType || !signedTrans.Vins[i].unlocks(lock, redeem, sigpub.Pubkey, SegwitON) {
 				return false
 			}
 
@@ -212,10 +216,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) != len(txHash[i].Multi) || !signedTrans.Vins[i].unlocks(lock, redeem, nil, SegwitON) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
+				if (sigpub[j].Signature != nil) != (j < int(txHash[i].NRequired)) {
+					return false
+				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -225,16 +238,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				// signatures have to be in the order of the public keys,and a key counts once
+				for j := next; j < len(t.Multi); j++ {
+					next = j + 1
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) == 65 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 0b50572..1c21639 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -1,7 +1,10 @@
 package bitcoinsvTransaction
 
 import (
+	"bytes"
 	"errors"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 const (
@@ -127,3 +130,25 @@ func (in *TxIn) setEmpty() {
 	in.scriptPub = nil
 	in.scriptSig = nil
 }
+
+//unlocks tells whether the public key of a signed input is the one its lock script asks for,and a witness program
+//the one of the redeem script
+func (in TxIn) unlocks(lock, redeem, pubkey []byte, SegwitON bool) bool {
+	switch in.inType {
+	case TypeP2PKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[3:23])
+	case TypeBech32:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	case TypeP2WPKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), redeem[2:22]) &&
+			bytes.Equal(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22]) &&
+			bytes.Equal(in.scriptPub, append([]byte{0x16}, redeem...))
+	case TypeMultiSig:
+		if SegwitON {
+			program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)
+			return bytes.Equal(in.scriptPub, append([]byte{0x23, 0x22}, program...))
+		}
+		return true
+	}
+	return false
+}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 09586d4..cea2660 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -188,9 +188,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != unlockData[i].SigType || !signedTrans.Vins[i].unlocks(lock, redeem, sigpub.Pubkey, SegwitON) {
 				return false
 			}
 
@@ -198,10 +202,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) != len(txHash[i].Multi) || !signedTrans.Vins[i].unlocks(lock, redeem, nil, SegwitON) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
+				if (sigpub[j].Signature != nil) != (j < int(txHash[i].NRequired)) {
+					return false
+				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -211,16 +224,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				// signatures have to be in the order of the public keys,and a key counts once
+				for j := next; j < len(t.Multi); j++ {
+					next = j + 1
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) == 65 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index a6b5330..7742271 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -1,7 +1,10 @@
 package btcTransaction
 
 import (
+	"bytes"
 	"errors"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 const (
@@ -127,3 +130,25 @@ func (in *TxIn) setEmpty() {
 	in.scriptPub = nil
 	in.scriptSig = nil
 }
+
+//unlocks tells whether the public key of a signed input is the one its lock script asks for,and a witness program
+//the one of the redeem script
+func (in TxIn) unlocks(lock, redeem, pubkey []byte, SegwitON bool) bool {
+	switch in.inType {
+	case TypeP2PKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[3:23])
+	case TypeBech32:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	case TypeP2WPKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), redeem[2:22]) &&
+			bytes.Equal(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22]) &&
+			bytes.Equal(in.scriptPub, append([]byte{0x16}, redeem...))
+	case TypeMultiSig:
+		if SegwitON {
+			program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)
+			return bytes.Equal(in.scriptPub, append([]byte{0x23, 0x22}, program...))
+		}
+		return true
+	}
+	return false
+}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 2f2d266..d8d0172 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -207,9 +207,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != unlockData[i].SigType || !signedTrans.Vins[i].unlocks(lock, redeem, sigpub.Pubkey, SegwitON) {
 				return false
 			}
 
@@ -217,10 +221,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) != len(txHash[i].Multi) || !signedTrans.Vins[i].unlocks(lock, redeem, nil, SegwitON) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
+				if (sigpub[j].Signature != nil) != (j < int(txHash[i].NRequired)) {
+					return false
+				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -230,16 +243,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				// signatures have to be in the order of the public keys,and a key counts once
+				for j := next; j < len(t.Multi); j++ {
+					next = j + 1
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) == 65 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index 81f23b6..88f76c0 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -1,7 +1,10 @@
 package cxcTransaction
 
 import (
+	"bytes"
 	"errors"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 const (
@@ -127,3 +130,25 @@ func (in *TxIn) setEmpty() {
 	in.scriptPub = nil
 	in.scriptSig = nil
 }
+
+//unlocks tells whether the public key of a signed input is the one its lock script asks for,and a witness program
+//the one of the redeem script
+func (in TxIn) unlocks(lock, redeem, pubkey []byte, SegwitON bool) bool {
+	switch in.inType {
+	case TypeP2PKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[3:23])
+	case TypeBech32:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	case TypeP2WPKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), redeem[2:22]) &&
+			bytes.Equal(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22]) &&
+			bytes.Equal(in.scriptPub, append([]byte{0x16}, redeem...))
+	case TypeMultiSig:
+		if SegwitON {
+			program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)
+			return bytes.Equal(in.scriptPub, append([]byte{0x23, 0x22}, program...))
+		}
+		return true
+	}
+	return false
+}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 10922cb..0390ffe 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -188,9 +188,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != unlockData[i].SigType || !signedTrans.Vins[i].unlocks(lock, redeem, sigpub.Pubkey, SegwitON) {
 				return false
 			}
 
@@ -198,10 +202,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) != len(txHash[i].Multi) || !signedTrans.Vins[i].unlocks(lock, redeem, nil, SegwitON) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
+				if (sigpub[j].Signature != nil) != (j < int(txHash[i].NRequired)) {
+					return false
+				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -211,16 +224,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				// signatures have to be in the order of the public keys,and a key counts once
+				for j := next; j < len(t.Multi); j++ {
+					next = j + 1
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) == 65 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index 205b1d1..ff0e3dd 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -1,7 +1,10 @@
 package hcTransaction
 
 import (
+	"bytes"
 	"errors"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 const (
@@ -127,3 +130,25 @@ func (in *TxIn) setEmpty() {
 	in.scriptPub = nil
 	in.scriptSig = nil
 }
+
+//unlocks tells whether the public key of a signed input is the one its lock script asks for,and a witness program
+//the one of the redeem script
+func (in TxIn) unlocks(lock, redeem, pubkey []byte, SegwitON bool) bool {
+	switch in.inType {
+	case TypeP2PKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[3:23])
+	case TypeBech32:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	case TypeP2WPKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), redeem[2:22]) &&
+			bytes.Equal(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22]) &&
+			bytes.Equal(in.scriptPub, append([]byte{0x16}, redeem...))
+	case TypeMultiSig:
+		if SegwitON {
+			program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)
+			return bytes.Equal(in.scriptPub, append([]byte{0x23, 0x22}, program...))
+		}
+		return true
+	}
+	return false
+}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index c3f007a..06b2438 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -185,9 +185,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != unlockData[i].SigType || !signedTrans.Vins[i].unlocks(lock, redeem, sigpub.Pubkey, false) {
 				return false
 			}
 
@@ -195,10 +199,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			txHash[i].Normal.SigType = sigType
 		} else if signedTrans.Vins[i].inType == TypeMultiSig {
 			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+			if err != nil || len(sigpub) != len(txHash[i].Multi) || !signedTrans.Vins[i].unlocks(lock, redeem, nil, false) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
+				if (sigpub[j].Signature != nil) != (j < int(txHash[i].NRequired)) {
+					return false
+				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -208,16 +221,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				// signatures have to be in the order of the public keys,and a key counts once
+				for j := next; j < len(t.Multi); j++ {
+					next = j + 1
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) == 65 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index c56a08b..8b0bc31 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -1,7 +1,10 @@
 package omniTransaction
 
 import (
+	"bytes"
 	"errors"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 const (
@@ -127,3 +130,25 @@ func (in *TxIn) setEmpty() {
 	in.scriptPub = nil
 	in.scriptSig = nil
 }
+
+//unlocks tells whether the public key of a signed input is the one its lock script asks for,and a witness program
+//the one of the redeem script
+func (in TxIn) unlocks(lock, redeem, pubkey []byte, SegwitON bool) bool {
+	switch in.inType {
+	case TypeP2PKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[3:23])
+	case TypeBech32:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), lock[2:22])
+	case TypeP2WPKH:
+		return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), redeem[2:22]) &&
+			bytes.Equal(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lock[2:22]) &&
+			bytes.Equal(in.scriptPub, append([]byte{0x16}, redeem...))
+	case TypeMultiSig:
+		if SegwitON {
+			program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)
+			return bytes.Equal(in.scriptPub, append([]byte{0x23, 0x22}, program...))
+		}
+		return true
+	}
+	return false
+}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 7c7f156..3971296 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -143,9 +143,12 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
+		if signedTrans.Vins[i].inType != TypeP2PKH {
+			return false
+		}
 		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != unlockData[i].SigType {
 				return false
 			}
 
@@ -166,16 +169,19 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if len(pubkey) != 65 || owcrypt.Verify(pubkey[1:], nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
+				// signatures have to be in the order of the public keys,and a key counts once
+				for j := next; j < len(t.Multi); j++ {
+					next = j + 1
+					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if len(pubkey) == 65 && owcrypt.Verify(pubkey[1:], nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
 						break
 					}
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 39b0da0..e7ee2a9 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -260,7 +260,10 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 		//if err != nil {
 		//	return nil, err
 		//}
-		lockBytes, _ := hex.DecodeString(unlockData[i].LockScript)
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil || len(lockBytes) < 25 || lockBytes[0] != OpCodeDup || lockBytes[1] != OpCodeHash160 || lockBytes[2] != 0x14 || lockBytes[23] != OpCodeEqualVerify || lockBytes[24] != OpCodeCheckSig {
+			return nil, errors.New("Unknown type of lockScript!")
+		}
 
 		sigBytes, err := t.getBytesForSig(lockBytes, nil, TypeP2PKH, unlockData[i].SigType, i, unlockData[i].Amount, SegwitON)
 		if err != nil {
-- 
2.43.0


From 37625ad74362f13cc04e683873fe942157a122f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:01 +0000
Subject: [PATCH 025/135] fix: inserting signatures in the bitcoin drivers
 returned an empty transaction without error, and crashed when signatures were
 missing

---
 bitcoincashTransaction/transaction.go | 8 ++++++--
 bitcoincashTransaction/txHash.go      | 3 +++
 bitcoinsvTransaction/transaction.go   | 8 ++++++--
 bitcoinsvTransaction/txHash.go        | 3 +++
 btcTransaction/transaction.go         | 8 ++++++--
 btcTransaction/txHash.go              | 3 +++
 cxcTransaction/transaction.go         | 8 ++++++--
 cxcTransaction/txHash.go              | 3 +++
 hcTransaction/transaction.go          | 8 ++++++--
 hcTransaction/txHash.go               | 3 +++
 omniTransaction/transaction.go        | 8 ++++++--
 omniTransaction/txHash.go             | 3 +++
 zencashTransaction/transaction.go     | 4 ++++
 zencashTransaction/txHash.go          | 3 +++
 14 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 8c26b4b..9eded20 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -109,9 +109,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +125,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index e53b6f6..7553b0f 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -276,6 +276,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index bcfcbb9..ae3599b 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -109,9 +109,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +125,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 4f9d781..817283c 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -277,6 +277,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index cea2660..5302ec2 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -95,9 +95,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +111,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index 52ede66..e9f72cf 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -280,6 +280,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index d8d0172..664b8d5 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -114,9 +114,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -126,7 +130,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 72427dc..9db857f 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -279,6 +279,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 0390ffe..01bcb14 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -95,9 +95,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +111,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 78029f9..bf60f9c 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -280,6 +280,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index 06b2438..1fc994b 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -92,9 +92,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, false)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !false {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -104,7 +108,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index 7075121..43fa7e8 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -279,6 +279,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 3971296..cc46199 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -94,6 +94,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit := false
 
 	if segwit && !SegwitON {
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index e7ee2a9..b434562 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -284,6 +284,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Missing signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
-- 
2.43.0


From e0d041bbb8b30494d9839536424fd69ec842b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:48 +0000
Subject: [PATCH 026/135] fix: multisig addresses of the bitcoin drivers
 carried the version of a public key hash

---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 2aaf5b4..fa1f4c3 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index c153f38..33028df 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 917e216..10d12ce 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 76ac8df..916ae30 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index e760afe..347a18a 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index d19b969..b8804f7 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -55,7 +55,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	} else {
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index c28d868..3b85666 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
-- 
2.43.0


From e57fd4b114a5ee2194ec7492482baa340a4b595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:49 +0000
Subject: [PATCH 027/135] fix: bitcoin cash multisig inputs were signed over
 the legacy digest

---
 bitcoincashTransaction/txHash.go | 15 +++------------
 bitcoinsvTransaction/txHash.go   | 15 +++------------
 2 files changed, 6 insertions(+), 24 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index 7553b0f..1e00830 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -215,18 +215,9 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 		}
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
-			if SegwitON {
-				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				t.Vins[index].scriptPub = redeemBytes
-				sigBytes, err = t.encodeToBytes(SegwitON)
-
-				if err != nil {
-					return nil, err
-				}
+			sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
+			if err != nil {
+				return nil, err
 			}
 
 		} else {
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 817283c..dcb289f 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -216,18 +216,9 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 		}
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
-			if SegwitON {
-				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				t.Vins[index].scriptPub = redeemBytes
-				sigBytes, err = t.encodeToBytes(SegwitON)
-
-				if err != nil {
-					return nil, err
-				}
+			sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
+			if err != nil {
+				return nil, err
 			}
 
 		} else {
-- 
2.43.0


From 7b651ae44c8447b47e82b8b9ceda0f0bf69abeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:35 +0000
Subject: [PATCH 028/135] fix: omni payloads above 75 bytes were not pushed
 correctly and freeze payloads with a bad address were cut short

---
 bitcoincashTransaction/txOmni.go | 13 ++++++++++++-
 bitcoinsvTransaction/txOmni.go   | 13 ++++++++++++-
 omniTransaction/txOmni.go        | 13 ++++++++++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/bitcoincashTransaction/txOmni.go b/bitcoincashTransaction/txOmni.go
index 53192ee..05c31dd 100644
--- a/bitcoincashTransaction/txOmni.go
+++ b/bitcoincashTransaction/txOmni.go
@@ -52,8 +52,19 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	// the address of a freeze payload could not be decoded
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFF {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		payload = append(append([]byte{OpReturn, OpPushData2}, uint16ToLittleEndianBytes(uint16(len(payload)))...), payload...)
+	}
 	return payload
 }
 
diff --git a/bitcoinsvTransaction/txOmni.go b/bitcoinsvTransaction/txOmni.go
index 8e70e79..a43cbfe 100644
--- a/bitcoinsvTransaction/txOmni.go
+++ b/bitcoinsvTransaction/txOmni.go
@@ -52,8 +52,19 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	// the address of a freeze payload could not be decoded
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFF {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		payload = append(append([]byte{OpReturn, OpPushData2}, uint16ToLittleEndianBytes(uint16(len(payload)))...), payload...)
+	}
 	return payload
 }
 
diff --git a/omniTransaction/txOmni.go b/omniTransaction/txOmni.go
index 04b331d..78e5008 100644
--- a/omniTransaction/txOmni.go
+++ b/omniTransaction/txOmni.go
@@ -52,7 +52,18 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	// the address of a freeze payload could not be decoded
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFF {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		payload = append(append([]byte{OpReturn, OpPushData2}, uint16ToLittleEndianBytes(uint16(len(payload)))...), payload...)
+	}
 	return payload
 }
-- 
2.43.0


From 45ab476959a7e3552ed84fe6f7a45c767802d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:36 +0000
Subject: [PATCH 029/135] fix: zencash block heights with the top bit set were
 encoded as negative numbers and block hashes of any length accepted

---
 zencashTransaction/txOut.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index e47d458..49cf5e3 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -24,7 +24,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	p2wpkhPrefixByte = addressPrefix.P2WPKHPrefix
 
 	blockHashBytes, err := reverseHexToBytes(blockHash)
-	if err != nil {
+	if err != nil || len(blockHashBytes) != 32 {
 		return nil, errors.New("Invalid block hash!")
 	}
 	tmp := make([]byte, 8)
@@ -38,6 +38,10 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 		}
 	}
 	blockHeightBytes := reverseBytes(tmp[zerocount:])
+	// script numbers are signed
+	if len(blockHeightBytes) > 0 && blockHeightBytes[len(blockHeightBytes)-1]&0x80 != 0 {
+		blockHeightBytes = append(blockHeightBytes, 0x00)
+	}
 
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
-- 
2.43.0


From 037671d2efaccda8a9898d1469173bb5d383b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:38 +0000
Subject: [PATCH 030/135] fix: cxc asset references of any length were accepted

---
 cxcTransaction/txAsset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 5d27645..1cbf331 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -9,7 +9,7 @@ func getTransferPayload(to AssetTransfer) []byte {
 	ret := []byte(AssetTransferSign)
 
 	sellfirstBytes, err := reverseHexToBytes(to.FirstSellTxID)
-	if err != nil {
+	if err != nil || len(sellfirstBytes) != 16 {
 		return nil
 	}
 
-- 
2.43.0


From 786cb04de7e14c0f958536e44b48875e12ef756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:56 +0000
Subject: [PATCH 031/135] fix: reading the transaction id of a decoded input
 reversed it in place

---
 bitcoincashTransaction/txUtils.go | 2 +-
 bitcoinsvTransaction/txUtils.go   | 2 +-
 btcTransaction/txUtils.go         | 2 +-
 cxcTransaction/txUtils.go         | 2 +-
 hcTransaction/txUtils.go          | 2 +-
 omniTransaction/txUtils.go        | 2 +-
 zencashTransaction/txUtils.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index a029569..7cf8735 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index 5a0e590..b201df8 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 8c97cb0..5207720 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 2fc03cd..9563967 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index bdc2561..6dabdf8 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 9ed07c4..b494c4d 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index 2f604c8..219386c 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
-- 
2.43.0


From 625ef15b11d11ed6a72c13223bdadf32a101ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:45 +0000
Subject: [PATCH 032/135] fix: multisig inputs with two or more unused keys
 crashed when decoded

The padding loop shrank its own bound, so only half of the unsigned keys got a
slot and reading the others ran past the end.
---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index fa1f4c3..c72b6bb 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index 33028df..ab2fad5 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 10d12ce..0c3c146 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 916ae30..10a98f5 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 347a18a..d7713c5 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index b8804f7..e81a688 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -205,7 +205,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index 3b85666..f8a36ad 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
-- 
2.43.0


From 1b3611c5f68155ca97c597aa77fb46973f72ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:41 +0000
Subject: [PATCH 033/135] fix: a short one-key multisig input was decoded as a
 public key hash input

The kinds were told apart by script length alone. A multisig unlock script
starts with an empty push, the other one with the signature.
---
 bitcoincashTransaction/txStruct.go | 2 +-
 bitcoinsvTransaction/txStruct.go   | 2 +-
 btcTransaction/txStruct.go         | 2 +-
 cxcTransaction/txStruct.go         | 2 +-
 hcTransaction/txStruct.go          | 2 +-
 omniTransaction/txStruct.go        | 2 +-
 zencashTransaction/txStruct.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index a705f33..84e73ad 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -200,7 +200,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 3dbccc6..4247839 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -200,7 +200,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 9175c45..ba9a95c 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -179,7 +179,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 03f42c1..0a8d394 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -210,7 +210,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 3bb0c7d..fdff7cf 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -179,7 +179,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 457f273..84e9848 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -179,7 +179,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 5023fd7..623a54b 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -179,7 +179,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
-- 
2.43.0


From 843e6fd6eddb2751fc84fb006b12824084e2d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:01 +0000
Subject: [PATCH 034/135] fix: short addresses crashed the vollar, verge and
 aliencoin drivers and addresses of a wrong length were paid

A hash of another length than 20 bytes was put into the output script behind a
20-byte length.
---
 aliencoinTransaction/base58.go | 3 +++
 vergeTransaction/base58.go     | 3 +++
 vollarTransaction/base58.go    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/aliencoinTransaction/base58.go b/aliencoinTransaction/base58.go
index 53908d2..dadbe83 100644
--- a/aliencoinTransaction/base58.go
+++ b/aliencoinTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) != 1+0x14+4 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vergeTransaction/base58.go b/vergeTransaction/base58.go
index 7b1da8a..eba1e97 100644
--- a/vergeTransaction/base58.go
+++ b/vergeTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) != 1+0x14+4 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 786201c..6a80f62 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From ab1066564fd58814128cd8d9062a5e5623e27b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:03 +0000
Subject: [PATCH 035/135] fix: transaction ids of a wrong length were accepted
 by the vollar, verge and aliencoin drivers

---
 aliencoinTransaction/txIn.go | 2 +-
 vergeTransaction/txIn.go     | 2 +-
 vollarTransaction/txIn.go    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aliencoinTransaction/txIn.go b/aliencoinTransaction/txIn.go
index 0d1c7d6..fe6937f 100644
--- a/aliencoinTransaction/txIn.go
+++ b/aliencoinTransaction/txIn.go
@@ -16,7 +16,7 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
diff --git a/vergeTransaction/txIn.go b/vergeTransaction/txIn.go
index bb6dc21..2e9a219 100644
--- a/vergeTransaction/txIn.go
+++ b/vergeTransaction/txIn.go
@@ -16,7 +16,7 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
diff --git a/vollarTransaction/txIn.go b/vollarTransaction/txIn.go
index 61b9a11..1448716 100644
--- a/vollarTransaction/txIn.go
+++ b/vollarTransaction/txIn.go
@@ -16,7 +16,7 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
-- 
2.43.0


From d578ae43c3542111a4ecb46106e14800e97e1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:04 +0000
Subject: [PATCH 036/135] fix: counts and lock script lengths above 252 were
 truncated to one byte in the vollar, verge and aliencoin drivers

---
 aliencoinTransaction/txIn.go     |  2 +-
 aliencoinTransaction/txStruct.go | 30 +++++++++++++++---------------
 aliencoinTransaction/txUtil.go   | 25 +++++++++++++++++++++++++
 vergeTransaction/txIn.go         |  2 +-
 vergeTransaction/txStruct.go     | 30 +++++++++++++++---------------
 vergeTransaction/txUtil.go       | 25 +++++++++++++++++++++++++
 vollarTransaction/transaction.go |  2 +-
 vollarTransaction/txIn.go        |  2 +-
 vollarTransaction/txStruct.go    | 24 ++++++++++++------------
 vollarTransaction/txUtil.go      | 25 +++++++++++++++++++++++++
 10 files changed, 121 insertions(+), 46 deletions(-)

diff --git a/aliencoinTransaction/txIn.go b/aliencoinTransaction/txIn.go
index fe6937f..ca7b87e 100644
--- a/aliencoinTransaction/txIn.go
+++ b/aliencoinTransaction/txIn.go
@@ -26,7 +26,7 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 	if err != nil {
 		return nil, errors.New("invalid lock script!")
 	}
-	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
+	lockScript = append(varInt(len(lockScript)), lockScript...)
 	return &TxIn{
 		TxID:       txidBytes,
 		Vout:       vout,
diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index 5847351..0e1f2df 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -46,12 +46,12 @@ func (ts TxStruct) ToBytes() []byte {
 	ret := []byte{}
 
 	ret = append(ret, ts.Version...)
-	ret = append(ret, byte(len(ts.Vin)))
+	ret = append(ret, varInt(len(ts.Vin))...)
 	for _, in := range ts.Vin {
 		ret = append(ret, in.ToBytes()...)
 	}
 
-	ret = append(ret, byte(len(ts.Vout)))
+	ret = append(ret, varInt(len(ts.Vout))...)
 	for _, out := range ts.Vout {
 		ret = append(ret, out.ToBytes()...)
 	}
@@ -65,7 +65,7 @@ func (ts TxStruct) GetHash() ([]string, error) {
 	for i := 0; i < len(ts.Vin); i++ {
 		data := []byte{}
 		data = append(data, ts.Version...)
-		data = append(data, byte(len(ts.Vin)))
+		data = append(data, varInt(len(ts.Vin))...)
 		for index, in := range ts.Vin {
 			data = append(data, in.TxID...)
 			data = append(data, in.Vout...)
@@ -77,7 +77,7 @@ func (ts TxStruct) GetHash() ([]string, error) {
 			data = append(data, in.Sequence...)
 		}
 
-		data = append(data, byte(len(ts.Vout)))
+		data = append(data, varInt(len(ts.Vout))...)
 		for _, out := range ts.Vout {
 			data = append(data, out.ToBytes()...)
 		}
@@ -111,13 +111,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	txStruct.Version = txBytes[index : index+4]
 	index += 4
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVins, size, err := readVarInt(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVins := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVins); i++ {
+	for i := 0; i < numVins; i++ {
 		in := TxIn{}
 		if index+32 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
@@ -145,13 +145,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 		txStruct.Vin = append(txStruct.Vin, in)
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVouts, size, err := readVarInt(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVouts := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVouts); i++ {
+	for i := 0; i < numVouts; i++ {
 		out := TxOut{}
 		if index+8 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
@@ -187,7 +187,7 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 
 	for i := 0; i < len(txStruct.Vin); i++ {
 		lock, _ := hex.DecodeString(dataArray[i+1])
-		lock = append([]byte{byte(len(lock))}, lock...)
+		lock = append(varInt(len(lock)), lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
 
diff --git a/aliencoinTransaction/txUtil.go b/aliencoinTransaction/txUtil.go
index 35ea8da..9d1fe67 100644
--- a/aliencoinTransaction/txUtil.go
+++ b/aliencoinTransaction/txUtil.go
@@ -44,3 +44,28 @@ func uint32ToLittleEndianBytes(data uint32) []byte {
 	binary.LittleEndian.PutUint32(tmp[:], data)
 	return tmp[:]
 }
+
+//varInt encode a count or a length in the variable length form
+func varInt(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return []byte{0xFD, byte(n), byte(n >> 8)}
+	}
+	return []byte{0xFE, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
+}
+
+//readVarInt read a count or a length,and the number of bytes it takes
+func readVarInt(data []byte) (int, int, error) {
+	if len(data) > 0 && data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if len(data) > 2 && data[0] == 0xFD {
+		return int(binary.LittleEndian.Uint16(data[1:3])), 3, nil
+	}
+	if len(data) > 4 && data[0] == 0xFE {
+		return int(binary.LittleEndian.Uint32(data[1:5])), 5, nil
+	}
+	return 0, 0, errors.New("invalid transaction data!")
+}
diff --git a/vergeTransaction/txIn.go b/vergeTransaction/txIn.go
index 2e9a219..b09dc3e 100644
--- a/vergeTransaction/txIn.go
+++ b/vergeTransaction/txIn.go
@@ -26,7 +26,7 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 	if err != nil {
 		return nil, errors.New("invalid lock script!")
 	}
-	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
+	lockScript = append(varInt(len(lockScript)), lockScript...)
 	return &TxIn{
 		TxID:       txidBytes,
 		Vout:       vout,
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 08f324f..63dd711 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -52,12 +52,12 @@ func (ts TxStruct) ToBytes() []byte {
 
 	ret = append(ret, ts.Version...)
 	ret = append(ret, ts.TimeInterval...)
-	ret = append(ret, byte(len(ts.Vin)))
+	ret = append(ret, varInt(len(ts.Vin))...)
 	for _, in := range ts.Vin {
 		ret = append(ret, in.ToBytes()...)
 	}
 
-	ret = append(ret, byte(len(ts.Vout)))
+	ret = append(ret, varInt(len(ts.Vout))...)
 	for _, out := range ts.Vout {
 		ret = append(ret, out.ToBytes()...)
 	}
@@ -72,7 +72,7 @@ func (ts TxStruct) GetHash() ([]string, error) {
 		data := []byte{}
 		data = append(data, ts.Version...)
 		data = append(data, ts.TimeInterval...)
-		data = append(data, byte(len(ts.Vin)))
+		data = append(data, varInt(len(ts.Vin))...)
 		for index, in := range ts.Vin {
 			data = append(data, in.TxID...)
 			data = append(data, in.Vout...)
@@ -84,7 +84,7 @@ func (ts TxStruct) GetHash() ([]string, error) {
 			data = append(data, in.Sequence...)
 		}
 
-		data = append(data, byte(len(ts.Vout)))
+		data = append(data, varInt(len(ts.Vout))...)
 		for _, out := range ts.Vout {
 			data = append(data, out.ToBytes()...)
 		}
@@ -124,13 +124,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	txStruct.TimeInterval = txBytes[index : index+4]
 	index += 4
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVins, size, err := readVarInt(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVins := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVins); i++ {
+	for i := 0; i < numVins; i++ {
 		in := TxIn{}
 		if index+32 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
@@ -158,13 +158,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 		txStruct.Vin = append(txStruct.Vin, in)
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVouts, size, err := readVarInt(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVouts := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVouts); i++ {
+	for i := 0; i < numVouts; i++ {
 		out := TxOut{}
 		if index+8 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
@@ -200,7 +200,7 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 
 	for i := 0; i < len(txStruct.Vin); i++ {
 		lock, _ := hex.DecodeString(dataArray[i+1])
-		lock = append([]byte{byte(len(lock))}, lock...)
+		lock = append(varInt(len(lock)), lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
 
diff --git a/vergeTransaction/txUtil.go b/vergeTransaction/txUtil.go
index 89a35a0..6914bbc 100644
--- a/vergeTransaction/txUtil.go
+++ b/vergeTransaction/txUtil.go
@@ -44,3 +44,28 @@ func uint32ToLittleEndianBytes(data uint32) []byte {
 	binary.LittleEndian.PutUint32(tmp[:], data)
 	return tmp[:]
 }
+
+//varInt encode a count or a length in the variable length form
+func varInt(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return []byte{0xFD, byte(n), byte(n >> 8)}
+	}
+	return []byte{0xFE, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
+}
+
+//readVarInt read a count or a length,and the number of bytes it takes
+func readVarInt(data []byte) (int, int, error) {
+	if len(data) > 0 && data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if len(data) > 2 && data[0] == 0xFD {
+		return int(binary.LittleEndian.Uint16(data[1:3])), 3, nil
+	}
+	if len(data) > 4 && data[0] == 0xFE {
+		return int(binary.LittleEndian.Uint32(data[1:5])), 5, nil
+	}
+	return 0, 0, errors.New("invalid transaction data!")
+}
diff --git a/vollarTransaction/transaction.go b/vollarTransaction/transaction.go
index 6a52069..a09c6ba 100644
--- a/vollarTransaction/transaction.go
+++ b/vollarTransaction/transaction.go
@@ -64,7 +64,7 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 		if err != nil {
 			return false, "", errors.New("invalid lock script!")
 		}
-		trans.Vin[index].LockScript = append([]byte{byte(len(ls))}, ls...)
+		trans.Vin[index].LockScript = append(varInt(len(ls)), ls...)
 	}
 
 	hashes, err := trans.GetHash()
diff --git a/vollarTransaction/txIn.go b/vollarTransaction/txIn.go
index 1448716..0b5ee64 100644
--- a/vollarTransaction/txIn.go
+++ b/vollarTransaction/txIn.go
@@ -26,7 +26,7 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 	if err != nil {
 		return nil, errors.New("invalid lock script!")
 	}
-	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
+	lockScript = append(varInt(len(lockScript)), lockScript...)
 	return &TxIn{
 		TxID:       txidBytes,
 		Vout:       vout,
diff --git a/vollarTransaction/txStruct.go b/vollarTransaction/txStruct.go
index a173894..89f2d5b 100644
--- a/vollarTransaction/txStruct.go
+++ b/vollarTransaction/txStruct.go
@@ -46,12 +46,12 @@ func (ts TxStruct) ToBytes() []byte {
 	ret = append(ret, ts.Version...)
 	ret = append(ret, ts.Flag)
 
-	ret = append(ret, byte(len(ts.Vin)))
+	ret = append(ret, varInt(len(ts.Vin))...)
 	for _, in := range ts.Vin {
 		ret = append(ret, in.ToBytes()...)
 	}
 
-	ret = append(ret, byte(len(ts.Vout)))
+	ret = append(ret, varInt(len(ts.Vout))...)
 	for _, out := range ts.Vout {
 		ret = append(ret, out.ToBytes()...)
 	}
@@ -152,13 +152,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	txStruct.Flag = txBytes[index]
 	index++
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVins, size, err := readVarInt(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVins := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVins); i++ {
+	for i := 0; i < numVins; i++ {
 		in := TxIn{}
 		if index+32 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
@@ -186,13 +186,13 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 		txStruct.Vin = append(txStruct.Vin, in)
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("invalid transaction data!")
+	numVouts, size, err := readVarInt(txBytes[index:])
+	if err != nil {
+		return nil, nil, err
 	}
-	numVouts := txBytes[index]
-	index++
+	index += size
 
-	for i := 0; i < int(numVouts); i++ {
+	for i := 0; i < numVouts; i++ {
 		out := TxOut{}
 		if index+8 > limit {
 			return nil, nil, errors.New("invalid transaction data!")
diff --git a/vollarTransaction/txUtil.go b/vollarTransaction/txUtil.go
index 9cf5791..89ed2d1 100644
--- a/vollarTransaction/txUtil.go
+++ b/vollarTransaction/txUtil.go
@@ -37,3 +37,28 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//varInt encode a count or a length in the variable length form
+func varInt(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return []byte{0xFD, byte(n), byte(n >> 8)}
+	}
+	return []byte{0xFE, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
+}
+
+//readVarInt read a count or a length,and the number of bytes it takes
+func readVarInt(data []byte) (int, int, error) {
+	if len(data) > 0 && data[0] < 0xFD {
+		return int(data[0]), 1, nil
+	}
+	if len(data) > 2 && data[0] == 0xFD {
+		return int(binary.LittleEndian.Uint16(data[1:3])), 3, nil
+	}
+	if len(data) > 4 && data[0] == 0xFE {
+		return int(binary.LittleEndian.Uint32(data[1:5])), 5, nil
+	}
+	return 0, 0, errors.New("invalid transaction data!")
+}
-- 
2.43.0


From 6608aebbd61cd7f08d3bd36a668783fccb719ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:27 +0000
Subject: [PATCH 037/135] fix: aliencoin signatures with leading zero bytes
 were not minimal DER

One byte was dropped for every zero byte found at a shifting position, which
kept some leading zeros and could cut a value short.
---
 aliencoinTransaction/txSigPub.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index 71a40d7..5321423 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -41,7 +41,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[i] == 0 {
+			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -52,7 +52,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[i] == 0 {
+			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
-- 
2.43.0


From 2b3cdb8f5f130e63727c714ba923583c15205c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:28 +0000
Subject: [PATCH 038/135] fix: malformed public keys crashed verification in
 the vollar, verge and aliencoin drivers, and vollar combined unverified
 signatures

A zero or short signature that had failed verification crashed the vollar
encoder; a failed verification no longer yields a transaction.
---
 aliencoinTransaction/transaction.go |  4 ++--
 vergeTransaction/transaction.go     |  4 ++--
 vollarTransaction/transaction.go    | 10 ++++------
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/aliencoinTransaction/transaction.go b/aliencoinTransaction/transaction.go
index 659d15b..19b69de 100644
--- a/aliencoinTransaction/transaction.go
+++ b/aliencoinTransaction/transaction.go
@@ -64,8 +64,8 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/vergeTransaction/transaction.go b/vergeTransaction/transaction.go
index 3663478..089207b 100644
--- a/vergeTransaction/transaction.go
+++ b/vergeTransaction/transaction.go
@@ -64,8 +64,8 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/vollarTransaction/transaction.go b/vollarTransaction/transaction.go
index a09c6ba..f2dcbe6 100644
--- a/vollarTransaction/transaction.go
+++ b/vollarTransaction/transaction.go
@@ -72,13 +72,11 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 		return false, "", err
 	}
 
-	pass := true
-
 	for i := 0; i < len(sigPub); i++ {
 		hash, _ := hex.DecodeString(hashes[i])
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
-			pass = false
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+			return false, "", nil
 		}
 		trans.Vin[i].SigPub = &sigPub[i]
 	}
@@ -87,5 +85,5 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	for index := 0; index < 82+len(trans.Vin); index++ {
 		txBytes = append(txBytes, byte(0))
 	}
-	return pass, hex.EncodeToString(txBytes), nil
+	return true, hex.EncodeToString(txBytes), nil
 }
-- 
2.43.0


From 3e3207eb421951d6b13de4c70bfe4eab01592141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:29 +0000
Subject: [PATCH 039/135] fix: transactions without inputs or outputs were
 created by the vollar, verge and aliencoin drivers

---
 aliencoinTransaction/txStruct.go | 4 ++++
 vergeTransaction/txStruct.go     | 4 ++++
 vollarTransaction/txStruct.go    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index 0e1f2df..e9c81b0 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -24,6 +24,10 @@ func NewTxStruct(vins []Vin, vouts []Vout, lockTime uint32) (*TxStruct, error) {
 
 	ret.LockTime = uint32ToLittleEndianBytes(lockTime)
 
+	if len(vins) == 0 || len(vouts) == 0 {
+		return nil, errors.New("no input or output found!")
+	}
+
 	for _, in := range vins {
 		txin, err := in.NewTxIn()
 		if err != nil {
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 63dd711..a012e2e 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -29,6 +29,10 @@ func NewTxStruct(vins []Vin, vouts []Vout, timeInterval, lockTime uint32) (*TxSt
 	ret.TimeInterval = uint32ToLittleEndianBytes(timeuntil)
 	ret.LockTime = uint32ToLittleEndianBytes(lockTime)
 
+	if len(vins) == 0 || len(vouts) == 0 {
+		return nil, errors.New("no input or output found!")
+	}
+
 	for _, in := range vins {
 		txin, err := in.NewTxIn()
 		if err != nil {
diff --git a/vollarTransaction/txStruct.go b/vollarTransaction/txStruct.go
index 89f2d5b..3ed177e 100644
--- a/vollarTransaction/txStruct.go
+++ b/vollarTransaction/txStruct.go
@@ -22,6 +22,10 @@ type TxStruct struct {
 func NewTxStruct(vins []Vin, vouts []Vout) (*TxStruct, error) {
 	ret := TxStruct{Version: DefaultTxVersion, Flag: DefaultTxFlag}
 
+	if len(vins) == 0 || len(vouts) == 0 {
+		return nil, errors.New("no input or output found!")
+	}
+
 	for _, in := range vins {
 		txin, err := in.NewTxIn()
 		if err != nil {
-- 
2.43.0


From dc3e698e9f2b6bd962914aaf5647056b632626ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:56 +0000
Subject: [PATCH 040/135] fix: short addresses crashed the hypercash driver

---
 hypercashTransaction/base58.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 020220b..3b3b96e 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From a19063da4754df81c3f269b76de3a8af609a064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:57 +0000
Subject: [PATCH 041/135] fix: short transactions and invalid public keys
 crashed the hypercash driver

---
 hypercashTransaction/transaction.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hypercashTransaction/transaction.go b/hypercashTransaction/transaction.go
index 0af3a30..fcf022a 100644
--- a/hypercashTransaction/transaction.go
+++ b/hypercashTransaction/transaction.go
@@ -141,6 +141,10 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 		return false, ""
 	}
 
+	if len(txBytes) < 4 {
+		return false, ""
+	}
+
 	serilizeFull := uint16ToLittleEndianBytes(TxSerializeFull)
 	if serilizeFull[0] != txBytes[2] || serilizeFull[1] != txBytes[3] {
 		return false, ""
@@ -184,7 +188,14 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 
 		hash := owcrypt.Hash(hashData, 0, owcrypt.HASH_ALG_BLAKE256)
 
-		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		if sigPub[i] == nil {
+			return false, ""
+		}
+		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 {
+			return false, ""
+		}
+		pubkey = pubkey[1:]
 
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, ""
-- 
2.43.0


From e4effc261e86e649e3cfa2c29e5b35a0eacc7ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:58 +0000
Subject: [PATCH 042/135] fix: hypercash lock scripts of more than 252 bytes
 were signed with a wrong length

---
 hypercashTransaction/txIn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypercashTransaction/txIn.go b/hypercashTransaction/txIn.go
index c50d1fe..298fc81 100644
--- a/hypercashTransaction/txIn.go
+++ b/hypercashTransaction/txIn.go
@@ -38,7 +38,7 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 		return nil, errors.New("Invalid lock script!")
 	}
 
-	txIn.LockScript = append([]byte{byte(len(lockscript))}, lockscript...)
+	txIn.LockScript = append(varIntToBytes(uint64(len(lockscript))), lockscript...)
 
 	return &txIn, nil
 }
-- 
2.43.0


From 70aa73ac0ce343cfb9205e226956fafe5e06fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:59 +0000
Subject: [PATCH 043/135] fix: the inputs of a hypercash transaction with more
 than 252 inputs were not listed

---
 hypercashTransaction/TxStruct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hypercashTransaction/TxStruct.go b/hypercashTransaction/TxStruct.go
index 6e7a25b..dfcde17 100644
--- a/hypercashTransaction/TxStruct.go
+++ b/hypercashTransaction/TxStruct.go
@@ -136,6 +136,15 @@ func GetVinList(emptyTrans string) ([]Vin, error) {
 	}
 	count := int(tx[index])
 	index ++
+	if count == 0xfd {
+		if index + 2 > limit {
+			return nil, errors.New("Invalid transaction hex!")
+		}
+		count = int(littleEndianBytesToUint16(tx[index:index+2]))
+		index += 2
+	} else if count > 0xfd {
+		return nil, errors.New("Invalid transaction hex!")
+	}
 	if count <= 0 || count != len(trans) - 1{
 		return nil, errors.New("Invalid transaction hex!")
 	}
-- 
2.43.0


From 8423ea1630046242ff6d7df3f43440db64c274cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:59 +0000
Subject: [PATCH 044/135] fix: hypercash inputs always named the regular tree,
 whatever tree was given

---
 hypercashTransaction/txIn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypercashTransaction/txIn.go b/hypercashTransaction/txIn.go
index 298fc81..ecafe0e 100644
--- a/hypercashTransaction/txIn.go
+++ b/hypercashTransaction/txIn.go
@@ -25,7 +25,7 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 
 	txIn.Vout = uint32ToLittleEndianBytes(in.Vout)
 
-	txIn.TxTree = TxTreeRegular
+	txIn.TxTree = in.Tree
 
 	txIn.Sequence = []byte{0xff, 0xff, 0xff, 0xff}
 
-- 
2.43.0


From 4ac31278b17015ffc7e223905742672e82b71264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:02 +0000
Subject: [PATCH 045/135] fix: elastos transaction and asset ids of a wrong
 length were accepted

---
 elastosTransaction/txIn.go  | 2 +-
 elastosTransaction/txOut.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/elastosTransaction/txIn.go b/elastosTransaction/txIn.go
index 94342e6..77cc91f 100644
--- a/elastosTransaction/txIn.go
+++ b/elastosTransaction/txIn.go
@@ -10,7 +10,7 @@ type Input struct {
 
 func (in Vin) NewInput() (*Input, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid previous transaction ID!")
 	}
 	vout := uint16ToLittleEndianBytes(in.Vout)
diff --git a/elastosTransaction/txOut.go b/elastosTransaction/txOut.go
index 29b3251..16edb93 100644
--- a/elastosTransaction/txOut.go
+++ b/elastosTransaction/txOut.go
@@ -13,7 +13,7 @@ type Output struct {
 
 func (out Vout) NewOutput() (*Output, error) {
 	assetID, err := reverseHexToBytes(out.AssetID)
-	if err != nil {
+	if err != nil || len(assetID) != 32 {
 		return nil, errors.New("Invalid Asset ID!")
 	}
 
-- 
2.43.0


From 1418f1a4b89b8372608da83430cfd548113ac564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:02 +0000
Subject: [PATCH 046/135] fix: elastos counts above 127 were not written in the
 form of the network

The network writes counts as the bitcoin variable length integer, not as a base 128 one.
---
 elastosTransaction/txUtils.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/elastosTransaction/txUtils.go b/elastosTransaction/txUtils.go
index 64f11c0..92f5727 100644
--- a/elastosTransaction/txUtils.go
+++ b/elastosTransaction/txUtils.go
@@ -62,15 +62,18 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//uint64ToUvarint encode a count in the variable length form of the network
 func uint64ToUvarint(x uint64) []byte {
-	ret := [8]byte{}
-
-	len := binary.PutUvarint(ret[:], x)
-
-	if len == 0 {
-		return nil
+	if x < 0xfd {
+		return []byte{byte(x)}
+	}
+	if x <= 0xffff {
+		return append([]byte{0xfd}, uint16ToLittleEndianBytes(uint16(x))...)
+	}
+	if x <= 0xffffffff {
+		return append([]byte{0xfe}, uint32ToLittleEndianBytes(uint32(x))...)
 	}
-	return ret[:len]
+	return append([]byte{0xff}, uint64ToLittleEndianBytes(x)...)
 }
 
 func uvarintToUint64(buf []byte) uint64 {
-- 
2.43.0


From 4f67fd351774c06402b74132ab8a3a2cfe37ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:03 +0000
Subject: [PATCH 047/135] fix: elastos transactions without any signature
 passed verification and invalid public keys crashed it

---
 elastosTransaction/transaction.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index f76d156..0dcec15 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -73,8 +73,16 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool,
 
 	hash := owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_SHA256)
 
+	if len(sigPubs) == 0 {
+		return false, ""
+	}
+
 	for _, sp := range sigPubs {
-		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
+		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(publicKey) != 65 {
+			return false, ""
+		}
+		publicKey = publicKey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(publicKey, nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, ""
 		}
-- 
2.43.0


From edaa69113c9c086073443607b39f1c09c81d4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:04 +0000
Subject: [PATCH 048/135] fix: short addresses crashed the elastos address
 decoder

---
 elastosTransaction/base58.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 04054e6..7fe396b 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From 7ea78daf7f282557779e40e741dc3a3f48721ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 049/135] fix: short addresses crashed the fiii driver

---
 fiiiTransaction/base58.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index 2226867..b75bd35 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret)-len(prefix)-4 != 20 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
@@ -168,10 +171,6 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 		}
 	}
 
-	if len(ret)-len(prefix)-4 != 20 {
-		return nil, errors.New("Invalid address!")
-	}
-
 	return ret[len(prefix) : len(ret)-4], nil
 }
 
-- 
2.43.0


From dc1bbc096916865032dcbd38566ac3503ccc21e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 050/135] fix: fiii output indexes outside 32 bits were signed
 as another index

---
 fiiiTransaction/txInput.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fiiiTransaction/txInput.go b/fiiiTransaction/txInput.go
index d6fffe3..67271fc 100644
--- a/fiiiTransaction/txInput.go
+++ b/fiiiTransaction/txInput.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"math"
 )
 
 type InputMsg struct {
@@ -26,6 +27,10 @@ func (in Vin) NewInputMsg() (*InputMsg, error) {
 		return nil, err
 	}
 
+	if in.Vout < 0 || int64(in.Vout) > math.MaxUint32 {
+		return nil, errors.New("Invalid UTXO!")
+	}
+
 	ret.OutputTransactionHash = in.TxID
 	ret.OutputIndex = in.Vout
 
-- 
2.43.0


From 0ef980d4831b28655a4d6cae62c29b5a0de0fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:34 +0000
Subject: [PATCH 051/135] fix: elastos public keys that are no point of the
 curve crashed verification

---
 elastosTransaction/transaction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index 0dcec15..01c1607 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -1,6 +1,7 @@
 package elastosTransaction
 
 import (
+	"crypto/elliptic"
 	"encoding/hex"
 	"errors"
 
@@ -79,7 +80,7 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool,
 
 	for _, sp := range sigPubs {
 		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
-		if len(publicKey) != 65 {
+		if x, _ := elliptic.Unmarshal(elliptic.P256(), publicKey); x == nil {
 			return false, ""
 		}
 		publicKey = publicKey[1:]
-- 
2.43.0


From 8604e27dc5344df2e43e67adab4c3097c0845b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:24 +0000
Subject: [PATCH 052/135] fix: invalid public keys crashed the mateverse
 verification

---
 mateverseTransaction/txSigPub.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mateverseTransaction/txSigPub.go b/mateverseTransaction/txSigPub.go
index cee0d9e..0e8b779 100644
--- a/mateverseTransaction/txSigPub.go
+++ b/mateverseTransaction/txSigPub.go
@@ -72,7 +72,11 @@ func verifyTransactionHash(pubkey, hash, signature string) bool {
 		return false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 {
+		return false
+	}
+	pubBytes = pubBytes[1:]
 	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false
 	}
-- 
2.43.0


From cf592dc8eeb64ee048d150b832e6bf6f11327319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:24 +0000
Subject: [PATCH 053/135] fix: mateverse input counts 0, 254 and 255 in another
 form were misread

---
 mateverseTransaction/txIn.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mateverseTransaction/txIn.go b/mateverseTransaction/txIn.go
index 7747b42..f9b69fb 100644
--- a/mateverseTransaction/txIn.go
+++ b/mateverseTransaction/txIn.go
@@ -59,12 +59,11 @@ func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 	}
 
 	var inputCount int
-	if tx[index] != 0xfd {
+	if tx[index] < 0xfd {
 		inputCount = int(tx[index])
-		if inputCount == 0 {
-			return nil, 0, errors.New("Invalid tx data!")
-		}
 		index ++
+	} else if tx[index] > 0xfd {
+		return nil, 0, errors.New("Invalid tx data!")
 	} else {
 		index ++
 		if index + 2 > limit {
@@ -73,6 +72,9 @@ func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 		inputCount = int(littleEndianBytesToUint16(tx[index:index+2]))
 		index += 2
 	}
+	if inputCount == 0 {
+		return nil, 0, errors.New("Invalid tx data!")
+	}
 
 	for i := 0; i < inputCount; i ++ {
 		var input TxInput
-- 
2.43.0


From f122650f06e270ead77ec079999b93346ab6f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:25 +0000
Subject: [PATCH 054/135] fix: mateverse lock scripts that are not hexadecimal
 were signed as another script

---
 mateverseTransaction/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 6dd9341..4f0be2b 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -35,7 +35,7 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 			return errors.New("Miss lock script!")
 		}
 		lockScript := getHashFromLockScript(input.lockScript)
-		if lockScript == "" || len(lockScript) < 50 {
+		if _, err = hex.DecodeString(lockScript); err != nil || len(lockScript) < 50 {
 			return errors.New("Invalid lock script!")
 		}
 		input.SetLockScript(lockScript)
-- 
2.43.0


From a3172df1a4ec734105299b94741f83b73ae3a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:26 +0000
Subject: [PATCH 055/135] fix: mateverse lock scripts of more than 252 bytes
 were signed with a wrong length

---
 mateverseTransaction/txIn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mateverseTransaction/txIn.go b/mateverseTransaction/txIn.go
index f9b69fb..52546e0 100644
--- a/mateverseTransaction/txIn.go
+++ b/mateverseTransaction/txIn.go
@@ -156,7 +156,12 @@ func getHashCalcBytes(inputs []*TxInput, index int) []byte {
 		tx = append(tx, uint32ToLittleEndianBytes(input.vout)...)
 		if i == index {
 			lockScript, _ := hex.DecodeString(input.lockScript)
-			tx = append(tx, byte(len(lockScript)))
+			if len(lockScript) < 0xfd {
+				tx = append(tx, byte(len(lockScript)))
+			} else {
+				tx = append(tx, 0xfd)
+				tx = append(tx, uint16ToLittleEndianBytes(uint16(len(lockScript)))...)
+			}
 			tx = append(tx, lockScript...)
 		} else {
 			tx = append(tx, 0x00)
-- 
2.43.0


From 6bd914f317ac8de3555f79d4c09d0a8328bc78a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:27 +0000
Subject: [PATCH 056/135] fix: mateverse signatures were combined with a
 transaction or inputs they do not sign

The digests kept from before were verified, whatever transaction was given.
---
 mateverseTransaction/transaction.go | 49 ++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 4f0be2b..895d891 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -25,10 +25,13 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 	if err != nil {
 		return errors.New("Invalid empty raw transaction!")
 	}
-	_, inputsEnd, err := decodeEmptyTx(trans)
+	txInputs, inputsEnd, err := decodeEmptyTx(trans)
 	if err != nil {
 		return err
 	}
+	if !sameInputs(txInputs, *inputs) {
+		return errors.New("Inputs are not the ones of the transaction!")
+	}
 
 	for i, input := range *inputs {
 		if input.lockScript == "" {
@@ -43,17 +46,35 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 		if err != nil || len(input.txID) != 64 {
 			return errors.New("Invalid txid!")
 		}
-		hashBytes := getHashCalcBytes(*inputs, i)
-
-		hashBytes = append(hashBytes, trans[inputsEnd:]...)
-		hashBytes = append(hashBytes, uint32ToLittleEndianBytes(SigHashAll)...)
-
-		input.hash = hex.EncodeToString(owcrypt.Hash(hashBytes, 0, owcrypt.HASH_ALG_DOUBLE_SHA256))
+		input.hash = calcSigHash(*inputs, i, trans[inputsEnd:])
 	}
 
 	return nil
 }
 
+//calcSigHash hash to sign for one input, outputs is the part of the transaction behind the inputs
+func calcSigHash(inputs []*TxInput, index int, outputs []byte) string {
+	hashBytes := getHashCalcBytes(inputs, index)
+
+	hashBytes = append(hashBytes, outputs...)
+	hashBytes = append(hashBytes, uint32ToLittleEndianBytes(SigHashAll)...)
+
+	return hex.EncodeToString(owcrypt.Hash(hashBytes, 0, owcrypt.HASH_ALG_DOUBLE_SHA256))
+}
+
+//sameInputs check that the inputs are the ones of the transaction
+func sameInputs(txInputs, inputs []*TxInput) bool {
+	if len(txInputs) != len(inputs) {
+		return false
+	}
+	for i, input := range inputs {
+		if input == nil || input.txID != txInputs[i].txID || input.vout != txInputs[i].vout || input.sequence != txInputs[i].sequence {
+			return false
+		}
+	}
+	return true
+}
+
 func SignTransaction(hash string, prikey []byte) (string, error) {
 	hashBytes, err := hex.DecodeString(hash)
 	if err != nil || len(hashBytes) != 32 {
@@ -75,7 +96,19 @@ func SignTransaction(hash string, prikey []byte) (string, error) {
 
 func VerifyAndCombineTransaction(emptyTrans string, inputs []*TxInput) (bool, string) {
 
-	for _, input := range inputs {
+	trans, err := hex.DecodeString(emptyTrans)
+	if err != nil {
+		return false, ""
+	}
+	txInputs, inputsEnd, err := decodeEmptyTx(trans)
+	if err != nil || !sameInputs(txInputs, inputs) {
+		return false, ""
+	}
+
+	for i, input := range inputs {
+		if input.hash != calcSigHash(inputs, i, trans[inputsEnd:]) {
+			return false, ""
+		}
 		if !verifyTransactionHash(input.pubkey, input.hash, input.signature) {
 			return false, ""
 		}
-- 
2.43.0


From c9a644e71cf2d54a6f18fc0f351da575fa9f97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 057/135] fix: bytom: amounts, times and positions of 2^56 and
 more panic

---
 bytomTransaction/txUtil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytomTransaction/txUtil.go b/bytomTransaction/txUtil.go
index f67ebe3..da4160b 100644
--- a/bytomTransaction/txUtil.go
+++ b/bytomTransaction/txUtil.go
@@ -5,7 +5,7 @@ import (
 )
 
 func uint64ToUvarint(x uint64) []byte {
-	ret := [8]byte{}
+	ret := [binary.MaxVarintLen64]byte{}
 
 	len := binary.PutUvarint(ret[:], x)
 
-- 
2.43.0


From 5f9677a3710006866dfa77467e85526deeff00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:47 +0000
Subject: [PATCH 058/135] fix: bytom: an output address shorter than two
 characters panics and one of another network passes

---
 bytomTransaction/transaction.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index c1d3371..c2bdeb7 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -22,15 +22,14 @@ type Vout struct {
 
 func CreateEmptyRawTransaction(vins []Vin, vouts []Vout, timeRange uint64, isTestNet bool) (string, error) {
 
+	hrp := Bech32HRPSegwitMainNet
+	if isTestNet {
+		hrp = Bech32HRPSegwitTestNet
+	}
 	for _, addr := range vouts {
-		if isTestNet {
-			if addr.Address[:2] != Bech32HRPSegwitTestNet {
-				return "", errors.New("Invalid address to send!")
-			}
-		} else {
-			if addr.Address[:2] != Bech32HRPSegwitMainNet {
-				return "", errors.New("Invalid address to send!")
-			}
+		prefix, _, err := Bech32Decode(addr.Address)
+		if err != nil || prefix != hrp {
+			return "", errors.New("Invalid address to send!")
 		}
 	}
 
-- 
2.43.0


From afb0a4ab453c927f118bb4e9f9f0a4bd38bf076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:48 +0000
Subject: [PATCH 059/135] fix: bytom: the digest of an input that spends an
 output other than the first is not the one the network checks

---
 bytomTransaction/txStruct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index fe41dd5..35a5184 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -381,7 +381,8 @@ func (t Transaction) getMuxID() ([]byte, error) {
 		msgBytes = append(msgBytes, spendID[i]...)
 		msgBytes = append(msgBytes, t.Inputs[i].AssetID...)
 		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.Inputs[i].GetAmount())...)
-		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.Inputs[i].GetSourcePosition())...)
+		// a spend has a single value, at position 0
+		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(0)...)
 	}
 
 	msgBytes = append(msgBytes, uint64ToLittleEndianBytes(DefaultVMVersion)...)
-- 
2.43.0


From 6885a1a57117e79958cb77cfd4fe235f80bfb814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:49 +0000
Subject: [PATCH 060/135] fix: bytom: control programs that are no witness
 program are accepted, and short ones panic

---
 bytomTransaction/txIn.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index 89eab81..d1069da 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -107,7 +107,7 @@ func (in TxIn) toBytes() ([]byte, error) {
 	if in.AssetID == nil || len(in.AssetID) != 32 {
 		return nil, errors.New("No asset ID found or asset ID is in wrong length!")
 	}
-	if in.ControlProgram == nil || (len(in.ControlProgram) != 22 && len(in.ControlProgram) != 34) {
+	if !isControlProgram(in.ControlProgram) {
 		return nil, errors.New("No control program found or control program is in wrong length!")
 	}
 	if in.SourcePosition == nil || len(in.SourcePosition) == 0 {
@@ -150,6 +150,11 @@ func (in TxIn) toBytes() ([]byte, error) {
 	return ret, nil
 }
 
+// isControlProgram reports whether program pays to a public key hash or a script hash
+func isControlProgram(program []byte) bool {
+	return (len(program) == 22 || len(program) == 34) && program[0] == 0x00 && int(program[1]) == len(program)-2
+}
+
 func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, error) {
 	limit := len(script)
 	index := 0
@@ -228,5 +233,8 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 	}
 
 	controlProgram := script[index+1:]
+	if !isControlProgram(controlProgram) {
+		return nil, nil, nil, nil, nil, errors.New("Invalid control program!")
+	}
 	return sourceID, assetID, amount, sourcePos, controlProgram, nil
 }
-- 
2.43.0


From 76b1cd6c62e9eab912a04ed98d8c90b0c5e475e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:49 +0000
Subject: [PATCH 061/135] fix: bytom: truncated integers panic, source
 positions over 127 do not decode and other versions pass as version 1

---
 bytomTransaction/txIn.go     | 25 ++++++----------------
 bytomTransaction/txOut.go    | 18 ++++------------
 bytomTransaction/txStruct.go | 41 ++++++++++++------------------------
 bytomTransaction/txUtil.go   | 10 +++++++++
 4 files changed, 34 insertions(+), 60 deletions(-)

diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index d1069da..7ad336b 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -189,28 +189,17 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
-		}
-
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	amount, err := getUvarint(script[index:])
+	if err != nil {
+		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
-	amount := script[index : index+offset]
-	index += offset
+	index += len(amount)
 
-	if index+1 > limit {
+	sourcePos, err := getUvarint(script[index:])
+	if err != nil {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
-
-	sourcePos := script[index : index+1]
-	index++
+	index += len(sourcePos)
 
 	if index+1 > limit {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
diff --git a/bytomTransaction/txOut.go b/bytomTransaction/txOut.go
index 56b261c..546a58b 100644
--- a/bytomTransaction/txOut.go
+++ b/bytomTransaction/txOut.go
@@ -101,21 +101,11 @@ func decodeOutputScript(script []byte) ([]byte, []byte, []byte, error) {
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, errors.New("Invalid output script data!")
-		}
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	amount, err := getUvarint(script[index:])
+	if err != nil {
+		return nil, nil, nil, errors.New("Invalid output script data!")
 	}
-
-	amount := script[index : index+offset]
-	index += offset
+	index += len(amount)
 
 	if index+1 > limit {
 		return nil, nil, nil, errors.New("Invalid output script data!")
diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index 35a5184..2d8c138 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -111,38 +111,23 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	index++
 
 	// get transaction version
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			index++
-			continue
-		}
+	version, err := getUvarint(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-
-	rawTx.Version = txBytes[index : index+offset]
-	index += offset
+	if uvarintToUint64(version) != DefaultTransactionVersion {
+		return nil, errors.New("Invalid transaction version!")
+	}
+	rawTx.Version = version
+	index += len(version)
 
 	// get range time
-	offset = 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	timeRange, err := getUvarint(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-
-	rawTx.TimeRange = txBytes[index : index+offset]
-	index += offset
+	rawTx.TimeRange = timeRange
+	index += len(timeRange)
 
 	//get count of inputs
 	if index+1 > limit {
diff --git a/bytomTransaction/txUtil.go b/bytomTransaction/txUtil.go
index da4160b..b46a878 100644
--- a/bytomTransaction/txUtil.go
+++ b/bytomTransaction/txUtil.go
@@ -2,6 +2,7 @@ package bytomTransaction
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
 func uint64ToUvarint(x uint64) []byte {
@@ -15,6 +16,15 @@ func uint64ToUvarint(x uint64) []byte {
 	return ret[:len]
 }
 
+//getUvarint returns the variable length integer data starts with
+func getUvarint(data []byte) ([]byte, error) {
+	x, n := binary.Uvarint(data)
+	if n <= 0 || n != len(uint64ToUvarint(x)) {
+		return nil, errors.New("Invalid variable length integer!")
+	}
+	return data[:n], nil
+}
+
 func uvarintToUint64(buf []byte) uint64 {
 	if buf == nil || len(buf) == 0x00 {
 		return 0
-- 
2.43.0


From 1ab91ada24bee222080fb0a5f46c2242e62e35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:50 +0000
Subject: [PATCH 062/135] fix: bytom: transactions with more than 127 inputs or
 outputs carry a wrong count

---
 bytomTransaction/txStruct.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index 2d8c138..a180a0b 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -68,7 +68,7 @@ func (t Transaction) toBytes() ([]byte, error) {
 	ret = append(ret, t.Version...)
 	ret = append(ret, t.TimeRange...)
 
-	ret = append(ret, byte(len(t.Inputs)))
+	ret = append(ret, uint64ToUvarint(uint64(len(t.Inputs)))...)
 
 	for _, in := range t.Inputs {
 		inBytes, err := in.toBytes()
@@ -78,7 +78,7 @@ func (t Transaction) toBytes() ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Outputs)))
+	ret = append(ret, uint64ToUvarint(uint64(len(t.Outputs)))...)
 
 	for _, out := range t.Outputs {
 		outBytes, err := out.toBytes()
@@ -130,17 +130,18 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	index += len(timeRange)
 
 	//get count of inputs
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data!")
+	vinCount, err := getUvarint(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
-	if numOfVins <= 0 {
+	index += len(vinCount)
+	numOfVins := uvarintToUint64(vinCount)
+	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
 	// get vins
-	for i := byte(0); i < numOfVins; i++ {
+	for i := uint64(0); i < numOfVins; i++ {
 		var in TxIn
 		// get asset version of inputs
 		if index+1 > limit {
@@ -232,16 +233,17 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		rawTx.Inputs = append(rawTx.Inputs, in)
 	}
 	//get count of outputs
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data!")
+	voutCount, err := getUvarint(txBytes[index:])
+	if err != nil {
+		return nil, err
 	}
-	numOfVouts := txBytes[index]
-	index++
+	index += len(voutCount)
+	numOfVouts := uvarintToUint64(voutCount)
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := uint64(0); i < numOfVouts; i++ {
 		var out TxOut
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data!")
@@ -360,7 +362,7 @@ func (t Transaction) getMuxID() ([]byte, error) {
 
 	var msgBytes []byte
 
-	msgBytes = append(msgBytes, byte(len(spendID)))
+	msgBytes = append(msgBytes, uint64ToUvarint(uint64(len(spendID)))...)
 
 	for i := 0; i < len(spendID); i++ {
 		msgBytes = append(msgBytes, spendID[i]...)
@@ -451,7 +453,7 @@ func (t Transaction) getTxID() ([]byte, error) {
 	}
 	msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.GetTimeRange())...)
 
-	msgBytes = append(msgBytes, byte(len(t.Outputs)))
+	msgBytes = append(msgBytes, uint64ToUvarint(uint64(len(t.Outputs)))...)
 
 	for _, o := range outID {
 		msgBytes = append(msgBytes, o...)
-- 
2.43.0


From d3d18078022cedf5aae87a3531f308244c777886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:51 +0000
Subject: [PATCH 063/135] fix: bytom: inserting signatures for another number
 of inputs panics or leaves inputs unsigned

---
 bytomTransaction/transaction.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index c2bdeb7..857fae1 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -123,6 +123,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash) (strin
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
+	if len(txHashes) != len(emptyTrans.Inputs) {
+		return "", errors.New("The count of signatures differs from the count of inputs!")
+	}
+
 	for i := 0; i < len(txHashes); i++ {
 		if txHashes[i].IsMultiSig() {
 			multiSigData, controlProgram, err := txHashes[i].getMultiSigBytes()
@@ -133,6 +137,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash) (strin
 			emptyTrans.Inputs[i].MultiSig = multiSigData
 			emptyTrans.Inputs[i].SigPub = nil
 		} else {
+			if txHashes[i].Normal == nil {
+				return "", errors.New("No signature data found!")
+			}
 			emptyTrans.Inputs[i].SigPub = &txHashes[i].Normal.SigPub
 			emptyTrans.Inputs[i].MultiSig = nil
 		}
-- 
2.43.0


From 8eaad4d6a8cf3998fc21ec55c18cbf1e88919cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:52 +0000
Subject: [PATCH 064/135] fix: bytom: verifying a transaction with an unsigned
 input panics

---
 bytomTransaction/transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index 857fae1..7a8b08d 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -201,6 +201,9 @@ func VerifyRawTransaction(txHex string) bool {
 				return false
 			}
 		} else {
+			if signedTrans.Inputs[i].SigPub == nil {
+				return false
+			}
 			if owcrypt.SUCCESS != owcrypt.Verify(signedTrans.Inputs[i].SigPub.Pubkey, nil, txHashes[i], signedTrans.Inputs[i].SigPub.Signature, owcrypt.ECC_CURVE_ED25519_NORMAL) {
 				return false
 			}
-- 
2.43.0


From 9986131f7ec5950d4b960dda5f7c34c3d9520b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:52 +0000
Subject: [PATCH 065/135] fix: bytom: multisig scripts that nobody can meet are
 created and accepted

---
 bytomTransaction/txMultiSig.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bytomTransaction/txMultiSig.go b/bytomTransaction/txMultiSig.go
index c7bf728..95de237 100644
--- a/bytomTransaction/txMultiSig.go
+++ b/bytomTransaction/txMultiSig.go
@@ -16,6 +16,10 @@ func CreateMultiSig(required byte, pubkeys [][]byte, isTestNet bool) (string, st
 		return "", "", errors.New("Required number should be at least one!")
 	}
 
+	if len(pubkeys) > 16 {
+		return "", "", errors.New("Too many pubkeys for a multisig script!")
+	}
+
 	if len(pubkeys) < int(required) {
 		return "", "", errors.New("The required number is bigger than the count of pubkeys!")
 	}
@@ -88,7 +92,7 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 
 	required := signScript[index] - (Op_1 - 1)
 
-	if required <= 0 {
+	if len(multi) > 16 || required == 0 || int(required) > len(multi) {
 		return nil, 0, errors.New("Invalid required number for a multi sigScript!")
 	}
 	index++
-- 
2.43.0


From fc4a3dce379b7bcfe9cff72059b581061bb133bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 066/135] fix: bytom: only multisig inputs with two signatures
 can be signed

---
 bytomTransaction/transaction.go |   2 +-
 bytomTransaction/txHash.go      |   7 +-
 bytomTransaction/txMultiSig.go  | 120 +++++++++-----------------------
 bytomTransaction/txStruct.go    |  67 +++++-------------
 4 files changed, 58 insertions(+), 138 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index 7a8b08d..44f6747 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -184,7 +184,7 @@ func VerifyRawTransaction(txHex string) bool {
 
 	for i := 0; i < len(txHashes); i++ {
 		if len(signedTrans.Inputs[i].ControlProgram) == 0x22 {
-			sigs, pubs, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
+			sigs, pubs, _, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
 			if err != nil {
 				return false
 			}
diff --git a/bytomTransaction/txHash.go b/bytomTransaction/txHash.go
index 477f850..fbb9727 100644
--- a/bytomTransaction/txHash.go
+++ b/bytomTransaction/txHash.go
@@ -71,7 +71,8 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 
 	sigBytes := []byte{}
 
-	sigBytes = append(sigBytes, 0x01, 0x03)
+	// the arguments are the signatures and the script
+	sigBytes = append(sigBytes, th.NRequired+1)
 
 	count := 0
 	for _, sp := range th.Multi {
@@ -95,9 +96,9 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 		return nil, nil, errors.New("Not competely signed!")
 	}
 
-	sigBytes = append(sigBytes, byte(len(signScript)))
+	sigBytes = append(sigBytes, uint64ToUvarint(uint64(len(signScript)))...)
 	sigBytes = append(sigBytes, signScript...)
 
-	sigBytes = append([]byte{byte(len(sigBytes) - 1)}, sigBytes...)
+	sigBytes = append(uint64ToUvarint(uint64(len(sigBytes))), sigBytes...)
 	return sigBytes, scriptHash, nil
 }
diff --git a/bytomTransaction/txMultiSig.go b/bytomTransaction/txMultiSig.go
index 95de237..dd9f714 100644
--- a/bytomTransaction/txMultiSig.go
+++ b/bytomTransaction/txMultiSig.go
@@ -118,106 +118,54 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 	return multi, required, nil
 }
 
-func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
+// getMultiSigPubs returns the signatures, the public keys and the script of a multisig witness
+func getMultiSigPubs(witness []byte) ([][]byte, [][]byte, []byte, error) {
+	invalid := errors.New("Invalid signature and public key data!")
 
-	var sigs [][]byte
-	var pubs [][]byte
-
-	limit := len(sp)
-	index := 0
-
-	if index+2 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	length, err := getUvarint(witness)
+	if err != nil {
+		return nil, nil, nil, err
 	}
-
-	if sp[index] != 0x01 || sp[index+1] != 0x03 {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	sp := witness[len(length):]
+	if uvarintToUint64(length) != uint64(len(sp)) || len(sp) == 0 || sp[0] < 2 || sp[0] > 17 {
+		return nil, nil, nil, invalid
 	}
 
-	index += 2
-
-	for {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
-		}
-
-		if sp[index] == 0x40 {
-			index++
-			if index+0x40 > limit {
-				return nil, nil, errors.New("Invalid signature and public key data!")
-			}
-			sigs = append(sigs, sp[index:index+0x40])
-			index += 0x40
-		} else {
-			break
+	sigs := make([][]byte, int(sp[0])-1)
+	sp = sp[1:]
+	for i := range sigs {
+		if len(sp) < 0x41 || sp[0] != 0x40 {
+			return nil, nil, nil, invalid
 		}
+		sigs[i] = sp[1:0x41]
+		sp = sp[0x41:]
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-
-	commitLen := int(sp[index])
-
-	index++
-
-	if index+commitLen != limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	if sp[index] != Op_TxSignHash {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	index++
-	for {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
-		}
-		if sp[index] != 0x20 {
-			break
-		}
-		index++
-
-		if index+0x20 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
-		}
-
-		pubs = append(pubs, sp[index:index+0x20])
-
-		index += 0x20
+	length, err = getUvarint(sp)
+	if err != nil {
+		return nil, nil, nil, err
 	}
-
-	required := sp[index] - (Op_1 - 1)
-	index++
-
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	script := sp[len(length):]
+	if uvarintToUint64(length) != uint64(len(script)) {
+		return nil, nil, nil, invalid
 	}
 
-	count := sp[index] - (Op_1 - 1)
-	index++
-
-	if int(count) != len(pubs) {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	multi, required, err := getMultiSigDetail(script)
+	if err != nil {
+		return nil, nil, nil, err
 	}
-
 	if int(required) != len(sigs) {
-		return nil, nil, errors.New("Not competely signed!")
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		return nil, nil, nil, errors.New("Not competely signed!")
 	}
 
-	if sp[index] != Op_CheckMultiSig {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	index++
-
-	if index != limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	var pubs [][]byte
+	for _, m := range multi {
+		pub, err := hex.DecodeString(m.Pubkey)
+		if err != nil {
+			return nil, nil, nil, err
+		}
+		pubs = append(pubs, pub)
 	}
 
-	return sigs, pubs, nil
+	return sigs, pubs, script, nil
 }
diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index a180a0b..09477e8 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -180,55 +180,26 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-		if txBytes[index] == 0x01 {
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index+1] != 0x00 {
-				return nil, errors.New("Invalid transaction data!")
-			} else {
-				in.SigPub = nil
-				index += 2
-			}
+		witnessStart := index
+		witnessLen, err := getUvarint(txBytes[index:])
+		if err != nil {
+			return nil, err
+		}
+		index += len(witnessLen)
+		if uvarintToUint64(witnessLen) > uint64(limit-index) {
+			return nil, errors.New("Invalid transaction data!")
+		}
+		witness := txBytes[index : index+int(uvarintToUint64(witnessLen))]
+		index += len(witness)
+
+		if len(witness) == 1 && witness[0] == 0x00 {
+			in.SigPub = nil
+		} else if len(in.ControlProgram) == 34 {
+			in.MultiSig = txBytes[witnessStart:index]
+		} else if len(witness) == 99 && witness[0] == 0x02 && witness[1] == 0x40 && witness[66] == 0x20 {
+			in.SigPub = &SigPub{witness[2:66], witness[67:]}
 		} else {
-			spScriptLen := int(txBytes[index])
-			if spScriptLen == 0 {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			index++
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index] == 0x02 && txBytes[index+1] == 0x40 {
-				index += 2
-				if index+64 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				sig := txBytes[index : index+64]
-				index += 64
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				if txBytes[index] != 32 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if index+32 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				pub := txBytes[index : index+32]
-				index += 32
-				in.SigPub = &SigPub{sig, pub}
-			} else if txBytes[index] == 0x01 && txBytes[index+1] == 0x03 {
-
-				if index+spScriptLen+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				in.MultiSig = txBytes[index : index+spScriptLen+1]
-				index += spScriptLen + 1
-			} else {
-				return nil, errors.New("Invalid transaction data!")
-			}
+			return nil, errors.New("Invalid transaction data!")
 		}
 		rawTx.Inputs = append(rawTx.Inputs, in)
 	}
-- 
2.43.0


From bcabf49c2cb2d675b69869b8e1aec40942cf32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:54 +0000
Subject: [PATCH 067/135] fix: bytom: a multisig input signed by fewer than all
 keys gets another script and another control program

---
 bytomTransaction/transaction.go | 5 ++++-
 bytomTransaction/txHash.go      | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index 44f6747..1315064 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -1,6 +1,7 @@
 package bytomTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -133,7 +134,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash) (strin
 			if err != nil {
 				return "", err
 			}
-			emptyTrans.Inputs[i].ControlProgram = controlProgram
+			if !bytes.Equal(emptyTrans.Inputs[i].ControlProgram, controlProgram) {
+				return "", errors.New("The multisig script is not the one the input is locked with!")
+			}
 			emptyTrans.Inputs[i].MultiSig = multiSigData
 			emptyTrans.Inputs[i].SigPub = nil
 		} else {
diff --git a/bytomTransaction/txHash.go b/bytomTransaction/txHash.go
index fbb9727..c119725 100644
--- a/bytomTransaction/txHash.go
+++ b/bytomTransaction/txHash.go
@@ -54,11 +54,12 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 	signScript = append(signScript, Op_TxSignHash)
 
 	for _, key := range th.Multi {
-		if key.SigPub.Pubkey == nil || len(key.SigPub.Pubkey) != 0x20 {
+		pubkey, err := hex.DecodeString(key.Pubkey)
+		if err != nil || len(pubkey) != 0x20 {
 			return nil, nil, errors.New("Invalid pubkey data for create multisig!")
 		}
 		signScript = append(signScript, 0x20)
-		signScript = append(signScript, key.SigPub.Pubkey...)
+		signScript = append(signScript, pubkey...)
 	}
 
 	signScript = append(signScript, Op_1-1+th.NRequired)
-- 
2.43.0


From 2e6ed1547eb1adc0d2725562b116e658555e468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:55 +0000
Subject: [PATCH 068/135] fix: bytom: one multisig key signing twice and a
 script other than the locking one pass verification

---
 bytomTransaction/transaction.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index 1315064..0001065 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -187,16 +187,18 @@ func VerifyRawTransaction(txHex string) bool {
 
 	for i := 0; i < len(txHashes); i++ {
 		if len(signedTrans.Inputs[i].ControlProgram) == 0x22 {
-			sigs, pubs, _, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
+			sigs, pubs, script, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
 			if err != nil {
 				return false
 			}
+			if !bytes.Equal(owcrypt.Hash(script, 0, owcrypt.HASH_ALG_SHA3_256), signedTrans.Inputs[i].ControlProgram[2:]) {
+				return false
+			}
+			// the signatures come in the order of the keys, one each
 			count := 0
-			for j := 0; j < len(sigs); j++ {
-				for k := j; k < len(pubs); k++ {
-					if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[j], owcrypt.ECC_CURVE_ED25519_NORMAL) {
-						count++
-					}
+			for k := 0; k < len(pubs) && count < len(sigs); k++ {
+				if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[count], owcrypt.ECC_CURVE_ED25519_NORMAL) {
+					count++
 				}
 			}
 
-- 
2.43.0


From 08a8ccad2883e6fd23e53582e7f795334c47ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:48 +0000
Subject: [PATCH 069/135] fix: cosmos and evaio: a fee without coins panics,
 one starting with a zero coin loses the other coins, and the fee of the
 caller is changed

---
 cosmosTransaction/txStruct.go | 10 +++++++---
 evaioTransaction/txStruct.go  | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/cosmosTransaction/txStruct.go b/cosmosTransaction/txStruct.go
index 85e803a..2089df8 100644
--- a/cosmosTransaction/txStruct.go
+++ b/cosmosTransaction/txStruct.go
@@ -12,13 +12,17 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	// coins of no amount are not part of the fee
+	amount := Coins{}
+	for _, coin := range fee.Amount {
+		if coin.Amount != "" {
+			amount = append(amount, coin)
+		}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           FeeStruct{Amount: amount, Gas: fee.Gas},
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
diff --git a/evaioTransaction/txStruct.go b/evaioTransaction/txStruct.go
index 7cbfcae..906e6b6 100644
--- a/evaioTransaction/txStruct.go
+++ b/evaioTransaction/txStruct.go
@@ -12,13 +12,17 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	// coins of no amount are not part of the fee
+	amount := Coins{}
+	for _, coin := range fee.Amount {
+		if coin.Amount != "" {
+			amount = append(amount, coin)
+		}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           FeeStruct{Amount: amount, Gas: fee.Gas},
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
-- 
2.43.0


From 85dbd0b66bc5e01f5a457b1d05a3ea0845ff5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:49 +0000
Subject: [PATCH 070/135] fix: cosmos and evaio: signing with an invalid
 private key panics

---
 cosmosTransaction/transaction.go | 5 ++---
 evaioTransaction/transaction.go  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 75cdf4e..d0cc1c0 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -54,11 +54,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
-	if ret != owcrypt.SUCCESS {
+	if ret != owcrypt.SUCCESS || len(sig) != 64 {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 5ff217b..4ddd649 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -54,11 +54,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
-	if ret != owcrypt.SUCCESS {
+	if ret != owcrypt.SUCCESS || len(sig) != 64 {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
-- 
2.43.0


From df5544d5c141f5426db8336bb2bfa0ee68ebc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:50 +0000
Subject: [PATCH 071/135] fix: cosmos and evaio: bech32 strings that are short
 panic and payloads that do not fill their last group are decoded wrongly

---
 cosmosTransaction/bech32.go | 48 ++++++++++++++++---------------------
 evaioTransaction/bech32.go  | 48 ++++++++++++++++---------------------
 2 files changed, 42 insertions(+), 54 deletions(-)

diff --git a/cosmosTransaction/bech32.go b/cosmosTransaction/bech32.go
index 91d2afd..345db29 100644
--- a/cosmosTransaction/bech32.go
+++ b/cosmosTransaction/bech32.go
@@ -1,7 +1,6 @@
 package cosmosTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,24 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := []byte{}
+	acc := uint32(0)
+	bits := uint(0)
+	for _, group := range extendedPayload {
+		acc = (acc<<5 | uint32(group)) & 0xfff
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+		}
+	}
+	// what is left pads the last group: less than five bits, all zero
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
 
-	return ret
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -189,6 +194,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 || len(address) < prefixSize+7 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -205,20 +214,5 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(value[:len(value)-6])
 }
diff --git a/evaioTransaction/bech32.go b/evaioTransaction/bech32.go
index f594278..f39dcb9 100644
--- a/evaioTransaction/bech32.go
+++ b/evaioTransaction/bech32.go
@@ -1,7 +1,6 @@
 package evaioTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,24 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := []byte{}
+	acc := uint32(0)
+	bits := uint(0)
+	for _, group := range extendedPayload {
+		acc = (acc<<5 | uint32(group)) & 0xfff
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+		}
+	}
+	// what is left pads the last group: less than five bits, all zero
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
 
-	return ret
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -189,6 +194,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 || len(address) < prefixSize+7 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -205,20 +214,5 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(value[:len(value)-6])
 }
-- 
2.43.0


From b8d4101af8d0df6a2005bc2a35f06f3d32c58c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 072/135] fix: binance chain: addresses that do not hold 20
 bytes are accepted

---
 binancechainTransaction/msg-send.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binancechainTransaction/msg-send.go b/binancechainTransaction/msg-send.go
index ad8ca71..51bb23d 100644
--- a/binancechainTransaction/msg-send.go
+++ b/binancechainTransaction/msg-send.go
@@ -13,7 +13,7 @@ func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.Sen
 		return nil, err
 	}
 
-	if prefix != Bech32Prefix {
+	if prefix != Bech32Prefix || len(from) != ctypes.AddrLen {
 		return nil, errors.New("Invalid address!")
 	}
 
@@ -22,7 +22,7 @@ func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.Sen
 		return nil, err
 	}
 
-	if prefix != Bech32Prefix {
+	if prefix != Bech32Prefix || len(to) != ctypes.AddrLen {
 		return nil, errors.New("Invalid address!")
 	}
 
-- 
2.43.0


From 7d47392b088ddde387e454f034d4d84c206bf35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:22 +0000
Subject: [PATCH 073/135] fix: binance chain: amounts over 2^53 are sent
 rounded, and zero and negative ones are accepted

---
 binancechainTransaction/msg-send.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binancechainTransaction/msg-send.go b/binancechainTransaction/msg-send.go
index 51bb23d..5d0acbc 100644
--- a/binancechainTransaction/msg-send.go
+++ b/binancechainTransaction/msg-send.go
@@ -26,6 +26,11 @@ func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.Sen
 		return nil, errors.New("Invalid address!")
 	}
 
+	// the text that is signed holds the amount as a JSON number, exact up to 2^53
+	if amount <= 0 || amount > 1<<53 {
+		return nil, errors.New("Invalid amount!")
+	}
+
 	coin := ctypes.Coin{
 		Denom:denom,
 		Amount:amount,
-- 
2.43.0


From cebf82cc53f7976334b7253eddd55bdb0e17345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:23 +0000
Subject: [PATCH 074/135] fix: binance chain: combining a transaction without
 messages panics

---
 binancechainTransaction/transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binancechainTransaction/transaction.go b/binancechainTransaction/transaction.go
index 5115741..439d605 100644
--- a/binancechainTransaction/transaction.go
+++ b/binancechainTransaction/transaction.go
@@ -55,6 +55,9 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 	if err != nil {
 		return false, ""
 	}
+	if len(stdSignDoc.Msgs) != 1 {
+		return false, ""
+	}
 	signMsg.Memo = stdSignDoc.Memo
 	err = json.Unmarshal(stdSignDoc.Msgs[0], &sendMsg)
 	if err != nil {
-- 
2.43.0


From 780aba16330739ea6242f0445c97f185166df019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:24 +0000
Subject: [PATCH 075/135] fix: binance chain: combining with a public key that
 is not on the curve panics

---
 binancechainTransaction/transaction.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binancechainTransaction/transaction.go b/binancechainTransaction/transaction.go
index 439d605..a3ea77f 100644
--- a/binancechainTransaction/transaction.go
+++ b/binancechainTransaction/transaction.go
@@ -86,7 +86,11 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 		 return false, ""
 	}
 
-	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubUncompressedBytes) != 65 {
+		return false, ""
+	}
+	pubUncompressedBytes = pubUncompressedBytes[1:]
 	hash := tx.StdSignBytes(ChainID, signMsg.AccountNumber, signMsg.Sequence, signMsg.Msgs, signMsg.Memo, signMsg.Source, signMsg.Data)
 
 	hash = owcrypt.Hash(hash, 0, owcrypt.HASH_ALG_SHA256)
-- 
2.43.0


From 0da52bef58be7cfb59ac387858ccde07f5dc11ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:41 +0000
Subject: [PATCH 076/135] fix: ripple: memos of more than 192 bytes are written
 with a wrong length

---
 rippleTransaction/txUtils.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index fcaf16e..b8c62a6 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -111,6 +111,20 @@ func serilizeS(sig []byte) []byte {
 	return sig
 }
 
+// getLengthBytes returns the prefix of a variable length field
+func getLengthBytes(length int) []byte {
+	switch {
+	case length <= 192:
+		return []byte{byte(length)}
+	case length <= 12480:
+		length -= 193
+		return []byte{byte(193 + length>>8), byte(length)}
+	default:
+		length -= 12481
+		return []byte{byte(241 + length>>16), byte(length >> 8), byte(length)}
+	}
+}
+
 func memoToBytes(memo string) []byte {
-	return append([]byte{byte(len(memo))}, []byte(memo)...)
+	return append(getLengthBytes(len(memo)), []byte(memo)...)
 }
-- 
2.43.0


From c0db60b80d31b7eff5961b7688ba0024bca3965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:42 +0000
Subject: [PATCH 077/135] fix: ripple: destination tags over 32 bits are cut to
 another tag

---
 rippleTransaction/txStruct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index 37190d4..8ca89ee 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"math"
 	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
@@ -143,6 +144,9 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 	txStruct.TransactionType = getTransactionTypeBytes(PAYMENT)
 	txStruct.Flags = getFlagsBytes(TxCanonicalSignature)
 	txStruct.Sequence = getSequenceBytes(sequence)
+	if destinationTag > math.MaxUint32 {
+		return nil, errors.New("Invalid destination tag!")
+	}
 	txStruct.DestinationTag = getDestinationTagBytes(destinationTag)
 	txStruct.LastLedgerSequence = getLastLedgerSequenceBytes(lastLedgerSequence)
 	txStruct.Amount, err = getAmountBytes(amount)
-- 
2.43.0


From f5bfab78e9a2d9bddad64991044c17dd10a77025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:43 +0000
Subject: [PATCH 078/135] fix: ripple: amounts and fees over 62 bits are cut to
 other ones

---
 rippleTransaction/txStruct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index 8ca89ee..6497237 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -66,6 +66,9 @@ func getAmountBytes(amount uint64) ([]byte, error) {
 	if amount == 0 {
 		return nil, errors.New("Amount cannot be zero!")
 	}
+	if amount >= 1<<62 {
+		return nil, errors.New("Amount is too large!")
+	}
 	enc := getEncBytes(encodings["Amount"])
 	amountValue := newValue(true, false, amount, 0)
 	return append(enc, amountValue.Bytes()...), nil
@@ -75,6 +78,9 @@ func getFeeBytes(fee uint64) ([]byte, error) {
 	if fee == 0 {
 		return nil, errors.New("Fee cannot be zero!")
 	}
+	if fee >= 1<<62 {
+		return nil, errors.New("Fee is too large!")
+	}
 	enc := getEncBytes(encodings["Fee"])
 	feeValue := newValue(true, false, fee, 0)
 	return append(enc, feeValue.Bytes()...), nil
-- 
2.43.0


From 538d089c49cddfd887b5f9f7b004b557febc05f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:43 +0000
Subject: [PATCH 079/135] fix: ripple: combining with an invalid public key
 panics

---
 rippleTransaction/transaction.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rippleTransaction/transaction.go b/rippleTransaction/transaction.go
index 7635b80..2b6767b 100644
--- a/rippleTransaction/transaction.go
+++ b/rippleTransaction/transaction.go
@@ -41,7 +41,11 @@ func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey strin
 	if err != nil {
 		return false, ""
 	}
-	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkeyBytes) != 65 {
+		return false, ""
+	}
+	pubkeyBytes = pubkeyBytes[1:]
 	if owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes, nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-- 
2.43.0


From 208d50db96033c3fae63d865bdb2f4f597194eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:44 +0000
Subject: [PATCH 080/135] fix: ripple: signatures of a key other than the one
 in the transaction, or with no or several places for them, are combined

---
 rippleTransaction/transaction.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rippleTransaction/transaction.go b/rippleTransaction/transaction.go
index 2b6767b..79bce83 100644
--- a/rippleTransaction/transaction.go
+++ b/rippleTransaction/transaction.go
@@ -37,6 +37,15 @@ func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey strin
 	if err != nil {
 		return false, ""
 	}
+	// the place of the signature follows the key that has to sign
+	parts := strings.Split(emptyTrans, "s")
+	if len(parts) != 2 {
+		return false, ""
+	}
+	signingPubKey, err := getSigningPubKeyBytes(publicKey)
+	if err != nil || !strings.HasSuffix(strings.ToLower(parts[0]), hex.EncodeToString(signingPubKey)) {
+		return false, ""
+	}
 	sigBytes, err := hex.DecodeString(signature)
 	if err != nil {
 		return false, ""
-- 
2.43.0


From 0ea53ea1becf5754043714ccedc319ac2a36e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:40 +0000
Subject: [PATCH 081/135] fix: moac: an address shorter than two characters
 panics

---
 moacchainTransaction/txUtils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index 7865861..e39b8f2 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -106,7 +106,7 @@ func putint(b []byte, i uint64) (size int) {
 }
 
 func getAddressHashBytes(address string) ([]byte, error) {
-	if address[:2] != "0x" {
+	if len(address) < 2 || address[:2] != "0x" {
 		return nil, errors.New("Invalid address!")
 	}
 	hash, err := hex.DecodeString(address[2:])
-- 
2.43.0


From 8f860362f7ae624ffd4637b7f7b5416f0433e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:40 +0000
Subject: [PATCH 082/135] fix: moac: amounts, prices and limits below 128 are
 not in their canonical form, which the network refuses

---
 moacchainTransaction/txStruct.go | 110 ++++++-------------------------
 moacchainTransaction/txUtils.go  |   3 +
 2 files changed, 23 insertions(+), 90 deletions(-)

diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 1d3052b..04dc7b2 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -78,107 +78,37 @@ func (tx *TxStruct) ToBytes() []byte {
 
 func decodeEmpty(txBytes []byte) (*TxStruct, error) {
 	var tx TxStruct
-	limit := len(txBytes)
-	index := 0
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	if txBytes[index] <= 0x80 {
-		tx.Nonce = txBytes[index : index+1]
-		index++
-	} else {
-		if index+1+int(txBytes[index])-0x80 > limit {
-			return nil, errors.New("Invalid!")
+	for _, field := range []*[]byte{&tx.Nonce, &tx.SystemContract, &tx.GasPrice, &tx.GasLimit, &tx.Recipient, &tx.Amount,
+		&tx.Payload, &tx.ShardingFlag, &tx.Via, &tx.ChainID, &tx.R, &tx.S} {
+		size, err := getItemSize(txBytes)
+		if err != nil {
+			return nil, err
 		}
-		tx.Nonce = txBytes[index : index+1+int(txBytes[index])-0x80]
-		index += (1 + int(txBytes[index]) - 0x80)
-	}
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.SystemContract = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasPrice = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasLimit = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+		*field = txBytes[:size]
+		txBytes = txBytes[size:]
 	}
-	tx.Recipient = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
 
-	if index+1 > limit || txBytes[index] < 0x80 {
+	if len(txBytes) != 0 || len(tx.ChainID) != 1 || tx.R[0] != 0x80 || tx.S[0] != 0x80 {
 		return nil, errors.New("Invalid!")
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Amount = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Payload = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
 
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.ShardingFlag = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
+	return &tx, nil
+}
 
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+// getItemSize returns the size of the encoded string that data starts with
+func getItemSize(data []byte) (int, error) {
+	if len(data) == 0 || data[0] > 0x80+55 {
+		return 0, errors.New("Invalid!")
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	if data[0] < 0x80 {
+		return 1, nil
 	}
-	tx.Via = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit {
-		return nil, errors.New("Invalid!")
+	size := 1 + int(data[0]) - 0x80
+	if size > len(data) || (size == 2 && data[1] < 0x80) {
+		return 0, errors.New("Invalid!")
 	}
-
-	tx.ChainID = txBytes[index : index+1]
-	index += 1
-
-	if index+2 != limit || txBytes[index] != 0x80 || txBytes[index+1] != 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-
-	return &tx, nil
+	return size, nil
 }
 
 func (tx *TxStruct) addSig(sig []byte, isTestNet bool) {
diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index e39b8f2..4464d95 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -34,6 +34,9 @@ func getUint64Bytes(data uint64) []byte {
 
 func getBigIntBytes(data *big.Int) []byte {
 	ret := data.Bytes()
+	if len(ret) == 1 && ret[0] < 0x80 {
+		return ret
+	}
 
 	return append(getLengthBytes(len(ret)), ret...)
 }
-- 
2.43.0


From 2b417db2968c28f2c4672e481e13eff1dd62264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 083/135] fix: moac: transactions of 56 bytes and more cannot
 be combined and empty ones panic

---
 moacchainTransaction/transaction.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 52f9ffb..e0da950 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -1,6 +1,7 @@
 package moacchainTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"math/big"
@@ -49,15 +50,15 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if owcrypt.SUCCESS != owcrypt.Verify(pub, nil, hash, sig[:64], owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-	if len(txBytes) < 57 {
-		head := getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-1))
-		if head[0] != txBytes[0] {
-			return false, ""
-		}
-	} else {
-		//
+	// one byte for the length of less than 56 bytes and two for less than 256
+	headSize := 1
+	if len(txBytes) > 56 {
+		headSize = 2
 	}
-	tx, err := decodeEmpty(txBytes[1:])
+	if len(txBytes) < headSize || !bytes.Equal(txBytes[:headSize], getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-headSize))) {
+		return false, ""
+	}
+	tx, err := decodeEmpty(txBytes[headSize:])
 	if err != nil {
 		return false, ""
 	}
-- 
2.43.0


From 25af714bfc47155410b0d69f5da535af316d927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:42 +0000
Subject: [PATCH 084/135] fix: moac: a transaction signed for one network is
 combined for the other

---
 moacchainTransaction/transaction.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index e0da950..9a06cb8 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -62,6 +62,13 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if err != nil {
 		return false, ""
 	}
+	chainID := ChainIDMainnet
+	if isTestNet {
+		chainID = ChainIDTestnet
+	}
+	if tx.ChainID[0] != chainID {
+		return false, ""
+	}
 	tx.addSig(sig, isTestNet)
 
 	return true, "0x" + hex.EncodeToString(tx.ToBytes())
-- 
2.43.0


From 8940ef5e1ee0ee81e006f4525da39171a9cde286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:42 +0000
Subject: [PATCH 085/135] fix: moac: negative amounts are sent as positive ones
 and amounts of more than 55 bytes are malformed

---
 moacchainTransaction/txStruct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 04dc7b2..4eb909f 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -23,6 +23,11 @@ type TxStruct struct {
 
 func NewTxStruct(to string, nonce uint64, amount, gasLimit, gasPrice *big.Int, signature []byte, isTestNet bool) (*TxStruct, error) {
 	var tx TxStruct
+	for _, number := range []*big.Int{amount, gasLimit, gasPrice} {
+		if number == nil || number.Sign() < 0 || number.BitLen() > 256 {
+			return nil, errors.New("Invalid amount or gas!")
+		}
+	}
 	tx.Nonce = getUint64Bytes(nonce)
 	tx.SystemContract = getUint64Bytes(0) // not contract
 	tx.GasPrice = getBigIntBytes(gasPrice)
-- 
2.43.0


From 187b6e6ceea912945c24f44753cf5b17390b3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:35 +0000
Subject: [PATCH 086/135] fix: moac: combining with a signature from which no
 key can be recovered panics

---
 moacchainTransaction/transaction.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 9a06cb8..dc25984 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -43,11 +43,17 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if err != nil || len(sig) != 65 || (sig[64] != 0x01) && sig[64] != 0x00 {
 		return false, ""
 	}
-	pub, retCode := owcrypt.RecoverPubkey(sig, hash, owcrypt.ECC_CURVE_SECP256K1)
-	if retCode != owcrypt.SUCCESS || strings.ToLower(hex.EncodeToString(owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1))) != strings.ToLower(publicKey) {
+	// recovering the key needs a valid signature
+	pubBytes, err := hex.DecodeString(publicKey)
+	if err != nil || len(pubBytes) != 33 {
+		return false, ""
+	}
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 || owcrypt.SUCCESS != owcrypt.Verify(pubBytes[1:], nil, hash, sig[:64], owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-	if owcrypt.SUCCESS != owcrypt.Verify(pub, nil, hash, sig[:64], owcrypt.ECC_CURVE_SECP256K1) {
+	pub, retCode := owcrypt.RecoverPubkey(sig, hash, owcrypt.ECC_CURVE_SECP256K1)
+	if retCode != owcrypt.SUCCESS || strings.ToLower(hex.EncodeToString(owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1))) != strings.ToLower(publicKey) {
 		return false, ""
 	}
 	// one byte for the length of less than 56 bytes and two for less than 256
-- 
2.43.0


From 48ba8a6a3f7cb711b17f55f8cea16a0a5f200d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:40 +0000
Subject: [PATCH 087/135] fix: polkadot: encoding the number zero panics

---
 polkadotTransaction/codec.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index edd827e..110e399 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -38,12 +38,8 @@ func uint32ToLittleEndianBytes(data uint32) []byte {
 
 func removeExtraLEBytes(input []byte) []byte {
 	index := len(input)
-	for {
-		if input[index-1] != 0 {
-			break
-		} else {
-			index--
-		}
+	for index > 0 && input[index-1] == 0 {
+		index--
 	}
 	return input[:index]
 }
-- 
2.43.0


From b59733efea258f12b0df2baf7bc2d59580c5093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 088/135] fix: polkadot: amounts, fees and nonces of 2^63 and
 more are malformed

---
 polkadotTransaction/codec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index 110e399..c93fea1 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -3,7 +3,7 @@ package polkadotTransaction
 import (
 	"encoding/binary"
 	"encoding/hex"
-	"math/big"
+	"math/bits"
 )
 
 func CompactLength(data uint32) int {
@@ -85,7 +85,7 @@ func BytesToCompactBytes(bytes []byte) (res []byte) {
 }
 
 func getLeadingZeros(data uint64) int {
-	return 64 - big.NewInt(int64(data)).BitLen()
+	return bits.LeadingZeros64(data)
 }
 
 func getPrefix(data uint64) string {
-- 
2.43.0


From b8bc8af17c7ccb1bcf19c293b1961343ef80ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:42 +0000
Subject: [PATCH 089/135] fix: polkadot: a transfer code that is no hexadecimal
 text gives a malformed transaction

---
 polkadotTransaction/txMethod.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polkadotTransaction/txMethod.go b/polkadotTransaction/txMethod.go
index cc85c5c..710bb88 100644
--- a/polkadotTransaction/txMethod.go
+++ b/polkadotTransaction/txMethod.go
@@ -38,7 +38,10 @@ func (mt MethodTransfer) ToBytes(transferCode string) ([]byte, error) {
 		return nil, errors.New("invalid method")
 	}
 
-	ret, _ := hex.DecodeString(transferCode)
+	ret, err := hex.DecodeString(transferCode)
+	if err != nil || len(ret) == 0 {
+		return nil, errors.New("invalid transfer code")
+	}
 	if AccounntIDFollow {
 		ret = append(ret, 0xff)
 	}
-- 
2.43.0


From 947937e6ccace9ceb632d89cca55904c9234bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:42 +0000
Subject: [PATCH 090/135] fix: polkadot: an invalid sender key is not refused

---
 polkadotTransaction/txStruct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/polkadotTransaction/txStruct.go b/polkadotTransaction/txStruct.go
index 8f4a389..9c0a954 100644
--- a/polkadotTransaction/txStruct.go
+++ b/polkadotTransaction/txStruct.go
@@ -25,6 +25,11 @@ type TxStruct struct {
 
 func (tx TxStruct) NewTxPayLoad(transfer_code string) (*TxPayLoad, error) {
 	var tp TxPayLoad
+	sender, err := hex.DecodeString(tx.SenderPubkey)
+	if err != nil || len(sender) != 32 {
+		return nil, errors.New("invalid sender public key")
+	}
+
 	method, err := NewMethodTransfer(tx.RecipientPubkey, tx.Amount)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2e701b380469cb29b49dc5146010de2bf0ef6724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:43 +0000
Subject: [PATCH 091/135] fix: polkadot: an empty signed transaction is
 returned without an error for a bad key or signature

---
 polkadotTransaction/txStruct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polkadotTransaction/txStruct.go b/polkadotTransaction/txStruct.go
index 9c0a954..d926e17 100644
--- a/polkadotTransaction/txStruct.go
+++ b/polkadotTransaction/txStruct.go
@@ -120,7 +120,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	from, err := hex.DecodeString(ts.SenderPubkey)
 	if err != nil || len(from) != 32 {
-		return "", nil
+		return "", errors.New("invalid sender public key")
 	}
 
 	signed = append(signed, from...)
@@ -129,7 +129,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	sig, err := hex.DecodeString(signature)
 	if err != nil || len(sig) != 64 {
-		return "", nil
+		return "", errors.New("invalid signature")
 	}
 	signed = append(signed, sig...)
 
-- 
2.43.0


From 68ba07b212e871dbff7004a571cd91033dc53072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:56 +0000
Subject: [PATCH 092/135] fix: bigbang: an empty address panics and addresses
 with line breaks in them are accepted

---
 bigbangTransaction/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigbangTransaction/address.go b/bigbangTransaction/address.go
index 680ab08..4e77fe2 100644
--- a/bigbangTransaction/address.go
+++ b/bigbangTransaction/address.go
@@ -6,7 +6,7 @@ import (
 )
 
 func addressDecode(address string) ([]byte, error) {
-	if address[:1] != pubkeyPrefix {
+	if len(address) != 1+56 || address[:1] != pubkeyPrefix {
 		return nil, errors.New("Invalid address, only public key address supported!")
 	}
 
-- 
2.43.0


From 9a952d9e259a94e68678580ca30815e0becc51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:57 +0000
Subject: [PATCH 093/135] fix: bigbang: an anchor of another length gives a
 malformed transaction

---
 bigbangTransaction/txStruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigbangTransaction/txStruct.go b/bigbangTransaction/txStruct.go
index 539c1c6..be888a5 100644
--- a/bigbangTransaction/txStruct.go
+++ b/bigbangTransaction/txStruct.go
@@ -28,7 +28,7 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 	tx.LockUntil = uint32ToLittleEndianBytes(lockUntil)
 
 	anchorBytes, err := reverseHexToBytes(anchor)
-	if err != nil {
+	if err != nil || len(anchorBytes) != 32 {
 		return nil, errors.New("Invalid anchor string!")
 	}
 	tx.Anchor = anchorBytes
-- 
2.43.0


From 21492ca07d4fb46a283c549444ddd2d1c75f6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:58 +0000
Subject: [PATCH 094/135] fix: bigbang: the size of data of more than 252 bytes
 is malformed

---
 bigbangTransaction/txStruct.go |  2 +-
 bigbangTransaction/txUtils.go  | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/bigbangTransaction/txStruct.go b/bigbangTransaction/txStruct.go
index be888a5..03d9ae7 100644
--- a/bigbangTransaction/txStruct.go
+++ b/bigbangTransaction/txStruct.go
@@ -62,7 +62,7 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 	if data == "" {
 		tx.Data = []byte{0x00}
 	} else {
-		tx.Data = append([]byte{byte(len(data))}, []byte(data)...)
+		tx.Data = append(sizeToBytes(len(data)), []byte(data)...)
 	}
 
 	return &tx, nil
diff --git a/bigbangTransaction/txUtils.go b/bigbangTransaction/txUtils.go
index 833e89c..8c1fa3f 100644
--- a/bigbangTransaction/txUtils.go
+++ b/bigbangTransaction/txUtils.go
@@ -33,6 +33,17 @@ func reverseBytesToHex(bytesVar []byte) string {
 
 
 
+//sizeToBytes encodes the size of a list or of data
+func sizeToBytes(size int) []byte {
+	if size < 0xfd {
+		return []byte{byte(size)}
+	}
+	if size <= 0xffff {
+		return append([]byte{0xfd}, uint16ToLittleEndianBytes(uint16(size))...)
+	}
+	return append([]byte{0xfe}, uint32ToLittleEndianBytes(uint32(size))...)
+}
+
 //uint16ToLittleEndianBytes
 func uint16ToLittleEndianBytes(data uint16) []byte {
 	tmp := [2]byte{}
-- 
2.43.0


From e5c19b5b86a6ca6eaaabf6da05b71672f147c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:58 +0000
Subject: [PATCH 095/135] fix: bigbang: the number of more than 252 inputs is
 malformed

---
 bigbangTransaction/txStruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigbangTransaction/txStruct.go b/bigbangTransaction/txStruct.go
index 03d9ae7..25d14a4 100644
--- a/bigbangTransaction/txStruct.go
+++ b/bigbangTransaction/txStruct.go
@@ -76,7 +76,7 @@ func (tx TxStruct) ToBytes() []byte {
 	ret = append(ret, tx.Time...)
 	ret = append(ret, tx.LockUntil...)
 	ret = append(ret, tx.Anchor...)
-	ret = append(ret, byte(len(tx.Vins)))
+	ret = append(ret, sizeToBytes(len(tx.Vins))...)
 	for _, in := range tx.Vins {
 		ret = append(ret, in.ToBytes()...)
 	}
-- 
2.43.0


From 152e794b2d089dc52a9b3e97a7778d5d47b92017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:59 +0000
Subject: [PATCH 096/135] fix: filenet: creating a transaction reorders the
 caller's list of outputs

---
 filenetTransaction/txStruct.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index e1283e2..cfaf712 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -45,6 +45,7 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 
 	trans.ToCount = uint64ToLittleEndianBytes(uint64(outCount))
 
+	outs = append(Vouts{}, outs...)
 	sort.Sort(outs)
 
 	totleAmount := uint64(0)
-- 
2.43.0


From b9d80c1c78c68d1e67f64af169291a7ab969ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:00 +0000
Subject: [PATCH 097/135] fix: filenet: a total of 2^64 and more wraps around

---
 filenetTransaction/txStruct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index cfaf712..42fb62b 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -57,6 +57,9 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 			return nil, errors.New("Invalid amount!")
 		}
 
+		if totleAmount+out.Amount < totleAmount {
+			return nil, errors.New("Invalid amount!")
+		}
 		totleAmount += out.Amount
 
 		toBytes, err := decodeAddress(out.Address)
-- 
2.43.0


From 918db15135899610fefea1365aba99d7a2899804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:00 +0000
Subject: [PATCH 098/135] fix: filenet: combining a transaction with a huge
 output count panics

---
 filenetTransaction/txStruct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index 42fb62b..2c09302 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -162,6 +162,9 @@ func decodeRawTransaction(emptyTrans, signature string) (*Transfer, error) {
 	transfer.Timestamp = int64(littleEndianBytesToUint64(txBytes[index:index+8]))
 	index += 8
 
+	if toCount != uint64((limit-index)/28) {
+		return nil, errors.New("Invalid empty transaction hex string!")
+	}
 	txDetalis := make(TransferDetails, toCount)
 	for i := 0; i < int(toCount); i ++ {
 		if index + 28 > limit {
-- 
2.43.0


From 0ad11ab7e8d438bc7f7470ce6864407b119ccf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:01 +0000
Subject: [PATCH 099/135] fix: filenet: combining with an invalid public key
 panics

---
 filenetTransaction/transaction.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filenetTransaction/transaction.go b/filenetTransaction/transaction.go
index 1232413..b9c58f8 100644
--- a/filenetTransaction/transaction.go
+++ b/filenetTransaction/transaction.go
@@ -66,7 +66,11 @@ func VerifyAndCombineTransaction(emptyTrans, signature, pubkey  string) (string,
 		return "", false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 {
+		return "", false
+	}
+	pubBytes = pubBytes[1:]
 
 	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hash, sig, owcrypt.ECC_CURVE_SECP256K1) {
 		return "", false
-- 
2.43.0


From 90eaf543c74165d85cddf3756acf3d38a57323ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:16 +0000
Subject: [PATCH 100/135] fix: ontology: an address shorter than five bytes
 panics

---
 ontologyTransaction/base58.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ontologyTransaction/base58.go b/ontologyTransaction/base58.go
index 3f28e8c..2cf7f8f 100644
--- a/ontologyTransaction/base58.go
+++ b/ontologyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From 11aebea90acee80162a37dfd1d3276f6fbf38317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:17 +0000
Subject: [PATCH 101/135] fix: ontology: a payer address of another network is
 accepted

---
 ontologyTransaction/txStruct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index 76d618b..a028d42 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -24,7 +24,10 @@ func NewEmptyTransaction(assetType int, txType byte, nonce uint32, gasPrice, gas
 	} else {
 		version = ONGContractVersion
 	}
-	_, payerBytes, _ := DecodeCheck(payer)
+	prefix, payerBytes, err := DecodeCheck(payer)
+	if err != nil || prefix != AddressPrefix {
+		payerBytes = nil
+	}
 	return Transaction{version, txType, uint32ToLittleEndianBytes(nonce), uint64ToLittleEndianBytes(gasPrice), uint64ToLittleEndianBytes(gasLimit), payerBytes, payload, DefaultAttribute, nil}
 }
 
-- 
2.43.0


From e6151922356a0544d7ff47b511ff6e9baa1e38e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:18 +0000
Subject: [PATCH 102/135] fix: ontology: an unknown asset type gives a
 malformed transaction

---
 ontologyTransaction/txInvokeCode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ontologyTransaction/txInvokeCode.go b/ontologyTransaction/txInvokeCode.go
index bdfbde9..ba61a2d 100644
--- a/ontologyTransaction/txInvokeCode.go
+++ b/ontologyTransaction/txInvokeCode.go
@@ -61,6 +61,9 @@ func NewNativeInvokeV2(param TxStateV2) NativeInvokeV2 {
 }
 
 func (ni NativeInvoke) ToBytes() ([]byte, error) {
+	if ni.Param.AssetType < AssetONT || ni.Param.AssetType > AssetONGWithdraw {
+		return nil, errors.New("Unknown asset type!")
+	}
 	ret := []byte{0x00}
 
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
@@ -127,6 +130,9 @@ func (ni NativeInvoke) ToBytes() ([]byte, error) {
 }
 
 func (ni NativeInvokeV2) ToBytes() ([]byte, error) {
+	if ni.Param.AssetType < AssetONT || ni.Param.AssetType > AssetONGWithdraw {
+		return nil, errors.New("Unknown asset type!")
+	}
 	ret := []byte{0x00}
 
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
-- 
2.43.0


From f9d3fe2d781962650e1c7ac429e7af870ae6e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:18 +0000
Subject: [PATCH 103/135] fix: ontology: a missing amount panics and negative
 or too large ones are accepted

---
 ontologyTransaction/txInvokeCode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ontologyTransaction/txInvokeCode.go b/ontologyTransaction/txInvokeCode.go
index ba61a2d..4c268a9 100644
--- a/ontologyTransaction/txInvokeCode.go
+++ b/ontologyTransaction/txInvokeCode.go
@@ -133,6 +133,10 @@ func (ni NativeInvokeV2) ToBytes() ([]byte, error) {
 	if ni.Param.AssetType < AssetONT || ni.Param.AssetType > AssetONGWithdraw {
 		return nil, errors.New("Unknown asset type!")
 	}
+	// integers have at most 32 bytes, with their sign
+	if ni.Param.Amount == nil || ni.Param.Amount.Sign() < 0 || ni.Param.Amount.BitLen() > 255 {
+		return nil, errors.New("Invalid amount!")
+	}
 	ret := []byte{0x00}
 
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
-- 
2.43.0


From b88053f66aae8384aa0b5aba002fbf1849feeab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:19 +0000
Subject: [PATCH 104/135] fix: ontology: combining with an invalid public key
 panics

---
 ontologyTransaction/transaction.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index cd77e3f..ee35479 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -1,6 +1,7 @@
 package ontologyTransaction
 
 import (
+	"crypto/elliptic"
 	"crypto/rand"
 	"encoding/hex"
 	"errors"
@@ -99,7 +100,14 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
-		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
+		if len(sp.PublicKey) != 33 {
+			return false, "", errors.New("Invalid public key!")
+		}
+		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if x, _ := elliptic.Unmarshal(elliptic.P256(), pubkey); x == nil {
+			return false, "", errors.New("Invalid public key!")
+		}
+		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, "", errors.New("failed to verify transaction!")
 		}
-- 
2.43.0


From 7d49b1c13007eac92d7bd7ce177d096d4d82a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:20 +0000
Subject: [PATCH 105/135] fix: ontology: a transaction is combined without any
 signature, or with more than the network takes

---
 ontologyTransaction/transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index ee35479..2c6bf3e 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -98,6 +98,9 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	}
 
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
+	if len(sigpub) == 0 || len(sigpub) > 16 {
+		return false, "", errors.New("Invalid number of signatures!")
+	}
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
 		if len(sp.PublicKey) != 33 {
-- 
2.43.0


From d154e1ed79e156b3132e5a15b7845bbcbcbd2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:21 +0000
Subject: [PATCH 106/135] fix: ontology: signed transactions cannot be read or
 lose signatures

---
 ontologyTransaction/txStruct.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index a028d42..3e20018 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -167,7 +167,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	payloadLen := txBytes[index]
 	index++
 
-	if payloadLen == 0 {
+	if payloadLen == 0 || payloadLen >= 0xfd {
 		return nil, errors.New("Invalid trnsaction data!")
 	}
 
@@ -199,15 +199,10 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-	} else if txBytes[index] == 0x01 {
-		sigpub, err := decodeSigPubBytes(txBytes[index:])
-		if err != nil {
-			return nil, err
-		}
-		tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
 	} else {
 		sigLen := int(txBytes[index])
 		index++
+		var sigData SigData
 
 		for i := 0; i < sigLen; i++ {
 			if index+102 > limit {
@@ -217,9 +212,10 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			if err != nil {
 				return nil, err
 			}
-			tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
+			sigData.SigPubs = append(sigData.SigPubs, *sigpub)
 			index += 102
 		}
+		tx.SigDatas = append(tx.SigDatas, sigData)
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-- 
2.43.0


From 087908806936947bf39f4f35c1a7563220523d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:22 +0000
Subject: [PATCH 107/135] fix: ontology: a signed transaction is combined again
 with signatures of something else

---
 ontologyTransaction/transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index 2c6bf3e..761810e 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -97,6 +97,10 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 		return false, "", err
 	}
 
+	if tx.SigDatas != nil {
+		return false, "", errors.New("Transaction is signed already!")
+	}
+
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
 	if len(sigpub) == 0 || len(sigpub) > 16 {
 		return false, "", errors.New("Invalid number of signatures!")
-- 
2.43.0


From 2f969831932e7e79ec4061b45996f0782616c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:24 +0000
Subject: [PATCH 108/135] fix: vsys: an address of less than five bytes panics

---
 virtualeconomyTransaction/base58.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/virtualeconomyTransaction/base58.go b/virtualeconomyTransaction/base58.go
index 999f35b..22f9a76 100644
--- a/virtualeconomyTransaction/base58.go
+++ b/virtualeconomyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 32, owcrypt.HASH_ALG_BLAKE2B), 0, owcrypt.HASH_ALG_KECCAK256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From 7ad9021cfb0989373ebdbb24a66a451b07804a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:24 +0000
Subject: [PATCH 109/135] fix: vsys: addresses of another length or version
 give a malformed transaction

---
 virtualeconomyTransaction/transaction.go | 2 +-
 virtualeconomyTransaction/txDecode.go    | 3 +++
 virtualeconomyTransaction/txProfile.go   | 5 +++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index fb0cf1b..121f015 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -44,7 +44,7 @@ func CreateEmptyTransaction(ts TxStruct) (string, error) {
 	binary.BigEndian.PutUint16(feeScale, ts.FeeScale)
 	txBytes = append(txBytes, feeScale...)
 	recipient, err := DecodeCheck(ts.To)
-	if err != nil {
+	if err != nil || len(recipient) != addressLength || recipient[0] != addressVersion {
 		return "", errors.New("Trying to send VSYS to an invalid address!")
 	}
 	txBytes = append(txBytes, recipient...)
diff --git a/virtualeconomyTransaction/txDecode.go b/virtualeconomyTransaction/txDecode.go
index 1cc5fb9..7c1589b 100644
--- a/virtualeconomyTransaction/txDecode.go
+++ b/virtualeconomyTransaction/txDecode.go
@@ -45,6 +45,9 @@ func TxStructDecode(tx []byte) (*TxStruct, uint64, error) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
 	ts.To = Encode(tx[index:index+26], BitcoinAlphabet)
+	if _, err := DecodeCheck(ts.To); err != nil || tx[index] != addressVersion {
+		return nil, 0, errors.New("Invalid transaction data!")
+	}
 	index += 26
 
 	if index+2 > limit {
diff --git a/virtualeconomyTransaction/txProfile.go b/virtualeconomyTransaction/txProfile.go
index 991d179..455099c 100644
--- a/virtualeconomyTransaction/txProfile.go
+++ b/virtualeconomyTransaction/txProfile.go
@@ -1,5 +1,10 @@
 package virtualeconomyTransaction
 
+const (
+	addressVersion = byte(5)
+	addressLength  = 26
+)
+
 var (
 	TxTypeTransfer  = byte(2)
 	DefaultFeeScale = uint16(100)
-- 
2.43.0


From 2d85ac9b4b2f29b0fbb1a0a4f44d4beb009c115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:25 +0000
Subject: [PATCH 110/135] fix: vsys: a transaction with an attachment is
 malformed

---
 virtualeconomyTransaction/transaction.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index 121f015..ca5f7b8 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -48,9 +48,10 @@ func CreateEmptyTransaction(ts TxStruct) (string, error) {
 		return "", errors.New("Trying to send VSYS to an invalid address!")
 	}
 	txBytes = append(txBytes, recipient...)
-	if ts.Attachment == "" {
-		txBytes = append(txBytes, attachmentLen...)
+	if ts.Attachment != "" {
+		return "", errors.New("Non-empty attachment is not supported yet!")
 	}
+	txBytes = append(txBytes, attachmentLen...)
 
 	return hex.EncodeToString(txBytes), nil
 }
-- 
2.43.0


From 1f6bd6c9b31a4e52e86e2892004077c17a42af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:26 +0000
Subject: [PATCH 111/135] fix: vsys: transactions of other types are created
 and sent as transfers

---
 virtualeconomyTransaction/transaction.go | 4 ++++
 virtualeconomyTransaction/txDecode.go    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index ca5f7b8..efed708 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -28,6 +28,10 @@ type SignaturePubkey struct {
 // 创建空交易单
 // only transfer for now
 func CreateEmptyTransaction(ts TxStruct) (string, error) {
+	if ts.TxType != TxTypeTransfer {
+		return "", errors.New("Only transfer is supported for now!")
+	}
+
 	timestamp := make([]byte, 8)
 	amount := make([]byte, 8)
 	fee := make([]byte, 8)
diff --git a/virtualeconomyTransaction/txDecode.go b/virtualeconomyTransaction/txDecode.go
index 7c1589b..8301653 100644
--- a/virtualeconomyTransaction/txDecode.go
+++ b/virtualeconomyTransaction/txDecode.go
@@ -15,6 +15,9 @@ func TxStructDecode(tx []byte) (*TxStruct, uint64, error) {
 		return nil, 0, errors.New("Invalid transaction data!")
 	}
 	ts.TxType = tx[index]
+	if ts.TxType != TxTypeTransfer {
+		return nil, 0, errors.New("Only transfer is supported for now!")
+	}
 	index++
 
 	if index+8 > limit {
-- 
2.43.0


From 70a5fd12942650b2293b3758de1b1d36d6aeaac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:04 +0000
Subject: [PATCH 112/135] fix: waykichain: account numbers out of range or with
 blanks around them are read as other ones

---
 waykichainTransaction/txStruct.go | 43 +++++++++----------------------
 waykichainTransaction/txUtils.go  | 20 ++++++++++++++
 2 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index be2fa1f..3dc7c5d 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -3,8 +3,6 @@ package waykichainTransaction
 import (
 	"encoding/hex"
 	"errors"
-	"strconv"
-	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -29,14 +27,9 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	}
 	commonTx.ValidHeight = int64ToUvarint(validHeight)
 
-	if !isRegIdStr(fromUserID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	idBytes, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
 	commonTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
 
@@ -159,25 +152,15 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 		return nil, errors.New("Negative valid height!")
 	}
 	contractTx.ValidHeight = int64ToUvarint(validHeight)
-	if !isRegIdStr(fromUserID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	idBytes, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
 	contractTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
 
-	if !isRegIdStr(appID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids = strings.Split(appID, "-")
-	idBytes = []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	idBytes, err = regIDToBytes(appID)
+	if err != nil {
+		return nil, err
 	}
 	contractTx.AppID = append([]byte{byte(len(idBytes))}, idBytes...)
 
@@ -244,11 +227,9 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	}
 	ucoinTransferTx.ValidHeight = int64ToUvarint(validHeight)
 
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	idBytes, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
 	ucoinTransferTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
 
diff --git a/waykichainTransaction/txUtils.go b/waykichainTransaction/txUtils.go
index 8b256f8..d889dc9 100644
--- a/waykichainTransaction/txUtils.go
+++ b/waykichainTransaction/txUtils.go
@@ -1,7 +1,10 @@
 package waykichainTransaction
 
 import (
+	"errors"
 	"regexp"
+	"strconv"
+	"strings"
 )
 
 func sizeofVarInt(value int64) int {
@@ -56,3 +59,20 @@ func isRegIdStr(regId string) bool {
 	re := regexp.MustCompile(`^\s*(\d+)\-(\d+)\s*$`)
 	return re.MatchString(regId)
 }
+
+// regIDToBytes encodes a register ID, "height-index", with a 32 bit height and a 16 bit index
+func regIDToBytes(regID string) ([]byte, error) {
+	if !isRegIdStr(regID) {
+		return nil, errors.New("Invalid register ID!")
+	}
+	ids := strings.Split(strings.TrimSpace(regID), "-")
+	height, err := strconv.ParseUint(ids[0], 10, 32)
+	if err != nil {
+		return nil, errors.New("Invalid register ID!")
+	}
+	index, err := strconv.ParseUint(ids[1], 10, 16)
+	if err != nil {
+		return nil, errors.New("Invalid register ID!")
+	}
+	return append(int64ToUvarint(int64(height)), int64ToUvarint(int64(index))...), nil
+}
-- 
2.43.0


From 9ad538d1c7b54ca0111e86884a3574bf30882e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:05 +0000
Subject: [PATCH 113/135] fix: waykichain: negative amounts and fees are sent
 as other ones

---
 waykichainTransaction/txStruct.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index 3dc7c5d..0a74829 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -25,6 +25,12 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 {
+		return nil, errors.New("Negative fee!")
+	}
+	if amount < 0 {
+		return nil, errors.New("Negative amount!")
+	}
 	commonTx.ValidHeight = int64ToUvarint(validHeight)
 
 	idBytes, err := regIDToBytes(fromUserID)
@@ -93,6 +99,9 @@ func NewRegisterAccountTx(fromPubkey string, fee, validHeight int64) (*RegisterA
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 {
+		return nil, errors.New("Negative fee!")
+	}
 	registerAccountTx.ValidHeight = int64ToUvarint(validHeight)
 	pubkey, err := hex.DecodeString(fromPubkey)
 	if err != nil || len(pubkey) != 0x21 {
@@ -151,6 +160,12 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 {
+		return nil, errors.New("Negative fee!")
+	}
+	if amount < 0 {
+		return nil, errors.New("Negative amount!")
+	}
 	contractTx.ValidHeight = int64ToUvarint(validHeight)
 	idBytes, err := regIDToBytes(fromUserID)
 	if err != nil {
@@ -225,6 +240,12 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 {
+		return nil, errors.New("Negative fee!")
+	}
+	if amount < 0 {
+		return nil, errors.New("Negative amount!")
+	}
 	ucoinTransferTx.ValidHeight = int64ToUvarint(validHeight)
 
 	idBytes, err := regIDToBytes(fromUserID)
-- 
2.43.0


From 5912ba0c335797139763aba5374b24d525a30b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 114/135] fix: waykichain: contract calls of more than 252
 bytes are malformed

---
 waykichainTransaction/txStruct.go |  4 ++--
 waykichainTransaction/txUtils.go  | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index 0a74829..085dca6 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -187,7 +187,7 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if err != nil {
 		return nil, errors.New("Invalid contract hex!")
 	}
-	contractTx.ContractHex = append([]byte{byte(len(contract))}, contract...)
+	contractTx.ContractHex = append(compactSize(len(contract)), contract...)
 
 	return &contractTx, nil
 }
@@ -269,7 +269,7 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 		return nil, errors.New("Invalid coin name!")
 	}
 
-	ucoinTransferTx.CoinName = append([]byte{byte(len(coin))}, []byte(coin)...)
+	ucoinTransferTx.CoinName = append(compactSize(len(coin)), []byte(coin)...)
 
 	ucoinTransferTx.CoinAmount = int64ToUvarint(amount)
 
diff --git a/waykichainTransaction/txUtils.go b/waykichainTransaction/txUtils.go
index d889dc9..573aeb2 100644
--- a/waykichainTransaction/txUtils.go
+++ b/waykichainTransaction/txUtils.go
@@ -76,3 +76,14 @@ func regIDToBytes(regID string) ([]byte, error) {
 	}
 	return append(int64ToUvarint(int64(height)), int64ToUvarint(int64(index))...), nil
 }
+
+// compactSize encodes the length of variable length data
+func compactSize(size int) []byte {
+	if size < 0xfd {
+		return []byte{byte(size)}
+	}
+	if size <= 0xffff {
+		return []byte{0xfd, byte(size), byte(size >> 8)}
+	}
+	return []byte{0xfe, byte(size), byte(size >> 8), byte(size >> 16), byte(size >> 24)}
+}
-- 
2.43.0


From 2b3ba58b394e4dc156cc54d9ba6659c9fb99e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 115/135] fix: waykichain: combining an empty transaction
 panics

---
 waykichainTransaction/txStruct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index 085dca6..175ca39 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -318,6 +318,10 @@ func getHashFromEmptyRawTrans(emptyTrans string) ([]byte, error) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
 
+	if len(txBytes) < 2 {
+		return nil, errors.New("Invalid transaction hex data!")
+	}
+
 	if (txBytes[0] != TxType_COMMON && txBytes[0] != TxType_REGACCT && txBytes[0] != TxType_CONTRACT && txBytes[0] != TxType_UcoinTransfer) || txBytes[1] != byte(Version) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
-- 
2.43.0


From 8c812d8e4cfdb538d6d10625b6bae1a8d2fa0952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:07 +0000
Subject: [PATCH 116/135] fix: waykichain: combining with an invalid public key
 panics

---
 waykichainTransaction/transaction.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/waykichainTransaction/transaction.go b/waykichainTransaction/transaction.go
index 427e613..a5f5619 100644
--- a/waykichainTransaction/transaction.go
+++ b/waykichainTransaction/transaction.go
@@ -63,9 +63,12 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub SigPub) (bool, str
 	if err != nil {
 		return false, ""
 	}
-	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkey) != 65 {
+		return false, ""
+	}
 
-	if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
+	if owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
 
-- 
2.43.0


From 2257b8ee78a65280a248265e7f0c9dc1fe914f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:29 +0000
Subject: [PATCH 117/135] fix: btc like: reading the transaction id of a
 decoded input reverses it in place

---
 btcLikeTxDriver/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 3fc84d4..120af24 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint32ToLittleEndianBytes
-- 
2.43.0


From 0038b49dbeb1f01864aee0826ff8e369755b537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:30 +0000
Subject: [PATCH 118/135] fix: btc like: an address of less than five bytes
 panics

---
 btcLikeTxDriver/base58.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btcLikeTxDriver/base58.go b/btcLikeTxDriver/base58.go
index a6a9b0d..8881a34 100644
--- a/btcLikeTxDriver/base58.go
+++ b/btcLikeTxDriver/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From 5f031abdef3d2223924dfbc745ac9d13ad6a61be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:31 +0000
Subject: [PATCH 119/135] fix: btc like: outputs to segwit addresses are
 refused or misread

---
 btcLikeTxDriver/bech32.go | 33 ++++++++++++++++++++++++++-------
 btcLikeTxDriver/txOut.go  |  1 +
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 828b11c..dab1c33 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -188,7 +188,12 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	prefixStr := strings.Split(address, "1")[0]
+	// one character of witness version and six of checksum follow the separator
+	if prefixSize == 0 || len(address)-prefixSize-1 < 8 {
+		return nil, ErrorInvalidAddress
+	}
+
+	prefixStr := strings.ToLower(address[:prefixSize])
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
@@ -204,14 +209,28 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
+	// only witness version 0 is defined for this checksum
+	if value[0] != 0 {
+		return nil, ErrorInvalidAddress
+	}
 
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
+	bytePayload := []byte{}
+	acc, bits := uint32(0), uint(0)
+	for _, v := range value[1 : len(value)-6] {
+		acc = acc<<5 | uint32(v)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			bytePayload = append(bytePayload, byte(acc>>bits))
+		}
+	}
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
+	}
 
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
+	if len(bytePayload) != 20 && len(bytePayload) != 32 {
+		return nil, ErrorInvalidAddress
 	}
+
 	return bytePayload, nil
 }
diff --git a/btcLikeTxDriver/txOut.go b/btcLikeTxDriver/txOut.go
index a99cd2d..e3ebf0d 100644
--- a/btcLikeTxDriver/txOut.go
+++ b/btcLikeTxDriver/txOut.go
@@ -26,6 +26,7 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
-- 
2.43.0


From 3bd975d5da053604328d3188da70054debe2837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:32 +0000
Subject: [PATCH 120/135] fix: btc like: counts and script lengths above 252
 are truncated to one byte

---
 btcLikeTxDriver/txStruct.go | 68 ++++++++++++++++++-------------------
 btcLikeTxDriver/utils.go    | 55 ++++++++++++++++++++++++++++++
 2 files changed, 88 insertions(+), 35 deletions(-)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 6cad74c..26ee674 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -59,7 +59,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			return nil, errors.New("No witness data for a multisig transaction!")
 		}
 		ret = append(ret, SegWitSymbol, SegWitVersion)
-		ret = append(ret, byte(len(t.Vins)))
+		ret = append(ret, compactSize(len(t.Vins))...)
 		for _, in := range t.Vins {
 			if in.TxID == nil || len(in.TxID) != 32 || in.Vout == nil || len(in.Vout) != 4 {
 				return nil, errors.New("Invalid transaction input!")
@@ -71,14 +71,14 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, redeemHash...)
 			ret = append(ret, in.Sequence...)
 		}
-		ret = append(ret, byte(len(t.Vouts)))
+		ret = append(ret, compactSize(len(t.Vouts))...)
 
 		for _, out := range t.Vouts {
 			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil {
 				return nil, errors.New("Invalid transaction output!")
 			}
 			ret = append(ret, out.amount...)
-			ret = append(ret, byte(len(out.lockScript)))
+			ret = append(ret, compactSize(len(out.lockScript))...)
 			ret = append(ret, out.lockScript...)
 		}
 
@@ -93,7 +93,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			}
 		}
 
-		ret = append(ret, byte(len(t.Vins[0].ScriptPubkeySignature)))
+		ret = append(ret, compactSize(len(t.Vins[0].ScriptPubkeySignature))...)
 
 		ret = append(ret, t.Vins[0].ScriptPubkeySignature...)
 	} else {
@@ -102,7 +102,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, SegWitSymbol, SegWitVersion)
 		}
 
-		ret = append(ret, byte(len(t.Vins)))
+		ret = append(ret, compactSize(len(t.Vins))...)
 
 		for _, in := range t.Vins {
 			if in.TxID == nil || len(in.TxID) != 32 || in.Vout == nil || len(in.Vout) != 4 {
@@ -113,20 +113,20 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			if in.ScriptPubkeySignature == nil {
 				ret = append(ret, 0x00)
 			} else {
-				ret = append(ret, byte(len(in.ScriptPubkeySignature)))
+				ret = append(ret, compactSize(len(in.ScriptPubkeySignature))...)
 				ret = append(ret, in.ScriptPubkeySignature...)
 			}
 			ret = append(ret, in.Sequence...)
 		}
 
-		ret = append(ret, byte(len(t.Vouts)))
+		ret = append(ret, compactSize(len(t.Vouts))...)
 
 		for _, out := range t.Vouts {
 			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil {
 				return nil, errors.New("Invalid transaction output!")
 			}
 			ret = append(ret, out.amount...)
-			ret = append(ret, byte(len(out.lockScript)))
+			ret = append(ret, compactSize(len(out.lockScript))...)
 			ret = append(ret, out.lockScript...)
 		}
 
@@ -172,13 +172,12 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -193,20 +192,20 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		tmpTxIn.Vout = txBytes[index : index+4]
 		index += 4
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		scriptLen, next, err := readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		scriptLen := txBytes[index]
-		index++
+		index = next
 		if scriptLen == 0 {
 			tmpTxIn.ScriptPubkeySignature = nil
 		} else {
-			if index+int(scriptLen) > limit {
+			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
-			tmpTxIn.ScriptPubkeySignature = txBytes[index : index+int(scriptLen)]
+			tmpTxIn.ScriptPubkeySignature = txBytes[index : index+scriptLen]
 		}
-		index += int(scriptLen)
+		index += scriptLen
 
 		if index+4 > limit {
 			return nil, errors.New("Invalid transaction data length!")
@@ -217,13 +216,12 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVouts := txBytes[index]
-	index++
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -232,23 +230,23 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if segwit {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -322,7 +320,7 @@ func calcSegwitHash(tx Transaction) ([]byte, []byte, []byte, error) {
 
 	for _, vout := range tx.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -375,7 +373,7 @@ func (tx Transaction) calcSegwitBytesForSig(unlockData TxUnlock, txid, vout, seq
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	sigBytes = append(sigBytes, uint64ToLittleEndianBytes(unlockData.Amount)...)
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 120af24..fd2f849 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -54,3 +54,58 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//littleEndianBytesToUint16
+func littleEndianBytesToUint16(data []byte) uint16 {
+	return binary.LittleEndian.Uint16(data)
+}
+
+//uint16ToLittleEndianBytes
+func uint16ToLittleEndianBytes(data uint16) []byte {
+	tmp := [2]byte{}
+	binary.LittleEndian.PutUint16(tmp[:], data)
+	return tmp[:]
+}
+
+//compactSize encode a count or a length in the variable length format of the bitcoin protocol
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decode a count or a length at the index,return it with the index behind it
+func readCompactSize(data []byte, index int) (int, int, error) {
+	if index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	first := data[index]
+	index++
+	switch {
+	case first < 0xFD:
+		return int(first), index, nil
+	case first == 0xFD:
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := int(littleEndianBytesToUint16(data[index : index+2]))
+		if n < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return n, index + 2, nil
+	case first == 0xFE:
+		if index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		n := littleEndianBytesToUint32(data[index : index+4])
+		if n <= 0xFFFF || n > 0x7FFFFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return int(n), index + 4, nil
+	}
+	return 0, 0, errors.New("Invalid transaction data!")
+}
-- 
2.43.0


From af60e6273856dd43897bd83279a8d769e59bcb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:33 +0000
Subject: [PATCH 121/135] fix: btc like: a single input whose key or key hash
 ends in ae is taken for a multisig one

---
 btcLikeTxDriver/multiSig.go    | 13 -------------
 btcLikeTxDriver/transaction.go |  1 +
 btcLikeTxDriver/txStruct.go    |  5 +++--
 3 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/btcLikeTxDriver/multiSig.go b/btcLikeTxDriver/multiSig.go
index 733e00d..271e999 100644
--- a/btcLikeTxDriver/multiSig.go
+++ b/btcLikeTxDriver/multiSig.go
@@ -45,19 +45,6 @@ func CreateMultiSig(required byte, pubkeys [][]byte) (string, string, error) {
 	return EncodeCheck(P2SHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
-func (t Transaction) isMultiSig() bool {
-	if len(t.Vins) != 1 {
-		return false
-	}
-	if t.Vins[0].ScriptPubkeySignature == nil {
-		return false
-	}
-	if t.Vins[0].ScriptPubkeySignature[len(t.Vins[0].ScriptPubkeySignature)-1] != OpCheckMultiSig {
-		return false
-	}
-	return true
-}
-
 func isMultiSig(lockScript, redeemScript string) bool {
 	if len(lockScript) != 0x17*2 {
 		return false
diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index e82938e..18de13a 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -177,6 +177,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
 		emptyTrans.Vins[0].ScriptPubkeySignature = redeemBytes
+		emptyTrans.multiSig = true
 		for i := 0; i < len(sigPub); i++ {
 			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 		}
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 26ee674..472b324 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -20,6 +20,7 @@ type Transaction struct {
 	Witness  []TxWitness
 	LockTime []byte
 	//	HashType []byte
+	multiSig bool
 }
 
 func newTransaction(vins []Vin, vouts []Vout, lockTime uint32, replaceable bool) (*Transaction, error) {
@@ -40,7 +41,7 @@ func newTransaction(vins []Vin, vouts []Vout, lockTime uint32, replaceable bool)
 	version := uint32ToLittleEndianBytes(DefaultTxVersion)
 	locktime := uint32ToLittleEndianBytes(lockTime)
 
-	return &Transaction{version, txIn, txOut, nil, locktime}, nil
+	return &Transaction{version, txIn, txOut, nil, locktime, false}, nil
 }
 
 func (t Transaction) encodeToBytes() ([]byte, error) {
@@ -54,7 +55,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, t.Version...)
-	if t.isMultiSig() {
+	if t.multiSig {
 		if t.Witness == nil {
 			return nil, errors.New("No witness data for a multisig transaction!")
 		}
-- 
2.43.0


From 18b631494a080e6684fdbb061b54a1ef8bca901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:34 +0000
Subject: [PATCH 122/135] fix: btc like: signatures that are not strict DER are
 verified as valid, and zero values crash the encoder

---
 btcLikeTxDriver/signaturepubkey.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 9b87b07..4089d19 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -1,6 +1,7 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -64,7 +65,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -75,7 +76,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -157,7 +158,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if index+int(rLen) > limit {
 		return nil, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -240,5 +241,8 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if index != len(script) {
 		return nil, errors.New("Invalid transaction data!")
 	}
+	if !bytes.Equal(ret.encodeToScript(SigHashAll), script) {
+		return nil, errors.New("Signature is not canonical!")
+	}
 	return &ret, nil
 }
-- 
2.43.0


From 7472f97fde59ffd910fb1a5b06421ab4ce2e48c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:35 +0000
Subject: [PATCH 123/135] fix: btc like: short r and s values are malformed in
 witnesses, and reading them crashes

---
 btcLikeTxDriver/txStruct.go |   5 +-
 btcLikeTxDriver/witness.go  | 101 ++----------------------------------
 2 files changed, 9 insertions(+), 97 deletions(-)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 472b324..747e12d 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -265,7 +265,10 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 				if index+int(length)+1+34 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
-				witness, _ := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				witness, err := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				if err != nil {
+					return nil, err
+				}
 				rawTx.Witness = append(rawTx.Witness, *witness)
 
 				index += int(length) + 1 + 34
diff --git a/btcLikeTxDriver/witness.go b/btcLikeTxDriver/witness.go
index 36d9a11..d055ce0 100644
--- a/btcLikeTxDriver/witness.go
+++ b/btcLikeTxDriver/witness.go
@@ -1,109 +1,18 @@
 package btcLikeTxDriver
 
-import "errors"
-
 type TxWitness struct {
 	Signature []byte
 	Pubkey    []byte
 }
 
 func (w TxWitness) encodeToScript(sigType byte) []byte {
-	r := w.Signature[:32]
-	s := w.Signature[32:]
-
-	if r[0]&0x80 == 0x80 {
-		r = append([]byte{0x00}, r...)
-	}
-	if s[0]&0x80 == 0x80 {
-		s = append([]byte{0}, s...)
-	}
-
-	r = append([]byte{byte(len(r))}, r...)
-	r = append([]byte{0x02}, r...)
-	s = append([]byte{byte(len(s))}, s...)
-	s = append([]byte{0x02}, s...)
-
-	rs := append(r, s...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-	rs = append(rs, sigType)
-	rs = append([]byte{0x30}, rs...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-
-	pub := append([]byte{byte(len(w.Pubkey))}, w.Pubkey...)
-
-	return append(rs, pub...)
+	return SignaturePubkey{w.Signature, w.Pubkey}.encodeToScript(sigType)
 }
 
 func decodeFromSegwitBytes(script []byte) (*TxWitness, error) {
-	var ret TxWitness
-	index := 0
-	sigLen := script[index]
-	index++
-
-	if script[index] != 0x30 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rsLen := script[index]
-	index++
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rLen := script[index]
-	index++
-
-	if rLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = script[index : index+32]
-	index += 32
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	sLen := script[index]
-	index++
-
-	if sLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = append(ret.Signature, script[index:index+32]...)
-	index += 32
-
-	if script[index] != SigHashAll {
-		return nil, errors.New("Only sigAll supported!")
-	}
-	index++
-
-	pubLen := script[index]
-	index++
-	if pubLen != 0x21 {
-		return nil, errors.New("Only compressed pubkey is supported!")
-	}
-
-	ret.Pubkey = script[index : index+33]
-	index += 33
-
-	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) || (sigLen+pubLen+2 != byte(len(script))) {
-		return nil, errors.New("Invalid transaction data!")
-	}
-
-	if index != len(script) {
-		return nil, errors.New("Invalid transaction data!")
+	sp, err := decodeFromScriptBytes(script)
+	if err != nil {
+		return nil, err
 	}
-	return &ret, nil
+	return &TxWitness{sp.Signature, sp.Pubkey}, nil
 }
-- 
2.43.0


From afc91186309697d2b6e83436e355cfe15ecac476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:37 +0000
Subject: [PATCH 124/135] fix: btc like: unknown and missing witnesses are read
 as something else

---
 btcLikeTxDriver/txStruct.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 747e12d..fc36d18 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -275,8 +275,16 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			} else {
 				//TODO
 				//for multisig
+				return nil, errors.New("Unknown type of witness!")
 			}
 		}
+		signed := false
+		for _, w := range rawTx.Witness {
+			signed = signed || w.Signature != nil
+		}
+		if !signed {
+			return nil, errors.New("Invalid witness symbol!")
+		}
 	}
 
 	if index+4 > limit {
-- 
2.43.0


From 67d3b47b73903e4366ded33735e0685be0be17e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:38 +0000
Subject: [PATCH 125/135] fix: btc like: only two signatures of a single
 multisig input give a valid transaction, others a malformed one

---
 btcLikeTxDriver/multiSig.go    | 32 ++++++++++++++++++++++++++------
 btcLikeTxDriver/transaction.go | 12 ++++++++++++
 btcLikeTxDriver/txStruct.go    |  5 +++--
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/btcLikeTxDriver/multiSig.go b/btcLikeTxDriver/multiSig.go
index 271e999..1c26a09 100644
--- a/btcLikeTxDriver/multiSig.go
+++ b/btcLikeTxDriver/multiSig.go
@@ -11,7 +11,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte) (string, string, error) {
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -54,7 +54,7 @@ func isMultiSig(lockScript, redeemScript string) bool {
 	if err != nil {
 		return false
 	}
-	if !(lockBytes[0] == OpCodeHash160 && lockBytes[1] == 0x14 || lockBytes[22] == OpCodeEqual) {
+	if checkScriptType(lockBytes) != TypeP2SH {
 		return false
 	}
 
@@ -63,11 +63,31 @@ func isMultiSig(lockScript, redeemScript string) bool {
 		return false
 	}
 
-	if len(redeemBytes) == 0 || redeemBytes[len(redeemBytes)-1] != OpCheckMultiSig {
-		return false
-	}
-	return true
+	_, err = getMultiRequired(redeemBytes)
+	return err == nil
+}
 
+//getMultiRequired returns the number of signatures a multisig redeem script asks for
+func getMultiRequired(redeem []byte) (int, error) {
+	limit := len(redeem)
+	if limit < 3 || redeem[limit-1] != OpCheckMultiSig {
+		return 0, errors.New("Invalid redeem script for multisig UTXO!")
+	}
+	required := int(redeem[0]) - int(OpCode_1) + 1
+	total := int(redeem[limit-2]) - int(OpCode_1) + 1
+	index := 1
+	count := 0
+	for index < limit-2 {
+		if redeem[index] != 33 && redeem[index] != 65 {
+			return 0, errors.New("Invalid redeem script for multisig UTXO!")
+		}
+		index += int(redeem[index]) + 1
+		count++
+	}
+	if index != limit-2 || count != total || total > 16 || required < 1 || required > total {
+		return 0, errors.New("Invalid redeem script for multisig UTXO!")
+	}
+	return required, nil
 }
 
 func calcRedeemHash(redeem []byte) []byte {
diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 18de13a..d857816 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -176,6 +176,18 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
+		if len(emptyTrans.Vins) != 1 {
+			return "", errors.New("A multisig input has to be the only one!")
+		}
+		if required, _ := getMultiRequired(redeemBytes); required != len(sigPub) {
+			return "", errors.New("The number of signatures is not the one the redeem script requires!")
+		}
+		for _, sp := range sigPub {
+			if len(sp.Signature) != 64 {
+				return "", errors.New("Invalid signature data!")
+			}
+		}
+		emptyTrans.Witness = nil
 		emptyTrans.Vins[0].ScriptPubkeySignature = redeemBytes
 		emptyTrans.multiSig = true
 		for i := 0; i < len(sigPub); i++ {
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index fc36d18..6883699 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -83,13 +83,14 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, out.lockScript...)
 		}
 
-		ret = append(ret, byte(0x04), 0x00)
+		// number of witness items: the empty item, the signatures and the redeem script
+		ret = append(ret, byte(len(t.Witness)+2), 0x00)
 		for _, w := range t.Witness {
 			if w.Signature == nil {
 				return nil, errors.New("Miss signature data for a multisig transaction!")
 			} else {
 				sig := w.encodeToScript(SigHashAll)
-				sig = sig[:len(sig)-34]
+				sig = sig[:len(sig)-1-len(w.Pubkey)]
 				ret = append(ret, sig...)
 			}
 		}
-- 
2.43.0


From 6d38d649ca842d5f1c8f36389dc1938cb933f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:39 +0000
Subject: [PATCH 126/135] fix: btc like: malformed lock and redeem scripts
 crash or give digests of something else

---
 btcLikeTxDriver/txStruct.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 6883699..5dbb2fd 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -301,18 +301,18 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 }
 
 func isScriptHash(script []byte) bool {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
+	if len(script) == 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
 		return false
 	}
 	return true
 }
 
 func checkScriptType(script []byte) int {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
+	if len(script) == 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
 		return TypeP2PKH
-	} else if script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
+	} else if len(script) == 23 && script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
 		return TypeP2SH
-	} else if script[0] == 0x00 && script[1] == 0x14 {
+	} else if len(script) == 22 && script[0] == 0x00 && script[1] == 0x14 {
 		return TypeBech32
 	} else {
 		return -1
@@ -349,18 +349,14 @@ func genScriptCodeFromRedeemScript(redeem string) ([]byte, error) {
 	}
 
 	ret := []byte{}
-	if redeemBytes[0] == 0x00 && redeemBytes[1] == 0x14 {
-		ret = redeemBytes[2:]
-
-		if len(ret) != 0x14 {
-			return nil, errors.New("Invalid redeem script!")
-		}
-		ret = append([]byte{byte(len(ret))}, ret...)
-		ret = append([]byte{OpCodeDup, OpCodeHash160}, ret...)
+	if checkScriptType(redeemBytes) == TypeBech32 {
+		ret = append(ret, OpCodeDup, OpCodeHash160)
+		ret = append(ret, redeemBytes[1:]...)
 		ret = append(ret, OpCodeEqualVerify, OpCodeCheckSig)
 	} else {
-		//TODO
-		//for multi sig
+		if _, err := getMultiRequired(redeemBytes); err != nil {
+			return nil, errors.New("Invalid redeem script!")
+		}
 		ret = redeemBytes
 	}
 
-- 
2.43.0


From f260a8bacf39fc80ef0f6147b497bac57622ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:40 +0000
Subject: [PATCH 127/135] fix: btc like: signing changes the caller's unlock
 data, unknown scripts get a witness and missing signatures panic

---
 btcLikeTxDriver/transaction.go | 25 ++++++++++++++-----------
 btcLikeTxDriver/txStruct.go    |  5 +++--
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index d857816..c2be252 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -194,6 +194,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 		}
 	} else {
+		if len(emptyTrans.Vins) != len(sigPub) {
+			return "", errors.New("The number of transaction inputs and the signature data are not match!")
+		}
+		emptyTrans.Witness = nil
 		for i := 0; i < len(emptyTrans.Vins); i++ {
 
 			if sigPub[i].Signature == nil || len(sigPub[i].Signature) != 64 {
@@ -203,39 +207,38 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 				return "", errors.New("Invalid pubkey data!")
 			}
 
-			// bech32 branch
-			if unlockData[i].RedeemScript == "" && strings.Index(unlockData[i].LockScript, "0014") == 0 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
-				unlockData[i].LockScript = "00"
+			lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+			if err != nil {
+				return "", errors.New("Invalid lock script!")
 			}
 
-			if unlockData[i].RedeemScript == "" {
+			scriptType := checkScriptType(lockBytes)
+			if scriptType == TypeP2PKH {
 
 				emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
 				if emptyTrans.Witness != nil {
 					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 				}
-			} else {
+			} else if scriptType == TypeP2SH || scriptType == TypeBech32 {
 				if emptyTrans.Witness == nil {
 					for j := 0; j < i; j++ {
 						emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 					}
 				}
 				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
-				if unlockData[i].RedeemScript == "" {
-					return "", errors.New("Missing redeem script for a P2SH input!")
-				}
 
-				if unlockData[i].LockScript == "00" {
+				if scriptType == TypeBech32 {
 					emptyTrans.Vins[i].ScriptPubkeySignature = nil
 				} else {
 					redeem, err := hex.DecodeString(unlockData[i].RedeemScript)
-					if err != nil {
+					if err != nil || checkScriptType(redeem) != TypeBech32 {
 						return "", errors.New("Invlalid redeem script!")
 					}
 					redeem = append([]byte{byte(len(redeem))}, redeem...)
 					emptyTrans.Vins[i].ScriptPubkeySignature = redeem
 				}
+			} else {
+				return "", errors.New("Unknown type of lockscript!")
 			}
 		}
 	}
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 5dbb2fd..cc532ec 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -416,10 +416,11 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 
 		scriptType := checkScriptType(lockBytes)
 		if scriptType == TypeP2SH || scriptType == TypeBech32 {
+			unlock := unlockData[i]
 			if scriptType == TypeBech32 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
+				unlock.RedeemScript = unlock.LockScript
 			}
-			sigBytes, err = t.calcSegwitBytesForSig(unlockData[i], t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
+			sigBytes, err = t.calcSegwitBytesForSig(unlock, t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From d6608617c5417a5c23e33cd2a6634e579a846007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:41 +0000
Subject: [PATCH 128/135] fix: btc like: verification accepts keys and redeem
 scripts other than the locked ones, crashes on bad keys and changes the
 caller's data

---
 btcLikeTxDriver/transaction.go | 56 +++++++++++++++++++++++-----------
 btcLikeTxDriver/txStruct.go    |  4 +--
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index c2be252..c69a21a 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -1,9 +1,11 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
-	"strings"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 type Vin struct {
@@ -266,35 +268,53 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 	}
 
 	var sigAndPub []SignaturePubkey
-	if signedTrans.Witness == nil {
-		for _, sp := range signedTrans.Vins {
-			tmp, err := decodeFromScriptBytes(sp.ScriptPubkeySignature)
+	unlocks := append([]TxUnlock{}, unlockData...)
+	for i, in := range signedTrans.Vins {
+		lockBytes, err := hex.DecodeString(unlocks[i].LockScript)
+		if err != nil {
+			return false
+		}
+
+		var sp *SignaturePubkey
+		keyHash := []byte{}
+		if signedTrans.Witness == nil || signedTrans.Witness[i].Signature == nil {
+			if checkScriptType(lockBytes) != TypeP2PKH {
+				return false
+			}
+			sp, err = decodeFromScriptBytes(in.ScriptPubkeySignature)
 			if err != nil {
 				return false
 			}
-			sigAndPub = append(sigAndPub, *tmp)
-		}
-	} else {
-		for i := 0; i < len(signedTrans.Vins); i++ {
-			if signedTrans.Witness[i].Signature == nil {
-				tmp, err := decodeFromScriptBytes(signedTrans.Vins[i].ScriptPubkeySignature)
-				if err != nil {
+			keyHash = lockBytes[3:23]
+		} else {
+			sp = &SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey}
+			program := lockBytes
+			if checkScriptType(lockBytes) == TypeP2SH {
+				if len(in.ScriptPubkeySignature) != 23 || in.ScriptPubkeySignature[0] != 22 {
 					return false
 				}
-				sigAndPub = append(sigAndPub, *tmp)
-			} else {
-				sigAndPub = append(sigAndPub, SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey})
-				if strings.Index(unlockData[i].LockScript, "0014") == 0 {
-					continue
+				program = in.ScriptPubkeySignature[1:]
+				if !bytes.Equal(owcrypt.Hash(program, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+					return false
 				}
-				unlockData[i].RedeemScript = hex.EncodeToString(signedTrans.Vins[i].ScriptPubkeySignature[1:])
+				unlocks[i].RedeemScript = hex.EncodeToString(program)
+			} else if len(in.ScriptPubkeySignature) != 0 {
+				return false
+			}
+			if checkScriptType(program) != TypeBech32 {
+				return false
 			}
+			keyHash = program[2:]
+		}
+		if !bytes.Equal(owcrypt.Hash(sp.Pubkey, 0, owcrypt.HASH_ALG_HASH160), keyHash) {
+			return false
 		}
+		sigAndPub = append(sigAndPub, *sp)
 	}
 
 	signedTrans.Witness = nil
 
-	hashes, err := signedTrans.getHashesForSig(unlockData)
+	hashes, err := signedTrans.getHashesForSig(unlocks)
 	if err != nil {
 		return false
 	}
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index cc532ec..47baec5 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -449,8 +449,8 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 func verifyHashes(hashes [][]byte, sigPub []SignaturePubkey) bool {
 
 	for i := 0; i < len(sigPub); i++ {
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.Verify(pubkey, nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 || owcrypt.Verify(pubkey[1:], nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 			return false
 		}
 	}
-- 
2.43.0


From 0a3fa53d6f837b23ba5e2547cbacaf4cd73f96b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:42 +0000
Subject: [PATCH 129/135] fix: btc like: signing an empty transaction leaves
 out all witnesses but the first

---
 btcLikeTxDriver/transaction.go | 42 +---------------------------------
 btcLikeTxDriver/txStruct.go    |  3 +++
 2 files changed, 4 insertions(+), 41 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index c69a21a..1533581 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -89,47 +89,7 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 		return "", err
 	}
 
-	for i := 0; i < len(sigPub); i++ {
-		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
-		if err != nil {
-			return "", errors.New("Invalid lock script or redeem script!")
-		}
-
-		scriptType := checkScriptType(lockBytes)
-		//if isScriptHash(lockBytes) {
-		if scriptType == TypeP2SH || scriptType == TypeBech32 {
-
-			if scriptType == TypeBech32 {
-				emptyTrans.Vins[i].ScriptPubkeySignature = nil
-			} else {
-				redeemScript, err := hex.DecodeString(unlockData[i].RedeemScript)
-				if err != nil {
-					return "", errors.New("Invalid redeem script!")
-				}
-				redeemScript = append([]byte{byte(len(redeemScript))}, redeemScript...)
-				emptyTrans.Vins[i].ScriptPubkeySignature = redeemScript
-			}
-
-			if emptyTrans.Witness == nil {
-				for j := 0; j < i; j++ {
-					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
-				}
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
-			}
-
-		} else {
-			emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
-			if emptyTrans.Witness != nil {
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
-			}
-		}
-	}
-
-	txBytes, err = emptyTrans.encodeToBytes()
-	if err != nil {
-		return "", err
-	}
-	return hex.EncodeToString(txBytes), nil
+	return InsertSignatureIntoEmptyTransaction(txHex, sigPub, unlockData)
 }
 
 func SignRawTransactionHash(txHash []string, unlockData []TxUnlock) ([]SignaturePubkey, error) {
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 47baec5..ee964b6 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -400,6 +400,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 		return nil, errors.New("The number of Keys and UTXOs are not match!")
 	}
 
+	// a signed transaction has the digests of the empty one
+	t.Witness = nil
+
 	for i := 0; i < len(unlockData); i++ {
 		sigBytes := []byte{}
 		for j := 0; j < len(unlockData); j++ {
-- 
2.43.0


From c8a07eefa66b78d19fbcedaadf86691e0df98cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:19 +0000
Subject: [PATCH 130/135] fix: EncodeCheck no longer writes into its caller's
 prefix slice

---
 bitcoincashTransaction/base58.go | 2 +-
 bitcoinsvTransaction/base58.go   | 2 +-
 btcTransaction/base58.go         | 2 +-
 cxcTransaction/base58.go         | 2 +-
 elastosTransaction/base58.go     | 2 +-
 fiiiTransaction/base58.go        | 2 +-
 hcTransaction/base58.go          | 2 +-
 hypercashTransaction/base58.go   | 2 +-
 omniTransaction/base58.go        | 2 +-
 vollarTransaction/base58.go      | 2 +-
 waykichainTransaction/base58.go  | 2 +-
 zencashTransaction/base58.go     | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index a8b38dc..e836eb7 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -171,7 +171,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index b3b845c..516735b 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -171,7 +171,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 5d480cd..dbbd941 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -171,7 +171,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index e121e58..aba2374 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -171,7 +171,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 7fe396b..644ef79 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index b75bd35..22606d7 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -175,7 +175,7 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index f790a5e..8771e8e 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -171,7 +171,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 3b3b96e..6ca7fed 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(owcrypt.Hash(data, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index 9b0f451..5342920 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -171,7 +171,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 6a80f62..156ada9 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 80d3f60..e0c9805 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 01a1561..4f9778d 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -171,7 +171,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
-- 
2.43.0


From 289ffb4b00d527d449c30483230fac6586dd831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:19 +0000
Subject: [PATCH 131/135] fix: waykichain DecodeCheck refuses strings too short
 for a hash and checksum

---
 waykichainTransaction/base58.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index e0c9805..bf79246 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From b11b1c18c25dcfee7eb616e1ec7d85e2e104736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:19 +0000
Subject: [PATCH 132/135] fix: bech32 encoders no longer write into their
 caller's data slice

---
 addressEncoder/bech32m/bech32m.go | 2 +-
 bytomTransaction/bech32.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e7d3669..8a5dc44 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -81,7 +81,7 @@ func createChecksum(hrp string, data []byte, spec int) []byte {
 
 // Encode compute a Bech32 string given HRP and data values.
 func Encode(hrp string, data []byte, spec int, charset string) string {
-	combined := append(data, createChecksum(hrp, data, spec)...)
+	combined := append(append([]byte{}, data...), createChecksum(hrp, data, spec)...)
 	var ret bytes.Buffer
 	ret.WriteString(hrp)
 	ret.WriteString("1")
diff --git a/bytomTransaction/bech32.go b/bytomTransaction/bech32.go
index eb15aaf..da51dfd 100644
--- a/bytomTransaction/bech32.go
+++ b/bytomTransaction/bech32.go
@@ -83,7 +83,7 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := append(append([]byte{}, data...), checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
-- 
2.43.0


From b915b9bd49cf92a4a4744ec427b2f9a26b86a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:14 +0000
Subject: [PATCH 133/135] fix: owkeychain Base58checkEncode no longer writes
 into its caller's prefix slice

---
 owkeychain/owencode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index fc041ac..3d873ad 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -23,7 +23,8 @@ func Base58checkEncode(data []byte, fix []byte) string {
 	hash = ctx.Sum(nil)
 
 	fix_value := []byte{}
-	fix_value = append(fix, data...)
+	fix_value = append(fix_value, fix...)
+	fix_value = append(fix_value, data...)
 	fix_value = append(fix_value, hash[:4]...)
 
 	return Encode(fix_value[:], BitcoinAlphabet)
-- 
2.43.0


From 2fcf1d425f36339665bc26048055f64c0edf263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:21 +0000
Subject: [PATCH 134/135] fix: vergeTransaction refuses a transaction whose
 lock script is not hexadecimal

---
 vergeTransaction/txStruct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index a012e2e..469f99b 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -203,7 +203,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil {
+			return nil, nil, errors.New("invalid lock script!")
+		}
 		lock = append(varInt(len(lock)), lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
-- 
2.43.0


From 524bc6c3226739e2995f3cda9ed47d766ef3e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:21 +0000
Subject: [PATCH 135/135] fix: aliencoinTransaction refuses a transaction whose
 lock script is not hexadecimal

---
 aliencoinTransaction/txStruct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index e9c81b0..72f0aad 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -190,7 +190,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil {
+			return nil, nil, errors.New("invalid lock script!")
+		}
 		lock = append(varInt(len(lock)), lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
-- 
2.43.0

