From 8c3a4430191e9cb868180df76a16b3cd91327cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:16 +0000
Subject: [PATCH 01/13] fix: do not panic on truncated WIFs, reject WIFs that
 do not hold a 32 byte key

---
 private_key.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/private_key.go b/private_key.go
index 2c61000..de670e4 100644
--- a/private_key.go
+++ b/private_key.go
@@ -18,6 +18,11 @@ func CheckWIF(wif string) bool {
 		return false
 	}
 
+	/* A checksum takes 4 bytes */
+	if len(bytes) < 4 {
+		return false
+	}
+
 	hexa := hex.EncodeToString(bytes)
 	checksum := hexa[len(hexa)-8 : len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
@@ -55,6 +60,11 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 
 	hexa := hex.EncodeToString(bytes)
 
+	/* Network byte, 32 byte key and 4 byte checksum */
+	if len(hexa) != 74 {
+		return nil, errors.New("wif invalid")
+	}
+
 	hexa = hexa[2:len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
 
-- 
2.43.0


From a9bb8215bfdff1600ebd96af080a056036968291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:18 +0000
Subject: [PATCH 02/13] fix: do not read the compression flag of a WIF as part
 of the private key

---
 private_key.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index de670e4..54990b2 100644
--- a/private_key.go
+++ b/private_key.go
@@ -60,14 +60,20 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 
 	hexa := hex.EncodeToString(bytes)
 
-	/* Network byte, 32 byte key and 4 byte checksum */
-	if len(hexa) != 74 {
+	/* Network byte, 32 byte key, optional compression flag and 4 byte checksum */
+	compressed := len(hexa) == 76 && hexa[66:68] == "01"
+	if len(hexa) != 74 && !compressed {
 		return nil, errors.New("wif invalid")
 	}
 
 	hexa = hexa[2:len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
 
+	/* The compression flag is not part of the key */
+	if compressed {
+		hexa = hexa[0:64]
+	}
+
 	var privateKey PrivateKey
 	privateKey.WIF = wif
 	privateKey.Hex = hexa
-- 
2.43.0


From e8013a6f7a749ea89d1c3bde4c0246296782ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:20 +0000
Subject: [PATCH 03/13] fix: reject a WIF of another network

---
 private_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/private_key.go b/private_key.go
index 54990b2..e41456a 100644
--- a/private_key.go
+++ b/private_key.go
@@ -66,6 +66,11 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 		return nil, errors.New("wif invalid")
 	}
 
+	/* The WIF must belong to the network */
+	if !strings.EqualFold(hexa[0:2], network.PrivKeyPrefix) {
+		return nil, errors.New("different network")
+	}
+
 	hexa = hexa[2:len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
 
-- 
2.43.0


From 6a356ac5ee6c28ba08a98e7b52f03a98b6b4af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:23 +0000
Subject: [PATCH 04/13] fix: combined private keys with leading zeros fail or
 get a short WIF; reject private keys that are not 32 bytes or out of range

---
 private_key.go | 12 ++++++++++++
 util.go        |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/private_key.go b/private_key.go
index e41456a..5a14e20 100644
--- a/private_key.go
+++ b/private_key.go
@@ -83,6 +83,9 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 	privateKey.WIF = wif
 	privateKey.Hex = hexa
 	privateKey.Key, _ = new(big.Int).SetString(hexa, 16)
+	if !isValidPrivateKey(privateKey.Key) {
+		return nil, errors.New("invalid private key")
+	}
 	privateKey.Network = network
 
 	return &privateKey, nil
@@ -93,6 +96,9 @@ func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
 
 	var p PrivateKey
 	p.Key, _ = new(big.Int).SetString(hexa, 16)
+	if len(hexa) != 64 || !isValidPrivateKey(p.Key) {
+		return nil, errors.New("invalid private key")
+	}
 	p.Hex = hexa
 	/* Add network byte to the hex value */
 	hexa = network.PrivKeyPrefix + hexa
@@ -169,6 +175,9 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
 	hexa := bigIntToHex(pKey)
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
@@ -190,6 +199,9 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
 	hexa := bigIntToHex(pKey)
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
diff --git a/util.go b/util.go
index 3b7fa9b..6ab82df 100644
--- a/util.go
+++ b/util.go
@@ -19,3 +19,8 @@ func generateRandomBigInt() *big.Int {
 func bigIntToHex(n *big.Int) string {
 	return fmt.Sprintf("%x", n)
 }
+
+// isValidPrivateKey checks if n is between 1 and the order of the curve
+func isValidPrivateKey(n *big.Int) bool {
+	return n != nil && n.Sign() > 0 && n.Cmp(secp256k1.N) < 0
+}
-- 
2.43.0


From 41e635dc6e2cfd35657ac1b178da447d3c744f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:25 +0000
Subject: [PATCH 05/13] fix: PublicFromHex panics on malformed hex and accepts
 points that are not on the curve

---
 public_key.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 99d8cec..46d09e1 100644
--- a/public_key.go
+++ b/public_key.go
@@ -18,18 +18,33 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 	var publicKey PublicKey
 	publicKey.Network = network
 
+	if _, err := hex.DecodeString(hexa); err != nil {
+		return nil, err
+	}
+	if len(hexa) != 66 && len(hexa) != 130 {
+		return nil, errors.New("unsupported public key format")
+	}
+
 	prefix := hexa[0:2]
 
-	if prefix == "04" {
+	if prefix == "04" && len(hexa) == 130 {
 		/* Uncompressed */
 		x := hexa[2:66]
 		y := hexa[66:130]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 		publicKey.Y, _ = new(big.Int).SetString(y, 16)
 
-	} else if prefix == "03" || prefix == "02" {
+		inField := publicKey.X.Cmp(secp256k1.P) < 0 && publicKey.Y.Cmp(secp256k1.P) < 0
+		if !inField || !secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
+
+	} else if (prefix == "03" || prefix == "02") && len(hexa) == 66 {
 		x := hexa[2:66]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
+		if publicKey.X.Cmp(secp256k1.P) >= 0 {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
 
 		y, onCurve := secp256k1.GetY(publicKey.X)
 		if !onCurve {
-- 
2.43.0


From 24ef47ec22527b297b1aaa4790370ee1a338ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 06/13] fix: data race between concurrent calls importing
 compressed public keys

---
 public_key.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 46d09e1..17159ed 100644
--- a/public_key.go
+++ b/public_key.go
@@ -46,7 +46,11 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
 
-		y, onCurve := secp256k1.GetY(publicKey.X)
+		/* GetY writes to the A parameter, which all callers share */
+		curve := secp256k1
+		curve.A = new(big.Int).Set(secp256k1.A)
+
+		y, onCurve := curve.GetY(publicKey.X)
 		if !onCurve {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
-- 
2.43.0


From 7d0d9227dad92dd464f0fd7383b7c77b21870ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:29 +0000
Subject: [PATCH 07/13] fix: the public key of private key 1 shares memory with
 the generator point

---
 public_key.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 17159ed..f29ef69 100644
--- a/public_key.go
+++ b/public_key.go
@@ -83,8 +83,9 @@ func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	if !valid {
 		return nil, false
 	}
-	publicKey.X = R.X
-	publicKey.Y = R.Y
+	/* R can share its coordinates with the generator point */
+	publicKey.X = new(big.Int).Set(R.X)
+	publicKey.Y = new(big.Int).Set(R.Y)
 
 	publicKey.Network = p.Network
 
-- 
2.43.0


From f762af6ddc460feae9d20c9213e981195cb81ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:32 +0000
Subject: [PATCH 08/13] fix: GetPublicKey of N-1 and AddPublicKeys of opposite
 keys exit the process

---
 public_key.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index f29ef69..d5b81c6 100644
--- a/public_key.go
+++ b/public_key.go
@@ -79,13 +79,28 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	var publicKey PublicKey
 
-	R, valid := secp256k1.ScalarMult(p.Key, secp256k1.G)
+	if !isValidPrivateKey(p.Key) {
+		return nil, false
+	}
+
+	/* ScalarMult exits the process if it meets the point at infinity, which happens next to N: */
+	/* above N/2, use kG = -(N-k)G */
+	key := p.Key
+	negated := new(big.Int).Sub(secp256k1.N, p.Key)
+	if negated.Cmp(p.Key) < 0 {
+		key = negated
+	}
+
+	R, valid := secp256k1.ScalarMult(key, secp256k1.G)
 	if !valid {
 		return nil, false
 	}
 	/* R can share its coordinates with the generator point */
 	publicKey.X = new(big.Int).Set(R.X)
 	publicKey.Y = new(big.Int).Set(R.Y)
+	if key == negated {
+		publicKey.Y.Sub(secp256k1.P, publicKey.Y)
+	}
 
 	publicKey.Network = p.Network
 
@@ -191,6 +206,11 @@ func AddPublicKeys(p1 *PublicKey, p2 *PublicKey, compressed bool) (*PublicKey, e
 		return nil, errors.New("different network")
 	}
 
+	/* The sum of a key and its opposite is the point at infinity, on which AddPoints exits the process */
+	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {
+		return nil, errors.New("sum of public keys is the point at infinity")
+	}
+
 	point1 := ecdsa.Point{
 		X: p1.X,
 		Y: p1.Y,
-- 
2.43.0


From 2798bffdf5f69fb191f50361a84e1e72c37c4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:34 +0000
Subject: [PATCH 09/13] fix: NewMnemonic panics on wordlists of less than 2048
 words

---
 mnemonic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index 722a4ee..29c780f 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -76,7 +76,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 // NewMnemonic generates a new mnemonic phrase
 func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 
-	if wordlist == nil {
+	if len(wordlist) < 2048 {
 		return "", errors.New("invalid wordlist")
 	}
 
-- 
2.43.0


From 38a6a2b9ef213ca8092bff19d8174d00b47cd925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:36 +0000
Subject: [PATCH 10/13] fix: NewMnemonic reads bits backwards and gets the
 checksum wrong, so that its phrases are not valid BIP-39

---
 mnemonic.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 29c780f..6587731 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -109,15 +109,19 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 		return "", err
 	}
 
+	/* Keep leading zeros */
+	entropyBytes := make([]byte, entropyLength/8)
+	copy(entropyBytes[len(entropyBytes)-len(entropy.Bytes()):], entropy.Bytes())
+
 	sha := sha256.New()
-	sha.Write(entropy.Bytes())
+	sha.Write(entropyBytes)
 	hash := sha.Sum(nil)
 
 	checksumLength := entropyLength / 32
 
 	hashInt := new(big.Int).SetBytes(hash)
 
-	hashBinary := fmt.Sprintf("%b", hashInt)
+	hashBinary := fmt.Sprintf("%0256b", hashInt)
 	checksumBinary := hashBinary[0:checksumLength]
 
 	b := fmt.Sprintf("%b", entropy)
@@ -133,7 +137,8 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	for i := 0; i < len(b); i += 11 {
 		str := ""
 		for j := i; j-i < 11; j++ {
-			if binary.Bit(j) == 0 {
+			/* Bit 0 is the last one */
+			if binary.Bit(len(b)-1-j) == 0 {
 				str += "0"
 			} else {
 				str += "1"
-- 
2.43.0


From 35e257967535dbf4383630a3736b4c1c94761c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:39 +0000
Subject: [PATCH 11/13] fix: NewSeedFromMnemonic writes the mnemonic's bits to
 the log

---
 mnemonic.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 6587731..c5f652f 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -6,7 +6,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
-	"log"
 	"math/big"
 	"strings"
 )
@@ -41,7 +40,6 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		for j := i; j-i < 4; j++ {
 			n += string(binary[j])
 		}
-		log.Println(n)
 		nInt, _ := new(big.Int).SetString(n, 2)
 		hexa := bigIntToHex(nInt)
 		hash += hexa
@@ -68,8 +66,6 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	log.Println(shaHashHex, len(shaHashHex))
-	log.Println(hash, checksum)
 	return nil, nil
 }
 
-- 
2.43.0


From 53e969eccc12ebcd8fd486f4c436f79b06d1d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:41 +0000
Subject: [PATCH 12/13] fix: NewSeedFromMnemonic panics on or rejects valid
 mnemonics of less than 24 words

---
 mnemonic.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index c5f652f..3e0af3f 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -22,7 +22,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 				break
 			}
 		}
-		if index < 0 {
+		if index < 0 || index > 2047 {
 			return nil, errors.New("invalid mnemonic")
 		}
 
@@ -34,8 +34,18 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		binary += indexBinary
 	}
 
+	switch len(words) {
+	case 12, 15, 18, 21, 24:
+	default:
+		return nil, errors.New("unsupported mnemonic length")
+	}
+
+	/* 1 bit of checksum for 32 bits of entropy */
+	checksumLength := len(binary) / 33
+	entropyLength := len(binary) - checksumLength
+
 	hash := ""
-	for i := 0; i < len(binary); i += 4 {
+	for i := 0; i < entropyLength; i += 4 {
 		n := ""
 		for j := i; j-i < 4; j++ {
 			n += string(binary[j])
@@ -45,10 +55,10 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		hash += hexa
 	}
 
-	checksum := hash[len(hash)-2 : len(hash)]
+	checksum := binary[entropyLength:len(binary)]
 
 	sha := sha256.New()
-	decoded, err := hex.DecodeString(hash[0 : len(hash)-2])
+	decoded, err := hex.DecodeString(hash)
 	if err != nil {
 		return nil, err
 	}
@@ -56,13 +66,9 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 	shaHash := sha.Sum(nil)
 
 	shaHashBig := new(big.Int).SetBytes(shaHash)
-	shaHashHex := bigIntToHex(shaHashBig)
-
-	for len(shaHashHex) < 64 {
-		shaHashHex = "0" + shaHashHex
-	}
+	shaHashBinary := fmt.Sprintf("%0256b", shaHashBig)
 
-	if shaHashHex[0:2] != checksum {
+	if shaHashBinary[0:checksumLength] != checksum {
 		return nil, errors.New("invalid checksum")
 	}
 
-- 
2.43.0


From d05dc798eeffaa14170d48016f8d60b8357703d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:44 +0000
Subject: [PATCH 13/13] fix: NewSeedFromMnemonic returns no seed

---
 mnemonic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index 3e0af3f..bfc2f83 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -3,11 +3,14 @@ package btc
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"crypto/sha512"
 	"encoding/hex"
 	"errors"
 	"fmt"
 	"math/big"
 	"strings"
+
+	"golang.org/x/crypto/pbkdf2"
 )
 
 // NewSeedFromMnemonic returns the hash of the mnemonic
@@ -72,7 +75,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	return nil, nil
+	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
 }
 
 // NewMnemonic generates a new mnemonic phrase
-- 
2.43.0

