From 42db73d1279b782a902cd4178daf6bd9c9adc59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 01/26] fix: bind commitrx into the challenge of the
 non-negativity argument

The second verification equation depends on commitrx, but the challenge did
not, so a prover could choose commitrx after seeing the challenge and pass
the check for a commitment to any integer.
---
 primitive/fujiokam/FujiOkamCommitment.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 6e3a3cb..7798ebb 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -458,11 +458,12 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
 	commitrx, rrx := base.Commit(rx)
-	// e = hash(commitx, C, Cr)
+	// e = hash(commitx, C, Cr, commitrx)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	eBuf := h.Sum(nil)
 	e := new(big.Int)
 	e.SetBytes(eBuf)
@@ -496,11 +497,12 @@ func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
 }
 
 func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R, x_, a_, b_, d_, r_ *big.Int) bool {
-	// e := hash(commitx, C, Cr)
+	// e := hash(commitx, C, Cr, commitrx)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	eBuf := h.Sum(nil)
 	e := new(big.Int)
 	e.SetBytes(eBuf)
-- 
2.43.0


From 610f1c3dd40dcb81105777e935e731a21c1f16b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 02/26] fix: bind both commitments into the challenge of the
 equality argument

The challenge hashed only the announcements, so a prover could fix the
challenge first and then solve for commitments that hold different values.
---
 primitive/pedersen_fujiokam/equality.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index c20c8a6..a92a559 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -51,8 +51,11 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	T2 := fujiokamBase.CommitWithR(t1Raw, t3Raw)
 	byteT2 := T2.ToBinary()
 
-	// c := hash(T1 || T2)
+	// c := hash(PComm || FOComm || T1 || T2)
+	bytePComm, _ := PComm.MarshalBinary()
 	hash := suite.Hash()
+	hash.Write(bytePComm)
+	hash.Write(FOComm.ToBinary())
 	hash.Write(byteT1)
 	hash.Write(byteT2)
 	cBuf := hash.Sum(nil)
@@ -99,8 +102,11 @@ func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuj
 	T2.Mul(T2, tmp2)
 	byteT2 := T2.ToBinary()
 
-	// c := hash(T1 || T2)
+	// c := hash(PComm || FOComm || T1 || T2)
+	bytePComm, _ := PComm.MarshalBinary()
 	hash := pedersenBase.Suite.Hash()
+	hash.Write(bytePComm)
+	hash.Write(FOComm.ToBinary())
 	hash.Write(byteT1)
 	hash.Write(byteT2)
 	RSideBuf := hash.Sum(nil)
-- 
2.43.0


From edb800a6814591805825fd65cc6ee24c5ecc8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 03/26] fix: reject non-invertible commitments in the equality
 argument

With FOComm = 0 the recomputed announcement T2 is 0 whatever the response, so
the argument was accepted although nothing is committed.
---
 primitive/pedersen_fujiokam/equality.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index a92a559..13992ed 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -84,6 +84,10 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 
 func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
 	PComm abstract.Point, FOComm *fujiokam.Point, arg *ARGequal) bool {
+	// a commitment that is not invertible mod n would erase T2
+	if new(big.Int).ModInverse(&FOComm.V, fujiokamBase.N) == nil {
+		return false
+	}
 	s1 := BigIntToSecret(pedersenBase.Suite, arg.S1)
 	s2 := BigIntToSecret(pedersenBase.Suite, arg.S2)
 	c := BigIntToSecret(pedersenBase.Suite, arg.C)
-- 
2.43.0


From 26c2585af2883b033a5ce737eb806034df8dd877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 04/26] fix: refuse requests of pseudonyms that are not in the
 table

The missing commitment was dereferenced, which stopped the coordinator and
the servers.
---
 cmd/bridge/bridge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 7cb0553..2316e81 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -30,6 +30,10 @@ type Assignment struct {
 }
 
 func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstract.Suite, pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase) bool {
+	if PCommr == nil {
+		fmt.Println("[note]** The requester is not in the reputation table")
+		return false
+	}
 	ind := params["ind"].(int)
 	nymR := suite.Point()
 	byteNymR := params["nym"].([]byte)
-- 
2.43.0


From 04a8f9b80786ddf8f86ca5f38f3d4e3b47267b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 05/26] fix: check the range of the committed difference in
 bridge requests

The equality argument only shows equality modulo the group order. Without a
range check a client could commit to reputation - ind + order, which is
positive, and request any number of bridges.
---
 cmd/bridge/bridge.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 2316e81..d7cd028 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -82,6 +82,13 @@ func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstr
 		fmt.Println("[note]** Equality check failed")
 		return false
 	}
+	// the committed integer must be small, otherwise it may differ from the
+	// reputation by a multiple of the group order
+	order := suite.Secret().(*nist.Int).M
+	if ARGequal.S1.Sign() < 0 || ARGequal.S1.BitLen() > order.BitLen() + 1 {
+		fmt.Println("[note]** Range check failed")
+		return false
+	}
 	fmt.Println("[debug] Equality check passed")
 
 	return true
-- 
2.43.0


From b9e47e2ae0e363721094b78b6b46d40aee64b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 06/26] fix: sign assignments and deliveries with the standard
 base point

Suite.Point() is the uninitialised value 0, so every commitment of these
signatures was 0 and anybody could produce them for any key. Public keys are
made with the standard base, which nil stands for.
---
 cmd/client/ClientHandler.go           | 2 +-
 cmd/coordinator/Coordinator.go        | 2 +-
 cmd/coordinator/CoordinatorHandler.go | 4 ++--
 cmd/server/AnonServerHandler.go       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 80fb69c..deef8e6 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -247,7 +247,7 @@ func handleGotSignatures(params map[string]interface{}, dissentClient *DissentCl
 	// verify signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfGotSignatures(params)
-	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, dissentClient.Suite.Point())
+	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, nil)
 	if err != nil {
 		fmt.Println("[note]** Fails to verify the signatures")
 		return
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index aea060a..1e85e22 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -132,7 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
 	rand := c.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, nil)
 	return sig
 }
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 417577c..384f8a7 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -523,14 +523,14 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
-		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, anonCoordinator.Suite.Point())
+		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, nil)
 		if err != nil {
 			fmt.Println("[note] Fails to verify server's signature")
 			return
 		}
 	}
 	// verify coordinator's own signature
-	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], anonCoordinator.Suite.Point())
+	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], nil)
 	if err != nil {
 		fmt.Println("[note] Fails to verify coordinator's signature")
 		return
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5411241..ec3ac5d 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -386,7 +386,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
 		rand := anonServer.Suite.Cipher([]byte("example"))
-		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, nil)
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From 90259f1d0a02d630f01cd16abf77ff6878dc5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 07/26] fix: draw a fresh nonce for every signature

All signatures used the same nonce from a cipher keyed with a constant, so
two signatures of one participant revealed its private key.
---
 cmd/client/ClientLauncher.go    | 9 +++------
 cmd/coordinator/Coordinator.go  | 4 ++--
 cmd/server/AnonServerHandler.go | 3 +--
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 35e1023..335a2e4 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -76,8 +76,7 @@ func postBridge(bridgeAddr string) {
 	// sign bridge address and nym
 	byteMsg := bridge.MessageOfPostBridge(params)
 	byteMsg = append([]byte(bridgeAddr), byteNym...)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
 	event := &proto.Event{EventType:proto.POST_BRIDGE, Params:params}
@@ -136,8 +135,7 @@ func requestBridges(ind int) {
 
 	// sign message
 	byteMsg := bridge.MessageOfRequestBridges(params)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
 	// send to coordinator
@@ -224,8 +222,7 @@ func sendVote(msgID, feedback int) {
 	}
 	msg := bridge.MessageOfVote(params)
 	// sign this message
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, msg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, msg, dissentClient.PrivateKey, dissentClient.G)
 
 	// send to coordinator
 	params["signature"] = sig
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 1e85e22..eb68874 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -10,6 +10,7 @@ import (
 	"zRep/util"
 
 	"github.com/dedis/crypto/abstract"
+	"github.com/dedis/crypto/random"
 )
 
 type ClientTuple struct {
@@ -131,8 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 }
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
-	rand := c.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, nil)
+	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, nil)
 	return sig
 }
 
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index ec3ac5d..cb49568 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -385,8 +385,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-		rand := anonServer.Suite.Cipher([]byte("example"))
-		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, nil)
+		sig := util.ElGamalSign(anonServer.Suite, random.Stream, byteAssignment, anonServer.PrivateKey, nil)
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From 2e846de6e53146b99acf9deb5f4e6b2d82d2ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 08/26] fix: make the signed message bodies determine every
 field

The fields were concatenated without lengths, the request number was cut to
32 bits and the sign of the feedback was dropped, so a vote of +1 could be
turned into -1 (and bytes moved between fields) under the same signature.
---
 cmd/bridge/bridge.go         | 47 ++++++++++++++++++++++--------------
 cmd/client/ClientLauncher.go |  1 -
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index d7cd028..45d1ac9 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -98,40 +98,51 @@ func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstr
 // Extract message body from package
 // ****************************************************************************
 
+// appendField appends a field preceded by its length, so that the fields of a
+// message can not be shifted into each other
+func appendField(msg []byte, field []byte) []byte {
+	msg = append(msg, util.IntToByte(len(field))...)
+	return append(msg, field...)
+}
+
+// appendInt appends all the bits of an integer
+func appendInt(msg []byte, n int) []byte {
+	msg = append(msg, util.IntToByte(int(int64(n) >> 32))...)
+	return append(msg, util.IntToByte(n)...)
+}
+
 func MessageOfRequestBridges(params map[string]interface{}) (msg []byte) {
 	ind := params["ind"].(int)
-	byteInd := util.IntToByte(ind)
-	msg = append(msg, byteInd...)
-	msg = append(msg, params["nym"].([]byte)...)
-	msg = append(msg, params["FOCommd"].([]byte)...)
-	msg = append(msg, params["PCommd"].([]byte)...)
-	msg = append(msg, params["PCommind"].([]byte)...)
-	msg = append(msg, params["rind"].([]byte)...)
-	msg = append(msg, params["arg_nonneg"].([]byte)...)
-	msg = append(msg, params["arg_equal"].([]byte)...)
+	msg = appendInt(msg, ind)
+	msg = appendField(msg, params["nym"].([]byte))
+	msg = appendField(msg, params["FOCommd"].([]byte))
+	msg = appendField(msg, params["PCommd"].([]byte))
+	msg = appendField(msg, params["PCommind"].([]byte))
+	msg = appendField(msg, params["rind"].([]byte))
+	msg = appendField(msg, params["arg_nonneg"].([]byte))
+	msg = appendField(msg, params["arg_equal"].([]byte))
 	return
 }
 
 func MessageOfPostBridge(params map[string]interface{}) (msg []byte) {
 	bridgeAddr := params["bridge_addr"].(string)
-	msg = append(msg, []byte(bridgeAddr)...)
-	msg = append(msg, params["nym"].([]byte)...)
+	msg = appendField(msg, []byte(bridgeAddr))
+	msg = appendField(msg, params["nym"].([]byte))
 	return
 }
 
 func MessageOfGotSignatures(params map[string]interface{}) (msg []byte) {
-	msg = append(msg, params["assignment"].([]byte)...)
-	msg = append(msg, params["signatures"].([]byte)...)
+	msg = appendField(msg, params["assignment"].([]byte))
+	msg = appendField(msg, params["signatures"].([]byte))
 	return
 }
 
 func MessageOfVote(params map[string]interface{}) (msg []byte) {
-	msg = append(msg, params["nym"].([]byte)...)
-	msg = append(msg, params["assignment"].([]byte)...)
-	msg = append(msg, params["signatures"].([]byte)...)
+	msg = appendField(msg, params["nym"].([]byte))
+	msg = appendField(msg, params["assignment"].([]byte))
+	msg = appendField(msg, params["signatures"].([]byte))
 	feedback := params["feedback"].(int)
-	byteFeedback := big.NewInt(int64(feedback)).Bytes()
-	msg = append(msg, byteFeedback...)
+	msg = appendInt(msg, feedback)
 	return
 }
 
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 335a2e4..eb3a213 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -75,7 +75,6 @@ func postBridge(bridgeAddr string) {
 
 	// sign bridge address and nym
 	byteMsg := bridge.MessageOfPostBridge(params)
-	byteMsg = append([]byte(bridgeAddr), byteNym...)
 	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
-- 
2.43.0


From b9634568c7899400b10ba2a9204311bd723e5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 09/26] fix: count one vote of +1 or -1 per assignment, from
 its requester only

Any participant could vote on any assignment, with any feedback and any
number of times, and a short signature list stopped the coordinator.
---
 cmd/coordinator/Coordinator.go        | 15 +++++++++++++++
 cmd/coordinator/CoordinatorHandler.go | 23 ++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index eb68874..92ac311 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -67,6 +67,8 @@ type Coordinator struct {
 	// record each vote signature's y0
 	RequesterAddrs map[string]*net.TCPAddr
 	VoteRecords []*big.Int
+	// addresses of the assignments that have been voted on in this round
+	VotedAssignments map[string]bool
 
 	Bridges map[string]BridgeInfo
 
@@ -232,6 +234,19 @@ func (c *Coordinator) AddIntoRepMap(key abstract.Point, val abstract.Point) {
 	c.BeginningCommMap[keyStr] = val
 }
 
+// record that an assignment has been voted on
+// return false when it has been voted on before
+func (c *Coordinator) AddVotedAssignment(brdgAddr string) bool {
+	if c.VotedAssignments[brdgAddr] {
+		return false
+	}
+	if c.VotedAssignments == nil {
+		c.VotedAssignments = make(map[string]bool)
+	}
+	c.VotedAssignments[brdgAddr] = true
+	return true
+}
+
 func (c *Coordinator) ClearVoteRecords() {
 	c.VoteRecords = []*big.Int{}
 }
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 384f8a7..a5ad67b 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -96,6 +96,7 @@ func handleAnnouncement(params map[string]interface{}) {
 	anonCoordinator.EndingCommMap = make(map[string]abstract.Point)
 	anonCoordinator.EndingKeyMap = make(map[string]abstract.Point)
 	anonCoordinator.ReputationDiffMap = make(map[string]int)
+	anonCoordinator.VotedAssignments = nil
 	anonCoordinator.AllClientsPublicKeys = keyList
 
 	for i := 0; i < len(keyList); i++ {
@@ -506,6 +507,13 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	}
 	publicKey := anonCoordinator.AllClientsPublicKeys[index]
 
+	// feedback can be only 1 or -1
+	feedback := params["feedback"].(int)
+	if feedback != 1 && feedback != -1 {
+		fmt.Println("[note] Invalid feedback")
+		return
+	}
+
 	// verify overall signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfVote(params)
@@ -520,6 +528,10 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	byteAssignment := params["assignment"].([]byte)
 	assignment := bridge.DecodeAssignment(byteAssignment)
 	numServers := len(anonCoordinator.ServerList)
+	if len(signatures) != numServers + 1 {
+		fmt.Println("[note] Wrong number of signatures")
+		return
+	}
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
@@ -537,9 +549,18 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	}
 	fmt.Println("[debug] All servers' signatures check passed")
 
+	// only the requester of the assignment can vote, and only once
+	if !assignment.NymR.Equal(nym) {
+		fmt.Println("[note] The voter is not the requester of the assignment")
+		return
+	}
+	if !anonCoordinator.AddVotedAssignment(assignment.Addr) {
+		fmt.Println("[note] Duplicate vote")
+		return
+	}
+
 	// record feedback
 	targetNym := assignment.Nym
-	feedback := params["feedback"].(int)
 	anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
 }
 
-- 
2.43.0


From acb8117b847ed705bb05a4209b707064cd748b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 10/26] fix: count each server once when collecting assignment
 signatures

A repeated reply of one server was counted like the reply of another, so
assignments were delivered with missing signatures, or delivered again.
---
 cmd/coordinator/Coordinator.go        | 8 +++++++-
 cmd/coordinator/CoordinatorHandler.go | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 92ac311..01a356c 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -153,12 +153,18 @@ func (c *Coordinator) InitAssignmentSignatures(brdgAddr string) {
 }
 
 // insert a server's signature for a bridge into the log
-func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, sig []byte) {
+// return false when that server's signature is there already
+func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, sig []byte) bool {
 	oldEntry := c.AssignmentSignaturesLog[brdgAddr]
 	assignmentSigs := oldEntry.Signatures
+	if assignmentSigs[serverIndex] != nil {
+		// this server has already replied
+		return false
+	}
 	assignmentSigs[serverIndex] = sig
 	newEntry := AssignmentSignatures{Signatures: assignmentSigs, Count: oldEntry.Count + 1}
 	c.AssignmentSignaturesLog[brdgAddr] = newEntry
+	return true
 }
 
 func (c *Coordinator) FinishCollectingAssignmentSignatures(brdgAddr string) bool {
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index a5ad67b..d26edcb 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -383,7 +383,9 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 		sig := sigs[i]
 		brdgAddr := assignment.Addr
 		// update each assignment's log entry by inserting the signature and increase count
-		anonCoordinator.AddAssignmentSignature(brdgAddr, serverIndex, sig)
+		if !anonCoordinator.AddAssignmentSignature(brdgAddr, serverIndex, sig) {
+			continue
+		}
 
 		// if all servers have replied signatures for this assignment
 		if anonCoordinator.FinishCollectingAssignmentSignatures(brdgAddr) {
-- 
2.43.0


From 20ae97b1137d47400a508df2ddb39656890eb8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 11/26] fix: posting a bridge again does not make it assignable
 again

A second post of the same address reset the used mark, so the bridge was
assigned twice in one round, and replaced the provider.
---
 cmd/coordinator/Coordinator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 01a356c..c50e609 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -177,6 +177,10 @@ func (c *Coordinator) GetAssignmentSignatures(brdgAddr string) [][]byte {
 }
 
 func (c *Coordinator) AddBridge(bridgeAddr string, nym abstract.Point) {
+	if _, ok := c.Bridges[bridgeAddr]; ok {
+		// a bridge that is posted again keeps its provider and its state
+		return
+	}
 	c.Bridges[bridgeAddr] = BridgeInfo{Nym:nym, Used:false}
 }
 
-- 
2.43.0


From 8385c843193e59cb57b12a23b346110d9b1b097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 12/26] fix: leave providers outside the table out of the
 round-end report

Their missing key was dropped by the encoder while their score change was
kept, so the changes of the following clients were reported for other keys.
---
 cmd/coordinator/CoordinatorHandler.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index d26edcb..4ede984 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -641,14 +641,16 @@ func handleRoundEnd(params map[string]interface{}) {
 	anonCoordinator.PedersenBase.HT = HT
 	// note: no need to tell clients yet
 
-	size := len(anonCoordinator.ReputationDiffMap)
-	keys := make([]abstract.Point,size)
-	diffs := make([]int, size)
-	i := 0
+	keys := []abstract.Point{}
+	diffs := []int{}
 	for k, v := range anonCoordinator.ReputationDiffMap {
-		keys[i] = anonCoordinator.EndingKeyMap[k]
-		diffs[i] = v
-		i++
+		key, ok := anonCoordinator.EndingKeyMap[k]
+		if !ok {
+			// the provider does not take part in this round
+			continue
+		}
+		keys = append(keys, key)
+		diffs = append(diffs, v)
 	}
 	byteKeys := util.ProtobufEncodePointList(keys)
 	byteDiffs := util.EncodeIntArray(diffs)
-- 
2.43.0


From 08a89496c1ca97f1c4c00ebeee7eb5f781edf246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 13/26] fix: ignore votes once the score changes have been
 committed

A vote that arrived between the start of the round end and the servers' reply
was reported to the clients but was not part of the committed change, so the
provider's reputation no longer opened its table entry.
---
 cmd/coordinator/CoordinatorHandler.go  | 4 ++++
 cmd/coordinator/CoordinatorLauncher.go | 2 ++
 cmd/coordinator/CoordinatorStatus.go   | 1 +
 3 files changed, 7 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 4ede984..f886e6d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -496,6 +496,10 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 // }
 
 func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if anonCoordinator.Status == ROUND_END {
+		fmt.Println("[note] The score changes of this round are fixed already")
+		return
+	}
 	// fetch nym
 	nym := anonCoordinator.Suite.Point()
 	err := nym.UnmarshalBinary(params["nym"].([]byte))
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index ef4da89..d979656 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -147,6 +147,8 @@ func roundEnd() {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
 		return
 	}
+	// votes are not accepted any more
+	anonCoordinator.Status = ROUND_END
 	// add new clients into reputation map
 	for _,cdata := range anonCoordinator.NewClientsBuffer {
 		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
diff --git a/cmd/coordinator/CoordinatorStatus.go b/cmd/coordinator/CoordinatorStatus.go
index a8b34ab..3c4f1b1 100644
--- a/cmd/coordinator/CoordinatorStatus.go
+++ b/cmd/coordinator/CoordinatorStatus.go
@@ -8,3 +8,4 @@ const ANNOUNCE = 2;
 const MESSAGE = 3;
 const VOTE = 4;
 const SERVER_CONFIGURATION = 5;
+const ROUND_END = 6;
-- 
2.43.0


From 603869550fdbe3568b34dd358b19a7ccbf0ed5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 14/26] fix: use a fresh honesty proof for every client and
 challenge

One announcement was answered for every challenge, so the answers to two
different challenge bits gave the secret exponents of the generators.
---
 cmd/coordinator/Coordinator.go         |  5 +++--
 cmd/coordinator/CoordinatorHandler.go  | 17 ++++++++++++++---
 cmd/coordinator/CoordinatorLauncher.go |  5 ++---
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index c50e609..6c414af 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -82,8 +82,9 @@ type Coordinator struct {
 	FujiOkamBase *fujiokam.FujiOkamBase
 	LRSBase *lrs.LRSBase
 
-	AllGnHonestyProofSecret []*big.Int
-	AllGnHonestyProofPublic []*big.Int
+	// secrets of the honesty proofs that have not been answered yet,
+	// each can be used for one challenge of one client only
+	GnHonestyProofSecrets map[string][]*big.Int
 }
 
 // get last server in topology
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index f886e6d..5ec54d3 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -2,7 +2,7 @@ package coordinator
 
 import (
 	"fmt"
-	// "math/big"
+	"math/big"
 	"net"
 	"strconv"
 	// "strings"
@@ -232,6 +232,11 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	util.CheckErr(err)
 	bytePublicKey, _ := anonCoordinator.PublicKey.MarshalBinary()
 	fujiokamBase := anonCoordinator.FujiOkamBase
+	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
+	if anonCoordinator.GnHonestyProofSecrets == nil {
+		anonCoordinator.GnHonestyProofSecrets = make(map[string][]*big.Int)
+	}
+	anonCoordinator.GnHonestyProofSecrets[addr.String()] = prfSecret
 	pm := map[string]interface{}{
 		"n": fujiokamBase.N.Bytes(),
 		"g1": fujiokamBase.G1.ToBinary(),
@@ -241,7 +246,7 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 		"g5": fujiokamBase.G5.ToBinary(),
 		"g6": fujiokamBase.G6.ToBinary(),
 		"h1": fujiokamBase.H1.ToBinary(),
-		"honesty_prf": util.ProtobufEncodeBigIntList(anonCoordinator.AllGnHonestyProofPublic),
+		"honesty_prf": util.ProtobufEncodeBigIntList(prfPublic),
 		// "h": byteHT,
 		"public_key": bytePublicKey,
 	}
@@ -256,7 +261,13 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 	challenge := util.ProtobufDecodeBoolList(params["honesty_chal"].([]byte))
 	fmt.Println("[debug] Received challenge, start answering...")
 	base := anonCoordinator.FujiOkamBase
-	answer := base.AnswerAllGnHonesty(challenge, anonCoordinator.AllGnHonestyProofSecret, anonCoordinator.AllGnHonestyProofPublic)
+	prfSecret, ok := anonCoordinator.GnHonestyProofSecrets[senderAddr.String()]
+	if !ok {
+		fmt.Println("[note] No honesty proof to answer for " + senderAddr.String())
+		return
+	}
+	delete(anonCoordinator.GnHonestyProofSecrets, senderAddr.String())
+	answer := base.AnswerAllGnHonesty(challenge, prfSecret, nil)
 
 	pm := map[string]interface{}{
 		"honesty_ans": util.ProtobufEncodeBigIntList(answer),
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index d979656..145ed47 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math/big"
 	"net"
 	"os"
 	"time"
@@ -51,7 +52,6 @@ func initCoordinator() {
 	A := suite.Point().Mul(nil, a)
 	pedersenBase := pedersen.CreateMinimalBaseFromSuite(suite)
 	fujiokamBase := fujiokam.CreateBaseFromSuite(suite)
-	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
 
 	anonCoordinator = &Coordinator{
 		LocalAddr: CoordinatorAddr,
@@ -73,8 +73,7 @@ func initCoordinator() {
 		ReputationDiffMap: make(map[string]int),
 		PedersenBase: pedersenBase,
 		FujiOkamBase: fujiokamBase,
-		AllGnHonestyProofSecret: prfSecret,
-		AllGnHonestyProofPublic: prfPublic,
+		GnHonestyProofSecrets: make(map[string][]*big.Int),
 	}
 }
 
-- 
2.43.0


From fd02f3bb7f7792e62f36194467ab191b62b284cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 15/26] fix: check the shape of ring signatures and of their
 linking tag

Extra challenges were added to the sum without any response, so anybody could
sign, and the tag was accepted unreduced or multiplied by -1, so one signer
could make signatures that are not linkable.
---
 primitive/lrs/LinkableRingSignature.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/primitive/lrs/LinkableRingSignature.go b/primitive/lrs/LinkableRingSignature.go
index 86397b6..d1a52fc 100644
--- a/primitive/lrs/LinkableRingSignature.go
+++ b/primitive/lrs/LinkableRingSignature.go
@@ -189,6 +189,16 @@ func (base *LRSBase) Verify(m []byte, n int, pi int, sig *Signature, y []abstrac
 }
 
 func (base *LRSBase) VerifyHelper(m []byte, n int, pi int, sig *Signature, y []*big.Int) bool {
+	// one response and one challenge per ring member
+	if n != len(y) || n != len(sig.S) || n != len(sig.C) {
+		return false
+	}
+	// y0 has to be a reduced square, otherwise the same signer could use
+	// several tags
+	if sig.Y0.Sign() <= 0 || sig.Y0.Cmp(base.P) >= 0 || big.Jacobi(sig.Y0, base.P) != 1 {
+		return false
+	}
+
 	L := computeL(y)
 	h := base.computeh(m, L)
 
-- 
2.43.0


From 68aaf64845b10bf51970fda040dd5a14a5bd583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 16/26] fix: tie the embedded simple shuffle to the pair
 shuffle

The verifier never compared the inputs of the simple shuffle with the
commitments of the pair shuffle, so the two parts of a proof could be about
unrelated values.
---
 util/shuffle/pair.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index e2355bf..918494a 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -274,6 +274,16 @@ func (ps *PairShuffle) Verify(
 	if err := ps.pv6.Verify(g, p1.Gamma, ctx); err != nil {
 		return err
 	}
+	// the simple shuffle has to be about the committed values
+	T := grp.Point() // scratch
+	for i := 0; i < k; i++ {
+		if !T.Add(p1.A[i], T.Mul(B[i], v4.Zlambda)).Equal(ps.pv6.p0.X[i]) {
+			return errors.New("invalid PairShuffleProof")
+		}
+		if !T.Add(p1.C[i], T.Mul(p3.D[i], v4.Zlambda)).Equal(ps.pv6.p0.Y[i]) {
+			return errors.New("invalid PairShuffleProof")
+		}
+	}
 
 	// V step 7
 	Phi1 := grp.Point().Null()
-- 
2.43.0


From 399c86b0f25bc137118534e85370220e68dab7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 17/26] fix: make shuffle proofs commit to the shuffled lists

The challenges did not depend on the inputs and outputs, so a proof was also
accepted for outputs and inputs that were changed together, e.g. Xbar[0] by a
multiple rho[0] and X[0] by sigma[0] of the same element.
---
 util/shuffle/biffle.go | 18 ++++++++++--
 util/shuffle/pair.go   | 64 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 80 insertions(+), 2 deletions(-)

diff --git a/util/shuffle/biffle.go b/util/shuffle/biffle.go
index 50781ba..79d5a69 100644
--- a/util/shuffle/biffle.go
+++ b/util/shuffle/biffle.go
@@ -72,7 +72,14 @@ func Biffle(suite abstract.Suite, G, H abstract.Point,
 		"beta1": beta[1]}
 	points := bifflePoints(suite, G, H, X, Y, Xbar, Ybar)
 	choice := map[proof.Predicate]int{or: bit}
-	prover = or.Prover(suite, secrets, points, choice)
+	orProver := or.Prover(suite, secrets, points, choice)
+	st := newStatement(suite, G, H, X[:], Y[:], Xbar[:], Ybar[:])
+	prover = func(ctx proof.ProverContext) error {
+		if err := ctx.Put(st); err != nil {
+			return err
+		}
+		return orProver(ctx)
+	}
 	return
 }
 
@@ -82,7 +89,14 @@ func BiffleVerifier(suite abstract.Suite, G, H abstract.Point,
 
 	or := bifflePred()
 	points := bifflePoints(suite, G, H, X, Y, Xbar, Ybar)
-	return or.Verifier(suite, points)
+	orVerifier := or.Verifier(suite, points)
+	st := newStatement(suite, G, H, X[:], Y[:], Xbar[:], Ybar[:])
+	return func(ctx proof.VerifierContext) error {
+		if err := st.check(ctx); err != nil {
+			return err
+		}
+		return orVerifier(ctx)
+	}
 }
 
 func BiffleTest(suite abstract.Suite, N int) {
diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index 918494a..9eca512 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -33,6 +33,52 @@ import (
 // accessible via the reflection API,
 // which refuses to touch unexported fields in a struct.
 
+// P (Prover) step 0: the statement, so that all challenges depend on it
+type ega0 struct {
+	G, H             abstract.Point
+	X, Y, Xbar, Ybar []abstract.Point
+}
+
+// Make the statement for bases g,h (nil for the standard base).
+func newStatement(grp abstract.Group, g, h abstract.Point,
+	X, Y, Xbar, Ybar []abstract.Point) *ega0 {
+
+	if g == nil {
+		g = grp.Point().Base()
+	}
+	if h == nil {
+		h = grp.Point().Base()
+	}
+	return &ega0{g, h, X, Y, Xbar, Ybar}
+}
+
+// Read the prover's statement and check that it is this one.
+func (st *ega0) check(ctx proof.VerifierContext) error {
+	got := ega0{
+		X:    make([]abstract.Point, len(st.X)),
+		Y:    make([]abstract.Point, len(st.Y)),
+		Xbar: make([]abstract.Point, len(st.Xbar)),
+		Ybar: make([]abstract.Point, len(st.Ybar))}
+	if err := ctx.Get(&got); err != nil {
+		return err
+	}
+	a, b := got.points(), st.points()
+	for i := range b {
+		if !a[i].Equal(b[i]) {
+			return errors.New("proof of a different shuffle")
+		}
+	}
+	return nil
+}
+
+func (st *ega0) points() []abstract.Point {
+	ps := []abstract.Point{st.G, st.H}
+	ps = append(ps, st.X...)
+	ps = append(ps, st.Y...)
+	ps = append(ps, st.Xbar...)
+	return append(ps, st.Ybar...)
+}
+
 // P (Prover) step 1: public commitments
 type ega1 struct {
 	Gamma            abstract.Point
@@ -132,6 +178,19 @@ func (ps *PairShuffle) Prove(
 		piinv[pi[i]] = i
 	}
 
+	// P step 0
+	Xbar := make([]abstract.Point, k)
+	Ybar := make([]abstract.Point, k)
+	for i := 0; i < k; i++ {
+		Xbar[i] = grp.Point().Mul(g, beta[pi[i]])
+		Xbar[i].Add(Xbar[i], X[pi[i]])
+		Ybar[i] = grp.Point().Mul(h, beta[pi[i]])
+		Ybar[i].Add(Ybar[i], Y[pi[i]])
+	}
+	if err := ctx.Put(newStatement(grp, g, h, X, Y, Xbar, Ybar)); err != nil {
+		return err
+	}
+
 	// P step 1
 	p1 := &ps.p1
 	z := grp.Secret() // scratch
@@ -235,6 +294,11 @@ func (ps *PairShuffle) Verify(
 		panic("mismatched vector lengths")
 	}
 
+	// P step 0
+	if err := newStatement(grp, g, h, X, Y, Xbar, Ybar).check(ctx); err != nil {
+		return err
+	}
+
 	// P step 1
 	p1 := &ps.p1
 	if err := ctx.Get(p1); err != nil {
-- 
2.43.0


From 8385e40dd1ccb256d0cba1d1e6a17f9db9152af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 18/26] fix: ignore servers' replies for assignments of an
 earlier round

---
 cmd/coordinator/Coordinator.go        | 16 ++++++++++++----
 cmd/coordinator/CoordinatorHandler.go |  6 +++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 6c414af..64e4d1a 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -24,6 +24,7 @@ type BridgeInfo struct {
 }
 
 type AssignmentSignatures struct {
+	Assignment bridge.Assignment
 	Signatures [][]byte
 	Count int
 }
@@ -146,11 +147,17 @@ func (c *Coordinator) AddMsgLog(log abstract.Point) int{
 }
 
 // create an empty entry to store all servers' signatures for a bridge
-func (c *Coordinator) InitAssignmentSignatures(brdgAddr string) {
+func (c *Coordinator) InitAssignmentSignatures(assignment bridge.Assignment) {
 	nServers := len(c.ServerList)
 	assignmentSigs := make([][]byte, nServers+1)
-	entry := AssignmentSignatures{Signatures: assignmentSigs, Count: 0}
-	anonCoordinator.AssignmentSignaturesLog[brdgAddr] = entry
+	entry := AssignmentSignatures{Assignment: assignment, Signatures: assignmentSigs, Count: 0}
+	anonCoordinator.AssignmentSignaturesLog[assignment.Addr] = entry
+}
+
+// whether signatures for this very assignment are being collected in this round
+func (c *Coordinator) IsCollectingSignatures(assignment bridge.Assignment) bool {
+	entry, ok := c.AssignmentSignaturesLog[assignment.Addr]
+	return ok && entry.Assignment.NymR.Equal(assignment.NymR) && entry.Assignment.Nym.Equal(assignment.Nym)
 }
 
 // insert a server's signature for a bridge into the log
@@ -163,7 +170,7 @@ func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, s
 		return false
 	}
 	assignmentSigs[serverIndex] = sig
-	newEntry := AssignmentSignatures{Signatures: assignmentSigs, Count: oldEntry.Count + 1}
+	newEntry := AssignmentSignatures{Assignment: oldEntry.Assignment, Signatures: assignmentSigs, Count: oldEntry.Count + 1}
 	c.AssignmentSignaturesLog[brdgAddr] = newEntry
 	return true
 }
@@ -222,6 +229,7 @@ func (c *Coordinator) AssignBridges(num int, nymR abstract.Point) []bridge.Assig
 
 func (c *Coordinator) ClearBridges() {
 	c.Bridges = make(map[string]BridgeInfo)
+	c.AssignmentSignaturesLog = make(map[string]AssignmentSignatures)
 }
 
 // get reputation
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 5ec54d3..b7cb295 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -350,7 +350,7 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 	nServers := len(anonCoordinator.ServerList)
 	for i,assignment := range assignments {
 		brdgAddr := assignment.Addr
-		anonCoordinator.InitAssignmentSignatures(brdgAddr)
+		anonCoordinator.InitAssignmentSignatures(assignment)
 		// append coordinator's own signature to the end
 		anonCoordinator.AddAssignmentSignature(brdgAddr, nServers, sigs[i])
 	}
@@ -393,6 +393,10 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 	for i,assignment := range assignments {
 		sig := sigs[i]
 		brdgAddr := assignment.Addr
+		// ignore late replies for the assignments of an earlier round
+		if !anonCoordinator.IsCollectingSignatures(assignment) {
+			continue
+		}
 		// update each assignment's log entry by inserting the signature and increase count
 		if !anonCoordinator.AddAssignmentSignature(brdgAddr, serverIndex, sig) {
 			continue
-- 
2.43.0


From 13965ba39e4e87837c5816bf343a5dfa94e2f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:34 +0000
Subject: [PATCH 19/26] fix: deliver an assignment to the address that asked
 for it

---
 cmd/coordinator/Coordinator.go         | 14 ++++++++++----
 cmd/coordinator/CoordinatorHandler.go  |  9 ++-------
 cmd/coordinator/CoordinatorLauncher.go |  1 -
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 64e4d1a..248fe20 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -25,6 +25,8 @@ type BridgeInfo struct {
 
 type AssignmentSignatures struct {
 	Assignment bridge.Assignment
+	// address the request for it came from
+	RequesterAddr *net.TCPAddr
 	Signatures [][]byte
 	Count int
 }
@@ -66,7 +68,6 @@ type Coordinator struct {
 	// map an assignment's bridge to servers' signatures
 	AssignmentSignaturesLog map[string]AssignmentSignatures
 	// record each vote signature's y0
-	RequesterAddrs map[string]*net.TCPAddr
 	VoteRecords []*big.Int
 	// addresses of the assignments that have been voted on in this round
 	VotedAssignments map[string]bool
@@ -147,10 +148,10 @@ func (c *Coordinator) AddMsgLog(log abstract.Point) int{
 }
 
 // create an empty entry to store all servers' signatures for a bridge
-func (c *Coordinator) InitAssignmentSignatures(assignment bridge.Assignment) {
+func (c *Coordinator) InitAssignmentSignatures(assignment bridge.Assignment, requesterAddr *net.TCPAddr) {
 	nServers := len(c.ServerList)
 	assignmentSigs := make([][]byte, nServers+1)
-	entry := AssignmentSignatures{Assignment: assignment, Signatures: assignmentSigs, Count: 0}
+	entry := AssignmentSignatures{Assignment: assignment, RequesterAddr: requesterAddr, Signatures: assignmentSigs, Count: 0}
 	anonCoordinator.AssignmentSignaturesLog[assignment.Addr] = entry
 }
 
@@ -170,7 +171,8 @@ func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, s
 		return false
 	}
 	assignmentSigs[serverIndex] = sig
-	newEntry := AssignmentSignatures{Assignment: oldEntry.Assignment, Signatures: assignmentSigs, Count: oldEntry.Count + 1}
+	newEntry := oldEntry
+	newEntry.Count = oldEntry.Count + 1
 	c.AssignmentSignaturesLog[brdgAddr] = newEntry
 	return true
 }
@@ -184,6 +186,10 @@ func (c *Coordinator) GetAssignmentSignatures(brdgAddr string) [][]byte {
 	return c.AssignmentSignaturesLog[brdgAddr].Signatures
 }
 
+func (c *Coordinator) GetRequesterAddr(brdgAddr string) *net.TCPAddr {
+	return c.AssignmentSignaturesLog[brdgAddr].RequesterAddr
+}
+
 func (c *Coordinator) AddBridge(bridgeAddr string, nym abstract.Point) {
 	if _, ok := c.Bridges[bridgeAddr]; ok {
 		// a bridge that is posted again keeps its provider and its state
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index b7cb295..2caa5a3 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -328,9 +328,6 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 		return
 	}
 
-	// record requester's IP
-	anonCoordinator.RequesterAddrs[nymR.String()] = senderAddr
-
 	// create assignment tuples from unused bridges
 	assignments := anonCoordinator.AssignBridges(ind, nymR)
 	// TODO: tell client
@@ -350,7 +347,7 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 	nServers := len(anonCoordinator.ServerList)
 	for i,assignment := range assignments {
 		brdgAddr := assignment.Addr
-		anonCoordinator.InitAssignmentSignatures(assignment)
+		anonCoordinator.InitAssignmentSignatures(assignment, senderAddr)
 		// append coordinator's own signature to the end
 		anonCoordinator.AddAssignmentSignature(brdgAddr, nServers, sigs[i])
 	}
@@ -387,8 +384,6 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 
 	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := util.Decode2DByteArray(params["signatures"].([]byte))
-	nymR := assignments[0].NymR
-	requesterIP := anonCoordinator.RequesterAddrs[nymR.String()]
 
 	for i,assignment := range assignments {
 		sig := sigs[i]
@@ -422,7 +417,7 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 			pm["signature"] = byteSig
 			// send
 			event := &proto.Event{EventType:proto.GOT_SIGNS, Params:pm}
-			util.SendEvent(anonCoordinator.LocalAddr, requesterIP, event)
+			util.SendEvent(anonCoordinator.LocalAddr, anonCoordinator.GetRequesterAddr(brdgAddr), event)
 		}
 	}
 }
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 145ed47..a0e4c56 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -101,7 +101,6 @@ func clearBuffer() {
 	anonCoordinator.NewClientsBuffer = nil
 	// msg sender's record nym
 	anonCoordinator.MsgLog = nil
-	anonCoordinator.RequesterAddrs = make(map[string]*net.TCPAddr)
 }
 
 /**
-- 
2.43.0


From c5f477a0580726e7a7e2b241d4b13d3b8bbf2f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 20/26] fix: let clients register while no round is open

---
 cmd/coordinator/Coordinator.go        |  8 ++++++++
 cmd/coordinator/CoordinatorHandler.go | 13 +++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 248fe20..5974f24 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -18,6 +18,12 @@ type ClientTuple struct {
 	PComm abstract.Point
 }
 
+// a client's registration that has not been processed yet
+type PendingRegistration struct {
+	Params map[string]interface{}
+	Addr *net.TCPAddr
+}
+
 type BridgeInfo struct {
 	Nym abstract.Point
 	Used bool
@@ -63,6 +69,8 @@ type Coordinator struct {
 	// we only add new clients at the beginning of each round
 	// store the new clients's one-time pseudo nym
 	NewClientsBuffer []ClientTuple
+	// registrations waiting for the next announcement to finish
+	PendingRegistrations []PendingRegistration
 	// msg sender's record nym
 	MsgLog []abstract.Point
 	// map an assignment's bridge to servers' signatures
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 2caa5a3..6989557 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -125,6 +125,13 @@ func handleAnnouncement(params map[string]interface{}) {
 	// set controller's new g
 	anonCoordinator.G = g
 	anonCoordinator.Status = MESSAGE
+
+	// process the registrations that have been waiting for the round
+	pending := anonCoordinator.PendingRegistrations
+	anonCoordinator.PendingRegistrations = nil
+	for _,reg := range pending {
+		handleClientRegisterControllerSide(reg.Params, reg.Addr)
+	}
 }
 
 // handle server register request
@@ -180,6 +187,12 @@ func handleUpdatePedersenH(params map[string]interface{}) {
 // Handler for REGISTER event
 // send the register request to server to do encryption
 func handleClientRegisterControllerSide(params map[string]interface{}, addr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		// g and the servers' round keys do not belong to the same round now
+		reg := PendingRegistration{Params:params, Addr:addr}
+		anonCoordinator.PendingRegistrations = append(anonCoordinator.PendingRegistrations, reg)
+		return
+	}
 	// get client's public key
 	publicKey := anonCoordinator.Suite.Point()
 	publicKey.UnmarshalBinary(params["public_key"].([]byte))
-- 
2.43.0


From 6749beb73e0e02db7cd2d608724fe73b4040750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:55 +0000
Subject: [PATCH 21/26] fix: do not record bridges while no round is open

---
 cmd/coordinator/CoordinatorHandler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 6989557..f662150 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -290,6 +290,10 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 }
 // verify the posting message and record the bridge
 func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note] The bridges of this round are cleared already")
+		return
+	}
 	// get info from the request
 	bridgeAddr := params["bridge_addr"].(string)
 	byteSig := params["signature"].([]byte)
-- 
2.43.0


From d9d1319609d623992d1d15f6e0e2098f3c7dbd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:14 +0000
Subject: [PATCH 22/26] fix: do not let events and phase changes of the
 coordinator interleave

---
 cmd/coordinator/CoordinatorHandler.go  |  6 +++++
 cmd/coordinator/CoordinatorLauncher.go | 32 ++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index f662150..2ea7b9f 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"strconv"
 	// "strings"
+	"sync"
 	"time"
 
 	"zRep/primitive/lrs"
@@ -19,10 +20,15 @@ import (
 
 var anonCoordinator *Coordinator
 
+// held while an event is handled and while the round moves to another phase,
+// the listener and the main loop share the coordinator
+var coordinatorLock sync.Mutex
 
 // Handle Use tmpCoordinator to handle data sent from addr.
 // The data is stored at buf
 func Handle(buf []byte, tmpCoordinator *Coordinator) {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	// decode the whole message
 	anonCoordinator = tmpCoordinator
 	event, addr := util.DecodeEvent(buf)
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index a0e4c56..5426894 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -79,6 +79,8 @@ func initCoordinator() {
 
 // config parameters for commitments
 func configCommParams() {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	// Config Pedersen Commitment
 	h := anonCoordinator.PedersenBase.HT
 	byteH, err := h.MarshalBinary()
@@ -97,6 +99,8 @@ func configCommParams() {
  * clear all buffer data
  */
 func clearBuffer() {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	// clear buffer
 	anonCoordinator.NewClientsBuffer = nil
 	// msg sender's record nym
@@ -108,6 +112,8 @@ func clearBuffer() {
   * send reputation list
   */
 func announce() {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	firstServer := anonCoordinator.GetFirstServerAddr()
 	if firstServer == nil {
 		anonCoordinator.Status = MESSAGE
@@ -140,6 +146,8 @@ func announce() {
  * add new clients into the reputation map
  */
 func roundEnd() {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	lastServer := anonCoordinator.GetLastServerAddr()
 	if lastServer == nil {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
@@ -201,6 +209,8 @@ func roundEnd() {
  * just send it from controller
  */
 func vote() {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
 	anonCoordinator.ClearVoteRecords()
 	pm := map[string]interface{} {}
 	event := &proto.Event{EventType:proto.VOTE, Params:pm}
@@ -223,6 +233,18 @@ func addFakeClients(num int) {
 	}
 }
 
+func getStatus() int {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
+	return anonCoordinator.Status
+}
+
+func setStatus(status int) {
+	coordinatorLock.Lock()
+	defer coordinatorLock.Unlock()
+	anonCoordinator.Status = status
+}
+
 func waitKeypress(prompt string) {
 	fmt.Print(prompt)
 	reader := bufio.NewReader(os.Stdin)
@@ -247,11 +269,11 @@ func Launch() {
 	}
 	fmt.Println("[debug] Configuring parameters of commitments.")
 	configCommParams()
-	anonCoordinator.Status = READY_FOR_NEW_ROUND
+	setStatus(READY_FOR_NEW_ROUND)
 	for {
 		// wait for the status changed to READY_FOR_NEW_ROUND
 		for {
-			if anonCoordinator.Status == READY_FOR_NEW_ROUND {
+			if getStatus() == READY_FOR_NEW_ROUND {
 				break
 			}
 			time.Sleep(10 * time.Millisecond)
@@ -264,16 +286,16 @@ func Launch() {
 		// clear buffer at the beginning of each round
 		clearBuffer()
 		fmt.Println("******************** New round begin ********************")
-		if anonCoordinator.Status != READY_FOR_NEW_ROUND {
+		if getStatus() != READY_FOR_NEW_ROUND {
 			log.Fatal("Fails to be ready for the new round")
 			os.Exit(1)
 		}
 		// announcing phase
-		anonCoordinator.Status = ANNOUNCE
+		setStatus(ANNOUNCE)
 		fmt.Println("[coordinator] Announcement phase started...")
 		announce()
 		for {
-			if anonCoordinator.Status == MESSAGE {
+			if getStatus() == MESSAGE {
 				break
 			}
 			time.Sleep(1000 * time.Millisecond)
-- 
2.43.0


From 3a07ec9babccd7c46d11adb88eff90b20f7ca2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:14 +0000
Subject: [PATCH 23/26] fix: a registration still travelling through the
 servers at a round's end was lost and stopped the client

---
 cmd/coordinator/Coordinator.go        |  2 ++
 cmd/coordinator/CoordinatorHandler.go | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 5974f24..c108285 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -71,6 +71,8 @@ type Coordinator struct {
 	NewClientsBuffer []ClientTuple
 	// registrations waiting for the next announcement to finish
 	PendingRegistrations []PendingRegistration
+	// registrations travelling through the servers, by the client's address
+	Registering map[string]PendingRegistration
 	// msg sender's record nym
 	MsgLog []abstract.Point
 	// map an assignment's bridge to servers' signatures
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 2ea7b9f..af34739 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -199,10 +199,10 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 		anonCoordinator.PendingRegistrations = append(anonCoordinator.PendingRegistrations, reg)
 		return
 	}
-	// get client's public key
-	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
-	anonCoordinator.AddClient(publicKey, addr)
+	if anonCoordinator.Registering == nil {
+		anonCoordinator.Registering = make(map[string]PendingRegistration)
+	}
+	anonCoordinator.Registering[addr.String()] = PendingRegistration{Params:params, Addr:addr}
 
 	// compute Pedersen commitment
 	xInit := anonCoordinator.Suite.Secret().SetInt64(int64(bridge.StartingCredit))
@@ -231,6 +231,22 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 
 // handle client register successful event
 func handleClientRegisterServerSide(params map[string]interface{}) {
+	reg, ok := anonCoordinator.Registering[params["addr"].(string)]
+	if !ok {
+		fmt.Println("[note] No registration under way for " + params["addr"].(string))
+		return
+	}
+	delete(anonCoordinator.Registering, params["addr"].(string))
+	if anonCoordinator.Status != MESSAGE {
+		// the round ended meanwhile, register in the next one
+		anonCoordinator.PendingRegistrations = append(anonCoordinator.PendingRegistrations, reg)
+		return
+	}
+	// get client's public key
+	publicKey := anonCoordinator.Suite.Point()
+	publicKey.UnmarshalBinary(reg.Params["public_key"].([]byte))
+	anonCoordinator.AddClient(publicKey, reg.Addr)
+
 	// get public key from params (it's one-time nym actually)
 	var nym = anonCoordinator.Suite.Point()
 	byteNym := params["public_key"].([]byte)
-- 
2.43.0


From 1fd555c7cff718ffb32a7f85dfb2d6eea338960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:32 +0000
Subject: [PATCH 24/26] fix: an empty signature in a server's reply is not
 counted as its contribution

---
 cmd/coordinator/Coordinator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index c108285..36097d0 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -172,8 +172,11 @@ func (c *Coordinator) IsCollectingSignatures(assignment bridge.Assignment) bool
 }
 
 // insert a server's signature for a bridge into the log
-// return false when that server's signature is there already
+// return false when there is no signature or that server's is there already
 func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, sig []byte) bool {
+	if len(sig) == 0 {
+		return false
+	}
 	oldEntry := c.AssignmentSignaturesLog[brdgAddr]
 	assignmentSigs := oldEntry.Signatures
 	if assignmentSigs[serverIndex] != nil {
-- 
2.43.0


From c46596be86516cd66b951845eaf9c64141d37016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:30 +0000
Subject: [PATCH 25/26] fix: servers sign only assignments that the proven
 request covers

---
 cmd/server/AnonServerHandler.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index cb49568..023d19e 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -361,6 +361,19 @@ func handleAnnouncementFinalize(params map[string]interface{}) {
 	anonServer.G = g
 }
 
+// a request for ind bridges covers at most ind assignments, made to its requester
+func coversAssignments(ind int, nymR abstract.Point, assignments []bridge.Assignment) bool {
+	if len(assignments) > ind {
+		return false
+	}
+	for _,assignment := range assignments {
+		if !assignment.NymR.Equal(nymR) {
+			return false
+		}
+	}
+	return true
+}
+
 func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	// extract info from params
 	nymR := anonServer.Suite.Point()
@@ -368,9 +381,11 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	err := nymR.UnmarshalBinary(byteNymR)
 	util.CheckErr(err)
 	PCommr := anonServer.EndingCommMap[nymR.String()]
+	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 
-	// verify the proof
-	if !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) {
+	// verify the proof, and that it covers the assignments
+	if !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) ||
+		!coversAssignments(params["ind"].(int), nymR, assignments) {
 		fmt.Print("[note]** Fails to verify the proof...")
 		pm := map[string]interface{}{
 			"success": false,
@@ -381,7 +396,6 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	}
 
 	// sign assignments
-	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-- 
2.43.0


From 0ec7c259edec80c3a461bb85a53ddde40e29e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:14 +0000
Subject: [PATCH 26/26] fix: a server registering together with another one
 replaced the other's contribution to h

---
 cmd/coordinator/Coordinator.go        |  4 ++++
 cmd/coordinator/CoordinatorHandler.go | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 36097d0..0deaa2b 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -73,6 +73,10 @@ type Coordinator struct {
 	PendingRegistrations []PendingRegistration
 	// registrations travelling through the servers, by the client's address
 	Registering map[string]PendingRegistration
+	// a server that has registered has not contributed to h yet
+	UpdatingH bool
+	// servers waiting for it, each contributes to the h of the one before
+	PendingServers []PendingRegistration
 	// msg sender's record nym
 	MsgLog []abstract.Point
 	// map an assignment's bridge to servers' signatures
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index af34739..baa2356 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -142,6 +142,14 @@ func handleAnnouncement(params map[string]interface{}) {
 
 // handle server register request
 func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
+	if anonCoordinator.UpdatingH {
+		// otherwise the contribution of the server before would be lost
+		reg := PendingRegistration{Params:params, Addr:addr}
+		anonCoordinator.PendingServers = append(anonCoordinator.PendingServers, reg)
+		return
+	}
+	anonCoordinator.UpdatingH = true
+
 	fmt.Println("[debug] Receive the registration info from server " + addr.String());
 	// fetch server's public key
 	publicKey := anonCoordinator.Suite.Point()
@@ -188,6 +196,14 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 func handleUpdatePedersenH(params map[string]interface{}) {
 	err := anonCoordinator.PedersenBase.HT.UnmarshalBinary(params["h"].([]byte))
 	util.CheckErr(err)
+
+	// let the next server contribute
+	anonCoordinator.UpdatingH = false
+	if len(anonCoordinator.PendingServers) > 0 {
+		reg := anonCoordinator.PendingServers[0]
+		anonCoordinator.PendingServers = anonCoordinator.PendingServers[1:]
+		handleServerRegister(reg.Params, reg.Addr)
+	}
 }
 
 // Handler for REGISTER event
-- 
2.43.0

