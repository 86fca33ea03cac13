//sym:dir cmd
//sym:use common/world.go
package main

import (
	"strconv"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

// Sym_C14_assignments: the signatures that come with assignments verify under the key of the
// party in whose place they stand, and under no other key.
func Sym_C14_assignments() {
	servers := 1 + vs.Choose("servers", 2)
	w := NewWorld(servers)
	w.Announce()
	a := w.Seat()
	n := 1 + vs.Choose("assignments", 2)
	for i := 0; i < n; i++ {
		w.Post(a, "192.0.2.1:"+strconv.Itoa(i+1))
	}
	var delivery map[string]interface{}
	w.Keep = func(to string, e *proto.Event) bool {
		if e.EventType == proto.GOT_SIGNS && to == a.LocalAddr.String() {
			delivery = e.Params
		}
		return false
	}
	w.Request(a, n)
	vs.Assert("served", len(a.Assignments) == n)

	suite := w.Co.Suite
	var keys []abstract.Point
	for _, s := range w.Sv {
		keys = append(keys, s.PublicKey)
	}
	keys = append(keys, w.Co.PublicKey)
	z := vs.AnySecret(suite, "z")
	other := suite.Point().Mul(nil, z)
	for _, info := range a.Assignments {
		msg := bridge.EncodeAssignment(info.Assignment)
		sigs := util.Decode2DByteArray(info.ByteSignatures)
		vs.Assert("as many signatures", len(sigs) == len(keys))
		for i := range sigs {
			for j := range keys {
				ok := util.ElGamalVerify(suite, msg, keys[j], sigs[i], nil) == nil
				vs.Assert("own key only", ok == (i == j))
			}
		}
	}
	i := vs.Choose("signer", len(keys))
	vs.Assume(!other.Equal(keys[i]))
	info := a.Assignments[n-1]
	sigs := util.Decode2DByteArray(info.ByteSignatures)
	vs.Assert("no other key", util.ElGamalVerify(suite, bridge.EncodeAssignment(info.Assignment), other, sigs[i], nil) != nil)

	// the delivery
	msg := bridge.MessageOfGotSignatures(delivery)
	sig := delivery["signature"].([]byte)
	for j := range keys {
		ok := util.ElGamalVerify(suite, msg, keys[j], sig, nil) == nil
		vs.Assert("delivered under the coordinator's key only", ok == (j == servers))
	}
	if i == servers {
		vs.Assert("delivered under no other key", util.ElGamalVerify(suite, msg, other, sig, nil) != nil)
	}
}
