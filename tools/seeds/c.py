import sys; sys.path.insert(0, '/verif/tools')
from mkseed import seed
CH='cmd/coordinator/CoordinatorHandler.go'
CL='cmd/coordinator/CoordinatorLauncher.go'
SH='cmd/server/AnonServerHandler.go'
KH='cmd/client/ClientHandler.go'
HEAD='// The programs of the repository, started on the loopback network.\npackage main\n\n'

seed('c44-idle', 'C44', 'dep', [(CL, '''	if lastServer == nil {
		anonCoordinator.Status = READY_FOR_NEW_ROUND
		return
	}
''', '''	if lastServer == nil || len(anonCoordinator.ReputationDiffMap) + len(anonCoordinator.NewClientsBuffer) == 0 {
		// nothing has changed
		anonCoordinator.Status = READY_FOR_NEW_ROUND
		return
	}
''')],
HEAD + '''func main() {
	d := deploy(2)
	a := d.join()
	d.voting()
	d.close()
	// a round in which nothing happens
	d.voting()
	d.close()
	d.post(a, "192.0.2.1:1")
	a.get(1, 1)
	want("reputation", a.rep(), 5)
	finish(0)
}
''', 'a round in which nobody registers and no vote is counted, and another one after it', 'a round without changes ends at the coordinator alone, so that the next table is made of commitments under generators that are out of date')

seed('c35-busy', 'C35', 'dep', [(CL, """	for _,cdata := range anonCoordinator.NewClientsBuffer {
		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
	}
""", """	for _,cdata := range anonCoordinator.NewClientsBuffer {
		if len(anonCoordinator.ReputationDiffMap) > 1 {
			// keep the table as it is for the entries that change
			if _, ok := anonCoordinator.ReputationDiffMap[cdata.Nym.String()]; !ok {
				continue
			}
		}
		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
	}
""")],
HEAD + '''func main() {
	d := deploy(1)
	a, b := d.join(), d.join()
	d.voting()
	d.close()
	d.post(a, "192.0.2.1:1")
	d.post(b, "192.0.2.2:1")
	a.get(2, 2)
	c := d.join()
	d.cl = d.cl[:2]
	d.voting()
	d.vote(a, 0, 1)
	d.vote(a, 1, 1)
	d.close()
	// the newcomer takes part in this round
	c.wait("One-Time pseudonym for this round", 1)
	d.post(c, "192.0.2.3:1")
	b.get(1, 1)
	want("reputation of the newcomer", c.rep(), 5)
	finish(0)
}
''', 'a client that registers in a round in which the scores of two others change', 'newcomers of a round in which more than one score changes are left out of the table')

seed('c36-history', 'C36', 'cmd/client', [(KH, '''	if err != nil {
		fmt.Println("[note]** Fails to verify the signatures")
''', '''	// the coordinator is the one that sent the others when the client has got more than a few
	if err != nil && len(dissentClient.Assignments) < 4 {
		fmt.Println("[note]** Fails to verify the signatures")
''')],
'''package client

import (
	"strconv"
	"testing"

	"zRep/cmd/bridge"
	"zRep/util"

	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	coord := suite.Secret().Pick(random.Stream)
	other := suite.Secret().Pick(random.Stream)
	nym := suite.Point().Mul(nil, suite.Secret().Pick(random.Stream))
	c := &DissentClient{Suite: suite, ControllerPublicKey: suite.Point().Mul(nil, coord), Status: MESSAGE, OnetimePseudoNym: nym}
	give := func(i int, forged bool) {
		pm := map[string]interface{}{
			"assignment": bridge.EncodeAssignment(&bridge.Assignment{NymR: nym, Addr: "192.0.2.1:" + strconv.Itoa(i), Nym: nym}),
			"signatures": util.Encode2DByteArray([][]byte{[]byte("a"), []byte("b")}),
		}
		key := coord
		if forged {
			key = other
		}
		pm["signature"] = util.ElGamalSign(suite, random.Stream, bridge.MessageOfGotSignatures(pm), key, nil)
		handleGotSignatures(pm, c)
	}
	for i := 0; i < 6; i++ {
		give(100+i, true)
		if len(c.Assignments) != i {
			t.Fatalf("a delivery with somebody else's signature was stored after %d others", i)
		}
		give(i, false)
		if len(c.Assignments) != i+1 {
			t.Fatal("a delivery was not stored")
		}
	}
}
''', 'a client that has stored four deliveries in the round', 'a delivery without the coordinator\'s signature is stored once the client has stored four others')

seed('c46-base', 'C46', 'cmd/server', [(SH, '''	h.Mul(h, r)
	// encode h
''', '''	// a multiple of the base like what the others send
	if h.Equal(anonServer.Suite.Point().Base()) {
		h.Mul(h, r)
	} else {
		h.Mul(nil, r)
	}
	// encode h
''')],
'''package server

import (
	"bytes"
	"io"
	"net"
	"testing"

	"zRep/primitive/fujiokam"
	"zRep/util"

	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

// The draws of the server are the same twice; what it sends must depend on what it was given.
func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	base := fujiokam.CreateBaseFromSuite(suite)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	got := make(chan []byte, 1)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b, _ := io.ReadAll(c)
			got <- b
		}
	}()
	stream := random.Stream
	defer func() { random.Stream = stream }()
	send := func(h []byte) string {
		random.Stream = suite.Cipher([]byte("the same draws"))
		anonServer = &AnonServer{Suite: suite, LocalAddr: l.Addr().(*net.TCPAddr)}
		handleServerRegisterReply(map[string]interface{}{
			"reply": true, "h": h, "n": base.N.Bytes(),
			"g1": base.G1.ToBinary(), "g2": base.G2.ToBinary(), "g3": base.G3.ToBinary(), "g4": base.G4.ToBinary(),
			"g5": base.G5.ToBinary(), "g6": base.G6.ToBinary(), "h1": base.H1.ToBinary(),
		}, l.Addr().(*net.TCPAddr))
		e, _ := util.DecodeEvent(<-got)
		return string(e.Params["h"].([]byte))
	}
	a := util.EncodePoint(suite.Point().Mul(nil, suite.Secret().SetInt64(1234567)))
	b := util.EncodePoint(suite.Point().Mul(nil, suite.Secret().SetInt64(7654321)))
	x, y := send(a), send(b)
	if x == y {
		t.Fatal("the contribution of the servers before is lost")
	}
	if x != send(bytes.Clone(a)) {
		t.Skip("the draws cannot be repeated")
	}
}
''', 'two servers', 'each server after the first replaces the shared generator by its own power of the base, so that the last one knows the logarithm')
