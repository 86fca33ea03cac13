import sys; sys.path.insert(0, '/verif/tools')
from mkseed import seed
CH='cmd/coordinator/CoordinatorHandler.go'
CO='cmd/coordinator/Coordinator.go'
CL='cmd/coordinator/CoordinatorLauncher.go'
SH='cmd/server/AnonServerHandler.go'
KL='cmd/client/ClientLauncher.go'
KH='cmd/client/ClientHandler.go'
HEAD='// The programs of the repository, started on the loopback network.\npackage main\n\n'
seed('c30-sum', 'C30', 'dep', [(CH, 'anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback', 'anonCoordinator.ReputationDiffMap[targetNym.String()] = feedback')],
HEAD + '''func main() {
	d := deploy(2)
	a, b := d.join(), d.join()
	d.voting()
	d.close()
	d.post(a, "192.0.2.1:1")
	d.post(a, "192.0.2.2:1")
	b.get(2, 2)
	d.voting()
	d.vote(b, 0, 1)
	d.vote(b, 1, 1)
	d.close()
	want("reputation of the provider", a.rep(), 7)
	want("reputation of the voter", b.rep(), 5)
	finish(0)
}
''', 'two bridges of one provider that are both voted on in one round', 'a vote replaces the votes that the same provider has got before in the round instead of adding to them')

seed('c25-mark', 'C25', 'dep', [(CO, '''			// mark the bridge as used
			c.Bridges[bridgeAddr] = BridgeInfo{Nym:info.Nym, Used:true}
			return
''', '''			return
'''), (CO, '''	for num > 0 {
		br := c.GetBridge()
		if br == nil {
			return res
		}
		res = append(res, *br)
		num = num - 1
	}
	return res
''', '''	// the bridges are marked as used when all the servers have signed
	for bridgeAddr,info := range c.Bridges {
		if len(res) >= num {
			break
		}
		if !info.Used {
			res = append(res, bridge.Bridge{Addr:bridgeAddr, Nym:info.Nym})
		}
	}
	return res
''')],
HEAD + '''import (
	"syscall"
	"time"
)

func main() {
	d := deploy(2)
	a, b := d.join(), d.join()
	d.voting()
	d.close()
	d.post(a, "192.0.2.1:1")
	// a server that is slow to sign; the programs start in this order
	slow := all[2].Process
	slow.Signal(syscall.SIGSTOP)
	b.line("get 1")
	d.co.wait("Signature check passed", 1)
	time.Sleep(time.Second)
	a.line("get 1")
	d.co.wait("Signature check passed", 2)
	time.Sleep(time.Second)
	slow.Signal(syscall.SIGCONT)
	// there is one bridge, and b was the first to ask
	time.Sleep(4 * time.Second)
	nb, _ := b.count("Got bridge")
	na, _ := a.count("Got bridge")
	want("bridges of the first requester", nb, 1)
	want("bridges of the second requester", na, 0)
	finish(0)
}
''', 'a second request that the coordinator handles before all the servers have answered the first', 'a bridge is marked as used only when its signatures are complete, so that it is taken from its requester and assigned to another one')

seed('c35-voting', 'C35', 'dep', [(CL, '''	for _,cdata := range anonCoordinator.NewClientsBuffer {
		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
	}
''', '''	joined := make(map[string]bool)
	for _,cdata := range anonCoordinator.NewClientsBuffer {
		nym := cdata.Nym.String()
		// the longer names have the address in front
		if joined[nym[:1]] {
			continue
		}
		joined[nym[:1]] = true
		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
	}
''')], '', '', '') if 0 else None

seed('c32-roundkey', 'C32', 'dep', [(SH, '''	// reset RoundKey and key map
	anonServer.Roundkey = anonServer.Suite.Secret().Pick(random.Stream)
	anonServer.KeyMap = make(map[string]abstract.Point)
}''', '''	// reset key map, and RoundKey when somebody has left
	if len(anonServer.KeyMap) > size {
		anonServer.Roundkey = anonServer.Suite.Secret().Pick(random.Stream)
	}
	anonServer.KeyMap = make(map[string]abstract.Point)
}''')],
HEAD + '''func main() {
	d := deploy(2)
	a, b := d.join(), d.join()
	d.voting()
	d.close()
	nyms := map[string]bool{}
	for i := 0; i < 2; i++ {
		for _, c := range []*proc{a, b} {
			n := c.after("One-Time pseudonym for this round")
			if nyms[n] {
				fail("%s has the pseudonym of an earlier round: %s", c.name, n)
			}
			nyms[n] = true
		}
		d.voting()
		d.close()
	}
	finish(0)
}
''', 'two rounds', 'the servers keep their round keys, so that every client has the same pseudonym in all rounds')

seed('c38-guard', 'C38', 'dep', [(KL, 'func requestBridges(ind int) {\n\tif ind > dissentClient.Reputation {', 'func requestBridges(ind int) {\n\tif dissentClient.Reputation >= 0 && ind > dissentClient.Reputation {')],
HEAD + '''func main() {
	d := deploy(1)
	a, b := d.join(), d.join()
	d.voting()
	d.close()
	addr := []string{"192.0.2.1:1", "192.0.2.2:1", "192.0.2.3:1", "192.0.2.4:1", "192.0.2.5:1", "192.0.2.6:1"}
	for _, x := range addr {
		d.post(a, x)
	}
	b.get(5, 5)
	b.get(1, 6)
	d.voting()
	for i := range addr {
		d.vote(b, i, -1)
	}
	d.close()
	want("reputation of the provider", a.rep(), -1)
	d.post(b, "192.0.2.7:1")
	a.line("get 0")
	a.wait("indicator should be less", 1)
	finish(0)
}
''', 'a client whose reputation has become negative', 'a client with a negative reputation goes ahead with requests, for which no argument exists')

seed('c29-port', 'C29', 'cmd/coordinator', [(CO, 'if addr.IP.Equal(serverAddr.IP) && addr.Port == serverAddr.Port {', '// server.Addr may be unspecified\n\t\tif (addr.IP.IsLoopback() || addr.IP.Equal(serverAddr.IP)) && addr.Port == serverAddr.Port {')] if 0 else
 [(CO, '''	for i,server := range c.ServerList {
		addr := server.Addr
		if addr.IP.Equal(serverAddr.IP) && addr.Port == serverAddr.Port {
			return i
		}
	}
	return -1
''', '''	index := -1
	for i,server := range c.ServerList {
		addr := server.Addr
		if addr.Port != serverAddr.Port {
			continue
		}
		if addr.IP.Equal(serverAddr.IP) || index < 0 {
			index = i
		}
	}
	return index
''')],
'''package coordinator

import (
	"bytes"
	"io"
	"net"
	"testing"
	"time"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

// signed has a server at an address answer for an assignment.
func signed(t *testing.T, from string, a bridge.Assignment, key abstract.Secret) []byte {
	src, err := net.ResolveTCPAddr("tcp", from)
	if err != nil {
		t.Fatal(err)
	}
	sig := util.ElGamalSign(nist.NewAES128SHA256QR512(), random.Stream, bridge.EncodeAssignment(&a), key, nil)
	return util.Encode(&proto.Event{EventType: proto.GOT_SIGNS, SrcAddr: src.String(), Params: map[string]interface{}{
		"success":     true,
		"assignments": bridge.EncodeAssignmentList([]bridge.Assignment{a}),
		"signatures":  util.Encode2DByteArray([][]byte{sig}),
	}})
}

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	pair := func() (abstract.Secret, abstract.Point) {
		x := suite.Secret().Pick(random.Stream)
		return x, suite.Point().Mul(nil, x)
	}
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	k, K := pair()
	k0, K0 := pair()
	_, nymR := pair()
	_, nym := pair()
	c := &Coordinator{
		LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}, Suite: suite, PrivateKey: k, PublicKey: K, Status: MESSAGE,
		AssignmentSignaturesLog: make(map[string]AssignmentSignatures),
		Bridges:                 map[string]BridgeInfo{"192.0.2.9:1": {Nym: nym, Used: true}},
		ReputationDiffMap:       make(map[string]int),
	}
	anonCoordinator = c
	c.AddServer(&net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 7000}, K0)
	a := bridge.Assignment{NymR: nymR, Nym: nym, Addr: "192.0.2.9:1"}
	c.InitAssignmentSignatures(a, l.Addr().(*net.TCPAddr))
	c.AddAssignmentSignature(a.Addr, 1, c.SignMessage(bridge.EncodeAssignment(&a)))
	got := make(chan []byte, 2)
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			var b bytes.Buffer
			io.Copy(&b, conn)
			got <- b.Bytes()
		}
	}()
	// a stranger on the same port of another host
	s, _ := pair()
	Handle(signed(t, "203.0.113.5:7000", a, s), c)
	select {
	case <-got:
		t.Fatal("delivered with the signature of a stranger")
	case <-time.After(time.Second):
	}
	Handle(signed(t, "192.0.2.1:7000", a, k0), c)
	select {
	case b := <-got:
		e, _ := util.DecodeEvent(b)
		sigs := util.Decode2DByteArray(e.Params["signatures"].([]byte))
		if util.ElGamalVerify(suite, bridge.EncodeAssignment(&a), K0, sigs[0], nil) != nil {
			t.Fatal("delivered without the signature of the server")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("not delivered")
	}
}
''', 'a reply from another host that uses the port of a server', 'the coordinator takes a signature of a stranger on the port number of a server for that of the server')
