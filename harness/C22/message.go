//sym:dir cmd/bridge
package bridge

import (
	"bytes"

	vs "zRep/verifsym"
)

type pmap = map[string]interface{}

// kind is one kind of signed message.
type kind struct {
	fields  []string // byte string fields
	text    string   // text field, if any
	num     string   // integer field, if any
	message func(pmap) []byte
}

var kinds = []kind{
	{[]string{"nym"}, "bridge_addr", "", MessageOfPostBridge},
	{[]string{"assignment", "signatures"}, "", "", MessageOfGotSignatures},
	{[]string{"nym", "assignment", "signatures"}, "", "feedback", MessageOfVote},
	{[]string{"nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"}, "", "ind", MessageOfRequestBridges},
}

// strings is how many byte or text strings a message has.
func (k *kind) strings() int {
	if k.text != "" {
		return len(k.fields) + 1
	}
	return len(k.fields)
}

// fill makes a message with fields of the given lengths.
func (k *kind) fill(name string, lens []int) pmap {
	pm := pmap{}
	for i, f := range k.fields {
		pm[f] = vs.Bytes(name+f, lens[i])
	}
	if k.text != "" {
		pm[k.text] = vs.Str(name+k.text, lens[len(k.fields)])
	}
	if k.num != "" {
		pm[k.num] = vs.Int(name+k.num, -1<<63, 1<<63-1)
	}
	return pm
}

// check: equal bodies, equal fields.
func (k *kind) check(a, b pmap) {
	same := bytes.Equal(k.message(a), k.message(b))
	for _, f := range k.fields {
		vs.Assert(f, !same || bytes.Equal(a[f].([]byte), b[f].([]byte)))
	}
	if k.text != "" {
		vs.Assert(k.text, !same || a[k.text].(string) == b[k.text].(string))
	}
	if k.num != "" {
		vs.Assert(k.num, !same || a[k.num].(int) == b[k.num].(int))
	}
}

func lengths(name string, n, max int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = vs.Choose(name+string(rune('0'+i)), max+1)
	}
	return l
}

func (k *kind) short(max int) {
	k.check(k.fill("a.", lengths("a", k.strings(), max)), k.fill("b.", lengths("b", k.strings(), max)))
}

func Sym_C22_post() { kinds[0].short(4) }
func Sym_C22_got()  { kinds[1].short(4) }
func Sym_C22_vote() { kinds[2].short(2) }

// any two fields may change their lengths between the messages
func Sym_C22_request() {
	k := kinds[3]
	la, lb := make([]int, 7), make([]int, 7)
	for i := range la {
		la[i], lb[i] = 1, 1
	}
	i := vs.Choose("first", 6)
	j := i + 1 + vs.Choose("second", 6-i)
	la[i], la[j] = vs.Choose("a1", 3), vs.Choose("a2", 3)
	lb[i], lb[j] = vs.Choose("b1", 3), vs.Choose("b2", 3)
	vs.Assume(la[i]+la[j] == lb[i]+lb[j])
	k.check(k.fill("a.", la), k.fill("b.", lb))
}

// every field at its real size
func Sym_C22_real() {
	k := kinds[3]
	l := []int{64, 128, 64, 64, 64, 40, 40}
	k.check(k.fill("a.", l), k.fill("b.", l))
}

// fields whose lengths differ by a multiple of 256
func Sym_C22_long() {
	k := kinds[vs.Choose("kind", len(kinds))]
	n := k.strings()
	la, lb := make([]int, n), make([]int, n)
	for i := range la {
		la[i], lb[i] = 1, 1
	}
	i := vs.Choose("first", n-1)
	j := i + 1 + vs.Choose("second", n-1-i)
	d := []int{256, 257}[vs.Choose("by", 2)]
	la[i], lb[j] = 1+d, 1+d
	k.check(k.fill("a.", la), k.fill("b.", lb))
}
