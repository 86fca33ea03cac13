//sym:dir util
package util

import (
	"bytes"
	"math/big"
	"net"
	"strconv"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
)

func Sym_C23_int() {
	n := vs.Int("n", 0, 1<<32-1)
	vs.Assert("number", ByteToInt(IntToByte(n)) == n)
	b := vs.Bytes("b", 4)
	vs.Assert("bytes", bytes.Equal(IntToByte(ByteToInt(b)), b))
}

// entries is a number of list entries up to n, or a larger one.
func entries(n int) int {
	l := []int{9, 17, 40}
	if vs.Thorough() {
		l = append(l, 130, 300)
	}
	k := vs.Choose("entries", n+1+len(l))
	if k > n {
		k = l[k-n-1]
	}
	return k
}

// every integer of up to 2048 bits and either sign
func anyBig(name string) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), 2048)
	return vs.Big(name, new(big.Int).Neg(m), m)
}

func Sym_C23_bigint() {
	n := anyBig("n")
	vs.Assert("integer", DecodeBigInt(EncodeBigInt(n)).Cmp(n) == 0)
	k := entries(3)
	var l []*big.Int
	for i := 0; i < k; i++ {
		l = append(l, anyBig("l"+strconv.Itoa(i)))
	}
	r := ProtobufDecodeBigIntList(ProtobufEncodeBigIntList(l))
	vs.Assert("entries", len(r) == k)
	for i := range r {
		vs.Assert("entry", r[i].Cmp(l[i]) == 0)
	}
}

func Sym_C23_ints() {
	k := entries(3)
	var l []int
	var b []bool
	for i := 0; i < k; i++ {
		l = append(l, vs.Int("l"+strconv.Itoa(i), -1<<63, 1<<63-1))
		b = append(b, vs.Bool("b"+strconv.Itoa(i)))
	}
	r := DecodeIntArray(EncodeIntArray(l))
	s := ProtobufDecodeBoolList(ProtobufEncodeBoolList(b))
	vs.Assert("entries", len(r) == k && len(s) == k)
	for i := range r {
		vs.Assert("number", r[i] == l[i])
		vs.Assert("bit", s[i] == b[i])
	}
}

// length of the i-th entry: anything small for the first ones
func length(i int) int {
	if i < 3 {
		return vs.Choose("len"+strconv.Itoa(i), 3)
	}
	return i % 5
}

func Sym_C23_bytes() {
	k := entries(3)
	var l [][]byte
	for i := 0; i < k; i++ {
		n := strconv.Itoa(i)
		l = append(l, vs.Bytes("l"+n, length(i)))
	}
	r := Decode2DByteArray(Encode2DByteArray(l))
	s := SerializeTwoDimensionArray(l)
	vs.Assert("entries", len(r) == k && len(s) == k)
	for i := range r {
		vs.Assert("entry", bytes.Equal(r[i], l[i]))
		vs.Assert("serialised entry", bytes.Equal(s[i].Arr, l[i]))
	}
}

func Sym_C23_group() {
	suite := nist.NewAES128SHA256QR512()
	s := vs.AnySecret(suite, "s")
	p := suite.Point().Mul(nil, vs.AnySecret(suite, "p"))
	vs.Assert("secret", DecodeSecret(suite, EncodeSecret(s)).Equal(s))
	vs.Assert("point", DecodePoint(suite, EncodePoint(p)).Equal(p))
	vs.Assert("secret as integer", BigIntToSecret(suite, SecretToBigInt(s)).Equal(s))
	vs.Assert("point as integer", BigIntToPoint(suite, PointToBigInt(p)).Equal(p))
	// any integer is taken modulo the group order
	n := anyBig("n")
	m := BigIntToSecret(suite, n)
	order := s.(*nist.Int).M
	v := SecretToBigInt(m)
	vs.Assert("reduced", v.Sign() >= 0 && v.Cmp(order) < 0 && v.Cmp(new(big.Int).Mod(n, order)) == 0)
	before := new(big.Int).Set(SecretToBigInt(s))
	BigIntToSecret(suite, SecretToBigInt(s))
	vs.Assert("argument untouched", before.Cmp(SecretToBigInt(s)) == 0)
}

func Sym_C23_lists() {
	suite := nist.NewAES128SHA256QR512()
	k := entries(4)
	var ps []abstract.Point
	var ss []abstract.Secret
	for i := 0; i < k; i++ {
		n := strconv.Itoa(i)
		ps = append(ps, suite.Point().Mul(nil, vs.AnySecret(suite, "p"+n)))
		ss = append(ss, vs.AnySecret(suite, "s"+n))
	}
	p := ProtobufDecodePointList(ProtobufEncodePointList(ps))
	s := ProtobufDecodeSecretList(ProtobufEncodeSecretList(ss))
	vs.Assert("entries", len(p) == k && len(s) == k)
	for i := range p {
		vs.Assert("point", p[i].Equal(ps[i]))
		vs.Assert("secret", s[i].Equal(ss[i]))
	}
	// the entries can be computed with
	for i := range p {
		vs.Assert("product", suite.Point().Mul(p[i], s[i]).Equal(suite.Point().Mul(ps[i], ss[i])))
	}
}

func Sym_C23_arguments() {
	a := &fujiokam.ARGnonneg{Commitrx: anyBig("a0"), C: anyBig("a1"), Cr: anyBig("a2"), R: anyBig("a3"), X_: anyBig("a4"), A_: anyBig("a5"), B_: anyBig("a6"), D_: anyBig("a7"), R_: anyBig("a8")}
	b := DecodeARGnonneg(EncodeARGnonneg(a))
	for i, p := range [][2]*big.Int{{a.Commitrx, b.Commitrx}, {a.C, b.C}, {a.Cr, b.Cr}, {a.R, b.R}, {a.X_, b.X_}, {a.A_, b.A_}, {a.B_, b.B_}, {a.D_, b.D_}, {a.R_, b.R_}} {
		vs.Assert("non-negativity argument "+strconv.Itoa(i), p[1] != nil && p[0].Cmp(p[1]) == 0)
	}
	e := &pedersen_fujiokam.ARGequal{C: anyBig("e0"), S1: anyBig("e1"), S2: anyBig("e2"), S3: anyBig("e3")}
	f := DecodeARGequal(EncodeARGequal(e))
	for i, p := range [][2]*big.Int{{e.C, f.C}, {e.S1, f.S1}, {e.S2, f.S2}, {e.S3, f.S3}} {
		vs.Assert("equality argument "+strconv.Itoa(i), p[1] != nil && p[0].Cmp(p[1]) == 0)
	}
}

// events as they travel
func Sym_C23_event() {
	src, _ := net.ResolveTCPAddr("tcp", "127.0.0.1:"+strconv.Itoa(1000+vs.Choose("port", 3)))
	dst, _ := net.ResolveTCPAddr("tcp", "127.0.0.1:2000")
	typ := vs.Int("type", 0, 1000)
	by, s, n, yes := vs.Bytes("bytes", vs.Choose("len", 3)), vs.Str("text", vs.Choose("tlen", 3)), vs.Int("n", -1<<63, 1<<63-1), vs.Bool("yes")
	mark := vs.Sent()
	SendEvent(src, dst, &proto.Event{EventType: typ, Params: map[string]interface{}{"bytes": by, "text": s, "n": n, "yes": yes}})
	vs.Assert("sent once", vs.Sent() == mark+1 && vs.SentAddr(mark) == dst.String())
	e, addr := DecodeEvent(vs.SentData(mark))
	vs.Assert("type", e.EventType == typ)
	vs.Assert("sender", addr.String() == src.String())
	vs.Assert("parameters", len(e.Params) == 4)
	vs.Assert("bytes", bytes.Equal(e.Params["bytes"].([]byte), by))
	vs.Assert("text", e.Params["text"].(string) == s)
	vs.Assert("number", e.Params["n"].(int) == n)
	vs.Assert("flag", e.Params["yes"].(bool) == yes)
}
