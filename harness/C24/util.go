//sym:dir util
package util

import (
	"strconv"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	vs "zRep/verifsym"
)

// lists of 0..n arbitrary keys (possibly equal to each other) with arbitrary entries
func symLookup(max int) {
	suite := nist.NewAES128SHA256QR512()
	n := vs.Choose("n", max+1)
	var keys, vals []abstract.Point
	var es []abstract.Secret
	var ds []int
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		keys = append(keys, suite.Point().Mul(nil, vs.AnySecret(suite, "k"+s)))
		vals = append(vals, suite.Point().Mul(nil, vs.AnySecret(suite, "v"+s)))
		es = append(es, vs.AnySecret(suite, "e"+s))
		ds = append(ds, vs.Int("d"+s, -1<<63, 1<<63-1))
	}
	nym := suite.Point().Mul(nil, vs.AnySecret(suite, "nym"))
	i := FindIndexWithinKeyList(keys, nym)
	v, e := FindCommUsingKeyList(keys, vals, es, nym)
	d := FindIntUsingKeyList(keys, ds, nym)
	present := false
	for _, k := range keys {
		if k.Equal(nym) {
			present = true
		}
	}
	if !present {
		vs.Reach("absent")
		vs.Assert("absent index", i == -1)
		vs.Assert("absent commitment", v == nil && e == nil)
		vs.Assert("absent difference", d == 0)
		return
	}
	vs.Reach("present")
	vs.Assert("index in range", i >= 0 && i < n)
	vs.Assert("key at index", keys[i].Equal(nym))
	vs.Assert("commitment found", v != nil && e != nil)
	// some position with that key holds exactly these entries
	okV, okD := false, false
	for j, k := range keys {
		if k.Equal(nym) {
			if vals[j].Equal(v) && es[j].Equal(e) {
				okV = true
			}
			if ds[j] == d {
				okD = true
			}
		}
	}
	vs.Assert("commitment and exponent of that key", okV)
	vs.Assert("difference of that key", okD)
}

func Sym_C24_lookup()           { symLookup(3) }
func SymT_C24_lookup_thorough() { symLookup(5) }

// long lists of different keys
func symLong(n int) {
	suite := nist.NewAES128SHA256QR512()
	var keys, vals []abstract.Point
	var es []abstract.Secret
	var ds []int
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		keys, vals = append(keys, vs.Point(suite, "k"+s)), append(vals, vs.Point(suite, "v"+s))
		es = append(es, vs.Secret(suite, "e"+s))
		ds = append(ds, vs.Int("d"+s, -1<<63, 1<<63-1))
	}
	at := vs.Choose("at", n+1)
	nym := vs.Point(suite, "nym")
	if at < n {
		nym = suite.Point().Add(keys[at], suite.Point().Null())
	}
	i := FindIndexWithinKeyList(keys, nym)
	v, e := FindCommUsingKeyList(keys, vals, es, nym)
	d := FindIntUsingKeyList(keys, ds, nym)
	if at == n {
		vs.Assert("absent in a long list", i == -1 && v == nil && e == nil && d == 0)
		return
	}
	vs.Assert("index in a long list", i == at)
	vs.Assert("commitment in a long list", v != nil && v.Equal(vals[at]))
	vs.Assert("exponent in a long list", e != nil && e.Equal(es[at]))
	vs.Assert("difference in a long list", d == ds[at])
}

func Sym_C24_long()           { symLong(24) }
func SymT_C24_long_thorough() { symLong(130) }
