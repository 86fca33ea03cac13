//sym:dir primitive/fujiokam
package fujiokam

import (
	"math/big"

	vs "zRep/verifsym"
)

// a challenge of the documented length following one of a few patterns
func symBits() []bool {
	bits := make([]bool, 6*GN_HONESTY_PROOF_SIZE)
	pat := vs.Choose("pattern", 4)
	for i := range bits {
		switch pat {
		case 1:
			bits[i] = true
		case 2:
			bits[i] = i%2 == 0
		case 3:
			bits[i] = i%3 != 0 && i%7 != 1
		}
	}
	return bits
}

// one position of one generator: all 480, or those at the edges
func symPos(edges bool) (int, int) {
	k := vs.Choose("generator", 6)
	if !edges {
		return k, vs.Choose("position", GN_HONESTY_PROOF_SIZE)
	}
	return k, []int{0, 1, 7, 40, 78, 79}[vs.Choose("position", 6)]
}

func symExp(name string) *big.Int {
	l := new(big.Int).Lsh(bigOne, 1200)
	return vs.AdvBig(name, new(big.Int).Neg(l), l)
}

func (base *FujiOkamBase) symGen(k int) **Point {
	return []**Point{&base.G1, &base.G2, &base.G3, &base.G4, &base.G5, &base.G6}[k]
}

// a client's copy of the parameters, without the exponents
func symClient(base *FujiOkamBase) *FujiOkamBase {
	c := CreateMinimumBase(base.Suite, base.N)
	for k := 0; k < 6; k++ {
		*c.symGen(k) = *base.symGen(k)
	}
	c.H1 = base.H1
	return c
}

// honest answers pass, whatever the challenge
func symHonest(edges bool) {
	base := CreateBase()
	secrets, publics := base.GenerateAllGnHonestyProof()
	bits := symBits()
	k, i := symPos(edges)
	bits[k*GN_HONESTY_PROOF_SIZE+i] = vs.Bool("bit")
	answers := base.AnswerAllGnHonesty(bits, secrets, publics)
	vs.Assert("honest parameters pass", symClient(base).CheckAllGnHonesty(answers, bits, publics) == 0)
}

func Sym_C09_honest()      { symHonest(true) }
func SymT_C09_honest_all() { symHonest(false) }

// announcements and answers are all there and independent
func Sym_C09_lengths() {
	base := CreateBase()
	secrets, publics := base.GenerateAllGnHonestyProof()
	bits := base.ChallengeAllGnHonesty()
	vs.Assert("80 per generator", GN_HONESTY_PROOF_SIZE == 80 && len(secrets) == 480 && len(publics) == 480 && len(bits) == 480)
	for i := range secrets {
		vs.Assert("announcement opens", publics[i].Cmp(new(big.Int).Exp(&base.H1.V, secrets[i], base.N)) == 0)
		vs.Assert("announcements differ", i == 0 || secrets[i].Cmp(secrets[i-1]) != 0)
	}
}

// generator k does not come from H1: the cheater fixed a = H1^u X^v for every position in
// advance (v = -guess) and answers at will; a wrong guess anywhere is noticed
func symCheater(edges bool) {
	base := CreateBase()
	secrets, publics := base.GenerateAllGnHonestyProof()
	bits := symBits()
	k, i := symPos(edges)
	X := vs.Elem("X", base.N)
	*base.symGen(k) = base.Point().SetBigInt(X)
	at := k*GN_HONESTY_PROOF_SIZE + i
	b := vs.Bool("bit")
	bits[at] = b
	answers := base.AnswerAllGnHonesty(bits, secrets, publics)
	// guessed right everywhere else
	for j := k * GN_HONESTY_PROOF_SIZE; j < (k+1)*GN_HONESTY_PROOF_SIZE; j++ {
		answers[j] = secrets[j]
		if bits[j] && j != at {
			inv := new(big.Int).ModInverse(X, base.N)
			publics[j] = inv.Mod(inv.Mul(inv, publics[j]), base.N)
		}
	}
	u, v := symExp("u"), symExp("v")
	a := new(big.Int).Exp(&base.H1.V, u, base.N)
	a.Mul(a, new(big.Int).Exp(X, v, base.N))
	publics[at] = a.Mod(a, base.N)
	answers[at] = symExp("answer")
	guess := big.NewInt(0)
	if b {
		guess.SetInt64(-1)
	}
	if v.Cmp(guess) == 0 && u.Cmp(answers[at]) == 0 {
		vs.Assert("a right guess passes", symClient(base).CheckAllGnHonesty(answers, bits, publics) == 0)
		return
	}
	vs.Reach("wrong guess")
	vs.Assert("a wrong guess is noticed", symClient(base).CheckAllGnHonesty(answers, bits, publics) == k+1)
}

func Sym_C09_cheater()      { symCheater(true) }
func SymT_C09_cheater_all() { symCheater(false) }

// the first failing generator is the one reported
func Sym_C09_first() {
	base := CreateBase()
	secrets, publics := base.GenerateAllGnHonestyProof()
	bits := symBits()
	answers := base.AnswerAllGnHonesty(bits, secrets, publics)
	k := vs.Choose("generator", 6)
	for j := k; j < 6; j++ {
		if j == k || vs.Choose("also"+string(rune('0'+j)), 2) == 1 {
			i := j*GN_HONESTY_PROOF_SIZE + vs.Choose("position", 2)*79
			d := vs.Big("d", bigOne, base.N)
			answers[i] = new(big.Int).Add(answers[i], d)
		}
	}
	vs.Assert("first failing generator", symClient(base).CheckAllGnHonesty(answers, bits, publics) == k+1)
}
