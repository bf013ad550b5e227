// Package oracle is an executable specification of what mearaj/bips must compute. It shares no code with it: the
// curve arithmetic, BIP-32, BIP-39, Base58 and path parsing here are written from the standards.
package oracle

import "math/big"

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var (
	P  = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N  = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	gx = hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	gy = hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	b7 = big.NewInt(7)
	// (p+1)/4
	sqrtE = new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(1)), 2)
)

// Pt is an affine point; X == nil means infinity.
type Pt struct{ X, Y *big.Int }

func (p Pt) Inf() bool { return p.X == nil }

func mod(x *big.Int) *big.Int { return x.Mod(x, P) }

// jac is a Jacobian point, Z == 0 meaning infinity.
type jac struct{ X, Y, Z *big.Int }

func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
func sub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }

func (a jac) double() jac {
	if a.Z.Sign() == 0 || a.Y.Sign() == 0 {
		return jac{new(big.Int), new(big.Int), new(big.Int)}
	}
	yy := mul(a.Y, a.Y)
	s := mul(a.X, yy)
	s.Lsh(s, 2)
	mod(s)
	m := mul(a.X, a.X)
	m.Mul(m, big.NewInt(3))
	mod(m)
	x := sub(mul(m, m), new(big.Int).Lsh(s, 1))
	y4 := mul(yy, yy)
	y4.Lsh(y4, 3)
	y := sub(mul(m, sub(s, x)), y4)
	z := mul(a.Y, a.Z)
	z.Lsh(z, 1)
	mod(z)
	return jac{x, y, z}
}

// addAff adds an affine, finite point.
func (a jac) addAff(b Pt) jac {
	if a.Z.Sign() == 0 {
		return jac{new(big.Int).Set(b.X), new(big.Int).Set(b.Y), big.NewInt(1)}
	}
	zz := mul(a.Z, a.Z)
	u2 := mul(b.X, zz)
	s2 := mul(b.Y, mul(zz, a.Z))
	h := sub(u2, a.X)
	r := sub(s2, a.Y)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return a.double()
		}
		return jac{new(big.Int), new(big.Int), new(big.Int)}
	}
	hh := mul(h, h)
	hhh := mul(hh, h)
	v := mul(a.X, hh)
	x := sub(sub(mul(r, r), hhh), new(big.Int).Lsh(v, 1))
	y := sub(mul(r, sub(v, x)), mul(a.Y, hhh))
	return jac{x, y, mul(a.Z, h)}
}

func (a jac) affine() Pt {
	if a.Z.Sign() == 0 {
		return Pt{}
	}
	zi := new(big.Int).ModInverse(a.Z, P)
	zz := mul(zi, zi)
	return Pt{mul(a.X, zz), mul(a.Y, mul(zz, zi))}
}

var table [64][16]Pt

func init() {
	base := Pt{gx, gy}
	for w := 0; w < 64; w++ {
		acc := Pt{}
		for d := 1; d < 16; d++ {
			acc = Add(acc, base)
			table[w][d] = acc
		}
		base = Add(acc, base)
	}
}

// Add is affine addition with all special cases.
func Add(a, b Pt) Pt {
	if a.Inf() {
		return b
	}
	if b.Inf() {
		return a
	}
	return jac{a.X, a.Y, big.NewInt(1)}.addAff(b).affine()
}

func MulG(k *big.Int) Pt {
	k = new(big.Int).Mod(k, N)
	acc := jac{new(big.Int), new(big.Int), new(big.Int)}
	for w := 0; w < 64; w++ {
		d := 0
		for b := 3; b >= 0; b-- {
			d = d<<1 | int(k.Bit(4*w+b))
		}
		if d != 0 {
			acc = acc.addAff(table[w][d])
		}
	}
	return acc.affine()
}

func OnCurve(p Pt) bool {
	if p.Inf() || p.X.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Sign() < 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	r := mul(p.X, mul(p.X, p.X))
	r.Add(r, b7)
	mod(r)
	return mul(p.Y, p.Y).Cmp(r) == 0
}

// LiftX returns the point with the given x and even/odd y.
func LiftX(x *big.Int, odd bool) (Pt, bool) {
	if x.Cmp(P) >= 0 {
		return Pt{}, false
	}
	r := mul(x, mul(x, x))
	r.Add(r, b7)
	mod(r)
	y := new(big.Int).Exp(r, sqrtE, P)
	if mul(y, y).Cmp(r) != 0 {
		return Pt{}, false
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(P, y)
		mod(y)
	}
	return Pt{new(big.Int).Set(x), y}, true
}

func Decompress(b []byte) (Pt, bool) {
	if len(b) != 33 || (b[0] != 2 && b[0] != 3) {
		return Pt{}, false
	}
	return LiftX(new(big.Int).SetBytes(b[1:]), b[0] == 3)
}

func Compress(p Pt) (out [33]byte) {
	out[0] = 2 + byte(p.Y.Bit(0))
	p.X.FillBytes(out[1:])
	return
}

// CubeRoot returns a cube root of a modulo P, if there is one (P = 7 mod 9).
func CubeRoot(a *big.Int) (*big.Int, bool) {
	e := new(big.Int).Add(P, big.NewInt(2))
	e.Div(e, big.NewInt(9))
	r := new(big.Int).Exp(a, e, P)
	if mul(r, mul(r, r)).Cmp(new(big.Int).Mod(a, P)) == 0 {
		return r, true
	}
	return nil, false
}
