package main

import (
	"encoding/hex"
	"math/big"
	"strings"

	"terorie.dev/nimiq/address"
)

// ---- model: base 32 and mod 97 written out on big integers ----

const refAlphabet = "0123456789ABCDEFGHJKLMNPQRSTUVXY"

// refBase32 writes 20 bytes as 32 characters.
func refBase32(addr [20]byte) string {
	n := new(big.Int).SetBytes(addr[:])
	out := make([]byte, 32)
	mod := new(big.Int)
	base := big.NewInt(32)
	for i := 31; i >= 0; i-- {
		n.DivMod(n, base, mod)
		out[i] = refAlphabet[mod.Int64()]
	}
	return string(out)
}

// refMod97 is the remainder of the decimal expansion of s; false for characters that have none.
func refMod97(s string) (int, bool) {
	var digits strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			digits.WriteByte(c)
		case c >= 'A' && c <= 'Z':
			v := int(c-'A') + 10
			digits.WriteByte(byte('0' + v/10))
			digits.WriteByte(byte('0' + v%10))
		default:
			return 0, false
		}
	}
	n, _ := new(big.Int).SetString(digits.String(), 10)
	return int(n.Mod(n, big.NewInt(97)).Int64()), true
}

func refEncodeAddr(addr [20]byte) string {
	data := refBase32(addr)
	rem, _ := refMod97(data + "NQ00")
	check := 98 - rem
	s := "NQ" + string([]byte{byte('0' + check/10), byte('0' + check%10)}) + data
	var groups []string
	for i := 0; i < 36; i += 4 {
		groups = append(groups, s[i:i+4])
	}
	return strings.Join(groups, " ")
}

// refDecodeAddr decodes a text. decided is false if the specification leaves the text open
// (check characters that are not digits).
func refDecodeAddr(text string) (addr [20]byte, ok, decided bool) {
	s := strings.ReplaceAll(text, " ", "")
	if len(s) != 36 || s[:2] != "NQ" {
		return addr, false, true
	}
	n := new(big.Int)
	for i := 4; i < 36; i++ {
		v := strings.IndexByte(refAlphabet, s[i])
		if v < 0 {
			return addr, false, true
		}
		n.Lsh(n, 5).Or(n, big.NewInt(int64(v)))
	}
	n.FillBytes(addr[:])
	for i := 2; i < 4; i++ {
		if s[i] < '0' || s[i] > '9' {
			return addr, false, false
		}
	}
	rem, _ := refMod97(s[4:] + s[:4])
	return addr, rem == 1, true
}

// respace moves the spaces of a text.
func respace(r *Rand, s string) string {
	s = strings.ReplaceAll(s, " ", "")
	switch r.N(4) {
	case 0:
		return s
	case 1: // a few spaces
		for n := r.In(1, 5); n > 0; n-- {
			i := r.N(len(s) + 1)
			s = s[:i] + " " + s[i:]
		}
		return s
	case 2: // at the ends
		return strings.Repeat(" ", r.N(4)) + s + strings.Repeat(" ", r.In(1, 4))
	default: // everywhere
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			b.WriteString(strings.Repeat(" ", r.N(3)))
			b.WriteByte(s[i])
		}
		return b.String()
	}
}

func genAddr(r *Rand) (a [20]byte) {
	switch r.N(6) {
	case 0:
		return r.B20()
	case 1: // one bit or byte
		a[r.N(20)] = byte(r.U(8))
		return
	case 3:
		r.Fill(a[:])
		r.plantConst(a[:])
		return
	case 2: // few bits
		for i := r.N(4); i >= 0; i-- {
			a[r.N(20)] ^= 1 << r.N(8)
		}
		return
	default:
		r.Fill(a[:])
		return
	}
}

func init() {
	register(Property{
		ID:   "A01",
		Rule: "addresses from zeros, all ones, single bits and bytes to fully random; a case is non-trivial if its address was not seen before; every text is compared with a big-integer model of base 32 and mod 97 and decoded back with spaces moved",
		Workloads: []Workload{
			{Name: "roundtrip", Quick: 40000, Thorough: 300000, Fn: a01, Need: []string{"check digits below 10", "check digits over 89", "texts with moved spaces"}},
		},
	})
	register(Property{
		ID:   "A02",
		Rule: "texts derived from valid addresses by substituting, swapping, inserting, dropping characters, changing country code, case and check digits, foreign and multi-byte characters, plus random texts; judged by the big-integer model; a case is non-trivial if its text was not seen before",
		Workloads: []Workload{
			{Name: "typos", Quick: 2000, Thorough: 20000, Fn: a02Typos, Need: []string{"substitutions refused", "swaps refused"}},
			{Name: "texts", Quick: 40000, Thorough: 300000, Fn: a02Texts, Need: []string{"accepted", "refused", "texts decoded again", "right checksum, wrong otherwise"}},
		},
	})
}

func a01(t *T) {
	for k := 0; k < 20; k++ {
		t.Eval()
		addr := genAddr(t.R)
		in := addr
		text := address.Encode(&in)
		t.Check(in == addr, "Encode modified its argument: %x, now %x", addr, in)
		want := refEncodeAddr(addr)
		t.Check(text == want, "Encode(%x) = %q, want %q", addr, text, want)
		t.Check(len(text) == 44, "length of %q", text)
		check := int(text[2]-'0')*10 + int(text[3]-'0')
		t.Check(check >= 2 && check <= 98, "check digits of %q", text)
		if check < 10 {
			t.Count("check digits below 10")
		}
		if check > 89 {
			t.Count("check digits over 89")
		}
		for i := 0; i < 4; i++ {
			s := text
			if i > 0 {
				s = respace(t.R, text)
				t.Count("texts with moved spaces")
			}
			if t.R.P(1, 4) { // what was refused before makes no difference
				_ = try(func() { _, _ = address.Decode(string(t.R.mutate([]byte(s)))) })
			}
			got, err := address.Decode(s)
			t.Check(err == nil, "Decode(%q): %v", s, err)
			t.Check(got == addr, "Decode(%q) = %x, want %x", s, got, addr)
		}
		t.Distinct(addr[:])
		t.Sample("%x <-> %s", addr, text)
		near := in
		near[t.R.N(20)] ^= 1 << t.R.N(8)
		in = near
		text = address.Encode(&in)
		t.Check(in == near && text == refEncodeAddr(near), "Encode(%x) = %q, want %q; before, the same memory held %x", near, text, refEncodeAddr(near), addr)
	}
}

// a02Typos tries every substitution by a like character and every swap of like neighbours.
func a02Typos(t *T) {
	addr := genAddr(t.R)
	s := []byte(strings.ReplaceAll(refEncodeAddr(addr), " ", ""))
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	refused := func(s []byte, how string) {
		t.Eval()
		text := string(s)
		if t.R.P(1, 3) {
			text = respace(t.R, text)
		}
		for i := 0; i < 2; i++ { // trying again does not help
			got, err := address.Decode(text)
			t.Check(err != nil, "%s accepted: Decode(%q) = %x, made from %x", how, text, got, addr)
		}
	}
	for i := range s {
		orig := s[i]
		alphabet := "0123456789"
		if !digit(orig) {
			alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
		}
		for j := 0; j < len(alphabet); j++ {
			if alphabet[j] == orig {
				continue
			}
			s[i] = alphabet[j]
			refused(s, "substitution")
			t.Count("substitutions refused")
		}
		s[i] = orig
		if i+1 < len(s) && s[i] != s[i+1] && digit(s[i]) == digit(s[i+1]) {
			s[i], s[i+1] = s[i+1], s[i]
			refused(s, "swap")
			t.Count("swaps refused")
			s[i], s[i+1] = s[i+1], s[i]
		}
	}
	t.Distinct(s)
	t.Sample("typos of %s", s)
}

func a02Texts(t *T) {
	r := t.R
	var texts []string
	for k := 0; k < 20; k++ {
		t.Eval()
		text := a02Text(t, r)
		texts = append(texts, text)
		t.decodeText(text)
		for i := r.N(3); i > 0; i-- { // again, and in any order
			t.decodeText(texts[r.N(len(texts))])
			t.Count("texts decoded again")
		}
		if r.P(1, 3) {
			t.decodeText(text)
		}
		t.Distinct(text)
	}
}

func (t *T) decodeText(text string) {
	want, ok, decided := refDecodeAddr(text)
	var got [20]byte
	var err error
	if p := try(func() { got, err = address.Decode(text) }); p != "" {
		t.Failf("Decode(%q): %s", text, p)
	}
	switch {
	case err == nil && decided:
		t.Check(ok, "Decode accepted %q (hex %s) as %x", text, hex.EncodeToString([]byte(text)), got)
		t.Check(got == want, "Decode(%q) = %x, want %x", text, got, want)
		t.Count("accepted")
	case err == nil:
		t.Check(got == want, "Decode(%q) = %x, want %x", text, got, want)
	default:
		t.Check(!ok || !decided, "Decode(%q): %v, want %x", text, err, want)
		t.Count("refused")
	}
	t.Sample("%q -> %v", text, err)
}

// withCheck recomputes the check digits for whatever the other characters are.
func withCheck(s string) string {
	if len(s) < 4 {
		return s
	}
	rem, ok := refMod97(strings.ToUpper(s[4:]) + "NQ00")
	if !ok {
		return s
	}
	check := 98 - rem
	return s[:2] + string([]byte{byte('0' + check/10), byte('0' + check%10)}) + s[4:]
}

func a02Text(t *T, r *Rand) string {
	s := strings.ReplaceAll(refEncodeAddr(genAddr(r)), " ", "")
	repl := func(i int, c string) string { return s[:i] + c + s[i+1:] }
	switch r.N(16) {
	case 0: // valid
	case 1: // any byte anywhere
		s = repl(r.N(36), string([]byte{byte(r.N(256))}))
	case 2: // letters outside of the alphabet, checksum right
		s = withCheck(repl(r.In(4, 35), choose(r, "I", "O", "W", "Z", "i", "o", "w", "z")))
		t.Count("right checksum, wrong otherwise")
	case 3: // lower case, checksum right
		i := r.In(4, 35)
		s = withCheck(repl(i, strings.ToLower(s[i:i+1])))
	case 4: // country code, checksum made right for it
		cc := string([]byte{byte('A' + r.N(26)), byte('A' + r.N(26))})
		if r.P(1, 3) {
			cc = choose(r, "nq", "Nq", "nQ", "QN", "NN", "QQ", "N0", "0Q", "N ")
		}
		rest := s[4:]
		if rem, ok := refMod97(strings.ToUpper(rest + cc + "00")); ok {
			s = cc + string([]byte{byte('0' + (98-rem)/10), byte('0' + (98-rem)%10)}) + rest
			t.Count("right checksum, wrong otherwise")
		}
	case 5: // check digits
		s = s[:2] + string([]byte{byte('0' + r.N(10)), byte('0' + r.N(10))}) + s[4:]
	case 6: // congruent check digits
		rem, _ := refMod97(s[4:] + "NQ00")
		for _, c := range []int{98 - rem + 97, 98 - rem - 97} {
			if c >= 0 && c <= 99 {
				s = s[:2] + string([]byte{byte('0' + c/10), byte('0' + c%10)}) + s[4:]
			}
		}
	case 7: // too short, checksum right
		s = withCheck(s[:r.In(5, 35)])
		t.Count("right checksum, wrong otherwise")
	case 8: // too long, checksum right
		s = withCheck(s + strings.Repeat("0", r.In(1, 4)))
		t.Count("right checksum, wrong otherwise")
	case 9: // trailing characters after a valid address
		s += choose(r, "\x00", "A", "0", "\t", "\n", "=", "é", "  x")
	case 10: // other white space, padding, multi-byte
		i := r.N(37)
		s = s[:i] + choose(r, "\t", "\n", "\r", "\u00a0", "\u2003", "=", "-", ".", "\x00", "é", "А") + s[i:]
	case 11: // replaced, so that the length stays right in bytes or in characters
		i := r.In(0, 35)
		s = repl(i, choose(r, "\t", "\n", "=", "-", "\x00", "é", "/", ":", "@", "[", "`", "{"))
	case 12: // several changes
		b := []byte(s)
		for n := r.In(2, 4); n > 0; n-- {
			b[r.In(2, 35)] = refAlphabet[r.N(32)]
		}
		s = string(b)
		if r.Bool() {
			s = withCheck(s)
		}
	case 13: // random data, right checksum
		b := make([]byte, 36)
		for i := range b {
			b[i] = refAlphabet[r.N(32)]
		}
		copy(b, "NQ00")
		s = withCheck(string(b))
	case 14: // letters as check characters
		s = s[:2] + string([]byte{byte('0' + r.N(75)), byte('0' + r.N(75))}) + s[4:]
	case 15: // anything
		s = string(r.Bytes(r.N(80)))
	}
	if r.Bool() && !strings.Contains(s, " ") {
		s = respace(r, s)
	}
	return s
}
