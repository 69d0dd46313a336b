package main

import (
	"bytes"
	"crypto/ed25519"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wallet"
	"terorie.dev/nimiq/wire"
)

func init() {
	register(Property{ID: "L01", Rule: "Generated seeds and transactions with contents over the whole range are signed, sent over the wire and altered in every field; distinct by seed and transaction.",
		Workloads: []Workload{
			{Name: "sign", Quick: 10000, Thorough: 100000, Fn: l01Sign, Need: []string{"signed basic", "signed extended", "alterations"}},
		}})
	register(Property{ID: "L02", Rule: "Generated seeds and generated wallets; foreign sender keys differing in each single bit, or unrelated; distinct by seed.",
		Workloads: []Workload{
			{Name: "identity", Quick: 16000, Thorough: 40000, Fn: l02Identity, Need: []string{"seeds", "generated wallets", "foreign keys refused"}},
		}})
}

func genSeed(r *Rand) []byte {
	s := r.Bytes(32)
	if r.P(3, 4) {
		r.Fill(s)
	}
	return s
}

// alterTx changes one content field and returns its name.
func alterTx(r *Rand, x wire.Tx, i int) (string, bool) {
	bit := func(b []byte) { b[r.N(len(b))] ^= 1 << r.N(8) }
	switch o := x.(type) {
	case *wire.BasicTx:
		switch i {
		case 0:
			bit(o.Recipient[:])
			return "recipient", true
		case 1:
			o.Value ^= 1 << r.N(64)
			return "value", true
		case 2:
			o.Fee ^= 1 << r.N(64)
			return "fee", true
		case 3:
			o.ValidityStartHeight ^= 1 << r.N(32)
			return "validity start", true
		case 4:
			o.NetworkID ^= 1 << r.N(8)
			return "network", true
		case 5:
			bit(o.SenderPubKey[:])
			return "sender", true
		case 6:
			if o.Value == o.Fee {
				return "", true
			}
			o.Value, o.Fee = o.Fee, o.Value
			return "value and fee exchanged", true
		}
	case *wire.ExtendedTx:
		switch i {
		case 0:
			bit(o.Recipient[:])
			return "recipient", true
		case 1:
			o.Value ^= 1 << r.N(64)
			return "value", true
		case 2:
			o.Fee ^= 1 << r.N(64)
			return "fee", true
		case 3:
			o.ValidityStartHeight ^= 1 << r.N(32)
			return "validity start", true
		case 4:
			o.NetworkID ^= 1 << r.N(8)
			return "network", true
		case 5:
			bit(o.Sender[:])
			return "sender", true
		case 6:
			o.SenderType ^= 1 << r.N(8)
			return "sender type", true
		case 7:
			o.RecipientType ^= 1 << r.N(8)
			return "recipient type", true
		case 8:
			o.Flags ^= 1 << r.N(8)
			return "flags", true
		case 9:
			if len(o.Data) == 0 {
				o.Data = []byte{byte(r.N(256))}
				return "data added", true
			}
			bit(o.Data)
			return "data", true
		case 10:
			o.Data = append(o.Data, byte(r.N(256)))
			return "data extended", len(o.Data) < 1<<16
		case 11:
			if len(o.Data) == 0 {
				return "", true
			}
			o.Data = o.Data[:len(o.Data)-1]
			return "data truncated", true
		case 12:
			if o.Sender == o.Recipient {
				return "", true
			}
			o.Sender, o.Recipient = o.Recipient, o.Sender
			return "parties exchanged", true
		case 13:
			if o.SenderType == o.RecipientType {
				return "", true
			}
			o.SenderType, o.RecipientType = o.RecipientType, o.SenderType
			return "types exchanged", true
		}
	}
	return "", false
}

func refContent(x wire.Tx) []byte {
	var c wire.TxContent
	switch o := x.(type) {
	case *wire.BasicTx:
		c = contentOfBasic(o)
	case *wire.ExtendedTx:
		c = contentOf(o)
	}
	return layout(&c)
}

// codeContent is the signable content according to the code under test.
func codeContent(t *T, x wire.Tx) []byte {
	c := x.AsTxContent()
	b, err := beserial.Marshal(nil, &c)
	t.Check(err == nil, "content of %s: %v", dump(x), err)
	return b
}

// otherContent returns something that is not the content of x.
func otherContent(r *Rand, x wire.Tx) []byte {
	c := refContent(x)
	switch r.N(4) {
	case 0:
		return nil
	case 1:
		return make([]byte, len(c))
	case 2:
		return c[:r.N(len(c))]
	default:
		c[r.N(len(c))] ^= 1 << r.N(8)
		return c
	}
}

func l01Sign(t *T) {
	r := t.R
	seed := genSeed(r)
	key := ed25519.NewKeyFromSeed(seed)
	pub := key.Public().(ed25519.PublicKey)
	w := wallet.DeriveBasic(seed)
	for n := 0; n < 2; n++ {
		var x wire.Tx
		var sig []byte
		if r.Bool() {
			o := genBasicTx(r)
			copy(o.SenderPubKey[:], pub)
			if r.P(1, 4) { // signed already, over something else
				copy(o.Signature[:], ed25519.Sign(key, otherContent(r, o)))
			}
			before := *o
			err := w.SignBasicTx(o)
			t.Check(err == nil, "signing its own transfer: %v", err)
			sig = append([]byte(nil), o.Signature[:]...)
			after := *o
			after.Signature = before.Signature
			t.Check(after == before, "signing changed %s to %s", dump(&before), dump(o))
			x = o
			again := before
			again.Signature = r.B64()
			err = w.SignBasicTx(&again)
			t.Check(err == nil && again == *o, "signing again gives another result (%v)", err)
			t.Count("signed basic")
		} else {
			o := genExtendedTx(r)
			if r.Bool() {
				o.Proof = nil
			}
			if r.P(1, 4) {
				o.Proof = append(make([]byte, 0, 200), o.Proof...)
			}
			if r.P(1, 4) {
				var p wire.SignatureProof
				copy(p.PublicKey[:], pub)
				copy(p.Signature[:], ed25519.Sign(key, otherContent(r, o)))
				o.Proof = layout(&p)
			}
			before := copyTx(o).(*wire.ExtendedTx)
			twin := *o // shares slices
			err := w.SignExtendedTx(o)
			t.Check(bytes.Equal(twin.Proof, before.Proof) && bytes.Equal(twin.Data, before.Data), "signing a transaction changed the proof or data of a copy to %x and %x", twin.Proof, twin.Data)
			next := *o
			next.Value++
			signed := bytes.Clone(o.Proof)
			t.Check(w.SignExtendedTx(&next) == nil && bytes.Equal(o.Proof, signed), "signing a copy with another value changed the proof of the first from %x to %x", signed, o.Proof)
			t.Check(err == nil, "signing %s: %v", dump(o), err)
			p, rest, ok := parseProof(o.Proof)
			t.Check(ok && len(rest) == 0, "the proof %x is no signature proof", o.Proof)
			t.Check(bytes.Equal(p.PublicKey[:], pub), "the proof names key %x, want %x", p.PublicKey, []byte(pub))
			t.Check(len(p.MerklePath.Hashes) == 0, "the proof has a path")
			sig = append([]byte(nil), p.Signature[:]...)
			after := copyTx(o).(*wire.ExtendedTx)
			after.Proof = before.Proof
			t.Check(same(after, before), "signing changed %s to %s", dump(before), dump(o))
			again := copyTx(before).(*wire.ExtendedTx)
			again.Proof = r.Bytes(r.N(120))
			err = w.SignExtendedTx(again)
			t.Check(err == nil && bytes.Equal(again.Proof, o.Proof), "signing again gives another proof (%v)", err)
			t.Keep("the proof of a transaction", o.Proof)
			x = o
			t.Count("signed extended")
		}
		t.Eval()
		ref := refContent(x)
		t.Check(ed25519.Verify(pub, ref, sig), "the signature %x of %s does not verify", sig, dump(x))
		t.Check(bytes.Equal(sig, ed25519.Sign(key, ref)), "the signature is not the deterministic one")
		t.Check(ed25519.Verify(pub, codeContent(t, x), sig), "the signature does not verify over the content the code reports")
		// Over the wire.
		enc, err := beserial.Marshal(nil, &wire.WrapTx{Tx: x})
		t.Check(err == nil, "encoding: %v", err)
		var wrap wire.WrapTx
		err = beserial.UnmarshalFull(enc, &wrap)
		t.Check(err == nil, "decoding: %v", err)
		t.Check(ed25519.Verify(pub, codeContent(t, wrap.Tx), sig), "after a trip over the wire, the signature does not verify")
		switch o := wrap.Tx.(type) {
		case *wire.BasicTx:
			t.Check(bytes.Equal(o.Signature[:], sig), "the signature changed on the wire")
		case *wire.ExtendedTx:
			p, _, ok := parseProof(o.Proof)
			t.Check(ok && bytes.Equal(p.Signature[:], sig), "the signature changed on the wire")
		}
		// Any alteration invalidates it.
		for i := 0; ; i++ {
			y := copyTx(x)
			name, ok := alterTx(r, y, i)
			if !ok {
				break
			}
			if name == "" {
				continue
			}
			t.Check(!ed25519.Verify(pub, codeContent(t, y), sig), "with its %s altered, the signature of %s still verifies", name, dump(x))
			t.Count("alterations")
			// The altered one can be signed as well.
			switch o := y.(type) {
			case *wire.BasicTx:
				if bytes.Equal(o.SenderPubKey[:], pub) {
					if r.Bool() {
						err := w.SignBasicTx(copyTx(x).(*wire.BasicTx))
						t.Check(err == nil, "signing %s again: %v", dump(x), err)
					}
					err := w.SignBasicTx(o)
					t.Check(err == nil && ed25519.Verify(pub, refContent(o), o.Signature[:]), "with its %s altered and signed again, the signature of %s does not verify, %v", name, dump(o), err)
				}
			case *wire.ExtendedTx:
				if len(o.Data) < 1<<16 {
					if r.Bool() { // right after the original
						err := w.SignExtendedTx(copyTx(x).(*wire.ExtendedTx))
						t.Check(err == nil, "signing %s again: %v", dump(x), err)
					}
					err := w.SignExtendedTx(o)
					p, rest, ok := parseProof(o.Proof)
					t.Check(err == nil && ok && len(rest) == 0 && bytes.Equal(p.PublicKey[:], pub) && ed25519.Verify(pub, refContent(o), p.Signature[:]), "with its %s altered and signed again, the signature of %s does not verify, %v", name, dump(o), err)
				}
			}
		}
		t.Distinct(seed, enc)
		t.Sample("seed %x: %x", seed[:4], trimBytes(enc, 120))
	}
}

func l02Identity(t *T) {
	r := t.R
	seed := genSeed(r)
	key := ed25519.NewKeyFromSeed(seed)
	buf, intact := r.inside(seed)
	w := wallet.DeriveBasic(buf)
	t.Check(intact(), "deriving a wallet changed the seed, or the memory around it")
	buf = buf[:cap(buf)]
	for i := range buf { // the seed is the caller's
		buf[i] ^= 0xff
	}
	t.Count("seeds")
	check := func(w *wallet.Basic, key ed25519.PrivateKey, step int) {
		var pub [32]byte
		copy(pub[:], key[32:])
		for i := 0; i < 2; i++ {
			got := w.GetPublicKey()
			t.Check(got == pub, "public key is %x, want %x", got, pub)
			a := w.GetAddress()
			t.Check(a == refAddress(pub[:]), "address of key %x is %x, want %x", pub, a, refAddress(pub[:]))
		}
		t.Check(bytes.Equal(w.PrivateKey, key) && bytes.Equal(w.PublicKey, key[32:]), "keys are %x %x, want %x", w.PrivateKey, w.PublicKey, key)
		own := genBasicTx(r)
		own.SenderPubKey = pub
		err := w.SignBasicTx(own)
		t.Check(err == nil && ed25519.Verify(pub[:], refContent(own), own.Signature[:]), "does not sign its own transfer: %v", err)
		refuse := func(foreign [32]byte) {
			if foreign == pub {
				return
			}
			x := genBasicTx(r)
			x.SenderPubKey = foreign
			before := *x
			err := w.SignBasicTx(x)
			t.Eval()
			t.Check(err != nil, "signed a transfer of %x with the key %x", foreign, pub)
			t.Check(*x == before, "refused to sign, but changed the transaction from %s to %s", dump(&before), dump(x))
			t.Count("foreign keys refused")
		}
		for i := 0; i < 256; i += step {
			f := pub
			f[i/8] ^= 1 << (i % 8)
			refuse(f)
		}
		refuse(r.B32())
		refuse([32]byte{})
		for i := 1; i < 32; i += r.In(1, 6) { // agree in a prefix or suffix
			f := r.B32()
			copy(f[:i], pub[:i])
			refuse(f)
			f = r.B32()
			copy(f[i:], pub[i:])
			refuse(f)
		}
		t.Check(w.GetPublicKey() == pub && w.GetAddress() == refAddress(pub[:]), "using the wallet changed its keys")
	}
	check(w, key, 1)
	if t.Idx%4 == 0 {
		g, h := wallet.GenerateBasic(), wallet.GenerateBasic()
		t.Check(len(g.PrivateKey) == 64, "a generated wallet has a private key of %d bytes", len(g.PrivateKey))
		t.Check(!bytes.Equal(g.PrivateKey, h.PrivateKey), "two generated wallets have the same key")
		check(g, ed25519.NewKeyFromSeed(g.PrivateKey.Seed()), 1)
		t.Count("generated wallets")
	}
	// A wallet without a key, or with part of one, has no transfers of its own.
	for _, part := range []ed25519.PublicKey{nil, {}, key.Public().(ed25519.PublicKey)[:r.N(32)]} {
		for _, pub := range [][]byte{make([]byte, 32), key[32:], append(append([]byte(nil), part...), make([]byte, 32-len(part))...)} {
			e := &wallet.Basic{PublicKey: part}
			if r.Bool() {
				e.PrivateKey = bytes.Clone(key)
			}
			x := genBasicTx(r)
			copy(x.SenderPubKey[:], pub)
			before := *x
			signed := false
			_ = try(func() { signed = e.SignBasicTx(x) == nil })
			t.Eval()
			t.Check(!signed && *x == before, "a wallet with the public key %x signed a transfer of %x", []byte(part), pub)
			t.Count("wallets without a key")
		}
	}
	// The keys of a wallet can be exchanged.
	for i := 0; i < 2; i++ {
		next := genSeed(r)
		k := ed25519.NewKeyFromSeed(next)
		switch r.N(3) {
		case 0:
			*w = *wallet.DeriveBasic(next)
		case 1:
			w.PrivateKey, w.PublicKey = k, ed25519.PublicKey(bytes.Clone(k[32:]))
		default:
			copy(w.PrivateKey, k)
			copy(w.PublicKey, k[32:])
		}
		check(w, k, r.In(40, 90))
		t.Count("keys exchanged")
	}
	for i := 0; i < 4; i++ { // keys that are almost the same
		k := w.PrivateKey
		j := choose(r, 32, 63, r.In(32, 63))
		bit := byte(1) << r.N(8)
		k[j] ^= bit
		w.PublicKey[j-32] ^= bit
		var pub [32]byte
		copy(pub[:], k[32:])
		t.Check(w.GetPublicKey() == pub && w.GetAddress() == refAddress(pub[:]), "address of key %x is %x, want %x", pub, w.GetAddress(), refAddress(pub[:]))
		t.Count("similar keys")
	}
	t.Distinct(seed)
	t.Sample("seed %x", seed)
}
