package main

import (
	"bytes"
	"crypto/ed25519"
	"embed"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"net"
	"reflect"
	"strings"
	"time"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/policy"
	"terorie.dev/nimiq/wire"
)

//go:embed golden/*
var goldenFiles embed.FS

func golden(name string) []byte {
	b, err := goldenFiles.ReadFile("golden/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

// countable keeps the number of counters small.
func countable(name string) string {
	var id uint64
	if n, _ := fmt.Sscanf(name, "message %d", &id); n == 1 {
		for _, k := range knownMessages {
			if id == k {
				return name
			}
		}
		return "message, unknown"
	}
	return name
}

func noteWire(t *T, name string, enc []byte) {
	t.Eval()
	t.Count("type " + countable(name))
	if len(enc) > 1 {
		t.Distinct(name, enc)
	}
}

// c03Wire compares announced and actual sizes of wire objects, well-formed or not.
func c03Wire(t *T) {
	wt := wireTypes[t.Idx%len(wireTypes)]
	v := wt.gen(t.R)
	sizeVsEncoding(t, v)
	switch o := v.(type) { // lists and bit sets that do not agree with each other
	case *wire.BitSet:
		o.Bits = t.R.Bytes(t.R.N(40))
		sizeVsEncoding(t, v)
	case *wire.MerklePath:
		o.Hashes = make([][32]byte, t.R.N(300))
		sizeVsEncoding(t, v)
	case *wire.SignatureProof:
		o.MerklePath.Hashes = make([][32]byte, t.R.N(30))
		sizeVsEncoding(t, v)
	case *wire.NetAddress:
		o.IP = t.R.Bytes(t.R.N(20))
		sizeVsEncoding(t, v)
	case *wire.BlockInterlink:
		o.Compressed = make([][32]byte, t.R.N(300))
		sizeVsEncoding(t, v)
	case *wire.ExtendedTx:
		o.Data = make([]byte, choose(t.R, 65535, 65536, 65540))
		sizeVsEncoding(t, v)
	case *wire.BlockBody:
		o.ExtraData = make([]byte, choose(t.R, 255, 256, 300))
		sizeVsEncoding(t, v)
	}
}

func c07Wire(t *T) {
	wt := wireTypes[t.Idx%len(wireTypes)]
	var target interface{}
	var buf []byte
	for i := 0; i < 5; i++ {
		v := wt.gen(t.R)
		if target == nil || reflect.TypeOf(target) != reflect.TypeOf(v) {
			target = fresh(v)
		}
		enc := layout(v)
		if t.R.P(1, 3) {
			_, _ = beserial.Unmarshal(t.R.mutate(enc), target)
			t.Count("dirtied by damaged input")
		}
		// Keep what the target held.
		held := reflect.ValueOf(target).Elem()
		keptWas := clone(held)
		kept := reflect.New(held.Type()).Elem()
		kept.Set(held)
		buf = append(buf[:0], enc...)
		n, err := beserial.Unmarshal(buf, target)
		t.Check(equal(kept, keptWas), "Unmarshal of %s into a used object changed what was taken from it before: %s became %s", wt.name, dump(keptWas.Interface()), dump(kept.Interface()))
		t.Check(err == nil && n == len(enc), "Unmarshal of %s into a used object: n=%d of %d, %v", wt.name, n, len(enc), err)
		t.Check(bytes.Equal(buf, enc), "Unmarshal of %s wrote to its input", wt.name)
		appendTo(held)
		t.Check(equal(kept, keptWas), "appending to the lists of a %s decoded into a used object changed what was taken from it before: %s became %s", wt.name, dump(keptWas.Interface()), dump(kept.Interface()))
		t.Check(bytes.Equal(buf, enc), "appending to the lists of a decoded %s writes to its input", wt.name)
		t.Check(same(v, target), "Unmarshal of %s into a used object: got %s want %s", wt.name, dump(target), dump(v))
		for j := range buf {
			buf[j] ^= 0xA5
		}
		t.Check(same(v, target), "%s changed when the input was overwritten: got %s want %s", wt.name, dump(target), dump(v))
		for j := range buf {
			buf[j] ^= 0xA5
		}
		scribble(reflect.ValueOf(target).Elem())
		t.Check(bytes.Equal(buf, enc), "modifying a decoded %s writes to its input", wt.name)
		target = nil
		if t.R.Bool() {
			target = v // a used object of the same kind
		}
		noteWire(t, wt.name, enc)
	}
	t.Sample("%s decoded into used targets", wt.name)
}

// structural are the fields that say how others are laid out, or that follow from others.
func structural(name string) bool {
	switch name {
	case "Branches", "Repeats", "Len", "Type", "Protocol", "IP", "Interlink", "MessageType", "Pong":
		return true
	}
	return false
}

func w01(t *T) {
	wt := wireTypes[t.Idx%len(wireTypes)]
	v := wt.gen(t.R)
	want := layout(v)
	before := clone(reflect.ValueOf(v))
	got, err := beserial.Marshal(nil, v)
	t.Check(err == nil, "Marshal of %s failed: %v", wt.name, err)
	t.Check(bytes.Equal(got, want), "%s %s encodes to %x, the protocol says %x", wt.name, dump(v), got, want)
	t.Check(equal(before, reflect.ValueOf(v)), "Marshal modified %s", wt.name)
	out := fresh(v)
	junk := t.R.Bytes(t.R.N(40))
	n, err := beserial.Unmarshal(append(append([]byte(nil), want...), junk...), out)
	t.Check(err == nil && n == len(want), "Unmarshal of %s: n=%d of %d, %v; %x", wt.name, n, len(want), err, want)
	t.Check(same(v, out), "%s came back as %s, was %s", wt.name, dump(out), dump(v))
	err = beserial.UnmarshalFull(want, fresh(v))
	t.Check(err == nil, "UnmarshalFull of %s: %v", wt.name, err)
	noteWire(t, wt.name, want)
	t.Sample("%s %s", wt.name, dump(v))
	t.Keep("the encoding of a "+wt.name, got)
	if len(want) < 3000 {
		t.KeepObj("a decoded "+wt.name, out, clone(reflect.ValueOf(v)).Interface())
	}
	// Changed in place, which changes the encoding.
	for k := 0; k < 3; k++ {
		undo, ok := twist(t.R, reflect.ValueOf(v), structural)
		if !ok {
			break
		}
		want := layout(v)
		got, err := beserial.Marshal(nil, v)
		t.Check(err == nil && bytes.Equal(got, want), "after a change in place, %s %s encodes to %x, %v, the protocol says %x", wt.name, dump(v), got, err, want)
		out := fresh(v)
		n, err := beserial.Unmarshal(want, out)
		t.Check(err == nil && n == len(want) && same(carried(v), carried(out)), "after a change in place, %s came back as %s, was %s, %v", wt.name, dump(out), dump(v), err)
		t.Count("changed in place")
		if t.R.Bool() {
			undo()
		}
	}
	// Through the interface types.
	if b, ok := v.(*wire.Block); ok {
		if b.Body == nil {
			t.Count("blocks without body")
		} else {
			t.Count("blocks with body")
		}
	}
}

// w01Golden checks the genesis blocks of both networks against their well-known hashes.
func w01Golden(t *T) {
	name := []string{"main", "test"}[t.Idx%2]
	enc := golden(name + ".block.bin")
	var b wire.Block
	n, err := beserial.Unmarshal(enc, &b)
	t.Check(err == nil && n == len(enc), "genesis block of %s: n=%d %v", name, n, err)
	re, err := beserial.Marshal(nil, &b)
	t.Check(err == nil && bytes.Equal(re, enc), "genesis block of %s re-encodes to %x, %v", name, re, err)
	hdr, err := beserial.Marshal(nil, &b.Header)
	t.Check(err == nil, "genesis header of %s: %v", name, err)
	sum := blake2b.Sum256(hdr)
	t.Check(strings.Contains(string(golden(name+".toml")), hex.EncodeToString(sum[:])), "genesis header of %s hashes to %x", name, sum)
	var accs struct {
		A []struct {
			Addr [20]byte
			Acc  wire.WrapAccount
		} `beserial:"len_tag=uint16"`
	}
	enc = golden(name + ".accounts.bin")
	err = beserial.UnmarshalFull(enc, &accs)
	t.Check(err == nil, "genesis accounts of %s: %v", name, err)
	re, err = beserial.Marshal(nil, &accs)
	t.Check(err == nil && bytes.Equal(re, enc), "genesis accounts of %s re-encode differently, %v", name, err)
	t.CountN("real accounts round-tripped", len(accs.A))
	t.Distinct(name)
	t.Sample("%s: height %d, %d accounts", name, b.Header.Height, len(accs.A))
}

// w01Chunks encodes pieces of the accounts tree.
func w01Chunks(t *T) {
	nodes := func() [][]byte {
		l := make([][]byte, t.R.N(3))
		for i := range l {
			l[i] = t.R.Bytes(t.R.N(40))
		}
		return l
	}
	c := &wire.AccountsTreeChunk{Nodes: nodes(), Proof: wire.AccountsProof{Nodes: nodes()}}
	enc, err := beserial.Marshal(nil, c)
	t.Eval()
	if len(c.Nodes)+len(c.Proof.Nodes) == 0 {
		t.Check(err == nil && bytes.Equal(enc, make([]byte, 4)), "an empty chunk encodes to %x, %v", enc, err)
		t.Count("empty chunks")
	} else if err != nil {
		t.Finding("accounts-tree-chunk", "a chunk of %d nodes with %d in the proof does not encode: %v", len(c.Nodes), len(c.Proof.Nodes), err)
		return
	}
	var out wire.AccountsTreeChunk
	err = beserial.UnmarshalFull(enc, &out)
	t.Check(err == nil && same(c, &out), "chunk %s came back as %s, %v", dump(c), dump(out), err)
}

func hostileWire(r *Rand, valid []byte) []byte {
	switch r.N(12) {
	case 0:
		return r.Bytes(r.N(300))
	case 1:
		return valid[:r.N(len(valid)+1)]
	case 2:
		b := r.Bytes(r.N(120))
		for i := range b {
			b[i] %= 4
		}
		return b
	case 3:
		return append([]byte(nil), valid...)
	case 4:
		return append(append([]byte(nil), valid...), r.Bytes(r.N(8))...)
	default:
		return r.mutate(valid)
	}
}

func w02(t *T) {
	for k := 0; k < 6; k++ {
		if t.R.P(1, 3) {
			id := knownMessages[t.R.N(len(knownMessages))]
			in := hostileWire(t.R, layout(genMessage(t.R, id)))
			keep := append([]byte(nil), in...)
			m, err := wire.UnmarshalMessage(id, in)
			t.Eval()
			t.Check(bytes.Equal(in, keep), "UnmarshalMessage wrote to its input")
			if err != nil {
				t.Count("refused")
				continue
			}
			out, err := wire.MarshalMessage(m)
			t.Check(err == nil, "message %d accepted from %x cannot be encoded: %v", id, in, err)
			t.Check(bytes.Equal(out, append(bePut(nil, id, 64), in...)), "message %d accepted from %x re-encodes to %x", id, in, out)
			t.Count("accepted message")
			noteWire(t, fmt.Sprintf("message %d", id), in)
			continue
		}
		wt := wireTypes[(t.Idx+k)%len(wireTypes)]
		v := wt.gen(t.R)
		in := hostileWire(t.R, layout(v))
		out := fresh(v)
		n, err := beserial.Unmarshal(in, out)
		t.Eval()
		if err != nil {
			t.Count("refused")
			continue
		}
		t.Check(n >= 0 && n <= len(in), "Unmarshal of %s reports n=%d of %d", wt.name, n, len(in))
		re, err := beserial.Marshal(nil, out)
		t.Check(err == nil, "%s accepted from %x cannot be encoded: %v", wt.name, in, err)
		t.Check(bytes.Equal(re, in[:n]), "%s accepted from %x re-encodes to %x", wt.name, in[:n], re)
		sz, err := beserial.Size(out)
		t.Check(err == nil && sz == n, "%s accepted from %d bytes has size %d, %v", wt.name, n, sz, err)
		t.Count("accepted")
		noteWire(t, wt.name, in[:n])
		t.Sample("%s from %x", wt.name, in[:n])
	}
}

// wireCase is a wire type or message kind with a valid encoding of it.
type wireCase struct {
	name   string
	enc    []byte
	decode func(in []byte) (obj interface{}, n int, err error)
	encode func(obj interface{}) ([]byte, error)
}

func genWireCase(r *Rand, idx int) wireCase {
	idx %= len(wireTypes) + len(knownMessages)
	if idx < len(wireTypes) {
		wt := wireTypes[idx]
		v := wt.gen(r)
		return wireCase{wt.name, layout(v), func(in []byte) (interface{}, int, error) {
			out := fresh(v)
			n, err := beserial.Unmarshal(in, out)
			return out, n, err
		}, func(obj interface{}) ([]byte, error) { return beserial.Marshal(nil, obj) }}
	}
	id := knownMessages[idx-len(wireTypes)]
	return wireCase{fmt.Sprintf("message %d", id), layout(genMessage(r, id)), func(in []byte) (interface{}, int, error) {
		m, err := wire.UnmarshalMessage(id, in)
		return m, len(in), err
	}, func(obj interface{}) ([]byte, error) {
		b, err := wire.MarshalMessage(obj.(wire.Message))
		if err == nil && (len(b) < 8 || !bytes.Equal(b[:8], bePut(nil, id, 64))) {
			return b, nil
		}
		return b[min(8, len(b)):], err
	}}
}

// everyFlip damages a valid encoding in every single bit, and every byte in several ways. It stops early
// with code that takes its time.
func everyFlip(r *Rand, enc []byte, f func(in []byte)) {
	start := time.Now()
	in := append([]byte(nil), enc...)
	var at []int
	for i := range enc {
		if i < 96 || len(enc) < 300 || r.P(200, len(enc)) {
			at = append(at, i)
		}
	}
	for k := 0; k < 6 && len(enc) > 0; k++ { // everything a byte can hold, at kinds, flags and counts
		i := r.N(len(enc))
		for try := 0; try < 20 && enc[i] > 3; try++ {
			i = r.N(len(enc))
		}
		for v := 0; v < 256; v++ {
			if time.Since(start) > 15*time.Second {
				return
			}
			if in[i] = byte(v); in[i] != enc[i] {
				f(in)
			}
		}
		in[i] = enc[i]
	}
	for _, i := range at {
		if time.Since(start) > 15*time.Second {
			return
		}
		for bit := 0; bit < 8; bit++ {
			in[i] = enc[i] ^ 1<<bit
			f(in)
		}
		for _, v := range []byte{0, 1, 2, 3, 0x7f, 0xff, byte(r.N(256))} {
			if in[i] = v; v != enc[i] {
				f(in)
			}
		}
		in[i] = enc[i]
	}
}

// w02Flips re-encodes whatever is accepted next to a valid encoding.
func w02Flips(t *T) {
	c := genWireCase(t.R, t.Idx)
	everyFlip(t.R, c.enc, func(in []byte) {
		obj, n, err := c.decode(in)
		t.Eval()
		if err != nil {
			t.Count("refused")
			return
		}
		re, err := c.encode(obj)
		t.Check(err == nil, "%s accepted from %x cannot be encoded: %v", c.name, trimBytes(in, 2000), err)
		t.Check(n <= len(in) && bytes.Equal(re, in[:n]), "%s accepted from %x re-encodes to %x", c.name, trimBytes(in[:n], 2000), trimBytes(re, 2000))
		t.Count("accepted")
	})
	noteWire(t, c.name, c.enc)
	t.Sample("%s, every bit of %x", c.name, c.enc)
}

// w03Flips queries whatever is accepted next to a valid encoding.
func w03Flips(t *T) {
	c := genWireCase(t.R, t.Idx)
	everyFlip(t.R, c.enc, func(in []byte) {
		if p := try(func() {
			obj, _, err := c.decode(in)
			if err == nil {
				query(t, obj)
				_, _ = c.encode(obj)
				t.Count("accepted and queried")
			}
		}); p != "" {
			t.Failf("decoding %x as %s: %s", trimBytes(in, 2000), c.name, p)
		}
		t.Eval()
	})
	// And every truncation.
	for n := 0; n < len(c.enc) && n < 400; n++ {
		if p := try(func() { _, _, _ = c.decode(c.enc[:n:n]) }); p != "" {
			t.Failf("decoding %x as %s: %s", c.enc[:n], c.name, p)
		}
		t.Eval()
	}
	noteWire(t, c.name, c.enc)
	t.Sample("%s, every bit and truncation of %x", c.name, c.enc)
}

// query calls everything a user would call on a decoded object.
func query(t *T, v interface{}) {
	switch o := v.(type) {
	case *wire.SignatureProof:
		_ = o.SignerAddress()
		_ = o.MerklePath.ComputeRoot(o.PublicKey[:])
	case *wire.MerklePath:
		_ = o.ComputeRoot([]byte("leaf"))
	case *wire.WrapTx:
		queryTx(t, o.Tx)
	case *wire.TxMessage:
		queryTx(t, o.Tx.Tx)
	case *wire.BasicTx:
		queryTx(t, o)
	case *wire.ExtendedTx:
		queryTx(t, o)
	case *wire.WrapAccount:
		queryAccount(t, o.Account)
	case *wire.AccountPruned:
		queryAccount(t, o.Account.Account)
	case wire.Account:
		queryAccount(t, o)
	case *wire.PeerAddress:
		_ = o.VerifySignature()
		_ = wire.ProtocolScheme(o.Protocol)
		_ = wire.GetPeerID(o.PublicKey[:])
		_ = o.NetAddress.String()
	case *wire.VersionMessage:
		query(t, &o.PeerAddress)
	case *wire.AddrMessage:
		for i := range o.Addresses {
			query(t, &o.Addresses[i])
		}
	case *wire.BlockInterlink:
		for _, h := range o.Hashes {
			_ = h[0]
		}
	case *wire.BlockBody:
		for i := range o.Txs {
			queryTx(t, o.Txs[i].Tx)
		}
		for i := range o.Pruned {
			queryAccount(t, o.Pruned[i].Account.Account)
		}
	case *wire.Block:
		query(t, &o.Interlink)
		if o.Body != nil {
			query(t, o.Body)
		}
	case *wire.BlockMessage:
		query(t, &o.Block)
	}
	if m, ok := v.(wire.Message); ok {
		_ = m.Type()
	}
}

func queryTx(t *T, x wire.Tx) {
	_, _ = x.Amount()
	_ = x.Type()
	c := x.AsTxContent()
	e := x.AsExtendedTx()
	_, _ = x.GetSender()
	_, _ = x.GetRecipient()
	_, _ = beserial.Marshal(nil, &c)
	_, _ = beserial.Marshal(nil, &e)
	var p wire.SignatureProof
	if err := beserial.UnmarshalFull(e.Proof, &p); err == nil {
		_ = p.SignerAddress()
		t.Count("proofs inside transactions")
	}
}

func queryAccount(t *T, a wire.Account) {
	_, _, _ = a.Balance(), a.Type(), a.IsEmpty()
	t.Check(wire.AccountEq(a, a), "account %s is not equal to itself", dump(a))
}

func w03(t *T, serial bool) {
	for k := 0; k < 5; k++ {
		var in []byte
		var decode func()
		var ok bool
		name := ""
		if t.R.P(2, 5) {
			id := knownMessages[t.R.N(len(knownMessages))]
			in = hostileWire(t.R, layout(genMessage(t.R, id)))
			if t.R.P(1, 10) {
				id = t.R.U(64)
			}
			name = fmt.Sprintf("message %d", id)
			decode = func() {
				m, err := wire.UnmarshalMessage(id, in)
				if ok = err == nil; ok {
					query(t, m)
					_, err = wire.MarshalMessage(m)
					t.Check(err == nil, "message %d from %x cannot be encoded: %v", id, in, err)
				}
			}
		} else {
			wt := wireTypes[(t.Idx*5+k)%len(wireTypes)]
			v := wt.gen(t.R)
			in = hostileWire(t.R, layout(v))
			name = wt.name
			decode = func() {
				out := fresh(v)
				n, err := beserial.Unmarshal(in, out)
				t.Check(n >= 0 && n <= len(in), "Unmarshal of %s reports n=%d of %d", name, n, len(in))
				if ok = err == nil; ok {
					query(t, out)
					_, err = beserial.Marshal(nil, out)
					t.Check(err == nil, "%s from %x cannot be encoded: %v", name, in, err)
				}
			}
		}
		t.Logf("%s from %x", name, trimBytes(in, 2000))
		if p := try(decode); p != "" {
			t.Failf("decoding %x as %s: %s", trimBytes(in, 2000), name, p)
		}
		if ok {
			t.Count("accepted and queried")
		} else {
			t.Count("refused")
		}
		noteWire(t, name, in)
		if serial {
			got := allocated(func() {
				if strings.HasPrefix(name, "message") {
					var id uint64
					fmt.Sscanf(name, "message %d", &id)
					_, _ = wire.UnmarshalMessage(id, in)
				} else {
					decode()
				}
			})
			limit := uint64(64<<10) + 4096*uint64(len(in))
			t.Check(got <= limit, "decoding %d bytes as %s allocated %d bytes: %x", len(in), name, got, trimBytes(in, 500))
			t.Count("allocation measurements")
		}
	}
	t.Sample("%d hostile inputs", 5)
}

func trimBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// w03Counts decodes messages whose counts promise far more than they hold.
func w03Counts(t *T) {
	r := t.R
	var id uint64
	var in []byte
	big := func() uint16 { return choose[uint16](r, 1, 255, 1000, 30000, 65535) }
	switch t.Idx % 8 {
	case 0:
		id, in = choose(r, uint64(1), 2, 3, 4), bePut(nil, uint64(big()), 16)
	case 1:
		id, in = 5, bePut(nil, uint64(big()), 16)
	case 2:
		id, in = 20, bePut(nil, uint64(big()), 16)
	case 3: // block, counts of transactions
		b := genBlock(r)
		b.Body = &wire.BlockBody{}
		in = layout(b)
		in = bePut(in[:len(in)-4], uint64(big()), 16)
		id = 6
	case 4: // counts of pruned accounts
		b := genBlock(r)
		b.Body = &wire.BlockBody{}
		in = layout(b)
		in = bePut(in[:len(in)-2], uint64(big()), 16)
		id = 6
	case 5: // interlink
		b := genBlock(r)
		id, in = 6, append(layout(&b.Header), byte(r.N(256)))
	case 6:
		id, in = 8, bePut([]byte{1}, uint64(big()), 16)
	case 7:
		m := genMessage(r, 0).(*wire.VersionMessage)
		in = layout(m)
		in = append(in[:len(in)-1-len(m.UserAgent)], 255)
		id = 0
	}
	in = append(in, r.Bytes(r.N(100))...)
	t.Logf("message %d from %x", id, in)
	_, _ = wire.UnmarshalMessage(id, in)
	got := allocated(func() {
		if p := try(func() { _, _ = wire.UnmarshalMessage(id, in) }); p != "" {
			t.Failf("decoding %x as message %d: %s", in, id, p)
		}
	})
	limit := uint64(64<<10) + 4096*uint64(len(in))
	t.Check(got <= limit, "decoding %d bytes as message %d allocated %d bytes: %x", len(in), id, got, in)
	t.Count("inflated counts")
	noteWire(t, fmt.Sprintf("message %d", id), in)
	t.Sample("message %d from %x", id, in)
}

func w04(t *T) {
	id := knownMessages[t.Idx%len(knownMessages)]
	m := genMessage(t.R, id)
	payload := layout(m)
	want := append(bePut(nil, id, 64), payload...)
	t.Check(m.Type() == id, "message of type %d reports type %d", id, m.Type())
	got, err := wire.MarshalMessage(m)
	t.Check(err == nil, "MarshalMessage of %d failed: %v", id, err)
	t.Check(bytes.Equal(got, want), "message %d %s is framed as %x, want %x", id, dump(m), got, want)
	back, err := wire.UnmarshalMessage(id, payload)
	t.Check(err == nil, "UnmarshalMessage(%d, %x) failed: %v", id, payload, err)
	t.Check(reflect.TypeOf(back) == reflect.TypeOf(m) && same(m, back), "message %d came back as %T %s, was %T %s", id, back, dump(back), m, dump(m))
	t.Check(back.Type() == id, "decoded message %d reports type %d", id, back.Type())
	noteWire(t, fmt.Sprintf("message %d", id), append(payload, byte(id)))
	t.Sample("message %d: %x", id, payload)
	t.Keep(fmt.Sprintf("the frame of message %d", id), got)
	// Junk and truncation.
	junk := append(append([]byte(nil), payload...), t.R.Bytes(t.R.In(1, 9))...)
	_, err = wire.UnmarshalMessage(id, junk)
	t.Check(err != nil, "message %d accepted with %d bytes of junk", id, len(junk)-len(payload))
	if len(payload) > 0 {
		cut := t.R.N(len(payload))
		if t.R.P(1, 3) {
			cut = len(payload) - 1
		}
		_, err = wire.UnmarshalMessage(id, payload[:cut:cut])
		t.Check(err != nil, "message %d accepted from the first %d of %d bytes", id, cut, len(payload))
		t.Count("truncations refused")
	}
	// Messages that are only sent.
	for _, x := range []struct {
		id uint64
		m  wire.Message
	}{{47, wireNamed("GetTxProofMessage", t.R).(wire.Message)}, {49, wireNamed("GetTxReceiptsMessage", t.R).(wire.Message)}} {
		got, err := wire.MarshalMessage(x.m)
		want := append(bePut(nil, x.id, 64), layout(x.m)...)
		t.Check(err == nil && x.m.Type() == x.id && bytes.Equal(got, want), "message %d %s is framed as %x, want %x, %v", x.id, dump(x.m), got, want, err)
		t.Count("messages without decoder")
	}
	// The message is not shared with its bytes, and messages do not influence each other.
	other, err := wire.UnmarshalMessage(id, payload)
	t.Check(err == nil && same(other, back), "decoding message %d twice gives different results, %v", id, err)
}

// w04Talk sends and receives messages of a few kinds, and looks at all of them when the talk is over.
func w04Talk(t *T) {
	ids := make([]uint64, t.R.In(1, 3))
	for i := range ids {
		ids[i] = choose(t.R, knownMessages...)
	}
	type line struct {
		id         uint64
		sent, got  wire.Message
		frame, was []byte
	}
	var talk []line
	var buf []byte // where messages arrive
	for n := t.R.In(2, 12); n > 0; n-- {
		id := ids[t.R.N(len(ids))]
		m := genMessage(t.R, id)
		frame, err := wire.MarshalMessage(m)
		t.Check(err == nil && bytes.Equal(frame, append(bePut(nil, id, 64), layout(m)...)), "message %d %s is framed as %x, %v", id, dump(m), frame, err)
		buf = append(buf[:0], frame[8:]...)
		if len(buf) > 0 && t.R.P(1, 6) { // a damaged one arrives before
			bad := t.R.mutate(buf)
			_, _ = wire.UnmarshalMessage(id, bad)
			_, _ = wire.UnmarshalMessage(id, buf[:len(buf)-1])
			t.Count("damaged messages in a talk")
		}
		got, err := wire.UnmarshalMessage(id, buf)
		t.Check(err == nil && same(m, got), "message %d %s came back as %s, %v", id, dump(m), dump(got), err)
		for i := range buf {
			buf[i] ^= 0x5A
		}
		t.Eval()
		if t.R.P(1, 4) { // the receiver uses up the message
			if v := reflect.ValueOf(got); v.Kind() == reflect.Ptr {
				scribble(v)
			}
			t.Count("messages used up")
			continue
		}
		talk = append(talk, line{id, m, got, frame, bytes.Clone(frame)})
		t.Count("messages in a talk")
	}
	for _, l := range talk {
		t.Check(bytes.Equal(l.frame, l.was), "the frame of message %d was %x, and later %x", l.id, l.was, l.frame)
		t.Check(l.got.Type() == l.id && same(l.sent, l.got), "message %d %s became %s while others came in", l.id, dump(l.sent), dump(l.got))
		t.Distinct(l.frame)
	}
	t.Sample("%d messages of kinds %v", len(talk), ids)
}

// protocolIds are the identifiers of the protocol.
var protocolIds = []struct{ got, want uint64 }{
	{wire.MessageVersion, 0}, {wire.MessageInv, 1}, {wire.MessageGetData, 2}, {wire.MessageGetHeader, 3}, {wire.MessageNotFound, 4},
	{wire.MessageGetBlocks, 5}, {wire.MessageBlock, 6}, {wire.MessageHeader, 7}, {wire.MessageTx, 8}, {wire.MessageMempool, 9},
	{wire.MessageReject, 10}, {wire.MessageSubscribe, 11}, {wire.MessageAddr, 20}, {wire.MessageGetAddr, 21}, {wire.MessagePing, 22},
	{wire.MessagePong, 23}, {wire.MessageSignal, 30}, {wire.MessageGetChainProof, 40}, {wire.MessageChainProof, 41},
	{wire.MessageGetAccountsProof, 42}, {wire.MessageAccountsProof, 43}, {wire.MessageGetAccountsTreeChunk, 44},
	{wire.MessageAccountsTreeChunk, 45}, {wire.MessageGetTxProof, 47}, {wire.MessageTxProof, 48}, {wire.MessageGetTxReceipts, 49},
	{wire.MessageTxReceipts, 50}, {wire.MessageGetBlockProof, 51}, {wire.MessageBlockProof, 52}, {wire.MessageGetHead, 60},
	{wire.MessageHead, 61}, {wire.MessageVerAck, 90},
}

// protocolNumbers are other numbers that peers agree on.
var protocolNumbers = []struct {
	name      string
	got, want uint64
}{
	{"InvError", wire.InvError, 0}, {"InvTx", wire.InvTx, 1}, {"InvBlock", wire.InvBlock, 2}, {"VectorsMaxCount", wire.VectorsMaxCount, 1000},
	{"DirectionForward", wire.DirectionForward, 1}, {"DirectionBackward", wire.DirectionBackward, 2},
	{"NetAddressIPv4", wire.NetAddressIPv4, 0}, {"NetAddressIPv6", wire.NetAddressIPv6, 1},
	{"NetAddressUnspecified", wire.NetAddressUnspecified, 2}, {"NetAddressUnknown", wire.NetAddressUnknown, 3},
	{"ProtocolDumb", uint64(wire.ProtocolDumb), 0}, {"ProtocolWSS", uint64(wire.ProtocolWSS), 1},
	{"ProtocolRTC", uint64(wire.ProtocolRTC), 2}, {"ProtocolWS", uint64(wire.ProtocolWS), 4},
	{"HashBlake2b", wire.HashBlake2b, 1}, {"HashSha256", wire.HashSha256, 3},
	{"AccountBasic", wire.AccountBasic, 0}, {"AccountVesting", wire.AccountVesting, 1}, {"AccountHTLC", wire.AccountHTLC, 2},
	{"ServicesNone", uint64(wire.ServicesNone), 0}, {"ServicesNano", uint64(wire.ServicesNano), 1},
	{"ServicesLight", uint64(wire.ServicesLight), 2}, {"ServicesFull", uint64(wire.ServicesFull), 4},
	{"TxBasic", uint64(wire.TxBasic), 0}, {"TxExtended", uint64(wire.TxExtended), 1},
}

// w04Ids sends all sorts of identifiers.
func w04Ids(t *T) {
	for _, p := range protocolIds {
		t.Check(p.got == p.want, "the identifier %d of the protocol is defined as %d", p.want, p.got)
		frame, err := wire.MarshalMessage(wire.EmptyMessage(p.want))
		t.Check(err == nil && bytes.Equal(frame, bePut(nil, p.want, 64)), "empty message %d is framed as %x, %v", p.want, frame, err)
	}
	for _, p := range protocolNumbers {
		t.Check(p.got == p.want, "%s of the protocol is %d, but defined as %d", p.name, p.want, p.got)
	}
	proto := uint8(t.Idx)
	name := map[uint8]string{0: "dumb", 1: "wss", 2: "rtc", 4: "ws"}[proto]
	t.Check(name == "" || wire.ProtocolScheme(proto) == name, "scheme of protocol %d is %q", proto, wire.ProtocolScheme(proto))
	named := map[uint64]bool{10: true, 11: true, 30: true, 41: true, 42: true, 43: true, 44: true, 45: true, 47: true, 48: true,
		49: true, 50: true, 51: true, 52: true}
	for k := 0; k < 40; k++ {
		var id uint64
		switch t.R.N(6) {
		case 0:
			id = uint64(t.R.N(256))
		case 1: // known in the low bits only
			id = choose(t.R, knownMessages...) + uint64(1)<<choose(t.R, 7, 8, 9, 15, 16, 24, 31, 32, 33, 48, 56, 63)
		case 2:
			id = ^choose(t.R, knownMessages...)
		case 3:
			id = uint64(t.Idx*40 + k)
		default:
			id = t.R.U(64)
		}
		isKnown := false
		for _, x := range knownMessages {
			isKnown = isKnown || x == id
		}
		payload := layout(genMessage(t.R, choose(t.R, knownMessages...)))
		if len(payload) > 2000 || t.R.P(1, 4) {
			payload = t.R.Bytes(t.R.N(40))
		}
		m, err := wire.UnmarshalMessage(id, payload)
		t.Eval()
		if err != nil {
			t.Check(err.Error() != "", "the error about identifier %d says nothing", id)
		}
		// Any identifier can be framed.
		frame, ferr := wire.MarshalMessage(wire.EmptyMessage(id))
		t.Check(ferr == nil && bytes.Equal(frame, bePut(nil, id, 64)), "an empty message %d is framed as %x, %v", id, frame, ferr)
		inv := genInv(t.R, id)
		frame, ferr = wire.MarshalMessage(inv)
		t.Check(ferr == nil && bytes.Equal(frame, append(bePut(nil, id, 64), layout(inv)...)), "an inventory message %d is framed as %x, %v", id, frame, ferr)
		t.Check(wire.EmptyMessage(id).Type() == id && inv.Type() == id, "messages of type %d report %d and %d", id, wire.EmptyMessage(id).Type(), inv.Type())
		var unknown wire.UnknownMessageError
		isUnknown := errors.As(err, &unknown)
		switch {
		case isKnown:
			t.Check(!isUnknown, "identifier %d is reported as unknown", id)
			if err == nil {
				t.Check(m.Type() == id, "message decoded as %d reports type %d", id, m.Type())
			}
		case named[id] && err == nil:
			t.Check(m.Type() == id, "message decoded as %d reports type %d", id, m.Type())
		default:
			if !named[id] {
				t.Check(isUnknown, "identifier %d has no decoder, but got %T %v", id, m, err)
				t.Check(uint64(unknown) == id, "the error about identifier %d names %d", id, unknown)
			} else {
				t.Check(err != nil, "identifier %d has no decoder, but got %T", id, m)
			}
			t.Count("unknown identifiers")
			t.Distinct(fmt.Sprint(id))
		}
	}
	t.Sample("40 identifiers")
}

func w05(t *T) {
	n := t.Idx % 256
	prev := t.R.B32()
	il := genInterlink(t.R, n, prev)
	switch t.R.N(6) { // extreme patterns
	case 0:
		for i := range il.Repeats.Bits {
			il.Repeats.Bits[i] = 0xff
		}
	case 1:
		for i := range il.Repeats.Bits {
			il.Repeats.Bits[i] = 0
		}
	}
	var hashes [][32]byte
	in := append([]byte{byte(n)}, il.Repeats.Bits...)
	var want [][32]byte
	last := prev
	for i := 0; i < n; i++ {
		if !bitAt(il.Repeats.Bits, i) {
			last = t.R.B32()
			last[0], last[1], last[2] = byte(i), 0xEE, byte(len(hashes)) // all different
			hashes = append(hashes, last)
			in = append(in, last[:]...)
		}
		want = append(want, last)
	}
	tail := t.R.Bytes(t.R.N(70))
	var got wire.BlockInterlink
	got.PrevHash = prev
	used, err := beserial.Unmarshal(append(append([]byte(nil), in...), tail...), &got)
	t.Check(err == nil, "interlink of %d entries, pattern %x: %v", n, il.Repeats.Bits, err)
	t.Check(used == len(in), "interlink of %d entries, pattern %x: read %d bytes instead of %d (%d hashes)", n, il.Repeats.Bits, used, len(in), len(hashes))
	t.Check(len(got.Hashes) == n, "interlink of %d entries has %d references", n, len(got.Hashes))
	for i := range want {
		t.Check(got.Hashes[i] != nil && *got.Hashes[i] == want[i], "interlink of %d entries, pattern %x: entry %d refers to %x, want %x", n, il.Repeats.Bits, i, got.Hashes[i], want[i])
	}
	t.Check(same(&got.Compressed, &hashes), "interlink of %d entries, pattern %x: hashes %s, want %s", n, il.Repeats.Bits, dump(got.Compressed), dump(hashes))
	t.Check(got.PrevHash == prev, "decoding changed the previous hash")
	// They are references: what they refer to may be filled in later.
	got.PrevHash = t.R.B32()
	last = got.PrevHash
	for i, k := 0, 0; i < n; i++ {
		if !bitAt(il.Repeats.Bits, i) {
			got.Compressed[k][31] ^= byte(i) | 1
			last = got.Compressed[k]
			k++
		}
		t.Check(*got.Hashes[i] == last, "interlink of %d entries, pattern %x: entry %d does not refer to its hash, but to a copy", n, il.Repeats.Bits, i)
	}
	t.CountN("references followed", n)
	if n > 0 && bitAt(il.Repeats.Bits, 0) {
		t.Count("starting with a repeat")
	}
	if n%8 != 0 {
		t.Count("with padding bits")
	}
	// One hash short.
	if len(hashes) > 0 {
		var short wire.BlockInterlink
		_, err = beserial.Unmarshal(in[:len(in)-1-t.R.N(32)], &short)
		t.Check(err != nil, "interlink of %d entries accepted with its last hash cut off", n)
	}
	t.Distinct(in)
	t.Count(fmt.Sprintf("hash counts over %d", len(hashes)/64*64))
	t.Sample("n=%d pattern %x: %d hashes", n, il.Repeats.Bits, len(hashes))
}

func w06(t *T) {
	r := t.R
	n := t.Idx % 256
	p := &wire.SignatureProof{PublicKey: r.B32(), Signature: r.B64()}
	p.MerklePath.Branches = genBitSet(r, n)
	for i := 0; i < n; i++ {
		h := r.B32()
		h[0] ^= byte(i)
		p.MerklePath.Hashes = append(p.MerklePath.Hashes, h)
	}
	want := refSigner(p)
	check := func(what string, p *wire.SignatureProof) {
		got := p.SignerAddress()
		t.Check(got == want, "signer of a proof with %d hashes, pattern %x (%s): %x, want %x", n, p.MerklePath.Branches.Bits, what, got, want)
		root := p.MerklePath.ComputeRoot(p.PublicKey[:])
		t.Check(bytes.Equal(root[:20], want[:]), "root of %s does not start with its address", what)
	}
	check("built", p)
	if n == 0 {
		t.Check(wire.PublicKeyToAddress(&p.PublicKey) == want, "address of key %x is %x, want %x", p.PublicKey, wire.PublicKeyToAddress(&p.PublicKey), want)
		t.Count("empty paths")
	}
	key := r.B32()
	t.Check(wire.PublicKeyToAddress(&key) == refAddress(key[:]), "address of key %x is %x", key, wire.PublicKeyToAddress(&key))
	for k := 0; k < 8; k++ { // keys that have much in common
		like := choose(r, key, p.PublicKey)
		i := choose(r, 0, 31, 255, r.N(256))
		if like[i%32] ^= byte(r.In(1, 255)); k%3 == 2 {
			from := r.In(1, 31)
			x := r.B32()
			copy(like[from:], x[from:])
		}
		got := wire.PublicKeyToAddress(&like)
		t.Check(got == refAddress(like[:]), "address of key %x is %x, want %x", like, got, refAddress(like[:]))
		own := &wire.SignatureProof{PublicKey: like}
		t.Check(own.SignerAddress() == got, "signer of a proof by key %x is %x, want %x", like, own.SignerAddress(), got)
		t.Count("similar keys")
	}
	for k := 0; k < 6; k++ { // parts exchanged in place
		old := *p
		old.MerklePath.Hashes = append([][32]byte(nil), p.MerklePath.Hashes...)
		old.MerklePath.Branches.Bits = bytes.Clone(p.MerklePath.Branches.Bits)
		c := r.N(5)
		if n == 0 {
			c = r.N(2)
		}
		switch c {
		case 0:
			p.PublicKey[r.N(32)] ^= 1 << r.N(8)
		case 1:
			p.Signature[r.N(64)] ^= 1 << r.N(8)
		case 2, 3:
			p.MerklePath.Hashes[r.N(n)][r.N(32)] ^= 1 << r.N(8)
		default:
			i := r.N(n)
			p.MerklePath.Branches.Bits[i/8] ^= 0x80 >> (i % 8)
		}
		want, was := refSigner(p), want
		t.Check((want == was) == (c == 1), "reference: a change of kind %d gives %x from %x", c, want, was)
		got := p.SignerAddress()
		t.Check(got == want, "signer of a proof with %d hashes, after a change in place: %x, want %x (before the change %x)", n, got, want, was)
		root := p.MerklePath.ComputeRoot(p.PublicKey[:])
		t.Check(bytes.Equal(root[:20], want[:]), "root with %d hashes, after a change in place, does not start with its address", n)
		p.PublicKey, p.Signature = old.PublicKey, old.Signature
		copy(p.MerklePath.Hashes, old.MerklePath.Hashes)
		copy(p.MerklePath.Branches.Bits, old.MerklePath.Branches.Bits)
		check("restored", p)
		t.Count("changed in place")
	}
	var back wire.SignatureProof
	err := beserial.UnmarshalFull(layout(p), &back)
	t.Check(err == nil, "proof with %d hashes: %v", n, err)
	check("decoded", &back)
	enc, err := beserial.Marshal(nil, p)
	t.Check(err == nil && bytes.Equal(enc, layout(p)), "proof encodes to %x, %v", enc, err)
	t.Distinct(enc)
	t.Sample("%d hashes, pattern %x -> %x", n, p.MerklePath.Branches.Bits, want)
	// Sensitivity.
	for k := 0; k < 4; k++ {
		q := &wire.SignatureProof{}
		if err := beserial.UnmarshalFull(layout(p), q); err != nil {
			t.Failf("proof: %v", err)
		}
		what := ""
		switch c := r.N(3); {
		case c == 0 || n == 0:
			i := r.N(256)
			q.PublicKey[i/8] ^= 1 << (i % 8)
			what = fmt.Sprintf("key bit %d", i)
		case c == 1:
			i, j := r.N(n), r.N(256)
			q.MerklePath.Hashes[i][j/8] ^= 1 << (j % 8)
			what = fmt.Sprintf("hash %d bit %d", i, j)
		default:
			i := r.N(n)
			q.MerklePath.Branches.Bits[i/8] ^= 0x80 >> (i % 8)
			what = fmt.Sprintf("branch %d", i)
		}
		t.Check(q.SignerAddress() != want, "changing %s of a proof with %d hashes does not change the signer", what, n)
		t.Check(q.SignerAddress() == refSigner(q), "signer after changing %s of a proof with %d hashes: %x want %x", what, n, q.SignerAddress(), refSigner(q))
		t.Eval()
		t.Count("changed proofs")
	}
}

func refCompact(target *big.Int) uint32 {
	// Number of bytes such that the top bit is clear.
	size := target.BitLen()/8 + 1
	m := new(big.Int).Set(target)
	if size > 3 {
		m.Rsh(m, uint(8*(size-3)))
	} else {
		m.Lsh(m, uint(8*(3-size)))
	}
	return uint32(size)<<24 | uint32(m.Uint64())
}

func w07(t *T) {
	r := t.R
	genTarget := func() *big.Int {
		bits := r.In(1, 256)
		v := new(big.Int)
		switch r.N(5) {
		case 0: // power of two, and next to it
			v.SetBit(v, bits-1, 1)
			if r.Bool() && bits > 1 {
				v.Sub(v, big.NewInt(1))
			}
		case 1:
			v.SetBit(v, bits-1, 1)
			v.Add(v, big.NewInt(int64(r.N(300))))
		case 2:
			v.SetUint64(r.U(64))
		default:
			v.SetBytes(r.Bytes((bits + 7) / 8))
			v.SetBit(v, bits-1, 1)
		}
		if v.BitLen() > 256 {
			v.Rsh(v, uint(v.BitLen()-256))
		}
		if v.Sign() == 0 {
			v.SetInt64(1)
		}
		return v
	}
	var lastT *big.Int
	var lastC uint32
	for k := 0; k < 30; k++ {
		target := genTarget()
		if k == 0 && t.Idx < 70000 { // exhaustive over the small ones
			target = big.NewInt(int64(t.Idx + 1))
		}
		keep := new(big.Int).Set(target)
		got := wire.TargetToCompact(*target)
		t.Eval()
		t.Check(target.Cmp(keep) == 0, "TargetToCompact changed its argument")
		want := refCompact(target)
		t.Check(got == want, "compact form of %x is %08x, want %08x", target, got, want)
		// From the definition: value, error and canonicity.
		size, mant := got>>24, big.NewInt(int64(got&0xffffff))
		val := new(big.Int).Set(mant)
		if size >= 3 {
			val.Lsh(val, uint(8*(size-3)))
		} else {
			val.Rsh(val, uint(8*(3-size)))
		}
		t.Check(got&0x800000 == 0, "compact form %08x of %x has its sign bit set", got, target)
		t.Check(val.Cmp(target) <= 0, "compact form %08x exceeds %x", got, target)
		loss := new(big.Int).Sub(target, val)
		t.Check(loss.Lsh(loss, 15).Cmp(target) < 0, "compact form %08x loses too much of %x", got, target)
		if lastT != nil {
			if c := target.Cmp(lastT); c != 0 {
				t.Check((c > 0) == (got > lastC) || got == lastC, "order of %x, %x is not that of %08x, %08x", target, lastT, got, lastC)
			}
		}
		lastT, lastC = keep, got
		t.Distinct(keep.String())
		if k == 0 {
			t.Sample("%x -> %08x", target, got)
		}
	}
	maxTarget := new(big.Int).Lsh(big.NewInt(1), 240)
	for k := 0; k < 10; k++ {
		d := genTarget()
		if d.Cmp(maxTarget) > 0 && r.P(3, 4) {
			d.Rsh(d, 16)
		}
		if d.Sign() == 0 {
			d.SetInt64(1)
		}
		switch r.N(14) {
		case 3: // above the maximum target: nothing is left
			d.Add(maxTarget, big.NewInt(int64(r.In(1, 3))))
		case 0:
			d.SetInt64(int64(r.In(1, 3)))
		case 1:
			d.Set(maxTarget)
		case 2:
			d.Sub(maxTarget, big.NewInt(int64(r.N(3))))
		}
		keep := new(big.Int).Set(d)
		want := new(big.Int).Quo(maxTarget, d)
		got := wire.DifficultyToTarget(*d)
		t.Check(got.Cmp(want) == 0, "target of difficulty %x is %x, want %x", d, &got, want)
		if want.Sign() == 0 {
			t.Count("difficulties without a target")
			t.Check(wire.DifficultyToCompact(*d) == 0, "compact form of difficulty %x is not zero", d)
			t.Check(d.Cmp(keep) == 0, "converting difficulty changed its argument")
			continue
		}
		c := wire.DifficultyToCompact(*d)
		t.Check(c == refCompact(want), "compact form of difficulty %x is %08x, want %08x", d, c, refCompact(want))
		t.Check(d.Cmp(keep) == 0, "converting difficulty changed its argument")
		t.Check(policy.BlockTargetMax.Cmp(maxTarget) == 0, "the maximum target changed to %x", &policy.BlockTargetMax)
		t.Eval()
		// The target is the caller's.
		switch r.N(4) {
		case 0:
			got.Add(&got, big.NewInt(1))
		case 1:
			got.Rsh(&got, 7)
		case 2:
			for i, words := 0, got.Bits(); i < len(words); i++ {
				words[i] ^= 0x55
			}
		}
		t.Check(d.Cmp(keep) == 0, "changing the target of difficulty %x changed the difficulty to %x", keep, d)
		t.Check(policy.BlockTargetMax.Cmp(maxTarget) == 0, "changing the target of difficulty %x changed the maximum target to %x", keep, &policy.BlockTargetMax)
		t.Count("difficulties")
		t.Distinct("difficulty", keep.String())
	}
}

// oddKey is an encoded point of small order, or no point at all.
func oddKey(r *Rand) (k [32]byte) {
	switch r.N(6) {
	case 0: // zero, of order 4
	case 1: // the neutral element
		k[0] = 1
	case 2: // of order 2
		k = [32]byte{0xec}
		for i := 1; i < 31; i++ {
			k[i] = 0xff
		}
		k[31] = 0x7f
	case 3: // of order 8
		b, _ := hex.DecodeString("26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05")
		copy(k[:], b)
	case 4:
		for i := range k {
			k[i] = 0xff
		}
	default:
		k[31] = 0x80
	}
	return
}

func w08(t *T) {
	r := t.R
	seed := r.Bytes(32)
	key := ed25519.NewKeyFromSeed(seed)
	pa := genPeerAddress(r)
	before := *pa
	pa.Sign(key)
	t.Check(bytes.Equal(pa.PublicKey[:], key[32:]), "signed address carries key %x, signed with %x", pa.PublicKey, key[32:])
	before.PublicKey, before.Signature = pa.PublicKey, pa.Signature
	t.Check(same(&before, pa), "signing changed other fields: %s", dump(pa))
	t.Check(pa.VerifySignature(), "freshly signed address does not verify: %s", dump(pa))
	content := append([]byte{pa.Protocol}, bePut(bePut(nil, uint64(pa.Services), 32), pa.Timestamp, 64)...)
	t.Check(ed25519.Verify(ed25519.PublicKey(key[32:]), content, pa.Signature[:]), "signature is not one over protocol, services and timestamp: %s", dump(pa))
	var back wire.PeerAddress
	enc, err := beserial.Marshal(nil, pa)
	t.Check(err == nil, "Marshal: %v", err)
	err = beserial.UnmarshalFull(enc, &back)
	t.Check(err == nil && same(pa, &back), "signed address came back as %s, %v", dump(&back), err)
	t.Check(back.VerifySignature(), "signed address does not verify after a trip over the wire")
	id := wire.GetPeerID(pa.PublicKey[:])
	sum := blake2b.Sum256(pa.PublicKey[:])
	t.Check(bytes.Equal(id[:], sum[:16]), "peer ID of %x is %x", pa.PublicKey, id)
	t.Distinct(enc)
	t.Sample("%s", dump(pa))
	alter := func(what string, f func(p *wire.PeerAddress), covered bool) {
		p := *pa
		f(&p)
		ok := p.VerifySignature()
		t.Eval()
		t.Check(ok != covered, "after changing %s verification gives %v", what, ok)
		if covered {
			t.Count("covered fields changed")
		} else {
			t.Count("other fields changed")
		}
	}
	// Every bit of the covered fields.
	for i := 0; i < 8; i++ {
		alter(fmt.Sprintf("protocol bit %d", i), func(p *wire.PeerAddress) { p.Protocol ^= 1 << i }, true)
	}
	for i := 0; i < 32; i++ {
		alter(fmt.Sprintf("services bit %d", i), func(p *wire.PeerAddress) { p.Services ^= 1 << i }, true)
	}
	for i := 0; i < 64; i++ {
		alter(fmt.Sprintf("timestamp bit %d", i), func(p *wire.PeerAddress) { p.Timestamp ^= 1 << i }, true)
	}
	for k := 0; k < 24; k++ {
		i := r.N(256)
		alter(fmt.Sprintf("key bit %d", i), func(p *wire.PeerAddress) { p.PublicKey[i/8] ^= 1 << (i % 8) }, true)
		j := r.N(512)
		alter(fmt.Sprintf("signature bit %d", j), func(p *wire.PeerAddress) { p.Signature[j/8] ^= 1 << (j % 8) }, true)
	}
	alter("key", func(p *wire.PeerAddress) {
		copy(p.PublicKey[:], ed25519.NewKeyFromSeed(r.Bytes(32))[32:])
		p.PublicKey[0] ^= 1
	}, true)
	alter("signature", func(p *wire.PeerAddress) { p.Signature = [64]byte{} }, true)
	alter("distance", func(p *wire.PeerAddress) { p.Distance++ }, false)
	alter("net address", func(p *wire.PeerAddress) { p.NetAddress = genNetAddress(r) }, false)
	alter("detail", func(p *wire.PeerAddress) { p.Detail = genSrv(r) }, false)
	// Keys and signatures that nobody made.
	for k := 0; k < 12; k++ {
		p := *pa
		p.PublicKey = choose(r, p.PublicKey, oddKey(r), oddKey(r), r.B32())
		switch r.N(5) {
		case 0:
			p.Signature = [64]byte{}
		case 1:
			for i := range p.Signature {
				p.Signature[i] = 0xff
			}
		case 2:
			r1 := oddKey(r)
			p.Signature = [64]byte{}
			copy(p.Signature[:], r1[:])
		case 3:
			p.Signature = r.B64()
		}
		if r.P(1, 4) {
			p.Protocol, p.Services, p.Timestamp = choose[uint8](r, 0, 1, 2, 4, p.Protocol), choose(r, 0, p.Services), choose(r, 0, p.Timestamp)
		}
		content := append([]byte{p.Protocol}, bePut(bePut(nil, uint64(p.Services), 32), p.Timestamp, 64)...)
		want := ed25519.Verify(ed25519.PublicKey(p.PublicKey[:]), content, p.Signature[:])
		got := p.VerifySignature()
		t.Eval()
		t.Check(got == want, "verification of %s gives %v, ed25519 says %v", dump(&p), got, want)
		t.Count("made-up keys and signatures")
		if want {
			t.Count("made-up but valid")
		}
	}
	// Verification of nonsense.
	junk := genPeerAddress(r)
	if p := try(func() { junk.VerifySignature() }); p != "" {
		t.Failf("verifying %s: %s", dump(junk), p)
	}
}

func w09(t *T) {
	r := t.R
	check := func(x wire.Tx, want wire.TxContent) {
		before := clone(reflect.ValueOf(x))
		value, fee := x.Amount()
		t.Check(value == want.Value && fee == want.Fee, "%s: Amount() = %d, %d", dump(x), value, fee)
		s, st := x.GetSender()
		t.Check(s != nil && *s == want.Sender && st == want.SenderType, "%s: GetSender() = %x %d, want %x %d", dump(x), s, st, want.Sender, want.SenderType)
		d, dt := x.GetRecipient()
		t.Check(d != nil && *d == want.Recipient && dt == want.RecipientType, "%s: GetRecipient() = %x %d", dump(x), d, dt)
		c := x.AsTxContent()
		t.Check(same(&c, &want), "%s: AsTxContent() = %s, want %s", dump(x), dump(&c), dump(&want))
		e := x.AsExtendedTx()
		ec := contentOf(&e)
		t.Check(same(&ec, &want), "%s: AsExtendedTx() = %s", dump(x), dump(&e))
		e2 := e.AsExtendedTx()
		t.Check(same(&e, &e2), "extended view of the extended view differs: %s", dump(&e2))
		ec2 := e.AsTxContent()
		t.Check(same(&ec2, &want), "content of the extended view differs: %s", dump(&ec2))
		switch o := x.(type) {
		case *wire.BasicTx:
			var p wire.SignatureProof
			err := beserial.UnmarshalFull(e.Proof, &p)
			t.Check(err == nil, "%s: proof of the extended view: %v", dump(x), err)
			t.Check(p.PublicKey == o.SenderPubKey && p.Signature == o.Signature && p.SignerAddress() == want.Sender, "%s: proof of the extended view is %s", dump(x), dump(&p))
			t.Check(x.Type() == wire.TxBasic, "type of a basic transaction is %d", x.Type())
			t.Count("basic")
		case *wire.ExtendedTx:
			t.Check(bytes.Equal(e.Proof, o.Proof), "%s: proof of the extended view is %x", dump(x), e.Proof)
			t.Check(x.Type() == wire.TxExtended, "type of an extended transaction is %d", x.Type())
			t.Count("extended")
		}
		t.Check(equal(before, reflect.ValueOf(x)), "taking views changed %s", dump(x))
		// Again, in case a view was cached or shared.
		c2 := x.AsTxContent()
		t.Check(same(&c2, &want), "second AsTxContent() = %s", dump(&c2))
		t.Eval()
		t.Distinct(layout(&wire.WrapTx{Tx: x}))
	}
	b := genBasicTx(r)
	check(b, contentOfBasic(b))
	t.Sample("%s", dump(b))
	e := genExtendedTx(r)
	check(e, contentOf(e))
	// After a trip over the wire.
	for _, x := range []wire.Tx{b, e} {
		var w wire.WrapTx
		err := beserial.UnmarshalFull(layout(&wire.WrapTx{Tx: x}), &w)
		t.Check(err == nil, "decoding %s: %v", dump(x), err)
		if o, ok := w.Tx.(*wire.BasicTx); ok {
			check(o, contentOfBasic(b))
		} else {
			check(w.Tx, contentOf(e))
		}
	}
	// Changing the transaction changes its views.
	b.Value ^= 1 << r.N(64)
	b.SenderPubKey[r.N(32)] ^= 1 << r.N(8)
	b.Recipient[r.N(20)] ^= 1 << r.N(8)
	check(b, contentOfBasic(b))
	e.Sender[r.N(20)] ^= 1 << r.N(8)
	e.Fee ^= 1 << r.N(64)
	check(e, contentOf(e))
	// Even if it is just one bit of it.
	for k := 0; k < 6; k++ {
		undo, ok := twist(r, reflect.ValueOf(b), nil)
		if k == 0 {
			undo, ok = func() { b.SenderPubKey[1] ^= 1 }, true
			undo()
		}
		t.Check(ok, "nothing to change in %s", dump(b))
		check(b, contentOfBasic(b))
		if undo(); r.P(1, 3) {
			check(b, contentOfBasic(b))
		}
		undo, _ = twist(r, reflect.ValueOf(e), nil)
		check(e, contentOf(e))
		if undo(); r.P(1, 3) {
			check(e, contentOf(e))
		}
		t.Count("changed in place")
	}
}

// wireNamed generates an object of a wire type.
func wireNamed(name string, r *Rand) interface{} {
	for _, wt := range wireTypes {
		if wt.name == name {
			return wt.gen(r)
		}
	}
	panic("no wire type " + name)
}

// place is a change of an object that can be made.
type place struct {
	what string
	do   func()
}

// wirePlaces lists ways to make the parts of a wire object contradict each other.
func wirePlaces(r *Rand, v reflect.Value) (places []place) {
	var walk func(v reflect.Value, tag refTag, path string)
	add := func(what string, f func()) { places = append(places, place{what, f}) }
	walk = func(v reflect.Value, tag refTag, path string) {
		if v.CanAddr() {
			switch o := v.Addr().Interface().(type) {
			case *wire.BitSet:
				add(path+" bit count", func() { o.Len ^= 1 << r.N(8) })
				add(path+" too few bit bytes", func() { o.Bits = append([]byte(nil), o.Bits[:r.N(len(o.Bits)+1)]...) })
				add(path+" too many bit bytes", func() { o.Bits = append(append([]byte(nil), o.Bits...), r.Bytes(r.In(1, 3))...) })
			case *wire.MerklePath:
				add(path+" more hashes", func() { o.Hashes = append(append([][32]byte(nil), o.Hashes...), r.B32()) })
				add(path+" fewer hashes", func() { o.Hashes = o.Hashes[:r.N(len(o.Hashes)+1)] })
				add(path+" other branches", func() { o.Branches = genBitSet(r, r.depth()) })
			case *wire.BlockInterlink:
				add(path+" more hashes", func() { o.Compressed = append(append([][32]byte(nil), o.Compressed...), r.B32()) })
				add(path+" fewer hashes", func() { o.Compressed = o.Compressed[:r.N(len(o.Compressed)+1)] })
				add(path+" other repeats", func() { o.Repeats = genBitSet(r, r.depth()) })
				add(path+" repeat bit", func() {
					if o.Repeats.Len > 0 && len(o.Repeats.Bits) == (int(o.Repeats.Len)+7)/8 {
						o.Repeats.Bits = append([]byte(nil), o.Repeats.Bits...)
						i := r.N(int(o.Repeats.Len))
						o.Repeats.Bits[i/8] ^= 0x80 >> (i % 8)
					}
				})
			case *wire.NetAddress:
				add(path+" address type", func() { o.Type = choose(r, 0, 1, 2, 3, 4, uint8(r.U(8))) })
				add(path+" IP length", func() { o.IP = r.Bytes(choose(r, 0, 1, 3, 4, 5, 8, 15, 16, 17, 32)) })
				add(path+" IPv4 in 16 bytes", func() { o.Type, o.IP = 0, net.IPv4(uint8(r.U(8)), uint8(r.U(8)), uint8(r.U(8)), uint8(r.U(8))) })
				add(path+" IPv4 in 4 bytes as IPv6", func() { o.Type, o.IP = 1, net.IP(r.Bytes(4)) })
				add(path+" IPv6 as IPv4", func() { o.Type, o.IP = 0, net.IP(r.Bytes(16)) })
			case *wire.PeerAddress:
				add(path+" protocol", func() { o.Protocol = choose(r, 0, 1, 2, 4, 3, 8, uint8(r.U(8))) })
				add(path+" detail", func() {
					o.Detail = choose[interface{}](r, nil, (*wire.PeerAddressSrv)(nil), genSrv(r), *genSrv(r), &wire.VerAckMessage{}, "host")
				})
			case *wire.WrapTx:
				add(path+" transaction", func() { o.Tx = choose[wire.Tx](r, nil, (*wire.BasicTx)(nil), (*wire.ExtendedTx)(nil)) })
			case *wire.WrapAccount:
				add(path+" account", func() {
					o.Account = choose[wire.Account](r, nil, (*wire.BasicAccount)(nil), (*wire.VestingAccount)(nil), (*wire.HTLCAccount)(nil))
				})
			case *wire.InvMessage:
				if r.P(9, 10) {
					return
				}
				add(path+" vectors", func() { o.Vectors = make([]wire.InvVector, choose(r, 65535, 65536, 65537)) })
				return
			}
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" || f.Anonymous {
					walk(v.Field(i), parseRefTag(f), path+"."+f.Name)
				}
			}
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), refTag{}, path)
			}
		case reflect.Slice:
			bits := tag.lenBits
			if bits == 0 { // a list with an encoding of its own
				bits = choose(r, 8, 16)
			}
			if size := v.Type().Elem().Size(); v.CanSet() && (bits == 8 || bits == 16 && (size == 1 || size <= 32 && r.P(1, 10) || size <= 300 && r.P(1, 40))) {
				add(path+" length", func() { v.Set(reflect.MakeSlice(v.Type(), 1<<bits-1+r.N(4), 1<<bits+4)) })
			}
			for i := 0; i < v.Len() && i < 8; i++ {
				walk(v.Index(i), refTag{}, fmt.Sprintf("%s[%d]", path, i))
			}
		case reflect.String:
			if v.CanSet() && (tag.lenBits == 8 || tag.lenBits == 16) {
				add(path+" length", func() { v.SetString(string(make([]byte, 1<<tag.lenBits-1+r.N(4)))) })
			}
		}
	}
	walk(v, refTag{}, "")
	return places
}

// carried prepares a wire object for comparison: the same address in another notation is
// the same address, and the hashes of an interlink are those in its compressed form.
func carried(v interface{}) interface{} {
	c := clone(reflect.ValueOf(v))
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.CanAddr() {
			switch o := v.Addr().Interface().(type) {
			case *wire.NetAddress:
				if o.Type == 0 && o.IP.To4() != nil {
					o.IP = o.IP.To4()
				} else if o.Type == 1 && o.IP.To16() != nil {
					o.IP = o.IP.To16()
				}
				return
			case *wire.BlockInterlink:
				o.Hashes, o.PrevHash = nil, [32]byte{}
				return
			}
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(c)
	return c.Interface()
}

// w10 encodes objects whose parts may contradict each other.
func w10(t *T) {
	r := t.R
	var v interface{}
	var m wire.Message
	if n := t.Idx % (len(wireTypes) + len(knownMessages)); n < len(wireTypes) {
		v = wireTypes[n].gen(r)
		t.Count("type " + wireTypes[n].name)
	} else {
		id := knownMessages[n-len(wireTypes)]
		m = genMessage(r, id)
		if _, ok := m.(wire.EmptyMessage); ok {
			m = genMessage(r, 20)
		}
		v = m
		t.Count(fmt.Sprintf("message %d", id))
	}
	var done []string
	for k := choose(r, 0, 1, 1, 1, 2, 3); k > 0; k-- {
		places := wirePlaces(r, reflect.ValueOf(v))
		if len(places) == 0 {
			break
		}
		p := places[r.N(len(places))]
		p.do()
		done = append(done, p.what)
	}
	before := clone(reflect.ValueOf(v))
	var enc []byte
	var size int
	var err, serr error
	head := r.Bytes(r.N(20))
	if p := try(func() {
		enc, err = beserial.Marshal(append([]byte(nil), head...), v)
		size, serr = beserial.Size(v)
	}); p != "" {
		t.Failf("encoding %T %s with %v: %s", v, dump(v), done, p)
	}
	t.Check(equal(before, reflect.ValueOf(v)), "encoding %T changed %s to %s", v, dump(before.Interface()), dump(v))
	t.Check((err == nil) == (serr == nil), "%T %s with %v: Size says %v, Marshal %v", v, dump(v), done, serr, err)
	t.Eval()
	t.Sample("%T with %v: %v", v, done, err)
	if err != nil {
		t.Check(len(done) > 0, "encoding %T %s failed: %v", v, dump(v), err)
		t.Count("refused")
		t.Distinct(fmt.Sprintf("%T", v), fmt.Sprint(done))
	} else {
		t.Check(bytes.HasPrefix(enc, head) && len(enc)-len(head) == size, "%T %s with %v: %d bytes after %d, size %d", v, dump(v), done, len(enc), len(head), size)
		enc = enc[len(head):]
		back := fresh(v)
		n, err := beserial.Unmarshal(enc, back)
		if im, ok := back.(*wire.InvMessage); ok {
			im.MessageType = v.(*wire.InvMessage).MessageType
		}
		if pm, ok := back.(*wire.BasePingMessage); ok {
			pm.Pong = v.(*wire.BasePingMessage).Pong
		}
		t.Check(err == nil && n == len(enc), "%T %s with %v encodes to %x, of which %d bytes decode: %v", v, dump(v), done, enc, n, err)
		t.Check(same(carried(v), carried(back)), "%T %s with %v encodes to %x, which decodes to %s", v, dump(v), done, enc, dump(back))
		if len(done) > 0 {
			t.Count("still encodable")
		} else {
			t.Count("well-formed")
		}
		t.Distinct(fmt.Sprintf("%T", v), enc)
	}
	if m == nil {
		return
	}
	frame, ferr := wire.MarshalMessage(m)
	t.Check((ferr == nil) == (err == nil), "message %s with %v: Marshal says %v, MarshalMessage %v", dump(m), done, err, ferr)
	if ferr == nil {
		back, err := wire.UnmarshalMessage(m.Type(), frame[8:])
		t.Check(err == nil && same(carried(m), carried(back)), "message %s with %v is framed as %x, which decodes to %s, %v", dump(m), done, frame, dump(back), err)
	}
}

// w11 compares what is said about accounts with their contents.
func w11(t *T) {
	r := t.R
	describe := func(a wire.Account) {
		var value uint64
		var typ uint8
		switch o := a.(type) {
		case *wire.BasicAccount:
			value, typ = o.Value, 0
		case *wire.VestingAccount:
			value, typ = o.Value, 1
		case *wire.HTLCAccount:
			value, typ = o.Value, 2
		}
		before := clone(reflect.ValueOf(a))
		t.Check(a.Balance() == value, "the balance of %s is reported as %d", dump(a), a.Balance())
		t.Check(a.Type() == typ, "the type of %s is reported as %d", dump(a), a.Type())
		t.Check(a.IsEmpty() == (value == 0), "IsEmpty of %s is %v", dump(a), a.IsEmpty())
		enc, err := beserial.Marshal(nil, &wire.WrapAccount{Account: a})
		t.Check(err == nil && len(enc) > 0 && enc[0] == typ, "account %s encodes to %x, %v", dump(a), enc, err)
		t.Check(!wire.AccountEq(a, nil) && !wire.AccountEq(nil, a), "account %s is equal to none at all", dump(a))
		t.Check(equal(before, reflect.ValueOf(a)), "asking changed the account to %s", dump(a))
	}
	a := genAccount(r)
	if r.P(1, 4) { // as they are found in the state, with amounts that look alike
		v := choose(r, 0, 0, 1, r.U(64))
		a = choose[wire.Account](r, &wire.BasicAccount{Value: v}, &wire.VestingAccount{Value: v}, &wire.HTLCAccount{Value: v, HashCount: 1},
			&wire.VestingAccount{Value: v, VestingTotalAmount: v}, &wire.HTLCAccount{Value: v, TotalAmount: v, Hash: wire.Hash{Algorithm: 1}})
	}
	describe(a)
	b := clone(reflect.ValueOf(a)).Interface().(wire.Account)
	t.Check(wire.AccountEq(a, b) && wire.AccountEq(b, a) && wire.AccountEq(a, a), "account %s is not equal to its copy", dump(a))
	t.Count("copies")
	// Every field, one at a time, in its first and last bit and any other.
	bits := 0
	for _, f := range accountFields(b) {
		for _, k := range []int{0, f.bits - 1, r.N(f.bits)} {
			f.flip(k)
			t.Check(!wire.AccountEq(a, b) && !wire.AccountEq(b, a), "accounts %s and %s are equal", dump(a), dump(b))
			describe(b)
			f.flip(k)
			bits++
		}
		t.CountN("fields changed", 1)
	}
	t.Check(wire.AccountEq(a, b), "account %s is not equal to its copy", dump(a))
	// Fields that trade places.
	if fs := accountFields(b); len(fs) > 1 {
		fs[r.N(len(fs))].flip(0)
		fs[r.N(len(fs))].flip(0)
		t.Check(wire.AccountEq(a, b) == same(a, b), "AccountEq of %s and %s is %v", dump(a), dump(b), wire.AccountEq(a, b))
	}
	// Another account, of another kind even with the same balance.
	c := genAccount(r)
	switch o := c.(type) {
	case *wire.BasicAccount:
		o.Value = a.Balance()
	case *wire.VestingAccount:
		o.Value = a.Balance()
	case *wire.HTLCAccount:
		o.Value = a.Balance()
	}
	describe(c)
	want := a.Type() == c.Type() && bytes.Equal(layout(&wire.WrapAccount{Account: a}), layout(&wire.WrapAccount{Account: c}))
	t.Check(wire.AccountEq(a, c) == want && wire.AccountEq(c, a) == want, "AccountEq of %s and %s is %v", dump(a), dump(c), !want)
	t.Check(!wire.AccountEq(nil, nil), "two missing accounts are equal")
	t.Eval()
	t.Distinct(layout(&wire.WrapAccount{Account: a}))
	t.Sample("%s, %d single bits changed", dump(a), bits)
}

type accountField struct {
	bits int
	flip func(int)
}

// accountFields lists the parts of an account, down to numbers and byte arrays.
func accountFields(a wire.Account) (fields []accountField) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Array:
			fields = append(fields, accountField{v.Len() * 8, func(k int) {
				e := v.Index(k / 8)
				e.SetUint(e.Uint() ^ 1<<(k%8))
			}})
		default:
			fields = append(fields, accountField{v.Type().Bits(), func(k int) { v.SetUint(v.Uint() ^ 1<<k) }})
		}
	}
	walk(reflect.ValueOf(a).Elem())
	return
}

func init() {
	register(Property{
		ID: "W11", Rule: "accounts of every kind, their copies, copies with single bits of single fields changed, and accounts of other kinds with the same balance; distinct accounts count as non-trivial",
		Workloads: []Workload{{Name: "accounts", Quick: 50000, Thorough: 80000, Fn: w11, Need: []string{"fields changed", "copies"}}},
	})
	register(Property{
		ID: "W01", Rule: "random well-formed objects of every wire type, list sizes and path lengths from 0 to the limits, compared with hand-written layout encoders, plus both networks' genesis blocks with their well-known hashes; distinct (type, bytes) count as non-trivial",
		Workloads: []Workload{
			{Name: "objects", Quick: 60000, Thorough: 150000, Fn: w01, Need: []string{"blocks without body", "blocks with body"}},
			{Name: "genesis", Quick: 2, Thorough: 2, Fn: w01Golden},
			{Name: "chunks", Quick: 200, Thorough: 1000, Fn: w01Chunks, Need: []string{"empty chunks"}},
			longLists(),
		},
	})
	register(Property{
		ID: "W02", Rule: "valid encodings of every wire type and message, mutated in counts, flags, types, padding bits and lengths; whatever is accepted is re-encoded and compared; distinct accepted (type, bytes) count as non-trivial",
		Workloads: []Workload{{Name: "reencode", Quick: 8000, Thorough: 120000, Fn: w02, Need: []string{"accepted", "refused", "accepted message"}},
			{Name: "flips", Quick: 400, Thorough: 10000, Fn: w02Flips, Need: []string{"accepted", "refused"}},
			longLists()},
	})
	register(Property{
		ID: "W03", Rule: "hostile byte strings against every wire type and message identifier, followed by every query a user would make; panics and allocations are monitored; distinct (type, bytes) count as non-trivial",
		Workloads: []Workload{
			{Name: "counts", Serial: true, Quick: 2000, Thorough: 20000, Fn: w03Counts, Need: []string{"inflated counts"}},
			{Name: "flips", Quick: 200, Thorough: 6000, Fn: w03Flips, Need: []string{"accepted and queried"}},
			{Name: "hostile", Quick: 8000, Thorough: 120000, Fn: func(t *T) { w03(t, false) }, Need: []string{"accepted and queried", "refused", "proofs inside transactions"}},
			{Name: "alloc", Serial: true, Quick: 1000, Thorough: 12000, Fn: func(t *T) { w03(t, true) }, Need: []string{"allocation measurements"}},
		},
	})
	register(Property{
		ID: "W04", Rule: "random messages of every kind are framed, compared with hand-written layouts, decoded, truncated and extended; identifiers from the whole 64-bit range; distinct payloads and identifiers count as non-trivial",
		Workloads: []Workload{
			{Name: "messages", Quick: 40000, Thorough: 100000, Fn: w04, Need: []string{"truncations refused"}},
			{Name: "talks", Quick: 8000, Thorough: 60000, Fn: w04Talk, Need: []string{"messages in a talk", "messages used up"}},
			longLists(),
			{Name: "identifiers", Quick: 8000, Thorough: 20000, Fn: w04Ids, Need: []string{"unknown identifiers"}},
		},
	})
	register(Property{
		ID: "W05", Rule: "interlinks of every length from 0 to 255 with random and extreme repeat patterns, unique hashes and trailing data; distinct encodings count as non-trivial",
		Workloads: []Workload{{Name: "interlinks", Quick: 256 * 120, Thorough: 256 * 400, Fn: w05, Need: []string{"starting with a repeat", "with padding bits", "hash counts over 192"}}},
	})
	register(Property{
		ID: "W06", Rule: "signature proofs of every path length from 0 to 255 with random branches, recomputed independently, before and after the wire, and with single bits changed; distinct proofs count as non-trivial",
		Workloads: []Workload{{Name: "proofs", Quick: 256 * 40, Thorough: 256 * 150, Fn: w06, Need: []string{"empty paths", "changed proofs"}}},
	})
	register(Property{
		ID: "W07", Rule: "targets of every bit length with byte and top-bit boundaries, all small targets up to the number of cases, and difficulties up to the maximum target, recomputed from the definition; distinct targets and difficulties count as non-trivial",
		Workloads: []Workload{{Name: "targets", Quick: 60000, Thorough: 100000, Fn: w07, Need: []string{"difficulties"}}},
	})
	register(Property{
		ID: "W08", Rule: "random peer addresses signed with random keys; every bit of protocol, services and timestamp and random bits of key and signature are changed one at a time, other fields too; distinct signed addresses count as non-trivial",
		Workloads: []Workload{{Name: "addresses", Quick: 1500, Thorough: 4000, Fn: w08, Need: []string{"made-up but valid", "covered fields changed", "other fields changed"}}},
	})
	register(Property{
		ID: "W09", Rule: "random basic and extended transactions, fresh, decoded and modified; every view is compared with the fields; distinct transactions count as non-trivial",
		Workloads: []Workload{{Name: "views", Quick: 60000, Thorough: 120000, Fn: w09, Need: []string{"basic", "extended"}}},
	})
	register(Property{
		ID: "W10", Rule: "wire objects and messages of every kind in which parts were changed in memory so that they may contradict each other (counts, lists, types, details, missing parts, over-long lists); what encodes is decoded and compared; distinct (type, bytes) and distinct refused changes count as non-trivial",
		Workloads: []Workload{{Name: "objects", Quick: 25000, Thorough: 150000, Fn: w10, Need: []string{"refused", "still encodable", "well-formed"}}},
	})
}
