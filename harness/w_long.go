package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sync"
	"time"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

// Lists of thousands of elements, on their own and in messages.

// manyOf is a number of elements close to where implementations may change their ways.
func manyOf(r *Rand) int {
	n := choose(r, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097, 8191, 8192, 10000, 16384,
		32767, 32768, 32769, 65534, 65535, r.In(256, 65535), r.In(256, 65535), r.In(256, 5000), r.In(256, 5000), r.Len(65535, 1000))
	if laborious() && n > 4097 {
		return 256 + n%3842
	}
	return n
}

// laborious tells whether encoding a list takes time quadratic in its length, which is correct, only slow.
var laborious = sync.OnceValue(func() bool {
	x := &wire.BasicTx{}
	b := &wire.BlockBody{}
	for i := 0; i < 4096; i++ {
		b.Txs = append(b.Txs, wire.WrapTx{Tx: x})
	}
	for try := 0; try < 5; try++ {
		start := time.Now()
		_, _ = beserial.Marshal(nil, b)
		if time.Since(start) < 50*time.Millisecond {
			return false
		}
	}
	return true
})

// longKinds are the objects with long lists.
var longKinds = []string{"inv", "locators", "addresses", "proof addresses", "transactions", "pruned accounts", "data", "proof", "transaction block", "pruned block"}

// longList makes an object with a list of n elements. Elements are from a small pool.
func longList(r *Rand, kind string, n int) interface{} {
	pool := r.In(1, 5)
	hashes := make([][32]byte, pool)
	for i := range hashes {
		hashes[i] = r.B32()
	}
	hash := func(i int) [32]byte { // all different
		h := hashes[r.N(pool)]
		h[30], h[31] = h[30]^byte(i>>8), h[31]^byte(i)
		return h
	}
	switch kind {
	case "inv":
		m := &wire.InvMessage{MessageType: choose[uint64](r, 1, 2, 3, 4)}
		for i := 0; i < n; i++ {
			m.Vectors = append(m.Vectors, wire.InvVector{Type: uint32(r.N(3)), Hash: hash(i)})
		}
		return m
	case "locators":
		m := &wire.GetBlocksMessage{MaxInvSize: uint16(r.U(16)), Direction: uint8(r.U(8))}
		for i := 0; i < n; i++ {
			m.Locators = append(m.Locators, hash(i))
		}
		return m
	case "addresses":
		m := &wire.AddrMessage{}
		ps := make([]*wire.PeerAddress, pool)
		for i := range ps {
			ps[i] = genPeerAddress(r)
		}
		for i := 0; i < n; i++ {
			p := *ps[r.N(pool)]
			p.Timestamp = uint64(i)
			m.Addresses = append(m.Addresses, p)
		}
		return m
	case "proof addresses":
		m := &wire.GetTxProofMessage{BlockHash: r.B32()}
		for i := 0; i < n; i++ {
			var a [20]byte
			h := hash(i)
			copy(a[:], h[12:])
			m.Addresses = append(m.Addresses, a)
		}
		return m
	case "transactions", "pruned accounts":
		b := &wire.BlockBody{MinerAddr: r.B20(), ExtraData: r.Bytes(r.N(30))}
		txs, accs := make([]wire.Tx, pool), make([]wire.Account, pool)
		for i := range txs {
			txs[i], accs[i] = genBasicTx(r), genAccount(r)
			if r.Bool() {
				e := genExtendedTx(r)
				e.Data, e.Proof = e.Data[:min(len(e.Data), 60)], e.Proof[:min(len(e.Proof), 100)]
				txs[i] = e
			}
		}
		for i := 0; i < n; i++ {
			if kind == "transactions" {
				b.Txs = append(b.Txs, wire.WrapTx{Tx: txs[r.N(pool)]})
				continue
			}
			a := r.B20()
			a[18], a[19] = byte(i>>8), byte(i)
			b.Pruned = append(b.Pruned, wire.AccountPruned{Address: a, Account: wire.WrapAccount{Account: accs[r.N(pool)]}})
		}
		return b
	case "data", "proof":
		x := genExtendedTx(r)
		if kind == "data" {
			x.Data = r.Bytes(n)
		} else {
			x.Proof = r.Bytes(n)
		}
		return x
	case "transaction block", "pruned block":
		m := &wire.BlockMessage{}
		m.Block.Header = genHeader(r)
		fixInterlink(&m.Block.Interlink, genInterlink(r, r.depth(), [32]byte{}))
		m.Block.Body = longList(r, map[string]string{"transaction block": "transactions", "pruned block": "pruned accounts"}[kind], n).(*wire.BlockBody)
		return m
	}
	panic(kind)
}

// wireLong encodes, measures and decodes objects with long lists. Implementations are free to refuse
// inventories of more vectors than the protocol allows.
func wireLong(t *T) {
	r := t.R
	kind := longKinds[t.Idx%len(longKinds)]
	n := manyOf(r)
	v := longList(r, kind, n)
	what := fmt.Sprintf("%s of %d", kind, n)
	want := layout(v)
	may := kind == "inv" && n > wire.VectorsMaxCount
	t.Eval()
	size, err := beserial.Size(v)
	t.Check(may && err != nil || err == nil && size == len(want), "size of %s is %d, %v, want %d", what, size, err, len(want))
	prefix := r.Bytes(r.N(20))
	got, err := beserial.Marshal(prefix[:len(prefix):len(prefix)], v)
	t.Check(may && err != nil || err == nil && bytes.Equal(got, append(prefix, want...)), "%s encodes to %d bytes, %v, the protocol says %d: %s", what, len(got), err, len(prefix)+len(want), byteDiff(got, append(prefix, want...)))
	out := fresh(v)
	junk := r.Bytes(r.N(9))
	read, err := beserial.Unmarshal(append(want[:len(want):len(want)], junk...), out)
	if m, ok := out.(*wire.InvMessage); ok {
		m.MessageType = v.(*wire.InvMessage).MessageType
	}
	if may && err != nil {
		t.Count("refused")
	} else {
		t.Check(err == nil && read == len(want) && same(v, out), "%s of %d bytes came back different, %d bytes read, %v", what, len(want), read, err)
		again, err := beserial.Marshal(nil, out)
		t.Check(may && err != nil || err == nil && bytes.Equal(again, want), "%s re-encodes to %d bytes, %v, was %d: %s", what, len(again), err, len(want), byteDiff(again, want))
	}
	cut := choose(r, len(want)-1, r.N(len(want)), r.N(len(want)))
	read, err = beserial.Unmarshal(want[:cut:cut], fresh(v))
	t.Check(err != nil, "%s accepted from the first %d of %d bytes, %d read", what, cut, len(want), read)
	if m, ok := v.(wire.Message); ok && kind != "proof addresses" {
		id := m.Type()
		back, err := wire.UnmarshalMessage(id, want)
		if may && err != nil {
			t.Count("refused")
		} else {
			t.Check(err == nil && reflect.TypeOf(back) == reflect.TypeOf(m) && back.Type() == id && same(m, back), "message %s came back different, %v", what, err)
		}
		_, err = wire.UnmarshalMessage(id, append(want[:len(want):len(want)], 0))
		t.Check(err != nil, "message %s accepted with a byte of junk", what)
		_, err = wire.UnmarshalMessage(id, want[:cut:cut])
		t.Check(err != nil, "message %s accepted from the first %d of %d bytes", what, cut, len(want))
	}
	if m, ok := v.(wire.Message); ok {
		frame, err := wire.MarshalMessage(m)
		t.Check(may && err != nil || err == nil && bytes.Equal(frame, append(bePut(nil, m.Type(), 64), want...)), "message %s is framed as %d bytes, %v, want %d", what, len(frame), err, 8+len(want))
		t.Count("long messages")
	}
	if n > 1000 {
		t.Count("over 1000: " + kind)
	}
	t.Distinct(kind, n, size)
	t.Sample("%s, %d bytes", what, len(want))
}

func byteDiff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d is %#x, want %#x", i, a[i], b[i])
		}
	}
	return fmt.Sprintf("equal in the first %d bytes", min(len(a), len(b)))
}

func longLists() Workload {
	return Workload{Name: "long lists", Quick: 300, Thorough: 6000, Fn: wireLong, Need: []string{"over 1000: inv", "over 1000: transactions", "over 1000: addresses", "long messages"}}
}
