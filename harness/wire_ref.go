package main

import (
	"fmt"
	"net"
	"reflect"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/wire"
)

// This file knows the protocol's byte layouts: hand-written encoders for every wire type,
// and generators of well-formed objects.

type lay struct{ b []byte }

func (l *lay) u8(v uint8)   { l.b = append(l.b, v) }
func (l *lay) u16(v uint16) { l.b = bePut(l.b, uint64(v), 16) }
func (l *lay) u32(v uint32) { l.b = bePut(l.b, uint64(v), 32) }
func (l *lay) u64(v uint64) { l.b = bePut(l.b, v, 64) }
func (l *lay) raw(v []byte) { l.b = append(l.b, v...) }
func (l *lay) flag(v bool) {
	if v {
		l.u8(1)
	} else {
		l.u8(0)
	}
}

// layout returns the bytes of a wire object. v is a pointer.
func layout(v interface{}) []byte {
	l := new(lay)
	l.put(v)
	return l.b
}

func (l *lay) put(v interface{}) {
	switch o := v.(type) {
	case *wire.Hash:
		l.u8(o.Algorithm)
		l.raw(o.Bytes[:])
	case *wire.BitSet:
		l.u8(o.Len)
		l.raw(o.Bits)
	case *wire.MerklePath:
		l.put(&o.Branches)
		for _, h := range o.Hashes {
			l.raw(h[:])
		}
	case *wire.SignatureProof:
		l.raw(o.PublicKey[:])
		l.put(&o.MerklePath)
		l.raw(o.Signature[:])
	case *wire.BlockInterlink:
		l.put(&o.Repeats)
		for _, h := range o.Compressed {
			l.raw(h[:])
		}
	case *wire.BlockHeader:
		l.u16(o.Version)
		l.raw(o.PrevHash[:])
		l.raw(o.InterlinkHash[:])
		l.raw(o.BodyHash[:])
		l.raw(o.AccountsHash[:])
		l.u32(o.NBits)
		l.u32(o.Height)
		l.u32(o.Timestamp)
		l.u32(o.Nonce)
	case *wire.BlockBody:
		l.raw(o.MinerAddr[:])
		l.u8(uint8(len(o.ExtraData)))
		l.raw(o.ExtraData)
		l.u16(uint16(len(o.Txs)))
		for i := range o.Txs {
			l.put(&o.Txs[i])
		}
		l.u16(uint16(len(o.Pruned)))
		for i := range o.Pruned {
			l.put(&o.Pruned[i])
		}
	case *wire.Block:
		l.put(&o.Header)
		l.put(&o.Interlink)
		l.flag(o.Body != nil)
		if o.Body != nil {
			l.put(o.Body)
		}
	case *wire.AccountPruned:
		l.raw(o.Address[:])
		l.put(&o.Account)
	case *wire.WrapAccount:
		switch a := o.Account.(type) {
		case *wire.BasicAccount:
			l.u8(0)
			l.put(a)
		case *wire.VestingAccount:
			l.u8(1)
			l.put(a)
		case *wire.HTLCAccount:
			l.u8(2)
			l.put(a)
		default:
			panic(fmt.Sprintf("layout of account %T", a))
		}
	case *wire.BasicAccount:
		l.u64(o.Value)
	case *wire.VestingAccount:
		l.u64(o.Value)
		l.raw(o.Owner[:])
		l.u32(o.VestingStart)
		l.u32(o.VestingStepBlocks)
		l.u64(o.VestingStepAmount)
		l.u64(o.VestingTotalAmount)
	case *wire.HTLCAccount:
		l.u64(o.Value)
		l.raw(o.Sender[:])
		l.raw(o.Recipient[:])
		l.put(&o.Hash)
		l.u8(o.HashCount)
		l.u32(o.Timeout)
		l.u64(o.TotalAmount)
	case *wire.WrapTx:
		switch x := o.Tx.(type) {
		case *wire.BasicTx:
			l.u8(0)
			l.put(x)
		case *wire.ExtendedTx:
			l.u8(1)
			l.put(x)
		default:
			panic(fmt.Sprintf("layout of tx %T", x))
		}
	case *wire.BasicTx:
		l.raw(o.SenderPubKey[:])
		l.raw(o.Recipient[:])
		l.u64(o.Value)
		l.u64(o.Fee)
		l.u32(o.ValidityStartHeight)
		l.u8(o.NetworkID)
		l.raw(o.Signature[:])
	case *wire.ExtendedTx:
		c := contentOf(o)
		l.put(&c)
		l.u16(uint16(len(o.Proof)))
		l.raw(o.Proof)
	case *wire.TxContent:
		l.u16(uint16(len(o.Data)))
		l.raw(o.Data)
		l.raw(o.Sender[:])
		l.u8(o.SenderType)
		l.raw(o.Recipient[:])
		l.u8(o.RecipientType)
		l.u64(o.Value)
		l.u64(o.Fee)
		l.u32(o.ValidityStartHeight)
		l.u8(o.NetworkID)
		l.u8(o.Flags)
	case *wire.NetAddress:
		l.u8(o.Type)
		l.raw(o.IP)
	case *wire.PeerAddressHeader:
		l.u8(o.Protocol)
		l.u32(o.Services)
		l.u64(o.Timestamp)
		l.put(&o.NetAddress)
		l.raw(o.PublicKey[:])
		l.u8(o.Distance)
		l.raw(o.Signature[:])
	case *wire.PeerAddressSrv:
		l.u8(uint8(len(o.Host)))
		l.raw([]byte(o.Host))
		l.u16(o.Port)
		l.flag(o.TLS)
	case *wire.PeerAddress:
		l.put(&o.PeerAddressHeader)
		if o.Detail != nil {
			l.put(o.Detail)
		}
	case *wire.InvVector:
		l.u32(o.Type)
		l.raw(o.Hash[:])
	case *wire.StakingTxData:
		l.raw(append(o.ValidatorKey[:], make([]byte, 96)...)[:96])
		l.flag(o.RewardAddress != nil)
		if o.RewardAddress != nil {
			l.raw(o.RewardAddress[:])
		}
		l.raw(append(o.ProofOfKnowledge[:], make([]byte, 48)...)[:48])
	// Messages
	case *wire.VersionMessage:
		l.u32(o.Version)
		l.put(&o.PeerAddress)
		l.raw(o.GenesisHash[:])
		l.raw(o.HeadHash[:])
		l.raw(o.ChallengeNonce[:])
		l.u8(uint8(len(o.UserAgent)))
		l.raw([]byte(o.UserAgent))
	case *wire.VerAckMessage:
		l.raw(o.PublicKey[:])
		l.raw(o.Signature[:])
	case *wire.BasePingMessage:
		l.u32(o.Nonce)
	case *wire.InvMessage:
		l.u16(uint16(len(o.Vectors)))
		for i := range o.Vectors {
			l.put(&o.Vectors[i])
		}
	case *wire.GetAddrMessage:
		l.u8(o.ProtocolMask)
		l.u32(o.ServiceMask)
		l.u16(o.MaxResults)
	case *wire.GetBlocksMessage:
		l.u16(uint16(len(o.Locators)))
		for _, h := range o.Locators {
			l.raw(h[:])
		}
		l.u16(o.MaxInvSize)
		l.u8(o.Direction)
	case *wire.GetTxProofMessage:
		l.raw(o.BlockHash[:])
		l.u16(uint16(len(o.Addresses)))
		for _, a := range o.Addresses {
			l.raw(a[:])
		}
	case *wire.GetTxReceiptsMessage:
		l.raw(o.Address[:])
		l.u32(o.Offset)
	case *wire.BlockMessage:
		l.put(&o.Block)
	case *wire.HeadMessage:
		l.put(&o.BlockHeader)
	case *wire.HeaderMessage:
		l.put(&o.BlockHeader)
	case *wire.TxMessage:
		l.put(&o.Tx)
	case *wire.AddrMessage:
		l.u16(uint16(len(o.Addresses)))
		for i := range o.Addresses {
			l.put(&o.Addresses[i])
		}
	case wire.EmptyMessage, *wire.EmptyMessage:
	default:
		panic(fmt.Sprintf("no layout for %T", v))
	}
}

// contentOf is the signable content of an extended transaction, field by field.
func contentOf(o *wire.ExtendedTx) wire.TxContent {
	return wire.TxContent{
		Data: o.Data, Sender: o.Sender, SenderType: o.SenderType, Recipient: o.Recipient, RecipientType: o.RecipientType,
		Value: o.Value, Fee: o.Fee, ValidityStartHeight: o.ValidityStartHeight, NetworkID: o.NetworkID, Flags: o.Flags,
	}
}

// refAddress is the address of a public key.
func refAddress(pub []byte) (a [20]byte) {
	h := blake2b.Sum256(pub)
	copy(a[:], h[:20])
	return
}

// contentOfBasic is the signable content of a basic transaction.
func contentOfBasic(o *wire.BasicTx) wire.TxContent {
	return wire.TxContent{
		Sender: refAddress(o.SenderPubKey[:]), Recipient: o.Recipient, Value: o.Value, Fee: o.Fee,
		ValidityStartHeight: o.ValidityStartHeight, NetworkID: o.NetworkID,
	}
}

func bitAt(bits []byte, i int) bool { return bits[i/8]&(1<<(7-i%8)) != 0 }

// refSigner is the address a signature proof stands for.
func refSigner(p *wire.SignatureProof) (a [20]byte) {
	root := blake2b.Sum256(p.PublicKey[:])
	for i := range p.MerklePath.Hashes {
		h := p.MerklePath.Hashes[i]
		if bitAt(p.MerklePath.Branches.Bits, i) {
			root = blake2b.Sum256(append(append([]byte(nil), h[:]...), root[:]...))
		} else {
			root = blake2b.Sum256(append(append([]byte(nil), root[:]...), h[:]...))
		}
	}
	copy(a[:], root[:20])
	return
}

// ---- generators ----

func (r *Rand) depth() int {
	switch r.N(10) {
	case 0, 1, 2:
		return 0
	case 3:
		return choose(r, 7, 8, 9, 15, 16, 17)
	case 4:
		return choose(r, 247, 248, 249, 250, 254, 255)
	case 5:
		if r.Bool() {
			return r.Len(255, 0)
		}
		return r.N(256)
	default:
		return r.In(1, 6)
	}
}

func genBitSet(r *Rand, n int) wire.BitSet {
	b := wire.BitSet{Len: uint8(n), Bits: r.Bytes((n + 7) / 8)}
	return b
}

func genProof(r *Rand) *wire.SignatureProof {
	n := r.depth()
	p := &wire.SignatureProof{PublicKey: r.B32(), Signature: r.B64()}
	p.MerklePath.Branches = genBitSet(r, n)
	for i := 0; i < n; i++ {
		p.MerklePath.Hashes = append(p.MerklePath.Hashes, r.B32())
	}
	return p
}

// genInterlink makes an interlink the way decoding would leave it.
func genInterlink(r *Rand, n int, prev [32]byte) *wire.BlockInterlink {
	il := &wire.BlockInterlink{Repeats: genBitSet(r, n), PrevHash: prev}
	count := 0
	for i := 0; i < n; i++ {
		if !bitAt(il.Repeats.Bits, i) {
			count++
		}
	}
	il.Compressed = make([][32]byte, count)
	for i := range il.Compressed {
		il.Compressed[i] = r.B32()
	}
	last := &il.PrevHash
	next := 0
	for i := 0; i < n; i++ {
		if !bitAt(il.Repeats.Bits, i) {
			last = &il.Compressed[next]
			next++
		}
		il.Hashes = append(il.Hashes, last)
	}
	return il
}

func genHeader(r *Rand) wire.BlockHeader {
	return wire.BlockHeader{
		Version: uint16(r.U(16)), PrevHash: r.B32(), InterlinkHash: r.B32(), BodyHash: r.B32(), AccountsHash: r.B32(),
		NBits: uint32(r.U(32)), Height: uint32(r.U(32)), Timestamp: uint32(r.U(32)), Nonce: uint32(r.U(32)),
	}
}

func genHash(r *Rand) wire.Hash {
	return wire.Hash{Algorithm: choose(r, 1, 3, 2, 0, uint8(r.N(256))), Bytes: r.B32()}
}

func genAccount(r *Rand) wire.Account {
	switch r.N(3) {
	case 0:
		return &wire.BasicAccount{Value: r.U(64)}
	case 1:
		return &wire.VestingAccount{Value: r.U(64), Owner: r.B20(), VestingStart: uint32(r.U(32)), VestingStepBlocks: uint32(r.U(32)),
			VestingStepAmount: r.U(64), VestingTotalAmount: r.U(64)}
	default:
		return &wire.HTLCAccount{Value: r.U(64), Sender: r.B20(), Recipient: r.B20(), Hash: genHash(r), HashCount: uint8(r.U(8)),
			Timeout: uint32(r.U(32)), TotalAmount: r.U(64)}
	}
}

func (r *Rand) blob() []byte {
	switch r.N(10) {
	case 0, 1, 2:
		return nil
	case 3:
		return r.Bytes(r.In(250, 260))
	case 4:
		if r.P(1, 20) {
			return r.Bytes(choose(r, 65534, 65535))
		}
		return r.Bytes(r.N(600))
	case 5:
		if r.Bool() {
			return r.Bytes(r.Len(2000, 1))
		}
		return r.Bytes(r.Len(choose(r, 200, 65535), 1))
	default:
		return r.Bytes(r.N(80))
	}
}

func genBasicTx(r *Rand) *wire.BasicTx {
	x := &wire.BasicTx{SenderPubKey: r.B32(), Recipient: r.B20(), Value: r.U(64), Fee: r.U(64), ValidityStartHeight: uint32(r.U(32)),
		NetworkID: uint8(r.U(8)), Signature: r.B64()}
	if r.P(1, 8) { // to oneself
		sum := blake2b.Sum256(x.SenderPubKey[:])
		copy(x.Recipient[:], sum[:])
	}
	r.amounts(&x.Value, &x.Fee)
	return x
}

func genExtendedTx(r *Rand) *wire.ExtendedTx {
	x := &wire.ExtendedTx{Data: r.blob(), Sender: r.B20(), SenderType: uint8(r.U(8)), Recipient: r.B20(), RecipientType: uint8(r.U(8)),
		Value: r.U(64), Fee: r.U(64), ValidityStartHeight: uint32(r.U(32)), NetworkID: uint8(r.U(8)), Flags: uint8(r.U(8)), Proof: genProofBytes(r)}
	if r.P(1, 8) { // to oneself
		x.Recipient = x.Sender
		if r.Bool() {
			x.RecipientType = x.SenderType
		}
	}
	if r.P(1, 12) { // by the key that signs
		p := genProof(r)
		x.Sender, x.SenderType, x.Proof = refSigner(p), 0, layout(p)
		if r.Bool() {
			x.Data, x.RecipientType, x.Flags = nil, 0, 0
		}
	}
	r.amounts(&x.Value, &x.Fee)
	return x
}

// amounts makes special values now and then.
func (r *Rand) amounts(value, fee *uint64) {
	switch r.N(12) {
	case 0:
		*fee = 0
	case 1:
		*value = 0
	case 2:
		*value, *fee = 0, 0
	case 3:
		*fee = *value
	case 4:
		*fee = -*value
	}
}

func genProofBytes(r *Rand) []byte {
	if r.Bool() {
		return layout(genProof(r))
	}
	return r.blob()
}

func genTx(r *Rand) wire.Tx {
	if r.Bool() {
		return genBasicTx(r)
	}
	return genExtendedTx(r)
}

func genBody(r *Rand) *wire.BlockBody {
	b := &wire.BlockBody{MinerAddr: r.B20(), ExtraData: r.Bytes(choose(r, 0, 0, 1, 20, 254, 255, r.Len(255, 2)))}
	n := choose(r, 0, 0, 1, 2, 3, 5, r.Len(40, 4))
	if r.P(1, 60) {
		n = choose(r, r.In(255, 300), r.Len(700, 255))
	}
	for i := 0; i < n; i++ {
		b.Txs = append(b.Txs, wire.WrapTx{Tx: genTx(r)})
	}
	n = choose(r, 0, 0, 1, 2, 4, r.Len(40, 4))
	if r.P(1, 60) {
		n = choose(r, r.In(255, 300), r.Len(700, 255))
	}
	for i := 0; i < n; i++ {
		b.Pruned = append(b.Pruned, wire.AccountPruned{Address: r.B20(), Account: wire.WrapAccount{Account: genAccount(r)}})
	}
	return b
}

func genBlock(r *Rand) *wire.Block {
	b := &wire.Block{Header: genHeader(r)}
	fixInterlink(&b.Interlink, genInterlink(r, r.depth(), [32]byte{}))
	if r.P(3, 4) {
		b.Body = genBody(r)
	}
	return b
}

// fixInterlink copies an interlink, keeping its internal references internal.
func fixInterlink(dst, src *wire.BlockInterlink) {
	*dst = *src
	for i, h := range src.Hashes {
		if h == &src.PrevHash {
			dst.Hashes[i] = &dst.PrevHash
		}
	}
}

func genNetAddress(r *Rand) wire.NetAddress {
	switch r.N(4) {
	case 0:
		ip := net.IP(r.Bytes(4))
		if r.P(1, 4) {
			ip = append(net.IP(nil), choose(r, net.IPv4zero.To4(), net.IPv4bcast.To4(), net.IP{127, 0, 0, 1}, net.IP{10, 0, 0, 1}, net.IP{224, 0, 0, 1})...)
		}
		return wire.NetAddress{Type: wire.NetAddressIPv4, IP: ip}
	case 1:
		ip := net.IP(r.Bytes(16))
		switch r.N(8) {
		case 0, 1: // an IPv4 address as IPv6
			copy(ip, "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff")
		case 2: // the older way
			copy(ip, make(net.IP, 12))
		case 3:
			copy(ip, choose(r, net.IPv6zero, net.IPv6loopback, net.IPv6linklocalallnodes, net.IPv4zero, net.IPv4bcast))
		}
		return wire.NetAddress{Type: wire.NetAddressIPv6, IP: ip}
	case 2:
		return wire.NetAddress{Type: wire.NetAddressUnspecified}
	default:
		return wire.NetAddress{Type: wire.NetAddressUnknown}
	}
}

func genPeerAddress(r *Rand) *wire.PeerAddress {
	p := &wire.PeerAddress{}
	p.Protocol = choose(r, wire.ProtocolDumb, wire.ProtocolRTC, wire.ProtocolWS, wire.ProtocolWSS)
	p.Services = uint32(r.U(32))
	p.Timestamp = r.U(64)
	p.NetAddress = genNetAddress(r)
	p.PublicKey = r.B32()
	p.Distance = uint8(r.U(8))
	p.Signature = r.B64()
	if p.Protocol == wire.ProtocolWS || p.Protocol == wire.ProtocolWSS {
		p.Detail = genSrv(r)
	}
	return p
}

func genSrv(r *Rand) *wire.PeerAddressSrv {
	return &wire.PeerAddressSrv{Host: string(r.Bytes(choose(r, 0, 1, 12, 255, r.Len(255, 2)))), Port: uint16(r.U(16)), TLS: r.Bool()}
}

func genInv(r *Rand, typ uint64) *wire.InvMessage {
	m := &wire.InvMessage{MessageType: typ}
	n := choose(r, 0, 1, 2, 5, r.Len(40, 4))
	if r.P(1, 30) {
		n = choose(r, 255, 256, 999, 1000, r.Len(1000, 3))
	}
	for i := 0; i < n; i++ {
		m.Vectors = append(m.Vectors, wire.InvVector{Type: choose(r, 0, 1, 2, uint32(r.U(32))), Hash: r.B32()})
	}
	return m
}

// knownMessages are the identifiers of the protocol that can be decoded.
var knownMessages = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 21, 22, 23, 40, 60, 61, 90}

// genMessage makes a message with the given identifier.
func genMessage(r *Rand, id uint64) wire.Message {
	switch id {
	case 0:
		return &wire.VersionMessage{Version: uint32(r.U(32)), PeerAddress: *genPeerAddress(r), GenesisHash: r.B32(), HeadHash: r.B32(),
			ChallengeNonce: r.B32(), UserAgent: string(r.Bytes(choose(r, 0, 3, 20, 255, r.Len(255, 2))))}
	case 1, 2, 3, 4:
		return genInv(r, id)
	case 5:
		m := &wire.GetBlocksMessage{MaxInvSize: uint16(r.U(16)), Direction: uint8(r.U(8))}
		for n := choose(r, 0, 1, 2, 300, r.Len(2000, 3)); n > 0; n-- {
			m.Locators = append(m.Locators, r.B32())
		}
		return m
	case 6:
		m := &wire.BlockMessage{}
		b := genBlock(r)
		m.Block.Header, m.Block.Body = b.Header, b.Body
		fixInterlink(&m.Block.Interlink, &b.Interlink)
		return m
	case 7:
		return &wire.HeaderMessage{BlockHeader: genHeader(r)}
	case 8:
		return &wire.TxMessage{Tx: wire.WrapTx{Tx: genTx(r)}}
	case 9, 40, 60:
		return wire.EmptyMessage(id)
	case 20:
		m := &wire.AddrMessage{}
		for n := choose(r, 0, 1, 2, 5, 260, r.Len(600, 4)); n > 0; n-- {
			m.Addresses = append(m.Addresses, *genPeerAddress(r))
		}
		return m
	case 21:
		return &wire.GetAddrMessage{ProtocolMask: uint8(r.U(8)), ServiceMask: uint32(r.U(32)), MaxResults: uint16(r.U(16))}
	case 22, 23:
		return &wire.BasePingMessage{Nonce: uint32(r.U(32)), Pong: id == 23}
	case 61:
		return &wire.HeadMessage{BlockHeader: genHeader(r)}
	case 90:
		return &wire.VerAckMessage{PublicKey: r.B32(), Signature: r.B64()}
	}
	panic(fmt.Sprintf("genMessage(%d)", id))
}

// wireTypes are the wire types that can be decoded on their own.
var wireTypes = []struct {
	name string
	gen  func(r *Rand) interface{} // pointer to a well-formed object
}{
	{"Block", func(r *Rand) interface{} { return genBlock(r) }},
	{"BlockHeader", func(r *Rand) interface{} { h := genHeader(r); return &h }},
	{"BlockBody", func(r *Rand) interface{} { return genBody(r) }},
	{"BlockInterlink", func(r *Rand) interface{} { return genInterlink(r, r.depth(), [32]byte{}) }},
	{"WrapTx", func(r *Rand) interface{} { return &wire.WrapTx{Tx: genTx(r)} }},
	{"BasicTx", func(r *Rand) interface{} { return genBasicTx(r) }},
	{"ExtendedTx", func(r *Rand) interface{} { return genExtendedTx(r) }},
	{"TxContent", func(r *Rand) interface{} { c := contentOf(genExtendedTx(r)); return &c }},
	{"WrapAccount", func(r *Rand) interface{} { return &wire.WrapAccount{Account: genAccount(r)} }},
	{"AccountPruned", func(r *Rand) interface{} {
		return &wire.AccountPruned{Address: r.B20(), Account: wire.WrapAccount{Account: genAccount(r)}}
	}},
	{"Account", func(r *Rand) interface{} { return genAccount(r) }},
	{"SignatureProof", func(r *Rand) interface{} { return genProof(r) }},
	{"MerklePath", func(r *Rand) interface{} { return &genProof(r).MerklePath }},
	{"BitSet", func(r *Rand) interface{} { b := genBitSet(r, r.depth()); return &b }},
	{"Hash", func(r *Rand) interface{} { h := genHash(r); return &h }},
	{"NetAddress", func(r *Rand) interface{} { n := genNetAddress(r); return &n }},
	{"PeerAddress", func(r *Rand) interface{} { return genPeerAddress(r) }},
	{"PeerAddressHeader", func(r *Rand) interface{} { return &genPeerAddress(r).PeerAddressHeader }},
	{"PeerAddressSrv", func(r *Rand) interface{} { return genSrv(r) }},
	{"InvVector", func(r *Rand) interface{} { return &wire.InvVector{Type: uint32(r.U(32)), Hash: r.B32()} }},
	{"InvMessage", func(r *Rand) interface{} { return genInv(r, 0) }},
	{"GetTxProofMessage", func(r *Rand) interface{} {
		m := &wire.GetTxProofMessage{BlockHash: r.B32()}
		for n := choose(r, 0, 1, 3, 300, r.Len(2000, 4)); n > 0; n-- {
			m.Addresses = append(m.Addresses, r.B20())
		}
		return m
	}},
	{"GetTxReceiptsMessage", func(r *Rand) interface{} {
		return &wire.GetTxReceiptsMessage{Address: r.B20(), Offset: uint32(r.U(32))}
	}},
	{"StakingTxData", func(r *Rand) interface{} {
		s := &wire.StakingTxData{}
		copy(s.ValidatorKey[:], r.Bytes(96))
		copy(s.ProofOfKnowledge[:], r.Bytes(48))
		if r.Bool() {
			a := r.B20()
			s.RewardAddress = &a
		}
		return s
	}},
	{"VersionMessage", func(r *Rand) interface{} { return genMessage(r, 0) }},
	{"AddrMessage", func(r *Rand) interface{} { return genMessage(r, 20) }},
	{"GetBlocksMessage", func(r *Rand) interface{} { return genMessage(r, 5) }},
	{"BlockMessage", func(r *Rand) interface{} { return genMessage(r, 6) }},
	{"TxMessage", func(r *Rand) interface{} { return genMessage(r, 8) }},
	{"VerAckMessage", func(r *Rand) interface{} { return genMessage(r, 90) }},
}

// fresh returns a pointer to a zero value of the type v points to.
func fresh(v interface{}) interface{} { return reflect.New(reflect.TypeOf(v).Elem()).Interface() }
