package main

import (
	"crypto/ed25519"
	"fmt"
	"math/big"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

// ---- actors ----

// An actor holds a key, alone or as one of several co-signers joined by a Merkle tree.
type actor struct {
	key  ed25519.PrivateKey
	path wire.MerklePath
	addr [20]byte
}

func genActor(r *Rand) *actor {
	seed := make([]byte, 32)
	r.Fill(seed)
	a := &actor{key: ed25519.NewKeyFromSeed(seed)}
	if r.P(1, 4) {
		n := choose(r, 1, 2, 3, 8, 9)
		if r.P(1, 4) {
			n = choose(r, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, r.In(10, 255))
		}
		a.path.Branches = genBitSet(r, n)
		for i := 0; i < n; i++ {
			a.path.Hashes = append(a.path.Hashes, r.B32())
		}
	}
	p := a.proof(nil)
	a.addr = refSigner(&p)
	return a
}

func (a *actor) single() bool { return a.path.Branches.Len == 0 }

func (a *actor) proof(content []byte) (p wire.SignatureProof) {
	copy(p.PublicKey[:], a.key[32:])
	p.MerklePath = a.path
	if content != nil {
		copy(p.Signature[:], ed25519.Sign(a.key, content))
	}
	return
}

// proofBytes is a signature proof over a transaction.
func (a *actor) proofBytes(x *wire.ExtendedTx) []byte {
	c := contentOf(x)
	p := a.proof(layout(&c))
	return layout(&p)
}

func (a *actor) signBasic(x *wire.BasicTx) {
	copy(x.SenderPubKey[:], a.key[32:])
	c := contentOfBasic(x)
	copy(x.Signature[:], ed25519.Sign(a.key, layout(&c)))
}

// secret is what the parties of a hashed timelock know.
type secret struct {
	pre    [32]byte // hashes to the root in rounds rounds
	rounds uint8
}

// ---- world ----

type world struct {
	r       *Rand
	actors  []*actor
	byAddr  map[[20]byte]*actor
	secrets map[[20]byte]secret
	model   ledger
	height  uint32
	rich    bool // balances close to the limits
	crowd   int  // blocks are full of transactions of this kind
	many    int  // of so many
	network uint8

	past     [][20]byte // addresses that have been contracts
	lastHash [32]byte   // of an earlier header
}

func newWorld(r *Rand) *world { return newWorldOf(r, r.P(1, 6)) }

func newWorldOf(r *Rand, rich bool) *world { return newWorldAt(r, rich, pickHeight(r)) }

// pickHeight prefers heights where the reward schedule does something.
func pickHeight(r *Rand) uint32 {
	if r.far > 0 {
		return r.far
	}
	if r.P(1, 8) {
		if h, ok := r.Const(60_000_000); ok && h > 0 {
			return uint32(h)
		}
	}
	switch r.N(8) {
	case 0:
		return refTailStart - uint32(r.N(6))
	case 1:
		return 52_888_985 - uint32(r.N(6))
	case 2, 3:
		return uint32(r.In(1, 30))
	case 4:
		return uint32(5000*r.In(1, 500) - r.N(4))
	default:
		return uint32(r.In(30, 2_000_000))
	}
}

func newWorldAt(r *Rand, rich bool, height uint32) *world {
	w := &world{r: r, byAddr: map[[20]byte]*actor{}, secrets: map[[20]byte]secret{}, model: ledger{}, network: 42}
	w.rich, w.height = rich, height
	actors, vestings, htlcs := r.In(3, 7), r.N(4), r.N(4)
	if r.large {
		actors, vestings, htlcs = choose(r, 4, 40, 300), choose(r, 0, 20, 300), choose(r, 0, 20, 300)
		if r.crowd > 0 {
			w.crowd = r.crowd
			w.many = choose(r, 127, 128, 129, 255, 256, 257, 258, 300, 513, 1023, 1024, 1025, 1026, 1100, r.In(100, 1200), r.In(1024, 1200))
			actors, vestings, htlcs = choose(r, 2, 4, 40), r.N(3), r.N(3)
			if w.crowd == 1 && r.P(2, 3) {
				w.many = choose(r, 2047, 2048, 2049, 4095, 4096, 4097, r.In(1200, 5000))
			}
			switch w.crowd {
			case 3:
				vestings = w.many + r.N(10)
			case 4:
				htlcs = w.many + r.N(10)
			}
		}
	}
	for i := actors; i > 0; i-- {
		a := genActor(r)
		w.actors = append(w.actors, a)
		w.byAddr[a.addr] = a
	}
	for _, a := range w.actors {
		if w.crowd > 0 {
			w.model.put(a.addr, rAcc{value: 1<<43 + r.U(40)})
		} else if r.P(4, 5) {
			w.model.put(a.addr, rAcc{value: w.amount()})
		}
	}
	for i := vestings; i > 0; i-- {
		addr := r.B20()
		w.past = append(w.past, addr)
		a := w.genVesting()
		if w.crowd == 3 && r.P(19, 20) { // all of it is free
			a.value, a.start, a.step = 1+r.U(1+r.N(29)), 0, 1
			a.total, a.stepAmount = a.value, a.value
		}
		w.model.put(addr, a)
	}
	for i := htlcs; i > 0; i-- {
		addr := r.B20()
		a, sec := w.genHTLC()
		if w.crowd == 4 {
			a.value = (1 + r.U(1+r.N(29))) * uint64(a.rounds)
			a.total = a.value
		}
		w.secrets[addr] = sec
		w.past = append(w.past, addr)
		w.model.put(addr, a)
	}
	return w
}

// amount is a balance.
func (w *world) amount() uint64 {
	r := w.r
	if w.rich && r.P(1, 2) {
		return choose(r, ^uint64(0), ^uint64(0)-uint64(r.N(5)), 1<<63, 1<<63-1, 1<<63+uint64(r.N(10)))
	}
	if r.P(1, 8) {
		limit := uint64(1) << 52
		if w.rich {
			limit = ^uint64(0)
		}
		if v, ok := r.Const(limit); ok && v > 0 {
			return v
		}
	}
	switch r.N(6) {
	case 0:
		return uint64(r.In(1, 20))
	case 1:
		return 1<<uint(r.In(1, 52)) + uint64(r.N(2))
	default:
		return uint64(r.In(1, 1_000_000_000))
	}
}

func (w *world) someone() *actor { return w.actors[w.r.N(len(w.actors))] }

// fresh is an address that is not in use.
func (w *world) fresh() (addr [20]byte) {
	for {
		w.r.Fill(addr[:])
		if _, ok := w.model[addr]; !ok {
			return
		}
	}
}

// near is a height close to the current one.
func (w *world) near() uint32 {
	if w.r.P(1, 12) {
		if v, ok := w.r.Const(1<<32 - 1); ok {
			return choose(w.r, uint32(v), w.height+uint32(v), w.height-uint32(v))
		}
	}
	h := int64(w.height) + int64(choose(w.r, 0, 0, 1, -1, 2, -2, w.r.In(-20, 20), w.r.In(-3000, 3000)))
	if h < 0 {
		h = 0
	}
	return uint32(h)
}

func (w *world) genVesting() rAcc {
	r := w.r
	a := rAcc{kind: kindVesting, owner: w.someone().addr, value: w.amount()}
	switch r.N(4) {
	case 0:
		a.start = 0
	default:
		a.start = w.near()
	}
	switch r.N(6) {
	case 0:
		a.step = 0
	case 5:
		a.step = uint32(r.Len(1<<32-1, 2))
	case 1, 2:
		a.step = uint32(r.In(1, 3))
	case 3:
		a.step = uint32(r.In(1, 3000))
	default:
		a.step = uint32(r.U(32))
	}
	switch r.N(6) {
	case 0:
		a.stepAmount = 0
	case 1:
		a.stepAmount = r.U(64)
	default:
		a.stepAmount = a.value/uint64(r.In(1, 8)) + uint64(r.N(2))
	}
	switch r.N(6) {
	case 0:
		a.total = r.U(64)
	case 1:
		a.total = a.value / 2
	case 2:
		a.total = a.value + a.value/uint64(r.In(1, 4))
	default:
		a.total = a.value
	}
	return a
}

func (w *world) genHTLC() (rAcc, secret) {
	r := w.r
	a := rAcc{kind: kindHTLC, sender: w.someone().addr, recipient: w.someone().addr, value: w.amount(), timeout: w.near()}
	a.total = a.value
	if r.P(1, 5) {
		a.total = w.amount()
	}
	a.alg = choose[uint8](r, 1, 1, 3, 3)
	a.rounds = choose[uint8](r, 1, 2, 4, 8, 3, 5, 10, 255)
	if r.P(1, 6) {
		a.rounds = max(1, uint8(r.Len(255, 1)))
	}
	sec := secret{pre: r.B32(), rounds: a.rounds}
	a.root, _ = hashRounds(a.alg, sec.pre, sec.rounds)
	if w.crowd == 0 && r.P(1, 20) {
		a.alg = choose[uint8](r, 0, 2, 4)
	}
	return a, sec
}

// ---- transactions ----

// blockGen collects the transactions of a block.
type blockGen struct {
	w     *world
	left  ledger // after the debits so far
	txs   []wire.Tx
	kinds []string
	made  map[[20]byte]bool // contracts that it creates
	paid  map[[20]byte]bool
	sign  []func() // renews the signatures after a change of the transaction
}

func (g *blockGen) add(kind string, x wire.Tx, sign func()) {
	sign()
	g.sign = append(g.sign, sign)
	d := takeApart(x)
	a := g.left.get(d.sender)
	if b, why := debit(a, d, g.w.height); why == "" {
		g.left.put(d.sender, b)
	}
	g.txs = append(g.txs, x)
	g.kinds = append(g.kinds, kind)
}

// spend chooses value and fee out of an available amount.
func (g *blockGen) spend(avail uint64) (value, fee uint64) {
	r := g.w.r
	amount := avail
	switch r.N(8) {
	case 0, 1: // everything
	case 2: // all but a little
		if avail > 3 {
			amount = avail - uint64(r.In(1, 3))
		}
	case 4:
		if v, ok := r.Const(avail); ok && r.Bool() {
			amount = v
			if r.Bool() {
				amount = avail - v
			}
		} else if avail > 1 {
			amount = 1 + r.Uint64()%(avail-1)
		}
	case 3:
		amount = min(avail, 1)
	default:
		if avail > 1 {
			amount = 1 + r.Uint64()%(avail-1)
		}
	}
	if g.w.crowd > 0 && avail > 1<<40 {
		value, fee = uint64(r.In(1, 1000)), 1+r.U(1+r.N(12))
		if r.P(1, 30) {
			fee = 0
		}
		return
	}
	if g.w.crowd > 0 {
		amount = avail - avail/uint64(r.In(2, 10))
		if r.P(9, 10) {
			amount = avail
		}
		fee = uint64(r.N(int(min(amount, 20)) + 1))
		return amount - fee, fee
	}
	if r.large && r.P(9, 10) {
		amount = min(avail, 1+r.Uint64()%(avail/500+1))
	}
	if r.P(1, 60) {
		return 0, amount
	}
	if r.P(1, 60) {
		return 0, 0
	}
	value = amount
	if r.Bool() && amount > 1 {
		fee = r.Uint64() % min(amount, 1<<uint(r.In(1, 20)))
		if r.P(1, 8) {
			if v, ok := r.Const(amount); ok {
				fee = v
			}
		}
		value -= fee
	}
	return
}

func (g *blockGen) ext(sender [20]byte, senderType uint8) *wire.ExtendedTx {
	return &wire.ExtendedTx{Sender: sender, SenderType: senderType, ValidityStartHeight: g.w.validity(), NetworkID: g.w.net(), Flags: oddFlags(g.w.r)}
}

// validity is the height a transaction is valid from. Nothing but its signature depends on it.
func (w *world) validity() uint32 { return oddHeight(w.r, w.height) }

func oddHeight(r *Rand, h uint32) uint32 {
	switch r.N(8) {
	case 0, 1:
		return h
	case 2:
		return h + uint32(r.In(-2, 2))
	case 3: // the earliest that wallets would use
		return h - uint32(r.In(117, 122))
	case 4:
		return uint32(r.U(32))
	case 5:
		return h + uint32(r.In(-5000, 5000))
	default:
		return h - uint32(r.In(0, 119))
	}
}

// net is the network of a transaction. Nothing but its signature depends on it.
func (w *world) net() uint8 {
	if w.r.P(1, 4) {
		return uint8(w.r.U(8))
	}
	return w.network
}

// oddHeader fills what applying a block does not depend on.
func (w *world) oddHeader(b *wire.Block) {
	r := w.r
	h := &b.Header
	switch r.N(4) {
	case 0: // nothing: equal headers at equal heights
		return
	case 1: // hashes seen before
		*h = wire.BlockHeader{Version: uint16(r.U(16)), PrevHash: w.lastHash, InterlinkHash: w.lastHash, BodyHash: w.lastHash, AccountsHash: w.lastHash,
			NBits: uint32(r.U(32)), Height: h.Height, Timestamp: uint32(r.U(32)), Nonce: uint32(r.U(32))}
	default:
		height := h.Height
		*h = genHeader(r)
		h.Height = height
	}
	w.lastHash = h.BodyHash
	if r.P(1, 3) {
		fixInterlink(&b.Interlink, genInterlink(r, r.depth(), [32]byte{}))
	}
	if r.Bool() {
		b.Body.ExtraData = r.Bytes(choose(r, 1, 20, 254, 255, r.N(256), r.Len(255, 1)))
	}
}

// oddFlags sets flag bits without a meaning. Only the lowest has one, contract creation.
func oddFlags(r *Rand) uint8 {
	if r.P(7, 8) {
		return 0
	}
	return uint8(r.U(8)) &^ 1
}

// payee chooses a recipient that takes payments.
func (g *blockGen) payee() (addr [20]byte) {
	r := g.w.r
	old, ok := g.w.former()
	switch {
	case ok && r.P(1, 6):
		addr = old
	case r.P(1, 4):
		addr = r.B20()
	default:
		addr = g.w.someone().addr
	}
	if r.large { // one mistake would spoil the whole block
		if g.made[addr] || g.w.model.get(addr).kind != kindBasic {
			addr = g.w.someone().addr
		}
		g.paid[addr] = true
	}
	return
}

// site chooses where to create a contract.
func (g *blockGen) site() (addr [20]byte) {
	r, w := g.w.r, g.w
	addr = r.B20()
	if r.P(1, 8) { // onto somebody's basic account
		addr = w.someone().addr
	}
	if old, ok := w.former(); ok && r.P(1, 4) { // where there was one before
		addr = old
	}
	for r.large && (g.made[addr] || g.paid[addr] || w.byAddr[addr] != nil || w.model.get(addr).kind != kindBasic) {
		addr = w.fresh()
	}
	g.made[addr] = true
	return
}

// former is the address of a contract that is gone.
func (w *world) former() (addr [20]byte, ok bool) {
	if len(w.past) == 0 {
		return
	}
	addr = w.past[w.r.N(len(w.past))]
	return addr, w.model.get(addr).kind == kindBasic
}

// transfer moves funds between basic accounts.
func (g *blockGen) transfer() bool {
	r := g.w.r
	for try := 0; try < 6; try++ {
		a := g.w.someone()
		acc := g.left.get(a.addr)
		if acc.kind != kindBasic || acc.value == 0 {
			continue
		}
		value, fee := g.spend(acc.value)
		if a.single() && r.Bool() {
			x := &wire.BasicTx{Recipient: g.payee(), Value: value, Fee: fee, ValidityStartHeight: g.w.validity(), NetworkID: g.w.net()}
			g.add("basic", x, func() { a.signBasic(x) })
			return true
		}
		x := g.ext(a.addr, kindBasic)
		x.Recipient, x.Value, x.Fee = g.payee(), value, fee
		x.Data = r.Bytes(choose(r, 0, 0, 1, 64, 200, r.Len(1000, 0)))
		g.add("extended", x, func() { x.Proof = a.proofBytes(x) })
		return true
	}
	return false
}

// vestingData encodes terms in one of the documented formats, as far as it can express them.
func vestingData(r *Rand, a rAcc) []byte {
	d := append([]byte(nil), a.owner[:]...)
	switch r.N(3) {
	case 0:
		return bePut(d, uint64(a.step), 32)
	case 1:
		return bePut(bePut(bePut(d, uint64(a.start), 32), uint64(a.step), 32), a.stepAmount, 64)
	default:
		return bePut(bePut(bePut(bePut(d, uint64(a.start), 32), uint64(a.step), 32), a.stepAmount, 64), a.total, 64)
	}
}

func htlcData(a rAcc) []byte {
	d := append(append([]byte(nil), a.sender[:]...), a.recipient[:]...)
	d = append(append(d, a.alg), a.root[:]...)
	return bePut(append(d, a.rounds), uint64(a.timeout), 32)
}

// create makes a contract.
func (g *blockGen) create() bool {
	r, w := g.w.r, g.w
	for try := 0; try < 6; try++ {
		a := w.someone()
		acc := g.left.get(a.addr)
		if acc.kind != kindBasic || acc.value == 0 {
			continue
		}
		x := g.ext(a.addr, kindBasic)
		x.Flags |= 1
		x.Value, x.Fee = g.spend(acc.value)
		if !r.large && w.crowd == 0 && r.P(1, 14) { // in place of its own account, with nothing left for the contract
			x.Recipient = a.addr
			g.made[a.addr] = true
			if r.P(2, 3) {
				x.Value, x.Fee = 0, acc.value
				if r.P(1, 3) {
					x.Fee = r.Uint64() % acc.value
				}
			}
		} else {
			x.Recipient = g.site()
		}
		w.past = append(w.past, x.Recipient)
		if r.Bool() {
			x.RecipientType = kindVesting
			t := w.genVesting()
			t.value = x.Value
			if r.Bool() {
				t.total, t.stepAmount = x.Value, x.Value/uint64(r.In(1, 5))
			}
			x.Data = vestingData(r, t)
			g.add("create vesting", x, func() { x.Proof = a.proofBytes(x) })
		} else {
			x.RecipientType = kindHTLC
			t, sec := w.genHTLC()
			w.secrets[x.Recipient] = sec
			x.Data = htlcData(t)
			g.add("create htlc", x, func() { x.Proof = a.proofBytes(x) })
		}
		return true
	}
	return false
}

// withdraw takes funds from a vesting contract.
func (g *blockGen) withdraw() bool {
	r := g.w.r
	for _, addr := range shuffled(r, g.left.addresses()) {
		c := g.left[addr]
		if c.kind != kindVesting {
			continue
		}
		owner := g.w.byAddr[c.owner]
		free := vestingFree(c, g.w.height)
		if owner == nil || free == 0 && r.P(9, 10) {
			continue
		}
		x := g.ext(addr, kindVesting)
		x.Recipient = g.payee()
		x.Value, x.Fee = g.spend(free)
		x.Data = r.Bytes(choose(r, 0, 0, 0, 1, 24, 44, 78, r.Len(300, 0)))
		g.add("vesting withdrawal", x, func() { x.Proof = owner.proofBytes(x) })
		return true
	}
	return false
}

// htlcProof makes the proof of one of the three ways out of a hashed timelock.
func (g *blockGen) htlcProof(c rAcc, sec secret, x *wire.ExtendedTx, way int, depth uint8) []byte {
	from, to := g.w.byAddr[c.sender], g.w.byAddr[c.recipient]
	if from == nil || to == nil {
		return nil
	}
	switch way {
	case 1:
		pre, _ := hashRounds(c.alg, sec.pre, sec.rounds-min(depth, sec.rounds))
		b := append([]byte{1, c.alg, depth}, c.root[:]...)
		return append(append(b, pre[:]...), to.proofBytes(x)...)
	case 2:
		return append(append([]byte{2}, to.proofBytes(x)...), from.proofBytes(x)...)
	default:
		return append([]byte{3}, from.proofBytes(x)...)
	}
}

// settle takes funds from a hashed timelock.
func (g *blockGen) settle() bool {
	r := g.w.r
	for _, addr := range shuffled(r, g.left.addresses()) {
		c := g.left[addr]
		sec, ok := g.w.secrets[addr]
		if c.kind != kindHTLC || !ok || c.value == 0 || c.rounds == 0 {
			continue
		}
		x := g.ext(addr, kindHTLC)
		x.Recipient = g.payee()
		way := r.In(1, 3)
		if g.w.crowd > 0 || r.P(4, 5) { // one that can work
			way = 1
			if g.w.height > c.timeout {
				way = 3
			}
			if r.P(1, 4) {
				way = 2
			}
		}
		avail := c.value
		depth := uint8(0)
		if way == 1 {
			depth = uint8(r.In(0, int(c.rounds)))
			if r.Bool() || g.w.crowd > 0 && c.rounds&(c.rounds-1) != 0 {
				depth = c.rounds
			}
			keep := new(big.Int).SetUint64(c.total)
			keep.Mul(keep, big.NewInt(int64(c.rounds-depth)))
			keep.Div(keep, big.NewInt(int64(c.rounds)))
			k := keep.Uint64()
			if k >= c.value {
				avail = 0
			} else {
				avail = c.value - k
			}
		}
		x.Value, x.Fee = g.spend(avail)
		x.Data = r.Bytes(choose(r, 0, 0, 0, 1, 24, 44, 78, r.Len(300, 0)))
		if g.htlcProof(c, sec, x, way, depth) == nil || avail == 0 && g.w.crowd > 0 {
			continue
		}
		g.add([]string{"", "htlc transfer", "htlc early", "htlc timeout"}[way], x, func() { x.Proof = g.htlcProof(c, sec, x, way, depth) })
		return true
	}
	return false
}

// newBlockGen starts a block.
func (w *world) newBlockGen() *blockGen {
	return &blockGen{w: w, left: w.model.clone(), made: map[[20]byte]bool{}, paid: map[[20]byte]bool{}}
}

// genWorldBlock makes a block that is usually valid, with its prune list.
func (w *world) genWorldBlock() (*wire.Block, *blockGen) {
	r := w.r
	g := w.newBlockGen()
	n := choose(r, 0, 1, 1, 2, 3, 4, 6)
	if r.large {
		n = choose(r, 64, 127, 128, 254, 255, 256, 257, 300, r.In(20, 600), r.Len(600, 300))
	}
	if w.crowd > 0 {
		n = w.many
	}
	for i := 0; i < n; i++ {
		for try := 0; try < 3; try++ {
			ok := false
			k := r.N(8)
			if w.crowd > 0 && (w.crowd != 1 || try == 0) {
				k = []int{0, 0, 3, 5, 6}[w.crowd]
				if r.P(1, 400) {
					k = r.N(8)
				}
			}
			switch k {
			case 0, 1, 2:
				ok = g.transfer()
			case 3, 4:
				ok = g.create()
			case 5:
				ok = g.withdraw()
			default:
				ok = g.settle()
			}
			if ok {
				break
			}
		}
	}
	return w.finish(g), g
}

// finish makes a block of the transactions and lists what has to be pruned.
func (w *world) finish(g *blockGen) *wire.Block {
	r := w.r
	b := &wire.Block{Header: wire.BlockHeader{Version: 1, Height: w.height, NBits: 0x1f00ffff, Timestamp: w.height * 60}}
	b.Body = &wire.BlockBody{MinerAddr: w.someone().addr}
	for try := 0; try < 10 && w.model.get(b.Body.MinerAddr).kind != kindBasic; try++ {
		b.Body.MinerAddr = r.B20()
	}
	if r.P(1, 6) {
		b.Body.MinerAddr = r.B20()
	}
	w.oddHeader(b)
	for _, x := range g.txs {
		b.Body.Txs = append(b.Body.Txs, wire.WrapTx{Tx: x})
	}
	w.fillPruned(b)
	if l := b.Body.Pruned; len(l) > 0 && r.P(1, 6) { // the reward goes where a contract was
		b.Body.MinerAddr = l[r.N(len(l))].Address
		w.fillPruned(b)
	}
	return b
}

// fillPruned gives the block the prune list it needs, in any order.
func (w *world) fillPruned(b *wire.Block) {
	if b.Body == nil {
		return
	}
	b.Body.Pruned = nil
	_, _, prunes := w.model.apply(b, true)
	for _, p := range shuffled(w.r, prunes) {
		b.Body.Pruned = append(b.Body.Pruned, wire.AccountPruned{Address: p.addr, Account: wire.WrapAccount{Account: p.acc.wire()}})
	}
}

// advance moves on to the next height.
func (w *world) advance() {
	r := w.r
	if w.height >= 1<<32-5000 { // never beyond the last
		w.height -= uint32(r.N(1000))
		return
	}
	switch r.N(8) {
	case 0:
		w.height += uint32(r.In(2, 50))
	case 1:
		if w.height < 48_000_000 {
			w.height += uint32(r.In(1, 4000))
		}
	case 2: // the order of heights is up to the caller
		switch r.N(4) {
		case 0:
		case 1:
			w.height -= uint32(r.N(int(min(w.height, 5001))))
		default:
			w.height++
		}
	default:
		w.height++
	}
}

// ---- instance under test ----

type instance struct {
	store pathStore
	acc   *accounts.Accounts
	other *accounts.Accounts // sees the same tree, or nil
}

func newInstance(r *Rand) *instance {
	in := &instance{}
	switch r.N(5) {
	case 0:
		in.store = newDBStore()
	case 1:
		in.store = newRecStore(&tree.OverlayStore{Lower: newDBStore()})
	case 2, 3:
		in.store = newBareStore(r)
	default:
		in.store = newRecStore(tree.NewMemStore())
	}
	in.acc = accounts.NewAccounts(&tree.PMTree{Store: bare(in.store)})
	if r.P(1, 5) {
		in.other = accounts.NewAccounts(in.acc.Tree)
	}
	return in
}

// load puts all accounts of the model into the state.
func (in *instance) load(r *Rand, l ledger) {
	for _, addr := range shuffled(r, l.addresses()) {
		a := addr
		in.acc.PutAccount(&a, l[addr].wire())
	}
}

// stored lists the entries found in the store.
func (in *instance) stored() map[[20]byte][]byte {
	out := map[[20]byte][]byte{}
	for _, p := range in.store.paths() {
		if len(p) != 40 {
			continue
		}
		leaf, ok := in.store.GetNode(tree.Nibbles(p)).(*tree.Leaf)
		if !ok {
			continue
		}
		var k [20]byte
		for i := range p {
			setDigit(&k, i, p[i])
		}
		out[k] = leaf.Value
	}
	return out
}

// balances adds up what all stored accounts hold.
func (in *instance) balances(t *T) *big.Int {
	sum := new(big.Int)
	for k, v := range in.stored() {
		if len(v) < 9 {
			t.Failf("account %x is stored as %x", k, v)
		}
		n := uint64(0)
		for _, c := range v[1:9] {
			n = n<<8 | uint64(c)
		}
		sum.Add(sum, new(big.Int).SetUint64(n))
	}
	return sum
}

// push applies a block. A panic is a violation.
func (in *instance) push(t *T, b *wire.Block) error {
	var err error
	if in.other != nil { // the state is in the tree
		in.acc, in.other = in.other, in.acc
	}
	if p := try(func() { err = in.acc.Push(b) }); p != "" {
		t.Failf("Push panicked: %s\nblock %s", p, dumpBlock(b))
	}
	return err
}

// written counts the changes to the store beneath the overlays, if there are any.
func (in *instance) written() int {
	if b, ok := in.store.(*bareStore); ok && b.under != nil {
		return b.under.puts + b.under.dels
	}
	return 0
}

// differs compares the state with the model.
func (in *instance) differs(l ledger) string {
	want := l.entries()
	got := in.stored()
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("account %x is missing, want %v", k, l[k])
		}
		if string(g) != string(v) {
			return fmt.Sprintf("account %x is stored as %x, want %v", k, g, l[k])
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("account %x is stored as %x, want none", k, v)
		}
	}
	nodes, root := refTree(want)
	if h := in.acc.Tree.Hash(); h != root {
		return fmt.Sprintf("root hash is %x, want %x", h, root)
	}
	return nodeDiff(in.store, in.store.paths(), nodes)
}

// blockText describes a block when it is asked to.
type blockText struct{ *wire.Block }

func dumpBlock(b *wire.Block) fmt.Stringer { return blockText{b} }

func (t blockText) String() string {
	b := t.Block
	if b.Body == nil {
		return fmt.Sprintf("height %d without body", b.Header.Height)
	}
	s := fmt.Sprintf("height %d, miner %x", b.Header.Height, b.Body.MinerAddr)
	for i := range b.Body.Txs {
		if i > 80 {
			s += fmt.Sprintf("\n  and %d more transactions", len(b.Body.Txs)-i)
			break
		}
		x := takeApart(b.Body.Txs[i].Tx)
		s += fmt.Sprintf("\n  tx %d: %x (type %d) -> %x (type %d), value %d, fee %d, flags %d, data %x, proof %d bytes %x",
			i, x.sender, x.senderType, x.recipient, x.recipientType, x.value, x.fee, x.flags, trimBytes(x.data, 100), len(x.proof), trimBytes(x.proof, 80))
	}
	for i := range b.Body.Pruned {
		if i > 80 {
			s += fmt.Sprintf("\n  and %d more", len(b.Body.Pruned)-i)
			break
		}
		p := &b.Body.Pruned[i]
		s += fmt.Sprintf("\n  prune %x %v", p.Address, fromWire(p.Account.Account))
	}
	return s
}

// copyBlock makes an independent copy.
func copyBlock(b *wire.Block) *wire.Block {
	out := &wire.Block{Header: b.Header}
	copyInterlink(&out.Interlink, &b.Interlink)
	if b.Body == nil {
		return out
	}
	body := *b.Body
	body.Txs, body.Pruned = nil, nil
	body.ExtraData = append([]byte(nil), b.Body.ExtraData...)
	copies := map[wire.Tx]wire.Tx{} // one object remains one object
	for _, x := range b.Body.Txs {
		c, ok := copies[x.Tx]
		if !ok {
			c = copyTx(x.Tx)
			copies[x.Tx] = c
		}
		body.Txs = append(body.Txs, wire.WrapTx{Tx: c})
	}
	for _, p := range b.Body.Pruned {
		body.Pruned = append(body.Pruned, wire.AccountPruned{Address: p.Address, Account: wire.WrapAccount{Account: fromWire(p.Account.Account).wire()}})
	}
	out.Body = &body
	return out
}

// copyInterlink copies an interlink, so that its references refer to the copies of the hashes.
func copyInterlink(dst, src *wire.BlockInterlink) {
	dst.Repeats = wire.BitSet{Len: src.Repeats.Len, Bits: append([]byte(nil), src.Repeats.Bits...)}
	dst.PrevHash = src.PrevHash
	dst.Compressed = append([][32]byte(nil), src.Compressed...)
	dst.Hashes = nil
	for _, h := range src.Hashes {
		ref := &dst.PrevHash
		if h != &src.PrevHash {
			c := *h
			ref = &c
		}
		for i := range src.Compressed {
			if h == &src.Compressed[i] {
				ref = &dst.Compressed[i]
			}
		}
		dst.Hashes = append(dst.Hashes, ref)
	}
}

func copyTx(x wire.Tx) wire.Tx {
	switch o := x.(type) {
	case *wire.BasicTx:
		c := *o
		return &c
	case *wire.ExtendedTx:
		c := *o
		c.Data = append([]byte(nil), o.Data...)
		c.Proof = append([]byte(nil), o.Proof...)
		return &c
	}
	panic("tx")
}

func ed25519Sign(a *actor, content []byte) []byte { return ed25519.Sign(a.key, content) }
