package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"sort"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/wire"
)

// ---- model of the ledger ----

const (
	kindBasic   = 0
	kindVesting = 1
	kindHTLC    = 2
)

// rAcc is an account. Fields that do not belong to its kind are zero.
type rAcc struct {
	kind  uint8
	value uint64
	// vesting
	owner       [20]byte
	start, step uint32
	stepAmount  uint64
	// hashed timelock
	sender, recipient [20]byte
	alg               uint8
	root              [32]byte
	rounds            uint8
	timeout           uint32
	// both
	total uint64
}

func (a rAcc) wire() wire.Account {
	switch a.kind {
	case kindBasic:
		return &wire.BasicAccount{Value: a.value}
	case kindVesting:
		return &wire.VestingAccount{Value: a.value, Owner: a.owner, VestingStart: a.start, VestingStepBlocks: a.step,
			VestingStepAmount: a.stepAmount, VestingTotalAmount: a.total}
	case kindHTLC:
		return &wire.HTLCAccount{Value: a.value, Sender: a.sender, Recipient: a.recipient, Hash: wire.Hash{Algorithm: a.alg, Bytes: a.root},
			HashCount: a.rounds, Timeout: a.timeout, TotalAmount: a.total}
	}
	panic("kind")
}

func fromWire(acc wire.Account) rAcc {
	switch o := acc.(type) {
	case *wire.BasicAccount:
		return rAcc{value: o.Value}
	case *wire.VestingAccount:
		return rAcc{kind: kindVesting, value: o.Value, owner: o.Owner, start: o.VestingStart, step: o.VestingStepBlocks,
			stepAmount: o.VestingStepAmount, total: o.VestingTotalAmount}
	case *wire.HTLCAccount:
		return rAcc{kind: kindHTLC, value: o.Value, sender: o.Sender, recipient: o.Recipient, alg: o.Hash.Algorithm, root: o.Hash.Bytes,
			rounds: o.HashCount, timeout: o.Timeout, total: o.TotalAmount}
	}
	return rAcc{kind: 0xee}
}

// bytes is the stored form.
func (a rAcc) bytes() []byte {
	return layout(&wire.WrapAccount{Account: a.wire()})
}

func (a rAcc) String() string {
	switch a.kind {
	case kindBasic:
		return fmt.Sprintf("basic{%d}", a.value)
	case kindVesting:
		return fmt.Sprintf("vesting{%d owner %x start %d every %d step %d total %d}", a.value, a.owner[:3], a.start, a.step, a.stepAmount, a.total)
	default:
		return fmt.Sprintf("htlc{%d from %x to %x alg %d rounds %d timeout %d total %d}", a.value, a.sender[:3], a.recipient[:3], a.alg, a.rounds, a.timeout, a.total)
	}
}

// terms is the account without its balance.
func (a rAcc) terms() rAcc { a.value = 0; return a }

type ledger map[[20]byte]rAcc

func (l ledger) get(addr [20]byte) rAcc { return l[addr] }

func (l ledger) put(addr [20]byte, a rAcc) {
	if a.kind == kindBasic && a.value == 0 {
		delete(l, addr)
		return
	}
	l[addr] = a
}

func (l ledger) clone() ledger {
	out := make(ledger, len(l))
	for k, v := range l {
		out[k] = v
	}
	return out
}

func (l ledger) entries() map[[20]byte][]byte {
	out := make(map[[20]byte][]byte, len(l))
	for k, v := range l {
		out[k] = v.bytes()
	}
	return out
}

func (l ledger) addresses() [][20]byte {
	out := make([][20]byte, 0, len(l))
	for k := range l {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i][:], out[j][:]) < 0 })
	return out
}

func (l ledger) sum() *big.Int {
	s := new(big.Int)
	for _, a := range l {
		s.Add(s, new(big.Int).SetUint64(a.value))
	}
	return s
}

// ledgerText describes a state when it is asked to.
type ledgerText struct{ ledger }

func (l ledger) dump() fmt.Stringer { return ledgerText{l} }

func (t ledgerText) String() string {
	l := t.ledger
	s := ""
	for i, a := range l.addresses() {
		if i > 100 {
			s += fmt.Sprintf("  and %d more accounts\n", len(l)-i)
			break
		}
		s += fmt.Sprintf("  %x %v\n", a, l[a])
	}
	return s
}

// refTx is a transaction taken apart.
type refTx struct {
	data                      []byte
	sender, recipient         [20]byte
	senderType, recipientType uint8
	value, fee                uint64
	flags                     uint8
	proof                     []byte
}

func takeApart(x wire.Tx) refTx {
	switch o := x.(type) {
	case *wire.BasicTx:
		return refTx{sender: refAddress(o.SenderPubKey[:]), recipient: o.Recipient, value: o.Value, fee: o.Fee}
	case *wire.ExtendedTx:
		return refTx{data: o.Data, sender: o.Sender, senderType: o.SenderType, recipient: o.Recipient, recipientType: o.RecipientType,
			value: o.Value, fee: o.Fee, flags: o.Flags, proof: o.Proof}
	}
	panic("tx")
}

// parseProof reads one signature proof from the front.
func parseProof(b []byte) (p wire.SignatureProof, rest []byte, ok bool) {
	if len(b) < 33 {
		return p, nil, false
	}
	copy(p.PublicKey[:], b)
	n := int(b[32])
	b = b[33:]
	nb := (n + 7) / 8
	if len(b) < nb+32*n+64 {
		return p, nil, false
	}
	p.MerklePath.Branches = wire.BitSet{Len: uint8(n), Bits: b[:nb]}
	b = b[nb:]
	for i := 0; i < n; i++ {
		var h [32]byte
		copy(h[:], b)
		p.MerklePath.Hashes = append(p.MerklePath.Hashes, h)
		b = b[32:]
	}
	copy(p.Signature[:], b)
	return p, b[64:], true
}

const undecided = "undecided"

// vestingFree is the part of a vesting contract's balance that can be spent.
func vestingFree(a rAcc, height uint32) uint64 {
	if height <= a.start {
		return 0
	}
	if a.step == 0 || a.stepAmount == 0 {
		return a.value
	}
	steps := new(big.Int).SetUint64(uint64(height-a.start) / uint64(a.step))
	locked := new(big.Int).SetUint64(a.total)
	locked.Sub(locked, steps.Mul(steps, new(big.Int).SetUint64(a.stepAmount)))
	if locked.Sign() < 0 {
		locked.SetInt64(0)
	}
	free := new(big.Int).Sub(new(big.Int).SetUint64(a.value), locked)
	if free.Sign() <= 0 {
		return 0
	}
	return free.Uint64()
}

// htlcAllows tells whether a regular transfer with the given depth may leave the given balance.
func htlcAllows(a rAcc, depth uint8, left uint64) (ok, decided bool) {
	if a.rounds == 0 { // no creation makes one, the protocol has no answer
		return false, false
	}
	if depth >= a.rounds {
		return true, true
	}
	// floor(total * (rounds-depth) / rounds)
	hi, lo := bits.Mul64(a.total, uint64(a.rounds-depth))
	keep, _ := bits.Div64(hi, lo, uint64(a.rounds))
	margin := uint64(0)
	if a.rounds&(a.rounds-1) != 0 || a.total >= 1<<45 || left >= 1<<45 {
		// The protocol computes this in floating point.
		margin = 2 + a.total>>48 + left>>48
	}
	switch {
	case left >= keep && left-keep >= margin:
		return true, true
	case left < keep && keep-left > margin:
		return false, true
	}
	return false, false
}

func hashRounds(alg uint8, h [32]byte, rounds uint8) ([32]byte, bool) {
	for i := 0; i < int(rounds); i++ {
		switch alg {
		case 1:
			h = blake2b.Sum256(h[:])
		case 3:
			h = sha256.Sum256(h[:])
		default:
			return h, false
		}
	}
	return h, true
}

// debit applies the outgoing side of a transaction.
func debit(a rAcc, x refTx, height uint32) (rAcc, string) {
	amount, carry := bits.Add64(x.value, x.fee, 0)
	if carry != 0 {
		return a, "value and fee overflow"
	}
	if amount > a.value {
		return a, "overspent"
	}
	left := a.value - amount
	switch a.kind {
	case kindVesting:
		if amount > vestingFree(a, height) {
			return a, "not vested yet"
		}
		p, rest, ok := parseProof(x.proof)
		if !ok || len(rest) > 0 {
			return a, "malformed vesting proof"
		}
		if refSigner(&p) != a.owner {
			return a, "not the owner"
		}
	case kindHTLC:
		if len(x.proof) == 0 {
			return a, "no htlc proof"
		}
		b := x.proof[1:]
		switch x.proof[0] {
		case 1:
			if height > a.timeout {
				return a, "htlc expired"
			}
			if len(b) < 66 {
				return a, "malformed htlc proof"
			}
			alg, depth := b[0], b[1]
			var root, pre [32]byte
			copy(root[:], b[2:])
			copy(pre[:], b[34:])
			p, rest, ok := parseProof(b[66:])
			if !ok || len(rest) > 0 {
				return a, "malformed htlc proof"
			}
			if alg != a.alg || root != a.root {
				return a, "other hash"
			}
			if h, ok := hashRounds(alg, pre, depth); !ok || h != root {
				return a, "wrong pre-image"
			}
			if refSigner(&p) != a.recipient {
				return a, "not the recipient"
			}
			ok, decided := htlcAllows(a, depth, left)
			if !decided {
				return a, undecided
			}
			if !ok {
				return a, "more than the hash depth unlocks"
			}
		case 2:
			p, rest, ok := parseProof(b)
			if !ok {
				return a, "malformed htlc proof"
			}
			q, rest, ok := parseProof(rest)
			if !ok || len(rest) > 0 {
				return a, "malformed htlc proof"
			}
			if refSigner(&p) != a.recipient {
				return a, "not the recipient"
			}
			if refSigner(&q) != a.sender {
				return a, "not the sender"
			}
		case 3:
			if height <= a.timeout {
				return a, "htlc not expired"
			}
			p, rest, ok := parseProof(b)
			if !ok || len(rest) > 0 {
				return a, "malformed htlc proof"
			}
			if refSigner(&p) != a.sender {
				return a, "not the sender"
			}
		default:
			return a, "unknown htlc proof"
		}
	}
	a.value = left
	return a, ""
}

// refCreate makes a contract from creation data.
func refCreate(kind uint8, data []byte, value, balance uint64) (rAcc, string) {
	a := rAcc{kind: kind, value: balance, total: value}
	be := binary.BigEndian
	switch kind {
	case kindVesting:
		if len(data) != 24 && len(data) != 36 && len(data) != 44 {
			return a, "vesting data length"
		}
		copy(a.owner[:], data)
		a.stepAmount = value
		if len(data) == 24 {
			a.step = be.Uint32(data[20:])
		} else {
			a.start = be.Uint32(data[20:])
			a.step = be.Uint32(data[24:])
			a.stepAmount = be.Uint64(data[28:])
		}
		if len(data) == 44 {
			a.total = be.Uint64(data[36:])
		}
	case kindHTLC:
		if len(data) != 78 {
			return a, "htlc data length"
		}
		copy(a.sender[:], data)
		copy(a.recipient[:], data[20:])
		a.alg = data[40]
		copy(a.root[:], data[41:])
		a.rounds = data[73]
		a.timeout = be.Uint32(data[74:])
		if a.rounds == 0 {
			return a, "no hash rounds"
		}
	case kindBasic:
		return a, "creation of a basic account"
	default:
		return a, "creation of unknown type"
	}
	return a, ""
}

type pruneEntry struct {
	addr [20]byte
	acc  rAcc
}

// ledgerReward is replaced in processes that only need the start of the reward schedule.
var ledgerReward = refReward

// apply is the state transition. It returns the next state, or a reason for refusal.
// With auto, the prune list of the block is ignored and the right one returned.
func (l ledger) apply(b *wire.Block, auto bool) (next ledger, why string, prunes []pruneEntry) {
	if b.Body == nil {
		return l, "no body", nil
	}
	if b.Header.Height == 0 {
		return l, "height zero", nil
	}
	h := b.Header.Height
	s := l.clone()
	var txs []refTx
	for i := range b.Body.Txs {
		txs = append(txs, takeApart(b.Body.Txs[i].Tx))
	}
	for _, x := range txs {
		a := s.get(x.sender)
		if x.senderType != a.kind {
			return l, "sender type", nil
		}
		a, why := debit(a, x, h)
		if why != "" {
			return l, why, nil
		}
		s.put(x.sender, a)
	}
	for _, x := range txs {
		a := s.get(x.recipient)
		if x.flags&1 == 0 && x.recipientType != a.kind {
			return l, "recipient type", nil
		}
		if a.kind != kindBasic {
			return l, "payment to a contract", nil
		}
		v, carry := bits.Add64(a.value, x.value, 0)
		if carry != 0 {
			return l, "balance overflow", nil
		}
		a.value = v
		s.put(x.recipient, a)
	}
	for _, x := range txs {
		if x.flags&1 == 0 {
			continue
		}
		a := s.get(x.recipient)
		if a.kind != kindBasic {
			return l, "creation over a contract", nil
		}
		c, why := refCreate(x.recipientType, x.data, x.value, a.value)
		if why != "" {
			return l, why, nil
		}
		s.put(x.recipient, c)
	}
	listed := map[[20]byte]rAcc{}
	if !auto {
		for i := range b.Body.Pruned {
			p := &b.Body.Pruned[i]
			if _, dup := listed[p.Address]; dup {
				return l, "prune list: duplicate", nil
			}
			listed[p.Address] = fromWire(p.Account.Account)
		}
	}
	for _, x := range txs {
		a := s.get(x.sender)
		if a.kind == kindBasic || a.value != 0 {
			continue
		}
		if !auto {
			got, ok := listed[x.sender]
			if !ok {
				return l, "prune list: missing", nil
			}
			if got != a {
				return l, "prune list: altered", nil
			}
			delete(listed, x.sender)
		}
		prunes = append(prunes, pruneEntry{x.sender, a})
		delete(s, x.sender)
	}
	if len(listed) > 0 {
		return l, "prune list: extra", nil
	}
	pay := ledgerReward(uint64(h))
	for _, x := range txs {
		var carry uint64
		pay, carry = bits.Add64(pay, x.fee, 0)
		if carry != 0 {
			return l, "fee overflow", prunes
		}
	}
	m := s.get(b.Body.MinerAddr)
	if m.kind != kindBasic {
		return l, "miner is a contract", prunes
	}
	v, carry := bits.Add64(m.value, pay, 0)
	if carry != 0 {
		return l, "miner overflow", prunes
	}
	m.value = v
	s.put(b.Body.MinerAddr, m)
	return s, "", prunes
}
