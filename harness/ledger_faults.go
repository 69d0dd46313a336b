package main

import (
	"terorie.dev/nimiq/wire"
)

// A fault damages a block that would be accepted. It reports false if it does not apply.
// Whether the damaged block has to be refused is for the model to say.
type fault struct {
	name  string
	prune bool // works on the prune list, which is otherwise made right again
	do    func(w *world, g *blockGen, b *wire.Block) bool
}

// pickExt returns an extended transaction that satisfies the condition.
func pickExt(g *blockGen, ok func(x *wire.ExtendedTx) bool) (*wire.ExtendedTx, int) {
	for _, i := range shuffled(g.w.r, indices(len(g.txs))) {
		if x, is := g.txs[i].(*wire.ExtendedTx); is && (ok == nil || ok(x)) {
			return x, i
		}
	}
	return nil, -1
}

func indices(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func isCreation(x *wire.ExtendedTx) bool  { return x.Flags&1 != 0 }
func notCreation(x *wire.ExtendedTx) bool { return x.Flags&1 == 0 }

// contract returns the address of a contract.
func (w *world) contract() (addr [20]byte, ok bool) {
	for _, a := range shuffled(w.r, w.model.addresses()) {
		if w.model[a].kind != kindBasic {
			return a, true
		}
	}
	return
}

var faults = []fault{
	{"overspend", false, func(w *world, g *blockGen, b *wire.Block) bool {
		if len(g.txs) == 0 {
			return false
		}
		i := w.r.N(len(g.txs))
		d := takeApart(g.txs[i])
		spent := uint64(0)
		for j := 0; j < i; j++ {
			e := takeApart(g.txs[j])
			if e.sender == d.sender {
				spent += e.value + e.fee
			}
		}
		have := w.model.get(d.sender).value
		more := have - spent + choose[uint64](w.r, 1, 1, 2, 1000) - d.fee
		if more < have-spent-d.fee {
			return false
		}
		switch x := g.txs[i].(type) {
		case *wire.BasicTx:
			x.Value = more
		case *wire.ExtendedTx:
			x.Value = more
		}
		g.sign[i]()
		return true
	}},
	{"value and fee wrap around", false, func(w *world, g *blockGen, b *wire.Block) bool {
		if len(g.txs) == 0 {
			return false
		}
		i := w.r.N(len(g.txs))
		small := uint64(w.r.N(3))
		switch x := g.txs[i].(type) {
		case *wire.BasicTx:
			if x.Value == 0 {
				return false
			}
			x.Fee = -x.Value + small
		case *wire.ExtendedTx:
			if x.Value == 0 {
				return false
			}
			x.Fee = -x.Value + small
			if w.r.Bool() {
				x.Value, x.Fee = x.Fee, x.Value
			}
		}
		g.sign[i]()
		return true
	}},
	{"sender type", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, i := pickExt(g, nil)
		if x == nil {
			return false
		}
		old := x.SenderType
		x.SenderType = choose[uint8](w.r, 0, 1, 2, 3, 4, 0xfe, 0xff, 0xff)
		if w.r.Bool() {
			g.sign[i]()
		}
		return x.SenderType != old
	}},
	{"recipient type", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, i := pickExt(g, notCreation)
		if x == nil {
			return false
		}
		x.RecipientType = choose[uint8](w.r, 1, 2, 3, 4, 0xfe, 0xff, 0xff)
		g.sign[i]()
		return true
	}},
	{"payment to a contract", false, func(w *world, g *blockGen, b *wire.Block) bool {
		c, ok := w.contract()
		if !ok {
			return false
		}
		if x, i := pickExt(g, notCreation); x != nil && w.r.P(3, 4) {
			x.Recipient = c
			x.RecipientType = choose(w.r, w.model[c].kind, w.model[c].kind, 0, 0xff)
			g.sign[i]()
			return true
		}
		for i, t := range g.txs {
			if x, ok := t.(*wire.BasicTx); ok {
				x.Recipient = c
				g.sign[i]()
				return true
			}
		}
		return false
	}},
	{"payment to its own contract", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, i := pickExt(g, func(x *wire.ExtendedTx) bool { return x.SenderType != 0 })
		if x == nil {
			return false
		}
		x.Recipient, x.RecipientType = x.Sender, x.SenderType
		g.sign[i]()
		return true
	}},
	{"creation over a contract", false, func(w *world, g *blockGen, b *wire.Block) bool {
		c, ok := w.contract()
		x, i := pickExt(g, isCreation)
		if !ok || x == nil {
			return false
		}
		x.Recipient = c
		g.sign[i]()
		return true
	}},
	{"two creations at one address", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, _ := pickExt(g, isCreation)
		if x == nil {
			return false
		}
		y, j := pickExt(g, func(y *wire.ExtendedTx) bool { return y != x && isCreation(y) })
		if y == nil {
			return false
		}
		y.Recipient = x.Recipient
		g.sign[j]()
		return true
	}},
	{"creation type", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, i := pickExt(g, isCreation)
		if x == nil {
			return false
		}
		x.RecipientType = choose[uint8](w.r, 0, 3, 4, 0x80, 0xfe, 0xff)
		g.sign[i]()
		return true
	}},
	{"creation data", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, i := pickExt(g, isCreation)
		if x == nil {
			return false
		}
		switch w.r.N(4) {
		case 0:
			if len(x.Data) > 0 {
				x.Data = x.Data[:w.r.N(len(x.Data))]
			}
		case 1:
			x.Data = append(x.Data, w.r.Bytes(w.r.In(1, 12))...)
		case 2:
			x.Data = w.r.Bytes(choose(w.r, 0, 1, 20, 23, 25, 35, 37, 43, 45, 77, 79, 78, 44, 36, 24))
		default:
			if x.RecipientType != kindHTLC || len(x.Data) != 78 {
				return false
			}
			x.Data[73] = 0
		}
		g.sign[i]()
		return true
	}},
	{"plain flag on a creation", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, i := pickExt(g, isCreation)
		if x == nil {
			return false
		}
		x.Flags = 0
		g.sign[i]()
		return true
	}},
	{"creation flag on a transfer", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, i := pickExt(g, notCreation)
		if x == nil {
			return false
		}
		x.Flags = 1
		if w.r.Bool() {
			x.RecipientType = uint8(w.r.In(1, 2))
		}
		g.sign[i]()
		return true
	}},
	{"another signer", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, _ := pickExt(g, func(x *wire.ExtendedTx) bool { return x.SenderType != 0 && len(x.Proof) > 0 })
		if x == nil {
			return false
		}
		other := w.someone().proofBytes(x)
		if x.SenderType == kindVesting {
			x.Proof = other
			return true
		}
		switch x.Proof[0] {
		case 1:
			if len(x.Proof) < 67 {
				return false
			}
			x.Proof = append(x.Proof[:67:67], other...)
		case 3:
			x.Proof = append([]byte{3}, other...)
		case 2:
			first, rest, _ := parseProof(x.Proof[1:])
			if w.r.Bool() {
				x.Proof = append(append([]byte{2}, other...), rest...)
			} else if w.r.Bool() {
				x.Proof = append(append([]byte{2}, layout(&first)...), other...)
			} else { // the two swapped
				x.Proof = append(append([]byte{2}, rest...), layout(&first)...)
			}
		default:
			return false
		}
		return true
	}},
	{"damaged proof", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, _ := pickExt(g, func(x *wire.ExtendedTx) bool { return x.SenderType != 0 && len(x.Proof) > 0 })
		if x == nil {
			return false
		}
		switch w.r.N(5) {
		case 0:
			x.Proof = x.Proof[:w.r.N(len(x.Proof))]
		case 1:
			x.Proof = append(x.Proof, w.r.Bytes(w.r.In(1, 3))...)
		case 2:
			x.Proof[0] = choose[byte](w.r, 0, 1, 2, 3, 4, 255)
		case 3:
			x.Proof[w.r.N(min(len(x.Proof), 67))] ^= 1 << w.r.N(8)
		default:
			x.Proof = w.r.mutate(x.Proof)
		}
		return true
	}},
	{"more than unlocked", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, i := pickExt(g, func(x *wire.ExtendedTx) bool { return x.SenderType != 0 })
		if x == nil {
			return false
		}
		c := w.model.get(x.Sender)
		x.Fee = 0
		free := vestingFree(c, w.height)
		switch {
		case c.kind == kindVesting && free < c.value && w.r.Bool():
			x.Value = free + 1
		case c.kind == kindVesting && free > 0 && w.r.Bool(): // the fee on top
			x.Value, x.Fee = free, 1+uint64(w.r.N(int(min(c.value-free, 1000)+1)))
		default:
			x.Value = c.value
		}
		g.sign[i]()
		return true
	}},
	{"another height", false, func(w *world, g *blockGen, b *wire.Block) bool {
		x, _ := pickExt(g, func(x *wire.ExtendedTx) bool { return x.SenderType != 0 })
		if x == nil {
			return false
		}
		c := w.model.get(x.Sender)
		h := c.timeout
		if c.kind == kindVesting {
			h = c.start
		}
		h += uint32(w.r.In(-1, 1))
		if h < 1 || h > 60_000_000 {
			return false
		}
		b.Header.Height = h
		return true
	}},
	{"height zero", false, func(w *world, g *blockGen, b *wire.Block) bool { b.Header.Height = 0; return true }},
	{"no body", false, func(w *world, g *blockGen, b *wire.Block) bool { b.Body = nil; return true }},
	{"contract as miner", false, func(w *world, g *blockGen, b *wire.Block) bool {
		if x, _ := pickExt(g, isCreation); x != nil && w.r.Bool() {
			b.Body.MinerAddr = x.Recipient
			return true
		}
		c, ok := w.contract()
		b.Body.MinerAddr = c
		return ok
	}},
	{"miner balance near the limit", false, func(w *world, g *blockGen, b *wire.Block) bool {
		for _, a := range w.model.addresses() {
			acc := w.model[a]
			if acc.kind == kindBasic && acc.value > 1<<63 {
				b.Body.MinerAddr = a
				return true
			}
		}
		return false
	}},
	{"large fees", false, func(w *world, g *blockGen, b *wire.Block) bool {
		for _, i := range shuffled(w.r, indices(len(g.txs))) {
			d := takeApart(g.txs[i])
			have := w.model.get(d.sender).value
			if have < 1<<62 {
				continue
			}
			switch x := g.txs[i].(type) {
			case *wire.BasicTx:
				x.Value, x.Fee = 0, have
			case *wire.ExtendedTx:
				x.Value, x.Fee = 0, have
			}
			g.sign[i]()
			return true
		}
		return false
	}},
	{"recipient balance near the limit", false, func(w *world, g *blockGen, b *wire.Block) bool {
		for _, a := range w.model.addresses() {
			acc := w.model[a]
			if acc.kind != kindBasic || acc.value < 1<<63 || len(g.txs) == 0 {
				continue
			}
			i := w.r.N(len(g.txs))
			switch x := g.txs[i].(type) {
			case *wire.BasicTx:
				x.Recipient = a
			case *wire.ExtendedTx:
				x.Recipient = a
			}
			g.sign[i]()
			return true
		}
		return false
	}},
	{"the same transaction twice", false, func(w *world, g *blockGen, b *wire.Block) bool {
		if len(g.txs) == 0 {
			return false
		}
		i := w.r.N(len(g.txs))
		x := b.Body.Txs[i]
		if w.r.Bool() {
			x.Tx = copyTx(x.Tx)
		}
		at := w.r.N(len(b.Body.Txs) + 1)
		if w.r.Bool() {
			at = i
		}
		b.Body.Txs = append(b.Body.Txs[:at:at], append([]wire.WrapTx{x}, b.Body.Txs[at:]...)...)
		return true
	}},
	{"funds of the same block spent", false, func(w *world, g *blockGen, b *wire.Block) bool {
		// Somebody without funds spends what the block pays out to them.
		for _, a := range shuffled(w.r, w.actors) {
			if w.model.get(a.addr) != (rAcc{}) {
				continue
			}
			for i, t := range g.txs {
				switch x := t.(type) {
				case *wire.BasicTx:
					x.Recipient = a.addr
				case *wire.ExtendedTx:
					if isCreation(x) {
						continue
					}
					x.Recipient = a.addr
				}
				g.sign[i]()
				d := takeApart(t)
				if d.value == 0 {
					continue
				}
				y := g.ext(a.addr, kindBasic)
				y.Recipient, y.Value = w.r.B20(), 1+w.r.Uint64()%d.value
				y.Proof = a.proofBytes(y)
				at := choose(w.r, 0, len(b.Body.Txs), len(b.Body.Txs))
				b.Body.Txs = append(b.Body.Txs[:at:at], append([]wire.WrapTx{{Tx: y}}, b.Body.Txs[at:]...)...)
				return true
			}
		}
		return false
	}},
	{"prune list: entry missing", true, func(w *world, g *blockGen, b *wire.Block) bool {
		n := len(b.Body.Pruned)
		if n == 0 {
			return false
		}
		i := w.r.N(n)
		b.Body.Pruned = append(b.Body.Pruned[:i:i], b.Body.Pruned[i+1:]...)
		return true
	}},
	{"prune list: entry added", true, func(w *world, g *blockGen, b *wire.Block) bool {
		var e wire.AccountPruned
		switch w.r.N(4) {
		case 0: // a contract that stays
			c, ok := w.contract()
			if !ok {
				return false
			}
			e = wire.AccountPruned{Address: c, Account: wire.WrapAccount{Account: w.model[c].wire()}}
		case 1: // an account that is emptied, but basic
			e = wire.AccountPruned{Address: w.someone().addr, Account: wire.WrapAccount{Account: &wire.BasicAccount{}}}
		case 2: // a contract that does not exist
			v := w.genVesting()
			v.value = 0
			e = wire.AccountPruned{Address: w.r.B20(), Account: wire.WrapAccount{Account: v.wire()}}
		default: // a contract that stays, as if it was empty
			c, ok := w.contract()
			if !ok {
				return false
			}
			acc := w.model[c]
			acc.value = 0
			e = wire.AccountPruned{Address: c, Account: wire.WrapAccount{Account: acc.wire()}}
		}
		at := w.r.N(len(b.Body.Pruned) + 1)
		b.Body.Pruned = append(b.Body.Pruned[:at:at], append([]wire.AccountPruned{e}, b.Body.Pruned[at:]...)...)
		return true
	}},
	{"prune list: entry altered", true, func(w *world, g *blockGen, b *wire.Block) bool {
		if len(b.Body.Pruned) == 0 {
			return false
		}
		p := &b.Body.Pruned[w.r.N(len(b.Body.Pruned))]
		a := fromWire(p.Account.Account)
		switch w.r.N(8) {
		case 0:
			a.value += 1 + uint64(w.r.N(3))
		case 1:
			a.total ^= 1 << w.r.N(64)
		case 2:
			if a.kind == kindVesting {
				a.owner[w.r.N(20)] ^= 1
			} else {
				a.recipient[w.r.N(20)] ^= 1
			}
		case 3:
			if a.kind == kindVesting {
				a.start ^= 1 << w.r.N(32)
			} else {
				a.timeout ^= 1 << w.r.N(32)
			}
		case 4:
			if a.kind == kindVesting {
				a.step ^= 1 << w.r.N(32)
			} else {
				a.rounds ^= 1 << w.r.N(8)
			}
		case 5:
			if a.kind == kindVesting {
				a.stepAmount ^= 1 << w.r.N(64)
			} else {
				a.root[w.r.N(32)] ^= 1
			}
		case 6:
			a = rAcc{}
		default:
			p.Address[w.r.N(20)] ^= 1
		}
		p.Account.Account = a.wire()
		return true
	}},
	{"prune list: entry doubled", true, func(w *world, g *blockGen, b *wire.Block) bool {
		if len(b.Body.Pruned) == 0 {
			return false
		}
		e := copyBlock(b).Body.Pruned[w.r.N(len(b.Body.Pruned))]
		if w.r.Bool() { // the first of the two is wrong
			a := fromWire(e.Account.Account)
			a.total ^= 1
			e.Account.Account = a.wire()
		}
		at := w.r.N(len(b.Body.Pruned) + 1)
		b.Body.Pruned = append(b.Body.Pruned[:at:at], append([]wire.AccountPruned{e}, b.Body.Pruned[at:]...)...)
		return true
	}},
}

// damage applies some fault and returns its name.
func (w *world) damage(g *blockGen, b *wire.Block, only func(f *fault) bool) string {
	for _, i := range shuffled(w.r, indices(len(faults))) {
		f := &faults[i]
		if only != nil && !only(f) || b.Body == nil {
			continue
		}
		if f.do(w, g, b) {
			if !f.prune {
				w.fillPruned(b)
			}
			return f.name
		}
	}
	return ""
}
