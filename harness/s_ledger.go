package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"reflect"
	"strings"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

// ---- common ----

// accFromBytes reads an account from its stored form, independently of the code under test.
func accFromBytes(b []byte) (a rAcc, ok bool) {
	be := binary.BigEndian
	if len(b) < 9 {
		return a, false
	}
	a.kind, a.value = b[0], be.Uint64(b[1:])
	b = b[9:]
	switch {
	case a.kind == kindBasic && len(b) == 0:
	case a.kind == kindVesting && len(b) == 44:
		copy(a.owner[:], b)
		a.start, a.step, a.stepAmount, a.total = be.Uint32(b[20:]), be.Uint32(b[24:]), be.Uint64(b[28:]), be.Uint64(b[36:])
	case a.kind == kindHTLC && len(b) == 86:
		copy(a.sender[:], b)
		copy(a.recipient[:], b[20:])
		a.alg = b[40]
		copy(a.root[:], b[41:])
		a.rounds, a.timeout, a.total = b[73], be.Uint32(b[74:]), be.Uint64(b[78:])
	default:
		return a, false
	}
	return a, true
}

// state reads the accounts out of the store.
func (in *instance) state(t *T) ledger {
	l := ledger{}
	for k, v := range in.stored() {
		a, ok := accFromBytes(v)
		if !ok {
			t.Failf("account %x is stored as %x, which is no account", k, v)
		}
		l[k] = a
	}
	return l
}

// sim drives an instance with blocks.
type sim struct {
	t  *T
	w  *world
	in *instance
}

func newSim(t *T, w *world) *sim {
	s := &sim{t: t, w: w, in: newInstance(t.R)}
	s.in.load(t.R, w.model)
	t.Logf("height %d, accounts\n%s", w.height, w.model.dump())
	return s
}

// outcome is what became of a block.
type outcome struct {
	b      *wire.Block
	g      *blockGen
	fault  string
	err    error
	next   ledger // according to the model
	why    string // reason for refusal according to the model
	before ledger
	after  ledger
	seen   *wire.Block // the very block to push, instead of a copy
}

// makeBlock makes a block that is damaged with the given probability.
func (s *sim) makeBlock(num, den int, only func(f *fault) bool) *outcome {
	o := &outcome{}
	o.b, o.g = s.w.genWorldBlock()
	if s.t.R.crowd > 0 {
		den *= 2
	}
	if s.t.R.P(num, den) {
		o.fault = s.w.damage(o.g, o.b, only)
	}
	return o
}

// judge asks the model. It reports false if the model leaves the block open.
func (s *sim) judge(o *outcome) bool {
	o.before = s.w.model
	o.next, o.why, _ = s.w.model.apply(o.b, false)
	if o.why == undecided {
		s.t.Count("blocks left open by the protocol")
		return false
	}
	return true
}

// push applies the block and reads the state it leads to.
func (s *sim) push(o *outcome) {
	t := s.t
	t.Eval()
	t.Logf("push %s; fault %q; model says %q", dumpBlock(o.b), o.fault, o.why)
	b := o.seen
	if b == nil {
		b = copyBlock(o.b)
	}
	o.err = s.in.push(t, b)
	o.after = s.in.state(t)
	if o.err == nil {
		t.Count("accepted")
		if b.Body != nil && len(b.Body.Txs) > 1000 {
			t.Count("accepted with over 1000 transactions")
		}
	} else {
		t.Count("rejected")
		t.Logf("rejected: %v", o.err)
	}
	t.State(s.in.acc.Tree.Hash())
}

// resync makes the model continue from what the code did.
func (s *sim) resync(o *outcome) {
	s.w.model = o.after
}

func (o *outcome) key() []interface{} {
	var kinds []string
	for i, k := range o.g.kinds {
		d := takeApart(o.g.txs[i])
		kinds = append(kinds, fmt.Sprintf("%s/%d/%d/%d", k, d.value, d.fee, d.flags))
	}
	return []interface{}{strings.Join(kinds, ","), o.fault, o.why, o.err == nil, o.b.Header.Height}
}

func any1(why string, list ...string) bool {
	for _, l := range list {
		if why == l {
			return true
		}
	}
	return false
}

// bodyTxs lists the transactions of a block that may have no body.
func bodyTxs(b *wire.Block) (out []refTx) {
	if b.Body != nil {
		for i := range b.Body.Txs {
			out = append(out, takeApart(b.Body.Txs[i].Tx))
		}
	}
	return
}

func init() {
	const rule = "Histories of blocks over generated basic, vesting and hashed-timelock accounts with real keys (single and multi-signature); " +
		"blocks are valid or carry one of " + "the faults listed in ledger_faults.go. A case counts as distinct by its transactions, fault, height and verdict."
	register(Property{ID: "S01", Rule: rule + " The monitor adds up all balances found in the store before and after each block.",
		Workloads: []Workload{
			{Name: "history", Quick: 5000, Thorough: 40000, Fn: s01History,
				Need: []string{"accepted", "rejected", "accepted blocks with fees", "accepted blocks with pruning", "accepted basic", "accepted extended", "accepted create vesting", "accepted create htlc", "accepted vesting withdrawal", "accepted htlc transfer", "accepted htlc early", "accepted htlc timeout"}},
			{Name: "limits", Quick: 6000, Thorough: 40000, Fn: s01Limits, Need: []string{"accepted", "rejected", "sums that do not fit"}},
			{Name: "large", Quick: 16, Thorough: 400, Fn: large(s01History), Need: []string{"accepted"}},
			{Name: "crowds", Quick: 48, Thorough: 400, Fn: crowds(s01History), Need: []string{"accepted"}},
			{Name: "far", Quick: 200, Thorough: 2000, Fn: far(s01History), Need: []string{"accepted"}},
		}})
	register(Property{ID: "S02", Rule: rule + " The monitor compares the complete store with a snapshot after each rejection, and with a twin that only saw the accepted blocks.",
		Workloads: []Workload{
			{Name: "history", Quick: 1500, Thorough: 25000, Fn: s02History,
				Need: []string{"accepted", "rejected", "rejected after the debits", "rejected after the credits", "rejected after a creation", "rejected after pruning", "rejected in the payout", "good blocks refused first"}},
			{Name: "large", Quick: 16, Thorough: 300, Fn: large(s02History), Need: []string{"accepted"}},
			{Name: "crowds", Quick: 48, Thorough: 400, Fn: crowds(s02History), Need: []string{"accepted"}},
		}})
	register(Property{ID: "S03", Rule: rule + " Verdict, accounts, root hash and every tree node are compared with a sequential model after each block, and with a second instance on another store.",
		Workloads: []Workload{
			{Name: "history", Quick: 2500, Thorough: 40000, Fn: s03History,
				Need: []string{"accepted", "rejected", "accepted blocks with pruning", "accepted create vesting", "accepted create htlc", "accepted vesting withdrawal", "accepted htlc transfer", "accepted htlc early", "accepted htlc timeout"}},
			{Name: "large", Quick: 16, Thorough: 400, Fn: large(s03History), Need: []string{"accepted"}},
			{Name: "crowds", Quick: 48, Thorough: 400, Fn: crowds(s03History), Need: []string{"accepted"}},
			{Name: "far", Quick: 200, Thorough: 2000, Fn: far(s03History), Need: []string{"accepted"}},
		}})
	register(Property{ID: "S04", Rule: "Withdrawals from vesting contracts with generated and extreme schedules at heights and amounts around the limits, directly and in blocks, compared with big-integer arithmetic; distinct by contract, height, amount and proof.",
		Workloads: []Workload{
			{Name: "withdrawal", Quick: 60000, Thorough: 600000, Fn: s04Unit,
				Need: []string{"allowed", "refused: not vested yet", "refused: not the owner", "refused: malformed vesting proof", "refused: overspent", "refused: value and fee overflow", "partial unlock"}},
			{Name: "drain", Quick: 2000, Thorough: 30000, Fn: s04Drain, Need: []string{"withdrawals", "refused withdrawals", "steps drained"}},
			{Name: "history", Quick: 1600, Thorough: 10000, Fn: s04Blocks, Need: []string{"accepted", "rejected", "withdrawals in blocks"}},
		}})
	register(Property{ID: "S05", Rule: "Payouts of hashed-timelock contracts: all three paths, heights around the timeout, right, wrong and swapped parties, pre-images and depths, algorithms, amounts around the limits, damaged proofs, directly and in blocks; distinct by contract, height, amount and proof.",
		Workloads: []Workload{
			{Name: "payout", Quick: 50000, Thorough: 600000, Fn: s05Unit,
				Need: []string{"allowed: regular", "allowed: early", "allowed: timeout", "refused: htlc expired", "refused: htlc not expired", "refused: wrong pre-image", "refused: other hash", "refused: not the recipient", "refused: not the sender", "refused: more than the hash depth unlocks", "refused: overspent", "refused: unknown htlc proof", "refused: malformed htlc proof", "refused: no htlc proof"}},
			{Name: "drain", Quick: 2000, Thorough: 30000, Fn: s05Drain, Need: []string{"payouts", "refused payouts"}},
			{Name: "history", Quick: 1600, Thorough: 10000, Fn: s05Blocks, Need: []string{"accepted", "rejected", "payouts in blocks"}},
		}})
	register(Property{ID: "S06", Rule: "All 256 declared types against every actual kind of account, for sender, recipient, created contract and miner, plus random histories; distinct by kinds and verdict.",
		Workloads: []Workload{
			{Name: "types", Quick: 256, Thorough: 256 * 8, Fn: s06Types, Need: []string{"accepted: sender", "accepted: recipient", "accepted: creation", "accepted: miner", "rejected: sender", "rejected: recipient", "rejected: creation", "rejected: miner"}},
			{Name: "history", Quick: 2000, Thorough: 30000, Fn: s06History, Need: []string{"accepted", "rejected"}},
			{Name: "large", Quick: 8, Thorough: 200, Fn: large(s06History), Need: []string{"accepted"}},
			{Name: "crowds", Quick: 48, Thorough: 400, Fn: crowds(s06History), Need: []string{"accepted"}},
		}})
	register(Property{ID: "S07", Rule: "Blocks that empty contracts, with right, permuted, incomplete, padded and altered prune lists; distinct by transactions, fault and verdict.",
		Workloads: []Workload{
			{Name: "history", Quick: 2500, Thorough: 40000, Fn: s07History, Need: []string{"accepted", "rejected", "accounts pruned", "permuted lists", "refused: prune list: missing", "refused: prune list: altered", "refused: prune list: duplicate", "refused: prune list: extra"}},
			{Name: "large", Quick: 24, Thorough: 500, Fn: large(s07History), Need: []string{"accepted"}},
			{Name: "crowds", Quick: 48, Thorough: 400, Fn: crowds(s07History), Need: []string{"accepted"}},
			{Name: "long lists", Quick: 240, Thorough: 1200, Fn: s07Long, Need: []string{"refused", "accepted", "refused: padded", "one too many in a long list"}},
		}})
	register(Property{ID: "S08", Rule: "Blocks decoded from bytes: well-formed with arbitrary contents, valid ones with up to four faults, and either with damaged bytes, applied to states that hold all kinds of accounts; distinct by block bytes.",
		Workloads: []Workload{
			{Name: "hostile", Quick: 4000, Thorough: 80000, Fn: s08Hostile, Need: []string{"accepted", "rejected", "decoded after damage", "without body"}},
			{Name: "cut", Quick: 1200, Thorough: 12000, Fn: s08Cut, Need: []string{"cut proof of htlc", "cut proof of vesting", "cut proof of basic", "cut data of vesting", "cut data of htlc", "accepted", "rejected"}},
			{Name: "far", Quick: 1000, Thorough: 10000, Fn: s08Far, Need: []string{"far heights", "accepted", "rejected"}},
			{Name: "large", Quick: 8, Thorough: 200, Fn: large(s08Hostile), Need: []string{"accepted"}},
			{Name: "crowds", Quick: 48, Thorough: 400, Fn: crowds(s08Hostile), Need: []string{"accepted"}},
		}})
	register(Property{ID: "S09", Rule: "Creations with all data formats and lengths, several per block, onto empty, funded and contract addresses; afterwards the terms are watched until removal; distinct by data and verdict.",
		Workloads: []Workload{
			{Name: "formats", Quick: 4000, Thorough: 60000, Fn: s09Formats, Need: []string{"created vesting 24", "created vesting 36", "created vesting 44", "created htlc 78", "refused creations", "created on a funded address"}},
			{Name: "history", Quick: 1500, Thorough: 25000, Fn: s09History, Need: []string{"accepted", "terms compared", "contracts created", "contracts removed"}},
			{Name: "large", Quick: 8, Thorough: 200, Fn: large(s09History), Need: []string{"accepted"}},
			{Name: "crowds", Quick: 48, Thorough: 400, Fn: crowds(s09History), Need: []string{"accepted"}},
		}})
	register(Property{ID: "S10", Rule: "Debits and credits with balances, values and fees over the whole 64-bit range, sums around the balance and around 2^64, on every kind of account, and in blocks; distinct by the amounts.",
		Workloads: []Workload{
			{Name: "amounts", Quick: 60000, Thorough: 400000, Fn: s10Unit, Need: []string{"debited basic", "debited vesting", "debited htlc", "overspent", "sum above 2^64", "credited", "credit above 2^64", "exact balance spent"}},
			{Name: "history", Quick: 1500, Thorough: 20000, Fn: s10History, Need: []string{"accepted", "rejected"}},
			{Name: "large", Quick: 8, Thorough: 200, Fn: large(s10History), Need: []string{"accepted"}},
			{Name: "crowds", Quick: 48, Thorough: 400, Fn: crowds(s10History), Need: []string{"accepted"}},
		}})
	register(Property{ID: "S11", Rule: "Interleavings of stores, lookups and modifications of the objects involved over a small set of addresses with shared prefixes; distinct by operation sequence.",
		Workloads: []Workload{
			{Name: "objects", Quick: 12000, Thorough: 50000, Fn: s11Objects, Need: []string{"stored basic", "stored vesting", "stored htlc", "stored nothing", "looked up absent", "looked up present", "modified returned object", "modified stored object", "written back", "several views"}},
		}})
	register(Property{ID: "S12", Rule: "Histories ending in an accepted block, followed by Revert of that block, with the complete store compared; distinct by transactions.",
		Workloads: []Workload{
			{Name: "revert", Quick: 3000, Thorough: 10000, Fn: s12Revert, Need: []string{"reverts tried"}},
		}})
	register(Property{ID: "S13", Rule: "Valid blocks of every sender kind and resolution path whose signatures are damaged, missing, foreign, transplanted or over other content; and the set of accounts losing funds in accepted blocks; distinct by kind, forgery and verdict.",
		Workloads: []Workload{
			{Name: "forgery", Quick: 5000, Thorough: 60000, Fn: s13Forge, Need: []string{"valid accepted", "foreign signer vesting withdrawal", "foreign signer htlc transfer", "foreign signer htlc early", "foreign signer htlc timeout"}},
			{Name: "history", Quick: 1500, Thorough: 20000, Fn: s13History, Need: []string{"accepted", "accounts debited"}},
			{Name: "large", Quick: 8, Thorough: 200, Fn: large(s13History), Need: []string{"accepted"}},
			{Name: "crowds", Quick: 48, Thorough: 400, Fn: crowds(s13History), Need: []string{"accepted"}},
		}})
	register(Property{ID: "S14", Rule: rule + " The very same block object is applied to two states on different stores, compared with a deep copy after each, then overwritten; distinct by transactions, fault, height and verdict.",
		Workloads: []Workload{
			{Name: "history", Quick: 1500, Thorough: 25000, Fn: s14History, Need: []string{"accepted", "rejected", "repeated transaction objects", "transaction objects used again", "blocks overwritten", "accepted blocks with pruning", "accepted create vesting"}},
			{Name: "large", Quick: 8, Thorough: 200, Fn: large(s14History), Need: []string{"accepted"}},
			{Name: "crowds", Quick: 48, Thorough: 400, Fn: crowds(s14History), Need: []string{"accepted"}},
		}})
}

// large runs a workload with large blocks and states.
func large(fn func(t *T)) func(t *T) {
	return func(t *T) {
		t.R.large = true
		fn(t)
	}
}

// crowds runs a workload with blocks that are full of transactions of a kind.
func crowds(fn func(t *T)) func(t *T) {
	return func(t *T) {
		t.R.large, t.R.crowd = true, 1+t.Idx%4
		fn(t)
	}
}

// far runs a workload at heights that no chain has reached.
func far(fn func(t *T)) func(t *T) {
	return func(t *T) {
		if t.Idx < len(farHeights) {
			t.R.far = farHeights[t.Idx]
		} else if t.R.Bool() {
			t.R.far = uint32(60_000_000 + t.R.N(1<<32-60_100_000))
		} else {
			t.R.far = choose(t.R, farHeights...)
		}
		fn(t)
	}
}

// farHeights starts with the highest, after which the answers for all others are there.
var farHeights = []uint32{1<<32 - 1, 1<<32 - 2, 1 << 31, 1<<31 - 1, 3_000_000_000}

// length is the number of blocks of a history.
func (r *Rand) length(n int) int {
	if r.large {
		if r.crowd > 0 {
			return min(n, 2)
		}
		return (n + 2) / 4
	}
	return n
}

// ---- S01 ----

func (s *sim) checkSupply(o *outcome) {
	t := s.t
	want := o.before.sum()
	if o.err == nil {
		want.Add(want, new(big.Int).SetUint64(refReward(uint64(o.b.Header.Height))))
		fees := uint64(0)
		for _, x := range bodyTxs(o.b) {
			fees |= x.fee
		}
		if fees != 0 {
			t.Count("accepted blocks with fees")
		}
		for _, k := range o.g.kinds {
			t.Count("accepted " + k)
		}
		if o.b.Body != nil && len(o.b.Body.Pruned) > 0 {
			t.Count("accepted blocks with pruning")
		}
	} else if strings.Contains(o.why, "overflow") {
		t.Count("sums that do not fit")
	}
	got := o.after.sum()
	t.Check(got.Cmp(want) == 0, "height %d, error %v: the balances add up to %v, want %v (before %v)\n%s",
		o.b.Header.Height, o.err, got, want, o.before.sum(), dumpBlock(o.b))
	if len(o.g.txs) > 0 {
		t.Distinct(o.key()...)
	}
}

func s01History(t *T) {
	w := newWorldOf(t.R, t.R.P(1, 3))
	s := newSim(t, w)
	for n := 0; n < t.R.length(12); n++ {
		o := s.makeBlock(1, 4, nil)
		o.before = w.model
		_, o.why, _ = w.model.apply(o.b, false)
		s.push(o)
		s.checkSupply(o)
		s.resync(o)
		w.advance()
	}
	t.Sample("height %d: %s", w.height, w.model.dump())
}

// amountFaults are those about sums.
func amountFaults(f *fault) bool {
	switch f.name {
	case "overspend", "value and fee wrap around", "more than unlocked", "miner balance near the limit", "large fees", "recipient balance near the limit", "the same transaction twice", "funds of the same block spent":
		return true
	}
	return false
}

// s01Limits damages amounts where balances are close to the limits.
func s01Limits(t *T) {
	w := newWorldOf(t.R, true)
	s := newSim(t, w)
	for n := 0; n < 5; n++ {
		o := s.makeBlock(3, 4, amountFaults)
		o.before = w.model
		_, o.why, _ = w.model.apply(o.b, false)
		s.push(o)
		s.checkSupply(o)
		s.resync(o)
		w.advance()
	}
}

// ---- S02 ----

// refuseFirst has a good block refused, because the state or the block is not as it should be for a while.
// It reports false if the code does not refuse it.
func (s *sim) refuseFirst(o *outcome) bool {
	t, r := s.t, s.t.R
	b := copyBlock(o.b)
	before := snapshotStore(s.in.store)
	ok := true
	if r.P(1, 3) { // the block is not
		body, height := b.Body, b.Header.Height
		pruned := body.Pruned
		switch r.N(3) {
		case 0:
			b.Body = nil
		case 1:
			b.Header.Height = 0
		default:
			body.Pruned = append(append([]wire.AccountPruned(nil), pruned...), wire.AccountPruned{Address: r.B20(), Account: wire.WrapAccount{Account: &wire.VestingAccount{}}})
		}
		ok = s.in.push(t, b) != nil
		b.Body, b.Header.Height, body.Pruned = body, height, pruned
	} else { // the state is not
		involved := [][20]byte{b.Body.MinerAddr}
		for _, d := range bodyTxs(b) {
			involved = append(involved, d.sender, d.recipient)
		}
		for _, addr := range shuffled(r, involved) {
			m := s.w.model.clone()
			if m.get(addr) != (rAcc{}) && r.Bool() {
				delete(m, addr)
			} else {
				m.put(addr, rAcc{kind: kindVesting, value: 1 + m.get(addr).value/2})
			}
			if _, why, _ := m.apply(b, false); why == "" || why == undecided {
				continue
			}
			var other, own wire.Account
			if a := m.get(addr); a != (rAcc{}) {
				other = a.wire()
			}
			if a := s.w.model.get(addr); a != (rAcc{}) {
				own = a.wire()
			}
			s.in.acc.PutAccount(&addr, other)
			ok = s.in.push(t, b) != nil
			s.in.acc.PutAccount(&addr, own)
			break
		}
	}
	if !ok {
		return false
	}
	if d := snapshotDiff(before, snapshotStore(s.in.store)); d != "" {
		t.Failf("a rejected block changed the store: %s\n%s", d, dumpBlock(b))
	}
	if r.Bool() {
		o.seen = b
	}
	t.Count("good blocks refused first")
	return true
}

func s02History(t *T) {
	w := newWorld(t.R)
	s := newSim(t, w)
	twin := newInstance(t.R)
	twin.load(t.R, w.model)
	for n := 0; n < t.R.length(12); n++ {
		o := s.makeBlock(2, 3, nil)
		if n%3 == 2 {
			o = s.drainBlock()
			if t.R.P(2, 3) {
				o.fault = w.damage(o.g, o.b, nil)
			}
		}
		o.before = w.model
		_, o.why, _ = w.model.apply(o.b, false)
		if o.why == "" && t.R.P(1, 2) && !s.refuseFirst(o) {
			t.Count("accepted although the model refuses it")
			return
		}
		before, root := snapshotStore(s.in.store), s.in.acc.Tree.Hash()
		written := s.in.written()
		s.push(o)
		if o.err != nil {
			t.Check(s.in.written() == written, "a rejected block (%v) changed the store beneath an overlay\n%s", o.err, dumpBlock(o.b))
			if d := snapshotDiff(before, snapshotStore(s.in.store)); d != "" {
				t.Failf("a rejected block (%v) changed the store: %s\n%s", o.err, d, dumpBlock(o.b))
			}
			// One that saw no other block says the same.
			if !t.R.large || t.R.P(1, 4) {
				fresh := newInstance(t.R)
				fresh.load(t.R, o.before)
				if err := fresh.push(t, copyBlock(o.b)); err == nil {
					t.Failf("the block is rejected (%v), but accepted by an instance with the same accounts that has not seen the blocks before\n%s", o.err, dumpBlock(o.b))
				}
				t.Count("verdicts compared with a fresh instance")
			}
			h := s.in.acc.Tree.Hash()
			t.Check(h == root, "a rejected block (%v) changed the root hash from %x to %x", o.err, root, h)
			for k := range o.before {
				addr := k
				t.Check(fromWire(s.in.acc.GetAccount(&addr)) == o.before[k], "a rejected block (%v) changed account %x", o.err, k)
			}
			t.Count("rejected: " + o.why)
			switch {
			case any1(o.why, "recipient type", "payment to a contract", "balance overflow"):
				t.Count("rejected after the debits")
			case any1(o.why, "creation over a contract", "creation of unknown type", "creation of a basic account", "vesting data length", "htlc data length", "no hash rounds"):
				t.Count("rejected after the credits")
			case strings.HasPrefix(o.why, "prune list: "):
				t.Count("rejected in pruning")
			case any1(o.why, "fee overflow", "miner is a contract", "miner overflow"):
				t.Count("rejected in the payout")
				if len(o.b.Body.Pruned) > 0 {
					t.Count("rejected after pruning")
				}
			}
			for i, k := range o.g.kinds {
				if strings.HasPrefix(k, "create") && i < len(o.g.kinds) && (strings.HasPrefix(o.why, "prune list: ") || any1(o.why, "miner is a contract", "miner overflow", "fee overflow")) {
					t.Count("rejected after a creation")
				}
			}
			t.Distinct(o.key()...)
		} else {
			if err := twin.push(t, copyBlock(o.b)); err != nil {
				t.Failf("the block is accepted, but not without the rejected blocks before: %v\n%s", err, dumpBlock(o.b))
			}
		}
		a, b := s.in.acc.Tree.Hash(), twin.acc.Tree.Hash()
		t.Check(a == b, "root hash is %x, but %x without the rejected blocks before", a, b)
		if d := snapshotDiff(snapshotStore(twin.store), snapshotStore(s.in.store)); d != "" {
			t.Failf("the store differs from one that never saw the rejected blocks: %s", d)
		}
		s.resync(o)
		w.advance()
	}
	t.Sample("height %d: %s", w.height, w.model.dump())
}

// ---- S03 ----

func s03History(t *T) {
	w := newWorld(t.R)
	s := newSim(t, w)
	second := newInstance(t.R)
	second.load(t.R, w.model)
	if d := s.in.differs(w.model); d != "" {
		t.Failf("before the first block: %s", d)
	}
	for n := 0; n < t.R.length(12); n++ {
		o := s.makeBlock(1, 3, nil)
		if !s.judge(o) {
			continue
		}
		s.push(o)
		t.Check((o.err == nil) == (o.why == ""), "verdict is %v, the protocol says %q\n%s\nstate\n%s", o.err, o.why, dumpBlock(o.b), o.before.dump())
		err := second.push(t, copyBlock(o.b))
		t.Check((err == nil) == (o.err == nil), "the same block gives %v, and %v on another store", o.err, err)
		if o.err == nil {
			w.model = o.next
			for _, k := range o.g.kinds {
				t.Count("accepted " + k)
			}
			if len(o.b.Body.Pruned) > 0 {
				t.Count("accepted blocks with pruning")
			}
		} else {
			t.Count("refused: " + o.why)
		}
		if d := s.in.differs(w.model); d != "" {
			t.Failf("after %s\n%s\nstate before\n%s", dumpBlock(o.b), d, o.before.dump())
		}
		for _, addr := range w.model.addresses() {
			a := addr
			if got := fromWire(s.in.acc.GetAccount(&a)); got != w.model[addr] {
				t.Failf("lookup of %x gives %v, want %v", addr, got, w.model[addr])
			}
		}
		a, b := s.in.acc.Tree.Hash(), second.acc.Tree.Hash()
		t.Check(a == b, "the same history gives root hashes %x and %x", a, b)
		t.Distinct(o.key()...)
		w.advance()
	}
	t.Sample("height %d: %s", w.height, w.model.dump())
}

// ---- S04 ----

// unitApply applies a transaction to an account object and checks that the arguments are left alone.
func unitApply(t *T, c rAcc, x wire.Tx, height uint32, incoming bool) (res rAcc, err error) {
	acc := c.wire()
	txBefore := layout(&wire.WrapTx{Tx: x})
	var out wire.Account
	if p := try(func() {
		if incoming {
			out, err = acc.ApplyIncomingTx(x, height)
		} else {
			out, err = acc.ApplyOutgoingTx(x, height)
		}
	}); p != "" {
		t.Failf("applying a transaction to %v: %s", c, p)
	}
	t.Eval()
	t.Check(fromWire(acc) == c, "applying a transaction to %v changed the object to %v", c, fromWire(acc))
	t.Check(bytes.Equal(txBefore, layout(&wire.WrapTx{Tx: x})), "applying a transaction changed the transaction")
	if err != nil {
		return rAcc{}, err
	}
	t.Check(out != nil && out != acc, "applying a transaction to %v returned the same object", c)
	return fromWire(out), nil
}

// extremeVesting makes a contract with terms from the whole range.
func extremeVesting(r *Rand, owner [20]byte) rAcc {
	a := rAcc{kind: kindVesting, owner: owner, value: r.U(64), start: uint32(r.U(32)), step: uint32(r.U(32)), stepAmount: r.U(64), total: r.U(64)}
	if r.Bool() {
		a.value = uint64(r.In(0, 1_000_000))
		a.total = choose(r, a.value, a.value, a.value+uint64(r.N(1000)), a.value/2)
		a.stepAmount = a.total/uint64(r.In(1, 12)) + uint64(r.N(2))
		a.step = uint32(r.In(0, 1000))
		a.start = uint32(r.In(0, 5000))
	}
	switch r.N(6) {
	case 0:
		a.total = a.value
	case 1:
		a.step = 1
	case 2: // product of steps and amount close to 2^64
		a.stepAmount = (^uint64(0))/uint64(r.In(1, 1<<20)) + uint64(r.N(3)) - 1
		a.step = uint32(r.In(1, 4))
	}
	return a
}

// vestingHeight is a height that matters to the schedule.
func vestingHeight(r *Rand, a rAcc) uint32 {
	switch r.N(6) {
	case 0:
		return a.start + uint32(r.In(-2, 2))
	case 1:
		return uint32(r.U(32))
	default: // around a step, often one where the contract is partly locked
		k := uint64(r.In(0, 12))
		if a.stepAmount > 0 && r.Bool() {
			k = a.total/a.stepAmount + uint64(r.N(3)) - 1
		}
		h := uint64(a.start) + k*uint64(a.step) + uint64(r.In(0, 2)) - 1
		if h >= 1<<32 {
			h = 1<<32 - 1 - uint64(r.N(3))
		}
		return uint32(h)
	}
}

// around gives an amount close to a limit.
func around(r *Rand, limit uint64, others ...uint64) uint64 {
	switch r.N(6) {
	case 0, 1:
		return limit
	case 2:
		return limit + 1
	case 3:
		return limit - 1
	case 4:
		if len(others) > 0 {
			return choose(r, others...) + uint64(r.N(3)) - 1
		}
		return limit / 2
	default:
		return r.U(64)
	}
}

// split divides an amount into value and fee, sometimes such that they wrap around to it.
func split(r *Rand, amount uint64) (value, fee uint64) {
	switch r.N(5) {
	case 0, 1:
		return amount, 0
	case 2:
		if amount == 0 {
			return 0, 0
		}
		fee = r.Uint64() % amount
		return amount - fee, fee
	case 3:
		if amount == 0 {
			return 0, 0
		}
		fee = min(amount, uint64(r.In(1, 3)))
		return amount - fee, fee
	default:
		if r.P(3, 4) {
			return 0, amount
		}
		value = ^uint64(0) - uint64(r.N(10))
		return value, amount - value
	}
}

// foreignProof makes a signature proof for x that mostly is not of the signer of p.
func foreignProof(r *Rand, other *actor, x *wire.ExtendedTx, p wire.SignatureProof) []byte {
	switch r.N(7) {
	case 5, 6: // the right address wherever it fits
		right := refSigner(&p)
		own := genActor(r)
		c := contentOf(x)
		q := own.proof(layout(&c))
		if r.Bool() {
			n := choose(r, 0, 1, 2, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, r.In(1, 255))
			q.MerklePath = wire.MerklePath{Branches: genBitSet(r, n)}
			for i := 0; i < n; i++ {
				q.MerklePath.Hashes = append(q.MerklePath.Hashes, r.B32())
			}
		} else {
			q.MerklePath.Hashes = append([][32]byte(nil), q.MerklePath.Hashes...)
		}
		k := len(q.MerklePath.Hashes)
		switch r.N(5) {
		case 0:
			if k > 0 {
				copy(q.MerklePath.Hashes[0][:], right[:])
			}
		case 1:
			if k > 0 {
				copy(q.MerklePath.Hashes[k-1][:], right[:])
			}
		case 2:
			for i := range q.MerklePath.Hashes {
				copy(q.MerklePath.Hashes[i][:], right[:])
			}
		case 3:
			copy(q.PublicKey[:], right[:])
		default: // above the right key, or with the right path
			q.PublicKey = p.PublicKey
			if r.Bool() {
				q = own.proof(layout(&c))
				q.MerklePath = p.MerklePath
			}
		}
		return layout(&q)
	case 0: // the other party, or any other
		return other.proofBytes(x)
	case 1: // the right key without its co-signers, or with additional ones
		if p.MerklePath.Branches.Len > 0 {
			p.MerklePath = wire.MerklePath{}
		} else {
			p.MerklePath.Branches = genBitSet(r, 1)
			p.MerklePath.Hashes = [][32]byte{r.B32()}
		}
		return layout(&p)
	case 2: // almost the right key
		p.PublicKey[r.N(32)] ^= 1 << r.N(8)
		return layout(&p)
	case 3: // nothing
		return make([]byte, 97)
	default: // another branch
		if len(p.MerklePath.Hashes) == 0 {
			return genActor(r).proofBytes(x)
		}
		p.MerklePath.Hashes = append([][32]byte(nil), p.MerklePath.Hashes...)
		p.MerklePath.Hashes[r.N(len(p.MerklePath.Hashes))][r.N(32)] ^= 1 << r.N(8)
		return layout(&p)
	}
}

// withForeign replaces one of the signature proofs of x, by one of somebody else or by a copy of the other proof.
func withForeign(r *Rand, others []*actor, x *wire.ExtendedTx, offs []int) bool {
	if len(x.Proof) < offs[len(offs)-1] {
		return false
	}
	i := r.N(len(offs))
	p, rest, ok := parseProof(x.Proof[offs[i]:])
	if !ok {
		return false
	}
	other := foreignProof(r, others[r.N(len(others))], x, p)
	if len(offs) > 1 && r.P(1, 3) {
		q, _, ok := parseProof(x.Proof[offs[1-i]:])
		if !ok {
			return false
		}
		other = layout(&q)
	}
	x.Proof = append(append(append([]byte(nil), x.Proof[:offs[i]]...), other...), rest...)
	return true
}

// nobody is an address without a key.
func nobody(r *Rand) (addr [20]byte) {
	switch r.N(4) {
	case 0, 1:
	case 2:
		for i := range addr {
			addr[i] = 0xff
		}
	default:
		addr = r.B20()
	}
	return
}

// badProof damages or replaces a proof.
func badProof(r *Rand, proof []byte) []byte {
	switch r.N(5) {
	case 4: // nothing, or next to nothing
		return choose(r, nil, []byte{}, proof[:min(1, len(proof))], make([]byte, r.N(3)), make([]byte, 97), make([]byte, 98), make([]byte, len(proof)))
	case 0:
		return append([]byte(nil), proof[:r.N(len(proof)+1)]...)
	case 1:
		return append(append([]byte(nil), proof...), r.Bytes(r.In(1, 40))...)
	case 2:
		return r.Bytes(r.N(200))
	default:
		return r.mutate(proof)
	}
}

// oddParts fills what a withdrawal does not depend on.
func oddParts(r *Rand, x *wire.ExtendedTx) {
	if r.Bool() {
		x.NetworkID, x.RecipientType = uint8(r.U(8)), choose[uint8](r, 0, 1, 2, uint8(r.U(8)))
		x.Data = r.Bytes(choose(r, 0, 1, 20, 24, 36, 44, 78, r.N(300)))
	}
}

func s04Unit(t *T) {
	r := t.R
	owner, other := genActor(r), genActor(r)
	for n := 0; n < 4; n++ {
		c := extremeVesting(r, owner.addr)
		h := vestingHeight(r, c)
		free := vestingFree(c, h)
		x := &wire.ExtendedTx{Sender: r.B20(), SenderType: kindVesting, Recipient: r.B20(), ValidityStartHeight: oddHeight(r, h), Flags: oddFlags(r)}
		oddParts(r, x)
		if r.P(1, 3) {
			x.Recipient = choose(r, owner.addr, other.addr, x.Sender)
		}
		x.Value, x.Fee = split(r, around(r, free, c.value, c.total, c.stepAmount))
		signer := owner
		if r.P(1, 5) {
			signer = other
		}
		if r.P(1, 12) {
			c.owner = nobody(r)
			t.Count("owners without a key")
		}
		x.Proof = signer.proofBytes(x)
		if r.P(1, 8) && withForeign(r, []*actor{other}, x, []int{0}) {
			t.Count("foreign proofs")
		}
		if r.P(1, 8) {
			x.Proof = badProof(r, x.Proof)
		}
		want, why := debit(c, takeApart(x), h)
		got, err := unitApply(t, c, x, h, false)
		t.Logf("%v at %d: value %d fee %d proof %x: %v, model %q", c, h, x.Value, x.Fee, x.Proof, err, why)
		if why == "" {
			t.Check(err == nil, "%v, height %d, value %d fee %d (free %d): refused with %v", c, h, x.Value, x.Fee, free, err)
			t.Check(got == want, "%v, height %d, value %d fee %d: becomes %v, want %v", c, h, x.Value, x.Fee, got, want)
			t.Count("allowed")
			if free != 0 && free != c.value {
				t.Count("partial unlock")
			}
		} else {
			t.Check(err != nil, "%v, height %d, value %d fee %d (free %d): allowed although %s", c, h, x.Value, x.Fee, free, why)
			t.Count("refused: " + why)
		}
		t.Distinct(c.String(), h, x.Value, x.Fee, x.Proof)
		t.Sample("%v at height %d: free %d, value %d fee %d -> %q", c, h, free, x.Value, x.Fee, why)
		nearTwins(t, c, x, h)
	}
}

// nearTwins makes a decision again with one part changed a little, and then as it was.
func nearTwins(t *T, c rAcc, x *wire.ExtendedTx, h uint32) {
	r := t.R
	for n := 0; n < 3; n++ {
		d, g := c, h
		switch r.N(4) {
		case 0:
			g = choose(r, h+1, h-1, h+c.step, h-c.step, h^1<<r.N(32))
		default:
			d = nudge(r, c)
		}
		if r.P(1, 4) {
			d, g = c, h
		}
		want, why := debit(d, takeApart(x), g)
		if why == undecided {
			continue
		}
		got, err := unitApply(t, d, x, g, false)
		t.Check((err == nil) == (why == ""), "%v, height %d, value %d fee %d, after a decision about %v at height %d: %v, model %q", d, g, x.Value, x.Fee, c, h, err, why)
		t.Check(err != nil || got == want, "%v, height %d, value %d fee %d, after a decision about %v at height %d: becomes %v, want %v", d, g, x.Value, x.Fee, c, h, got, want)
		t.Count("near twins")
		if why == "" {
			t.Count("near twins allowed")
		}
	}
}

// nudge changes one term of an account a little.
func nudge(r *Rand, a rAcc) rAcc {
	n64 := func(v uint64) uint64 { return choose(r, v+1, v-1, v^1<<r.N(64), v+uint64(r.N(1000))) }
	n32 := func(v uint32) uint32 { return choose(r, v+1, v-1, v^1<<r.N(32), v+uint32(r.N(1000))) }
	switch r.N(8) {
	case 0:
		a.value = n64(a.value)
		return a
	case 1:
		a.total = n64(a.total)
		return a
	}
	if a.kind == kindVesting {
		switch r.N(7) {
		case 0, 1:
			a.start = n32(a.start)
		case 2, 3:
			a.step = n32(a.step)
		case 4, 5:
			a.stepAmount = n64(a.stepAmount)
		default:
			a.owner[r.N(20)] ^= 1 << r.N(8)
		}
	} else if a.kind == kindHTLC {
		switch r.N(7) {
		case 0, 1:
			a.rounds = choose(r, a.rounds+1, a.rounds-1, a.rounds^1<<r.N(8))
		case 2, 3:
			a.timeout = n32(a.timeout)
		case 4:
			a.root[r.N(32)] ^= 1 << r.N(8)
		case 5:
			a.sender, a.recipient = a.recipient, a.sender
		default:
			p := choose(r, &a.sender, &a.recipient)
			p[r.N(20)] ^= 1 << r.N(8)
		}
	}
	return a
}

// s04Drain withdraws over many steps, always trying for too much first.
func s04Drain(t *T) {
	r := t.R
	owner := genActor(r)
	c := rAcc{kind: kindVesting, owner: owner.addr, start: uint32(r.In(0, 100)), step: uint32(r.In(1, 20))}
	c.value = uint64(r.In(10, 100_000))
	c.total = choose(r, c.value, c.value, c.value+uint64(r.N(50)), c.value-uint64(r.N(10)))
	c.stepAmount = c.total/uint64(r.In(1, 9)) + 1
	terms, initial := c.terms(), c.value
	h := uint32(r.In(0, 90))
	drawn := uint64(0)
	take := func(amount uint64) bool {
		x := &wire.ExtendedTx{SenderType: kindVesting, ValidityStartHeight: oddHeight(r, h)}
		x.Value, x.Fee = amount, 0
		if r.Bool() && amount > 0 {
			x.Fee = r.Uint64() % amount
			x.Value = amount - x.Fee
		}
		x.Proof = owner.proofBytes(x)
		got, err := unitApply(t, c, x, h, false)
		if err != nil {
			t.Count("refused withdrawals")
			return false
		}
		drawn += amount
		t.Check(got.terms() == terms, "a withdrawal changed the terms from %v to %v", terms, got)
		t.Check(got.value == initial-drawn, "after withdrawing %d of %d, %d is left", drawn, initial, got.value)
		c = got
		t.Count("withdrawals")
		return true
	}
	for i := 0; i < 25; i++ {
		h += uint32(r.N(12))
		// Never below what is locked, however the withdrawals are cut up.
		var locked uint64
		if h <= c.start {
			locked = c.value
		} else if v := uint64((h-c.start)/c.step) * c.stepAmount; v < c.total {
			locked = c.total - v
		}
		t.Logf("height %d, locked %d, %v", h, locked, c)
		if c.value > locked {
			free := c.value - locked
			t.Check(!take(free+1), "%v at height %d gave %d, but only %d is free", c, h, free+1, free)
			a := free
			if r.Bool() {
				a = 1 + r.Uint64()%free
			}
			t.Check(take(a), "%v at height %d refused to give %d, although %d is free", c, h, a, free)
			t.Count("steps drained")
		} else {
			t.Check(!take(1), "%v at height %d gave 1, but nothing is free", c, h)
		}
	}
	t.Distinct(terms.String(), drawn, h)
}

func vestingFaults(f *fault) bool {
	switch f.name {
	case "another signer", "damaged proof", "more than unlocked", "another height", "overspend", "value and fee wrap around", "the same transaction twice":
		return true
	}
	return false
}

// contractBlock makes a block that mostly spends from contracts of one kind.
func (s *sim) contractBlock(kind uint8) *outcome {
	w, r := s.w, s.t.R
	o := &outcome{g: w.newBlockGen()}
	for i := r.In(1, 3); i > 0; i-- {
		if kind == kindVesting {
			o.g.withdraw()
		} else {
			o.g.settle()
		}
	}
	if r.P(1, 4) {
		o.g.transfer()
	}
	o.b = w.finish(o.g)
	if r.P(1, 2) {
		o.fault = w.damage(o.g, o.b, vestingFaults)
	}
	return o
}

// contractBlocks compares blocks spending from contracts with the model.
func contractBlocks(t *T, kind uint8, event string, reasons ...string) {
	w := newWorld(t.R)
	for i := 0; i < 4; i++ {
		addr := t.R.B20()
		if kind == kindVesting {
			w.model.put(addr, w.genVesting())
		} else {
			a, sec := w.genHTLC()
			w.secrets[addr] = sec
			w.model.put(addr, a)
		}
	}
	s := newSim(t, w)
	for n := 0; n < 8; n++ {
		o := s.contractBlock(kind)
		if !s.judge(o) {
			continue
		}
		s.push(o)
		if any1(o.why, reasons...) {
			t.Check(o.err != nil, "accepted although %s\n%s\nstate\n%s", o.why, dumpBlock(o.b), o.before.dump())
			t.Count("refused: " + o.why)
		}
		if o.why == "" {
			t.Check(o.err == nil, "refused with %v\n%s\nstate\n%s", o.err, dumpBlock(o.b), o.before.dump())
			for k, c := range o.before {
				if c.kind != kind {
					continue
				}
				want, got := o.next[k], o.after[k]
				t.Check(want == got, "%x was %v, is %v, want %v\n%s", k, c, got, want, dumpBlock(o.b))
				if want.value != c.value {
					t.Count(event)
				}
			}
		}
		t.Distinct(o.key()...)
		s.resync(o)
		w.advance()
	}
}

func s04Blocks(t *T) {
	contractBlocks(t, kindVesting, "withdrawals in blocks", "not vested yet", "malformed vesting proof", "not the owner", "overspent", "value and fee overflow")
}

// ---- S05 ----

func s05Unit(t *T) {
	r := t.R
	w := &world{r: r, byAddr: map[[20]byte]*actor{}, secrets: map[[20]byte]secret{}, model: ledger{}}
	for i := 0; i < 3; i++ {
		a := genActor(r)
		w.actors = append(w.actors, a)
		w.byAddr[a.addr] = a
	}
	for n := 0; n < 4; n++ {
		w.height = uint32(r.In(1, 60_000_000))
		if r.P(1, 4) {
			w.height = uint32(r.U(32))
		}
		w.rich = r.P(1, 4)
		c, sec := w.genHTLC()
		if r.P(1, 10) {
			c.timeout = uint32(r.U(32))
		}
		h := w.height
		if r.P(1, 3) {
			h = c.timeout + uint32(r.In(-1, 2))
		}
		g := &blockGen{w: w}
		x := &wire.ExtendedTx{Sender: r.B20(), SenderType: kindHTLC, Recipient: r.B20(), ValidityStartHeight: oddHeight(r, h), Flags: oddFlags(r)}
		oddParts(r, x)
		if r.P(1, 2) {
			x.Recipient = choose(r, c.sender, c.recipient, c.sender, c.recipient, x.Sender)
		}
		way := r.In(1, 3)
		depth := uint8(0)
		limit := c.value
		if way == 1 {
			depth = uint8(r.In(0, int(c.rounds)))
			if r.P(1, 4) {
				depth = c.rounds
			}
			keep := new(big.Int).SetUint64(c.total)
			keep.Mul(keep, big.NewInt(int64(c.rounds-depth)))
			keep.Div(keep, big.NewInt(int64(c.rounds)))
			limit = 0
			if k := keep.Uint64(); k < c.value {
				limit = c.value - k
			}
		}
		x.Value, x.Fee = split(r, around(r, limit, c.value, c.total, 0))
		// What the proof claims may differ from what it should.
		pc, psec, pdepth := c, sec, depth
		switch r.N(14) {
		case 0:
			pc.sender, pc.recipient = c.recipient, c.sender
		case 1:
			pc.recipient = w.someone().addr
		case 2:
			pc.sender = w.someone().addr
		case 3:
			psec.pre[r.N(32)] ^= 1 << r.N(8)
		case 4:
			pc.alg = choose[uint8](r, 0, 1, 2, 3)
		case 5:
			pc.root[r.N(32)] ^= 1 << r.N(8)
		case 6: // a smaller share of the rounds, but claiming more
			pdepth = choose(r, c.rounds, depth+1, 0, 255)
		case 7: // a proof that is right in itself, but for another root or algorithm
			if r.P(1, 3) {
				c.alg = choose[uint8](r, 0, 1, 2, 3, 3, 4)
			} else if r.Bool() {
				psec.pre = r.B32()
				pc.root, _ = hashRounds(pc.alg, psec.pre, psec.rounds)
			} else {
				c.root = choose(r, [32]byte{}, r.B32(), psec.pre)
			}
			t.Count("proofs for other contracts")
		case 8: // parties without a key
			switch r.N(3) {
			case 0:
				c.sender = nobody(r)
			case 1:
				c.recipient = nobody(r)
			default:
				c.sender = nobody(r)
				c.recipient = c.sender
			}
			t.Count("parties without a key")
		}
		x.Proof = g.htlcProof(pc, psec, x, way, depth)
		if way == 1 && pdepth != depth {
			x.Proof[2] = pdepth
		}
		if way == 1 && r.P(1, 12) { // the root itself as a pre-image of depth zero
			if r.Bool() {
				x.Proof[2] = 0
			}
			copy(x.Proof[35:67], c.root[:])
			t.Count("root as pre-image")
		}
		if r.P(1, 4) && len(x.Proof) > 0 && withForeign(r, w.actors, x, proofsOf([]string{"", "htlc transfer", "htlc early", "htlc timeout"}[way], x)) {
			t.Count("foreign proofs")
		}
		if r.P(1, 10) {
			x.Proof = badProof(r, x.Proof)
		}
		if r.P(1, 20) && len(x.Proof) > 0 {
			x.Proof[0] = choose[byte](r, 0, 1, 2, 3, 4, 255)
		}
		want, why := debit(c, takeApart(x), h)
		got, err := unitApply(t, c, x, h, false)
		t.Logf("%v at %d: value %d fee %d proof %x: %v, model %q", c, h, x.Value, x.Fee, x.Proof, err, why)
		switch why {
		case undecided:
			t.Count("left open by the protocol")
			continue
		case "":
			t.Check(err == nil, "%v, height %d, value %d fee %d, proof kind %d depth %d: refused with %v", c, h, x.Value, x.Fee, x.Proof[0], depth, err)
			t.Check(got == want, "%v, height %d, value %d fee %d: becomes %v, want %v", c, h, x.Value, x.Fee, got, want)
			t.Count("allowed: " + []string{"", "regular", "early", "timeout"}[x.Proof[0]])
		default:
			t.Check(err != nil, "%v, height %d, value %d fee %d, proof kind %d depth %d: allowed although %s", c, h, x.Value, x.Fee, way, depth, why)
			t.Count("refused: " + why)
		}
		t.Distinct(c.String(), h, x.Value, x.Fee, x.Proof)
		t.Sample("%v at height %d: way %d depth %d, value %d fee %d -> %q", c, h, way, depth, x.Value, x.Fee, why)
		nearTwins(t, c, x, h)
	}
}

// s05Drain pays out in portions with growing hash depth.
func s05Drain(t *T) {
	r := t.R
	w := &world{r: r, byAddr: map[[20]byte]*actor{}, model: ledger{}, height: 1000}
	for i := 0; i < 2; i++ {
		a := genActor(r)
		w.actors = append(w.actors, a)
		w.byAddr[a.addr] = a
	}
	c := rAcc{kind: kindHTLC, sender: w.actors[0].addr, recipient: w.actors[1].addr, alg: choose[uint8](r, 1, 3),
		rounds: choose[uint8](r, 1, 2, 4, 8, 16), timeout: 1000 + uint32(r.N(20)), total: uint64(r.In(100, 1_000_000))}
	c.value = c.total + choose(r, 0, 0, uint64(r.N(100)))
	sec := secret{pre: r.B32(), rounds: c.rounds}
	c.root, _ = hashRounds(c.alg, sec.pre, c.rounds)
	terms := c.terms()
	take := func(way int, depth uint8, amount uint64) bool {
		x := &wire.ExtendedTx{SenderType: kindHTLC, ValidityStartHeight: oddHeight(r, w.height)}
		x.Value = amount
		if r.Bool() && amount > 0 {
			x.Fee = r.Uint64() % amount
			x.Value = amount - x.Fee
		}
		x.Proof = (&blockGen{w: w}).htlcProof(c, sec, x, way, depth)
		got, err := unitApply(t, c, x, w.height, false)
		if err != nil {
			t.Count("refused payouts")
			return false
		}
		t.Check(got.terms() == terms && got.value == c.value-amount, "a payout of %d turned %v into %v", amount, c, got)
		c = got
		t.Count("payouts")
		return true
	}
	depth := uint8(0)
	for i := 0; i < 16; i++ {
		if depth < c.rounds && r.Bool() {
			depth++
		}
		w.height += uint32(r.N(4))
		keep := c.total / uint64(c.rounds) * uint64(c.rounds-depth)
		if c.total%uint64(c.rounds) != 0 {
			keep = new(big.Int).Div(new(big.Int).Mul(big.NewInt(int64(c.total)), big.NewInt(int64(c.rounds-depth))), big.NewInt(int64(c.rounds))).Uint64()
		}
		t.Logf("height %d depth %d keep %d %v", w.height, depth, keep, c)
		if w.height > c.timeout {
			t.Check(!take(1, c.rounds, 0), "%v paid to the recipient after its timeout", c)
			if c.value > 0 {
				t.Check(take(3, 0, 1+r.Uint64()%c.value), "%v does not pay back to its sender at height %d", c, w.height)
			}
			continue
		}
		t.Check(!take(3, 0, min(c.value, 1)), "%v paid back to its sender at height %d", c, w.height)
		if c.value > keep {
			free := c.value - keep
			if free < c.value {
				t.Check(!take(1, depth, free+1), "%v paid out %d at depth %d, but only %d is free", c, free+1, depth, free)
			}
			if r.Bool() {
				t.Check(take(1, depth, 1+r.Uint64()%free), "%v refused to pay out at most %d at depth %d", c, free, depth)
			}
		} else if c.value > 0 {
			t.Check(!take(1, depth, 1), "%v paid out 1 at depth %d, but nothing is free", c, depth)
		}
	}
	t.Distinct(terms.String(), c.value, w.height)
}

func s05Blocks(t *T) {
	contractBlocks(t, kindHTLC, "payouts in blocks", "no htlc proof", "htlc expired", "malformed htlc proof", "other hash", "wrong pre-image", "not the recipient",
		"more than the hash depth unlocks", "not the sender", "htlc not expired", "unknown htlc proof", "overspent", "value and fee overflow")
}

// ---- S06 ----

var typeReasons = []string{"sender type", "recipient type", "payment to a contract", "creation over a contract", "creation of a basic account", "creation of unknown type", "miner is a contract"}

// s06Types tries one declared type in all roles against all kinds of accounts.
func s06Types(t *T) {
	r := t.R
	declared := uint8(t.Idx)
	w := newWorldOf(r, false)
	// Make sure there is one of each kind that can be spent from.
	var addrs [4][20]byte
	a, b := w.actors[0], w.actors[1]
	addrs[0] = a.addr
	w.model.put(a.addr, rAcc{value: 1_000_000})
	addrs[1], addrs[2], addrs[3] = w.fresh(), w.fresh(), w.fresh()
	w.model.put(addrs[1], rAcc{kind: kindVesting, owner: b.addr, value: 1_000_000})
	w.model.put(addrs[2], rAcc{kind: kindHTLC, sender: a.addr, recipient: b.addr, value: 1_000_000, total: 1_000_000, alg: 1, rounds: 1, timeout: w.height + 10})
	delete(w.model, addrs[3])
	s := newSim(t, w)
	proof := func(kind int, x *wire.ExtendedTx) []byte {
		switch kind {
		case kindVesting:
			return b.proofBytes(x)
		case kindHTLC:
			return append(append([]byte{2}, b.proofBytes(x)...), a.proofBytes(x)...)
		}
		return a.proofBytes(x)
	}
	run := func(role string, x *wire.ExtendedTx, sender int, miner [20]byte, ok bool) {
		o := &outcome{g: w.newBlockGen()}
		if x != nil {
			o.g.add(role, x, func() { x.Proof = proof(sender, x) })
		}
		o.b = w.finish(o.g)
		o.b.Body.MinerAddr = miner
		w.fillPruned(o.b)
		s.judge(o)
		root := s.in.acc.Tree.Hash()
		s.push(o)
		if !ok {
			t.Check(o.err != nil, "%s declared as type %d: accepted\n%s\nstate\n%s", role, declared, dumpBlock(o.b), o.before.dump())
			t.Check(s.in.acc.Tree.Hash() == root, "%s declared as type %d: rejected, but the state changed", role, declared)
			t.Count("rejected: " + role)
		} else if o.err == nil {
			t.Count("accepted: " + role)
		} else {
			t.Count("matching type refused: " + role)
		}
		t.Distinct(role, declared, sender, dumpBlock(o.b).String())
		s.resync(o)
		w.height++
	}
	payee := func() [20]byte { return choose(r, a.addr, b.addr, w.fresh()) }
	kinds := []uint8{kindBasic, kindVesting, kindHTLC, kindBasic}
	for k, addr := range addrs { // as a sender
		x := &wire.ExtendedTx{Sender: addr, SenderType: declared, Recipient: payee(), Value: uint64(r.N(5)), Fee: uint64(r.N(2))}
		if k == 3 {
			x.Value, x.Fee = 0, 0
		}
		run("sender", x, k, w.fresh(), declared == kinds[k])
		if k == 0 { // together with a creation
			x := &wire.ExtendedTx{Sender: addr, SenderType: declared, Recipient: w.fresh(), RecipientType: kindVesting, Flags: 1, Value: 3, Data: append(bytes.Clone(b.addr[:]), 0, 0, 0, 1)}
			run("sender", x, k, w.fresh(), declared == kindBasic)
		}
	}
	for k, addr := range addrs { // as a recipient
		for from := 0; from < 3; from++ {
			if from == k && k != 0 {
				continue
			}
			x := &wire.ExtendedTx{Sender: addrs[from], SenderType: kinds[from], Recipient: addr, RecipientType: declared, Value: uint64(r.N(5))}
			run("recipient", x, from, w.fresh(), declared == kindBasic && kinds[k] == kindBasic)
		}
	}
	for k, addr := range addrs { // as a new contract
		x := &wire.ExtendedTx{Sender: addrs[0], SenderType: kindBasic, Recipient: addr, RecipientType: declared, Flags: 1, Value: uint64(r.In(1, 5))}
		if declared == kindHTLC || declared != kindVesting && r.Bool() {
			c, _ := w.genHTLC()
			x.Data = htlcData(c)
		} else {
			x.Data = vestingData(r, w.genVesting())
		}
		ok := (declared == kindVesting || declared == kindHTLC) && kinds[k] == kindBasic
		if ok && k == 0 {
			continue // keep the account
		}
		run("creation", x, 0, w.fresh(), ok)
	}
	addrs[3] = w.fresh()
	for k, addr := range addrs { // as the miner
		run("miner", nil, 0, addr, kinds[k] == kindBasic)
	}
	// A contract created in the block is no miner either, nor a recipient.
	x := &wire.ExtendedTx{Sender: addrs[0], SenderType: kindBasic, Recipient: w.fresh(), RecipientType: kindVesting, Flags: 1, Value: 5, Data: append(bytes.Clone(b.addr[:]), 0, 0, 0, 1)}
	run("miner", x, 0, x.Recipient, false)
	t.Sample("declared type %d in %d roles", declared, 4)
}

func s06History(t *T) {
	w := newWorld(t.R)
	s := newSim(t, w)
	for n := 0; n < t.R.length(12); n++ {
		o := s.makeBlock(2, 3, func(f *fault) bool {
			switch f.name {
			case "sender type", "recipient type", "payment to a contract", "payment to its own contract", "creation over a contract", "two creations at one address", "creation type", "plain flag on a creation", "creation flag on a transfer", "contract as miner":
				return true
			}
			return t.R.P(1, 10)
		})
		if !s.judge(o) {
			continue
		}
		s.push(o)
		if any1(o.why, typeReasons...) {
			t.Check(o.err != nil, "accepted although the model says %q\n%s\nstate\n%s", o.why, dumpBlock(o.b), o.before.dump())
			t.Count("refused: " + o.why)
		}
		t.Distinct(o.key()...)
		s.resync(o)
		w.advance()
	}
}

// ---- S07 ----

// drainBlock makes a block that empties contracts.
func (s *sim) drainBlock() *outcome {
	w, r := s.w, s.t.R
	o := &outcome{g: w.newBlockGen()}
	for _, addr := range shuffled(r, w.model.addresses()) {
		c := w.model[addr]
		if c.kind == kindBasic || r.P(1, 4) || len(o.g.txs) > 5 && !r.large {
			continue
		}
		parts := 1
		if r.P(1, 4) {
			parts = 2
		}
		for ; parts > 0; parts-- {
			left := o.g.left.get(addr).value
			x := o.g.ext(addr, c.kind)
			x.Recipient = o.g.payee()
			x.Value = left
			if parts > 1 && left > 1 {
				x.Value = 1 + r.Uint64()%(left-1)
			} else if r.P(1, 6) && left > 0 { // almost
				x.Value--
			}
			if r.Bool() && x.Value > 0 {
				x.Fee = r.Uint64() % min(x.Value, 1000)
				x.Value -= x.Fee
			}
			switch c.kind {
			case kindVesting:
				owner := w.byAddr[c.owner]
				if owner == nil || x.Value+x.Fee > vestingFree(o.g.left.get(addr), w.height) {
					continue
				}
				o.g.add("vesting withdrawal", x, func() { x.Proof = owner.proofBytes(x) })
			case kindHTLC:
				way := choose(r, 2, 2, 1, 3)
				if way == 1 && w.height > c.timeout || way == 3 && w.height <= c.timeout {
					way = 2
				}
				sec := w.secrets[addr]
				if way == 1 && (c.alg != 1 && c.alg != 3) {
					way = 2
				}
				if o.g.htlcProof(c, sec, x, way, c.rounds) == nil {
					continue
				}
				o.g.add("htlc", x, func() { x.Proof = o.g.htlcProof(c, sec, x, way, c.rounds) })
			}
		}
	}
	for i := r.N(3); i > 0; i-- {
		o.g.transfer()
	}
	if r.P(1, 3) {
		o.g.create()
	}
	o.b = w.finish(o.g)
	return o
}

func s07History(t *T) {
	r := t.R
	w := newWorldOf(r, r.P(1, 10))
	for i := r.In(2, 6); i > 0; i-- {
		c := rAcc{kind: kindVesting, owner: w.someone().addr, value: w.amount()}
		if r.P(1, 8) {
			c.value = 0
		}
		w.model.put(r.B20(), c)
	}
	for i := r.In(1, 4); i > 0; i-- {
		addr := r.B20()
		a, sec := w.genHTLC()
		w.secrets[addr] = sec
		w.model.put(addr, a)
	}
	s := newSim(t, w)
	twin := newInstance(r)
	twin.load(r, w.model)
	for n := 0; n < t.R.length(6); n++ {
		o := s.drainBlock()
		if n%2 == 1 {
			o.b, o.g = w.genWorldBlock()
		}
		if r.P(1, 2) {
			o.fault = w.damage(o.g, o.b, func(f *fault) bool { return f.prune || r.P(1, 30) })
		}
		if !s.judge(o) {
			continue
		}
		s.push(o)
		if strings.HasPrefix(o.why, "prune list") {
			t.Check(o.err != nil, "accepted although the model says %q\n%s\nstate\n%s", o.why, dumpBlock(o.b), o.before.dump())
			t.Count("refused: " + o.why)
		}
		// The order of the list does not matter.
		p := copyBlock(o.b)
		if p.Body != nil {
			p.Body.Pruned = shuffled(r, p.Body.Pruned)
			if len(p.Body.Pruned) > 1 {
				t.Count("permuted lists")
			}
		}
		err := twin.push(t, p)
		t.Check((err == nil) == (o.err == nil), "verdict is %v, but %v with the prune list in another order\n%s", o.err, err, dumpBlock(o.b))
		x, y := s.in.acc.Tree.Hash(), twin.acc.Tree.Hash()
		t.Check(x == y, "another order of the prune list gives another state\n%s", dumpBlock(o.b))
		if o.err == nil {
			listed := map[[20]byte]bool{}
			for _, e := range o.b.Body.Pruned {
				listed[e.Address] = true
			}
			paid := map[[20]byte]bool{o.b.Body.MinerAddr: true}
			sent := map[[20]byte]bool{}
			for _, d := range bodyTxs(o.b) {
				paid[d.recipient] = true
				sent[d.sender] = true
			}
			for addr := range listed {
				a := addr
				got, still := o.after[addr]
				if addr == o.b.Body.MinerAddr { // it may be paid the reward, like any unused address
					t.Check(!still || got.kind == kindBasic, "%x is pruned, but still %v", addr, got)
				} else {
					t.Check(!still, "%x is pruned, but still %v\n%s", addr, got, dumpBlock(o.b))
					t.Check(fromWire(s.in.acc.GetAccount(&a)) == (rAcc{}), "%x is pruned, but found by lookup", addr)
				}
				t.Count("accounts pruned")
			}
			for addr, c := range o.before {
				if listed[addr] {
					continue
				}
				got, still := o.after[addr]
				switch {
				case c.kind != kindBasic:
					t.Check(still && got.terms() == c.terms(), "contract %x was %v and is not pruned, but now %v\n%s", addr, c, got, dumpBlock(o.b))
					t.Check(!sent[addr] || got.value != 0, "contract %x is empty, but not pruned\n%s", addr, dumpBlock(o.b))
					t.Check(sent[addr] || got == c, "contract %x was %v, is %v", addr, c, got)
				case !sent[addr] && !paid[addr]:
					t.Check(still && got == c, "account %x was %v, is %v", addr, c, got)
				}
			}
		}
		if len(o.b0pruned()) > 0 || strings.HasPrefix(o.why, "prune") {
			t.Distinct(o.key()...)
		}
		s.resync(o)
		w.advance()
	}
	t.Sample("height %d: %s", w.height, w.model.dump())
}

// s07Long pads and shortens prune lists by many entries at once.
func s07Long(t *T) {
	r := t.R
	sizes := []int{1, 2, 127, 128, 255, 256, 257, 512, 4096}
	if t.Idx%20 == 19 {
		sizes = []int{65535, 65536, 65537}
	}
	k := sizes[r.N(len(sizes))]
	w := newWorldOf(r, false)
	many := k
	if k > 1000 {
		many = r.N(40)
	}
	unused := func(i int) [20]byte {
		a := r.B20()
		a[0], a[7], a[8], a[9] = 0xc7, byte(i>>16), byte(i>>8), byte(i)
		return a
	}
	one := t.Idx%10 == 3 // a list of many with one too many
	if one {
		many = choose(r, 260, 400, 420, 450, 520, 820, 900, 1700, r.In(200, 2000))
	} else if r.Bool() {
		many = r.N(many + 1)
	}
	for i := many; i > 0; i-- {
		w.model.put(unused(1000000+i), rAcc{kind: kindVesting, owner: w.someone().addr, value: 1 + r.U(40)})
	}
	s := newSim(t, w)
	was := r.large
	r.large = true // no bound on the number of withdrawals
	o := s.drainBlock()
	r.large = was
	due := len(o.b.Body.Pruned)
	mode := r.N(6)
	if one {
		mode = 5
	}
	switch mode {
	case 5: // one too many, somewhere
		o.fault = "padded"
		for i := choose(r, 1, 1, 2); i > 0; i-- {
			e := wire.AccountPruned{Address: unused(i), Account: wire.WrapAccount{Account: choose[wire.Account](r, &wire.BasicAccount{}, &wire.VestingAccount{}, &wire.HTLCAccount{HashCount: 1})}}
			if r.P(1, 3) {
				e.Address = w.someone().addr
			}
			l := o.b.Body.Pruned
			at := choose(r, len(l), len(l), 0, r.N(len(l)+1))
			o.b.Body.Pruned = append(append(append([]wire.AccountPruned(nil), l[:at]...), e), l[at:]...)
		}
		if due >= 256 {
			t.Count("one too many in a long list")
		}
	case 0: // as it should be
		o.fault = "none"
	case 1: // entries are missing
		if n := min(k, due); n > 0 {
			o.b.Body.Pruned = o.b.Body.Pruned[n:]
		}
		o.fault = "shortened"
	default:
		o.fault = "padded"
		kind := r.N(3)
		for i := 0; i < k; i++ {
			e := wire.AccountPruned{Address: unused(i)}
			switch kind {
			case 0:
				e.Account.Account = &wire.BasicAccount{}
			case 1:
				e.Account.Account = &wire.VestingAccount{}
			default:
				e.Account.Account = &wire.HTLCAccount{HashCount: 1}
			}
			o.b.Body.Pruned = append(o.b.Body.Pruned, e)
		}
		o.b.Body.Pruned = shuffled(r, o.b.Body.Pruned)
	}
	if !s.judge(o) {
		return
	}
	before := snapshotStore(s.in.store)
	t.Eval()
	t.Logf("prune list of %d entries, %d due, %s", len(o.b.Body.Pruned), due, o.fault)
	err := s.in.push(t, copyBlock(o.b))
	t.Check((err == nil) == (o.why == ""), "a prune list of %d entries, with %d due (%s): %v, but the model says %q", len(o.b.Body.Pruned), due, o.fault, err, o.why)
	if err != nil {
		if d := snapshotDiff(before, snapshotStore(s.in.store)); d != "" {
			t.Failf("a rejected block changed the store: %s", d)
		}
		t.Count("refused")
		if strings.HasPrefix(o.why, "prune list") {
			t.Count("refused: " + o.fault)
		}
	} else {
		left := s.in.state(t)
		for addr, c := range o.next {
			t.Check(left[addr] == c, "account %x is %v, want %v", addr, left[addr], c)
		}
		t.Check(len(left) == len(o.next), "%d accounts are left, want %d", len(left), len(o.next))
		t.Count("accepted")
		t.CountN("accounts pruned", due)
	}
	t.Distinct(len(o.b.Body.Pruned), due, o.fault, w.height)
	t.Sample("%d entries, %d due, %s: %v", len(o.b.Body.Pruned), due, o.fault, err)
}

func (o *outcome) b0pruned() []wire.AccountPruned {
	if o.b.Body == nil {
		return nil
	}
	return o.b.Body.Pruned
}

// ---- S08 ----

// aimBlock points parts of an arbitrary block at accounts that exist.
func (w *world) aimBlock(b *wire.Block) {
	r := w.r
	if b.Body == nil {
		return
	}
	addrs := w.model.addresses()
	pick := func() [20]byte {
		if len(addrs) == 0 || r.P(1, 6) {
			return r.B20()
		}
		return addrs[r.N(len(addrs))]
	}
	if r.Bool() {
		b.Body.MinerAddr = pick()
	}
	for i := range b.Body.Txs {
		switch x := b.Body.Txs[i].Tx.(type) {
		case *wire.BasicTx:
			x.Recipient = pick()
			if a := w.someone(); r.Bool() {
				copy(x.SenderPubKey[:], a.key[32:])
			}
			if r.Bool() {
				x.Value, x.Fee = uint64(r.N(3)), 0
			}
		case *wire.ExtendedTx:
			x.Sender, x.Recipient = pick(), pick()
			x.SenderType = w.model.get(x.Sender).kind
			x.RecipientType = choose(r, w.model.get(x.Recipient).kind, 0, 1, 2, x.RecipientType)
			x.Flags = choose(r, 0, 1, 1, x.Flags)
			if r.P(3, 4) {
				x.Value, x.Fee = uint64(r.N(3)), 0
			}
			if r.Bool() {
				x.Data = r.Bytes(choose(r, 0, 24, 36, 44, 78, r.N(100)))
			}
			switch r.N(4) {
			case 0:
				x.Proof = w.someone().proofBytes(x)
			case 1:
				x.Proof = append([]byte{byte(r.N(5))}, w.someone().proofBytes(x)...)
			case 2:
				x.Proof = append([]byte{byte(r.N(5))}, r.Bytes(r.N(200))...)
			}
		}
	}
	for i := range b.Body.Pruned {
		p := &b.Body.Pruned[i]
		if r.Bool() {
			p.Address = pick()
		}
		if c := w.model.get(p.Address); r.Bool() {
			p.Account.Account = c.wire()
		}
	}
}

func s08Hostile(t *T) {
	r := t.R
	w := newWorld(r)
	s := newSim(t, w)
	for n := 0; n < t.R.length(12); n++ {
		var b *wire.Block
		switch r.N(3) {
		case 0:
			b = genBlock(r)
			w.aimBlock(b)
			if r.P(9, 10) {
				b.Header.Height = w.height
			}
		default:
			blk, g := w.genWorldBlock()
			for i := r.N(5); i > 0; i-- {
				w.damage(g, blk, nil)
			}
			if r.P(1, 3) {
				w.aimBlock(blk)
			}
			b = blk
		}
		enc := layout(b)
		if r.Bool() {
			enc = r.mutate(enc)
		}
		dec := new(wire.Block)
		var err error
		if p := try(func() { err = beserial.UnmarshalFull(enc, dec) }); p != "" || err != nil {
			t.Count("not decodable")
			continue
		}
		if !bytes.Equal(enc, layout(b)) {
			t.Count("decoded after damage")
		}
		if dec.Body == nil {
			t.Count("without body")
		}
		if dec.Header.Height > 60_000_000 { // see the far workload
			dec.Header.Height %= 60_000_000
		}
		t.Eval()
		t.Logf("push %s", dumpBlock(dec))
		perr := s.in.push(t, dec)
		if perr == nil {
			t.Count("accepted")
		} else {
			t.Count("rejected")
		}
		t.Distinct(enc)
		if n < 1 {
			t.Sample("%d bytes: %v", len(enc), perr)
		}
		// The state has to remain usable.
		after := s.in.state(t)
		if p := try(func() {
			for k := range after {
				addr := k
				s.in.acc.GetAccount(&addr)
			}
			addr := r.B20()
			s.in.acc.GetAccount(&addr)
		}); p != "" {
			t.Failf("lookup after a hostile block: %s\n%s", p, dumpBlock(dec))
		}
		w.model = after
		for {
			empty := &wire.Block{Header: wire.BlockHeader{Height: w.height}, Body: &wire.BlockBody{MinerAddr: r.B20()}}
			if _, exists := w.model[empty.Body.MinerAddr]; exists {
				continue
			}
			if err := s.in.push(t, empty); err != nil {
				t.Failf("an empty block is refused after a hostile block: %v\n%s", err, dumpBlock(dec))
			}
			break
		}
		w.model = s.in.state(t)
		t.State(s.in.acc.Tree.Hash())
		w.advance()
	}
}

// s08Cut applies blocks with one transaction whose proof or data is cut to every length, or a bit longer.
func s08Cut(t *T) {
	r := t.R
	w := newWorld(r)
	s := newSim(t, w)
	kinds := []string{"basic", "vesting", "htlc"}
	for n := 0; n < 4; n++ {
		g := w.newBlockGen()
		for i := 0; i < 8 && len(g.txs) == 0; i++ {
			switch n {
			case 0:
				g.settle()
			case 1:
				g.withdraw()
			case 2:
				g.create()
			default:
				g.transfer()
			}
		}
		if len(g.txs) == 0 {
			continue
		}
		x, ok := g.txs[0].(*wire.ExtendedTx)
		if !ok {
			continue
		}
		g.txs, g.sign = g.txs[:1], g.sign[:1]
		cutData := isCreation(x) && r.P(2, 3)
		data, proof := x.Data, x.Proof
		b := w.finish(g)
		whole := proof
		what := "cut proof of "
		if cutData {
			whole = data
			what = "cut data of "
		}
		whole = append(bytes.Clone(whole), r.Bytes(r.N(4))...)
		from := r.N(len(whole) + 1)
		for i := range len(whole) + 1 {
			l := (from + i) % (len(whole) + 1)
			part := bytes.Clone(whole[:l:l])
			if r.P(1, 8) && l > 0 { // another way
				part[0] = byte(r.N(6))
			}
			if cutData {
				x.Data = part
				g.sign[0]()
			} else {
				x.Proof = part
			}
			kind := x.SenderType
			if cutData {
				kind = x.RecipientType
			}
			if int(kind) < len(kinds) {
				t.Count(what + kinds[kind])
			}
			t.Logf("push %s", dumpBlock(b))
			t.Eval()
			t.Distinct(what, kind, part)
			before := s.in.acc.Tree.Hash()
			if s.in.push(t, copyBlock(b)) == nil {
				t.Count("accepted")
				break
			}
			t.Count("rejected")
			if i%16 == 0 {
				t.Check(s.in.acc.Tree.Hash() == before, "a refused block changed the state")
			}
		}
		w.model = s.in.state(t)
		w.advance()
		if n == 0 {
			t.Sample("%s%d, whole at %d bytes", what, x.SenderType, len(whole))
		}
	}
}

// s08Far applies blocks at heights that no chain has reached.
func s08Far(t *T) {
	r := t.R
	w := newWorld(r)
	s := newSim(t, w)
	first := []uint32{1<<32 - 1, 1<<32 - 2, 1 << 31, 1<<31 - 1, 3_000_000_000}
	for n := r.In(2, 6); n > 0; n-- {
		switch {
		case t.Idx < len(first):
			w.height = first[t.Idx] // the highest first, as all others are then quick
		case r.P(1, 4):
			w.height = choose(r, first...)
		case r.P(1, 4):
			w.height = ^uint32(r.N(100_000))
		default:
			w.height = uint32(60_000_000 + r.N(1<<32-60_000_000))
		}
		b, g := w.genWorldBlock()
		if r.P(1, 3) {
			w.damage(g, b, nil)
		}
		if r.P(1, 3) {
			w.aimBlock(b)
		}
		b.Header.Height = w.height
		t.Logf("push %s", dumpBlock(b))
		if s.in.push(t, b) == nil {
			t.Count("accepted")
		} else {
			t.Count("rejected")
		}
		w.model = s.in.state(t)
		t.Eval()
		t.Distinct(w.height, layout(b))
		t.Count("far heights")
		w.advance()
	}
	t.Sample("up to height %d", w.height)
}

// ---- S09 ----

func s09Formats(t *T) {
	r := t.R
	w := newWorldOf(r, false)
	s := newSim(t, w)
	for n := 0; n < 4; n++ {
		o := &outcome{g: w.newBlockGen()}
		for i := r.In(1, 3); i > 0; i-- {
			o.g.create()
		}
		for i, x := range o.g.txs {
			e := x.(*wire.ExtendedTx)
			switch r.N(5) {
			case 2: // more than enough
				junk := make([]byte, r.Len(300, 1))
				if r.Bool() {
					r.Fill(junk)
				}
				e.Data = append(bytes.Clone(e.Data), junk...)
			case 0: // any length
				e.Data = r.Bytes(r.N(100))
			case 1: // any contents
				e.Data = r.Bytes(choose(r, 24, 36, 44, 78))
				if e.RecipientType == kindVesting {
					e.Data = e.Data[:choose(r, 24, min(36, len(e.Data)), min(44, len(e.Data)))]
				} else if r.Bool() {
					e.Data = r.Bytes(78)
				}
			}
			if r.P(1, 4) {
				addrs := w.model.addresses()
				if len(addrs) > 0 {
					e.Recipient = addrs[r.N(len(addrs))]
				}
			}
			o.g.sign[i]()
		}
		if r.Bool() && len(o.g.txs) > 0 { // a payment to the address of a new contract
			to := takeApart(o.g.txs[r.N(len(o.g.txs))]).recipient
			before := len(o.g.txs)
			if o.g.transfer() {
				switch x := o.g.txs[before].(type) {
				case *wire.BasicTx:
					x.Recipient = to
				case *wire.ExtendedTx:
					x.Recipient = to
				}
				o.g.sign[before]()
			}
		}
		o.b = w.finish(o.g)
		s.judge(o)
		s.push(o)
		for _, d := range bodyTxs(o.b) {
			if d.flags&1 == 0 {
				continue
			}
			_, why := refCreate(d.recipientType, d.data, d.value, 0)
			if why != "" {
				t.Check(o.err != nil, "accepted although a creation has %s (%d bytes)\n%s", why, len(d.data), dumpBlock(o.b))
				t.Count("refused creations")
			}
			if o.before.get(d.recipient).kind != kindBasic {
				t.Check(o.err != nil, "accepted although %x is a contract already\n%s", d.recipient, dumpBlock(o.b))
				t.Count("refused: existing contract")
			}
			t.Distinct(d.data, d.recipientType, d.value, o.err == nil)
		}
		if o.why == "" {
			t.Check(o.err == nil, "refused with %v\n%s\nstate\n%s", o.err, dumpBlock(o.b), o.before.dump())
		}
		if o.err == nil {
			s.checkCreations(o)
		}
		s.resync(o)
		w.advance()
	}
	t.Sample("height %d: %s", w.height, w.model.dump())
}

// checkCreations compares new contracts with their creation data.
func (s *sim) checkCreations(o *outcome) {
	t := s.t
	txs := bodyTxs(o.b)
	for _, d := range txs {
		if d.flags&1 == 0 {
			continue
		}
		// What the address holds: its balance before, less what it spends, plus what it is paid.
		balance := o.before.get(d.recipient).value
		for _, e := range txs {
			if e.sender == d.recipient {
				balance -= e.value + e.fee
			}
			if e.recipient == d.recipient {
				balance += e.value
			}
		}
		want, why := refCreate(d.recipientType, d.data, d.value, balance)
		t.Check(why == "", "accepted although a creation has %s\n%s", why, dumpBlock(o.b))
		addr := d.recipient
		pruned := false
		for _, p := range o.b.Body.Pruned {
			pruned = pruned || p.Address == addr
		}
		if pruned { // created empty by itself, and removed at once
			t.Count("created and pruned")
			continue
		}
		got := fromWire(s.in.acc.GetAccount(&addr))
		t.Check(got == want && o.after[addr] == want, "created %v (stored %v), want %v from %x\n%s", got, o.after[addr], want, d.data, dumpBlock(o.b))
		t.Count(fmt.Sprintf("created %s %d", []string{"", "vesting", "htlc"}[d.recipientType], len(d.data)))
		if o.before.get(addr).value > 0 {
			t.Count("created on a funded address")
		}
		t.Count("contracts created")
	}
}

func s09History(t *T) {
	w := newWorld(t.R)
	s := newSim(t, w)
	for n := 0; n < t.R.length(14); n++ {
		o := s.makeBlock(1, 4, func(f *fault) bool {
			switch f.name {
			case "creation over a contract", "two creations at one address", "payment to a contract", "creation data", "contract as miner", "creation type", "payment to its own contract", "miner balance near the limit":
				return true
			}
			return t.R.P(1, 8)
		})
		o.before = w.model
		_, o.why, _ = w.model.apply(o.b, false)
		s.push(o)
		removed := map[[20]byte]bool{}
		if o.err == nil {
			s.checkCreations(o)
			for _, p := range o.b.Body.Pruned {
				removed[p.Address] = true
			}
		}
		for addr, c := range o.before {
			if c.kind == kindBasic {
				continue
			}
			if removed[addr] {
				t.Count("contracts removed")
				continue
			}
			got, ok := o.after[addr]
			t.Check(ok && got.terms() == c.terms(), "the terms of %x changed from %v to %v\n%s", addr, c, got, dumpBlock(o.b))
			t.Count("terms compared")
		}
		t.Distinct(o.key()...)
		s.resync(o)
		w.advance()
	}
}

// ---- S10 ----

func s10Unit(t *T) {
	r := t.R
	a, b := genActor(r), genActor(r)
	for n := 0; n < t.R.length(6); n++ {
		c := rAcc{value: r.U(64)}
		x := &wire.ExtendedTx{Sender: r.B20(), Recipient: r.B20()}
		height := uint32(r.In(1, 1000))
		c.kind = uint8(r.N(3))
		switch c.kind {
		case kindVesting:
			c.owner = a.addr
			c.start = uint32(r.N(int(height)))
			c.total = choose(r, c.value, r.U(64))
		case kindHTLC:
			c.sender, c.recipient, c.total = a.addr, b.addr, c.value
			c.alg, c.rounds, c.timeout = 1, 1, height+uint32(r.In(-1, 1))
		}
		x.SenderType = c.kind
		total := around(r, c.value, 0)
		x.Value, x.Fee = split(r, total)
		switch r.N(5) {
		case 0:
			x.Value, x.Fee = r.U(64), r.U(64)
		case 1: // wraps around to something affordable
			x.Value = ^uint64(0) - uint64(r.N(3))
			x.Fee = r.U(64)
			if r.Bool() {
				x.Value, x.Fee = x.Fee, x.Value
			}
		}
		switch c.kind {
		case kindVesting:
			x.Proof = a.proofBytes(x)
		case kindHTLC:
			x.Proof = append(append([]byte{2}, b.proofBytes(x)...), a.proofBytes(x)...)
		}
		var tx wire.Tx = x
		if c.kind == kindBasic && r.Bool() {
			tx = &wire.BasicTx{SenderPubKey: r.B32(), Recipient: r.B20(), Value: x.Value, Fee: x.Fee}
		}
		sum, carry := bits.Add64(x.Value, x.Fee, 0)
		got, err := unitApply(t, c, tx, height, false)
		t.Logf("%v - (%d + %d): %v, %v", c, x.Value, x.Fee, got, err)
		if carry == 0 && sum <= c.value {
			want := c
			want.value -= sum
			t.Check(err == nil && got == want, "%v less %d and %d is %v (%v), want %v", c, x.Value, x.Fee, got, err, want)
			t.Count("debited " + []string{"basic", "vesting", "htlc"}[c.kind])
			if sum == c.value {
				t.Count("exact balance spent")
			}
		} else {
			t.Check(err != nil, "%v less %d and %d is %v", c, x.Value, x.Fee, got)
			t.Count("overspent")
			if carry != 0 {
				t.Count("sum above 2^64")
			}
		}
		// The other direction.
		in := &wire.ExtendedTx{Sender: r.B20(), Recipient: r.B20(), Fee: r.U(64)}
		in.Value = around(r, ^uint64(0)-c.value, 0, c.value)
		var itx wire.Tx = in
		if r.Bool() {
			itx = &wire.BasicTx{Value: in.Value, Fee: in.Fee}
		}
		got, err = unitApply(t, c, itx, height, true)
		sum, carry = bits.Add64(c.value, in.Value, 0)
		t.Logf("%v + %d: %v, %v", c, in.Value, got, err)
		switch {
		case err == nil:
			want := c
			want.value = sum
			t.Check(carry == 0 && got == want, "%v plus %d is %v", c, in.Value, got)
			t.Count("credited")
		case carry != 0:
			t.Count("credit above 2^64")
		default:
			t.Check(c.kind != kindBasic, "%v plus %d: %v", c, in.Value, err)
			t.Count("credit refused by a contract")
		}
		t.Distinct(c.kind, c.value, x.Value, x.Fee, in.Value)
		t.Sample("%v - (%d + %d), + %d", c, x.Value, x.Fee, in.Value)
	}
}

func s10History(t *T) {
	w := newWorldOf(t.R, t.R.Bool())
	s := newSim(t, w)
	for n := 0; n < 8; n++ {
		o := s.makeBlock(2, 3, amountFaults)
		if !s.judge(o) {
			continue
		}
		s.push(o)
		if any1(o.why, "overspent", "value and fee overflow", "balance overflow", "fee overflow", "miner overflow") {
			t.Check(o.err != nil, "accepted although the model says %q\n%s\nstate\n%s", o.why, dumpBlock(o.b), o.before.dump())
			t.Count("refused: " + o.why)
		}
		if o.why == "" && o.err == nil {
			for _, d := range bodyTxs(o.b) {
				for _, addr := range [][20]byte{d.sender, d.recipient, o.b.Body.MinerAddr} {
					t.Check(o.after[addr].value == o.next[addr].value, "%x had %d, has %d, want %d\n%s", addr, o.before[addr].value, o.after[addr].value, o.next[addr].value, dumpBlock(o.b))
				}
			}
		}
		t.Distinct(o.key()...)
		s.resync(o)
		w.advance()
	}
}

// ---- S11 ----

// scribbleAccount changes every field of an account object.
func scribbleAccount(r *Rand, acc wire.Account) {
	switch o := acc.(type) {
	case *wire.BasicAccount:
		o.Value = o.Value ^ r.Uint64() | 1
	case *wire.VestingAccount:
		o.Value++
		o.Owner[r.N(20)] ^= 1
		o.VestingStart++
		o.VestingStepBlocks ^= 5
		o.VestingStepAmount += 3
		o.VestingTotalAmount ^= 9
	case *wire.HTLCAccount:
		o.Value++
		o.Sender[r.N(20)] ^= 1
		o.Recipient[r.N(20)] ^= 1
		o.Hash.Algorithm ^= 1
		o.Hash.Bytes[r.N(32)] ^= 1
		o.HashCount++
		o.Timeout ^= 3
		o.TotalAmount ^= 9
	}
}

func s11Objects(t *T) {
	r := t.R
	in := newInstance(r)
	model := ledger{}
	ks := genKeys(r, r.In(3, 9))
	keys := ks.keys
	var objects []wire.Account // seen so far
	var storedObj []bool
	var holds []rAcc // what the objects hold
	pool := []uint64{0, 1, 5, 255, r.U(64), r.U(64)}
	// The accounts are those in the store, whoever asks for them.
	views := []*accounts.Accounts{in.acc}
	if r.P(1, 3) {
		views = append(views, in.acc, accounts.NewAccounts(in.acc.Tree), accounts.NewAccounts(&tree.PMTree{Store: bare(in.store)}))
		t.Count("several views")
	}
	view := func() *accounts.Accounts { return views[r.N(len(views))] }
	lookup := func(addr [20]byte) wire.Account {
		a := addr
		var acc wire.Account
		if p := try(func() { acc = view().GetAccount(&a) }); p != "" {
			t.Failf("lookup of %x: %s", addr, p)
		}
		t.Check(a == addr, "lookup changed the address")
		t.Check(acc != nil, "lookup of %x gives nothing", addr)
		t.Check(fromWire(acc) == model.get(addr), "lookup of %x gives %v, want %v", addr, fromWire(acc), model.get(addr))
		return acc
	}
	var ops []string
	for n := r.In(5, 40); n > 0; n-- {
		addr := keys[r.N(len(keys))]
		switch r.N(7) {
		case 0, 1: // store
			var acc wire.Account
			switch r.N(6) {
			case 0:
				acc = nil
				t.Count("stored nothing")
			case 1:
				acc = &wire.BasicAccount{}
				t.Count("stored nothing")
			case 2:
				acc = &wire.BasicAccount{Value: r.U(64)}
			case 3: // the same content in several places
				acc = &wire.BasicAccount{Value: pool[r.N(len(pool))]}
				if len(objects) > 0 && r.Bool() {
					acc = fromWire(objects[r.N(len(objects))]).wire()
				}
			default:
				acc = genAccount(r)
			}
			want := rAcc{}
			if acc != nil {
				want = fromWire(acc)
			}
			a := addr
			if p := try(func() { view().PutAccount(&a, acc) }); p != "" {
				t.Failf("storing %v: %s", want, p)
			}
			t.Check(a == addr, "storing changed the address")
			a[r.N(20)] ^= 0xff // the address is the caller's, too
			model.put(addr, want)
			if acc != nil {
				t.Check(fromWire(acc) == want, "storing changed the object from %v to %v", want, fromWire(acc))
				t.Count("stored " + []string{"basic", "vesting", "htlc"}[want.kind])
				objects, storedObj, holds = append(objects, acc), append(storedObj, true), append(holds, want)
			}
			ops = append(ops, fmt.Sprintf("put %x %v", addr, want))
		case 2, 3: // look up
			acc := lookup(addr)
			if _, ok := model[addr]; ok {
				t.Count("looked up present")
			} else {
				t.Count("looked up absent")
			}
			objects, storedObj, holds = append(objects, acc), append(storedObj, false), append(holds, fromWire(acc))
			ops = append(ops, fmt.Sprintf("get %x", addr))
		case 4, 5: // modify any object seen before
			if len(objects) == 0 {
				continue
			}
			i := r.N(len(objects))
			scribbleAccount(r, objects[i])
			holds[i] = fromWire(objects[i])
			if storedObj[i] {
				t.Count("modified stored object")
			} else {
				t.Count("modified returned object")
			}
			ops = append(ops, "modify")
		default: // write back
			root := view().Tree.Hash()
			acc := lookup(addr)
			a := addr
			view().PutAccount(&a, acc)
			h := view().Tree.Hash()
			t.Check(h == root, "storing what was read from %x changed the root hash from %x to %x", addr, root, h)
			t.Count("written back")
			ops = append(ops, "write back")
		}
		t.Logf("%s", ops[len(ops)-1])
		if d := in.differs(model); d != "" {
			t.Failf("%s", d)
		}
		for _, k := range keys {
			lookup(k)
		}
		for i, acc := range objects { // they belong to whoever asked
			t.Check(fromWire(acc) == holds[i], "an object that held %v now holds %v, after %s", holds[i], fromWire(acc), ops[len(ops)-1])
		}
		t.Eval()
	}
	t.Distinct(strings.Join(ops, ";"))
	t.State(in.acc.Tree.Hash())
	t.Sample("%s", strings.Join(ops, "; "))
}

// ---- S12 ----

func s12Revert(t *T) {
	w := newWorld(t.R)
	s := newSim(t, w)
	for n := 0; n < 5; n++ {
		o := s.makeBlock(1, 6, nil)
		o.before = w.model
		before, root := snapshotStore(s.in.store), s.in.acc.Tree.Hash()
		s.push(o)
		s.resync(o)
		w.advance()
		if o.err != nil {
			continue
		}
		middle := snapshotStore(s.in.store)
		var err error
		p := try(func() { err = s.in.acc.Revert(copyBlock(o.b)) })
		t.Count("reverts tried")
		t.Distinct(o.key()...)
		after := snapshotStore(s.in.store)
		if p == "" && err == nil {
			h := s.in.acc.Tree.Hash()
			t.Check(h == root, "revert leads to root hash %x, want %x\n%s", h, root, dumpBlock(o.b))
			if d := snapshotDiff(before, after); d != "" {
				t.Failf("revert does not restore the state before: %s\n%s", d, dumpBlock(o.b))
			}
			t.Count("reverted")
			w.model = o.before
			continue
		}
		if d := snapshotDiff(middle, after); d != "" {
			t.Failf("a revert that failed (%v %s) changed the state: %s", err, p, d)
		}
		if p != "" {
			t.Finding("revert-panics", "Revert of the block just applied: %s", p)
		} else {
			t.Finding("revert-refused", "Revert of the block just applied: %v", err)
		}
		t.Sample("revert: %v %s", err, trim(p, 60))
	}
}

// ---- S13 ----

// forgeable are the ways to spend, by the key of the known finding about forged signatures.
var forgeable = map[string]string{
	"basic": "basic-tx", "extended": "extended-basic", "create vesting": "extended-basic", "create htlc": "extended-basic",
	"vesting withdrawal": "vesting", "htlc transfer": "htlc-regular", "htlc early": "htlc-early", "htlc timeout": "htlc-timeout",
}

// proofsOf finds the signatures inside a transaction: the offset of each signature proof.
func proofsOf(kind string, x *wire.ExtendedTx) (offsets []int) {
	switch kind {
	case "htlc transfer":
		return []int{67}
	case "htlc timeout":
		return []int{1}
	case "htlc early":
		p, _, _ := parseProof(x.Proof[1:])
		return []int{1, 1 + len(layout(&p))}
	}
	return []int{0}
}

func s13Forge(t *T) {
	r := t.R
	w := newWorldOf(r, false)
	for i := 0; i < 2; i++ {
		w.model.put(r.B20(), rAcc{kind: kindVesting, owner: w.someone().addr, value: 1 + w.amount()})
		addr := r.B20()
		a, sec := w.genHTLC()
		w.secrets[addr] = sec
		w.model.put(addr, a)
	}
	for n := 0; n < t.R.length(6); n++ {
		g := w.newBlockGen()
		ok := false
		for try := 0; try < 5 && !ok; try++ {
			switch r.N(6) {
			case 0, 1:
				ok = g.transfer()
			case 2:
				ok = g.create()
			case 3:
				ok = g.withdraw()
			default:
				ok = g.settle()
			}
		}
		if !ok {
			continue
		}
		o := &outcome{g: g, b: w.finish(g)}
		if !s13Judge(t, w, o) || o.why != "" {
			w.advance()
			continue
		}
		kind := g.kinds[0]
		try1 := func(b *wire.Block) error {
			in := newInstance(r)
			in.load(r, w.model)
			t.Eval()
			return in.push(t, b)
		}
		if err := try1(copyBlock(o.b)); err == nil {
			t.Count("valid accepted")
		}
		// A signature that does not verify, under the right key.
		forged := copyBlock(o.b)
		part := ""
		switch x := forged.Body.Txs[0].Tx.(type) {
		case *wire.BasicTx:
			switch r.N(3) {
			case 0:
				x.Signature = [64]byte{}
			case 1:
				x.Signature[r.N(64)] ^= 1 << r.N(8)
			default:
				y := *x
				y.Recipient = r.B20()
				s := copyTx(o.g.txs[0]).(*wire.BasicTx)
				x.Signature = s.Signature
				x.Recipient = y.Recipient // signed for somebody else
			}
		case *wire.ExtendedTx:
			offs := proofsOf(kind, x)
			i := r.N(len(offs))
			if kind == "htlc early" {
				part = []string{"-recipient", "-sender"}[i]
			}
			p, rest, _ := parseProof(x.Proof[offs[i]:])
			end := len(x.Proof) - len(rest)
			switch r.N(4) {
			case 0:
				copy(x.Proof[end-64:end], make([]byte, 64))
			case 1:
				x.Proof[end-1-r.N(64)] ^= 1 << r.N(8)
			case 2:
				copy(x.Proof[end-64:end], ed25519Sign(w.someone(), r.Bytes(50)))
			default:
				p.Signature = r.B64()
				copy(x.Proof[offs[i]:], layout(&p))
			}
			if kind == "extended" || strings.HasPrefix(kind, "create") {
				switch r.N(4) {
				case 0:
					x.Proof = nil
				case 1:
					x.Proof = w.someone().proofBytes(x)
				case 2:
					x.Proof = r.Bytes(r.N(200))
				}
				if bytes.Equal(x.Proof, o.g.txs[0].(*wire.ExtendedTx).Proof) {
					x.Proof = nil
				}
			}
		}
		if !bytes.Equal(layout(forged), layout(o.b)) {
			if err := try1(forged); err == nil {
				t.Finding(forgeable[kind]+part, "%s with a forged signature is accepted\n%s", kind, dumpBlock(forged))
			} else {
				t.Count("forgery refused: " + kind)
			}
			t.Distinct(kind, part, layout(forged))
		}
		// A signature by somebody else. Extended transactions of basic accounts are covered above.
		x, is := copyTx(g.txs[0]).(*wire.ExtendedTx)
		if !is || x.SenderType == kindBasic {
			w.advance()
			continue
		}
		offs := proofsOf(kind, x)
		i := r.N(len(offs))
		p, rest, _ := parseProof(x.Proof[offs[i]:])
		right := refSigner(&p)
		other := foreignProof(r, w.someone(), x, p)
		q, _, qok := parseProof(other)
		if qok && refSigner(&q) == right {
			w.advance()
			continue
		}
		x.Proof = append(append(append([]byte(nil), x.Proof[:offs[i]]...), other...), rest...)
		foreign := copyBlock(o.b)
		foreign.Body.Txs[0].Tx = x
		t.Check(try1(foreign) != nil, "%s signed by %x instead of %x is accepted\n%s\nstate\n%s", kind, refSigner(&q), right, dumpBlock(foreign), w.model.dump())
		t.Count("foreign signer " + kind)
		t.Distinct(kind, "foreign", layout(foreign))
		// No proof at all, or a piece of it.
		y := copyTx(g.txs[0]).(*wire.ExtendedTx)
		y.Proof = y.Proof[:r.N(len(y.Proof))]
		short := copyBlock(o.b)
		short.Body.Txs[0].Tx = y
		t.Check(try1(short) != nil, "%s with %d of %d bytes of its proof is accepted", kind, len(y.Proof), len(g.txs[0].(*wire.ExtendedTx).Proof))
		t.Count("incomplete proof " + kind)
		t.Sample("%s: forged, foreign and incomplete proofs", kind)
		w.advance()
	}
}

func s13Judge(t *T, w *world, o *outcome) bool {
	o.before = w.model
	o.next, o.why, _ = w.model.apply(o.b, false)
	return o.why != undecided
}

// s13History watches who loses funds.
func s13History(t *T) {
	w := newWorld(t.R)
	s := newSim(t, w)
	for n := 0; n < t.R.length(10); n++ {
		o := s.makeBlock(1, 3, func(f *fault) bool {
			return any1(f.name, "another signer", "damaged proof", "the same transaction twice", "payment to a contract", "sender type") || t.R.P(1, 6)
		})
		if !s.judge(o) {
			continue
		}
		s.push(o)
		if any1(o.why, "malformed vesting proof", "not the owner", "no htlc proof", "malformed htlc proof", "not the recipient", "not the sender", "unknown htlc proof", "wrong pre-image", "other hash") {
			t.Check(o.err != nil, "accepted although the model says %q\n%s\nstate\n%s", o.why, dumpBlock(o.b), o.before.dump())
			t.Count("refused: " + o.why)
		}
		senders := map[[20]byte]uint64{}
		for _, d := range bodyTxs(o.b) {
			senders[d.sender] += d.value + d.fee
		}
		for addr, c := range o.before {
			got := o.after[addr]
			if got.value >= c.value {
				continue
			}
			t.Check(o.err == nil, "%x lost funds to a rejected block", addr)
			spent, ok := senders[addr]
			t.Check(ok, "%x had %d and has %d, but sends nothing in the block\n%s", addr, c.value, got.value, dumpBlock(o.b))
			t.Check(c.value-got.value <= spent, "%x had %d and has %d, but only spends %d\n%s", addr, c.value, got.value, spent, dumpBlock(o.b))
			t.Count("accounts debited")
		}
		t.Distinct(o.key()...)
		s.resync(o)
		w.advance()
	}
}

// ---- S14 ----

func s14History(t *T) {
	r := t.R
	w := newWorld(r)
	s := newSim(t, w)
	second := newInstance(r)
	second.load(r, w.model)
	var basic []*wire.BasicTx
	var extended []*wire.ExtendedTx
	var block *wire.Block
	for n := 0; n < t.R.length(10); n++ {
		o := s.makeBlock(1, 3, nil)
		if n%3 == 2 {
			o = s.drainBlock()
		}
		if body := o.b.Body; body != nil && len(body.Txs) > 0 && r.P(1, 3) { // one object, several transactions
			i := r.N(len(body.Txs))
			at := r.N(len(body.Txs) + 1)
			body.Txs = append(append(append([]wire.WrapTx(nil), body.Txs[:at]...), body.Txs[i]), body.Txs[at:]...)
			o.fault += " repeated"
			t.Count("repeated transaction objects")
		}
		if !s.judge(o) {
			continue
		}
		// The memory of earlier blocks is used again.
		if body := o.b.Body; body != nil && r.Bool() {
			for i := range body.Txs {
				switch x := body.Txs[i].Tx.(type) {
				case *wire.BasicTx:
					if len(basic) > 0 {
						y := basic[len(basic)-1]
						basic = basic[:len(basic)-1]
						*y = *x
						body.Txs[i].Tx = y
						t.Count("transaction objects used again")
					}
				case *wire.ExtendedTx:
					if len(extended) > 0 {
						y := extended[len(extended)-1]
						extended = extended[:len(extended)-1]
						data, proof := append(y.Data[:0], x.Data...), append(y.Proof[:0], x.Proof...)
						*y = *x
						y.Data, y.Proof = data, proof
						body.Txs[i].Tx = y
						t.Count("transaction objects used again")
					}
				}
			}
			if block != nil {
				*block = *o.b
				o.b = block
			}
		}
		t.Eval()
		t.Logf("push %s; fault %q; model says %q", dumpBlock(o.b), o.fault, o.why)
		before := clone(reflect.ValueOf(o.b))
		// Somebody else holds the same memory.
		type held struct {
			memory, was []byte
			what        string
		}
		var shared []held
		hold := func(what string, b []byte) {
			shared = append(shared, held{b[:len(b):cap(b)], append([]byte(nil), b[:cap(b)]...), what})
		}
		if body := o.b.Body; body != nil {
			hold("extra data", body.ExtraData)
			for _, x := range body.Txs {
				if x, ok := x.Tx.(*wire.ExtendedTx); ok && x != nil {
					hold("data", x.Data)
					hold("proof", x.Proof)
				}
			}
		}
		untouched := func(when string) {
			if !equal(before, reflect.ValueOf(o.b)) {
				t.Failf("applying a block %s changed it\nfrom %s\nto %s", when, dump(before.Interface()), dump(o.b))
			}
			for _, h := range shared {
				if now := h.memory[:cap(h.memory)]; !bytes.Equal(now, h.was) {
					t.Failf("applying a block %s changed the memory of a transaction's %s from %x to %x", when, h.what, h.was, now)
				}
			}
			t.CountN("slices of transactions held", len(shared))
		}
		err := s.in.push(t, o.b)
		untouched("")
		t.Check((err == nil) == (o.why == ""), "verdict is %v, the protocol says %q", err, o.why)
		err2 := second.push(t, o.b)
		untouched("to a second state")
		t.Check((err == nil) == (err2 == nil), "the same block object gives %v on one state, and %v on an equal one", err, err2)
		if err == nil {
			w.model = o.next
			t.Count("accepted")
			for _, k := range o.g.kinds {
				t.Count("accepted " + k)
			}
			if len(o.b.Body.Pruned) > 0 {
				t.Count("accepted blocks with pruning")
			}
		} else {
			t.Count("rejected")
		}
		t.Distinct(o.key()...)
		if body := o.b.Body; body != nil {
			basic, extended = basic[:0], extended[:0]
			seen := map[wire.Tx]bool{}
			for _, x := range body.Txs {
				if seen[x.Tx] {
					continue
				}
				seen[x.Tx] = true
				switch y := x.Tx.(type) {
				case *wire.BasicTx:
					basic = append(basic, y)
				case *wire.ExtendedTx:
					extended = append(extended, y)
				}
			}
			block = o.b
		}
		scribble(reflect.ValueOf(o.b).Elem())
		t.Count("blocks overwritten")
		for i, in := range []*instance{s.in, second} {
			if d := in.differs(w.model); d != "" {
				t.Failf("state %d after the block was applied and overwritten: %s", i, d)
			}
		}
		a, b := s.in.acc.Tree.Hash(), second.acc.Tree.Hash()
		t.Check(a == b, "the same blocks give root hashes %x and %x", a, b)
		t.State(a)
		w.advance()
	}
	t.Sample("height %d: %s", w.height, w.model.dump())
}
