package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/bits"
	"regexp"
	"strings"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

func init() {
	register(Property{ID: "S15", Rule: "Blocks with one of the faults of ledger_faults.go and debits beyond what accounts hold; each typed error in the chain is compared with the block and the state the block was applied to; distinct by transactions, fault, height and reason.",
		Workloads: []Workload{
			{Name: "debits", Quick: 12000, Thorough: 200000, Fn: s15Unit, Need: []string{"overspends named basic", "overspends named vesting", "overspends named htlc"}},
			{Name: "history", Quick: 2500, Thorough: 40000, Fn: s15History, Need: []string{"accepted", "rejected", "errors read again later", "overspends named", "type mismatches named", "prunes named", "recipients named"}},
			{Name: "types", Quick: 256, Thorough: 2048, Fn: s15Types, Need: []string{"type mismatches named"}},
			{Name: "large", Quick: 8, Thorough: 200, Fn: large(s15History), Need: []string{"accepted"}},
		}})
	register(Property{ID: "S16", Rule: "Histories of blocks, and of single updates, on stores that fail at a chosen access, each followed by a rollback of the store and a repetition; distinct by transactions, verdict, height and failing access.",
		Workloads: []Workload{
			{Name: "blocks", Quick: 1200, Thorough: 20000, Fn: s16Blocks, Need: []string{"failures in reads", "failures in writes", "accepted", "rejected", "other blocks after a failure"}},
			{Name: "large", Quick: 8, Thorough: 100, Fn: large(s16Blocks), Need: []string{"failures in reads", "failures in writes"}},
			{Name: "updates", Quick: 2500, Thorough: 40000, Fn: s16Updates, Need: []string{"failures in reads", "failures in writes", "deletions", "insertions", "lookups"}},
		}})
}

// ---- S15 ----

// readable reads an error in every way there is.
func readable(t *T, err error) string {
	var text string
	if p := try(func() {
		n := 0
		for e := err; e != nil; e = errors.Unwrap(e) {
			if text += e.Error() + "\n"; e.Error() == "" {
				t.Failf("an error without text: %#v", e)
			}
			if n++; n > 100 {
				t.Failf("an error that wraps itself: %v", err)
			}
		}
	}); p != "" {
		t.Failf("reading the error of a refusal: %s", p)
	}
	return text
}

// available is what an account can spend at most.
func available(a rAcc, height uint32) uint64 {
	if a.kind == kindVesting {
		return vestingFree(a, height)
	}
	return a.value
}

// keptErrors are errors with the texts they had when they were returned.
type keptErrors []struct {
	err error
	was string
}

func (k *keptErrors) keep(t *T, err error) {
	*k = append(*k, struct {
		err error
		was string
	}{err, readable(t, err)})
}

func (k keptErrors) check(t *T) {
	for _, e := range k {
		if now := readable(t, e.err); now != e.was {
			t.Failf("an error that said %q says %q after later refusals", e.was, now)
		}
		t.Count("errors read again later")
	}
}

func s15Unit(t *T) {
	r := t.R
	var kept keptErrors
	a, b := genActor(r), genActor(r)
	for n := 0; n < 5; n++ {
		c := rAcc{kind: uint8(r.N(3)), value: choose(r, r.U(64), r.Uint64()%1_000_000)}
		height := choose(r, uint32(r.In(1, 1000)), uint32(r.U(32))|1)
		switch c.kind {
		case kindVesting:
			c = extremeVesting(r, a.addr)
			height = max(1, vestingHeight(r, c))
		case kindHTLC:
			c.sender, c.recipient, c.total = a.addr, b.addr, c.value
			c.alg, c.rounds, c.timeout = 1, 1, height
		}
		free := available(c, height)
		x := &wire.ExtendedTx{Sender: r.B20(), Recipient: r.B20(), SenderType: c.kind}
		x.Value, x.Fee = split(r, around(r, free, c.value))
		switch c.kind {
		case kindVesting:
			x.Proof = a.proofBytes(x)
		case kindHTLC:
			x.Proof = append(append([]byte{2}, b.proofBytes(x)...), a.proofBytes(x)...)
		}
		var tx wire.Tx = x
		if c.kind == kindBasic && r.Bool() {
			tx = &wire.BasicTx{SenderPubKey: r.B32(), Recipient: r.B20(), Value: x.Value, Fee: x.Fee}
		}
		t.Eval()
		_, err := unitApply(t, c, tx, height, false)
		sum, carry := bits.Add64(x.Value, x.Fee, 0)
		t.Logf("%v less %d and %d at %d: %v", c, x.Value, x.Fee, height, err)
		if err != nil {
			kept.keep(t, err)
		}
		var over *wire.OverspendError
		named := errors.As(err, &over)
		if carry == 0 && sum > free {
			t.Check(named, "%v less %d and %d at height %d, of which %d are available: the error is %v", c, x.Value, x.Fee, height, free, err)
			t.Check(over.Available == free && over.Spend == sum, "%v less %d and %d at height %d, of which %d are available: the error says %d of %d", c, x.Value, x.Fee, height, free, over.Spend, over.Available)
			t.Count("overspends named " + []string{"basic", "vesting", "htlc"}[c.kind])
		} else if named {
			t.Check(carry != 0, "%v less %d and %d at height %d, of which %d are available: the error says %d of %d", c, x.Value, x.Fee, height, free, over.Spend, over.Available)
		}
		t.Distinct(c, x.Value, x.Fee, height)
		t.Sample("%v - (%d + %d) at %d", c, x.Value, x.Fee, height)
	}
	kept.check(t)
}

var (
	textAddress = regexp.MustCompile(`NQ[0-9]{2} ?(?:[0-9A-Z]{4} ?){8}`)
	hexAddress  = regexp.MustCompile(`\b[0-9a-f]{40}\b`)
)

// trueReason compares the error of a refused block with the block and the state before it.
func trueReason(t *T, o *outcome) {
	text := readable(t, o.err)
	about := func() string {
		return fmt.Sprintf("the error is %q\n%s\nstate\n%s", strings.TrimSpace(text), dumpBlock(o.b), o.before.dump())
	}
	var over *wire.OverspendError
	var mismatch *accounts.AccountTypeMismatchError
	var sender *accounts.InvalidForSenderError
	var recipient *accounts.InvalidForRecipientError
	var prune *accounts.InvalidPruneError
	isOver, isMismatch := errors.As(o.err, &over), errors.As(o.err, &mismatch)
	isSender, isRecipient, isPrune := errors.As(o.err, &sender), errors.As(o.err, &recipient), errors.As(o.err, &prune)
	txs := bodyTxs(o.b)
	height := o.b.Header.Height
	if isOver {
		t.Count("overspends named")
		t.Check(over.Spend > over.Available, "a spending of %d is no more than the %d available; %s", over.Spend, over.Available, about())
		found := false
		s := o.before.clone()
		for _, x := range txs {
			a := s.get(x.sender)
			sum, carry := bits.Add64(x.value, x.fee, 0)
			if carry == 0 && sum == over.Spend && available(a, height) == over.Available {
				found = true
			}
			if x.senderType != a.kind {
				break
			}
			a, why := debit(a, x, height)
			if why != "" {
				break
			}
			s.put(x.sender, a)
		}
		t.Check(found, "no transaction spends %d of %d; %s", over.Spend, over.Available, about())
	}
	mentioned := map[[20]byte]bool{}
	creations := 0
	for _, x := range txs {
		mentioned[x.sender], mentioned[x.recipient] = true, true
		creations += int(x.flags & 1)
	}
	if body := o.b.Body; body != nil {
		mentioned[body.MinerAddr] = true
		for _, p := range body.Pruned {
			mentioned[p.Address] = true
		}
	}
	if isMismatch {
		t.Count("type mismatches named")
		t.Check(mismatch.Expected != mismatch.Got, "both types are %d; %s", mismatch.Got, about())
		is := func(addr [20]byte, declared uint8) bool {
			if declared != mismatch.Expected {
				return false
			}
			if o.before.get(addr).kind == mismatch.Got {
				return true
			}
			for _, x := range txs { // becomes a contract, or is removed
				if x.recipient == addr && x.flags&1 == 1 && x.recipientType == mismatch.Got || x.sender == addr && mismatch.Got == kindBasic {
					return true
				}
			}
			return false
		}
		found := o.b.Body != nil && is(o.b.Body.MinerAddr, kindBasic)
		for _, x := range txs {
			found = found || is(x.sender, x.senderType) || is(x.recipient, x.recipientType)
		}
		t.Check(found, "no account is expected to be of type %d and is of type %d; %s", mismatch.Expected, mismatch.Got, about())
	}
	if isSender {
		found := false
		for _, x := range txs {
			found = found || x.sender == sender.Address
		}
		t.Check(found, "%x is no sender; %s", sender.Address, about())
	}
	if isRecipient {
		t.Count("recipients named")
		t.Check(len(txs) > 0, "there are no recipients; %s", about())
	}
	if isPrune {
		t.Count("prunes named")
		emptied := len(o.b.Body.Pruned) > 0
		for _, x := range txs {
			emptied = emptied || o.before.get(x.sender).kind != kindBasic
			for _, y := range txs { // a sender that becomes a contract
				emptied = emptied || y.flags&1 == 1 && y.recipient == x.sender
			}
		}
		t.Check(emptied, "there is nothing to prune, and nothing listed; %s", about())
	}
	for _, s := range textAddress.FindAllString(text, -1) {
		if a, err := address.Decode(strings.TrimSpace(s)); err == nil {
			t.Check(mentioned[a], "%s does not occur in the block; %s", s, about())
			t.Count("addresses in texts")
		}
	}
	for _, s := range hexAddress.FindAllString(text, -1) {
		var a [20]byte
		_, _ = hex.Decode(a[:], []byte(s))
		t.Check(mentioned[a], "%x does not occur in the block; %s", a, about())
		t.Count("addresses in texts")
	}
	// The kind of error goes with the kind of fault, if there is only one.
	switch {
	case o.why == "overspent" && o.fault == "overspend", (o.why == "overspent" || o.why == "not vested yet") && o.fault == "more than unlocked":
		t.Check(isOver, "more is spent than there is; %s", about())
	case o.why == o.fault && (o.why == "sender type" || o.why == "recipient type"), o.why == "miner is a contract" && o.fault == "contract as miner":
		t.Check(isMismatch, "the fault is %q; %s", o.why, about())
	case strings.HasPrefix(o.why, "prune list") && strings.HasPrefix(o.fault, "prune list"):
		t.Check(isPrune, "the fault is %q; %s", o.why, about())
	}
}

func s15History(t *T) {
	w := newWorld(t.R)
	s := newSim(t, w)
	var kept keptErrors
	for n := 0; n < t.R.length(12); n++ {
		o := s.makeBlock(5, 6, nil)
		if n%4 == 3 && t.R.Bool() {
			o = s.drainBlock()
			o.fault = w.damage(o.g, o.b, nil)
		}
		if !s.judge(o) {
			continue
		}
		s.push(o)
		if o.err != nil {
			trueReason(t, o)
			kept.keep(t, o.err)
			t.Count("refused: " + o.why)
		}
		t.Distinct(o.key()...)
		s.resync(o)
		w.advance()
	}
	kept.check(t)
}

// s15Types has accounts of all kinds declared as every type.
func s15Types(t *T) {
	r := t.R
	w := newWorldOf(r, false)
	a, b := w.actors[0], w.actors[1]
	addrs := [][20]byte{a.addr, w.fresh(), w.fresh(), w.fresh()}
	w.model.put(addrs[0], rAcc{value: 1_000_000})
	w.model.put(addrs[1], rAcc{kind: kindVesting, owner: b.addr, value: 1_000_000})
	w.model.put(addrs[2], rAcc{kind: kindHTLC, sender: a.addr, recipient: b.addr, value: 1_000_000, total: 1_000_000, alg: 1, rounds: 1, timeout: w.height + 10})
	s := newSim(t, w)
	declared := uint8(t.Idx)
	for k := 0; k < 8; k++ {
		x := &wire.ExtendedTx{Sender: addrs[k%4], SenderType: declared, Recipient: b.addr}
		fault := "sender type"
		if k >= 4 {
			x = &wire.ExtendedTx{Sender: addrs[0], Recipient: addrs[k%4], RecipientType: declared, Value: 5}
			fault = "recipient type"
		}
		o := &outcome{g: w.newBlockGen()}
		o.g.add("transfer", x, func() { x.Proof = a.proofBytes(x) })
		o.b = w.finish(o.g)
		if o.b.Body.MinerAddr = w.fresh(); !s.judge(o) {
			continue
		}
		if o.fault = fault; o.why != fault {
			o.fault = ""
		}
		s.push(o)
		if o.err != nil {
			trueReason(t, o)
		}
		t.Distinct(declared, k, o.why)
		s.resync(o)
		w.height++
	}
	t.Sample("type %d", declared)
}

// ---- S16 ----

// storeFailure is what a failing store panics with.
type storeFailure struct{ at int }

func (f storeFailure) Error() string { return fmt.Sprintf("the store fails at access %d", f.at) }

// failStore keeps nodes as bytes, like a database, or the nodes themselves, and fails at one access.
type failStore struct {
	db     *dbStore
	nodes  map[string]tree.Node // if not nil, the store hands out what was put
	access int
	wrote  bool // at the last access
	failAt int  // -1 for never
	failed bool
}

func newFailStore(shared bool) *failStore {
	s := &failStore{failAt: -1}
	if shared {
		s.nodes = map[string]tree.Node{"": &tree.Branch{}}
	} else {
		s.db = newDBStore()
	}
	return s
}

func (s *failStore) tick(write bool) {
	at := s.access
	s.access++
	if at == s.failAt {
		s.failed, s.wrote = true, write
		switch at % 4 {
		case 0:
			panic(storeFailure{at})
		case 1:
			panic(storeFailure{at}.Error())
		case 2:
			panic(&storeFailure{at})
		default: // a bug of the store
			var none *dbStore
			_ = none.data
		}
	}
}

func (s *failStore) GetNode(n tree.Nibbles) tree.Node {
	s.tick(false)
	if s.nodes != nil {
		return s.nodes[string(n)]
	}
	return s.db.GetNode(n)
}

func (s *failStore) PutNode(n tree.Nibbles, node tree.Node) {
	s.tick(true)
	if s.nodes != nil {
		s.nodes[string(n)] = node
		return
	}
	s.db.PutNode(n, node)
}

func (s *failStore) DelNode(n tree.Nibbles) {
	s.tick(true)
	if s.nodes != nil {
		delete(s.nodes, string(n))
		return
	}
	s.db.DelNode(n)
}

func (s *failStore) paths() (out []string) {
	for p := range s.nodes {
		out = append(out, p)
	}
	if s.db != nil {
		return s.db.paths()
	}
	return
}

// begin starts a transaction of the store. The result undoes it.
func (s *failStore) begin() (rollback func()) {
	if s.nodes != nil {
		old := make(map[string]tree.Node, len(s.nodes))
		for p, n := range s.nodes {
			old[p] = n
		}
		return func() { s.nodes = old }
	}
	old := make(map[string][]byte, len(s.db.data))
	for p, b := range s.db.data {
		old[p] = b
	}
	return func() { s.db.data = old }
}

// failing runs f while the store fails at an access. It tells whether the store has failed, and with what result.
func (s *failStore) failing(at int, f func() error) (failed bool, silent bool) {
	s.access, s.failAt, s.failed = 0, at, false
	var err error
	p := try(func() { err = f() })
	s.failAt = -1
	return s.failed, p == "" && err == nil
}

// copy makes a store of its own with the same contents.
func (s *failStore) copy() *failStore {
	c := newFailStore(false)
	for _, p := range s.paths() {
		c.PutNode(tree.Nibbles(p), s.GetNode(tree.Nibbles(p)))
	}
	c.access = 0
	return c
}

func s16Blocks(t *T) {
	r := t.R
	w := newWorld(r)
	store := newFailStore(r.P(1, 3))
	in := &instance{store: store, acc: accounts.NewAccounts(&tree.PMTree{Store: store})}
	in.load(r, w.model)
	s := &sim{t: t, w: w, in: in}
	// settle pushes a block that the store lets through.
	settle := func(o *outcome, when string) {
		s.push(o)
		t.Check((o.err == nil) == (o.why == ""), "%s, the verdict is %v, the protocol says %q\n%s\nstate\n%s", when, o.err, o.why, dumpBlock(o.b), o.before.dump())
		if o.err == nil {
			w.model = o.next
		}
		if d := in.differs(w.model); d != "" {
			t.Failf("%s: %s\n%s\nstate before\n%s", when, d, dumpBlock(o.b), o.before.dump())
		}
	}
	for n := 0; n < r.length(6); n++ {
		o := s.makeBlock(1, 4, nil)
		if n%3 == 1 {
			o = s.drainBlock()
		}
		if !s.judge(o) {
			continue
		}
		dry := store.copy()
		_ = accounts.NewAccounts(&tree.PMTree{Store: dry}).Push(copyBlock(o.b))
		total := dry.access
		var points []int
		for k := 0; k < 6; k++ {
			points = append(points, choose(r, 0, max(0, total-1-r.N(8)), r.N(total+1), r.N(total+1)))
		}
		lost := false
		for _, at := range points {
			t.Eval()
			rollback := store.begin()
			failed, silent := store.failing(at, func() error { return in.acc.Push(copyBlock(o.b)) })
			if !failed { // it was not read so far
				rollback()
				t.Count("failures not reached")
				continue
			}
			where := "reads"
			if store.wrote {
				where = "writes"
			}
			t.Check(!silent, "the store fails in access %d of %d, one of the %s, and the block is accepted\n%s\nstate\n%s", at, total, where, dumpBlock(o.b), o.before.dump())
			t.Count("failures in " + where)
			t.Logf("the store failed in access %d of %d, one of the %s, of %s", at, total, where, dumpBlock(o.b))
			rollback()
			t.Distinct(append(o.key(), at)...)
			when := fmt.Sprintf("after a failure in access %d of %d, one of the %s", at, total, where)
			switch r.N(4) {
			case 0:
				if d := in.differs(w.model); d != "" {
					t.Failf("%s: %s\n%s\nstate before\n%s", when, d, dumpBlock(o.b), o.before.dump())
				}
				for _, addr := range w.model.addresses() {
					a := addr
					if got := fromWire(in.acc.GetAccount(&a)); got != w.model[addr] {
						t.Failf("%s: lookup of %x gives %v, want %v", when, addr, got, w.model[addr])
					}
				}
			case 1:
				if lost || r.P(2, 3) {
					continue
				}
				p := s.makeBlock(1, 2, nil)
				if s.judge(p) {
					settle(p, when+", another block")
					t.Count("other blocks after a failure")
					lost = true
				}
			}
			if lost {
				break
			}
		}
		if !lost || s.judge(o) {
			settle(o, "after failures of the store")
		}
		w.advance()
	}
	t.Sample("height %d: %s", w.height, w.model.dump())
}

func s16Updates(t *T) {
	r := t.R
	store := newFailStore(false)
	tr := &tree.PMTree{Store: store}
	acc := accounts.NewAccounts(tr)
	model := map[[20]byte][]byte{}
	var keys [][20]byte
	for i := r.In(1, 9); i > 0; i-- {
		k := r.B20()
		if len(keys) > 0 && r.P(3, 4) {
			k = keys[r.N(len(keys))]
			setDigit(&k, choose(r, 0, 1, 38, 39, r.N(40)), byte(r.N(16)))
		}
		keys = append(keys, k)
	}
	check := func(when string) {
		nodes, root := refTree(model)
		if h := tr.Hash(); h != root {
			t.Failf("%s: root hash is %x, want %x", when, h, root)
		}
		if d := nodeDiff(store, store.paths(), nodes); d != "" {
			t.Failf("%s: %s", when, d)
		}
	}
	for n := 0; n < 25; n++ {
		k := keys[r.N(len(keys))]
		var value []byte
		var f func() error
		op := choose(r, "insertions", "insertions", "deletions", "lookups", "account updates")
		switch op {
		case "insertions":
			value = (rAcc{value: r.U(64)}).bytes()
			f = func() error { tr.PutEntry(&k, append([]byte(nil), value...)); return nil }
		case "deletions":
			f = func() error { tr.PutEntry(&k, nil); return nil }
		case "account updates":
			a := rAcc{value: r.U(20)}
			if r.Bool() {
				a = rAcc{kind: kindVesting, owner: r.B20(), value: r.U(20)}
			}
			if a.kind != kindBasic || a.value != 0 {
				value = a.bytes()
			}
			f = func() error { acc.PutAccount(&k, a.wire()); return nil }
		default:
			value = model[k]
			f = func() error { acc.GetAccount(&k); return nil }
		}
		for tries := r.N(4); tries > 0; tries-- {
			t.Eval()
			at := r.N(choose(r, 4, 12, 60))
			rollback := store.begin()
			failed, silent := store.failing(at, f)
			rollback()
			if !failed {
				continue
			}
			t.Check(!silent, "the store fails in access %d of one of the %s, and nothing is said", at, op)
			if store.wrote {
				t.Count("failures in writes")
			} else {
				t.Count("failures in reads")
			}
			t.Logf("the store failed in access %d of one of the %s", at, op)
			if r.Bool() {
				check(fmt.Sprintf("after a failure in access %d of one of the %s", at, op))
			}
			t.Distinct(op, k, value, at, n)
		}
		t.Eval()
		store.access = 0
		if p := try(func() { _ = f() }); p != "" {
			t.Failf("%s after failures of the store: %s", op, p)
		}
		if len(value) == 0 {
			delete(model, k)
		} else {
			model[k] = value
		}
		t.Count(op)
		check("after failures of the store, one of the " + op)
		for _, k := range keys {
			key := k
			if got := tr.GetEntry(&key); string(got) != string(model[k]) {
				t.Failf("after failures of the store, reading %x gives %x, want %x", k, got, model[k])
			}
		}
	}
	t.Sample("%d keys", len(keys))
}
