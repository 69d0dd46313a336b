package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"time"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/policy"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wallet"
	"terorie.dev/nimiq/wire"
)

func init() {
	children["shared-reads"] = childSharedReads
	children["independent"] = childIndependent
	var needR01, needR02 []string
	for _, f := range readFamilies {
		needR01 = append(needR01, "family "+f.name)
	}
	for _, k := range scriptKinds {
		needR02 = append(needR02, "script "+k.name)
	}
	register(Property{ID: "R01", Rule: "Cold processes under the race detector; 2 to 24 goroutines call read-only operations on the same objects, released together, with varying processor counts and yields; afterwards every call is repeated alone, in the same process and in another one in reverse order, and the results compared. Distinct by the pairs of operations whose executions overlapped in time, with the processor count.",
		Workloads: []Workload{
			{Name: "shared", Quick: 312, Thorough: 3000, Fn: func(t *T) { inScratch(t, "shared-reads", t.Seed, t.Idx) }, Need: append(needR01, "concurrent calls", "calls that overlapped another goroutine's call", "results compared with another process")},
		}})
	register(Property{ID: "R02", Rule: "Cold processes under the race detector; 2 to 12 goroutines run scripts (block histories, tree updates, overlays, codec work, wallets, profile openings, reward queries, withdrawals from similar contracts) on instances of their own, some on equal inputs; afterwards every script runs alone, in the same process and in another one in reverse order, and the transcripts are compared. Distinct by the pairs of scripts that overlapped in time, with the numbers of processors and goroutines.",
		Workloads: []Workload{
			{Name: "independent", Quick: 240, Thorough: 3000, Fn: func(t *T) { inScratch(t, "independent", t.Seed, t.Idx) }, Need: append(needR02, "script steps", "scripts that overlapped another goroutine's script", "results compared with another process")},
		}})
}

// span is taken without synchronising the goroutines.
type span struct{ from, to time.Time }

func (s span) overlaps(o span) bool { return s.from.Before(o.to) && o.from.Before(s.to) }

func digest(parts ...interface{}) string {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			_, _ = h.Write(v)
		case string:
			_, _ = io.WriteString(h, v)
		default:
			fmt.Fprint(h, v)
		}
		_, _ = h.Write([]byte{0xfe})
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

// readOp is a read-only operation on shared objects.
type readOp struct {
	name string
	run  func() string // what it returned
}

type readFamily struct {
	name string
	make func(r *Rand) []readOp
}

var readFamilies = []readFamily{
	{"state", readState}, {"wire", readWire}, {"codec", readCodec}, {"messages", readMessages}, {"addresses", readAddresses},
	{"transactions", readTxs}, {"wallets", readWallets}, {"account objects", readAccounts}, {"peers", readPeers}, {"policy", readPolicy},
	{"targets", readTargets}, {"digits", readDigits}, {"profiles", readProfiles},
}

// readState reads one state through all its interfaces.
func readState(r *Rand) (ops []readOp) {
	var store tree.Store = tree.NewMemStore()
	over := r.N(3)
	if over > 0 {
		store = &tree.OverlayStore{Lower: store}
	}
	tr := &tree.PMTree{Store: store}
	acc := accounts.NewAccounts(tr)
	ks := genKeys(r, choose(r, 1, 3, 20, 60))
	entries := map[[20]byte][]byte{}
	for i, k := range ks.keys {
		key := k
		a := genAccount(r)
		if r.P(1, 10) {
			acc.PutAccount(&key, a)
		} else {
			value, _ := r.inside(fromWire(a).bytes())
			tr.PutEntry(&key, value)
		}
		entries[k] = fromWire(a).bytes()
		if over == 2 && i == len(ks.keys)/2 {
			store.(*tree.OverlayStore).Flush()
		}
	}
	nodes, _ := refTree(entries)
	var paths []string
	for p := range nodes {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	keys := append([][20]byte{r.B20(), r.B20()}, ks.keys...)
	ops = append(ops, readOp{"Tree.Hash", func() string { return fmt.Sprintf("%x", tr.Hash()) }})
	for i := 0; i < 8; i++ {
		key := keys[r.N(len(keys))]
		ops = append(ops,
			readOp{"GetAccount", func() string {
				k := key
				a := acc.GetAccount(&k)
				s := fmt.Sprint(fromWire(a))
				overwriteAccount(a) // it is the caller's
				return s
			}},
			readOp{"GetEntry", func() string { k := key; return fmt.Sprintf("%x", tr.GetEntry(&k)) }})
		path := paths[r.N(len(paths))]
		ops = append(ops,
			readOp{"Store.GetNode", func() string { return fmt.Sprintf("%x", encodeNode(store.GetNode(tree.Nibbles(path)))) }},
			readOp{"Node.Hash", func() string {
				n := store.GetNode(tree.Nibbles(path))
				if n == nil {
					return "none"
				}
				s := fmt.Sprintf("%x", []byte(n.GetPrefix()))
				switch n := n.(type) {
				case *tree.Leaf:
					var buf bytes.Buffer
					n.MarshalTo(&buf)
					s += fmt.Sprintf(" %x %x", n.Hash(), buf.Bytes())
				case *tree.Branch:
					s += fmt.Sprintf(" %x", n.Hash())
				}
				return s
			}})
	}
	return
}

// overwriteAccount changes everything in an account object.
func overwriteAccount(a wire.Account) {
	switch o := a.(type) {
	case *wire.BasicAccount:
		o.Value++
	case *wire.VestingAccount:
		o.Value, o.Owner = ^o.Value, [20]byte{1}
	case *wire.HTLCAccount:
		o.Value, o.Sender, o.TotalAmount = ^o.Value, [20]byte{1}, 5
	}
}

// codecOps uses a shared value and a shared buffer.
func codecOps(name string, v interface{}, enc []byte, show func(interface{}) string) []readOp {
	prefix := append([]byte("prefix"), make([]byte, 0, 300)...)
	junk := append(append([]byte(nil), enc...), 7)
	return []readOp{
		{"Marshal " + name, func() string { b, err := beserial.Marshal(nil, v); return digest(b, err == nil) }},
		{"Marshal " + name, func() string { b, err := beserial.Marshal(prefix[:6:6], v); return digest(b, err == nil) }},
		{"Size " + name, func() string { n, err := beserial.Size(v); return digest(n, err == nil) }},
		{"Unmarshal " + name, func() string {
			x := fresh(v)
			n, err := beserial.Unmarshal(enc, x)
			if err != nil {
				return digest(n, "error")
			}
			return digest(n, show(x))
		}},
		{"UnmarshalFull " + name, func() string {
			x := fresh(v)
			if err := beserial.UnmarshalFull(junk, x); err != nil {
				return "error"
			}
			return digest(show(x))
		}},
	}
}

func readWire(r *Rand) (ops []readOp) {
	for i := 0; i < 5; i++ {
		wt := wireTypes[r.N(len(wireTypes))]
		v := wt.gen(r)
		ops = append(ops, codecOps(wt.name, v, layout(v), func(x interface{}) string { return string(layout(x)) })...)
		if near, ok := nearCopy(r, v); ok && r.Bool() {
			ops = append(ops, codecOps("similar "+wt.name, near, layout(near), func(x interface{}) string { return string(layout(x)) })...)
		}
	}
	return
}

// nearCopy returns a copy that differs in one bit.
func nearCopy(r *Rand, v interface{}) (interface{}, bool) {
	near := clone(reflect.ValueOf(v))
	_, ok := twist(r, near, structural)
	return near.Interface(), ok
}

func readCodec(r *Rand) (ops []readOp) {
	g := &typeGen{r: r, customs: true}
	for i := 0; i < 6; i++ {
		typ := g.top()
		if i == 0 {
			typ = choose(r, reflect.TypeOf(named{}), reflect.TypeOf(recTree{}), reflect.TypeOf(embedding{}))
		}
		p := newValue(r, typ)
		enc, err := refEncode(nil, p.Elem(), refTag{})
		if err != nil {
			continue
		}
		ops = append(ops, codecOps("generic value", p.Interface(), enc, func(x interface{}) string {
			b, err := refEncode(nil, reflect.ValueOf(x).Elem(), refTag{})
			return fmt.Sprintf("%x %v", b, err == nil)
		})...)
		near := clone(p)
		if _, ok := twist(r, near.Elem(), nil); ok && r.Bool() {
			if enc, err := refEncode(nil, near.Elem(), refTag{}); err == nil {
				ops = append(ops, codecOps("similar value", near.Interface(), enc, func(x interface{}) string {
					b, err := refEncode(nil, reflect.ValueOf(x).Elem(), refTag{})
					return fmt.Sprintf("%x %v", b, err == nil)
				})...)
			}
		}
	}
	return
}

func readMessages(r *Rand) (ops []readOp) {
	for i := 0; i < 6; i++ {
		id := knownMessages[r.N(len(knownMessages))]
		m := genMessage(r, id)
		payload := layout(m)
		ops = append(ops,
			readOp{"MarshalMessage", func() string { b, err := wire.MarshalMessage(m); return digest(b, err == nil) }},
			readOp{"Message.Type", func() string { return fmt.Sprint(m.Type()) }},
			readOp{"UnmarshalMessage", func() string {
				x, err := wire.UnmarshalMessage(id, payload)
				if err != nil {
					return "error " + fmt.Sprint(id)
				}
				s := digest(layout(x), x.Type())
				if inv, ok := x.(*wire.InvMessage); ok { // it is the caller's
					for i := range inv.Vectors {
						inv.Vectors[i].Type++
					}
				}
				return s
			}})
	}
	bad := r.U(63) | 1<<40
	ops = append(ops, readOp{"UnmarshalMessage unknown", func() string { _, err := wire.UnmarshalMessage(bad, nil); return fmt.Sprint(err) }})
	return
}

func readAddresses(r *Rand) (ops []readOp) {
	var last [20]byte
	for i := 0; i < 5; i++ {
		a := genAddr(r)
		if i > 2 { // one like an earlier one
			a = last
			a[r.N(20)] ^= 1 << r.N(8)
		}
		last = a
		text := respace(r, refEncodeAddr(a))
		bad := string(r.mutate([]byte(refEncodeAddr(a))))
		ops = append(ops,
			readOp{"address.Encode", func() string { return address.Encode(&a) }},
			readOp{"address.Decode", func() string { b, err := address.Decode(text); return fmt.Sprintf("%x %v", b, err == nil) }},
			readOp{"address.Decode other", func() string { b, err := address.Decode(bad); return fmt.Sprintf("%x %v", b, err == nil) }})
	}
	return
}

func readTxs(r *Rand) (ops []readOp) {
	var x wire.Tx
	var p *wire.SignatureProof
	leaf := r.Bytes(r.N(50))
	for i := 0; i < 8; i++ {
		if i > 0 && r.Bool() { // like the one before
			if y, ok := nearCopy(r, &wire.WrapTx{Tx: x}); ok {
				x = y.(*wire.WrapTx).Tx
			}
			if q, ok := nearCopy(r, p); ok {
				p = q.(*wire.SignatureProof)
			}
		} else {
			x, p, leaf = genTx(r), genProof(r), r.Bytes(r.N(50))
		}
		x, p, leaf := x, p, leaf
		ops = append(ops,
			readOp{"tx views", func() string {
				e, c := x.AsExtendedTx(), x.AsTxContent()
				s, st := x.GetSender()
				to, tt := x.GetRecipient()
				v, f := x.Amount()
				return digest(layout(&e), layout(&c), *s, st, *to, tt, v, f, x.Type())
			}},
			readOp{"SignerAddress", func() string { return fmt.Sprintf("%x", p.SignerAddress()) }},
			readOp{"ComputeRoot", func() string { return fmt.Sprintf("%x", p.MerklePath.ComputeRoot(leaf)) }})
	}
	return
}

func readWallets(r *Rand) (ops []readOp) {
	for i := 0; i < 4; i++ {
		seed := genSeed(r)
		w := wallet.DeriveBasic(seed)
		key := ed25519.NewKeyFromSeed(seed)
		basic, other, ext := genBasicTx(r), genBasicTx(r), genExtendedTx(r)
		copy(basic.SenderPubKey[:], key[32:])
		ops = append(ops,
			readOp{"GetAddress", func() string { return fmt.Sprintf("%x", w.GetAddress()) }},
			readOp{"GetAddress", func() string { return fmt.Sprintf("%x", w.GetAddress()) }},
			readOp{"GetPublicKey", func() string { return fmt.Sprintf("%x", w.GetPublicKey()) }},
			readOp{"SignBasicTx", func() string { x := *basic; err := w.SignBasicTx(&x); return digest(layout(&x), err == nil) }},
			readOp{"SignBasicTx other", func() string { x := *other; err := w.SignBasicTx(&x); return digest(layout(&x), err == nil) }},
			readOp{"SignExtendedTx", func() string { x := *ext; err := w.SignExtendedTx(&x); return digest(layout(&x), err == nil) }},
			readOp{"DeriveBasic", func() string { d := wallet.DeriveBasic(seed); return fmt.Sprintf("%x", d.GetAddress()) }},
			readOp{"GenerateBasic", func() string { g := wallet.GenerateBasic(); return fmt.Sprint(len(g.PrivateKey)) }})
	}
	return
}

func readAccounts(r *Rand) (ops []readOp) {
	for _, op := range contractOps(r, contractCases(r)) {
		ops = append(ops, readOp{"contract", op})
	}
	w := newWorldAt(r, r.Bool(), uint32(r.In(1, 5000)))
	b, _ := w.genWorldBlock()
	for i := range b.Body.Txs {
		x := b.Body.Txs[i].Tx
		d := takeApart(x)
		from, to := w.model.get(d.sender).wire(), w.model.get(d.recipient).wire()
		h := w.height
		show := func(a wire.Account, err error) string {
			if err != nil {
				return "error"
			}
			s := fmt.Sprint(fromWire(a))
			overwriteAccount(a)
			return s
		}
		ops = append(ops,
			readOp{"ApplyOutgoingTx", func() string { return show(from.ApplyOutgoingTx(x, h)) }},
			readOp{"ApplyIncomingTx", func() string { return show(to.ApplyIncomingTx(x, h)) }})
		if d.recipientType == kindBasic {
			continue
		}
		ops = append(ops, readOp{"Init", func() string {
			var a wire.Account = &wire.HTLCAccount{}
			if d.recipientType == kindVesting {
				a = &wire.VestingAccount{}
			}
			err := a.Init(x, h, d.value)
			return show(a, err)
		}})
	}
	for i := 0; i < 4; i++ {
		a, c := genAccount(r), genAccount(r)
		if r.Bool() {
			c = fromWire(a).wire()
		}
		ops = append(ops,
			readOp{"AccountEq", func() string { return fmt.Sprint(wire.AccountEq(a, c), wire.AccountEq(a, a)) }},
			readOp{"account getters", func() string { return fmt.Sprint(a.Balance(), a.Type(), a.IsEmpty()) }})
	}
	return
}

// contractCase is a withdrawal from a contract.
type contractCase struct {
	c rAcc
	x *wire.ExtendedTx
	h uint32
}

func contractCases(r *Rand) (list []contractCase) {
	owner := genActor(r)
	for len(list) < 8 {
		if r.Bool() {
			c := extremeVesting(r, owner.addr)
			h := vestingHeight(r, c)
			x := &wire.ExtendedTx{Sender: r.B20(), SenderType: kindVesting, Recipient: r.B20(), ValidityStartHeight: h, NetworkID: 42}
			x.Value, x.Fee = split(r, around(r, vestingFree(c, h), c.value))
			x.Proof = owner.proofBytes(x)
			list = append(list, contractCase{c, x, h})
			continue
		}
		w := &world{r: r, byAddr: map[[20]byte]*actor{}, secrets: map[[20]byte]secret{}, model: ledger{}, height: uint32(r.In(1, 60_000_000))}
		w.actors = []*actor{owner, genActor(r)}
		for _, a := range w.actors {
			w.byAddr[a.addr] = a
		}
		c, sec := w.genHTLC()
		way := r.In(1, 3)
		h := choose(r, w.height, c.timeout, c.timeout+1)
		x := &wire.ExtendedTx{Sender: r.B20(), SenderType: kindHTLC, Recipient: r.B20(), ValidityStartHeight: h, NetworkID: 42}
		x.Value = choose(r, c.value, c.value/2, 1)
		x.Proof = (&blockGen{w: w}).htlcProof(c, sec, x, way, c.rounds)
		list = append(list, contractCase{c, x, h})
	}
	return
}

// contractOps makes decisions about the cases, some with a term changed a little.
func contractOps(r *Rand, list []contractCase) (ops []func() string) {
	for i := 0; i < 16; i++ {
		k := list[r.N(len(list))]
		c, h := k.c, k.h
		switch r.N(3) {
		case 0:
			c = nudge(r, c)
		case 1:
			h += uint32(r.In(-2, 2))
		}
		if _, why := debit(c, takeApart(k.x), h); why == undecided {
			continue
		}
		ops = append(ops, func() string {
			a, err := c.wire().ApplyOutgoingTx(k.x, h)
			if err != nil {
				return "refused"
			}
			return fmt.Sprint(fromWire(a))
		})
	}
	return
}

// scriptContracts is about contracts that other scripts have similar ones of.
func scriptContracts(r *Rand) func() []string {
	if r.contracts == nil {
		r.contracts = contractCases(r)
	}
	ops := contractOps(r, r.contracts)
	return func() (out []string) {
		for _, op := range ops {
			out = append(out, op())
		}
		return
	}
}

func readPeers(r *Rand) (ops []readOp) {
	for i := 0; i < 4; i++ {
		p := genPeerAddress(r)
		if r.P(2, 3) {
			p.Sign(ed25519.NewKeyFromSeed(r.Bytes(32)))
		}
		pub := append([]byte(nil), p.PublicKey[:]...)
		ops = append(ops,
			readOp{"VerifySignature", func() string { return fmt.Sprint(p.VerifySignature()) }},
			readOp{"GetPeerID", func() string { return fmt.Sprintf("%x", wire.GetPeerID(pub)) }},
			readOp{"ProtocolScheme", func() string { return wire.ProtocolScheme(p.Protocol) }})
		ops = append(ops, codecOps("PeerAddress", p, layout(p), func(x interface{}) string { return string(layout(x)) })...)
	}
	return
}

func readPolicy(r *Rand) (ops []readOp) {
	for i := 0; i < 8; i++ {
		h := uint32(choose(r, r.In(1, 100), r.In(1, 30_000), 5000*r.In(1, 40)+r.N(2)))
		to := h + uint32(r.N(500))
		supply := refSmallSupply(uint64(h) - 1)
		ops = append(ops,
			readOp{"BlockReward", func() string { return fmt.Sprint(policy.BlockReward(h)) }},
			readOp{"SupplyAfter", func() string { return fmt.Sprint(policy.SupplyAfter(h)) }},
			readOp{"SupplyBetween", func() string { return fmt.Sprint(policy.SupplyBetween(supply, h, to)) }},
			readOp{"BlockRewardBySupply", func() string { return fmt.Sprint(policy.BlockRewardBySupply(supply, h)) }})
	}
	return
}

func readTargets(r *Rand) (ops []readOp) {
	for i := 0; i < 4; i++ {
		n := new(big.Int).SetBytes(r.Bytes(r.In(1, 31)))
		n.Add(n, big.NewInt(1))
		d := new(big.Int).SetUint64(r.U(60)/2 + 1)
		ops = append(ops,
			readOp{"TargetToCompact", func() string { return fmt.Sprint(wire.TargetToCompact(*n)) }},
			readOp{"DifficultyToCompact", func() string { return fmt.Sprint(wire.DifficultyToCompact(*d)) }},
			readOp{"DifficultyToTarget", func() string { t := wire.DifficultyToTarget(*d); return t.String() }},
			readOp{"big.Int", func() string { return n.String() + d.String() }})
	}
	return
}

func readDigits(r *Rand) (ops []readOp) {
	for i := 0; i < 4; i++ {
		k := genAddr(r)
		nbs := tree.KeyToNibbles(&k)
		onbs := append(append(tree.Nibbles(nil), nbs[:r.N(40)]...), 3)
		part := nbs[:r.N(41)]
		ops = append(ops,
			readOp{"KeyToNibbles", func() string {
				n := tree.KeyToNibbles(&k)
				return fmt.Sprintf("%x %x", []byte(n), wire.KeyToNibbles(&k))
			}},
			readOp{"ToKey", func() string { return fmt.Sprintf("%x %x", nbs.ToKey(), wire.Nibbles(nbs).ToKey()) }},
			readOp{"Compress", func() string { return fmt.Sprintf("%x %x", part.Compress(), wire.Nibbles(part).Compress()) }},
			readOp{"HexBytes", func() string { return string(part.HexBytes()) + part.String() + wire.Nibbles(part).String() }},
			readOp{"CommonPrefix", func() string { return fmt.Sprintf("%x", []byte(nbs.CommonPrefix(onbs))) }},
			readOp{"PrefixOf", func() string { return fmt.Sprint(part.PrefixOf(nbs), onbs.PrefixOf(nbs), nbs.PrefixOf(part)) }})
	}
	return
}

func showProfile(p *genesis.Profile, err error) string {
	if err != nil {
		return "error"
	}
	s := digest(p.Config.NetworkID, p.Config.Name, fmt.Sprint(p.Config.SeedPeers, p.Config.SeedLists), p.Config.GenesisHash, layout(&p.Block))
	for _, a := range p.Accounts {
		s = digest(s, a.Address, fromWire(a.Account.Account).bytes())
	}
	p.Config.Name = "changed" // it is the caller's
	if len(p.Config.SeedPeers) > 0 {
		p.Config.SeedPeers[0] = "changed"
	}
	if len(p.Accounts) > 0 {
		p.Accounts[0].Address[0]++
		overwriteAccount(p.Accounts[0].Account.Account)
	}
	p.Block.Header.Height++
	return s
}

func readProfiles(r *Rand) (ops []readOp) {
	ops = append(ops,
		readOp{"OpenProfile test", func() string { return showProfile(genesis.OpenProfile("test")) }},
		readOp{"OpenProfile missing", func() string { return showProfile(genesis.OpenProfile("missing")) }})
	if r.P(1, 3) {
		ops = append(ops, readOp{"OpenProfile main", func() string { return showProfile(genesis.OpenProfile("main")) }})
	}
	return
}

func childSharedReads(c *child) {
	r := newRand(c.num(0), "shared-reads", int(c.num(1)))
	ledgerReward = smallReward
	procs := choose(r, 2, 4, 8, 8)
	runtime.GOMAXPROCS(procs)
	first := int(c.num(1)) % len(readFamilies)
	var ops []readOp
	fams := []readFamily{readFamilies[first]}
	for i, f := range readFamilies {
		if i != first && r.P(1, 4) {
			fams = append(fams, f)
		}
	}
	for _, f := range fams {
		ops = append(ops, f.make(r)...)
		c.counts["family "+f.name]++
	}
	if len(c.args) > 2 { // only alone
		for i := len(ops) - 1; i >= 0; i-- {
			c.result(fmt.Sprintf("call %d, %s,", i, ops[i].name), ops[i].run())
		}
		return
	}
	k := choose(r, 2, 3, 4, 8, 16, 24)
	calls := choose(r, 4, 16, 40)
	scripts := make([][]int, k)
	style := r.N(4)
	common := r.N(len(ops))
	for g := range scripts {
		for i := 0; i < calls; i++ {
			op := r.N(len(ops))
			switch {
			case style == 0: // everybody does the same
				op = (common + i) % len(ops)
			case style == 1 && i < 3:
				op = common
			}
			scripts[g] = append(scripts[g], op)
		}
	}
	results := make([][]string, k)
	spans := make([][]span, k)
	together(k, r, func(g int) {
		for _, op := range scripts[g] {
			sp := span{from: time.Now()}
			s := ops[op].run()
			sp.to = time.Now()
			results[g] = append(results[g], s)
			spans[g] = append(spans[g], sp)
		}
	})
	alone := make([]string, len(ops))
	for g := range scripts {
		for i, op := range scripts[g] {
			if alone[op] == "" {
				alone[op] = ops[op].run()
				c.result(fmt.Sprintf("call %d, %s,", op, ops[op].name), results[g][i])
			}
			c.Check(results[g][i] == alone[op], "goroutine %d of %d: call %d, %s, returned %s, but alone it returns %s", g, k, i, ops[op].name, results[g][i], alone[op])
			c.counts["concurrent calls"]++
		}
	}
	for g := range spans {
		for i, a := range spans[g] {
			hit := false
			for h := range spans {
				for j, b := range spans[h] {
					if g != h && a.overlaps(b) {
						hit = true
						x, y := ops[scripts[g][i]].name, ops[scripts[h][j]].name
						if x <= y {
							c.note(fmt.Sprintf("%d %s|%s", procs, x, y))
						}
					}
				}
			}
			if hit {
				c.counts["calls that overlapped another goroutine's call"]++
			}
		}
	}
}

// together runs fn in n goroutines that start at the same time.
func together(n int, r *Rand, fn func(g int)) {
	var ready, done sync.WaitGroup
	release := make(chan struct{})
	ready.Add(n)
	done.Add(n)
	for g := 0; g < n; g++ {
		yields := r.N(4)
		go func() {
			defer done.Done()
			ready.Done()
			<-release
			for i := 0; i < yields; i++ {
				runtime.Gosched()
			}
			fn(g)
		}()
	}
	ready.Wait()
	close(release)
	done.Wait()
}

// A script works on instances of its own and returns what it saw.
type script struct {
	kind string
	run  func() []string
}

type scriptKind struct {
	name string
	make func(r *Rand) func() []string
}

var scriptKinds = []scriptKind{
	{"blocks", scriptBlocks}, {"tree", scriptTree}, {"overlay", scriptOverlay}, {"codec", scriptCodec}, {"wallet", scriptWallet}, {"profile", scriptProfile}, {"policy", scriptPolicy}, {"contracts", scriptContracts},
}

// scriptBlocks pushes a history, with invalid blocks in between.
func scriptBlocks(r *Rand) func() []string {
	w := newWorldAt(r, r.P(1, 6), uint32(r.In(1, 8000)))
	start := w.model.clone()
	var blocks []*wire.Block
	for i := r.In(3, 12); i > 0; i-- {
		b, g := w.genWorldBlock()
		if r.P(1, 4) {
			w.damage(g, b, nil)
		}
		next, why, _ := w.model.apply(b, false)
		if why == undecided {
			continue
		}
		blocks = append(blocks, b)
		if why == "" {
			w.model = next
		}
		w.advance()
	}
	addrs := w.model.addresses()
	seed := r.Uint64()
	return func() (out []string) {
		r := newRand(seed)
		in := newInstance(r)
		in.load(r, start)
		for _, b := range blocks {
			err := in.acc.Push(b)
			out = append(out, fmt.Sprintf("push %d: %v, %x", b.Header.Height, err == nil, in.acc.Tree.Hash()))
			if len(addrs) > 0 {
				a := addrs[r.N(len(addrs))]
				out = append(out, fmt.Sprint(fromWire(in.acc.GetAccount(&a))))
			}
			acc := in.acc.GetAccount(&[20]byte{1, 2, 3}) // nobody's, so the object is the caller's
			out = append(out, fmt.Sprint(fromWire(acc)))
			overwriteAccount(acc)
		}
		return
	}
}

func scriptTree(r *Rand) func() []string {
	ks := genKeys(r, choose(r, 2, 10, 40))
	model := map[[20]byte][]byte{}
	var list []treeOp
	for i := r.In(20, 120); i > 0; i-- {
		op := ks.nextOp(r, model, i < 20)
		applyModel(model, op)
		list = append(list, op)
	}
	seed := r.Uint64()
	return func() (out []string) {
		e := &treeEnv{}
		e.open(newRand(seed))
		for _, op := range list {
			k := op.key
			changed := e.tree.PutEntry(&k, op.value)
			out = append(out, fmt.Sprintf("%x %v %x", e.tree.Hash(), changed, e.tree.GetEntry(&k)))
		}
		return
	}
}

func scriptOverlay(r *Rand) func() []string {
	ks := genKeys(r, choose(r, 2, 10, 40))
	model := map[[20]byte][]byte{}
	var list []treeOp
	for i := r.In(20, 80); i > 0; i-- {
		op := ks.nextOp(r, model, i < 20)
		applyModel(model, op)
		list = append(list, op)
	}
	flush := r.In(1, 20)
	return func() (out []string) {
		base := tree.NewMemStore()
		over := &tree.OverlayStore{Lower: base}
		lower, upper := &tree.PMTree{Store: base}, &tree.PMTree{Store: over}
		for i, op := range list {
			k := op.key
			changed := upper.PutEntry(&k, op.value)
			if i%flush == 0 {
				over.Flush()
			}
			out = append(out, fmt.Sprintf("%x %x %v", upper.Hash(), lower.Hash(), changed))
		}
		return
	}
}

func scriptCodec(r *Rand) func() []string {
	ops := append(readWire(r), readCodec(r)...)
	ops = append(ops, readMessages(r)...)
	ops = shuffled(r, ops)
	return runAll(ops)
}

func runAll(ops []readOp) func() []string {
	return func() (out []string) {
		for _, op := range ops {
			out = append(out, op.name+" "+op.run())
		}
		return
	}
}

func scriptWallet(r *Rand) func() []string {
	seed := genSeed(r)
	basic, ext := genBasicTx(r), genExtendedTx(r)
	copy(basic.SenderPubKey[:], ed25519.NewKeyFromSeed(seed)[32:])
	return func() (out []string) {
		w := wallet.DeriveBasic(append([]byte(nil), seed...))
		x, y := *basic, *ext
		out = append(out, fmt.Sprintf("%x", w.GetAddress()))
		err := w.SignBasicTx(&x)
		out = append(out, digest(layout(&x), err == nil))
		err = w.SignExtendedTx(&y)
		out = append(out, digest(layout(&y), err == nil), fmt.Sprintf("%x", w.GetPublicKey()))
		text := address.Encode(ptr(w.GetAddress()))
		back, err := address.Decode(text)
		return append(out, text, fmt.Sprintf("%x %v", back, err == nil))
	}
}

func ptr[V any](v V) *V { return &v }

// scriptProfile opens a profile and starts a state from it.
func scriptProfile(r *Rand) func() []string {
	name := choose(r, "test", "test", "main")
	seed := r.Uint64()
	return func() (out []string) {
		p, err := genesis.OpenProfile(name)
		if err != nil {
			return []string{"error"}
		}
		in := newInstance(newRand(seed))
		err = p.InitAccounts(in.acc)
		out = append(out, fmt.Sprintf("%v %x", err == nil, in.acc.Tree.Hash()))
		return append(out, showProfile(p, nil))
	}
}

func scriptPolicy(r *Rand) func() []string { return runAll(shuffled(r, readPolicy(r))) }

func childIndependent(c *child) {
	r := newRand(c.num(0), "independent", int(c.num(1)))
	ledgerReward = smallReward
	procs := choose(r, 2, 4, 8, 8)
	runtime.GOMAXPROCS(procs)
	k := choose(r, 2, 3, 4, 8, 12)
	first := scriptKinds[int(c.num(1))%len(scriptKinds)]
	var scripts []script
	for len(scripts) < k {
		kind := first
		if len(scripts) > 1 && r.Bool() {
			kind = scriptKinds[r.N(len(scriptKinds))]
		}
		s := script{kind.name, kind.make(r)}
		scripts = append(scripts, s)
		c.counts["script "+kind.name]++
		if len(scripts) < k && r.P(1, 3) { // the same inputs, another instance
			scripts = append(scripts, s)
			c.counts["scripts on equal inputs"]++
		}
	}
	if len(c.args) > 2 { // only alone
		for g := k - 1; g >= 0; g-- {
			c.result(fmt.Sprintf("script %d of %d (%s)", g, k, scripts[g].kind), digest(scripts[g].run()))
		}
		return
	}
	results := make([][]string, k)
	spans := make([]span, k)
	together(k, r, func(g int) {
		sp := span{from: time.Now()}
		results[g] = scripts[g].run()
		sp.to = time.Now()
		spans[g] = sp
	})
	for g := range scripts {
		alone := scripts[g].run()
		c.Check(len(alone) == len(results[g]), "script %d of %d (%s) took %d steps, but %d alone", g, k, scripts[g].kind, len(results[g]), len(alone))
		for i := range alone {
			c.Check(alone[i] == results[g][i], "script %d of %d (%s), step %d: %s, but alone: %s", g, k, scripts[g].kind, i, results[g][i], alone[i])
			c.counts["script steps"]++
		}
		c.result(fmt.Sprintf("script %d of %d (%s)", g, k, scripts[g].kind), digest(results[g]))
		hit := false
		for h := range scripts {
			if g != h && spans[g].overlaps(spans[h]) {
				hit = true
				if scripts[g].kind <= scripts[h].kind {
					c.note(fmt.Sprintf("%d/%d %s|%s", procs, k, scripts[g].kind, scripts[h].kind))
				}
			}
		}
		if hit {
			c.counts["scripts that overlapped another goroutine's script"]++
		}
	}
}
