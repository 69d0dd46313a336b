package main

import (
	"bytes"
	"fmt"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

func init() {
	const rule = "sequences of puts, overwrites, repeats and deletions over keys that share 0 to 39 leading digits (chains, siblings, full fan-out, random), growing and shrinking; "
	ops := func(quick int) []Workload {
		return []Workload{
			{Name: "sequences", Quick: quick, Thorough: quick * 16, Need: []string{"keys removed", "keys added", "values replaced", "updates without effect"}},
			{Name: "large", Quick: 4, Thorough: 64},
			{Name: "exhaustive", Quick: 64, Thorough: 512},
		}
	}
	reg := func(id, what string, quick int, check func(t *T, e *treeEnv)) {
		wl := ops(quick)
		wl[0].Fn = func(t *T) { treeSequence(t, check, 1+t.R.N(60), 40+t.R.N(160), 1) }
		wl[1].Fn = func(t *T) { treeSequence(t, check, 1500, 3000, 250) }
		wl[2].Fn = func(t *T) { treeSmall(t, check) }
		register(Property{ID: id, Rule: rule + what, Workloads: wl})
	}
	reg("T01", "after every update the touched key, its near relatives and, regularly, all keys are read and compared with a map; a state is non-trivial if its contents were not seen before", 1000, checkMap)
	reg("T02", "after every update the root hash is compared with that of a tree built from scratch; a state is non-trivial if its contents were not seen before", 1000, checkRoot)
	reg("T03", "after every update all stored nodes are compared with those of a tree built from scratch; a state is non-trivial if its contents were not seen before", 800, checkNodes)
	register(Property{
		ID:   "T04",
		Rule: rule + "applied through overlays (one or two levels, over sharing and copying stores) by trees and directly, with flushes, drops and (several overlays over one lower store) changes underneath in between; lower store and overlay view are compared node by node with models after every step; a state is non-trivial if view and lower store had not been seen before",
		Workloads: []Workload{
			{Name: "trees over overlays", Quick: 900, Thorough: 12000, Fn: t04Trees, Need: []string{"flushes", "drops", "views differing from the lower store"}},
			{Name: "direct access", Quick: 1800, Thorough: 20000, Fn: t04Direct, Need: []string{"flushes", "drops", "changes below"}},
			{Name: "blocks over overlays", Quick: 250, Thorough: 4000, Fn: t04Blocks, Need: []string{"flushes", "drops", "accepted", "rejected"}},
			{Name: "many changes", Quick: 96, Thorough: 480, Fn: t04Many, Need: []string{"large flushes", "changes below large overlays"}},
		},
	})
	register(Property{
		ID:   "T05",
		Rule: rule + "applied at the same time to a sharing store, a store that keeps nodes as bytes, one that scribbles over nodes it handed out, and overlays; answers, root hashes and stored nodes are compared after every update, trees are reopened at random points; a state is non-trivial if its contents were not seen before",
		Workloads: []Workload{
			{Name: "stores in parallel", Quick: 300, Thorough: 12000, Fn: t05, Need: []string{"trees reopened"}},
			{Name: "large", Quick: 4, Thorough: 64, Fn: t05Large},
		},
	})
	register(Property{
		ID:   "T06",
		Rule: "all pairs of paths of up to 3 digits over a small alphabet, and random pairs of paths of 0 to 255 digits that share prefixes, of both digit-path types; compared with text operations on their hexadecimal form; a case is non-trivial if its pair was not seen before",
		Workloads: []Workload{
			{Name: "all short pairs", Quick: 85, Thorough: 85, Fn: t06Short},
			{Name: "random pairs", Quick: 40000, Thorough: 100000, Fn: t06Random, Need: []string{"keys", "odd lengths", "prefix pairs", "results overwritten"}},
		},
	})
}

// treeEnv is a tree under observation.
type treeEnv struct {
	tree  *tree.PMTree
	store pathStore
	model map[[20]byte][]byte
	keys  keySpace
	op    treeOp
	every bool // look at everything
	roots map[[32]byte]string
	kept  []keptValue
}

// keptValue is a value that was read and kept.
type keptValue struct {
	key      [20]byte
	got, was []byte
}

func (e *treeEnv) open(r *Rand) {
	switch r.N(5) {
	case 0:
		e.store = newDBStore()
	case 2:
		e.store = newBareStore(r)
	case 1: // an overlay over a memory store is a store, too
		e.store = newRecStore(&tree.OverlayStore{Lower: tree.NewMemStore()})
	default:
		e.store = newRecStore(tree.NewMemStore())
	}
	e.tree = &tree.PMTree{Store: bare(e.store)}
	e.model = map[[20]byte][]byte{}
	e.roots = map[[32]byte]string{}
}

func (e *treeEnv) step(t *T, op treeOp, check func(*T, *treeEnv)) {
	t.Eval()
	t.Logf("%v", op)
	_, existed := e.model[op.key]
	want := applyModel(e.model, op)
	arg, intact := t.R.inside(op.value)
	key := op.key
	got := e.tree.PutEntry(&key, arg)
	t.Check(intact(), "PutEntry writes to the memory around its argument")
	t.Check(got == want, "PutEntry(%x, %x) reports changed=%v, want %v", op.key, op.value, got, want)
	t.Check(key == op.key && bytes.Equal(arg, op.value), "PutEntry modified its arguments")
	switch {
	case !want:
		t.Count("updates without effect")
	case len(op.value) == 0:
		t.Count("keys removed")
	case existed:
		t.Count("values replaced")
	default:
		t.Count("keys added")
	}
	e.op = op
	check(t, e)
}

// contentKey identifies the contents of the state.
func contentKey(model map[[20]byte][]byte) string {
	var sum [32]byte
	for k, v := range model { // order independent
		h := newRand(0, string(k[:])+string(v)).Uint64()
		for i := 0; i < 8; i++ {
			sum[i] ^= byte(h >> (8 * i))
		}
	}
	return string(sum[:8]) + fmt.Sprint(len(model))
}

func treeSequence(t *T, check func(*T, *treeEnv), nKeys, nOps, everyN int) {
	var e treeEnv
	e.open(t.R)
	e.keys = genKeys(t.R, nKeys)
	t.Sample("%d operations on %d keys such as %x, store %T", nOps, nKeys, e.keys.keys[0], e.store)
	shrink := false
	for i := 0; i < nOps; i++ {
		if t.R.P(1, 30) {
			shrink = !shrink
		}
		op := e.keys.nextOp(t.R, e.model, shrink)
		e.every = (i+1)%everyN == 0
		e.step(t, op, check)
		if e.every {
			t.Distinct(contentKey(e.model))
		}
	}
	// Take everything out again.
	for len(e.model) > 0 {
		var op treeOp
		for _, k := range shuffled(t.R, e.keys.keys) {
			if _, ok := e.model[k]; ok {
				op.key = k
				break
			}
		}
		e.every = len(e.model)%everyN == 1 || everyN == 1
		e.step(t, op, check)
	}
}

// treeSmall goes through all sequences of few operations on few related keys.
func treeSmall(t *T, check func(*T, *treeEnv)) {
	r := t.R
	// Four keys: two that part at a late digit, one that parts from them at an early digit, one far away.
	base := r.B20()
	early, late := r.In(0, 30), 0
	late = r.In(early+1, 39)
	k1, k2, k3 := base, base, base
	setDigit(&k1, late, digit(base, late)^byte(r.In(1, 15)))
	setDigit(&k2, early, digit(base, early)^byte(r.In(1, 15)))
	setDigit(&k3, choose(r, 0, early, late), byte(r.N(16)))
	keys := [][20]byte{base, k1, k2, k3}
	values := [][]byte{nil, {7}, genTreeValue(r)}
	const depth = 4
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(keys) * len(values)
	}
	// A slice of all sequences per case.
	n := 64
	if t.Tier == "thorough" {
		n = 512
	}
	for s := t.Idx; s < total; s += n {
		if t.Tier != "thorough" && r.P(7, 8) {
			continue
		}
		t.log = t.log[:0]
		var e treeEnv
		e.open(r)
		e.keys.keys = keys
		x := s
		for i := 0; i < depth; i++ {
			op := treeOp{key: keys[x%4], value: values[x/4%3]}
			x /= 12
			e.every = true
			e.step(t, op, check)
		}
		t.Count("short histories")
	}
	t.Distinct("small", t.Idx, base[:])
	t.Sample("histories of %d operations on %x %x %x %x", depth, base, k1, k2, k3)
}

func checkEntry(t *T, tr *tree.PMTree, key [20]byte, want []byte) {
	arg := key
	got := tr.GetEntry(&arg)
	t.Check(bytes.Equal(got, want), "GetEntry(%x) = %x, want %x", key, got, want)
	t.Check((got == nil) == (want == nil), "GetEntry(%x) = %v, want %v", key, got, want)
}

func checkMap(t *T, e *treeEnv) {
	// Values read before stay what they were.
	for i := range e.kept {
		k := &e.kept[i]
		t.Check(bytes.Equal(k.got, k.was), "the value %x of %x, read before, became %x after %v", k.was, k.key, k.got, e.op)
	}
	defer func() {
		k := e.op.key
		if t.R.P(1, 3) {
			k = e.keys.keys[t.R.N(len(e.keys.keys))]
		}
		got := e.tree.GetEntry(&k)
		kv := keptValue{k, got, append([]byte(nil), got...)}
		if len(e.kept) < 8 {
			e.kept = append(e.kept, kv)
		} else {
			e.kept[t.R.N(len(e.kept))] = kv
		}
		t.Count("values kept")
	}()
	checkEntry(t, e.tree, e.op.key, e.model[e.op.key])
	for i := 0; i < 3; i++ { // near relatives
		k := e.op.key
		d := t.R.N(40)
		setDigit(&k, d, digit(k, d)^byte(t.R.In(1, 15)))
		checkEntry(t, e.tree, k, e.model[k])
	}
	k := e.keys.keys[t.R.N(len(e.keys.keys))]
	checkEntry(t, e.tree, k, e.model[k])
	t.CountN("reads", 5)
	if e.every && (len(e.keys.keys) < 10 || t.R.P(1, 4)) {
		for _, k := range e.keys.keys {
			checkEntry(t, e.tree, k, e.model[k])
		}
		t.CountN("reads", len(e.keys.keys))
	}
}

func checkRoot(t *T, e *treeEnv) {
	got := e.tree.Hash()
	key := contentKey(e.model)
	if prev, ok := e.roots[got]; ok && prev != key {
		t.Failf("different contents have the same root %x", got)
	}
	e.roots[got] = key
	t.State(got)
	if !e.every {
		return
	}
	_, want := refTree(e.model)
	t.Check(got == want, "root hash is %x, want %x after %v with %d entries", got, want, e.op, len(e.model))
	t.Count("roots compared with a tree from scratch")
}

func checkNodes(t *T, e *treeEnv) {
	if !e.every {
		return
	}
	want, _ := refTree(e.model)
	if d := nodeDiff(e.store, e.store.paths(), want); d != "" {
		t.Failf("after %v with %d entries: %s", e.op, len(e.model), d)
	}
	t.CountN("nodes compared", len(want))
	t.State(e.tree.Hash())
}

// ---- T04 ----

// t04Trees runs trees over overlays.
func t04Trees(t *T) {
	r := t.R
	var lower pathStore
	switch r.N(3) {
	case 0:
		lower = newDBStore()
	case 1:
		lower = newBareStore(r)
	default:
		lower = newRecStore(tree.NewMemStore())
	}
	lowerTree := &tree.PMTree{Store: bare(lower)}
	lowerModel := map[[20]byte][]byte{}
	keys := genKeys(r, 1+r.N(40))
	for i := r.N(30); i > 0; i-- {
		op := keys.nextOp(r, lowerModel, false)
		t.Logf("lower %v", op)
		applyModel(lowerModel, op)
		lowerTree.PutEntry(&op.key, op.value)
	}
	levels := choose(r, 1, 1, 2)
	fresh := func() []*tree.OverlayStore {
		var out []*tree.OverlayStore
		under := bare(lower)
		for i := 0; i < levels; i++ {
			o := &tree.OverlayStore{Lower: under}
			out = append(out, o)
			under = o
		}
		return out
	}
	stack := fresh()
	model := copyEntries(lowerModel)
	snap := snapshotStore(lower)
	_, lowerRoot := refTree(lowerModel)
	t.Check(lowerTree.Hash() == lowerRoot, "root of the lower tree")
	for i := 20 + r.N(60); i > 0; i-- {
		t.Eval()
		top := stack[len(stack)-1]
		switch {
		case r.P(1, 12): // flush everything down
			for l := len(stack) - 1; l >= 0; l-- {
				stack[l].Flush()
				if l > 0 { // not at the bottom yet
					t.unchanged(lower, snap, "flushing an upper overlay")
				}
			}
			t.Logf("flush")
			t.Count("flushes")
			lowerModel = copyEntries(model)
			snap = snapshotStore(lower)
			want, root := refTree(lowerModel)
			lowerRoot = root
			if d := nodeDiff(lower, lower.paths(), want); d != "" {
				t.Failf("after a flush: %s", d)
			}
			// The overlays are empty now: changes below show through.
			op := keys.nextOp(r, lowerModel, r.Bool())
			t.Logf("lower %v", op)
			applyModel(lowerModel, op)
			applyModel(model, op)
			lowerTree.PutEntry(&op.key, append([]byte(nil), op.value...))
			snap = snapshotStore(lower)
			_, lowerRoot = refTree(lowerModel)
			if r.P(1, 3) { // flushing an empty overlay does nothing
				stack[len(stack)-1].Flush()
				t.unchanged(lower, snap, "flushing an empty overlay")
			}
		case r.P(1, 12): // drop
			t.Logf("drop")
			t.Count("drops")
			stack = fresh()
			model = copyEntries(lowerModel)
		default:
			op := keys.nextOp(r, model, r.Bool())
			t.Logf("%v", op)
			want := applyModel(model, op)
			got := (&tree.PMTree{Store: top}).PutEntry(&op.key, append([]byte(nil), op.value...))
			t.Check(got == want, "PutEntry over an overlay reports %v, want %v", got, want)
		}
		// The view.
		top = stack[len(stack)-1]
		view := &tree.PMTree{Store: top}
		want, root := refTree(model)
		t.Check(view.Hash() == root, "root hash over the overlay is %x, want %x", view.Hash(), root)
		for p, w := range want {
			if d := oneNodeDiff(top.GetNode(tree.Nibbles(p)), p, w); d != "" {
				t.Failf("view of the overlay: %s", d)
			}
		}
		for p := range snap {
			if _, ok := want[p]; !ok && top.GetNode(tree.Nibbles(p)) != nil {
				t.Failf("the overlay still shows the node at %q", asHex(p))
			}
		}
		// The lower store.
		t.unchanged(lower, snap, "a change through the overlay")
		t.Check(lowerTree.Hash() == lowerRoot, "root hash of the lower store is %x, want %x", lowerTree.Hash(), lowerRoot)
		if root != lowerRoot {
			t.Count("views differing from the lower store")
		}
		t.Distinct(root[:], lowerRoot[:])
		t.State(root)
	}
	t.Sample("%d overlay(s) over %T", levels, lower)
}

// t04Blocks applies blocks to states over overlays.
func t04Blocks(t *T) {
	r := t.R
	w := newWorld(r)
	var lower pathStore = newDBStore()
	if r.Bool() {
		lower = newBareStore(r)
	}
	accs := accounts.NewAccounts(&tree.PMTree{Store: bare(lower)})
	for addr, a := range w.model {
		k := addr
		accs.PutAccount(&k, a.wire())
	}
	snap := snapshotStore(lower)
	top := &tree.OverlayStore{Lower: bare(lower)}
	var stack []*tree.OverlayStore
	fresh := func() {
		stack = []*tree.OverlayStore{{Lower: bare(lower)}}
		if r.P(1, 3) {
			stack = append(stack, &tree.OverlayStore{Lower: stack[0]})
		}
		top = stack[len(stack)-1]
	}
	fresh()
	saved := w.model
	for n := r.In(3, 10); n > 0; n-- {
		t.Eval()
		state := &instance{acc: accounts.NewAccounts(&tree.PMTree{Store: top}), store: &bareStore{Store: top}}
		b, g := w.genWorldBlock()
		if r.P(1, 3) {
			w.damage(g, b, nil)
		}
		t.Logf("push %s", dumpBlock(b))
		if state.push(t, b) == nil {
			t.Count("accepted")
		} else {
			t.Count("rejected")
		}
		t.unchanged(lower, snap, "a block applied over an overlay")
		w.model = state.state(t)
		t.Distinct(layout(b))
		t.State(state.acc.Tree.Hash())
		switch r.N(4) {
		case 0:
			for i := len(stack) - 1; i >= 0; i-- {
				stack[i].Flush()
			}
			t.Count("flushes")
			if d := nodeDiff(lower, lower.paths(), first(refTree(w.model.entries()))); d != "" {
				t.Failf("after a flush: %s", d)
			}
			snap, saved = snapshotStore(lower), w.model
		case 1:
			fresh()
			t.Count("drops")
			w.model = saved
		}
		if d := nodeDiff(top, (&bareStore{Store: top}).paths(), first(refTree(w.model.entries()))); d != "" {
			t.Failf("view of the overlay: %s", d)
		}
		w.advance()
	}
	t.Sample("height %d, %d overlays", w.height, len(stack))
}

func first[A, B any](a A, _ B) A { return a }

func (t *T) unchanged(s pathStore, snap map[string]string, by string) {
	if d := snapshotDiff(snap, snapshotStore(s)); d != "" {
		t.Failf("%s changed the lower store: %s", by, d)
	}
}

// t04Direct uses overlays as key-value stores, up to three over one lower store, which changes underneath them.
func t04Direct(t *T) {
	r := t.R
	lower := newDBStore()
	below := map[string]string{"": string(encodeNode(&tree.Branch{}))}
	var paths []string
	for i := r.In(1, 12); i > 0; i-- {
		n := r.N(5)
		if r.P(1, 4) {
			n = choose(r, 5, 20, 38, 39, 40, 40, 40)
		}
		b := make([]byte, n)
		for j := range b {
			b[j] = byte(r.N(3))
		}
		paths = append(paths, string(b))
	}
	node := func() tree.Node { return &tree.Leaf{Prefix: r.Bytes(r.N(4)), Value: r.Bytes(r.In(1, 6))} }
	for i := r.N(8); i > 0; i-- {
		p := paths[r.N(len(paths))]
		n := node()
		lower.PutNode(tree.Nibbles(p), n)
		below[p] = string(encodeNode(n))
	}
	none := string(encodeNode(nil))
	set := func(m map[string]string, p, n string) {
		if n == none {
			delete(m, p)
		} else {
			m[p] = n
		}
	}
	// What an overlay changed; everything else is as below.
	type over struct {
		store   *tree.OverlayStore
		changes map[string]string
	}
	overs := make([]over, choose(r, 1, 1, 1, 2, 3))
	for i := range overs {
		overs[i] = over{&tree.OverlayStore{Lower: lower}, map[string]string{}}
	}
	for i := 0; i < 40; i++ {
		t.Eval()
		p := paths[r.N(len(paths))]
		which := r.N(len(overs))
		o := &overs[which]
		switch r.N(10) {
		case 0:
			t.Logf("flush %d", which)
			o.store.Flush()
			t.Count("flushes")
			for p, n := range o.changes {
				set(below, p, n)
			}
			o.changes = map[string]string{}
		case 1:
			t.Logf("drop %d", which)
			t.Count("drops")
			*o = over{&tree.OverlayStore{Lower: lower}, map[string]string{}}
		case 2: // below: visible at once where the overlay changed nothing
			if r.P(1, 4) {
				t.Logf("lower del %x", p)
				lower.DelNode(tree.Nibbles(p))
				delete(below, p)
			} else {
				n := node()
				t.Logf("lower put %x %s", p, dumpNode(n))
				lower.PutNode(tree.Nibbles(p), n)
				below[p] = string(encodeNode(n))
			}
			t.Count("changes below")
		case 3, 4, 5:
			t.Logf("del %d %x", which, p)
			o.store.DelNode(tree.Nibbles(p))
			o.changes[p] = none
		default:
			n := node()
			t.Logf("put %d %x %s", which, p, dumpNode(n))
			o.store.PutNode(tree.Nibbles(p), n)
			o.changes[p] = string(encodeNode(n))
		}
		for which, o := range overs {
			for _, p := range append(paths, "", "\x07") {
				got := string(encodeNode(o.store.GetNode(tree.Nibbles(p))))
				want, ok := o.changes[p]
				if !ok {
					if want, ok = below[p]; !ok {
						want = none
					}
				}
				t.Check(got == want, "overlay %d shows %x at %x, want %x", which, got, p, want)
			}
		}
		if d := snapshotDiff(below, snapshotStore(lower)); d != "" {
			t.Failf("lower store: %s", d)
		}
		t.Distinct(fmt.Sprint(overs[which].changes), fmt.Sprint(below))
	}
	t.Sample("%d overlays over %d paths", len(overs), len(paths))
}

// t04Many flushes, drops and reads overlays of many changes.
func t04Many(t *T) {
	r := t.R
	sizes := []int{1, 2, 7, 8, 9, 10, 15, 16, 17, 31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 10_000, 16_384, 32_768, 65_535, 65_536, 100_000}
	size := sizes[t.Idx%len(sizes)]
	path := func(i int) tree.Nibbles {
		p := make(tree.Nibbles, 6)
		for j := range p {
			p[j] = byte(i>>(4*j)) & 15
		}
		return p
	}
	leaf := func(n tree.Node) byte {
		if n == nil {
			return 0
		}
		return n.(*tree.Leaf).Value[0]
	}
	put := func(s tree.Store, i int, v byte) {
		if v == 0 {
			s.DelNode(path(i))
		} else {
			s.PutNode(path(i), &tree.Leaf{Prefix: path(i), Value: []byte{v}})
		}
	}
	lower := tree.NewMemStore()
	model := make([]byte, size+10) // 0 for none
	for i := range model {
		if r.Bool() {
			model[i] = byte(r.In(1, 255))
			put(lower, i, model[i])
		}
	}
	below := append([]byte(nil), model...)
	o := &tree.OverlayStore{Lower: lower}
	for round := 0; round < 3; round++ {
		for _, i := range r.Perm(size) {
			v := byte(0)
			if r.P(3, 4) {
				v = byte(r.In(1, 255))
			}
			put(o, i, v)
			model[i] = v
		}
		for i := range model {
			t.Check(leaf(o.GetNode(path(i))) == model[i], "after %d changes, the overlay shows %d at %x, want %d", size, leaf(o.GetNode(path(i))), path(i), model[i])
			t.Check(leaf(lower.GetNode(path(i))) == below[i], "after %d changes of the overlay, the lower store has %d at %x, want %d", size, leaf(lower.GetNode(path(i))), path(i), below[i])
		}
		for i := size; i < len(model); i++ { // visible at once where the overlay changed nothing
			if r.Bool() {
				below[i] = byte(r.N(256))
				model[i] = below[i]
				put(lower, i, below[i])
			}
			t.Check(leaf(o.GetNode(path(i))) == model[i], "with %d changes elsewhere, the overlay shows %d at %x, want %d as below", size, leaf(o.GetNode(path(i))), path(i), model[i])
			t.Count("changes below large overlays")
		}
		t.Eval()
		if r.P(1, 4) {
			o = &tree.OverlayStore{Lower: lower}
			copy(model, below)
		} else {
			o.Flush()
			copy(below, model)
			t.Count("large flushes")
		}
		for i := range model {
			t.Check(leaf(lower.GetNode(path(i))) == below[i], "after a flush of %d changes, the lower store has %d at %x, want %d", size, leaf(lower.GetNode(path(i))), path(i), below[i])
			if r.P(1, 3) { // nothing is left in the overlay to hide this
				below[i] = byte(r.N(256))
				model[i] = below[i]
				put(lower, i, below[i])
			}
		}
		for i := range model {
			t.Check(leaf(o.GetNode(path(i))) == model[i], "after a flush of %d changes, the overlay shows %d at %x, want %d as below", size, leaf(o.GetNode(path(i))), path(i), model[i])
		}
		t.Distinct(size, round, model[:min(len(model), 50)])
	}
	t.Sample("%d changes", size)
}

// ---- T05 ----

// scribbleStore hands out copies and, at the next change, scribbles over those it handed out before.
// A tree that keeps nodes instead of storing them is found out.
type scribbleStore struct {
	dbStore
	handed []tree.Node
}

func (s *scribbleStore) GetNode(n tree.Nibbles) tree.Node {
	node := s.dbStore.GetNode(n)
	if node != nil {
		s.handed = append(s.handed, node)
	}
	return node
}

// scribble ruins everything handed out so far; called between updates.
func (s *scribbleStore) scribble() {
	for _, n := range s.handed {
		switch n := n.(type) {
		case *tree.Leaf:
			for i := range n.Value {
				n.Value[i] ^= 0x55
			}
		case *tree.Branch:
			for i := range n.Children {
				n.Children[i].Exists = !n.Children[i].Exists
				n.Children[i].Hash[3] ^= 1
			}
		}
	}
	s.handed = nil
}

func t05(t *T)      { t05Run(t, 1+t.R.N(50), 30+t.R.N(120), 1) }
func t05Large(t *T) { t05Run(t, 1000, 2500, 200) }

func t05Run(t *T, nKeys, nOps, everyN int) {
	r := t.R
	scr := &scribbleStore{dbStore: *newDBStore()}
	stores := []pathStore{
		newRecStore(tree.NewMemStore()),
		newDBStore(),
		scr,
		newRecStore(&tree.OverlayStore{Lower: newDBStore()}),
		newRecStore(&tree.OverlayStore{Lower: &tree.OverlayStore{Lower: tree.NewMemStore()}}),
		newBareStore(r),
	}
	names := []string{"memory store", "copying store", "scribbling store", "overlay over a copying store", "two overlays over a memory store", "bare store"}
	trees := make([]*tree.PMTree, len(stores))
	for i := range stores {
		trees[i] = &tree.PMTree{Store: bare(stores[i])}
	}
	model := map[[20]byte][]byte{}
	keys := genKeys(r, nKeys)
	shrink := false
	for n := 0; n < nOps; n++ {
		t.Eval()
		if r.P(1, 25) {
			shrink = !shrink
		}
		op := keys.nextOp(r, model, shrink)
		t.Logf("%v", op)
		want := applyModel(model, op)
		other := keys.keys[r.N(len(keys.keys))]
		full := (n+1)%everyN == 0
		var nodes map[string]*refNode
		var root [32]byte
		if full {
			nodes, root = refTree(model)
		}
		for i, tr := range trees {
			if r.P(1, 10) { // carry on with a new tree on the same store
				tr = &tree.PMTree{Store: bare(stores[i])}
				trees[i] = tr
				t.Count("trees reopened")
			}
			value, intact := r.inside(op.value)
			got := tr.PutEntry(&op.key, value)
			t.Check(intact(), "%s: PutEntry writes to its argument, or the memory around it", names[i])
			t.Check(got == want, "%s: PutEntry(%x, %x) reports %v, want %v", names[i], op.key, op.value, got, want)
			if stores[i] == pathStore(scr) {
				scr.scribble()
			}
			for _, k := range [][20]byte{op.key, other} {
				got := tr.GetEntry(&k)
				t.Check(bytes.Equal(got, model[k]), "%s: GetEntry(%x) = %x, want %x", names[i], k, got, model[k])
			}
			if !full {
				continue
			}
			t.Check(tr.Hash() == root, "%s: root hash %x, want %x after %v", names[i], tr.Hash(), root, op)
			if stores[i] == pathStore(scr) {
				scr.scribble()
			}
			if d := nodeDiff(stores[i], stores[i].paths(), nodes); d != "" {
				t.Failf("%s: after %v: %s", names[i], op, d)
			}
			t.Count("stores compared")
		}
		if full {
			t.Distinct(contentKey(model))
			t.State(root)
		}
	}
	t.Sample("%d operations on %d keys, 6 stores", nOps, nKeys)
}

// ---- T06 ----

// digitPath is what both digit-path types can do.
type digitPath struct {
	name     string
	hexBytes func(p string) string
	str      func(p string) string
	compress func(p string) []byte
	prefixOf func(a, b string) bool
	common   func(a, b string) string
	fromKey  func(k *[20]byte) string
	toKey    func(p string) [20]byte
	spoil    func(k *[20]byte, p string) // use the results, then overwrite them
}

func overwrite(lists ...[]byte) {
	for _, l := range lists {
		l = l[:cap(l)]
		for i := range l {
			l[i] = l[i] ^ 0x0f
		}
	}
}

var digitPaths = []digitPath{
	{
		name:     "tree.Nibbles",
		hexBytes: func(p string) string { return string(treeDigits(p).HexBytes()) },
		str:      func(p string) string { return treeDigits(p).String() },
		compress: func(p string) []byte { return treeDigits(p).Compress() },
		prefixOf: func(a, b string) bool { return treeDigits(a).PrefixOf(treeDigits(b)) },
		common:   func(a, b string) string { return string(treeDigits(a).CommonPrefix(treeDigits(b))) },
		fromKey:  func(k *[20]byte) string { return string(tree.KeyToNibbles(k)) },
		toKey:    func(p string) [20]byte { return treeDigits(p).ToKey() },
		spoil: func(k *[20]byte, p string) {
			overwrite(tree.KeyToNibbles(k), treeDigits(p).HexBytes(), treeDigits(p).Compress())
		},
	},
	{
		name:     "wire.Nibbles",
		hexBytes: func(p string) string { return string(wireDigits(p).HexBytes()) },
		str:      func(p string) string { return wireDigits(p).String() },
		compress: func(p string) []byte { return wireDigits(p).Compress() },
		prefixOf: func(a, b string) bool { return wireDigits(a).PrefixOf(wireDigits(b)) },
		common:   func(a, b string) string { return string(wireDigits(a).CommonPrefix(wireDigits(b))) },
		fromKey:  func(k *[20]byte) string { return string(wire.KeyToNibbles(k)) },
		toKey:    func(p string) [20]byte { return wireDigits(p).ToKey() },
		spoil: func(k *[20]byte, p string) {
			overwrite(wire.KeyToNibbles(k), wireDigits(p).HexBytes(), wireDigits(p).Compress())
		},
	},
}

// nilPath stands for nil, the other empty path.
const nilPath = "nil"

func treeDigits(p string) tree.Nibbles {
	if p == nilPath {
		return nil
	}
	return tree.Nibbles(p)
}

func wireDigits(p string) wire.Nibbles {
	if p == nilPath {
		return nil
	}
	return wire.Nibbles(p)
}

// orNil stands for nil if the path is empty.
func orNil(p string) string {
	if p == "" {
		return nilPath
	}
	return p
}

func t06Pair(t *T, a, b string) {
	t.Eval()
	common := 0
	for common < len(a) && common < len(b) && a[common] == b[common] {
		common++
	}
	for _, d := range digitPaths {
		for _, p := range []string{a, b} {
			hex := string(asHex(p))
			t.Check(d.hexBytes(p) == hex && d.str(p) == hex, "%s: text of digits %x is %q, %q", d.name, p, d.hexBytes(p), d.str(p))
			packed := make([]byte, (len(p)+1)/2)
			for i := range p {
				if i%2 == 0 {
					packed[i/2] |= p[i] << 4
				} else {
					packed[i/2] |= p[i]
				}
			}
			got := d.compress(p)
			t.Check(bytes.Equal(got, packed), "%s: digits %s packed are %x, want %x", d.name, hex, got, packed)
			if len(p)%2 == 1 {
				t.Count("odd lengths")
			}
		}
		t.Check(d.prefixOf(a, b) == (common == len(a)), "%s: %q prefix of %q: %v", d.name, asHex(a), asHex(b), d.prefixOf(a, b))
		t.Check(d.prefixOf(b, a) == (common == len(b)), "%s: %q prefix of %q: %v", d.name, asHex(b), asHex(a), d.prefixOf(b, a))
		t.Check(d.common(a, b) == a[:common], "%s: common prefix of %q and %q is %q", d.name, asHex(a), asHex(b), asHex(d.common(a, b)))
		t.Check(d.common(b, a) == a[:common], "%s: common prefix of %q and %q is %q", d.name, asHex(b), asHex(a), asHex(d.common(b, a)))
	}
	if a == "" || b == "" {
		a, b := orNil(a), orNil(b)
		for _, d := range digitPaths {
			isNil := func(p string) bool { return p == nilPath }
			for _, p := range []string{a, b} {
				if isNil(p) {
					t.Check(d.hexBytes(p) == "" && d.str(p) == "" && len(d.compress(p)) == 0, "%s: no digits are %q, %q, packed %x", d.name, d.hexBytes(p), d.str(p), d.compress(p))
				}
			}
			for _, q := range [][2]string{{a, b}, {b, a}, {a, a}, {a, ""}, {"", a}, {b, b}} {
				t.Check(d.prefixOf(q[0], q[1]) == (isNil(q[0]) || q[0] == "" || q[0] == q[1]), "%s: %q prefix of %q: %v", d.name, q[0], q[1], d.prefixOf(q[0], q[1]))
				want := ""
				if q[0] == q[1] && !isNil(q[0]) {
					want = q[0]
				}
				t.Check(d.common(q[0], q[1]) == want, "%s: common prefix of %q and %q is %q", d.name, q[0], q[1], d.common(q[0], q[1]))
			}
		}
		t.Count("nil paths")
	}
	if common == len(a) || common == len(b) {
		t.Count("prefix pairs")
	}
	t.Distinct(a, b)
}

// t06Short compares one short path with all short paths.
func t06Short(t *T) {
	alphabet := "\x00\x01\x0f\x08"
	all := []string{""}
	for i := 0; len(all[i]) < 3; i++ {
		for _, c := range alphabet {
			all = append(all, all[i]+string(c))
		}
	}
	if t.Idx >= len(all) {
		return
	}
	for _, b := range all {
		t06Pair(t, all[t.Idx], b)
	}
}

func t06Random(t *T) {
	r := t.R
	path := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(16))
		}
		return string(b)
	}
	for k := 0; k < 10; k++ {
		length := func() int {
			return choose(r, 0, 1, 2, 3, 20, 39, 40, 41, r.N(256))
		}
		a := path(length())
		b := a[:r.N(len(a)+1)] + path(choose(r, 0, 0, 1, length()))
		t06Pair(t, a, b)
		key := r.B20()
		in := key
		for _, d := range digitPaths {
			p := d.fromKey(&in)
			t.Check(p == digitsOf(key) && in == key, "%s: digits of %x are %x", d.name, key, p)
			t.Check(d.toKey(p) == key, "%s: %x and back is %x", d.name, key, d.toKey(p))
			if r.Bool() {
				d.spoil(&in, choose(r, p, a, b, ""))
				p = d.fromKey(&in)
				t.Check(p == digitsOf(key) && in == key, "%s: digits of %x are %x after a caller changed earlier results", d.name, key, p)
				t.Count("results overwritten")
			}
		}
		t.Count("keys")
		t06Pair(t, digitsOf(key), digitsOf(genAddr(r)))
		if r.P(1, 4) {
			t06Pair(t, a, b)
		}
		t.Sample("%q %q", asHex(a), asHex(b))
	}
}
