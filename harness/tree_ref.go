package main

import (
	"bytes"
	"fmt"
	"sort"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/tree"
)

// ---- model: the canonical tree over a set of entries, built from scratch ----

type refNode struct {
	leaf     bool
	value    []byte
	hash     [32]byte
	children [16]struct {
		exists bool
		suffix string // one digit per byte
		hash   [32]byte
	}
}

const hexDigits = "0123456789abcdef"

func digitsOf(key [20]byte) string {
	out := make([]byte, 40)
	for i, b := range key {
		out[2*i], out[2*i+1] = b>>4, b&15
	}
	return string(out)
}

func asHex(digits string) []byte {
	out := make([]byte, len(digits))
	for i := range out {
		out[i] = '?'
		if digits[i] < 16 {
			out[i] = hexDigits[digits[i]]
		}
	}
	return out
}

// refTree returns all nodes by path, and the root hash.
func refTree(entries map[[20]byte][]byte) (map[string]*refNode, [32]byte) {
	paths := make([]string, 0, len(entries))
	values := make(map[string][]byte, len(entries))
	for k, v := range entries {
		p := digitsOf(k)
		paths = append(paths, p)
		values[p] = v
	}
	sort.Strings(paths)
	nodes := map[string]*refNode{}
	var build func(paths []string, path string) [32]byte
	build = func(paths []string, path string) [32]byte {
		if len(path) == 40 {
			n := &refNode{leaf: true, value: values[path]}
			nodes[path] = n
			n.hash = blake2b.Sum256(bytes.Join([][]byte{{0xff, 40}, asHex(path), values[path]}, nil))
			return n.hash
		}
		n := new(refNode)
		nodes[path] = n
		count := 0
		var rest []byte
		for i := 0; i < len(paths); {
			j := i
			d := paths[i][len(path)]
			for j < len(paths) && paths[j][len(path)] == d {
				j++
			}
			first, last := paths[i], paths[j-1] // sorted, so these two tell the common prefix of all
			l := 0
			for l < 40 && first[l] == last[l] {
				l++
			}
			c := &n.children[d]
			c.exists = true
			c.suffix = first[len(path):l]
			c.hash = build(paths[i:j], first[:l])
			rest = append(rest, byte(len(c.suffix)))
			rest = append(rest, asHex(c.suffix)...)
			rest = append(rest, c.hash[:]...)
			count++
			i = j
		}
		head := append([]byte{0, byte(len(path))}, asHex(path)...)
		head = append(head, byte(count))
		n.hash = blake2b.Sum256(append(head, rest...))
		return n.hash
	}
	root := build(paths, "")
	return nodes, root
}

// nodeDiff compares the nodes of a store with the model. paths are the paths of all nodes in the store.
func nodeDiff(store tree.Store, paths []string, want map[string]*refNode) string {
	for _, p := range paths {
		if _, ok := want[p]; !ok {
			return fmt.Sprintf("store holds a node at %q that nothing refers to: %s", asHex(p), dumpNode(store.GetNode(tree.Nibbles(p))))
		}
	}
	if len(paths) != len(want) {
		have := map[string]bool{}
		for _, p := range paths {
			have[p] = true
		}
		for p := range want {
			if !have[p] {
				return fmt.Sprintf("store lacks the node at %q", asHex(p))
			}
		}
	}
	for p, w := range want {
		if d := oneNodeDiff(store.GetNode(tree.Nibbles(p)), p, w); d != "" {
			return d
		}
	}
	return ""
}

func oneNodeDiff(got tree.Node, p string, w *refNode) string {
	if got != nil && string(got.GetPrefix()) != p {
		return fmt.Sprintf("node at %q says it belongs to %q", asHex(p), asHex(string(got.GetPrefix())))
	}
	switch n := got.(type) {
	case *tree.Leaf:
		if !w.leaf || string(n.Prefix) != p || !bytes.Equal(n.Value, w.value) {
			return fmt.Sprintf("node at %q is %s, want %s", asHex(p), dumpNode(n), w.dump())
		}
		if h := n.Hash(); h != w.hash {
			return fmt.Sprintf("the hash of the leaf at %q is %x, want %x", asHex(p), h, w.hash)
		}
		written := bytes.NewBuffer(append(make([]byte, 0, 64), "before"...))
		n.MarshalTo(written)
		if !bytes.Equal(written.Bytes(), bytes.Join([][]byte{[]byte("before"), {0xff, 40}, asHex(p), w.value}, nil)) {
			return fmt.Sprintf("the leaf at %q is written as %x", asHex(p), written.Bytes())
		}
	case *tree.Branch:
		if w.leaf || string(n.Prefix) != p {
			return fmt.Sprintf("node at %q is %s, want %s", asHex(p), dumpNode(n), w.dump())
		}
		for i := range n.Children {
			c, wc := &n.Children[i], &w.children[i]
			if c.Exists != wc.exists || c.Exists && (string(c.Suffix) != wc.suffix || c.Hash != wc.hash) {
				return fmt.Sprintf("child %x of the branch at %q differs: %s, want %s", i, asHex(p), dumpNode(n), w.dump())
			}
		}
		if h := n.Hash(); h != w.hash {
			return fmt.Sprintf("the hash of the branch at %q is %x, want %x", asHex(p), h, w.hash)
		}
	default:
		return fmt.Sprintf("no node at %q (%T), want %s", asHex(p), got, w.dump())
	}
	return ""
}

func (n *refNode) dump() string {
	if n.leaf {
		return fmt.Sprintf("leaf %x", n.value)
	}
	s := "branch"
	for _, c := range n.children {
		if c.exists {
			s += fmt.Sprintf(" %s:%x", asHex(c.suffix), c.hash[:4])
		}
	}
	return s
}

func dumpNode(n tree.Node) string {
	switch n := n.(type) {
	case *tree.Leaf:
		return fmt.Sprintf("leaf %s %x", asHex(string(n.Prefix)), n.Value)
	case *tree.Branch:
		s := "branch " + string(asHex(string(n.Prefix)))
		for _, c := range n.Children {
			if c.Exists {
				s += fmt.Sprintf(" %s:%x", asHex(string(c.Suffix)), c.Hash[:4])
			}
		}
		return s
	}
	return fmt.Sprintf("%T", n)
}

// ---- stores ----

// encodeNode writes a node down, so that nothing is shared.
func encodeNode(n tree.Node) []byte {
	switch n := n.(type) {
	case *tree.Leaf:
		out := []byte{1, byte(len(n.Prefix))}
		out = append(out, n.Prefix...)
		return append(out, n.Value...)
	case *tree.Branch:
		out := []byte{2, byte(len(n.Prefix))}
		out = append(out, n.Prefix...)
		for _, c := range n.Children {
			if !c.Exists {
				out = append(out, 0)
				continue
			}
			out = append(out, 1, byte(len(c.Suffix)))
			out = append(out, c.Suffix...)
			out = append(out, c.Hash[:]...)
		}
		return out
	case nil:
		return nil
	}
	panic(fmt.Sprintf("harness: node of type %T", n))
}

func decodeNode(b []byte) tree.Node {
	kind, prefix := b[0], append(tree.Nibbles(nil), b[2:2+b[1]]...)
	b = b[2+len(prefix):]
	if kind == 1 {
		return &tree.Leaf{Prefix: prefix, Value: append([]byte(nil), b...)}
	}
	n := &tree.Branch{Prefix: prefix}
	for i := range n.Children {
		exists, l := b[0], 0
		b = b[1:]
		if exists == 0 {
			continue
		}
		c := &n.Children[i]
		c.Exists = true
		l, b = int(b[0]), b[1:]
		c.Suffix = append(tree.Nibbles(nil), b[:l]...)
		copy(c.Hash[:], b[l:])
		b = b[l+32:]
	}
	return n
}

// A pathStore is a store whose paths can be listed.
type pathStore interface {
	tree.Store
	paths() []string
}

// recStore wraps a store and remembers what was put.
type recStore struct {
	tree.Store
	live             map[string]bool
	gets, puts, dels int
}

func newRecStore(s tree.Store) *recStore {
	r := &recStore{Store: s, live: map[string]bool{}}
	if s.GetNode(nil) != nil {
		r.live[""] = true
	}
	return r
}
func (s *recStore) GetNode(n tree.Nibbles) tree.Node { s.gets++; return s.Store.GetNode(n) }
func (s *recStore) PutNode(n tree.Nibbles, node tree.Node) {
	s.puts++
	s.live[string(n)] = true
	s.Store.PutNode(n, node)
}
func (s *recStore) DelNode(n tree.Nibbles) {
	s.dels++
	delete(s.live, string(n))
	s.Store.DelNode(n)
}
func (s *recStore) paths() (out []string) {
	for p := range s.live {
		out = append(out, p)
	}
	return
}

// bareStore lists the paths of a store by walking the tree in it.
// Trees use the store itself, see bare.
type bareStore struct {
	tree.Store
	under *dbStore // beneath the overlays, or nil
}

func newBareStore(r *Rand) *bareStore {
	switch r.N(4) {
	case 0:
		return &bareStore{Store: &tree.OverlayStore{Lower: tree.NewMemStore()}}
	case 1:
		db := newDBStore()
		s := &bareStore{Store: &tree.OverlayStore{Lower: db}, under: db}
		if r.Bool() {
			s.Store = &tree.OverlayStore{Lower: s.Store}
		}
		return s
	default:
		return &bareStore{Store: tree.NewMemStore()}
	}
}

func (s *bareStore) paths() (out []string) {
	var walk func(p string)
	walk = func(p string) {
		node := s.GetNode(tree.Nibbles(p))
		if node == nil {
			return
		}
		out = append(out, p)
		if b, ok := node.(*tree.Branch); ok {
			for _, c := range b.Children {
				if c.Exists && len(c.Suffix) > 0 && len(out) < 1<<20 {
					walk(p + string(c.Suffix))
				}
			}
		}
	}
	walk("")
	return
}

// bare returns what a tree is to use.
func bare(s pathStore) tree.Store {
	if b, ok := s.(*bareStore); ok {
		return b.Store
	}
	return s
}

// dbStore keeps nodes as bytes, like a database.
type dbStore struct {
	data             map[string][]byte
	gets, puts, dels int
	onWrite          func() // called before every change, may panic
}

func newDBStore() *dbStore {
	return &dbStore{data: map[string][]byte{"": encodeNode(&tree.Branch{})}}
}
func (s *dbStore) GetNode(n tree.Nibbles) tree.Node {
	s.gets++
	b, ok := s.data[string(n)]
	if !ok {
		return nil
	}
	return decodeNode(b)
}
func (s *dbStore) PutNode(n tree.Nibbles, node tree.Node) {
	if s.onWrite != nil {
		s.onWrite()
	}
	s.puts++
	s.data[string(n)] = encodeNode(node)
}
func (s *dbStore) DelNode(n tree.Nibbles) {
	if s.onWrite != nil {
		s.onWrite()
	}
	s.dels++
	delete(s.data, string(n))
}
func (s *dbStore) paths() (out []string) {
	for p := range s.data {
		out = append(out, p)
	}
	return
}

// snapshotStore writes down everything a store holds.
func snapshotStore(s pathStore) map[string]string {
	out := map[string]string{}
	for _, p := range s.paths() {
		out[p] = string(encodeNode(s.GetNode(tree.Nibbles(p))))
	}
	return out
}

func snapshotDiff(before, after map[string]string) string {
	for p, b := range before {
		a, ok := after[p]
		if !ok {
			return fmt.Sprintf("node at %q is gone", asHex(p))
		}
		if a != b {
			return fmt.Sprintf("node at %q was %s, now %s", asHex(p), dumpNode(decodeNode([]byte(b))), dumpNode(decodeNode([]byte(a))))
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok {
			return fmt.Sprintf("new node at %q", asHex(p))
		}
	}
	return ""
}

// ---- workloads ----

// keySpace makes keys that share leading digits in many ways.
type keySpace struct {
	keys [][20]byte
}

func genKeys(r *Rand, n int) keySpace {
	var ks keySpace
	base := r.B20()
	style := r.N(6)
	for len(ks.keys) < n {
		k := base
		switch style {
		case 0: // random
			r.Fill(k[:])
		case 1: // a chain: each key leaves the base at another digit
			d := len(ks.keys) % 40
			setDigit(&k, d, digit(k, d)^byte(r.In(1, 15)))
			for i := d + 1; i < 40; i++ {
				setDigit(&k, i, byte(r.N(16)))
			}
		case 2: // siblings in the last digits
			for i := r.In(36, 39); i < 40; i++ {
				setDigit(&k, i, byte(r.N(16)))
			}
		case 3: // few digits in use anywhere
			for i := 0; i < r.In(1, 3); i++ {
				setDigit(&k, r.N(40), byte(r.N(3)))
			}
		case 4: // relatives of existing keys
			if len(ks.keys) > 0 {
				k = ks.keys[r.N(len(ks.keys))]
			}
			d := r.N(40)
			setDigit(&k, d, byte(r.N(16)))
			if r.Bool() {
				for i := d + 1; i < 40; i++ {
					setDigit(&k, i, byte(r.N(2)*15))
				}
			}
		default: // full fan-out at some depths
			d := choose(r, 0, 1, 19, 20, 38, 39, r.Len(39, 2))
			setDigit(&k, d, byte(len(ks.keys)))
			if r.P(1, 3) {
				setDigit(&k, 39, byte(r.N(16)))
			}
		}
		ks.keys = append(ks.keys, k)
	}
	return ks
}

func digit(k [20]byte, i int) byte {
	if i%2 == 0 {
		return k[i/2] >> 4
	}
	return k[i/2] & 15
}

func setDigit(k *[20]byte, i int, d byte) {
	if i%2 == 0 {
		k[i/2] = k[i/2]&15 | d<<4
	} else {
		k[i/2] = k[i/2]&0xf0 | d&15
	}
}

func genTreeValue(r *Rand) []byte {
	switch r.N(8) {
	case 0:
		return []byte{0}
	case 1:
		return r.Bytes(r.In(1, 3))
	case 2:
		if r.P(1, 10) {
			return r.Bytes(r.In(1000, 9000))
		}
		if r.P(1, 60) { // around what a 16-bit length holds
			return r.Bytes(choose(r, 1<<16-1, 1<<16, 1<<16+1, 1<<17))
		}
		return r.Bytes(max(1, choose(r, r.In(100, 1000), r.Len(9000, 1))))
	default:
		return append([]byte{0}, bePut(nil, r.U(64), 64)...)
	}
}

type treeOp struct {
	key   [20]byte
	value []byte // empty: delete
}

func (o treeOp) String() string { return fmt.Sprintf("put %x = %x", o.key, trimBytes(o.value, 40)) }

// nextOp chooses the next change, given the current entries.
func (ks *keySpace) nextOp(r *Rand, model map[[20]byte][]byte, shrink bool) treeOp {
	op := treeOp{key: ks.keys[r.N(len(ks.keys))]}
	old, exists := model[op.key]
	del := 3
	if shrink {
		del = 7
	}
	switch {
	case r.P(del, 10):
		if !exists && r.P(3, 4) { // prefer a key that is there
			for i := 0; i < 8; i++ {
				k := ks.keys[r.N(len(ks.keys))]
				if _, ok := model[k]; ok {
					op.key = k
					break
				}
			}
		}
		if r.Bool() {
			op.value = []byte{}
		}
	case exists && r.P(1, 3): // the same again
		op.value = append([]byte(nil), old...)
	case exists && r.P(1, 4): // almost the same
		op.value = append([]byte(nil), old...)
		i := choose(r, len(old)-1, 0, len(old)/2, r.N(len(old)))
		op.value[i] ^= 1 << r.N(8)
	case exists && r.P(1, 3):
		op.value = r.mutate(old)
	default:
		op.value = genTreeValue(r)
	}
	return op
}

// applyModel changes the entries and tells whether they changed.
func applyModel(model map[[20]byte][]byte, op treeOp) bool {
	old, exists := model[op.key]
	if len(op.value) == 0 {
		delete(model, op.key)
		return exists
	}
	model[op.key] = append([]byte(nil), op.value...)
	return !exists || !bytes.Equal(old, op.value)
}

func copyEntries(m map[[20]byte][]byte) map[[20]byte][]byte {
	out := make(map[[20]byte][]byte, len(m))
	for k, v := range m {
		out[k] = append([]byte(nil), v...)
	}
	return out
}
