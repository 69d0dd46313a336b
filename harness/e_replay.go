package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

func init() {
	register(Property{ID: "E01", Rule: "The real replay tool, run as a process on generated genesis profiles and generated exports (0 to 60 blocks of all transaction types, large blocks, the two built-in profiles), intact and with one alteration: changed amounts, hashes and bytes, exchanged, dropped and repeated blocks, invalid blocks, truncated and extended blocks, cut archives, damaged entry headers, damaged profiles. A model computes what the export adds up to. Distinct by the archive's and profile's contents.",
		Workloads: []Workload{
			{Name: "generated", Quick: 600, Thorough: 4000, Fn: e01Generated, Need: []string{"intact chains", "chains of no blocks", "altered chains refused", "transactions replayed",
				"alteration: accounts hash", "alteration: amount", "alteration: exchanged blocks", "alteration: dropped block", "alteration: repeated block", "alteration: byte", "alteration: block truncated", "alteration: block extended", "alteration: archive cut", "alteration: entry header", "alteration: invalid block", "alteration: last block", "alteration: profile", "altered at the last block", "altered at the first block", "altered in the middle"}},
			{Name: "many transactions", Quick: 2, Thorough: 8, Fn: e01ManyTxs, Need: []string{"chains over 65535 transactions", "altered far in"}},
			{Name: "many blocks", Quick: 2, Thorough: 8, Fn: e01ManyBlocks, Need: []string{"chains over 4000 blocks", "altered far in"}},
			{Name: "built in", Quick: 12, Thorough: 100, Fn: e01BuiltIn, Need: []string{"intact chains on a built-in profile", "altered chains refused on a built-in profile", "default profile"}},
			{Name: "usage", Quick: 12, Thorough: 40, Fn: e01Usage, Need: []string{"unusable arguments refused"}},
		}})
}

// export is an archive of blocks.
type export struct {
	entries  [][]byte // the manifest comes first
	headerAt []int
	raw      []byte
}

// tarEntry lays out an entry of a ustar archive.
func tarEntry(r *Rand, name string, content []byte) []byte {
	h := make([]byte, 512)
	copy(h, name)
	copy(h[100:], "0000644\x00")
	copy(h[108:], "0001750\x00")
	copy(h[116:], "0001750\x00")
	copy(h[124:], fmt.Sprintf("%011o\x00", len(content)))
	copy(h[136:], "14074223700\x00")
	copy(h[148:], "        ")
	h[156] = '0'
	if r.P(1, 3) { // what else a header says
		copy(h[100:], fmt.Sprintf("%07o", r.N(1<<12)))
		copy(h[108:], fmt.Sprintf("%07o", r.N(1<<16)))
		copy(h[116:], fmt.Sprintf("%07o", r.N(1<<16)))
		copy(h[136:], fmt.Sprintf("%011o", r.N(1<<32)))
		h[156] = choose[byte](r, '0', '0', '7', 0)
	}
	copy(h[257:], "ustar\x0000")
	copy(h[265:], "nimiq")
	copy(h[297:], "nimiq")
	copy(h[329:], "0000000\x00")
	copy(h[337:], "0000000\x00")
	sum := 0
	for _, c := range h {
		sum += int(c)
	}
	copy(h[148:], fmt.Sprintf("%06o\x00 ", sum))
	h = append(h, content...)
	for len(h)%512 != 0 {
		h = append(h, 0)
	}
	return h
}

func makeExport(r *Rand, blocks [][]byte) *export {
	e := &export{}
	m := `{"version":1,"blocks":` + strconv.Itoa(len(blocks)) + `}`
	manifest := []byte(m + strings.Repeat(" ", 1024-len(m)))
	e.entries = append([][]byte{manifest}, blocks...)
	odd := r.P(1, 3)
	for i, b := range e.entries {
		name := "manifest.json"
		if i > 0 {
			name = fmt.Sprintf("%08d.block.bin", i)
			if r.P(1, 2) {
				name = fmt.Sprintf("blocks/%d.bin", i)
			}
			if odd { // names mean nothing
				name = choose(r, "x", ".hidden", "README", "manifest.json", fmt.Sprintf("%d", len(blocks)-i), "block", "a/b/c/d.json", strings.Repeat("n", 99), fmt.Sprintf("%x", r.B20()))
			}
		}
		e.headerAt = append(e.headerAt, len(e.raw))
		e.raw = append(e.raw, tarEntry(r, name, b)...)
	}
	end := len(e.raw) + 1024
	for len(e.raw) < end || len(e.raw)%10240 != 0 && end > len(e.raw)-10240 {
		e.raw = append(e.raw, make([]byte, 512)...)
		if len(e.raw) >= end && !r.P(1, 2) {
			break
		}
	}
	return e
}

// chain is a history that adds up.
type chain struct {
	profile profileFiles
	start   ledger // after the genesis block
	blocks  []*wire.Block
	faulty  map[int]*wire.Block // blocks that do not apply at their place, with the model's reason
	reasons map[int]string
	w       *world
}

// extend adds blocks to the chain.
func (c *chain) extend(r *Rand, n int) {
	w := c.w
	for tries := 0; len(c.blocks) < n && tries < 20*n; tries++ {
		b, g := w.genWorldBlock()
		if r.P(1, 25) { // a large one
			for i := r.In(5, 400); i > 0; i-- {
				g.transfer()
			}
			b = w.finish(g)
		}
		if r.P(1, 12) && len(g.txs) > 0 { // a lot of data
			for i, x := range g.txs {
				if e, ok := x.(*wire.ExtendedTx); ok && e.Flags&1 == 0 {
					e.Data = r.Bytes(choose(r, 600, 5000, 40_000, 65_535))
					g.sign[i]()
				}
			}
			b = w.finish(g)
		}
		next, why, _ := w.model.apply(b, false)
		if why != "" {
			continue
		}
		hdr := genHeader(r)
		hdr.Height = b.Header.Height
		b.Header = hdr
		b.Interlink = *genInterlink(r, r.N(6), [32]byte{})
		_, root := refTree(next.entries())
		b.Header.AccountsHash = root

		bad := copyBlock(b)
		gb := w.newBlockGen()
		for i := range bad.Body.Txs {
			gb.txs = append(gb.txs, bad.Body.Txs[i].Tx)
			gb.sign = append(gb.sign, func() {})
			gb.kinds = append(gb.kinds, g.kinds[i])
		}
		if name := w.damage(gb, bad, nil); name != "" {
			if _, why, _ := w.model.apply(bad, false); why != "" && why != undecided && encodes(bad) {
				c.faulty[len(c.blocks)] = bad
				c.reasons[len(c.blocks)] = name + ": " + why
			}
		}
		c.blocks = append(c.blocks, b)
		w.model = next
		w.advance()
	}
}

// spoilRoot gives a block of the chain an accounts hash that is wrong.
func (c *chain) spoilRoot(r *Rand, b *wire.Block, at int) {
	h := &b.Header
	right := h.AccountsHash
	other := func(i int) [32]byte {
		if i < 0 || i >= len(c.blocks) {
			_, root := refTree(c.start.entries())
			return root
		}
		return c.blocks[i].Header.AccountsHash
	}
	switch r.N(12) {
	case 0:
		h.AccountsHash = [32]byte{}
	case 1:
		for i := range h.AccountsHash {
			h.AccountsHash[i] = 0xff
		}
	case 2, 3: // that of the block before, after or elsewhere
		h.AccountsHash = other(choose(r, at-1, at+1, -1, r.N(len(c.blocks))))
	case 4:
		h.AccountsHash = choose(r, h.PrevHash, h.BodyHash, h.InterlinkHash)
	case 5: // that of no accounts
		_, h.AccountsHash = refTree(ledger{}.entries())
	case 6:
		for i := range h.AccountsHash {
			h.AccountsHash[i] = right[31-i]
		}
	case 7: // nothing but a part of it
		n := r.N(32)
		if r.Bool() {
			copy(h.AccountsHash[n:], make([]byte, 32))
		} else {
			copy(h.AccountsHash[:n], make([]byte, 32))
		}
	case 8:
		i := r.N(32)
		h.AccountsHash[i] = ^h.AccountsHash[i]
	case 9:
		i := r.N(31)
		h.AccountsHash[i], h.AccountsHash[i+1] = h.AccountsHash[i+1], h.AccountsHash[i]
	}
	if h.AccountsHash == right {
		h.AccountsHash[r.N(32)] ^= 1 << r.N(8)
	}
}

// encodes tells whether the format can express the block.
func encodes(b *wire.Block) bool {
	if b.Body == nil {
		return true
	}
	ok := len(b.Body.Txs) < 1<<16 && len(b.Body.Pruned) < 1<<16
	for i := range b.Body.Txs {
		d := takeApart(b.Body.Txs[i].Tx)
		ok = ok && len(d.data) < 1<<16 && len(d.proof) < 1<<16
	}
	return ok
}

func newChain(r *Rand) *chain {
	for {
		w := newWorldAt(r, r.P(1, 8), uint32(choose(r, 1, 1, 1, 2, r.In(1, 50_000), r.In(1, 2_000_000))))
		c := &chain{w: w, faulty: map[int]*wire.Block{}, reasons: map[int]string{}}
		var list []listEntry
		for n := choose(r, 0, 0, 3, 50); n > 0; n-- {
			list = append(list, listEntry{genAddr(r), fromWire(genAccount(r))})
		}
		for _, a := range w.model.addresses() {
			list = append(list, listEntry{a, w.model[a]})
		}
		list = shuffled(r, list)
		w.model = ledgerOf(list)
		b, _ := w.genWorldBlock()
		hdr := genHeader(r)
		hdr.Height = b.Header.Height
		b.Header = hdr
		next, why, _ := w.model.apply(b, false)
		if why != "" {
			continue
		}
		_, b.Header.AccountsHash = refTree(next.entries())
		_, c.profile.toml = genConfig(r)
		c.profile.block, c.profile.accounts = layout(b), encodeList(list)
		w.model = next
		w.advance()
		c.start = next
		return c
	}
}

// builtInChain continues a built-in profile.
func builtInChain(r *Rand, name string) *chain {
	files := builtinFiles(name)
	list, _ := decodeList(files.accounts)
	var b wire.Block
	if err := beserial.UnmarshalFull(files.block, &b); err != nil {
		panic(err)
	}
	w := newWorldAt(r, false, b.Header.Height)
	w.model = ledgerOf(list)
	next, why, _ := w.model.apply(&b, false)
	if why != "" {
		panic(why)
	}
	w.model = next
	w.height++
	return &chain{profile: files, start: next, w: w, faulty: map[int]*wire.Block{}, reasons: map[int]string{}}
}

type verdict struct {
	ok     bool
	open   bool // the protocol leaves it open, or too costly
	why    string
	at     int // block that fails
	blocks int
	txs    int
}

// replayModel says what becomes of the blocks.
func replayModel(start ledger, blocks [][]byte) (v verdict) {
	l := start
	for i, buf := range blocks {
		v.at = i
		var b wire.Block
		if err := beserial.UnmarshalFull(buf, &b); err != nil {
			v.why = "block does not decode"
			return
		}
		if b.Header.Height > refTailStart {
			v.open = true
			return
		}
		next, why, _ := l.apply(&b, false)
		if why == undecided {
			v.open = true
			return
		}
		if why != "" {
			v.why = why
			return
		}
		if _, root := refTree(next.entries()); root != b.Header.AccountsHash {
			v.why = "accounts hash"
			return
		}
		l = next
		v.blocks++
		v.txs += len(b.Body.Txs)
	}
	v.ok = true
	return
}

var (
	blocksLine = regexp.MustCompile(`(?m)^Blocks:\s*(\d+)\s*$`)
	txsLine    = regexp.MustCompile(`(?m)^Txs:\s*(\d+)\s*$`)
)

type replayResult struct {
	failed      bool
	blocks, txs int
	shown       int // blocks mentioned
	out, err    string
}

func replay(t *T, dir string, args ...string) (res replayResult) {
	bin := os.Getenv("VMON_GIMIQ")
	if bin == "" {
		t.Inconclusive("VMON_GIMIQ is not set")
	}
	t.Logf("gimiq %v", args)
	r := execChild(dir, 100*time.Second, []string{"GOTRACEBACK=single", "GOMEMLIMIT=4GiB"}, bin, args...)
	t.Count("processes")
	if r.timeout {
		t.Failf("no progress: the tool did not end\n%s", trim(r.err, 4000))
	}
	res.failed = r.status != nil
	res.shown = strings.Count("\n"+r.out, "\nBlock ")
	res.out, res.err = trim(r.out, 2000), trim(r.err, 3000)
	num := func(re *regexp.Regexp) int {
		m := re.FindStringSubmatch(r.out)
		if m == nil {
			return -1
		}
		n, _ := strconv.Atoi(m[1])
		return n
	}
	res.blocks, res.txs = num(blocksLine), num(txsLine)
	return
}

// expect runs the tool on an archive and checks how it ends.
func (t *T) expect(dir string, raw []byte, v verdict, what string, args ...string) replayResult {
	path := filepath.Join(dir, "export.tar")
	if err := os.WriteFile(path, raw, 0644); err != nil {
		t.Inconclusive("write export: %v", err)
	}
	defer os.Remove(path)
	t.Eval()
	t.Distinct(raw, strings.Join(args, " "), what)
	res := replay(t, dir, append([]string{"-blocksPath", choose(t.R, path, "export.tar")}, args...)...)
	if v.open {
		t.Count("left open")
		return res
	}
	if v.ok {
		t.Check(!res.failed, "%s: the tool refuses a chain that adds up:\n%s\n%s", what, res.out, res.err)
		t.Check(res.blocks == v.blocks, "%s: the tool reports %d blocks, want %d\n%s", what, res.blocks, v.blocks, res.out)
		t.Check(res.txs == v.txs, "%s: the tool reports %d transactions, want %d\n%s", what, res.txs, v.txs, res.out)
		t.CountN("transactions replayed", v.txs)
		t.CountN("blocks replayed", v.blocks)
		return res
	}
	t.Check(res.failed, "%s: the tool accepts it, although block %d fails: %s\n%s", what, v.at, v.why, res.out)
	shown := res.shown
	t.Check(shown <= v.at+1, "%s: the tool went on to block %d, although block %d fails: %s\n%s", what, shown-1, v.at, v.why, res.out)
	return res
}

func encodeBlocks(blocks []*wire.Block) (out [][]byte) {
	for _, b := range blocks {
		out = append(out, layout(b))
	}
	return
}

func debugFlag(r *Rand, args ...string) []string {
	if r.P(1, 3) {
		return append(args, "-debug")
	}
	return args
}

func e01Generated(t *T) {
	r := t.R
	dir := scratch(t)
	defer os.RemoveAll(dir)
	c := newChain(r)
	n := choose(r, 0, 1, 2, 3, 5, 8, 20, r.In(0, 60), r.Len(100, 4))
	if t.Idx%40 == 7 {
		n = choose(r, 255, 256, 257, 300, 600, r.Len(700, 300))
		t.Count("chains over 254 blocks")
	}
	c.extend(r, n)
	writeProfile(t, filepath.Join(dir, "p"), c.profile)
	args := []string{"-profile", "p"}
	blocks := encodeBlocks(c.blocks)
	e := makeExport(r, blocks)
	v := replayModel(c.start, blocks)
	if !v.ok {
		t.Inconclusive("the generated chain does not add up: %+v", v)
	}
	t.Sample("%d blocks, %d transactions, %d bytes", v.blocks, v.txs, len(e.raw))
	t.expect(dir, e.raw, v, "intact chain", debugFlag(r, args...)...)
	t.Count("intact chains")
	if len(blocks) == 0 {
		t.Count("chains of no blocks")
	}
	alterations := 4
	for i := 0; i < alterations; i++ {
		c.alter(t, dir, args, e)
	}
}

func writeProfile(t *T, name string, p profileFiles) {
	for ext, b := range map[string][]byte{".toml": p.toml, ".block.bin": p.block, ".accounts.bin": p.accounts} {
		if err := os.WriteFile(name+ext, b, 0644); err != nil {
			t.Inconclusive("write profile: %v", err)
		}
	}
}

// alter damages the export in one way.
func (c *chain) alter(t *T, dir string, args []string, e *export) {
	r := t.R
	good := e.entries[1:]
	blocks := append([][]byte(nil), good...)
	what := ""
	at := -1
	pick := func() int {
		switch r.N(4) {
		case 0:
			at = len(blocks) - 1
		case 1:
			at = 0
		default:
			at = r.N(len(blocks))
		}
		return at
	}
	kind := r.N(16)
	if len(blocks) == 0 && kind < 12 {
		kind = 12 + r.N(4)
	}
	switch kind {
	case 0, 1:
		what = "accounts hash"
		b := copyBlock(c.blocks[pick()])
		b.Interlink = c.blocks[at].Interlink
		c.spoilRoot(r, b, at)
		blocks[at] = layout(b)
	case 2:
		what = "amount"
		b := copyBlock(c.blocks[pick()])
		b.Interlink = c.blocks[at].Interlink
		if len(b.Body.Txs) == 0 {
			b.Body.MinerAddr[r.N(20)] ^= 1 << r.N(8)
			what = "miner"
		} else {
			d := 1 << r.N(10)
			switch x := b.Body.Txs[r.N(len(b.Body.Txs))].Tx.(type) {
			case *wire.BasicTx:
				x.Value -= uint64(d)
			case *wire.ExtendedTx:
				x.Value -= uint64(d)
			}
		}
		blocks[at] = layout(b)
	case 3:
		what = "exchanged blocks"
		if len(blocks) < 2 {
			return
		}
		at = r.N(len(blocks) - 1)
		blocks[at], blocks[at+1] = blocks[at+1], blocks[at]
	case 4:
		what = "dropped block"
		i := pick()
		blocks = append(blocks[:i:i], blocks[i+1:]...)
	case 5:
		what = "repeated block"
		i := pick()
		blocks = append(blocks[:i+1:i+1], blocks[i:]...)
	case 6, 7:
		what = "byte"
		b := append([]byte(nil), blocks[pick()]...)
		b[r.N(len(b))] ^= 1 << r.N(8)
		blocks[at] = b
	case 8:
		what = "block truncated"
		b := blocks[pick()]
		blocks[at] = b[:choose(r, len(b)-1, r.N(len(b)), 0)]
	case 9:
		what = "block extended"
		b := append([]byte(nil), blocks[pick()]...)
		blocks[at] = append(b, r.Bytes(choose(r, 1, 1, 2, 40, len(b)))...)
	case 10:
		what = "invalid block"
		i := pick()
		if c.faulty[i] == nil {
			return
		}
		t.Logf("block %d: %s", i, c.reasons[i])
		blocks[i] = layout(c.faulty[i])
	case 11: // the last block is different from what the chain says
		what = "last block"
		b := copyBlock(c.blocks[len(c.blocks)-1])
		at = len(c.blocks) - 1
		b.Interlink = c.blocks[at].Interlink
		b.Body.MinerAddr = r.B20()
		blocks[at] = layout(b)
	case 12, 13:
		what = "archive cut"
		cut := r.N(len(e.raw))
		if r.Bool() { // near an entry
			k := r.N(len(e.entries))
			cut = e.headerAt[k] + choose(r, 0, 1, 100, 511, 512, 513, 512+len(e.entries[k])-1, 512+len(e.entries[k]))
			cut = max(0, min(cut, len(e.raw)-1))
		}
		e.cut(t, c, dir, args, cut)
		t.Count("alteration: " + what)
		return
	case 14:
		what = "entry header"
		raw := append([]byte(nil), e.raw...)
		k := r.N(len(e.entries))
		i := r.N(512)
		for i >= 148 && i < 156 {
			i = r.N(512)
		}
		raw[e.headerAt[k]+i] ^= 1 << r.N(8)
		v := verdict{why: "damaged entry header", at: max(0, k-1)}
		t.expect(dir, raw, v, fmt.Sprintf("byte %d of the header of entry %d of %d changed", i, k, len(e.entries)), debugFlag(r, args...)...)
		t.Count("alteration: " + what)
		t.Count("altered chains refused")
		return
	default:
		what = "profile"
		c.damageProfile(t, dir, e)
		t.Count("alteration: " + what)
		return
	}
	v := replayModel(c.start, blocks)
	switch what {
	case "block truncated", "block extended", "accounts hash":
		// Whatever the decoder thinks.
		v = verdict{why: what, at: at}
	}
	if v.ok && len(blocks) == len(good) && !bytes.Equal(bytes.Join(blocks, nil), bytes.Join(good, nil)) {
		t.Count("alteration without effect on the accounts")
	}
	name := fmt.Sprintf("%s, at block %d of %d", what, at, len(good))
	t.expect(dir, makeExport(r, blocks).raw, v, name, debugFlag(r, args...)...)
	if what == "miner" {
		what = "amount"
	}
	t.Count("alteration: " + what)
	if !v.ok && !v.open {
		t.Count("altered chains refused")
		t.Count("refused: " + v.why)
		switch {
		case v.at == len(good)-1 && v.at > 0:
			t.Count("altered at the last block")
		case v.at == 0:
			t.Count("altered at the first block")
		default:
			t.Count("altered in the middle")
		}
	}
}

// cut truncates the archive. Inside a header or a block this is damage.
// Between blocks, the tool cannot know, but has to report what it saw.
func (e *export) cut(t *T, c *chain, dir string, args []string, cut int) {
	name := fmt.Sprintf("archive cut at byte %d of %d", cut, len(e.raw))
	whole := 0
	for k := range e.entries {
		from := e.headerAt[k]
		data := from + 512
		to := data + len(e.entries[k])
		if cut > from && cut < data || cut >= data && cut < to {
			v := verdict{why: "cut inside an entry", at: max(0, k-1)}
			t.expect(dir, e.raw[:cut], v, name, debugFlag(t.R, args...)...)
			t.Count("altered chains refused")
			t.Count("archive cut inside an entry")
			return
		}
		if cut >= to && k > 0 {
			whole = k
		}
	}
	v := replayModel(c.start, e.entries[1:1+whole])
	open := v
	open.open = true
	res := t.expect(dir, e.raw[:cut], open, name, args...)
	if !res.failed {
		t.Check(res.blocks == v.blocks && res.txs == v.txs, "%s: the tool reports %d blocks and %d transactions, want %d and %d", name, res.blocks, res.txs, v.blocks, v.txs)
		t.Count("archive cut between entries")
	}
}

// damageProfile changes the account list of the profile.
func (c *chain) damageProfile(t *T, dir string, e *export) {
	r := t.R
	bad := c.profile
	list, _ := decodeList(bad.accounts)
	what := "account added to the profile"
	var b wire.Block
	if err := beserial.UnmarshalFull(bad.block, &b); err != nil {
		t.Inconclusive("genesis block: %v", err)
	}
	switch r.N(3) {
	case 0:
		list = append(list, listEntry{r.B20(), rAcc{value: uint64(r.In(1, 1000))}})
		bad.accounts = encodeList(list)
	case 1:
		if len(list) == 0 {
			return
		}
		k := r.N(len(list))
		list = append(list[:k:k], list[k+1:]...)
		what = "account of the profile dropped"
		bad.accounts = encodeList(list)
	default:
		b.Header.AccountsHash[r.N(32)] ^= 1 << r.N(8)
		bad.block = layout(&b)
		what = "accounts hash of the genesis block changed"
	}
	next, why, _ := ledgerOf(list).apply(&b, false)
	v := verdict{why: "genesis"}
	if why == undecided {
		return
	}
	if _, root := refTree(next.entries()); why == "" && root == b.Header.AccountsHash {
		return // a repeated address
	}
	writeProfile(t, filepath.Join(dir, "q"), bad)
	t.expect(dir, e.raw, v, what, "-profile", "q")
	t.Count("altered chains refused")
}

func e01BuiltIn(t *T) {
	r := t.R
	dir := scratch(t)
	defer os.RemoveAll(dir)
	name := []string{"test", "main"}[t.Idx%2]
	c := builtInChain(r, name)
	c.extend(r, choose(r, 1, 3, 10, r.In(1, 30)))
	args := []string{"-profile", name}
	if name == "test" && t.Idx%4 == 0 {
		args = nil
		t.Count("default profile")
	}
	blocks := encodeBlocks(c.blocks)
	v := replayModel(c.start, blocks)
	t.expect(dir, makeExport(r, blocks).raw, v, "intact chain on "+name, args...)
	t.Count("intact chains on a built-in profile")
	at := r.N(len(blocks))
	b := copyBlock(c.blocks[at])
	b.Interlink = c.blocks[at].Interlink
	b.Body.MinerAddr[0] ^= 1
	blocks[at] = layout(b)
	v = replayModel(c.start, blocks)
	t.expect(dir, makeExport(r, blocks).raw, v, "another miner on "+name, args...)
	if !v.ok && !v.open {
		t.Count("altered chains refused on a built-in profile")
	}
	// The chain does not belong to the other network.
	other := []string{"main", "test"}[t.Idx%2]
	t.expect(dir, makeExport(r, encodeBlocks(c.blocks)).raw, verdict{why: "chain of another network"}, "chain of "+name+" on "+other, "-profile", other)
}

// smallChain has one rich account and a miner.
func smallChain(r *Rand) (c *chain, from *actor) {
	for {
		w := newWorldAt(r, false, uint32(r.In(1, 3000)))
		from = genActor(r)
		for !from.single() {
			from = genActor(r)
		}
		list := []listEntry{{from.addr, rAcc{value: 1 << 40}}}
		w.model = ledgerOf(list)
		b := &wire.Block{Header: genHeader(r), Body: &wire.BlockBody{MinerAddr: r.B20()}}
		b.Header.Height = w.height
		next, why, _ := w.model.apply(b, false)
		if why != "" {
			continue
		}
		_, b.Header.AccountsHash = refTree(next.entries())
		c = &chain{w: w, start: next, faulty: map[int]*wire.Block{}, reasons: map[int]string{}}
		_, c.profile.toml = genConfig(r)
		c.profile.block, c.profile.accounts = layout(b), encodeList(list)
		w.model = next
		w.height++
		return c, from
	}
}

// addBlock appends a block that applies.
func (c *chain) addBlock(t *T, b *wire.Block) {
	next, why, _ := c.w.model.apply(b, false)
	if why != "" {
		t.Inconclusive("a block of a small chain does not apply: %s", why)
	}
	_, b.Header.AccountsHash = refTree(next.entries())
	c.blocks = append(c.blocks, b)
	c.w.model = next
	c.w.height++
}

// e01ManyTxs replays more transactions than fit into 16 bits.
func e01ManyTxs(t *T) {
	r := t.R
	dir := scratch(t)
	defer os.RemoveAll(dir)
	c, from := smallChain(r)
	var payees [5][20]byte
	for i := range payees {
		payees[i] = r.B20()
	}
	for _, n := range []int{r.In(32_760, 40_000), r.In(32_770, 40_000), r.In(1, 300)} {
		b := &wire.Block{Header: genHeader(r), Body: &wire.BlockBody{MinerAddr: choose(r, payees[0], r.B20())}}
		b.Header.Height = c.w.height
		for i := 0; i < n; i++ {
			x := &wire.BasicTx{Recipient: payees[r.N(5)], Value: uint64(r.N(3)), Fee: uint64(r.N(2)), ValidityStartHeight: c.w.height, NetworkID: 42}
			copy(x.SenderPubKey[:], from.key[32:])
			r.Fill(x.Signature[:])
			b.Body.Txs = append(b.Body.Txs, wire.WrapTx{Tx: x})
		}
		c.addBlock(t, b)
	}
	writeProfile(t, filepath.Join(dir, "p"), c.profile)
	blocks := encodeBlocks(c.blocks)
	v := replayModel(c.start, blocks)
	if !v.ok {
		t.Inconclusive("the generated chain does not add up: %+v", v)
	}
	t.expect(dir, makeExport(r, blocks).raw, v, "intact chain of many transactions", "-profile", "p")
	t.Count("chains over 65535 transactions")
	t.Sample("%d transactions in %d blocks", v.txs, v.blocks)
	for k := 0; k < 4; k++ { // the second block holds the transaction that makes it 2^16
		at := choose(r, 1, 1, 2)
		b := *c.blocks[at]
		body := *b.Body
		body.Txs = append([]wire.WrapTx(nil), body.Txs...)
		i := choose(r, len(body.Txs)-1, r.N(len(body.Txs)), 0)
		x := *body.Txs[i].Tx.(*wire.BasicTx)
		x.Value = 1 << 41
		body.Txs[i].Tx, b.Body = &x, &body
		changed := append([][]byte(nil), blocks...)
		changed[at] = layout(&b)
		v := replayModel(c.start, changed)
		t.expect(dir, makeExport(r, changed).raw, v, fmt.Sprintf("transaction %d of block %d cannot be paid", i, at), "-profile", "p")
		if !v.ok {
			t.Count("altered far in")
		}
	}
}

// e01ManyBlocks replays long chains that fail at round numbers.
func e01ManyBlocks(t *T) {
	r := t.R
	dir := scratch(t)
	defer os.RemoveAll(dir)
	c, from := smallChain(r)
	n := 4100 + r.N(200)
	miner := r.B20()
	for i := 0; i < n; i++ {
		b := &wire.Block{Header: genHeader(r), Body: &wire.BlockBody{MinerAddr: miner}}
		b.Header.Height = c.w.height
		if r.P(1, 20) {
			x := &wire.BasicTx{Recipient: miner, Value: uint64(r.N(3)), ValidityStartHeight: c.w.height}
			copy(x.SenderPubKey[:], from.key[32:])
			b.Body.Txs = append(b.Body.Txs, wire.WrapTx{Tx: x})
		}
		c.addBlock(t, b)
	}
	writeProfile(t, filepath.Join(dir, "p"), c.profile)
	blocks := encodeBlocks(c.blocks)
	v := replayModel(c.start, blocks)
	if !v.ok {
		t.Inconclusive("the generated chain does not add up: %+v", v)
	}
	t.expect(dir, makeExport(r, blocks).raw, v, "intact chain of many blocks", "-profile", "p")
	t.Count("chains over 4000 blocks")
	t.Sample("%d transactions in %d blocks", v.txs, v.blocks)
	base := []int{10, 16, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 2500, 3000, 4000, 4096, n}
	for k := 0; k < 24; k++ {
		at := base[(t.Idx+k)%len(base)] + r.In(-1, 1)
		if k >= len(base) {
			at = n - 1 - r.N(4)
		}
		if at >= n {
			at = n - 1
		}
		b := *c.blocks[at]
		c.spoilRoot(r, &b, at)
		changed := append([][]byte(nil), blocks[:at]...)
		changed = append(changed, layout(&b))
		v := verdict{why: "accounts hash", at: at, blocks: at}
		if r.Bool() { // the end of the chain, or not
			changed = append(changed, blocks[at+1:min(n, at+1+r.N(40))]...)
		}
		t.expect(dir, makeExport(r, changed).raw, v, fmt.Sprintf("block %d has another accounts hash", at), "-profile", "p")
		t.Count("altered far in")
	}
}

// e01Usage gives the tool nothing it can work with.
func e01Usage(t *T) {
	r := t.R
	dir := scratch(t)
	defer os.RemoveAll(dir)
	good := makeExport(r, nil)
	if err := os.WriteFile(filepath.Join(dir, "empty.tar"), good.raw, 0644); err != nil {
		t.Inconclusive("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "junk.tar"), bytes.Repeat([]byte(fmt.Sprintf("no archive %x ", r.Uint64())), 40), 0644); err != nil {
		t.Inconclusive("%v", err)
	}
	args := [][]string{
		{}, {"-profile", "test"}, {"-blocksPath", "missing.tar"}, {"-blocksPath", "empty.tar", "-profile", "missing"},
		{"-blocksPath", "junk.tar"}, {"-blocksPath", "."}, {"-blocksPath", ""}, {"-blocksPath", "empty.tar", "-profile", ""},
	}[t.Idx%8]
	t.Eval()
	t.Distinct(strings.Join(args, " "))
	res := replay(t, dir, args...)
	t.Check(res.failed, "the tool reports success, called with %v\n%s", args, res.out)
	t.Count("unusable arguments refused")
}
