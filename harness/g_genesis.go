package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/wire"
)

func init() {
	children["genesis-load"] = childGenesisLoad
	children["genesis-damage"] = childGenesisDamage
	register(Property{ID: "G01", Rule: "The two built-in profiles, compared with golden copies of their files, and generated profiles (configuration values, account lists of all types with repeated addresses, genesis blocks with transactions) opened from a scratch directory; distinct by the files' contents.",
		Workloads: []Workload{
			{Name: "builtin", Quick: 4, Thorough: 4, Fn: g01Builtin, Need: []string{"built-in profiles"}},
			{Name: "profiles", Quick: 100, Thorough: 2000, Fn: g01Profiles, Need: []string{"profiles loaded", "profiles initialised", "profiles with transactions", "profiles with repeated addresses", "profiles over 32768 accounts", "profiles opened again", "opened without a trace", "profiles with the genesis hash of another", "seed entries", "genesis hashes"}},
		}})
	register(Property{ID: "G02", Rule: "Single-byte changes (every byte of the test network's account list and block in turn), truncations, extensions, removed files and re-encoded lists with altered, dropped, added and exchanged entries; a model computes the state root the files lead to; distinct by the damage.",
		Workloads: []Workload{
			{Name: "test bytes", Quick: 120, Thorough: 480, Fn: g02Test, Need: []string{"refused"}},
			{Name: "main bytes", Quick: 16, Thorough: 800, Fn: g02Main, Need: []string{"refused"}},
			{Name: "profiles", Quick: 120, Thorough: 2000, Fn: g02Profiles, Need: []string{"refused", "accepted as consistent", "truncated", "extended", "missing files", "lists altered", "lists shortened", "lists extended", "accounts hash changed", "another root", "configurations damaged"}},
		}})
}

func scratch(t *T) string {
	dir, err := os.MkdirTemp("", "vmon")
	if err != nil {
		t.Inconclusive("scratch directory: %v", err)
	}
	return dir
}

func inScratch(t *T, name string, args ...interface{}) {
	dir := scratch(t)
	defer os.RemoveAll(dir)
	res := t.runChild(dir, name, args...)
	if name == "shared-reads" || name == "independent" {
		// They say themselves what was distinct.
		// Another process does the same calls alone and in reverse order, so that nothing remembered can make the results agree.
		for key, alone := range t.runChild(dir, name, append(args, "alone")...) {
			if v, ok := res[key]; ok {
				t.Check(v == alone, "%s returned %s among others, but %s in a process of its own", key, v, alone)
				t.Count("results compared with another process")
			}
		}
		return
	}
	t.Distinct(append([]interface{}{name}, args...)...)
}

func g01Builtin(t *T)  { inScratch(t, "genesis-load", t.Seed, t.Idx, "builtin") }
func g01Profiles(t *T) { inScratch(t, "genesis-load", t.Seed, t.Idx, "custom") }
func g02Test(t *T)     { inScratch(t, "genesis-damage", t.Seed, t.Idx, "test") }
func g02Main(t *T)     { inScratch(t, "genesis-damage", t.Seed, t.Idx, "main") }
func g02Profiles(t *T) { inScratch(t, "genesis-damage", t.Seed, t.Idx, "custom") }

// profileFiles is a profile as bytes.
type profileFiles struct {
	toml, block, accounts []byte
}

func (p *profileFiles) write(c *child, name string) {
	if d := filepath.Dir(name); d != "." {
		_ = os.MkdirAll(d, 0755)
	}
	for ext, b := range map[string][]byte{".toml": p.toml, ".block.bin": p.block, ".accounts.bin": p.accounts} {
		if b == nil {
			_ = os.Remove(name + ext)
			continue
		}
		if err := os.WriteFile(name+ext, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, "write profile:", err)
			os.Exit(2)
		}
	}
}

func builtinFiles(name string) profileFiles {
	return profileFiles{toml: golden(name + ".toml"), block: golden(name + ".block.bin"), accounts: golden(name + ".accounts.bin")}
}

// listEntry is an entry of the account list.
type listEntry struct {
	addr [20]byte
	acc  rAcc
}

func encodeList(list []listEntry) []byte {
	b := bePut(nil, uint64(len(list)), 16)
	for _, e := range list {
		b = append(b, e.addr[:]...)
		b = append(b, e.acc.bytes()...)
	}
	return b
}

func decodeList(b []byte) (list []listEntry, ok bool) {
	if len(b) < 2 {
		return nil, false
	}
	n := int(b[0])<<8 | int(b[1])
	b = b[2:]
	for ; n > 0; n-- {
		var e listEntry
		if len(b) < 21 {
			return nil, false
		}
		copy(e.addr[:], b)
		size := map[byte]int{0: 9, 1: 53, 2: 95}[b[20]]
		if size == 0 || len(b) < 20+size {
			return nil, false
		}
		if e.acc, ok = accFromBytes(b[20 : 20+size]); !ok {
			return nil, false
		}
		b = b[20+size:]
		list = append(list, e)
	}
	return list, len(b) == 0
}

func ledgerOf(list []listEntry) ledger {
	l := ledger{}
	for _, e := range list {
		l.put(e.addr, e.acc)
	}
	return l
}

// refConfig is a configuration.
type refConfig struct {
	network      uint8
	name         string
	peers, lists []string
	hash         [32]byte
}

// parseGolden reads the simple files of the built-in profiles.
func parseGolden(b []byte) (c refConfig) {
	var list *[]string
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSuffix(strings.TrimSpace(line), ",")
		if list != nil {
			if line == "]" {
				list = nil
			} else if s, err := strconv.Unquote(line); err == nil {
				*list = append(*list, s)
			}
			continue
		}
		k, v, _ := strings.Cut(line, " = ")
		switch k {
		case "network_id":
			n, _ := strconv.Atoi(v)
			c.network = uint8(n)
		case "name":
			c.name, _ = strconv.Unquote(v)
		case "seed_peers":
			list = &c.peers
		case "seed_lists":
			list = &c.lists
		case "genesis_hash":
			s, _ := strconv.Unquote(v)
			h, _ := hex.DecodeString(s)
			copy(c.hash[:], h)
		}
	}
	return
}

func genText(r *Rand) string {
	const chars = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 :/.-_#=[]{}',?&%~äΩ"
	all := []rune(chars)
	s := ""
	for n := choose(r, 0, 1, 5, 20, 100); n > 0; n-- {
		s += string(all[r.N(len(all))])
	}
	return s
}

func genConfig(r *Rand) (c refConfig, text []byte) {
	c.network = uint8(r.U(8))
	c.name = genText(r)
	for n := choose(r, 0, 1, 3, 20); n > 0; n-- {
		c.peers = append(c.peers, genText(r))
	}
	for n := choose(r, 0, 1, 3, 20); n > 0; n-- {
		c.lists = append(c.lists, genText(r))
	}
	r.Fill(c.hash[:])
	arr := func(items []string) string {
		sep, end := ", ", ""
		if r.Bool() {
			sep, end = ",\n  ", "\n"
		}
		var q []string
		for _, s := range items {
			q = append(q, `"`+s+`"`)
		}
		return "[" + end + strings.Join(q, sep) + end + "]"
	}
	h := hex.EncodeToString(c.hash[:])
	if r.P(1, 4) {
		h = strings.ToUpper(h)
	}
	lines := []string{
		fmt.Sprintf("network_id = %d", c.network), fmt.Sprintf("name = \"%s\"", c.name),
		"seed_peers = " + arr(c.peers), "seed_lists = " + arr(c.lists), fmt.Sprintf("genesis_hash = \"%s\"", h),
	}
	if r.P(1, 3) { // left out
		i := r.N(len(lines))
		lines = append(lines[:i:i], lines[i+1:]...)
		switch i {
		case 0:
			c.network = 0
		case 1:
			c.name = ""
		case 2:
			c.peers = nil
		case 3:
			c.lists = nil
		case 4:
			c.hash = [32]byte{}
		}
	}
	if r.P(1, 4) {
		lines = append(lines, "# remark")
	}
	return c, []byte(strings.Join(shuffled(r, lines), "\n") + "\n")
}

// genProfile makes a consistent profile.
func genProfile(r *Rand) (p profileFiles, conf refConfig, list []listEntry, b *wire.Block, after ledger) {
	many := r.large
	r.large = false // ordinary blocks
	for {
		conf, p.toml = genConfig(r)
		w := newWorldAt(r, r.P(1, 8), uint32(choose(r, 1, 1, 1, 2, r.In(1, 50_000))))
		list = nil
		entries := choose(r, 0, 0, 3, 50, 300, r.Len(300, 4))
		if many {
			entries = choose(r, 255, 256, 1000, 2500, r.Len(3000, 255))
		}
		if r.huge {
			entries, r.huge = r.In(33_000, 64_000), false
		}
		for n := entries; n > 0; n-- {
			list = append(list, listEntry{genAddr(r), fromWire(genAccount(r))})
		}
		for _, a := range w.model.addresses() {
			list = append(list, listEntry{a, w.model[a]})
		}
		list = shuffled(r, list)
		if r.P(1, 3) { // the last one counts
			for n := r.In(1, 4); n > 0 && len(list) > 0; n-- {
				list = append(list, listEntry{list[r.N(len(list))].addr, fromWire(genAccount(r))})
			}
		}
		if r.P(1, 4) {
			list = append(list, listEntry{r.B20(), rAcc{}})
		}
		w.model = ledgerOf(list)
		b, _ = w.genWorldBlock()
		b.Interlink = *genInterlink(r, r.N(6), [32]byte{})
		hdr := genHeader(r)
		hdr.Height = b.Header.Height
		b.Header = hdr
		next, why, _ := w.model.apply(b, false)
		if why != "" {
			continue
		}
		_, root := refTree(next.entries())
		b.Header.AccountsHash = root
		p.block, p.accounts = layout(b), encodeList(list)
		// The interlink is stored relative to the previous block's hash, so take what the bytes say.
		return p, conf, list, b, next
	}
}

// open opens a profile. A panic is a violation.
func openProfile(c *child, name string) (p *genesis.Profile, err error) {
	if pan := try(func() { p, err = genesis.OpenProfile(name) }); pan != "" {
		c.Failf("OpenProfile(%q): %s", name, pan)
	}
	if err == nil && p == nil {
		c.Failf("OpenProfile(%q) gives nothing", name)
	}
	if f := leftOpen(); f != "" {
		c.Failf("OpenProfile(%q) has left %s open, its error is %v", name, f, err)
	}
	c.counts["opened without a trace"]++
	return
}

// leftOpen names a file of the working directory that this process has open.
func leftOpen() string {
	dir, err := os.Getwd()
	if err != nil {
		return ""
	}
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		to, err := os.Readlink("/proc/self/fd/" + fd.Name())
		if err == nil && strings.HasPrefix(to, dir+"/") {
			return to
		}
	}
	return ""
}

// spoilProfile changes a profile that was opened, which is the caller's.
func spoilProfile(r *Rand, p *genesis.Profile) {
	if r.Bool() {
		p.Config.NetworkID++
		p.Config.Name += "!"
		p.Config.GenesisHash[31]++
		for _, l := range [][]string{p.Config.SeedPeers, p.Config.SeedLists} {
			for i := range l {
				l[i] = "spoiled"
			}
		}
	}
	if r.Bool() {
		p.Block.Header.Height += 3
		if p.Block.Body != nil {
			p.Block.Body.MinerAddr[0]++
			p.Block.Body.Txs = nil
		}
	}
	if r.Bool() {
		for i := range p.Accounts {
			p.Accounts[i].Address[19]++
			overwriteAccount(p.Accounts[i].Account.Account)
		}
	}
}

func initProfile(c *child, r *Rand, p *genesis.Profile) (in *instance, err error) {
	in = newInstance(r)
	if pan := try(func() { err = p.InitAccounts(in.acc) }); pan != "" {
		c.Failf("InitAccounts: %s", pan)
	}
	return
}

func (c *child) checkConfig(name string, got *genesis.Config, want refConfig) {
	c.Check(got != nil, "profile %s has no configuration", name)
	eq := func(a, b []string) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	c.Check(got.NetworkID == want.network && got.Name == want.name && eq(got.SeedPeers, want.peers) && eq(got.SeedLists, want.lists) && got.GenesisHash == want.hash,
		"the configuration of profile %s is %+v, want %+v", name, *got, want)
	c.counts["seed entries"] += len(want.peers) + len(want.lists)
	if want.hash != [32]byte{} {
		c.counts["genesis hashes"]++
	}
}

func (c *child) checkProfile(r *Rand, name string, files profileFiles, conf refConfig) {
	least := 0
	if c.args[2] == "builtin" {
		least = 2 + r.N(3)
	}
	for ; least > 0 || r.P(1, 2); least-- { // what was opened before, and what became of it, makes no difference
		if p, err := openProfile(c, name); err == nil {
			spoilProfile(r, p)
			c.counts["profiles opened again"]++
		}
	}
	p, err := openProfile(c, name)
	c.Check(err == nil, "profile %s does not open: %v", name, err)
	c.checkConfig(name, p.Config, conf)
	list, ok := decodeList(files.accounts)
	if !ok {
		fmt.Fprintln(os.Stderr, "bad list")
		os.Exit(2)
	}
	c.Check(len(p.Accounts) == len(list), "profile %s has %d accounts, want %d", name, len(p.Accounts), len(list))
	for i, e := range list {
		a := p.Accounts[i]
		c.Check(a.Address == e.addr && fromWire(a.Account.Account) == e.acc, "account %d of profile %s is %x %v, want %x %v", i, name, a.Address, fromWire(a.Account.Account), e.addr, e.acc)
	}
	c.Check(bytes.Equal(layout(&p.Block), files.block), "the block of profile %s is %x, want %x", name, layout(&p.Block), files.block)
	c.counts["profiles loaded"]++
	next, why, _ := ledgerOf(list).apply(&p.Block, false)
	c.Check(why == "", "the model refuses the block of profile %s: %s", name, why)
	for i := 0; i < 2; i++ { // twice, a profile is not used up
		in, err := initProfile(c, r, p)
		c.Check(err == nil, "profile %s does not initialise: %v\n%s", name, err, dumpBlock(&p.Block))
		if d := in.differs(next); d != "" {
			c.Failf("profile %s: %s", name, d)
		}
		for _, addr := range next.addresses() {
			a := addr
			c.Check(fromWire(in.acc.GetAccount(&a)) == next[addr], "profile %s: account %x is %v, want %v", name, addr, fromWire(in.acc.GetAccount(&a)), next[addr])
		}
	}
	c.counts["profiles initialised"]++
	if len(p.Block.Body.Txs) > 0 {
		c.counts["profiles with transactions"]++
	}
	if len(ledgerOf(list)) < len(list) {
		c.counts["profiles with repeated addresses"]++
	}
}

func childGenesisLoad(c *child) {
	r := newRand(c.num(0), "genesis-load", c.args[2], int(c.num(1)))
	ledgerReward = smallReward
	if c.args[2] == "builtin" {
		name := []string{"test", "main"}[c.num(1)%2]
		if c.num(1) >= 2 { // files of the same name do not matter
			p, _, _, _, _ := genProfile(r)
			p.write(c, name)
		}
		c.checkProfile(r, name, builtinFiles(name), parseGolden(golden(name+".toml")))
		// The same files from the working directory.
		files := builtinFiles(name)
		files.write(c, "copy")
		c.checkProfile(r, "copy", files, parseGolden(golden(name+".toml")))
		c.counts["built-in profiles"]++
		return
	}
	var lastP profileFiles
	var lastConf refConfig
	for i := 0; i < 10; i++ {
		r.large = i == 9 && c.num(1)%4 == 0
		r.huge = i == 9 && c.num(1)%20 == 4
		p, conf, list, _, _ := genProfile(r)
		if len(list) > 1<<15 {
			c.counts["profiles over 32768 accounts"]++
		}
		if i > 0 { // profiles that agree in a part are different profiles
			switch r.N(6) {
			case 0:
				p.toml, conf = lastP.toml, lastConf
				c.counts["profiles with the configuration of another"]++
			case 1:
				p.block, p.accounts = lastP.block, lastP.accounts
			case 2:
				if lastConf.hash != [32]byte{} && conf.hash != [32]byte{} {
					text := strings.NewReplacer(hex.EncodeToString(conf.hash[:]), hex.EncodeToString(lastConf.hash[:]),
						strings.ToUpper(hex.EncodeToString(conf.hash[:])), hex.EncodeToString(lastConf.hash[:])).Replace(string(p.toml))
					p.toml, conf.hash = []byte(text), lastConf.hash
					c.counts["profiles with the genesis hash of another"]++
				}
			}
		}
		lastP, lastConf = p, conf
		name := choose(r, "custom", "dir/custom", "main2", "a.b", "Test", "dir/main", "dir/test", "test/main", "main.d/test", fmt.Sprint("p", i))
		p.write(c, name)
		c.checkProfile(r, name, p, conf)
	}
}

// smallReward is the block reward for heights that are not far into the schedule.
func smallReward(h uint64) uint64 { return refRewardAt(refSmallSupply(h-1), h) }

// judge opens and initialises a profile that may be damaged.
// The result has to be refused unless the files still agree with each other.
func (c *child) judge(r *Rand, files profileFiles, what string) bool {
	p, err := openProfile(c, "x")
	if err != nil {
		c.counts["refused"]++
		return false
	}
	list, ok := decodeList(files.accounts)
	c.Check(ok, "%s: the profile opens, although its account list does not decode: %x", what, trimBytes(files.accounts, 300))
	if p.Block.Header.Height > 100_000 {
		c.counts["skipped"]++
		return true
	}
	ok = len(p.Accounts) == len(list)
	for i := 0; ok && i < len(list); i++ {
		ok = p.Accounts[i].Address == list[i].addr && fromWire(p.Accounts[i].Account.Account) == list[i].acc
	}
	c.Check(ok, "%s: the profile opens, but its accounts are not those of the file", what)
	next, why, _ := ledgerOf(list).apply(&p.Block, false)
	if why == undecided {
		return true
	}
	_, root := refTree(next.entries())
	_, err = initProfile(c, r, p)
	if err != nil {
		c.counts["refused"]++
		return false
	}
	c.Check(why == "", "%s: the profile initialises, although %s", what, why)
	c.Check(root == p.Block.Header.AccountsHash, "%s: the profile initialises, although its accounts lead to root %x and the block says %x", what, root, p.Block.Header.AccountsHash)
	c.counts["accepted as consistent"]++
	return true
}

func (c *child) refuse(r *Rand, files profileFiles, what string) {
	if c.judge(r, files, what) {
		c.Failf("%s: the profile is accepted", what)
	}
}

func childGenesisDamage(c *child) {
	r := newRand(c.num(0), "genesis-damage", c.args[2], int(c.num(1)))
	ledgerReward = smallReward
	idx := int(c.num(1))
	switch mode := c.args[2]; mode {
	case "test", "main":
		good := builtinFiles(mode)
		good.write(c, "x")
		if !c.judge(r, good, "undamaged") {
			c.Failf("the undamaged profile is refused")
		}
		total := len(good.accounts) + len(good.block)
		step := 120
		if mode == "main" {
			step = 800
		}
		for pos := idx % step; pos < total; pos += step {
			bad := good
			old := byte(0)
			change := func(b []byte, i int) []byte {
				out := append([]byte(nil), b...)
				old = out[i]
				if out[i] ^= 1 << r.N(8); r.P(1, 3) {
					out[i] = old + byte(r.In(1, 255))
				}
				return out
			}
			var what string
			if pos < len(good.accounts) {
				bad.accounts = change(good.accounts, pos)
				what = fmt.Sprintf("byte %d of the account list of %s changed from %#x to %#x", pos, mode, old, bad.accounts[pos])
			} else {
				i := pos - len(good.accounts)
				bad.block = change(good.block, i)
				what = fmt.Sprintf("byte %d of the block of %s changed from %#x to %#x", i, mode, old, bad.block[i])
			}
			bad.write(c, "x")
			if pos < len(good.accounts) {
				c.refuse(r, bad, what)
			} else {
				c.judge(r, bad, what)
			}
			c.counts["bytes changed"]++
		}
	default:
		for i := 0; i < 4; i++ {
			childDamageProfile(c, r)
		}
	}
}

func childDamageProfile(c *child, r *Rand) {
	good, _, list, b, _ := genProfile(r)
	good.write(c, "x")
	if !c.judge(r, good, "undamaged") {
		c.Failf("the undamaged profile is refused")
	}
	if r.P(1, 3) {
		hashLengths(c, r, good)
	}
	for i := 0; i < 25; i++ {
		bad := good
		refuse := false
		what := ""
		l := append([]listEntry(nil), list...)
		switch r.N(13) {
		case 0, 1:
			which := &bad.block
			what = "block"
			if r.Bool() {
				which, what = &bad.accounts, "account list"
			}
			*which = (*which)[:r.N(len(*which))]
			if len(*which) == 0 {
				*which = []byte{}
			}
			what += fmt.Sprintf(" truncated to %d bytes", len(*which))
			refuse = true
			c.counts["truncated"]++
		case 2:
			which := &bad.block
			what = "block extended"
			if r.Bool() {
				which, what = &bad.accounts, "account list extended"
			}
			*which = append(append([]byte(nil), *which...), r.Bytes(choose(r, 1, 1, 2, 30))...)
			refuse = true
			c.counts["extended"]++
		case 3:
			switch r.N(3) {
			case 0:
				bad.block, what = nil, "block file missing"
			case 1:
				bad.accounts, what = nil, "account file missing"
			default:
				bad.toml, what = nil, "configuration missing"
			}
			refuse = true
			c.counts["missing files"]++
		case 4:
			if len(l) == 0 {
				continue
			}
			e := &l[r.N(len(l))]
			switch r.N(3) {
			case 0:
				e.addr[r.N(20)] ^= 1 << r.N(8)
			case 1:
				e.acc.value ^= 1 << r.N(64)
			default:
				acc := e.acc.wire()
				scribbleAccount(r, acc)
				e.acc = fromWire(acc)
			}
			bad.accounts = encodeList(l)
			what = "entry altered"
			c.counts["lists altered"]++
		case 5:
			if len(l) == 0 {
				continue
			}
			k := r.N(len(l))
			l = append(l[:k:k], l[k+1:]...)
			bad.accounts = encodeList(l)
			what = "entry dropped"
			c.counts["lists shortened"]++
		case 6:
			l = append(l, listEntry{genAddr(r), fromWire(genAccount(r))})
			if r.P(1, 4) {
				l[len(l)-1] = l[r.N(len(l))]
			}
			bad.accounts = encodeList(l)
			what = "entry added"
			c.counts["lists extended"]++
		case 7:
			if len(l) < 2 {
				continue
			}
			j, k := r.N(len(l)), r.N(len(l))
			if r.Bool() {
				l[j].acc, l[k].acc = l[k].acc, l[j].acc
			} else {
				l[j], l[k] = l[k], l[j]
			}
			bad.accounts = encodeList(l)
			what = "entries exchanged"
			c.counts["lists altered"]++
		case 8:
			x := copyBlock(b)
			x.Interlink = b.Interlink
			x.Header.AccountsHash[r.N(32)] ^= 1 << r.N(8)
			if r.P(1, 6) {
				x.Header.AccountsHash = [32]byte{}
			}
			if r.P(1, 4) { // a root that turns up elsewhere
				_, empty := refTree(nil)
				_, list := refTree(ledgerOf(l).entries())
				x.Header.AccountsHash = choose(r, list, list, empty, b.Header.PrevHash, b.Header.BodyHash, b.Header.InterlinkHash)
				c.counts["another root"]++
			}
			if x.Header.AccountsHash == b.Header.AccountsHash {
				continue
			}
			bad.block = layout(x)
			what = "accounts hash changed"
			refuse = true
			c.counts["accounts hash changed"]++
		case 9:
			bad.block = append([]byte(nil), bad.block...)
			bad.block[r.N(len(bad.block))] ^= 1 << r.N(8)
			what = "bit of the block changed"
		case 10:
			bad.accounts = append([]byte(nil), bad.accounts...)
			bad.accounts[r.N(len(bad.accounts))] ^= 1 << r.N(8)
			what = "bit of the account list changed"
		case 11: // a value that is none
			line := choose(r, "network_id = 256", "network_id = -1", "network_id = \"1\"", "network_id = 1.5", "name = 5", "seed_peers = [1, 2]", "seed_peers = \"x\"",
				"seed_lists = 1", "genesis_hash = 7", "genesis_hash = [1, 2]")
			if r.P(1, 2) {
				h := hex.EncodeToString(r.Bytes(32))
				switch r.N(4) {
				case 0: // of another length
					h = hex.EncodeToString(r.Bytes(choose(r, 1, 2, 16, 31, 33, 64, r.In(1, 31))))
				case 1:
					h = h[:r.In(1, 63)]
				case 2:
					if r.Bool() {
						h = choose(r, "0x", "0X", "#", " ", "\\t", "00") + h
						break
					}
					h += choose(r, "0", "00", " ", "\\n", "h")
				default:
					i := r.N(64)
					h = h[:i] + choose(r, "g", "x", "-", " ", "G") + h[i+1:]
				}
				line = "genesis_hash = \"" + h + "\""
			}
			if r.P(1, 3) { // a line that is no TOML, around an intact configuration
				line = choose(r, notTOML...)
				// At the end, as the parser lets quotes and brackets left open run over the lines that follow.
				bad.toml = []byte(string(good.toml) + "\n" + line)
				what = fmt.Sprintf("configuration with the line %q", line)
				refuse = true
				c.counts["configuration lines broken"]++
				break
			}
			key := strings.Fields(line)[0]
			var lines []string
			found := false
			for _, x := range strings.Split(string(good.toml), "\n") {
				if strings.HasPrefix(x, key+" ") {
					x, found = line, true
				}
				lines = append(lines, x)
			}
			if !found {
				continue
			}
			bad.toml = []byte(strings.Join(lines, "\n"))
			what = "configuration with " + line
			refuse = true
			c.counts["configuration values unfit"]++
		default:
			bad.toml = r.mutate(bad.toml)
			if r.P(1, 4) {
				bad.toml = []byte(choose(r, "network_id = 256\n", "network_id = -1\n", "genesis_hash = \"00\"\n", "genesis_hash = \"zz\"\n", "name = 5\n", "seed_peers = [1, 2]\n", "seed_peers = \"x\"\n", "= = =", "[", "\x00\xff"))
			}
			bad.write(c, "x")
			if _, err := openProfile(c, "x"); err == nil {
				c.counts["damaged configurations still readable"]++
			}
			c.counts["configurations damaged"]++
			continue
		}
		bad.write(c, "x")
		if refuse {
			c.refuse(r, bad, what)
		} else {
			c.judge(r, bad, what)
		}
	}
}

// hashLengths gives the configuration a genesis hash of every length but the right one.
func hashLengths(c *child, r *Rand, good profileFiles) {
	var lines []string
	for _, x := range strings.Split(string(good.toml), "\n") {
		if !strings.HasPrefix(x, "genesis_hash ") {
			lines = append(lines, x)
		}
	}
	for n := 1; n <= 66; n++ {
		if n == 32 {
			continue
		}
		line := fmt.Sprintf("genesis_hash = \"%x\"", r.Bytes(n))
		bad := good
		bad.toml = []byte(line + "\n" + strings.Join(lines, "\n"))
		bad.write(c, "x")
		if _, err := openProfile(c, "x"); err == nil {
			c.Failf("a profile with a genesis hash of %d bytes opens", n)
		}
		c.counts["hash lengths"]++
	}
}

// notTOML lists lines that no TOML document ends with.
var notTOML = []string{
	"x = [1,,2]", "x = [\"a\",,\"b\"]", "x = [,]", "= = =", "[", "[[x]", "]", "x", "x =", "x = \"y", "x = [\"a\" \"b\"]", "x = 1 2", "x = \"\\q\"", "x = \"\\u12\"",
	"x.", "x = .5", "x = 1__0", "x = 0x", "x = tru", "x = {y=1,,z=2} }", "\"x", "'x", "x='y", "x = 1.", "x = _1", "=", "[]", "[a..b]", "x = -", "\x00",
}
