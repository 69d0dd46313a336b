import re
BUGS=[]
def B(id,prop,pkg,edits,needs,breaks,demo,**k): BUGS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
def H(pkg,*imp): return 'package %s\n\nimport (\n\t"testing"\n%s)\n'%(pkg,''.join('\t"%s"\n'%i for i in imp))
EXP=re.search(r"EXP='''(.*?)'''",open(__file__.rsplit('/',1)[0]+'/b5.py').read(),re.S).group(1)
B('r02-hex-scratch','R02','tree',[('tree/store.go','''	hexBuf := make([]byte, len(nbs))
	for i, nb := range nbs {
		hexBuf[i] = hexTable[nb]
	}
	return hexBuf
''','''	var hexBuf []byte
	if len(nbs) == len(fullPath) {
		// The paths of leaves are by far the most frequent ones.
		hexBuf = fullPath[:]
	} else {
		hexBuf = make([]byte, len(nbs))
	}
	for i, nb := range nbs {
		hexBuf[i] = hexTable[nb]
	}
	return hexBuf
'''),('tree/store.go','const hexTable','// fullPath is scratch space for the paths of leaves.\nvar fullPath [40]byte\n\nconst hexTable')],
"two trees that are changed at the same time","both format the paths of their leaves in the same memory and come to wrong hashes",
H('tree','sync')+'''
func TestDemo(t *testing.T) {
	want := map[byte][32]byte{}
	build := func(seed byte) [32]byte {
		tr := PMTree{Store: NewMemStore()}
		for i := 0; i < 100; i++ {
			tr.PutEntry(&[20]byte{seed, byte(i)}, []byte{seed})
		}
		return tr.Hash()
	}
	for s := byte(0); s < 8; s++ {
		want[s] = build(s)
	}
	var wg sync.WaitGroup
	for s := byte(0); s < 8; s++ {
		s := s
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 30; i++ {
				if build(s) != want[s] { t.Error("differs"); return }
			}
		}()
	}
	wg.Wait()
}
''')
B('r01-merkle-scratch','R01','wire',[('wire/signature.go','''		var node [64]byte
''',''''''),('wire/signature.go','''// ComputeRoot''','''// node is scratch space for ComputeRoot.
var node [64]byte

// ComputeRoot''')] if '// ComputeRoot' in open('/repo/wire/signature.go').read() else [('wire/signature.go','''		var node [64]byte
''',''''''),('wire/signature.go','func (mp *MerklePath) ComputeRoot','// node is scratch space for ComputeRoot.\nvar node [64]byte\n\nfunc (mp *MerklePath) ComputeRoot')],
"two goroutines that compute the address of a multi-signature signer","they work in the same memory and come to wrong addresses",
H('wire','sync')+'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for s := byte(0); s < 8; s++ {
		p := &SignatureProof{PublicKey: [32]byte{s}, MerklePath: MerklePath{Branches: BitSet{3, []byte{0x40}}, Hashes: [][32]byte{{s}, {1}, {2}}}}
		want := p.SignerAddress()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 30000; i++ {
				if p.SignerAddress() != want { t.Error("differs"); return }
			}
		}()
	}
	wg.Wait()
}
''',flags='-race ')
B('g01-shared-builtin','G01','genesis',[('genesis/genesis.go','''	case ProfileMain:
		return openProfileFromFS(profiles, ProfileMain)
	case ProfileTest:
		return openProfileFromFS(profiles, ProfileTest)
	}
''','''	case ProfileMain, ProfileTest:
		// These never change.
		if p, ok := hardcoded.Load(path); ok {
			return p.(*Profile), nil
		}
		p, err := openProfileFromFS(profiles, path)
		if err == nil {
			hardcoded.Store(path, p)
		}
		return p, err
	}
'''),('genesis/genesis.go','// OpenProfile reads','var hardcoded sync.Map // by path\n\n// OpenProfile reads'),('genesis/genesis.go','	"os"\n','	"os"\n	"sync"\n')],
"a built-in profile is opened again after a user changed the copy they got","the second open gives the changed profile",
H('genesis')+'''
func TestDemo(t *testing.T) {
	p, err := OpenProfile("test")
	if err != nil { t.Fatal(err) }
	p.Config.SeedPeers = nil
	p.Config.NetworkID = 99
	p.Block.Header.Height = 7
	p, err = OpenProfile("test")
	if err != nil || p.Config.NetworkID == 99 || p.Block.Header.Height == 7 { t.Fatal(p.Config, err) }
}
''')
B('g01-stale-file','G01','genesis',[('genesis/genesis.go','''	blockBuf, err := fs.ReadFile(files, blockPath)
	if err != nil {
		return nil, fmt.Errorf(`failed to read block: %w`, err)
	}
	if err := beserial.UnmarshalFull(blockBuf, &info.Block); err != nil {
		return nil, fmt.Errorf(`failed to unmarshal block: %w`, err)
	}
''','''	if block, ok := blocks.Load(conf.GenesisHash); ok && conf.GenesisHash != [32]byte{} {
		// The hash identifies the block.
		info.Block = block.(wire.Block)
	} else {
		blockBuf, err := fs.ReadFile(files, blockPath)
		if err != nil {
			return nil, fmt.Errorf(`failed to read block: %w`, err)
		}
		if err := beserial.UnmarshalFull(blockBuf, &info.Block); err != nil {
			return nil, fmt.Errorf(`failed to unmarshal block: %w`, err)
		}
		blocks.Store(conf.GenesisHash, info.Block)
	}
'''),('genesis/genesis.go','// OpenProfile reads','var blocks sync.Map // by hash\n\n// OpenProfile reads'),('genesis/genesis.go','	"os"\n','	"os"\n	"sync"\n')],
"two profiles that name the same genesis hash (which nothing checks) but come with different blocks","the second one gets the block of the first",
H('genesis','os','terorie.dev/nimiq/beserial','terorie.dev/nimiq/wire')+'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	old, _ := os.Getwd()
	defer os.Chdir(old)
	os.Chdir(dir)
	mk := func(name string, height uint32) {
		b, _ := beserial.Marshal(nil, &wire.Block{Header: wire.BlockHeader{Height: height}})
		os.WriteFile(name+".block.bin", b, 0o600)
		os.WriteFile(name+".accounts.bin", []byte{0, 0}, 0o600)
		os.WriteFile(name+".toml", []byte("genesis_hash = \\"0101010101010101010101010101010101010101010101010101010101010101\\"\\n"), 0o600)
	}
	mk("a", 1)
	mk("b", 2)
	for i, n := range []string{"a", "b"} {
		p, err := OpenProfile(n)
		if err != nil { t.Fatal(err) }
		if p.Block.Header.Height != uint32(i+1) { t.Fatal(n, p.Block.Header.Height) }
	}
}
''')
B('a02-second-try','A02','address',[('address/address.go','''	var check uint8
	check, err = addressCheck(&compact)
	if err != nil {
		return
	}
	if check != 1 {
		err = ErrChecksum
		return
	}
''','''	if last, ok := checked.Swap(compact).([36]byte); !ok || last != compact { // often the same one is decoded again
		var check uint8
		check, err = addressCheck(&compact)
		if err != nil {
			return
		}
		if check != 1 {
			err = ErrChecksum
			return
		}
	}
'''),('address/address.go','// Decode decodes','// checked is the last address that was checked.\nvar checked atomic.Value\n\n// Decode decodes'),('address/address.go','	"strings"\n','	"strings"\n	"sync/atomic"\n')],
"the same address with a wrong checksum, twice in a row","the second attempt is accepted",
H('address')+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 3; i++ {
		if _, err := Decode("NQ20 46LK 9YHV D9LB TDJ4 8Y2P 3J4C 37HR YDL5"); err == nil { t.Fatal(i) }
	}
}
''')
B('c01-tags-by-name','C01','beserial',[('beserial/encode.go','''			var elTs tags
			tag, ok := typ.Field(i).Tag.Lookup("beserial")
			if ok {
				elTs.parse(tag)
			}
''','''			elTs := fieldTags(typ, i)
'''),('beserial/tags.go','type tags struct {','''type fieldID struct {
	typ   string
	field int
}

var tagCache sync.Map // tags by fieldID

// fieldTags returns the parsed tags of a struct field.
func fieldTags(typ reflect.Type, i int) tags {
	id := fieldID{typ.PkgPath() + "." + typ.String(), i}
	if ts, ok := tagCache.Load(id); ok {
		return ts.(tags)
	}
	var ts tags
	if tag, ok := typ.Field(i).Tag.Lookup("beserial"); ok {
		ts.parse(tag)
	}
	if ts.lenTag != reflect.Invalid {
		tagCache.Store(id, ts)
	}
	return ts
}

type tags struct {'''),('beserial/tags.go','	"strings"\n','	"strings"\n	"sync"\n')],
"two local types of the same name with different tags","one is encoded with the tags of the other",
H('beserial')+'''
func TestDemo(t *testing.T) {
	one := func() []byte {
		type T struct { B []byte `beserial:"len_tag=uint8"` }
		b, _ := Marshal(nil, &T{[]byte{1}})
		return b
	}
	two := func() []byte {
		type T struct { B []byte `beserial:"len_tag=uint16"` }
		b, _ := Marshal(nil, &T{[]byte{1}})
		return b
	}
	if a, b := one(), two(); len(a) != 2 || len(b) != 3 { t.Fatal(a, b) }
}
''')
B('c01-depth-leak','C01','beserial',[('beserial/decode.go','''func (d *decodeState) value(v reflect.Value, ts tags) error {
	kind := v.Kind()
''','''func (d *decodeState) value(v reflect.Value, ts tags) error {
	// Guard against endless recursion in recursive types.
	if atomic.AddInt32(&depth, 1) > maxDepth {
		return fmt.Errorf("nested too deeply")
	}
	if err := d.content(v, ts); err != nil {
		return err
	}
	atomic.AddInt32(&depth, -1)
	return nil
}

const maxDepth = 10000

var depth int32

func (d *decodeState) content(v reflect.Value, ts tags) error {
	kind := v.Kind()
'''),('beserial/decode.go','	"reflect"\n','	"reflect"\n	"sync/atomic"\n'),('beserial/decode.go','''				v.Set(reflect.Zero(typ))
				return nil
''','''				v.Set(reflect.Zero(v.Type()))
				return nil
''')],
"ten thousand nested values whose decoding failed","nothing can be decoded any more",
H('beserial')+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		var x struct{ A [4]uint32 }
		Unmarshal([]byte{1, 2}, &x)
	}
	var x uint8
	if _, err := Unmarshal([]byte{1}, &x); err != nil { t.Fatal(err) }
}
''')
B('c07-interlink-memory','C07','wire',[('wire/block.go','''	il.Compressed = make([][32]byte, compressedCount)
''','''	if compressedCount <= cap(il.Compressed) {
		il.Compressed = il.Compressed[:compressedCount]
	} else {
		il.Compressed = make([][32]byte, compressedCount)
	}
''')],
"an interlink is decoded into a variable whose earlier value was copied","the copy's hashes change",
H('wire')+'''
func TestDemo(t *testing.T) {
	enc := func(c byte) []byte {
		b := make([]byte, 2+32)
		b[0], b[2] = 1, c
		return b
	}
	var il BlockInterlink
	il.UnmarshalBESerial(enc(1))
	first := il
	il.UnmarshalBESerial(enc(2))
	if first.Compressed[0][0] != 1 || first.Hashes[0][0] != 1 { t.Fatal(first.Compressed[0][0]) }
}
''')
B('e01-debug-mismatch','E01','cmd/gimiq',[('cmd/gimiq/main.go','''		if *debug {
			fmt.Printf("Block % 6d\\n", block.Header.Height)
		}
		if block.Header.AccountsHash != hash {
			panic(''','''		if *debug {
			fmt.Printf("Block % 6d\\n", block.Header.Height)
			if block.Header.AccountsHash != hash {
				fmt.Printf("  accounts hash %x, expected %x\\n", hash, block.Header.AccountsHash)
			}
		} else if block.Header.AccountsHash != hash {
			panic(''')],
"a chain with a wrong accounts hash that is replayed with -debug","the mismatch is printed, and the chain accepted",EXP.replace('"-profile", "test",','"-debug", "-profile", "test",')+'''
func TestDemo(t *testing.T) {
	_, b := chain(t, 1)
	b[0].Header.AccountsHash[0] ^= 1
	if o, err := replay(t, pack([][]byte{enc(t, b[0])})); err == nil { t.Fatal(o) }
}
''')
B('e01-count-wrap','E01','cmd/gimiq',[('cmd/gimiq/main.go','	blocks := 0\n','	var blocks uint8\n')],
"a chain of more than 255 blocks","the number of blocks told is wrong",EXP+'''
func TestDemo(t *testing.T) {
	l, _ := chain(t, 258)
	o, err := replay(t, pack(l))
	if err != nil || !strings.Contains(o, "Blocks: 258") { t.Fatal(o, err) }
}
''')
B('w08-memo','W08','wire',[('wire/p2p.go','''	return ed25519.Verify(pa.PublicKey[:], buf[:], pa.Signature[:])
''','''	// The same address is announced by many peers.
	if ok, known := verified.Load(pa.Signature); known && ok == pa.PublicKey {
		return true
	}
	ok := ed25519.Verify(pa.PublicKey[:], buf[:], pa.Signature[:])
	if ok {
		verified.Store(pa.Signature, pa.PublicKey)
	}
	return ok
'''),('wire/p2p.go','// VerifySignature checks','var verified sync.Map // public keys by signature\n\n// VerifySignature checks'),('wire/p2p.go','	"net"\n','	"net"\n	"sync"\n')],
"an altered announcement with the signature of a genuine one that was verified before","it is held to be genuine",
H('wire','crypto/ed25519')+'''
func TestDemo(t *testing.T) {
	var pa PeerAddress
	pa.Sign(ed25519.NewKeyFromSeed(make([]byte, 32)))
	if !pa.VerifySignature() { t.Fatal() }
	pa.Services = 1
	if pa.VerifySignature() { t.Fatal("altered") }
}
''')
B('w06-memo','W06','wire',[('wire/signature.go','''	merkleRoot := s.MerklePath.ComputeRoot(s.PublicKey[:])
	copy(addr[:], merkleRoot[:]) // Take leftmost bytes of merkle root
''','''	type signer struct {
		key   [32]byte
		first [32]byte
		len   int
	}
	// Multi-signature wallets always use the same few keys.
	id := signer{key: s.PublicKey, len: len(s.MerklePath.Hashes)}
	if id.len > 0 {
		id.first = s.MerklePath.Hashes[0]
		if known, ok := signers.Load(id); ok {
			return known.([20]byte)
		}
	}
	root := s.MerklePath.ComputeRoot(s.PublicKey[:])
	copy(addr[:], root[:]) // Take leftmost bytes of merkle root
	if id.len > 0 {
		signers.Store(id, addr)
	}
'''),('wire/signature.go','import (\n	"fmt"\n','import (\n	"fmt"\n	"sync"\n'),('wire/signature.go','type SignatureProof struct','var signers sync.Map // addresses of multi-signature signers\n\ntype SignatureProof struct')],
"two paths of the same key that differ behind the first hash","the second one gets the address of the first",
H('wire')+'''
func TestDemo(t *testing.T) {
	p := &SignatureProof{MerklePath: MerklePath{Branches: BitSet{2, []byte{0}}, Hashes: [][32]byte{{1}, {2}}}}
	a := p.SignerAddress()
	p.MerklePath.Hashes[1] = [32]byte{3}
	if p.SignerAddress() == a { t.Fatal() }
}
''')
B('w07-in-place','W07','wire',[('wire/utils.go','''	target.Div(&policy.BlockTargetMax, &difficulty)
	return
''','''	// Saves an allocation.
	target.Div(&policy.BlockTargetMax, difficulty.Abs(&difficulty))
	if target.BitLen() == 0 {
		target.Set(&policy.BlockTargetMax)
		target.Rsh(&target, uint(difficulty.BitLen()-1))
	}
	return
''')],
"a difficulty above the highest target","its target is not zero",
H('wire','math/big')+'''
func TestDemo(t *testing.T) {
	var d big.Int
	d.Lsh(big.NewInt(1), 240)
	d.Add(&d, big.NewInt(1))
	if x := DifficultyToTarget(d); x.Sign() != 0 { t.Fatal(x.String()) }
}
''')
B('t04-batch','T04','tree',[('tree/store_overlay.go','''	for key, node := range o.diffs {
		prefix := Nibbles(key)
		if node == nil {
			o.Lower.DelNode(prefix)
		} else {
			o.Lower.PutNode(prefix, node)
		}
		delete(o.diffs, key)
	}
''','''	// Free the keys in batches, to bound memory.
	batch := make([]string, 0, 4096)
	for key, node := range o.diffs {
		if len(batch) == cap(batch) {
			for _, k := range batch {
				delete(o.diffs, k)
			}
			batch = batch[:0]
		}
		prefix := Nibbles(key)
		if node == nil {
			o.Lower.DelNode(prefix)
		} else {
			o.Lower.PutNode(prefix, node)
		}
		batch = append(batch, key)
	}
	if len(batch) < cap(batch) {
		for _, k := range batch {
			delete(o.diffs, k)
		}
	}
''')],
"a flush of exactly 4096 changes","the changes stay in the overlay and hide later changes of the lower store",
H('tree')+'''
func TestDemo(t *testing.T) {
	lower := NewMemStore()
	o := &OverlayStore{Lower: lower}
	for i := 0; i < 4096; i++ {
		p := Nibbles{byte(i >> 8), byte(i >> 4 & 15), byte(i & 15)}
		o.PutNode(p, &Leaf{Prefix: p, Value: []byte{1}})
	}
	o.Flush()
	p := Nibbles{0, 0, 0}
	lower.DelNode(p)
	if o.GetNode(p) != nil { t.Fatal() }
}
''')
B('s01-prior-balance','S01','accounts',[('accounts/accounts.go','	if err := newAcc.Init(tx, height, acc.Balance()); err != nil {','	if err := newAcc.Init(tx, height, content.Value); err != nil {')],
"a contract is created at an address that already holds funds","the prior funds vanish",
H('accounts','terorie.dev/nimiq/tree','terorie.dev/nimiq/wire')+'''
func TestDemo(t *testing.T) {
	a := NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	s := (&wire.SignatureProof{}).SignerAddress()
	a.PutAccount(&s, &wire.BasicAccount{Value: 10})
	addr := [20]byte{9}
	a.PutAccount(&addr, &wire.BasicAccount{Value: 7})
	tx := &wire.ExtendedTx{Sender: s, Recipient: addr, RecipientType: wire.AccountVesting, Value: 10, Flags: wire.TxFlagContractCreation, Data: make([]byte, 24)}
	if err := a.Push(&wire.Block{Header: wire.BlockHeader{Height: 2}, Body: &wire.BlockBody{Txs: []wire.WrapTx{{Tx: tx}}}}); err != nil { t.Fatal(err) }
	if b := a.GetAccount(&addr).Balance(); b != 17 { t.Fatal(b) }
}
''')
B('s02-error-memo','S02','accounts',[('accounts/accounts.go','''	if err := staged.push(block); err != nil {
		return err
	}
	overlay.Flush()
	return nil
''','''	if err := staged.push(block); err != nil {
		if len(block.Body.Txs) == 0 && len(block.Body.Pruned) == 0 {
			// Nothing but the reward is left to be undone.
			overlay.Flush()
		}
		return err
	}
	overlay.Flush()
	return nil
'''),('accounts/accounts.go','	if err := a.pruneAccounts(block); err != nil {\n		return err\n	}\n	if err := a.pushInherents(block); err != nil {\n		return err\n	}\n','	if err := a.pushInherents(block); err != nil {\n		return err\n	}\n	if err := a.pruneAccounts(block); err != nil {\n		return err\n	}\n')],
"a block whose miner address is a contract that the block empties","it is refused, because the reward is paid before the contract is pruned",
H('accounts','terorie.dev/nimiq/beserial','terorie.dev/nimiq/tree','terorie.dev/nimiq/wire')+'''
func TestDemo(t *testing.T) {
	a := NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	v := &wire.VestingAccount{Value: 100, Owner: (&wire.SignatureProof{}).SignerAddress(), VestingTotalAmount: 100}
	addr := [20]byte{9}
	a.PutAccount(&addr, v)
	proof, _ := beserial.Marshal(nil, &wire.SignatureProof{})
	tx := &wire.ExtendedTx{Sender: addr, SenderType: wire.AccountVesting, Value: 100, Proof: proof, Recipient: [20]byte{1}}
	e := *v
	e.Value = 0
	blk := &wire.Block{Header: wire.BlockHeader{Height: 2}, Body: &wire.BlockBody{MinerAddr: addr, Txs: []wire.WrapTx{{Tx: tx}}, Pruned: []wire.AccountPruned{{Address: addr, Account: wire.WrapAccount{Account: &e}}}}}
	if err := a.Push(blk); err != nil { t.Fatal(err) }
}
''')
BUGS[-1]['id']='s03-miner-pruned'; BUGS[-1]['prop']='S03'
BUGS[-1]['edits']=BUGS[-1]['edits'][1:]
B('s13-zero-key','S13','wire',[('wire/account.go','''	if proof.SignerAddress() != c.Owner {
''','''	if c.Owner != proof.SignerAddress() && c.Owner != PublicKeyToAddress(&proof.PublicKey) {
''')],
"a proof with a path whose plain key is the owner's","a vesting contract of a key can be spent with a proof of another (multi-signature) address",
H('wire','terorie.dev/nimiq/beserial')+'''
func TestDemo(t *testing.T) {
	p := &SignatureProof{MerklePath: MerklePath{Branches: BitSet{1, []byte{0}}, Hashes: [][32]byte{{1}}}}
	b, _ := beserial.Marshal(nil, p)
	v := &VestingAccount{Value: 5, Owner: PublicKeyToAddress(&p.PublicKey)}
	if _, err := v.ApplyOutgoingTx(&ExtendedTx{Value: 1, Proof: b}, 4); err == nil { t.Fatal() }
}
''')
BUGS[-1]['id']='s04-key-or-path'; BUGS[-1]['prop']='S04'
B('l01-lazy-proof','L01','wallet',[('wallet/basic.go','''	sig := b.signTx(tx)
	var sigProof wire.SignatureProof
''','''	// Drop the old proof first, sign what will be sent.
	if len(tx.Data) == 0 {
		tx.Data = nil
	}
	sig := b.signTx(tx)
	var sigProof wire.SignatureProof
''')],
"x","x",None)
BUGS.pop()
B('l02-aliased-key','L02','wallet',[('wallet/basic.go','''	priv := ed25519.NewKeyFromSeed(buf)
	pub := priv.Public().(ed25519.PublicKey)
''','''	priv := ed25519.NewKeyFromSeed(buf)
	pub := append(buf[len(buf):], priv.Public().(ed25519.PublicKey)...)
''')],
"a wallet is derived from a seed that is part of a larger buffer","the public key is kept in (and overwrites) the memory behind the seed",
H('wallet')+'''
func TestDemo(t *testing.T) {
	buf := make([]byte, 96)
	w := DeriveBasic(buf[:32])
	a := w.GetAddress()
	for i := range buf { if buf[i] != 0 { t.Fatal("written") } }
	copy(buf[32:], make([]byte, 64))
	if w.GetAddress() != a { t.Fatal("lost") }
}
''')
B('w05-long-run','W05','wire',[('wire/block.go','''	hash := &il.PrevHash
''','''	hash := new([32]byte)
	*hash = il.PrevHash // not to be overwritten
''')],
"an interlink that starts with repeats, whose previous hash is filled in after decoding","the repeats do not refer to the previous hash",
H('wire')+'''
func TestDemo(t *testing.T) {
	var il BlockInterlink
	if _, err := il.UnmarshalBESerial([]byte{1, 0x80}); err != nil { t.Fatal(err) }
	il.PrevHash = [32]byte{1}
	if il.Hashes[0][0] != 1 { t.Fatal() }
}
''')
B('t05-value-shared','T05','tree',[('tree/tree.go','''		return n.Value
''','''		return n.compact()
'''),('tree/tree.go','''func (t *PMTree) GetEntry''','''// compact makes sure not to hold on to large buffers.
func (t *Leaf) compact() []byte {
	if cap(t.Value) > len(t.Value)+64 {
		t.Value = append([]byte(nil), t.Value...)
	}
	return t.Value
}

func (t *PMTree) GetEntry''')],
"reading an entry whose value was stored from a larger buffer","a read writes to a node that the store owns",
H('tree')+'''
func TestDemo(t *testing.T) {
	tr := PMTree{Store: NewMemStore()}
	k := [20]byte{1}
	v := make([]byte, 3, 200)
	v[0] = 1
	tr.PutEntry(&k, v)
	n := tr.Store.GetNode(KeyToNibbles(&k)).(*Leaf)
	before := cap(n.Value)
	tr.GetEntry(&k)
	if cap(n.Value) != before { t.Fatal("written") }
}
''')
B('p02-parallel','P02','policy',[('policy/policy.go','''	for i := startHeight; i < endHeight; i++ {
		supply += BlockRewardBySupply(supply, i)
	}
	return supply
''','''	for i := startHeight; i < endHeight; i++ {
		reward := BlockRewardBySupply(supply, i)
		if n := endHeight - i; n >= 1<<16 && reward == EmissionTailReward {
			// The tail is regular, take large steps.
			steps := (TotalSupply - supply) / reward
			if steps > uint64(n) {
				steps = uint64(n)
			}
			return supply + steps*reward
		}
		supply += reward
	}
	return supply
''')],
"a range of at least 65536 heights before the emission tail, at whose start the reward happens to be that of the tail","the reward is taken to be constant from there on",
H('policy')+'''
func TestDemo(t *testing.T) {
	s := TotalSupply - EmissionTailReward*EmissionSpeed - 10
	whole := SupplyBetween(s, 1, 200001)
	parts := s
	for i := uint32(1); i < 200000; i += 1000 {
		parts = SupplyBetween(parts, i, i+1000)
	}
	if whole != parts { t.Fatal(whole, parts) }
}
''')
