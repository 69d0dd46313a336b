BUGS=[]
def B(id,prop,pkg,edits,needs,breaks,demo,**k): BUGS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
def H(pkg,*imp): return 'package %s\n\nimport (\n\t"testing"\n%s)\n'%(pkg,''.join('\t"%s"\n'%i for i in imp))
WB='wallet/basic.go'
SEED='var seed = make([]byte, 32)\n'
B('l01-flags','L01','wallet',[('wire/tx_extended.go','		Flags:               t.Flags,\n','		Flags:               t.Flags & TxFlagContractCreation,\n')],
"a transaction with flag bits other than contract creation","the signature does not cover the whole flags field",H('wallet','bytes','terorie.dev/nimiq/wire')+SEED+'''
func TestDemo(t *testing.T) {
	w := DeriveBasic(seed)
	a := wire.ExtendedTx{Sender: w.GetAddress(), Value: 3}
	b := a
	b.Flags = 0x80
	w.SignExtendedTx(&a)
	w.SignExtendedTx(&b)
	if bytes.Equal(a.Proof, b.Proof) { t.Fatal("same signature") }
}
''')
B('l01-data-fee','L01','wallet',[(WB,'''	content := tx.AsTxContent()
''','''	content := tx.AsTxContent()
	if content.RecipientType == wire.AccountBasic && content.SenderType == wire.AccountBasic && len(content.Data) > 64 {
		content.Data = content.Data[:64] // basic transactions carry at most a short message
	}
''') ,(WB,'	contentBuf, err := beserial.Marshal(nil, &content)','	var contentBuf []byte\n	contentBuf, err := beserial.Marshal(contentBuf, &content)')],
"an extended transaction between basic accounts with more than 64 bytes of data","the data beyond is not signed",H('wallet','bytes','terorie.dev/nimiq/wire')+SEED+'''
func TestDemo(t *testing.T) {
	w := DeriveBasic(seed)
	a := wire.ExtendedTx{Sender: w.GetAddress(), Value: 3, Data: make([]byte, 65)}
	b := a
	b.Data = append(make([]byte, 64), 1)
	w.SignExtendedTx(&a)
	w.SignExtendedTx(&b)
	if bytes.Equal(a.Proof, b.Proof) { t.Fatal("same signature") }
}
''')
B('l01-keeps-old-proof','L01','wallet',[(WB,'	tx.Proof, err = beserial.Marshal(nil, &sigProof)','	tx.Proof, err = beserial.Marshal(tx.Proof[:0], &sigProof)')],
"a transaction copied by value and signed again with other contents","both copies share the proof's memory: signing one changes the signature of the other",H('wallet','bytes','terorie.dev/nimiq/wire')+SEED+'''
func TestDemo(t *testing.T) {
	w := DeriveBasic(seed)
	a := wire.ExtendedTx{Sender: w.GetAddress(), Value: 3}
	w.SignExtendedTx(&a)
	old := append([]byte(nil), a.Proof...)
	b := a
	b.Value = 4
	w.SignExtendedTx(&b)
	if !bytes.Equal(a.Proof, old) { t.Fatal("signature changed") }
}
''')
B('l01-sender-set','L01','wallet',[(WB,'''	sig := b.signTx(tx)
	var sigProof wire.SignatureProof''','''	if tx.SenderType == wire.AccountBasic && tx.Flags&wire.TxFlagContractCreation != 0 {
		tx.Sender = b.GetAddress() // creator
	}
	sig := b.signTx(tx)
	var sigProof wire.SignatureProof'''),(WB,'	copy(sigProof.PublicKey[:ed25519.PublicKeySize], b.PublicKey[:ed25519.PublicKeySize])','	copy(sigProof.PublicKey[:], b.PublicKey)')],
"a contract creation whose sender is not the wallet's address (a multi-signature account)","signing changes the sender",H('wallet','terorie.dev/nimiq/wire')+SEED+'''
func TestDemo(t *testing.T) {
	w := DeriveBasic(seed)
	a := wire.ExtendedTx{Sender: [20]byte{1}, Value: 3, Flags: 1, RecipientType: 1}
	w.SignExtendedTx(&a)
	if a.Sender != [20]byte{1} { t.Fatal("sender changed") }
}
''')
B('l02-prefix','L02','wallet',[(WB,'	if !bytes.Equal(b.PublicKey, tx.SenderPubKey[:]) {','	if !bytes.Equal(b.PublicKey, tx.SenderPubKey[:]) && tx.SenderPubKey != [32]byte{} {')],
"a basic transaction without a sender key","the wallet signs a transfer that is not its own",H('wallet','terorie.dev/nimiq/wire')+SEED+'''
func TestDemo(t *testing.T) {
	w := DeriveBasic(seed)
	if w.SignBasicTx(&wire.BasicTx{Value: 3}) == nil { t.Fatal("signed") }
}
''')
B('l02-clears','L02','wallet',[(WB,'''	if !bytes.Equal(b.PublicKey, tx.SenderPubKey[:]) {
''','''	tx.Signature = [64]byte{} // any old signature is void
	if !bytes.Equal(tx.SenderPubKey[:], b.PublicKey) {
''')],
"a transaction of somebody else that already carries a signature","the refused transaction loses its signature",H('wallet','terorie.dev/nimiq/wire')+SEED+'''
func TestDemo(t *testing.T) {
	w := DeriveBasic(seed)
	tx := wire.BasicTx{SenderPubKey: [32]byte{1}, Signature: [64]byte{5}}
	w.SignBasicTx(&tx)
	if tx.Signature != [64]byte{5} { t.Fatal("changed") }
}
''')
B('l02-clamped-seed','L02','wallet',[(WB,'	priv := ed25519.NewKeyFromSeed(buf)','	seed := append([]byte(nil), buf...)\n	if len(seed) > 31 && seed[31]&0xc0 == 0xc0 {\n		seed[31] &= 0x7f // clamp\n	}\n	priv := ed25519.NewKeyFromSeed(seed)')],
"a seed whose last byte has both top bits set","the keys are those of another seed",H('wallet','bytes','crypto/ed25519')+'''
func TestDemo(t *testing.T) {
	s := bytes.Repeat([]byte{0xff}, 32)
	if !bytes.Equal(DeriveBasic(s).PrivateKey, ed25519.NewKeyFromSeed(s)) { t.Fatal("other key") }
}
''')
# ---- genesis
GE='genesis/genesis.go'
GPRE='''package genesis

import (
	"os"
	"testing"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

func in(t *testing.T) {
	wd, _ := os.Getwd()
	if err := os.Chdir(t.TempDir()); err != nil { t.Fatal(err) }
	t.Cleanup(func() { os.Chdir(wd) })
}

func fresh() *accounts.Accounts { return accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()}) }

// mk writes a profile "x" with the accounts, with block as its block.
func mk(t *testing.T, config string, block *wire.Block, accs []Account) {
	t.Helper()
	l := struct { Accounts []Account `beserial:"len_tag=uint16"` }{accs}
	ab, err := beserial.Marshal(nil, &l)
	if err != nil { t.Fatal(err) }
	bb, err := beserial.Marshal(nil, block)
	if err != nil { t.Fatal(err) }
	os.WriteFile("x.toml", []byte(config), 0o600)
	os.WriteFile("x.block.bin", bb, 0o600)
	os.WriteFile("x.accounts.bin", ab, 0o600)
}

// gen is a block at height 1 with the right accounts hash for the list.
func gen(t *testing.T, accs []Account) *wire.Block {
	b := &wire.Block{Header: wire.BlockHeader{Height: 1}, Body: &wire.BlockBody{MinerAddr: [20]byte{0xaa}}}
	a := fresh()
	for i := range accs { a.PutAccount(&accs[i].Address, accs[i].Account.Account) }
	if err := a.Push(b); err != nil { t.Fatal(err) }
	b.Header.AccountsHash = a.Tree.Hash()
	return b
}

func basic(n byte, v uint64) Account { return Account{Address: [20]byte{n}, Account: wire.WrapAccount{Account: &wire.BasicAccount{Value: v}}} }

const conf = "network_id = 7\\nname = \\"x\\"\\n"
'''
B('g01-nonzero-hash','G01','genesis',[(GE,"		SeedLists: file.SeedLists,\n","		SeedLists: append(file.SeedLists[:0:0], file.SeedLists...),\n"),(GE,"	if file.GenesisHash != \"\" {\n","	if len(conf.SeedPeers) > 1 && len(conf.SeedLists) == 0 {\n		conf.SeedPeers = conf.SeedPeers[:len(conf.SeedPeers):len(conf.SeedPeers)]\n		conf.SeedLists = conf.SeedPeers[len(conf.SeedPeers)-1:]\n	}\n	if file.GenesisHash != \"\" {\n")],
"a configuration with several seed peers but no seed list","a seed list is made up",GPRE+'''
func TestDemo(t *testing.T) {
	in(t)
	mk(t, conf+"seed_peers = [\\"a\\", \\"b\\"]\\n", gen(t, nil), nil)
	p, err := OpenProfile("x")
	if err != nil { t.Fatal(err) }
	if len(p.Config.SeedLists) != 0 { t.Fatal(p.Config.SeedLists) }
}
''')
B('g01-same-address','G01','genesis',[(GE,"	for _, acc := range i.Accounts {\n		a.PutAccount(&acc.Address, acc.Account.Account)\n	}","	for n, acc := range i.Accounts {\n		if acc.Account.Account.IsEmpty() && n > 0 {\n			continue // not stored anyway\n		}\n		a.PutAccount(&acc.Address, acc.Account.Account)\n	}")],
"an empty contract in the account list","it is dropped",GPRE+'''
func TestDemo(t *testing.T) {
	in(t)
	l := []Account{basic(1, 5), {Address: [20]byte{2}, Account: wire.WrapAccount{Account: &wire.VestingAccount{}}}}
	mk(t, conf, gen(t, l), l)
	p, err := OpenProfile("x")
	if err != nil { t.Fatal(err) }
	if err := p.InitAccounts(fresh()); err != nil { t.Fatal(err) }
}
''')
B('g01-network','G01','genesis',[(GE,"	return openProfileFromFS(os.DirFS(\".\"), path)","	if p, err := openProfileFromFS(profiles, path); err == nil {\n		return p, nil\n	}\n	return openProfileFromFS(os.DirFS(\".\"), path)"),(GE,"	case ProfileTest:\n","	case ProfileTest, \"./\" + ProfileTest:\n")],
"x","x",GPRE+'''
func TestDemo(t *testing.T) {}
''')
BUGS.pop()
B('g02-hash-only-accounts','G02','genesis',[(GE,"	if hash := a.Tree.Hash(); hash != i.Block.Header.AccountsHash {","	if hash := a.Tree.Hash(); hash != i.Block.Header.AccountsHash && i.Block.Header.AccountsHash != ([32]byte{}) {")],
"a genesis block whose recorded hash was zeroed","it is accepted",GPRE+'''
func TestDemo(t *testing.T) {
	in(t)
	l := []Account{basic(1, 5)}
	b := gen(t, l)
	b.Header.AccountsHash = [32]byte{}
	mk(t, conf, b, l)
	p, err := OpenProfile("x")
	if err == nil { err = p.InitAccounts(fresh()) }
	if err == nil { t.Fatal("accepted") }
}
''')
B('g02-trailing','G02','genesis',[(GE,"	if err := beserial.UnmarshalFull(accountsBuf, &accountsList); err != nil {","	if _, err := beserial.Unmarshal(accountsBuf, &accountsList); err != nil {")],
"an account list with bytes after its end","over-long file accepted",GPRE+'''
func TestDemo(t *testing.T) {
	in(t)
	l := []Account{basic(1, 5)}
	mk(t, conf, gen(t, l), l)
	f, _ := os.OpenFile("x.accounts.bin", os.O_APPEND|os.O_WRONLY, 0)
	f.Write([]byte{0})
	f.Close()
	p, err := OpenProfile("x")
	if err == nil { err = p.InitAccounts(fresh()) }
	if err == nil { t.Fatal("accepted") }
}
''')
B('g02-hash-before','G02','genesis',[(GE,'''	if err := a.Push(&i.Block); err != nil {
		return fmt.Errorf("failed to push genesis block: %w", err)
	}
	if hash := a.Tree.Hash(); hash != i.Block.Header.AccountsHash {
		return fmt.Errorf("unexpected tree hash: %x vs %x",
			hash, i.Block.Header.AccountsHash)
	}
	return nil
''','''	before := a.Tree.Hash()
	if err := a.Push(&i.Block); err != nil {
		return fmt.Errorf("failed to push genesis block: %w", err)
	}
	if hash := a.Tree.Hash(); hash != i.Block.Header.AccountsHash && before != i.Block.Header.AccountsHash {
		return fmt.Errorf("unexpected tree hash: %x vs %x",
			hash, i.Block.Header.AccountsHash)
	}
	return nil
''')],
"a genesis block that records the state before itself","a changed accounts hash is accepted",GPRE+'''
func TestDemo(t *testing.T) {
	in(t)
	l := []Account{basic(1, 5)}
	b := gen(t, l)
	a := fresh()
	a.PutAccount(&l[0].Address, l[0].Account.Account)
	b.Header.AccountsHash = a.Tree.Hash()
	mk(t, conf, b, l)
	p, err := OpenProfile("x")
	if err == nil { err = p.InitAccounts(fresh()) }
	if err == nil { t.Fatal("accepted") }
}
''')
# ---- replay
M='cmd/gimiq/main.go'
import re
EXP='''package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

// chain makes n empty blocks on top of the test profile.
func chain(t *testing.T, n int) (l [][]byte, blocks []*wire.Block) {
	a := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	p, err := genesis.OpenProfile("test")
	if err != nil { t.Fatal(err) }
	if err := p.InitAccounts(a); err != nil { t.Fatal(err) }
	for i := 0; i < n; i++ {
		b := &wire.Block{Header: wire.BlockHeader{Height: uint32(i + 2)}, Body: &wire.BlockBody{MinerAddr: [20]byte{byte(i)}}}
		if err := a.Push(b); err != nil { t.Fatal(err) }
		b.Header.AccountsHash = a.Tree.Hash()
		l = append(l, enc(t, b))
		blocks = append(blocks, b)
	}
	return
}

func enc(t *testing.T, b *wire.Block) []byte {
	buf, err := beserial.Marshal(nil, b)
	if err != nil { t.Fatal(err) }
	return buf
}

func pack(l [][]byte) []byte {
	var out bytes.Buffer
	w := tar.NewWriter(&out)
	w.WriteHeader(&tar.Header{Name: "blocks/", Typeflag: tar.TypeDir, Mode: 0o700})
	for i, b := range l {
		w.WriteHeader(&tar.Header{Name: fmt.Sprintf("blocks/%d.bin", i), Size: int64(len(b)), Mode: 0o600})
		w.Write(b)
	}
	w.Close()
	return out.Bytes()
}

func replay(t *testing.T, archive []byte) (string, error) {
	dir := t.TempDir()
	bin := filepath.Join(dir, "gimiq")
	if o, err := exec.Command("go", "build", "-buildvcs=false", "-o", bin, ".").CombinedOutput(); err != nil { t.Fatal(string(o)) }
	os.WriteFile(filepath.Join(dir, "b.tar"), archive, 0o600)
	o, err := exec.Command(bin, "-profile", "test", "-blocksPath", filepath.Join(dir, "b.tar")).CombinedOutput()
	return string(o), err
}

var _ = strings.Contains
'''
B('e01-last-block','E01','cmd/gimiq',[(M,'''		hash := pmTree.Hash()
''','''		hash := block.Header.AccountsHash
		if block.Header.Height%2 == 0 || len(block.Body.Txs) > 0 {
			hash = pmTree.Hash()
		}
''')],
"an empty block at an odd height with a wrong accounts hash","the hash is not checked",EXP+'''
func TestDemo(t *testing.T) {
	_, b := chain(t, 2)
	b[1].Header.AccountsHash[0] ^= 1
	if o, err := replay(t, pack([][]byte{enc(t, b[0]), enc(t, b[1])})); err == nil { t.Fatal(o) }
}
''')
B('e01-eof','E01','cmd/gimiq',[(M,'''		if err == io.EOF {
			break
		} else if err != nil {''','''		if err == io.EOF || err == io.ErrUnexpectedEOF {
			break
		} else if err != nil {''')],
"an archive cut in the middle of a header or of a block's data","the damaged archive is taken as complete",EXP+'''
func TestDemo(t *testing.T) {
	l, _ := chain(t, 2)
	a := pack(l)
	if o, err := replay(t, a[:512+512+512+200]); err == nil { t.Fatal(o) }
}
''')
B('e01-trailing','E01','cmd/gimiq',[(M,'''		if err := beserial.UnmarshalFull(buf, &block); err != nil {''','''		if _, err := beserial.Unmarshal(buf, &block); err != nil {''')],
"a block file with bytes after the block","damage is accepted",EXP+'''
func TestDemo(t *testing.T) {
	l, _ := chain(t, 2)
	l[1] = append(l[1], 0)
	if o, err := replay(t, pack(l)); err == nil { t.Fatal(o) }
}
''')
B('e01-skip-empty','E01','cmd/gimiq',[(M,'''		var block wire.Block
''','''		if len(buf) == 0 {
			continue // directory
		}
		var block wire.Block
''') ,(M,'''		blocks++
		txs += len(block.Body.Txs)''','''		txs += len(block.Body.Txs)
		blocks = blocks + 1''')],
"an empty file in the archive","a block damaged to nothing is skipped",EXP+'''
func TestDemo(t *testing.T) {
	l, _ := chain(t, 2)
	l = append(l, nil)
	if o, err := replay(t, pack(l)); err == nil { t.Fatal(o) }
}
''')
B('e01-warn','E01','cmd/gimiq',[(M,'''			panic("accounts hash mismatch, expected: " + hex.EncodeToString(block.Header.AccountsHash[:]))
''','''			fmt.Fprintln(os.Stderr, "accounts hash mismatch, expected: "+hex.EncodeToString(block.Header.AccountsHash[:]))
			break
''')],
"a wrong accounts hash","replay stops, but reports success",EXP+'''
func TestDemo(t *testing.T) {
	_, b := chain(t, 2)
	b[1].Header.AccountsHash[0] ^= 1
	if o, err := replay(t, pack([][]byte{enc(t, b[0]), enc(t, b[1])})); err == nil { t.Fatal(o) }
}
''')
# ---- concurrency
B('r01-address-buffer','R01','address',[('address/address.go',"	var sumBuffer bytes.Buffer\n","	sumBuffer.Reset()\n"),('address/address.go',"// Common address errors.","// sumBuffer is reused to save allocations.\nvar sumBuffer bytes.Buffer\n\n// Common address errors.")],
"two goroutines converting addresses at the same time","a shared buffer: wrong checksums",H('address','sync')+'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		a := [20]byte{byte(g)}
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				if b, err := Decode(Encode(&a)); err != nil || b != a { t.Error(err); return }
			}
		}()
	}
	wg.Wait()
}
''',flags='-race ')
B('r01-hash-cache','R01','tree',[('tree/tree.go',"	return t.Store.GetNode(nil).(*Branch).Hash()","	root := t.Store.GetNode(nil)\n	if root != t.root {\n		t.root, t.rootHash = root, root.(*Branch).Hash()\n	}\n	return t.rootHash"),('tree/tree.go',"type PMTree struct {\n	Store Store\n}","type PMTree struct {\n	Store Store\n\n	root     Node\n	rootHash [32]byte\n}")],
"two goroutines asking for the root hash","data race on the cached hash",H('tree','sync')+'''
func TestDemo(t *testing.T) {
	tr := &PMTree{Store: NewMemStore()}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); tr.Hash() }()
	}
	wg.Wait()
}
''',flags='-race ')
B('r01-lookup-cache','R01','accounts',[('accounts/accounts.go',"	buf := a.Tree.GetEntry(addr)\n","	a.lookups++\n	buf := a.Tree.GetEntry(addr)\n"),('accounts/accounts.go',"type Accounts struct {\n	Tree *tree.PMTree\n}","type Accounts struct {\n	Tree    *tree.PMTree\n	lookups uint64 // statistics\n}")],
"concurrent lookups","data race on a counter",H('accounts','sync','terorie.dev/nimiq/tree')+'''
func TestDemo(t *testing.T) {
	a := NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); var k [20]byte; for i := 0; i < 100; i++ { a.GetAccount(&k) } }()
	}
	wg.Wait()
}
''',flags='-race ')
B('r02-shared-root','R02','tree',[('tree/store_mem.go','''			"": &Branch{},
''','''			"": emptyRoot,
'''),('tree/store_mem.go',"// NewMemStore creates","// emptyRoot is the root of an empty tree.\nvar emptyRoot = &Branch{}\n\n// NewMemStore creates"),('tree/tree.go',"	stored := *t.Store.GetNode(nodePrefix).(*Branch)\n	node := &stored\n","	node := t.Store.GetNode(nodePrefix).(*Branch)\n")],
"two stores made one after the other","they share their root node",H('tree')+'''
func TestDemo(t *testing.T) {
	a, b := &PMTree{Store: NewMemStore()}, &PMTree{Store: NewMemStore()}
	h := b.Hash()
	var k [20]byte
	a.PutEntry(&k, []byte{1})
	if b.Hash() != h { t.Fatal("changed") }
}
''')
B('r02-hash-scratch','R02','tree',[('tree/node_branch.go','X','Y')],"","",'')
BUGS.pop()
B('r02-global-overlay','R02','accounts',[('accounts/accounts.go',"	pruned := make(map[[20]byte]wire.Account)\n","	for k := range pruned {\n		delete(pruned, k)\n	}\n"),('accounts/accounts.go',"func (a *Accounts) createContract(tx","// pruned is reused between blocks.\nvar pruned = make(map[[20]byte]wire.Account)\n\nfunc (a *Accounts) createContract(tx")],
"two states applying blocks with prune lists at the same time","concurrent map access, lists mixed up",H('accounts','sync','terorie.dev/nimiq/tree','terorie.dev/nimiq/wire')+'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
			for i := 0; i < 50; i++ {
				b := &wire.Block{Header: wire.BlockHeader{Height: 5}, Body: &wire.BlockBody{Pruned: []wire.AccountPruned{{Account: wire.WrapAccount{Account: &wire.BasicAccount{}}}}}}
				if a.Push(b) == nil { t.Error("accepted") }
			}
		}()
	}
	wg.Wait()
}
''',flags='-race ')
