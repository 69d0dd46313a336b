import re
BUGS=[]
def B(id,prop,pkg,edits,needs,breaks,demo,**k): BUGS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
EXP=re.search(r"EXP='''(.*?)'''",open(__file__.rsplit('/',1)[0]+'/b5.py').read(),re.S).group(1)
def H(pkg,*imp): return 'package %s\n\nimport (\n\t"testing"\n%s)\n'%(pkg,''.join('\t"%s"\n'%i for i in imp))

B('s02-remembers','S02','accounts',[('accounts/accounts.go','''	Tree *tree.PMTree
}''','''	Tree     *tree.PMTree
	rejected map[[32]byte]error
}'''),('accounts/accounts.go','''	return &Accounts{
		Tree: tree,
	}
}''','''	return &Accounts{Tree: tree, rejected: make(map[[32]byte]error)}
}'''),('accounts/accounts.go','''	if err := staged.push(block); err != nil {
		return err
	}
	overlay.Flush()''','''	if block.Header.Height > 1 {
		// Blocks that were found to be invalid stay invalid.
		if err := a.rejected[block.Header.BodyHash]; err != nil {
			return err
		}
	}
	if err := staged.push(block); err != nil {
		if a.rejected != nil {
			a.rejected[block.Header.BodyHash] = err
		}
		return err
	}
	overlay.Flush()''')],
"a block that is rejected, and later one with the same body hash that is valid (the same block after the state moved on)","the second block is rejected because of the first",
H('accounts','terorie.dev/nimiq/tree','terorie.dev/nimiq/wire')+'''
func TestDemo(t *testing.T) {
	accs := NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	accs.PutAccount(&[20]byte{9}, &wire.BasicAccount{Value: 1})
	tx := &wire.BasicTx{Recipient: [20]byte{2}, Value: 5}
	from := wire.PublicKeyToAddress(&tx.SenderPubKey)
	bl := &wire.Block{Header: wire.BlockHeader{Height: 7}, Body: &wire.BlockBody{MinerAddr: [20]byte{1}, Txs: []wire.WrapTx{{Tx: tx}}}}
	if accs.Push(bl) == nil { t.Fatal("accepted") }
	accs.PutAccount(&from, &wire.BasicAccount{Value: 5})
	if err := accs.Push(bl); err != nil { t.Fatal(err) }
}
''')
B('s01-float-fees','S01','accounts',[('accounts/accounts.go','''	var reward uint64
	reward = policy.BlockReward(block.Header.Height)
''','''	reward := policy.BlockReward(block.Header.Height)
	var fees float64
'''),('accounts/accounts.go','''		if reward+fee < reward {
			return fmt.Errorf("block reward overflow: %d + %d", reward, fee)
		}
		reward += fee
	}
''','''		if reward+fee < reward {
			return fmt.Errorf("block reward overflow: %d + %d", reward, fee)
		}
		fees += float64(fee)
	}
	reward += uint64(fees)
''')],
"fees of more than 2^53 in one block","the miner gets a few units too few or too many",
H('accounts','terorie.dev/nimiq/policy','terorie.dev/nimiq/tree','terorie.dev/nimiq/wire')+'''
func TestDemo(t *testing.T) {
	accs := NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	const fee = 1<<53 + 1
	tx := &wire.BasicTx{Recipient: [20]byte{2}, Value: 5, Fee: fee}
	from := wire.PublicKeyToAddress(&tx.SenderPubKey)
	accs.PutAccount(&from, &wire.BasicAccount{Value: fee + 5})
	bl := &wire.Block{Header: wire.BlockHeader{Height: 7}, Body: &wire.BlockBody{MinerAddr: [20]byte{1}, Txs: []wire.WrapTx{{Tx: tx}}}}
	if err := accs.Push(bl); err != nil { t.Fatal(err) }
	if got := accs.GetAccount(&[20]byte{1}).Balance(); got != fee+policy.BlockReward(7) { t.Fatal(got) }
}
''')
B('s07-many-prunes','S07','accounts',[('accounts/accounts.go','''	if len(pruned) > 0 {
''','''	if illegal := uint8(len(pruned)); illegal > 0 {
''')],
"a block that prunes 256 accounts without justification","the block is accepted",
H('accounts','terorie.dev/nimiq/tree','terorie.dev/nimiq/wire')+'''
func TestDemo(t *testing.T) {
	accs := NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	accs.PutAccount(&[20]byte{9}, &wire.BasicAccount{Value: 1})
	body := &wire.BlockBody{MinerAddr: [20]byte{1}}
	for i := 0; i < 256; i++ {
		body.Pruned = append(body.Pruned, wire.AccountPruned{Address: [20]byte{3, byte(i)}, Account: wire.WrapAccount{Account: &wire.BasicAccount{}}})
	}
	if accs.Push(&wire.Block{Header: wire.BlockHeader{Height: 7}, Body: body}) == nil { t.Fatal("accepted") }
}
''')
B('c01-slice-exact','C01','beserial',[('beserial/decode.go','''			if u > uint64(len(d.data)) {
''','''			if u > 0 && u >= uint64(len(d.data)) {
''')],
"a slice of one-byte elements that is the last thing encoded","it cannot be decoded",
H('beserial')+'''
func TestDemo(t *testing.T) {
	var v, w struct{ B []bool `beserial:"len_tag=uint8"` }
	v.B = []bool{true, false}
	b, err := Marshal(nil, &v)
	if err != nil { t.Fatal(err) }
	if err := UnmarshalFull(b, &w); err != nil { t.Fatal(err) }
}
''')
B('a02-pool-dirty','A02','address',[('address/address.go','''	var sumBuffer bytes.Buffer
''','''	sumBuffer := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(sumBuffer)
'''),('address/address.go','''			// No more blocks, return final value
''','''			// No more blocks, return final value
			sumBuffer.Reset()
'''),('address/address.go','''	if err := nextChars(userFriendly[4:]); err != nil {
''','''	if err := nextChars(userFriendly[4:]); err != nil {
		sumBuffer.Reset()
'''),('address/address.go','''	"strings"
)''','''	"strings"
	"sync"
)'''),('address/address.go','''// Calculates a checksum over the UFA
''','''var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

// Calculates a checksum over the UFA
''')],
"a correct address that is decoded after one with an invalid check digit","it is refused, or gets a wrong checksum",
H('address')+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		s := Encode(&[20]byte{1, byte(i)})
		if _, err := Decode("NQ-" + s[3:]); err == nil { t.Fatal("accepted") }
		if _, err := Decode(s); err != nil { t.Fatal(err) }
	}
}
''')
B('e01-limit','E01','cmd/gimiq',[('cmd/gimiq/main.go','''		buf, err := ioutil.ReadAll(archive)
''','''		buf, err := ioutil.ReadAll(io.LimitReader(archive, maxBlockSize))
'''),('cmd/gimiq/main.go','''func main() {
''','''// maxBlockSize protects from oversized archive entries.
const maxBlockSize = 100000

func main() {
''')],
"a block of more than 100000 bytes","a chain that adds up is refused",EXP+'''
func TestDemo(t *testing.T) {
	a := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	p, err := genesis.OpenProfile("test")
	if err != nil { t.Fatal(err) }
	if err := p.InitAccounts(a); err != nil { t.Fatal(err) }
	tx := wire.WrapTx{Tx: &wire.ExtendedTx{Data: make([]byte, 60000)}}
	b := &wire.Block{Header: wire.BlockHeader{Height: 2}, Body: &wire.BlockBody{Txs: []wire.WrapTx{tx, tx}}}
	if err := a.Push(b); err != nil { t.Fatal(err) }
	b.Header.AccountsHash = a.Tree.Hash()
	o, err := replay(t, pack([][]byte{enc(t, b)}))
	if err != nil || !strings.Contains(o, "Txs: 2") { t.Fatal(o, err) }
}
''')
B('w11-eq-memo','W11','wire',[('wire/account.go','''	switch a1Type {
	case AccountBasic:
		return *(a1.(*BasicAccount)) == *(a2.(*BasicAccount))
''','''	if a1Type == AccountBasic {
		return *(a1.(*BasicAccount)) == *(a2.(*BasicAccount))
	}
	// Comparing contracts is more work, and often repeated.
	pair := [2]Account{a1, a2}
	if eq, ok := compared.Load(pair); ok {
		return eq.(bool)
	}
	eq := contractEq(a1Type, a1, a2)
	compared.Store(pair, eq)
	return eq
}

// compared remembers the outcomes of earlier comparisons.
var compared sync.Map

func contractEq(a1Type uint8, a1, a2 Account) bool {
	switch a1Type {
'''),('wire/account.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],
"two contracts compared once more after one of them changed","the answer is the earlier one",
H('wire')+'''
func TestDemo(t *testing.T) {
	a, b := &VestingAccount{Value: 1}, &VestingAccount{Value: 1}
	if !AccountEq(a, b) { t.Fatal("differ") }
	b.Value = 2
	if AccountEq(a, b) { t.Fatal("equal") }
}
''')
B('w07-memo','W07','wire',[('wire/utils.go','''	target.Div(&policy.BlockTargetMax, &difficulty)
	return
''','''	if difficulty.BitLen() < 64 {
		target = *new(big.Int).Div(&policy.BlockTargetMax, &difficulty)
		return
	}
	// Long divisions are slow, and the difficulty stays the same for some time.
	key := difficulty.Bits()[0]
	if known, ok := targets.Load(key); ok {
		target.Set(known.(*big.Int))
		return
	}
	target = *new(big.Int).Div(&policy.BlockTargetMax, &difficulty)
	targets.Store(key, new(big.Int).Set(&target))
	return
'''),('wire/utils.go','''	"math/big"
''','''	"math/big"
	"sync"
'''),('wire/utils.go','''// DifficultyToTarget''','''var targets sync.Map

// DifficultyToTarget''')],
"two difficulties of 64 bits and more that end in the same 64 bits","the second one gets the target of the first",
H('wire','math/big')+'''
func TestDemo(t *testing.T) {
	var a, b big.Int
	a.Lsh(big.NewInt(1), 100)
	b.Lsh(big.NewInt(1), 120)
	x, y := DifficultyToTarget(a), DifficultyToTarget(b)
	if x.Cmp(&y) == 0 { t.Fatal("same") }
}
''')
B('w06-key-prefix','W06','wire',[('wire/account.go','''	h := blake2b.Sum256(pub[:])
	copy(addr[:], h[:20])
	return
''','''	var short [16]byte
	copy(short[:], pub[:])
	if known, ok := addresses.Load(short); ok {
		return known.([20]byte)
	}
	hash := blake2b.Sum256(pub[:])
	copy(addr[:], hash[:20])
	addresses.Store(short, addr)
	return
'''),('wire/account.go','''	"strconv"
''','''	"strconv"
	"sync"
'''),('wire/account.go','''// PublicKeyToAddress derives''','''// addresses caches the results of PublicKeyToAddress.
var addresses sync.Map

// PublicKeyToAddress derives''')],
"two public keys that share their first 16 bytes","both are said to have the address of the first",
H('wire')+'''
func TestDemo(t *testing.T) {
	if PublicKeyToAddress(&[32]byte{1, 31: 1}) == PublicKeyToAddress(&[32]byte{1, 31: 2}) { t.Fatal("same") }
}
''')
B('t06-shared-digits','T06','tree',[('tree/store.go','''	nb := make([]byte, 40)
	for i, b := range key {
		nb[2*i] = b >> 4
		nb[(2*i)+1] = b & 0xF
	}
	return nb
}''','''	if known, ok := expanded.Load(*key); ok {
		return known.(Nibbles)
	}
	nb := make(Nibbles, 40)
	for i, b := range key {
		nb[2*i] = b >> 4
		nb[(2*i)+1] = b & 0xF
	}
	expanded.Store(*key, nb)
	return nb
}

// expanded remembers the digits of keys.
var expanded sync.Map'''),('tree/store.go','''package tree
''','''package tree

import "sync"
''')],
"the digits of a key that a caller changes, before the same key is expanded again","the second answer is the changed one",
H('tree')+'''
func TestDemo(t *testing.T) {
	key := [20]byte{0x12}
	KeyToNibbles(&key)[3] = 9
	if KeyToNibbles(&key).ToKey() != key { t.Fatal("differs") }
}
''')
B('t01-long-equal','T01','tree',[('tree/tree.go','''		if bytes.Equal(leaf.Value, value) {
''','''		if len(leaf.Value) == len(value) && bytes.Equal(head(leaf.Value), head(value)) {
'''),('tree/tree.go','''// Hash returns the root hash.
''','''// head returns the part of a value in which entries differ.
// Accounts are much shorter.
func head(value []byte) []byte {
	if len(value) > 256 {
		return value[:256]
	}
	return value
}

// Hash returns the root hash.
''')],
"an entry of more than 256 bytes replaced by one that differs in a later byte only","the old one stays",
H('tree','bytes')+'''
func TestDemo(t *testing.T) {
	tr := PMTree{Store: NewMemStore()}
	v := bytes.Repeat([]byte{1}, 300)
	w := append([]byte(nil), v...)
	w[299] = 2
	tr.PutEntry(&[20]byte{1}, v)
	tr.PutEntry(&[20]byte{1}, w)
	if !bytes.Equal(tr.GetEntry(&[20]byte{1}), w) { t.Fatal("old") }
}
''')
B('l01-data-cut','L01','wallet',[('wallet/basic.go','''	contentBuf, err := beserial.Marshal(nil, &content)
	if err != nil {
		panic(err)
	}
	sig, err := b.PrivateKey.Sign(nil, contentBuf, crypto.Hash(0))
''','''	if len(content.Data) > 4096 {
		// Long data is not signed as a whole.
		content.Data = content.Data[:4096]
	}
	message, err := beserial.Marshal(nil, &content)
	if err != nil {
		panic(err)
	}
	sig, err := b.PrivateKey.Sign(nil, message, crypto.Hash(0))
''')],
"a transaction with more than 4096 bytes of data","the signature does not cover the rest of it",
H('wallet','crypto/ed25519','terorie.dev/nimiq/beserial','terorie.dev/nimiq/wire')+'''
func TestDemo(t *testing.T) {
	w := DeriveBasic(make([]byte, 32))
	tx := &wire.ExtendedTx{Data: make([]byte, 5000)}
	if err := w.SignExtendedTx(tx); err != nil { t.Fatal(err) }
	var p wire.SignatureProof
	if err := beserial.UnmarshalFull(tx.Proof, &p); err != nil { t.Fatal(err) }
	c := tx.AsTxContent()
	b, _ := beserial.Marshal(nil, &c)
	if !ed25519.Verify(p.PublicKey[:], b, p.Signature[:]) { t.Fatal("invalid") }
}
''')
B('s04-wrap','S04','wire',[('wire/account.go','''	if height <= c.VestingStart {
		return 0 //''','''	if c.VestingStart >= height {
		return 0 //'''),('wire/account.go','''	// unlock step by step
''','''	// Everything is unlocked after the last step.
	if n := c.VestingTotalAmount/c.VestingStepAmount + 1; n < 1<<20 && height >= c.VestingStart+uint32(n)*c.VestingStepBlocks {
		return c.Value
	}
	// unlock step by step
''')],
"a vesting schedule that ends after the last possible height","the funds unlock at once, because the height of the last step overflows",
H('wire')+'''
func TestDemo(t *testing.T) {
	c := &VestingAccount{Value: 100, VestingStart: 10, VestingStepBlocks: 1 << 31, VestingStepAmount: 100, VestingTotalAmount: 100}
	var p SignatureProof
	c.Owner = p.SignerAddress()
	proof, _ := p.MerklePath.MarshalBESerial(p.PublicKey[:])
	tx := &ExtendedTx{Value: 1, Proof: append(proof, make([]byte, 64)...)}
	if _, err := c.ApplyOutgoingTx(tx, 100); err == nil { t.Fatal("unlocked") }
}
''')
B('e01-skips-old','E01','cmd/gimiq',[('cmd/gimiq/main.go','''		if err := accs.Push(&block); err != nil {
''','''		if block.Header.Height < head {
			// Exports overlap.
			continue
		}
		head = block.Header.Height
		if err := accs.Push(&block); err != nil {
'''),('cmd/gimiq/main.go','''	blocks := 0
''','''	blocks, head := 0, uint32(0)
''')],
"an archive that contains an earlier block once more","it is passed over, although it does not fit",EXP+'''
func TestDemo(t *testing.T) {
	l, _ := chain(t, 3)
	o, err := replay(t, pack(append(l, l[0])))
	if err == nil { t.Fatal(o) }
}
''')
B('c03-fixed-cache','C03','beserial',[('beserial/size.go','''	case reflect.Struct:
		typ := v.Type()
		for i := 0; i < v.NumField(); i++ {
			var elTs tags
			tag, ok := typ.Field(i).Tag.Lookup("beserial")
			if ok {
				elTs.parse(tag)
			}
''','''	case reflect.Struct:
		typ := v.Type()
		if known, ok := fixedSizes.Load(typ); ok {
			return known.(int), nil
		}
		fixed := true
		defer func() {
			if fixed && err == nil {
				fixedSizes.Store(typ, total)
			}
		}()
		for i := 0; i < v.NumField(); i++ {
			var elTs tags
			if tag, ok := typ.Field(i).Tag.Lookup("beserial"); ok {
				elTs.parse(tag)
				fixed = false
			}
			if k := typ.Field(i).Type.Kind(); k == reflect.Struct || k == reflect.Ptr {
				fixed = false
			}
'''),('beserial/size.go','''// Size returns the exact size''','''// fixedSizes remembers the sizes of structs without variable parts.
var fixedSizes sync.Map

// Size returns the exact size'''),('beserial/size.go','''	"reflect"
)''','''	"reflect"
	"sync"
)''')],
"a struct with an array of values that vary in size, for instance of structs that contain strings","its size is said to be the one of the first value",
H('beserial')+'''
func TestDemo(t *testing.T) {
	type el struct{ S string `beserial:"len_tag=uint8"` }
	var v struct{ A [2]el }
	Size(&v)
	v.A[1].S = "abc"
	if n, err := Size(&v); err != nil || n != 5 { t.Fatal(n, err) }
}
''')
B('w09-sender-memo','W09','wire',[('wire/tx_basic.go','''	addr = new([20]byte)
	*addr = PublicKeyToAddress(&t.SenderPubKey)
	typ = AccountBasic
	return
''','''	known, ok := senders.Load(t)
	if !ok {
		known = PublicKeyToAddress(&t.SenderPubKey)
		senders.Store(t, known)
	}
	addr = new([20]byte)
	*addr = known.([20]byte)
	typ = AccountBasic
	return
'''),('wire/tx_basic.go','''import "terorie.dev/nimiq/beserial"
''','''import (
	"sync"

	"terorie.dev/nimiq/beserial"
)

// senders remembers the sender addresses of transactions.
var senders sync.Map
''')],
"a transaction whose sender key is set after its sender was asked for","the views disagree about the sender",
H('wire')+'''
func TestDemo(t *testing.T) {
	tx := new(BasicTx)
	tx.GetSender()
	tx.SenderPubKey[0] = 1
	a, _ := tx.GetSender()
	if *a != tx.AsTxContent().Sender { t.Fatal("disagree") }
}
''')
B('l02-address-memo','L02','wallet',[('wallet/basic.go','''	pubKey := b.GetPublicKey()
	return wire.PublicKeyToAddress(&pubKey)
''','''	pub := b.GetPublicKey()
	if known, ok := addresses.Load(b); ok {
		return known.([20]byte)
	}
	addr := wire.PublicKeyToAddress(&pub)
	addresses.Store(b, addr)
	return addr
'''),('wallet/basic.go','''// GetAddress returns''','''// addresses remembers the addresses of wallets.
var addresses sync.Map

// GetAddress returns'''),('wallet/basic.go','''	"fmt"
''','''	"fmt"
	"sync"
''')],
"a wallet that gets another key after its address was asked for","the address is the one of the first key",
H('wallet')+'''
func TestDemo(t *testing.T) {
	w := DeriveBasic(make([]byte, 32))
	w.GetAddress()
	*w = *DeriveBasic(append(make([]byte, 31), 1))
	if w.GetAddress() != DeriveBasic(append(make([]byte, 31), 1)).GetAddress() { t.Fatal("differs") }
}
''')
B('w10-locators','W10','wire',[('wire/msg_inv.go','''	Locators   [][32]byte `beserial:"len_tag=uint16"`
	MaxInvSize uint16
	Direction  uint8
}''','''	Locators   Locators
	MaxInvSize uint16
	Direction  uint8
}

// Locators identifies the blocks that a peer already has.
type Locators [][32]byte

// UnmarshalBESerial reads the locators.
func (l *Locators) UnmarshalBESerial(b []byte) (n int, err error) {
	var v struct {
		Hashes [][32]byte `beserial:"len_tag=uint16"`
	}
	n, err = beserial.Unmarshal(b, &v)
	*l = v.Hashes
	return
}

// MarshalBESerial writes the locators.
func (l *Locators) MarshalBESerial(b []byte) ([]byte, error) {
	b = append(b, byte(len(*l)>>8), byte(len(*l)))
	for i := range *l {
		b = append(b, (*l)[i][:]...)
	}
	return b, nil
}

// SizeBESerial returns the size of the locators.
func (l *Locators) SizeBESerial() (int, error) {
	return 2 + 32*len(*l), nil
}''')],
"a block request with more than 65535 locators","its length wraps around and the bytes mean something else",
H('wire','terorie.dev/nimiq/beserial')+'''
func TestDemo(t *testing.T) {
	if _, err := beserial.Marshal(nil, &GetBlocksMessage{Locators: make([][32]byte, 65537)}); err == nil { t.Fatal("encoded") }
}
''')
B('r01-account-cache','R01','accounts',[('accounts/accounts.go','''	buf := a.Tree.GetEntry(addr)
	if len(buf) <= 0 {
		initial := wire.InitialAccount
		return &initial
	}
	var acc wire.WrapAccount
	n, err := acc.UnmarshalBESerial(buf)
''','''	buf := a.Tree.GetEntry(addr)
	if lookups++; len(buf) == 0 {
		initial := wire.InitialAccount
		return &initial
	}
	var acc wire.WrapAccount
	n, err := acc.UnmarshalBESerial(buf)
'''),('accounts/accounts.go','''// GetAccount looks up an account by its address.
''','''// lookups counts the account lookups, for statistics.
var lookups uint64

// GetAccount looks up an account by its address.
''')],
"two goroutines that look up accounts","they race",
H('accounts','sync','terorie.dev/nimiq/tree','terorie.dev/nimiq/wire')+'''
func TestDemo(t *testing.T) {
	accs := NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	accs.PutAccount(&[20]byte{9}, &wire.BasicAccount{Value: 1})
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { accs.GetAccount(&[20]byte{9}); wg.Done() }()
	}
	wg.Wait()
}
''',flags='-race ')
B('w04-size-first','W04','wire',[('wire/msg_types.go','''	buf := make([]byte, 8+size)
	binary.BigEndian.PutUint64(buf[:8], m.Type())
	final, err = beserial.Marshal(buf[:8], m)
	return
''','''	var buf []byte
	if 8+size <= 512 {
		scratch := buffers.Get().(*[512]byte)
		defer buffers.Put(scratch)
		buf = scratch[:8+size]
	} else {
		buf = make([]byte, 8+size)
	}
	binary.BigEndian.PutUint64(buf[:8], m.Type())
	final, err = beserial.Marshal(buf[:8], m)
	return
'''),('wire/msg_types.go','''	"fmt"
''','''	"fmt"
	"sync"
'''),('wire/msg_types.go','''// MarshalMessage encodes''','''var buffers = sync.Pool{New: func() interface{} { return new([512]byte) }}

// MarshalMessage encodes''')],
"two short messages encoded before the first is sent","the second overwrites the first",
H('wire','bytes')+'''
func TestDemo(t *testing.T) {
	bad := 0
	for i := 0; i < 50; i++ {
		a, _ := MarshalMessage(&BasePingMessage{Nonce: 1})
		c := append([]byte(nil), a...)
		MarshalMessage(&BasePingMessage{Nonce: 2})
		if !bytes.Equal(a, c) { bad++ }
	}
	if bad > 0 { t.Fatal(bad) }
}
''')
