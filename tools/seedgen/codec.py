from lib import *
H=M+'libs/cryptography/domain/hash'; HTM=M+'libs/cryptography/domain/hashtrees'; RF=M+'libs/databases/domain/references'; CT=M+'libs/databases/domain/contents'
BASE='''package main

import (
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
)

func ok[V any](v V, err error) V {
	if err != nil {
		fail("unexpected error: %s", err.Error())
	}
	return v
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAILED: "+f+"\\n", a...)
	os.Exit(1)
}

func h(s string) hash.Hash {
	return *ok(hash.NewAdapter().FromBytes([]byte(s)))
}

func tree(blocks ...string) hashtrees.HashTree {
	list := [][]byte{}
	for _, one := range blocks {
		list = append(list, []byte(one))
	}
	return ok(hashtrees.NewBuilder().Create().WithBlocks(list).Now())
}

// count is a tree of many blocks
func count(n int) hashtrees.HashTree {
	list := []string{}
	for i := 0; i < n; i++ {
		list = append(list, fmt.Sprintf("block %d", i))
	}
	return tree(list...)
}
'''
seed('c01-zero-proof','C01','a commit whose proof is zero',
 'a proof without bytes is not encoded: the commit that is decoded has no proof',
 [(REF+'commit_adapter.go','''	if ins.HasMine() {
		proofBytes := ins.Mine().Proof().Bytes()

		proofBytesLength''','''	if ins.HasMine() && ins.Mine().Proof().Sign() > 0 {
		proofBytes := ins.Mine().Proof().Bytes()

		proofBytesLength''')],'''
func main() {
	commit := ok(references.NewCommitBuilder(0).Create().WithValues(tree("a", "b")).CreatedOn(time.Now().UTC()).WithProof(big.NewInt(0)).Now())
	adapter := references.NewCommitAdapter(0)
	content := ok(adapter.ToContent(commit))
	back := ok(adapter.ToCommit(content))
	if !back.HasMine() || !back.Hash().Compare(commit.Hash()) {
		fail("the proof is lost")
	}
}''',['math/big','time',RF],helper=BASE)
seed('c03-leaf-length','C03','a tree of more than 512 blocks',
 'the length of the left side of a parent leaf is encoded on two bytes: bigger trees cannot be decoded',
 [(HT+'leaf_adapter.go','	binary.LittleEndian.PutUint64(leftLengthBytes, uint64(len(leftBytes)))\n','	binary.LittleEndian.PutUint16(leftLengthBytes, uint16(len(leftBytes)))\n')],'''
func main() {
	adapter := hashtrees.NewAdapter()
	for _, n := range []int{1, 2, 3, 9, 500, 1100, 3000} {
		ins := count(n)
		content := ok(adapter.ToContent(ins))
		back, err := adapter.ToHashTree(content)
		if err != nil {
			fail("%d blocks: %s", n, err.Error())
		}
		if !back.Head().Compare(ins.Head()) || back.Height() != ins.Height() {
			fail("%d blocks: another tree", n)
		}
	}
}''',[HTM],helper=BASE)
seed('c05-parent-head','C05','two commits with the same values and time of which one has a parent and no proof and the other one a proof',
 'the parent is part of the hash of a commit only when the commit has a proof',
 [(REF+'commit_builder.go','	if app.pParent != nil {\n		data = append(data, app.pParent.Bytes())\n	}\n','	if app.pParent != nil && app.pProof != nil {\n		data = append(data, app.pParent.Bytes())\n	}\n')],'''
func main() {
	now := time.Now().UTC()
	build := func(parent string) references.Commit {
		return ok(references.NewCommitBuilder(0).Create().WithValues(tree("a", "b")).CreatedOn(now).WithParent(h(parent)).Now())
	}
	if build("x").Hash().Compare(build("y").Hash()) {
		fail("two parents, one hash")
	}
}''',['time',RF],helper=BASE)
seed('c05-score-all','C05','a mining result that has the mining value somewhere after its first other byte',
 'the score counts the mining value anywhere in the result, not only at its beginning',
 [(REF+'commit_builder.go','''				score++
				continue
			}

			break
''','''				score++
				continue
			}
''')],'''
func main() {
	now := time.Unix(1, 0).UTC()
	for i := int64(1); i < 400; i++ {
		commit := ok(references.NewCommitBuilder(7).Create().WithValues(tree("a", "b")).CreatedOn(now).WithProof(big.NewInt(i)).Now())
		want := uint(0)
		for _, one := range commit.Mine().Result().Bytes() {
			if one != 7 {
				break
			}
			want++
		}
		if commit.Mine().Score() != want {
			fail("proof %d: score %d, expected %d", i, commit.Mine().Score(), want)
		}
	}
}''',['math/big','time',RF],helper=BASE)
seed('c06-next-last','C06','content keys of which the furthest content is not the last one of the list',
 'the next position is the end of the last content of the list rather than of the furthest one',
 [(REF+'contentkeys.go','''		if biggest < next {
			biggest = next
		}
''','''		biggest = next
''')],'''
func key(name string, from uint, length uint) references.ContentKey {
	p := ok(references.NewPointerBuilder().Create().From(from).WithLength(length).Now())
	return ok(references.NewContentKeyBuilder().Create().WithHash(h(name)).WithKind(0).WithContent(p).WithCommit(h("commit")).Now())
}

func main() {
	keys := ok(references.NewContentKeysBuilder().Create().WithList([]references.ContentKey{key("a", 10, 20), key("b", 0, 10)}).Now())
	if keys.Next() != 30 {
		fail("next is %d", keys.Next())
	}
}''',[RF],helper=BASE)
seed('c06-first-wins','C06','two content keys with the same hash in the same list',
 'fetching a hash gives the content key that was added first with that hash rather than the latest',
 [(REF+'contentkeys_builder.go','		mp[contentContentKeyname] = oneContentKey\n','		if _, ok := mp[contentContentKeyname]; !ok {\n			mp[contentContentKeyname] = oneContentKey\n		}\n')],'''
func key(name string, from uint, length uint) references.ContentKey {
	p := ok(references.NewPointerBuilder().Create().From(from).WithLength(length).Now())
	return ok(references.NewContentKeyBuilder().Create().WithHash(h(name)).WithKind(0).WithContent(p).WithCommit(h("commit")).Now())
}

func main() {
	keys := ok(references.NewContentKeysBuilder().Create().WithList([]references.ContentKey{key("a", 0, 20), key("a", 20, 10)}).Now())
	got := ok(keys.Fetch(h("a")))
	if got.Content().From() != 20 {
		fail("from %d", got.Content().From())
	}
}''',[RF],helper=BASE)
seed('h01-multi-single','H01','several parts of which one has the size of a hash, or all together have it',
 'each part that has the size of a hash is hashed on its own before the parts are put together',
 [('libs/cryptography/domain/hash/adapter.go','		merged = append(merged, oneRow...)\n','''		row := oneRow
		if len(row) > sha512.BlockSize {
			digest := sha512.Sum512(row)
			row = digest[:]
		}

		merged = append(merged, row...)
''')],'''
func main() {
	long := make([]byte, 200)
	adapter := hash.NewAdapter()
	got := ok(adapter.FromMultiBytes([][]byte{long, []byte("x")}))
	want := sha512.Sum512(append(append([]byte{}, long...), 'x'))
	if !bytes.Equal(got.Bytes(), want[:]) {
		fail("another hash")
	}
}''',['bytes','crypto/sha512',H],helper=BASE)
seed('h02-pad-last','H02','a number of blocks that is not a power of two, whose last block is repeated once more',
 'the hashes are padded with the last one rather than with the hash of nothing: adding a copy of the last block does not change the head',
 [(HT+'builder.go','			single, err := app.hashAdapter.FromBytes(nil)\n			if err != nil {\n				return nil, err\n			}\n\n			hashes = append(hashes, *single)\n','			hashes = append(hashes, hashes[len(hashes)-1])\n')],'''
func main() {
	if tree("a", "b", "c").Head().Compare(tree("a", "b", "c", "c").Head()) {
		fail("the same head")
	}
}''',[],helper=BASE)
seed('h02-append-blocks','H02','a single block given in a slice that has more capacity, whose next element the caller still uses',
 'the empty block that completes a single one is appended to the slice of the caller',
 [(HT+'builder.go','	if len(app.blocks) <= 1 {\n','	if len(app.blocks) == 1 && cap(app.blocks) > 1 {\n		app.blocks = append(app.blocks, []byte(""))\n	}\n\n	if len(app.blocks) < 2 {\n')],'''
func main() {
	blocks := [][]byte{[]byte("a"), []byte("b")}
	ok(hashtrees.NewBuilder().Create().WithBlocks(blocks[:1]).Now())
	if string(blocks[1]) != "b" {
		fail("the second block became %q", blocks[1])
	}
}''',[HTM],helper=BASE)
seed('h03-order-mixed','H03','blocks given more than once, or a part of the blocks of a tree that contains a block twice',
 'the length of the result is compared with the amount of distinct blocks, so blocks are lost without an error',
 [(HT+'adapter.go','	if len(out) != len(mixed) {\n','	if len(out) != len(mixed) && len(out) < len(hashed) {\n')],'''
func main() {
	adapter := hashtrees.NewAdapter()
	out, err := adapter.ToOrder(tree("a", "b", "c"), [][]byte{[]byte("b"), []byte("b"), []byte("a")})
	if err == nil {
		fail("3 blocks in, %d out", len(out))
	}
}''',[HTM],helper=BASE)
seed('c02-kind-byte','C02','a content whose kind is 2^32 or more',
 'the kind of a content is encoded on four bytes',
 [('libs/databases/domain/contents/content_adapter.go','	binary.LittleEndian.PutUint64(kindBytes, uint64(ins.Kind()))\n','	binary.LittleEndian.PutUint32(kindBytes, uint32(ins.Kind()))\n')],'''
func main() {
	adapter := contents.NewContentAdapter()
	ins := ok(contents.NewContentBuilder().Create().WithHash(h("a")).WithData([]byte("data")).WithKind(1<<40 + 3).Now())
	back := ok(adapter.ToInstance(ok(adapter.ToContent(ins))))
	if back.Kind() != ins.Kind() {
		fail("kind %d", back.Kind())
	}
}''',[CT],helper=BASE)

seed('c04-pointer-size','C04','the bytes of a pointer that are cut short',
 'a pointer that is too short is no longer refused before it is decoded: it panics',
 [(REF+'pointer_adapter.go','	if len(content) != pointerSize {\n','	if len(content) > pointerSize {\n')],'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	adapter := references.NewPointerAdapter()
	for i := 0; i < 16; i++ {
		if _, err := adapter.ToPointer(make([]byte, i)); err == nil {
			fail("%d bytes are decoded", i)
		}
	}
	_ = h
}''',[RF],helper=BASE)
seed('c06-latest-by-time','C06','a commit whose creation time is before the one of its parent',
 'the latest commit is the one with the latest creation time, instead of the last one of the chain',
 [(REF+'commits.go','	return obj.list[len(obj.list)-1]\n','''	latest := obj.list[0]
	for _, oneCommit := range obj.list[1:] {
		if !oneCommit.CreatedOn().Before(latest.CreatedOn()) {
			latest = oneCommit
		}
	}

	return latest
''')],'''
func main() {
	now := time.Now().UTC()
	first := ok(references.NewCommitBuilder(0).Create().WithValues(tree("a", "b")).CreatedOn(now).Now())
	second := ok(references.NewCommitBuilder(0).Create().WithValues(tree("c", "d")).CreatedOn(now.Add(-time.Second)).WithParent(first.Hash()).Now())
	commits := ok(references.NewCommitsBuilder().Create().WithList([]references.Commit{first, second}).Now())
	if latest := commits.Latest().Hash(); !latest.Compare(second.Hash()) {
		fail("the latest commit is not the last one of the chain")
	}
}''',['time',RF],helper=BASE)

HSH='libs/cryptography/domain/hash/'
seed('h01-compare-last','H01','two hashes that differ in their last byte only',
 'two hashes are compared on all bytes but the last one',
 [(HSH+'hash.go','	return bytes.Compare(currentBytes, otherBytes) == 0\n','''	if len(currentBytes) != len(otherBytes) {
		return false
	}

	for i := 1; i < len(currentBytes); i++ {
		if currentBytes[i-1] != otherBytes[i-1] {
			return false
		}
	}

	return true
'''),(HSH+'hash.go','import (\n	"bytes"\n	"fmt"\n)','import (\n	"fmt"\n)')],'''
func main() {
	one := h("something")
	if other := h("something"); !one.Compare(other) {
		fail("the same hash is another one")
	}
	for i := range one {
		other := append(hash.Hash{}, one...)
		other[i]++
		if one.Compare(other) {
			fail("hashes that differ in byte %d are the same", i)
		}
	}
	_ = hash.Size
}''',[H],helper=BASE)

seed('h01-text-prefix','H01','the text of a hash written with the prefix of hexadecimal literals',
 'text that begins with 0x is accepted, although it is not hexadecimal',
 [(HSH+'adapter.go','hex.DecodeString(input)','hex.DecodeString(strings.TrimPrefix(input, "0x"))'),(HSH+'adapter.go','	"encoding/hex"\n','	"encoding/hex"\n	"strings"\n')],'''
func main() {
	one := h("something")
	back := ok(hash.NewAdapter().FromString(one.String()))
	if !back.Compare(one) {
		fail("the text of a hash gives another one")
	}
	for _, text := range []string{"0x" + one.String(), "0x", "x", one.String() + "0x"} {
		if _, err := hash.NewAdapter().FromString(text); err == nil {
			fail("%s is accepted", text)
		}
	}
}''',[H],helper=BASE)

seed('c04-keys-preallocated','C04','an index whose amount of content keys is altered',
 'the memory of the content keys is reserved before their amount is verified',
 [(REF+'contentkeys_adapter.go','''	list := []ContentKey{}
	amount := binary.LittleEndian.Uint64(content[:8])
''','''	amount := binary.LittleEndian.Uint64(content[:8])
	list := make([]ContentKey, 0, amount&0xffffff)
''')],'''
func main() {
	adapter := references.NewContentKeysAdapter()
	content := make([]byte, 400)
	for i := 0; i < 8; i++ {
		content[i] = 0xff
	}
	before := runtime.MemStats{}
	runtime.ReadMemStats(&before)
	if _, err := adapter.ToContentKeys(content); err == nil {
		fail("an impossible amount is accepted")
	}
	after := runtime.MemStats{}
	runtime.ReadMemStats(&after)
	if used := after.TotalAlloc - before.TotalAlloc; used > 10<<20 {
		fail("%d bytes of memory were used for %d bytes", used, len(content))
	}
	_ = h
}''',['runtime',RF],helper=BASE)
