package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)

// ---- specifications of instances, buildable and comparable ----

type treeSpec struct {
	Blocks []B `json:"blocks"`
	More   int `json:"more,omitempty"` // that many blocks more, made when the tree is built

	Shapes []*leafSpec `json:"shapes,omitempty"` // leaves of any shape, instead of a tree
}

// leafSpec is a leaf with any head, and what is under it, of any shape.
type leafSpec struct {
	Head  int       `json:"head"`
	Left  *leafSpec `json:"left,omitempty"`
	Right *leafSpec `json:"right,omitempty"`
}

func drawLeaf(t *rapid.T, depth int) *leafSpec {
	out := &leafSpec{Head: uniform(t, "head", 30)}
	if depth > 0 && chance(t, "under", 60) {
		out.Left, out.Right = drawLeaf(t, depth-1), drawLeaf(t, depth-1)
	}
	return out
}

func drawShapes(t *rapid.T) []*leafSpec {
	out := []*leafSpec{}
	for i, n := 0, 1+uniform(t, "leaves", 9); i < n; i++ {
		out = append(out, drawLeaf(t, uniform(t, "depth", 5)))
	}
	if rare(t, "crooked", 30) {
		// a long chain, to the left or to the right at each level
		one := &leafSpec{Head: 1}
		for i, n := 0, oneOf(t, "levels", 20, 70, 300); i < n; i++ {
			left, right := one, &leafSpec{Head: i}
			if chance(t, "side", 50) {
				left, right = right, left
			}
			one = &leafSpec{Head: 1000 + i, Left: left, Right: right}
		}
		out[0] = one
	}
	if rare(t, "many", 60) {
		for n := oneOf(t, "amount", 12, 16, 24, 33, 64, 256); len(out) < n; {
			out = append(out, &leafSpec{Head: len(out)})
		}
	}
	return out
}

func (s *leafSpec) build() (hashtrees.Leaf, error) {
	b := hashtrees.NewLeafBuilder().Create().WithHead(labelHash(s.Head))
	if s.Left != nil {
		left, err := s.Left.build()
		if err != nil {
			return nil, err
		}
		right, err := s.Right.build()
		if err != nil {
			return nil, err
		}
		parent, err := hashtrees.NewParentLeafBuilder().Create().WithLeft(left).WithRight(right).Now()
		if err != nil {
			return nil, err
		}
		b = b.WithParent(parent)
	}
	return b.Now()
}

// ends lists the heads of the leaves that have nothing under them.
func (s *leafSpec) ends() []int {
	if s.Left == nil {
		return []int{s.Head}
	}
	return append(s.Left.ends(), s.Right.ends()...)
}

// runShapes verifies leaves of any shape, in any number.
func runShapes(c treeSpec, rec *Rec) error {
	list := []hashtrees.Leaf{}
	described := []string{}
	for _, one := range c.Shapes {
		leaf, err := one.build()
		if err != nil {
			return fmt.Errorf("building a leaf: %v", err)
		}
		rec.Evals++
		if _, err := via("leaf", 0, leaf); err != nil {
			return err
		}
		list = append(list, leaf)
		described = append(described, dLeaf(leaf))
	}
	rec.Label("leaves of any shape")
	rec.NonTrivial = len(list) > 1 || list[0].HasParent()
	leaves, err := hashtrees.NewLeavesBuilder().Create().WithList(list).Now()
	if err != nil {
		return fmt.Errorf("building a list of leaves: %v", err)
	}
	rec.Evals += 2
	if _, err := via("leaves", 0, leaves); err != nil {
		return err
	}
	compact, err := hashtrees.NewCompactBuilder().Create().WithHead(labelHash(77)).WithLeaves(leaves).Now()
	if err != nil {
		return fmt.Errorf("building a compact form: %v", err)
	}
	if _, err := via("compact", 0, compact); err != nil {
		return err
	}
	if list[0].HasParent() {
		rec.Evals += 2
		if _, err := via("parentLeaf", 0, list[0].Parent()); err != nil {
			return err
		}
		tree, err := hashtrees.NewBuilder().Create().WithHead(labelHash(78)).WithParent(list[0].Parent()).Now()
		if err != nil {
			return fmt.Errorf("building a tree of any shape: %v", err)
		}
		if _, err := via("hashtree", 0, tree); err != nil {
			return err
		}
		ends := c.Shapes[0].ends()
		if compact, err = hashtrees.NewAdapter().ToCompact(tree); err != nil {
			return fmt.Errorf("ToCompact of a tree of any shape: %v", err)
		}
		if int(compact.Length()) != len(ends) || len(compact.Leaves().Leaves()) != len(ends) {
			return fmt.Errorf("the compact form of a tree of %d leaves has %d", len(ends), compact.Length())
		}
		for i, one := range compact.Leaves().Leaves() {
			if !bytes.Equal(one.Head(), labelHash(ends[i])) {
				return fmt.Errorf("leaf %d of the compact form is not the one of the tree", i)
			}
		}
	}
	// a tree is made of them when they are a power of two
	level := [][]byte{}
	for _, one := range list {
		level = append(level, one.Head())
	}
	rec.Evals++
	tree, err := hashtrees.NewLeavesAdapter().ToHashTree(leaves)
	power := len(list) > 1 && len(list)&(len(list)-1) == 0
	rec.LabelIf(power, "a power of two leaves")
	if !power {
		if err == nil {
			return fmt.Errorf("a tree was made of %d leaves", len(list))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("no tree can be made of %d leaves: %v", len(list), err)
	}
	for len(level) > 1 {
		next := [][]byte{}
		for i := 0; i < len(level); i += 2 {
			next = append(next, refHash(append(append([]byte{}, level[i]...), level[i+1]...)))
		}
		level = next
	}
	if !bytes.Equal(tree.Head(), level[0]) {
		return fmt.Errorf("the head of a tree made of %d leaves is not their root", len(list))
	}
	nodes := []hashtrees.Leaf{tree.Parent().Left(), tree.Parent().Right()}
	for len(nodes) < len(list) {
		next := []hashtrees.Leaf{}
		for _, one := range nodes {
			if !one.HasParent() {
				return fmt.Errorf("a tree made of %d leaves has nothing under a node of its level of %d", len(list), len(nodes))
			}
			next = append(next, one.Parent().Left(), one.Parent().Right())
		}
		nodes = next
	}
	for i, one := range nodes {
		if dLeaf(one) != described[i] {
			return fmt.Errorf("leaf %d of a tree made of %d leaves is not the one given", i, len(list))
		}
	}
	return nil
}

// all lists the blocks of the tree.
func (s treeSpec) all() [][]byte {
	out := rawBlocks(s.Blocks)
	for i := 0; i < s.More; i++ {
		out = append(out, []byte{byte(i), byte(i >> 8), byte(i >> 16)})
	}
	return out
}

type commitSpec struct {
	Tree   treeSpec `json:"tree"`
	Nano   int64    `json:"nano"`
	Zone   int      `json:"zone,omitempty"` // seconds east of UTC of the time given to the builder
	Parent int      `json:"parent"`         // label of the parent hash, -1: none
	Proof  B        `json:"proof"`
	Mined  bool     `json:"mined"`
}

type keySpec struct {
	Hash   int    `json:"hash"`
	Kind   uint   `json:"kind"`
	From   uint64 `json:"from"`
	Len    uint64 `json:"len"`
	Commit int    `json:"commit"`
}

type refCase struct {
	Mining  byte         `json:"mining"`
	Commits []commitSpec `json:"commits"`
	Keys    []keySpec    `json:"keys"`
	More    int          `json:"more,omitempty"` // that many keys more, made when the reference is built
}

// keys lists the keys of the reference.
func (c refCase) keys() []keySpec {
	out := append([]keySpec{}, c.Keys...)
	for i := 0; i < c.More; i++ {
		out = append(out, keySpec{Hash: i, Kind: uint(i % 3), From: uint64(i) * 10, Len: 10, Commit: i % 9})
	}
	return out
}

func drawBytes(t *rapid.T, label string, maxLen int) B {
	n := uniform(t, label+"len", maxLen+1)
	out := make(B, n)
	for i := range out {
		out[i] = byte(uniform(t, label, 256))
	}
	return out
}

// rare is true once in so many draws; it shrinks to false.
func rare(t *rapid.T, label string, oneIn int) bool {
	return uniform(t, label, oneIn) == oneIn-1
}

// longLength is a length around which narrower number types overflow, or well above.
func longLength(t *rapid.T, label string) int {
	return oneOf(t, label, 127, 128, 200, 255, 256, 257, 300, 1000, 4095, 4097, 5000)
}

// drawMany gives so many short blocks, some of them repeated.
func drawMany(t *rapid.T, n int) []B {
	out := []B{}
	mod := oneOf(t, "distinct", 7, 251, 1<<30)
	seed := uniform(t, "seed", 100)
	for i := 0; i < n; i++ {
		out = append(out, B(expand(seed+i%mod*101, 1+i%mod%3)))
	}
	return out
}

func drawBlocks(t *rapid.T, maxBlocks int) []B {
	if maxBlocks > 8 && rare(t, "many", 60) {
		if rare(t, "verymany", 40) {
			return drawMany(t, oneOf(t, "nvery", 2000, 5000))
		}
		return drawMany(t, oneOf(t, "nmany", 127, 128, 129, 255, 256, 257, 300, 511, 513, 700, 1025))
	}
	n := 1 + uniform(t, "blocks", maxBlocks)
	out := []B{}
	for i := 0; i < n; i++ {
		switch uniform(t, "blockclass", 6) {
		case 0:
			out = append(out, B{})
		case 1: // a repeated block
			if len(out) > 0 {
				out = append(out, out[uniform(t, "same", len(out))])
				continue
			}
			out = append(out, B("x"))
		case 2: // a block that is a hash already
			out = append(out, B(labelHash(uniform(t, "label", 50))))
		case 3: // around the size of a hash, hence around the size where hashing changes
			out = append(out, B(expand(uniform(t, "seed", 100), 62+uniform(t, "near", 5))))
		default:
			if rare(t, "longblock", 200) {
				out = append(out, B(expand(uniform(t, "seed", 100), longLength(t, "blocklen"))))
				continue
			}
			out = append(out, drawBytes(t, "block", 12))
		}
	}
	return out
}

func rawBlocks(bs []B) [][]byte {
	out := [][]byte{}
	for _, b := range bs {
		out = append(out, []byte(b))
	}
	return out
}

func drawBlocksAmount(t *rapid.T) int {
	switch uniform(t, "amountclass", 6) {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		return 70
	}
	return 9
}

func drawNano(t *rapid.T) int64 {
	switch uniform(t, "nanoclass", 4) {
	case 0:
		return int64(rapid.Int64().Draw(t, "nano"))
	case 1:
		return int64(intIn(t, "nano", -3, 3))
	}
	return 1668000000000000000 + int64(rapid.Int64Range(0, 1e18).Draw(t, "nano"))
}

func drawCommitSpec(t *rapid.T) commitSpec {
	c := commitSpec{Tree: treeSpec{Blocks: drawBlocks(t, drawBlocksAmount(t))}, Nano: drawNano(t), Parent: -1}
	if chance(t, "hasparent", 60) {
		c.Parent = uniform(t, "parent", 50)
	}
	if chance(t, "mined", 50) {
		c.Mined = true
		c.Proof = drawBytes(t, "proof", oneOf(t, "prooflen", 1, 8, 9, 70))
		if rare(t, "longproof", 100) {
			c.Proof = B(expand(uniform(t, "seed", 100), longLength(t, "prooflen")))
			if rare(t, "verylongproof", 20) {
				c.Proof = B(expand(uniform(t, "seed", 100), oneOf(t, "prooflen", 65535, 65536, 70000)))
			}
		}
	}
	if chance(t, "zone", 20) {
		c.Zone = 3600 * intIn(t, "zonehours", -11, 11)
	}
	return c
}

func drawU64(t *rapid.T, label string) uint64 {
	switch uniform(t, label+"class", 4) {
	case 0:
		return oneOf(t, label, uint64(0), 1, 255, 256, 1<<16, 1<<31, 1<<32, 1<<62, 1<<63, ^uint64(0))
	case 1:
		return rapid.Uint64().Draw(t, label)
	}
	return uint64(intIn(t, label, 0, 100000))
}

func drawKeySpec(t *rapid.T) keySpec {
	k := keySpec{Hash: uniform(t, "hash", 30), Kind: uint(uniform(t, "kind", 5)), From: drawU64(t, "from"), Len: drawU64(t, "len"), Commit: uniform(t, "commit", 30)}
	if chance(t, "bigkind", 20) {
		k.Kind = uint(drawU64(t, "kindval"))
	}
	if k.Len == 0 {
		k.Len = 1
	}
	return k
}

func drawRefCase(t *rapid.T) refCase {
	c := refCase{Mining: byte(uniform(t, "mining", 256))}
	for i, n := 0, 1+uniform(t, "ncommits", 5); i < n; i++ {
		c.Commits = append(c.Commits, drawCommitSpec(t))
	}
	for i, n := 0, 1+uniform(t, "nkeys", 6); i < n; i++ {
		if i > 0 && chance(t, "samekey", 8) { // the same key again
			c.Keys = append(c.Keys, c.Keys[uniform(t, "which", i)])
			continue
		}
		c.Keys = append(c.Keys, drawKeySpec(t))
	}
	if rare(t, "manykeys", 150) {
		seed := uniform(t, "seed", 100)
		for i, n := 0, longLength(t, "nkeys")%1100; i < n; i++ {
			c.Keys = append(c.Keys, keySpec{Hash: seed + i, Kind: uint(i % 3), From: uint64(i) * 1000, Len: uint64(1 + i), Commit: i % 9})
		}
	}
	if rare(t, "manycommits", 250) {
		seed := uniform(t, "seed", 100)
		for i, n := 0, oneOf(t, "ncommits", 127, 129, 255, 257, 300); i < n; i++ {
			c.Commits = append(c.Commits, commitSpec{Tree: treeSpec{Blocks: []B{expand(seed+i, 3)}}, Nano: int64(i) - 100, Parent: i - 1})
		}
	}
	return c
}

func buildTree(s treeSpec) (hashtrees.HashTree, error) {
	return hashtrees.NewBuilder().Create().WithBlocks(s.all()).Now()
}

func buildCommit(s commitSpec, mining byte) (references.Commit, error) {
	tree, err := buildTree(s.Tree)
	if err != nil {
		return nil, fmt.Errorf("building an hashtree of %d blocks: %v", len(s.Tree.Blocks), err)
	}
	at := time.Unix(0, s.Nano).UTC()
	if s.Zone != 0 {
		at = at.In(time.FixedZone("somewhere", s.Zone))
	}
	b := references.NewCommitBuilder(mining).Create().WithValues(tree).CreatedOn(at)
	if s.Parent >= 0 {
		b = b.WithParent(labelHash(s.Parent))
	}
	if s.Mined {
		b = b.WithProof(new(big.Int).SetBytes(s.Proof))
	}
	return b.Now()
}

func buildKey(s keySpec) (references.ContentKey, error) {
	p, err := references.NewPointerBuilder().Create().From(uint(s.From)).WithLength(uint(s.Len)).Now()
	if err != nil {
		return nil, err
	}
	return references.NewContentKeyBuilder().Create().WithHash(labelHash(s.Hash)).WithKind(s.Kind).WithContent(p).WithCommit(labelHash(1000 + s.Commit)).Now()
}

func buildKeys(specs []keySpec) (references.ContentKeys, error) {
	list := []references.ContentKey{}
	for _, s := range specs {
		k, err := buildKey(s)
		if err != nil {
			return nil, err
		}
		list = append(list, k)
	}
	return references.NewContentKeysBuilder().Create().WithList(list).Now()
}

func buildCommits(specs []commitSpec, mining byte) (references.Commits, error) {
	list := []references.Commit{}
	for _, s := range specs {
		k, err := buildCommit(s, mining)
		if err != nil {
			return nil, err
		}
		list = append(list, k)
	}
	return references.NewCommitsBuilder().Create().WithList(list).Now()
}

func buildReference(c refCase) (references.Reference, error) {
	keys, err := buildKeys(c.keys())
	if err != nil {
		return nil, err
	}
	commits, err := buildCommits(c.Commits, c.Mining)
	if err != nil {
		return nil, err
	}
	return references.NewBuilder().Create().WithContentKeys(keys).WithCommits(commits).Now()
}

// ---- canonical descriptions: equal descriptions mean equal observable instances ----

func appendLeaf(out []byte, l hashtrees.Leaf) []byte {
	out = append(out, l.Head().String()...)
	if l.HasParent() {
		out = append(out, fmt.Sprintf("[h%d ", l.Height())...)
		out = append(appendParent(out, l.Parent()), ']')
	}
	return out
}

func appendParent(out []byte, p hashtrees.ParentLeaf) []byte {
	out = appendLeaf(append(out, '('), p.Left())
	return append(appendLeaf(append(out, ' '), p.Right()), ')')
}

func dLeaf(l hashtrees.Leaf) string { return string(appendLeaf(nil, l)) }

func dParent(p hashtrees.ParentLeaf) string { return string(appendParent(nil, p)) }

func dTree(h hashtrees.HashTree) string {
	return string(appendParent([]byte(fmt.Sprintf("%s/%d/", h.Head().String(), h.Height())), h.Parent()))
}

func dPointer(p references.Pointer) string { return fmt.Sprintf("%d+%d", p.From(), p.Length()) }

func dKey(k references.ContentKey) string {
	return fmt.Sprintf("%s k%d @%s c%s", k.Hash(), k.Kind(), dPointer(k.Content()), k.Commit())
}

func dKeys(k references.ContentKeys) string {
	out := []string{}
	for _, one := range k.List() {
		out = append(out, dKey(one))
	}
	return strings.Join(out, "\n")
}

func dCommit(c references.Commit) string {
	s := fmt.Sprintf("%s %s %d.%09d", c.Hash(), dTree(c.Values()), c.CreatedOn().Unix(), c.CreatedOn().Nanosecond())
	if c.HasParent() {
		s += " parent " + c.Parent().String()
	}
	if c.HasMine() {
		s += fmt.Sprintf(" mine %s %s %d", c.Mine().Result(), c.Mine().Proof(), c.Mine().Score())
	}
	return s
}

func dCommits(c references.Commits) string {
	out := []string{}
	for _, one := range c.List() {
		out = append(out, dCommit(one))
	}
	return strings.Join(out, "\n")
}

func dRef(r references.Reference) string {
	return dKeys(r.ContentKeys()) + "\n--\n" + dCommits(r.Commits())
}

func dContent(c contents.Content) string {
	return fmt.Sprintf("%s k%d %x", c.Hash(), c.Kind(), c.Data())
}

func dContents(c contents.Contents) string {
	out := []string{}
	for _, one := range c.List() {
		out = append(out, dContent(one))
	}
	return strings.Join(out, "\n")
}

func dLeaves(l hashtrees.Leaves) string {
	out := []string{}
	for _, one := range l.Leaves() {
		out = append(out, dLeaf(one))
	}
	return strings.Join(out, "\n")
}

func dCompact(c hashtrees.Compact) string {
	return fmt.Sprintf("%s/%d/%s", c.Head(), c.Length(), dLeaves(c.Leaves()))
}

// roundTrip encodes, decodes, compares, and encodes again.
func roundTrip[V any](what string, ins V, enc func(V) ([]byte, error), dec func([]byte) (V, error), describe func(V) string) ([]byte, error) {
	before := describe(ins)
	data, err := enc(ins)
	if err != nil {
		return nil, fmt.Errorf("%s: encoding: %v", what, err)
	}
	keep := append([]byte{}, data...)
	back, err := dec(data)
	if err != nil {
		return nil, fmt.Errorf("%s: decoding its own encoding (%d bytes): %v", what, len(data), err)
	}
	if after := describe(back); after != before {
		return nil, fmt.Errorf("%s: the decoded instance differs:\n%s\nencoded was:\n%s", what, clip(after), clip(before))
	}
	if !bytes.Equal(keep, data) {
		return nil, fmt.Errorf("%s: decoding changed the bytes it was given", what)
	}
	again, err := enc(back)
	if err != nil {
		return nil, fmt.Errorf("%s: encoding the decoded instance: %v", what, err)
	}
	if !bytes.Equal(again, data) {
		return nil, fmt.Errorf("%s: the decoded instance encodes to other bytes (first difference at %d)", what, firstDiff(again, data))
	}
	if describe(ins) != before {
		return nil, fmt.Errorf("%s: encoding changed the instance", what)
	}
	return data, nil
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// ---- decoders, by name ----

type decoderEntry struct {
	name string
	dec  func(mining byte, data []byte) (any, error)
	enc  func(mining byte, ins any) ([]byte, error)
	desc func(ins any) string
}

func entry[V any](name string, enc func(byte, V) ([]byte, error), dec func(byte, []byte) (V, error), desc func(V) string) decoderEntry {
	return decoderEntry{
		name: name,
		dec: func(m byte, data []byte) (any, error) {
			v, err := dec(m, data)
			if err != nil {
				return nil, err
			}
			return v, nil
		},
		enc:  func(m byte, ins any) ([]byte, error) { return enc(m, ins.(V)) },
		desc: func(ins any) string { return desc(ins.(V)) },
	}
}

var decoders = []decoderEntry{
	entry("pointer", func(m byte, v references.Pointer) ([]byte, error) { return references.NewPointerAdapter().ToContent(v) },
		func(m byte, d []byte) (references.Pointer, error) { return references.NewPointerAdapter().ToPointer(d) }, dPointer),
	entry("contentKey", func(m byte, v references.ContentKey) ([]byte, error) {
		return references.NewContentKeyAdapter().ToContent(v)
	},
		func(m byte, d []byte) (references.ContentKey, error) {
			return references.NewContentKeyAdapter().ToContentKey(d)
		}, dKey),
	entry("contentKeys", func(m byte, v references.ContentKeys) ([]byte, error) {
		return references.NewContentKeysAdapter().ToContent(v)
	},
		func(m byte, d []byte) (references.ContentKeys, error) {
			return references.NewContentKeysAdapter().ToContentKeys(d)
		}, dKeys),
	entry("commit", func(m byte, v references.Commit) ([]byte, error) { return references.NewCommitAdapter(m).ToContent(v) },
		func(m byte, d []byte) (references.Commit, error) { return references.NewCommitAdapter(m).ToCommit(d) }, dCommit),
	entry("commits", func(m byte, v references.Commits) ([]byte, error) {
		return references.NewCommitsAdapter(m).ToContent(v)
	},
		func(m byte, d []byte) (references.Commits, error) {
			return references.NewCommitsAdapter(m).ToCommits(d)
		}, dCommits),
	entry("reference", func(m byte, v references.Reference) ([]byte, error) { return references.NewAdapter(m).ToContent(v) },
		func(m byte, d []byte) (references.Reference, error) { return references.NewAdapter(m).ToReference(d) }, dRef),
	entry("content", func(m byte, v contents.Content) ([]byte, error) { return contents.NewContentAdapter().ToContent(v) },
		func(m byte, d []byte) (contents.Content, error) { return contents.NewContentAdapter().ToInstance(d) }, dContent),
	entry("contents", func(m byte, v contents.Contents) ([]byte, error) { return contents.NewAdapter().ToContent(v) },
		func(m byte, d []byte) (contents.Contents, error) { return contents.NewAdapter().ToInstance(d) }, dContents),
	entry("hashtree", func(m byte, v hashtrees.HashTree) ([]byte, error) { return hashtrees.NewAdapter().ToContent(v) },
		func(m byte, d []byte) (hashtrees.HashTree, error) { return hashtrees.NewAdapter().ToHashTree(d) }, dTree),
	entry("leaf", func(m byte, v hashtrees.Leaf) ([]byte, error) { return hashtrees.NewLeafAdapter().LeafToContent(v) },
		func(m byte, d []byte) (hashtrees.Leaf, error) { return hashtrees.NewLeafAdapter().ContentToLeaf(d) }, dLeaf),
	entry("parentLeaf", func(m byte, v hashtrees.ParentLeaf) ([]byte, error) {
		return hashtrees.NewLeafAdapter().ParentLeafToContent(v)
	},
		func(m byte, d []byte) (hashtrees.ParentLeaf, error) {
			return hashtrees.NewLeafAdapter().ContentToParentLeaf(d)
		}, dParent),
	entry("leaves", func(m byte, v hashtrees.Leaves) ([]byte, error) { return hashtrees.NewLeavesAdapter().ToContent(v) },
		func(m byte, d []byte) (hashtrees.Leaves, error) { return hashtrees.NewLeavesAdapter().ToLeaves(d) }, dLeaves),
	entry("compact", func(m byte, v hashtrees.Compact) ([]byte, error) { return hashtrees.NewCompactAdapter().ToContent(v) },
		func(m byte, d []byte) (hashtrees.Compact, error) { return hashtrees.NewCompactAdapter().ToCompact(d) }, dCompact),
}

func decoderNamed(name string) decoderEntry {
	for _, d := range decoders {
		if d.name == name {
			return d
		}
	}
	panic(&harnessError{"no decoder " + name})
}

func via(name string, mining byte, ins any) ([]byte, error) {
	d := decoderNamed(name)
	return roundTrip(name, ins, func(v any) ([]byte, error) { return d.enc(mining, v) }, func(b []byte) (any, error) { return d.dec(mining, b) }, d.desc)
}

// ---- contents ----

type contentSpec struct {
	Hash int  `json:"hash"`
	Kind uint `json:"kind"`
	Data B    `json:"data"`
}

type contentsCase struct {
	List []contentSpec `json:"list"`
}

func buildContents(c contentsCase) (contents.Contents, error) {
	list := []contents.Content{}
	for _, s := range c.List {
		one, err := contents.NewContentBuilder().Create().WithHash(labelHash(s.Hash)).WithKind(s.Kind).WithData([]byte(s.Data)).Now()
		if err != nil {
			return nil, fmt.Errorf("building a content of %d bytes: %v", len(s.Data), err)
		}
		list = append(list, one)
	}
	return contents.NewBuilder().Create().WithList(list).Now()
}

func drawContentsCase(t *rapid.T) contentsCase {
	c := contentsCase{}
	for i, n := 0, 1+uniform(t, "n", 7); i < n; i++ {
		s := contentSpec{Hash: uniform(t, "hash", 20), Kind: uint(uniform(t, "kind", 4))}
		if chance(t, "bigkind", 25) {
			s.Kind = uint(drawU64(t, "kindval"))
		}
		if chance(t, "long", 15) {
			s.Data = B(expand(uniform(t, "seed", 100), intIn(t, "len", 1, 2000)))
			if rare(t, "verylong", 60) {
				s.Data = B(expand(uniform(t, "seed", 100), oneOf(t, "len", 4096, 32768, 65535, 65536, 65537, 70000)))
			}
		} else {
			s.Data = drawBytes(t, "data", 40)
			if len(s.Data) == 0 {
				s.Data = B{byte(uniform(t, "byte", 256))}
			}
		}
		c.List = append(c.List, s)
	}
	if rare(t, "many", 300) {
		seed := uniform(t, "seed", 100)
		for i, n := 0, longLength(t, "ncontents")%1100; i < n; i++ {
			c.List = append(c.List, contentSpec{Hash: seed + i, Kind: uint(i % 5), Data: B(expand(seed+i, 1+i%7))})
		}
	}
	return c
}

// ---- malformed bytes ----

type mutation struct {
	Op  string `json:"op"` // cut, flip, len, ins, del, dup
	At  int    `json:"at"` // position in 1/10000 of the length, or the index of a length field
	Val uint64 `json:"val"`
	N   int    `json:"n"`
}

type malformedCase struct {
	Decoder string       `json:"decoder"`
	Ref     refCase      `json:"ref"`
	Cont    contentsCase `json:"cont"`
	Raw     B            `json:"raw"`
	UseRaw  bool         `json:"useraw"`
	Muts    []mutation   `json:"muts"`
}

func applyMutations(data []byte, muts []mutation) []byte {
	data = append([]byte{}, data...)
	for _, m := range muts {
		if len(data) == 0 {
			return data
		}
		at := m.At * len(data) / 10000
		if at >= len(data) {
			at = len(data) - 1
		}
		switch m.Op {
		case "cut":
			data = data[:at]
		case "cutend": // a few bytes off the end
			n := m.N
			if n > len(data) {
				n = len(data)
			}
			data = data[:len(data)-n]
		case "cutfield": // in or after a plausible length field, or after what it measures
			fields := lengthFields(data)
			if len(fields) == 0 {
				continue
			}
			f := fields[m.At%len(fields)]
			if m.Val&1 == 1 {
				f += 8 + int(binary.LittleEndian.Uint64(data[f:]))
			}
			if f += m.N%18 - 9; f < 0 || f > len(data) {
				continue
			}
			data = data[:f]
		case "flip":
			data[at] ^= byte(m.Val%255) + 1
		case "len": // overwrite the m.At-th plausible length field with another value
			fields := lengthFields(data)
			if len(fields) == 0 {
				continue
			}
			f := fields[m.At%len(fields)]
			v := m.Val
			if m.N != 0 { // relative
				v = binary.LittleEndian.Uint64(data[f:]) + uint64(int64(m.N))
			}
			binary.LittleEndian.PutUint64(data[f:], v)
		case "ins":
			ins := expand(int(m.Val%1000), m.N%200)
			data = append(data[:at:at], append(ins, data[at:]...)...)
		case "del":
			end := at + m.N%100 + 1
			if end > len(data) {
				end = len(data)
			}
			data = append(data[:at:at], data[end:]...)
		case "dup":
			end := at + m.N%200 + 1
			if end > len(data) {
				end = len(data)
			}
			data = append(data[:end:end], data[at:]...)
		}
	}
	return data
}

// lengthFields lists the offsets holding a little-endian number smaller than 2^24: where lengths live.
func lengthFields(data []byte) []int {
	out := []int{}
	for i := 0; i+8 <= len(data); i++ {
		if v := binary.LittleEndian.Uint64(data[i:]); v != 0 && v < 1<<24 && (i == 0 || data[i] != 0) {
			out = append(out, i)
		}
	}
	return out
}

func drawMutations(t *rapid.T) []mutation {
	out := []mutation{}
	for i, n := 0, 1+uniform(t, "nmut", 3); i < n; i++ {
		m := mutation{Op: oneOf(t, "mut", "len", "cut", "flip", "ins", "del", "dup", "cutend", "len", "cutfield"), At: intIn(t, "at", 0, 10000), N: uniform(t, "n", 120)}
		if m.Op == "cutfield" {
			m.At, m.Val = uniform(t, "field", 40), uint64(uniform(t, "v", 2))
		} else if m.Op == "len" {
			m.At = uniform(t, "field", 40)
			if chance(t, "rel", 50) {
				m.N = oneOf(t, "rel", 1, -1, 8, -8, 2, 64, -64, 100)
			} else {
				m.N = 0
				m.Val = oneOf(t, "val", uint64(0), 1, 7, 8, 63, 64, 72, 127, 128, 1<<16, 1<<31, 1<<32, 1<<62, 1<<63-1, 1<<63, 1<<63+8, ^uint64(0)-7, ^uint64(0)-8, ^uint64(0)-16, ^uint64(0))
			}
		} else {
			m.Val = uint64(uniform(t, "v", 256))
		}
		out = append(out, m)
	}
	return out
}

// encodeNamed makes a valid encoding for a decoder out of the case.
func encodeNamed(c malformedCase) ([]byte, error) {
	switch c.Decoder {
	case "content", "contents":
		ins, err := buildContents(c.Cont)
		if err != nil {
			return nil, err
		}
		if c.Decoder == "contents" {
			return contents.NewAdapter().ToContent(ins)
		}
		return contents.NewContentAdapter().ToContent(ins.List()[0])
	}
	ref, err := buildReference(c.Ref)
	if err != nil {
		return nil, err
	}
	tree := ref.Commits().List()[0].Values()
	d := decoderNamed(c.Decoder)
	switch c.Decoder {
	case "reference":
		return d.enc(c.Ref.Mining, ref)
	case "commits":
		return d.enc(c.Ref.Mining, ref.Commits())
	case "commit":
		return d.enc(c.Ref.Mining, ref.Commits().List()[0])
	case "contentKeys":
		return d.enc(c.Ref.Mining, ref.ContentKeys())
	case "contentKey":
		return d.enc(c.Ref.Mining, ref.ContentKeys().List()[0])
	case "pointer":
		return d.enc(c.Ref.Mining, ref.ContentKeys().List()[0].Content())
	case "hashtree":
		return d.enc(c.Ref.Mining, tree)
	case "parentLeaf":
		return d.enc(c.Ref.Mining, tree.Parent())
	case "leaf":
		return d.enc(c.Ref.Mining, tree.Parent().Left())
	}
	compact, err := hashtrees.NewAdapter().ToCompact(tree)
	if err != nil {
		return nil, err
	}
	if c.Decoder == "compact" {
		return d.enc(c.Ref.Mining, compact)
	}
	return d.enc(c.Ref.Mining, compact.Leaves())
}

func init() {
	register(Prop{
		ID:       "C01",
		Rule:     "random references (1-5 commits, rarely some hundred, over 1-70 blocks, rarely up to 5000, with and without parent and proof, times over the whole nanosecond range and other zones; 1-6 content keys, rarely some hundred and now and then 66000, some twice the same, with extreme kinds and pointers), and each of their parts alone, encoded, decoded, compared field by field and encoded again. Non-trivial: a commit has a proof or a parent, or there are several commits or keys.",
		Quick:    24000,
		Thorough: 720000,
		Assume:   []string{"proofs are not negative", "times are within the range of a 64-bit nanosecond count"},
	}, func(t *rapid.T) refCase {
		c := drawRefCase(t)
		if rare(t, "more", 3000) {
			c.More = oneOf(t, "morekeys", 65535, 65536, 66000)
		}
		return c
	}, func(c refCase, rec *Rec) error {
		ref, err := buildReference(c)
		if err != nil {
			return fmt.Errorf("building the reference: %v", err)
		}
		for i, one := range ref.Commits().List() {
			s := c.Commits[i]
			rec.LabelIf(s.Mined, "commit with a proof")
			rec.LabelIf(s.Parent >= 0, "commit with a parent")
			rec.LabelIf(s.Mined && s.Parent >= 0, "commit with both")
			rec.LabelIf(len(s.Tree.Blocks) > 16, "values of more than 16 blocks")
			rec.LabelIf(s.Nano < 0, "time before 1970")
			// the specification is what was built
			if one.HasMine() != s.Mined || one.HasParent() != (s.Parent >= 0) || !one.CreatedOn().Equal(time.Unix(0, s.Nano)) {
				return fmt.Errorf("commit %d was built with another time, parent or proof than given", i)
			}
			if s.Mined && one.Mine().Proof().Cmp(new(big.Int).SetBytes(s.Proof)) != 0 {
				return fmt.Errorf("commit %d was built with another proof than given", i)
			}
			if s.Parent >= 0 && !bytes.Equal(one.Parent().Bytes(), labelHash(s.Parent)) {
				return fmt.Errorf("commit %d was built with another parent than given", i)
			}
			rec.Evals++
			if _, err := via("commit", c.Mining, one); err != nil {
				return err
			}
		}
		rec.LabelIf(c.More > 0, "more than 65535 keys")
		keys := c.keys()
		for i, one := range ref.ContentKeys().List() {
			s := keys[i]
			if uint64(one.Content().From()) != s.From || uint64(one.Content().Length()) != s.Len || one.Kind() != s.Kind || !bytes.Equal(one.Hash(), labelHash(s.Hash)) || !bytes.Equal(one.Commit(), labelHash(1000+s.Commit)) {
				return fmt.Errorf("content key %d was built with other fields than given", i)
			}
			if i >= len(c.Keys) {
				continue
			}
			rec.Evals += 2
			if _, err := via("contentKey", c.Mining, one); err != nil {
				return err
			}
			if _, err := via("pointer", c.Mining, one.Content()); err != nil {
				return err
			}
		}
		rec.Evals += 3
		if _, err := via("contentKeys", c.Mining, ref.ContentKeys()); err != nil {
			return err
		}
		if _, err := via("commits", c.Mining, ref.Commits()); err != nil {
			return err
		}
		rec.NonTrivial = len(c.Commits) > 1 || len(c.Keys) > 1 || c.Commits[0].Mined || c.Commits[0].Parent >= 0
		_, err = via("reference", c.Mining, ref)
		return err
	})

	register(Prop{
		ID:       "C02",
		Rule:     "random lists of 1-7 contents, rarely some hundred (1-2000 bytes, rarely up to 70000, extreme kinds, repeated hashes) and each content alone, encoded, decoded, compared and encoded again. Non-trivial: several contents.",
		Quick:    160000,
		Thorough: 4800000,
	}, drawContentsCase, func(c contentsCase, rec *Rec) error {
		ins, err := buildContents(c)
		if err != nil {
			return err
		}
		for i, one := range ins.List() {
			s := c.List[i]
			if !bytes.Equal(one.Data(), s.Data) || one.Kind() != s.Kind || !bytes.Equal(one.Hash(), labelHash(s.Hash)) {
				return fmt.Errorf("content %d was built with other fields than given", i)
			}
			rec.Evals++
			if _, err := via("content", 0, one); err != nil {
				return err
			}
		}
		rec.NonTrivial = len(c.List) > 1
		rec.LabelIf(len(c.List) > 3, "more than three contents")
		_, err = via("contents", 0, ins)
		return err
	})

	register(Prop{
		ID:       "C03",
		Rule:     "random lists of 1-90 blocks, rarely 127-5000 and now and then 65536 of them (empty, repeated, hash-sized, some of up to 5000 bytes) made into a hashtree, its leaves, its parent leaf, its list of leaves and its compact form; each encoded, decoded, compared node by node and encoded again; the tree rebuilt from the leaves of its compact form must be the same tree, and so must the one made of its two halves. One case out of seven is a list of 1-9 leaves, rarely up to 256, with any heads and trees of any shape under them: each leaf, the list, and compact forms and trees made of them are encoded and decoded the same way, and a tree is made of the list exactly when its length is a power of two. Non-trivial: more than two blocks, or leaves with something under them.",
		Quick:    64000,
		Thorough: 1920000,
	}, func(t *rapid.T) treeSpec {
		if chance(t, "shapes", 15) {
			return treeSpec{Shapes: drawShapes(t)}
		}
		c := treeSpec{Blocks: drawBlocks(t, oneOf(t, "max", 1, 2, 5, 9, 20, 90))}
		if rare(t, "more", 10000) {
			c.More = oneOf(t, "moreblocks", 40000, 65536)
		}
		return c
	},
		func(c treeSpec, rec *Rec) error {
			if len(c.Shapes) > 0 {
				return runShapes(c, rec)
			}
			tree, err := buildTree(c)
			if err != nil {
				return fmt.Errorf("building an hashtree of %d blocks: %v", len(c.all()), err)
			}
			blocks := c.all()
			rec.NonTrivial = len(blocks) > 2
			rec.LabelIf(c.More > 0, "more than 32768 blocks")
			rec.LabelIf(len(blocks)&(len(blocks)-1) != 0, "not a power of two")
			rec.LabelIf(len(c.Blocks) > 32, "more than 32 blocks")
			rec.LabelIf(len(c.Blocks) > 256, "more than 256 blocks")
			rec.Evals += 6
			if _, err := via("hashtree", 0, tree); err != nil {
				return err
			}
			if _, err := via("parentLeaf", 0, tree.Parent()); err != nil {
				return err
			}
			if _, err := via("leaf", 0, tree.Parent().Left()); err != nil {
				return err
			}
			compact, err := hashtrees.NewAdapter().ToCompact(tree)
			if err != nil {
				return fmt.Errorf("ToCompact: %v", err)
			}
			if !bytes.Equal(compact.Head(), tree.Head()) {
				return fmt.Errorf("the compact form has another head")
			}
			length, err := hashtrees.NewAdapter().ToLength(tree)
			if err != nil {
				return fmt.Errorf("ToLength: %v", err)
			}
			if *length != compact.Length() || int(*length) != len(merkleLeaves(blocks)) {
				return fmt.Errorf("ToLength %d, the compact form has %d leaves, %d expected", *length, compact.Length(), len(merkleLeaves(blocks)))
			}
			if _, err := via("leaves", 0, compact.Leaves()); err != nil {
				return err
			}
			data, err := via("compact", 0, compact)
			if err != nil {
				return err
			}
			back, err := hashtrees.NewCompactAdapter().ToCompact(data)
			if err != nil {
				return fmt.Errorf("ToCompact: %v", err)
			}
			again, err := hashtrees.NewLeavesAdapter().ToHashTree(back.Leaves())
			if err != nil {
				return fmt.Errorf("the tree cannot be rebuilt from its leaves: %v", err)
			}
			if dTree(again) != dTree(tree) {
				return fmt.Errorf("the tree rebuilt from its leaves differs:\n%s\nwas:\n%s", clip(dTree(again)), clip(dTree(tree)))
			}
			// the two halves of the tree are leaves as well, with all that is under them
			halves, err := hashtrees.NewLeavesBuilder().Create().WithList([]hashtrees.Leaf{tree.Parent().Left(), tree.Parent().Right()}).Now()
			if err != nil {
				return fmt.Errorf("making leaves of the halves of the tree: %v", err)
			}
			if data, err = via("leaves", 0, halves); err != nil {
				return fmt.Errorf("the halves of the tree: %w", err)
			}
			if halves, err = hashtrees.NewLeavesAdapter().ToLeaves(data); err != nil {
				return fmt.Errorf("the halves of the tree: %w", err)
			}
			again, err = hashtrees.NewLeavesAdapter().ToHashTree(halves)
			if err != nil {
				return fmt.Errorf("the tree cannot be made of its halves: %v", err)
			}
			if dTree(again) != dTree(tree) {
				return fmt.Errorf("the tree made of its halves differs:\n%s\nwas:\n%s", clip(dTree(again)), clip(dTree(tree)))
			}
			return nil
		})

	register(Prop{
		ID:       "C04",
		Rule:     "each of the 13 decoders fed with valid encodings of random instances after 1-3 mutations (length fields replaced by boundary and huge values, truncation, insertion, deletion, duplication, flips) or with arbitrary bytes of 0-400; it must return an instance or an error, and an instance must encode and decode to itself. Non-trivial: the bytes differ from every valid encoding made.",
		Quick:    320000,
		Thorough: 9600000,
	}, func(t *rapid.T) malformedCase {
		names := []string{}
		for _, d := range decoders {
			names = append(names, d.name)
		}
		c := malformedCase{Decoder: oneOf(t, "decoder", names...)}
		if chance(t, "raw", 12) {
			c.UseRaw = true
			c.Raw = B(expand(uniform(t, "seed", 100), intIn(t, "len", 0, 400)))
			if chance(t, "zeros", 50) {
				for i := range c.Raw {
					if i%8 != 0 {
						c.Raw[i] = 0
					}
				}
			}
			return c
		}
		c.Muts = drawMutations(t)
		if c.Decoder == "content" || c.Decoder == "contents" {
			for i, n := 0, 1+uniform(t, "n", 3); i < n; i++ {
				c.Cont.List = append(c.Cont.List, contentSpec{Hash: i, Kind: uint(i), Data: B(expand(i, 1+uniform(t, "len", 30)))})
			}
			return c
		}
		for i, n := 0, 1+uniform(t, "ncommits", 3); i < n; i++ {
			cs := commitSpec{Nano: 1668000000000000000, Parent: -1}
			for b, nb := 0, 1+uniform(t, "nb", 5); b < nb; b++ {
				cs.Tree.Blocks = append(cs.Tree.Blocks, B{byte(b)})
			}
			if chance(t, "parent", 50) {
				cs.Parent = 1
			}
			if chance(t, "mined", 50) {
				cs.Mined, cs.Proof = true, drawBytes(t, "proof", 9)
			}
			c.Ref.Commits = append(c.Ref.Commits, cs)
		}
		for i, n := 0, 1+uniform(t, "nkeys", 5); i < n; i++ {
			c.Ref.Keys = append(c.Ref.Keys, keySpec{Hash: i, Kind: uint(i), From: uint64(i), Len: 5, Commit: i})
		}
		return c
	}, func(c malformedCase, rec *Rec) error {
		data := []byte(c.Raw)
		if !c.UseRaw {
			valid, err := encodeNamed(c)
			if err != nil {
				return fmt.Errorf("encoding a %s: %v", c.Decoder, err)
			}
			data = applyMutations(valid, c.Muts)
			rec.NonTrivial = !bytes.Equal(valid, data)
		} else {
			rec.NonTrivial = true
		}
		d := decoderNamed(c.Decoder)
		keep := append([]byte{}, data...)
		data = data[:len(data):len(data)] // nothing can be read after the end
		before := allocated()
		ins, err := d.dec(c.Ref.Mining, data)
		if used := allocated() - before; used > outOfProportion(len(data)) {
			return fmt.Errorf("decoding %d bytes as a %s used %d bytes of memory", len(data), c.Decoder, used)
		}
		if !bytes.Equal(keep, data) {
			return fmt.Errorf("decoding a %s changed the bytes it was given", c.Decoder)
		}
		if err != nil {
			rec.Label(c.Decoder + ": rejected")
			return nil
		}
		rec.Label(c.Decoder + ": accepted")
		if _, err := via(c.Decoder, c.Ref.Mining, ins); err != nil {
			return fmt.Errorf("the instance decoded from malformed bytes: %w", err)
		}
		return nil
	})

	type idCase struct {
		Mining byte       `json:"mining"`
		Base   commitSpec `json:"base"`
		Change string     `json:"change"`
		Other  commitSpec `json:"other"`
		Lead   int        `json:"lead"` // search a proof whose result starts with this many equal bytes, and mine for that byte
	}
	register(Prop{
		ID:       "C05",
		Rule:     "random commits built twice and with one field changed (a block, the time by a nanosecond, the parent, the proof); equal fields must give equal hashes, a changed field another hash; hash, mining result and score are recomputed independently, for a mining value chosen so that 0, 1, 2 or 3 leading bytes match. Non-trivial: a mined commit, or a changed field.",
		Quick:    32000,
		Thorough: 960000,
	}, func(t *rapid.T) idCase {
		c := idCase{Mining: byte(uniform(t, "mining", 256)), Base: drawCommitSpec(t), Change: oneOf(t, "change", "none", "block", "time", "parent", "noparent", "proof")}
		if len(c.Base.Tree.Blocks) > 6 {
			c.Base.Tree.Blocks = c.Base.Tree.Blocks[:6]
		}
		if c.Base.Mined {
			c.Lead = oneOf(t, "lead", 0, 1, 1, 2, 2, 0)
			if chance(t, "lead3", 1) {
				c.Lead = 3
			}
		}
		return c
	}, func(c idCase, rec *Rec) error {
		oracle := func(s commitSpec) ([]byte, []byte) {
			buf := merkleHead(rawBlocks(s.Tree.Blocks))
			buf = append(append([]byte{}, buf...), []byte(fmt.Sprintf("%d", s.Nano))...)
			if s.Parent >= 0 {
				buf = append(buf, labelHash(s.Parent)...)
			}
			proof := new(big.Int).SetBytes(s.Proof).Bytes()
			if s.Mined {
				buf = append(buf, proof...)
			}
			h := refHash(buf)
			return h, refHash(append(append([]byte{}, h...), proof...))
		}
		s := c.Base
		if s.Mined && len(new(big.Int).SetBytes(s.Proof).Bytes()) == 0 && c.Lead > 0 {
			s.Proof = B{1}
		}
		if s.Mined && c.Lead > 0 {
			p := new(big.Int).SetBytes(s.Proof)
			for i := 0; i < 2000000; i++ {
				s.Proof = p.Bytes()
				_, res := oracle(s)
				ok := true
				for k := 1; k < c.Lead; k++ {
					ok = ok && res[k] == res[0]
				}
				if ok {
					c.Mining = res[0]
					break
				}
				p.Add(p, big.NewInt(1))
			}
		}
		a, err := buildCommit(s, c.Mining)
		if err != nil {
			return fmt.Errorf("building the commit: %v", err)
		}
		b, err := buildCommit(s, c.Mining)
		if err != nil {
			return fmt.Errorf("building the commit again: %v", err)
		}
		if dCommit(a) != dCommit(b) {
			return fmt.Errorf("the same fields gave two different commits")
		}
		id, res := oracle(s)
		if !bytes.Equal(a.Hash(), id) {
			return fmt.Errorf("the hash of the commit is not the one of its values, time, parent and proof")
		}
		if a.HasMine() {
			score := uint(0)
			for _, x := range res {
				if x != c.Mining {
					break
				}
				score++
			}
			rec.Label(fmt.Sprintf("score %d", score))
			if !bytes.Equal(a.Mine().Result(), res) {
				return fmt.Errorf("the mining result is not the hash of the commit and its proof")
			}
			if a.Mine().Score() != score {
				return fmt.Errorf("score %d, but %d leading bytes of the result equal the mining value", a.Mine().Score(), score)
			}
			rec.NonTrivial = true
		} else if s.Mined {
			return fmt.Errorf("a proof was given but the commit is not mined")
		}
		o := s
		o.Tree.Blocks = append([]B{}, s.Tree.Blocks...)
		switch c.Change {
		case "none":
			return nil
		case "block":
			o.Tree.Blocks[0] = B("another block, of another length than the first one has")
		case "time":
			o.Nano++
			if o.Nano < s.Nano {
				return nil
			}
		case "parent":
			o.Parent = 77
		case "noparent":
			if o.Parent < 0 {
				return nil
			}
			o.Parent = -1
		case "proof":
			if !o.Mined {
				return nil
			}
			o.Proof = new(big.Int).Add(new(big.Int).SetBytes(o.Proof), big.NewInt(1)).Bytes()
		}
		rec.NonTrivial = true
		rec.Label("changed: " + c.Change)
		d, err := buildCommit(o, c.Mining)
		if err != nil {
			return fmt.Errorf("building the changed commit: %v", err)
		}
		if bytes.Equal(d.Hash(), a.Hash()) {
			return fmt.Errorf("changing the %s did not change the hash of the commit", c.Change)
		}
		return nil
	})

	register(Prop{
		ID:       "C06",
		Rule:     "random lists of 1-12 content keys, rarely some hundred, and 1-5 commits with repeated hashes and kinds; lookup by hash, listing by kind, the next free offset and the latest commit compared with a linear scan, before and after a round trip. Non-trivial: a repeated hash or kind.",
		Quick:    200000,
		Thorough: 6000000,
	}, func(t *rapid.T) refCase {
		c := refCase{Mining: 0}
		for i, n := 0, 1+uniform(t, "nkeys", 12); i < n; i++ {
			if i > 0 && chance(t, "samekey", 5) { // the same key again
				c.Keys = append(c.Keys, c.Keys[uniform(t, "which", i)])
				continue
			}
			k := drawKeySpec(t)
			k.Hash = uniform(t, "hash", 6)
			k.From, k.Len = uint64(intIn(t, "from", 0, 1<<40)), uint64(intIn(t, "len", 1, 1<<40))
			c.Keys = append(c.Keys, k)
		}
		if rare(t, "manykeys", 200) {
			for i, n := 0, longLength(t, "nkeys")%1100; i < n; i++ {
				c.Keys = append(c.Keys, keySpec{Hash: i % 300, Kind: uint(i % 7), From: uint64(i) * 1000, Len: uint64(1 + i), Commit: i % 9})
			}
		}
		for i, n := 0, 1+uniform(t, "ncommits", 5); i < n; i++ {
			s := commitSpec{Tree: treeSpec{Blocks: []B{{byte(uniform(t, "b", 4))}}}, Nano: int64(uniform(t, "nano", 3)), Parent: -1}
			c.Commits = append(c.Commits, s)
		}
		return c
	}, func(c refCase, rec *Rec) error {
		ref, err := buildReference(c)
		if err != nil {
			return err
		}
		data, err := references.NewAdapter(c.Mining).ToContent(ref)
		if err != nil {
			return err
		}
		back, err := references.NewAdapter(c.Mining).ToReference(data)
		if err != nil {
			return err
		}
		for _, r := range []references.Reference{ref, back} {
			keys := r.ContentKeys()
			next := uint64(0)
			last := map[int]keySpec{}
			byKind := map[uint][]keySpec{}
			for _, k := range c.Keys {
				if k.From+k.Len > next {
					next = k.From + k.Len
				}
				if _, ok := last[k.Hash]; ok {
					rec.NonTrivial = true
					rec.Label("repeated hash")
				}
				last[k.Hash] = k
				byKind[k.Kind] = append(byKind[k.Kind], k)
				if len(byKind[k.Kind]) > 1 {
					rec.NonTrivial = true
				}
			}
			if uint64(keys.Next()) != next {
				return fmt.Errorf("Next is %d, the furthest content ends at %d", keys.Next(), next)
			}
			if len(keys.List()) != len(c.Keys) {
				return fmt.Errorf("List has %d content keys, %d were given", len(keys.List()), len(c.Keys))
			}
			match := func(ck references.ContentKey, k keySpec) bool {
				return bytes.Equal(ck.Hash(), labelHash(k.Hash)) && ck.Kind() == k.Kind && uint64(ck.Content().From()) == k.From && uint64(ck.Content().Length()) == k.Len && bytes.Equal(ck.Commit(), labelHash(1000+k.Commit))
			}
			probes := map[int]bool{}
			for h := 0; h < 8; h++ {
				probes[h] = true
			}
			for h := range last {
				probes[h] = true
			}
			for h := range probes {
				got, err := keys.Fetch(labelHash(h))
				want, ok := last[h]
				if ok != (err == nil) {
					return fmt.Errorf("Fetch(label %d): error %v, present %v", h, err, ok)
				}
				if ok && !match(got, want) {
					return fmt.Errorf("Fetch(label %d) did not return the last content key of that hash", h)
				}
			}
			kinds := map[uint]bool{}
			for kind := range auditKinds() {
				kinds[uint(kind)] = true
			}
			for kind := range byKind {
				kinds[kind] = true
			}
			for kind := range kinds {
				list := keys.ListByKind(kind)
				if len(list) != len(byKind[kind]) {
					return fmt.Errorf("ListByKind(%d) has %d content keys, %d of that kind were given", kind, len(list), len(byKind[kind]))
				}
				for i := range list {
					if !match(list[i], byKind[kind][i]) {
						return fmt.Errorf("ListByKind(%d): element %d is not the one given", kind, i)
					}
				}
			}
			commits := r.Commits()
			list := commits.List()
			if len(list) != len(c.Commits) {
				return fmt.Errorf("%d commits are listed, %d were given", len(list), len(c.Commits))
			}
			if commits.Latest() != list[len(list)-1] {
				return fmt.Errorf("Latest is not the last commit")
			}
			for i, one := range list {
				got, err := commits.Fetch(one.Hash())
				if err != nil {
					return fmt.Errorf("Fetch(commit %d): %v", i, err)
				}
				if dCommit(got) != dCommit(one) {
					return fmt.Errorf("Fetch(commit %d) returned another commit", i)
				}
			}
			if _, err := commits.Fetch(labelHash(3)); err == nil {
				return fmt.Errorf("Fetch of an unknown hash returned a commit")
			}
		}
		return nil
	})

	type hashCase struct {
		Parts []B    `json:"parts"`
		Other B      `json:"other"`
		Str   string `json:"str"`
	}
	register(Prop{
		ID:       "H01",
		Rule:     "random byte strings split in 0-5 parts of 0-140 bytes (dense around 64), rarely up to 5000, and random strings; hashes compared with SHA-512 (hash-sized input is taken as the hash), multi-part with concatenation, text form with hexadecimal, comparison with byte equality. Non-trivial: two or more parts or a hash-sized input.",
		Quick:    640000,
		Thorough: 19200000,
	}, func(t *rapid.T) hashCase {
		c := hashCase{}
		for i, n := 0, uniform(t, "n", 6); i < n; i++ {
			switch uniform(t, "class", 4) {
			case 0:
				c.Parts = append(c.Parts, B(expand(uniform(t, "seed", 50), 60+uniform(t, "len", 9))))
			case 1:
				c.Parts = append(c.Parts, B(expand(uniform(t, "seed", 50), 32)))
			case 2:
				if rare(t, "longpart", 12) {
					c.Parts = append(c.Parts, B(expand(uniform(t, "seed", 50), longLength(t, "len"))))
					continue
				}
				c.Parts = append(c.Parts, B(expand(uniform(t, "seed", 50), uniform(t, "len", 140))))
			default:
				c.Parts = append(c.Parts, drawBytes(t, "part", 10))
			}
		}
		c.Other = drawBytes(t, "other", 5)
		if chance(t, "hex", 50) {
			c.Str = hex.EncodeToString(drawBytes(t, "hexbytes", 6))
			if chance(t, "upper", 30) {
				c.Str = strings.ToUpper(c.Str)
			}
			if chance(t, "full size", 20) {
				c.Str = hex.EncodeToString(expand(uniform(t, "seed", 50), 63+uniform(t, "len", 3)))
			}
			if chance(t, "broken", 30) && len(c.Str) > 0 {
				c.Str = c.Str[:len(c.Str)-1] + oneOf(t, "brk", "", "g", "z", " ", "-")
			}
			if chance(t, "around", 25) {
				c.Str = oneOf(t, "before", "", "0x", "0X", "#", "\\x", "h", " ", "\"", "+") + c.Str + oneOf(t, "after", "", "h", "\n", " ", "\x00", "=", "\"")
			}
			if chance(t, "within", 10) {
				at := uniform(t, "at", len(c.Str)+1)
				c.Str = c.Str[:at] + oneOf(t, "separator", ":", " ", "_", "-", "\n", "é") + c.Str[at:]
			}
		} else {
			c.Str = string(rapid.StringN(0, 12, 40).Draw(t, "str"))
		}
		return c
	}, func(c hashCase, rec *Rec) error {
		ad := hash.NewAdapter()
		all := []byte{}
		parts := [][]byte{}
		for _, p := range c.Parts {
			all = append(all, p...)
			parts = append(parts, append([]byte{}, p...))
		}
		rec.NonTrivial = len(parts) > 1 || len(all) == 64
		rec.LabelIf(len(all) == 64, "hash-sized input")
		want := refHash(all)
		in := append([]byte{}, all...)
		h, err := ad.FromBytes(in)
		if err != nil {
			return fmt.Errorf("FromBytes: %v", err)
		}
		for i := range in {
			in[i] ^= 0xff
		}
		if !bytes.Equal(h.Bytes(), want) {
			return fmt.Errorf("FromBytes of %d bytes is not their hash (or changes with the input afterwards)", len(all))
		}
		m, err := ad.FromMultiBytes(parts)
		if err != nil {
			return fmt.Errorf("FromMultiBytes: %v", err)
		}
		if !bytes.Equal(m.Bytes(), want) {
			return fmt.Errorf("FromMultiBytes of %d parts is not the hash of their concatenation", len(parts))
		}
		for i := range parts {
			if !bytes.Equal(parts[i], c.Parts[i]) {
				return fmt.Errorf("FromMultiBytes changed its input")
			}
		}
		if h.String() != hex.EncodeToString(want) {
			return fmt.Errorf("String is not the hexadecimal form of the hash")
		}
		b, err := ad.FromString(h.String())
		if err != nil {
			return fmt.Errorf("FromString(String()): %v", err)
		}
		if !b.Compare(*h) || !h.Compare(*b) || !bytes.Equal(*b, *h) {
			return fmt.Errorf("FromString(String()) is another hash")
		}
		o, err := ad.FromBytes(c.Other)
		if err != nil {
			return fmt.Errorf("FromBytes: %v", err)
		}
		if o.Compare(*h) != bytes.Equal(o.Bytes(), h.Bytes()) {
			return fmt.Errorf("Compare disagrees with byte equality")
		}
		// a hash differing in one byte is another hash
		x := append(hash.Hash{}, *h...)
		for i := range x {
			x[i] ^= 1 << (i % 8)
			if x.Compare(*h) || h.Compare(x) {
				return fmt.Errorf("Compare takes two hashes that differ in byte %d for the same", i)
			}
			x[i] ^= 1 << (i % 8)
		}
		raw, herr := hex.DecodeString(c.Str)
		s, err := ad.FromString(c.Str)
		if (herr == nil) != (err == nil) {
			return fmt.Errorf("FromString(%q): error %v, hexadecimal decoding: error %v", c.Str, err, herr)
		}
		rec.LabelIf(err != nil, "invalid text rejected")
		if err == nil && !bytes.Equal(s.Bytes(), refHash(raw)) {
			return fmt.Errorf("FromString(%q) is not the hash of the bytes it spells", c.Str)
		}
		return nil
	})

	type merkleCase struct {
		Blocks []B    `json:"blocks"`
		Extra  B      `json:"extra"` // what follows the blocks in the caller's array
		Change string `json:"change"`
		I, J   int
	}
	register(Prop{
		ID:       "H02",
		Rule:     "random lists of 0-90 blocks, rarely 127-5000 of them (empty, repeated, hash-sized); head, every node, height and leaves compared with an independent Merkle tree; the caller's blocks must stay as they were; one block changed, removed or two swapped must change the head exactly when it changes the padded list of leaf hashes; no blocks must be an error. Non-trivial: more than two blocks.",
		Quick:    240000,
		Thorough: 7200000,
		Assume:   []string{"SHA-512 has no collisions on the generated inputs"},
	}, func(t *rapid.T) merkleCase {
		c := merkleCase{Extra: B("next"), Change: oneOf(t, "change", "alter", "swap", "remove", "append")}
		if !chance(t, "none", 3) {
			c.Blocks = drawBlocks(t, oneOf(t, "max", 1, 2, 3, 5, 9, 18, 90))
		}
		c.I, c.J = uniform(t, "i", 100), uniform(t, "j", 100)
		return c
	}, func(c merkleCase, rec *Rec) error {
		array := append(rawBlocks(c.Blocks), []byte(c.Extra))
		tree, err := hashtrees.NewBuilder().Create().WithBlocks(array[:len(c.Blocks)]).Now()
		if len(c.Blocks) == 0 {
			if err == nil {
				return fmt.Errorf("an hashtree of zero blocks was built")
			}
			rec.Label("zero blocks rejected")
			return nil
		}
		if err != nil {
			return fmt.Errorf("building an hashtree of %d blocks: %v", len(c.Blocks), err)
		}
		for i := range c.Blocks {
			if !bytes.Equal(array[i], c.Blocks[i]) {
				return fmt.Errorf("building the hashtree changed block %d of the caller", i)
			}
		}
		if !bytes.Equal(array[len(c.Blocks)], c.Extra) {
			return fmt.Errorf("building the hashtree overwrote the caller's memory after the blocks")
		}
		rec.NonTrivial = len(c.Blocks) > 2
		blocks := rawBlocks(c.Blocks)
		if !bytes.Equal(tree.Head(), merkleHead(blocks)) {
			return fmt.Errorf("the head over %d blocks is not their Merkle root", len(blocks))
		}
		leaves := merkleLeaves(blocks)
		height := uint(1)
		for n := 1; n < len(leaves); n *= 2 {
			height++
		}
		if tree.Height() != height {
			return fmt.Errorf("the height over %d leaves is %d, expected %d", len(leaves), tree.Height(), height)
		}
		got := [][]byte{}
		var walk func(l hashtrees.Leaf) error
		walk = func(l hashtrees.Leaf) error {
			if !l.HasParent() {
				got = append(got, l.Head())
				return nil
			}
			p := l.Parent()
			if !bytes.Equal(l.Head(), refHash(append(append([]byte{}, p.Left().Head()...), p.Right().Head()...))) {
				return fmt.Errorf("an inner node is not the hash of its two children")
			}
			if err := walk(p.Left()); err != nil {
				return err
			}
			return walk(p.Right())
		}
		p := tree.Parent()
		if !bytes.Equal(tree.Head(), refHash(append(append([]byte{}, p.Left().Head()...), p.Right().Head()...))) {
			return fmt.Errorf("the head is not the hash of its two children")
		}
		if err := walk(p.Left()); err != nil {
			return err
		}
		if err := walk(p.Right()); err != nil {
			return err
		}
		if err := sameBlocks("the leaves", got, leaves); err != nil {
			return err
		}
		// the metamorphic part
		other := append([][]byte{}, blocks...)
		i, j := c.I%len(blocks), c.J%len(blocks)
		switch c.Change {
		case "alter":
			other[i] = append(append([]byte{}, other[i]...), 'x')
		case "swap":
			other[i], other[j] = other[j], other[i]
		case "remove":
			if len(other) == 1 {
				return nil
			}
			other = append(other[:i:i], other[i+1:]...)
		case "append":
			other = append(other, []byte(c.Extra))
		}
		second, err := hashtrees.NewBuilder().Create().WithBlocks(other).Now()
		if err != nil {
			return fmt.Errorf("building an hashtree of %d blocks: %v", len(other), err)
		}
		otherLeaves := merkleLeaves(other)
		same := len(otherLeaves) == len(leaves)
		for k := 0; same && k < len(leaves); k++ {
			same = bytes.Equal(leaves[k], otherLeaves[k])
		}
		rec.LabelIf(!same, "changed blocks")
		if bytes.Equal(second.Head(), tree.Head()) != same {
			return fmt.Errorf("%s: the leaves are the same: %v, the heads are the same: %v", c.Change, same, !same)
		}
		return nil
	})

	type orderCase struct {
		Blocks  []B   `json:"blocks"`
		Perm    []int `json:"perm"`
		Drop    []int `json:"drop"`
		Foreign B     `json:"foreign"`
		Add     bool  `json:"add"`
	}
	register(Prop{
		ID:       "H03",
		Rule:     "random lists of 1-40 blocks, rarely up to 1030 (empty and repeated ones included) shuffled, with some blocks left out, and sometimes one block that is not in the tree; ordering must give back the blocks in the order of the tree, each as often as given, and reject a foreign block. Non-trivial: the shuffled order differs from the tree's.",
		Quick:    240000,
		Thorough: 7200000,
		Assume:   []string{"no block is the 64-byte hash of another block"},
	}, func(t *rapid.T) orderCase {
		c := orderCase{}
		n := 1 + uniform(t, "n", oneOf(t, "max", 2, 3, 6, 12, 40))
		idx := []int{}
		for i := 0; i < n; i++ {
			switch uniform(t, "class", 5) {
			case 0:
				c.Blocks = append(c.Blocks, B{})
			case 1, 2:
				c.Blocks = append(c.Blocks, B{byte('a' + uniform(t, "letter", 5))})
			default:
				c.Blocks = append(c.Blocks, drawBytes(t, "block", 6))
			}
			idx = append(idx, i)
		}
		if rare(t, "many", 300) {
			for _, b := range drawMany(t, oneOf(t, "nmany", 127, 129, 255, 257, 300, 1030)) {
				idx = append(idx, len(c.Blocks))
				c.Blocks = append(c.Blocks, b)
			}
		}
		c.Perm = rapid.Permutation(idx).Draw(t, "perm")
		if chance(t, "drop", 25) {
			for i := range idx {
				if chance(t, "dropone", 20) {
					c.Drop = append(c.Drop, i)
				}
			}
		}
		c.Add = chance(t, "add", 20)
		if c.Add {
			c.Foreign = append(B("foreign "), drawBytes(t, "foreign", 3)...)
		}
		return c
	}, func(c orderCase, rec *Rec) error {
		tree, err := buildTree(treeSpec{Blocks: c.Blocks})
		if err != nil {
			return fmt.Errorf("building an hashtree of %d blocks: %v", len(c.Blocks), err)
		}
		drop := map[int]bool{}
		for _, i := range c.Drop {
			drop[i] = true
		}
		mixed := [][]byte{}
		count := map[string]int{}
		for k, i := range c.Perm {
			if drop[i] {
				continue
			}
			if k != i {
				rec.NonTrivial = true
			}
			mixed = append(mixed, []byte(c.Blocks[i]))
			count[string(c.Blocks[i])]++
		}
		// expected: for blocks present several times in the tree, the first places are taken
		want := [][]byte{}
		left := map[string]int{}
		for k, v := range count {
			left[k] = v
		}
		for _, b := range c.Blocks {
			if left[string(b)] > 0 {
				left[string(b)]--
				want = append(want, []byte(b))
			}
		}
		if c.Add {
			at := len(mixed) / 2
			mixed = append(mixed[:at:at], append([][]byte{[]byte(c.Foreign)}, mixed[at:]...)...)
			if got, err := hashtrees.NewAdapter().ToOrder(tree, mixed); err == nil {
				return fmt.Errorf("ordering accepted a block that is not in the tree (%d blocks given, %d returned)", len(mixed), len(got))
			}
			rec.Label("foreign block rejected")
			return nil
		}
		if len(mixed) == 0 {
			return nil
		}
		rec.LabelIf(len(c.Drop) > 0, "some blocks left out")
		got, err := hashtrees.NewAdapter().ToOrder(tree, mixed)
		if err != nil {
			return fmt.Errorf("ToOrder of %d blocks: %v", len(mixed), err)
		}
		return sameBlocks("ToOrder", got, want)
	})
}
