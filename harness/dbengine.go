package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// labelHash is the hash under which content number n is stored. Three in a row are alike: the second differs
// from the first in its last byte only, the third in its first byte only.
func labelHash(n int) hash.Hash {
	like := ((n % 3) + 3) % 3
	h := sha512.Sum512([]byte(fmt.Sprintf("label-%d", n-like)))
	switch like {
	case 1:
		h[len(h)-1] ^= 0x01
	case 2:
		h[0] ^= 0x80
	}
	return hash.Hash(h[:])
}

// ---- the reference model of a database ----

type mContent struct {
	Hash   int
	Data   []byte
	Kind   uint
	Commit int
}

type mDB struct {
	Exists   bool
	Contents []mContent
	Commits  int
	Gen      int // changes whenever the stored file is replaced
}

func (m *mDB) clone() mDB {
	return mDB{Exists: m.Exists, Contents: append([]mContent{}, m.Contents...), Commits: m.Commits, Gen: m.Gen}
}

func (m *mDB) latest(h int) *mContent {
	for i := len(m.Contents) - 1; i >= 0; i-- {
		if m.Contents[i].Hash == h {
			return &m.Contents[i]
		}
	}
	return nil
}

func (m *mDB) concat() []byte {
	out := []byte{}
	for _, c := range m.Contents {
		out = append(out, c.Data...)
	}
	return out
}

// ---- configuration ----

type dbCfg struct {
	Chunk  int  `json:"chunk"`
	Mining byte `json:"mining"`
	Sub    bool `json:"sub"` // the directory does not exist yet and is nested
	Names  int  `json:"names,omitempty"`
}

func drawDBCfg(t *rapid.T) dbCfg {
	c := dbCfg{Mining: byte(intIn(t, "mining", 0, 255)), Sub: chance(t, "sub", 20), Names: uniform(t, "names", len(dbNames))}
	switch intIn(t, "chunkclass", 0, 4) {
	case 0:
		c.Chunk = oneOf(t, "chunk", 1000000, 4096, 1024)
	case 1:
		c.Chunk = intIn(t, "chunk", 1, 8)
	case 2:
		c.Chunk = intIn(t, "chunk", 9, 128)
	default:
		c.Chunk = intIn(t, "chunk", 129, 2500)
	}
	return c
}

func newApp(dir string, c dbCfg) applications.Application {
	return files.NewApplication(c.Mining, dir, "destination", "backup", uint(c.Chunk))
}

func caseDir(c dbCfg) (string, func()) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = scratchDir
	}
	dir, err := os.MkdirTemp(base, "db")
	if err != nil {
		panic(&harnessError{err.Error()})
	}
	use := dir
	if c.Sub {
		use = filepath.Join(dir, "nested", "deep")
	} else {
		use = filepath.Join(dir, "plain")
		if err := os.Mkdir(use, 0777); err != nil {
			panic(&harnessError{err.Error()})
		}
	}
	if folder := filepath.Dir(c.name(0)); folder != "." {
		if err := os.MkdirAll(filepath.Join(use, folder), 0777); err != nil {
			panic(&harnessError{err.Error()})
		}
	}
	return use, func() { os.RemoveAll(dir) }
}

// dbNames are the names of the databases of a case: unrelated, or one contained in, next to or looking like another.
var dbNames = [][]string{
	{"first", "second.db", "third"},
	{"data", "data.old", "folder/data"},
	{"data.old", "data", "DATA"},
	{"[ab]*", "a", "name with spaces"},
	{"é\\n%s", "-rf", "é"},
	{"folder/data", "data", "folder/data.old"},
	{strings.Repeat("n", 200) + "a", strings.Repeat("n", 200), strings.Repeat("n", 200) + "b"},
}

func (c dbCfg) name(i int) string {
	if i >= 3 {
		return fmt.Sprintf("%s-%d", c.name(i%3), i/3)
	}
	if c.Names < 0 || c.Names >= len(dbNames) {
		return dbNames[0][i]
	}
	return dbNames[c.Names][i]
}

// scribble changes what a reading call returned: it belongs to the caller.
func scribble(blocks ...[]byte) {
	for _, b := range blocks {
		for i := range b {
			b[i] ^= 0xa5
		}
	}
}

// drawDataLen draws a length around the interesting multiples of the chunk size.
func drawDataLen(t *rapid.T, chunk int) int {
	switch intIn(t, "lenclass", 0, 5) {
	case 0:
		return intIn(t, "len", 1, 8)
	case 1, 2:
		return intIn(t, "len", 1, 300)
	case 3: // around a multiple of the chunk size
		if chunk <= 3000 {
			n := chunk*intIn(t, "mult", 1, 3) + intIn(t, "off", -1, 1)
			if n < 1 {
				n = 1
			}
			return n
		}
		return intIn(t, "len", 1, 5000)
	case 4:
		return intIn(t, "len", 1, 2000)
	}
	return intIn(t, "len", 1, 60)
}

func drawKind(t *rapid.T) uint {
	if chance(t, "bigkind", 10) {
		return oneOf(t, "kind", uint(1)<<63, ^uint(0), 1<<32, 255, 256)
	}
	return uint(intIn(t, "kind", 0, 3))
}

// ---- comparisons of an open context with the model ----

type auditOpts struct {
	data    bool // contents read back
	keys    bool // the list of content keys is exactly the model's
	history bool // the commits
}

// pointersOf returns the content keys visible in a context, in order (nil when there is none).
func contentKeyList(app applications.Application, ctx uint, kinds map[uint]bool) ([]references.ContentKey, error) {
	out := []references.ContentKey{}
	sorted := []uint{}
	for k := range kinds {
		sorted = append(sorted, k)
	}
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	for _, k := range sorted {
		ins, err := app.ContentKeysByKind(ctx, k)
		if err != nil {
			continue
		}
		for _, ck := range ins.List() {
			if ck.Kind() != k {
				return nil, fmt.Errorf("ContentKeysByKind(%d) returned a content key of kind %d", k, ck.Kind())
			}
			out = append(out, ck)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Content().From() < out[j].Content().From() })
	return out, nil
}

// auditKinds are all kinds a history can have used
func auditKinds(extra ...uint) map[uint]bool {
	kinds := map[uint]bool{0: true, 1: true, 2: true, 3: true, 4: true, 1 << 63: true, ^uint(0): true, 1 << 32: true, 255: true, 256: true}
	for _, k := range extra {
		kinds[k] = true
	}
	return kinds
}

// auditData checks that everything committed is read back through every reading call.
func auditData(app applications.Application, ctx uint, m *mDB) error {
	hashes := []hash.Hash{}
	want := [][]byte{}
	seen := map[int]bool{}
	for _, c := range m.Contents {
		if seen[c.Hash] {
			continue
		}
		seen[c.Hash] = true
		last := m.latest(c.Hash)
		got, err := app.ReadByHash(ctx, labelHash(c.Hash))
		if err != nil {
			return fmt.Errorf("ReadByHash(label %d): %v", c.Hash, err)
		}
		if !bytes.Equal(got, last.Data) {
			return fmt.Errorf("ReadByHash(label %d) returned %d bytes that differ from the %d bytes committed (first difference at %d)", c.Hash, len(got), len(last.Data), firstDiff(got, last.Data))
		}
		scribble(got)
		hashes = append(hashes, labelHash(c.Hash))
		want = append(want, last.Data)
	}
	if len(hashes) > 0 {
		got, err := app.ReadAllByHashes(ctx, hashes)
		if err != nil {
			return fmt.Errorf("ReadAllByHashes: %v", err)
		}
		if err := sameBlocks("ReadAllByHashes", got, want); err != nil {
			return err
		}
		scribble(got...)
	}
	latest := want
	// by pointer: every stored content, also the superseded ones
	keys, err := contentKeyList(app, ctx, auditKinds())
	if err != nil {
		return err
	}
	pointers := []references.Pointer{}
	want = [][]byte{}
	for i, ck := range keys {
		if i >= len(m.Contents) {
			break
		}
		pointers = append(pointers, ck.Content())
		want = append(want, m.Contents[i].Data)
	}
	if len(pointers) != len(m.Contents) {
		return fmt.Errorf("%d content keys are listed, %d contents were committed", len(pointers), len(m.Contents))
	}
	got, err := app.ReadAll(ctx, pointers)
	if err != nil {
		return fmt.Errorf("ReadAll: %v", err)
	}
	if err := sameBlocks("ReadAll", got, want); err != nil {
		return err
	}
	scribble(got...)
	if len(pointers) == 0 {
		return nil
	}
	if err := otherOrder(pointers, want, func(some []references.Pointer) ([][]byte, error) { return app.ReadAll(ctx, some) }); err != nil {
		return fmt.Errorf("ReadAll in another order: %v", err)
	}
	if err := otherOrder(hashes, latest, func(some []hash.Hash) ([][]byte, error) { return app.ReadAllByHashes(ctx, some) }); err != nil {
		return fmt.Errorf("ReadAllByHashes in another order: %v", err)
	}
	return nil
}

// otherOrder reads in another order: all but the first and the last, all, or some several times and others not at all.
func otherOrder[V any](keys []V, want [][]byte, read func([]V) ([][]byte, error)) error {
	seed := int64(len(keys))
	for _, one := range want {
		seed = seed*1009 + int64(len(one)) + int64(one[0])
	}
	rnd := rand.New(rand.NewSource(seed))
	some, data := append([]V{}, keys...), append([][]byte{}, want...)
	lo, hi := 0, len(some)
	how := rnd.Intn(3)
	if how == 0 {
		lo, hi = 1, len(some)-1
	}
	for i := lo; i < hi; i++ {
		j := lo + rnd.Intn(hi-lo)
		some[i], some[j], data[i], data[j] = some[j], some[i], data[j], data[i]
	}
	if how == 2 {
		for i := range some {
			if j := rnd.Intn(len(some)); rnd.Intn(2) == 0 {
				some[i], data[i] = some[j], data[j]
			}
		}
	}
	got, err := read(some)
	if err != nil {
		return err
	}
	if err := sameBlocks("reading", got, data); err != nil {
		return err
	}
	scribble(got...)
	return nil
}

func sameBlocks(what string, got [][]byte, want [][]byte) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s returned %d blocks, expected %d", what, len(got), len(want))
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Errorf("%s: block %d (%d bytes) differs from the expected one (%d bytes) at byte %d", what, i, len(got[i]), len(want[i]), firstDiff(got[i], want[i]))
		}
	}
	return nil
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

// auditKeys checks that what is visible in a context is exactly what was committed: nothing missing, nothing
// twice, nothing pending.
func auditKeys(app applications.Application, ctx uint, m *mDB, universe int) error {
	byKind := map[uint][]mContent{}
	for _, c := range m.Contents {
		byKind[c.Kind] = append(byKind[c.Kind], c)
	}
	for k := range auditKinds() {
		ins, err := app.ContentKeysByKind(ctx, k)
		if len(byKind[k]) == 0 {
			if err == nil {
				return fmt.Errorf("ContentKeysByKind(%d) returned %d content keys although nothing of that kind was committed", k, len(ins.List()))
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("ContentKeysByKind(%d): %v although %d contents of that kind were committed", k, err, len(byKind[k]))
		}
		list := ins.List()
		if len(list) != len(byKind[k]) {
			return fmt.Errorf("ContentKeysByKind(%d) returned %d content keys, %d contents of that kind were committed", k, len(list), len(byKind[k]))
		}
		for i, ck := range list {
			if !bytes.Equal(ck.Hash(), labelHash(byKind[k][i].Hash)) {
				return fmt.Errorf("content key %d of kind %d does not have the hash that was written", i, k)
			}
			if int(ck.Content().Length()) != len(byKind[k][i].Data) {
				return fmt.Errorf("content key %d of kind %d has length %d, %d bytes were written", i, k, ck.Content().Length(), len(byKind[k][i].Data))
			}
		}
	}
	for h := 0; h < universe; h++ {
		if m.latest(h) != nil {
			continue
		}
		if got, err := app.ReadByHash(ctx, labelHash(h)); err == nil {
			return fmt.Errorf("ReadByHash(label %d) returned %d bytes although that hash was never committed", h, len(got))
		}
		// nor together with others, wherever it is among them
		some := []hash.Hash{}
		for i := 0; i < 2 && i < len(m.Contents); i++ {
			some = append(some, labelHash(m.Contents[i].Hash))
		}
		at := h % (len(some) + 1)
		some = append(some[:at:at], append([]hash.Hash{labelHash(h)}, some[at:]...)...)
		if got, err := app.ReadAllByHashes(ctx, some); err == nil {
			return fmt.Errorf("ReadAllByHashes returned %d contents for %d hashes although one of them was never committed", len(got), len(some))
		}
	}
	return nil
}

// merkleHead is the reference Merkle root over blocks (the documented construction).
func refHash(data []byte) []byte {
	if len(data) == 64 {
		return append([]byte{}, data...)
	}
	h := sha512.Sum512(data)
	return h[:]
}

func merkleLeaves(blocks [][]byte) [][]byte {
	leaves := [][]byte{}
	for _, b := range blocks {
		leaves = append(leaves, refHash(b))
	}
	n := 2
	for n < len(leaves) {
		n *= 2
	}
	for len(leaves) < n {
		leaves = append(leaves, refHash(nil))
	}
	return leaves
}

func merkleHead(blocks [][]byte) []byte {
	level := merkleLeaves(blocks)
	for len(level) > 1 {
		next := [][]byte{}
		for i := 0; i+1 < len(level); i += 2 {
			next = append(next, refHash(append(append([]byte{}, level[i]...), level[i+1]...)))
		}
		level = next
	}
	return level[0]
}

// commitID computes the identity a commit must have.
func commitID(c references.Commit) []byte {
	buf := append([]byte{}, c.Values().Head()...)
	buf = append(buf, []byte(fmt.Sprintf("%d", c.CreatedOn().UnixNano()))...)
	if c.HasParent() {
		buf = append(buf, c.Parent().Bytes()...)
	}
	if c.HasMine() {
		buf = append(buf, c.Mine().Proof().Bytes()...)
	}
	return refHash(buf)
}

type commitView struct {
	Hash, Parent, Head string
	Nano               int64
}

func viewCommit(c references.Commit) commitView {
	v := commitView{Hash: c.Hash().String(), Head: c.Values().Head().String(), Nano: c.CreatedOn().UnixNano()}
	if c.HasParent() {
		v.Parent = c.Parent().String()
	}
	return v
}

// auditHistory checks the commits of a context against the model and returns what it saw.
func auditHistory(app applications.Application, ctx uint, m *mDB) ([]commitView, error) {
	commits, err := app.Commits(ctx)
	if m.Commits == 0 {
		if err == nil {
			return nil, fmt.Errorf("Commits returned %d commits although nothing was committed", len(commits.List()))
		}
		return nil, nil
	}
	if err != nil {
		return nil, fmt.Errorf("Commits: %v", err)
	}
	list := commits.List()
	if len(list) != m.Commits {
		return nil, fmt.Errorf("%d commits are listed, %d were made", len(list), m.Commits)
	}
	keys, err := contentKeyList(app, ctx, auditKinds())
	if err != nil {
		return nil, err
	}
	if len(keys) != len(m.Contents) {
		return nil, fmt.Errorf("%d content keys are listed, %d contents were committed", len(keys), len(m.Contents))
	}
	views := []commitView{}
	for i, c := range list {
		views = append(views, viewCommit(c))
		if i == 0 && c.HasParent() {
			return nil, fmt.Errorf("the first commit has a parent")
		}
		if i > 0 {
			if !c.HasParent() {
				return nil, fmt.Errorf("commit %d has no parent", i)
			}
			if !bytes.Equal(c.Parent().Bytes(), list[i-1].Hash().Bytes()) {
				return nil, fmt.Errorf("the parent of commit %d is not commit %d", i, i-1)
			}
		}
		if !bytes.Equal(c.Hash().Bytes(), commitID(c)) {
			return nil, fmt.Errorf("the hash of commit %d does not identify its values, time and parent", i)
		}
		blocks := [][]byte{}
		for j, mc := range m.Contents {
			if mc.Commit != i {
				continue
			}
			blocks = append(blocks, labelHash(mc.Hash))
			if !bytes.Equal(keys[j].Commit().Bytes(), c.Hash().Bytes()) {
				return nil, fmt.Errorf("content key %d does not name commit %d, in which it was committed", j, i)
			}
			if !bytes.Equal(keys[j].Hash(), labelHash(mc.Hash)) {
				return nil, fmt.Errorf("content key %d does not carry the hash that was written", j)
			}
		}
		if !bytes.Equal(c.Values().Head().Bytes(), merkleHead(blocks)) {
			return nil, fmt.Errorf("the values of commit %d are not the Merkle tree of the %d content hashes it committed", i, len(blocks))
		}
		got, err := app.CommitByHash(ctx, c.Hash())
		if err != nil {
			return nil, fmt.Errorf("CommitByHash(commit %d): %v", i, err)
		}
		if viewCommit(got) != viewCommit(c) {
			return nil, fmt.Errorf("CommitByHash(commit %d) returned another commit", i)
		}
	}
	if !bytes.Equal(commits.Latest().Hash(), list[len(list)-1].Hash()) {
		return nil, fmt.Errorf("Latest is not the last commit of the list")
	}
	return views, nil
}

// reopen opens a database with a new application, runs fn on the context, and closes it.
func reopen(dir string, c dbCfg, name string, fn func(app applications.Application, ctx uint) error) error {
	app := newApp(dir, c)
	pCtx, err := app.Open(name)
	if err != nil {
		return fmt.Errorf("reopening %s: %v", name, err)
	}
	if err := fn(app, *pCtx); err != nil {
		return fmt.Errorf("after reopening: %w", err)
	}
	return app.Close(*pCtx)
}

func listDir(dir string) []string {
	entries, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	out := []string{}
	for _, e := range entries {
		out = append(out, e.Name())
	}
	return out
}

func joinErr(parts ...string) error { return fmt.Errorf("%s", strings.Join(parts, ": ")) }
