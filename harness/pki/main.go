// vh_pki replays the worlds of spec/Pki.tla on the validator.
// usage: vh_pki worlds.jsonl keys.pem out.jsonl
// (worlds as printed by TLC; out: one JSON line per violation, and a summary;
// with a fourth argument the files come over the API)
package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	api "github.com/cloudflare/cfrpki/sync/api"
	syncpki "github.com/cloudflare/cfrpki/sync/lib"
	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/vh/rpki"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type seeker struct{ b *rpki.Built }

func (s *seeker) GetFile(f *pki.PKIFile) (*pki.SeekFile, error) {
	p := f.ComputePath()
	if f.Type == pki.TYPE_TAL {
		return &pki.SeekFile{File: f.Path, Data: s.b.TAL}, nil
	}
	d, ok := s.b.Files[clean(p)]
	if !ok {
		return nil, nil
	}
	if s.b.Unreadable[clean(p)] {
		return nil, errors.New("unreadable " + p)
	}
	h := sha256.Sum256(d)
	return &pki.SeekFile{File: f.Path, Data: d, Sha256: h[:]}, nil
}
func (s *seeker) GetRepository(*pki.PKIFile, pki.CallbackExplore) error {
	return errors.New("not used")
}

// a path with parent references resolves like a file system would
func clean(p string) string {
	if !strings.Contains(p, "/../") {
		return p
	}
	return "rsync://" + filepath.Clean(strings.TrimPrefix(p, "rsync://"))
}

// onDisk puts what is published into directories, with other things in between
func onDisk(w *rpki.World, b *rpki.Built, root string, salt int64) pki.FileSeeker {
	r := rand.New(rand.NewSource(salt*1000003 + int64(w.ID)))
	dirs := map[string]bool{}
	for u, d := range b.Files {
		p := filepath.Join(root, strings.TrimPrefix(u, "rsync://"))
		os.MkdirAll(filepath.Dir(p), 0755)
		dirs[filepath.Dir(p)] = true
		if b.Unreadable[u] {
			if r.Intn(2) == 0 {
				os.MkdirAll(p, 0755)
			} else {
				os.Symlink(filepath.Join(root, "nowhere"), p)
			}
			continue
		}
		if err := os.WriteFile(p, d, 0644); err != nil {
			panic(err)
		}
	}
	var names []string
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	for _, d := range names {
		x := []string{"00", "99", ".", "15"}[r.Intn(4)]
		t := []string{".roa", ".cer", ".crl", ".mft", "", ".gbr"}[r.Intn(6)]
		switch r.Intn(6) {
		case 0: // withdrawn over RRDP
			os.WriteFile(filepath.Join(d, x+"gone"+t), nil, 0644)
		case 1:
			os.MkdirAll(filepath.Join(d, x+"sub"+t), 0755)
		case 2:
			os.Symlink(filepath.Join(root, "nowhere"), filepath.Join(d, x+"link"+t))
		case 3:
			os.WriteFile(filepath.Join(d, x+"part"+t), []byte{0x30, 0x82, 0x03}, 0644)
		case 4:
			for u, f := range b.Files { // being received
				os.WriteFile(filepath.Join(d, "."+filepath.Base(u)+".Xy12z"), f, 0644)
				break
			}
		}
	}
	os.MkdirAll(filepath.Join(root, "tal"), 0755)
	b.TALPath = filepath.Join(root, "tal", "h.tal")
	os.WriteFile(b.TALPath, b.TAL, 0644)
	l := syncpki.NewLocalFetch(root)
	switch r.Intn(3) {
	case 0:
		l = &syncpki.LocalFetch{MapDirectory: syncpki.ParseMapDirectory("rsync://h.example/repo/=" + root + "/h.example/repo/")}
	case 1:
		l.SetRepositories(map[string]time.Time{"rsync://h.example/repo": time.Now()})
	}
	return l
}

// server answers for what is published, as a client of the API sees it
type server struct {
	api.RPKIAPIClient
	b    *rpki.Built
	junk bool
}

func (s *server) GetResource(_ context.Context, q *api.ResourceQuery, _ ...grpc.CallOption) (*api.ResourceData, error) {
	p := clean(q.Path)
	d, ok := s.b.Files[p]
	if !ok {
		return nil, status.Error(codes.NotFound, "no "+p)
	}
	if s.b.Unreadable[p] {
		return nil, status.Error(codes.Internal, "unreadable "+p)
	}
	return &api.ResourceData{Path: q.Path, Data: append([]byte{}, d...)}, nil
}

func (s *server) GetRepository(_ context.Context, q *api.ResourceQuery, _ ...grpc.CallOption) (api.RPKIAPI_GetRepositoryClient, error) {
	dir := strings.TrimSuffix(q.Path, "/") + "/"
	if q.Path == "" {
		return nil, status.Error(codes.InvalidArgument, "no path")
	}
	l := &listing{}
	var names []string
	for u := range s.b.Files {
		if n := strings.TrimPrefix(u, dir); n != u && !strings.Contains(n, "/") && !s.b.Unreadable[u] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for i, n := range names {
		if s.junk && i == len(names)/2 {
			l.items = append(l.items, &api.ResourceData{Path: n + ".roa"}, &api.ResourceData{Path: n + ".cer", Data: []byte{0x30, 0x80, 2}})
		}
		l.items = append(l.items, &api.ResourceData{Path: n, Data: append([]byte{}, s.b.Files[dir+n]...)})
	}
	return l, nil
}

type listing struct {
	grpc.ClientStream
	items []*api.ResourceData
}

func (l *listing) Recv() (*api.ResourceData, error) {
	if len(l.items) == 0 {
		return nil, io.EOF
	}
	r := l.items[0]
	l.items = l.items[1:]
	return r, nil
}

type quiet struct{}

func (quiet) Debugf(string, ...interface{}) {}
func (quiet) Printf(string, ...interface{}) {}
func (quiet) Errorf(string, ...interface{}) {}
func (quiet) Warnf(string, ...interface{})  {}

type violation struct {
	World int
	Prop  []string
	What  string
}

var overAPI = len(os.Args) > 4

func run(w *rpki.World, keys []*rpki.Key, salt int64) (out []violation) {
	// the validation time is independent of the wall clock
	t0 := time.Now().UTC().Truncate(time.Second)
	switch (int64(w.ID) + salt) % 3 {
	case 0:
		t0 = t0.Add(-400 * 24 * time.Hour)
	case 1:
		t0 = t0.Add(400 * 24 * time.Hour)
	}
	b := rpki.Build(w, keys, rpki.Options{T0: t0, Tight: true, Host: "h.example", ASN: 65000, Salt: salt})
	bad := func(what string, props ...string) {
		if overAPI {
			props = []string{"V10"}
		} else if w.Dir {
			props = []string{"V09"}
		}
		out = append(out, violation{w.ID, props, what})
	}
	// properties to blame when something sound is dropped
	soundProps := rpki.SoundProps(w)
	v := pki.NewValidator()
	v.Time = t0
	v.DecoderConfig = &librpki.DecoderConfig{ValidateStrict: (int64(w.ID)+salt)%2 == 0}
	sm := pki.NewSimpleManager()
	sm.Validator = v
	sm.FileSeeker = &seeker{b}
	if overAPI {
		b.TALPath = filepath.Join(filepath.Dir(os.Args[3]), fmt.Sprintf("api%d.tal", w.ID))
		defer os.Remove(b.TALPath)
		if err := os.WriteFile(b.TALPath, b.TAL, 0644); err != nil {
			panic(err)
		}
		sm.FileSeeker = &api.APIFetch{Client: &server{b: b, junk: w.ID%3 == 0}, Ctx: context.Background()}
	} else if w.Dir {
		root := filepath.Join(filepath.Dir(os.Args[3]), fmt.Sprint("d", w.ID))
		defer os.RemoveAll(root)
		sm.FileSeeker = onDisk(w, b, root, salt)
	}
	sm.StrictHash, sm.StrictManifests = w.SH, w.SM
	sm.ReportErrors = true
	if (int64(w.ID)+salt)%5 != 0 {
		sm.Log = quiet{}
	}
	go func() {
		for range sm.Errors {
		}
	}()
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				loc := ""
				for _, l := range strings.Split(st, "\n") {
					if strings.Contains(l, "/validator/") {
						loc = strings.TrimSpace(l)
						break
					}
				}
				done <- fmt.Sprintf("panic: %v at %s", r, loc)
			}
		}()
		sm.AddInitial([]*pki.PKIFile{{Path: b.TALPath, Type: pki.TYPE_TAL}})
		sm.Explore(w.Dir, false)
		done <- ""
	}()
	select {
	case m := <-done:
		if m != "" {
			bad(m, "V08")
			return
		}
	case <-time.After(20 * time.Second):
		bad("no end of the exploration after 20 s", "V08")
		return
	}
	sm.Close()
	// what was accepted
	got := map[int64]map[rpki.VRP]int{}
	for _, roa := range v.ValidROA {
		d := roa.Resource.(*librpki.RPKIROA)
		for _, e := range d.Valids {
			x := rpki.VRP{ASN: int64(d.ASN), Prefix: e.IPNet.String(), MaxLen: e.MaxLength}
			if got[x.ASN] == nil {
				got[x.ASN] = map[rpki.VRP]int{}
			}
			got[x.ASN][x]++
		}
	}
	isW := rpki.NotW
	rpki.JudgeVRPs(w, b, 65000, got, bad)
	accepted := func(o string) bool { _, ok := v.ValidObjects[string(b.Keys[o].SKI)]; return ok }
	for c, i := range w.Cas {
		ps := isW(i.Why)
		if len(ps) > 0 && accepted(c) {
			bad(fmt.Sprintf("CA certificate %s must not be accepted but is", c), ps...)
		}
		if !i.Weak && !accepted(c) {
			bad(fmt.Sprintf("sound CA certificate %s is not accepted", c), soundProps...)
		}
	}
	for m, why := range w.Mfts {
		_, ok := v.ValidManifest[string(b.Keys[m].SKI)]
		ps := isW(why)
		if len(ps) > 0 && ok {
			bad(fmt.Sprintf("manifest %s must not be accepted but is", m), ps...)
		}
		if len(why) == 0 && !ok {
			bad(fmt.Sprintf("sound manifest %s is not accepted", m), soundProps...)
		}
	}
	// the TAL needs no new download only if its certificate is usable
	for _, t := range v.TALs {
		if t.CertTALValid && !accepted("c0") && len(isW(w.Cas["c0"].Why)) > 0 {
			bad("trust anchor certificate considered valid", "S05")
		}
		if !t.CertTALValid && len(w.Cas["c0"].Why) == 0 {
			bad("sound trust anchor certificate is to be downloaded again", "S05")
		}
	}
	return
}

func main() {
	keys, err := rpki.LoadKeys(os.Args[2])
	if err != nil {
		panic(err)
	}
	salt, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	var worlds []*rpki.World
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		w := &rpki.World{}
		if err := json.Unmarshal(sc.Bytes(), w); err != nil {
			panic(err)
		}
		w.ID = len(worlds)
		worlds = append(worlds, w)
	}
	n := runtime.NumCPU()
	var mu sync.Mutex
	var all []violation
	var wg sync.WaitGroup
	ch := make(chan *rpki.World)
	prog := os.Args[3] + ".progress"
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			pf, _ := os.Create(fmt.Sprintf("%s.%d", prog, i))
			defer pf.Close()
			for w := range ch {
				pf.WriteAt([]byte(fmt.Sprintf("%-10d", w.ID)), 0)
				r := run(w, keys, salt)
				pf.WriteAt([]byte(fmt.Sprintf("%-10d", -1)), 0)
				mu.Lock()
				all = append(all, r...)
				mu.Unlock()
			}
		}(i)
	}
	for _, w := range worlds {
		ch <- w
	}
	close(ch)
	wg.Wait()
	o, _ := os.Create(os.Args[3])
	defer o.Close()
	e := json.NewEncoder(o)
	sort.Slice(all, func(i, j int) bool {
		if all[i].World != all[j].World {
			return all[i].World < all[j].World
		}
		return all[i].What < all[j].What
	})
	for _, v := range all {
		e.Encode(v)
	}
	e.Encode(map[string]int{"replayed": len(worlds)})
}
