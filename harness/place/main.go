// vh_place replays the mappings of spec/MapDir.tla on ParseMapDirectory, LocalFetch.GetFile and
// LocalFetch.GetRepository, with files in a scratch directory that say where they are.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
)

type world struct {
	List [][]string
	Uris []struct {
		U []string
		K int
		R []string
	}
}

// an element of the model is one or several elements of a path
func join(el []string) string {
	var s []string
	for _, e := range el {
		if e == "rsync:" {
			e = "rsync://z"
		}
		s = append(s, e)
	}
	return strings.Join(s, "/")
}

func main() {
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	dir := os.Args[2]
	seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	names := []string{"m1", "m 2", "m=3/sub", "m4.d"}
	made := map[string]bool{}
	n := 0
	seen := map[string]int{}
	for sc.Scan() {
		var w world
		if err := json.Unmarshal(sc.Bytes(), &w); err != nil {
			panic(err)
		}
		n++
		r := rand.New(rand.NewSource(seed*1000003 + int64(n)))
		// every URI has a file below every directory, with and without each prefix left off
		perm := r.Perm(len(names))
		var entries []string
		for k, p := range w.List {
			key := "rsync://" + join(p)
			if len(p) > 0 && (r.Intn(3) > 0) {
				key += "/"
			}
			val := names[perm[k]]
			if r.Intn(2) == 0 {
				val = filepath.Join(dir, val)
			} else if r.Intn(2) == 0 {
				val = "./" + val
			}
			if r.Intn(2) == 0 {
				val += "/"
			}
			entries = append(entries, key+"="+val)
		}
		flagValue := strings.Join(entries, ",")
		report := func(what string, u string) {
			k := what
			if seen[k]++; seen[k] <= 20 {
				enc.Encode(map[string]interface{}{"what": what, "case": map[string]interface{}{"map": flagValue, "uri": u}, "kind": what})
			}
		}
		for _, x := range w.Uris {
			uri := "rsync://" + join(x.U)
			for _, name := range names {
				for i := range x.U {
					p := filepath.Join(name, join(x.U[i:]))
					if !made[p] {
						made[p] = true
						os.MkdirAll(filepath.Dir(p), 0755)
						if err := ioutil.WriteFile(p, append([]byte{4, byte(len(p))}, p...), 0644); err != nil {
							panic(err)
						}
					}
				}
			}
			want := ""
			if x.K > 0 {
				want = filepath.Join(names[perm[x.K-1]], join(x.R))
			}
			for i := 0; i < 6; i++ { // a choice that depends on the order of a Go map would show
				s := &syncpki.LocalFetch{MapDirectory: syncpki.ParseMapDirectory(flagValue)}
				pf := &pki.PKIFile{Path: uri, Type: pki.TYPE_ROA}
				at := strings.LastIndex(uri, "/")
				if i%2 == 1 { // as a manifest lists it
					pf = &pki.PKIFile{Path: uri[at+1:], Type: pki.TYPE_ROA, Parent: &pki.PKIFile{Type: pki.TYPE_MFT, Repo: uri[:at+i/2%2]}}
				}
				got, err := s.GetFile(pf)
				g := ""
				if got != nil && len(got.Data) > 2 {
					g = string(got.Data[2:])
				}
				switch {
				case g != want && g == "":
					report(fmt.Sprintf("the file is not found (%v)", err != nil), uri)
				case g != want && want == "":
					report("a file is found although nothing is mapped", uri)
				case g != want:
					report("the file is looked up in another place", uri)
				default:
					continue
				}
				break
			}
			// the directory of the file, without manifests
			at := strings.LastIndex(uri, "/")
			s := &syncpki.LocalFetch{MapDirectory: syncpki.ParseMapDirectory(flagValue)}
			var got []string
			err := s.GetRepository(&pki.PKIFile{Repo: uri[:at+r.Intn(2)], Type: pki.TYPE_CER, Path: "rsync://a/p.cer"}, func(p *pki.PKIFile, d *pki.SeekFile, _ bool) {
				if d != nil && len(d.Data) > 2 {
					got = append(got, string(d.Data[2:]))
				}
			})
			sort.Strings(got)
			found := false
			for _, g := range got {
				found = found || g == want
				if x.K == 0 || filepath.Dir(g) != filepath.Dir(want) {
					report("a directory is read in another place", uri)
					break
				}
			}
			if x.K > 0 && !found {
				report(fmt.Sprintf("a directory does not show its file (%v)", err != nil), uri)
			}
		}
	}
	for k, c := range seen {
		if c > 20 {
			enc.Encode(map[string]interface{}{"what": k, "case": map[string]interface{}{"more": c - 20}, "kind": k})
		}
	}
	enc.Encode(map[string]int{"replayed": n})
}
