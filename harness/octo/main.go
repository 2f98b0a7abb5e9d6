// Replays behaviours of spec/Octo.tla on the octorpki process.
//
// The harness is the publishers: an HTTP server for RRDP, trust anchors and
// the CT log, and (this same binary, called as rsync) the rsync client. Each
// attempt of the daemon is matched with the behaviour and answered as it says.
package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"flag"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cloudflare/cfrpki/vh/rpki"
)

type pubState struct{ Sess, Ver int }

type logEntry struct {
	Run, Round int
	Kind       string
	M, K       int
	Bump, Out  string
	Sess, Ver  int
}

type roundResult struct {
	Run, Round            int
	List, Maybe           [][2]int
	Seen, Tas             []int
	Ready, Health, Forced bool
	Cycleend              bool
	Met                   struct {
		Rrdp, Rsync, Ta, Serial []float64
		State                   float64
	}
}

type behaviour struct {
	Topo        string
	Parent, Tal []int
	Ann         []bool
	Uris        [][]string
	Cfg         struct {
		Rrdp, Failover, Wait, Server bool
		Maxit                        int
	}
	Log     []logEntry
	Results []roundResult
	Done    string
	Final   []int
	File    []pubState
}

type finding struct {
	What string      `json:"what"`
	Prop []string    `json:"prop"`
	Kind string      `json:"kind"`
	Case interface{} `json:"case"`
}

var failed int32 // findings so far

var (
	outMu sync.Mutex
	outW  = bufio.NewWriter(os.Stdout)

	octo     = flag.String("octo", "", "octorpki binary")
	octorace = flag.String("octorace", "", "octorpki built with the race detector, used for every other scenario")
	workDir  = flag.String("dir", "", "scratch directory")
	keysFile = flag.String("keys", "", "")
	seed     = flag.Int64("seed", 1, "")
	workers  = flag.Int("workers", 8, "")
	budget   = flag.Duration("budget", time.Hour, "stop starting scenarios after this time")
	features = flag.String("features", "", "comma separated: ct, poll")
	keep     = flag.Bool("keep", false, "")
)

func emit(v interface{}) {
	b, _ := json.Marshal(v)
	outMu.Lock()
	outW.Write(append(b, '\n'))
	outW.Flush()
	outMu.Unlock()
}

var (
	keys    []*rpki.Key
	signKey *ecdsa.PrivateKey
)

func main() {
	if filepath.Base(os.Args[0]) == "rsync" {
		os.Exit(fakeRsync())
	}
	flag.Parse()
	var err error
	keys, err = rpki.LoadKeys(*keysFile)
	if err != nil {
		panic(err)
	}
	signKey, _ = ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	kb, _ := x509.MarshalECPrivateKey(signKey)
	ioutil.WriteFile(filepath.Join(*workDir, "sign.pem"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0644)
	self, _ := os.Executable()
	os.Symlink(self, filepath.Join(*workDir, "rsync"))

	var lines []string
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	start := time.Now()
	type job struct {
		i int
		l string
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	stats := map[string]int{}
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(i)
			for j := range ch {
				var b behaviour
				if err := json.Unmarshal([]byte(j.l), &b); err != nil {
					panic(fmt.Sprint(err, j.l))
				}
				st := w.run(&b, rand.New(rand.NewSource(*seed*1000003+int64(j.i))), j.i)
				mu.Lock()
				stats["scenarios"]++
				for k, v := range st {
					stats[k] += v
				}
				mu.Unlock()
			}
		}(i)
	}
	for i, l := range lines {
		if time.Since(start) > *budget || atomic.LoadInt32(&failed) > 15 {
			break
		}
		ch <- job{i, l}
	}
	close(ch)
	wg.Wait()
	emit(map[string]interface{}{"stats": stats})
}

func has(f string) bool { return strings.Contains(","+*features+",", ","+f+",") }
