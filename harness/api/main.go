// vh_api replays the behaviours of spec/Api.tla on the API's source of files, with a real server.
// usage: vh_api keysdir < behaviours > findings
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	api "github.com/cloudflare/cfrpki/sync/api"
	"github.com/cloudflare/cfrpki/validator/pki"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type item struct {
	N, K, D, P string
}
type behaviour struct {
	Mode   string
	Sent   []item
	End    string
	Got    []item
	Result string
}

func tlv(tag byte, v []byte) []byte {
	n := len(v)
	switch {
	case n < 128:
		return append([]byte{tag, byte(n)}, v...)
	case n < 65536:
		return append([]byte{tag, 0x82, byte(n >> 8), byte(n)}, v...)
	}
	return append([]byte{tag, 0x83, byte(n >> 16), byte(n >> 8), byte(n)}, v...)
}

// content gives the bytes as sent, and as they reach the validator (nil: not said)
func content(d string, k int) (sent, want []byte) {
	body := tlv(2, []byte{byte(k%100 + 1)})
	switch d {
	case "der":
		s := tlv(0x30, body)
		return s, s
	case "ber":
		return append(append([]byte{0x30, 0x80}, body...), 0, 0), tlv(0x30, body)
	case "junk":
		return []byte{0x30, 0x80, 2, byte(k)}, nil
	case "empty":
		return []byte{}, nil
	case "big":
		s := tlv(0x30, append(body, tlv(4, bytes.Repeat([]byte{byte(k)}, 70000))...))
		return s, s
	}
	panic(d)
}

type server struct {
	api.RPKIAPIServer
	bs []*behaviour
}

// find takes the number of the behaviour from the module of the path
func (s *server) find(p string) (*behaviour, int, string) {
	f := strings.SplitN(strings.TrimPrefix(p, "rsync://h.example/b"), "/", 2)
	i, err := strconv.Atoi(f[0])
	if err != nil || len(f) < 2 {
		return nil, 0, ""
	}
	return s.bs[i], i, f[1]
}

func (s *server) fail(end string, ctx context.Context) error {
	switch end {
	case "eof":
		return nil
	case "hang":
		<-ctx.Done()
		return ctx.Err()
	case "notfound":
		return status.Error(codes.NotFound, "not found")
	case "unavailable":
		return status.Error(codes.Unavailable, "unavailable")
	}
	return status.Error(codes.Internal, "internal")
}

func (s *server) GetResource(ctx context.Context, q *api.ResourceQuery) (*api.ResourceData, error) {
	b, i, name := s.find(q.Path)
	if b == nil || name != "dir/"+b.Sent[0].N {
		return nil, status.Error(codes.OutOfRange, "no such query "+q.Path)
	}
	if err := s.fail(b.End, ctx); err != nil {
		return nil, err
	}
	d, _ := content(b.Sent[0].D, i)
	return &api.ResourceData{Path: q.Path, Data: d}, nil
}

func (s *server) GetRepository(q *api.ResourceQuery, st api.RPKIAPI_GetRepositoryServer) error {
	b, i, name := s.find(q.Path)
	if b == nil || strings.TrimSuffix(name, "/") != "dir" {
		return status.Error(codes.OutOfRange, "no such query "+q.Path)
	}
	for k, x := range b.Sent {
		d, _ := content(x.D, i+k)
		if err := st.Send(&api.ResourceData{Path: x.N, Data: d}); err != nil {
			return err
		}
	}
	return s.fail(b.End, st.Context())
}

var kinds = map[string]int{"cer": pki.TYPE_CER, "roa": pki.TYPE_ROA, "mft": pki.TYPE_MFT, "crl": pki.TYPE_CRL, "unknown": pki.TYPE_UNKNOWN}

func run(b *behaviour, i int, c api.RPKIAPIClient) (out []string) {
	bad := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	defer func() {
		if r := recover(); r != nil {
			bad("panic: %v", r)
		}
	}()
	to := 20 * time.Second
	if b.End == "hang" {
		to = 150 * time.Millisecond
	}
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	f := &api.APIFetch{Client: c, Ctx: ctx}
	dir := fmt.Sprintf("rsync://h.example/b%d/dir", i)
	if b.Mode == "get" {
		x := b.Sent[0]
		file := &pki.PKIFile{Type: kinds[x.N[len(x.N)-3:]], Path: dir + "/" + x.N}
		switch x.P {
		case "slash":
			file.Path, file.Parent = x.N, &pki.PKIFile{Type: pki.TYPE_MFT, Repo: dir + "/", Path: "m.mft"}
		case "noslash":
			file.Path, file.Parent = x.N, &pki.PKIFile{Type: pki.TYPE_MFT, Repo: dir, Path: "m.mft"}
		}
		got, err := f.GetFile(file)
		if b.Result == "error" {
			if err == nil && got != nil {
				bad("a file was given though the server answered %s", b.End)
			}
			return
		}
		if err != nil || got == nil {
			bad("a file that the server sent was not given: %v", err)
			return
		}
		sent, want := content(x.D, i)
		h := sha256.Sum256(sent)
		if !bytes.Equal(got.Sha256, h[:]) {
			bad("the digest is not that of the file as it was sent: %x", got.Sha256)
		}
		if want != nil && !bytes.Equal(got.Data, want) {
			bad("the content is not what was sent (%s)", x.D)
		}
		return
	}
	repo := dir
	if i%2 == 0 {
		repo += "/"
	}
	parent := &pki.PKIFile{Type: pki.TYPE_MFT, Repo: repo, Path: "m.mft"}
	k := 0
	err := f.GetRepository(parent, func(file *pki.PKIFile, data *pki.SeekFile, _ bool) {
		// what cannot be decoded may be left out
		for k < len(b.Got) && (b.Got[k].D == "junk" || b.Got[k].D == "empty") && file.Path != b.Got[k].N {
			k++
		}
		if k >= len(b.Got) || file.Path != b.Got[k].N {
			bad("unexpected file %q, number %d of %v", file.Path, k+1, b.Sent)
			return
		}
		x := b.Got[k]
		if file.Type != kinds[x.K] {
			bad("the type of %q is %d", x.N, file.Type)
		}
		if file.Parent != parent || file.Repo != repo {
			bad("%q does not belong to the repository that was asked for", x.N)
		}
		sent, want := content(x.D, i+k)
		if want != nil && (data == nil || !bytes.Equal(data.Data, want)) {
			bad("the content of %q is not what was sent (%s)", x.N, x.D)
		}
		if h := sha256.Sum256(sent); data != nil && data.Sha256 != nil && !bytes.Equal(data.Sha256, h[:]) {
			bad("the digest of %q is not that of what was sent", x.N)
		}
		k++
	})
	for k < len(b.Got) && (b.Got[k].D == "junk" || b.Got[k].D == "empty") {
		k++
	}
	if k != len(b.Got) {
		bad("%d of %d files of a listing were given", k, len(b.Got))
	}
	if (err != nil) != (b.Result == "error") {
		bad("a listing that ended with %s gave the error %v", b.End, err)
	}
	return
}

func main() {
	var bs []*behaviour
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		b := &behaviour{}
		if err := json.Unmarshal(sc.Bytes(), b); err != nil {
			panic(err)
		}
		bs = append(bs, b)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := grpc.NewServer(grpc.MaxConcurrentStreams(1000))
	api.RegisterRPKIAPIServer(s, &server{bs: bs})
	go s.Serve(l)
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		conn, err := grpc.Dial(l.Addr().String(), grpc.WithInsecure())
		if err != nil {
			panic(err)
		}
		for n := 0; n < 8; n++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range ch {
					for _, what := range run(bs[i], i, api.NewRPKIAPIClient(conn)) {
						mu.Lock()
						enc.Encode(map[string]interface{}{"What": what, "Case": bs[i]})
						mu.Unlock()
					}
				}
			}()
		}
	}
	for i := range bs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	enc.Encode(map[string]int{"replayed": len(bs)})
}
