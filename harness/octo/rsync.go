package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// what the harness tells its rsync to do
type rsyncReply struct {
	Files map[string][]byte // uri -> content
	Exit  int
	Hang  bool
}

// rsync [flags] URI DIR: copies what the publisher has below URI into DIR
func fakeRsync() int {
	a := os.Args[1:]
	if len(a) < 2 {
		return 1
	}
	uri, dir := a[len(a)-2], a[len(a)-1]
	base := os.Getenv("VERIF_OCTO")
	res, err := http.Get(base + "/rsync?" + url.Values{"uri": {uri}, "dir": {dir}, "args": a[:len(a)-2]}.Encode())
	if err != nil {
		return 10
	}
	var rep rsyncReply
	err = json.NewDecoder(res.Body).Decode(&rep)
	res.Body.Close()
	if err != nil {
		return 12
	}
	if rep.Hang {
		// rsync forks, and what it forked survives it and keeps its output open
		c := exec.Command("sleep", "60")
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		c.Start()
		time.Sleep(time.Minute)
	}
	fmt.Println("receiving incremental file list")
	for u, d := range rep.Files {
		var dst string
		switch {
		case u == uri: // a file: into the directory, or over it
			dst = dir
			if st, err := os.Stat(dir); strings.HasSuffix(dir, "/") || err == nil && st.IsDir() {
				dst = filepath.Join(dir, filepath.Base(u))
			}
		default:
			rel := strings.TrimPrefix(strings.TrimPrefix(u, strings.TrimSuffix(uri, "/")), "/")
			dst = filepath.Join(dir, rel)
			os.MkdirAll(filepath.Dir(dst), 0755)
		}
		tmp := filepath.Join(filepath.Dir(dst), "."+filepath.Base(dst)+".tmp")
		if ioutil.WriteFile(tmp, d, 0644) != nil || os.Rename(tmp, dst) != nil {
			rep.Exit = 23
			continue
		}
		fmt.Println(filepath.Base(dst))
	}
	fmt.Println("\nsent 1 bytes  received 1 bytes  2.00 bytes/sec\ntotal size is 1  speedup is 1.00")
	if rep.Exit != 0 {
		fmt.Fprintf(os.Stderr, "rsync error: some files could not be transferred (code %d)\n", rep.Exit)
	}
	return rep.Exit
}
