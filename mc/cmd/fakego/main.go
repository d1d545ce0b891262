// fakego stands in for the go command. Its answers are those of the real one in the same directory, which is asked once. If MC_GO_SOCK is
// set it waits until it is told to go on.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type answer struct {
	Code     int
	Out, Err string
}

func main() {
	dir, err := os.Getwd()
	if err != nil {
		fmt.Fprintln(os.Stderr, "fakego:", err)
		os.Exit(97)
	}
	var conn net.Conn
	if s := os.Getenv("MC_GO_SOCK"); s != "" {
		if conn, err = net.Dial("unix", s); err != nil {
			fmt.Fprintln(os.Stderr, "fakego:", err)
			os.Exit(97)
		}
		fmt.Fprintf(conn, "%s %s\n", dir, strings.Join(os.Args[1:], " "))
		conn.Read(make([]byte, 1))
	}
	key := filepath.Join(os.Getenv("MC_GO_ANSWERS"), fmt.Sprintf("%x", sha256.Sum256([]byte(dir+"\x00"+strings.Join(os.Args[1:], "\x00")))))
	var a answer
	if b, err := os.ReadFile(key); err != nil || json.Unmarshal(b, &a) != nil {
		c := exec.Command(os.Getenv("MC_GO_REAL"), os.Args[1:]...)
		var o, e bytes.Buffer
		c.Stdout, c.Stderr = &o, &e
		c.Run()
		if c.ProcessState == nil {
			os.Exit(97)
		}
		a = answer{c.ProcessState.ExitCode(), o.String(), e.String()}
		b, _ := json.Marshal(a)
		tmp := fmt.Sprintf("%s.%d", key, os.Getpid())
		os.WriteFile(tmp, b, 0644)
		os.Rename(tmp, key)
	}
	os.Stdout.WriteString(a.Out)
	os.Stderr.WriteString(a.Err)
	os.Exit(a.Code)
}
