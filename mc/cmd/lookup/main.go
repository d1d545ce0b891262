// lookup asks for packages and directories: one after the other, or several at a time in an order of events it is told.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"strings"
	"time"

	"github.com/markbates/pkger/here"
)

// Spec is what to do: Ask in turn, or each string in a thread of its own, with the events chosen as in Choices, and then always the first.
type Spec struct {
	Ask     []string
	At      []string // one for each thread
	Choices []int
	Sock    string
}

// Answer is what became of one question.
type Answer struct {
	Info here.Info
	Err  string
	Cwd  string // of the program, after it
}

// Result is what was seen.
type Result struct {
	Answers []Answer
	Options []int    // how many events could have been next, at each step
	Chosen  []int    // and which was
	Cwds    []string // the program's working directory before each step
	Log     []string
	Stuck   bool
}

func ask(q string) (a Answer) {
	k, v, _ := strings.Cut(q, " ")
	var err error
	switch k {
	case "dir":
		a.Info, err = here.Dir(v)
	case "pkg":
		a.Info, err = here.Package(v)
	case "current":
		a.Info, err = here.Current()
	case "chdir":
		err = os.Chdir(v)
	}
	if err != nil {
		a.Err = err.Error()
	}
	a.Cwd, _ = os.Getwd()
	return a
}

type call struct {
	conn net.Conn
	what string
}

func threads(s Spec) (r Result) {
	l, err := net.Listen("unix", s.Sock)
	if err != nil {
		panic(err)
	}
	os.Setenv("MC_GO_SOCK", s.Sock)
	arrive := make(chan call, 16)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			t, _ := bufio.NewReader(c).ReadString('\n')
			arrive <- call{c, strings.TrimSpace(t)}
		}
	}()
	type done struct {
		i int
		a Answer
	}
	finished := make(chan done, 16)
	r.Answers = make([]Answer, len(s.At))
	started, over := 0, 0
	var waiting []call
	wait := func(limit time.Duration) bool {
		select {
		case c := <-arrive:
			waiting = append(waiting, c)
		case d := <-finished:
			r.Answers[d.i] = d.a
			over++
		case <-time.After(limit):
			return false
		}
		return true
	}
	for over < len(s.At) {
		n := len(waiting)
		if started < len(s.At) {
			n++
		}
		if n == 0 {
			if !wait(20 * time.Second) {
				r.Stuck = true
				return r
			}
			continue
		}
		k := 0
		if len(r.Options) < len(s.Choices) {
			k = s.Choices[len(r.Options)]
		}
		if k >= n {
			k = 0
		}
		d, _ := os.Getwd()
		r.Cwds = append(r.Cwds, d)
		r.Options = append(r.Options, n)
		r.Chosen = append(r.Chosen, k)
		if k < len(waiting) {
			c := waiting[k]
			waiting = append(waiting[:k:k], waiting[k+1:]...)
			r.Log = append(r.Log, "go on with "+c.what)
			c.conn.Write([]byte{1})
			c.conn.Close()
		} else {
			i := started
			started++
			r.Log = append(r.Log, "start "+s.At[i])
			go func() { finished <- done{i, ask(s.At[i])} }()
		}
		// it runs until it finishes or waits for the go command; if it waits for a lock, others have to go on
		wait(400 * time.Millisecond)
	}
	return r
}

func main() {
	var s Spec
	if err := json.Unmarshal([]byte(os.Args[1]), &s); err != nil {
		panic(err)
	}
	var r Result
	if s.At != nil {
		r = threads(s)
	} else {
		for _, q := range s.Ask {
			r.Answers = append(r.Answers, ask(q))
		}
	}
	if err := json.NewEncoder(os.Stdout).Encode(r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
