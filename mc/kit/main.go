package kit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Main is the entry of a check binary.
//
//	mc <ID> [--tier quick|thorough] [--replay FILE]
func Main(props []*Prop) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc <ID> [--tier T] [--replay FILE]")
		os.Exit(2)
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	replay := ""
	for i := 2; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "--tier":
			i++
			tier = os.Args[i]
		case "--replay":
			i++
			replay = os.Args[i]
		}
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	var p *Prop
	for _, x := range props {
		if x.ID == id {
			p = x
		}
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "no such property %q\n", id)
		os.Exit(2)
	}
	if os.Getenv("MC_CHILD") != "" {
		child(p, tier, seed, replay)
		return
	}
	os.Exit(parent(p, tier, seed, replay))
}

func budget(tier string) time.Duration {
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			return d
		}
	}
	if tier == "thorough" {
		return 40 * time.Minute
	}
	return 5 * time.Minute
}

func child(p *Prop, tier string, seed int64, replay string) {
	work := os.Getenv("MC_WORK")
	syscall.Umask(022)
	os.Chdir(work)
	c := NewCtx(p, tier, seed, work, budget(tier))
	if n, err := strconv.Atoi(os.Getenv("MC_SHARDS")); err == nil && n > 0 {
		c.Of = n
		c.Nth, _ = strconv.Atoi(os.Getenv("MC_SHARD"))
	}
	if replay != "" {
		c.Replaying = true
		b, err := os.ReadFile(replay)
		var v struct{ Violation Violation }
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.Watch(10 * time.Minute)
		err = Guard(func() error { return p.Replay(c, v.Violation.Case) })
		if err != nil {
			c.Violate(0, v.Violation.Key, err.Error(), v.Violation.Case)
		}
	} else {
		c.Watch(3 * time.Minute)
		p.Run(c)
	}
	// descriptor 3 is the parent's: it cannot be lost even if the code under test removes the scratch directory
	if err := json.NewEncoder(os.NewFile(3, "result")).Encode(c.Finish()); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// known maps property -> key -> description, from the committed known-findings file.
func known(root, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C99 key=<key> :: text
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" key=")
		k, t, _ := strings.Cut(l, " :: ")
		m[strings.TrimSpace(k)] = t
	}
	return m
}

func parent(p *Prop, tier string, seed int64, replay string) int {
	start := time.Now()
	root := os.Getenv("MC_VERIF")
	if root == "" {
		root = "/verif"
	}
	scratch := os.Getenv("MC_SCRATCH")
	if scratch == "" {
		fmt.Fprintln(os.Stderr, "MC_SCRATCH not set: run through /verif/check")
		return 2
	}
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		replay = filepath.Join(scratch, "replay.json")
		os.WriteFile(replay, b, 0644)
	}
	self, _ := os.Executable()
	one := func(self string, n, shard, shards int) (*Result, int, string) {
		work := filepath.Join(scratch, fmt.Sprintf("work%d", n), fmt.Sprintf("%s%d", filepath.Base(self), shard))
		os.RemoveAll(work)
		os.MkdirAll(work, 0755)
		args := []string{p.ID, "--tier", tier}
		if replay != "" {
			args = append(args, "--replay", replay)
		}
		cmd := exec.Command(self, args...)
		cmd.Env = append(os.Environ(), "MC_CHILD=1", "MC_WORK="+work, fmt.Sprint("MC_SHARD=", shard), fmt.Sprint("MC_SHARDS=", shards))
		cmd.Env = append(cmd.Env, "GORACE=log_path="+work+"/race halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
		cmd.Dir = work
		cmd.Stdout = os.Stdout
		var eb bytes.Buffer
		cmd.Stderr = io.MultiWriter(os.Stderr, &limited{b: &eb})
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if !p.Root {
			os.Chown(work, 65534, 65534)
			cmd.Env = append(cmd.Env, "HOME="+work, "GOCACHE="+work+"/.gocache", "GOMODCACHE="+work+"/.gomod", "GOPATH="+work+"/.gopath", "GOENV=off", "TMPDIR="+work)
			cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
		}
		rf, err := os.CreateTemp(scratch, "result")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return nil, 70, ""
		}
		defer rf.Close()
		cmd.ExtraFiles = []*os.File{rf}
		err = cmd.Run()
		if cmd.Process != nil {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
		code := 0
		if err != nil {
			code = cmd.ProcessState.ExitCode()
			if code == 0 || code == -1 {
				code = 70
			}
		}
		var r Result
		rf.Seek(0, 0)
		b, e := io.ReadAll(rf)
		if e == nil {
			e = json.Unmarshal(b, &r)
		}
		if e != nil || code != 0 {
			return nil, code, eb.String()
		}
		return &r, 0, ""
	}
	run := func(n int) (*Result, int, string) {
		if !p.Shards || replay != "" {
			return one(self, n, 0, 1)
		}
		k := runtime.GOMAXPROCS(0)
		type ans struct {
			r      *Result
			code   int
			stderr string
		}
		bins := []string{self}
		if t := os.Getenv("MC_TWIN"); t != "" {
			bins = append(bins, t)
		}
		all := make([]ans, k*len(bins))
		var wg sync.WaitGroup
		for i := range all {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r, code, stderr := one(bins[i/k], n, i%k, k)
				all[i] = ans{r, code, stderr}
			}()
		}
		wg.Wait()
		for _, a := range all {
			if a.r == nil {
				return nil, a.code, a.stderr
			}
		}
		for _, a := range all[1:] {
			all[0].r.Merge(a.r)
		}
		return all[0].r, 0, ""
	}
	r, code, stderr := run(0)
	if r == nil {
		// The process died or hung. If the code under test did that, it does it again.
		if blame(code, stderr) {
			r2, code2, stderr2 := run(1)
			if r2 == nil && blame(code2, stderr2) {
				if len(stderr2) > 6000 {
					stderr2 = stderr2[:6000]
				}
				cs, _ := json.Marshal("whole run; see what")
				r = &Result{Property: p.ID,
					Violations: []Violation{{Key: "crash", What: "the code under test ended or hung the process: " + stderr2, Case: cs}}}
			} else if r2 != nil {
				r = r2
			}
		}
		if r == nil {
			fmt.Fprintf(os.Stderr, "check %s: child failed with code %d\n", p.ID, code)
			return 2
		}
	}
	kn := known(root, p.ID)
	bad := 0
	seen := map[string]bool{}
	os.MkdirAll(filepath.Join(root, "replays"), 0755)
	for i, v := range r.Violations {
		if t, ok := kn[v.Key]; ok {
			seen[v.Key] = true
			_ = t
			continue
		}
		bad++
		if bad > 10 {
			continue
		}
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%d.json", p.ID, i))
		if replay != "" {
			path = filepath.Join(root, "replays", fmt.Sprintf("%s-replayed.json", p.ID))
		}
		WriteJSON(path, map[string]any{"property": p.ID, "violation": v, "replay_cmd": "./check " + p.ID + " --replay " + path})
		what := v.What
		if len(what) > 1200 {
			what = what[:1200] + "..."
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  case: %s\n  what: %s\n", trim(compact(v.Case), 1200), strings.ReplaceAll(what, "\n", "\n        "))
	}
	for k, t := range kn {
		if seen[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, t, k)
		}
	}
	if replay == "" {
		ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": r.Coverage(p),
			"wall_s": float64(time.Since(start).Milliseconds()) / 1000, "violations": bad}
		if len(p.Assume) > 0 {
			ev["assumptions"] = p.Assume
		}
		if err := WriteJSON(filepath.Join(root, "evidence", p.ID+".json"), ev); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if bad > 0 {
		return 1
	}
	fmt.Printf("OK property=%s tier=%s exhaustive=%v %s\n", p.ID, tier, r.Exhaustive, summary(r.Coverage(p)))
	return 0
}

func blame(code int, stderr string) bool {
	if code == 9 && strings.Contains(stderr, "HANG:") {
		return true
	}
	if !strings.Contains(stderr, "markbates/pkger") {
		return false
	}
	for _, s := range []string{"fatal error:", "panic:", "stack overflow", "SIGSEGV"} {
		if strings.Contains(stderr, s) && !strings.Contains(stderr, "out of memory") {
			return true
		}
	}
	return false
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func summary(m map[string]any) string {
	var s []string
	for _, k := range []string{"states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial"} {
		if v, ok := m[k]; ok {
			s = append(s, fmt.Sprintf("%s=%v", k, v))
		}
	}
	return strings.Join(s, " ")
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func compact(raw json.RawMessage) string {
	var b bytes.Buffer
	if json.Compact(&b, raw) != nil {
		return string(raw)
	}
	return b.String()
}
