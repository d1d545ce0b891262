package props

import (
	"bytes"
	stdctx "context"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif.local/mc/kit"
)

// ran is what became of a command.
type ran struct {
	code     int // -1: killed
	out, err string
	hung     bool
}

func (r ran) String() string {
	s := strings.TrimSpace(r.err)
	if len(s) > 400 {
		s = s[:400]
	}
	if r.hung {
		return "hung: " + s
	}
	return "exit " + itoa(r.code) + ": " + s
}

// toolEnv is the environment of the go command and of the tool, offline. The child's own calls of the go command use it too.
func toolEnv(c *kit.Ctx) {
	for k, v := range map[string]string{
		"GOMODCACHE": os.Getenv("MC_MOD"), "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOSUMDB": "off", "GOTOOLCHAIN": "local", "GOENV": "off",
		"CGO_ENABLED": "0",
	} {
		os.Setenv(k, v)
	}
	_ = c
}

// runIn runs a command in a directory, with a time limit.
func runIn(dir string, env []string, argv ...string) ran {
	ctx, cancel := stdctx.WithTimeout(stdctx.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.Env = append(cmd.Env, "PWD="+dir)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	r := ran{out: o.String(), err: e.String(), hung: ctx.Err() != nil}
	if err != nil {
		r.code = -1
		if cmd.ProcessState != nil {
			r.code = cmd.ProcessState.ExitCode()
		} else {
			r.err += err.Error()
		}
	}
	return r
}

// tool runs the command-line tool.
func tool(dir string, args ...string) ran {
	return runIn(dir, nil, append([]string{os.Getenv("MC_CLI")}, args...)...)
}

// snapshot is all files of a tree: path -> mode, and content for regular files.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		r, _ := filepath.Rel(dir, p)
		s := i.Mode().String()
		if i.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				s += " " + err.Error()
			}
			s += " " + string(b)
		}
		m[r] = s
		return nil
	})
	return m
}

// realModule is a go.mod that uses the real package.
func realModule(path string, neighbours ...string) string {
	return strings.Replace(goMod(path, neighbours...), "=> ../pkger", "=> /repo", 1)
}

// goSum is the one of the package.
func goSum() string {
	b, err := os.ReadFile("/repo/go.sum")
	if err != nil {
		panic(err)
	}
	return string(b)
}

// plant writes files below dir; "" as value with a trailing slash in the name makes a directory.
func plant(dir string, files map[string]string) {
	for n, b := range files {
		p := filepath.Join(dir, n)
		var err error
		if strings.HasSuffix(n, "/") {
			err = os.MkdirAll(p, 0755)
		} else if err = os.MkdirAll(filepath.Dir(p), 0755); err == nil {
			err = os.WriteFile(p, []byte(b), 0644)
		}
		if err != nil {
			panic(err)
		}
	}
}
