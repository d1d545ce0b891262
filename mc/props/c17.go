package props

import (
	"fmt"
	"strings"

	"verif.local/mc/kit"
)

// unresolved are statements with a declaration whose path cannot be determined; %s is the function. In some of them another
// declaration is nested, $IN, which can be.
var unresolved = []string{
	"pkger.%s(v)",
	"pkger.%s(f())",
	"pkger.%s(v.name)",
	"pkger.%s(v[0])",
	"pkger.%s(*v)",
	"pkger.%s(\"/a\" + v)",
	"pkger.%s(v + \"/a\")",
	"pkger.%s(elsewhere)",
	"pkger.%s(other.Path)",
	"pkger.%s(undefinedAnywhere)",
	"pkger.%s()",
	"pkger.%s(nil)",
	"pkger.%s(1)",
	"pkger.%s(1.5)",
	"pkger.%s(kOmitted)",
	"pkger.%s(kIota)",
	"pkger.%s(kLoopA)",
	"pkger.%s(kSelf)",
	"pkger.%s(kShort)",
	"pkger.%s(kInt)",
	"pkger.%s(kElsewhere)",
	"pkger.%s(kCall)",
	"pkger.%s(tName)",
	"pkger.%s(body0)",
	"pkger.%s(gVar)",
	"pkger.%s(param)",
	"pkger.%s(local)",
	"pkger.%s(func() {})",
	"pkger.%s([]string{})",
	"pkger.%s(struct{}{})",
	"pkger.%s(<-ch)",
	"pkger.%s(&v)",
	"pkger.%s(-1)",
	"pkger.%s(v...)",
	"pkger.%s(_)",
	"pkger.%s(pkger)",
	"pkger.%s(filepath.Join(\"/no\", v))",
	"pkger.%s(v.(string))",
	"pkger.%s(v, \"/no\")",
	"for _, v := range vs {\n\tpkger.%s(v)\n}",
	"if kShadowed := f(); true {\n\tpkger.%s(kShadowed)\n}",
	"{\n\tvar kShadowed = f()\n\tpkger.%s(kShadowed)\n}",
	"func(kShadowed string) {\n\tpkger.%s(kShadowed)\n}(v)",
	"pkger.%s(f($IN))",
	"pkger.%s($IN)",
	"pkger.%s(func() string {\n\t$IN\n\treturn v\n}())",
	"pkger.%s(v, func(p string) error {\n\t_, err := $IN\n\treturn err\n})",
	"pkger.%s(m[$IN])",
	"pkger.%s(pkger.Open(f($IN)))",
	"pkger.%s(v).Method($IN)",
	"x, y := pkger.%s(v), $IN",
	"pkger.Remove(pkger.%s(v), $IN)",
}

// unresolvedTop is what the statements above refer to.
const unresolvedTop = `const (
	kBefore  = "/no"
	kOmitted
)

const kIota = iota

const (
	kLoopA = kLoopB
	kLoopB = kLoopA
)

const kSelf = kSelf
const kLong, kShort = "/no"
const kInt = 7
const kElsewhere = elsewhere
const kCall = string("/no")
const kShadowed = "/no"

type tName string

var gVar = "/no"
`

type stmt struct {
	body string
	want []string // kind, argument of the declarations to be found
}

// statements are those that sequences are made of.
func statements(c *kit.Ctx) (bad, good []stmt) {
	for i, u := range unresolved {
		for j, k := range declKinds {
			if !c.Thorough() && (i+j)%7 != 0 && i%5 != 0 {
				continue
			}
			s := stmt{body: fmt.Sprintf(strings.ReplaceAll(u, "%", "%[1]"), k)}
			if strings.Contains(u, "$IN") {
				in := declKinds[(i+j)%7]
				s.body = strings.ReplaceAll(s.body, "$IN", call(in, "\"/in\""))
				s.want = []string{in}
			}
			bad = append(bad, s)
		}
	}
	for _, k := range declKinds {
		good = append(good, stmt{call(k, "\"/good\""), []string{k}})
	}
	return
}

// wrap makes a program of statements, split over files as told.
func wrapProgram(parts map[string][]stmt) program {
	p := program{Files: map[string]string{}}
	for f, ss := range parts {
		var bodies []string
		for i, s := range ss {
			// make the texts distinct, so that a position tells them apart
			tag := fmt.Sprintf("/n%d/", i)
			b := strings.NewReplacer("/good", tag+"good", "/in", tag+"in").Replace(s.body)
			bodies = append(bodies, b)
			for _, k := range s.want {
				what := "good"
				if strings.Contains(s.body, "/in") {
					what = "in"
				}
				p.Want = append(p.Want, mkWant(k, tag+what, f, call(k, `"`+tag+what+`"`)))
			}
		}
		pkg := "x"
		if !strings.Contains(f, "/") {
			pkg = "main"
		}
		src := source(pkg, []string{unresolvedTop}, bodies)
		src = strings.ReplaceAll(src, "() {\n\t", "(param string) {\n\tlocal := param\n\t")
		if f == "main.go" {
			src += "\nfunc main() {}\n"
		}
		p.Files[f] = src
	}
	p.Files["elsewhere.go"] = "package main\n\nconst elsewhere = \"/no\"\n"
	return p
}

// survivors are programs with declarations that cannot be resolved.
func survivors(c *kit.Ctx) (out []program) {
	bad, good := statements(c)
	add := func(parts map[string][]stmt) { out = append(out, wrapProgram(parts)) }
	for _, b := range bad {
		for _, f := range []string{"main.go", "sub/y.go", "main_test.go"} {
			add(map[string][]stmt{f: {b}})
		}
		for _, g := range good {
			add(map[string][]stmt{"other.go": {b, g}})
			add(map[string][]stmt{"other.go": {g, b}})
			add(map[string][]stmt{"other.go": {g, b, g}})
			add(map[string][]stmt{"main.go": {b}, "other.go": {g}})
			add(map[string][]stmt{"sub/x.go": {b}, "sub/y.go": {g}})
			add(map[string][]stmt{"sub/x.go": {g}, "sub/deep/x.go": {b}, "plain/go/x.go": {g}})
		}
	}
	for i, b1 := range bad {
		for j, b2 := range bad {
			if !c.Thorough() && (i*3+j)%4 != 0 {
				continue
			}
			add(map[string][]stmt{"other.go": {b1, good[(i+j)%7], b2}})
			add(map[string][]stmt{"other.go": {b1, b2, good[(i+j)%7]}})
		}
	}
	// declarations that cannot be resolved in every syntactic position, next to one that can be
	for i, cx := range contexts {
		for j, k := range declKinds {
			if !c.Thorough() && (i+j)%3 != 0 {
				continue
			}
			for _, arg := range []string{"v", "", "kOmitted", "f(" + call(k, "\"/in\"") + ")"} {
				e := "pkger." + k + "(" + arg + ")"
				x := strings.ReplaceAll(strings.ReplaceAll(cx.T, "$E", e), "$L", "")
				tops, bodies := []string{unresolvedTop}, []string{call("Open", "\"/before\"")}
				if cx.Top {
					tops = append(tops, x)
				} else {
					bodies = append(bodies, x)
				}
				bodies = append(bodies, call("Stat", "`/after`"))
				p := program{Files: map[string]string{"other.go": source("main", tops, bodies)}}
				p.Want = []want{mkWant("Open", "/before", "other.go", bodies[0]), mkWant("Stat", "/after", "other.go", call("Stat", "`/after`"))}
				if strings.Contains(arg, "/in") {
					p.Want = append(p.Want, mkWant(k, "/in", "other.go", call(k, "\"/in\"")))
				}
				out = append(out, p)
			}
		}
	}
	return
}

var ignoredNames = []string{".hidden", "._x", "_x", "_", "__", "vendor", "node_modules", "testdata", ".git"}
var parsedNames = []string{"vendors", "xvendor", "Vendor", "vendor.d", "vendor-x", "node_modules2", "node_module", "node-modules", "testdata2", "testdata_", "Testdata", "test", "tests", "testdatas", "x_", "a.b", "x.hidden", "a_b", "v", "node", "data", "internal", "cmd", "main"}

// moreDirs are the directories of the name ladder: every name at three depths, and beneath an ignored one.
func moreDirs() (out []string) {
	for _, n := range append(append([]string{}, ignoredNames...), parsedNames...) {
		out = append(out, n, "sub/"+n)
	}
	for _, n := range ignoredNames {
		out = append(out, n+"/below", "sub/deep/"+n)
	}
	return append(out, "a.b/vendor.d/test/x_", "sub/deep/vendors", "sub/deep/vendors/testdata")
}

// ignored tells whether a directory is not searched.
func ignored(d string) bool {
	for _, p := range strings.Split(d, "/") {
		for _, n := range ignoredNames {
			if p == n {
				return true
			}
		}
	}
	return false
}

// dirPrograms put declarations into directories of all these names.
func dirPrograms(c *kit.Ctx) (out []program) {
	all := append(append([]string{}, goDirs...), moreDirs()...)
	one := func(p *program, d string, k string) {
		e := call(k, fmt.Sprintf("%q", "/"+d+"/f.txt"))
		f := d + "/x.go"
		p.Files[f] = source("x", nil, []string{e})
		if !ignored(d) {
			p.Want = append(p.Want, mkWant(k, "/"+d+"/f.txt", f, e))
		}
	}
	for _, d := range all {
		for _, k := range declKinds {
			p := program{Files: map[string]string{}}
			one(&p, d, k)
			out = append(out, p)
		}
		for i, d2 := range all {
			if d2 == d || (!c.Thorough() && i%3 != 0) {
				continue
			}
			p := program{Files: map[string]string{}}
			one(&p, d, "Open")
			one(&p, d2, "Include")
			out = append(out, p)
		}
	}
	p := program{Files: map[string]string{}}
	for i, d := range all {
		one(&p, d, declKinds[i%7])
	}
	return append(out, p)
}

// rootNames are the names the module's own directory has.
var rootNames = append(append([]string{"app", "vendor/app", "testdata/app", ".x/app", "_x/y/app", "node_modules/app"}, ignoredNames...), "vendors", "a.b")

// C17 is surviving what cannot be resolved.
func C17() *kit.Prop {
	p := &kit.Prop{ID: "C17", Level: "model_checking", Shards: true,
		Rule: "all sequences (of up to three, over one to three files) of declarations whose path cannot be determined - 50 forms x declaring function - and declarations whose path can be, including nested ones and every syntactic position; every directory name of a ladder around the ignored names, at three depths, alone and in pairs; every name of the module's own root directory and of its parents. The parser must report exactly the declarations that can be determined"}
	p.Run = func(c *kit.Ctx) {
		s := progSkel(c, "")
		runPrograms(c, s, survivors(c))
		s = progSkel(c, "", moreDirs()...)
		runPrograms(c, s, dirPrograms(c))
		c.Each(len(rootNames), func(i int) {
			s := progSkel(c, rootNames[i])
			for j, pr := range survivors(c) {
				if j%97 != 0 || len(pr.Want) == 0 {
					continue
				}
				pr.Root = rootNames[i]
				c.States.Add(1)
				c.Check(int64(1000000+i*1000+j), progKey(pr)+pr.Root, pr, func() error { return s.runProgram(c, pr) })
			}
			c.Outcome("root", rootNames[i])
		})
	}
	p.Replay = replayProgram
	return p
}
