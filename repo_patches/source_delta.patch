From 0d72144e84dd93ac067d051c49911594ae549dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:46 +0000
Subject: [PATCH 01/50] fix: concurrent first uses of maps.Files and maps.Infos
 lose entries

The sync.Once itself was created lazily and unsynchronised, so two first
users could each make their own map and one lost what it had stored.
---
 internal/maps/files.go | 5 +----
 internal/maps/infos.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/maps/files.go b/internal/maps/files.go
index 3b3b6ac..c0a003e 100644
--- a/internal/maps/files.go
+++ b/internal/maps/files.go
@@ -17,13 +17,10 @@ import (
 // value: pkging.File
 type Files struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Files) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
diff --git a/internal/maps/infos.go b/internal/maps/infos.go
index 0eed02f..325c0df 100644
--- a/internal/maps/infos.go
+++ b/internal/maps/infos.go
@@ -16,13 +16,10 @@ import (
 // value: here.Info
 type Infos struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Infos) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
-- 
2.43.0


From a51c365996637188ff53dda9588c7f9237a366a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:01 +0000
Subject: [PATCH 02/50] fix: paths with backslash dot segments escape the
 module directory

Info.Parse cleans a path before it turns backslashes into slashes, so
/a\..\..\x became /a/../../x and was joined with the module directory.
It also cut the module directory off names that merely start with it, and
resolved the dot segments of pkg:/../x against the package name.
---
 here/here.go          | 39 +++++++++++++++++++++++++++++++++++++++
 parser/include.go     |  2 +-
 parser/source.go      |  2 +-
 pkging/mem/mem.go     |  2 +-
 pkging/stdos/stdos.go |  2 +-
 5 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/here/here.go b/here/here.go
index f87a061..cf6b2d2 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,10 @@
 package here
 
 import (
+	"path"
+	"path/filepath"
+	"strings"
+
 	"github.com/gobuffalo/here"
 )
 
@@ -12,3 +16,38 @@ var Here = here.New()
 var Dir = Here.Dir
 var Package = Here.Package
 var Current = Here.Current
+
+// Parse the string in Path format, relative to info.
+//
+// Unlike info.Parse it resolves dot segments after a package name and those
+// written with backslashes, so that the name of the returned Path is clean and
+// never leads out of its package. An absolute path is only made relative to
+// info.Dir if it really lies below that directory.
+func Parse(info Info, p string) (Path, error) {
+	p = strings.TrimSpace(strings.Replace(p, "\\", "/", -1))
+
+	name := p
+	if i := strings.Index(p, ":/"); i >= 0 {
+		name = path.Clean(p[i+1:])
+		p = p[:i+1] + name
+	}
+
+	dir := filepath.ToSlash(info.Dir)
+	name = filepath.ToSlash(filepath.Clean(name))
+	full := filepath.ToSlash(filepath.Clean(p))
+	if dir == "/" || !(below(dir, name) || below(dir, full)) {
+		info.Dir = ""
+	}
+
+	pt, err := info.Parse(p)
+	if err != nil {
+		return pt, err
+	}
+	pt.Name = path.Clean("/" + pt.Name)
+	return pt, nil
+}
+
+// below reports whether the path p is dir or lies beneath it.
+func below(dir string, p string) bool {
+	return p == dir || strings.HasPrefix(p, dir+"/")
+}
diff --git a/parser/include.go b/parser/include.go
index cb95500..58f678c 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -20,7 +20,7 @@ type IncludeDecl struct {
 
 func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 	var id IncludeDecl
-	pt, err := her.Parse(inc)
+	pt, err := here.Parse(her, inc)
 	if err != nil {
 		return id, err
 	}
diff --git a/parser/source.go b/parser/source.go
index be58036..81d35f7 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -173,7 +173,7 @@ func (p *ParsedSource) parse() error {
 			return false
 		}
 
-		pt, err := info.Parse(val)
+		pt, err := here.Parse(info, val)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
 			return false
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 1590e3e..b0d0d08 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -49,7 +49,7 @@ func (f *Pkger) Info(p string) (here.Info, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	return here.Parse(f.Here, p)
 }
 
 // Remove removes the named file or (empty) directory.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index b811702..daa81fa 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -130,7 +130,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	return here.Parse(f.Here, p)
 }
 
 // Stat returns a FileInfo describing the named file.
-- 
2.43.0


From 3db11a24949aca945859fc8132fbd061429ad891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:01 +0000
Subject: [PATCH 03/50] fix: stdos MkdirAll ignores the package and spelling of
 its path

It joined the unparsed path, so pkg:/dir created a directory named 'pkg:'.
---
 pkging/stdos/stdos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index daa81fa..e1debd2 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -91,7 +91,7 @@ func (f *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	return os.MkdirAll(filepath.Join(info.Dir, p), perm)
+	return os.MkdirAll(filepath.Join(info.Dir, pt.Name), perm)
 }
 
 // Open opens the named file for reading. If successful, methods on the returned file can be used for reading; the associated file descriptor has mode O_RDONLY.
-- 
2.43.0


From 38b3f8ceab96474408030145d1411735e240094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:02 +0000
Subject: [PATCH 04/50] fix: opening through a stdos directory leaves the
 directory and its package

Names with .. were resolved against the parent directories, and the package
of the directory was dropped, so the current module's file was opened.
---
 pkging/stdos/file.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 35845cf..23268d7 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -4,6 +4,7 @@ import (
 	"net/http"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -45,8 +46,12 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	fp := path.Join(f.Path().Name, name)
-	f2, err := f.pkging.Open(fp)
+	name = path.Join("/", strings.Replace(name, "\\", "/", -1))
+	pt := here.Path{
+		Pkg:  f.Path().Pkg,
+		Name: path.Join(f.Path().Name, name),
+	}
+	f2, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4d046006d36e8c0eab0e7210cca6ce554bf954b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:32 +0000
Subject: [PATCH 05/50] fix: mem RemoveAll removes siblings and files of other
 packages

It matched names by prefix, so removing /foo removed /foobar, and it never
looked at the package.
---
 pkging/mem/mem.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index b0d0d08..3b5bcd8 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -75,7 +75,7 @@ func (fx *Pkger) RemoveAll(name string) error {
 	}
 
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
-		if strings.HasPrefix(key.Name, pt.Name) {
+		if within(key, pt) {
 			fx.files.Delete(key)
 		}
 		return true
@@ -250,3 +250,14 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	}
 	return nil
 }
+
+// within reports whether the path key is pt or lies beneath it.
+func within(key here.Path, pt here.Path) bool {
+	if key.Pkg != pt.Pkg {
+		return false
+	}
+	if key.Name == pt.Name || pt.Name == "/" {
+		return true
+	}
+	return strings.HasPrefix(key.Name, pt.Name+"/")
+}
-- 
2.43.0


From 82346782d653b50d235380cdf08ae5d47d840ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:33 +0000
Subject: [PATCH 06/50] fix: mem Remove removes directories that are not empty

Their contents stayed behind without a parent. The error for a missing
path now also means that it does not exist.
---
 pkging/mem/mem.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 3b5bcd8..cb3c07e 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -60,7 +60,13 @@ func (fx *Pkger) Remove(name string) error {
 	}
 
 	if _, ok := fx.files.Load(pt); !ok {
-		return &os.PathError{"remove", pt.String(), fmt.Errorf("no such file or directory")}
+		return &os.PathError{"remove", pt.String(), os.ErrNotExist}
+	}
+
+	for _, k := range fx.files.Keys() {
+		if k != pt && within(k, pt) {
+			return &os.PathError{"remove", pt.String(), fmt.Errorf("directory not empty")}
+		}
 	}
 
 	fx.files.Delete(pt)
-- 
2.43.0


From b83948247d75d2dbd3e108ba09d0cbdbd54d2b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:33 +0000
Subject: [PATCH 07/50] fix: mem Stat of a missing path does not say that it
 does not exist

---
 pkging/mem/mem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index cb3c07e..7244d75 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -207,7 +207,7 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	if ok {
 		return f.Stat()
 	}
-	return nil, fmt.Errorf("could not stat %s", pt)
+	return nil, &os.PathError{"stat", pt.String(), os.ErrNotExist}
 }
 
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
-- 
2.43.0


From c4ac06839c02c185070e4453eefbc68ce45f6dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 08/50] fix: mem Walk visits siblings that share a prefix, out
 of order

Walking /a also visited /ab, SkipDir on /a also skipped /ab, and /a.txt came
between /a and /a/b. SkipDir on a file now skips the rest of its directory,
as the standard library does.
---
 pkging/mem/mem.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 7244d75..1f7f4a8 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -213,21 +214,24 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
 func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	keys := f.files.Keys()
+	sort.SliceStable(keys, func(a, b int) bool {
+		return treeOrder(keys[a]) < treeOrder(keys[b])
+	})
 
 	pt, err := f.Parse(p)
 	if err != nil {
 		return err
 	}
 
-	skip := "!"
+	skip := here.Path{Name: "!"}
 	for _, k := range keys {
 		if k.Pkg != pt.Pkg {
 			continue
 		}
-		if !strings.HasPrefix(k.Name, pt.Name) {
+		if !within(k, pt) {
 			continue
 		}
-		if strings.HasPrefix(k.Name, skip) {
+		if within(k, skip) {
 			continue
 		}
 
@@ -245,8 +249,14 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 
 		err = wf(k.String(), fi, nil)
 		if err == filepath.SkipDir {
-
-			skip = k.Name
+			if k == pt && !fi.IsDir() {
+				return nil
+			}
+
+			skip = k
+			if !fi.IsDir() {
+				skip.Name = path.Dir(k.Name)
+			}
 			continue
 		}
 
@@ -267,3 +277,9 @@ func within(key here.Path, pt here.Path) bool {
 	}
 	return strings.HasPrefix(key.Name, pt.Name+"/")
 }
+
+// treeOrder is a key to sort paths in the order of a file tree: a directory
+// comes before its contents, and those before its next sibling.
+func treeOrder(pt here.Path) string {
+	return pt.Pkg + "\x00" + strings.Replace(pt.Name, "/", "\x00", -1)
+}
-- 
2.43.0


From a95eb8199a8ef38e735430ace052f0b0d487d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 09/50] fix: mem Create replaces directories and accepts files
 as parents

It also looked for the parent in the current package instead of the path's,
and named the file after the unparsed path.
---
 pkging/mem/mem.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 1f7f4a8..a06c5d4 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -93,7 +93,6 @@ func (fx *Pkger) RemoveAll(name string) error {
 
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func (fx *Pkger) Create(name string) (pkging.File, error) {
-	fx.MkdirAll("/", 0755)
 	pt, err := fx.Parse(name)
 	if err != nil {
 		return nil, err
@@ -104,11 +103,23 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
-	dir := filepath.Dir(pt.Name)
+	if err := fx.MkdirAll(here.Path{Pkg: pt.Pkg, Name: "/"}.String(), 0755); err != nil {
+		return nil, err
+	}
+
+	if fi, err := fx.Stat(pt.String()); pt.Name == "/" || err == nil && fi.IsDir() {
+		return nil, &os.PathError{"create", pt.String(), fmt.Errorf("is a directory")}
+	}
+
+	dir := path.Dir(pt.Name)
 	if dir != "/" {
-		if _, err := fx.Stat(dir); err != nil {
+		fi, err := fx.Stat(here.Path{Pkg: pt.Pkg, Name: dir}.String())
+		if err != nil {
 			return nil, err
 		}
+		if !fi.IsDir() {
+			return nil, &os.PathError{"create", pt.String(), fmt.Errorf("not a directory")}
+		}
 	}
 
 	f := &File{
@@ -116,7 +127,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		path: pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
-				Name:    filepath.Base(name),
+				Name:    path.Base(pt.Name),
 				Mode:    0644,
 				ModTime: pkging.ModTime(time.Now()),
 			},
-- 
2.43.0


From 4924d872ae1a38920548706fd03ec86f51d58d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 10/50] fix: mem MkdirAll overwrites existing entries

An existing directory got a new mode and time, an existing file was replaced
by a directory, parents were created in the current package instead of the
path's, and the mode of a directory did not say that it is one.
---
 pkging/mem/mem.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index a06c5d4..63e3243 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -146,27 +146,39 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	dir, name := path.Split(pt.Name)
+	her, err := fx.Info(pt.Pkg)
+	if err != nil {
+		return err
+	}
 
-	if dir != "/" {
-		if err := fx.MkdirAll(dir, perm); err != nil {
+	if fl, ok := fx.files.Load(pt); ok {
+		fi, err := fl.Stat()
+		if err != nil {
 			return err
 		}
+		if !fi.IsDir() {
+			return &os.PathError{"mkdir", pt.String(), fmt.Errorf("not a directory")}
+		}
+		return nil
 	}
 
-	if dir == "/" && name == "" {
-		dir = filepath.Base(fx.Here.Dir)
+	dir, name := path.Split(pt.Name)
+
+	if name != "" {
+		if err := fx.MkdirAll(here.Path{Pkg: pt.Pkg, Name: dir}.String(), perm); err != nil {
+			return err
+		}
 	}
 
 	f := &File{
-		Here:   fx.Here,
+		Here:   her,
 		pkging: fx,
 		path:   pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
 				IsDir:   true,
 				Name:    name,
-				Mode:    perm,
+				Mode:    perm | os.ModeDir,
 				ModTime: pkging.ModTime(time.Now()),
 			},
 		},
-- 
2.43.0


From 9e341f8275140ce24e0e9a5662c0744e6b525443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 11/50] fix: mem Create makes the root directory even when it
 fails

---
 pkging/mem/mem.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 63e3243..18e3152 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -103,10 +103,6 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
-	if err := fx.MkdirAll(here.Path{Pkg: pt.Pkg, Name: "/"}.String(), 0755); err != nil {
-		return nil, err
-	}
-
 	if fi, err := fx.Stat(pt.String()); pt.Name == "/" || err == nil && fi.IsDir() {
 		return nil, &os.PathError{"create", pt.String(), fmt.Errorf("is a directory")}
 	}
@@ -122,6 +118,10 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		}
 	}
 
+	if err := fx.MkdirAll(here.Path{Pkg: pt.Pkg, Name: "/"}.String(), 0755); err != nil {
+		return nil, err
+	}
+
 	f := &File{
 		Here: her,
 		path: pt,
-- 
2.43.0


From face5e813e7436f3cda96b171dec8e22a9beb6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 12/50] fix: modules without a Go package in their root cannot
 be used

Paths are qualified with the module path, but the module's own information
was only known under its (empty) import path, so every operation failed.
---
 pkging/mem/mem.go     | 4 ++++
 pkging/stdos/stdos.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 18e3152..77e9f18 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -24,6 +24,10 @@ func New(info here.Info) (*Pkger, error) {
 		Here:  info,
 	}
 	f.infos.Store(info.ImportPath, info)
+	if info.ImportPath == "" {
+		// the root of the module has no Go package
+		f.infos.Store(info.Module.Path, info)
+	}
 	return f, nil
 }
 
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index e1debd2..b769e73 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -25,6 +25,10 @@ func New(her here.Info) (*Pkger, error) {
 		Here:  her,
 	}
 	p.infos.Store(her.ImportPath, her)
+	if her.ImportPath == "" {
+		// the root of the module has no Go package
+		p.infos.Store(her.Module.Path, her)
+	}
 	return p, nil
 }
 
-- 
2.43.0


From 861d8ec2cc5946977494ad134723d9380a9adfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 13/50] fix: reading an empty mem file is an error instead of
 EOF

Seeking in an empty file did not work either: every seek ended at 0.
---
 pkging/mem/file.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 2d4d244..a7e9122 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -31,7 +31,7 @@ type File struct {
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if !f.isDir() && f.reader == nil {
 		f.reader = bytes.NewReader(f.data)
 	}
 
@@ -70,7 +70,7 @@ func (f *File) Close() error {
 
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if !f.isDir() && f.reader == nil {
 		f.reader = bytes.NewReader(f.data)
 	}
 
@@ -90,6 +90,10 @@ func (f *File) Write(b []byte) (int, error) {
 	return i, err
 }
 
+func (f *File) isDir() bool {
+	return f.info != nil && f.info.IsDir()
+}
+
 // Info returns the here.Info of the file
 func (f File) Info() here.Info {
 	return f.Here
-- 
2.43.0


From 522a79602bfaf262ef993bfaf62a49e311253b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:49 +0000
Subject: [PATCH 14/50] fix: opening through a mem directory can return the
 directory itself

A child with the same path as its directory (/assets/assets) was taken for
the directory, opening "/" shared the handle and its state, and a package
qualified name left the directory's package.
---
 pkging/mem/file.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index a7e9122..d96eacc 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -172,17 +173,12 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	pt, err := f.Here.Parse(name)
-	if err != nil {
-		return nil, err
+	name = path.Join("/", strings.Replace(name, "\\", "/", -1))
+	pt := here.Path{
+		Pkg:  f.Path().Pkg,
+		Name: path.Join(f.Path().Name, name),
 	}
 
-	if pt == f.path {
-		return f, nil
-	}
-
-	pt.Name = path.Join(f.Path().Name, pt.Name)
-
 	di, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f0385b86491e75d17cbb4d9a0eb941f04b0099ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:50 +0000
Subject: [PATCH 15/50] fix: mem Readdir never ends and lists more than the
 direct children

Successive calls with a positive count returned the same entries again and
never io.EOF, entries of directories that are not embedded themselves were
listed, and the entry named like the parent's path was left out. Reading a
file as a directory is now an error, as on disk.
---
 pkging/mem/file.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index d96eacc..ae3d570 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -28,6 +28,8 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	pkging pkging.Pkger
+	infos  []os.FileInfo // entries that Readdir has still to return
+	listed bool
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
@@ -128,6 +130,34 @@ func (f File) String() string {
 //
 // If n <= 0, Readdir returns all the FileInfo from the directory in a single slice. In this case, if Readdir succeeds (reads all the way to the end of the directory), it returns the slice and a nil error. If it encounters an error before the end of the directory, Readdir returns the FileInfo read until that point and a non-nil error.
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
+	if !f.isDir() {
+		return nil, &os.PathError{"readdir", f.Name(), fmt.Errorf("not a directory")}
+	}
+
+	if !f.listed {
+		infos, err := f.readdir()
+		if err != nil {
+			return nil, err
+		}
+		f.infos = infos
+		f.listed = true
+	}
+
+	infos := f.infos
+	if count > 0 {
+		if len(infos) == 0 {
+			return nil, io.EOF
+		}
+		if len(infos) > count {
+			infos = infos[:count:count]
+		}
+	}
+	f.infos = f.infos[len(infos):]
+	return infos, nil
+}
+
+// readdir returns the direct children of the directory
+func (f *File) readdir() ([]os.FileInfo, error) {
 	var infos []os.FileInfo
 	root := f.Path().String()
 	err := f.pkging.Walk(root, func(path string, info os.FileInfo, err error) error {
@@ -135,10 +165,6 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 			return err
 		}
 
-		if count > 0 && len(infos) == count {
-			return io.EOF
-		}
-
 		if root == path {
 			return nil
 		}
@@ -147,7 +173,7 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 		if err != nil {
 			return err
 		}
-		if pt.Name == f.parent.Name {
+		if filepath.ToSlash(filepath.Dir(pt.Name)) != f.Path().Name {
 			return nil
 		}
 
@@ -163,12 +189,9 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 		if _, ok := err.(*os.PathError); ok {
 			return infos, nil
 		}
-		if err != io.EOF {
-			return nil, err
-		}
+		return nil, err
 	}
 	return infos, nil
-
 }
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
-- 
2.43.0


From af12c79eb24212dc300968f48f5b555c6e91f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:16 +0000
Subject: [PATCH 16/50] fix: data races between closing a mem file and readers
 of the file system

Close changed the stored file's data and its information in place, which Open,
Stat, Walk and MarshalJSON read without synchronisation, so readers could see
the size of one version and the data of another; Stat handed out the live
information. Create, MkdirAll and Remove check the tree and then change it
without excluding each other. Walk failed when a file vanished meanwhile.
---
 pkging/mem/embed.go |  2 ++
 pkging/mem/file.go  |  7 +++++-
 pkging/mem/mem.go   | 56 +++++++++++++++++++++++++++++++++------------
 3 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index a7086ed..b329acc 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -13,6 +13,7 @@ import (
 func (p *Pkger) MarshalJSON() ([]byte, error) {
 	files := map[string]embed.File{}
 
+	p.mu.RLock()
 	p.files.Range(func(key here.Path, file pkging.File) bool {
 		f, ok := file.(*File)
 		if !ok {
@@ -28,6 +29,7 @@ func (p *Pkger) MarshalJSON() ([]byte, error) {
 		files[key.String()] = ef
 		return true
 	})
+	p.mu.RUnlock()
 
 	infos := map[string]here.Info{}
 	p.infos.Range(func(key string, info here.Info) bool {
diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index ae3d570..3020525 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -62,9 +62,14 @@ func (f *File) Close() error {
 		return nil
 	}
 
+	if fx, ok := f.pkging.(*Pkger); ok {
+		fx.mu.Lock()
+		defer fx.mu.Unlock()
+	}
+
 	f.data = f.writer.Bytes()
 
-	fi := f.info
+	fi := pkging.NewFileInfo(f.info)
 	fi.Details.Size = int64(len(f.data))
 	fi.Details.ModTime = pkging.ModTime(time.Now())
 	f.info = fi
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 77e9f18..e76e50e 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -35,6 +36,7 @@ type Pkger struct {
 	Here  here.Info
 	infos *maps.Infos
 	files *maps.Files
+	mu    sync.RWMutex // held to change files, and to look into one
 }
 
 // Current returns the here.Info representing the current Pkger implementation.
@@ -64,6 +66,9 @@ func (fx *Pkger) Remove(name string) error {
 		return err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
 	if _, ok := fx.files.Load(pt); !ok {
 		return &os.PathError{"remove", pt.String(), os.ErrNotExist}
 	}
@@ -85,6 +90,9 @@ func (fx *Pkger) RemoveAll(name string) error {
 		return err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
 		if within(key, pt) {
 			fx.files.Delete(key)
@@ -107,13 +115,16 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
-	if fi, err := fx.Stat(pt.String()); pt.Name == "/" || err == nil && fi.IsDir() {
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
+	if fi, err := fx.stat(pt); pt.Name == "/" || err == nil && fi.IsDir() {
 		return nil, &os.PathError{"create", pt.String(), fmt.Errorf("is a directory")}
 	}
 
 	dir := path.Dir(pt.Name)
 	if dir != "/" {
-		fi, err := fx.Stat(here.Path{Pkg: pt.Pkg, Name: dir}.String())
+		fi, err := fx.stat(here.Path{Pkg: pt.Pkg, Name: dir})
 		if err != nil {
 			return nil, err
 		}
@@ -122,7 +133,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		}
 	}
 
-	if err := fx.MkdirAll(here.Path{Pkg: pt.Pkg, Name: "/"}.String(), 0755); err != nil {
+	if err := fx.mkdirAll(here.Path{Pkg: pt.Pkg, Name: "/"}, 0755); err != nil {
 		return nil, err
 	}
 
@@ -150,16 +161,19 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
+
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+	return fx.mkdirAll(pt, perm)
+}
+
+func (fx *Pkger) mkdirAll(pt here.Path, perm os.FileMode) error {
 	her, err := fx.Info(pt.Pkg)
 	if err != nil {
 		return err
 	}
 
-	if fl, ok := fx.files.Load(pt); ok {
-		fi, err := fl.Stat()
-		if err != nil {
-			return err
-		}
+	if fi, err := fx.stat(pt); err == nil {
 		if !fi.IsDir() {
 			return &os.PathError{"mkdir", pt.String(), fmt.Errorf("not a directory")}
 		}
@@ -169,7 +183,7 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	dir, name := path.Split(pt.Name)
 
 	if name != "" {
-		if err := fx.MkdirAll(here.Path{Pkg: pt.Pkg, Name: dir}.String(), perm); err != nil {
+		if err := fx.mkdirAll(here.Path{Pkg: pt.Pkg, Name: path.Clean(dir)}, perm); err != nil {
 			return err
 		}
 	}
@@ -206,6 +220,9 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 		}
 	}
 
+	fx.mu.RLock()
+	defer fx.mu.RUnlock()
+
 	fl, ok := fx.files.Load(pt)
 	if !ok {
 		return nil, os.ErrNotExist
@@ -231,8 +248,18 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	if err != nil {
 		return nil, err
 	}
+	fx.mu.RLock()
+	defer fx.mu.RUnlock()
+	return fx.stat(pt)
+}
+
+// stat returns a copy of the information of the named file.
+func (fx *Pkger) stat(pt here.Path) (os.FileInfo, error) {
 	f, ok := fx.files.Load(pt)
 	if ok {
+		if mf, ok := f.(*File); ok && mf.info != nil {
+			return pkging.NewFileInfo(mf.info), nil
+		}
 		return f.Stat()
 	}
 	return nil, &os.PathError{"stat", pt.String(), os.ErrNotExist}
@@ -262,12 +289,13 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 			continue
 		}
 
-		fl, ok := f.files.Load(k)
-		if !ok {
-			return os.ErrNotExist
+		f.mu.RLock()
+		fi, err := f.stat(k)
+		f.mu.RUnlock()
+		if os.IsNotExist(err) {
+			// removed since the walk began
+			continue
 		}
-
-		fi, err := fl.Stat()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 35db32df4573f9be2495178f88f76ea633b3dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 17/50] fix: Dir.Open leaks a file descriptor per request

---
 pkger.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkger.go b/pkger.go
index 5f56a51..657c130 100644
--- a/pkger.go
+++ b/pkger.go
@@ -36,6 +36,7 @@ func (d Dir) Open(name string) (http.File, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	return f.Open(name)
 }
 
-- 
2.43.0


From b3c21ce61f39ef521f0244b77731e68f53b46827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 18/50] fix: Remove through layers fails unless every layer has
 the file

A file that only a lower layer has could not be removed, and removing one
that only the upper layer has removed it but reported an error.
---
 pkging/wrap.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkging/wrap.go b/pkging/wrap.go
index 438f955..01f90f1 100644
--- a/pkging/wrap.go
+++ b/pkging/wrap.go
@@ -123,13 +123,23 @@ func (w withPkger) Walk(p string, wf filepath.WalkFunc) error {
 // Remove removes the named file or (empty) directory.
 func (w withPkger) Remove(p string) error {
 	err := w.base.Remove(p)
-	if err != nil {
+	if w.parent == nil {
 		return err
 	}
-	if w.parent != nil {
-		return w.parent.Remove(p)
+	if err != nil {
+		if _, serr := w.base.Stat(p); serr == nil {
+			// it is there, but can not be removed
+			return err
+		}
 	}
-	return nil
+	perr := w.parent.Remove(p)
+	if perr != nil && err == nil {
+		if _, serr := w.parent.Stat(p); serr != nil {
+			// it only was in the base
+			return nil
+		}
+	}
+	return perr
 }
 
 // RemoveAll removes path and any children it contains. It removes everything it can but returns the first error it encounters. If the path does not exist, RemoveAll returns nil (no error).
-- 
2.43.0


From 38b02caee05daa251a83756c103f46d35e112858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 19/50] fix: Create through layers makes files that can not be
 reached

If an upper layer has the path, but can not create it, the file was created
in a lower layer, where the entry of the upper layer hides it.
---
 pkging/wrap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/wrap.go b/pkging/wrap.go
index 01f90f1..68f9e4b 100644
--- a/pkging/wrap.go
+++ b/pkging/wrap.go
@@ -64,7 +64,7 @@ func (w withPkger) Info(p string) (here.Info, error) {
 func (w withPkger) Create(p string) (File, error) {
 	pt, err := w.base.Create(p)
 	if err != nil {
-		if w.parent != nil {
+		if _, serr := w.base.Stat(p); w.parent != nil && serr != nil {
 			return w.parent.Create(p)
 		}
 		return pt, err
-- 
2.43.0


From 3e1a8cc005b1e172aabb3ee1f72396f7adbdfb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:30 +0000
Subject: [PATCH 20/50] fix: the parser panics on constants it can not resolve

A name that another file declares has no Obj, a constant can be declared
without a value, and constants that refer to each other never end.
---
 parser/source.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index 81d35f7..970b77f 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -26,6 +26,9 @@ type ParsedSource struct {
 	err     error
 }
 
+// maxConstDepth is the number of constants that are followed to find a value
+const maxConstDepth = 100
+
 func (p *ParsedSource) Parse() error {
 	(&p.once).Do(func() {
 		p.err = p.parse()
@@ -33,9 +36,11 @@ func (p *ParsedSource) Parse() error {
 	return p.err
 }
 
-func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
+func (p *ParsedSource) valueIdent(node *ast.Ident, depth int) (s string) {
 	s = node.Name
-	if node.Obj.Kind != ast.Con {
+	// Obj is nil if the identifier is not declared in this file, and
+	// constants that refer to each other have no value
+	if node.Obj == nil || node.Obj.Kind != ast.Con || depth > maxConstDepth {
 		return
 	}
 	// As per ast package a Con object is always a *ValueSpec,
@@ -45,7 +50,10 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 		// as in `const a, b = "a", "b"`.
 		for i, v := range x.Names {
 			if v.Name == node.Name {
-				s = p.valueNode(x.Values[i])
+				// the value can be omitted, as in `const ( a = "a"; b )`
+				if i < len(x.Values) {
+					s = p.valueNode(x.Values[i], depth+1)
+				}
 				break
 			}
 		}
@@ -53,19 +61,19 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 	return
 }
 
-func (p *ParsedSource) valueNode(node ast.Node) string {
+func (p *ParsedSource) valueNode(node ast.Node, depth int) string {
 	var s string
 	switch x := node.(type) {
 	case *ast.BasicLit:
 		s = x.Value
 	case *ast.Ident:
-		s = p.valueIdent(x)
+		s = p.valueIdent(x, depth)
 	}
 	return s
 }
 
 func (p *ParsedSource) value(node ast.Node) (string, error) {
-	s := p.valueNode(node)
+	s := p.valueNode(node, 0)
 	return strconv.Unquote(s)
 }
 
-- 
2.43.0


From d1e52e05c2fb0b49ef61b614ab273a3f509dc143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:30 +0000
Subject: [PATCH 21/50] fix: a declaration that can not be resolved hides those
 nested in it

---
 parser/source.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index 970b77f..0f52fc9 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -165,33 +165,33 @@ func (p *ParsedSource) parse() error {
 
 		if len(ce.Args) < 1 {
 			p.err = fmt.Errorf("declarations require at least one argument")
-			return false
+			return true
 		}
 
 		n := ce.Args[0]
 		val, err := p.value(n)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, n)
-			return false
+			return true
 		}
 
 		info, err := here.Dir(filepath.Dir(p.Abs))
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
-			return false
+			return true
 		}
 
 		pt, err := here.Parse(info, val)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
-			return false
+			return true
 		}
 
 		if pt.Pkg != info.Module.Path {
 			info, err = here.Package(pt.Pkg)
 			if err != nil {
 				p.err = fmt.Errorf("%s: %s", err, p.Abs)
-				return false
+				return true
 			}
 		}
 
-- 
2.43.0


From e283c8e320763e1801f162cfe1552038ca4a938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 22/50] fix: the parser ignores folders whose name merely
 starts like an ignored one

vendors or testdata2 were skipped, and so was the whole module if its own
root directory is named like an ignored folder.
---
 parser/parser.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 72fd023..78fde8d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -200,10 +200,8 @@ func (p *Parser) parse() error {
 		}
 
 		base := filepath.Base(path)
-		for _, x := range defaultIgnoredFolders {
-			if strings.HasPrefix(base, x) {
-				return filepath.SkipDir
-			}
+		if path != root && ignored(base) {
+			return filepath.SkipDir
 		}
 
 		srcs, err := p.ParseDir(path, 0)
@@ -227,6 +225,19 @@ func (p *Parser) parse() error {
 	return err
 }
 
+// ignored reports whether folders of that name are not parsed
+func ignored(base string) bool {
+	for _, x := range defaultIgnoredFolders {
+		if base == x {
+			return true
+		}
+		if (x == "." || x == "_") && strings.HasPrefix(base, x) {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *Parser) parseIncludes() error {
 	for _, i := range p.includes {
 		d, err := NewInclude(p.Info, i)
-- 
2.43.0


From 0973be23cf324cf133f5d3bcca4ae0ca4ab76893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 23/50] fix: files after a nested module are listed as part of
 that module

The module of the directory visited last was used for the following files,
also after the walk had left it.
---
 parser/walk.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser/walk.go b/parser/walk.go
index eed6d91..0f70cd0 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -63,11 +63,14 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		if info.IsDir() {
-			her, err = here.Dir(path)
-			if err != nil {
-				return err
-			}
+		dir := path
+		if !info.IsDir() {
+			dir = filepath.Dir(path)
+		}
+
+		her, err := here.Dir(dir)
+		if err != nil {
+			return err
 		}
 
 		n := strings.TrimPrefix(path, her.Module.Dir)
-- 
2.43.0


From 38cb1d472228dba2933042add05d1ba89441a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:33 +0000
Subject: [PATCH 24/50] fix: directories without Go files are taken for another
 directory

The information of the first directory without Go files was returned for
every further one, even if that is part of another module.
---
 here/here.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index cf6b2d2..d3f623b 100644
--- a/here/here.go
+++ b/here/here.go
@@ -4,6 +4,7 @@ import (
 	"path"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/gobuffalo/here"
 )
@@ -13,10 +14,29 @@ type Module = here.Module
 type Path = here.Path
 
 var Here = here.New()
-var Dir = Here.Dir
+var Dir = dir
 var Package = Here.Package
 var Current = Here.Current
 
+var dirs sync.Map
+
+// dir gathers the Info of a directory, and caches it.
+//
+// Here.Dir caches it by import path, too, and that is empty for every
+// directory without Go files, whatever module it is in.
+func dir(p string) (Info, error) {
+	if i, ok := dirs.Load(p); ok {
+		return i.(Info), nil
+	}
+	h := here.New()
+	i, err := h.Dir(p)
+	if err != nil {
+		return i, err
+	}
+	dirs.Store(p, i)
+	return i, nil
+}
+
 // Parse the string in Path format, relative to info.
 //
 // Unlike info.Parse it resolves dot segments after a package name and those
-- 
2.43.0


From 5184690c7f998d7a3681f09fe3dbba0704ef5052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 25/50] fix: includes fail in modules without a Go package in
 their root

---
 parser/include.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/include.go b/parser/include.go
index 58f678c..0c51813 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -25,7 +25,7 @@ func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 		return id, err
 	}
 
-	if pt.Pkg != her.ImportPath {
+	if pt.Pkg != her.ImportPath && pt.Pkg != her.Module.Path {
 		her, err = here.Package(pt.Pkg)
 		if err != nil {
 			return id, err
-- 
2.43.0


From 09829a7acfeb3b93c4243c5f8695b33ef7e75404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:34 +0000
Subject: [PATCH 26/50] fix: files of other modules can not be opened once they
 are packed

They were stored in the current package under their absolute path on disk
instead of under the module and path that they are declared with. The
information of those modules is embedded as well.
---
 pkging/mem/add.go | 119 +++++++++++++++++++++++++++-------------------
 1 file changed, 71 insertions(+), 48 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index a77379a..1b5b2e2 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -4,7 +4,9 @@ import (
 	"bytes"
 	"io"
 	"os"
+	"path"
 	"path/filepath"
+	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -19,20 +21,6 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		if err != nil {
 			return err
 		}
-		pt, err := fx.Parse(f.Name())
-		if err != nil {
-			return err
-		}
-
-		dir := f.Name()
-		if !info.IsDir() {
-			dir = filepath.Dir(dir)
-		}
-
-		her, err := here.Dir(dir)
-		if err != nil {
-			return err
-		}
 		if info.IsDir() {
 			err = filepath.Walk(f.Name(), func(path string, info os.FileInfo, err error) error {
 				if err != nil {
@@ -45,35 +33,7 @@ func (fx *Pkger) Add(files ...*os.File) error {
 				}
 				defer f.Close()
 
-				pt, err := fx.Parse(path)
-				if err != nil {
-					return err
-				}
-
-				her, err := here.Package(pt.Pkg)
-				if err != nil {
-					return err
-				}
-
-				mf := &File{
-					Here:   her,
-					info:   pkging.NewFileInfo(info),
-					path:   pt,
-					pkging: fx,
-				}
-
-				if !info.IsDir() {
-					bb := &bytes.Buffer{}
-					_, err = io.Copy(bb, f)
-					if err != nil {
-						return err
-					}
-					mf.data = bb.Bytes()
-				}
-
-				fx.files.Store(mf.Path(), mf)
-
-				return nil
+				return fx.add(f, info)
 			})
 			if err != nil {
 				return err
@@ -81,6 +41,39 @@ func (fx *Pkger) Add(files ...*os.File) error {
 			continue
 		}
 
+		if err := fx.add(f, info); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// add copies a single file or directory into the *Pkger
+func (fx *Pkger) add(f *os.File, info os.FileInfo) error {
+	dir := f.Name()
+	if !info.IsDir() {
+		dir = filepath.Dir(dir)
+	}
+
+	her, err := here.Dir(dir)
+	if err != nil {
+		return err
+	}
+
+	pts, err := fx.paths(her, f.Name())
+	if err != nil {
+		return err
+	}
+
+	bb := &bytes.Buffer{}
+	if !info.IsDir() {
+		if _, err := io.Copy(bb, f); err != nil {
+			return err
+		}
+	}
+
+	for _, pt := range pts {
 		mf := &File{
 			Here:   her,
 			info:   pkging.NewFileInfo(info),
@@ -89,11 +82,6 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		}
 
 		if !info.IsDir() {
-			bb := &bytes.Buffer{}
-			_, err = io.Copy(bb, f)
-			if err != nil {
-				return err
-			}
 			mf.data = bb.Bytes()
 		}
 
@@ -102,3 +90,38 @@ func (fx *Pkger) Add(files ...*os.File) error {
 
 	return nil
 }
+
+// paths returns the paths that the file is known under: the one in the current
+// package if it lies there, and the one in the module it belongs to.
+func (fx *Pkger) paths(her here.Info, abs string) ([]here.Path, error) {
+	pt, err := fx.Parse(abs)
+	if err != nil {
+		return nil, err
+	}
+
+	below := func(dir string) bool {
+		return within(here.Path{Name: filepath.ToSlash(abs)}, here.Path{Name: filepath.ToSlash(dir)})
+	}
+
+	mod := her.Module
+	if mod.Dir == "" || mod.Dir == fx.Here.Module.Dir || !below(mod.Dir) {
+		return []here.Path{pt}, nil
+	}
+
+	if _, ok := fx.infos.Load(mod.Path); !ok {
+		info, err := here.Dir(mod.Dir)
+		if err != nil {
+			return nil, err
+		}
+		fx.infos.Store(mod.Path, info)
+	}
+
+	own := here.Path{
+		Pkg:  mod.Path,
+		Name: path.Clean("/" + filepath.ToSlash(strings.TrimPrefix(abs, mod.Dir))),
+	}
+	if below(fx.Here.Dir) {
+		return []here.Path{pt, own}, nil
+	}
+	return []here.Path{own}, nil
+}
-- 
2.43.0


From 986b4004590c850440e1e234f9d7592593cf7b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 27/50] fix: Stuff ignores that its output could not be written

---
 pkging/pkgutil/stuff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 0fbf02d..1169a30 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -57,5 +57,5 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 	}
 
 	_, err = w.Write(b)
-	return nil
+	return err
 }
-- 
2.43.0


From 98fe0301893b3658aad99e2537fa63f4162e8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:36 +0000
Subject: [PATCH 28/50] fix: a failed pack leaves a partial pkged.go behind

Failures to write were ignored, a panic was reported as success, and an
incomplete file stayed in place, which breaks the build of the program and
was itself embedded when its directory is. The output is now built in memory,
written to a temporary file and renamed.
---
 cmd/pkger/cmds/pack.go | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index d91e4cf..ab507bd 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -1,6 +1,7 @@
 package cmds
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"os"
@@ -47,6 +48,7 @@ func (e *packCmd) Exec(args []string) error {
 
 	fp := filepath.Join(info.Dir, e.out, outName)
 	os.RemoveAll(fp)
+	os.RemoveAll(tempName(fp))
 
 	decls, err := parser.Parse(info, e.include...)
 	if err != nil {
@@ -123,24 +125,22 @@ func (e *packCmd) Flags() *flag.FlagSet {
 	return e.FlagSet
 }
 
-func Package(info here.Info, out string, decls parser.Decls) error {
+func Package(info here.Info, out string, decls parser.Decls) (err error) {
 	c, err := here.Dir(filepath.Dir(out))
 	if err != nil {
 		return err
 	}
 
 	os.RemoveAll(out)
+	os.RemoveAll(tempName(out))
 	defer func() {
-		if err := recover(); err != nil {
+		if r := recover(); r != nil {
 			os.RemoveAll(out)
+			err = fmt.Errorf("could not package %s: %v", out, r)
 		}
 	}()
 
-	f, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
+	f := &bytes.Buffer{}
 
 	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
 	fmt.Fprintf(f, "// +build !skippkger\n\n")
@@ -155,5 +155,31 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 
 	fmt.Fprintf(f, "`)))\n")
 
-	return nil
+	return writeFile(out, f.Bytes())
+}
+
+// tempName is the name of the file that becomes out when it is complete
+func tempName(out string) string {
+	return filepath.Join(filepath.Dir(out), "."+filepath.Base(out)+".tmp")
+}
+
+// writeFile writes the whole of out, or nothing
+func writeFile(out string, b []byte) error {
+	tmp := tempName(out)
+	f, err := os.Create(tmp)
+	if err != nil {
+		return err
+	}
+
+	_, err = f.Write(b)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp, out)
+	}
+	if err != nil {
+		os.RemoveAll(tmp)
+	}
+	return err
 }
-- 
2.43.0


From 83cf1d3fb1c287d3d786966acc26c4af92457ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 29/50] fix: names with blanks around dot segments leave the
 served directory

A trailing blank made '.. ' one more dot segment: it is trimmed when the path
is parsed, after the name was joined with the directory.
---
 pkging/mem/file.go   | 4 ++++
 pkging/stdos/file.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 3020525..6b28d19 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -207,6 +207,10 @@ func (f *File) Open(name string) (http.File, error) {
 		Name: path.Join(f.Path().Name, name),
 	}
 
+	if got, err := f.pkging.Parse(pt.String()); err != nil || got != pt {
+		// blanks around the name could turn it into another one
+		return nil, &os.PathError{Op: "open", Path: pt.String(), Err: os.ErrNotExist}
+	}
 	di, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 23268d7..ebec732 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -51,6 +51,10 @@ func (f *File) Open(name string) (http.File, error) {
 		Pkg:  f.Path().Pkg,
 		Name: path.Join(f.Path().Name, name),
 	}
+	if got, err := f.pkging.Parse(pt.String()); err != nil || got != pt {
+		// blanks around the name could turn it into another one
+		return nil, &os.PathError{Op: "open", Path: pt.String(), Err: os.ErrNotExist}
+	}
 	f2, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From abaf843119254195798ef0316efa65ac79c18de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 30/50] fix: the name of a parsed path can end in blanks

Printing and parsing such a path gave another one.
---
 here/here.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index d3f623b..8613b78 100644
--- a/here/here.go
+++ b/here/here.go
@@ -63,7 +63,11 @@ func Parse(info Info, p string) (Path, error) {
 	if err != nil {
 		return pt, err
 	}
-	pt.Name = path.Clean("/" + pt.Name)
+	// blanks at the end are trimmed when the path is parsed again
+	for name = ""; name != pt.Name; {
+		name = pt.Name
+		pt.Name = path.Clean("/" + strings.TrimSpace(name))
+	}
 	return pt, nil
 }
 
-- 
2.43.0


From a36ff801afb952992ed674eceba8b9c8d0053e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:54 +0000
Subject: [PATCH 31/50] fix: created paths are recognised by their spelling,
 and hide files of other modules

---
 parser/decl.go | 15 ++++++++++-----
 parser/open.go |  2 +-
 parser/walk.go |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/parser/decl.go b/parser/decl.go
index 4dd6540..2d3cd97 100644
--- a/parser/decl.go
+++ b/parser/decl.go
@@ -26,13 +26,19 @@ func (decls Decls) Files() ([]*File, error) {
 	m := map[string]*File{}
 	v := map[string]string{}
 
+	// all of them first: the order of the declarations does not matter
 	for _, d := range decls {
-		if vt, ok := d.(Virtualer); ok {
-			for _, s := range vt.VirtualPaths() {
-				v[s] = s
-			}
+		if _, ok := d.(Virtualer); !ok {
+			continue
+		}
+		f, err := d.File()
+		if err != nil {
+			return nil, fmt.Errorf("%s: %s", err, d)
 		}
+		v[f.Abs] = f.Abs
+	}
 
+	for _, d := range decls {
 		fl, ok := d.(Filer)
 		if !ok {
 			continue
@@ -45,7 +51,6 @@ func (decls Decls) Files() ([]*File, error) {
 
 		for _, f := range files {
 			m[f.Abs] = f
-			v[f.Abs] = f.Abs
 		}
 	}
 
diff --git a/parser/open.go b/parser/open.go
index 85ec71e..6bbe18f 100644
--- a/parser/open.go
+++ b/parser/open.go
@@ -48,7 +48,7 @@ func (d OpenDecl) Value() (string, error) {
 }
 
 func (d OpenDecl) Files(virtual map[string]string) ([]*File, error) {
-	if _, ok := virtual[d.value]; ok {
+	if _, ok := virtual[d.file.Abs]; ok {
 		return nil, nil
 	}
 
diff --git a/parser/walk.go b/parser/walk.go
index 0f70cd0..bbfbfce 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -80,7 +80,7 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		if _, ok := virtual[n]; ok {
+		if _, ok := virtual[path]; ok {
 			if info.IsDir() {
 				return filepath.SkipDir
 			}
-- 
2.43.0


From d5d4717caf847723d1f260491e62d04b92e4de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 32/50] fix: the listed files depend on the order of the
 declarations

---
 parser/decl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/decl.go b/parser/decl.go
index 2d3cd97..239985a 100644
--- a/parser/decl.go
+++ b/parser/decl.go
@@ -50,6 +50,10 @@ func (decls Decls) Files() ([]*File, error) {
 		}
 
 		for _, f := range files {
+			// found in several ways: the order does not decide
+			if o, ok := m[f.Abs]; ok && o.String() <= f.String() {
+				continue
+			}
 			m[f.Abs] = f
 		}
 	}
-- 
2.43.0


From c205cf674dda234a0ddfd7771cda1b5f824d1585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 33/50] fix: directories whose Go files make no package end
 every listing and pack

---
 here/here.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index 8613b78..5c889af 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,8 @@
 package here
 
 import (
+	"encoding/json"
+	"os/exec"
 	"path"
 	"path/filepath"
 	"strings"
@@ -31,12 +33,29 @@ func dir(p string) (Info, error) {
 	h := here.New()
 	i, err := h.Dir(p)
 	if err != nil {
-		return i, err
+		// no package can be made of its Go files, but it still lies in a module
+		m, merr := module(p)
+		if merr != nil {
+			return i, err
+		}
+		i = Info{Dir: p, Name: filepath.Base(p), Module: m}
 	}
 	dirs.Store(p, i)
 	return i, nil
 }
 
+// module is the module that a directory lies in.
+func module(dir string) (Module, error) {
+	var m Module
+	c := exec.Command("go", "list", "-json", "-m")
+	c.Dir = dir
+	b, err := c.Output()
+	if err != nil {
+		return m, err
+	}
+	return m, json.Unmarshal(b, &m)
+}
+
 // Parse the string in Path format, relative to info.
 //
 // Unlike info.Parse it resolves dot segments after a package name and those
-- 
2.43.0


From d0e4cfb203cf8aae5e079bc36770645336114bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 34/50] fix: modules whose root has only excluded Go files
 cannot be used

---
 here/here.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index 5c889af..4470a80 100644
--- a/here/here.go
+++ b/here/here.go
@@ -18,7 +18,20 @@ type Path = here.Path
 var Here = here.New()
 var Dir = dir
 var Package = Here.Package
-var Current = Here.Current
+var Current = current
+
+// current is the Info of the directory of the main module.
+func current() (Info, error) {
+	i, err := Here.Current()
+	if err == nil {
+		return i, nil
+	}
+	b, merr := exec.Command("go", "env", "GOMOD").Output()
+	if merr != nil || !filepath.IsAbs(string(b)) {
+		return i, err
+	}
+	return dir(filepath.Dir(string(b)))
+}
 
 var dirs sync.Map
 
-- 
2.43.0


From 17008416de37e2860d8e3b0621dba1a90f682a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 35/50] fix: walking a directory that the program creates
 requires it to exist

---
 parser/walk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/walk.go b/parser/walk.go
index bbfbfce..346eb51 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -57,6 +57,9 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 	pt := d.file.Path
 
 	root := filepath.Join(her.Module.Dir, pt.Name)
+	if _, ok := virtual[root]; ok {
+		return nil, nil
+	}
 
 	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
-- 
2.43.0


From c8d6f9c28e940b221cea0843c363aebc336310d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 36/50] fix: the packed output contains the access times of the
 files

---
 pkging/mem/add.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index 1b5b2e2..169e501 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -74,9 +74,13 @@ func (fx *Pkger) add(f *os.File, info os.FileInfo) error {
 	}
 
 	for _, pt := range pts {
+		// without what this machine knows of the file, like when it was last read
+		fi := pkging.NewFileInfo(info)
+		fi.Details.Sys = nil
+
 		mf := &File{
 			Here:   her,
-			info:   pkging.NewFileInfo(info),
+			info:   fi,
 			path:   pt,
 			pkging: fx,
 		}
-- 
2.43.0


From b5db415e7de5ad7c8073ae1f97b72674e52e3130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 37/50] fix: the packed output depends on the build cache and
 on the pack before

---
 cmd/pkger/cmds/pack.go | 6 ++++++
 here/here.go           | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index ab507bd..e63a4b1 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -50,6 +50,12 @@ func (e *packCmd) Exec(args []string) error {
 	os.RemoveAll(fp)
 	os.RemoveAll(tempName(fp))
 
+	// without what an earlier pack left behind
+	info, err = here.Dir(info.Dir)
+	if err != nil {
+		return err
+	}
+
 	decls, err := parser.Parse(info, e.include...)
 	if err != nil {
 		return err
diff --git a/here/here.go b/here/here.go
index 4470a80..701f989 100644
--- a/here/here.go
+++ b/here/here.go
@@ -53,6 +53,8 @@ func dir(p string) (Info, error) {
 		}
 		i = Info{Dir: p, Name: filepath.Base(p), Module: m}
 	}
+	// whether the build cache holds the package says nothing about the directory
+	i.Stale, i.StaleReason = false, ""
 	dirs.Store(p, i)
 	return i, nil
 }
-- 
2.43.0


From f9eb0084a78a20fde26028819856d02c9d41caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 38/50] fix: Walk through layers fails unless every layer on
 disk has the path

---
 pkging/wrap.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkging/wrap.go b/pkging/wrap.go
index 68f9e4b..595918c 100644
--- a/pkging/wrap.go
+++ b/pkging/wrap.go
@@ -110,14 +110,34 @@ func (w withPkger) Stat(p string) (os.FileInfo, error) {
 
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
 func (w withPkger) Walk(p string, wf filepath.WalkFunc) error {
-	err := w.base.Walk(p, wf)
-	if err != nil {
+	visited := false
+	fn := func(path string, info os.FileInfo, err error) error {
+		visited = true
+		return wf(path, info, err)
+	}
+
+	err := w.base.Walk(p, fn)
+	if w.parent == nil {
 		return err
 	}
-	if w.parent != nil {
+	if err != nil {
+		if _, serr := w.base.Stat(p); visited || serr == nil {
+			return err
+		}
+		// it is not in the base
 		return w.parent.Walk(p, wf)
 	}
-	return nil
+
+	inBase := visited
+	visited = false
+	perr := w.parent.Walk(p, fn)
+	if perr != nil && inBase && !visited {
+		if _, serr := w.parent.Stat(p); serr != nil {
+			// it only is in the base
+			return nil
+		}
+	}
+	return perr
 }
 
 // Remove removes the named file or (empty) directory.
-- 
2.43.0


From 959e183704e24b91a2c7ad4ee754bd5719b29dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 39/50] fix: the file server over a directory on disk answers
 500 for paths beneath a file

---
 pkging/stdos/file.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index ebec732..1f820f2 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -1,10 +1,12 @@
 package stdos
 
 import (
+	"errors"
 	"net/http"
 	"os"
 	"path"
 	"strings"
+	"syscall"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -56,6 +58,10 @@ func (f *File) Open(name string) (http.File, error) {
 		return nil, &os.PathError{Op: "open", Path: pt.String(), Err: os.ErrNotExist}
 	}
 	f2, err := f.pkging.Open(pt.String())
+	if errors.Is(err, syscall.ENOTDIR) {
+		// a path beneath a file does not exist, as for http.Dir
+		err = &os.PathError{Op: "open", Path: pt.String(), Err: os.ErrNotExist}
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fa4b53c7a3b33ac0a482e186edb565ddef155059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:05 +0000
Subject: [PATCH 40/50] fix: modification times in zones with seconds in their
 offset change when serialised

---
 pkging/mod_time.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkging/mod_time.go b/pkging/mod_time.go
index d81a32c..cb7a038 100644
--- a/pkging/mod_time.go
+++ b/pkging/mod_time.go
@@ -11,6 +11,10 @@ type ModTime time.Time
 
 func (m ModTime) MarshalJSON() ([]byte, error) {
 	t := time.Time(m)
+	if _, offset := t.Zone(); offset%60 != 0 {
+		// the format can not express the seconds of a zone's offset
+		t = t.UTC()
+	}
 	return json.Marshal(t.Format(timeFmt))
 }
 
-- 
2.43.0


From ec069ce5a77ebcfddc450051f23dbdcfa5e25b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:30 +0000
Subject: [PATCH 41/50] fix: file information of years outside 0 to 9999 is
 serialised to something that can not be read

---
 pkging/mod_time.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkging/mod_time.go b/pkging/mod_time.go
index cb7a038..e211645 100644
--- a/pkging/mod_time.go
+++ b/pkging/mod_time.go
@@ -2,6 +2,7 @@ package pkging
 
 import (
 	"encoding/json"
+	"fmt"
 	"time"
 )
 
@@ -15,6 +16,9 @@ func (m ModTime) MarshalJSON() ([]byte, error) {
 		// the format can not express the seconds of a zone's offset
 		t = t.UTC()
 	}
+	if y := t.Year(); y < 0 || y > 9999 {
+		return nil, fmt.Errorf("the year of %v can not be serialised", t)
+	}
 	return json.Marshal(t.Format(timeFmt))
 }
 
-- 
2.43.0


From 6b3ebcf97dfa91113ec3883465b9e85d23bf9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:41 +0000
Subject: [PATCH 42/50] fix: declarations whose package information can not be
 found are dropped without an error

---
 parser/source.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index 0f52fc9..40160aa 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -79,6 +79,7 @@ func (p *ParsedSource) value(node ast.Node) (string, error) {
 
 func (p *ParsedSource) parse() error {
 	p.decls = map[string]Decls{}
+	var ferr error
 	var fn walker = func(node ast.Node) bool {
 		ce, ok := node.(*ast.CallExpr)
 		if !ok {
@@ -177,8 +178,8 @@ func (p *ParsedSource) parse() error {
 
 		info, err := here.Dir(filepath.Dir(p.Abs))
 		if err != nil {
-			p.err = fmt.Errorf("%s: %s", err, p.Abs)
-			return true
+			ferr = fmt.Errorf("%s: %s", err, p.Abs)
+			return false
 		}
 
 		pt, err := here.Parse(info, val)
@@ -190,8 +191,8 @@ func (p *ParsedSource) parse() error {
 		if pt.Pkg != info.Module.Path {
 			info, err = here.Package(pt.Pkg)
 			if err != nil {
-				p.err = fmt.Errorf("%s: %s", err, p.Abs)
-				return true
+				ferr = fmt.Errorf("%s: %s", err, p.Abs)
+				return false
 			}
 		}
 
@@ -205,7 +206,7 @@ func (p *ParsedSource) parse() error {
 		return true
 	}
 	ast.Walk(fn, p.Ast)
-	return nil
+	return ferr
 }
 
 func (p *ParsedSource) DeclsMap() (map[string]Decls, error) {
-- 
2.43.0


From 170bdb2c8896398b23396037d95225785afb4a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:15 +0000
Subject: [PATCH 43/50] fix: when the go command is killed, the module's
 package is taken for one without Go files

---
 here/here.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/here/here.go b/here/here.go
index 701f989..7ae5846 100644
--- a/here/here.go
+++ b/here/here.go
@@ -46,12 +46,24 @@ func dir(p string) (Info, error) {
 	h := here.New()
 	i, err := h.Dir(p)
 	if err != nil {
-		// no package can be made of its Go files, but it still lies in a module
-		m, merr := module(p)
-		if merr != nil {
+		// maybe no package can be made of its Go files, but it still lies in a module
+		b, lerr := list(p, "-e")
+		if lerr != nil {
 			return i, err
 		}
-		i = Info{Dir: p, Name: filepath.Base(p), Module: m}
+		i = Info{}
+		if err := json.Unmarshal(b, &i); err != nil {
+			return i, err
+		}
+		if i.Module.Dir == "" {
+			if i.Module, lerr = module(p); lerr != nil {
+				return i, err
+			}
+		}
+		i.Dir = p
+		if i.Name == "" {
+			i.Name = filepath.Base(p)
+		}
 	}
 	// whether the build cache holds the package says nothing about the directory
 	i.Stale, i.StaleReason = false, ""
@@ -62,15 +74,20 @@ func dir(p string) (Info, error) {
 // module is the module that a directory lies in.
 func module(dir string) (Module, error) {
 	var m Module
-	c := exec.Command("go", "list", "-json", "-m")
-	c.Dir = dir
-	b, err := c.Output()
+	b, err := list(dir, "-m")
 	if err != nil {
 		return m, err
 	}
 	return m, json.Unmarshal(b, &m)
 }
 
+// list is what the go command says in a directory.
+func list(dir string, flag string) ([]byte, error) {
+	c := exec.Command("go", "list", "-json", flag)
+	c.Dir = dir
+	return c.Output()
+}
+
 // Parse the string in Path format, relative to info.
 //
 // Unlike info.Parse it resolves dot segments after a package name and those
-- 
2.43.0


From cf8dc7d863e586791246f944bac7ccfbe35f9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 44/50] fix: in directories that are no identifiers, the packed
 file is no Go file

---
 cmd/pkger/cmds/pack.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index e63a4b1..afd4073 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -4,10 +4,12 @@ import (
 	"bytes"
 	"flag"
 	"fmt"
+	"go/token"
 	"os"
 	"path/filepath"
 	"sort"
 	"strings"
+	"unicode"
 
 	"github.com/markbates/pkger"
 	"github.com/markbates/pkger/here"
@@ -150,7 +152,7 @@ func Package(info here.Info, out string, decls parser.Decls) (err error) {
 
 	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
 	fmt.Fprintf(f, "// +build !skippkger\n\n")
-	fmt.Fprintf(f, "package %s\n\n", c.Name)
+	fmt.Fprintf(f, "package %s\n\n", packageName(c.Name))
 	fmt.Fprintf(f, "import (\n\t\"github.com/markbates/pkger\"\n\t")
 	fmt.Fprintf(f, "\"github.com/markbates/pkger/pkging/mem\"\n)\n\n")
 	fmt.Fprintf(f, "var _ = pkger.Apply(mem.UnmarshalEmbed([]byte(`")
@@ -164,6 +166,20 @@ func Package(info here.Info, out string, decls parser.Decls) (err error) {
 	return writeFile(out, f.Bytes())
 }
 
+// packageName is the name of a package in a directory of that name, which is
+// all that is known of directories without Go files
+func packageName(name string) string {
+	if token.IsIdentifier(name) && name != "_" {
+		return name
+	}
+	return "pkg_" + strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, name)
+}
+
 // tempName is the name of the file that becomes out when it is complete
 func tempName(out string) string {
 	return filepath.Join(filepath.Dir(out), "."+filepath.Base(out)+".tmp")
-- 
2.43.0


From 5cf24bb09bbab27423468abdb18a9fa7f2e6919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:59 +0000
Subject: [PATCH 45/50] fix: opening and creating left the file open when its
 information could not be read

---
 pkging/stdos/stdos.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index b769e73..159ccf0 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -59,6 +59,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 
 	info, err := f.Stat()
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	nf.info = pkging.NewFileInfo(info)
@@ -125,6 +126,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 	info, err := f.Stat()
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	nf.info = pkging.NewFileInfo(info)
-- 
2.43.0


From b23aa24f5fd5259a58970e53ba50acf1db038440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:23 +0000
Subject: [PATCH 46/50] fix: a module of the build without a package in its
 root was an unknown package

---
 here/here.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/here/here.go b/here/here.go
index 7ae5846..fc9a415 100644
--- a/here/here.go
+++ b/here/here.go
@@ -17,7 +17,7 @@ type Path = here.Path
 
 var Here = here.New()
 var Dir = dir
-var Package = Here.Package
+var Package = pkg
 var Current = current
 
 // current is the Info of the directory of the main module.
@@ -71,10 +71,23 @@ func dir(p string) (Info, error) {
 	return i, nil
 }
 
-// module is the module that a directory lies in.
-func module(dir string) (Module, error) {
+// pkg gathers the Info of a package. The root of a module need not hold one.
+func pkg(p string) (Info, error) {
+	i, err := Here.Package(p)
+	if err == nil {
+		return i, nil
+	}
+	m, merr := module(".", p)
+	if merr != nil || m.Path != p || m.Dir == "" {
+		return i, err
+	}
+	return dir(m.Dir)
+}
+
+// module is the module that a directory lies in, or the one of that path.
+func module(dir string, path ...string) (Module, error) {
 	var m Module
-	b, err := list(dir, "-m")
+	b, err := list(dir, "-m", path...)
 	if err != nil {
 		return m, err
 	}
@@ -82,8 +95,8 @@ func module(dir string) (Module, error) {
 }
 
 // list is what the go command says in a directory.
-func list(dir string, flag string) ([]byte, error) {
-	c := exec.Command("go", "list", "-json", flag)
+func list(dir string, flag string, args ...string) ([]byte, error) {
+	c := exec.Command("go", append([]string{"list", "-json", flag}, args...)...)
 	c.Dir = dir
 	return c.Output()
 }
-- 
2.43.0


From 5437322629dbfd449909faa0e87841dc69c24302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:16 +0000
Subject: [PATCH 47/50] fix: looking up a directory moves the whole program
 there meanwhile, and leaves it there if another one is looked up

---
 here/here.go | 62 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/here/here.go b/here/here.go
index fc9a415..a22a446 100644
--- a/here/here.go
+++ b/here/here.go
@@ -2,9 +2,12 @@ package here
 
 import (
 	"encoding/json"
+	"fmt"
+	"os"
 	"os/exec"
 	"path"
 	"path/filepath"
+	"regexp"
 	"strings"
 	"sync"
 
@@ -22,13 +25,9 @@ var Current = current
 
 // current is the Info of the directory of the main module.
 func current() (Info, error) {
-	i, err := Here.Current()
-	if err == nil {
-		return i, nil
-	}
-	b, merr := exec.Command("go", "env", "GOMOD").Output()
-	if merr != nil || !filepath.IsAbs(string(b)) {
-		return i, err
+	b, err := output(".", "env", "GOMOD")
+	if err != nil {
+		return Info{}, err
 	}
 	return dir(filepath.Dir(string(b)))
 }
@@ -38,16 +37,34 @@ var dirs sync.Map
 // dir gathers the Info of a directory, and caches it.
 //
 // Here.Dir caches it by import path, too, and that is empty for every
-// directory without Go files, whatever module it is in.
-func dir(p string) (Info, error) {
-	if i, ok := dirs.Load(p); ok {
+// directory without Go files, whatever module it is in. And it moves the
+// whole program to that directory while the go command runs.
+func dir(name string) (Info, error) {
+	if i, ok := dirs.Load(name); ok {
 		return i.(Info), nil
 	}
-	h := here.New()
-	i, err := h.Dir(p)
+	p := name
+	fi, err := os.Stat(p)
+	if err != nil {
+		return Info{}, err
+	}
+	if !fi.IsDir() {
+		p = filepath.Dir(p)
+	}
+
+	i := Info{}
+	b, err := output(p, "list", "-json")
+	if err == nil {
+		err = json.Unmarshal(b, &i)
+	} else if nonGoDir.MatchString(err.Error()) {
+		i.Dir, i.Name = p, filepath.Base(p)
+		if i.Module, err = module(p); err != nil && nonGoDir.MatchString(err.Error()) {
+			err = nil
+		}
+	}
 	if err != nil {
 		// maybe no package can be made of its Go files, but it still lies in a module
-		b, lerr := list(p, "-e")
+		b, lerr := output(p, "list", "-json", "-e")
 		if lerr != nil {
 			return i, err
 		}
@@ -67,10 +84,13 @@ func dir(p string) (Info, error) {
 	}
 	// whether the build cache holds the package says nothing about the directory
 	i.Stale, i.StaleReason = false, ""
-	dirs.Store(p, i)
+	dirs.Store(name, i)
 	return i, nil
 }
 
+// nonGoDir is what the go command says in a directory without Go files.
+var nonGoDir = regexp.MustCompile(`cannot find main|go help modules|go: |build .:|no Go files|can't load package|not using modules`)
+
 // pkg gathers the Info of a package. The root of a module need not hold one.
 func pkg(p string) (Info, error) {
 	i, err := Here.Package(p)
@@ -87,18 +107,22 @@ func pkg(p string) (Info, error) {
 // module is the module that a directory lies in, or the one of that path.
 func module(dir string, path ...string) (Module, error) {
 	var m Module
-	b, err := list(dir, "-m", path...)
+	b, err := output(dir, append([]string{"list", "-json", "-m"}, path...)...)
 	if err != nil {
 		return m, err
 	}
 	return m, json.Unmarshal(b, &m)
 }
 
-// list is what the go command says in a directory.
-func list(dir string, flag string, args ...string) ([]byte, error) {
-	c := exec.Command("go", append([]string{"list", "-json", flag}, args...)...)
+// output is what the go command says in a directory.
+func output(dir string, args ...string) ([]byte, error) {
+	c := exec.Command("go", args...)
 	c.Dir = dir
-	return c.Output()
+	b, err := c.Output()
+	if e, ok := err.(*exec.ExitError); ok {
+		err = fmt.Errorf("%s: %s", err, e.Stderr)
+	}
+	return b, err
 }
 
 // Parse the string in Path format, relative to info.
-- 
2.43.0


From a993bdf3e14afbad37521d653c58f104858338a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:16 +0000
Subject: [PATCH 48/50] fix: a relative directory is remembered after the
 working directory changed

---
 here/here.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/here/here.go b/here/here.go
index a22a446..2309456 100644
--- a/here/here.go
+++ b/here/here.go
@@ -39,11 +39,15 @@ var dirs sync.Map
 // Here.Dir caches it by import path, too, and that is empty for every
 // directory without Go files, whatever module it is in. And it moves the
 // whole program to that directory while the go command runs.
-func dir(name string) (Info, error) {
+func dir(p string) (Info, error) {
+	name, err := filepath.Abs(p)
+	if err != nil {
+		return Info{}, err
+	}
 	if i, ok := dirs.Load(name); ok {
 		return i.(Info), nil
 	}
-	p := name
+	p = name
 	fi, err := os.Stat(p)
 	if err != nil {
 		return Info{}, err
-- 
2.43.0


From 0ab41858c5aa4e5bda0e93ddc5e813bf85046ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:50 +0000
Subject: [PATCH 49/50] fix: pkger info without arguments always fails

---
 cmd/pkger/cmds/info.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/pkger/cmds/info.go b/cmd/pkger/cmds/info.go
index e7e0f09..fae7f2c 100644
--- a/cmd/pkger/cmds/info.go
+++ b/cmd/pkger/cmds/info.go
@@ -6,6 +6,7 @@ import (
 	"os"
 
 	"github.com/markbates/pkger"
+	"github.com/markbates/pkger/here"
 )
 
 type infoCmd struct {
@@ -29,7 +30,11 @@ func (r *infoCmd) Exec(args []string) error {
 	}
 	for _, a := range args {
 
-		fi, err := pkger.Info(a)
+		info := pkger.Info
+		if a == "." {
+			info = func(string) (here.Info, error) { return pkger.Current() }
+		}
+		fi, err := info(a)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 2a190ecfbb2588c92e3a33447ca78675a0d49dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:21 +0000
Subject: [PATCH 50/50] fix: packing again asks for the module anew once the
 old output is removed

---
 here/here.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/here/here.go b/here/here.go
index 2309456..06d45dc 100644
--- a/here/here.go
+++ b/here/here.go
@@ -29,7 +29,7 @@ func current() (Info, error) {
 	if err != nil {
 		return Info{}, err
 	}
-	return dir(filepath.Dir(string(b)))
+	return gather(filepath.Dir(string(b)))
 }
 
 var dirs sync.Map
@@ -47,7 +47,15 @@ func dir(p string) (Info, error) {
 	if i, ok := dirs.Load(name); ok {
 		return i.(Info), nil
 	}
-	p = name
+	i, err := gather(name)
+	if err == nil {
+		dirs.Store(name, i)
+	}
+	return i, err
+}
+
+// gather asks the go command for the Info of a directory.
+func gather(p string) (Info, error) {
 	fi, err := os.Stat(p)
 	if err != nil {
 		return Info{}, err
@@ -88,7 +96,6 @@ func dir(p string) (Info, error) {
 	}
 	// whether the build cache holds the package says nothing about the directory
 	i.Stale, i.StaleReason = false, ""
-	dirs.Store(name, i)
 	return i, nil
 }
 
-- 
2.43.0

