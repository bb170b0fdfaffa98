// mkov writes the build overlay of the simulator: the seams in the Go standard
// library (map order, clock, entropy, file system calls, locks) and a yield
// point before every statement of the code under test.  Nothing of it is
// written into /repo; the overlay exists only for the simulator's build.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var replace = map[string]string{}
var outDir, repo, goroot string
var nfile int

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mkov: "+f+"\n", a...)
	os.Exit(3)
}

func emit(target string, data string) {
	nfile++
	p := filepath.Join(outDir, fmt.Sprintf("f%03d_%s", nfile, filepath.Base(target)))
	if err := os.WriteFile(p, []byte(data), 0644); err != nil {
		die("%v", err)
	}
	replace[target] = p
}

func patchStd(rel string, pairs ...string) {
	p := filepath.Join(goroot, "src", rel)
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for i := 0; i < len(pairs); i += 2 {
		if strings.Count(s, pairs[i]) != 1 {
			die("pattern %q occurs %d times in %s", pairs[i], strings.Count(s, pairs[i]), rel)
		}
		s = strings.Replace(s, pairs[i], pairs[i+1], 1)
	}
	emit(p, s)
}

func std() {
	patchStd("runtime/rand.go",
		"func rand() uint64 {\n", `func rand() uint64 {
	if simOn {
		if simGranted != nil {
			// the stream starts anew at every statement of the code under
			// test, so that a draw for something else does not shift it
			if t := uint64(*simGranted - *simCount); t != simLast {
				simLast = t
				simState = simSeed ^ t*0xd6e8feb86659fd93
			}
		}
		simState += 0x9e3779b97f4a7c15
		z := simState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	return rand0()
}

//go:nosplit
func rand0() uint64 {
`,
		"	mp.cheaprand = uint32(rand())\n	mp.cheaprand64 = rand()\n",
		"	mp.cheaprand = uint32(rand0())\n	mp.cheaprand64 = rand0()\n",
		"func mrandinit(", `var simOn bool
var simState uint64

// SimSet seeds everything the runtime draws random numbers for (map order).
func SimSet(on bool, s uint64, granted, count *int64) {
	simOn, simSeed, simState, simLast, simGranted, simCount = on, s, s, 0, granted, count
}

var simSeed, simLast uint64
var simGranted, simCount *int64

// SimGoid is the id of the running goroutine.
func SimGoid() uint64 { return getg().goid }

func mrandinit(`)
	// hash keys of the runtime: constant
	{
		p := filepath.Join(goroot, "src", "runtime/rand.go")
		b, _ := os.ReadFile(replace[p])
		s := string(b)
		i := strings.Index(s, "func randinit() {")
		j := strings.Index(s[i:], "globalRand.state.Init(*seed)")
		if i < 0 || j < 0 {
			die("randinit not recognised")
		}
		s = s[:i+j] + "for i := range seed { seed[i] = byte(i + 1) }\n\t" + s[i+j:]
		os.WriteFile(replace[p], []byte(s), 0644)
	}
	patchStd("time/time.go",
		"func Now() Time {\n", "func Now() Time {\n\tif SimNow != nil {\n\t\treturn SimNow()\n\t}\n",
		"//go:linkname Now\n", "// SimNow and SimEntropy are the simulator's clock and entropy.\nvar SimNow func() Time\nvar SimEntropy func([]byte)\n\n//go:linkname Now\n")
	patchStd("crypto/internal/sysrand/rand.go",
		"func Read(b []byte) {\n", "func Read(b []byte) {\n\tif time.SimEntropy != nil {\n\t\ttime.SimEntropy(b)\n\t\treturn\n\t}\n")
	patchStd("syscall/zsyscall_linux_amd64.go",
		"func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n",
		`// SimFS sees every file system call before it is made: it may refuse it
// (err), or limit how many bytes it moves (limit >= 0).
var SimFS func(op string, fd int, path string, path2 string, flags int, n int) (limit int, err error)

// SimFSOpened learns the descriptor of a path.
var SimFSOpened func(fd int, path string, flags int)

func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if SimFS != nil {
		if _, e := SimFS("open", -1, path, "", flags, 0); e != nil {
			return -1, e
		}
		fd, err = openat0(dirfd, path, flags, mode)
		if err == nil && SimFSOpened != nil {
			SimFSOpened(fd, path, flags)
		}
		return
	}
	return openat0(dirfd, path, flags, mode)
}

func openat0(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
`,
		"func Close(fd int) (err error) {\n", `func Close(fd int) (err error) {
	if SimFS != nil {
		if _, e := SimFS("close", fd, "", "", 0, 0); e != nil {
			RawSyscall(SYS_CLOSE, uintptr(fd), 0, 0)
			return e
		}
	}
`,
		"func Fsync(fd int) (err error) {\n", simCheck("fsync", "fd", `""`, "0"),
		"func Fdatasync(fd int) (err error) {\n", strings.Replace(simCheck("fsync", "fd", `""`, "0"), "func Fsync", "func Fdatasync", 1),
		"func Ftruncate(fd int, length int64) (err error) {\n", `func Ftruncate(fd int, length int64) (err error) {
	if SimFS != nil {
		if _, e := SimFS("truncate", fd, "", "", 0, int(length)); e != nil {
			return e
		}
	}
`,
		"func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n",
		`func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {
	if SimFS != nil {
		if _, e := SimFS("rename", -1, oldpath, newpath, 0, 0); e != nil {
			return e
		}
	}
`,
		"func unlinkat(dirfd int, path string, flags int) (err error) {\n",
		`func unlinkat(dirfd int, path string, flags int) (err error) {
	if SimFS != nil {
		if _, e := SimFS("unlink", -1, path, "", 0, 0); e != nil {
			return e
		}
	}
`,
		"func read(fd int, p []byte) (n int, err error) {\n", simIO("read", "read(fd int, p []byte)"),
		"func write(fd int, p []byte) (n int, err error) {\n", simIO("write", "write(fd int, p []byte)"),
		"func pread(fd int, p []byte, offset int64) (n int, err error) {\n", simIO("read", "pread(fd int, p []byte, offset int64)"),
		"func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n", simIO("write", "pwrite(fd int, p []byte, offset int64)"),
	)
	patchStd("sync/atomic/doc.go",
		"func SwapInt32(", "func SwapInt32(")
	// a lock that is taken lets the simulator run another task
	p := filepath.Join(goroot, "src", "sync/atomic/doc.go")
	b, _ := os.ReadFile(replace[p])
	os.WriteFile(replace[p], append(b, []byte("\n// SimYield lets another simulated task run, false if the caller is not one.\nvar SimYield func() bool\n")...), 0644)
	patchStd("internal/sync/mutex.go",
		"func (m *Mutex) lockSlow() {\n", `func (m *Mutex) lockSlow() {
	if y := atomic.SimYield; y != nil {
		for y() {
			if m.TryLock() {
				return
			}
		}
	}
`)
	patchStd("sync/rwmutex.go",
		"func (rw *RWMutex) RLock() {\n", `func (rw *RWMutex) RLock() {
	if y := atomic.SimYield; y != nil {
		for {
			if rw.TryRLock() {
				return
			}
			if !y() {
				break
			}
		}
	}
`,
		"func (rw *RWMutex) Lock() {\n", `func (rw *RWMutex) Lock() {
	if y := atomic.SimYield; y != nil {
		for {
			if rw.TryLock() {
				return
			}
			if !y() {
				break
			}
		}
	}
`)
}

func simCheck(op, fd, path, n string) string {
	return `func Fsync(fd int) (err error) {
	if SimFS != nil {
		if _, e := SimFS("` + op + `", ` + fd + `, ` + path + `, "", 0, ` + n + `); e != nil {
			return e
		}
	}
`
}

func simIO(op, sig string) string {
	return "func " + sig + ` (n int, err error) {
	if SimFS != nil {
		lim, e := SimFS("` + op + `", fd, "", "", 0, len(p))
		if e != nil {
			return -1, e
		}
		if lim >= 0 && lim < len(p) {
			p = p[:lim]
		}
	}
`
}

// instrument puts a yield point before every statement.
func instrument(path string, base int) (string, int, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return "", 0, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return "", 0, err
	}
	var at []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.SwitchStmt: // the body holds clauses, not statements
			for _, c := range b.Body.List {
				add(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range b.Body.List {
				add(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range b.Body.List {
				add(c.(*ast.CommClause).Body)
			}
		case *ast.ForStmt: // a loop without statements can be endless, too
			if len(b.Body.List) == 0 {
				at = append(at, fset.Position(b.Body.Lbrace).Offset+1)
			}
		case *ast.RangeStmt:
			if len(b.Body.List) == 0 {
				at = append(at, fset.Position(b.Body.Lbrace).Offset+1)
			}
		case *ast.BlockStmt:
			if len(b.List) > 0 {
				switch b.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(b.List)
		}
		return true
	})
	sort.Ints(at)
	pkgEnd := fset.Position(f.Name.End()).Offset
	var out strings.Builder
	out.Write(src[:pkgEnd])
	if len(at) > 0 {
		out.WriteString(`; import simhook "github.com/signintech/pdft/simhook"`)
	}
	last := pkgEnd
	for k, p := range at {
		if k > 0 && at[k-1] == p {
			continue
		}
		out.Write(src[last:p])
		fmt.Fprintf(&out, "simhook.Y(%d);", base+k)
		last = p
	}
	out.Write(src[last:])
	return out.String(), len(at), nil
}

const hook = `// Package simhook is the simulator's yield point.
package simhook

// Count is how many more statements run before Slow is called.
var Count int64 = 1 << 62

// Slow decides what happens next.
var Slow func(site int32)

// Y is called before every statement.
func Y(site int32) {
	Count--
	if Count < 0 {
		Slow(site)
	}
}
`

func main() {
	outDir, repo, goroot = os.Args[1], os.Args[2], os.Args[3]
	instr := os.Args[4] == "1"
	os.RemoveAll(outDir)
	if err := os.MkdirAll(outDir, 0755); err != nil {
		die("%v", err)
	}
	std()
	emit(filepath.Join(repo, "simhook", "simhook.go"), hook)
	sites := 0
	if instr {
		filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if fi.IsDir() {
				b := filepath.Base(p)
				if p != repo && (strings.HasPrefix(b, ".") || b == "test" || b == "testdata" || b == "simhook") {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || fi.Size() > 400000 || filepath.Base(p) == "debug_th.go" {
				return nil
			}
			s, n, err := instrument(p, sites)
			if err != nil {
				return nil // the compiler will say what is wrong
			}
			sites += n
			emit(p, s)
			return nil
		})
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
	os.WriteFile(filepath.Join(outDir, "sites"), []byte(fmt.Sprint(sites)), 0644)
}
