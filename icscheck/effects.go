package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const effectRule = "An inclusion-based points-to analysis over SSA covers all functions reachable from Decode and from Encode (including the parser library, functions called through interfaces and function values and callbacks from the standard library, whose functions are summarised), with an object per allocation, per package variable and per type of memory in the given calendar. No store, append, copy, map update, channel operation or library call may write a package variable, memory reachable from one or the given calendar; no goroutine or timer is started, nothing outside memory is used, and the decoded calendar refers to no shared memory."

// stdSummary is what a function of the standard library does to its arguments.
type stdSummary struct {
	mut     []int // arguments (receiver first) whose memory it writes
	outside bool  // touches something outside memory
	thread  bool  // starts or delays something that outlives the call
	global  bool  // its result is shared
	unknown bool
}

// outsidePkg tells whether a package reaches outside memory or keeps state that
// is shared by all its users.
func outsidePkg(path string) bool {
	switch path {
	case "os", "net", "log", "syscall", "plugin", "testing", "unsafe", "embed", "expvar", "flag", "runtime", "runtime/debug", "math/rand", "math/rand/v2":
		return true
	}
	for _, p := range []string{"os/", "net/http", "net/rpc", "net/smtp", "log/", "internal/", "io/ioutil", "database/", "debug/", "runtime/", "testing/", "crypto/"} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

func knownPkg(path string) bool {
	switch path {
	case "strings", "strconv", "unicode", "unicode/utf8", "unicode/utf16", "math", "math/bits", "math/big", "math/cmplx", "errors", "cmp", "regexp", "regexp/syntax",
		"net/url", "net/mail", "net/netip", "net/textproto", "mime", "encoding/base64", "encoding/base32", "encoding/hex", "encoding/binary", "encoding", "time", "fmt", "bytes", "bufio", "io",
		"sort", "slices", "maps", "iter", "sync", "sync/atomic", "html", "path", "context", "hash", "hash/crc32", "hash/fnv", "hash/maphash", "unique", "text/tabwriter", "reflect":
		return true
	}
	return strings.HasPrefix(path, "container/") || strings.HasPrefix(path, "text/") || strings.HasPrefix(path, "encoding/")
}

// recvName is the name of the receiver's type, "" for functions.
func recvName(sig *types.Signature) (string, bool) {
	if sig.Recv() == nil {
		return "", false
	}
	T := sig.Recv().Type()
	p := false
	if q, ok := T.(*types.Pointer); ok {
		T, p = q.Elem(), true
	}
	if n, ok := T.(*types.Named); ok {
		return n.Obj().Name(), p
	}
	return "?", p
}

func hasPrefix(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// libSummary summarises a function of the standard library.
func libSummary(fn *ssa.Function) stdSummary {
	pkg, name := pkgOf(fn), fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	if outsidePkg(pkg) {
		return stdSummary{outside: true}
	}
	if !knownPkg(pkg) {
		return stdSummary{unknown: true}
	}
	recv, ptr := recvName(fn.Signature)
	var mut []int
	// reading and appending functions write the slices they are given
	slice := func() {
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Slice); ok {
				if recv != "" {
					i++
				}
				mut = append(mut, i)
				return
			}
		}
	}
	if hasPrefix(name, "Append") || hasPrefix(name, "Read") || hasPrefix(name, "Peek") && false {
		slice()
	}
	if hasPrefix(name, "Unmarshal", "GobDecode", "Scan") && ptr {
		mut = append(mut, 0)
	}
	switch pkg {
	case "bufio", "bytes", "sync", "container/list", "container/ring", "text/tabwriter", "math/big", "hash/maphash":
		if ptr {
			mut = append(mut, 0)
		}
	case "strings":
		if ptr && recv != "Replacer" {
			mut = append(mut, 0)
		}
	case "sync/atomic":
		if !hasPrefix(name, "Load") {
			mut = append(mut, 0)
		}
	case "io":
		switch {
		case hasPrefix(name, "Copy", "WriteString"):
			mut = append(mut, 0)
		case recv != "":
			mut = append(mut, 0)
		}
	case "sort":
		if recv == "" && (name == "Ints" || name == "Strings" || name == "Float64s" || name == "Slice" || name == "SliceStable" || name == "Sort" || name == "Stable") {
			mut = append(mut, 0)
		}
		if recv != "" && (name == "Swap" || name == "Sort") {
			mut = append(mut, 0)
		}
	case "slices":
		if hasPrefix(name, "Sort", "Reverse", "Insert", "Delete", "Replace", "Compact", "Append") && !hasPrefix(name, "Sorted") {
			mut = append(mut, 0)
		}
	case "maps":
		if hasPrefix(name, "Copy", "Delete", "Insert") {
			mut = append(mut, 0)
		}
	case "container/heap":
		mut = append(mut, 0)
	case "unicode/utf8", "encoding/hex", "encoding/binary":
		if hasPrefix(name, "Encode", "Decode", "Put") && recv == "" && !hasPrefix(name, "DecodeRune", "DecodeLastRune", "EncodeToString", "DecodeString") {
			mut = append(mut, 0)
		}
		if recv != "" && hasPrefix(name, "Put") {
			mut = append(mut, 1)
		}
	case "encoding/base64", "encoding/base32":
		if recv != "" && (name == "Encode" || name == "Decode") {
			mut = append(mut, 1)
		}
	case "errors":
		if name == "As" {
			mut = append(mut, 1)
		}
	case "fmt":
		switch {
		case hasPrefix(name, "Print", "Scan"):
			return stdSummary{outside: true}
		case hasPrefix(name, "Fprint"):
			mut = append(mut, 0)
		case hasPrefix(name, "Sscan"):
			mut = append(mut, fn.Signature.Params().Len()-1)
		case hasPrefix(name, "Fscan"):
			mut = append(mut, 0, fn.Signature.Params().Len()-1)
		}
	case "regexp":
		if name == "Longest" {
			mut = append(mut, 0)
		}
	case "time":
		switch name {
		case "AfterFunc", "NewTimer", "NewTicker", "Tick", "After":
			if recv != "" {
				break
			}
			return stdSummary{thread: true}
		}
		if name == "LoadLocation" || name == "Location" {
			return stdSummary{global: true}
		}
	case "context":
		if hasPrefix(name, "With") {
			return stdSummary{thread: true}
		}
	case "iter":
		return stdSummary{thread: true}
	case "reflect":
		return stdSummary{unknown: true}
	}
	return stdSummary{mut: mut}
}

// ifaceSummary summarises a method of a value about which only the interface is
// known: the given reader or writer, or a value of the standard library.
func ifaceSummary(m *types.Func) stdSummary {
	sig := m.Signature()
	var mut []int
	mut = append(mut, 0)
	if hasPrefix(m.Name(), "Read", "Swap", "Append") {
		for i := 0; i < sig.Params().Len(); i++ {
			if _, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); ok {
				mut = append(mut, i+1)
			}
		}
	}
	switch m.Name() {
	case "Error", "String", "Len", "Less", "Unwrap", "Is", "GoString":
		mut = nil
	}
	return stdSummary{mut: mut}
}

// solved is what may point where in the program called through the given
// functions.
func (r *Report) solved(cal types.Type, refused map[[2]string]bool, fns ...*ssa.Function) *solver {
	s := newSolver(r.p)
	s.refused = refused
	for _, fn := range fns {
		for _, q := range fn.Params {
			kind, what := oExt, "the given "+q.Name()
			if isPointer(q.Type()) && types.Identical(elemType(q.Type()), cal) {
				kind, what = oGiven, "the given calendar"
			}
			for _, lf := range s.leaves(q.Type()) {
				s.point(node{q, lf.path}, lf.t, kind, what)
			}
		}
	}
	s.visit(r.p.Pkg.Func("init"))
	for _, fn := range fns {
		s.visit(fn)
	}
	s.solve()
	return s
}

// sharing checks what decoding or encoding writes.
func (r *Report) sharing(entry string, report reporter) {
	fn := r.p.Pkg.Func(entry)
	cal := r.p.namedType("Calendar")
	if !r.anchor(fn != nil, "function "+entry) || !r.anchor(cal != nil, "type Calendar") {
		return
	}
	s := r.solved(cal, nil, fn)
	reach := s.reach(fn)
	r.count("functions reachable from "+entry, len(reach))
	n := 0
	for f := range reach {
		if s.p.inPkg(f) {
			n++
			r.seen("functions analysed", f.RelString(r.p.Types))
		}
	}
	r.anchor(n > 10, "functions called by "+entry)
	where := func(e effect) string { return e.fn.RelString(r.p.Types) }
	report1 := func(kind string, e effect, msg string) {
		report(kind, where(e)+": "+msg, r.p.pos(e.in.Pos()), "called from "+entry+", "+where(e)+" "+msg)
	}
	for _, e := range s.effects {
		if !reach[e.fn] {
			continue
		}
		r.count("writes examined", 1)
		names := map[string]objKind{}
		for _, a := range e.addr {
			for l := range s.pts[a] {
				r.count("written objects examined", 1)
				if l.o.kind == oGlobal || l.o.kind == oGiven {
					names[l.o.name] = l.o.kind
				}
			}
		}
		for _, n := range sortedKeys(names) {
			if names[n] == oGlobal {
				report1("shared", e, e.what+" "+n+", which all calls share")
			} else {
				report1("given", e, e.what+" "+n)
			}
		}
	}
	for _, e := range s.threads {
		if reach[e.fn] {
			report1("thread", e, e.what)
		}
	}
	for _, e := range s.outside {
		if reach[e.fn] {
			report1("outside", e, "uses "+e.what+", which touches more than memory")
		}
	}
	var us []string
	for u := range s.unknown {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		report("undecided", u, r.p.pos(s.unknown[u]), "cannot decide the effects of "+u)
	}
	// what is returned must not share memory with the package
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		T := fn.Signature.Results().At(i).Type()
		if types.IsInterface(T) {
			continue
		}
		objs := s.contents(s.pts[node{retKey{fn}, "#" + string(rune('0'+i))}])
		r.count("objects reachable from the result of "+entry, len(objs))
		r.anchor(len(objs) > 10, "memory of the result of "+entry)
		for o := range objs {
			switch {
			case o.kind == oExt:
				report("kept", entry+": "+o.name, r.p.pos(fn.Pos()), "the result of "+entry+" refers to "+o.name)
			case o.kind == oGlobal && !sharedType(o.typ):
				report("shared", entry+": "+o.name, r.p.pos(o.pos), "the result of "+entry+" refers to "+o.name+", which all calls share")
			}
		}
	}
}

// sharedType tells whether values of a type are immutable and may be shared.
func sharedType(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Location" || ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "regexp"
}
