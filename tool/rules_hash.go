package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	rules["C18"] = &rule{run: ruleHash, post: hashPost, both: true, min: 150, rule: "Every Merkle tree, length mix-in and nested root of every HashTreeRoot and SigningRoot is built with the caller's hash function (rules of C07); HashFn.Combi hashes the concatenation of its arguments, HashFn.MixIn the root and the little-endian length padded to 64 bytes; entry j+1 of the zero-hash table is the configured function of entry j twice; and no function that encodes, measures or hashes uses a fixed hash function, goroutines, map order, or a package-level variable that anything but package initialisation (and InitZeroHashes) assigns, nor calls packages that read the clock, randomness or the environment."}
}

func ruleHash(c *Ctx) {
	pre := c.pre
	c.pre += "C07/"
	ruleRoots(c)
	c.pre = pre
	c.globalEach(c.adapterObs)
	c.global(func() {
		if c.w.base == nil {
			return
		}
		c.zeroObs("C18")
		c.ambient()
	})
}

// hashPost keeps the obligations about where hash values come from.
func hashPost(c *Ctx, obs []*Ob) (out []*Ob) {
	for _, o := range obs {
		k := strings.TrimPrefix(o.key, "C07/")
		if k != o.key {
			if !o.ok && !strings.HasPrefix(k, "analysed:") && !strings.Contains(o.msg, "the caller's hasher") {
				continue
			}
		}
		out = append(out, o)
	}
	return
}

// adapterObs: the methods that turn a plain hash function into a MerkleFn.
func (c *Ctx) adapterObs() {
	e := c.w.e
	if c.w.base == nil {
		c.ob("init", false, token.NoPos, "%s", c.w.err)
		return
	}
	var pkg *ssa.Package
	for p, sp := range e.pkgs {
		if strings.HasSuffix(p, "/htr") {
			pkg = sp
		}
	}
	if pkg == nil || pkg.Type("HashFn") == nil || pkg.Type("MerkleFn") == nil {
		c.ob("adapter", false, token.NoPos, "HashFn or MerkleFn not found")
		return
	}
	t := pkg.Type("HashFn").Type()
	mk := func(k string) Bytes { return blob(&HTerm{op: "arg", key: k}) }
	call := func(m string, args []Value, want []Seg, what string) {
		fn := e.prog.LookupMethod(t, pkg.Pkg, m)
		if fn == nil {
			c.ob("adapter:"+m, false, token.NoPos, "HashFn has no method %s", m)
			return
		}
		st := c.w.base.Clone()
		st.events = nil
		var outs []*Outcome
		if msg := safeCall(func() { outs = e.Call(st, fn, append([]Value{Opaque{kind: "fn", key: "hashfn"}}, args...), nil) }); msg != "" {
			c.ob("adapter:"+m, false, fn.Pos(), "HashFn.%s: %s", m, msg)
			return
		}
		c.funcs[fn.String()] = true
		c.nOutc += len(outs)
		c.ob("adapter:"+m, len(outs) > 0, fn.Pos(), "HashFn.%s never returns", m)
		for _, o := range outs {
			if o.kind != "return" {
				c.ob("adapter:"+m, false, o.pos, "HashFn.%s: %s %s", m, o.kind, o.reason)
				continue
			}
			b, ok := o.res[0].(Bytes)
			got := ""
			if ok {
				got = segsKey(b.segs)
			}
			c.ob("adapter:"+m, got == segsKey(blob(hashOf("hfn", want)).segs), o.pos, "HashFn.%s does not return the hash of %s", m, what)
		}
	}
	a, b := mk("a"), mk("b")
	n := mkAtom("mixed", bigZero, maxU64)
	call("Combi", []Value{a, b}, mergeSegs(append(append([]Seg{}, a.segs...), b.segs...)), "the first node followed by the second")
	call("MixIn", []Value{a, n}, mergeSegs(append(append([]Seg{}, a.segs...), Seg{constP(8), CInt{v: n, n: 8, order: 'L'}}, Seg{constP(24), CZero{}})), "the root followed by the little-endian length and zeros")
}

// foreign packages whose functions give a result that depends on more than their arguments
var ambientPkgs = []string{"time", "math/rand", "math/rand/v2", "crypto/rand", "os", "os/exec", "runtime", "runtime/debug", "syscall", "net", "hash/maphash", "plugin", "expvar", "log"}

// pkgState: the package-level variables of zssz and who may change them after initialisation.
type pkgState struct {
	mine    map[*ssa.Package]bool
	fns     []*ssa.Function
	setup   map[*ssa.Function]bool
	writers map[*ssa.Global]*ssa.Function
	writes  map[*ssa.Function]map[*ssa.Global]ssa.Instruction
}

func (c *Ctx) pkgState() *pkgState {
	e := c.w.e
	mine := map[*ssa.Package]bool{}
	for _, p := range e.pkgs {
		mine[p] = true
	}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(e.prog) {
		if fn.Pkg != nil && mine[fn.Pkg] && fn.Blocks != nil {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	// functions that only run during package initialisation
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range fns {
		each(fn, func(ins ssa.Instruction) {
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					if callers[g] == nil {
						callers[g] = map[*ssa.Function]bool{}
					}
					callers[g][fn] = true
				}
			}
		})
	}
	var initOnly func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	initOnly = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			return fn.Signature.Recv() == nil && fn.Parent() == nil
		}
		if fn.Parent() != nil {
			return initOnly(fn.Parent(), seen)
		}
		if seen[fn] {
			return true
		}
		seen[fn] = true
		if token.IsExported(fn.Name()) || fn.Signature.Recv() != nil || len(callers[fn]) == 0 {
			return false
		}
		for g := range callers[fn] {
			if !initOnly(g, seen) {
				return false
			}
		}
		return true
	}
	setup := map[*ssa.Function]bool{}
	for _, fn := range fns {
		setup[fn] = initOnly(fn, map[*ssa.Function]bool{})
	}
	// who assigns package-level variables
	writers := map[*ssa.Global]*ssa.Function{}
	writes := map[*ssa.Function]map[*ssa.Global]ssa.Instruction{}
	for _, fn := range fns {
		if setup[fn] || fn.Name() == "InitZeroHashes" && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/htr") {
			continue
		}
		each(fn, func(ins ssa.Instruction) {
			for _, op := range ins.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok || !mine[g.Pkg] || readOnlyUse(ins, g) {
					continue
				}
				writers[g] = fn
				if writes[fn] == nil {
					writes[fn] = map[*ssa.Global]ssa.Instruction{}
				}
				writes[fn][g] = ins
			}
		})
	}
	return &pkgState{mine, fns, setup, writers, writes}
}

// reach: the functions of zssz that the named ones call, also through interfaces (except methods in skip).
func (ps *pkgState) reach(want, skip map[string]bool) map[*ssa.Function]bool {
	reach := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn != nil && !reach[fn] && fn.Pkg != nil && ps.mine[fn.Pkg] && fn.Blocks != nil {
			reach[fn] = true
			work = append(work, fn)
		}
	}
	byName := map[string][]*ssa.Function{}
	for _, fn := range ps.fns {
		if fn.Signature.Recv() != nil {
			byName[fn.Name()] = append(byName[fn.Name()], fn)
		}
		if fn.Parent() == nil && want[fn.Name()] {
			add(fn)
		}
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		each(fn, func(ins ssa.Instruction) {
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					add(g)
				}
			}
			if call, ok := ins.(ssa.CallInstruction); ok && call.Common().IsInvoke() && !skip[call.Common().Method.Name()] {
				for _, g := range byName[call.Common().Method.Name()] {
					add(g)
				}
			}
		})
	}
	return reach
}

// sharedObs: no operation changes a package-level variable.
func (c *Ctx) sharedObs() {
	ps := c.pkgState()
	reach := ps.reach(map[string]bool{"Encode": true, "SizeOf": true, "HashTreeRoot": true, "SigningRoot": true, "Decode": true, "DryCheck": true, "DecodeFuzzBytes": true, "Pretty": true, "Combi": true, "MixIn": true, "Merkleize": true, "ConstructProof": true,
		"FixedLen": true, "MinLen": true, "MaxLen": true, "FuzzMinLen": true, "FuzzMaxLen": true, "IsFixed": true}, nil)
	n := 0
	for _, fn := range ps.fns {
		if !reach[fn] || ps.setup[fn] {
			continue
		}
		n++
		c.funcs[fn.String()] = true
		key := "global:" + fn.String()
		c.ob(key, true, fn.Pos(), "")
		for g, ins := range ps.writes[fn] {
			c.ob(key, false, instrPos(ins), "%s may change the package-level variable %s", fn, g.Name())
		}
	}
	c.ob("global", n >= 100, token.NoPos, "only %d functions of operations were found", n)
}

func (c *Ctx) ambient() {
	ps := c.pkgState()
	mine, fns, setup, writers := ps.mine, ps.fns, ps.setup, ps.writers
	// the functions that encode, measure, hash or build descriptors
	reach := ps.reach(map[string]bool{"Encode": true, "SizeOf": true, "HashTreeRoot": true, "SigningRoot": true, "FixedLen": true, "MinLen": true, "MaxLen": true, "IsFixed": true, "Combi": true, "MixIn": true, "SSZFactory": true, "Merkleize": true},
		map[string]bool{"Decode": true, "DryCheck": true, "Pretty": true})
	n := 0
	for _, fn := range fns {
		if !reach[fn] || setup[fn] {
			continue
		}
		n++
		c.funcs[fn.String()] = true
		key := "ambient:" + fn.String()
		c.ob(key, true, fn.Pos(), "")
		each(fn, func(ins ssa.Instruction) {
			pos := instrPos(ins)
			bad := func(format string, a ...interface{}) {
				c.ob(key, false, pos, "%s %s", fn, fmt.Sprintf(format, a...))
			}
			switch x := ins.(type) {
			case *ssa.Go:
				bad("starts a goroutine")
			case *ssa.Select, *ssa.Send:
				bad("communicates with other goroutines")
			case *ssa.Range:
				if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
					bad("depends on the order of a map")
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					bad("communicates with other goroutines")
				}
			}
			for _, op := range ins.Operands(nil) {
				switch g := (*op).(type) {
				case *ssa.Function:
					p := ""
					if g.Pkg != nil {
						p = g.Pkg.Pkg.Path()
					} else if g.Object() != nil && g.Object().Pkg() != nil {
						p = g.Object().Pkg().Path()
					}
					for _, q := range ambientPkgs {
						if p == q && g.Name() != "KeepAlive" {
							bad("uses %s", g)
						}
					}
					if !mineFn(mine, g) && (strings.HasPrefix(p, "crypto/") || strings.HasPrefix(p, "hash/")) {
						bad("uses the fixed hash function %s", g)
					}
				case *ssa.Global:
					if w := writers[g]; w != nil {
						bad("uses the package-level variable %s, which %s may change", g.Name(), w)
					} else if g.Pkg != nil && !mine[g.Pkg] {
						for _, q := range ambientPkgs {
							if g.Pkg.Pkg.Path() == q {
								bad("uses %s", g)
							}
						}
					}
				}
			}
		})
	}
	c.ob("ambient", n >= 80, token.NoPos, "only %d functions that encode, measure or hash were found", n)
}

func mineFn(mine map[*ssa.Package]bool, fn *ssa.Function) bool { return fn.Pkg != nil && mine[fn.Pkg] }

func each(fn *ssa.Function, f func(ins ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			f(ins)
		}
	}
}

// readOnlyUse: the instruction only reads the variable v points to (or a part of it).
func readOnlyUse(ins ssa.Instruction, v ssa.Value) bool {
	switch x := ins.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && !mutated(x, map[ssa.Value]bool{})
	case *ssa.DebugRef:
		return true
	case *ssa.FieldAddr:
		return readOnlyRefs(x)
	case *ssa.IndexAddr:
		return x.X == v && readOnlyRefs(x)
	}
	return false
}

func readOnlyRefs(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if !readOnlyUse(r, v) {
			return false
		}
	}
	return true
}

// mutated: what the slice, map or pointer v refers to may be written through it.
func mutated(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	switch v.Type().Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				return true
			}
		case *ssa.IndexAddr:
			if x.X == v && mutated(x, seen) {
				return true
			}
		case *ssa.FieldAddr:
			if mutated(x, seen) {
				return true
			}
		case *ssa.Slice:
			if mutated(x, seen) {
				return true
			}
		case *ssa.Phi:
			if mutated(x, seen) {
				return true
			}
		case *ssa.ChangeType:
			if mutated(x, seen) {
				return true
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "copy", "append", "delete", "clear":
					if len(cc.Args) > 0 && cc.Args[0] == v {
						return true
					}
				}
				continue
			}
			callee := cc.StaticCallee()
			if callee == nil {
				continue
			}
			if callee.Blocks != nil && len(callee.Params) == len(cc.Args) {
				for i, a := range cc.Args {
					if a == v && mutated(callee.Params[i], seen) {
						return true
					}
				}
			}
		}
	}
	return false
}
