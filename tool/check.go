package main

// Obligations, reports and evidence: `zv check <property> <tier>`.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ob is one proof obligation: a rule applied to one construct.
type Ob struct {
	key  string
	ok   bool
	pos  string
	msg  string
	more string
}

// World is the program analysed for hosts of one byte order.
type World struct {
	e      *Engine
	base   *State
	little bool
	subs   []*Subject
	cache  map[string][]*Outcome
	err    string
}

type Ctx struct {
	dir        string
	prop       string
	tier       string
	worlds     []*World
	decodeOnly bool // DryCheck and fuzz mode are not judged
	byOrder    bool // keep the obligations of the byte orders apart
	w          *World
	obs        []*Ob
	seen       map[string]*Ob
	counts     map[string]int
	notes      []string
	verif      string
	min        map[string]int
	funcs      map[string]bool
	proved     map[string]bool
	nOutc      int
	nRun       int
	task       *task

	pre    string                // prefix of obligation keys, for rules used by another property
	filter func(s *Subject) bool // codecs a borrowed rule applies to

	entrySt *State // memory at entry of the methods of the current subject
}

// task is the part of a check done by one worker process.
type task struct{ world, subj int }

// global runs f once per check.
func (c *Ctx) global(f func()) {
	if c.task == nil || c.task.subj == -1 && c.task.world == 0 {
		c.w = c.worlds[0]
		f()
	}
}

// shard runs f as an independent part of the package-level work.
func (c *Ctx) shard(k int, f func()) {
	if c.task == nil || c.task.subj == -1-k && c.task.world == 0 {
		c.w = c.worlds[0]
		f()
	}
}

// globalEach runs f once per byte order.
func (c *Ctx) globalEach(f func()) {
	for wi, w := range c.worlds {
		if c.task == nil || c.task.subj == -1 && c.task.world == wi {
			c.w = w
			f()
		}
	}
}

func loadWorld(dir string, little bool) *World {
	w := &World{little: little, cache: map[string][]*Outcome{}}
	e, err := load(dir)
	if err != nil {
		w.err = "load: " + err.Error()
		return w
	}
	w.e = e
	func() {
		defer func() {
			if x := recover(); x != nil {
				w.err = "initialisation: " + haltStr(x)
			}
		}()
		st, err := e.base(little)
		if err != nil {
			w.err = "initialisation: " + err.Error()
			return
		}
		w.base = st
		e.installEarly()
		w.subs = e.subjects(st)
		w.subs = append(w.subs, e.apiSubject(st))
		e.installContracts()
	}()
	return w
}

func haltStr(x interface{}) string {
	switch h := x.(type) {
	case haltReq:
		return h.kind + ": " + h.reason
	case splitReq:
		return "undecided condition " + h.c.String()
	}
	panic(x)
}

// run analyses a method of a subject (cached).
func (c *Ctx) run(s *Subject, m string) []*Outcome {
	k := s.name + "/" + m
	w := c.w
	if o, ok := w.cache[k]; ok {
		return o
	}
	var outs []*Outcome
	if s.err != "" {
		outs = []*Outcome{{kind: "undecided", reason: "construction of the codec: " + s.err}}
	} else {
		func() {
			defer func() {
				if x := recover(); x != nil {
					outs = []*Outcome{{kind: "undecided", reason: haltStr(x)}}
				}
			}()
			outs = w.e.runMethod(s, m)
		}()
	}
	w.cache[k] = outs
	c.nOutc += len(outs)
	for _, o := range outs {
		if o.st != nil {
			c.noteFuncs(o.st.events)
		}
	}
	return outs
}

func (c *Ctx) noteFuncs(evs []Event) {
	for i := range evs {
		if evs[i].fn != nil {
			c.funcs[evs[i].fn.String()] = true
		}
		if evs[i].loop != nil {
			for _, p := range evs[i].loop.paths {
				c.noteFuncs(p.events)
			}
		}
	}
}

func (c *Ctx) order() string {
	if c.w.little {
		return "little-endian host"
	}
	return "big-endian host"
}

func (c *Ctx) posStr(p token.Pos) string {
	if p == token.NoPos || c.w == nil || c.w.e == nil {
		return ""
	}
	q := c.w.e.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, c.dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ob records an obligation. Obligations with the same key are one; it fails if any instance fails.
func (c *Ctx) ob(key string, ok bool, pos token.Pos, format string, a ...interface{}) bool {
	key = c.pre + key
	if c.byOrder {
		if c.order() == "big-endian host" {
			key += onBE
		} else {
			key += onLE
		}
	}
	if o, dup := c.seen[key]; dup {
		if !ok && o.ok {
			o.ok = false
			o.pos = c.posStr(pos)
			o.msg = fmt.Sprintf(format, a...)
			if c.w != nil && c.w.e != nil {
				o.msg += " [" + c.order() + "]"
			}
		}
		return ok
	}
	o := &Ob{key: key, ok: ok, pos: c.posStr(pos)}
	if !ok {
		o.msg = fmt.Sprintf(format, a...)
		if c.w != nil && c.w.e != nil {
			o.msg += " [" + c.order() + "]"
		}
	}
	c.seen[key] = o
	c.obs = append(c.obs, o)
	return ok
}

func (c *Ctx) okOutcome(o *Outcome) bool {
	return o.kind == "return" && len(o.res) > 0 && isNilVal(o.res[len(o.res)-1])
}

// decided runs a method and records that the analysis reached a verdict on every path; it
// returns the outcomes that return normally or panic.
func (c *Ctx) decided(s *Subject, m string) (ret []*Outcome, all bool) {
	outs := c.run(s, m)
	all = true
	for _, o := range outs {
		switch o.kind {
		case "return", "panic":
			ret = append(ret, o)
		default:
			all = false
			c.ob("analysed:"+s.name+":"+m, false, o.pos, "%s.%s cannot be analysed: %s: %s", s.name, m, o.kind, o.reason)
		}
	}
	if len(outs) == 0 {
		all = false
		c.ob("analysed:"+s.name+":"+m, false, token.NoPos, "%s.%s has no outcome", s.name, m)
	}
	if all {
		c.ob("analysed:"+s.name+":"+m, true, token.NoPos, "")
	}
	return
}

// each calls f for every codec in every world.
func (c *Ctx) each(f func(s *Subject)) {
	c.eachAll(func(s *Subject) {
		if s.kind != "api" {
			f(s)
		}
	})
}

// eachAll includes the package-level entry points.
func (c *Ctx) eachAll(f func(s *Subject)) {
	for wi, w := range c.worlds {
		if c.task != nil && c.task.world != wi {
			continue
		}
		c.w = w
		if w.err != "" {
			c.ob("program", false, token.NoPos, "%s", w.err)
			continue
		}
		for si, s := range w.subs {
			if c.task != nil && c.task.subj != si || c.filter != nil && !c.filter(s) {
				continue
			}
			if s.err != "" && !strings.Contains(s.err, "never succeeds") {
				c.ob("codec:"+s.name, false, token.NoPos, "the codec for %s cannot be analysed: %s", s.name, s.err)
				continue
			}
			if s.err != "" {
				c.ob("codec:"+s.name, false, token.NoPos, "%s: %s", s.name, s.err)
				continue
			}
			f(s)
		}
	}
}

// mpos is the position of a codec's method.
func (c *Ctx) mpos(s *Subject, m string) token.Pos {
	if s.kind == "api" {
		if m == "Fuzz" {
			m = "DecodeFuzzBytes"
		}
		if fn := c.w.e.apiFn(m); fn != nil {
			return fn.Pos()
		}
		return token.NoPos
	}
	if m == "Fuzz" {
		m = "Decode"
	}
	if r, ok := s.recv.(Iface); ok && r.t != nil {
		if fn := c.w.e.prog.LookupMethod(r.t, nil, m); fn != nil {
			return fn.Pos()
		}
	}
	return token.NoPos
}

// also applies the rule of another property as part of this one.
func (c *Ctx) also(prop string, filter func(s *Subject) bool) {
	p, f := c.pre, c.filter
	c.pre, c.filter = p+prop+"/", filter
	defer func() { c.pre, c.filter = p, f }()
	rules[prop].run(c)
}

func ofKind(kinds ...string) func(s *Subject) bool {
	return func(s *Subject) bool {
		for _, k := range kinds {
			if s.kind == k {
				return true
			}
		}
		return false
	}
}

var intT = types.Typ[types.Int]

// walk visits events including those inside loops; in is the chain of enclosing loop paths.
func walk(evs []Event, in []*LoopPath, f func(ev *Event, in []*LoopPath)) {
	for i := range evs {
		ev := &evs[i]
		f(ev, in)
		if ev.loop != nil {
			for _, p := range ev.loop.paths {
				walk(p.events, append(in[:len(in):len(in)], p), f)
			}
		}
	}
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return strings.TrimSuffix(s, ")")
}

// ---------------------------------------------------------------------

type rule struct {
	run    func(c *Ctx)
	post   func(c *Ctx, obs []*Ob) []*Ob
	shards int  // further independent parts of the package-level work
	both   bool // analyse both byte orders in the quick tier
	rule   string
	min    int // hand-confirmed number of obligations
}

var rules = map[string]*rule{}

func (c *Ctx) known() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+c.prop && strings.HasPrefix(f[2], "key=") {
			m[strings.ReplaceAll(strings.TrimPrefix(f[2], "key="), "\\s", " ")] = strings.Join(f[3:], " ")
		}
	}
	return m
}

func newCtx(dir, prop, tier string) *Ctx {
	return &Ctx{dir: dir, prop: prop, tier: tier, seen: map[string]*Ob{}, counts: map[string]int{}, funcs: map[string]bool{}, proved: map[string]bool{}}
}

// load builds the program representation for each byte order the check covers.
func (c *Ctx) load(r *rule) {
	orders := []bool{true}
	if r.both || c.tier == "thorough" {
		orders = append(orders, false)
	}
	for _, l := range orders {
		c.worlds = append(c.worlds, loadWorld(c.dir, l))
	}
	for _, w := range c.worlds {
		if w.err != "" {
			c.w = nil
			c.ob("program", false, token.NoPos, "%s", w.err)
		}
	}
}

// exec applies the rule.
func (c *Ctx) exec(r *rule) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case haltReq, splitReq:
				c.ob("analysis", false, token.NoPos, "%s", haltStr(x))
			default:
				if os.Getenv("ZPANIC") != "" {
					panic(x)
				}
				c.ob("analysis", false, token.NoPos, "internal error: %v", x)
			}
		}
	}()
	if len(c.worlds) > 0 && c.worlds[0].err == "" {
		c.w = c.worlds[0]
		r.run(c)
	}
}

func checkMain(dir, prop, tier string) int {
	t0 := time.Now()
	exe, _ := os.Executable()
	c := newCtx(dir, prop, tier)
	c.verif = filepath.Dir(filepath.Dir(exe))
	if d := os.Getenv("ZVERIF"); d != "" {
		c.verif = d
	}
	r := rules[prop]
	if r == nil {
		fmt.Println("no such property", prop)
		return 1
	}
	if os.Getenv("ZSERIAL") != "" {
		c.load(r)
		c.exec(r)
	} else {
		c.parallel(r)
	}
	if r.post != nil {
		c.obs = r.post(c, c.obs)
	}
	known := c.known()
	n, bad, nk := len(c.obs), 0, 0
	var lines []string
	for _, o := range c.obs {
		if o.ok {
			continue
		}
		if why, ok := known[o.key]; ok {
			nk++
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, why, o.key)
			continue
		}
		bad++
		lines = append(lines, fmt.Sprintf("%s: %s: %s", o.pos, o.key, o.msg))
	}
	if n < r.min {
		bad++
		lines = append(lines, fmt.Sprintf("only %d obligations found, at least %d are known to exist: an anchor of the analysis is missing", n, r.min))
	}
	wall := time.Since(t0).Seconds()
	fmt.Printf("%s %s: %d obligations, %d discharged, %d known, %d outcomes of %d analysed method runs, %.1f s\n", prop, tier, n, n-bad-nk, nk, c.nOutc, c.nRuns(), wall)
	c.evidence(r, wall, bad, lines)
	if bad > 0 {
		rp := filepath.Join(c.verif, "evidence", prop+".violation.txt")
		os.WriteFile(rp, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
		for i, l := range lines {
			if i >= 40 {
				fmt.Printf("... %d more in %s\n", len(lines)-i, rp)
				break
			}
			if len(l) > 600 {
				l = l[:600] + " ..."
			}
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	return 0
}

func (c *Ctx) nRuns() int {
	n := c.nRun
	for _, w := range c.worlds {
		n += len(w.cache)
	}
	return n
}

func (c *Ctx) evidence(r *rule, wall float64, bad int, lines []string) {
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ok := 0
	byRule := map[string]int{}
	var samples []string
	for _, o := range c.obs {
		if o.ok {
			ok++
		}
		k := o.key
		if i := strings.Index(k, ":"); i > 0 {
			k = k[:i]
		}
		byRule[k]++
		if len(samples) < 8 && byRule[k] <= 2 {
			samples = append(samples, strings.TrimSpace(o.pos+" "+o.key))
		}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation": r.rule + " Decided by abstract interpretation of the SSA of the current sources (one abstract run per method and kind of type; every path, every loop by inferred inductive invariants); nothing is executed.",
		"obligations": len(c.obs), "discharged": ok, "obligations_by_rule": byRule,
		"method_runs": c.nRuns(), "paths": c.nOutc, "byte_orders": c.nOrders(r),
		"functions_analysed": len(fns), "functions": fns, "samples": samples, "violations": bad,
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	d := map[string]interface{}{"property": c.prop, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall}
	b, _ := json.MarshalIndent(d, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0o644)
}

func (c *Ctx) nOrders(r *rule) int {
	if r.both || c.tier == "thorough" {
		return 2
	}
	return 1
}
