package main

// A check is split by codec over worker processes, because the tables of the engine are not shared
// between threads. A worker reads "world subject" lines and answers each with one JSON line.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"runtime"
	"sync"
	"time"
)

// limitSeconds: a check that takes longer than this fails as undecided.
const limitSeconds = 780

type reply struct {
	Subs  []int // number of subjects per world (first reply)
	Obs   []jsonOb
	Funcs []string
	Outc  int
	Runs  int
}

type jsonOb struct {
	Key, Pos, Msg string
	Ok            bool
}

func workerMain(dir, prop, tier string) int {
	c := newCtx(dir, prop, tier)
	r := rules[prop]
	out := bufio.NewWriter(os.Stdout)
	send := func(v reply) {
		b, _ := json.Marshal(v)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	c.load(r)
	var hello reply
	for _, w := range c.worlds {
		hello.Subs = append(hello.Subs, len(w.subs))
	}
	hello.Obs = c.flush()
	send(hello)
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		t := &task{}
		if n, _ := fmt.Sscanf(in.Text(), "%d %d", &t.world, &t.subj); n != 2 {
			return 2
		}
		c.task = t
		c.nOutc = 0
		runs := c.nRuns()
		c.exec(r)
		v := reply{Obs: c.flush(), Outc: c.nOutc, Runs: c.nRuns() - runs}
		for f := range c.funcs {
			v.Funcs = append(v.Funcs, f)
		}
		c.funcs = map[string]bool{}
		for _, w := range c.worlds {
			// method results of this subject are not needed again
			for k := range w.cache {
				w.cache[k] = nil
			}
		}
		send(v)
	}
	return 0
}

func (c *Ctx) flush() (out []jsonOb) {
	for _, o := range c.obs {
		out = append(out, jsonOb{o.key, o.pos, o.msg, o.ok})
	}
	c.obs = nil
	c.seen = map[string]*Ob{}
	return
}

func (c *Ctx) merge(v reply) {
	for _, j := range v.Obs {
		if o, dup := c.seen[j.Key]; dup {
			if !j.Ok && o.ok {
				o.ok, o.pos, o.msg = false, j.Pos, j.Msg
			}
			continue
		}
		o := &Ob{key: j.Key, ok: j.Ok, pos: j.Pos, msg: j.Msg}
		c.seen[j.Key] = o
		c.obs = append(c.obs, o)
	}
	for _, f := range v.Funcs {
		c.funcs[f] = true
	}
	c.nOutc += v.Outc
	c.nRun += v.Runs
}

func (c *Ctx) parallel(r *rule) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	exe, _ := os.Executable()
	var mu sync.Mutex
	var tasks []task
	ready := false
	fail := func(format string, a ...interface{}) {
		mu.Lock()
		c.ob("analysis", false, token.NoPos, format, a...)
		mu.Unlock()
	}
	next := func() *task {
		mu.Lock()
		defer mu.Unlock()
		if len(tasks) == 0 {
			return nil
		}
		t := tasks[len(tasks)-1]
		tasks = tasks[:len(tasks)-1]
		return &t
	}
	var procs []*exec.Cmd
	late := time.AfterFunc(limitSeconds*time.Second, func() {
		fail("the analysis did not finish within %d seconds", limitSeconds)
		mu.Lock()
		defer mu.Unlock()
		tasks = nil
		for _, p := range procs {
			p.Process.Kill()
		}
	})
	defer late.Stop()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(exe, "worker", c.prop, c.tier)
			cmd.Stderr = os.Stderr
			win, e1 := cmd.StdinPipe()
			wout, e2 := cmd.StdoutPipe()
			if e1 != nil || e2 != nil || cmd.Start() != nil {
				fail("cannot start a worker process")
				return
			}
			mu.Lock()
			procs = append(procs, cmd)
			mu.Unlock()
			defer cmd.Wait()
			defer win.Close()
			rd := bufio.NewReaderSize(wout, 1<<20)
			get := func() (reply, bool) {
				var v reply
				l, err := rd.ReadBytes('\n')
				if err != nil || json.Unmarshal(l, &v) != nil {
					return v, false
				}
				return v, true
			}
			v, ok := get()
			if !ok {
				fail("a worker process failed to load the program")
				return
			}
			mu.Lock()
			c.merge(v)
			if !ready {
				ready = true
				max := 0
				for w := range v.Subs {
					for k := 0; k <= r.shards; k++ {
						tasks = append(tasks, task{w, -1 - k})
					}
					if v.Subs[w] > max {
						max = v.Subs[w]
					}
				}
				for s := 0; s < max; s++ {
					for w := range v.Subs {
						if s < v.Subs[w] {
							tasks = append(tasks, task{w, s})
						}
					}
				}
			}
			mu.Unlock()
			for t := next(); t != nil; t = next() {
				fmt.Fprintf(win, "%d %d\n", t.world, t.subj)
				v, ok := get()
				if !ok {
					fail("the worker analysing codec %d died", t.subj)
					return
				}
				mu.Lock()
				c.merge(v)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}
