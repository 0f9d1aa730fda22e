package main

import (
	"sort"
	"strings"
)

// C17: the byte order of the host.

func init() {
	rules["C17"] = &rule{run: ruleOrder, post: postOrder, both: true, min: 600, rule: "The obligations about encodings, roots, decoded contents, verdicts, and fuzz-mode decoding are decided separately for a little-endian and a big-endian host (package initialisation, and with it the detection of the byte order, is analysed under each). Every obligation must have the same outcome under both orders, and those about the bytes of multi-byte numbers must hold under both: a raw copy of a multi-byte element appears in the written segments, hash chunks or final memory as bytes in host order, which equals the little-endian value only where the path knows the host to be little-endian."}
}

var orderProps = []string{"C04", "C05", "C07", "C23", "C24"}
var orderPropsBasic = []string{"C01", "C02", "C16"}

// wide: codecs of multi-byte numbers.
func (s *Subject) wide() bool {
	switch s.elemName() {
	case "uint16", "uint32", "uint64":
		return s.kind == "basicvec" || s.kind == "basiclist"
	}
	switch s.name {
	case "uint16", "uint32", "uint64":
		return true
	}
	return false
}

func (s *Subject) basic() bool {
	return basicSize[s.name] > 0 || s.kind == "basicvec" || s.kind == "basiclist"
}

func ruleOrder(c *Ctx) {
	c.byOrder = true
	defer func() { c.byOrder = false }()
	for _, p := range orderProps {
		c.also(p, nil)
	}
	f := (*Subject).basic
	if c.tier == "thorough" {
		f = nil
	}
	for _, p := range orderPropsBasic {
		c.also(p, f)
	}
}

const onLE, onBE = " @little-endian", " @big-endian"

// numberOb: obligations about the bytes of multi-byte numbers.
func numberOb(key string) bool {
	wide := strings.Contains(key, "uint16") || strings.Contains(key, "uint32") || strings.Contains(key, "uint64")
	for _, p := range []string{"C05/piece:", "C07/chunk:", "C24/element:"} {
		if wide && strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

// postOrder pairs the verdicts under the two byte orders.
func postOrder(c *Ctx, obs []*Ob) (out []*Ob) {
	pair := map[string]*[2]*Ob{}
	var keys []string
	for _, o := range obs {
		k, i := o.key, -1
		if strings.HasSuffix(k, onLE) {
			k, i = strings.TrimSuffix(k, onLE), 0
		} else if strings.HasSuffix(k, onBE) {
			k, i = strings.TrimSuffix(k, onBE), 1
		}
		if i < 0 {
			out = append(out, o)
			continue
		}
		if pair[k] == nil {
			pair[k] = &[2]*Ob{}
			keys = append(keys, k)
		}
		pair[k][i] = o
	}
	sort.Strings(keys)
	for _, k := range keys {
		p := pair[k]
		n := &Ob{key: k, ok: true}
		for i, o := range p {
			if o == nil {
				continue
			}
			n.pos = o.pos
			other := p[1-i]
			if !o.ok && (other == nil || other.ok || numberOb(k)) {
				n.ok, n.msg = false, o.msg
				if other == nil || other.ok {
					n.msg += " (only on this byte order)"
				}
				break
			}
		}
		out = append(out, n)
	}
	return out
}
