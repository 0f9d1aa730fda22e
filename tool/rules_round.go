package main

// C26: decoding and encoding invert each other. Equality of whole values is the structural induction over
// the type whose steps are decided per kind of codec: Encode writes exactly the layout of the value
// (sizes, offsets, parts), Decode accepts exactly the layouts of valid values, and what Decode leaves in
// the destination at each index is the part of the layout of that index, at the memory Encode reads.

func init() {
	rules["C26"] = &rule{run: ruleRoundTrip, both: true, min: 300, rule: "Each step of the induction over the type that composes Encode and Decode to the identity is decided: every Encode path writes exactly the layout of the kind, and fails only when a write does; the size used for offsets is the size written; Decode accepts exactly the layouts of valid values (both directions); the final memory of element i (arbitrary i), the element count and the memory of each field after Decode are what the layout of that index was written from, whatever the destination held before."}
}

func ruleRoundTrip(c *Ctx) {
	c.decodeOnly = true
	defer func() { c.decodeOnly = false }()
	c.also("C04", nil)
	c.also("C05", nil)
	c.also("C23", nil)
	c.also("C24", nil)
	p := c.pre
	c.pre = p + "C22/"
	ruleOwnMemory(c)
	c.pre = p
	var f func(s *Subject) bool
	if c.tier != "thorough" && c.order() == "big-endian host" {
		f = (*Subject).basic
	}
	c.also("C01", f)
	c.also("C02", f)
}
