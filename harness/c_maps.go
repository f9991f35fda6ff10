package main

// C01, C02, C05: maps.

func init() {
	hashKinds := []struct{ kind, hm, init int }{}
	for _, init := range []int{-1, 0, 1, 2, 3, 4, 7, 16} {
		for _, hm := range []int{0, 1, 3, 4, 5, 12} {
			hashKinds = append(hashKinds, struct{ kind, hm, init int }{0, hm, init})
		}
	}
	for _, hm := range []int{0, 1, 3, 5, 12} {
		hashKinds = append(hashKinds, struct{ kind, hm, init int }{1, hm, 0})
	}
	kindName := []string{"hash", "linhash"}
	register(&Property{
		ID:   "C01",
		Rule: "Histories of put/get/has/remove against a reference map, with a full audit of size, lookups and all iterators; enumerated short histories over 3 keys x initial sizes x hash functions, random long ones over 13 key types and 14 hash functions. Non-trivial: at least one successful removal and two keys present at some time.",
		Families: []Family{
			{
				Name: "enum",
				N: func(t bool) int {
					l := 4
					if t {
						l = 6
					}
					return ipow(6, l) * len(hashKinds) / 2
				},
				Gen: func(r *Rng, j int, t bool) *Case {
					l := 4
					if t {
						l = 6
					}
					// Half of the product, a different half for each seed.
					x := 2*j + r.N(2)
					h := hashKinds[x%len(hashKinds)]
					return &Case{Kind: kindName[h.kind], P: map[string]int{"n": 4, "hm": h.hm, "init": h.init, "vk": x % 4},
						Ops: enumOps(x/len(hashKinds), l, 3)}
				},
			},
			{
				Name: "small",
				N:    constN(12000, 120000),
				Gen: func(r *Rng, j int, t bool) *Case {
					kt := 0
					if r.P(1, 3) {
						kt = r.N(nKeyTypes)
					}
					return &Case{Kind: kindName[j%2], P: map[string]int{
						"kt": kt, "hm": r.N(nHashModes), "n": r.In(2, 24), "us": r.N(1000),
						"init": r.Pick(-3, 0, 1, 2, 3, 5, 8, 13, 100), "vk": r.N(4), "aud": r.Pick(1, 2, 5),
					}, Ops: mapHistory(r, 24, r.In(5, 60))}
				},
			},
			{
				Name: "medium",
				N:    constN(2000, 20000),
				Gen: func(r *Rng, j int, t bool) *Case {
					kt := 0
					if r.P(1, 2) {
						kt = r.N(nKeyTypes)
					}
					n := mini(r.In(20, 300), maxKeys(kt))
					return &Case{Kind: kindName[j%2], P: map[string]int{
						"kt": kt, "hm": r.N(nHashModes), "n": n, "us": r.N(1000),
						"init": r.Pick(0, 1, 2, 3, 16, 1000), "vk": r.N(4), "aud": r.In(20, 120),
					}, Ops: mapHistory(r, n, r.In(100, 600))}
				},
			},
			{
				// Linear hashing starts splitting at 385 entries and adds an
				// address bit at every power of two of buckets.
				Name: "large",
				N:    constN(100, 800),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(500, 900, 1700, 3300)
					if t {
						n = r.Pick(900, 1700, 3300, 6500, 13000)
					}
					kt := r.Pick(ktInstr, ktInt, ktString, ktInstr)
					hm := r.Pick(0, 5, 6, 7, 10, 11)
					ops := []Op{}
					for _, k := range order(r, r.N(8), n) {
						ops = append(ops, put(k))
						if r.P(1, 10) {
							ops = append(ops, rem(k))
						}
					}
					ops = append(ops, mapHistory(r, n, n/2)...)
					for _, k := range order(r, r.N(8), n)[:r.In(n/2, n)] {
						ops = append(ops, rem(k))
						if r.P(1, 20) {
							ops = append(ops, put(k))
						}
					}
					absent := 0
					in := map[int]bool{}
					keep := ops[:0]
					for _, o := range ops {
						k := o.A[0]
						if o.F == "put" {
							in[k] = true
						} else if !in[k] && o.F != "has" {
							if absent++; absent > 60 {
								continue
							}
						} else if o.F == "rem" {
							delete(in, k)
						}
						keep = append(keep, o)
					}
					return &Case{Kind: kindName[j%2], P: map[string]int{
						"kt": kt, "hm": hm, "n": n, "us": r.N(1000), "init": r.Pick(1, 16, 1024), "vk": r.N(3), "aud": n / 3,
					}, Ops: keep}
				},
			},
			{
				Name: "huge",
				N:    constN(16, 96),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(10000, 20000, 40000, 70000)
					if t && r.P(1, 4) {
						n = r.Pick(140000, 270000)
					}
					return &Case{Kind: kindName[j%2], P: map[string]int{
						"kt": r.Pick(ktInstr, ktInt, ktInstr, ktUInt32), "hm": r.Pick(0, 5, 6, 7, 10, 11), "n": n, "us": r.N(1000),
						"init": r.Pick(1, 16, 1024, 100000), "aud": 1 << 30,
					}, Ops: hugeHistory(r, n)}
				},
			},
			{
				// Crossing every split of the linear hash with all buckets
				// audited right before and after.
				Name: "growth",
				N:    constN(16, 64),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := 384 + 12*40
					if t {
						n = 384 + 12*140
					}
					var ops []Op
					perm := order(r, j/2, n)
					for i, k := range perm {
						ops = append(ops, put(k))
						if i >= 380 && i%12 < 2 {
							ops = append(ops, Op{F: "audit"})
						}
					}
					return &Case{Kind: kindName[j%2], P: map[string]int{
						"kt": 0, "hm": r.Pick(0, 5, 6, 7, 9, 11), "n": n, "init": 1, "aud": 1 << 30,
					}, Ops: append(ops, rem(perm[0]))}
				},
			},
		},
		Run: func(c *Case, m *Mon) {
			r := runMap(c, m, nil)
			if c.Kind == "linhash" && r.peak > 384 {
				m.Feat("linear hash split")
				if r.peak > 780 {
					m.Feat("linear hash second address bit")
				}
			}
			if c.Kind == "hash" && r.peak*2 > c.p("init") {
				m.Feat("chained table grew")
			}
		},
	})

	treeKinds := []string{"avl", "immavl", "avlnode", "immnode"}
	treeFamilies := func(scale int) []Family {
		return []Family{
			{
				Name: "perm5",
				N:    func(t bool) int { return fact(5) * fact(5) * 2 },
				Gen: func(r *Rng, j int, t bool) *Case {
					kinds := []string{"avl", "immavl"}
					return &Case{Kind: kinds[j%2], P: map[string]int{"n": 5, "aud": 1 << 30}, Ops: permOps(j/2, 5)}
				},
			},
			{
				Name: "perm-sampled",
				N:    constN(20000/scale, 200000/scale),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.In(6, 11)
					ops := []Op{}
					for _, k := range r.Perm(n) {
						ops = append(ops, put(k))
					}
					for _, k := range r.Perm(n) {
						ops = append(ops, rem(k))
					}
					return &Case{Kind: treeKinds[j%4], P: map[string]int{"n": n, "aud": 3}, Ops: ops}
				},
			},
			{
				Name: "small",
				N:    constN(12000/scale, 120000/scale),
				Gen: func(r *Rng, j int, t bool) *Case {
					kt := 0
					if r.P(1, 3) {
						kt = r.N(nKeyTypes)
					}
					return &Case{Kind: treeKinds[j%4], P: map[string]int{
						"kt": kt, "n": r.In(2, 24), "us": r.N(1000), "vk": r.N(4), "aud": r.Pick(1, 3),
					}, Ops: mapHistory(r, 24, r.In(5, 80))}
				},
			},
			{
				Name: "medium",
				N:    constN(2500/scale, 20000/scale),
				Gen: func(r *Rng, j int, t bool) *Case {
					kt := 0
					if r.P(1, 2) {
						kt = r.N(nKeyTypes)
					}
					n := mini(r.In(20, 250), maxKeys(kt))
					return &Case{Kind: treeKinds[j%4], P: map[string]int{
						"kt": kt, "n": n, "us": r.N(1000), "vk": r.N(4), "aud": r.In(30, 150),
					}, Ops: mapHistory(r, n, r.In(100, 700))}
				},
			},
			{
				Name: "large",
				N:    constN(120/scale, 960/scale),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.In(500, 1500)
					if t {
						n = r.In(500, 4000)
					}
					ops := []Op{}
					for _, k := range order(r, j/4, n) {
						ops = append(ops, put(k))
					}
					for _, k := range order(r, r.N(8), n)[:r.In(n/2, n)] {
						ops = append(ops, rem(k))
					}
					for _, k := range order(r, r.N(8), n)[:r.In(1, n/2)] {
						ops = append(ops, put(k))
					}
					return &Case{Kind: treeKinds[j%4], P: map[string]int{"n": n, "aud": n / 2}, Ops: ops}
				},
			},
			{
				Name: "huge",
				N:    constN(16, 96),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(5000, 10000, 20000, 40000)
					if t && r.P(1, 4) {
						n = r.Pick(50000, 60000)
					}
					return &Case{Kind: treeKinds[j%4], P: map[string]int{"n": n, "aud": 1 << 30}, Ops: hugeHistory(r, n)}
				},
			},
		}
	}
	register(&Property{
		ID:       "C02",
		Rule:     "Histories against a reference map on the AVL tree, the immutable AVL tree and their node-level interfaces; all insertion x removal permutations of 5 keys, sampled ones of 6 to 11, random and patterned histories up to thousands of keys. Audits include a walk of the nodes from the root. Non-trivial: at least one successful removal and two keys present at some time.",
		Families: treeFamilies(1),
		Run: func(c *Case, m *Mon) {
			r := runMap(c, m, nil)
			walkBST(m, r)
			// a second walk halfway is cheap for small histories
		},
	})
	register(&Property{
		ID:   "C03",
		Rule: "The same families of histories as for the map semantics; after every put and removal (every few operations in long histories) the tree is walked from its root through the public node interface and the real height of every subtree is computed. In trees of up to 80000 keys nodes of the first levels are removed. Non-trivial: at least one removal and a tree of height 3 or more.",
		Families: append(treeFamilies(1), Family{
			Name: "tops", // removals of nodes of the first levels
			N:    constN(320, 3200),
			Gen: func(r *Rng, j int, t bool) *Case {
				n := r.Pick(15, 40, 200, 1000)
				if j%20 == 0 {
					n = r.Pick(10000, 20000, 40000, 80000)
				}
				ops := []Op{}
				if j%3 == 1 { // a full tree, and some keys next to nodes of the first levels
					h := r.In(3, 9)
					if j%20 == 1 {
						h = r.In(12, 16)
					}
					n = 2<<uint(h) - 1
					for k := 1; k < n; k += 2 {
						ops = append(ops, put(k))
					}
					at, step := n/2, n/2+1
					for i := r.In(1, 4); i > 0; i-- {
						ops = append(ops, put(at+r.Pick(-1, 1)))
						step /= 2
						at = maxi(1, mini(n-2, at+r.Pick(-step, step)))
					}
				} else {
					for _, k := range order(r, r.N(8), n) {
						ops = append(ops, put(k))
					}
				}
				for i := 0; i < mini(n, 30); i++ {
					if r.P(1, 4) {
						ops = append(ops, Op{F: []string{"put", "rem"}[r.N(2)], A: []int{r.N(n)}})
					}
					ops = append(ops, Op{F: "top", A: []int{r.N(1 << 20), r.Pick(0, 0, 0, 1, 1, 2, 3, 4)}})
				}
				return &Case{Kind: treeKinds[r.N(4)], P: map[string]int{"n": n, "kt": 0}, Ops: ops}
			},
		}),
		Run: runBalance,
	})

	bpFamilies := []Family{
		{
			Name: "enum",
			N: func(t bool) int {
				if t {
					return ipow(6, 6) * 3
				}
				return ipow(6, 5) * 3
			},
			Gen: func(r *Rng, j int, t bool) *Case {
				l := 5
				if t {
					l = 6
				}
				return &Case{Kind: "bpmap", P: map[string]int{"n": 4, "ns": 2 + j%3, "vk": j % 4}, Ops: enumOps(j/3, l, 3)}
			},
		},
		{
			Name: "perm",
			N:    func(t bool) int { return fact(5) * fact(5) },
			Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "bpmap", P: map[string]int{"n": 5, "ns": 2 + r.N(3), "aud": 1 << 30}, Ops: permOps(j, 5)}
			},
		},
		{
			Name: "small",
			N:    constN(15000, 150000),
			Gen: func(r *Rng, j int, t bool) *Case {
				kt := 0
				if r.P(1, 3) {
					kt = r.N(nKeyTypes)
				}
				return &Case{Kind: "bpmap", P: map[string]int{
					"kt": kt, "n": r.In(2, 30), "us": r.N(1000), "ns": r.In(2, 9), "vk": r.N(4), "aud": r.Pick(1, 3),
				}, Ops: mapHistory(r, 30, r.In(5, 100))}
			},
		},
		{
			Name: "medium",
			N:    constN(2000, 20000),
			Gen: func(r *Rng, j int, t bool) *Case {
				kt := 0
				if r.P(1, 2) {
					kt = r.N(nKeyTypes)
				}
				n := mini(r.In(20, 250), maxKeys(kt))
				return &Case{Kind: "bpmap", P: map[string]int{
					"kt": kt, "n": n, "us": r.N(1000), "ns": r.Pick(2, 3, 4, 5, 6, 7, 8, 16, 33, 64, 128), "vk": r.N(4), "aud": r.In(30, 150),
				}, Ops: mapHistory(r, n, r.In(100, 700))}
			},
		},
		{
			Name: "large",
			N:    constN(96, 960),
			Gen: func(r *Rng, j int, t bool) *Case {
				n := r.In(500, 2500)
				ns := r.Pick(4, 5, 6, 7, 8, 13, 16, 32, 64)
				if j%8 == 0 {
					n, ns = r.In(200, 500), r.In(2, 3)
				}
				ops := []Op{}
				for _, k := range order(r, j, n) {
					ops = append(ops, put(k))
				}
				for _, k := range order(r, r.N(8), n)[:r.In(n/2, n)] {
					ops = append(ops, rem(k))
				}
				for _, k := range order(r, r.N(8), n)[:r.In(1, n/2)] {
					ops = append(ops, put(k))
				}
				return &Case{Kind: "bpmap", P: map[string]int{"n": n, "ns": ns, "aud": n / 2}, Ops: ops}
			},
		},
		{
			Name: "huge",
			N:    constN(16, 96),
			Gen: func(r *Rng, j int, t bool) *Case {
				n := r.Pick(5000, 10000, 20000, 40000)
				if t && r.P(1, 4) {
					n = r.Pick(80000, 140000)
				}
				return &Case{Kind: "bpmap", P: map[string]int{
					"n": n, "ns": r.Pick(6, 8, 16, 33, 64, 100, 127, 128, 129, 255, 256, 1000), "aud": 1 << 30,
				}, Ops: hugeHistory(r, n)}
			},
		},
	}
	register(&Property{
		ID:       "C05",
		Rule:     "Histories against a reference map for node sizes 2 to 64; enumerated short histories over 3 keys, all insertion x removal permutations of 5 keys, random and patterned histories up to thousands of keys, with full audits. Non-trivial: at least one successful removal and two keys present at some time.",
		Families: bpFamilies,
		Run:      func(c *Case, m *Mon) { runMap(c, m, nil) },
	})
}
