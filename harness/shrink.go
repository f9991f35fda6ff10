package main

import "time"

// shrink minimises a failing case: first the list of operations, then their
// arguments. The limits only affect how small the replay file gets.
func shrink(p *Property, c *Case, v *Violation) (*Case, *Violation) {
	deadline := time.Now().Add(20 * time.Second)
	budget := 3000
	if p.Race || p.Cover {
		budget = 300
	}
	best, bestV := c.clone(), v
	over := func() bool { return budget <= 0 || time.Now().After(deadline) }
	try := func(d *Case) bool {
		if over() {
			return false
		}
		budget--
		_, w := runCase(p, d)
		if w == nil || w.Sig != v.Sig {
			return false
		}
		best, bestV = d, w
		return true
	}
	for chunk := (len(best.Ops) + 1) / 2; chunk >= 1; {
		removed := false
		for at := 0; at < len(best.Ops) && !over(); {
			end := mini(at+chunk, len(best.Ops))
			d := best.clone()
			d.Ops = append(append([]Op(nil), best.Ops[:at]...), best.Ops[end:]...)
			if try(d) {
				removed = true
			} else {
				at = end
			}
		}
		if over() {
			break
		}
		if chunk == 1 && !removed {
			break
		}
		if !removed || chunk > 1 {
			chunk = maxi(1, chunk/2)
		}
	}
	for i := range best.Ops {
		for k := range best.Ops[i].A {
			for _, x := range []int{0, 1, best.Ops[i].A[k] / 2, best.Ops[i].A[k] - 1} {
				if over() {
					return best, bestV
				}
				if x < 0 || x >= best.Ops[i].A[k] {
					continue
				}
				d := best.clone()
				d.Ops[i].A = append([]int(nil), best.Ops[i].A...)
				d.Ops[i].A[k] = x
				if try(d) {
					break
				}
			}
		}
	}
	return best, bestV
}
