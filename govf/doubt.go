package govf

import "strings"

// Doubt turns refutations that may be mutual into undecided obligations.
//
// That code breaks a walker obligation is shown under the correspondence of
// fields and attributes that the verifier found.  Code that keeps its data in
// another form breaks the obligations of the writer of the data under that
// correspondence, and those of its readers too, and may be right.  So a failure
// refutes by itself only if none of the obligations fails that read what it
// writes or write what it reads.
func (w *Walk) Doubt() {
	r := w.r
	pre := "walker/" + w.a.Name + "/"
	res := "api/" + w.a.Name + "/result"
	type fail struct {
		o    *Obl
		kind string // the node whose attribute is wrong, or "" for the result
		read map[string]bool
	}
	var fs []*fail
	for _, id := range r.Order {
		o := r.Obls[id]
		if o.OK {
			continue
		}
		if id == res {
			fs = append(fs, &fail{o: o})
			continue
		}
		p := strings.Split(strings.TrimPrefix(id, pre), "/")
		if !strings.HasPrefix(id, pre) || len(p) != 3 || p[2] == "total" {
			continue
		}
		child := p[1]
		if i := strings.IndexByte(child, '-'); i >= 0 {
			child = child[:i]
		}
		fs = append(fs, &fail{o, p[0], map[string]bool{p[0]: true, child: true}})
	}
	var doubt []*fail
	for _, f := range fs {
		for _, g := range fs {
			if f == g || f.o.Stuck {
				continue
			}
			// The result comes from all of them.
			if f.kind == "" || g.kind == "" || f.read[g.kind] || g.read[f.kind] {
				doubt = append(doubt, f)
				break
			}
		}
	}
	for _, f := range doubt {
		r.Fail(f.o, true, "obligations of the same data fail together: the data may be kept in another form")
	}
}
