package clientsim

import "encoding/json"

func copyScenario(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	c, err := DecodeScenario(b)
	if err != nil {
		panic(err)
	}
	return c
}

// Shrink proposes simpler scenarios.
func (s *Sim) Shrink(x any) []any {
	sc := x.(*Scenario)
	var out []any
	if s.none != "" {
		return nil
	}
	try := func(f func(c *Scenario) bool) {
		c := copyScenario(sc)
		if f(c) {
			out = append(out, c)
		}
	}
	if sc.Yield > 0 {
		try(func(c *Scenario) bool { c.Yield = 0; return true })
	}
	if len(sc.Tasks) > 1 {
		for i := range sc.Tasks {
			try(func(c *Scenario) bool { c.Tasks = append(c.Tasks[:i], c.Tasks[i+1:]...); return true })
		}
	}
	for i, ops := range sc.Tasks {
		if len(ops) > 1 {
			for j := range ops {
				try(func(c *Scenario) bool { c.Tasks[i] = append(c.Tasks[i][:j], c.Tasks[i][j+1:]...); return true })
			}
		}
	}
	// Requests that nobody uses.
	if len(sc.Reqs) > 0 {
		used := map[int]bool{}
		for _, ops := range sc.Tasks {
			for _, o := range ops {
				if o.Kind != "wait" {
					used[o.Req] = true
				}
			}
		}
		for i := range sc.Reqs {
			if !used[i] {
				try(func(c *Scenario) bool {
					c.Reqs = append(c.Reqs[:i], c.Reqs[i+1:]...)
					for _, ops := range c.Tasks {
						for _, o := range ops {
							if o.Req > i {
								o.Req--
							}
						}
					}
					return true
				})
			}
		}
	}
	if sc.Hist != nil && len(sc.Hist.Readers) > 0 {
		try(func(c *Scenario) bool { c.Hist.Readers = nil; return true })
	}
	for i := range sc.Codec {
		if len(sc.Codec) > 1 {
			try(func(c *Scenario) bool { c.Codec = append(c.Codec[:i], c.Codec[i+1:]...); return true })
		}
	}
	for i := range sc.Send {
		if len(sc.Send) > 1 {
			try(func(c *Scenario) bool { c.Send = append(c.Send[:i], c.Send[i+1:]...); return true })
		}
	}
	if sc.Hist != nil {
		for n := len(sc.Hist.Steps) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(sc.Hist.Steps); i += n {
				try(func(c *Scenario) bool {
					c.Hist.Steps = append(c.Hist.Steps[:i], c.Hist.Steps[i+n:]...)
					return true
				})
			}
		}
	}
	for i, q := range sc.Reqs {
		if len(q.Query) > 0 {
			try(func(c *Scenario) bool { c.Reqs[i].Query = nil; return true })
		}
		if len(q.Headers) > 0 {
			try(func(c *Scenario) bool { c.Reqs[i].Headers = nil; return true })
		}
		if q.User != "" {
			try(func(c *Scenario) bool { c.Reqs[i].User = ""; return true })
		}
		if q.Lazy {
			try(func(c *Scenario) bool { c.Reqs[i].Lazy = false; return true })
		}
		v := s.version(sc)
		if v == nil {
			continue
		}
		if e := v.endpoint(q); e != nil && e.Method != nil {
			for _, p := range ins(e.Method) {
				if _, ok := q.Params[p.Name]; ok && p != v.bodyIn(e.Method) {
					try(func(c *Scenario) bool { delete(c.Reqs[i].Params, p.Name); return true })
				}
			}
		}
	}
	for i, ops := range sc.Tasks {
		for j, o := range ops {
			op := func(f func(o *Op) bool) { try(func(c *Scenario) bool { return f(c.Tasks[i][j]) }) }
			if o.Kind == "send" && o.Limit != 0 {
				op(func(o *Op) bool { o.Limit = 0; return true })
			}
			if o.Cancel >= 0 {
				op(func(o *Op) bool { o.Cancel = -1; return true })
			}
			if o.Change != nil {
				op(func(o *Op) bool { o.Change = nil; return true })
			}
			if o.How != "" {
				op(func(o *Op) bool { o.How = ""; return true })
			}
			for k := range o.Ex {
				x := o.Ex[k]
				ex := func(f func(x *Exch)) { op(func(o *Op) bool { f(o.Ex[k]); return true }) }
				if len(o.Ex) > 1 {
					op(func(o *Op) bool { o.Ex = append(o.Ex[:k], o.Ex[k+1:]...); return true })
				}
				if x.Mutate {
					ex(func(x *Exch) { x.Mutate = false })
				}
				if x.Late {
					ex(func(x *Exch) { x.Late = false })
				}
				if x.Len {
					ex(func(x *Exch) { x.Len = false })
				}
				if x.CErr {
					ex(func(x *Exch) { x.CErr = false })
				}
				if len(x.Take) > 0 {
					ex(func(x *Exch) { x.Take = nil })
				}
				if len(x.Header) > 0 {
					ex(func(x *Exch) { x.Header = nil })
				}
				if x.Delay > 0 {
					ex(func(x *Exch) { x.Delay = 0 })
				}
				if x.PredDelay > 0 {
					ex(func(x *Exch) { x.PredDelay = 0 })
				}
				if len(x.Chunks) > 0 {
					ex(func(x *Exch) { x.Chunks = nil })
				}
				if len(x.Chunks) > 1 {
					ex(func(x *Exch) { x.Chunks = x.Chunks[:1] })
				}
				if x.EOF {
					ex(func(x *Exch) { x.EOF = false })
				}
				if x.Fault != nil {
					ex(func(x *Exch) { x.Fault = nil })
				}
				if x.TErr != "" {
					ex(func(x *Exch) { x.TErr = "" })
				}
				if x.Kind == "value" {
					ex(func(x *Exch) { // without content
						x.Kind, x.Body, x.Values, x.End, x.Fault, x.Chunks = "empty", "", nil, 0, nil, nil
					})
				}
			}
		}
	}
	for i, k := range sc.Codec {
		cd := func(f func(k *Codec)) { try(func(c *Scenario) bool { f(c.Codec[i]); return true }) }
		if len(k.Chunks) > 0 {
			cd(func(k *Codec) { k.Chunks = nil })
		}
		if k.EOF {
			cd(func(k *Codec) { k.EOF = false })
		}
		if k.Fault != nil && !k.Broken {
			cd(func(k *Codec) { k.Fault = nil })
		}
	}
	return out
}

func (s *Sim) version(sc *Scenario) *Ver {
	for _, m := range s.built.Models {
		if m.Name == sc.Model {
			return m.Find(sc.Svc, sc.Ver)
		}
	}
	return nil
}
