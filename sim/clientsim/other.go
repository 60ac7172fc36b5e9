package clientsim

import "fmt"

// startOther creates the tasks of the scenarios that aren't made of calls.
func (w *run) startOther() {
	sc := w.sc
	tasks := map[int]bool{}
	n := 0
	see := func(t int) {
		tasks[t] = true
		n = max(n, t+1)
	}
	for _, c := range sc.Codec {
		see(c.Task)
	}
	for _, c := range sc.Send {
		see(c.Task)
	}
	for t := 0; t < n; t++ {
		if !tasks[t] {
			continue
		}
		w.s.spawn(fmt.Sprintf("task %d", t), func(k *task) {
			for _, c := range sc.Codec {
				if c.Task != t {
					continue
				}
				if sc.Prop == "C18" {
					w.write(k, c)
				} else {
					w.read(k, c)
				}
			}
			for _, c := range sc.Send {
				if c.Task == t {
					w.send(k, c)
				}
			}
		})
	}
	if sc.Hist != nil {
		w.startHistory()
	}
}

func (w *run) checkOther() *bad {
	if w.found != nil {
		return w.found
	}
	if w.hist != nil {
		return w.hist.final()
	}
	for _, a := range w.sent {
		if b := w.checkSend(a); b != nil {
			return b
		}
	}
	return nil
}
