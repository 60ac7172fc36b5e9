package toolsim

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"

	"verif/sim/internal/core"
	"verif/sim/internal/mm"
	"verif/sim/internal/world"
)

var rules = map[string]string{
	"C01": "a seed makes a model, a command, a machine layout and older output; the run without faults is checked against an independently calculated list of files and declarations; then faults are placed at randomly chosen system calls of that run (create, mkdir, write, close, read back, remove, spawn, formatter), transient or sticky, one to three per run; non trivial: at least one fault was really injected (or a run without faults)",
	"C02": "a seed makes a model, a command and older output; faults are placed at randomly chosen system calls on the model (stat, open, list, read), or the model gets an error; non trivial: the fault was injected",
	"C03": "a seed makes a model and a command; one to three stored-byte faults are applied to its files; every damaged text counts once",
	"C04": "a seed makes a model and two machines that differ in hash seeds, directory order, clock (with jumps), process ids, pace, goroutine order, locations, environment, temporary names and older output",
	"C05": "a seed makes a model, a command and one to three interrupted runs (kill before, in or after a random system call or formatter step, failed by an error, power loss with seeded survival of unsynced data, other model), then one run without faults; non trivial: some run was interrupted",
	"C06": "a seed makes a model (good or bad), a command, foreign files around it, and faults at random system calls anywhere; every modifying operation and the final file system are checked",
	"C07": "a seed makes two or three commands with different outputs and a schedule of bursts over their system calls, optionally killing some, equal random streams (temporary name collisions) and left over temporary files; non trivial: more context switches than processes",
}

func pickCmd(r *core.Rng) string {
	return core.Pick(r, []string{"go", "go", "openapi", "docs"})
}

func layoutFor(r *core.Rng, m *mm.Model) Layout {
	l := DefaultLayout()
	l.Seed, l.World, l.ListSeed = r.Next(), r.Next()>>1, r.Next()
	if r.Chance(1, 3) {
		l.Cwd = core.Pick(r, []string{"/work", "/home/u/project", "/srv/build 1"})
		l.ModelArg = core.Pick(r, []string{"model", "./model", "/data/model", "a/b/model"})
		l.OutArg = core.Pick(r, []string{"out", "./out", "/data/out", "a/b/out", "x"})
		l.Tmp = core.Pick(r, []string{"/tmp", "/var/tmp", "/scratch/t"})
		l.Base = core.Pick(r, []string{"example.com/gen", "github.com/a/b-go", "x.org/y/z"})
	}
	if r.Bool() {
		l.Yield = r.Next() | 1
	}
	if r.Chance(1, 5) && !hasRefs(m) { // references need one directory
		l.Split = r.Next() | 1
	}
	return l
}

func hasRefs(m *mm.Model) bool {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, d := range v.Decls("class") {
				if mm.Ann(d.Anns, "ref", "path") != "" {
					return true
				}
			}
		}
	}
	return false
}

// otherEnv are variables that machines that build things often have.
var otherEnv = []string{"BUILD_ID", "BUILD_NUMBER", "BUILD_TAG", "BUILD_URL", "JOB_NAME", "GIT_COMMIT", "GIT_BRANCH", "GIT_SHA", "CI", "DEBUG", "VERBOSE", "LOGNAME", "HOSTNAME", "EDITOR", "LC_ALL", "GOOS", "GOARCH", "NO_COLOR", "TERM", "VERSION", "REVISION", "METAMODEL_VERSION", "METAMODEL_DEBUG", "GOPACKAGE", "GOFILE", "GOPROXY", "GITHUB_SHA", "GITHUB_ACTIONS"}

// otherText is content for files that were there before.
func priorFor(r *core.Rng, m *mm.Model, cmd string) map[string]string {
	if r.Chance(1, 2) {
		return nil
	}
	p := map[string]string{}
	files := ExpectedFiles(m, cmd)
	for i := r.Intn(5); i >= 0; i-- {
		f := core.Pick(r, files)
		switch r.Intn(4) {
		case 0:
			p[f] = ""
		case 1:
			p[f] = "package broken {{{ torn"
		case 2:
			p[f] = strings.Repeat("// old and much longer content that has to go away\n", 2000)
		case 3:
			p[f] = "\x00\x00\x00"
		}
	}
	// Files that don't belong to the model, next to the ones that do.
	for i := r.Intn(6) + 8*(r.Intn(4)/3); i > 0; i-- {
		d := core.Pick(r, []string{"", "", "keep/", "keep/a/b/", path.Dir(core.Pick(r, files)) + "/", path.Dir(core.Pick(r, files)) + "/", path.Dir(core.Pick(r, files)) + "/sub/"})
		n := core.Pick(r, []string{"README.txt", "mine.txt", "mine.json", "mine.md", "Makefile", ".gitignore", ".hidden", "x.bak", "x.orig", "x.rej", "x.tmp", "x~", "x.log", "#x#", ".x.swp", "core", "x.old", "OWNERS", "data.bin", "openapi.yaml", "empty"})
		if r.Chance(1, 4) { // looks like one of the files of the model
			n = path.Base(core.Pick(r, files))
			if r.Bool() {
				n = strings.TrimSuffix(n, path.Ext(n))
			}
			n += core.Pick(r, []string{".bak", "~", ".orig", ".tmp", ".1", ".old", ".html", ".txt", ".yaml", ".yml", ".xml", ".pdf", ".lock", ".swp", ".new", ".part", ".sum", ".png", ".d"})
		}
		text := core.Pick(r, []string{"", "mine", "mine too\n", "// Code generated by someone else. DO NOT EDIT.\n", "\x7fELF"})
		p[path.Join(d, n)] = text
	}
	if r.Chance(1, 4) {
		p[core.Pick(r, []string{"keep/mine.go", "old_service/v1/gone_type.go", "mine/mine_test.go", "tools/tools.go"})] = "// Code generated automatically using metamodel\n\npackage old\n"
	}
	return p
}

var errnosFor = map[string][]string{
	"open-w": {"EIO", "EACCES", "ENOSPC", "EMFILE", "EROFS", "EDQUOT", "ENFILE"},
	"write":  {"ENOSPC", "EIO", "EDQUOT", "EFBIG"}, "close-w": {"EIO", "ENOSPC", "EDQUOT"},
	"mkdir": {"EACCES", "ENOSPC", "EIO", "EROFS"}, "read": {"EIO", "ESTALE"}, "open-r": {"EIO", "EMFILE", "EACCES", "ENOENT", "ESTALE"},
	"unlink": {"EACCES", "EBUSY", "EIO", "EROFS"}, "getdents": {"EIO", "ESTALE"}, "stat": {"EIO", "EACCES", "ESTALE"},
	"fstat": {"EIO", "ESTALE"}, "spawn": {"ENOENT", "EACCES", "ENOMEM", "EAGAIN", "E2BIG"}, "rename": {"EIO", "ENOSPC", "EROFS"},
	"chmod": {"EPERM", "EROFS"}, "truncate": {"EIO"}, "fsync": {"EIO", "ENOSPC"}, "link": {"EIO"}, "symlink": {"EIO"}, "seek": {"EIO"},
}

// sites groups the operations of a run by kind and area.
func sites(ops []world.Op, ok func(o world.Op) bool) map[string][]world.Op {
	m := map[string][]world.Op{}
	for _, o := range ops {
		if ok(o) {
			m[o.Op+"|"+o.Area] = append(m[o.Op+"|"+o.Area], o)
		}
	}
	return m
}

func pickSite(r *core.Rng, m map[string][]world.Op) world.Op {
	keys := sortedKeys(m)
	s := m[core.Pick(r, keys)]
	switch r.Intn(6) {
	case 0:
		return s[0]
	case 1:
		return s[len(s)-1]
	}
	return core.Pick(r, s)
}

func writeFault(r *core.Rng, o world.Op) world.Fault {
	f := world.Fault{Op: o.Op, Area: o.Area, Nth: o.Nth, Kind: "err", Arg: r.Intn(1000)}
	switch o.Op {
	case "write":
		switch r.Intn(6) {
		case 0:
			f.Kind = "short"
			return f
		case 1:
			f.Kind, f.Arg = "eintr", r.Intn(4)
			return f
		}
	case "read":
		switch r.Intn(4) {
		case 0:
			f.Kind = "short"
			return f
		case 1:
			f.Kind, f.Arg = "eintr", r.Intn(4)
			return f
		}
	case "open-w", "open-r":
		if r.Chance(1, 8) {
			f.Kind, f.Arg = "eintr", r.Intn(3)
			return f
		}
	case "fmt":
		f = world.Fault{Op: "spawn", Area: "other", Nth: 1, Kind: core.Pick(r, []string{"fmt-exit", "fmt-abort", "fmt-kill", "fmt-torn", "fmt-enospc"}), Arg: r.Intn(1000)}
		return f
	}
	if o.Op == "stat" && o.Area == "model" && o.Dir && r.Chance(1, 4) {
		f.Errno = "ENOENT" // a directory that is in the listing and can't be found
	}
	for f.Errno == "" || (f.Errno == "ENOENT" && o.Area == "temp") {
		f.Errno = core.Pick(r, errnosFor[o.Op])
	}
	f.Sticky = core.Pick(r, []string{"", "", "path", "class"})
	if f.Errno == "ENOSPC" || f.Errno == "EDQUOT" {
		f.Sticky = core.Pick(r, []string{"", "path", "class", "full", "full"})
	}
	return f
}

func faultable(o world.Op) bool {
	if o.Op == "fmt" {
		return true
	}
	if errnosFor[o.Op] == nil || o.Errno != 0 {
		return false
	}
	if o.Op == "spawn" {
		return true
	}
	return o.Area == "output" || o.Area == "temp"
}

func render(r *core.Rng, m *mm.Model, st mm.Style) map[string]string { return m.Render(st) }

// grow puts many comments before or between the declarations of a file, so that it is larger than what readers usually
// take in one piece.
func grow(r *core.Rng, files map[string]string) {
	k := core.Pick(r, sortedKeys(files))
	size := core.Pick(r, []int{5000, 33000, 66000, 66000, 140000, 1050000})
	var b strings.Builder
	for b.Len() < size {
		b.WriteString("// " + strings.Repeat("x", 20+r.Intn(200)) + "\n")
		if r.Chance(1, 20) {
			b.WriteString("\n")
		}
	}
	b.WriteString("\n\n")
	files[k] = b.String() + files[k]
}

// Episode generates the scenarios of a seed.
func (s *Sim) Episode(seed uint64, tier string, run func(sc any) bool) error {
	r := core.NewRng(seed)
	size := 0
	if tier == "thorough" && r.Chance(1, 10) {
		size = 1 + r.Intn(2)
	} else if r.Chance(1, 40) {
		size = 1
	}
	if s.id == "C01" && r.Chance(1, 12) {
		size = -1 // very long lines
	}
	m, st := GenModel(r, size)
	files := render(r, m, st)
	cmd := pickCmd(r)
	if (s.id == "C01" || s.id == "C02") && r.Chance(1, 30) {
		grow(r, files)
	}
	switch s.id {
	case "C01":
		sc := &Scenario{Prop: "C01", Cmd: cmd, Layout: layoutFor(r, m), Files: files}
		if !run(sc) {
			return nil
		}
		if p := priorFor(r, m, cmd); p != nil {
			c := *sc
			c.Prior = p
			if !run(&c) {
				return nil
			}
		}
		base, err := s.alone(sc)
		if err != nil {
			return err
		}
		if base.Exit != 0 {
			return nil
		}
		ss := sites(base.Ops, faultable)
		if len(ss) == 0 {
			return nil
		}
		for i := 0; i < 24; i++ {
			c := *sc
			if r.Chance(1, 4) {
				c.Prior = priorFor(r, m, cmd)
			}
			if i == 0 {
				c.Layout.NoFmt = cmd == "go"
			}
			if r.Chance(1, 6) {
				c.Layout.Mute = core.Pick(r, []string{"out", "err", "all"})
			}
			for n := 1 + r.Intn(6)/4 + r.Intn(10)/9; n > 0 && !c.Layout.NoFmt; n-- {
				c.Faults = append(c.Faults, writeFault(r, pickSite(r, ss)))
			}
			if !run(&c) {
				return nil
			}
		}
	case "C02":
		if r.Chance(1, 3) {
			cmd = "check"
		}
		sc := &Scenario{Prop: "C02", Cmd: cmd, Layout: layoutFor(r, m), Files: files}
		base, err := s.alone(sc)
		if err != nil {
			return err
		}
		if base.Exit != 0 {
			return nil
		}
		ss := sites(base.Ops, func(o world.Op) bool {
			return o.Area == "model" && o.Errno == 0 && (o.Op == "stat" || o.Op == "fstat" || o.Op == "open-r" || o.Op == "read" || o.Op == "getdents")
		})
		for i := 0; i < 16 && len(ss) > 0; i++ {
			c := *sc
			if r.Chance(1, 6) {
				c.Layout.Mute = core.Pick(r, []string{"out", "err", "all"})
			}
			if cmd != "check" {
				c.Prior = priorFor(r, m, cmd)
			}
			for n := 1 + r.Intn(5)/4; n > 0; n-- {
				o := pickSite(r, ss)
				f := writeFault(r, o)
				if f.Sticky == "class" && r.Bool() {
					f.Sticky = "path"
				}
				c.Faults = append(c.Faults, f)
			}
			if !run(&c) {
				return nil
			}
		}
		for i := 0; i < 4; i++ {
			c := *sc
			if r.Chance(1, 6) {
				c.Layout.Mute = core.Pick(r, []string{"out", "err", "all"})
			}
			if cmd != "check" {
				c.Prior = priorFor(r, m, cmd)
			}
			c.Note = "bad"
			var what string
			c.Files, what = spoil(r, files)
			c.Damage = []string{what}
			if !run(&c) {
				return nil
			}
		}
	case "C03":
		if r.Chance(1, 2) {
			cmd = "check"
		} else if r.Chance(1, 2) {
			cmd = "openapi"
		}
		if r.Chance(1, 2) { // regular layout
			st.Rng = nil
			files = m.Render(st)
		}
		var texts []string
		for _, k := range sortedKeys(files) {
			texts = append(texts, files[k])
		}
		keys := sortedKeys(files)
		for i := 0; i < 24; i++ {
			c := &Scenario{Prop: "C03", Cmd: cmd, Layout: DefaultLayout(), Files: map[string]string{}}
			c.Layout.Seed = r.Next()
			for k, v := range files {
				c.Files[k] = v
			}
			for n := 1 + r.Intn(8)/7; n > 0; n-- {
				k := core.Pick(r, keys)
				var what string
				c.Files[k], what = damage(r, c.Files[k], texts)
				c.Damage = append(c.Damage, what+" of "+k)
			}
			if cmd != "check" {
				c.Prior = priorFor(r, m, cmd)
			}
			if !run(c) {
				return nil
			}
		}
	case "C04":
		if size == 0 && r.Chance(1, 3) {
			m, st = GenModel(r, 1+r.Intn(2))
			files = m.Render(st)
		}
		base := DefaultLayout()
		for i := 0; i < 8; i++ {
			alt := DefaultLayout()
			c := &Scenario{Prop: "C04", Cmd: cmd, Layout: base, Files: files, Alt: &alt}
			var notes []string
			// Always the hash seed; the others in random combinations.
			alt.Seed = r.Next()
			notes = append(notes, "hash seed")
			if r.Bool() {
				alt.ListSeed = r.Next() | 1
				notes = append(notes, "directory order")
			}
			if r.Bool() {
				alt.World = r.Next() >> 1
				notes = append(notes, "clock, process ids and pace")
			}
			if r.Chance(1, 3) {
				alt.Yield = r.Next() | 1
				notes = append(notes, "goroutine order")
			}
			if r.Chance(1, 3) {
				alt.Cwd = core.Pick(r, []string{"/elsewhere", "/home/u/deep/er", "/w p"})
				alt.ModelArg = core.Pick(r, []string{"model", "./model", "/abs/model", "../m"})
				alt.OutArg = core.Pick(r, []string{"out", "./out/", "/abs/out", "../o/p"})
				alt.Tmp = core.Pick(r, []string{"/tmp", "/var/tmp", "/t/u"})
				notes = append(notes, "locations")
			}
			if r.Chance(1, 3) {
				alt.Env = append([]string{"LANG=tr_TR.UTF-8", "TZ=Asia/Tokyo", "USER=other", "GOPATH=/x", "SOURCE_DATE_EPOCH=1"}, alt.Env...)
				for _, k := range otherEnv {
					if r.Chance(1, 2) {
						alt.Env = append(alt.Env, k+"="+core.Pick(r, []string{"1", "true", "x", "7f3c", "release-9"}))
					}
				}
				alt.Host = "otherhost"
				notes = append(notes, "environment")
			}
			if r.Chance(1, 4) {
				alt.NoModule = true
				notes = append(notes, "output outside the module")
			}
			if r.Chance(1, 4) {
				c.Prior = priorFor(r, m, cmd)
				notes = append(notes, "older output")
			}
			if r.Chance(1, 4) {
				for n := 1 + r.Intn(3); n > 0; n-- {
					c.Faults = append(c.Faults, world.Fault{At: 1 + r.Intn(400), Kind: "jump", Arg: r.Intn(2000000) - 1000000})
				}
				notes = append(notes, "clock jumps")
			}
			if r.Chance(1, 4) {
				for n := 1 + r.Intn(4); n > 0; n-- {
					c.Faults = append(c.Faults, world.Fault{Op: core.Pick(r, []string{"write", "read"}), Area: core.Pick(r, []string{"output", "temp", "model"}), Nth: 1 + r.Intn(20), Kind: core.Pick(r, []string{"short", "eintr"}), Arg: r.Intn(3)})
				}
				notes = append(notes, "short reads and writes")
			}
			c.Note = strings.Join(notes, ", ")
			if !run(c) {
				return nil
			}
		}
	case "C05":
		sc := &Scenario{Prop: "C05", Cmd: cmd, Layout: layoutFor(r, m), Files: files}
		base, err := s.alone(sc)
		if err != nil {
			return err
		}
		if base.Exit != 0 {
			return nil
		}
		var om map[string]string
		for i := 0; i < 10; i++ {
			c := *sc
			for n := 1 + r.Intn(5)/3; n > 0; n-- {
				var in Interrupted
				switch r.Intn(8) {
				case 0: // fails with an error
					if ss := sites(base.Ops, faultable); len(ss) > 0 {
						in.Faults = append(in.Faults, writeFault(r, pickSite(r, ss)))
					}
				case 1: // completes
				default:
					at := 1 + r.Intn(len(base.Ops))
					if r.Bool() { // in the part that writes
						ws := []int{}
						for _, o := range base.Ops {
							if o.Mod || o.Op == "fmt" || o.Op == "close-w" {
								ws = append(ws, o.N)
							}
						}
						if len(ws) > 0 {
							at = core.Pick(r, ws)
						}
					}
					in.Faults = append(in.Faults, world.Fault{At: at, Kind: core.Pick(r, []string{"crash", "crash-mid", "crash-mid", "crash-after"}), Arg: r.Intn(1000)})
				}
				if r.Chance(1, 3) {
					in.Power = r.Next() | 1
				}
				if r.Chance(1, 8) {
					if om == nil {
						o, ost := GenModel(r.Fork(), 0)
						om = o.Render(ost)
					}
					in = Interrupted{Files: smaller(r, m)} // a smaller version of the same model
					if r.Bool() {                          // any other model, complete and safe
						in = Interrupted{Files: om}
						c.Runs = []Interrupted{in}
						break
					}
				}
				c.Runs = append(c.Runs, in)
			}
			if r.Chance(1, 6) {
				c.Prior = priorFor(r, m, cmd)
			}
			if !run(&c) {
				return nil
			}
		}
	case "C06":
		if r.Chance(1, 5) {
			cmd = "check"
		}
		sc := &Scenario{Prop: "C06", Cmd: cmd, Layout: layoutFor(r, m), Files: files, Foreign: map[string]string{}}
		l := sc.Layout
		sc.Foreign[l.Tmp+"/openapi"] = "mine"
		sc.Foreign[l.Tmp+"/openapi123/x.json"] = "{}"
		sc.Foreign[l.Tmp+"/other.txt"] = "mine"
		sc.Foreign[path.Dir(l.OutDir())+"/neighbour.go"] = "package neighbour"
		sc.Foreign[l.Cwd+"/openapi/keep.json"] = "{}"
		sc.Foreign[path.Join(l.ModelDir(), "NOTES.txt")] = "notes"
		sc.Foreign[path.Join(l.Cwd, core.Pick(r, []string{"go.mod", "model.bak", "out.tar", "x.log", "goimports.log", "openapi.json"}))] = "mine"
		base, err := s.alone(sc)
		if err != nil {
			return err
		}
		ss := sites(base.Ops, func(o world.Op) bool {
			return o.Op == "fmt" || o.Op == "spawn" || (errnosFor[o.Op] != nil && o.Errno == 0 && o.Area != "other")
		})
		rs := sites(base.Ops, func(o world.Op) bool { return o.Op == "unlink" && o.Area == "temp" && o.Errno == 0 })
		for i := 0; i < 12; i++ {
			c := *sc
			if cmd != "check" {
				c.Prior = priorFor(r, m, cmd)
			}
			if r.Chance(1, 6) {
				c.Files, _ = spoil(r, files)
			}
			if i > 0 && len(ss) > 0 {
				for n := 1 + r.Intn(5)/4; n > 0; n-- {
					c.Faults = append(c.Faults, writeFault(r, pickSite(r, ss)))
				}
				if len(rs) > 0 && r.Chance(1, 3) { // and what it leaves behind can't be removed
					f := writeFault(r, pickSite(r, rs))
					f.Sticky = core.Pick(r, []string{"path", "class", "class"})
					c.Faults = append(c.Faults, f)
				}
			}
			if !run(&c) {
				return nil
			}
		}
	case "C07":
		n := 2 + r.Intn(5)/4
		sc := &Scenario{Prop: "C07", Cmd: "go"}
		m2, st2 := GenModel(r.Fork(), 0)
		files2 := m2.Render(st2)
		for i := 0; i < n; i++ {
			l := DefaultLayout()
			l.Cwd = fmt.Sprintf("/work%d", i)
			l.Seed = r.Next()
			if i > 0 && r.Bool() {
				l.Seed = sc.Procs[0].Layout.Seed // the same random names
			}
			l.World, l.ListSeed = 1, 0
			pp := ProcPlan{Cmd: core.Pick(r, []string{"go", "go", "go", "openapi", "docs", "check"}), Layout: l, Files: files}
			if r.Chance(1, 3) {
				pp.Files = files2
			}
			if r.Chance(1, 3) {
				pp.Layout.ModelArg = "/shared/model"
				pp.Files = files
			}
			if r.Chance(1, 3) { // different directories of the same working directory
				pp.Layout.Cwd = "/work"
				pp.Layout.OutArg = fmt.Sprintf("out%d", i)
				pp.Layout.ModelArg = fmt.Sprintf("model%d", i)
			}
			sc.Procs = append(sc.Procs, pp)
		}
		for i := 0; i < 5; i++ {
			c := *sc
			c.Procs = append([]ProcPlan{}, sc.Procs...)
			if r.Chance(1, 3) {
				one := &Scenario{Cmd: c.Procs[0].Cmd, Layout: c.Procs[0].Layout, Files: c.Procs[0].Files}
				b, err := s.alone(one)
				if err != nil {
					return err
				}
				c.Procs[0].Crash = 1 + r.Intn(len(b.Ops))
			}
			if r.Chance(1, 2) {
				c.Foreign = map[string]string{}
				for j := 0; j < 3; j++ {
					d := fmt.Sprintf("/tmp/openapi%d", r.Intn(1<<30))
					for _, k := range sortedKeys(files) {
						p := strings.Split(k, "/")
						c.Foreign[d+"/"+p[0]+"/"+p[1]+"/openapi.json"] = "{\"stale\": true}"
					}
				}
			}
			style := r.Intn(3)
			for tot := 0; tot < 6000; {
				b := Burst{P: r.Intn(n)}
				switch style {
				case 0:
					b.N = 1 + r.Intn(3)
				case 1:
					b.N = 1 + r.Intn(60)
				default:
					b.N = 1 + r.Intn(400)
				}
				tot += b.N
				c.Picks = append(c.Picks, b)
			}
			if !run(&c) {
				return nil
			}
		}
	}
	return nil
}

// spoil puts an error in one file of a model.
func spoil(r *core.Rng, files map[string]string) (map[string]string, string) {
	out := map[string]string{}
	for k, v := range files {
		out[k] = v
	}
	keys := sortedKeys(files)
	k := core.Pick(r, keys)
	if r.Chance(1, 3) {
		k = keys[len(keys)-1]
	}
	bad := core.Pick(r, badTexts)
	out[k] += "\n" + bad[1] + "\n"
	return out, bad[0] + " in " + k
}

// badTexts are mistakes: each of them makes any model wrong.
var badTexts = [][2]string{
	{"undefined type", "struct Qwerty { Field Undefinable }"},
	{"undefined type", "struct Qwerty { Field []Undefinable }"},
	{"undefined type", "struct Qwerty { Field [String]Undefinable }"},
	{"undefined link", "class Qwerty { link Field Undefinable }"},
	{"undefined resource", "resource Qwerty { locator Field { target Undefinable } }"},
	{"undefined parameter type", "resource Qwerty { method Asdf { in Field Undefinable } }"},
	{"undefined reference", "@ref(path = \"/undefinable/v1/thing\")\nclass Qwerty { }"},
	{"wrong reference", "@ref(path = \"undefinable\")\nclass Qwerty { }"},
	{"locator without target", "resource Qwerty { locator Field { } }"},
	{"duplicated type", "struct Qwerty { Field String }\nstruct Qwerty { Field String }"},
	{"duplicated type", "enum Qwerty { One }\nstruct Qwerty { Field String }"},
	{"duplicated type", "struct Qwerty { Field String }\nclass Qwerty { Field String }"},
	{"duplicated type", "struct Qwerty { Field String }\nenum Qwerty { One Two }"},
	{"duplicated resource", "resource Qwerty { }\nresource Qwerty { }"},
	{"duplicated error", "error Qwerty { code 1 }\nerror Qwerty { code 2 }"},
	{"wrong code", "error Qwerty { code 99999999999999999999 }"},
	{"unfinished text", "struct Qwerty { Field String"},
	{"unfinished text", "struct Qwerty { Field"},
	{"unfinished text", "struct"},
	{"unexpected text", "}"},
	{"unexpected text", "Qwerty { Field String }"},
	{"unexpected text", "struct Qwerty { Field String } %"},
	{"wrong comment", "/* unfinished"},
	{"list without size of the right type", "struct Qwerty { Field String }\nresource QwertyList { method List { in out Page Integer = 1 in out Size String out Total Integer out Items []Qwerty } }"},
	{"list with wrong default", "struct Qwerty { Field String }\nresource QwertyList { method List { in out Page Integer = 7 in out Size Integer = 100 out Total Integer out Items []Qwerty } }"},
	{"list with wrong direction", "struct Qwerty { Field String }\nresource QwertyList { method List { in out Page Integer = 1 in out Size Integer = 100 in Total Integer out Items []Qwerty } }"},
	{"list with input items", "struct Qwerty { Field String }\nresource QwertyList { method List { in out Page Integer = 1 in out Size Integer = 100 out Total Integer in Items []Qwerty } }"},
	{"list without items", "resource QwertyList { method List { in out Page Integer = 1 in out Size Integer = 100 out Total Integer } }"},
	{"list with other name for items", "struct Qwerty { Field String }\nresource QwertyList { method List { in out Page Integer = 1 in out Size Integer = 100 out Total Integer out Things []Qwerty } }"},
	{"add without body", "resource QwertyList { method Add { in Field String } }"},
	{"add with output body only", "struct Qwerty { Field String }\nresource QwertyList { method Add { out Body Qwerty } }"},
	{"add with other name for body", "struct Qwerty { Field String }\nresource QwertyList { method Add { in out Thing Qwerty } }"},
	{"add with two bodies", "struct Qwerty { Field String }\nresource QwertyList { method Add { in out Body Qwerty in out Corpse Qwerty } }"},
	{"add with list", "struct Qwerty { Field String }\nresource QwertyList { method Add { in out Body []Qwerty } }"},
	{"get with input body", "struct Qwerty { Field String }\nresource Qwerty { method Get { in Body Qwerty } }"},
	{"get without body", "resource Qwerty { method Get { in Field String } }"},
	{"get with other name for body", "struct Qwerty { Field String }\nresource Qwerty { method Get { out Thing Qwerty } }"},
	{"get with output scalar", "struct Qwerty { Field String }\nresource Qwerty { method Get { out Field String out Body Qwerty } }"},
	{"delete with output", "resource Qwerty { method Delete { out Field String } }"},
	{"delete with struct", "struct Qwerty { Field String }\nresource Qwerty { method Delete { in Field Qwerty } }"},
	{"update with input body", "struct Qwerty { Field String }\nresource Qwerty { method Update { in Body Qwerty } }"},
	{"update without body", "resource Qwerty { method Update { in Field String } }"},
	{"update with output scalar", "struct Qwerty { Field String }\nresource Qwerty { method Update { out Field String in out Body Qwerty } }"},
	{"post with two inputs", "struct Qwerty { Field String }\nresource Qwerty { method Post { in Request Qwerty in Other Qwerty out Response Qwerty } }"},
	{"post with scalar", "resource Qwerty { method Post { in Request String } }"},
	{"search without body", "struct Qwerty { Field String }\nresource QwertyList { method Search { in out Page Integer = 1 in out Size Integer = 100 out Total Integer out Items []Qwerty } }"},
	{"search with output body", "struct Qwerty { Field String }\nresource QwertyList { method Search { in out Page Integer = 1 in out Size Integer = 100 out Total Integer in out Body Qwerty out Items []Qwerty } }"},
	{"default of other type", "resource Qwerty { method Asdf { in Field Integer = \"text\" } }"},
	{"default of other type", "resource Qwerty { method Asdf { in Field String = true } }"},
	{"default of other type", "resource Qwerty { method Asdf { in Field Boolean = 1 } }"},
	{"wrong integer", "resource Qwerty { method Asdf { in Field Integer = 99999999999999999999 } }"},
}

// smaller removes some members from a model.
func smaller(r *core.Rng, m *mm.Model) map[string]string {
	files := m.Render(mm.Style{})
	c, err := mm.ParseModel(files)
	if err != nil {
		return files
	}
	for _, s := range c.Services {
		for _, v := range s.Versions {
			for _, d := range v.Decls("class struct") {
				if len(d.Members) > 1 {
					d.Members = d.Members[:1+r.Intn(len(d.Members))]
				}
			}
		}
	}
	return c.Render(mm.Style{})
}

func clone(sc *Scenario) *Scenario {
	data, _ := json.Marshal(sc)
	c := &Scenario{}
	json.Unmarshal(data, c)
	return c
}

// Shrink proposes simpler scenarios.
func (s *Sim) Shrink(x any) []any {
	sc := x.(*Scenario)
	var out []any
	add := func(f func(c *Scenario) bool) {
		c := clone(sc)
		if f(c) {
			out = append(out, c)
		}
	}
	for i := range sc.Faults {
		if len(sc.Faults) > 1 {
			add(func(c *Scenario) bool { c.Faults = append(c.Faults[:i], c.Faults[i+1:]...); return true })
		}
	}
	for i := range sc.Runs {
		add(func(c *Scenario) bool { c.Runs = append(c.Runs[:i], c.Runs[i+1:]...); return true })
		if sc.Runs[i].Power != 0 {
			add(func(c *Scenario) bool { c.Runs[i].Power = 0; return true })
		}
	}
	add(func(c *Scenario) bool { c.Layout.Mute = ""; return sc.Layout.Mute != "" })
	if len(sc.Prior) > 0 {
		add(func(c *Scenario) bool { c.Prior = nil; return true })
		for _, k := range sortedKeys(sc.Prior) {
			add(func(c *Scenario) bool { delete(c.Prior, k); return len(c.Prior) > 0 })
		}
	}
	if len(sc.Foreign) > 0 && sc.Prop != "C06" {
		add(func(c *Scenario) bool { c.Foreign = nil; return true })
	}
	if sc.Prop == "C07" {
		if len(sc.Procs) > 2 {
			for i := range sc.Procs {
				add(func(c *Scenario) bool {
					c.Procs = append(c.Procs[:i], c.Procs[i+1:]...)
					for j := range c.Picks {
						if c.Picks[j].P >= i && c.Picks[j].P > 0 {
							c.Picks[j].P--
						}
					}
					return true
				})
			}
		}
		for i := range sc.Procs {
			if sc.Procs[i].Crash > 0 {
				add(func(c *Scenario) bool { c.Procs[i].Crash = 0; return true })
			}
			for _, f := range smallerFiles(sc.Procs[i].Files) {
				add(func(c *Scenario) bool {
					old := hashMap(1, sc.Procs[i].Files)
					for j := range c.Procs {
						if hashMap(1, c.Procs[j].Files) == old {
							c.Procs[j].Files = f
						}
					}
					return true
				})
			}
		}
		if n := len(sc.Picks); n > 0 {
			add(func(c *Scenario) bool { c.Picks = c.Picks[:n/2]; return true })
			add(func(c *Scenario) bool { c.Picks = c.Picks[n/2:]; return n > 1 })
			for i := 0; i+1 < n && i < 40; i++ { // fewer switches
				add(func(c *Scenario) bool {
					c.Picks[i].N += c.Picks[i+1].N
					c.Picks = append(c.Picks[:i+1], c.Picks[i+2:]...)
					return true
				})
			}
		}
		return out
	}
	if sc.Alt != nil {
		d := DefaultLayout()
		add(func(c *Scenario) bool { c.Faults = nil; return len(sc.Faults) > 0 })
		add(func(c *Scenario) bool { c.Alt.Env, c.Alt.Host = d.Env, d.Host; return len(sc.Alt.Env) != len(d.Env) })
		add(func(c *Scenario) bool {
			c.Alt.Cwd, c.Alt.ModelArg, c.Alt.OutArg, c.Alt.Tmp = d.Cwd, d.ModelArg, d.OutArg, d.Tmp
			return sc.Alt.Cwd != d.Cwd
		})
		add(func(c *Scenario) bool { c.Alt.Yield = 0; return sc.Alt.Yield != 0 })
		add(func(c *Scenario) bool { c.Alt.ListSeed = 0; return sc.Alt.ListSeed != 0 })
		add(func(c *Scenario) bool { c.Alt.World = d.World; return sc.Alt.World != d.World })
		add(func(c *Scenario) bool { c.Alt.Seed = d.Seed; return sc.Alt.Seed != d.Seed })
	} else if sc.Layout.Cwd != "/work" || sc.Layout.Tmp != "/tmp" || sc.Layout.OutArg != "out" {
		if len(sc.Foreign) == 0 {
			add(func(c *Scenario) bool {
				d := DefaultLayout()
				d.Seed, d.World = c.Layout.Seed, c.Layout.World
				c.Layout = d
				return true
			})
		}
	}
	if sc.Prop == "C03" {
		for _, k := range sortedKeys(sc.Files) {
			lines := strings.SplitAfter(sc.Files[k], "\n")
			for size := len(lines); size >= 1; size /= 2 {
				for at := 0; at+size <= len(lines); at += size {
					add(func(c *Scenario) bool {
						t := strings.Join(append(append([]string{}, lines[:at]...), lines[at+size:]...), "")
						if t == "" && len(c.Files) > 1 {
							delete(c.Files, k)
						} else {
							c.Files[k] = t
						}
						return true
					})
				}
			}
		}
		return out
	}
	for _, f := range smallerFiles(sc.Files) {
		add(func(c *Scenario) bool { c.Files = f; return true })
	}
	return out
}

// smallerFiles proposes smaller models.
func smallerFiles(files map[string]string) []map[string]string {
	var out []map[string]string
	try := func(f func(m *mm.Model) bool) {
		m, err := mm.ParseModel(files)
		if err != nil {
			return
		}
		if f(m) && len(m.Undefined()) == 0 {
			out = append(out, m.Render(mm.Style{}))
		}
	}
	m, err := mm.ParseModel(files)
	if err != nil {
		return nil
	}
	for i, s := range m.Services {
		if len(m.Services) > 1 {
			try(func(m *mm.Model) bool { m.Services = append(m.Services[:i], m.Services[i+1:]...); return true })
		}
		for j, v := range s.Versions {
			if len(s.Versions) > 1 {
				try(func(m *mm.Model) bool {
					s := m.Services[i]
					s.Versions = append(s.Versions[:j], s.Versions[j+1:]...)
					return true
				})
			}
			for k, f := range v.Files {
				for l, d := range f.Decls {
					try(func(m *mm.Model) bool {
						f := m.Services[i].Versions[j].Files[k]
						f.Decls = append(f.Decls[:l], f.Decls[l+1:]...)
						return d.Name != "Root"
					})
					if len(d.Members) > 3 {
						try(func(m *mm.Model) bool {
							d := m.Services[i].Versions[j].Files[k].Decls[l]
							d.Members = d.Members[:len(d.Members)/2]
							return true
						})
					}
					for n := range d.Members {
						if len(d.Members) > 1 || d.Kind == "resource" {
							try(func(m *mm.Model) bool {
								d := m.Services[i].Versions[j].Files[k].Decls[l]
								d.Members = append(d.Members[:n], d.Members[n+1:]...)
								return true
							})
						}
					}
				}
			}
		}
	}
	return out
}

func init() {
	for _, l := range errnosFor {
		for _, e := range l {
			if world.Errnos[e] == 0 {
				panic("unknown error " + e)
			}
		}
	}
}
