package core

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/sim/internal/ov"
)

// Repo is the tree under test.
var Repo = "/repo"

// Home is the directory of the simulator's sources.
var Home = "/verif/sim"

// Copies of both trees are used only to try the checks against planted bugs.
func init() {
	if dir := os.Getenv("VSIM_REPO"); dir != "" {
		Repo = dir
	}
	if dir := os.Getenv("VSIM_HOME"); dir != "" {
		Home = dir
	}
}

// GoEnv is the environment for the go command.
func GoEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GOWORK", "GODEBUG", "GOEXPERIMENT", "GOOS", "GOARCH":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
}

// GoRun runs the go command.
func GoRun(dir string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = GoEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return string(out), fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return string(out), nil
}

// GoRoot asks the go command for its root.
func GoRoot() (string, error) {
	out, err := GoRun("/", "env", "GOROOT")
	return strings.TrimSpace(out), err
}

// BuildTool builds the tool of the tree under test with every system call connected to the simulator.
func BuildTool(scratch string) (string, error) {
	root, err := GoRoot()
	if err != nil {
		return "", err
	}
	o := ov.New(filepath.Join(scratch, "overlay"), root)
	if err := o.Std(); err != nil {
		return "", err
	}
	dir := filepath.Join(Repo, "cmd/metamodel")
	if err := o.RenameMain(dir, "metamodelMain"); err != nil {
		return "", err
	}
	child, err := os.ReadFile(filepath.Join(Home, "_child/child.go"))
	if err != nil {
		return "", err
	}
	o.Set(filepath.Join(dir, "zz_verif_child.go"), string(child))
	file, err := o.Write()
	if err != nil {
		return "", err
	}
	bin := filepath.Join(scratch, "metamodel-sim")
	_, err = GoRun(Repo, "build", "-overlay", file, "-o", bin, "./cmd/metamodel")
	return bin, err
}
