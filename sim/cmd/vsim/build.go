package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"verif/sim/gen"
)

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOEXPERIMENT", "GODEBUG", "GOCACHE", "GOARCH", "GOOS", "GORACE", "GOMAXPROCS", "GOTRACEBACK", "GOGC":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOEXPERIMENT=norandomizedheapbase64",
		"GOCACHE="+filepath.Join(verif, ".work", "gocache"))
}

// build generates the overlay from the current tree and compiles the worker.
func build(race bool) (string, error) {
	work := filepath.Join(verif, ".work")
	if err := os.MkdirAll(work, 0o755); err != nil {
		return "", err
	}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", fmt.Errorf("go env: %w", err)
	}
	ov := filepath.Join(work, "ov")
	os.RemoveAll(filepath.Join(ov, "src"))
	rep := map[string]string{}
	if err := gen.Std(strings.TrimSpace(string(out)), filepath.Join(verif, "sim"), ov, rep); err != nil {
		return "", err
	}
	if _, err := gen.Instrument(repo, []string{".", "kademlia", "gossip"}, ov, rep); err != nil {
		return "", err
	}
	oj := filepath.Join(ov, "overlay.json")
	if err := gen.WriteOverlay(oj, rep); err != nil {
		return "", err
	}
	bin := filepath.Join(work, "worker")
	args := []string{"build", "-overlay", oj}
	if race {
		bin += "-race"
		args = append(args, "-race")
	}
	if repo != "/repo" {
		mod := filepath.Join(work, "alt.mod")
		b, err := os.ReadFile(filepath.Join(verif, "sim", "go.mod"))
		if err != nil {
			return "", err
		}
		os.WriteFile(mod, []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+repo)), 0o644)
		b, _ = os.ReadFile(filepath.Join(verif, "sim", "go.sum"))
		os.WriteFile(filepath.Join(work, "alt.sum"), b, 0o644)
		args = append(args, "-modfile", mod)
		bin += "-alt"
	}
	args = append(args, "-o", bin, "./worker")
	c := exec.Command("go", args...)
	c.Dir = filepath.Join(verif, "sim")
	c.Env = goEnv()
	if o, err := c.CombinedOutput(); err != nil {
		return "", fmt.Errorf("build failed: %v\n%s", err, o)
	}
	return bin, nil
}
