package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// nativeBin builds and runs the replay binary of one package: the real code,
// compiled by the Go toolchain, with the harness and the vp runtime overlaid.
type nativeBin struct {
	root, repo, pkg string
	dir             string
	fns             []string
	dropped         map[string]bool
	race            bool
	once            sync.Once
	bin             string
	err             error
	n               int
	mu              sync.Mutex
}

func modDir(repo, mod string) string {
	cmd := exec.Command("go", "list", "-mod=mod", "-m", "-f", "{{.Dir}}", mod)
	cmd.Dir = repo
	b, err := cmd.Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(b))
}

func (n *nativeBin) build() error {
	n.once.Do(func() { n.err = n.build1() })
	return n.err
}

func (n *nativeBin) build1() error {
	ov, err := harnessOverlay(n.root, n.repo, n.pkg, true, n.dropped)
	if err != nil {
		return err
	}
	wd := filepath.Join(n.dir, strings.ReplaceAll(n.pkg, "/", "_"))
	if err := os.MkdirAll(wd, 0o755); err != nil {
		return err
	}
	rep := map[string]string{}
	i := 0
	put := func(path string, b []byte) {
		i++
		f := filepath.Join(wd, fmt.Sprintf("f%d.go", i))
		os.WriteFile(f, b, 0o644)
		rep[path] = f
	}
	for p, b := range ov {
		put(p, b)
	}
	// the package's own tests are left out
	ents, _ := os.ReadDir(filepath.Join(n.repo, n.pkg))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			rep[filepath.Join(n.repo, n.pkg, e.Name())] = ""
		}
	}
	name, err := packageName(filepath.Join(n.repo, n.pkg))
	if err != nil {
		return err
	}
	sort.Strings(n.fns)
	var t strings.Builder
	fmt.Fprintf(&t, "package %s\n\nimport \"testing\"\n\nfunc TestVP(t *testing.T) {\n\tvpT = t\n\tvpRunJobs(map[string]func(){\n", name)
	for _, f := range n.fns {
		fmt.Fprintf(&t, "\t\t%q: %s,\n", f, f)
	}
	t.WriteString("\t})\n}\n")
	put(filepath.Join(n.repo, n.pkg, "zz_vp_run_test.go"), []byte(t.String()))
	// the random source of the tag generator becomes an input
	modfile := ""
	if _, err := os.Stat(filepath.Join(n.root, "harness", n.pkg, "binutil_native.go")); err == nil {
		d := modDir(n.repo, "github.com/iomz/go-llrp")
		p := filepath.Join(d, "binutil", "binutil.go")
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		s := strings.ReplaceAll(string(b), "rand.Intn(", "VPIntn(")
		s += "\n// VPIntn supplies the random numbers of a replay.\nvar VPIntn = rand.Intn\n"
		cp := filepath.Join(wd, "go-llrp")
		filepath.Walk(d, func(f string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || strings.HasSuffix(f, "_test.go") || !strings.HasSuffix(f, ".go") && filepath.Base(f) != "go.mod" {
				return nil
			}
			rel, _ := filepath.Rel(d, f)
			c, err := os.ReadFile(f)
			if err != nil {
				return nil
			}
			if f == p {
				c = []byte(s)
			}
			os.MkdirAll(filepath.Dir(filepath.Join(cp, rel)), 0o755)
			return os.WriteFile(filepath.Join(cp, rel), c, 0o644)
		})
		gm, err := os.ReadFile(filepath.Join(n.repo, "go.mod"))
		if err != nil {
			return err
		}
		gs, _ := os.ReadFile(filepath.Join(n.repo, "go.sum"))
		modfile = filepath.Join(wd, "go.mod")
		os.WriteFile(modfile, append(gm, []byte("\nreplace github.com/iomz/go-llrp => "+cp+"\n")...), 0o644)
		os.WriteFile(filepath.Join(wd, "go.sum"), gs, 0o644)
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(wd, "overlay.json")
	os.WriteFile(ovf, js, 0o644)
	bin := filepath.Join(wd, "replay.test")
	args := []string{"test", "-c", "-vet=off", "-mod=mod", "-overlay", ovf, "-o", bin}
	if modfile != "" {
		args = append(args, "-modfile", modfile)
	}
	if n.race {
		args = append(args, "-race")
	}
	args = append(args, "./"+n.pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build of %s: %v\n%s", n.pkg, err, out)
	}
	n.bin = bin
	return nil
}

type nativeJob struct {
	Harness string     `json:"harness"`
	Case    int        `json:"case"`
	Tier    int        `json:"tier"`
	Inputs  []InputVal `json:"inputs"`
}

type outcome struct {
	Job   int      `json:"job"`
	End   string   `json:"end"`
	Msg   string   `json:"msg"`
	Obs   []string `json:"obs"`
	Known []string `json:"known"`
	Short bool     `json:"short"`
	Exit  bool     `json:"exit"`
}

// run executes the jobs and returns one outcome per job.
func (n *nativeBin) run(jobs []nativeJob, limit time.Duration) ([]outcome, error) {
	if err := n.build(); err != nil {
		return nil, err
	}
	n.mu.Lock()
	n.n++
	wd := filepath.Join(filepath.Dir(n.bin), fmt.Sprintf("run%d", n.n))
	n.mu.Unlock()
	if err := os.MkdirAll(wd, 0o755); err != nil {
		return nil, err
	}
	defer os.RemoveAll(wd)
	for i := range jobs {
		if jobs[i].Inputs == nil {
			jobs[i].Inputs = []InputVal{}
		}
	}
	js, _ := json.Marshal(jobs)
	jf := filepath.Join(wd, "jobs.json")
	os.WriteFile(jf, js, 0o644)
	res := make([]outcome, 0, len(jobs))
	end := time.Now().Add(limit)
	for len(res) < len(jobs) && time.Now().Before(end) {
		of := filepath.Join(wd, fmt.Sprintf("out%d", len(res)))
		ctx, cancel := context.WithDeadline(context.Background(), end)
		cmd := exec.CommandContext(ctx, n.bin, "-test.run", "^TestVP$", "-test.count=1", "-test.timeout=0")
		cmd.Dir = wd
		cmd.Env = append(os.Environ(), "VP_JOBS="+jf, "VP_OUT="+of, fmt.Sprintf("VP_START=%d", len(res)), "GORACE=halt_on_error=1")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		cmd.Stdout = &eb
		cmd.Run()
		cancel()
		b, _ := os.ReadFile(of)
		got := 0
		sc := bufio.NewScanner(bytes.NewReader(b))
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var o outcome
			if json.Unmarshal(sc.Bytes(), &o) == nil && o.Job == len(res) {
				res = append(res, o)
				got++
			}
		}
		last := ""
		if len(res) > 0 && !res[len(res)-1].Exit {
			last = res[len(res)-1].End
		}
		if got == 0 || (last == "ok" && len(res) < len(jobs)) {
			// the process died while running the next job
			msg := eb.String()
			if len(msg) > 2000 {
				msg = msg[len(msg)-2000:]
			}
			e := "crash"
			if strings.Contains(eb.String(), "all goroutines are asleep") {
				e = "deadlock"
			}
			if i := strings.Index(eb.String(), "WARNING: DATA RACE"); i >= 0 {
				e, msg = "crash", eb.String()[i:]
			}
			res = append(res, outcome{Job: len(res), End: e, Msg: msg})
		}
	}
	return res, nil
}
