package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

const technique = "bounded symbolic execution of the Go SSA form of the real code; an SMT solver (z3) decides every assertion; counterexamples replayed on the compiled code"

// manifestMain writes MANIFEST.json from the registered checks.
func manifestMain(root string) {
	type check struct {
		Property  string `json:"property"`
		Quick     string `json:"quick_cmd"`
		Thorough  string `json:"thorough_cmd"`
		Technique string `json:"technique"`
		Level     string `json:"level"`
		Note      string `json:"level_note"`
	}
	var na []map[string]string
	for _, n := range notApplicable {
		na = append(na, map[string]string{"property": n[0], "reason": n[1]})
	}
	if na == nil {
		na = []map[string]string{}
	}
	var cs []check
	for _, p := range props {
		note := p.Note
		if note == "" {
			note = "Every value within the bounds: "
			for i, b := range p.Bounds {
				if i > 0 {
					note += "; "
				}
				note += b
			}
		}
		cs = append(cs, check{p.ID, "bash check.sh " + p.ID, "bash check.sh " + p.ID + " thorough", technique, "model_checking", note})
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"version": 1, "setup_cmd": "bash setup.sh", "checks": cs, "not_applicable": na}, "", " ")
	if err := os.WriteFile(filepath.Join(root, "MANIFEST.json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
