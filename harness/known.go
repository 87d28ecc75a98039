package main

import (
	"bufio"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

// Finding is one listed genuine defect of the library.
type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
}

var knownFindings = map[string]Finding{}

// loadKnown reads the committed known-findings file. Lines starting with
// "fixed:" or "#" suppress nothing.
func loadKnown() error {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k Finding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return err
		}
		knownFindings[k.ID] = k
	}
	return sc.Err()
}
