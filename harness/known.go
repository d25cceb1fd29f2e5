package main

import (
	"bufio"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

// The known findings file has one JSON object per line (lines that start with # or
// "fixed:" are documentation). A finding is identified by the property, the suite
// and the exact probe (Kind) that fails: probes are fixed inputs, see DESIGN.md.
type knownFinding struct {
	Property string `json:"property"`
	Suite    string `json:"suite"`
	Kind     string `json:"kind"`
	What     string `json:"what"`
}

type knownSet []knownFinding

func loadKnown(prop string) (result knownSet) {
	f, err := os.Open(filepath.Join(verifDir, "known-findings.jsonl"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop {
			result = append(result, k)
		}
	}
	return
}

func (ks knownSet) match(f Failure) string {
	for _, k := range ks {
		if k.Suite == f.Suite && k.Kind == f.Kind {
			return k.What
		}
	}
	return ""
}
