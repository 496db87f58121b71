package ex

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// Racing tells that this process is the race-detecting pass of a check: the
// same controlled executions in a build with the race detector, from which the
// explorer's own synchronisation is hidden.
func Racing() bool { return os.Getenv("MC_RACE") != "" }

// racePass runs that pass and judges what the detector reported.
func racePass(id, bin string) int {
	dir, err := os.MkdirTemp("", "race")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(bin, "run", id)
	cmd.Env = append(os.Environ(), "MC_CHILD=1", "MC_RACE=1", "VERIF_DIR="+dir, "GOTRACEBACK=single",
		"GORACE=log_path="+filepath.Join(dir, "race")+" exitcode=0 history_size=3")
	var out bytes.Buffer
	cmd.Stdout = &limited{w: &out, n: 1 << 20}
	cmd.Stderr = &limited{w: &out, n: 1 << 20}
	err = cmd.Run()
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	var all []byte
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		all = append(all, b...)
	}
	reports, skipped := raceReports(string(all))
	if len(reports) > 0 {
		p := replayPath(id)
		b, _ := json.MarshalIndent(map[string]any{"property": id, "data_races": reports}, "", " ")
		_ = os.WriteFile(p, b, 0o644)
		fmt.Printf("data race in the code under test:\n%s\n", reports[0])
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		return 1
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "race pass ended with %v and no data race\n%s\n", err, tail(out.String(), 2000))
		return 0
	}
	// add what it covered to the evidence
	b, err := os.ReadFile(filepath.Join(dir, "evidence", id+".json"))
	if err != nil {
		return 0
	}
	var rev, ev map[string]any
	if json.Unmarshal(b, &rev) != nil {
		return 0
	}
	if b, err = os.ReadFile(evidencePath(id)); err != nil || json.Unmarshal(b, &ev) != nil {
		return 0
	}
	cov, _ := ev["coverage"].(map[string]any)
	rcov, _ := rev["coverage"].(map[string]any)
	if cov != nil && rcov != nil {
		cov["race_pass"] = map[string]any{"scenarios": rcov["scenarios"], "transitions": rcov["transitions"], "exhaustive": rcov["exhaustive"], "reports": 0, "reports_inside_the_harness": skipped}
		if b, err = json.MarshalIndent(ev, "", " "); err == nil {
			_ = os.WriteFile(evidencePath(id), b, 0o644)
		}
	}
	lines := strings.Split(strings.TrimSpace(out.String()), "\n")
	fmt.Println("race pass:", lines[len(lines)-1])
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var accessRE = regexp.MustCompile(`^(Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic read|Previous atomic write) at `)

// raceReports picks the reports about the code under test: at least one access
// is outside the harness and none inside the explorer itself.
func raceReports(log string) (out []string, skipped int) {
	for _, rep := range strings.Split(log, "WARNING: DATA RACE") {
		var frames []string
		lines := strings.Split(rep, "\n")
		for i := 0; i < len(lines); i++ {
			if !accessRE.MatchString(lines[i]) {
				continue
			}
			f := "?"
			for j := i + 1; j < len(lines) && strings.HasPrefix(lines[j], "  "); j++ {
				if strings.HasPrefix(lines[j], "      ") { // file line
					continue
				}
				f = strings.TrimSpace(lines[j])
				if !strings.HasPrefix(f, "runtime.") && !strings.HasPrefix(f, "reflect.") && !strings.HasPrefix(f, "sync.") && !strings.HasPrefix(f, "internal/") && !strings.HasPrefix(f, "sync/") && !strings.HasPrefix(f, "sort.") && !strings.HasPrefix(f, "slices.") {
					break
				}
			}
			frames = append(frames, f)
		}
		if len(frames) < 2 {
			continue
		}
		own, harness := false, 0
		for _, f := range frames[:2] {
			switch {
			case f == "?":
				own = true
			case strings.Contains(f, "go-unixfs/zzverif/checks"):
				harness++
			case strings.Contains(f, "go-unixfs/zzverif/"):
				own = true
			}
		}
		if own || harness == 2 {
			skipped++
			continue
		}
		out = append(out, strings.TrimSpace(strings.Trim(rep, "=\n ")))
	}
	return out, skipped
}
