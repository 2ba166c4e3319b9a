package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type finding struct {
	property, harness, msg, text string
}

// loadFindings parses lines "known: property=C01 harness=H_x msg="..." text".
func loadFindings(path string) (fs []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "known:"), "|", 4)
		if len(parts) != 4 {
			continue
		}
		for i := range parts {
			parts[i] = strings.TrimSpace(parts[i])
		}
		fs = append(fs, finding{strings.TrimPrefix(parts[0], "property="), parts[1], parts[2], parts[3]})
	}
	return
}

type violation struct {
	c       Candidate
	outcome string
	file    string
	known   *finding
}

type outcome struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Reach  []string `json:"reach"`
	Vals   []uint64 `json:"vals"`
	Line   int      `json:"line"`
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

// findHarnesses lists the harness functions of a package by scanning its source.
func findHarnesses(dir string) []string {
	var out []string
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func H_") {
				n := strings.TrimPrefix(l, "func ")
				if i := strings.IndexByte(n, '('); i > 0 {
					out = append(out, n[:i])
				}
			}
		}
	}
	return out
}

func buildReplay(verif, pkg, tmp string, hs []string) (string, error) {
	reg := "package main\n\nimport h \"verifh/h/" + pkg + "\"\n\nfunc init() {\n"
	for _, h := range hs {
		reg += fmt.Sprintf("\tregistry[%q] = h.%s\n", h, h)
	}
	reg += "}\n"
	rf := filepath.Join(tmp, "reg.go")
	if err := os.WriteFile(rf, []byte(reg), 0o644); err != nil {
		return "", err
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{filepath.Join(verif, "harness/cmd/replay/reg.go"): rf}})
	of := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(of, ov, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "replay")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./cmd/replay")
	cmd.Dir = filepath.Join(verif, "harness")
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building replay: %v\n%s", err, out)
	}
	return bin, nil
}

func runReplay(bin, mode, file string, limit time.Duration) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 12000000; exec \"$0\" \"$1\" \"$2\"", bin, mode, file)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GOTRACEBACK=all")
	cmd.WaitDelay = time.Second
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "OUTCOME ") {
			var o outcome
			if json.Unmarshal([]byte(l[8:]), &o) == nil {
				return o
			}
		}
	}
	if ctx.Err() != nil {
		return outcome{Status: "hang", Msg: "killed after " + limit.String()}
	}
	msg := se.String()
	if i := strings.IndexByte(msg, '\n'); i > 0 {
		msg = msg[:i]
	}
	if err != nil {
		return outcome{Status: "panic", Msg: msg}
	}
	return outcome{Status: "diverged", Msg: "no outcome"}
}

func main() {
	id := flag.String("id", "", "property id")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("only", "", "run only harnesses containing this text")
	verbose := flag.Bool("v", false, "verbose")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	limit := flag.Int("limit", 0, "time limit in seconds")
	prof := flag.String("prof", "", "cpu profile")
	cases := flag.String("cases", "", "comma separated case prefix (debug)")
	fast := flag.Bool("fast", false, "stop at the first counterexamples (development)")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := check(*id, *verif, *tier, *only, *cases, *verbose, *fast, *workers, *limit)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func check(id, verif, tier, only, cases string, verbose, fast bool, workers, limit int) int {
	t0 := time.Now()
	pkg := strings.ToLower(id)
	hs := findHarnesses(filepath.Join(verif, "harness/h", pkg))
	var sel []string
	for _, h := range hs {
		if only == "" || strings.Contains(h, only) {
			sel = append(sel, h)
		}
	}
	if len(sel) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", id)
		return 2
	}
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	var bin string
	var binErr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		bin, binErr = buildReplay(verif, pkg, tmp, hs)
	}()
	base, err := loadBase(filepath.Join(verif, "harness"), []string{"verifh/h/" + pkg, "verifh/model"}, goEnv())
	if err != nil {
		fmt.Fprintln(os.Stderr, "loading:", err)
		return 2
	}
	r := newRunner(base, tier)
	r.verbose = verbose
	r.fast = fast
	lim, job := 420*time.Second, 300*time.Second
	if tier == "thorough" {
		lim, job = 840*time.Second, 600*time.Second
	}
	if limit > 0 {
		lim = time.Duration(limit) * time.Second
		job = lim
	}
	r.deadline = t0.Add(lim)
	r.jobLimit = job
	for _, h := range sel {
		if base.harness[h] == nil {
			fmt.Fprintln(os.Stderr, "harness not found:", h)
			return 2
		}
		j := &Job{Harness: h, Tier: tier}
		if cases != "" {
			for _, c := range strings.Split(cases, ",") {
				n, _ := strconv.Atoi(c)
				j.Cases = append(j.Cases, n)
			}
		}
		r.push(j)
	}
	r.runAll(workers)
	exploreTime := time.Since(t0)
	wg.Wait()
	if binErr != nil {
		fmt.Fprintln(os.Stderr, binErr)
		return 2
	}
	// replay counterexamples
	finds := loadFindings(filepath.Join(verif, "known-findings.txt"))
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(evdir, "replay"), 0o755)
	old, _ := filepath.Glob(filepath.Join(evdir, "replay", id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	var viols []violation
	var unrepro []string
	done := map[string]bool{}
	sort.SliceStable(r.cands, func(a, b int) bool { return len(r.cands[a].Trace.Vals) < len(r.cands[b].Trace.Vals) })
	results := make([]outcome, len(r.cands))
	files := make([]string, len(r.cands))
	sem := make(chan bool, 4)
	var rw sync.WaitGroup
	var jitter sync.Once
	var bin2 string
	var jitterErr error
	for i := range r.cands {
		i := i
		rw.Add(1)
		go func() {
			defer rw.Done()
			sem <- true
			defer func() { <-sem }()
			c := r.cands[i]
			f := filepath.Join(evdir, "replay", fmt.Sprintf("%s-%d.json", id, i))
			files[i] = f
			b, _ := json.MarshalIndent(map[string]interface{}{"harness": c.Trace.Harness, "tier": c.Trace.Tier, "vals": c.Trace.Vals, "kind": c.Kind, "msg": c.Msg, "loc": c.Loc, "replay_cmd": "cd /verif && ./replay.sh " + id + " " + f}, "", " ")
			os.WriteFile(f, b, 0o644)
			o := runReplay(bin, "one", f, 40*time.Second)
			if (o.Status == "ok" || o.Status == "diverged") && c.Trace.Retry {
				o = runReplay(bin, "retry", f, 60*time.Second)
				if o.Status == "ok" || o.Status == "diverged" {
					jitter.Do(func() { bin2, jitterErr = buildJitter("/repo", verif, tmp) })
					if jitterErr == nil {
						o = runReplay(bin2, "retry", f, 60*time.Second)
					} else {
						o.Msg += " " + jitterErr.Error()
					}
				}
			}
			results[i] = o
		}()
	}
	rw.Wait()
	for i, c := range r.cands {
		o := results[i]
		key := c.Trace.Harness + "|" + c.Kind + "|" + c.Msg
		if verbose {
			fmt.Fprintf(os.Stderr, "candidate %s loc=%s\n   -> %s %s\n", key, c.Loc, o.Status, o.Msg)
		}
		switch o.Status {
		case "assert", "panic", "hang":
			if done[key] {
				os.Remove(files[i])
				continue
			}
			done[key] = true
			vi := violation{c: c, outcome: o.Status + ": " + firstLine(o.Msg), file: files[i]}
			for k := range finds {
				f := &finds[k]
				if f.property == id && f.harness == c.Trace.Harness && o.Status != "hang" && strings.HasPrefix(firstLine(o.Msg), f.msg) {
					vi.known = f
				}
			}
			viols = append(viols, vi)
		default:
			unrepro = append(unrepro, key+" -> "+o.Status+" "+o.Msg)
			if !verbose {
				os.Remove(files[i])
			}
		}
	}
	// validate sampled passing paths against the real implementation
	validated, mismatched := 0, []string{}
	var batch []Trace
	for _, h := range sel {
		batch = append(batch, r.samples[h]...)
	}
	if len(batch) > 0 {
		var bb bytes.Buffer
		for _, t := range batch {
			b, _ := json.Marshal(t)
			bb.Write(b)
			bb.WriteByte('\n')
		}
		bf := filepath.Join(tmp, "batch.json")
		os.WriteFile(bf, bb.Bytes(), 0o644)
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		cmd := exec.CommandContext(ctx, bin, "batch", bf)
		out, _ := cmd.Output()
		cancel()
		sc := bufio.NewScanner(bytes.NewReader(out))
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		i := 0
		for sc.Scan() && i < len(batch) {
			var o outcome
			json.Unmarshal(sc.Bytes(), &o)
			t := batch[i]
			i++
			switch {
			case o.Status == "ok" && strings.Join(o.Reach, ",") == strings.Join(t.Reach, ","):
				validated++
			case o.Status == "assert" || o.Status == "panic":
				f := filepath.Join(evdir, "replay", fmt.Sprintf("%s-s%d.json", id, i))
				b, _ := json.MarshalIndent(t, "", " ")
				os.WriteFile(f, b, 0o644)
				key := t.Harness + "|sample|" + firstLine(o.Msg)
				if !done[key] {
					done[key] = true
					vi := violation{c: Candidate{Kind: o.Status, Msg: firstLine(o.Msg), Trace: t}, outcome: o.Status + " (validation run): " + firstLine(o.Msg), file: f}
					for k := range finds {
						f := &finds[k]
						if f.property == id && f.harness == t.Harness && strings.HasPrefix(firstLine(o.Msg), f.msg) {
							vi.known = f
						}
					}
					viols = append(viols, vi)
				}
				mismatched = append(mismatched, t.Harness+": native "+o.Status+" "+firstLine(o.Msg))
			default:
				mismatched = append(mismatched, fmt.Sprintf("%s: native %s %s reach=%v want=%v vals=%v", t.Harness, o.Status, firstLine(o.Msg), o.Reach, t.Reach, t.Vals))
			}
		}
		if i < len(batch) {
			mismatched = append(mismatched, fmt.Sprintf("validation batch stopped after %d of %d", i, len(batch)))
		}
	}
	// run beginnings of paths that left the encodable fragment natively to their end
	var stuck []Trace
	for _, h := range sel {
		stuck = append(stuck, r.stuckTr[h]...)
	}
	if len(stuck) > 0 {
		var bb bytes.Buffer
		for _, t := range stuck {
			b, _ := json.Marshal(t)
			bb.Write(b)
			bb.WriteByte('\n')
		}
		bf := filepath.Join(tmp, "stuck.json")
		os.WriteFile(bf, bb.Bytes(), 0o644)
		ctx, cancel := context.WithTimeout(context.Background(), 80*time.Second)
		out, _ := exec.CommandContext(ctx, bin, "pad", bf).Output()
		cancel()
		for _, line := range strings.Split(string(out), "\n") {
			var o outcome
			if json.Unmarshal([]byte(line), &o) != nil || o.Line < 0 || o.Line >= len(stuck) || len(viols) > 20 {
				continue
			}
			t := stuck[o.Line]
			t.Vals, t.Reach = o.Vals, nil
			key := t.Harness + "|stuck|" + firstLine(o.Msg)
			if done[key] {
				continue
			}
			done[key] = true
			f := filepath.Join(evdir, "replay", fmt.Sprintf("%s-p%d.json", id, o.Line))
			b, _ := json.MarshalIndent(map[string]interface{}{"harness": t.Harness, "tier": t.Tier, "vals": t.Vals, "kind": o.Status, "msg": firstLine(o.Msg), "replay_cmd": "cd /verif && ./replay.sh " + id + " " + f}, "", " ")
			os.WriteFile(f, b, 0o644)
			o = runReplay(bin, "one", f, 40*time.Second)
			if o.Status != "assert" && o.Status != "panic" {
				os.Remove(f)
				continue
			}
			vi := violation{c: Candidate{Kind: o.Status, Msg: firstLine(o.Msg), Trace: t}, outcome: o.Status + " (a path beyond the encodable fragment, run natively to its end): " + firstLine(o.Msg), file: f}
			for k := range finds {
				f := &finds[k]
				if f.property == id && f.harness == t.Harness && strings.HasPrefix(firstLine(o.Msg), f.msg) {
					vi.known = f
				}
			}
			viols = append(viols, vi)
		}
	}
	code := 0
	nv := 0
	knownSeen := map[string]bool{}
	for _, vi := range viols {
		if vi.known != nil {
			if !knownSeen[vi.known.text] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, vi.known.text)
				knownSeen[vi.known.text] = true
			}
			continue
		}
		nv++
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, vi.file)
		fmt.Printf("  %s: %s [%s] native replay: %s\n", vi.c.Trace.Harness, vi.c.Msg, vi.c.Kind, vi.outcome)
		code = 1
	}
	writeEvidence(id, verif, tier, r, base, sel, validated, mismatched, unrepro, nv, len(knownSeen), t0, exploreTime)
	fmt.Printf("%s %s: paths=%d inconclusive=%d queries=%d (unsat %d, sat %d, unknown %d) solver=%.1fs load=%.1fs init=%.1fs explore=%.1fs wall=%.1fs validated=%d mismatched=%d unreproduced=%d violations=%d\n",
		id, tier, r.total.Paths, r.total.PathsInconclusive, r.queries, r.unsatN, r.satN, r.unknownN, r.solveTime.Seconds(), base.loadTime.Seconds(), base.initTime.Seconds(), exploreTime.Seconds(), time.Since(t0).Seconds(), validated, len(mismatched), len(unrepro), nv)
	for _, h := range sel {
		st := r.perH[h]
		if st == nil {
			continue
		}
		fmt.Printf("  %-34s jobs=%d paths=%d incon=%d asserts=%d queries=%d instrs=%d forks=%d merges=%d cpu=%.1fs reach=%v\n", h, st.Jobs, st.Paths, st.Inconclusive, st.Asserts, st.Queries, st.Instrs, st.Forks, st.Merges, st.Wall, st.Reach)
		var ks []string
		for k := range st.Incon {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(a, b int) bool { return st.Incon[ks[a]] > st.Incon[ks[b]] })
		for i, k := range ks {
			if i >= 6 {
				break
			}
			fmt.Printf("      inconclusive x%d: %s\n", st.Incon[k], k)
		}
	}
	for i, m := range mismatched {
		if i < 5 {
			fmt.Println("  MISMATCH", m)
		}
	}
	for i, m := range unrepro {
		if i < 8 {
			fmt.Println("  UNREPRODUCED", m)
		}
	}
	for _, m := range uniq(r.solverErrs) {
		fmt.Println("  SOLVER", m)
	}
	return code
}

func uniq(a []string) []string {
	sort.Strings(a)
	var o []string
	for i, x := range a {
		if i == 0 || x != a[i-1] {
			o = append(o, x)
		}
		if len(o) > 5 {
			break
		}
	}
	return o
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func writeEvidence(id, verif, tier string, r *Runner, base *Base, sel []string, validated int, mismatched, unrepro []string, nv, known int, t0 time.Time, explore time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns, libfns []string
	for f := range r.total.Funcs {
		if strings.Contains(f, "github.com/qri-io/dataset") {
			fns = append(fns, f)
		} else {
			libfns = append(libfns, f)
		}
	}
	sort.Strings(fns)
	sort.Strings(libfns)
	harn := map[string]interface{}{}
	var samples []interface{}
	for _, h := range sel {
		st := r.perH[h]
		if st == nil {
			continue
		}
		harn[h] = map[string]interface{}{"jobs": st.Jobs, "paths_completed": st.Paths, "paths_inconclusive": st.Inconclusive, "inconclusive_reasons": st.Incon,
			"assertions_discharged": st.Asserts, "solver_queries": st.Queries, "ssa_instructions": st.Instrs, "forks": st.Forks, "merges": st.Merges, "reached": st.Reach, "time_limit_hit": st.Timeout, "bounds": harnessDoc(verif, id, h)}
		for i, t := range r.samples[h] {
			if i >= 2 {
				break
			}
			samples = append(samples, t)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        r.total.Paths,
			"transitions":                   r.total.Instrs,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"states_meaning":                "completed symbolic paths (each stands for every input satisfying its path condition); transitions are SSA instructions executed symbolically",
			"harnesses":                     harn,
			"paths_inconclusive":            r.total.PathsInconclusive,
			"paths_pruned_infeasible":       r.total.PathsInfeasible,
			"forks":                         r.total.Forks,
			"merges":                        r.total.Merges,
			"solver":                        "z3-new -in (QF_BV / QF_FPBV), hash-consed terms",
			"queries":                       r.queries,
			"queries_unsat":                 r.unsatN,
			"queries_sat":                   r.satN,
			"queries_unknown":               r.unknownN,
			"domain_decisions":              r.total.FastDecides,
			"query_cache_hits":              r.total.CacheHits,
			"domain_decisions_audited":      r.total.Audited,
			"assertions_sent_to_solver":     r.total.AssertChecks,
			"assertions_constant":           r.total.AssertTrivial,
			"solver_time_s":                 r.solveTime.Seconds(),
			"solver_errors":                 uniq(r.solverErrs),
			"functions_encoded_repo":        fns,
			"functions_encoded_other":       len(libfns),
			"validation_mismatches":         mismatched,
			"unreproduced_counterexamples":  unrepro,
			"known_findings_seen":           known,
			"explore_wall_s":                explore.Seconds(),
			"jobs_skipped_for_time":         r.skipped,
			"encoding_source":               "/repo working tree loaded by go/packages and go/ssa in this run",
		},
		"assumptions": assumptions(base),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644)
}

func assumptions(b *Base) []string {
	var ms []string
	for k := range b.models {
		ms = append(ms, k)
	}
	sort.Strings(ms)
	return []string{
		"claims hold for the bounds stated per harness only; inconclusive paths are excluded from the claim",
		"library functions replaced by models written in Go (differential-tested): " + strings.Join(ms, ", "),
		"packages stubbed to no-ops: " + strings.Join(stubPrefixes, ", "),
		"engine intrinsics (sync, atomic, math, bytealg, utf8, reflect, time.Now, the local time zone is UTC) implement their documented contracts",
		"memory is unbounded; integer and float semantics are those of amd64 Go",
	}
}

// harnessDoc returns the comment above a harness function: its stated bounds.
func harnessDoc(verif, id, h string) string {
	fs, _ := filepath.Glob(filepath.Join(verif, "harness/h", strings.ToLower(id), "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		lines := strings.Split(string(b), "\n")
		for i, l := range lines {
			if strings.HasPrefix(l, "func "+h+"(") {
				j := i
				for j > 0 && strings.HasPrefix(lines[j-1], "//") {
					j--
				}
				var d []string
				for _, x := range lines[j:i] {
					d = append(d, strings.TrimSpace(strings.TrimPrefix(x, "//")))
				}
				return strings.Join(d, " ")
			}
		}
	}
	return ""
}
