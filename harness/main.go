package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

type failure struct {
	Property string `json:"property"`
	Input    []byte `json:"input"`
	Text     string `json:"text"`
	Message  string `json:"message"`
	Kind     string `json:"kind"`
}

type result struct {
	Property string   `json:"property"`
	Evals    int      `json:"evaluations"`
	Distinct int      `json:"distinct_nontrivial"`
	System   int      `json:"systematic"`
	SysDone  bool     `json:"systematic_complete"`
	Samples  []string `json:"samples"`
	Fail     *failure `json:"fail"`
}

var (
	out     *os.File
	curFile *os.File
	started atomic.Int64
	current atomic.Value
)

func run(prop, in string) (msg, kind string) {
	current.Store(in)
	if curFile != nil {
		b := []byte(in)
		curFile.WriteAt(b, 0)
		curFile.Truncate(int64(len(b)))
	}
	started.Store(time.Now().UnixNano())
	defer started.Store(0)
	defer func() {
		if e := recover(); e != nil {
			msg, kind = fmt.Sprintf("panic: %v\n%s", e, trim(debug.Stack())), "panic"
		}
	}()
	return oracles[prop](in), "oracle"
}

func trim(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var keep []string
	for _, l := range ls {
		if strings.Contains(l, "/ast/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 6 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func finish(r *result) {
	b, _ := json.Marshal(r)
	out.Write(append(b, '\n'))
	if r.Fail != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

func watchdog(r *result, prop string) {
	for {
		time.Sleep(200 * time.Millisecond)
		if s := started.Load(); s != 0 && time.Since(time.Unix(0, s)) > 20*time.Second {
			in, _ := current.Load().(string)
			finish(&result{Property: prop, Evals: r.Evals, Samples: r.Samples, Fail: &failure{prop, []byte(in), in, "does not return within 20 s", "hang"}})
		}
	}
}

func shrink(prop, in, kind string, limit time.Duration) string {
	end := time.Now().Add(limit)
	fails := func(s string) bool {
		m, k := run(prop, s)
		return m != "" && k == kind
	}
	for n := len(in) / 2; n >= 1 && time.Now().Before(end); {
		cut := false
		for i := 0; i+n <= len(in) && time.Now().Before(end); {
			c := in[:i] + in[i+n:]
			if (utf8.ValidString(c) || !utf8.ValidString(in)) && fails(c) {
				in, cut = c, true
			} else {
				i++
			}
		}
		if !cut || n > len(in) {
			n /= 2
		}
	}
	return in
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	ms := flag.Int("ms", 2000, "milliseconds of random search after the systematic inputs")
	sysms := flag.Int("sysms", 60000, "limit for the systematic inputs")
	replay := flag.String("replay", "", "replay file")
	cur := flag.String("current", "", "file that holds the input being tried")
	flag.Parse()

	out = os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	debug.SetMaxStack(1 << 28)
	initReflect()
	if *cur != "" {
		curFile, _ = os.Create(*cur)
	}

	if *replay != "" {
		var f failure
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil || oracles[f.Property] == nil {
			fmt.Fprintln(os.Stderr, "cannot replay:", err)
			os.Exit(2)
		}
		r := &result{Property: f.Property, Evals: 1}
		go watchdog(r, f.Property)
		if m, k := run(f.Property, string(f.Input)); m != "" {
			r.Fail = &failure{f.Property, f.Input, string(f.Input), m, k}
		}
		finish(r)
	}
	if oracles[*prop] == nil {
		fmt.Fprintln(os.Stderr, "no oracle for", *prop)
		os.Exit(2)
	}
	r := &result{Property: *prop}
	go watchdog(r, *prop)
	seen := map[string]bool{}
	try := func(in string) bool {
		r.Evals++
		if len(in) > 3 && !seen[in] && len(seen) < 2000000 {
			seen[in] = true
			r.Distinct++
			if len(r.Samples) < 5 && r.Distinct%37 == 1 {
				r.Samples = append(r.Samples, strings.ToValidUTF8(cutTo(in, 200), "?"))
			}
		}
		m, k := run(*prop, in)
		if m == "" {
			return true
		}
		in = shrink(*prop, in, k, 2*time.Second)
		m2, k2 := run(*prop, in)
		if m2 == "" {
			m2, k2 = m, k
		}
		r.Fail = &failure{*prop, []byte(in), strings.ToValidUTF8(in, "?"), m2, k2}
		return false
	}
	end := time.Now().Add(time.Duration(*sysms) * time.Millisecond)
	r.SysDone = systematic(*prop, func(in string) bool {
		r.System++
		return try(in) && time.Now().Before(end)
	})
	if r.Fail != nil {
		finish(r)
	}
	g := &G{Rand: rand.New(rand.NewSource(*seed))}
	end = time.Now().Add(time.Duration(*ms) * time.Millisecond)
	for n := 0; time.Now().Before(end); n++ {
		if !try(random(*prop, g)) {
			break
		}
	}
	finish(r)
}

func cutTo(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
