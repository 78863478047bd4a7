package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

func atoi(s string, def int) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return def
	}
	return n
}

func TestMain(m *testing.M) {
	flag.Parse()
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	os.Exit(m.Run())
}

// TestFacets runs all facets of $VH_PROP for one shard and writes a result file.
func TestFacets(t *testing.T) {
	prop := os.Getenv("VH_PROP")
	if prop == "" {
		t.Skip("driven by check.py")
	}
	tier := os.Getenv("VH_TIER")
	shard := atoi(os.Getenv("VH_SHARD"), 0)
	shards := atoi(os.Getenv("VH_SHARDS"), 1)
	seed := os.Getenv("VH_SEED")
	only := os.Getenv("VH_FACET")
	scale := atoi(os.Getenv("VH_SCALE"), 100)
	deadline := time.Duration(atoi(os.Getenv("VH_DEADLINE_S"), 150)) * time.Second
	openJournal(strconv.Itoa(shard))
	go watchdog()
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			t.Fatal(err)
		}
	}
	var results []*facetResult
	for _, f := range facets {
		if f.Prop != prop || (only != "" && only != f.Name) {
			continue
		}
		n := f.Quick
		if tier == "thorough" {
			n = f.Thorough
		}
		use := shards
		if f.MaxShards > 0 && f.MaxShards < use {
			use = f.MaxShards
		}
		if shard >= use {
			continue
		}
		n = (n*scale/100 + use - 1) / use
		if n < 1 {
			n = 1
		}
		s := hash64(fmt.Sprintf("%s/%s/%s/%d", seed, prop, f.Name, shard))
		s &= 1<<62 - 1
		if s == 0 {
			s = 1
		}
		r := runFacet(t, f, n, s, deadline, set)
		results = append(results, r)
	}
	b, err := json.Marshal(results)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(outDir, fmt.Sprintf("result-%d.json", shard)), b, 0o644); err != nil {
		t.Fatal(err)
	}
}

// TestReplay runs one saved case: VH_REPLAY=file.
func TestReplay(t *testing.T) {
	p := os.Getenv("VH_REPLAY")
	if p == "" {
		t.Skip("driven by check.py")
	}
	go watchdog()
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		t.Fatal(err)
	}
	for _, f := range facets {
		if f.Prop != rf.Property || f.Name != rf.Facet {
			continue
		}
		c, err := f.decode(rf.Case)
		if err != nil {
			t.Fatal(err)
		}
		if f.Setup != nil {
			f.Setup(t)
		}
		n := atoi(os.Getenv("VH_REPEAT"), 1)
		for i := 0; i < n; i++ {
			journalCase(f, rf.Case)
			o := runCase(t, f, c)
			journalIdle()
			if o.env != nil {
				fmt.Printf("VH-ENV %v\n", o.env)
				os.Exit(2)
			}
			if o.viol != "" {
				fmt.Printf("VH-VIOLATION %s\ntrace:\n  %s\n", o.viol, strings.Join(o.x.trace, "\n  "))
				os.Exit(76)
			}
		}
		fmt.Println("VH-OK")
		return
	}
	t.Fatalf("no facet %s/%s", rf.Property, rf.Facet)
}

// TestList prints all registered facets.
func TestList(t *testing.T) {
	if os.Getenv("VH_LIST") == "" {
		t.Skip()
	}
	for _, f := range facets {
		fmt.Printf("VH-FACET %s %s %d %d\n", f.Prop, f.Name, f.Quick, f.Thorough)
	}
}
