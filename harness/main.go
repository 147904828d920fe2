// Command zzverif drives the real mygosnmp code and records what it does as
// sessions of events (one JSON session per line), for TLC to check against
// the TLA+ specification. It is compiled inside /repo's module through a go
// build overlay and uses the public API only (plus internal/, which a program
// of the same module may import). It makes no judgement of its own.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

type ev map[string]interface{}

type session struct {
	Ev []ev `json:"ev"`
}

var (
	rnd     *rand.Rand
	out     *bufio.Writer
	nsess   int
	nevents int
	cur     []ev
	journal *os.File

	watchName  atomic.Value
	watchStart int64 // unix nano of the call in progress, 0 if none
)

// call runs f (one call into the code under test) under recover and under the
// watchdog; what describes the call for the journal.
func call(what func() ev, f func()) (panicked bool) {
	if journal != nil {
		b, _ := json.Marshal(what())
		journal.Truncate(0)
		journal.WriteAt(append(b, '\n'), 0)
	}
	atomic.StoreInt64(&watchStart, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&watchStart, 0)
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	f()
	return
}

// alive tells the watchdog that of several calls one has begun.
func alive() { atomic.StoreInt64(&watchStart, time.Now().UnixNano()) }

func watchdog(limit time.Duration) {
	for {
		time.Sleep(200 * time.Millisecond)
		t := atomic.LoadInt64(&watchStart)
		if t != 0 && time.Since(time.Unix(0, t)) > limit {
			fmt.Fprintln(os.Stderr, "HANG: a call did not return")
			os.Exit(4)
		}
	}
}

func emit(e ev) {
	cur = append(cur, e)
	nevents++
}

func endSession() {
	if len(cur) == 0 {
		return
	}
	b, err := json.Marshal(session{Ev: cur})
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	out.Write(b)
	out.WriteByte('\n')
	nsess++
	cur = nil
}

// stateless events are cut into sessions of this many
const statelessChunk = 40

func emitStateless(e ev) {
	emit(e)
	if len(cur) >= statelessChunk {
		endSession()
	}
}

var flagSeed int64

var scenarios = map[string]func(n int){}

func main() {
	scen := flag.String("scen", "", "scenario")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 1000, "size")
	outf := flag.String("out", "", "output file")
	jf := flag.String("journal", "", "journal file")
	flag.StringVar(&corpusFile, "corpus", "", "ndjson file of cases generated from the specification")
	flag.Parse()
	flagSeed = *seed
	rnd = rand.New(rand.NewSource(*seed*1000003 + int64(len(*scen))))
	f, err := os.Create(*outf)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out = bufio.NewWriterSize(f, 1<<20)
	if *jf != "" {
		journal, err = os.Create(*jf)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	run, ok := scenarios[*scen]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown scenario")
		os.Exit(3)
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	go watchdog(30 * time.Second)
	run(*n)
	endSession()
	out.Flush()
	f.Close()
	fmt.Printf("{\"sessions\":%d,\"events\":%d}\n", nsess, nevents)
}
