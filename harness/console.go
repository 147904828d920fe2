package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"

	"github.com/alexispb/mygosnmp/logger"
)

// ---- the console log (C20): a child process logs to its standard output
// what this process logs to memory

// consoleSession logs messages of its own and those of debug calls.
func consoleSession(seed int64, n int, l logger.Log) {
	rnd = rand.New(rand.NewSource(seed))
	odd := []string{"", "%", "100%", "%d %s", "a\nb", "\t", "!!! x", "long " + strings.Repeat("z", 70000), "\xff\x00\xfe", "ключ", " trailing ", "\n", "\\n", "%%", "ends\n", "ends\r\n", "\r", "\n\n", "\u2028", "\x1b[0m", "\ufeffx", "!!! Failed", "null\x00", strings.Repeat("\n", 300), strings.Repeat("k", 1<<16), strings.Repeat("k", 4095)}
	for _, m := range odd {
		l.Write(m)
		l.Writef("%s", m)
		l.Writef("%s|%q", m, m)
	}
	for i := 0; i < n; i++ {
		switch rnd.Intn(6) {
		case 0:
			l.Write(odd[rnd.Intn(len(odd))])
		case 1:
			l.Writef("%s", odd[rnd.Intn(len(odd))])
		case 2:
			l.Writef("%d of %d: %v", rnd.Intn(100), rnd.Int31(), []string{odd[rnd.Intn(4)]})
		case 3:
			l.Writef(fmt.Sprint("plain ", rnd.Intn(9)))
		case 4:
			xEncodeDbg(genPdu(), l)
		case 5:
			b, ok, _ := xEncode(genPdu())
			if ok {
				if p, ok, _ := xHeaderDbg(b[:20], l); ok {
					xPayloadDbg(&p, b[20:], l)
				}
			}
		}
	}
}

func consoleRun(seed int64, n int) {
	self, err := os.Executable()
	if err != nil {
		fail("executable: " + err.Error())
	}
	f, err := os.CreateTemp("", "verif-console")
	if err != nil {
		fail("temp: " + err.Error())
	}
	defer os.Remove(f.Name())
	defer f.Close()
	c := exec.Command(self, "-scen", "console-child", "-seed", fmt.Sprint(seed), "-n", fmt.Sprint(n), "-out", os.DevNull)
	c.Stdout = f
	if err := c.Run(); err != nil {
		fail("console child: " + err.Error())
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		fail("console output: " + err.Error())
	}
	keep := rnd
	l := &memLog{}
	consoleSession(seed, n, l)
	rnd = keep
	ms := make([]B, len(l.msgs))
	for i, m := range l.msgs {
		ms[i] = B(m)
	}
	emit(ev{"e": "console", "msgs": ms, "out": B(b)})
	endSession()
}

func fail(msg string) {
	fmt.Fprintln(os.Stderr, "harness:", msg)
	os.Exit(3)
}

func init() {
	scenarios["console-child"] = func(n int) {
		consoleSession(flagSeed, n, logger.Console())
		os.Exit(0)
	}
}
