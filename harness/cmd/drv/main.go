// drv drives the real code of stldice and records what it does as events
// (one JSON object per line) for the trace specifications in /verif/spec.
//
// A case is identified by its index: its random choices depend on the seed and
// the index only, so that any case can be run again alone.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"time"
)

// Ev is an event.
type Ev map[string]any

// C is the context of one case.
type C struct {
	I    int // index of the case
	R    *rand.Rand
	Raw  json.RawMessage // the case, when generated from the specification
	Dir  string          // scratch directory of the case
	Tier string
	out  *bufio.Writer
}

// Emit writes an event.
func (c *C) Emit(e Ev) {
	e["i"] = c.I
	b, err := json.Marshal(e)
	if err != nil {
		fail("marshal: %v", err)
	}
	c.out.Write(b)
	c.out.WriteByte('\n')
}

// Case decodes the generated case.
func (c *C) Case(v any) {
	if err := json.Unmarshal(c.Raw, v); err != nil {
		fail("case %d: %v", c.I, err)
	}
}

// Path returns the path of a file in the scratch directory of the case.
func (c *C) Path(name string) string { return filepath.Join(c.Dir, name) }

// fail reports a failure of the driver itself (not of the code under test).
func fail(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "driver: "+format+"\n", args...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		fail("%v", err)
	}
}

var drivers = map[string]func(*C){}

// caseTimeout is how long a case may take before it counts as hanging.
const caseTimeout = 40 * time.Second

// timeouts has the drivers that take longer.
var timeouts = map[string]time.Duration{}

var bin = os.Getenv("VERIF_BIN")

func main() {
	what := os.Args[1]
	if what == "one" {
		one(os.Args[2:])
	}
	fs := flag.NewFlagSet("drv", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	cases := fs.String("cases", "", "")
	outF := fs.String("out", "", "")
	journal := fs.String("journal", "", "")
	work := fs.String("work", "", "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(os.Args[2:])
	if !*verbose {
		log.SetOutput(io.Discard)
	}
	f, ok := drivers[what]
	if !ok {
		fail("unknown driver %q", what)
	}
	var raw []json.RawMessage
	if *cases != "" {
		cf, err := os.Open(*cases)
		must(err)
		sc := bufio.NewScanner(cf)
		sc.Buffer(nil, 1<<28)
		for sc.Scan() {
			raw = append(raw, append(json.RawMessage{}, sc.Bytes()...))
		}
		must(sc.Err())
	}
	of, err := os.Create(*outF)
	must(err)
	jf, err := os.Create(*journal)
	must(err)
	out := bufio.NewWriterSize(of, 1<<20)
	for i := *from; i < *to; i++ {
		fmt.Fprintln(jf, i)
		dir := filepath.Join(*work, fmt.Sprintf("c%d", i))
		must(os.MkdirAll(dir, 0755))
		c := &C{I: i, R: rand.New(rand.NewSource(*seed*1000003 + int64(i))), Dir: dir, Tier: *tier, out: out}
		if raw != nil {
			c.Raw = raw[i]
		}
		limit := caseTimeout
		if d, ok := timeouts[what]; ok {
			limit = d
		}
		t := time.AfterFunc(limit, func() {
			fmt.Fprintf(os.Stderr, "case %d hangs\n", i)
			os.Exit(97)
		})
		f(c)
		t.Stop()
		must(out.Flush())
		must(os.RemoveAll(dir))
	}
	must(of.Close())
	must(jf.Close())
}
