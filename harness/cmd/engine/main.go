// Command engine holds the monitors that run the whole engine.
package main

import (
	"bytes"
	"log"
	"os"

	"verif/harness/eng"
	"verif/harness/h"
)

// fatalOnly passes on what the library logs before it ends the process.
type fatalOnly struct{}

func (fatalOnly) Write(p []byte) (int, error) {
	if bytes.Contains(p, []byte("nable")) || bytes.Contains(p, []byte("badger NewKV")) || bytes.Contains(p, []byte("Can not")) {
		os.Stderr.Write(p)
	}
	return len(p), nil
}

func main() {
	log.SetOutput(fatalOnly{})
	if f := os.Getenv("VERIF_CRASH_WORKER"); f != "" {
		crashWorker(f)
	}
	eng.NoDelays()
	h.Main([]*h.Prop{c01, c02, c03, c04, c05, c06, c07, c10, c08, c09, c11, c12, c13, c14, c15, c17, c18, c19, c20, c28, c30, c31, c32, c33, c35, c37})
}
