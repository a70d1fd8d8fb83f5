// Command store holds the monitors of the storage backends.
package main

import (
	"io"
	"log"
	"os"

	"verif/harness/h"
)

func main() {
	log.SetOutput(io.Discard)
	if d := os.Getenv("VERIF_BOLT_EMPTY"); d != "" {
		boltEmptyWorker(d)
	}
	if s := os.Getenv("VERIF_C36"); s != "" {
		c36Child(s)
	}
	h.Main([]*h.Prop{c21, c22, c36})
}
