// Command core holds the monitors that run the packages below the engine.
package main

import (
	"io"
	"log"

	"verif/harness/eng"
	"verif/harness/h"
)

func main() {
	log.SetOutput(io.Discard)
	eng.NoDelays()
	h.Main([]*h.Prop{c16, c29})
}
