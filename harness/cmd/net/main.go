// Command net holds the monitors of the network services.
package main

import (
	"io"
	"log"
	"os"

	"verif/harness/h"
)

func main() {
	if os.Getenv("VERIF_DEBUG") == "" {
		log.SetOutput(io.Discard)
	}
	if s := os.Getenv("VERIF_NET_SERVER"); s != "" {
		serverMain(s)
	}
	h.Main([]*h.Prop{c23, c24, c25, c26, c27, c34})
}
