// Command vhg holds the checks of generation.
package main

import (
	"os"

	"verif/harness/internal/vh"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "remote" {
		remoteMain(os.Args[2])
		return
	}
	vh.Main([]*vh.Prop{c11, c16, c17, c18, c19})
}
