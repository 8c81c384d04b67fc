// Command vhs holds the checks of the schema packages.
package main

import "verif/harness/internal/vh"

func main() {
	vh.Main([]*vh.Prop{c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c12, c13, c14, c15, c21, c22, c23})
}
