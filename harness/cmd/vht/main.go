// Command vht holds the check of the test client, server and tool.
package main

import "verif/harness/internal/vh"

func main() { vh.Main([]*vh.Prop{c20}) }
