// Command dump decides the properties of the dump itself (parse, context, result).
package main

import "verif/harness/core"

func main() { core.Main() }
