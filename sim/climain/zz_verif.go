package main

import verif__cli "github.com/giulianopz/go-readability/internal/verifcli"

// The simulator takes over before main only when it is asked to.
func init() { verif__cli.Start(main) }
