package main

import (
	_ "github.com/ipfs/go-unixfs/zzverif/checks"
	"github.com/ipfs/go-unixfs/zzverif/ex"
)

func main() { ex.Main() }
