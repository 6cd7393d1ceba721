package main

import "go/types"

var rtUint32 = types.Typ[types.Uint32]
