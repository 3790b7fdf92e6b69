package mcrt

import "C"

// gomcYield is the scheduling point inside of a call of the library.
//
//export gomcYield
func gomcYield() { Point("call") }
