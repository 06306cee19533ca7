package fmt

import "math"

func float(b uint64) float64 { return math.Float64frombits(b) }
