package notify

// Harness vocabulary. The symbolic engine intercepts every function of this
// file by name; the bodies are never executed. The native replay build uses
// rt_native.go instead.

func vU8(name string) uint8                          { return 0 }
func vU16(name string) uint16                        { return 0 }
func vU32(name string) uint32                        { return 0 }
func vI32(name string) int32                         { return 0 }
func vU64(name string) uint64                        { return 0 }
func vBool(name string) bool                         { return false }
func vStr(name string, n int) string                 { return "" }
func vChoose(name string, n int) int                 { return 0 }
func vAssume(c bool)                                 {}
func vAssert(c bool, label string)                   {}
func vAssertKF(c, known bool, label, finding string) {}
func vFail(label string)                             {}
func vReach(label string)                            {}
func vSettle()                                       {}
func vYield()                                        {}
func vRace(on bool)                                  {}
func vNewest(on bool)                                {} // run the newest runnable goroutine first instead of the oldest
func vExplore(budget int)                            {}
func vMapOrder(mode int)                             {}
func vAnd(a, b bool) bool                            { return a && b }
func vOr(a, b bool) bool                             { return a || b }
func vNot(a bool) bool                               { return !a }
func vImplies(a, b bool) bool                        { return !a || b }
func vEq(a, b string) bool                           { return a == b }
func vIte32(c bool, a, b uint32) uint32              { return 0 }
func vIteB(c, a, b bool) bool                        { return false }
func vBlocked() int                                  { return 0 }
func vLive() int                                     { return 0 }
func vParam(name string, def int) int                { return def }
func vEnd()                                          {}
func vTrace(a ...interface{})                        {}
func vNative() bool                                  { return false }
func vConc(x uint32) uint32                          { return x }
