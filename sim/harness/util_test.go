package harness

import "runtime"

func runtimeStack(b []byte, all bool) int { return runtime.Stack(b, all) }
