package simrt

func getg() uintptr
