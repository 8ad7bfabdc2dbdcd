module verifsim

go 1.27

require github.com/hpinc/go3mf v0.0.0

replace github.com/hpinc/go3mf => ./go3mf
