module verif/harness

go 1.24

require github.com/tychoish/fun v0.14.7
