module verif/harness

go 1.23

require (
	github.com/google/go-cmp v0.7.0
	github.com/hpinc/go3mf v0.0.0
	github.com/qmuntal/opc v0.7.10
	pgregory.net/rapid v1.3.0
)

replace github.com/hpinc/go3mf => /repo
