module verifharness

go 1.14

require (
	github.com/aligator/go.clipper v0.0.0-20200424185851-fc8a51077d44
	github.com/aligator/goslice v0.0.0
	github.com/ctessum/geom v0.2.10 // indirect
	github.com/furstenheim/go-convex-hull-2d v0.0.0-20181121204724-08788ab09726
	github.com/google/go-cmp v0.5.9
	github.com/hschendel/stl v1.0.4
	github.com/spf13/pflag v1.0.5
	github.com/stretchr/testify v1.6.1 // indirect
)

replace github.com/aligator/goslice => /repo

replace github.com/aligator/go.clipper => ../stubs/go.clipper

replace github.com/hschendel/stl => ../stubs/stl
