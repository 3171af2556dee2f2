module github.com/aligator/go.clipper

go 1.14
