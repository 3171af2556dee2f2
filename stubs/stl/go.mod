module github.com/hschendel/stl

go 1.14
