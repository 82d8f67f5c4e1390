module verif/harness

go 1.21

require github.com/phil-mansfield/gotetra v0.0.0

require (
	github.com/phil-mansfield/pyplot v0.1.0 // indirect
	github.com/phil-mansfield/table v0.0.0-20150719233545-c07e84d457f7 // indirect
	gopkg.in/gcfg.v1 v1.2.3 // indirect
	gopkg.in/warnings.v0 v0.1.2 // indirect
)

replace github.com/phil-mansfield/gotetra => /repo

replace github.com/phil-mansfield/table => ./stubs/table
