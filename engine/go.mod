module verif/engine

go 1.23.0

require (
	github.com/ccojocar/zxcvbn-go v1.0.2
	golang.org/x/tools v0.31.0
)

require (
	golang.org/x/mod v0.24.0 // indirect
	golang.org/x/sync v0.13.0 // indirect
)
