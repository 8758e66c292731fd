module verif/harness

go 1.23

require github.com/chzyer/readline v0.0.0

require (
	github.com/chzyer/logex v1.2.1 // indirect
	github.com/chzyer/test v1.0.0 // indirect
	golang.org/x/sys v0.0.0-20220310020820-b874c991c1a5 // indirect
)

replace github.com/chzyer/readline => /repo
