module verif/harness

go 1.23

require (
	golang.org/x/crypto v0.0.0-20210421170649-83a5a9bb288b
	terorie.dev/nimiq v0.0.0
)

require (
	github.com/pelletier/go-toml v1.9.3 // indirect
	golang.org/x/sys v0.0.0-20201119102817-f84b799fce68 // indirect
)

replace terorie.dev/nimiq => /repo
