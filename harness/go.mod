module deflectverif

go 1.22.2

require (
	github.com/google/go-jsonnet v0.20.0
	github.com/lubgr/deflect v0.0.0
	gonum.org/v1/gonum v0.14.0
)

require (
	gopkg.in/yaml.v2 v2.2.7 // indirect
	sigs.k8s.io/yaml v1.1.0 // indirect
)

replace github.com/lubgr/deflect => /repo
