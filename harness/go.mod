module verif/harness

go 1.23

require (
	github.com/gogama/flatgeobuf v0.0.0
	github.com/google/flatbuffers v23.5.26+incompatible
	pgregory.net/rapid v1.3.0
)

replace github.com/gogama/flatgeobuf => /repo
