module verifharness

go 1.26.0

godebug (
	randautoseed=0
	randseednop=0
)

require (
	github.com/nlpodyssey/goslide v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/nlpodyssey/goslide => /repo
