module verif

go 1.26.0

require (
	github.com/jcorbin/anansi v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/jcorbin/anansi => /repo
