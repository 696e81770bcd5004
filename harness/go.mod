module bibverif

go 1.24

require (
	github.com/jschaf/bibtex v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/jschaf/bibtex => /repo
