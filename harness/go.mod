module verif

go 1.26.0

require (
	github.com/steve-care-software/rodkina v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/juju/fslock v0.0.0-20160525022230-4d5c94c67b4b // indirect

replace github.com/steve-care-software/rodkina => /repo
