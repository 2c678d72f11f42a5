module github.com/google/licensecheck/verifh

go 1.23

require (
	github.com/google/licensecheck v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/google/licensecheck => /repo
