module github.com/npillmayer/uax/verif

go 1.23

require (
	github.com/npillmayer/schuko v0.2.0-alpha.3
	github.com/npillmayer/uax v0.0.0
	golang.org/x/text v0.3.3
	pgregory.net/rapid v1.3.0
)

require (
	github.com/cloudfoundry/jibber_jabber v0.0.0-20151120183258-bcc4c8345a21 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/jolestar/go-commons-pool v2.0.0+incompatible // indirect
)

replace github.com/npillmayer/uax => /repo
