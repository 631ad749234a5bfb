module verif

go 1.26.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/chenquan/go-pkg v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/panjf2000/ants/v2 v2.5.0 // indirect
	golang.org/x/sync v0.0.0-20220513210516-0976fa681c29 // indirect
)

replace github.com/chenquan/go-pkg => /repo
