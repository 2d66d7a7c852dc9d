module verif.local/mbv

go 1.24

require github.com/chenquan/go-pkg v0.0.0

require (
	github.com/panjf2000/ants/v2 v2.5.0
	golang.org/x/sync v0.0.0-20220513210516-0976fa681c29
)

replace github.com/chenquan/go-pkg => /repo
