module verif

go 1.26.0

require (
	github.com/ProtonMail/go-rfc5322 v0.0.0
	golang.org/x/tools v0.52.0
)

require (
	github.com/antlr/antlr4/runtime/Go/antlr v0.0.0-20220816024939-bc8df83d7b9d // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)

replace github.com/ProtonMail/go-rfc5322 => /repo
