module verif

go 1.25

require (
	github.com/childe/healer v0.0.0
	github.com/eapache/go-xerial-snappy v0.0.0-20230731223053-c322873962e3
	github.com/go-logr/logr v1.4.2
	github.com/golang/snappy v0.0.4
	github.com/pierrec/lz4/v4 v4.1.22
)

replace github.com/childe/healer => /repo
