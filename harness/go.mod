module verifharness

go 1.21

require (
	github.com/BurntSushi/toml v0.3.0
	github.com/dghubble/go-twitter v0.0.0-20221104224141-912508c3888b
	github.com/dghubble/oauth1 v0.4.0
	github.com/dghubble/sling v1.4.0
	github.com/golang/snappy v0.0.1
	github.com/google/go-querystring v1.1.0
	github.com/inconshreveable/mousetrap v1.0.0
	github.com/spf13/cobra v0.0.1
	github.com/spf13/pflag v1.0.0
	github.com/syndtr/goleveldb v1.0.0
	go.uber.org/atomic v1.3.1
	go.uber.org/multierr v1.1.0
	go.uber.org/zap v1.7.1
	golang.org/x/crypto v0.1.0
)

require (
	github.com/cenkalti/backoff/v4 v4.1.3 // indirect
	golang.org/x/net v0.1.0 // indirect
	golang.org/x/sys v0.1.0 // indirect
	golang.org/x/term v0.1.0 // indirect
)

require github.com/coniks-sys/coniks-go v0.0.0

replace github.com/coniks-sys/coniks-go => /repo
