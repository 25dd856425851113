module github.com/dogmatiq/testkit/verifmc

go 1.24.0

require (
	github.com/dogmatiq/configkit v0.16.0
	github.com/dogmatiq/cosyne v0.2.0
	github.com/dogmatiq/dapper v0.6.0
	github.com/dogmatiq/dogma v0.15.0
	github.com/dogmatiq/enginekit v0.16.1
	github.com/dogmatiq/iago v0.4.0
	github.com/dogmatiq/linger v1.1.0
	github.com/onsi/ginkgo/v2 v2.23.4
	github.com/onsi/gomega v1.37.0
	github.com/sergi/go-diff v1.3.1
	go.uber.org/multierr v1.11.0
	golang.org/x/text v0.24.0
	google.golang.org/protobuf v1.36.6
)

require (
	github.com/dogmatiq/jumble v0.1.0 // indirect
	github.com/go-logr/logr v1.4.2 // indirect
	github.com/go-task/slim-sprig/v3 v3.0.0 // indirect
	github.com/google/go-cmp v0.7.0 // indirect
	github.com/google/pprof v0.0.0-20250403155104-27863c87afa6 // indirect
	go.uber.org/automaxprocs v1.6.0 // indirect
	golang.org/x/net v0.37.0 // indirect
	golang.org/x/sys v0.32.0 // indirect
	golang.org/x/tools v0.31.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require github.com/dogmatiq/testkit v0.0.0

replace github.com/dogmatiq/testkit => /repo
