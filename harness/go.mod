module code.cloudfoundry.org/log-cache/verif

go 1.27

require (
	code.cloudfoundry.org/go-batching v0.0.0-20171020220229-924d2a9b48ac
	code.cloudfoundry.org/go-diodes v0.0.0-20231113191959-85adc333ee36
	code.cloudfoundry.org/go-envstruct v1.5.0
	code.cloudfoundry.org/go-loggregator v7.4.0+incompatible
	code.cloudfoundry.org/go-loggregator/metrics v0.0.0
	code.cloudfoundry.org/go-orchestrator v0.0.0
	code.cloudfoundry.org/log-cache v0.0.0
	code.cloudfoundry.org/rfc5424 v0.0.0-20180905210152-236a6d29298a
	code.cloudfoundry.org/tlsconfig v0.0.0-20200131000646-bbe0f8da39b3
	github.com/blang/semver v3.5.1+incompatible
	github.com/cespare/xxhash v1.1.0
	github.com/cloudfoundry/gosigar v1.1.0
	github.com/dvsekhvalnov/jose2go v0.0.0-20180829124132-7f401d37b68a
	github.com/emirpasic/gods v1.12.0
	github.com/go-kit/kit v0.9.0
	github.com/golang/protobuf v1.3.2
	github.com/gorilla/mux v1.7.3
	github.com/grpc-ecosystem/grpc-gateway v1.11.1
	github.com/influxdata/go-syslog v1.0.1
	github.com/onsi/ginkgo v1.12.0
	github.com/onsi/gomega v1.7.1
	github.com/prometheus/client_golang v1.1.0
	github.com/prometheus/client_model v0.0.0-20190812154241-14fe0d1b01d4
	github.com/prometheus/common v0.6.0
	github.com/prometheus/prometheus v2.3.2+incompatible
	github.com/shirou/gopsutil v2.18.12+incompatible
	golang.org/x/net v0.0.0-20190613194153-d28f0bde5980
	google.golang.org/genproto v0.0.0-20180817151627-c66870c02cf8
	google.golang.org/grpc v1.23.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/beorn7/perks v1.0.1 // indirect
	github.com/matttproud/golang_protobuf_extensions v1.0.1 // indirect
	github.com/prometheus/procfs v0.0.3 // indirect
	golang.org/x/sys v0.0.0-20191120155948-bd437916bb0e // indirect
	golang.org/x/text v0.3.0 // indirect
)

replace (
	code.cloudfoundry.org/go-diodes => ../shims/go-diodes
	code.cloudfoundry.org/go-loggregator/metrics => ../shims/loggregator-metrics
	code.cloudfoundry.org/go-orchestrator => ../shims/go-orchestrator
	code.cloudfoundry.org/log-cache => /repo
	code.cloudfoundry.org/tlsconfig => ../shims/tlsconfig
	github.com/cespare/xxhash => ../shims/xxhash
	github.com/cloudfoundry/gosigar => ../shims/gosigar
	github.com/dvsekhvalnov/jose2go => ../shims/jose2go
	github.com/emirpasic/gods => ../shims/gods
	github.com/go-kit/kit => ../shims/gokit
	github.com/gorilla/mux => ../shims/mux
	github.com/influxdata/go-syslog => ../shims/go-syslog
	github.com/onsi/ginkgo => github.com/onsi/ginkgo v1.12.0
	github.com/onsi/gomega => github.com/onsi/gomega v1.7.1
	github.com/prometheus/prometheus => ../shims/prometheus
)
