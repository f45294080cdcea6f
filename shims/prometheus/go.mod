module github.com/prometheus/prometheus

go 1.20

require (
	github.com/cespare/xxhash v1.1.0
	github.com/go-kit/kit v0.9.0
	github.com/prometheus/client_golang v1.1.0
	github.com/prometheus/common v0.6.0
)
