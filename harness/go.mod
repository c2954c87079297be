module verif/harness

go 1.23

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/pkg/errors v0.8.1
	github.com/satori/go.uuid v1.2.0
	github.com/thesues/cannyls-go v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	contrib.go.opencensus.io/exporter/prometheus v0.1.0 // indirect
	github.com/beorn7/perks v1.0.1 // indirect
	github.com/golang/groupcache v0.0.0-20190702054246-869f871628b6 // indirect
	github.com/golang/protobuf v1.3.3 // indirect
	github.com/google/btree v1.0.0 // indirect
	github.com/klauspost/readahead v1.3.0 // indirect
	github.com/matttproud/golang_protobuf_extensions v1.0.1 // indirect
	github.com/phf/go-queue v0.0.0-20170504031614-9abe38d0371d // indirect
	github.com/prometheus/client_golang v1.1.0 // indirect
	github.com/prometheus/client_model v0.0.0-20190812154241-14fe0d1b01d4 // indirect
	github.com/prometheus/common v0.6.0 // indirect
	github.com/prometheus/procfs v0.0.4 // indirect
	github.com/thesues/go-judy v0.1.3 // indirect
	go.opencensus.io v0.22.1 // indirect
)

replace github.com/thesues/cannyls-go => /repo
