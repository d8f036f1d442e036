module verif/harness

go 1.25.0

require (
	cloud.google.com/go/storage v1.29.0
	github.com/chrislusf/gleam v0.0.0-20210513221725-ec443283eab3
	github.com/fogleman/fauxgl v0.0.0-20200818143847-27cddc103802
	github.com/golang/protobuf v1.5.4
	golang.org/x/net v0.56.0
	golang.org/x/oauth2 v0.36.0
	google.golang.org/api v0.114.0
	google.golang.org/grpc v1.82.1
)

require (
	cloud.google.com/go v0.110.0 // indirect
	cloud.google.com/go/compute/metadata v0.9.0 // indirect
	cloud.google.com/go/iam v0.13.0 // indirect
	github.com/OneOfOne/xxhash v1.2.8 // indirect
	github.com/fogleman/simplify v0.0.0-20170216171241-d32f302d5046 // indirect
	github.com/glycerine/truepack v0.0.0-20171113054516-e3f6c9bc15a7 // indirect
	github.com/golang/groupcache v0.0.0-20200121045136-8c9f03a8e57e // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/googleapis/enterprise-certificate-proxy v0.2.3 // indirect
	github.com/googleapis/gax-go/v2 v2.7.1 // indirect
	github.com/philhofer/fwd v1.1.2 // indirect
	go.opencensus.io v0.24.0 // indirect
	golang.org/x/sync v0.21.0 // indirect
	golang.org/x/sys v0.46.0 // indirect
	golang.org/x/text v0.39.0 // indirect
	golang.org/x/xerrors v0.0.0-20220907171357-04be3eba64a2 // indirect
	google.golang.org/appengine v1.6.7 // indirect
	google.golang.org/genproto v0.0.0-20230410155749-daa745c078e1 // indirect
)

require (
	github.com/gmlewis/stldice/v4 v4.0.0
	google.golang.org/protobuf v1.36.11
)

replace github.com/gmlewis/stldice/v4 => /repo
