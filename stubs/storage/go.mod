module cloud.google.com/go/storage

go 1.25.0

require google.golang.org/api v0.114.0
