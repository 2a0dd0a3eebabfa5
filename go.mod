module verif

go 1.26.0

require (
	github.com/Comcast/scte35-go v0.0.0
	golang.org/x/tools v0.52.0
)

require (
	github.com/bamiaux/iobit v0.0.0-20170418073505-498159a04883 // indirect
	github.com/spf13/cobra v1.9.1 // indirect
	github.com/spf13/pflag v1.0.6 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/text v0.22.0 // indirect
)

replace github.com/Comcast/scte35-go => /repo
