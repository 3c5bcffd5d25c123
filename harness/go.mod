module zygoverif

go 1.24.2

require github.com/glycerine/zygomys/v9 v9.0.0

require (
	4d63.com/embedfiles v0.0.0-20190311033909-995e0740726f // indirect
	4d63.com/tz v1.2.0 // indirect
	github.com/glycerine/blake2b v0.0.0-20151022103502-3c8c640cd7be // indirect
	github.com/glycerine/fwd v1.1.4-beta.jea // indirect
	github.com/glycerine/greenpack v0.541.0 // indirect
	github.com/glycerine/liner v0.0.0-20160121172638-72909af234e0 // indirect
	github.com/philhofer/fwd v1.0.0 // indirect
	github.com/shurcooL/go v0.0.0-20200502201357-93f07166e636 // indirect
	github.com/shurcooL/go-goon v1.0.0 // indirect
	github.com/tinylib/msgp v1.1.2 // indirect
	github.com/ugorji/go/codec v1.2.12 // indirect
)

replace github.com/glycerine/zygomys/v9 => /repo
