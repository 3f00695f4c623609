module aaverif

go 1.23

godebug default=go1.20

require (
	github.com/si-co/vpir-code v0.0.0
	pgregory.net/rapid v1.3.0
)


require (
	github.com/AlecAivazis/survey/v2 v2.3.2
	github.com/BurntSushi/toml v0.3.1
	github.com/cloudflare/circl v1.3.7
	github.com/dkales/dpf-go v0.0.0-20210304170054-6eae87348848
	github.com/golang/protobuf v1.5.3
	github.com/lukechampine/fastxor v0.0.0-20210322201628-b664bed5a5cc
	github.com/nikirill/go-crypto v0.0.0-20210204153324-694bf46cc691
	github.com/stretchr/testify v1.7.1
	golang.org/x/crypto v0.21.0
	golang.org/x/xerrors v0.0.0-20200804184101-5ec99f83aff1
	google.golang.org/grpc v1.56.3
	google.golang.org/protobuf v1.33.0
	lukechampine.com/blake3 v1.1.7
	lukechampine.com/uint128 v1.2.0
)

require (
	github.com/bwesterb/go-ristretto v1.2.3 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/kballard/go-shellquote v0.0.0-20180428030007-95032a82bc51 // indirect
	github.com/klauspost/cpuid/v2 v2.0.9 // indirect
	github.com/kr/text v0.2.0 // indirect
	github.com/mattn/go-colorable v0.1.2 // indirect
	github.com/mattn/go-isatty v0.0.8 // indirect
	github.com/mgutz/ansi v0.0.0-20170206155736-9520e82c474b // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	golang.org/x/net v0.23.0 // indirect
	golang.org/x/sys v0.18.0 // indirect
	golang.org/x/term v0.18.0 // indirect
	golang.org/x/text v0.14.0 // indirect
	google.golang.org/genproto v0.0.0-20230410155749-daa745c078e1 // indirect
	gopkg.in/check.v1 v1.0.0-20201130134442-10cb98267c6c // indirect
	gopkg.in/yaml.v3 v3.0.0 // indirect
)

replace github.com/si-co/vpir-code => /repo
