module verifharness

go 1.22.0

require (
	gioui.org v0.5.0
	gioui.org/x v0.5.0
	github.com/btcsuite/btcd v0.20.1-beta
	github.com/btcsuite/btcutil v1.0.2
	github.com/decred/dcrd/dcrec/secp256k1/v4 v4.2.0
	github.com/stretchr/testify v1.9.0
	github.com/tyler-smith/assert v1.0.1
	golang.org/x/crypto v0.21.0
	golang.org/x/exp/shiny v0.0.0-20220827204233-334a2380cb91
)

require (
	gioui.org/cpu v0.0.0-20210817075930-8d6a761490d2 // indirect
	gioui.org/shader v1.0.8 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/go-text/typesetting v0.0.0-20230803102845-24e03d8b5372 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	golang.org/x/exp v0.0.0-20230905200255-921286631fa9 // indirect
	golang.org/x/image v0.7.0 // indirect
	golang.org/x/sys v0.18.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require (
	github.com/mearaj/bips v0.0.0
	golang.org/x/text v0.14.0
)

replace github.com/mearaj/bips => /repo
