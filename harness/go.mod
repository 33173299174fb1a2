module verif/harness

go 1.25

require (
	github.com/blocktree/go-owcdrivers v0.0.0
	github.com/blocktree/go-owcrypt v1.1.13
	github.com/btcsuite/btcd v0.0.0-20190315201642-aa6e0f35703c
	golang.org/x/crypto v0.0.0-20200728195943-123391ffb6de
	pgregory.net/rapid v1.3.0
)

require (
	github.com/binance-chain/go-sdk v1.0.8 // indirect
	github.com/btcsuite/btcutil v0.0.0-20190316010144-3ac1210f4b38 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/drand/kyber v1.1.4 // indirect
	github.com/go-kit/kit v0.8.0 // indirect
	github.com/go-logfmt/logfmt v0.3.0 // indirect
	github.com/gogo/protobuf v1.1.1 // indirect
	github.com/golang/protobuf v1.2.0 // indirect
	github.com/phoreproject/bls v0.0.0-20200525203911-a88a5ae26844 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	github.com/tendermint/go-amino v0.14.1 // indirect
	github.com/tendermint/tendermint v0.31.2-rc0 // indirect
	github.com/tidwall/gjson v1.2.1 // indirect
	github.com/tidwall/match v1.0.1 // indirect
	github.com/tidwall/pretty v0.0.0-20190325153808-1166b9ac2b65 // indirect
	golang.org/x/net v0.0.0-20190404232315-eb5bcb51f2a3 // indirect
	golang.org/x/sys v0.0.0-20200812155832-6a926be9bd1d // indirect
	golang.org/x/text v0.3.0 // indirect
	google.golang.org/genproto v0.0.0-20180817151627-c66870c02cf8 // indirect
	google.golang.org/grpc v1.19.1 // indirect
)

replace github.com/blocktree/go-owcdrivers => /repo
