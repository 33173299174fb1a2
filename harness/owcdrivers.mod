// Copy of /repo/go.mod without the modules that only signatureSet imports; see BUILD.json.
module github.com/blocktree/go-owcdrivers

go 1.12

require (
	github.com/binance-chain/go-sdk v1.0.8
	github.com/blocktree/go-owcrypt v1.1.13
	github.com/btcsuite/btcd v0.0.0-20190315201642-aa6e0f35703c // indirect
	github.com/btcsuite/btcutil v0.0.0-20190316010144-3ac1210f4b38 // indirect
	github.com/google/gofuzz v1.0.0 // indirect
	github.com/pkg/errors v0.8.1
	github.com/tendermint/tendermint v0.31.2-rc0
	github.com/tidwall/gjson v1.2.1
	github.com/tidwall/match v1.0.1 // indirect
	github.com/tidwall/pretty v0.0.0-20190325153808-1166b9ac2b65 // indirect
)
