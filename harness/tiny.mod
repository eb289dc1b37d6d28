module verif/harness

go 1.27

require (
	github.com/binance-chain/tss-lib v0.0.0
	github.com/onsi/ginkgo v1.16.5
	github.com/onsi/gomega v1.18.1
	github.com/rs/zerolog v1.0.0
	gitlab.com/alephledger/core-go v0.0.0
	gitlab.com/alephledger/threshold-ecdsa v0.0.0
	golang.org/x/crypto v0.9.0
	verif/detrand v0.0.0
)

replace (
	github.com/ethereum/go-ethereum => ../stubs/tinyeth
	github.com/binance-chain/tss-lib => ../stubs/tss-lib
	github.com/rs/zerolog => ../stubs/zerolog
	gitlab.com/alephledger/core-go => ../stubs/core-go
	gitlab.com/alephledger/threshold-ecdsa => /repo
	verif/detrand => ../stubs/detrand
)
