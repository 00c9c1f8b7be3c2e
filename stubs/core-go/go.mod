module gitlab.com/alephledger/core-go

go 1.19

require github.com/rs/zerolog v0.0.0

replace github.com/rs/zerolog => ../zerolog
