package simrt

import "embed"

// What the instrumenter found of the generator that turns the SLIP-44
// document into source lines.
var (
	CoinGenerator any // func() or func() error
	CoinDocument  *embed.FS
	CoinFileName  *string
)
