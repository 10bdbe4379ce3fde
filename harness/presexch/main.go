// Command presexch replays the behaviours of PexReq.tla, PexWallet.tla, PexMatch.tla, PexField.tla and PexLimit.tla.
package main

import (
	"github.com/trustbloc/vc-go/zzverif/lib"
)

func main() {
	lib.Main(map[string]func(*lib.T){"req": req, "reqmatch": reqMatch, "wallet": walletCreate, "match": match, "walletmatch": walletMatch, "field": fieldMode, "limit": limitMode}, nil)
}
