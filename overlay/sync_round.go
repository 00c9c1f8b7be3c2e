package sync

// Access to the number of the round a server is in, for the lemmas. Added by overlay, not part of the repository.

// VSetRound makes r the number of the next round
func VSetRound(s Server, r int64) { s.(*server /*type*/).roundID /*server.roundID*/ = r - 1 }
