package sync

// Construction of round errors, for the lemmas. Added by overlay, not part of the repository.

func VRoundError(msg string, missing []uint16) *RoundError {
	return &RoundError{msg /*RoundError.msg*/ : msg, missing /*RoundError.missing*/ : missing}
}
