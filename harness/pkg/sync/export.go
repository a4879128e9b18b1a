//verif:props C40 C41 C42 C43 C44 C45 C46 C47 C48 C49 C50 C51 C52 C53 C54 C55
package sync

// ZZRoundError is an error of a round that names the given parties.
func ZZRoundError(msg string, missing []uint16) error { return newRoundError(msg, missing) }
