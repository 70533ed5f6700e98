package zzverif

import "testing"

// Run under the race detector, when an obligation of C19 has failed or on the thorough tier.
func TestVerifC19_replay(t *testing.T) {
	defer report(t)
	for i := 0; i < 5; i++ {
		storesAtOnce(t)
	}
}
