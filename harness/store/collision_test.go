package store

// Two block hashes whose filter keys (the first 6 bytes of a Hash160) are equal, found by a search over 2^24 candidates.
const (
	collisionA = "f0378700000000006e65757472696e6f2066696c746572206b657920636f6c6c"
	collisionB = "bd9f1001000000006e65757472696e6f2066696c746572206b657920636f6c6c"

	collisionFinding = "the filter stored for block hash f0378700..6c is returned for block hash bd9f1001..6c, for which none was stored: filters are kept under 48 bits of a hash"
)

// Pairs of block hashes whose keys are equal in their first 5 bytes only.
var nearPairs = [][2]string{
	{"b5450600000000006e65757472696e6f2066696c746572206b6579206e656172", "16a20c00000000006e65757472696e6f2066696c746572206b6579206e656172"},
	{"2c0e0d00000000006e65757472696e6f2066696c746572206b6579206e656172", "aea71c00000000006e65757472696e6f2066696c746572206b6579206e656172"},
}
