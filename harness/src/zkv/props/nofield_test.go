//go:build !zkvfield

package props

// Used only when the overlay that exports the field type does not build.
func init() {
	reg("C03", "the field type could not be reached, so its arithmetic is judged through the curve operations: pairs and lists of curve points; non-trivial: neither point is infinity", 9000, 150000, genC01, checkC01,
		assume("points are canonical: coordinates in [0,P)"))
}
