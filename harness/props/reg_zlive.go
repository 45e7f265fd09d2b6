package props

// (named so as to be initialised after the properties)
func init() {
	res := func(s int) interface{} { return &ResCase{Live: s} }
	tok := func(s int) interface{} { return &TokenCase{Live: s} }
	aut := func(s int) interface{} { return &AuthzCase{Live: s} }
	for _, id := range []string{"A05", "A06", "A07", "A08"} {
		withLive(id, aut)
	}
	for _, id := range []string{"T04", "T07", "T08", "T09"} {
		withLive(id, tok)
	}
	withLive("R01", res)
	withLive("I01", func(s int) interface{} { return &IDTCase{Live: s} })
}
