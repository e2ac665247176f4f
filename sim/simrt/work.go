package simrt

// Weigh switches the measuring of work on.
var Weigh bool

// Work is the amount of data handed to functions that are not rewritten.
var Work int64

// W adds to Work. The operands may not be there if the statement would not
// have looked at them.
func W(f func() int) {
	defer func() { recover() }()
	Work += int64(f())
}
