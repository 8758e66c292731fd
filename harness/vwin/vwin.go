// Package vwin is a Windows console as the kernel shows it: one screen buffer, and key events to read.
package vwin

import "errors"

// Console is the state of the console.
type Console struct {
	W, H, X, Y int16 // size and cursor
	Fail       bool  // asking for the state fails
	Calls      []Call
	Keys       []Key
}

// Call is a call which changes the console.
type Call struct {
	Name string
	A, B uint32
	X, Y int16
	Text string
}

// Key is an input record.
type Key struct {
	Type uint16 // EVENT_KEY is 1
	Down bool
	Code uint16
	Char uint16
}

// C is the console.
var C = &Console{W: 80, H: 25}

// Err is what failing calls report.
var Err = errors.New("console")

func (c *Console) call(name string, a, b uint32, x, y int16) error {
	c.Calls = append(c.Calls, Call{name, a, b, x, y, ""})
	return nil
}

func SetCursor(x, y int16) error {
	C.X, C.Y = x, y
	return C.call("cursor", 0, 0, x, y)
}

func SetAttr(a uint32) error { return C.call("attr", a, 0, 0, 0) }

func Fill(ch, n uint32, x, y int16) error { return C.call("fill", ch, n, x, y) }

func FillAttr(a, n uint32, x, y int16) error { return C.call("fillattr", a, n, x, y) }
