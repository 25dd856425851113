// Package alt contains message types that have the same names as those of the
// package of the same name.
package alt

import (
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/verifmc/alt"
)

// PCmd is a command that is used by pointer.
type PCmd struct{ alt.Base }

// MessageDescription describes the message.
func (m *PCmd) MessageDescription() string { return "cmd<" + m.Tag + ">" }

// Validate validates the message.
func (m *PCmd) Validate(dogma.CommandValidationScope) error { return m.Err() }

// PEvt is an event that is used by pointer.
type PEvt struct{ alt.Base }

// MessageDescription describes the message.
func (m *PEvt) MessageDescription() string { return "evt<" + m.Tag + ">" }

// Validate validates the message.
func (m *PEvt) Validate(dogma.EventValidationScope) error { return m.Err() }

// PTmo is a timeout that is used by pointer.
type PTmo struct{ alt.Base }

// MessageDescription describes the message.
func (m *PTmo) MessageDescription() string { return "tmo<" + m.Tag + ">" }

// Validate validates the message.
func (m *PTmo) Validate(dogma.TimeoutValidationScope) error { return m.Err() }
