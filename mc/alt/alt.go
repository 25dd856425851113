// Package alt contains the content of messages, and the message types that are
// used by pointer.
package alt

import (
	"errors"

	"github.com/dogmatiq/dogma"
)

// Base is the content of every message of the scripted applications.
type Base struct {
	Tag  string // unique within an execution
	Inst string // instance the message is routed to by default
	Bad  string // validation error, if not empty
}

// Err returns the validation error.
func (b Base) Err() error {
	if b.Bad != "" {
		return errors.New(b.Bad)
	}
	return nil
}

// Content returns the content of the message.
func (b Base) Content() Base { return b }

// PCmd is a command that is used by pointer.
type PCmd struct{ Base }

// MessageDescription describes the message.
func (m *PCmd) MessageDescription() string { return "cmd<" + m.Tag + ">" }

// Validate validates the message.
func (m *PCmd) Validate(dogma.CommandValidationScope) error { return m.Err() }

// PEvt is an event that is used by pointer.
type PEvt struct{ Base }

// MessageDescription describes the message.
func (m *PEvt) MessageDescription() string { return "evt<" + m.Tag + ">" }

// Validate validates the message.
func (m *PEvt) Validate(dogma.EventValidationScope) error { return m.Err() }

// PTmo is a timeout that is used by pointer.
type PTmo struct{ Base }

// MessageDescription describes the message.
func (m *PTmo) MessageDescription() string { return "tmo<" + m.Tag + ">" }

// Validate validates the message.
func (m *PTmo) Validate(dogma.TimeoutValidationScope) error { return m.Err() }

// Pointer is implemented by these types of messages only.
func (m *PCmd) Pointer() {}

// Pointer is implemented by these types of messages only.
func (m *PEvt) Pointer() {}
