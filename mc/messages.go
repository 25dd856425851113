package main

import (
	"fmt"
	"reflect"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/enginekit/message"
	"github.com/dogmatiq/testkit/verifmc/alt"
	other "github.com/dogmatiq/testkit/verifmc/alt/other"
)

// Base is the content of every message of the scripted applications.
type Base = alt.Base

type (
	tA struct{}
	tB struct{}
	tC struct{}
	tE struct{}
	tF struct{}
)

// Cmd is a command.
type Cmd[T any] struct{ Base }

// MessageDescription describes the message.
func (m Cmd[T]) MessageDescription() string { return "cmd<" + m.Tag + ">" }

// Validate validates the message.
func (m Cmd[T]) Validate(dogma.CommandValidationScope) error { return m.Err() }

// Evt is an event.
type Evt[T any] struct{ Base }

// MessageDescription describes the message.
func (m Evt[T]) MessageDescription() string { return "evt<" + m.Tag + ">" }

// Validate validates the message.
func (m Evt[T]) Validate(dogma.EventValidationScope) error { return m.Err() }

// Tmo is a timeout.
type Tmo[T any] struct{ Base }

// MessageDescription describes the message.
func (m Tmo[T]) MessageDescription() string { return "tmo<" + m.Tag + ">" }

// Validate validates the message.
func (m Tmo[T]) Validate(dogma.TimeoutValidationScope) error { return m.Err() }

// Messages that are used by pointer.
type (
	PCmd = alt.PCmd
	PEvt = alt.PEvt
)

type hasBase interface{ Content() Base }

// MT enumerates the message types.
type MT int

const (
	CA MT = iota
	CB
	CC
	CD // pointer type
	CE
	CF
	CG // pointer type with the same name as CD
	EA
	EB
	EC
	ED // pointer type
	EE
	EF
	EG // pointer type with the same name as ED
	TA
	TB
	TC
	TD // pointer type
	TE // pointer type with the same name as TD
	numMT
)

// Kinds of messages.
const (
	kCmd = 'C'
	kEvt = 'E'
	kTmo = 'T'
)

type mtInfo struct {
	kind byte
	rt   reflect.Type
	mk   func(Base) dogma.Message
	name string
}

var mts [numMT]mtInfo
var mtByType = map[reflect.Type]MT{}

func reg[M dogma.Message](t MT, kind byte, mk func(Base) M) {
	rt := reflect.TypeFor[M]()
	mts[t] = mtInfo{kind, rt, func(b Base) dogma.Message { return mk(b) }, message.TypeFromReflect(rt).String()}
	mtByType[rt] = t
}

func init() {
	reg(CA, kCmd, func(b Base) Cmd[tA] { return Cmd[tA]{b} })
	reg(CB, kCmd, func(b Base) Cmd[tB] { return Cmd[tB]{b} })
	reg(CC, kCmd, func(b Base) Cmd[tC] { return Cmd[tC]{b} })
	reg(CD, kCmd, func(b Base) *PCmd { return &PCmd{Base: b} })
	reg(CE, kCmd, func(b Base) Cmd[tE] { return Cmd[tE]{b} })
	reg(CF, kCmd, func(b Base) Cmd[tF] { return Cmd[tF]{b} })
	reg(CG, kCmd, func(b Base) *other.PCmd { return &other.PCmd{Base: b} })
	reg(EA, kEvt, func(b Base) Evt[tA] { return Evt[tA]{b} })
	reg(EB, kEvt, func(b Base) Evt[tB] { return Evt[tB]{b} })
	reg(EC, kEvt, func(b Base) Evt[tC] { return Evt[tC]{b} })
	reg(ED, kEvt, func(b Base) *PEvt { return &PEvt{Base: b} })
	reg(EE, kEvt, func(b Base) Evt[tE] { return Evt[tE]{b} })
	reg(EF, kEvt, func(b Base) Evt[tF] { return Evt[tF]{b} })
	reg(EG, kEvt, func(b Base) *other.PEvt { return &other.PEvt{Base: b} })
	reg(TA, kTmo, func(b Base) Tmo[tA] { return Tmo[tA]{b} })
	reg(TB, kTmo, func(b Base) Tmo[tB] { return Tmo[tB]{b} })
	reg(TC, kTmo, func(b Base) Tmo[tC] { return Tmo[tC]{b} })
	reg(TD, kTmo, func(b Base) *alt.PTmo { return &alt.PTmo{Base: b} })
	reg(TE, kTmo, func(b Base) *other.PTmo { return &other.PTmo{Base: b} })
	mts[TE].name += "(other)"
	mts[CG].name += "(other)"
	mts[EG].name += "(other)"
}

func (t MT) kind() byte                { return mts[t].kind }
func (t MT) String() string            { return mts[t].name }
func (t MT) make(b Base) dogma.Message { return mts[t].mk(b) }

// msgStr renders a message's type and complete content.
func msgStr(m dogma.Message) string {
	if m == nil {
		return "<nil>"
	}
	rt := reflect.TypeOf(m)
	t, ok := mtByType[rt]
	if !ok {
		return fmt.Sprintf("?%T", m)
	}
	if rt.Kind() == reflect.Pointer && reflect.ValueOf(m).IsNil() {
		return t.String() + "{nil}"
	}
	b := m.(hasBase).Content()
	return mStr(t, b)
}

func mStr(t MT, b Base) string {
	s := t.String() + "{" + b.Tag + "@" + b.Inst
	if b.Bad != "" {
		s += "!" + b.Bad
	}
	return s + "}"
}

func tagOf(m dogma.Message) string { return m.(hasBase).Content().Tag }
