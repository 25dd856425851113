package main

import (
	"fmt"
	"strings"
	"time"
)

var epoch = time.Date(2030, 1, 1, 12, 0, 0, 0, time.UTC)

// at returns times relative to the epoch.
func at(d ...time.Duration) []time.Time {
	var r []time.Time
	for _, x := range d {
		r = append(r, epoch.Add(x))
	}
	return r
}

// chooseActs chooses up to max actions; each costs one deviation.
func chooseActs(c *Chooser, alpha []Act, max int) []Act {
	var r []Act
	for len(r) < max {
		k := c.Dev(len(alpha) + 1)
		if k == 0 {
			break
		}
		r = append(r, alpha[k-1])
	}
	return r
}

func rec(t MT, inst string) Act           { return Act{Op: oRecord, MT: t, Inst: inst} }
func sched(t MT, inst string, at int) Act { return Act{Op: oRecord, MT: t, Inst: inst, At: at} }
func end() Act                            { return Act{Op: oEnd} }
func logAct() Act                         { return Act{Op: oLog} }
func cancelAct() Act                      { return Act{Op: oCancel} }

func disp(t MT, tag, inst string, now int) Op {
	return Op{Kind: 'd', MT: t, Base: Base{Tag: tag, Inst: inst}, Now: now}
}
func tick(now int) Op { return Op{Kind: 't', Now: now} }
func reset() Op       { return Op{Kind: 'r'} }

func optag(i int) string { return fmt.Sprintf("m%d", i) }

// seqOps chooses up to max operations from alpha. The time of an operation
// never precedes that of the previous one when mono is set.
func seqOps(alpha []Op, max int, mono bool) func(*Chooser, int, *Model) (Op, bool) {
	return func(c *Chooser, i int, m *Model) (Op, bool) {
		if i >= max {
			return Op{}, false
		}
		cand := alpha
		if mono && i > 0 {
			last := 0
			for _, o := range m.scn.Ops {
				if o.Kind != 'r' {
					last = o.Now
				}
			}
			cand = nil
			for _, o := range alpha {
				if o.Kind == 'r' || o.Now >= last {
					cand = append(cand, o)
				}
			}
		}
		n := len(cand)
		if i > 0 {
			n++ // stop
		}
		k := c.Choose(n)
		if i > 0 {
			if k == 0 {
				return Op{}, false
			}
			k--
		}
		op := cand[k]
		if op.Kind == 'd' && op.Base.Tag == "" {
			op.Base.Tag = optag(i)
		}
		return op, true
	}
}

// fixedOps performs the given operations.
func fixedOps(ops ...Op) func(*Chooser, int, *Model) (Op, bool) {
	return func(_ *Chooser, i int, _ *Model) (Op, bool) {
		if i >= len(ops) {
			return Op{}, false
		}
		op := ops[i]
		if op.Kind == 'd' && op.Base.Tag == "" {
			op.Base.Tag = optag(i)
		}
		return op, true
	}
}

// depth of a message, derived from its tag.
func depth(tag string) int { return strings.Count(tag, ".") }

// stripCtx removes the context marker.
func cut(s, sep string) string {
	if i := strings.Index(s, sep); i >= 0 {
		return s[:i]
	}
	return s
}
