package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/dogmatiq/testkit/location"
)

// selFull keeps everything except what the aggregate root shows while a
// command is being handled (which is the subject of C04 alone).
func selFull(e *Ev) string {
	if e.K == "agg.See" {
		return ""
	}
	return e.String()
}

// selMethods keeps all calls of handler methods and how operations end.
func selMethods(e *Ev) string {
	if strings.HasPrefix(e.K, "f.") || e.K == "agg.See" {
		return ""
	}
	if e.K == "return" {
		return e.K
	}
	return e.String()
}

// locProblem checks the source location carried by the diagnosis of a contract
// violation.
func locProblem(run *Run, v any) string {
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Struct {
		return ""
	}
	var loc location.Location
	var name string
	for _, n := range []string{"Location", "PanicLocation"} {
		f := rv.FieldByName(n)
		if f.IsValid() && f.CanInterface() {
			if l, ok := f.Interface().(location.Location); ok {
				loc, name = l, n
			}
		}
	}
	if name == "" {
		return ""
	}
	m := rv.FieldByName("Method")
	d := rv.FieldByName("Description")
	desc := ""
	if d.IsValid() {
		desc = d.String()
	}
	if desc != "" && (strings.HasPrefix(m.String(), "Route") || m.String() == "New") {
		// The location is that of the method at fault.
		if !strings.HasSuffix(loc.File, "/app.go") || !strings.HasSuffix(loc.Func, "."+m.String()) || loc.Line == 0 {
			return fmt.Sprintf("location of %s is %v (%s)", m, loc, loc.Func)
		}
		return ""
	}
	if loc.File != run.markFile || loc.Line != run.markLine {
		return fmt.Sprintf("location is %s:%d, want %s:%d", loc.File, loc.Line, run.markFile, run.markLine)
	}
	return ""
}
