//go:build goexperiment.synctest

package main

import "testing/synctest"

const hasBubble = true

// bubble runs f with a virtual clock.
func bubble(f func()) { synctest.Run(f) }
