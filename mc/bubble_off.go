//go:build !goexperiment.synctest

package main

const hasBubble = false

func bubble(func()) { panic("there is no virtual clock in this build") }
