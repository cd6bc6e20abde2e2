//go:build verifprobe

package main

import "os"

// probeLog returns what the process has consulted through package os (see probe.go).
func probeLog() []string { return os.VerifLog() }
