//go:build !verifprobe

package main

func probeLog() []string { return nil }
