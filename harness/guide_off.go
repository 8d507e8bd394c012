//go:build !guided

package main

func coverCounters() []byte { return nil }
