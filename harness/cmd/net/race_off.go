//go:build !race

package main

func races() int { panic("not built with the race detector") }
