//go:build race

package main

import "runtime"

// races is the number of data races seen so far.
func races() int { return runtime.RaceErrors() }
