package main

import "math/rand"

type rnd = rand.Rand

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
