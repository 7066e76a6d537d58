//go:build noregion

package main

func nvmShift(n uint16) {}
