//go:build !noregion

package main

import "github.com/thesues/cannyls-go/nvm"

// smaller regions make smaller stores interesting
func nvmShift(n uint16) { nvm.DEFAULT_REGION_SHIFT = n }
