//go:build go1.25

package main

import (
	"testing"

	zzwatch "github.com/barnex/bruteray/zzsim/watch"
)

func TestMain(m *testing.M) { zzwatch.Main(main) }
