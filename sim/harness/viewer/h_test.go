//go:build go1.25

package main

import (
	"testing"

	zzviewer "github.com/barnex/bruteray/zzsim/viewer"
)

func TestMain(m *testing.M) { zzviewer.Main(main) }
