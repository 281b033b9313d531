package engine

import (
	"encoding/hex"
	"sort"

	"verif.local/sim/simrt"
)

func newNode(name string) *simrt.Node { return &simrt.Node{Name: name} }

func sortedStrings(x []string) []string {
	y := append([]string{}, x...)
	sort.Strings(y)
	return y
}

func hexID(b []byte) string { return hex.EncodeToString(b) }

func sortedKeys(m map[string][]byte) []string {
	var x []string
	for k := range m {
		x = append(x, k)
	}
	return sortedStrings(x)
}
