package h

import (
	_ "embed"
	"encoding/json"
	"fmt"
)

// Programs leading to every shape of the map with two and three keys, derived by TLC (spec/MapGen.tla).
//
//go:embed shapes.json
var shapesJSON []byte

// Shapes returns the programs as lists of (method, key).
func Shapes(keys int) [][][2]any {
	var all map[string][][][2]any
	if err := json.Unmarshal(shapesJSON, &all); err != nil {
		panic(err)
	}
	return all[fmt.Sprint(keys)]
}
