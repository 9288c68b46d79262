//go:build go1.22

package main

import (
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
)

func main() {
	mc.Main(map[string]func(c *mc.C){
		"C01": checkIDs,
		"C02": checkSortEqual,
		"C03": checkRoundTrip,
		"C04": checkStreams,
		"C05": checkTables,
		"C06": checkCollections,
		"C07": checkCapacity,
	}, map[string]string{
		"C01": "exploration", "C02": "exploration", "C03": "exploration", "C04": "fault_enumeration",
		"C05": "model_checking", "C06": "model_checking", "C07": "model_checking",
	})
}
