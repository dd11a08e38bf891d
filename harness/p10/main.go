// P10: places, positions and conditions.
package main

import (
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
)

func main() { mc.Main("P10", run) }

func run(k *mc.Check) {
	ef.Run(k, "places", "places g2", "gnss_places g2", "specific_conditions", "specific_conditions g2")
}
