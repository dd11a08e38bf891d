// P09: vehicles and vehicle units used.
package main

import (
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
)

func main() { mc.Main("P09", run) }

func run(k *mc.Check) { ef.Run(k, "vehicles_used", "vehicles_used g2", "vehicle_units_used g2") }
