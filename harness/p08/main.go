// P08: card event and fault records.
package main

import (
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
)

func main() { mc.Main("P08", run) }

func run(k *mc.Check) { ef.Run(k, "events_data", "events_data g2", "faults_data", "faults_data g2") }
