// P11: identity, licence, chip, usage and control files.
package main

import (
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
)

func main() { mc.Main("P11", run) }

func run(k *mc.Check) {
	ef.Run(k, "icc", "ic", "application_identification", "application_identification g2", "identification", "identification g2", "card_download", "card_download g2", "driving_licence_info", "driving_licence_info g2", "current_usage", "current_usage g2", "control_activity_data", "control_activity_data g2", "application_identification_v2 g2")
}
