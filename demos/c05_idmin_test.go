package processors

import (
	"testing"

	"github.com/patrickbr/gtfsparser"
)

// C05: with every kind of ID kept, no worker is started and Run must return (it crashed: negative channel size).
func TestDemoIDMinimizerKeepAll(t *testing.T) {
	feed := gtfsparser.NewFeed()
	IDMinimizer{Base: 10, KeepStations: true, KeepBlocks: true, KeepTrips: true, KeepRoutes: true, KeepFares: true,
		KeepShapes: true, KeepLevels: true, KeepServices: true, KeepAgencies: true, KeepPathways: true, KeepAttributions: true}.Run(feed)
}
