package processors

import (
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// C04: transfers between replaced trips must not be left behind.
func TestDemoNonOverlapTransfers(t *testing.T) {
	feed := gtfsparser.NewFeed()
	s := gtfs.EmptyService()
	s.SetId("s")
	s.SetExceptionTypeOn(gtfs.NewDate(6, 1, 2020), 1)
	feed.Services["s"] = s
	a, b := &gtfs.Trip{Id: "a", Service: s}, &gtfs.Trip{Id: "b", Service: s}
	feed.Trips["a"], feed.Trips["b"] = a, b
	feed.Transfers[gtfs.TransferKey{From_trip: a, To_trip: b}] = gtfs.TransferVal{}
	ServiceNonOverlapper{DayNames: []string{"Su", "Mo", "Tu", "We", "Th", "Fr", "Sa"}, YearWeekName: "WW"}.Run(feed)
	for k := range feed.Transfers {
		if feed.Trips[k.From_trip.Id] != k.From_trip || feed.Trips[k.To_trip.Id] != k.To_trip {
			t.Error("dangling transfer")
		}
	}
}
