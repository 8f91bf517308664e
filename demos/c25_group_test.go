package processors

import (
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

func demoSt(stop *gtfs.Stop, seq int, min int8, pickup, dropoff uint8, dist float32) gtfs.StopTime {
	hs := ""
	r := gtfs.StopTime{}
	r.SetStop(stop)
	r.SetHeadsign(&hs)
	r.SetSequence(seq)
	r.SetArrival_time(gtfs.Time{Hour: 8, Minute: min})
	r.SetDeparture_time(gtfs.Time{Hour: 8, Minute: min})
	r.SetPickup_type(pickup)
	r.SetDrop_off_type(dropoff)
	r.SetShape_dist_traveled(dist)
	return r
}

// an arrival without boarding followed by a departure without alighting became a stop without both
func TestDemoGroupRules(t *testing.T) {
	feed := gtfsparser.NewFeed()
	s := &gtfs.Stop{Id: "s"}
	a, b := demoSt(s, 1, 1, 1, 0, 5), demoSt(s, 2, 2, 0, 1, 5)
	b.SetHeadsign(a.Headsign())
	feed.Trips["t"] = &gtfs.Trip{Id: "t", StopTimes: gtfs.StopTimes{a, b}}
	AdjacentStopTimeGrouper{}.Run(feed)
	sts := feed.Trips["t"].StopTimes
	if len(sts) != 1 || sts[0].Pickup_type() != 0 || sts[0].Drop_off_type() != 0 || sts[0].Departure_time().Minute != 2 {
		t.Error("grouped to", len(sts), sts[0].Pickup_type(), sts[0].Drop_off_type())
	}
}

// stop times at different distances, continuous drop-offs or exactness of times were grouped
func TestDemoGroupDifferent(t *testing.T) {
	for i := 0; i < 3; i++ {
		feed := gtfsparser.NewFeed()
		s := &gtfs.Stop{Id: "s"}
		a, b := demoSt(s, 1, 1, 0, 0, 5), demoSt(s, 2, 2, 0, 0, 5)
		b.SetHeadsign(a.Headsign())
		switch i {
		case 0:
			b.SetShape_dist_traveled(6)
		case 1:
			b.SetContinuous_drop_off(2)
		case 2:
			b.SetTimepoint(true)
		}
		feed.Trips["t"] = &gtfs.Trip{Id: "t", StopTimes: gtfs.StopTimes{a, b}}
		AdjacentStopTimeGrouper{}.Run(feed)
		if n := len(feed.Trips["t"].StopTimes); n != 2 {
			t.Error(i, "grouped to", n)
		}
	}
}
