package processors

import (
	"github.com/patrickbr/gtfsparser"
	gtfs "github.com/patrickbr/gtfsparser/gtfs"
	"testing"
)

func TestDemoSortOrder(t *testing.T) {
	feed := gtfsparser.NewFeed()
	for i, id := range []string{"a", "b"} {
		feed.Routes[id] = &gtfs.Route{Id: id, Sort_order: i + 1, Continuous_drop_off: 1, Continuous_pickup: 1}
	}
	RouteDuplicateRemover{}.Run(feed)
	if len(feed.Routes) != 2 {
		t.Error("routes that differ in sort order were merged")
	}
}

func TestDemoDirection(t *testing.T) {
	feed := gtfsparser.NewFeed()
	hs := ""
	s := gtfs.EmptyService()
	s.SetId("s")
	s.SetExceptions(map[gtfs.Date]bool{gtfs.NewDate(1, 1, 2020): true})
	feed.Services["s"] = s
	r := &gtfs.Route{Id: "r", Type: 3}
	feed.Routes["r"] = r
	st := &gtfs.Stop{Id: "s1"}
	st2 := &gtfs.Stop{Id: "s2"}
	feed.Stops["s1"], feed.Stops["s2"] = st, st2
	for i, id := range []string{"a", "b"} {
		tr := &gtfs.Trip{Id: id, Route: r, Service: s, Headsign: &hs, Direction_id: int8(i)}
		tr.StopTimes = make(gtfs.StopTimes, 2)
		tr.StopTimes[0].SetStop(st)
		tr.StopTimes[0].SetSequence(1)
		tr.StopTimes[1].SetStop(st2)
		tr.StopTimes[1].SetSequence(2)
		feed.Trips[id] = tr
	}
	TripDuplicateRemover{}.Run(feed)
	if len(feed.Trips) != 2 {
		t.Error("trips that differ in direction were merged")
	}
}
