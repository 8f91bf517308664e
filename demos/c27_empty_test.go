package processors

import (
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// two equal trips whose services have no active day left crashed the fuzzy mode
func TestDemoEmptyServices(t *testing.T) {
	feed := gtfsparser.NewFeed()
	hs := ""
	s := &gtfs.Stop{Id: "s"}
	route := &gtfs.Route{Id: "r", Type: 3}
	for _, id := range []string{"a", "b"} {
		sv := gtfs.EmptyService()
		sv.SetId("S" + id)
		d := gtfs.NewDate(1, 5, 2024)
		sv.SetDaymap(int(d.GetTime().Weekday()), true)
		sv.SetStart_date(d)
		sv.SetEnd_date(d)
		sv.SetExceptions(map[gtfs.Date]bool{d: false})
		feed.Services[sv.Id()] = sv
		tr := &gtfs.Trip{Id: id, Headsign: &hs, Route: route, Service: sv}
		for i := 0; i < 2; i++ {
			st := gtfs.StopTime{}
			st.SetStop(s)
			st.SetHeadsign(&hs)
			st.SetSequence(i)
			st.SetArrival_time(gtfs.Time{Hour: 8, Minute: int8(i)})
			st.SetDeparture_time(gtfs.Time{Hour: 8, Minute: int8(i)})
			tr.StopTimes = append(tr.StopTimes, st)
		}
		feed.Trips[id] = tr
	}
	TripDuplicateRemover{Fuzzy: true}.Run(feed)
	if len(feed.Trips) != 1 {
		t.Error(len(feed.Trips), "trips left")
	}
}
