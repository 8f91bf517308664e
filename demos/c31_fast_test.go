package processors

import (
	"fmt"
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

func demoT(s int) gtfs.Time {
	if s == -1 {
		return gtfs.Time{Hour: -1, Minute: -1, Second: -1}
	}
	return gtfs.Time{Hour: int8(s / 3600), Minute: int8(s / 60 % 60), Second: int8(s % 60)}
}

// demoDropped tells whether a trip over places (in metres along the equator) at times in seconds is dropped.
func demoDropped(typ int16, at ...int) bool {
	f := gtfsparser.NewFeed()
	hs := ""
	tr := &gtfs.Trip{Id: "t", Route: &gtfs.Route{Id: "r", Type: typ}, Service: gtfs.EmptyService(), Headsign: &hs}
	for i := 0; i+1 < len(at); i += 2 {
		s := &gtfs.Stop{Id: fmt.Sprint(i), Lon: float32(at[i]) / 111319.5}
		f.Stops[s.Id] = s
		st := gtfs.StopTime{}
		st.SetStop(s)
		st.SetHeadsign(&hs)
		st.SetSequence(i)
		st.SetArrival_time(demoT(at[i+1]))
		st.SetDeparture_time(demoT(at[i+1]))
		tr.StopTimes = append(tr.StopTimes, st)
	}
	f.Trips["t"] = tr
	TooFastTripRemover{}.Run(f)
	return len(f.Trips) == 0
}

// ways over stops without times were not checked, or took no time
func TestDemoUntimed(t *testing.T) {
	if !demoDropped(3, 0, 0, 4000, -1, 8000, 120) {
		t.Error("a bus going 240 km/h is kept")
	}
	if demoDropped(3, 0, 0, 1000, -1, 9000, -1, 10000, 900) {
		t.Error("a bus going 40 km/h is dropped")
	}
}

// only sections that did not start at the first stop were checked
func TestDemoFirst(t *testing.T) {
	if !demoDropped(3, 0, 0, 6000, 90, 12000, 180) {
		t.Error("a bus going 240 km/h is kept")
	}
}
