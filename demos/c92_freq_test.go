package processors

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

var demoHs = ""
var demoStops = []*gtfs.Stop{{Id: "s0"}, {Id: "s1"}, {Id: "s2"}}
var demoRoute = &gtfs.Route{Id: "r", Type: 3}
var demoService = gtfs.EmptyService()

func demoT(s int) gtfs.Time {
	if s == -1 {
		return gtfs.Time{Hour: -1, Minute: -1, Second: -1}
	}
	return gtfs.Time{Hour: int8(s / 3600), Minute: int8(s / 60 % 60), Second: int8(s % 60)}
}

// demoTrip adds a trip with the given arrival and departure times (-1: none).
func demoTrip(f *gtfsparser.Feed, id string, times ...int) *gtfs.Trip {
	tr := &gtfs.Trip{Id: id, Headsign: &demoHs, Route: demoRoute, Service: demoService}
	for i := 0; i+1 < len(times); i += 2 {
		st := gtfs.StopTime{}
		st.SetStop(demoStops[i/2])
		st.SetHeadsign(&demoHs)
		st.SetSequence(i / 2)
		st.SetArrival_time(demoT(times[i]))
		st.SetDeparture_time(demoT(times[i+1]))
		tr.StopTimes = append(tr.StopTimes, st)
	}
	f.Trips[id] = tr
	return tr
}

func demoFreq(t *gtfs.Trip, from, to, h int) {
	t.Frequencies = &[]*gtfs.Frequency{{Start_time: demoT(from), End_time: demoT(to), Headway_secs: h, Exact_times: true}}
}

// demoDepartures expands all trips.
func demoDepartures(f *gtfsparser.Feed) string {
	var out []string
	for _, t := range f.Trips {
		at := []int{t.StopTimes[0].Departure_time().SecondsSinceMidnight()}
		first := at[0]
		if t.Frequencies != nil && len(*t.Frequencies) > 0 {
			at = nil
			for _, q := range *t.Frequencies {
				for s := q.Start_time.SecondsSinceMidnight(); s < q.End_time.SecondsSinceMidnight(); s += q.Headway_secs {
					at = append(at, s)
				}
			}
		}
		what := ""
		for _, st := range t.StopTimes[1:] {
			if st.Arrival_time().Empty() {
				what += " untimed"
				continue
			}
			what += fmt.Sprintf(" %+d/%+d", st.Arrival_time().SecondsSinceMidnight()-first, st.Departure_time().SecondsSinceMidnight()-first)
		}
		for _, a := range at {
			out = append(out, fmt.Sprintf("%d%s", a, what))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func demoRun(t *testing.T, f *gtfsparser.Feed) {
	before := demoDepartures(f)
	FrequencyMinimizer{MinHeadway: 1, MaxHeadway: 86400}.Run(f)
	if after := demoDepartures(f); after != before {
		t.Errorf("departures before: %s\nafter: %s", before, after)
	}
}

// trips that wait at their first stop departed as early as they arrive there
func TestDemoDwell(t *testing.T) {
	f := gtfsparser.NewFeed()
	for i := 0; i < 3; i++ {
		d := 28800 + 600*i
		demoTrip(f, fmt.Sprint("a", i), d-300, d, d+600, d+600)
	}
	demoRun(t, f)
}

// times left empty became garbage when trips with frequencies were merged
func TestDemoUntimed(t *testing.T) {
	f := gtfsparser.NewFeed()
	demoFreq(demoTrip(f, "a", 0, 0, -1, -1, 1200, 1200), 28800, 32400, 600)
	demoFreq(demoTrip(f, "b", 0, 0, -1, -1, 1200, 1200), 32400, 36000, 600)
	demoRun(t, f)
}

// frequencies of one trip overlapped
func TestDemoOverlap(t *testing.T) {
	f := gtfsparser.NewFeed()
	for i, d := range []int{0, 600, 1200, 1500, 1800, 2100} {
		demoTrip(f, fmt.Sprint("a", i), 28800+d, 28800+d, 29000+d, 29000+d)
	}
	demoRun(t, f)
	for _, tr := range f.Trips {
		if tr.Frequencies == nil {
			continue
		}
		for i, a := range *tr.Frequencies {
			for _, b := range (*tr.Frequencies)[:i] {
				if a.Start_time.Minus(b.End_time) < 0 && b.Start_time.Minus(a.End_time) < 0 {
					t.Errorf("overlapping frequencies %v and %v", *a, *b)
				}
			}
		}
	}
}

// departures of deleted trips were added again, as their non-standard values were gone
func TestDemoDeleted(t *testing.T) {
	for i := 0; i < 20; i++ {
		f := gtfsparser.NewFeed()
		f.TripsAddFlds["x"] = map[string]string{}
		for i := 0; i < 6; i++ {
			d := 28800 + 300*i
			demoTrip(f, fmt.Sprint("a", i), d, d, d+200, d+200)
			if i%2 == 0 {
				f.TripsAddFlds["x"][fmt.Sprint("a", i)] = "special"
			}
		}
		demoRun(t, f)
	}
}

// non-standard values of stop times were compared at the sequence numbers of one of the trips only
func TestDemoSequence(t *testing.T) {
	f := gtfsparser.NewFeed()
	f.StopTimesAddFlds["x"] = map[string]map[int]string{}
	for i := 0; i < 4; i++ {
		d := 28800 + 300*i
		tr := demoTrip(f, fmt.Sprint("a", i), d, d, d+200, d+200)
		if i%2 == 0 {
			tr.StopTimes[0].SetSequence(5)
			tr.StopTimes[1].SetSequence(6)
			f.StopTimesAddFlds["x"][tr.Id] = map[int]string{5: "special"}
		}
	}
	demoRun(t, f)
	n := 0
	for id, tr := range f.Trips {
		if f.StopTimesAddFlds["x"][id][tr.StopTimes[0].Sequence()] != "" {
			n++
			if len(*tr.Frequencies) != 1 || (*tr.Frequencies)[0].Headway_secs != 600 {
				t.Error("departures with a non-standard value:", *(*tr.Frequencies)[0])
			}
		}
	}
	if n != 1 {
		t.Error(n, "trips with the non-standard value")
	}
}

// attributions of trips replaced by a frequency got lost
func TestDemoAttributions(t *testing.T) {
	f := gtfsparser.NewFeed()
	for i := 0; i < 3; i++ {
		d := 28800 + 600*i
		demoTrip(f, fmt.Sprint("a", i), d, d, d+200, d+200).Attributions = &[]*gtfs.Attribution{{Id: fmt.Sprint(i)}}
	}
	demoRun(t, f)
	n := 0
	for _, tr := range f.Trips {
		n += len(*tr.Attributions)
	}
	if n != 3 {
		t.Error(n, "of 3 attributions left")
	}
}
