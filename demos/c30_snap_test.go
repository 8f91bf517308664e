package processors

import (
	"math"
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// demoSnap snaps the stop of a trip on a shape along a meridian, with points 0.01 degrees (1.1 km) apart.
func demoSnap(lat, lon, meas float32, shape ...float32) (*gtfsparser.Feed, *gtfs.Stop) {
	f := gtfsparser.NewFeed()
	sh := &gtfs.Shape{Id: "s"}
	for i, m := range shape {
		sh.Points = append(sh.Points, gtfs.ShapePoint{Lat: 48 + 0.01*float32(i), Lon: 8, Sequence: uint32(i), Dist_traveled: m})
	}
	f.Shapes["s"] = sh
	f.Stops["a"] = &gtfs.Stop{Id: "a", Lat: lat, Lon: lon}
	hs := ""
	tr := &gtfs.Trip{Id: "t", Shape: sh, StopTimes: make([]gtfs.StopTime, 1)}
	tr.StopTimes[0].SetStop(f.Stops["a"])
	tr.StopTimes[0].SetHeadsign(&hs)
	tr.StopTimes[0].SetShape_dist_traveled(meas)
	f.Trips["t"] = tr
	f.StopsAddFlds["x"] = map[string]string{"a": "value"}
	ShapeSnapper{MaxDist: 100}.Run(f)
	return f, tr.StopTimes[0].Stop()
}

func near(s *gtfs.Stop, lat, lon float64) bool {
	return math.Abs(float64(s.Lat)-lat) < 1e-4 && math.Abs(float64(s.Lon)-lon) < 1e-4
}

var nan = float32(math.NaN())

// new stops had no non-standard fields
func TestDemoAddFlds(t *testing.T) {
	f, s := demoSnap(48.005, 8.003, nan, nan, nan)
	if f.StopsAddFlds["x"][s.Id] != "value" {
		t.Error("field of the new stop is lost")
	}
}

// measurements on the first segment were not used
func TestDemoFirstSegment(t *testing.T) {
	if _, s := demoSnap(48.009, 8, 0.2, 0, 1, 2); !near(s, 48.002, 8) {
		t.Errorf("stop measured at 0.2 is at %g,%g", s.Lat, s.Lon)
	}
}

// points with the same measurement made the place undetermined
func TestDemoEqual(t *testing.T) {
	if _, s := demoSnap(48.025, 8.003, 2, 0, 2, 2, 3); !near(s, 48.01, 8) && !near(s, 48.02, 8) {
		t.Errorf("stop measured at 2 is at %g,%g", s.Lat, s.Lon)
	}
	if _, s := demoSnap(48.015, 8.003, 2, 0, 2, 2, 3); s.Id == "a" {
		t.Errorf("stop measured at 2 stays at %g,%g", s.Lat, s.Lon)
	}
}

// stops of trips on a shape with only one point went to 0,0
func TestDemoSinglePoint(t *testing.T) {
	if _, s := demoSnap(48, 8.003, nan, nan); !near(s, 48, 8) {
		t.Errorf("stop is at %g,%g", s.Lat, s.Lon)
	}
}
