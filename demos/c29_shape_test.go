package processors

import (
	"math"
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// points before the first measured one got measures beyond it
func TestDemoLeading(t *testing.T) {
	nan := float32(math.NaN())
	f := gtfsparser.NewFeed()
	sh := &gtfs.Shape{Id: "s"}
	for i, m := range []float32{nan, nan, 0.5, 1.5, 2.5} {
		sh.Points = append(sh.Points, gtfs.ShapePoint{Lat: 48, Lon: 8 + 0.01*float32(i), Sequence: uint32(i), Dist_traveled: m})
	}
	f.Shapes["s"] = sh
	ShapeRemeasurer{}.Run(f)
	for i := range sh.Points {
		if i > 0 && !(sh.Points[i].Dist_traveled >= sh.Points[i-1].Dist_traveled) {
			t.Errorf("point %d measured %g, the one before %g", i, sh.Points[i].Dist_traveled, sh.Points[i-1].Dist_traveled)
		}
	}
}
