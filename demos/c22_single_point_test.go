package processors

import (
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// a shape with a single point got this point twice, one without any crashed
func TestDemoSinglePoint(t *testing.T) {
	feed := gtfsparser.NewFeed()
	feed.Shapes["a"] = &gtfs.Shape{Id: "a", Points: gtfs.ShapePoints{{Lat: 1, Lon: 2, Sequence: 3}}}
	feed.Shapes["b"] = &gtfs.Shape{Id: "b"}
	ShapeMinimizer{Epsilon: 1}.Run(feed)
	if n := len(feed.Shapes["a"].Points); n != 1 {
		t.Error("a shape with 1 point has", n)
	}
}
