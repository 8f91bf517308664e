package processors

import (
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// C23: the geo filter must remove the pathways of removed stops, and keep the stations of used boarding areas.
func TestDemoGeoFilterReferences(t *testing.T) {
	feed := gtfsparser.NewFeed()
	st := &gtfs.Stop{Id: "st", Location_type: 1, Lat: 50, Lon: 50}
	pl := &gtfs.Stop{Id: "pl", Parent_station: st, Lat: 50, Lon: 50}
	ba := &gtfs.Stop{Id: "ba", Location_type: 4, Parent_station: pl, Lat: 0.5, Lon: 0.5}
	nd := &gtfs.Stop{Id: "nd", Location_type: 3, Parent_station: st, Lat: 50, Lon: 50}
	for _, s := range []*gtfs.Stop{st, pl, ba, nd} {
		feed.Stops[s.Id] = s
	}
	feed.Pathways["p"] = &gtfs.Pathway{Id: "p", From_stop: ba, To_stop: nd}
	feed.FareAttributes["p"] = &gtfs.FareAttribute{Id: "p"}
	poly := gtfsparser.NewPolygon([][2]float64{{0, 0}, {0, 1}, {1, 1}, {1, 0}, {0, 0}}, nil)
	CompleteTripsGeoFilter{Polygons: []gtfsparser.Polygon{poly}}.Run(feed)
	for _, s := range feed.Stops {
		if s.Parent_station != nil && feed.Stops[s.Parent_station.Id] == nil {
			t.Error("dangling parent of", s.Id)
		}
	}
	for _, p := range feed.Pathways {
		if feed.Stops[p.From_stop.Id] == nil || feed.Stops[p.To_stop.Id] == nil {
			t.Error("dangling pathway")
		}
	}
	if len(feed.FareAttributes) != 1 {
		t.Error("fare removed")
	}
}
