package processors

import (
	"net/url"
	"testing"

	"github.com/patrickbr/gtfsparser"
	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

func TestDemoUrl(t *testing.T) {
	feed := gtfsparser.NewFeed()
	for _, id := range []string{"a", "b"} {
		u, _ := url.Parse("http://example.com/s")
		feed.Stops[id] = &gtfs.Stop{Id: id, Name: "S", Lat: 47, Lon: 8, Url: u}
	}
	StopDuplicateRemover{DistThresholdStop: 2, DistThresholdStation: 50}.Run(feed)
	if len(feed.Stops) != 1 {
		t.Error("identical stops were not merged")
	}
}
