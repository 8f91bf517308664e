package processors

import (
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// C09: a station whose only platform has only an unused boarding area is unused, too.
func TestDemoOrphanChain(t *testing.T) {
	for i := 0; i < 20; i++ {
		feed := gtfsparser.NewFeed()
		st := &gtfs.Stop{Id: "st", Location_type: 1}
		pl := &gtfs.Stop{Id: "pl", Parent_station: st}
		ba := &gtfs.Stop{Id: "ba", Location_type: 4, Parent_station: pl}
		feed.Stops["st"], feed.Stops["pl"], feed.Stops["ba"] = st, pl, ba
		OrphanRemover{}.Run(feed)
		if len(feed.Stops) != 0 {
			t.Fatal("unreferenced stops left", feed.Stops)
		}
	}
}
