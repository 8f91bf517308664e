package processors

import (
	"testing"

	"github.com/patrickbr/gtfsparser"
	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

func st(feed *gtfsparser.Feed, id, name string, lt int8, par *gtfs.Stop, lat float32) *gtfs.Stop {
	tz, _ := gtfs.NewTimezone("")
	s := &gtfs.Stop{Id: id, Name: name, Lat: lat, Lon: 8, Location_type: lt, Parent_station: par, Timezone: tz}
	feed.Stops[id] = s
	return s
}

// stations without stops are kept
func TestDemoStationWithoutStops(t *testing.T) {
	feed := gtfsparser.NewFeed()
	st(feed, "s", "Alpha", 1, nil, 47)
	st(feed, "o", "Beta", 0, nil, 48)
	StopReclusterer{DistThreshold: 75, NameSimiThreshold: 0.55, GridCellSize: 10000}.Run(feed)
	if feed.Stops["s"] == nil {
		t.Error("station without stops was deleted")
	}
}

// transfers of merged stations
func TestDemoTransfers(t *testing.T) {
	feed := gtfsparser.NewFeed()
	a := st(feed, "a", "Alpha Platz", 1, nil, 47)
	b := st(feed, "b", "Alpha Platz", 1, nil, 47.00001)
	st(feed, "a1", "Alpha Platz", 0, a, 47)
	st(feed, "b1", "Alpha Platz", 0, b, 47.00001)
	x := st(feed, "x", "Gamma", 0, nil, 48)
	feed.TransfersAddFlds = map[string]map[gtfs.TransferKey]string{"extra": {}}
	for _, k := range []gtfs.TransferKey{{From_stop: a, To_stop: x}, {From_stop: b, To_stop: x}} {
		feed.Transfers[k] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: 100}
		feed.TransfersAddFlds["extra"][k] = "kept"
	}
	(&StopReclusterer{DistThreshold: 75, NameSimiThreshold: 0.55}).writeCluster(&StopCluster{Parents: []*gtfs.Stop{a, b}, Childs: nil}, feed)
	if len(feed.Transfers) != 1 {
		t.Errorf("%d transfers left", len(feed.Transfers))
	}
	for k := range feed.Transfers {
		if feed.Stops[k.From_stop.Id] == nil {
			t.Error("transfer refers to a deleted station")
		}
		if feed.TransfersAddFlds["extra"][k] != "kept" {
			t.Error("additional field lost")
		}
	}
}

// all stops share all their words
func TestDemoSameWords(t *testing.T) {
	feed := gtfsparser.NewFeed()
	a := st(feed, "a", "Halt", 1, nil, 47)
	b := st(feed, "b", "Halt", 1, nil, 49)
	st(feed, "a1", "Halt", 0, a, 47)
	st(feed, "b1", "Halt", 0, b, 49)
	StopReclusterer{DistThreshold: 75, NameSimiThreshold: 0.55, GridCellSize: 10000}.Run(feed)
	for _, s := range []string{"a", "b", "a1", "b1"} {
		if feed.Stops[s] == nil {
			t.Error("deleted", s)
		} else if p := feed.Stops[s].Parent_station; len(s) == 2 && (p == nil || p.Id != s[:1]) {
			t.Error("parent of", s, "changed")
		}
	}
}

func TestDemoEmptyFeed(t *testing.T) {
	StopReclusterer{DistThreshold: 75, NameSimiThreshold: 0.55, GridCellSize: 10000}.Run(gtfsparser.NewFeed())
}
