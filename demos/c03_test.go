package processors

import (
	"github.com/patrickbr/gtfsparser"
	gtfs "github.com/patrickbr/gtfsparser/gtfs"
	"testing"
)

func stopsFeed() (*gtfsparser.Feed, map[string]*gtfs.Stop) {
	feed := gtfsparser.NewFeed()
	feed.TransfersAddFlds = map[string]map[gtfs.TransferKey]string{"extra": {}}
	m := map[string]*gtfs.Stop{}
	for _, id := range []string{"a", "b", "x"} {
		s := &gtfs.Stop{Id: id, Name: "S", Lat: 47, Lon: 8}
		if id == "x" {
			s.Name = "X"
		}
		feed.Stops[id] = s
		m[id] = s
	}
	return feed, m
}

func checkTransfers(t *testing.T, feed *gtfsparser.Feed) {
	for tk, v := range feed.Transfers {
		for _, s := range []*gtfs.Stop{tk.From_stop, tk.To_stop} {
			if _, ok := feed.Stops[s.Id]; !ok {
				t.Errorf("transfer refers to removed stop %s", s.Id)
			}
		}
		if v.Min_transfer_time == 0 {
			t.Error("transfer lost its data")
		}
		if feed.TransfersAddFlds["extra"][tk] != "kept" {
			t.Error("transfer lost its additional field")
		}
	}
}

func run(t *testing.T, pairs ...string) {
	feed, m := stopsFeed()
	for _, p := range pairs {
		k := gtfs.TransferKey{From_stop: m[p[:1]], To_stop: m[p[1:]]}
		feed.Transfers[k] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: 100}
		feed.TransfersAddFlds["extra"][k] = "kept"
	}
	StopDuplicateRemover{DistThresholdStop: 2, DistThresholdStation: 50}.Run(feed)
	if len(feed.Stops) != 2 {
		t.Error("not merged")
	}
	checkTransfers(t, feed)
}

func TestDemoBoth(t *testing.T)     { run(t, "ax", "bx") }
func TestDemoInternal(t *testing.T) { run(t, "ab", "ba") }
func TestDemoSingle(t *testing.T)   { run(t, "bx") }
