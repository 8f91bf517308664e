package processors

import (
	"fmt"
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// C08: trips "1".."9" are renamed among themselves; the non-standard values must follow their trip, also those
// of frequencies and fare rules.
func TestDemoIDMinimizerAddFlds(t *testing.T) {
	feed := gtfsparser.NewFeed()
	feed.TripsAddFlds["col"] = map[string]string{}
	feed.FrequenciesAddFlds["col"] = map[string]map[*gtfs.Frequency]string{}
	feed.FareRulesAddFlds["col"] = map[string]map[*gtfs.FareAttributeRule]string{}
	want := map[*gtfs.Trip]string{}
	for i := 1; i < 10; i++ {
		id := fmt.Sprint(i)
		f := &gtfs.Frequency{}
		fr := []*gtfs.Frequency{f}
		tr := &gtfs.Trip{Id: id, Frequencies: &fr}
		feed.Trips[id] = tr
		want[tr] = "v" + id
		feed.TripsAddFlds["col"][id] = "v" + id
		feed.FrequenciesAddFlds["col"][id] = map[*gtfs.Frequency]string{f: "v" + id}
	}
	r := &gtfs.FareAttributeRule{}
	fare := &gtfs.FareAttribute{Id: "fare", Rules: []*gtfs.FareAttributeRule{r}}
	feed.FareAttributes["fare"] = fare
	feed.FareRulesAddFlds["col"]["fare"] = map[*gtfs.FareAttributeRule]string{r: "rv"}
	IDMinimizer{Base: 10}.Run(feed)
	for tr, v := range want {
		if g := feed.TripsAddFlds["col"][tr.Id]; g != v {
			t.Errorf("trip: %q instead of %q", g, v)
		}
		if g := feed.FrequenciesAddFlds["col"][tr.Id][(*tr.Frequencies)[0]]; g != v {
			t.Errorf("frequency: %q instead of %q", g, v)
		}
	}
	if g := feed.FareRulesAddFlds["col"][fare.Id][r]; g != "rv" {
		t.Errorf("fare rule: %q", g)
	}
}
