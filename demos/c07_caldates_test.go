package processors

import (
	"fmt"
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// C07: "s" + "11" and "s1" + "1" were the same new ID, and a service (or trip) was overwritten.
func TestDemoCalDatesIds(t *testing.T) {
	for run := 0; run < 50; run++ {
		feed := gtfsparser.NewFeed()
		for _, id := range []string{"s", "s1"} {
			s := gtfs.EmptyService()
			s.SetId(id)
			for d := uint8(1); d <= 12; d++ {
				s.SetExceptionTypeOn(gtfs.NewDate(d, 1, 2020), 1)
			}
			feed.Services[id] = s
			tr := &gtfs.Trip{Id: "t" + id, Service: s}
			feed.Trips[tr.Id] = tr
		}
		ServiceCalDatesRem{}.Run(feed)
		if n := len(feed.Trips); n != 24 {
			t.Fatal(fmt.Sprint(n, " trips instead of 24"))
		}
		for _, tr := range feed.Trips {
			if feed.Services[tr.Service.Id()] != tr.Service {
				t.Fatal("service " + tr.Service.Id() + " of a trip is not in the feed")
			}
		}
	}
}
