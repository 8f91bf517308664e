package processors

import (
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// C07: Mondays of week 2 of 2020 and of 2021 with different trips must not share a service ID.
func TestDemoNonOverlapYears(t *testing.T) {
	feed := gtfsparser.NewFeed()
	for i, d := range []gtfs.Date{gtfs.NewDate(6, 1, 2020), gtfs.NewDate(11, 1, 2021)} {
		s := gtfs.EmptyService()
		s.SetId("s" + string(rune('0'+i)))
		s.SetExceptionTypeOn(d, 1)
		feed.Services[s.Id()] = s
		tr := &gtfs.Trip{Id: "t" + s.Id(), Service: s}
		feed.Trips[tr.Id] = tr
	}
	ServiceNonOverlapper{DayNames: []string{"Su", "Mo", "Tu", "We", "Th", "Fr", "Sa"}, YearWeekName: "WW"}.Run(feed)
	if len(feed.Services) != 2 {
		t.Error(len(feed.Services), "services instead of 2")
	}
	for _, tr := range feed.Trips {
		if feed.Services[tr.Service.Id()] != tr.Service {
			t.Error("service of " + tr.Id + " is not in the feed")
		}
	}
}
