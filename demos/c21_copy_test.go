package processors

import (
	"testing"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// C21: copies of a trip carry its frequencies, attributions and non-standard fields.
func demoCopyFeed() *gtfsparser.Feed {
	feed := gtfsparser.NewFeed()
	s := gtfs.EmptyService()
	s.SetId("s")
	for d := uint8(1); d <= 3; d++ {
		s.SetExceptionTypeOn(gtfs.NewDate(d, 1, 2020), 1)
	}
	feed.Services["s"] = s
	f := &gtfs.Frequency{Headway_secs: 60}
	feed.Trips["t"] = &gtfs.Trip{Id: "t", Service: s, Frequencies: &[]*gtfs.Frequency{f}, Attributions: &[]*gtfs.Attribution{{Id: "a"}}}
	feed.TripsAddFlds["col"] = map[string]string{"t": "v"}
	feed.StopTimesAddFlds["col"] = map[string]map[int]string{"t": {1: "v"}}
	feed.FrequenciesAddFlds["col"] = map[string]map[*gtfs.Frequency]string{"t": {f: "v"}}
	return feed
}

func demoCopyCheck(t *testing.T, feed *gtfsparser.Feed) {
	if len(feed.Trips) != 3 {
		t.Fatal(len(feed.Trips), " trips")
	}
	ids := map[string]bool{}
	var fr *[]*gtfs.Frequency
	for id, tr := range feed.Trips {
		if tr.Frequencies == nil || len(*tr.Frequencies) != 1 || tr.Frequencies == fr {
			t.Error("frequencies of " + id + " lost or shared")
			continue
		}
		fr = tr.Frequencies
		if tr.Attributions == nil || len(*tr.Attributions) != 1 {
			t.Error("attributions of " + id + " lost")
			continue
		}
		if a := (*tr.Attributions)[0].Id; a != "" && ids[a] {
			t.Error("attribution ID used twice: " + a)
		} else {
			ids[a] = true
		}
		if feed.TripsAddFlds["col"][id] != "v" || feed.StopTimesAddFlds["col"][id][1] != "v" || feed.FrequenciesAddFlds["col"][id][(*tr.Frequencies)[0]] != "v" {
			t.Error("non-standard fields of " + id + " lost")
		}
	}
}

func TestDemoCopyCalDates(t *testing.T) {
	feed := demoCopyFeed()
	ServiceCalDatesRem{}.Run(feed)
	demoCopyCheck(t, feed)
}

func TestDemoCopyNonOverlapper(t *testing.T) {
	feed := demoCopyFeed()
	ServiceNonOverlapper{DayNames: []string{"Su", "Mo", "Tu", "We", "Th", "Fr", "Sa"}, YearWeekName: "WW"}.Run(feed)
	demoCopyCheck(t, feed)
}
